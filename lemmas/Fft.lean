import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.RingTheory.RootsOfUnity.Complex
import Mathlib.NumberTheory.LegendreSymbol.AddCharacter
import Mathlib.Analysis.Fourier.ZMod

/-! Mathematics the verifier uses as rewriting rules (roots of unity W, dv/terms.py; s = -1 forward, s = 1 inverse) and as lemmas
(re-indexing of a sum in the contract of kf_work, convolution theorem in the contract of hkm_fc). -/
open Finset

/-- a sum over l < p m is the sum over q < p and j < m of the terms l = q + p j -/
theorem sum_reindex {M : Type*} [AddCommMonoid M] (p m : ℕ) (g : ℕ → M) :
    ∑ l ∈ range (p * m), g l = ∑ q ∈ range p, ∑ j ∈ range m, g (q + p * j) := by
  rw [sum_comm]
  induction m with
  | zero => simp
  | succ k ih => rw [Nat.mul_succ, sum_range_add, ih, sum_range_succ]; simp [add_comm]

noncomputable def W (s : ℤ) (e N : ℤ) : ℂ := Complex.exp (s * (2 * Real.pi * Complex.I * e / N))

theorem W_add (s a b N : ℤ) : W s a N * W s b N = W s (a + b) N := by
  unfold W; rw [← Complex.exp_add]; congr 1; push_cast; ring

theorem W_zero (s N : ℤ) : W s 0 N = 1 := by simp [W]

theorem W_period (s k N : ℤ) (h : N ≠ 0) : W s (k * N) N = 1 := by
  unfold W
  have : (N : ℂ) ≠ 0 := by exact_mod_cast h
  rw [Complex.exp_eq_one_iff]
  refine ⟨s * k, ?_⟩
  push_cast; field_simp

theorem W_scale (s e N k : ℤ) (h : k ≠ 0) : W s (k * e) (k * N) = W s e N := by
  unfold W
  have : (k : ℂ) ≠ 0 := by exact_mod_cast h
  congr 2
  push_cast
  rw [show (2 * (Real.pi : ℂ) * Complex.I * (k * e)) = k * (2 * Real.pi * Complex.I * e) by ring]
  exact mul_div_mul_left _ _ this

theorem W_neg (s e N : ℤ) : W (-s) e N = W s (-e) N := by
  unfold W; congr 1; push_cast; ring

theorem W_half (s N : ℤ) (h : N ≠ 0) (hs : s = 1 ∨ s = -1) : W s N (2 * N) = -1 := by
  have := W_scale s 1 2 N h
  rw [mul_one, mul_comm N 2] at this
  rw [this]; unfold W
  rcases hs with rfl | rfl
  · push_cast
    rw [show (1 : ℂ) * (2 * Real.pi * Complex.I * 1 / 2) = Real.pi * Complex.I by ring, Complex.exp_pi_mul_I]
  · push_cast
    rw [show (-1 : ℂ) * (2 * Real.pi * Complex.I * 1 / 2) = -(Real.pi * Complex.I) by ring, Complex.exp_neg, Complex.exp_pi_mul_I]
    norm_num

theorem W_quarter (s N : ℤ) (h : N ≠ 0) (hs : s = 1 ∨ s = -1) : W s N (4 * N) = s * Complex.I := by
  have := W_scale s 1 4 N h
  rw [mul_one, mul_comm N 4] at this
  rw [this]; unfold W
  rcases hs with rfl | rfl
  · push_cast
    rw [show (1 : ℂ) * (2 * Real.pi * Complex.I * 1 / 4) = Real.pi / 2 * Complex.I by ring, Complex.exp_pi_div_two_mul_I]; simp
  · push_cast
    rw [show (-1 : ℂ) * (2 * Real.pi * Complex.I * 1 / 4) = -(Real.pi / 2 * Complex.I) by ring, Complex.exp_neg, Complex.exp_pi_div_two_mul_I]
    simp

theorem W_conj (s e N : ℤ) : (starRingEnd ℂ) (W s e N) = W (-s) e N := by
  unfold W
  rw [← Complex.exp_conj]; congr 1
  have h2 : (starRingEnd ℂ) 2 = 2 := by exact_mod_cast Complex.conj_ofReal 2
  simp [h2]; ring

/-- the p-th roots of unity add up to zero -/
theorem W_sum (s : ℤ) (hs : s = 1 ∨ s = -1) (N : ℤ) (h : N ≠ 0) (p : ℕ) (hp : 1 < p) :
    ∑ k ∈ range p, W s (k * N) (p * N) = 0 := by
  have key : ∀ k : ℕ, W s (k * N) (p * N) = (W s 1 p) ^ k := by
    intro k
    rw [mul_comm (k : ℤ) N, mul_comm (p : ℤ) N, W_scale s k p N h]
    unfold W; rw [← Complex.exp_nat_mul]; congr 1; push_cast; ring
  simp_rw [key]
  have hprim : IsPrimitiveRoot (W s 1 p) p := by
    have h1 := Complex.isPrimitiveRoot_exp p (by omega)
    rcases hs with rfl | rfl
    · have e : W 1 1 p = Complex.exp (2 * Real.pi * Complex.I / p) := by unfold W; congr 1; push_cast; ring
      rw [e]; exact h1
    · have e : W (-1) 1 p = (Complex.exp (2 * Real.pi * Complex.I / p))⁻¹ := by
        unfold W; rw [← Complex.exp_neg]; congr 1; push_cast; ring
      rw [e]; exact h1.inv
  exact hprim.geom_sum_eq_zero hp


/-- convolution theorem: the inverse transform of the product of two transforms of length Q is the cyclic convolution -/
theorem convolution (Q : ℕ) [NeZero Q] (x y : ZMod Q → ℂ) (k : ZMod Q) :
    (∑ f : ZMod Q, (∑ a, x a * ZMod.stdAddChar (-(f * a))) * (∑ b, y b * ZMod.stdAddChar (-(f * b))) * ZMod.stdAddChar (f * k))
      = Q * ∑ a, x a * y (k - a) := by
  have step : ∀ f : ZMod Q, (∑ a, x a * ZMod.stdAddChar (-(f * a))) * (∑ b, y b * ZMod.stdAddChar (-(f * b))) * ZMod.stdAddChar (f * k)
      = ∑ a, ∑ b, x a * y b * (ZMod.stdAddChar (f * (k - a - b)) : ℂ) := by
    intro f
    rw [sum_mul_sum, sum_mul]
    refine sum_congr rfl fun a _ => ?_
    rw [sum_mul]
    refine sum_congr rfl fun b _ => ?_
    have : f * (k - a - b) = -(f * a) + (-(f * b) + f * k) := by ring
    rw [this, AddChar.map_add_eq_mul, AddChar.map_add_eq_mul]; ring
  simp_rw [step]
  rw [sum_comm]
  rw [mul_sum]
  refine sum_congr rfl fun a _ => ?_
  rw [sum_comm]
  have orth : ∀ b : ZMod Q, ∑ f : ZMod Q, x a * y b * (ZMod.stdAddChar (f * (k - a - b)) : ℂ)
      = if b = k - a then Q * (x a * y b) else 0 := by
    intro b
    rw [← mul_sum, AddChar.sum_mulShift _ (ZMod.isPrimitive_stdAddChar Q)]
    by_cases h : b = k - a
    · subst h; simp [ZMod.card]; ring
    · have : k - a - b ≠ 0 := fun hh => h (by rw [sub_eq_zero] at hh; exact hh.symm)
      simp [h, this]
  simp_rw [orth]
  simp

/-- the inverse DFT undoes the DFT (one axis) -/
theorem dft_inverse {Q : ℕ} [NeZero Q] (x : ZMod Q → ℂ) (a : ZMod Q) :
    ∑ p : ZMod Q, (ZMod.stdAddChar (-(p * a)) : ℂ) * ((1 / (Q:ℂ)) * ∑ k : ZMod Q, (ZMod.stdAddChar (p * k) : ℂ) * x k) = x a := by
  have hQ : (Q:ℂ) ≠ 0 := by exact_mod_cast NeZero.ne Q
  simp_rw [mul_sum]
  rw [sum_comm]
  have orth : ∀ k : ZMod Q, ∑ p : ZMod Q, (ZMod.stdAddChar (-(p * a)) : ℂ) * (1 / (Q:ℂ) * ((ZMod.stdAddChar (p * k) : ℂ) * x k))
      = if k = a then x a else 0 := by
    intro k
    have : ∀ p : ZMod Q, (ZMod.stdAddChar (-(p * a)) : ℂ) * (1 / (Q:ℂ) * ((ZMod.stdAddChar (p * k) : ℂ) * x k)) =
        (1 / (Q:ℂ) * x k) * ZMod.stdAddChar (p * (k - a)) := by
      intro p
      rw [show p * (k - a) = -(p * a) + p * k by ring, AddChar.map_add_eq_mul]; ring
    simp_rw [this]
    rw [← mul_sum, AddChar.sum_mulShift _ (ZMod.isPrimitive_stdAddChar Q)]
    by_cases h : k = a
    · subst h; simp [ZMod.card]; field_simp
    · have : k - a ≠ 0 := fun hh => h (by rw [sub_eq_zero] at hh; exact hh)
      simp [h, this]
  simp_rw [orth]
  simp

/-- both axes -/
theorem dft2_inverse {Q R : ℕ} [NeZero Q] [NeZero R] (x : ZMod Q → ZMod R → ℂ) (a : ZMod Q) (b : ZMod R) :
    ∑ p : ZMod Q, ∑ q : ZMod R, (ZMod.stdAddChar (-(p * a)) : ℂ) * (ZMod.stdAddChar (-(q * b)) : ℂ) *
      ((1 / (Q * R : ℂ)) * ∑ k : ZMod Q, ∑ l : ZMod R, (ZMod.stdAddChar (p * k) : ℂ) * (ZMod.stdAddChar (q * l) : ℂ) * x k l) = x a b := by
  have h1 := dft_inverse (fun k => x k b) a
  rw [← h1]
  apply sum_congr rfl
  intro p _
  have h2 : ∀ k, (ZMod.stdAddChar (p * k) : ℂ) * x k b = (ZMod.stdAddChar (p * k) : ℂ) * ∑ q : ZMod R, (ZMod.stdAddChar (-(q * b)) : ℂ) * ((1 / (R:ℂ)) * ∑ l : ZMod R, (ZMod.stdAddChar (q * l) : ℂ) * x k l) :=
    fun k => by rw [dft_inverse (fun l => x k l) b]
  rw [sum_congr rfl fun k _ => h2 k]
  simp only [mul_sum]
  rw [sum_comm]
  refine sum_congr rfl fun k _ => sum_congr rfl fun q _ => sum_congr rfl fun l _ => ?_
  rw [one_div, one_div, one_div, mul_inv]; ring

#print axioms sum_reindex
#print axioms W_add
#print axioms W_zero
#print axioms W_period
#print axioms W_scale
#print axioms W_neg
#print axioms W_half
#print axioms W_quarter
#print axioms W_conj
#print axioms W_sum
#print axioms convolution
#print axioms dft_inverse
#print axioms dft2_inverse
