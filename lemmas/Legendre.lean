import Mathlib.Algebra.BigOperators.Intervals
import Mathlib.LinearAlgebra.Finsupp.LinearCombination
import Mathlib.Analysis.SpecialFunctions.Pow.Real
import Mathlib.Analysis.SpecialFunctions.Trigonometric.Basic
import Mathlib.Tactic

set_option linter.unusedSectionVars false
set_option linter.unusedSimpArgs false

/-! Legendre functions by their Fourier coefficients (C10, C11, C25) and the mathematics of the round trip (C26), over the contracts
of the transforms (dv/p_trans.py, dv/p_ops.py).

Trigonometric polynomials with real coefficients are finitely supported functions V = ℤ →₀ ℝ. The definitions from `Row` on
transcribe the specifications the verifier proves of the code:
  ynnm  <- ynnm_spec          Row  <- y_relations         Sv, hk <- S_value, h_spec      bnm <- bnm_spec
  Frow  <- fcvec_spec         pad, Sn <- padded, sin_of   Div <- divsin_fc (C16)
  Vth, Vph <- rows of vispht  Dat <- sinLdot in vspht     scal <- scaled
The groups `spht of ispht` and `vspht of vispht` of dv/p_round.py prove of the code that its composition has exactly this form.
-/
open Finset

namespace Leg

/-- trigonometric polynomials: coefficient of e^{ik theta} -/
abbrev V := ℤ →₀ ℝ
noncomputable abbrev e (k : ℤ) : V := Finsupp.single k 1

/-- multiplication by 2 cos theta, by 2 i sin theta, and -i d/d theta -/
noncomputable def C : V →ₗ[ℝ] V := Finsupp.linearCombination ℝ (fun k => e (k+1) + e (k-1))
noncomputable def S : V →ₗ[ℝ] V := Finsupp.linearCombination ℝ (fun k => e (k+1) - e (k-1))
noncomputable def D : V →ₗ[ℝ] V := Finsupp.linearCombination ℝ (fun k => (k:ℝ) • e k)

theorem C_e (k : ℤ) : C (e k) = e (k+1) + e (k-1) := by simp [C, e, Finsupp.linearCombination_single]
theorem S_e (k : ℤ) : S (e k) = e (k+1) - e (k-1) := by simp [S, e, Finsupp.linearCombination_single]
theorem D_e (k : ℤ) : D (e k) = (k:ℝ) • e k := by simp [D, e, Finsupp.linearCombination_single]

theorem ext_e {M : Type*} [AddCommMonoid M] [Module ℝ M] {f g : V →ₗ[ℝ] M} (h : ∀ k, f (e k) = g (e k)) : f = g := by
  apply Finsupp.lhom_ext'
  intro k
  ext
  simpa using h k

theorem C_apply (f : V) (k : ℤ) : C f k = f (k-1) + f (k+1) := by
  have h : (Finsupp.lapply k).comp C = Finsupp.lapply (k-1) + (Finsupp.lapply (k+1) : V →ₗ[ℝ] ℝ) := by
    apply ext_e; intro j
    simp only [LinearMap.comp_apply, C_e, LinearMap.add_apply, Finsupp.lapply_apply, map_add, e, Finsupp.single_apply]
    congr 1
    · congr 1; apply propext; constructor <;> intro h <;> omega
    · congr 1; apply propext; constructor <;> intro h <;> omega
  exact LinearMap.congr_fun h f

theorem S_apply (f : V) (k : ℤ) : S f k = f (k-1) - f (k+1) := by
  have h : (Finsupp.lapply k).comp S = Finsupp.lapply (k-1) - (Finsupp.lapply (k+1) : V →ₗ[ℝ] ℝ) := by
    apply ext_e; intro j
    simp only [LinearMap.comp_apply, S_e, LinearMap.sub_apply, Finsupp.lapply_apply, map_sub, e, Finsupp.single_apply]
    congr 1
    · congr 1; apply propext; constructor <;> intro h <;> omega
    · congr 1; apply propext; constructor <;> intro h <;> omega
  exact LinearMap.congr_fun h f

theorem D_apply (f : V) (k : ℤ) : D f k = k * f k := by
  have h : (Finsupp.lapply k).comp D = (k:ℝ) • (Finsupp.lapply k : V →ₗ[ℝ] ℝ) := by
    apply ext_e; intro j
    simp only [LinearMap.comp_apply, D_e, LinearMap.smul_apply, Finsupp.lapply_apply, map_smul, e, Finsupp.single_apply, smul_eq_mul]
    split_ifs with h
    · rw [h]
    · simp
  exact LinearMap.congr_fun h f

theorem DC (f : V) : D (C f) = S f + C (D f) := by
  ext k; simp only [D_apply, C_apply, S_apply, Finsupp.add_apply]; push_cast; ring
theorem DS (f : V) : D (S f) = C f + S (D f) := by
  ext k; simp only [D_apply, C_apply, S_apply, Finsupp.add_apply]; push_cast; ring
theorem SC (f : V) : S (C f) = C (S f) := by
  ext k; simp only [C_apply, S_apply]; ring_nf
theorem CC (f : V) : C (C f) = S (S f) + (4:ℝ) • f := by
  ext k; simp only [C_apply, S_apply, Finsupp.add_apply, Finsupp.smul_apply, smul_eq_mul]
  rw [show k - 1 + 1 = k by ring, show k + 1 - 1 = k by ring]; ring

/-- half the integral of e^{il theta} sin theta over [0, pi] for even l -/
noncomputable def w (l : ℤ) : ℝ := if Even l then 1 / (1 - (l:ℝ)^2) else 0

noncomputable def B : V →ₗ[ℝ] V →ₗ[ℝ] ℝ :=
  Finsupp.linearCombination ℝ (fun j => Finsupp.linearCombination ℝ (fun k => w (j + k)))

theorem B_e (j k : ℤ) : B (e j) (e k) = w (j + k) := by
  simp [B, e, Finsupp.linearCombination_single]

theorem ext_B {f g : V →ₗ[ℝ] V →ₗ[ℝ] ℝ} (h : ∀ j k, f (e j) (e k) = g (e j) (e k)) : f = g := by
  apply ext_e; intro j; apply ext_e; intro k; exact h j k

theorem B_symm (f g : V) : B f g = B g f := by
  have h : B = B.flip := by
    apply ext_B; intro j k; rw [LinearMap.flip_apply, B_e, B_e, add_comm]
  exact LinearMap.congr_fun (LinearMap.congr_fun h f) g

theorem B_C (f g : V) : B (C f) g = B f (C g) := by
  have h : B.comp C = B.compl₂ C := by
    apply ext_B; intro j k
    simp only [LinearMap.comp_apply, LinearMap.compl₂_apply, C_e, map_add, LinearMap.add_apply, B_e]
    congr 2 <;> ring
  exact LinearMap.congr_fun (LinearMap.congr_fun h f) g

theorem B_S (f g : V) : B (S f) g = B f (S g) := by
  have h : B.comp S = B.compl₂ S := by
    apply ext_B; intro j k
    simp only [LinearMap.comp_apply, LinearMap.compl₂_apply, S_e, map_sub, LinearMap.sub_apply, B_e]
    congr 2 <;> ring
  exact LinearMap.congr_fun (LinearMap.congr_fun h f) g

theorem w_rel (l : ℤ) : (l + 2) * w (l+1) + (2 - l) * w (l-1) = 0 := by
  unfold w
  by_cases h : Even l
  · have h1 : ¬ Even (l+1) := by simpa [Int.even_add_one] using h
    have h2 : ¬ Even (l-1) := by simpa [Int.even_sub_one] using h
    simp [h1, h2]
  · have h1 : Even (l+1) := by simpa [Int.even_add_one] using h
    have h2 : Even (l-1) := by simpa [Int.even_sub_one] using h
    simp only [h1, h2, if_true]
    have hl : (l:ℝ) ≠ 0 := by
      intro h0; apply h; have : l = 0 := by exact_mod_cast h0
      simp [this]
    have hl2 : (l:ℝ) + 2 ≠ 0 := by
      intro h0
      have h3 : l + 2 = 0 := by exact_mod_cast h0
      have h4 : l = -2 := by omega
      subst h4
      exact h (by decide)
    have hl3 : (l:ℝ) - 2 ≠ 0 := by
      intro h0
      have h3 : l - 2 = 0 := by exact_mod_cast h0
      have h4 : l = 2 := by omega
      subst h4
      exact h (by decide)
    push_cast
    have e1 : 1 - ((l:ℝ) + 1)^2 = -(l * (l+2)) := by ring
    have e2 : 1 - ((l:ℝ) - 1)^2 = -(l * (l-2)) := by ring
    rw [e1, e2]; field_simp; ring

/-- integration by parts -/
theorem B_SD (f g : V) : B (S (D f)) g + B f (S (D g)) + 2 * B (C f) g = 0 := by
  have h : B.comp (S.comp D) + B.compl₂ (S.comp D) + (2:ℝ) • B.comp C = 0 := by
    apply ext_B; intro j k
    simp only [LinearMap.add_apply, LinearMap.comp_apply, LinearMap.compl₂_apply, LinearMap.smul_apply, D_e, map_smul, S_e, C_e, map_sub, map_add,
      LinearMap.sub_apply, B_e, LinearMap.zero_apply, smul_eq_mul]
    have := w_rel (j + k)
    push_cast at this
    rw [show j + 1 + k = j + k + 1 by ring, show j - 1 + k = j + k - 1 by ring, show j + (k + 1) = j + k + 1 by ring,
      show j + (k - 1) = j + k - 1 by ring]
    linear_combination this
  have := LinearMap.congr_fun (LinearMap.congr_fun h f) g
  simpa using this

/-! ladder operators -/
noncomputable def R (n : ℝ) (f : V) : V := (n+1) • C f + S (D f)
noncomputable def Lo (n : ℝ) (f : V) : V := n • C f - S (D f)
def E (n m : ℝ) (f : V) : Prop := S (D (S (D f))) = (n*(n+1)) • S (S f) + (4*m^2) • f

theorem E_lower {n m : ℝ} {f : V} (h : E n m f) : Lo (n+1) (R n f) = (4*((n+1)^2 - m^2)) • f := by
  unfold E at h
  unfold Lo R
  simp only [map_add, map_smul, DC, CC, SC, h, smul_add]
  module

theorem E_raise {n m : ℝ} {f : V} (h : E n m f) : E (n+1) m (R n f) := by
  unfold E at *
  unfold R
  have hC := congrArg C h
  have hS := congrArg (fun x => S (D x)) h
  simp only [map_add, map_smul, DC, DS, SC, CC, smul_add] at hC hS ⊢
  linear_combination (norm := module) (n+1) • hC + hS

theorem E_coef {n m : ℝ} {f : V} (h : E n m f) (k : ℤ) :
    (n-k)*(n+k+1) * f k = ((n-(k+1))*(n+(k+1)+1) + (n-(k+2))*(n+(k+2)+1) - 4*m*m) * f (k+2) - (n-(k+3))*(n+(k+3)+1) * f (k+4) := by
  have h2 := DFunLike.congr_fun h (k+2)
  simp only [S_apply, D_apply, Finsupp.add_apply, Finsupp.smul_apply, smul_eq_mul] at h2
  rw [show k+2-1-1 = k by ring, show k+2-1+1 = k+2 by ring, show k+2+1-1 = k+2 by ring, show k+2+1+1 = k+4 by ring] at h2
  push_cast at h2
  linear_combination -h2

/-- sin^m and the unnormalised Legendre functions of order m, degree m + j -/
noncomputable def u : ℕ → V
  | 0 => e 0
  | m+1 => S (u m)
noncomputable def fam (m : ℕ) : ℕ → V
  | 0 => u m
  | j+1 => R (m+j) (fam m j)

theorem SDu (m : ℕ) : S (D (u m)) = (m:ℝ) • C (u m) := by
  induction m with
  | zero => simp only [u, D_e]; simp
  | succ m ih =>
    simp only [u, DS, map_add, ih, map_smul, SC]
    push_cast
    module

theorem E_u (m : ℕ) : E m m (u m) := by
  unfold E
  rw [SDu]
  simp only [map_smul, DC, map_add, SC, SDu, CC]
  module

theorem E_fam (m j : ℕ) : E (m+j) m (fam m j) := by
  induction j with
  | zero => simpa [fam] using E_u m
  | succ j ih =>
    have := E_raise ih
    simp only [fam]
    push_cast
    rwa [← add_assoc]

def kap (m : ℕ) (j : ℕ) : ℝ := 4 * ((m+j:ℝ)^2 - (m:ℝ)^2)
/-- fam one degree down, 0 below the order -/
noncomputable def pre (m : ℕ) : ℕ → V
  | 0 => 0
  | j+1 => fam m j

theorem lower (m j : ℕ) : (m+j:ℝ) • C (fam m j) - S (D (fam m j)) = kap m j • pre m j := by
  cases j with
  | zero => simp [fam, pre, SDu]
  | succ j =>
    have := E_lower (E_fam m j)
    simp only [fam, pre, kap]
    unfold Lo at this
    push_cast
    rw [← add_assoc, this]

theorem raise (m j : ℕ) : (m+j+1:ℝ) • C (fam m j) + S (D (fam m j)) = fam m (j+1) := by
  simp [fam, R]

theorem three (m j : ℕ) : (2*(m+j)+1:ℝ) • C (fam m j) = fam m (j+1) + kap m j • pre m j := by
  rw [← lower, ← raise]; module

theorem adj (m i j : ℕ) : (2*(m+j)+1) * B (fam m (i+1)) (fam m j) = ((i:ℝ)-1-j) * B (fam m i) (fam m (j+1)) + (2*m+i+j) * kap m j * B (fam m i) (pre m j) := by
  have h1 := B_SD (fam m i) (fam m j)
  rw [← raise m i]
  have h3 := congrArg (B (fam m i)) (three m j)
  have h4 := congrArg (B (fam m i)) (lower m j)
  simp only [map_add, map_sub, map_smul, LinearMap.add_apply, LinearMap.smul_apply, smul_eq_mul, B_C] at h1 h3 h4 ⊢
  linear_combination (2*(m+j)+1:ℝ) * h1 + ((i:ℝ)-1-j) * h3 + (2*(m+j)+1:ℝ) * h4

theorem orth_lt (m i : ℕ) : ∀ j < i, B (fam m i) (fam m j) = 0 := by
  induction i with
  | zero => intro j hj; omega
  | succ i ih =>
    intro j hj
    have h := adj m i j
    have hp : B (fam m i) (pre m j) = 0 := by
      cases j with
      | zero => simp [pre]
      | succ j => exact ih j (by omega)
    rw [hp] at h
    have hz : (2*(m+j)+1:ℝ) ≠ 0 := by positivity
    rcases Nat.lt_or_ge (j+1) i with h1 | h1
    · rw [ih (j+1) h1] at h
      simp at h
      rcases h with h | h
      · exact absurd h (by positivity)
      · exact h
    · rcases Nat.lt_or_ge j i with h2 | h2
      · have : (i:ℝ) - 1 - j = 0 := by
          have : i = j + 1 := by omega
          subst this; push_cast; ring
        rw [this] at h
        simp at h
        rcases h with h | h
        · exact absurd h (by positivity)
        · exact h
      · have : j = i := by omega
        subst this
        rw [B_symm (fam m j) (fam m (j+1))] at h
        have h5 : (2*(m+j)+2:ℝ) * B (fam m (j+1)) (fam m j) = 0 := by linear_combination h
        rcases mul_eq_zero.1 h5 with h | h
        · exact absurd h (by positivity)
        · exact h

theorem orth (m i j : ℕ) (h : i ≠ j) : B (fam m i) (fam m j) = 0 := by
  rcases Nat.lt_or_gt_of_ne h with h | h
  · rw [B_symm]; exact orth_lt m j i h
  · exact orth_lt m i j h

noncomputable def Nrm (m j : ℕ) : ℝ := B (fam m j) (fam m j)

theorem Nrm_succ (m j : ℕ) : (2*(m+j)+3:ℝ) * Nrm m (j+1) = (2*(m+j)+1) * kap m (j+1) * Nrm m j := by
  have h := adj m j (j+1)
  rw [orth m j (j+1+1) (by omega)] at h
  simp only [pre] at h
  unfold Nrm
  push_cast at h
  linear_combination h

theorem Nrm_base (m : ℕ) : (2*m+3:ℝ) * Nrm (m+1) 0 = -8*(m+1) * Nrm m 0 := by
  have h1 := Nrm_succ m 0
  have h2 : (2*m+1:ℝ) • C (u m) = fam m 1 := by
    have := three m 0
    simpa [pre, fam] using this
  have h3 : B (C (u m)) (C (u m)) * (2*m+1)^2 = Nrm m 1 := by
    unfold Nrm
    rw [← h2]; simp only [map_smul, LinearMap.smul_apply, smul_eq_mul]; ring
  have h4 : Nrm (m+1) 0 = B (C (u m)) (C (u m)) - 4 * Nrm m 0 := by
    simp only [Nrm, fam, u]
    rw [B_S, B_C, CC]; simp only [map_add, map_smul, smul_eq_mul]; ring
  have h5 : kap m 1 = 4 * (2*m+1) := by unfold kap; push_cast; ring
  rw [h4]
  rw [h5, ← h3] at h1
  have hz : (2*m+1:ℝ)^2 ≠ 0 := by positivity
  apply mul_left_cancel₀ hz
  push_cast at h1
  simp only [add_zero] at h1
  linear_combination h1

theorem Nrm_zero : Nrm 0 0 = 1 := by
  simp [Nrm, fam, u, B_e, w]

/-! coefficients of fam -/
theorem SDf_apply (f : V) (k : ℤ) : S (D f) k = (k-1) * f (k-1) - (k+1) * f (k+1) := by
  rw [S_apply, D_apply, D_apply]; push_cast; ring

theorem R_apply (n : ℝ) (f : V) (k : ℤ) : R n f k = (n + k) * f (k-1) + (n - k) * f (k+1) := by
  unfold R
  rw [Finsupp.add_apply, Finsupp.smul_apply, C_apply, SDf_apply, smul_eq_mul]; ring

theorem u_supp (m : ℕ) : ∀ k : ℤ, (m:ℤ) < |k| → u m k = 0 := by
  induction m with
  | zero => intro k hk; simp only [u, e, Finsupp.single_apply]; rw [if_neg]; intro h; simp [← h] at hk
  | succ m ih =>
    intro k hk
    simp only [u, S_apply]
    rw [ih (k-1), ih (k+1)]
    · simp
    all_goals (push_cast at hk; rcases abs_cases k with ⟨h1, h2⟩ | ⟨h1, h2⟩ <;> rcases abs_cases (k+1) with ⟨h3, h4⟩ | ⟨h3, h4⟩ <;> rcases abs_cases (k-1) with ⟨h5, h6⟩ | ⟨h5, h6⟩ <;> omega)

theorem fam_supp (m j : ℕ) : ∀ k : ℤ, ((m+j:ℕ):ℤ) < |k| → fam m j k = 0 := by
  induction j with
  | zero => simpa [fam] using u_supp m
  | succ j ih =>
    intro k hk
    simp only [fam, R_apply]
    rw [ih (k-1), ih (k+1)]
    · simp
    all_goals (push_cast at hk ⊢; rcases abs_cases k with ⟨h1, h2⟩ | ⟨h1, h2⟩ <;> rcases abs_cases (k+1) with ⟨h3, h4⟩ | ⟨h3, h4⟩ <;> rcases abs_cases (k-1) with ⟨h5, h6⟩ | ⟨h5, h6⟩ <;> omega)

theorem u_par (m : ℕ) : ∀ k : ℤ, ¬ Even (m + k) → u m k = 0 := by
  induction m with
  | zero => intro k hk; simp only [u, e, Finsupp.single_apply]; rw [if_neg]; intro h; simp [← h] at hk
  | succ m ih =>
    intro k hk
    simp only [u, S_apply]
    rw [ih (k-1), ih (k+1)]
    · simp
    all_goals (push_cast at hk; intro h; apply hk; rw [Int.even_iff] at *; omega)

theorem fam_par (m j : ℕ) : ∀ k : ℤ, ¬ Even (((m+j:ℕ):ℤ) + k) → fam m j k = 0 := by
  induction j with
  | zero => simpa [fam] using u_par m
  | succ j ih =>
    intro k hk
    simp only [fam, R_apply]
    rw [ih (k-1), ih (k+1)]
    · simp
    all_goals (push_cast at hk ⊢; intro h; apply hk; rw [Int.even_iff] at *; omega)

theorem u_sym (m : ℕ) : ∀ k : ℤ, u m (-k) = (-1)^m * u m k := by
  induction m with
  | zero => intro k; simp [u, e, Finsupp.single_apply, eq_comm]
  | succ m ih =>
    intro k
    simp only [u, S_apply]
    rw [show -k - 1 = -(k+1) by ring, show -k + 1 = -(k-1) by ring, ih, ih]; ring

theorem fam_sym (m j : ℕ) : ∀ k : ℤ, fam m j (-k) = (-1)^m * fam m j k := by
  induction j with
  | zero => simpa [fam] using u_sym m
  | succ j ih =>
    intro k
    simp only [fam, R_apply]
    rw [show -k - 1 = -(k+1) by ring, show -k + 1 = -(k-1) by ring, ih, ih]; push_cast; ring

/-- top coefficient -/
noncomputable def top (m : ℕ) : ℕ → ℝ
  | 0 => 1
  | j+1 => (2*(m+j)+1) * top m j

theorem top_ne (m j : ℕ) : top m j ≠ 0 := by
  induction j with
  | zero => simp [top]
  | succ j ih => simp only [top]; exact mul_ne_zero (by positivity) ih

theorem u_top (m : ℕ) : u m m = 1 := by
  induction m with
  | zero => simp [u, e]
  | succ m ih =>
    simp only [u, S_apply]
    rw [u_supp m (_ + 1)]
    · push_cast; simpa using ih
    · push_cast; rw [abs_of_nonneg (by omega)]; omega

theorem fam_top (m j : ℕ) : fam m j ((m+j:ℕ):ℤ) = top m j := by
  induction j with
  | zero => simpa [fam, top] using u_top m
  | succ j ih =>
    simp only [fam, R_apply, top]
    rw [fam_supp m j (_ + 1)]
    · rw [show (((m+(j+1):ℕ):ℤ) - 1) = ((m+j:ℕ):ℤ) by push_cast; ring, ih]; push_cast; ring
    · push_cast; rw [abs_of_nonneg (by omega)]; omega

/-- what the contract of ynunm says about the row it returns: degree n, order m, v the start value -/
structure Row (n : ℕ) (m : ℤ) (v : ℂ) (y : ℕ → ℂ) : Prop where
  start : y n = v
  beyond : ∀ k, n < k → y k = 0
  odd : ∀ k, k < n → Odd (n - k) → y k = 0
  recur : ∀ k, k + 2 ≤ n → Even (n - k) →
    ((n:ℂ) - k) * (n + k + 1) * y k = ((n - (k+1)) * (n + (k+1) + 1) + (n - (k+2)) * (n + (k+2) + 1) - 4 * m * m) * y (k+2) - (n - (k+3)) * (n + (k+3) + 1) * y (k+4)

theorem row_eq (m : ℕ) (s : ℤ) (hs : s = m ∨ s = -m) (j : ℕ) (v : ℂ) (y : ℕ → ℂ) (h : Row (m+j) s v y) (k : ℕ) :
    y k = v / top m j * (fam m j k : ℝ) := by
  have ht : ((top m j : ℝ):ℂ) ≠ 0 := by exact_mod_cast top_ne m j
  have key : ∀ d k : ℕ, (m + j) = k + d → y k = v / top m j * (fam m j k : ℝ) := by
    intro d
    induction d using Nat.strong_induction_on with
    | _ d ih =>
      intro k hk
      rcases Nat.eq_zero_or_pos d with h0 | h0
      · have : k = m + j := by omega
        rw [this, h.start, fam_top]; field_simp
      · rcases Nat.even_or_odd d with hd | hd
        · have hd2 : 2 ≤ d := by rcases hd with ⟨a, ha⟩; omega
          have h1 := h.recur k (by omega) (by rw [show m + j - k = d by omega]; exact hd)
          have h2 : y (k+2) = v / top m j * (fam m j ((k+2:ℕ):ℤ) : ℝ) := ih (d-2) (by omega) (k+2) (by omega)
          have h3 : y (k+4) = v / top m j * (fam m j ((k+4:ℕ):ℤ) : ℝ) := by
            rcases Nat.lt_or_ge d 4 with h4 | h4
            · rw [h.beyond _ (by omega), fam_supp]
              · simp
              · rw [abs_of_nonneg (by positivity)]; push_cast; omega
            · exact ih (d-4) (by omega) (k+4) (by omega)
          have h5 := E_coef (E_fam m j) (k:ℤ)
          rw [h2, h3] at h1
          have hne : ((m+j:ℕ):ℂ) - k ≠ 0 := by
            intro h6
            have : ((m+j:ℕ):ℂ) = ((k:ℕ):ℂ) := by linear_combination h6
            have : m + j = k := by exact_mod_cast this
            omega
          have hne2 : ((m+j:ℕ):ℂ) + k + 1 ≠ 0 := by
            have : ((m+j+k+1:ℕ):ℂ) ≠ 0 := by exact_mod_cast Nat.succ_ne_zero (m+j+k)
            intro h7; apply this; push_cast; push_cast at h7; exact h7
          apply mul_left_cancel₀ (mul_ne_zero hne hne2)
          rw [h1]
          have h6 := congrArg (fun x : ℝ => (x:ℂ)) h5
          have hss : (s:ℂ) * s = m * m := by rcases hs with h | h <;> rw [h] <;> push_cast <;> ring
          push_cast at h6 ⊢
          linear_combination (-v / top m j) * h6 + (-4 * (v / top m j * (fam m j (k+2) : ℝ))) * hss
        · rw [h.odd k (by omega) (by rw [show m + j - k = d by omega]; exact hd), fam_par]
          · simp
          · rw [hk]
            intro h8
            rw [Int.even_iff] at h8
            rcases hd with ⟨a, ha⟩
            push_cast at h8
            omega
  rcases Nat.lt_or_ge (m+j) k with h1 | h1
  · rw [h.beyond k h1, fam_supp]
    · simp
    · rw [abs_of_nonneg (by positivity)]; exact_mod_cast h1
  · exact key (m+j-k) k (by omega)

/-! start values -/
/-- what the contract of ynnm says, degree m + j, order +-m -/
noncomputable def ynnm (m j : ℕ) : ℝ :=
  √(1 / (4 * Real.pi)) * (∏ k ∈ range (m+j), √((2 * ((k:ℝ) + 1) + 1) / (8 * ((k:ℝ) + 1)))) * (∏ k ∈ range j, √(((2*m+j:ℝ) + k + 1) / ((j:ℝ) - k)))

noncomputable def qA (m j : ℕ) : ℝ := ∏ k ∈ range j, ((2*m+j:ℝ) + k + 1)
noncomputable def qB (j : ℕ) : ℝ := ∏ k ∈ range j, ((j:ℝ) - k)
noncomputable def qC (n : ℕ) : ℝ := ∏ k ∈ range n, ((2 * ((k:ℝ) + 1) + 1) / (8 * ((k:ℝ) + 1)))

theorem ynnm_sq (m j : ℕ) : ynnm m j ^ 2 = 1 / (4 * Real.pi) * qC (m+j) * (qA m j / qB j) := by
  unfold ynnm qA qB qC
  rw [mul_pow, mul_pow, Real.sq_sqrt (by positivity), ← Finset.prod_pow, ← Finset.prod_pow, ← Finset.prod_div_distrib]
  congr 1
  · congr 1
    apply Finset.prod_congr rfl
    intro k _
    rw [Real.sq_sqrt (by positivity)]
  · apply Finset.prod_congr rfl
    intro k hk
    have : (k:ℝ) < j := by exact_mod_cast Finset.mem_range.1 hk
    rw [Real.sq_sqrt]
    apply div_nonneg (by positivity); linarith

theorem qB_succ (j : ℕ) : qB (j+1) = (j+1) * qB j := by
  unfold qB
  rw [Finset.prod_range_succ']
  push_cast
  rw [mul_comm]
  congr 1
  · ring
  · apply Finset.prod_congr rfl; intro k _; ring

theorem qB_ne (j : ℕ) : qB j ≠ 0 := by
  induction j with
  | zero => simp [qB]
  | succ j ih => rw [qB_succ]; exact mul_ne_zero (by positivity) ih

theorem qA_succ (m j : ℕ) : (2*m+j+1) * qA m (j+1) = (2*m+2*j+1) * (2*m+2*j+2) * qA m j := by
  have h : ∏ k ∈ range (j+2), ((2*m+j:ℝ) + k + 1) = (2*m+j+1) * qA m (j+1) := by
    rw [Finset.prod_range_succ', mul_comm]
    unfold qA
    congr 1
    · push_cast; ring
    · apply Finset.prod_congr rfl; intro k _; push_cast; ring
  rw [← h, Finset.prod_range_succ, Finset.prod_range_succ]
  unfold qA
  push_cast; ring

theorem qC_succ (n : ℕ) : qC (n+1) = qC n * ((2 * ((n:ℝ) + 1) + 1) / (8 * ((n:ℝ) + 1))) := by
  unfold qC; rw [Finset.prod_range_succ]

theorem kap_succ (m j : ℕ) : kap m (j+1) = 4 * (j+1) * (2*m+j+1) := by unfold kap; push_cast; ring

theorem sq_succ (m j : ℕ) : kap m (j+1) * ynnm m (j+1) ^ 2 = (2*(m+j)+3) * (2*(m+j)+1) * ynnm m j ^ 2 := by
  rw [ynnm_sq, ynnm_sq, qB_succ, ← add_assoc, qC_succ, kap_succ]
  have h := qA_succ m j
  have h1 : (2*m+j+1:ℝ) ≠ 0 := by positivity
  have h2 : (j+1:ℝ) ≠ 0 := by positivity
  have h3 : (m+j+1:ℝ) ≠ 0 := by positivity
  have h4 := qB_ne j
  have h6 : (Real.pi:ℝ) ≠ 0 := Real.pi_ne_zero
  have h5 : qA m (j+1) = (2*m+2*j+1) * (2*m+2*j+2) * qA m j / (2*m+j+1) := by field_simp; linear_combination h
  rw [h5]
  push_cast
  field_simp
  ring

theorem sq_base (m : ℕ) : ynnm (m+1) 0 ^ 2 * (8*(m+1)) = (2*m+3) * ynnm m 0 ^ 2 := by
  rw [ynnm_sq, ynnm_sq]
  simp only [add_zero, qC_succ, qA, qB, Finset.range_zero, Finset.prod_empty]
  have h3 : (m+1:ℝ) ≠ 0 := by positivity
  field_simp
  ring

theorem kap_ne (m j : ℕ) : kap m (j+1) ≠ 0 := by rw [kap_succ]; positivity

theorem alpha_base (m : ℕ) : ynnm m 0 ^ 2 * Nrm m 0 = (-1)^m / (4 * Real.pi) := by
  induction m with
  | zero => rw [ynnm_sq, Nrm_zero]; simp [qA, qB, qC]
  | succ m ih =>
    have h1 := sq_base m
    have h2 := Nrm_base m
    have h3 : (8*(m+1):ℝ) * (2*m+3) ≠ 0 := by positivity
    apply mul_left_cancel₀ h3
    have : (8*(m+1):ℝ) * (2*m+3) * (ynnm (m+1) 0 ^ 2 * Nrm (m+1) 0) = (ynnm (m+1) 0 ^ 2 * (8*(m+1))) * ((2*m+3) * Nrm (m+1) 0) := by ring
    rw [this, h1, h2, pow_succ (-1:ℝ) m]
    linear_combination (-(2*m+3) * (8*(m+1)):ℝ) * ih

theorem alpha (m j : ℕ) : (ynnm m j / top m j) ^ 2 * Nrm m j = (-1)^m / (4 * Real.pi) := by
  induction j with
  | zero => simpa [top] using alpha_base m
  | succ j ih =>
    rw [← ih]
    have h1 := sq_succ m j
    have h2 := Nrm_succ m j
    have h3 := kap_ne m j
    have h4 := top_ne m j
    simp only [top]
    have h5 : (2*(m+j)+1:ℝ) ≠ 0 := by positivity
    have h6 : (2*(m+j)+3:ℝ) ≠ 0 := by positivity
    rw [div_pow, div_pow, mul_pow]
    have e1 : ynnm m (j+1) ^ 2 = (2*(m+j)+3) * (2*(m+j)+1) * ynnm m j ^ 2 / kap m (j+1) := by field_simp; linear_combination h1
    have e2 : Nrm m (j+1) = (2*(m+j)+1) * kap m (j+1) * Nrm m j / (2*(m+j)+3) := by field_simp; linear_combination h2
    rw [e1, e2]
    field_simp

/-! the two transforms, as their contracts state them -/
open Complex in
/-- kernel of hkm_fc -/
noncomputable def Sv (j : ℤ) : ℂ := if Odd j then -I / j else 0

open Complex in
/-- row k of the Fourier data of order s (fcvec_m_sc); degrees m .. m + J, c and y by degree - m -/
noncomputable def Frow (m J : ℕ) (s : ℤ) (c : ℕ → ℂ) (y : ℕ → ℕ → ℂ) (k : ℤ) : ℂ :=
  if 0 ≤ k ∧ k ≤ (m+J:ℕ) then I^s * ∑ j ∈ range (J+1), c j * y j k.toNat
  else if k < 0 ∧ -k ≤ (m+J:ℕ) then I^(2*s) * I^s * ∑ j ∈ range (J+1), c j * y j (-k).toNat
  else 0

/-- rows kept by spht: |k| < r -/
noncomputable def pad (r : ℕ) (F : ℤ → ℂ) (k : ℤ) : ℂ := if -(r:ℤ) < k ∧ k < r then F k else 0

open Complex in
/-- sine operator on 2(r+1) cyclic rows -/
noncomputable def Sn (r : ℕ) (P : ℤ → ℂ) (v : ℤ) : ℂ :=
  (P (if v = -(r+1:ℤ) then r else v - 1) - P (if v = r then -(r+1:ℤ) else v + 1)) / (2 * I)

/-- what spht hands to the quadrature -/
noncomputable def Grow (r : ℕ) (F : ℤ → ℂ) (v : ℤ) : ℂ := Sn r (pad r F) v

/-- hkm_fc -/
noncomputable def hk (r : ℕ) (G : ℤ → ℂ) (k : ℤ) : ℂ := 4 * Real.pi * ∑ v ∈ Ico (-(r+1:ℤ)) (r+1), G v * Sv (k - v)

open Complex in
/-- bnm_vec_fc: the coefficient of degree n, order s -/
noncomputable def bnm (s : ℤ) (n : ℕ) (h : ℤ → ℂ) (y : ℕ → ℂ) : ℂ :=
  I^(-s) * (h 0 * y 0 + 2 * ∑ k ∈ range n, h (k+1) * y (k+1))

theorem shift (K : ℕ) (r : ℕ) (hK : K < r) (a : ℤ) (ha : |a| ≤ 1) (φ ψ : ℤ → ℂ) (h0 : ∀ k, (K:ℤ) < |k| → φ k = 0) :
    ∑ v ∈ Ico (-(r+1:ℤ)) (r+1), φ (v - a) * ψ v = ∑ l ∈ Icc (-(K:ℤ)) K, φ l * ψ (l + a) := by
  have h1 : ∑ l ∈ Icc (-(K:ℤ)) K, φ l * ψ (l + a) = ∑ v ∈ (Icc (-(K:ℤ)) K).map (addRightEmbedding a), φ (v - a) * ψ v := by
    rw [Finset.sum_map]; simp
  rw [h1]
  symm
  apply Finset.sum_subset
  · intro x hx
    simp only [Finset.mem_map, Finset.mem_Icc, addRightEmbedding_apply, Finset.mem_Ico] at *
    obtain ⟨b, hb, rfl⟩ := hx
    have := abs_le.1 ha
    constructor <;> omega
  · intro x _ hx
    rw [h0, zero_mul]
    by_contra hc
    apply hx
    simp only [Finset.mem_map, Finset.mem_Icc, addRightEmbedding_apply]
    have := abs_le.1 (not_lt.1 hc)
    exact ⟨x - a, ⟨by omega, by omega⟩, by ring⟩

open Complex in
theorem kernel (p : ℤ) : (Sv (p - 1) - Sv (p + 1)) / (2 * I) = (w p : ℝ) := by
  unfold Sv w
  by_cases h : Even p
  · have h1 : Odd (p - 1) := by
      rcases h with ⟨a, ha⟩; exact ⟨a - 1, by omega⟩
    have h2 : Odd (p + 1) := by
      rcases h with ⟨a, ha⟩; exact ⟨a, by omega⟩
    rw [if_pos h1, if_pos h2, if_pos h]
    have e1 : ((p:ℂ) - 1) ≠ 0 := by
      intro h3
      have : p - 1 = 0 := by exact_mod_cast h3
      rw [this] at h1; exact absurd h1 (by decide)
    have e2 : ((p:ℂ) + 1) ≠ 0 := by
      intro h3
      have : p + 1 = 0 := by exact_mod_cast h3
      rw [this] at h2; exact absurd h2 (by decide)
    have e3 : (1:ℂ) - (p:ℂ)^2 = -((p-1)*(p+1)) := by ring
    push_cast
    rw [e3]
    have := Complex.I_ne_zero
    field_simp
    ring
  · have h1 : ¬ Odd (p - 1) := by
      intro h3; apply h; rcases h3 with ⟨a, ha⟩; exact ⟨a + 1, by omega⟩
    have h2 : ¬ Odd (p + 1) := by
      intro h3; apply h; rcases h3 with ⟨a, ha⟩; exact ⟨a, by omega⟩
    rw [if_neg h1, if_neg h2, if_neg h]; simp

theorem w_neg (p : ℤ) : w (-p) = w p := by unfold w; simp

/-- a sum over -K .. K -/
theorem sum_sym (K : ℕ) (φ : ℤ → ℂ) : ∑ k ∈ Icc (-(K:ℤ)) K, φ k = φ 0 + ∑ k ∈ range K, (φ (k+1) + φ (-(k+1))) := by
  induction K with
  | zero => simp
  | succ K ih =>
    rw [Finset.sum_range_succ, ← add_assoc, ← ih]
    have h : Icc (-((K+1:ℕ):ℤ)) ((K+1:ℕ):ℤ) = insert ((K:ℤ)+1) (insert (-((K:ℤ)+1)) (Icc (-(K:ℤ)) K)) := by
      ext x; simp only [Finset.mem_insert, Finset.mem_Icc]; push_cast; omega
    rw [h, Finset.sum_insert, Finset.sum_insert]
    · ring
    · simp
    · simp only [Finset.mem_insert, Finset.mem_Icc]; omega

theorem sum_neg (K : ℕ) (φ : ℤ → ℂ) : ∑ k ∈ Icc (-(K:ℤ)) K, φ (-k) = ∑ k ∈ Icc (-(K:ℤ)) K, φ k := by
  rw [sum_sym, sum_sym]
  simp [add_comm]

theorem B_sum (K : ℕ) (f g : V) (hf : ∀ k : ℤ, (K:ℤ) < |k| → f k = 0) (hg : ∀ k : ℤ, (K:ℤ) < |k| → g k = 0) :
    B f g = ∑ k ∈ Icc (-(K:ℤ)) K, ∑ l ∈ Icc (-(K:ℤ)) K, f k * g l * w (k + l) := by
  have hs : ∀ f : V, (∀ k : ℤ, (K:ℤ) < |k| → f k = 0) → f.support ⊆ Icc (-(K:ℤ)) K := by
    intro f hf k hk
    rw [Finsupp.mem_support_iff] at hk
    rw [Finset.mem_Icc, ← abs_le]
    by_contra hc
    exact hk (hf k (not_le.1 hc))
  unfold B
  rw [Finsupp.linearCombination_apply, Finsupp.sum_of_support_subset _ (hs f hf) _ (by simp), LinearMap.sum_apply]
  apply Finset.sum_congr rfl
  intro k _
  rw [LinearMap.smul_apply, Finsupp.linearCombination_apply, Finsupp.sum_of_support_subset _ (hs g hg) _ (by simp), Finset.smul_sum]
  apply Finset.sum_congr rfl
  intro l _
  simp only [smul_eq_mul]; ring

theorem I_zpow_sq (s : ℤ) (m : ℕ) (hs : s = m ∨ s = -m) : Complex.I ^ (2 * s) = (-1) ^ m := by
  rw [zpow_mul]
  rw [show (Complex.I ^ (2:ℤ)) = -1 by simp [zpow_ofNat]]
  rcases hs with h | h
  · rw [h, zpow_natCast]
  · rw [h, zpow_neg, zpow_natCast, ← inv_pow]; norm_num

section final
variable (m J : ℕ) (s : ℤ) (hs : s = m ∨ s = -m) (r : ℕ) (hr : m + J < r) (c : ℕ → ℂ) (y : ℕ → ℕ → ℂ)
  (hy : ∀ j ≤ J, Row (m+j) s (ynnm m j : ℝ) (y j))

/-- y as a function of the frequency -/
noncomputable def al (m j : ℕ) : ℝ := ynnm m j / top m j
noncomputable def gg (m J : ℕ) (c : ℕ → ℂ) (k : ℤ) : ℂ := ∑ j ∈ range (J+1), c j * al m j * (fam m j k : ℝ)

include hs hy in
theorem y_val (j : ℕ) (hj : j ≤ J) (k : ℕ) : y j k = al m j * (fam m j k : ℝ) := by
  rw [row_eq m s hs j _ (y j) (hy j hj) k]; unfold al; push_cast; ring

theorem fam_big (j : ℕ) (hj : j ≤ J) (k : ℤ) (hk : ((m+J:ℕ):ℤ) < |k|) : fam m j k = 0 := by
  apply fam_supp; push_cast at *; omega

theorem gg_big (k : ℤ) (hk : ((m+J:ℕ):ℤ) < |k|) : gg m J c k = 0 := by
  unfold gg
  apply Finset.sum_eq_zero
  intro j hj
  rw [fam_big m J j (by have := Finset.mem_range.1 hj; omega) k hk]; simp

theorem gg_neg (k : ℤ) : gg m J c (-k) = (-1)^m * gg m J c k := by
  unfold gg
  rw [Finset.mul_sum]
  apply Finset.sum_congr rfl
  intro j _
  rw [fam_sym]; push_cast; ring

include hs hy in
theorem Frow_eq (k : ℤ) : Frow m J s c y k = Complex.I ^ s * gg m J c k := by
  have hat : ∀ k : ℕ, ∑ j ∈ range (J+1), c j * y j k = gg m J c k := by
    intro k
    unfold gg
    apply Finset.sum_congr rfl
    intro j hj
    rw [y_val m J s hs y hy j (by have := Finset.mem_range.1 hj; omega)]; ring
  unfold Frow
  split_ifs with h1 h2
  · rw [hat, Int.toNat_of_nonneg h1.1]
  · rw [hat, Int.toNat_of_nonneg (by omega), gg_neg, I_zpow_sq s m hs]
    have : ((-1:ℂ)^m) * (-1)^m = 1 := by rw [← mul_pow]; norm_num
    linear_combination (Complex.I ^ s * gg m J c k) * this
  · rw [gg_big, mul_zero]
    rcases abs_cases k with ⟨h3, h4⟩ | ⟨h3, h4⟩ <;> rw [h3] <;> by_contra h5
    · exact h1 ⟨h4, by omega⟩
    · exact h2 ⟨h4, by omega⟩

theorem Sn_eq (r : ℕ) (P : ℤ → ℂ) (hP : ∀ k : ℤ, (r:ℤ) ≤ |k| → P k = 0) (v : ℤ) (hv : v ∈ Ico (-(r+1:ℤ)) (r+1)) :
    Sn r P v = (P (v - 1) - P (v + 1)) / (2 * Complex.I) := by
  rw [Finset.mem_Ico] at hv
  unfold Sn
  have e1 : P (if v = -(r+1:ℤ) then (r:ℤ) else v - 1) = P (v - 1) := by
    split_ifs with h
    · rw [hP r (by simp), hP]
      rw [h, abs_of_neg (by omega)]; omega
    · rfl
  have e2 : P (if v = (r:ℤ) then -(r+1:ℤ) else v + 1) = P (v + 1) := by
    split_ifs with h
    · rw [hP, hP]
      · rw [h, abs_of_nonneg (by omega)]; omega
      · rw [abs_of_neg (by omega)]; omega
    · rfl
  rw [e1, e2]

theorem pad_eq (r : ℕ) (F : ℤ → ℂ) (h : ∀ k : ℤ, (r:ℤ) ≤ |k| → F k = 0) : pad r F = F := by
  funext k
  unfold pad
  split_ifs with h1
  · rfl
  · rw [h]
    rcases abs_cases k with ⟨h3, h4⟩ | ⟨h3, h4⟩ <;> rw [h3] <;> by_contra h5 <;> apply h1 <;> constructor <;> omega

include hs hy hr in
theorem Frow_big (k : ℤ) (hk : (r:ℤ) ≤ |k|) : Frow m J s c y k = 0 := by
  rw [Frow_eq m J s hs c y hy, gg_big m J c k (by omega), mul_zero]

include hs hy hr in
theorem Grow_eq (v : ℤ) (hv : v ∈ Ico (-(r+1:ℤ)) (r+1)) :
    Grow r (Frow m J s c y) v = Complex.I ^ s * ((gg m J c (v - 1) - gg m J c (v - -1)) / (2 * Complex.I)) := by
  have hb := Frow_big m J s hs r hr c y hy
  unfold Grow
  rw [pad_eq r _ hb, Sn_eq r _ hb v hv, Frow_eq m J s hs c y hy, Frow_eq m J s hs c y hy, sub_neg_eq_add]
  ring

include hs hy hr in
theorem hk_eq (k : ℤ) :
    hk r (Grow r (Frow m J s c y)) k = 4 * Real.pi * Complex.I ^ s * ∑ l ∈ Icc (-((m+J:ℕ):ℤ)) (m+J:ℕ), gg m J c l * (w (k - l) : ℝ) := by
  unfold hk
  rw [mul_assoc (4 * (Real.pi:ℂ))]
  congr 1
  have h1 : ∀ v ∈ Ico (-(r+1:ℤ)) (r+1), Grow r (Frow m J s c y) v * Sv (k - v) =
      Complex.I ^ s / (2 * Complex.I) * (gg m J c (v - 1) * Sv (k - v) - gg m J c (v - -1) * Sv (k - v)) := by
    intro v hv
    rw [Grow_eq m J s hs r hr c y hy v hv]; ring
  rw [Finset.sum_congr rfl h1, ← Finset.mul_sum, Finset.sum_sub_distrib,
    shift (m+J) r hr 1 (by simp) _ _ (gg_big m J c), shift (m+J) r hr (-1) (by simp) _ _ (gg_big m J c), ← Finset.sum_sub_distrib,
    Finset.mul_sum, Finset.mul_sum]
  apply Finset.sum_congr rfl
  intro l _
  rw [← kernel (k - l)]
  rw [show k - (l + 1) = k - l - 1 by ring, show k - (l + -1) = k - l + 1 by ring]
  ring

include hs hy hr in
/-- the coefficient computed back is the one synthesised from -/
theorem round_trip (j : ℕ) (hj : j ≤ J) : bnm s (m+j) (hk r (Grow r (Frow m J s c y))) (y j) = c j := by
  set h := hk r (Grow r (Frow m J s c y)) with hdef
  set K := m + J with hK
  have hh : ∀ k, h k = 4 * Real.pi * Complex.I ^ s * ∑ l ∈ Icc (-(K:ℤ)) K, gg m J c l * (w (k - l) : ℝ) :=
    hk_eq m J s hs r hr c y hy
  have hneg : ∀ k, h (-k) = (-1)^m * h k := by
    intro k
    rw [hh, hh, ← sum_neg, Finset.mul_sum, Finset.mul_sum, Finset.mul_sum]
    apply Finset.sum_congr rfl
    intro l _
    rw [gg_neg, show -k - -l = -(k - l) by ring, w_neg]; ring
  have hyv : ∀ k : ℕ, y j k = al m j * (fam m j k : ℝ) := y_val m J s hs y hy j hj
  have hsum : h 0 * y j 0 + 2 * ∑ k ∈ range (m+j), h (k+1) * y j (k+1) = ∑ k ∈ Icc (-(K:ℤ)) K, h k * (al m j * (fam m j k : ℝ)) := by
    rw [sum_sym, hyv 0, Finset.mul_sum]
    push_cast
    congr 1
    rw [← Finset.sum_subset (Finset.range_subset_range.2 (show m + j ≤ K by omega))]
    · apply Finset.sum_congr rfl
      intro k _
      rw [hneg, fam_sym, hyv]
      have : ((-1:ℂ)^m) * (-1)^m = 1 := by rw [← mul_pow]; norm_num
      push_cast
      linear_combination (-(h (k+1) * (al m j * (fam m j (k+1) : ℝ)))) * this
    · intro k _ hk
      have hk2 : ¬ k < m + j := by simpa using hk
      rw [fam_sym, fam_supp]
      · simp
      · rw [abs_of_nonneg (by positivity)]; push_cast; omega
  have hB : ∀ i ≤ J, ∑ k ∈ Icc (-(K:ℤ)) K, ∑ l ∈ Icc (-(K:ℤ)) K, ((fam m j k : ℝ):ℂ) * (fam m i l : ℝ) * (w (k - l) : ℝ) = (-1)^m * (B (fam m j) (fam m i) : ℝ) := by
    intro i hi
    rw [B_sum K _ _ (fam_big m J j hj) (fam_big m J i hi)]
    push_cast
    rw [Finset.mul_sum]
    apply Finset.sum_congr rfl
    intro k _
    rw [← sum_neg, Finset.mul_sum]
    apply Finset.sum_congr rfl
    intro l _
    rw [fam_sym, show k - -l = k + l by ring]; push_cast; ring
  unfold bnm
  rw [hsum]
  have hI : Complex.I ^ s ≠ 0 := zpow_ne_zero _ Complex.I_ne_zero
  have h2 : ∑ k ∈ Icc (-(K:ℤ)) K, h k * (al m j * (fam m j k : ℝ)) =
      4 * Real.pi * Complex.I ^ s * ∑ i ∈ range (J+1), c i * al m i * al m j * ((-1)^m * (B (fam m j) (fam m i) : ℝ)) := by
    have : ∀ i ∈ range (J+1), c i * al m i * al m j * ((-1)^m * ((B (fam m j) (fam m i) : ℝ):ℂ)) =
        c i * al m i * al m j * ∑ k ∈ Icc (-(K:ℤ)) K, ∑ l ∈ Icc (-(K:ℤ)) K, ((fam m j k : ℝ):ℂ) * (fam m i l : ℝ) * (w (k - l) : ℝ) := by
      intro i hi
      rw [hB i (by have := Finset.mem_range.1 hi; omega)]
    rw [Finset.sum_congr rfl this]
    simp only [hh, gg, Finset.mul_sum, Finset.sum_mul]
    conv_rhs => rw [Finset.sum_comm]
    apply Finset.sum_congr rfl
    intro k _
    rw [Finset.sum_comm]
    apply Finset.sum_congr rfl
    intro i _
    apply Finset.sum_congr rfl
    intro l _
    ring
  rw [h2]
  rw [Finset.sum_eq_single_of_mem j (by simp; omega)]
  · have h3 := alpha m j
    have h4 := congrArg (fun x : ℝ => (x:ℂ)) h3
    unfold Nrm at h4
    unfold al
    push_cast at h4 ⊢
    rw [zpow_neg]
    have h5 : ((-1:ℂ)^m) * (-1)^m = 1 := by rw [← mul_pow]; norm_num
    have hpi : (Real.pi:ℂ) ≠ 0 := by exact_mod_cast Real.pi_ne_zero
    have h6 : (ynnm m j / top m j : ℂ)^2 * (B (fam m j) (fam m j) : ℝ) * (4 * Real.pi) = (-1)^m := by
      rw [h4]; field_simp
    field_simp at h6 ⊢
    linear_combination (c j * (-1)^m) * h6 + c j * h5
  · intro i _ hi
    rw [orth m j i (by omega)]; simp
end final

/-! ### vector transforms -/
theorem S_inj {f g : V} (h : S f = S g) : f = g := by
  rw [← sub_eq_zero] at h ⊢
  rw [← map_sub] at h
  by_contra hne
  have hs : (f - g).support.Nonempty := Finsupp.support_nonempty_iff.2 hne
  set k := (f - g).support.max' hs with hk
  have h1 : (f - g) k ≠ 0 := Finsupp.mem_support_iff.1 ((f - g).support.max'_mem hs)
  have h2 : (f - g) (k + 2) = 0 := by
    by_contra h3
    have := (f - g).support.le_max' (k+2) (Finsupp.mem_support_iff.2 h3)
    omega
  have h3 := DFunLike.congr_fun h (k + 1)
  rw [S_apply, show k + 1 - 1 = k by ring, show k + 1 + 1 = k + 2 by ring, h2] at h3
  apply h1; simpa using h3

/-- fam divided by sin (order at least 1) -/
noncomputable def quo : ℕ → ℕ → V
  | 0, _ => 0
  | m+1, 0 => u m
  | m+1, j+1 => ((m+1:ℕ)+j+1 : ℝ) • C (quo (m+1) j) + D (S (quo (m+1) j))

theorem quo_spec (m j : ℕ) : S (quo (m+1) j) = fam (m+1) j := by
  induction j with
  | zero => simp [quo, fam, u]
  | succ j ih => simp only [quo, fam, R, map_add, map_smul, SC, ih]

theorem quo_s (m j : ℕ) : (m:ℝ) • S (quo m j) = (m:ℝ) • fam m j := by
  cases m with
  | zero => simp
  | succ m => rw [quo_spec]

theorem quo_supp (m j : ℕ) : ∀ k : ℤ, ((m+j:ℕ):ℤ) - 1 < |k| → quo m j k = 0 := by
  cases m with
  | zero => intro k _; simp [quo]
  | succ m =>
    induction j with
    | zero => intro k hk; simp only [quo]; apply u_supp; push_cast at hk; omega
    | succ j ih =>
      intro k hk
      simp only [quo, Finsupp.add_apply, Finsupp.smul_apply, C_apply, D_apply, S_apply]
      rw [ih (k-1), ih (k+1)]
      · simp
      all_goals (push_cast at hk ⊢; rcases abs_cases k with ⟨h1, h2⟩ | ⟨h1, h2⟩ <;> rcases abs_cases (k+1) with ⟨h3, h4⟩ | ⟨h3, h4⟩ <;> rcases abs_cases (k-1) with ⟨h5, h6⟩ | ⟨h5, h6⟩ <;> omega)

/-- sin d/dtheta (d/dtheta) + m^2/sin, in Fourier form -/
theorem DSD (m j : ℕ) : D (S (D (fam m j))) = ((m+j:ℝ)*(m+j+1)) • S (fam m j) + (4*(m:ℝ)^2) • quo m j := by
  apply S_inj
  have h := E_fam m j
  unfold E at h
  rw [h, map_add, map_smul, map_smul]
  linear_combination (norm := module) (-(4*m:ℝ)) • quo_s m j

theorem DSD_apply (m j : ℕ) (k : ℤ) :
    (k:ℝ) * ((k-1) * fam m j (k-1) - (k+1) * fam m j (k+1)) = (m+j)*(m+j+1) * (fam m j (k-1) - fam m j (k+1)) + 4*m^2 * quo m j k := by
  have h := DFunLike.congr_fun (DSD m j) k
  rw [D_apply, SDf_apply, Finsupp.add_apply, Finsupp.smul_apply, Finsupp.smul_apply, S_apply, smul_eq_mul, smul_eq_mul] at h
  exact h

/-- contract of divsin_fc: rows -r .. r-1, 0 outside -/
structure Div (r : ℕ) (F G : ℤ → ℂ) : Prop where
  eqn : ∀ k : ℤ, -((r:ℤ) - 3) ≤ k → k ≤ r - 1 → G (k - 1) - G (k + 1) = 2 * Complex.I * F k
  zero : ∀ k : ℤ, (r:ℤ) - 2 < |k| → G k = 0

theorem Div_unique (r : ℕ) (F G H : ℤ → ℂ) (h1 : Div r F G) (h2 : Div r F H) : G = H := by
  have key : ∀ d : ℕ, ∀ k : ℤ, k + d = r → G k = H k := by
    intro d
    induction d using Nat.strong_induction_on with
    | _ d ih =>
      intro k hk
      by_cases hz : (r:ℤ) - 2 < |k|
      · rw [h1.zero k hz, h2.zero k hz]
      · have hz2 := abs_le.1 (not_lt.1 hz)
        have e1 := h1.eqn (k+1) (by omega) (by omega)
        have e2 := h2.eqn (k+1) (by omega) (by omega)
        have e3 := ih (d-2) (by omega) (k+1+1) (by omega)
        rw [show k + 1 - 1 = k by ring] at e1 e2
        linear_combination e1 - e2 + e3
  funext k
  by_cases hk : k ≤ r
  · exact key (r - k).toNat k (by omega)
  · have : (r:ℤ) - 2 < |k| := by rw [abs_of_nonneg (by omega)]; omega
    rw [h1.zero k this, h2.zero k this]

open Complex in
/-- rows of the two components written by vispht -/
noncomputable def Vth (D1 F2 : ℤ → ℂ) (k : ℤ) : ℂ := I * D1 k - I * (-I * (I * k * F2 k))
open Complex in
noncomputable def Vph (F1 D2 : ℤ → ℂ) (k : ℤ) : ℂ := -I * (I * k * F1 k) + I * (I * D2 k)

open Complex in
/-- sinLdot_fc on one column: T, P rows -/
noncomputable def Dat (r : ℕ) (s : ℤ) (T P : ℤ → ℂ) (v : ℤ) : ℂ := I * (I * s * T v - I * v * Sn r P v)

theorem Dat_eq (r : ℕ) (s : ℤ) (T P : ℤ → ℂ) (v : ℤ) : Dat r s T P v = v * Sn r P v - s * T v := by
  unfold Dat; linear_combination (s * T v - v * Sn r P v) * Complex.I_mul_I
theorem Vth_eq (D1 F2 : ℤ → ℂ) (k : ℤ) : Vth D1 F2 k = Complex.I * (D1 k - k * F2 k) := by
  unfold Vth; linear_combination (Complex.I * k * F2 k) * Complex.I_mul_I
theorem Vph_eq (F1 D2 : ℤ → ℂ) (k : ℤ) : Vph F1 D2 k = k * F1 k - D2 k := by
  unfold Vph; linear_combination (D2 k - k * F1 k) * Complex.I_mul_I
theorem div2I (x : ℂ) : x / (2 * Complex.I) = -(Complex.I / 2) * x := by
  have := Complex.I_ne_zero
  field_simp
  linear_combination x * Complex.I_sq

section vec
variable (m J : ℕ) (s : ℤ) (hs : s = m ∨ s = -m) (r : ℕ) (hr : m + J < r) (c1 c2 : ℕ → ℂ) (y : ℕ → ℕ → ℂ)
  (hy : ∀ j ≤ J, Row (m+j) s (ynnm m j : ℝ) (y j)) (D1 D2 : ℤ → ℂ)
  (hD1 : Div r (fun k => Complex.I * s * Frow m J s c1 y k) D1) (hD2 : Div r (fun k => Complex.I * s * Frow m J s c2 y k) D2)

noncomputable def qq (m J : ℕ) (c : ℕ → ℂ) (k : ℤ) : ℂ := ∑ j ∈ range (J+1), c j * al m j * (quo m j k : ℝ)

theorem qq_big (k : ℤ) (hk : ((m+J:ℕ):ℤ) - 1 < |k|) : qq m J c1 k = 0 := by
  unfold qq
  apply Finset.sum_eq_zero
  intro j hj
  rw [quo_supp m j k (by have := Finset.mem_range.1 hj; push_cast at *; omega)]; simp

include hs in
theorem s_sq : (s:ℂ) * s = m * m := by rcases hs with h | h <;> rw [h] <;> push_cast <;> ring

theorem qq_s (k : ℤ) : (m:ℂ) * (qq m J c1 (k-1) - qq m J c1 (k+1)) = m * gg m J c1 k := by
  unfold qq gg
  rw [← Finset.sum_sub_distrib, Finset.mul_sum, Finset.mul_sum]
  apply Finset.sum_congr rfl
  intro j _
  have h := DFunLike.congr_fun (quo_s m j) k
  rw [Finsupp.smul_apply, Finsupp.smul_apply, S_apply, smul_eq_mul, smul_eq_mul] at h
  have h2 := congrArg (fun x : ℝ => (x:ℂ)) h
  push_cast at h2
  linear_combination (c1 j * al m j) * h2

include hs hy hr hD1 in
theorem D_eq (k : ℤ) : D1 k = -2 * s * Complex.I ^ s * qq m J c1 k := by
  have : Div r (fun k => Complex.I * s * Frow m J s c1 y k) (fun k => -2 * s * Complex.I ^ s * qq m J c1 k) := by
    constructor
    · intro k _ _
      simp only [Frow_eq m J s hs c1 y hy]
      have h := qq_s m J c1 k
      have h2 : (s:ℂ) * (qq m J c1 (k-1) - qq m J c1 (k+1)) = s * gg m J c1 k := by
        rcases hs with h3 | h3 <;> rw [h3] <;> push_cast
        · exact h
        · linear_combination -h
      have hI := Complex.I_mul_I
      linear_combination (-2 * Complex.I ^ s) * h2 - (2 * s * Complex.I ^ s * gg m J c1 k) * hI
    · intro k hk
      show -2 * s * Complex.I ^ s * qq m J c1 k = 0
      rw [qq_big m J c1 k (by omega), mul_zero]
  exact congrFun (Div_unique r _ _ _ hD1 this) k

theorem DSD_gg (v : ℤ) : (v:ℂ) * ((v-1) * gg m J c1 (v-1) - (v+1) * gg m J c1 (v+1)) =
    (gg m J (fun j => (m+j)*(m+j+1) * c1 j) (v-1) - gg m J (fun j => (m+j)*(m+j+1) * c1 j) (v+1)) + 4 * m^2 * qq m J c1 v := by
  unfold gg qq
  simp only [Finset.mul_sum, ← Finset.sum_sub_distrib, ← Finset.sum_add_distrib]
  apply Finset.sum_congr rfl
  intro j _
  have h2 := congrArg (fun x : ℝ => (x:ℂ)) (DSD_apply m j v)
  push_cast at h2
  linear_combination (c1 j * al m j) * h2

theorem gg_lin (a b : ℂ) (v : ℤ) : gg m J (fun j => a * c1 j + b * c2 j) v = a * gg m J c1 v + b * gg m J c2 v := by
  unfold gg
  rw [Finset.mul_sum, Finset.mul_sum, ← Finset.sum_add_distrib]
  apply Finset.sum_congr rfl
  intro j _
  ring

include hs hy hr hD1 hD2 in
theorem Vth_big (k : ℤ) (hk : (r:ℤ) ≤ |k|) : Vth D1 (Frow m J s c2 y) k = 0 := by
  unfold Vth
  rw [Frow_big m J s hs r hr c2 y hy k hk, hD1.zero k (by omega)]; simp

include hs hy hr hD1 hD2 in
theorem Vph_big (k : ℤ) (hk : (r:ℤ) ≤ |k|) : Vph (Frow m J s c1 y) D2 k = 0 := by
  unfold Vph
  rw [Frow_big m J s hs r hr c1 y hy k hk, hD2.zero k (by omega)]; simp

include hs hy hr hD1 hD2 in
/-- the first combination is the sine-multiplied data of n (n+1) c1 -/
theorem Dat1_eq (v : ℤ) (hv : v ∈ Ico (-(r+1:ℤ)) (r+1)) :
    Dat r s (pad r (Vth D1 (Frow m J s c2 y))) (pad r (Vph (Frow m J s c1 y) D2)) v = Grow r (Frow m J s (fun j => (m+j)*(m+j+1) * c1 j) y) v := by
  have h1 := Vth_big m J s hs r hr c1 c2 y hy D1 D2 hD1 hD2
  have h2 := Vph_big m J s hs r hr c1 c2 y hy D1 D2 hD1 hD2
  rw [Grow_eq m J s hs r hr _ y hy v hv, sub_neg_eq_add, Dat_eq]
  rw [pad_eq r _ h1, pad_eq r _ h2, Sn_eq r _ h2 v hv]
  simp only [Vth_eq, Vph_eq, div2I, Frow_eq m J s hs _ y hy, D_eq m J s hs r hr _ y hy _ hD1, D_eq m J s hs r hr _ y hy _ hD2]
  have e1 := DSD_gg m J c1 v
  have e2 := qq_s m J c2 v
  have e3 := s_sq m s hs
  have hI := Complex.I_mul_I
  have hI0 := Complex.I_ne_zero
  have e4 : (s:ℂ) * (qq m J c2 (v-1) - qq m J c2 (v+1)) = s * gg m J c2 v := by
    rcases hs with h3 | h3 <;> rw [h3] <;> push_cast
    · exact e2
    · linear_combination -e2
  push_cast
  linear_combination (-(Complex.I / 2) * Complex.I ^ s) * e1 + (2 * Complex.I * Complex.I ^ s * qq m J c1 v) * e3 - (Complex.I * v * Complex.I ^ s) * e4

include hs hy hr hD1 hD2 in
theorem Dat2_eq (v : ℤ) (hv : v ∈ Ico (-(r+1:ℤ)) (r+1)) :
    Dat r s (fun k => -Complex.I * pad r (Vph (Frow m J s c1 y) D2) k) (fun k => Complex.I * pad r (Vth D1 (Frow m J s c2 y)) k) v =
      Grow r (Frow m J s (fun j => (m+j)*(m+j+1) * c2 j) y) v := by
  have h1 := Vth_big m J s hs r hr c1 c2 y hy D1 D2 hD1 hD2
  have h2 := Vph_big m J s hs r hr c1 c2 y hy D1 D2 hD1 hD2
  rw [Grow_eq m J s hs r hr _ y hy v hv, sub_neg_eq_add, Dat_eq]
  rw [pad_eq r _ h1, pad_eq r _ h2, Sn_eq r _ (by intro k hk; rw [h1 k hk, mul_zero]) v hv]
  simp only [Vth_eq, Vph_eq, div2I, Frow_eq m J s hs _ y hy, D_eq m J s hs r hr _ y hy _ hD1, D_eq m J s hs r hr _ y hy _ hD2]
  have e1 := DSD_gg m J c2 v
  have e2 := qq_s m J c1 v
  have e3 := s_sq m s hs
  have hI := Complex.I_mul_I
  have hI0 := Complex.I_ne_zero
  have e4 : (s:ℂ) * (qq m J c1 (v-1) - qq m J c1 (v+1)) = s * gg m J c1 v := by
    rcases hs with h3 | h3 <;> rw [h3] <;> push_cast
    · exact e2
    · linear_combination -e2
  push_cast
  linear_combination (-(Complex.I / 2) * Complex.I ^ s) * e1 + (2 * Complex.I * Complex.I ^ s * qq m J c2 v) * e3 - (Complex.I * v * Complex.I ^ s) * e4
    - (Complex.I / 2 * v) * (-2 * s * Complex.I ^ s * (qq m J c1 (v-1) - qq m J c1 (v+1)) - Complex.I ^ s * ((v-1) * gg m J c2 (v-1) - (v+1) * gg m J c2 (v+1))) * hI

theorem hk_congr (r : ℕ) (G H : ℤ → ℂ) (h : ∀ v ∈ Ico (-(r+1:ℤ)) (r+1), G v = H v) : hk r G = hk r H := by
  funext k
  unfold hk
  congr 1
  apply Finset.sum_congr rfl
  intro v hv
  rw [h v hv]

/-- scaling of the vector coefficients by degree -/
noncomputable def scal (n : ℕ) : ℂ := if n = 0 then 0 else 1 / (√((n:ℝ) * n + n) : ℝ)

theorem scal_sq (n : ℕ) (h : n ≠ 0) : scal n * ((n * (n+1)) * scal n) = 1 := by
  unfold scal
  rw [if_neg h]
  have hn : (0:ℝ) < n := by exact_mod_cast Nat.pos_of_ne_zero h
  have h1 : (0:ℝ) < (n:ℝ) * n + n := by positivity
  have h2 : (√((n:ℝ) * n + n)) * √((n:ℝ) * n + n) = (n:ℝ) * n + n := Real.mul_self_sqrt h1.le
  have h3 : ((√((n:ℝ) * n + n) : ℝ):ℂ) ≠ 0 := by
    have := Real.sqrt_pos.2 h1
    exact_mod_cast this.ne'
  have h4 := congrArg (fun x : ℝ => (x:ℂ)) h2
  push_cast at h4
  generalize ((√((n:ℝ) * n + n) : ℝ):ℂ) = q at *
  field_simp
  linear_combination -h4
end vec

section vec2
variable (m J : ℕ) (s : ℤ) (hs : s = m ∨ s = -m) (r : ℕ) (hr : m + J < r) (c1 c2 : ℕ → ℂ) (y : ℕ → ℕ → ℂ)
  (hy : ∀ j ≤ J, Row (m+j) s (ynnm m j : ℝ) (y j)) (F1 F2 D1 D2 : ℤ → ℂ)
  (hF1 : F1 = Frow m J s (fun j => scal (m+j) * c1 j) y) (hF2 : F2 = Frow m J s (fun j => scal (m+j) * c2 j) y)
  (hD1 : Div r (fun k => Complex.I * s * F1 k) D1) (hD2 : Div r (fun k => Complex.I * s * F2 k) D2)

include hs hr hy hF1 hF2 hD1 hD2 in
theorem vector_round_trip_1 (j : ℕ) (hj : j ≤ J) (h0 : m + j ≠ 0) :
    scal (m+j) * bnm s (m+j) (hk r (Dat r s (pad r (Vth D1 F2)) (pad r (Vph F1 D2)))) (y j) = c1 j := by
  subst hF1 hF2
  rw [hk_congr r _ _ (Dat1_eq m J s hs r hr _ _ y hy D1 D2 hD1 hD2), round_trip m J s hs r hr _ y hy j hj]
  have := scal_sq (m+j) h0
  push_cast at this
  linear_combination (c1 j) * this

include hs hr hy hF1 hF2 hD1 hD2 in
theorem vector_round_trip_2 (j : ℕ) (hj : j ≤ J) (h0 : m + j ≠ 0) :
    scal (m+j) * bnm s (m+j) (hk r (Dat r s (fun k => -Complex.I * pad r (Vph F1 D2) k) (fun k => Complex.I * pad r (Vth D1 F2) k))) (y j) = c2 j := by
  subst hF1 hF2
  rw [hk_congr r _ _ (Dat2_eq m J s hs r hr _ _ y hy D1 D2 hD1 hD2), round_trip m J s hs r hr _ y hy j hj]
  have := scal_sq (m+j) h0
  push_cast at this
  linear_combination (c2 j) * this
end vec2




/-! ### the functions the coefficients stand for -/
open Complex in
noncomputable def ev (θ : ℝ) : V →ₗ[ℝ] ℂ := Finsupp.linearCombination ℝ (fun k : ℤ => exp (I * (k * θ)))

open Complex in
theorem ev_e (θ : ℝ) (k : ℤ) : ev θ (e k) = exp (I * (k * θ)) := by simp [ev, e, Finsupp.linearCombination_single]

open Complex in
theorem ev_C (θ : ℝ) (f : V) : ev θ (C f) = 2 * cos θ * ev θ f := by
  have h : (ev θ).comp C = (LinearMap.mulLeft ℝ (2 * cos (θ:ℂ))).comp (ev θ) := by
    apply ext_e; intro k
    simp only [LinearMap.comp_apply, C_e, map_add, ev_e, LinearMap.mulLeft_apply]
    rw [two_cos, add_mul, ← exp_add, ← exp_add]
    push_cast
    congr 1 <;> congr 1 <;> ring
  exact LinearMap.congr_fun h f

open Complex in
theorem ev_S (θ : ℝ) (f : V) : ev θ (S f) = 2 * I * sin θ * ev θ f := by
  have h : (ev θ).comp S = (LinearMap.mulLeft ℝ (2 * I * sin (θ:ℂ))).comp (ev θ) := by
    apply ext_e; intro k
    simp only [LinearMap.comp_apply, S_e, map_sub, ev_e, LinearMap.mulLeft_apply]
    have : 2 * I * sin (θ:ℂ) = exp (θ * I) - exp (-θ * I) := by
      have h2 := two_sin (θ:ℂ)
      linear_combination I * h2 + (exp (-θ * I) - exp (θ * I)) * I_mul_I
    rw [this, sub_mul, ← exp_add, ← exp_add]
    push_cast
    congr 1 <;> congr 1 <;> ring
  exact LinearMap.congr_fun h f

open Complex in
theorem ev_u (θ : ℝ) (m : ℕ) : ev θ (u m) = (2 * I * sin θ) ^ m := by
  induction m with
  | zero => simp [u, ev_e]
  | succ m ih => rw [u, ev_S, ih]; ring

open Complex in
/-- the sum of the contract of sph_harmonic_tp (and, row by row, of the series synthesised by the inverse transform) -/
noncomputable def Psum (m j : ℕ) (s : ℤ) (y : ℕ → ℂ) (θ : ℝ) : ℂ :=
  I ^ s * ∑ k ∈ Icc (-((m+j:ℕ):ℤ)) (m+j:ℕ), (if k < 0 then I ^ (2*s) else 1) * y k.natAbs * exp (I * (k * θ))

open Complex in
theorem Psum_eq (m j : ℕ) (s : ℤ) (hs : s = m ∨ s = -m) (y : ℕ → ℂ) (hy : Row (m+j) s (ynnm m j : ℝ) y) (θ : ℝ) :
    Psum m j s y θ = I ^ s * (al m j * ev θ (fam m j)) := by
  unfold Psum
  congr 1
  have hsup : (fam m j).support ⊆ Icc (-((m+j:ℕ):ℤ)) (m+j:ℕ) := by
    intro k hk
    rw [Finsupp.mem_support_iff] at hk
    rw [Finset.mem_Icc, ← abs_le]
    by_contra hc
    exact hk (fam_supp m j k (not_le.1 hc))
  unfold ev
  rw [Finsupp.linearCombination_apply, Finsupp.sum_of_support_subset _ hsup _ (by simp), Finset.mul_sum]
  apply Finset.sum_congr rfl
  intro k _
  rw [row_eq m s hs j _ y hy k.natAbs]
  have h : ((if k < 0 then I ^ (2*s) else 1) : ℂ) * (fam m j (k.natAbs:ℤ) : ℝ) = (fam m j k : ℝ) := by
    split_ifs with hk
    · rw [I_zpow_sq s m hs, show ((k.natAbs:ℕ):ℤ) = -k by omega, fam_sym]
      have : ((-1:ℂ)^m) * (-1)^m = 1 := by rw [← mul_pow]; norm_num
      push_cast
      linear_combination (fam m j k : ℂ) * this
    · rw [show ((k.natAbs:ℕ):ℤ) = k by omega, one_mul]
  unfold al
  rw [real_smul, ofReal_div]
  linear_combination ((ynnm m j : ℂ) / top m j * exp (I * (k * θ))) * h

theorem ynnm_pos (m j : ℕ) : 0 < ynnm m j := by
  unfold ynnm
  have h1 : (0:ℝ) < 1 / (4 * Real.pi) := by positivity
  refine mul_pos (mul_pos (Real.sqrt_pos.2 h1) ?_) ?_
  · apply Finset.prod_pos; intro k _; apply Real.sqrt_pos.2; positivity
  · apply Finset.prod_pos; intro k hk; apply Real.sqrt_pos.2
    have : (k:ℝ) < j := by exact_mod_cast Finset.mem_range.1 hk
    apply div_pos (by positivity); linarith

/-- recursion coefficient of the normalised functions: sqrt((n^2 - m^2)/((2n-1)(2n+1))), n = m + j -/
noncomputable def rc (m j : ℕ) : ℝ := √(((m+j:ℝ)^2 - m^2) / ((2*(m+j)-1) * (2*(m+j)+1)))

theorem top_pos (m j : ℕ) : 0 < top m j := by
  induction j with
  | zero => simp [top]
  | succ j ih => simp only [top]; positivity

theorem al_pos (m j : ℕ) : 0 < al m j := div_pos (ynnm_pos m j) (top_pos m j)

theorem al_succ (m j : ℕ) : al m j = 2 * (2*(m+j)+1) * rc m (j+1) * al m (j+1) := by
  have hk : 0 < kap m (j+1) := by rw [kap_succ]; positivity
  have hr : rc m (j+1) = √(kap m (j+1) / (4 * ((2*(m+j)+1) * (2*(m+j)+3)))) := by
    unfold rc kap; congr 1; push_cast
    have : (2 * (m + j) + 1 : ℝ) ≠ 0 := by positivity
    have : (2 * (m + j) + 3 : ℝ) ≠ 0 := by positivity
    rw [show (2 * (m + (j + 1)) - 1 : ℝ) = 2 * (m + j) + 1 by ring, show (2 * (m + (j + 1)) + 1 : ℝ) = 2 * (m + j) + 3 by ring]
    field_simp
  have hpos : 0 ≤ 2 * (2*(m+j)+1) * rc m (j+1) * al m (j+1) := by
    have := (al_pos m (j+1)).le
    have := Real.sqrt_nonneg (((m+(j+1:ℕ):ℝ)^2 - m^2) / ((2*(m+(j+1:ℕ))-1) * (2*(m+(j+1:ℕ))+1)))
    unfold rc; positivity
  rw [← Real.sqrt_sq (al_pos m j).le, ← Real.sqrt_sq hpos]
  congr 1
  rw [mul_pow, mul_pow, hr, Real.sq_sqrt (by positivity)]
  unfold al
  have h := sq_succ m j
  have ht := top_ne m j
  simp only [top]
  have h5 : (2*(m+j)+1:ℝ) ≠ 0 := by positivity
  have h6 : (2*(m+j)+3:ℝ) ≠ 0 := by positivity
  rw [div_pow, div_pow, mul_pow]
  field_simp
  linear_combination -4*h

theorem rc_sq (m j : ℕ) : 4 * ((2*(m+j)+1) * (2*(m+j)+3)) * rc m (j+1) ^ 2 = kap m (j+1) := by
  have hk : 0 < kap m (j+1) := by rw [kap_succ]; positivity
  have hr : rc m (j+1) = √(kap m (j+1) / (4 * ((2*(m+j)+1) * (2*(m+j)+3)))) := by
    unfold rc kap; congr 1; push_cast
    have : (2 * (m + j) + 1 : ℝ) ≠ 0 := by positivity
    have : (2 * (m + j) + 3 : ℝ) ≠ 0 := by positivity
    rw [show (2 * (m + (j + 1)) - 1 : ℝ) = 2 * (m + j) + 1 by ring, show (2 * (m + (j + 1)) + 1 : ℝ) = 2 * (m + j) + 3 by ring]
    field_simp
  rw [hr, Real.sq_sqrt (by positivity)]
  have h5 : (2*(m+j)+1:ℝ) ≠ 0 := by positivity
  have h6 : (2*(m+j)+3:ℝ) ≠ 0 := by positivity
  field_simp

theorem rc_al (m j : ℕ) : rc m (j+1) * al m j * (2 * (2*(m+j)+3)) = kap m (j+1) * al m (j+1) := by
  rw [al_succ m j, ← rc_sq m j]; ring

open Complex in
/-- the functions are the normalised associated Legendre functions: they start with a multiple of sin^m and satisfy
cos(theta) P_n = r_(n+1) P_(n+1) + r_n P_(n-1) -/
theorem legendre_start (m : ℕ) (s : ℤ) (hs : s = m ∨ s = -m) (y : ℕ → ℂ) (hy : Row m s (ynnm m 0 : ℝ) y) (θ : ℝ) :
    Psum m 0 s y θ = I ^ s * (2 * I) ^ m * ynnm m 0 * sin θ ^ m := by
  rw [Psum_eq m 0 s hs y hy θ]
  simp only [fam, al, top, ev_u]
  push_cast
  rw [mul_pow]; ring

open Complex in
theorem legendre_step (m j : ℕ) (s : ℤ) (hs : s = m ∨ s = -m) (y0 y1 y2 : ℕ → ℂ)
    (h0 : Row (m+j) s (ynnm m j : ℝ) y0) (h1 : Row (m+(j+1)) s (ynnm m (j+1) : ℝ) y1) (h2 : Row (m+(j+2)) s (ynnm m (j+2) : ℝ) y2) (θ : ℝ) :
    cos θ * Psum m (j+1) s y1 θ = rc m (j+2) * Psum m (j+2) s y2 θ + rc m (j+1) * Psum m j s y0 θ := by
  rw [Psum_eq m j s hs y0 h0, Psum_eq m (j+1) s hs y1 h1, Psum_eq m (j+2) s hs y2 h2]
  have h3 := congrArg (ev θ) (three m (j+1))
  simp only [map_add, map_smul, ev_C, real_smul, pre] at h3
  have h4 := congrArg (fun x : ℝ => (x:ℂ)) (al_succ m (j+1))
  have h5 := congrArg (fun x : ℝ => (x:ℂ)) (rc_al m j)
  push_cast at h3 h4 h5
  have h6 : (2 * (2 * (m + (j + 1)) + 1) : ℂ) ≠ 0 := by
    have : ((2 * (2 * (m + (j + 1)) + 1) : ℕ) : ℂ) ≠ 0 := by exact_mod_cast (by positivity : 2 * (2 * (m + (j + 1)) + 1) ≠ 0)
    intro h7; apply this; push_cast; exact h7
  apply mul_left_cancel₀ h6
  linear_combination (I ^ s * al m (j+1)) * h3 + (I ^ s * ev θ (fam m (j+2))) * h4 - (I ^ s * ev θ (fam m j)) * h5

open Complex in
theorem legendre_first (m : ℕ) (s : ℤ) (hs : s = m ∨ s = -m) (y0 y1 : ℕ → ℂ)
    (h0 : Row m s (ynnm m 0 : ℝ) y0) (h1 : Row (m+1) s (ynnm m 1 : ℝ) y1) (θ : ℝ) :
    cos θ * Psum m 0 s y0 θ = rc m 1 * Psum m 1 s y1 θ := by
  rw [Psum_eq m 0 s hs y0 h0, Psum_eq m 1 s hs y1 h1]
  have h3 := congrArg (ev θ) (three m 0)
  simp only [map_add, map_smul, ev_C, real_smul, pre, map_zero] at h3
  have h4 := congrArg (fun x : ℝ => (x:ℂ)) (al_succ m 0)
  push_cast at h3 h4
  have h6 : (2 * (2 * (m:ℂ) + 1) : ℂ) ≠ 0 := by
    have : ((2 * (2 * m + 1) : ℕ) : ℂ) ≠ 0 := by exact_mod_cast (by positivity : 2 * (2 * m + 1) ≠ 0)
    intro h7; apply this; push_cast; exact h7
  apply mul_left_cancel₀ h6
  simp only [add_zero, smul_zero, mul_zero] at h3 h4
  linear_combination (I ^ s * al m 0) * h3 + (I ^ s * ev θ (fam m 1)) * h4

end Leg

#print axioms Leg.row_eq
#print axioms Leg.orth
#print axioms Leg.alpha
#print axioms Leg.round_trip
#print axioms Leg.vector_round_trip_1
#print axioms Leg.vector_round_trip_2
#print axioms Leg.legendre_start
#print axioms Leg.legendre_first
#print axioms Leg.legendre_step
