"""Per-property metadata of the checks (read by check.py and mkmanifest.py)."""
PROOF = 'contract-based deductive verification of the repository source (own VC generator for the Python/numpy subset, z3 + term rewriting), plus replay on the real code'
# results of the C routines (C15 is about memory: what is computed belongs to C10-C14 and C24)
VALUES = (r'butterfly|discrete Fourier|transform of the decimated|twiddle factor: root|quadrature|recurrence|start value|synthesis|mode computed|'
          r'column of each|h$|kernel$|Fourier data of one order|theta component|phi component|scoef|zero |\|m\| > n|other columns|result: |'
          r'coefficients: result has|pattern: result has|(coefficients|pattern|input|Fourier data|twiddle factors|kernel) unchanged|nothing else written|'
          r'precondition: kf_\w+: twiddle factors|precondition: hkm_fc: ss is')
NOTE = 'Every obligation generated from the current source is discharged for all sizes, indices and values (no bound), over exact arithmetic. Trusted: the verifier in dv/ and its numpy model, z3. '
META = {
    'C01': dict(note='Functions under contract: mindx, constructors, item access of both coefficient classes.'),
    'C02': dict(note='Exceptional postconditions and frame conditions of item access, slices and constructors.'),
    'C03': dict(note='Slice reads, slice writes (with frame condition), truncation and its non-aliasing.'),
    'C04': dict(note='Operators of both coefficient classes with sets, numbers (both sides) and foreign types.'),
    'C05': dict(note='Representation invariant of VectorCoefs established by every producer and preserved by every mutator.'),
    'C06': dict(note='Loop contract of ScalarCoefs.window.'),
    'C07': dict(note='Power, spectrum, norms, magnitude and relative difference of both coefficient classes and both pattern classes.'),
    'C08': dict(note='Contracts of double_sphere (invariant of its write loop), grid views, constructors of both pattern classes.'),
    'C09': dict(note='Operators of both pattern classes with patterns, numbers (both sides) and foreign types; symmetry preservation.'),
    'C10': dict(note='Contracts of ispht/ispht_slow, sc_to_fc, fcvec_m_sc, ynunm, ynnm in Python and in C (loop invariants; the value of every Fourier coefficient). The 2-D FFT of numpy is trusted.'),
    'C11': dict(note='Contracts of ynnm and ynunm in Python and C: the defining recurrence as loop invariant; that its solution is the normalised associated Legendre function is proved in Lean (lemmas/Legendre.lean).'),
    'C12': dict(note='Contracts of spht/spht_slow, fc_to_sc, hkm_fc, bnm_fc, sin_fc, fft/ifft wrappers in Python and C; kiss_fft is used by its contract (DFT), which is proved for its source (C24); the convolution theorem is proved in Lean.'),
    'C13': dict(note='Contracts of vspht, vispht, L_fc, the Fourier operators, window and the transforms they call, Python and C path.'),
    'C14': dict(note='The Python and the C routine of each pair are proved against the same contract term.'),
    'C15': dict(note='Memory-safety obligations (bounds, initialisation, lifetime, release) of every C routine reachable from the transforms, for all sizes; preconditions of the C routines proved at the Python call sites. kiss_fft (including kf_factor and the recursion of kf_work) is included. malloc success and the SWIG wrapper are trusted.', ignore=VALUES),
    'C16': dict(note='Contracts of every operator on Fourier data (loop invariants for the derivatives and the division recurrence).'),
    'C17': dict(note='Exceptional and normal postconditions of spht, vspht, ispht, vispht, both code paths.'),
    'C18': dict(note='Contracts of save_coef, load_coef, save_patt, load_patt, load_fdata, load_vpatt, load_vcoef over a file model (a list of lines; the decimal text with 17 significant digits reads back as the same double).'),
    'C19': dict(note='Contracts of the three coefficient and the three pattern factories; each call of the numpy normal generator yields independent draws (trusted).'),
    'C20': dict(note='Frame conditions (every stored value of the argument is kept) and disjoint storage of the results for norms, magnitudes, copies, truncations, transforms, saving and pattern construction.'),
    'C21': dict(note='Loop contracts of both single_val implementations (a running maximum is recognised from the shape of every path of an iteration) and of is_symmetric; absolute values and quotients in exact arithmetic.'),
    'C22': dict(note='Loop contracts (recurrences) of sbesselj, sbessely and the Hankel routines, contracts of the two self-tests; inside the while loop of sbesselj denominators are assumed not to vanish, termination of that loop is assumed.'),
    'C23': dict(note='Loop contracts of the 2-D and list views.'),
    'C27': dict(note='Contracts of the five routines over the contracts of the file readers (C18), the transforms (C10, C11, C13) and the norms (C07).'),
    'C25': dict(note='Contract of sph_harmonic_tp over the contract of ynnm.'),
    'C24': dict(note='Contracts of kf_bfly2/3/4/5/_generic, kf_work (recursion through its own contract, every radix), kf_factor (loop invariants inferred by Houdini over z3, with termination and overflow), kiss_fft_alloc, kiss_fft_stride, kiss_fft and FindQ, all lengths, both directions, in and out of place. The laws of the roots of unity and the re-indexing of the sum are proved in Lean (lemmas/Fft.lean).'),
    'C26': dict(note='Contracts of the composition (spht of ispht, spht_slow of ispht_slow, vspht of vispht, both code paths): the result is the quadrature of an explicit combination of the Fourier data of the coefficients; that this quadrature returns the coefficients is proved in Lean for every order, degree and size (lemmas/Legendre.lean: ladder operators, orthogonality, norms, uniqueness of the recurrence), from definitions that transcribe the specifications proved of the routines (C10, C12, C13). The transcription is by hand.'),
}
for k, v in META.items():
    v.setdefault('level', 'proof')
    v.setdefault('technique', PROOF)
    v['note'] = (NOTE if v['level'] == 'proof' else '') + v.get('note', '')
NA = {}
