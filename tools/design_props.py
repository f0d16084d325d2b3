"""id -> (what is executed and against which oracle, what lies outside / notes)"""
P = {
"C01": ("convert_vector / convert_dual_vector and the basis classes run on symbolic amplitudes. Oracle: explicit basis-function matrices `Phi[m, j] = phi_m(x_j)` written from the definition of each kind (delta functions; exp(2 pi i m j / N)/sqrt N in FFT order; truncations; every `step`-th plane wave from `offset`; explicit vectors), so the converted data must be `Phi_b^* Phi_a^T` applied along the axis.",
        "Kinds, truncations, steps, offsets, axis and array rank are solver integers; explicit bases use fixed dense unitaries and their sub-columns. The momentum bases' transforms run through the real numpy FFT on the coefficient arrays."),
"C02": ("TupleBasis conversion, nested stacks and the `stacked_basis_as_*`/`with_*` builders; oracle: Kronecker products (row-major) of the C01 matrices; the derived bases must have the lattice vectors and sizes asked for.",
        "Nested TupleBasis used as a *transformed* basis Fourier transforms over its own flat index (a quirk of `__into_transformed__` which no caller relies on) and is outside."),
"C03": ("convert_matrix, convert_operator*, diagonal and list variants; oracle: `K_a^dagger A K_b` with the C01/C02 matrices, plus metamorphic obligations (action, hermiticity, trace).", ""),
"C04": ("pad_ft_points, the fftn/rfftn/spline interpolators; oracle: explicit 0/1 frequency-selection matrices and DFT matrices built from the definition.",
        "Splines are linear in the data: scipy runs on the coefficient vectors; `interpolate_uneven_potential` heights by knots only."),
"C05": ("BasisUtil flat/stacked indices, wrapping and slicing with symbolic integers (floor division and modulo are integer definitions in z3); oracle: row-major arithmetic, wrapped value equivalent modulo the period and within half of it.",
        "Points exactly half a period away may be wrapped either way (ambiguity is allowed); unwrapping excludes half-turn jumps of exactly pi."),
"C06": ("BasisUtil geometry with symbolic cell vectors (inverse matrices as z3 definitions), projections, path distances, wrapped paths, Brillouin zone folding; oracle: `a_i . b_j = 2 pi delta_ij`, determinants, integer combinations, Euclidean norms, closest-Bragg-plane definition.",
        "Zone folding uses fixed cells and symbolic integers; fully symbolic three-dimensional cells take z3 over 15 minutes per case and are left out. Path steps of exactly half a period are excluded."),
"C07": ("operators, lists and their algebra; oracle: plain matrix expressions after expressing both operands in one basis with the C03 matrices; operands compared with a snapshot.", ""),
"C08": ("application, expectation, inner products, averages over eigenvalue axes, functions of operators, displacement operators; oracle: matrix-vector algebra, plain sums over axes, minimum-image displacement up to the half-period ambiguity.",
        "Functions of operators use the spectral contract (fixed unitary, symbolic spectrum)."),
"C09": ("state vectors, dual vectors, lists; oracle: sums over the definition, numpy indexing of the snapshot. Negative indices and axes are included.",
        "`get_single_point_state_vectors` is unused and cannot run (its data do not fit its basis)."),
"C10": ("eigenstate calculation for full operators and subsets; eigh by contract with arbitrary eigenvector phases, so a result which depends on the solver's gauge is rejected; 2x2 with symbolic eigenvectors.",
        "`np.testing.assert_allclose` with atol=0 inside the package may fail spuriously for exact zeros; generic values are used."),
"C11": ("hamiltonian builders (momentum, fundamental, stacked); oracle: `hbar^2 |sum_i (m_i + f_i) b_i|^2 / 2m` with symbolic lattice vectors, plus the DFT conjugate of diag(V).",
        "explicit_z_basis and sho_subtracted_basis cannot be imported on this tree (they import names which no longer exist)."),
"C12": ("potential conversions, continuous evaluation, derivative, truncation and loading of grids; oracle: the trigonometric polynomial through the samples.",
        "Truncation and its inverse involve ln/exp of symbolic energies: opaque atoms with ln(exp(x)) = x; exponents 1 and 2."),
"C13": ("noise kernels and operators in all representations; oracle: `sum_a rate_a conj(L_a)_ij (L_a)_kl` by index and periodic displacement tables; refusal of non-isotropic kernels decided as `raises` obligations.",
        "Kernels between different bases are not supported by the package."),
"C14": ("kernel decompositions; oracle: kernel rebuilt by its definition from the returned operators; Taylor coefficients of the returned cosine series computed exactly.",
        "The explicit Taylor routine stops at the first (near-)zero coefficient, so non-vanishing coefficients are assumed. `curve_fit` is a least-squares contract."),
"C15": ("temperature correction, truncation, sampling; standard normal draws are symbolic, so mean, independence and covariance follow from the exact linear response.",
        "Truncation of full lists sorts by eigenvalue, of diagonal lists by its modulus; the property is about non-negative rates."),
"C16": ("wavepackets, Bloch/unfurled/individual states, band lists, resizing and generation; oracle: plane-wave amplitudes by (sample, band, plane wave) tables.",
        "Wavepacket list bases must be of transformed type."),
"C17": ("localisation operators, phases, Wannier states, localised hamiltonians, projections; oracle: explicit sums over samples; the projection result is compared with the polar factor U V^dagger of an svd by contract.",
        "Operator-localised wavepackets have unit norm; the 'exponential' reference state is exp(-sum d^2)."),
"C18": ("oscillator states, oscillator bases and potential bases; oracle: Hermite recurrences at symbolic coordinates; eigen-solvers by contract.",
        "`x_origin` is the coordinate of the first point. scipy.special.factorial etc. run concretely."),
"C19": ("tunnelling matrices and conversions; oracle: direct loop over sites, bands and hops.", "`from_a_matrix` collapse operators hold A_ij; the simplified list leaves out rates below one."),
"C20": ("decomposition-based evolution, rate equations, ISF, closed-form hopping models, fits and filters; oracle: exponentials of symbolic eigenvalues, defining sums. exp/cos/sin of symbolic arguments are exponential polynomials (exact), so composition and conservation are identities.",
        "The 4-variable and Fey two-site models are symmetric under exchanging fast and slow; fits ignore `standard_deviation`; the frequency filter rolls by `offset`, right for step 1; angle averages sample 0 and 2 pi both."),
"C21": ("the cached decorators, executed against a scratch directory in the check's own temporary folder; calls, arguments and cache states are symbolic integers, returned values are fresh symbols, so a hit of the wrong key cannot look right.",
        "A cached `None` is treated as absent (documented behaviour of the loader)."),
"C22": ("overlaps and interpolators; oracle: defining sums over a common position grid.", "The interpolator uses the unnormalised sum with e^{+ikx}, the conversion e^{-ikx}/sqrt N; an int shift is a flat roll, a tuple shifts each axis."),
"C23": ("probability vectors; oracle: numpy sums of |a|^2 over exactly the axes named.", ""),
"C24": ("time bases with symbolic total time; oracle: arithmetic.", ""),
"C25": ("Wannier90 files are written by the package with symbolic numbers (formatted through unique literals), parsed by the harness and compared; files to read back are produced by the harness.", "Wannier90 itself is out of scope; dmn files raise NotImplementedError."),
"C26": ("the external solvers are replaced by recorders: the harness inspects the operators, states, times and options handed over and returns symbolic trajectories.", "qutip and sse_solver_py themselves are out of scope (without sse_solver_py the rust solvers raise NameError, the recorder is injected)."),
"C27": ("averages, periodic positions, displacements and scattering of state lists; oracle: sums over all pairs of times.", "Spread and coherent checks use symbolic phases of fixed modulus; `_get_x_spread` returns NaN when rounding makes |<e^{iqx}>| exceed one; mean k (x) uses the length of the reciprocal (lattice) vector; the drift is sum (x_t - x_{t+lag}) / sum 1/k_t along one axis."),
"C28": ("plotting of vectors: matplotlib axes are replaced by a recording Canvas (`checks/figs.py`) whose recorded coordinates and values are symbolic; oracle: value of the vector at the projected coordinates.", "Where a modulus/phase/argmax is drawn, amplitudes are 0.003-neighbourhoods of generic values."),
"C29": ("plots of lists, occupations, paths and comparisons, on the Canvas.", "As C28. Comparison sites with offsets beyond the cell raise IndexError."),
"C30": ("plots of operators, kernels, bases and wavepackets, on the Canvas.", "As C28. Diagonal operators are drawn along the diagonal in position bases only."),
"C31": ("the friction integrals, with quadrature replaced by a one-point rule at an arbitrary point (a linear functional which exposes limits and integrand); oracle: Fermi-Dirac factors and the screened potential written out.", "The documented prefactor has hbar where the code has hbar^3 (only the latter is a rate); the constant between momentum transfer and k_f sin(phi/2) is left open."),
}
