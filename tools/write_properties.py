"""Regenerates /verif/properties.jsonl (kept here because JSON lines are unpleasant to edit)."""
import json
from pathlib import Path

P = []


def p(id, title, statement, text, why, files, mech, over=("inputs", "configurations"), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["surface_potential_analysis/" + f for f in files],
            "mechanism": [{"name": n, "where": "surface_potential_analysis/" + w} for n, w in mech],
            **({"observe_at": list(observe)} if observe else {}),
        },
    })


p("C01", "Basis conversion preserves the represented state",
  "Converting the coefficients of a vector from one single-axis basis to another (position, momentum/transformed, truncated, evenly spaced, explicit) along any axis of the data array describes the same state: it equals expanding the vector on the source basis functions and projecting it onto the target basis functions. Conversion to a basis that spans the state loses nothing and converting back returns the original coefficients; dual vectors convert with the complex-conjugated coefficients, so inner products are preserved. The basis vectors exposed by a basis are orthonormal and agree with the conversion.",
  "for all complex coefficient arrays, every pair of bases with the same underlying grid, every fundamental size/truncation/step/offset and every axis",
  "No test imports basis conversion (the modules with such tests fail to import here); a unit test samples a handful of sizes and random vectors, while odd/even sizes, negative axes, offsets and truncation all take different code.",
  ["basis/basis_like.py", "basis/basis.py", "basis/evenly_spaced_basis.py", "basis/explicit_basis.py", "basis/conversion.py", "basis/util.py"],
  [("conversion through the fundamental / transformed grid", "basis/basis_like.py"), ("fft + pad/truncate of each basis", "basis/basis.py"), ("sampling of evenly spaced bases", "basis/evenly_spaced_basis.py")])

p("C02", "Conversion of stacked bases is the tensor product of the single-axis ones",
  "Converting a vector between stacked (product) bases, including nested ones, equals converting every axis separately in the row-major tensor product, for any number of axes. Deriving the related fundamental position, momentum, transformed or resized bases of a stacked basis keeps the lattice vectors of every axis and the number of points required by the target. Conversion there and back is lossless whenever the intermediate basis is complete.",
  "for all coefficient vectors and every stack of 1-3 axes of (mixed) basis types, truncations and sizes",
  "Stacked conversion has no importable test; the axis bookkeeping only fails when axes have different sizes or types.",
  ["basis/stacked_basis.py", "stacked_basis/conversion.py", "stacked_basis/build.py", "basis/conversion.py", "util/interpolation.py"],
  [("per-axis conversion of a reshaped vector", "basis/stacked_basis.py"), ("construction of derived bases", "stacked_basis/conversion.py")])

p("C03", "Operator basis conversion preserves action and expectation",
  "Converting an operator (full, or list of operators) to another basis transforms it as ket times bra: acting on a converted state gives the converted result and every matrix element between converted states is unchanged when the bases are complete. Hermitian operators stay hermitian and the trace is preserved under a change between complete orthonormal bases. A diagonal operator or diagonal list converted to another basis equals the conversion of the same operator written in full.",
  "for all complex operator matrices and every pair of (stacked) bases on each side",
  "No importable test exercises operator conversion; a missing conjugate only shows with complex entries in a non-symmetric basis.",
  ["operator/conversion.py", "basis/basis_like.py", "basis/stacked_basis.py", "operator/operator.py", "operator/operator_list.py"],
  [("matrix conversion via ket and dual conversion", "basis/basis_like.py"), ("operator conversions", "operator/conversion.py")])

p("C04", "Fourier padding, truncation and interpolation are exact",
  "Padding or truncating a Fourier-space array to another shape keeps every frequency present in both and fills the others with zero, on any axes and in any order of sizes. Fourier interpolation reproduces band-limited periodic data exactly, the complex and real-input routines agree on it, interpolation to the size the data already have returns the data, interpolation to an integer multiple of the size passes through the original points, and the real routine returns real values. Spline interpolation along any axis passes through the knots. Axes default to the last ones, in order.",
  "for all real or complex data arrays, all input/output lengths (odd and even, growing and shrinking) and axes",
  "The tests compare a few random arrays at a few fixed shapes.",
  ["util/interpolation.py", "stacked_basis/conversion.py", "potential/conversion.py"],
  [("copying of the low-frequency block", "util/interpolation.py")])

p("C05", "Flat, stacked and wrapped indices are consistent bijections",
  "Flat and stacked (position or momentum) index representations convert into each other without loss, in row-major order, negative momentum indices wrapping modulo the size of each axis. Wrapping an index or a point around an origin yields the equivalent representative within half a period of that origin. Slicing helpers pick exactly the requested axis positions, for any axis including negative ones.",
  "for all integer indices, origins, shapes and axes (sizes and indices symbolic)",
  "The tests sample random shapes and points; boundary values (half period, even sizes, negative axes) are hit rarely.",
  ["basis/util.py", "stacked_basis/util.py", "util/util.py"],
  [("ravel/unravel of indices", "basis/util.py"), ("wrap around origin", "stacked_basis/util.py"), ("slice helpers", "util/util.py")])

p("C06", "Lattice geometry, reciprocal lattice and Brillouin zones are consistent",
  "Real-space and reciprocal lattice vectors are dual up to 2 pi, cell volumes are the determinants of the lattice vectors, and sample points in position and momentum space are the integer combinations of the lattice vectors in flat row-major order, regardless of the dimension or skew of the cell. Projections onto axes keep the length of every in-plane vector and distances along a path are Euclidean distances of consecutive points. Folding a momentum index towards the Brillouin zone yields an equivalent point: a point of the first zone stays, any other is translated by the reciprocal vector of the closest Bragg plane inside it and so gets closer to the origin.",
  "for all (symbolic, invertible) lattice vectors in 1-3 dimensions, all grid shapes, all indices",
  "The tests cover a few fixed or random cells and only the point formulas.",
  ["basis/util.py", "stacked_basis/util.py", "stacked_basis/brillouin_zone.py", "util/util.py"],
  [("reciprocal vectors, points", "basis/util.py"), ("projection, path distances", "stacked_basis/util.py"), ("zone folding", "stacked_basis/brillouin_zone.py")])

p("C07", "Operator algebra agrees with matrix algebra",
  "Sum, difference, scaling, product, commutator, anticommutator and exponential of operators and operator lists equal the corresponding matrix expressions after both operands are expressed in one basis, for full and diagonal operators alike. Selecting, iterating, rebuilding and diagonal/full conversions of lists keep every operator and its order. Operations never modify their operands.",
  "for all complex operator matrices, list lengths and bases (including operands given in different bases)",
  "No importable test; a wrong index order is invisible for symmetric or square-size-one samples.",
  ["operator/operations.py", "operator/operator.py", "operator/operator_list.py"],
  [("einsum based list operations", "operator/operations.py"), ("single operator arithmetic", "operator/operator.py")])

p("C08", "Operator observables, averages and displacements are correct",
  "Applying an operator to a state or list of states and taking expectation values agree with matrix-vector algebra in any basis; averaging or summing eigenvalues of a diagonal operator over axes is the arithmetic mean or sum over exactly those axes and keeps the rest. A function of an operator acts on its spectrum. Displacement operators of a cell with orthogonal axes hold the minimum-image displacement between lattice points, antisymmetric up to the half-period ambiguity, per axis and in total.",
  "for all states, operators, eigenvalue arrays, axes (including the default: all axes), grid sizes and cell lengths",
  "No importable test covers operators at all.",
  ["operator/operator.py", "operator/operations.py", "operator/build.py", "state_vector/eigenstate_calculation.py"],
  [("state application and expectation", "operator/operations.py"), ("averages", "operator/operator.py"), ("displacement construction", "operator/build.py")])

p("C09", "State vectors and lists: inner products, selection and conversion",
  "Inner products are linear in the ket, conjugate-linear in the bra and independent of the basis in which either state is written; element-wise list products give all pairs. Selecting, iterating, stacking, averaging and flattening state lists keep data and order, projection and basis conversion act on each state separately, and normalised or band-weighted results match their definitions. Inputs are left unmodified.",
  "for all complex state data, list lengths and bases",
  "No importable test covers state vectors or lists.",
  ["state_vector/state_vector.py", "state_vector/state_vector_list.py", "state_vector/conversion.py", "state_vector/util.py", "state_vector/eigenstate_list.py"],
  [("inner products and list handling", "state_vector/state_vector_list.py"), ("state conversions", "state_vector/conversion.py")])

p("C10", "Eigenstates diagonalise the operator they come from",
  "The eigenstates computed for a hermitian operator are orthonormal, satisfy the eigenvalue equation with the eigenvalue stored beside them, are expressed in the operator's own basis (also for subsets), and together with their eigenvalues rebuild the operator.",
  "for all hermitian operators with the stated spectrum (eigen-solver taken by contract), all sizes in bounds and all subset ranges",
  "No importable test; transposed eigenvector storage is invisible for real symmetric samples of size one or when only eigenvalues are compared.",
  ["state_vector/eigenstate_calculation.py", "state_vector/eigenstate_list.py", "basis/explicit_basis.py"],
  [("eigenvector storage", "state_vector/eigenstate_calculation.py")])

p("C11", "Hamiltonians are hermitian and equal kinetic plus potential energy",
  "The Hamiltonian built from a potential, mass and Bloch wavevector is hermitian, in the momentum representation its kinetic part is hbar^2 |G + k|^2 / 2m for the actual reciprocal lattice, and its potential part acts in position space as multiplication by the potential. Adding a constant to the potential shifts it by that constant, shifting the wavevector by a reciprocal lattice vector only relabels plane waves, and the result does not depend on the basis used to express it.",
  "for all real potentials, wavevector fractions, masses, skew lattices and grid shapes within bounds",
  "No importable test builds a Hamiltonian.",
  ["hamiltonian_builder/momentum_basis.py", "basis/util.py", "potential/conversion.py"],
  [("kinetic and potential matrices", "hamiltonian_builder/momentum_basis.py")])

p("C12", "Potential conversions, interpolation and derivatives preserve the function",
  "Converting a potential between position-type bases evaluates the same band-limited periodic function, the continuous form passes through every sample, and the derivative is the derivative of that function. Normalisation makes the minimum zero by a constant shift, truncation applies V -> cutoff * ln(1 + (V/cutoff)^n)^(1/n) and undoing it restores the potential, mocking an even grid keeps the values at their grid positions, and potentials read from a JSON grid hold the file's values in row-major grid order.",
  "for all real potential data, shapes and cells within bounds",
  "No importable test covers potentials except index helpers.",
  ["potential/potential.py", "potential/conversion.py", "stacked_basis/conversion.py"],
  [("potential conversions", "potential/conversion.py"), ("normalise/truncate/interpolate", "potential/potential.py")])

p("C13", "Noise kernels, their isotropic forms and noise operators are equivalent",
  "A kernel assembled from noise operators is the rate-weighted sum of the conjugate-transposed operator times the operator, and the diagonal, full and isotropic representations of a kernel describe the same correlations and convert back without loss; a kernel that is not isotropic is refused the isotropic form. An isotropic kernel expands to beta(x - x') of the periodic displacement only, also on stacked lattices, kernels built from a function (Gaussian and Lorentzian included) hold that function of the minimum-image displacement, and products over axes equal the outer product of axis kernels. Converting a kernel or operator list to another basis commutes with these constructions.",
  "for all complex/real kernel data, operator lists, list lengths and 1-2 axis grids",
  "No importable test covers kernels.",
  ["kernel/kernel.py", "kernel/conversion.py", "kernel/build.py", "kernel/gaussian.py", "kernel/lorentzian.py"],
  [("kernel representations", "kernel/kernel.py"), ("kernel conversion", "kernel/conversion.py")])

p("C14", "Noise operators solved from a kernel reproduce that kernel",
  "The noise operators obtained from a kernel by eigendecomposition or by the Fourier methods (general, real, stacked) rebuild the original kernel exactly when all operators are kept; the eigenvector operators are orthonormal with rates in rising order, and a reduced number of Fourier operators which divides the grid rebuilds the kernel at the smallest displacements (other numbers are refused, as are kernels without the required symmetry). Expansions from Taylor coefficients (given, Gaussian or Lorentzian; none vanishing) are cosine series with exactly those leading Taylor coefficients, and the fitted expansion of a real even kernel passes through the kernel at every displacement up to the requested order.",
  "for all kernels with the required symmetry (symbolic values), grid sizes and operator counts",
  "No importable test solves a kernel.",
  ["kernel/solve/_eigenvalue.py", "kernel/solve/_fft.py", "kernel/solve/_taylor.py", "kernel/solve/_util.py", "kernel/solve/__init__.py"],
  [("eigenvalue solution", "kernel/solve/_eigenvalue.py"), ("Fourier solution", "kernel/solve/_fft.py"), ("Taylor solution", "kernel/solve/_taylor.py")])

p("C15", "Temperature correction, truncation and sampling of noise operators",
  "Temperature-corrected noise operators are L - [H, L] / (4 k T) with unchanged rates, the same operators from the full and the diagonal form (given in the Hamiltonian's and the operators' basis respectively). Truncating noise operators or kernels keeps exactly the operators at the requested places in order of falling (non-negative) rate, unchanged. Noise sampled from operators, split by operator or from a kernel is linear in the standard normal draws with zero mean, independent samples, covariance hbar times the kernel and circular complex phase; summing or separating split samples gives the sum and the components over operators.",
  "for all operators, Hamiltonians, temperatures and random draws (symbolic)",
  "No importable test covers this.",
  ["kernel/build.py", "kernel/sample.py", "kernel/gaussian.py"],
  [("temperature correction, truncation", "kernel/build.py"), ("sampling", "kernel/sample.py")])

p("C16", "Wavepackets, Bloch states and their unfurled form describe the same states",
  "A wavepacket's Bloch states, their unfurled representation over the super-cell and the individual eigenstates carry the same momentum-space amplitudes: unfurling is the normalised sum of the Bloch states and keeps the norm, Bloch states at different wavevectors are orthogonal, and each eigenstate satisfies Bloch's theorem for the wavevector of its sample. Basis changes, band selection, iteration, averaging and resizing keep every band and sample in order. Wavevector fractions and frequencies agree with the sample list. Wavepackets generated from a Hamiltonian hold its eigenstates and energies of each sample, lowest bands first.",
  "for all complex wavepacket data, sample shapes, unit-cell shapes and bands within bounds",
  "No importable test covers wavepackets.",
  ["wavepacket/wavepacket.py", "wavepacket/get_eigenstate.py", "wavepacket/eigenstate_conversion.py", "wavepacket/conversion.py"],
  [("unfurling", "wavepacket/eigenstate_conversion.py"), ("eigenstates", "wavepacket/get_eigenstate.py")])

p("C17", "Localisation is a unitary change of gauge within the bands",
  "Applying a localisation operator makes, for every sample, exactly the stated combination of the bands (the identity changes nothing, diagonal and full forms agree); Wannier states are the normalised sums over samples and their translates by whole unit cells, and Hamiltonians between localised or Wannier states are <w_i|H|w_j>. Phase-based localisation only multiplies each Bloch state by a phase and makes the state have the requested phase at the chosen point (given, or the maximum) for every sample. Projection-based localisation applies the unitary (or isometry) closest to the overlaps with the projections, so its result does not depend on the phases of the Bloch states; tight-binding, single-point and Gaussian reference states are centred on the stated point; operator-based localisation gives eigenstates of the projected position.",
  "for all wavepacket data, localisation operators, projections with distinct overlaps, gauges and chosen points within bounds",
  "No importable test covers localisation.",
  ["wavepacket/localization_operator.py", "wavepacket/localization/_tight_binding.py", "wavepacket/localization/_projection.py", "wavepacket/localization/_operator.py", "wavepacket/get_eigenstate.py"],
  [("application of localisation operators", "wavepacket/localization_operator.py"), ("phase gauges", "wavepacket/localization/_tight_binding.py")])

p("C18", "Bases built from a potential are its eigenstates",
  "The harmonic oscillator states have the closed form (Hermite function) at every coordinate; a basis of oscillator states on a cell holds those values at the points of the cell (whatever the representation of the parent basis), scaled by the square root of the spacing, the origin being the coordinate of the first point along the cell; the oscillator potential is m omega^2 x^2 / 2 at those points. The basis of a potential consists of its lowest eigenstates, in increasing energy, and the column selected from a three-dimensional potential is the one through its minimum.",
  "for all coordinates, origins, cells, states and potential values within bounds",
  "The tests of these modules cannot be imported, and sample a few states on one grid.",
  ["stacked_basis/sho_basis.py", "stacked_basis/potential_basis.py"],
  [("oscillator states", "stacked_basis/sho_basis.py"), ("potential eigenstates", "stacked_basis/potential_basis.py")])

p("C19", "Tunnelling rate matrices conserve probability",
  "The rate matrix built from hopping coefficients conserves total probability for every number of sites and bands, its off-diagonal entries are the hopping rates between the right sites with periodic wrap-around, and conversions between the hopping-array (rate per band pair and hop), jump-matrix and rate-equation forms are mutually inverse and leave their input unmodified. Functions given per pair of states are evaluated at the correct pair and displacement; there is one collapse operator for every jump, with that jump as its only entry, in the basis of the lattice; the location of a band is a point (as a fraction of the unit cell) in the middle of the maximum of its wavepacket.",
  "for all real rate arrays and site/band shapes within bounds",
  "No importable test covers rates.",
  ["dynamics/incoherent_propagation/tunnelling_matrix.py", "dynamics/tunnelling_basis.py"],
  [("rate matrix construction", "dynamics/incoherent_propagation/tunnelling_matrix.py")])

p("C20", "Time evolution preserves norm, composes and matches the generator",
  "Decomposition-based Schrodinger evolution multiplies every eigenstate amplitude by exp(-iEt/hbar): the initial state is returned at time zero, norms and energies are conserved and evolution composes over time steps. Incoherent evolution multiplies each eigenmode by exp(rate t), returns the initial populations at time zero and conserves total probability. Intermediate scattering functions computed from these populations equal the defining sums (average of exp(i dk.x) over the minimum-image displacement from the initial location), the closed-form two-site hopping models equal the exponential of their rate matrix, and a scattering function rebuilt from a fit is the function that was fitted. Every list of states over time is stored flat, in the basis it states.",
  "for all initial states, spectra and times within bounds",
  "No importable test covers dynamics.",
  ["dynamics/schrodinger/solve.py", "dynamics/incoherent_propagation/eigenstates.py", "dynamics/incoherent_propagation/isf.py", "dynamics/isf.py"],
  [("spectral propagation", "dynamics/schrodinger/solve.py"), ("rate equation propagation", "dynamics/incoherent_propagation/eigenstates.py"), ("scattering functions", "dynamics/isf.py")])

p("C21", "Cached functions return exactly what the function would return",
  "A cached function returns the value of the wrapped function: a cache hit never returns the result of other arguments, results read back equal those written (including absent and disabled caches), the wrapped function is evaluated at most once per cache key while the cache is present, and a forced recomputation replaces the stored value.",
  "for all sequences of calls (arguments, load/recompute modes, presence or absence of the file) up to the bound",
  "No test touches the cache decorators; the failure needs a particular sequence of calls.",
  ["util/decorators.py"],
  [("file cache decorators", "util/decorators.py")], over=("inputs", "histories"))

p("C22", "Overlaps of wavepackets and states equal their defining integrals",
  "The overlap of two states is the pointwise product conj(psi_i(x)) psi_j(x - shift) on a common position grid that is periodic along every axis; list overlaps hold the overlap of each pair at the index of that pair, and the overlap of wavepackets is that of their unfurled states. Converting an overlap between position and momentum form changes the points only and converts back losslessly; interpolating in momentum gives the sum of overlap times exp(ik.x) at every wave vector, in agreement with the transform at the sample momenta, on grids of any (unequal) size; the in-plane interpolator is the same at zero perpendicular wave vector, and keeps the points of largest overlap.",
  "for all complex state data, list lengths and grids",
  "No importable test covers overlaps.",
  ["overlap/calculation.py", "overlap/conversion.py", "overlap/interpolation.py", "overlap/overlap.py"],
  [("overlap products", "overlap/calculation.py"), ("overlap conversion", "overlap/conversion.py"), ("interpolation", "overlap/interpolation.py")])

p("C23", "Probability vectors carry |amplitude|^2 and sum correctly",
  "The probability vector of a state is the squared modulus of its amplitudes in the same basis, so its total equals the squared norm; marginalising or averaging over axes sums exactly those axes, keeps the others in order with the matching basis, and preserves the total. List and single forms agree and the data are not modified.",
  "for all complex amplitudes, axes choices and stacked shapes",
  "No importable test covers probability vectors.",
  ["probability_vector/probability_vector.py", "probability_vector/conversion.py"],
  [("probabilities and marginals", "probability_vector/probability_vector.py")])

p("C24", "Time bases agree on their sample times",
  "The sample times of a time basis are evenly spaced, start at the stated offset, and equal the fundamental times picked by the basis's step and offset (an offset below the step); the number of times equals the basis size and the spacing is the total time divided by the number of fundamental steps.",
  "for all sizes, steps, offsets and time steps",
  "No importable test covers time bases.",
  ["basis/time_basis_like.py", "basis/evenly_spaced_basis.py"],
  [("time construction", "basis/time_basis_like.py")])

p("C25", "Files exchanged with Wannier90 describe the wavepackets",
  "The input files hold the lattice vectors (in angstroms), the grid and wave vectors of the samples in the order the bands are stored, and the convergence options asked for; the overlap file holds <u_m,k|u_n,k'+G> for exactly the neighbours Wannier90 asked for, in the order it reads them, and the projection file <psi_m,k|g_n>. The rotations Wannier90 returns are read back, for every sample, as the operator that takes bands to localised states (the localised wavepackets are those combinations); bands localised individually give a diagonal operator. The input wavepackets are unmodified, and symmetry operations on samples are the mirror images and axis swaps they are named after.",
  "for all complex band amplitudes, projections, returned rotations and neighbour lists within bounds",
  "Wannier90 is not installed, and no test calls this code.",
  ["wavepacket/localization/_wannier90.py"],
  [("Wannier90 exchange files", "wavepacket/localization/_wannier90.py")])

p("C26", "External solvers are given the right equation of motion",
  "Whatever solver is used (qutip, the dense or banded sse solver), the equation handed over is d psi = -i H psi dt / hbar with every collapse operator over the square root of hbar, in the basis of the Hamiltonian, with the initial state, the sample times and the number of trajectories asked for (also without collapse operators). The states it returns are stored flat by trajectory and time in the stated basis. A localised trajectory starts in the initial state, advances by the time between samples, and continues from a normalised state that diagonalises the density matrix of all realisations, chosen as often as it is occupied.",
  "for all Hamiltonians, initial states, returned trajectories and times within bounds",
  "The stochastic solver is not installed and its results are random; no test calls this code.",
  ["dynamics/stochastic_schrodinger/solve.py", "dynamics/schrodinger/solve.py"],
  [("stochastic Schrodinger solvers", "dynamics/stochastic_schrodinger/solve.py")])

p("C27", "Averages, spreads and correlations of lists of states",
  "For lists of states over repeats and times: the mean position and momentum along an axis are <x> and <k> of every state along that axis (also on stacks of several axes); the periodic operator multiplies by exp(2 pi i sum m_a x_a / L_a), the periodic mean position is the angle of its expectation and its spread follows from the modulus, the restored trajectory differs from it by whole periods and is continuous in time. The mean square displacement and the scattering function at a lag are averages of |x(t+lag)-x(t)|^2 and exp(ik(x(t+lag)-x(t))) over all pairs of times that far apart. Average band energies, thermal band occupations and effective masses are those of the stated wavepackets. The caller's states are not modified.",
  "for all complex amplitudes, wave vectors, lags and band energies within bounds",
  "No test calls these functions; several axes, repeats and lags have to be combined for a fault to show.",
  ["state_vector/plot.py", "wavepacket/plot.py", "state_vector/plot_value_list.py"],
  [("observables of states", "state_vector/plot.py"), ("band observables", "wavepacket/plot.py")])

p("C28", "Figures show the vector they are given",
  "A line or colour map of a vector (a state, probability, potential, overlap or kernel, in any basis) shows the real part, imaginary part, modulus or continuous phase of its value at every grid point (or wave vector, ascending) of the line or plane through the index asked for, or through its largest value, against the projected coordinates of those points; lines are closed by periodicity. Colours reach from the smallest value (zero for a modulus) to the largest. An animation has one frame for every vector of a list, or every plane along the third axis with common limits, in order. The caller's data are not modified.",
  "for all small complex perturbations of a generic vector, all bases, axes and indices within bounds",
  "No test looks at what is drawn; mistakes show up only for skew cells, several axes or bases that need a conversion.",
  ["util/plot.py", "state_vector/plot.py", "potential/plot.py", "probability_vector/plot.py"],
  [("plotting of vectors", "util/plot.py")])

p("C29", "Figures of lists show their data against time, energy or position",
  "Lines of value lists over repeats and times, their averages, correlation functions, energies, thermal occupations, occupations of states and bands, probabilities of states, bands and sites show the data given (or its average, fit error or total, as named) against the times, indices, energies or wave vectors they belong to; lines along a path, or along the path of lowest potential, show the values at the points of that path in position, whatever the basis given; comparisons of potentials show their values at the sites named relative to the lowest. The caller's data are not modified.",
  "for all real and complex values, numbers of repeats and times, bases and paths within bounds",
  "No test looks at these figures, and several raised or changed the caller's energies.",
  ["state_vector/plot_value_list.py", "state_vector/eigenvalue_list_plot.py", "dynamics/plot.py", "dynamics/isf_plot.py", "potential/plot.py", "overlap/plot.py", "probability_vector/plot.py"],
  [("plots of value lists", "state_vector/plot_value_list.py"), ("paths of lowest potential", "potential/plot.py")])

p("C30", "Figures of operators, kernels, bases and wavepackets show what they name",
  "Maps and lines of operators, diagonal operators and noise kernels show the matrix elements (for the position variants, those of the operator in position), eigenvalues, thermal occupations and the sum of eigenvalues left out by a truncation; a drawn realisation of the noise has the correlations of the operators kept, relative to its first point; decomposed rates are ordered by weight; points of a basis are projected on the plane asked for; figures of a wavepacket show its band energies, their Fourier transform, its sampled wave vectors and its value over the whole of its cell in position and momentum. They are drawn on the axes given and do not modify their arguments.",
  "for all operators and kernels, all Gaussian draws, packets and bases within bounds",
  "No test looks at these figures, and several raised or used the wrong operators or points.",
  ["operator/plot.py", "kernel/plot.py", "dynamics/incoherent_propagation/plot.py", "stacked_basis/plot.py", "wavepacket/plot.py"],
  [("noise realisations", "kernel/plot.py"), ("wavepacket figures", "wavepacket/plot.py")])

p("C31", "Electron-hole friction integrals follow Fermi statistics and screening",
  "In the hermitian gamma integrals the occupation integrand is N(E)(1 - N(E + omega)) of the Fermi-Dirac distribution at the Fermi wavevector and temperature given; the wavevector integral is that integrand over a window that covers the thermal width of the Fermi edge and still resolves it; the screened Coulomb potential is e^2/(eps0 q^2) ((1 + q^2/alpha^2)^-2 - 1) with alpha = 2/a0, continuous to its uniform limit -2 e^2/(eps0 alpha^2); the angular integral over 0..pi is sin(phi) V(q)^2 times the complex overlap at the momentum transfer, which goes as sin(phi/2), with the prefactor 4 m k_f^3/(2 pi hbar)^3, and is linear in the overlap; the rate is the product of both integrals.",
  "for all temperatures, energies, wavevectors and complex overlaps within bounds",
  "No test touches these integrals.",
  ["dynamics/hermitian_gamma_integral.py"],
  [("gamma integrals", "dynamics/hermitian_gamma_integral.py")])

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    ids = [x["id"] for x in P]
    assert len(set(ids)) == len(ids)
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        for f in x["anchors"]["files"]:
            assert (Path("/repo") / f).exists(), f
    out.write_text("".join(json.dumps(x) + "\n" for x in P))
