T = ("The stable tests compare a handful of rows of the operators of one small grid (two nodes per block, one bond "
     "length) with stored numbers; ")

prop("C01", "Finite-difference coefficients are exact on polynomials",
     "For every stencil of distinct offsets, the first- and second-derivative coefficients applied to samples of any "
     "polynomial of degree below the number of offsets give exactly that polynomial's first and second derivative at "
     "the origin.",
     ["inputs"], "all polynomials (symbolic coefficients) and all listed stencils, centred and one-sided",
     T + "they use the five-, seven- and nine-point centred tables indirectly and never check exactness.",
     ["common/finite_difference_coefficients.py"],
     [("coefficient recursion", "common/finite_difference_coefficients.py:finite_difference_coefficients")],
     ["return value of finite_difference_coefficients"])

prop("C02", "One-dimensional derivative operators respect parity and outer boundary",
     "Each angular or radial first/second derivative operator of even or odd symmetry, applied to any field, equals the "
     "centred stencil applied to that field extended beyond the grid's symmetry edges by even or odd reflection. "
     "Beyond the outer radial edge the field is zero unless the exterior-value operators add the given exterior values.",
     ["inputs", "configurations"], "all fields and exterior values, all box sizes, grids and stencils within the bounds",
     T + "only entries hit by that grid are compared, so an index or sign error elsewhere goes unseen.",
     ["psgrid/finite_difference_1d.py", "psgrid/initialize.py"],
     [("reflection bookkeeping", "psgrid/finite_difference_1d.py:finite_difference_1d")],
     ["grid.eDa1, oDa1, eDr1, ... after initialize()"])

prop("C03", "Quadrature weights integrate what they claim and belong to their point",
     "The one-dimensional quadrature is the composite closed Newton-Cotes rule between the nodes plus the wall "
     "half-cells interpolated with the value zero at the wall, so it is exact for polynomials up to the block's degree. "
     "The weight stored for each grid point is the product of the angular and the radial weight of that point's own "
     "coordinates.",
     ["inputs", "configurations"], "all nodal values, all block counts and node counts within the bounds",
     T + "the grid has equal numbers of angular and radial points and equal blocks, so swapped axes agree.",
     ["common/NC.py", "psgrid/initialize.py"],
     [("composite weights", "common/NC.py"), ("outer product layout", "psgrid/initialize.py:initialize")],
     ["grid.wi"])

prop("C04", "Grid points carry the coordinates of their index",
     "Every grid point carries the angular and radial coordinate of its index, with the angular index running fastest, "
     "at half-shifted uniform nodes, and its Cartesian coordinates are the prolate-spheroidal image of those. "
     "Exterior boundary points continue the radial lines, and reflection between the two centres flips the axial "
     "coordinate while keeping the distance from the axis.",
     ["inputs", "configurations"], "all bond lengths and box sizes (symbolic), grid shapes within the bounds",
     T + "equal point counts hide transposition of the axes.",
     ["psgrid/initialize.py", "psgrid/psgrid.py", "psgrid/mirror.py"],
     [("coordinate arrays", "psgrid/initialize.py:initialize")],
     ["grid.Xa, grid.Xr, grid.Z, grid.Y, grid.bcX ..."])

prop("C05", "Grid Laplacian, gradient and divergence are the metric operators",
     "On any field the Laplacian of even or odd symmetry equals the volume element times the prolate-spheroidal "
     "Laplacian discretised with the parity-extended stencils, and gradient and divergence are the metric-scaled first "
     "derivatives. The exterior operator adds exactly the contribution of field values beyond the outer boundary.",
     ["inputs", "configurations"], "all fields, bond lengths and box sizes, grid shapes and stencils within the bounds",
     T + "they check a few rows of each operator for one geometry.",
     ["psgrid/operators.py", "psgrid/finite_difference_2d.py", "psgrid/initialize.py"],
     [("2d operators", "psgrid/finite_difference_2d.py"), ("metric", "psgrid/operators.py")],
     ["grid.elap, grid.olap, grid.blap, grid.grada, grid.gradr, grid.diva, grid.divr"])

prop("C06", "Scale factors, volume element and external potentials are the exact ones",
     "Scale factors and volume element at every point are those of prolate-spheroidal coordinates and the centrifugal "
     "potential is one over twice the squared distance from the axis. The nuclear potential is "
     "-Za/|r-A| - Zb/|r-B| with nucleus A at z=-a and nucleus B at z=+a, for any charges.",
     ["inputs", "configurations"], "all bond lengths, box sizes and charges (symbolic), grid shapes within the bounds",
     T + "the Coulomb potential is only exercised in tests that need libxc, with homonuclear charges mostly.",
     ["psgrid/initialize.py", "common/coulomb.py"],
     [("metric arrays", "psgrid/initialize.py:initialize"), ("nuclear potential", "common/coulomb.py:coulomb")],
     ["grid.h1, grid.h2, grid.h3, grid.w, grid.f, coulomb()"])

prop("C07", "Integration, reflection and spin flip act on the right entries",
     "The integral of a scalar function is the weighted sum over points whatever the array's shape, and the columns of "
     "a spin-resolved function are integrated independently. Reflection between the centres and the spin flip are "
     "involutions that permute, respectively, the angular index and the two spin columns.",
     ["inputs", "configurations"], "all functions and all weights (symbolic), grid shapes within the bounds",
     T + "no stable test integrates, mirrors or flips anything with more than one column.",
     ["psgrid/integrate.py", "psgrid/mirror.py", "psgrid/spinflip.py", "psgrid/square.py"],
     [("integral", "psgrid/integrate.py:integrate"), ("reflection", "psgrid/mirror.py:mirror"),
      ("spin exchange", "psgrid/spinflip.py:spinflip")],
     ["grid.integrate, grid.mirror, grid.spinflip, grid.square"])

prop("C08", "Density-gradient contractions and reduced gradient are pointwise correct",
     "For any density the contracted gradients are the pointwise inner products of the spin gradients, one column for a "
     "restricted density and up-up, up-down, down-down for a polarised one. The reduced gradient is "
     "|grad n| / (2 (3 pi^2)^(1/3) n^(4/3)) for each spin, with the density scaled for spin.",
     ["inputs"], "all densities and gradient operators (symbolic) within the size bounds",
     "No stable test calls these routines.",
     ["psgrid/sigma.py", "psgrid/reduced_grad.py"],
     [("contractions", "psgrid/sigma.py:sigma"), ("reduced gradient", "psgrid/reduced_grad.py")],
     ["grid.sigma, grid.reduced_grad"])

prop("C09", "Hartree potential solves the Poisson equation with multipole boundary values",
     "The Hartree potential satisfies the discretised Poisson equation for the total (spin-summed) density, with values "
     "beyond the outer boundary given by the density's own multipole expansion through order seven. Every spin column "
     "receives the same potential.",
     ["inputs"], "all densities, bond lengths, weights and exterior operators (symbolic) on grids with rational points",
     "The stable tests never solve the Poisson equation.",
     ["hartree/hartree.py", "psgrid/factorize_laplacian.py"],
     [("multipole boundary", "hartree/hartree.py:Hartree"), ("triangular solves", "hartree/hartree.py")],
     ["Hartree.v_hartree"])

prop("C10", "Exchange-correlation energy and potential assemble the functional correctly",
     "The functional library receives the density and its gradient contractions for the right spin treatment, and the "
     "reported energy is the integral of density times energy density. The potential is the functional's density "
     "derivative minus the divergence of the gradient terms, separately for each spin.",
     ["inputs", "configurations"],
     "all densities, all values the functional library may return, LDA and GGA, both spin treatments",
     "The stable tests have no functional library; the others compare final energies of closed-shell LDA runs.",
     ["libxc/libxc.py"], [("library call and assembly", "libxc/libxc.py:Libxc")],
     ["Libxc.get_xc"])

prop("C11", "Orbital solver diagonalises the right operator and keeps eigenpairs paired",
     "The operator handed to the eigensolver is the Kohn-Sham Hamiltonian with the Laplacian of the right parity and "
     "the centrifugal term of its angular momentum. The stored eigenvalues ascend and each orbital stays paired with "
     "its own eigenvalue whatever order (or initial failure) the eigensolver produced, and symmetrised orbitals are "
     "exactly even or odd under reflection.",
     ["inputs", "fault_sequences"],
     "all Laplacians, potentials and eigensolver answers (any order, NaN on the first attempts)",
     "The stable tests never diagonalise; the others see only orderings the real eigensolver happens to return.",
     ["pssolver/pssolver.py", "pssolver/calc_orbitals.py"],
     [("Hamiltonian", "pssolver/pssolver.py:hamiltonian"), ("sorting", "pssolver/calc_orbitals.py:calc_orbitals")],
     ["solver.eig, solver.phi"])

prop("C12", "Orbital densities are non-negative and hold the right number of electrons",
     "The density of a set of orbitals is the occupation-weighted sum of the normalised squared orbitals, for any "
     "electron number, angular momentum and spin treatment. It is nowhere negative and integrates to the electron "
     "number, or to its whole-level part when fractional filling is off.",
     ["inputs", "configurations"], "all orbitals, weights and electron numbers, every branch of the occupation rule",
     "The stable tests never build a density; the others use a few electron numbers.",
     ["pssolver/calc_density.py", "pssolver/pssolver.py", "pssolver/normalize_orbitals.py"],
     [("occupations", "pssolver/calc_density.py:calc_density")],
     ["solver.n"])

prop("C13", "Orbital energies follow the same occupations as the density",
     "For any electron number the orbital-sum energy is the occupation-weighted eigenvalue sum, the potential energy is "
     "the integral of the potential times the density of the same occupations, and the kinetic energy is their "
     "difference. The reported HOMO is the highest level that holds electrons.",
     ["inputs", "configurations"], "all orbitals, eigenvalues, potentials and electron numbers, every occupation branch",
     "The stable tests never compute an energy; the others use a few electron numbers.",
     ["pssolver/calc_energy.py", "pssolver/get_homo.py"],
     [("energies", "pssolver/calc_energy.py:calc_energy"), ("HOMO", "pssolver/get_homo.py:get_homo")],
     ["solver.eks, solver.Vs, solver.Ts, solver.homo"])

prop("C14", "Kinetic-energy density sums every occupied orbital and integrates to Ts",
     "The kinetic-energy density is the occupation-weighted sum of phi (H0 phi) per volume over normalised orbitals, "
     "and for exact eigenpairs it integrates to the kinetic energy. The totals reported by the inverter sum it, and the "
     "kinetic energy, over all angular momenta and spins.",
     ["inputs", "configurations"], "all orbitals, Hamiltonians, weights and electron numbers, every occupation branch",
     "No test compares the kinetic-energy density with the kinetic energy for partial occupations or several angular "
     "momenta.",
     ["pssolver/calc_ked_WFI.py", "inverter/get_ts_WFI.py", "inverter/get_Ts.py"],
     [("kinetic-energy density", "pssolver/calc_ked_WFI.py"), ("totals", "inverter/get_ts_WFI.py")],
     ["solver.ked_WFI, inverter.get_Ts(), inverter.get_ts_WFI()"])

prop("C15", "Iterative orbital update is a Newton step that leaves converged orbitals alone",
     "One iterative update applies the exact Newton step of the bordered eigenproblem to every orbital that does not "
     "yet satisfy its equation, and leaves an orbital and eigenvalue that do satisfy it unchanged whatever the other "
     "orbitals do. Orbitals come out normalised to the number of electrons a level holds.",
     ["inputs"], "all orbitals, eigenvalues, Hamiltonians and weights (linear solves exact)",
     "The stable tests never iterate; the others only see the converged energy.",
     ["pssolver/iter_orbitals.py", "pssolver/normalize_orbitals.py"],
     [("Newton update", "pssolver/iter_orbitals.py:iter_orbitals")],
     ["solver.phi, solver.eig"])

prop("C16", "Density response is the first-order change of the density",
     "The response matrix applied to any perturbation of the potential gives the first-order change of the density "
     "computed from the same orbitals: each occupied level contributes in proportion to the electrons it holds, "
     "including partially filled levels and levels with angular momentum.",
     ["inputs", "configurations"], "all perturbations; orbitals, potentials and occupations within the bounds",
     "The stable tests never compute a response; the others only see whether an inversion converges.",
     ["pssolver/calc_response.py"], [("linear response", "pssolver/calc_response.py:calc_response")],
     ["solver.chi"])

prop("C17", "Each orbital solver works on its own spin's potential and keeps its own result",
     "For any potentials, every orbital solver receives the nuclear, external and Hartree-exchange-correlation potential "
     "of its own spin, the last being the sum of its parts for the current density. The density of each spin is the sum "
     "over angular momenta of its solvers' densities with the requested electrons, each solver keeps its own eigenpairs "
     "in whatever order parallel workers finish, and symmetric runs give exactly mirror-symmetric densities and potentials.",
     ["inputs", "interleavings"],
     "all potentials, orbitals and library values; every completion order of the parallel workers within the bounds",
     "Tests see one completion order and closed-shell homonuclear systems, and the stable ones never run Kohn-Sham.",
     ["kohnsham/kohnsham.py", "kohnsham/scf.py", "pssolver/pssolver.py", "pssolver/calc_orbitals.py"],
     [("potential distribution", "kohnsham/kohnsham.py:set_effective_potential"),
      ("parallel density", "kohnsham/kohnsham.py:calc_density")],
     ["ks.n, ks.vhxc, ks.u, solver.veff, solver.phi, solver.eig"])

prop("C18", "Reported Kohn-Sham energies are the integrals they name and add up",
     "For any density, potential and orbitals, each reported component (kinetic, nuclear, external, Hartree, exchange, "
     "correlation, eigenvalue sums) is the integral it names, summed over all solvers. The total is the sum of the "
     "components plus Za Zb / R for the nuclear repulsion, and at self-consistency it equals the eigenvalue sum minus "
     "double counting.",
     ["inputs", "configurations"], "all densities, potentials, orbitals, eigenvalues, charges and bond lengths",
     "Tests compare a few final energies of closed-shell LDA runs; the stable ones compute none.",
     ["kohnsham/kohnsham.py", "kohnsham/kohnsham.py"], [("energy", "kohnsham/kohnsham.py:energy")],
     ["ks.E, ks.V"])

prop("C19", "Self-consistency loop mixes as asked and stops only when converged",
     "Whatever densities and energies the iterations produce, each diagonalisation uses the potential of the current "
     "density, the density is mixed linearly with the requested fraction, and the loop ends only when the energy and "
     "density changes are both within tolerance or the iteration limit is reached. The energy and chemical potential left "
     "behind belong to the density left behind; option names are accepted in any letter case and unknown ones refused.",
     ["inputs", "histories"], "all histories of densities and energies up to the iteration bound, all mixing fractions and tolerances",
     "Tests see a few converging histories with default options.",
     ["kohnsham/scf.py", "kohnsham/kohnsham.py"], [("loop", "kohnsham/scf.py:scf")],
     ["ks.n, ks.E.E, ks.u after ks.scf()"])

PT = "The stable tests never build a partition; the others run a few small molecules and compare final energies, so "

prop("C20", "Fragment densities, ensemble weights and weighing functions are consistent",
     "For any component densities and ensemble mixing fractions, each fragment's density is the weighted sum of its "
     "components (plus spin-flipped partners when asked), and their total is the molecular density. The weighing functions "
     "are component over total, never negative, zero where the total vanishes, and sum to one wherever it does not; with "
     "reflection symmetry fragment B is the exact mirror image of fragment A, with A's energies and no shared storage.",
     ["inputs", "configurations"], "all non-negative component densities, all mixing fractions, every ensemble layout within the bounds",
     PT + "a wrong weight in one ensemble layout or at an empty point goes unseen.",
     ["partition/partition.py"],
     [("summed density and weighing functions", "partition/partition.py"), ("reflection", "partition/partition.py:mirrorAB")],
     ["partition.nf, na_frac, nb_frac, KSa.Q ..., KSb after mirrorAB()"])

prop("C21", "Partition energies add up over fragments, ensemble and symmetry",
     "For any component energies, every reported fragment energy is the ensemble-weighted sum over that fragment's own "
     "components, spin-flipped partners counted once each. Fragment energies plus partition energy plus the nuclear "
     "repulsion Za Zb / R give the total, reflected fragments report the energies of the original, and isolated fragments "
     "have no partition energy.",
     ["inputs", "configurations"], "all component energies, eigenvalues, charges and mixing fractions, every ensemble layout within the bounds",
     PT + "components with weight one hide which component is counted.",
     ["partition/energy.py", "partition/partition.py"], [("energy sums", "partition/energy.py")],
     ["partition.E"])

prop("C22", "Partition energy parts are functional of the sum minus those of the components",
     "For any component densities the potential part is the attraction of each fragment's electrons to the other nucleus, "
     "and the kinetic, Hartree, exchange and correlation parts are the functional of the summed density minus the weighted "
     "functionals of the components. The requested functional form combines them, and the stored non-additive energy "
     "densities integrate to the reported energies. The von Weizsaecker kinetic energy is that of each spin density, and the "
     "two-orbital form is the kinetic energy of the two orbitals made of the fragment densities.",
     ["inputs", "configurations"], "all densities, weights, operators and library values; kinetic and hxc forms within the bounds",
     PT + "only the default functional forms are exercised.",
     ["partition/energy.py", "partition/ep_nuclear.py", "partition/ep_kinetic.py", "partition/ep_hxc.py", "partition/partition_energy.py"],
     [("kinetic part", "partition/ep_kinetic.py"), ("hxc part", "partition/ep_hxc.py")],
     ["partition.E.Ep_pot, Ep_kin, Ep_h, Ep_x, Ep_c, Ep_hxc; partition.V.ep_kin, ep_h, ep_x, ep_c"])

prop("C23", "Partition potential is the weighted average of potential differences",
     "For any component densities and potentials, every component's nuclear, kinetic, Hartree, exchange and correlation "
     "embedding potential is the potential of the summed density minus the component's own, and its embedding potential is "
     "their sum. The global partition potential and each reported part is the weighing-function average over all "
     "components, with spin-flipped partners and reflection symmetrisation when asked. The two-orbital kinetic potential of a "
     "fragment is the derivative of the two-orbital kinetic energy with respect to its density.",
     ["inputs", "configurations"], "all densities, potentials, weights and library values; kinetic and hxc forms within the bounds",
     PT + "a potential that is not the derivative of its energy still converges to something.",
     ["partition/partition_potential.py", "partition/vp_nuclear.py", "partition/vp_kinetic.py", "partition/vp_hxc.py"],
     [("average", "partition/partition_potential.py"), ("kinetic", "partition/vp_kinetic.py")],
     ["partition.V.vp ..., KSa.V.vp ..."])

prop("C24", "Overlap-weighted potentials are the derivatives of their energies",
     "For any component densities the overlap derivatives are the derivatives of the fragment overlap with respect to each "
     "component's density, identical for both spins, and zero where a fragment has no density. The overlap-weighted "
     "embedding potentials are the product-rule derivatives of the overlap-weighted energies, per unit of weighted density "
     "when the components carry weights.",
     ["inputs", "configurations"], "all component densities, including empty regions; every ensemble layout within the bounds",
     PT + "the overlap forms are not exercised at all.",
     ["partition/vp_overlap.py", "partition/vp_hxc.py", "partition/ep_hxc.py"],
     [("overlap", "partition/vp_overlap.py")],
     ["KSa.V.dSdn, KSa.V.dFdn, KSa.V.vp_hxc"])

prop("C25", "Fragment self-consistency loop solves, mixes and stops as asked",
     "Whatever densities, potentials and energies the iterations produce, every component is solved in its own nuclear and "
     "interaction potential plus the requested embedding potential, and densities are mixed linearly with each fragment's "
     "own fraction. The summed density, weighing functions and fragment energies left behind belong to the component densities left "
     "behind (the whole's exchange-correlation and inverted kinetic energy to the last partition potential, one mixing step "
     "earlier), and the loop ends only when energy and density changes are within tolerance or the iteration limit is reached, "
     "or with an error once the density inversions (of any spin) failed in two iterations in a row.",
     ["inputs", "histories"], "all histories of densities, potentials and energies up to the iteration bound; all mixing fractions and tolerances",
     PT + "tests see a few converging histories with default options.",
     ["partition/scf.py", "partition/partition.py"], [("loop", "partition/scf.py:scf")],
     ["partition.nf, partition.E.E, KSa.n, KSa.Q after partition.scf()"])

prop("C26", "Response inversion finds the potential with exact gradients",
     "For any starting potential, levels and responses, every residual the response inversion hands to the root finder is "
     "the relative density error of the potential being evaluated plus the gauge condition, with its exact Jacobian over "
     "all angular momenta. Afterwards the returned potential is the one the orbital solvers are left at, the kinetic "
     "potential is the highest level minus it, and the target density and the other spin are untouched.",
     ["inputs", "histories"], "all grids, potentials, densities, responses and root-finder answers within the bounds",
     PT + "a wrong Jacobian or gauge only slows or shifts the converged answer.",
     ["inverter/inverter.py", "inverter/linresponse.py"], [("residual and Jacobian", "inverter/linresponse.py")],
     ["residual and Jacobian handed to scipy.optimize.root; inverter.vs, us, get_vt(); solver levels and densities"])

prop("C27", "Orbital inversion solves Kohn-Sham, normalisation and density equations",
     "For any orbitals, levels, Hamiltonians and target density, every linear system of the orbital inversion is the exact "
     "Newton system of the Kohn-Sham, normalisation and density equations over all angular momenta, and orbitals always "
     "hold the electrons of their level. Success is reported exactly when the orbitals, levels and potential left behind "
     "satisfy the equations within the tolerance, and the chemical and kinetic potential belong to them.",
     ["inputs", "histories"], "all grids, orbitals, levels, Hamiltonians, densities, tolerances and Newton steps within the bounds",
     PT + "tests converge a few closed-shell cases with one angular momentum.",
     ["inverter/inverter.py", "inverter/orbitalinvert.py"], [("Newton system", "inverter/orbitalinvert.py:kmatrix")],
     ["Jacobian and right-hand side of the linear solve; inverter.vs, us, get_vt(); solver orbitals and levels; returned flag"])
prop("C28", "Initial guess of the molecular inversion is Rayleigh-Ritz in all fragment orbitals",
     "For any fragments (one or two components per side, any numbers of angular momenta, empty spin channels, reflection "
     "symmetry) the initial potential is the sum of the fragment effective potentials weighted by the partition functions "
     "(with mirror images under reflection symmetry), and for every angular momentum the initial orbitals are the "
     "Rayleigh-Ritz solutions of the Hamiltonian with that potential in the span of exactly the fragment orbitals of that "
     "angular momentum and spin (and their mirror images). Levels are ascending and paired with their orbitals, each orbital "
     "holds 2 (m = 0) or 4 electrons (half that for spin-symmetric ensembles), and the fragments' potentials and weights are "
     "left as they were.",
     ["inputs"], "all grids, fragment orbitals, potentials and weights within the bounds",
     PT + "tests start inversions from two equal fragments with one orbital each.",
     ["partition/initialguessinvert.py"], [("generalised eigenproblem", "partition/initialguessinvert.py:initialguessinvert")],
     ["return value (phi0, e0, v0) of Partition.initialguessinvert"])
prop("C29", "Total partition energy is the energy of the whole, however it is cut up",
     "For any fragments (with ensembles, spin-flipped partners, reflection symmetry) the electronic energy of a partition "
     "calculation with exact non-additive terms equals the attraction of the summed density to both nuclei plus its Hartree, "
     "exchange and correlation energy plus the fragments' kinetic energies and the non-additive kinetic part, and the total "
     "adds the nuclear repulsion: all fragment-only contributions cancel, so moving density from one fragment to another at "
     "fixed sum changes nothing but the kinetic parts. Likewise every fragment's own potential plus its embedding potential "
     "is the molecular potential, also in the weighing-function average.",
     ["inputs"], "all grids, densities, potentials, levels, ensemble fractions, charges and library values within the bounds",
     PT + "tests compare totals of converged H2, Be2 and H2+ runs with stored numbers.",
     ["partition/partition.py", "partition/energy.py", "partition/partition_potential.py", "kohnsham/kohnsham.py"],
     [("cancellation of fragment energies", "partition/energy.py:energy")],
     ["Partition.E.Et, E.E; KS*.V.vp; Partition.V.vp"])
prop("C30", "A closed shell gives the same answer spin-restricted and spin-polarised",
     "Running a closed-shell system with one spin column or with two equal ones is the same calculation: for every electron "
     "number each spin channel carries exactly half of the density, level energy, potential and kinetic energy, "
     "kinetic-energy density and response of the restricted run and has the same highest level; effective, Hartree and "
     "exchange-correlation potentials are equal in both columns to the restricted ones, every energy component and the "
     "total agree, the self-consistency loop makes the same iterations with the same potentials and densities, and a partition "
     "calculation gets the same fragment sums, weighing functions, partition energies and partition potential.",
     ["inputs"], "all electron numbers, densities, orbitals, levels, potentials, mixing fractions, tolerances, charges and library "
     "values within the bounds", "two runs have to be compared for every state; tests run closed shells in one treatment only "
     "and compare with stored totals.",
     ["kohnsham/kohnsham.py", "kohnsham/scf.py", "pssolver/calc_density.py", "pssolver/calc_energy.py",
      "pssolver/calc_response.py", "pssolver/calc_ked_WFI.py", "pssolver/get_homo.py", "libxc/libxc.py", "partition/partition.py",
      "partition/partition_energy.py", "partition/partition_potential.py"],
     [("occupation rule per spin treatment", "pssolver/calc_density.py:calc_density"),
      ("spin assembly", "kohnsham/kohnsham.py:Kohnsham.energy"), ("polarised gradient terms", "libxc/libxc.py:Libxc.get_xc")],
     ["Kohnsham.n, veff, E, u; Partition.nf, E, V.vp"])
prop("C31", "Exchanging the two nuclei reflects every result",
     "Nothing depends on which nucleus is called A: with charges, fragments and ensemble fractions exchanged and all fields "
     "reflected along the bond, every result is the reflected one. Quadrature weights, volume element, scale factors and even "
     "operators are reflection symmetric on every grid, the coordinate along the bond and the angular derivative change sign; "
     "nuclear attraction, effective potential, density, chemical potential, energy components and the self-consistency loop of "
     "a Kohn-Sham run, and fragment densities, weighing functions, partition energies (fragment energies exchanged) and partition "
     "potentials follow.",
     ["inputs"], "all grids, charges, densities, levels, potentials, ensemble fractions and library values within the bounds",
     "two runs have to be compared for every state; tests use one orientation of each molecule and mostly homonuclear ones.",
     ["psgrid/initialize.py", "psgrid/operators.py", "psgrid/finite_difference_2d.py", "common/coulomb.py",
      "kohnsham/kohnsham.py", "kohnsham/scf.py", "partition/partition.py", "partition/energy.py",
      "partition/partition_energy.py", "partition/partition_potential.py"],
     [("angular grid and its reflection", "psgrid/initialize.py:initialize"), ("which charge sits where", "common/coulomb.py:coulomb"),
      ("A/B bookkeeping", "partition/energy.py:energy")],
     ["Psgrid.*; Kohnsham.n, veff, E, u; Partition.nf, E, V.vp"])
prop("C32", "Settings reach exactly the parts they configure",
     "What the user asks for is what every component does: with option names in any letter case, whole molecule and all fragments "
     "(both ensemble components) evaluate the requested exchange, correlation and kinetic functionals and families and the same "
     "Hartree potential; each fragment is attracted to its own nucleus only and the whole to both; each component, angular "
     "momentum and spin holds the electrons given for it, filled fractionally exactly when asked; potentials and orbitals are made "
     "reflection symmetric exactly when asked; what is left out means local density functionals, no symmetrisation and whole "
     "shells only; an option or choice that does not exist is refused; and a fragment symmetry is refused exactly when the nuclei "
     "differ.",
     ["inputs"], "all densities, orbitals, charges, electron numbers and library values within the bounds",
     "tests set one combination of options per molecule and look at converged totals only.",
     ["kohnsham/kohnsham.py", "partition/partition.py", "pssolver/pssolver.py", "pssolver/calc_density.py",
      "pssolver/calc_orbitals.py", "libxc/libxc.py"],
     [("option hand-over to fragments", "partition/partition.py:Partition.__init__"),
      ("option hand-over to solvers", "kohnsham/kohnsham.py:Kohnsham.__init__")],
     ["KSa/KSA/KSb/KSB.exchange, correlation, vnuc, solver[i,j].n"])
prop("C33", "Results depend on the current inputs, not on what was computed before",
     "Every calculation object may be used again: a grid initialised again or for another bond length, a Hartree or functional "
     "object given another density, an orbital solver, Kohn-Sham object, partition or inverter given another potential, density or "
     "set of settings gives exactly what a fresh object gives for the same inputs (apart from documented warm starts), leaves the "
     "densities and potentials handed in as they were, and does not change answers it handed out earlier.",
     ["history", "inputs"], "any two consecutive uses of one object with unrelated inputs, within the bounds",
     "tests use each object for one molecule and one calculation; stale state and aliasing show only on a second, different use.",
     ["psgrid/initialize.py", "hartree/hartree.py", "libxc/libxc.py", "pssolver/pssolver.py", "kohnsham/kohnsham.py",
      "kohnsham/scf.py", "partition/partition.py", "partition/scf.py", "inverter/inverter.py"],
     [("start of a calculation", "kohnsham/scf.py:scf"), ("start of a fragment calculation", "partition/scf.py:scf"),
      ("potential of the current densities", "partition/partition_potential.py:partition_potential"),
      ("answers of the functional library", "libxc/libxc.py:Libxc.get_xc")],
     ["n, vext, veff, vhxc, E, V of fragments, partition and solvers; arrays passed in and returned"])
prop("C34", "Equivalent descriptions of one system give the same results",
     "How a system is written down does not matter: an ensemble of two identical components, or one whose second component has no "
     "weight, gives what the plain fragment gives; listing the two components of an ensemble in the other order (with one minus the "
     "fraction) changes nothing but their names; adding spin-flipped partners to closed-shell components, asking for spin-flipped "
     "partners instead of listing them as the other half of an ensemble, and asking for reflection symmetry instead of giving the "
     "mirrored second fragment explicitly, change nothing. This holds for fragment densities, "
     "weighing functions, every partition energy, embedding and partition potentials and the self-consistency loop of the fragments.",
     ["configurations", "inputs"], "all densities, potentials, levels, charges, weights and library values within the bounds",
     "two runs of different set-ups have to be compared for every state; tests use one description of each molecule.",
     ["partition/partition.py", "partition/energy.py", "partition/partition_energy.py", "partition/ep_kinetic.py",
      "partition/ep_hxc.py", "partition/ep_nuclear.py", "partition/partition_potential.py", "partition/vp_kinetic.py",
      "partition/vp_hxc.py", "partition/EnsCorHar.py", "partition/scf.py"],
     [("component weights", "partition/partition.py:calc_scale_factors"), ("mirrored fragment", "partition/partition.py:mirrorAB"),
      ("energy sums", "partition/energy.py:energy")],
     ["Partition.nf, na_frac, nb_frac, E, V.vp...; KSa/KSA/KSb/KSB.Q, V.vp..., n, veff"])
