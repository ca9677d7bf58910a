COMMON = 'Trusted: clang front end, engine/, SMT back ends, floating point treated as real arithmetic, OpenMP loops run sequentially.'
PROPS = [
dict(id='P01', title='Vector folding and unfolding rearrange the field without losing a site',
 statement='Folding puts site (x, y + k*Ly/lanes, z) of the field and of its velocity in lane k of vector site (x, y, z) and unfolding is its exact inverse; both leave ghost zones, other buffers and already converted fields alone and keep the recorded layout in step with the data. Extracting a z- or x-slice delivers exactly the values of that slice in natural order for either layout, ignores slices that are not on this rank, and changes nothing but the slice buffers.',
 over=['inputs', 'configurations'], q='every local grid size, lane count, ghost depth, precision, field type, slice index and field content',
 why='The test programs fold a few fixed grids and only look at downstream sums; an index slip that permutes sites or writes a neighbouring slice is invisible for most sizes.',
 files=['lib/scalar/folder.cpp', 'include/scalar/folder.h'], mech=[('Folder::operator()', 'lib/scalar/folder.cpp'), ('foldField/unfoldField/unfoldField2D and variants', 'lib/scalar/folder.cpp')],
 obs=['field, velocity and second-buffer memory after a Folder call', 'Folded()/M2folded flags'],
 note='All sizes and contents, lanes 1-8 (quick: 1-4 for slices). ' + COMMON),
dict(id='P02', title='An axion-angle update advances each site by the discrete equation of motion',
 statement='For every site of the requested slice range the update kicks the velocity with the order-2Ng discrete Laplacian over its periodic neighbours, the selected axion potential and the expansion term, then drifts the field with the new velocity, regardless of vector lane, block tiling or boundary position; with wrapped differences every difference and the result are reduced to the nearest period. Sites outside of the range keep field and velocity.',
 over=['inputs', 'configurations'], q='every grid size, ghost depth, slice range, tiling, precision, potential, parameter value and field content',
 why='Smoke runs evolve one small grid and check nothing site by site; a wrong neighbour at one lane or block boundary changes only a few sites.',
 files=['include/propagator/propThetaXeon.h', 'include/utils/triSimd.h'], mech=[('propThetaKernelXeon', 'include/propagator/propThetaXeon.h'), ('mod_pd/mod_ps', 'include/utils/triSimd.h')],
 obs=['velocity and target buffer after a kernel call'],
 note='Proved for Ng=1 (quick) and 1-3 (thorough) for all sizes; Ng up to 5 additionally replayed on random inputs (bounded, not counted). Needs Lx/lanes >= 2 Ng. ' + COMMON),
dict(id='P03', title='A complex-field update advances each site by the discrete equation of motion',
 statement='For every site of the requested slice range the update kicks the velocity with the order-2Ng discrete Laplacian, the Peccei-Quinn force, the selected axion potential and the expansion term, with the selected damping and angular or radial projection, then drifts the field with the new velocity; the low-memory kick and drift do the same in two passes. The result does not depend on lane, tiling or boundary position, both precisions follow the same equations, and sites outside of the range are kept.',
 over=['inputs', 'configurations'], q='every grid size, ghost depth, slice range, tiling, precision, potential, evolution and damping mode, parameter value and field content',
 why='The smoke tests run a couple of potentials in one precision and compare nothing site by site; seven potentials, three dampings and two projections exist in two precisions.',
 files=['include/propagator/propXeon.h', 'include/utils/triSimd.h'], mech=[('propagateKernelXeon', 'include/propagator/propXeon.h'), ('updateVXeon / updateMXeon', 'include/propagator/propXeon.h')],
 obs=['velocity and target buffer after a kernel call'],
 note='Proved for Ng=1 (selected modes quick, all 28 thorough); other Ng replayed on random inputs (bounded, not counted). Known finding: linear potential in double precision. ' + COMMON),
dict(id='P04', title='A time step updates every site once per stage from complete, same-time data',
 statement='Every stage of a step of each propagator (axion, complex, non-relativistic, low-memory, spectral) updates every owned slice exactly once, reads border neighbours only after the ghost exchange of the same stage completed, swaps buffers consistently, evaluates mass, self-coupling and scale factor at the time of that stage and advances time by the drift; the factory passes on the configured potential and the compiled integrator satisfies its order conditions.',
 over=['inputs', 'configurations', 'histories'], q='every grid size, ghost depth, time, step, coefficients and configured potential',
 why='The smoke tests use deep grids on one rank and check no intermediate state; a stage with stale parameters or a doubly updated border slice only changes numbers slightly.',
 files=['include/propagator/propClass.h', 'include/propagator/propBase.h', 'lib/propagator/propagator.cpp'], mech=[('PropClass::tRunCpu/sRunCpu/nNRunCpu/lowCpu/pRunCpu/sSpecCpu', 'include/propagator/propClass.h'), ('initPropagator', 'lib/propagator/propagator.cpp')],
 obs=['per-slice number of updates, age of every slice read', 'parameters handed to the kernels', 'time after the step'],
 note='All grid sizes, times and steps; Ng 1-3 quick, 1-5 thorough. Kernels are taken at their contracts (P02, P03). ' + COMMON),
dict(id='P05', title='Ghost zones hold the neighbouring ranks slices after an exchange',
 statement='After a ghost exchange completes, every byte of the ghost zone behind a rank\'s slices holds the matching first slices of the next rank and every byte of the zone in front the last slices of the previous rank, periodic over the ranks and for a single rank as well, for field, velocity and second buffer, for any ghost depth including exchanges of fewer slices than allocated. Messages go to ghost zones only, every receive has exactly one matching send of the same size, every request is completed and freed, and large zones are split into messages MPI can count.',
 over=['inputs', 'configurations', 'schedules'], q='every number of ranks, rank, slice size, ghost depth and precision, including messages beyond 2 GiB',
 why='The smoke tests run on one rank with small slices: they never see neighbours that differ, nor a ghost zone larger than one message.',
 files=['lib/scalar/scalarField.cpp'], mech=[('Scalar::sendGhosts/sendGhosts2/exchangeGhosts', 'lib/scalar/scalarField.cpp'), ('Scalar::sendGeneral', 'lib/scalar/scalarField.cpp')],
 obs=['posted messages and their buffers', 'ghost-zone contents after the exchange'],
 note='All ranks, sizes and precisions; ghost zones of at most 2 (quick) or 4 (thorough) maximal messages, Ng <= 4. MPI matches in posting order. ' + COMMON),
dict(id='P06', title='The expanding background is consistent at every time',
 statement='At every conformal time the scale factor follows its configured law (power, Minkowski, radiation with gravity correction, table), R\'/R and R\'\'/R are its derivatives, the axion mass grows with R, saturates and is restored exactly at its thresholds, its time derivative, the logarithmic derivative of m R and the time integrals belong to that same mass, coupling and saxion mass follow the potential and their dilution, the shift of the saxion minimum solves its cubic, a field evaluates all of these at its own (or the requested) time, and the adaptive step is positive and resolves the fastest mode of its field type even where the mass saturates.',
 over=['inputs', 'configurations'], q='every time, expansion power, threshold, mass exponent, coupling, box size and field type',
 why='The smoke tests run radiation domination at a few early times; saturation, restoration, gravity and other expansion laws are never reached and no value is compared.',
 files=['lib/cosmos/cosmos.cpp', 'include/cosmos/cosmos.h', 'lib/scalar/scalarField.cpp'], mech=[('Cosmos::R/Rp/Rpp/AxionMass2/DAxionMass2Dct/DlogMARDlogct/LambdaP/SaxionMass2', 'lib/cosmos/cosmos.cpp'), ('Scalar::dzSize/IAxionMassSqn/IIAxionMassSqn/SaxionShift/Saskia', 'lib/scalar/scalarField.cpp')],
 obs=['return values of the background functions', 'R and time of the field', 'size of the adaptive step'],
 note='Real-valued parameters in a finite physical range; step proved for powers 0, 1/2, 1, 2, gravity and tables. The PQ2 shift (a rational fit) is excluded. ' + COMMON),
dict(id='P07', title='Conversions between field representations preserve the state of every site',
 statement='Converting between the complex field, the conformal angle and the non-relativistic (Naxion, Paxion) amplitudes maps value and velocity of every site by the documented formula, with R, R\'/R, the axion mass and its derivative taken at the time of the field: angle = R arg(phi - shift) and its velocity the time derivative of R times the phase; phi = R exp(i theta) and its derivative; the amplitudes scaled by the conformal mass with the adiabatic term. The field is unfolded before and, where it stays folded, folded after; type, bytes per site and vector shift follow; angles are unwrapped unless periodic. Normalisation, scaling, products, linear combinations and reduction of angles act on exactly the sites of the chosen buffer and leave the others alone.',
 over=['inputs', 'configurations'], q='every grid size, ghost depth, precision, field content, time and background',
 why='The smoke tests convert once at one time and look at nothing: a wrong expansion term, ghost offset or overwritten slice only shifts the numbers.',
 files=['lib/scalar/thetaXeon.cpp', 'lib/scalar/theta2CmplxXeon.cpp', 'lib/scalar/theta2NaxionXeon.cpp', 'lib/scalar/theta2PaxionXeon.cpp', 'include/utils/simpleops.h'], mech=[('cmplxToTheta / theta2Cmplx / thetaToNaxion / thetaToPaxion / ctheta2csaxion', 'lib/scalar/thetaScalar.cpp'), ('axby / mulmul / unMoor', 'include/utils/simpleops.h'), ('Scalar::setField', 'lib/scalar/scalarField.cpp')],
 obs=['field and velocity memory after a conversion', 'type, bytes per site and folding state'],
 note='All grid sizes, Ng 1-8. Background functions at their contracts (P06), folding at its (P01). ' + COMMON),
dict(id='P08', title='Every buffer of a field lies in memory the field owns',
 statement='Whatever type, precision, grid and ghost depth a field is created with, and after every conversion the library makes (complex to angle, back, to the non-relativistic fields, also from low-memory mode), the sites, ghost zones, transform padding and auxiliary halves that its accessors return lie inside memory it owns, do not overlap, and are zero at creation; dimensions, time and scale factor are those asked for, the Laplacian coefficients are exact to their order, dimensions change together, and the destructor releases every block exactly once.',
 over=['inputs', 'configurations', 'histories'], q='every grid size, precision, field type and conversion path, Ng 1-5',
 why='The smoke tests create two kinds of field with one ghost depth; an overrun by a ghost slice or an aliased buffer is silent.',
 files=['lib/scalar/scalarField.cpp', 'include/scalar/scalarField.h'], mech=[('Scalar::Scalar / ~Scalar', 'lib/scalar/scalarField.cpp'), ('Scalar::setField / setDims / setReduced / setCO', 'lib/scalar/scalarField.cpp'), ('buffer accessors', 'include/scalar/scalarField.h')],
 obs=['addresses returned by the accessors', 'allocated and released blocks', 'contents of a new field'],
 note='All grid sizes; ghost depth 1-5 by instance. Host memory. ' + COMMON),
dict(id='P09', title='Measured energies are the physical energies of the field',
 statement='Measuring the energy of a field sums over exactly the sites of all ranks, once each, the physical density: for the complex field the axion and saxion gradient energies along x, y and z (mean of the forward and backward squared differences over the periodic lattice, with phase and modulus separated), kinetic energies (with the expansion subtracted from the radial motion) and the configured QCD and Peccei-Quinn potential energies, and the mean modulus; for the angle the gradient (wrapped into the period where the field is defined modulo it), kinetic and potential energies. Masked averages count exactly the sites whose mask is set and are divided by their number; the energy map holds the total density of each site in natural order. The field is folded and its ghosts are exchanged before.',
 over=['inputs', 'configurations'], q='every grid size, ghost depth, precision, potential, mask, field content, time and number of ranks',
 why='The smoke tests write energies to a file that nothing reads back; a wrong factor, a lane that is skipped or a mask applied to the wrong site only shifts averages.',
 files=['lib/energy/energyXeon.cpp', 'lib/energy/energyThetaXeon.cpp', 'lib/energy/energy.cpp'], mech=[('energyKernelXeon / energyXeon', 'lib/energy/energyXeon.cpp'), ('energyThetaKernelXeon / energyThetaXeon', 'lib/energy/energyThetaXeon.cpp'), ('Energy::runCpu, energy', 'lib/energy/energy.cpp')],
 obs=['numbers returned by energy()', 'energy map in the auxiliary buffer'],
 note='All grid sizes with YC >= 2. No energy is specified for an absent QCD potential. ' + COMMON),
dict(id='P10', title='A configuration written to disk is read back as the same simulation',
 statement='Writing a configuration or a restart file puts every site of field and velocity of every rank at its global place in natural order, whatever layout and precision the field has, without reading or writing outside of any buffer, and leaves the field unfolded and marked so. Reading that file on the same grid gives a field of the same type, size, precision (or the one asked for), time, scale factor and unfolded layout with every site and velocity equal to the one written, and sets box length, axion mass law, thresholds, self-coupling and its type, damping, potential, damping and evolution flags, initial and final time, zero mode, kind of initial conditions and (for a restart) the measurement index to the values written.',
 over=['inputs', 'configurations', 'histories'], q='every grid size, ghost depth, number of ranks and rank, precision, field type of the format, potential, parameter value and field content',
 why='The smoke tests write configurations and never read one back; a lost parameter, a shifted slab of a later rank or text longer than its buffer goes unnoticed.',
 files=['lib/io/readWrite.pHdf5.cpp', 'lib/scalar/scalarField.cpp'], mech=[('writeConf / readConf / writeAttribute / readAttribute', 'lib/io/readWrite.pHdf5.cpp'), ('Scalar::Scalar', 'lib/scalar/scalarField.cpp')],
 obs=['attributes and data sets of the file', 'the field and cosmology after reading', 'parser globals (times, initial conditions, index)'],
 note='No parameter given on the command line, same grid and ranks; complex non-relativistic fields are not in the format. HDF5 modelled by its contract (named attributes, slabs of data sets). ' + COMMON),
dict(id='P11', title='A non-relativistic update advances each site by the Schroedinger equation',
 statement='For every site of the requested slice range the Naxion update adds i times the drift length over mA R times the order-2Ng discrete Laplacian over the periodic neighbours to the amplitude and rotates the sum by the self-interaction phase integrated over the step in the power-law background; the Paxion kick does the Laplacian part between real and imaginary component with the exactly integrated dispersion, and the Paxion rotation turns each site by its self-interaction and, with gravity, by its gravitational potential, keeping its modulus. Every site is updated exactly once whatever the lane, the tiling, the boundary position and the background exponent (frw = 1/2 and linear mA R included); source field, potential and sites outside of the range are kept.',
 over=['inputs', 'configurations'], q='every grid size, ghost depth, slice range, tiling, precision, background exponent, parameter value and field content',
 why='No stable test evolves a non-relativistic field and checks it site by site; an extra pass over a row when the block size does not divide the grid, or a 0/0 at one exponent, is invisible to them.',
 files=['include/propagator/propNaxXeon.h', 'include/propagator/propPaxXeon.h'], mech=[('propagateNaxKernelXeon', 'include/propagator/propNaxXeon.h'), ('propagatePaxKernelXeon', 'include/propagator/propPaxXeon.h')],
 obs=['amplitude, target buffer and gravitational potential after a kernel call'],
 note='Proved for Ng=1 (quick) and 1-3 (thorough) for all sizes; other Ng replayed on random inputs (bounded, not counted). Needs Lx/lanes >= 2 Ng with a laplacian. ' + COMMON),
dict(id='P12', title='Strings and walls are found exactly where the phase winds or flips',
 statement='Identification of defects in a complex field reports as number of strings the number of elementary plaquettes (three per site, with periodic neighbours and the ghost slices of the next rank) around which the phase turns once, as their net charge the sum of the signs of those turns, and as number of walls the number of sites with a forward link along which the field crosses the real axis on its negative side; totals add every rank. The map holds for each site, in natural order, exactly the flags of its own plaquettes and links. This holds for every lane, boundary position, number of ghost slices and precision; the field is searched in position space, folded and with fresh ghosts, and is kept. A field of angles reports none.',
 over=['inputs', 'configurations'], q='every grid size, ghost depth, precision, previous state (folded, unfolded, momentum space) and field content',
 why='No stable test compares the strings found with the field plaquette by plaquette; a wrong lane at a block boundary or a wrong slice changes counts slightly and shifts the map silently.',
 files=['lib/strings/strings.cpp', 'lib/strings/stringXeon.cpp'], mech=[('stringKernelXeon', 'lib/strings/stringXeon.cpp'), ('stringCpu', 'lib/strings/stringXeon.cpp'), ('strings', 'lib/strings/strings.cpp')],
 obs=['StringData returned', 'map of strings and walls', 'field'],
 note='Proved for every grid; each number of ghost slices is one configuration (1, 2 quick; up to 6 thorough). AVX2 branch. ' + COMMON),
]
