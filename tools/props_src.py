S='src/'
prop('C01','Charge deposition conserves charge and follows the particle shape',
 'Depositing particles on a grid adds to every node exactly the charge density given by the B-spline shape of the selected order at the particle position (so the deposited total equals the sum of q*w per cell volume), and leaves all other nodes unchanged. The contribution of a particle does not depend on its place in the list, on the number of particles, or on which routine variant (scalar, vectorised, arbitrary order, 2D or 3D) is used.',
 ['inputs','configurations'],'all particle positions inside the tile, weights, charges, cell sizes; orders 1..3; every 2D/3D variant; particle counts around the vector length',
 'rho_deposition_3d_test compares variants with each other on random particles to a tolerance; common-mode errors and rare cells/remainders are not seen.',
 [S+'particle_deposition/charge_deposition/charge_deposition_3d.F90',S+'particle_deposition/charge_deposition/charge_deposition_2d.F90'],
 [('depose_rho_scalar_*, depose_rho_vecHV*, pxr_depose_rho_n','charge_deposition_3d.F90'),('pxr_depose_rho_n_2dxz, pxr_depose_rhoold_n_2dxz','charge_deposition_2d.F90')],['rho array'])
prop('C02','Direct current deposition deposits q*w*v with the particle shape',
 'Direct current deposition adds to each component of the current the value q*w*v/V distributed over the staggered nodes with B-spline weights evaluated half a time step back, so each component sums to the total particle current. Every variant (scalar, vectorised with its reduction, 2D, 3D, orders 1 to 3) gives the same current for the same particles.',
 ['inputs','configurations'],'all positions, momenta, weights, cell sizes, time steps; orders 1..3; variants; particle counts around the vector length',
 'current_deposition_3d_test compares sums of the variants for one random set.',
 [S+'particle_deposition/current_deposition/direct/direct_current_deposition_3d.F90',S+'particle_deposition/current_deposition/direct/direct_current_deposition_2d.F90'],
 [('depose_jxjyjz_* and current_reduction_*','direct_current_deposition_3d.F90')],['jx, jy, jz arrays'])
prop('C03','Esirkepov deposition satisfies the discrete continuity equation',
 'For any particle moving less than one cell in a step, the current deposited by every charge-conserving (Esirkepov) routine satisfies, at every node, (rho_new - rho_old)/dt + div J = 0 with rho the shape-function charge density of the same order. The current summed over the grid equals q*w*v/V per component.',
 ['inputs','configurations'],'all positions, displacements below one cell per direction, weights, cell sizes; orders 1..3 and arbitrary-order variants, 2D and 3D',
 'esirkepov_*_test compare variants on one random set of particles; cell-crossing combinations are sampled.',
 [S+'particle_deposition/current_deposition/esirkepov/esirkepov_3d.F90',S+'particle_deposition/current_deposition/esirkepov/esirkepov_2d.F90'],
 [('depose_jxjyjz_esirkepov_*, pxr_depose_jxjyjz_esirkepov_n','esirkepov_3d.F90'),('pxr_depose_jxjyjz_esirkepov2d_*','esirkepov_2d.F90')],['jx, jy, jz arrays'])
prop('C04','Field gathering interpolates with the shape function of the order',
 'The field gathered at a particle is the sum over grid nodes of the staggered field times the B-spline weights of the selected order (one order lower along the staggered direction when the energy-conserving option is on), added to the value already in the particle array. All variants (scalar, vectorised, arbitrary order, 2D and 3D) give the same value, and a uniform field is returned exactly.',
 ['inputs','configurations'],'all positions in the tile, all field values, orders 1..3, lower-order option on/off, particle counts around the vector length',
 'field_gathering_*_test compare checksums of variants on one random particle set to 1e-7.',
 [S+'field_gathering/energy_conserving/'],[('gete3d_*, getb3d_*, geteb3d_*, pxr_gete2dxz_*','field_gathering/energy_conserving/*.F90')],['ex..bz particle arrays'])
prop('C06','Momentum pushers integrate the Lorentz force and keep gamma consistent',
 'The Boris and Vay pushers return the momentum that solves their implicit time-centred Lorentz-force equation; a magnetic field alone never changes the kinetic energy, and the stored inverse Lorentz factor equals 1/sqrt(1+u^2/c^2) of the returned momentum. Split (half-step) and blocked variants compose to the same result.',
 ['inputs'],'all momenta, fields, charge/mass, time steps',
 'tile_particle_push_3d_test compares drivers with each other on random data.',
 [S+'particle_pushers/boris_pusher/boris_3d.F90',S+'particle_pushers/vay_pusher/vay_3d.F90'],[('pxr_boris_push_u_3d, pxr_ebcancelpush3d, pxr_epush_v, pxr_bpush_v, pxr_set_gamma','boris_3d.F90, vay_3d.F90')],['uxp, uyp, uzp, gaminv'])
prop('C07','Position push advances particles by v dt; kinetic energy diagnostic',
 'Every position pusher (3D, x-z with and without y) advances each particle by exactly u/gamma*dt along the directions it handles and leaves momenta, fields and other directions untouched. The kinetic-energy routine adds (gamma-1) m c^2 times the statistical weight of every particle.',
 ['inputs'],'all positions, momenta, inverse Lorentz factors, time steps; particle counts 1 to 9',
 'tile_particle_push_3d_test compares drivers with each other on random data.',
 [S+'particle_pushers/boris_pusher/boris_3d.F90',S+'particle_pushers/boris_pusher/boris_2d.F90',S+'particle_pushers/kin_energy.F90'],[('pxr_pushxyz','boris_3d.F90'),('pxr_pushxz, pxr_push2dxz','boris_2d.F90')],['x, y, z, kinetic energy'])
prop('C08','Radiation-reaction pushers add exactly the model force to the Boris step',
 'The three radiation-reaction pushers (S09, B08, Landau-Lifshitz) return the Boris step of the fields plus the reaction force of their model evaluated at the time-centred momentum, with the physical prefactors, and reduce to the plain Boris step when the reaction term vanishes. The stored inverse Lorentz factor belongs to the returned momentum.',
 ['inputs'],'all momenta and fields along coordinate axes or in coordinate planes, charge, mass, time step',
 'no test runs these pushers.',
 [S+'particle_pushers/boris_pusher/boris_3d.F90'],[('pxr_boris_push_rr_S09_u_3d, pxr_boris_push_rr_B08_u_3d, pxr_boris_push_rr_LL_u_3d','boris_3d.F90')],['uxp, uyp, uzp, gaminv'])
Q='src/multi_physics/QED/src/'
prop('C09','B-field push obeys the discrete Faraday law and keeps div B',
 'Every magnetic-field push (Yee, arbitrary finite-difference order, Cole-Karkkainen, 2D, 3D, RZ with azimuthal modes) adds to each component exactly minus dt times the discrete curl of E of its scheme on the requested index range, and touches nothing outside it. The discrete divergence of B does not change in any cell, and on the cylindrical axis the regularity conditions of each mode hold.',
 ['inputs','configurations'],'all field values, all dt/dx coefficients, orders 2..6 (8 thorough), staggered and nodal, guard offsets, modes 0..2',
 'maxwell_3d_test runs one plane wave through the whole solver; per-component coefficient errors within its tolerance are not seen.',
 ['src/field_solvers/Maxwell/'],[('pxrpush_em3d_bvec, pxrpush_em3d_bvec_norder, pxrpush_em3d_bvec_ckc, pxrpush_em2d_*, pxrpush_emrz_*','field_solvers/Maxwell/*')],['bx, by, bz arrays'])
prop('C10','E-field push obeys the discrete Ampere law and charge conservation',
 'Every electric-field push (Yee, arbitrary finite-difference order, 2D, 3D, RZ with azimuthal modes) adds to each component exactly dt times the discrete curl of B of its scheme minus mu*dt times the current on the requested index range, and touches nothing outside it. The discrete divergence of E therefore changes only by minus mu*dt times that of the current, including on the cylindrical axis, where the regularity conditions of each mode hold (Et=-i*Er for mode 1, zero transverse terms for the others). The divergence-cleaning pushes add exactly dt times the discrete gradient of F (Cole-Karkkainen: with its smoothing weights).',
 ['inputs','configurations'],'all field and current values, all dt/dx coefficients, orders 2..6 (8 thorough), staggered and nodal, guard offsets, modes 0..2',
 'maxwell_3d_test runs one plane wave through the whole solver without currents; per-component coefficient errors within its tolerance, currents and cleaning are not seen.',
 ['src/field_solvers/Maxwell/'],[('pxrpush_em3d_evec, pxrpush_em3d_evec_norder, pxrpush_em2d_evec*, pxrpush_emrz_evec*, pxrpush_em*_evec_f*','field_solvers/Maxwell/*')],['ex, ey, ez arrays'])
prop('Q01','QED chi parameters are the Lorentz invariant of momentum and fields',
 'chi_photon and chi_lepton return |F.p|/(m c E_s) for the given momentum and fields (the photon formula for massless momenta, the lepton formula with gamma), in SI and in normalized units (where it scales as 1/lambda), are never negative, and are exactly zero for a particle at rest. The default reference wavelength behaves as lambda = 1.',
 ['inputs','configurations'],'all momenta to 1000 m c, all fields to 10 Schwinger fields, all wavelengths; SI and normalized units; double (photon: also single) precision',
 'test_chi_functions checks a few tabulated points to 1e-6.',
 [Q+'chi_functions.hpp'],[('chi_photon, chi_lepton','chi_functions.hpp'),('norm2, norm, dot, cross','vec_functions.hpp')],['returned chi'])
prop('Q03','One-dimensional lookup tables interpolate their nodes',
 'lookup_1d linear interpolation returns, for every point between the first and last coordinate inclusive, the straight-line value between the two neighbouring nodes (equispaced and generic coordinates alike), so nodes are reproduced and neighbouring data bound the result. No element outside the stored coordinates and data is read; references built from raw arrays, copies and the owning table give the same values and init state. Tables written one after another to a stream are read back with their coordinates, data and init state, whatever the reading table held; a missing or truncated stream leaves it uninitialised.',
 ['inputs','configurations'],'all data, all coordinates (generic: any increasing sequence; equispaced: any range), every point in the closed range; 2 to 6 nodes',
 'test_lookup_tables evaluates a few points of one table.',
 [Q+'lookup_tables.hpp'],[('lookup_1d::interp_linear, interp_linear_equispaced, ref_to_coords, ref_to_data, is_init, write_on_stream_bin, read_from_stream_bin','lookup_tables.hpp'),('picsar_upper_bound','utilities.hpp')],['interpolated value'])
prop('Q04','Two-dimensional lookup tables interpolate their nodes',
 'lookup_2d interpolation is bilinear in the cell containing the point (equispaced and generic coordinates), and the mixed routines (fixed second index, with first coordinate interpolated) are linear along that line; values at nodes are reproduced and element (i,j) is addressed row-major. Points up to and including the last coordinate never read outside the table. Tables written one after another to a stream are read back with their coordinates, data and init state; a missing or truncated stream leaves the table uninitialised.',
 ['inputs','configurations'],'all data, all coordinates, every point of the closed rectangle; 2x2 to 4x3 nodes',
 'test_lookup_tables evaluates a few points of one table.',
 [Q+'lookup_tables.hpp'],[('lookup_2d::interp_linear, interp_linear_equispaced, interp_linear_first, interp_linear_first_equispaced, data_at_coords, write_on_stream_bin, read_from_stream_bin','lookup_tables.hpp')],['interpolated value'])
prop('Q06','Quantum synchrotron optical depth decreases at the tabulated rate',
 'A new optical depth is -log(1-u) of the uniform draw u. Each step it decreases by rate*dt, where rate = coefficient/energy * exp(table(log chi)) with chi clamped to the table range (and lambda scaling in normalized units, zero without energy or field); an emission is flagged exactly when it becomes negative, with an event time inside the step at which it crosses zero. Below the chi threshold nothing changes, and without a table the optical depth is left alone and the caller is told.',
 ['inputs','configurations'],'all optical depths, time steps, table data, chi from 0 to above the table; SI and normalized, single and double precision; 2 to 8 nodes',
 'test_quantum_sync checks a few particles against one precomputed table to percent level.',
 [Q+'quantum_sync_engine.hpp'],[('internal_get_optical_depth, internal_interp_dN_dt, internal_evolve_opt_depth_and_determine_event','quantum_sync_engine.hpp')],['optical depth, event flag, event time, rate'])
prop('Q07','Photon emission conserves momentum and follows the tabulated spectrum',
 'Every photon of a quantum synchrotron emission moves along the emitting particle with momentum fraction*(gamma-1)*m c, where fraction is the inverse of the tabulated cumulative distribution at the draw (linear between neighbouring probabilities, chi clamped to the emission table and interpolated in log chi); gamma and the direction are those of the particle before the emission. With any sampling, each photon carries weight/sampling and the recoil of the particle makes total weighted momentum exactly conserved.',
 ['inputs','configurations'],'all draws in [0,1), weights, table data, field amplitudes or momenta along generic directions; tables 2x2 to 5x6, 1 to 5 photons; SI and normalized units',
 'test_quantum_sync samples one emission with a precomputed table.',
 [Q+'quantum_sync_engine.hpp'],[('internal_generate_photons_and_update_momentum','quantum_sync_engine.hpp')],['photon momenta and weights, particle momentum'])
prop('Q08','Breit-Wheeler optical depth decreases at the pair production rate',
 'A new optical depth is -log(1-u). Each step it decreases by rate*dt with rate = coefficient/(chi*energy)*T(chi) (lambda scaling in normalized units), where T is the table in log chi inside its range and the documented Erber asymptotic forms at and beyond its ends; a pair is flagged exactly when the depth becomes negative, with the event time inside the step at which it crosses zero. At or below the chi threshold, or below the photon energy 2 m c^2, nothing changes, and without a table the caller is told and nothing changes.',
 ['inputs','configurations'],'all optical depths, time steps, table data, chi from 0 to above the table, energies around the threshold; SI and normalized, single and double precision; 2 to 8 nodes',
 'the Breit-Wheeler tests do not compile at this commit; the engine is untested.',
 [Q+'breit_wheeler_engine.hpp'],[('internal_get_optical_depth, internal_interp_dN_dt, internal_evolve_opt_depth_and_determine_event','breit_wheeler_engine.hpp')],['optical depth, event flag, event time, rate'])
prop('Q09','Breit-Wheeler pairs share the photon energy as the tabulated distribution says',
 'The electron and the positron of each generated pair move along the photon with Lorentz factors 1+f*(g-2) and 1+(1-f)*(g-2), g the photon energy over m c^2, so their energies add up to the photon energy. f is the inverse of the tabulated cumulative distribution (chi clamped to the table, interpolated in log chi) at the draw, mirrored between electron and positron for draws of one half and above; each particle carries weight/sampling.',
 ['inputs','configurations'],'draws in (0,1/2) and (1/2,1), weights, increasing table rows of any data, field amplitudes or momenta along generic directions; tables 2x3 to 5x6, 1 to 3 pairs; SI and normalized units',
 'the Breit-Wheeler tests do not compile at this commit; the engine is untested.',
 [Q+'breit_wheeler_engine.hpp'],[('internal_generate_breit_wheeler_pairs','breit_wheeler_engine.hpp')],['electron and positron momenta and weights'])

prop('Q02','Vector algebra of the QED library',
 'norm2, norm, dot, cross and the scalar products and quotients of 3-vectors return the Euclidean values for every pair of vectors: the norm is non-negative and squares to norm2, the cross product is normal to both factors and vanishes for parallel ones, and sums, differences and scaling act per component.',
 ['inputs'],'all components to 1000, factors of both signs; double and single precision',
 'test_vec_functions checks one pair of vectors.',
 [Q+'vec_functions.hpp'],[('norm2, norm, dot, cross, operators','vec_functions.hpp')],['returned vector or scalar'])
prop('Q05','Containers of the QED library behave as values',
 'After any history of construction, copy, move, assignment (self assignment included), resize and element writes, a picsar_vector holds the elements the history says, copies are independent, back() is the last element, and every block is released exactly once. Views and fixed-size arrays give access to exactly the elements they were built from.',
 ['histories','inputs'],'every history of 3 operations (4 thorough) out of nine, all element values, vectors to 7 elements',
 'test_picsar_containers runs each operation once on one vector.',
 [Q+'picsar_vector.hpp',Q+'picsar_array.hpp'],[('picsar_vector, picsar_array','picsar_*.hpp')],['elements, sizes, allocated blocks'])
prop('Q11','Schwinger pair production follows the field invariants and the drawn numbers',
 'The expected number of Schwinger pairs is the rate of the field invariants (coefficient * eps*eta*coth(pi*eta/eps)*exp(-pi/eps) with its limits; zero for purely magnetic fields and for crossed fields with E <= cB; lambda scaling in normalized units) times cell volume and time step. A single pair appears exactly when the draw is below the expected number (meant for expected numbers well below one), multiple pairs are the Poisson deviate of that mean, and the engine object gives the same results through every constructor, copy and move.',
 ['inputs','configurations'],'amplitudes of E and B along fixed directions, cell sizes, time steps, draws, lambda; SI and normalized, double and single precision; Poisson means to 2.2 (quick)',
 'test_schwinger_pair_engine checks four field configurations in one unit system per precision.',
 [Q+'schwinger_pair_engine.hpp'],[('internal_generate_*, internal_get_pair_production_rate, schwinger_pair_engine','schwinger_pair_engine.hpp')],['rate, number of pairs'])
prop('Q12','QED utilities: spaced vectors, upper bound search, Poisson deviates',
 'Linear, logarithmic and log-lin-log spaced vectors have the requested size, start and end at the given limits and are spaced as named; picsar_upper_bound returns the index of the first element above the value for every sorted array; the Poisson routine returns the n with partial sums of the distribution around the draw.',
 ['inputs'],'all limits, all sorted arrays to 7 elements (12 thorough), all draws to 0.9-0.999 for means to 45',
 'test_utilities and test_rng_wrapper check single examples and averages.',
 [Q+'utilities.hpp'],[('generate_lin_spaced_vec, generate_log_spaced_vec, generate_log_lin_log_spaced_vec, picsar_upper_bound','utilities.hpp'),('poisson_distrib','utilities.hpp')],['returned vector, index, number'])
prop('Q10','Quantum synchrotron engine: tables are integrals of the emission kernel',
 'compute_dN_dt, the rate table, the cumulative distribution and its inverse table are the integrals of the synchrotron kernel over the photon parameter, at every parameter (zero without energy or field), with the tables on logarithmic nodes as the control parameters say, whatever the number and order of OpenMP threads. Copies, moves, innards and files reproduce the engine: wavelength, control parameters, tables, random stream and results; a missing or truncated file leaves no table, and without tables a step uses the integral itself. Photon generation of the object equals the core function on the draws of its generator.',
 ['inputs','configurations','histories'],'all chi in [1/100,300], every sample point of each integrand, all table data; tables to 9 nodes; copies, moves, innards, files; SI and normalized, double and single precision; quadrature and root search abstract',
 'test_quantum_sync_engine compares a few rates with known values and reads back one table.',
 [Q+'quantum_sync_engine.hpp'],[('compute_dN_dt, compute_*_table, compute_cumulative_phot_em, evolve_opt_depth_and_determine_event, generate_photons_and_update_momentum, export_innards, read_*, write_*','quantum_sync_engine.hpp'),('read_from_stream_bin, write_on_stream_bin','lookup_tables.hpp')],['rates, tables, innards, files'])
prop('Q13','Breit-Wheeler engine: tables are integrals of the pair kernel',
 'compute_dN_dt, the rate table, the cumulative distribution and its table (symmetric in the two particles: fractions 0 to 1/2) are the integrals of the pair kernel over the electron parameter at every parameter (zero without energy or field), on nodes as the control parameters say, whatever the number and order of OpenMP threads. Copies, moves, assignment, innards and files reproduce the engine: wavelength, control parameters, tables, random stream and results; a missing or truncated file leaves no table, and without tables a step uses the integral itself. Pair generation of the object equals the core function on the draws of its generator.',
 ['inputs','configurations','histories'],'all chi in [1/100,300], every sample point of each integrand, all table data; tables to 5x4 nodes; copies, moves, assignment, innards, files; SI and normalized, double and single precision; quadrature abstract',
 'the Breit-Wheeler tests do not compile at the pinned commit; the engine is untested.',
 [Q+'breit_wheeler_engine.hpp'],[('compute_dN_dt, compute_*_table, compute_cumulative_pair, evolve_opt_depth_and_determine_event, generate_breit_wheeler_pairs, export_innards, operator=, read_*, write_*','breit_wheeler_engine.hpp'),('read_from_stream_bin, write_on_stream_bin','lookup_tables.hpp')],['rates, tables, innards, files'])
prop('Q14','Random draws, Bessel function wrapper and defaults of the QED library',
 'stl_rng_wrapper draws unf(a,b) = a+(b-a)*u in [a,b) and exp(l) = -log(1-u)/l >= 0 from the stream of its seed or generator; copies, moves and assigned wrappers continue that stream, independently of their source. The C++17 Bessel wrapper returns K_v(x) of its arguments, and vanishes where the standard function would throw. Default control parameters are the documented ones.',
 ['inputs','histories'],'all generator outputs up to the last 2^-20 of the range, all intervals and rates, orders to 2, arguments to 1e9; double and single precision; up to 2 draws (4 thorough)',
 'test_rng_wrapper checks that two wrappers of one seed agree; test_special_functions checks single values.',
 [Q+'rng_wrapper.hpp',Q+'special_functions.hpp',Q+'breit_wheeler_engine_ctrl.h',Q+'quantum_sync_engine_ctrl.h'],[('stl_rng_wrapper','rng_wrapper.hpp'),('k_v','special_functions.hpp'),('breit_wheeler_engine_ctrl, quantum_synchrotron_engine_ctrl','*_ctrl.h')],['drawn numbers, function values, defaults'])
