tail = r'''
## Reading the reals
* A double constant that is the rounding of a small rational, or of such a rational times powers of c, pi or the SI/CODATA
  constants of the source, is read as that exact constant ("snapping"), so that c*c/(c*c) is 1 and a product written in
  another order is the same value. Snapping is only applied within half an ulp of the stored double (single precision: of
  the float), and every path is validated natively, so a constant which is *not* the intended one stays what it is.
* sqrt, exp, log, pow, cbrt, sin, cos, tanh are function symbols with their algebraic laws (sqrt(x)^2 = x, log/exp
  inverse, products of powers) plus sign, monotonicity and a few concrete bounds, instantiated on the terms which occur.
  A counterexample which z3 finds through the freedom left by these is refuted by the native replay; the case then counts as
  undecided and a numeric search over the input box (guided by the path condition) looks for a real one. The search only
  turns *undecided* into *violated-and-replayed*; it never makes a case pass.
* Goals which are not decided that way are put, with the path condition, into a normal form under the functional equations of
  exp, log, pow, roots and hyperbolic functions (`symx/canon.py`; positivity needed by an equation is itself asked of z3) and
  asked again, so that `exp(log(a)-log(b))` and `a/b` are the same. Values of functions at known arguments carry at least 150 bits;
  goals are compared to 1e-25 relative where such values meet.
* Counterexamples in which an exponential of the goal leaves the range of the type are not accepted: `1/exp(x)` and `exp(-x)`
  differ there, by rounding only.
* An operation that can fail (division by zero, square root of a negative number, integer overflow) forks: one path is the fault (reported when the real
  code confirms it), the other goes on with the operands for which it does not fail.
* Each case has a box (range of each input) and each path a path condition; the box is printed in the evidence.

## Stand-ins
Only what is outside /repo is replaced, by the contract it has: Boost quadrature (`integral` = additive function of the
interval which evaluates its integrand at a symbolic point), the Boost root bracketing search (a point where the real
function passed to it changes sign), Bessel functions (uninterpreted, positive), the random generator (each draw an input in [0,1)),
file streams (in-memory, with truncation and missing file as symbolic faults), OpenMP (C++: teams run in either order, or the
first thread is interrupted at a symbolic point by the whole of the second; Fortran, `glue/gomp.c`: threads on stacks of their
own that run in ascending, descending or alternating order between barriers; a variable that is private without a value is then
an uninitialised read). MPI is not reached by the drivers.

## Verdicts, limits, exit status
Every case runs in a process of its own, on 8 cores, with fair exploration of its paths. A quick run stops at 780 s (thorough: 6 h),
or 15 s after the first confirmed violation. Exit 1 needs a natively confirmed counterexample. A path the engine cannot follow (or an
index with more values than the limit, of which some are followed) leaves its case undecided, but the other paths are explored,
and what they refute counts; for the first such paths of a case, and paths that run 150 s without a case distinction, the real code is
run at an input of the path, which can only add a violation. Cases that are undecided,
unconfirmed or whose native validation differs are printed and listed in the evidence (`coverage.undecided`); during
development (VP_STRICT=1) any one of them is exit 2, and on the unchanged tree there is none. On a changed tree they make the check
exit 2 only when, weighted by case, more than half of the goals are affected (a case without an answer counts in full): an edit
that keeps the behaviour but writes, say, sqrt(max(a*a-b*b,0)) for a root whose argument is never negative may cost the proof of
one path and is no reason for an alarm. A source that does not build is exit 2 as well.

## The properties
'''
P = [
('C01', 'charge deposition', 'one particle at a symbolic position anywhere in the tile (floor/nint forks over the cells), symbolic charge, weight and old density; blocked routines with 1..9 particles (around the vector lengths). Oracle: the B-spline of the order (also Davoine radial shape) as exact piecewise polynomial, node by node; total charge; nodes outside the support unchanged.'),
('C02', 'direct current deposition', 'as C01 with symbolic momenta: q*w*v/V distributed by the B-spline at the half-step position on the staggered nodes, for each of the 2D/3D, scalar/vector routines and its reduction.'),
('C03', 'Esirkepov deposition', 'symbolic old position and displacement (below a cell); cells and cell changes fork. Continuity at *every* node against the shape-function density at both ends, and total current; 2D, 3D, RZ, orders 1..3 and arbitrary.'),
('C04', 'field gathering', 'symbolic position and every node value symbolic: the gathered value is a polynomial compared with the sum over nodes of spline weights; orders per direction, lower order in v, momentum or energy conserving, cylindrical with azimuthal modes, blocked routines.'),
('C06', 'Boris and Vay pushers', 'symbolic momenta, fields, q, m, dt: the returned momentum satisfies the implicit equation of the scheme (as an identity of rational functions with one square root), norm conservation without E, gaminv; half-step composition.'),
('C07', 'position push, kinetic energy', 'linear identities for any momentum, 1/gamma, dt; 1..9 particles.'),
('C08', 'radiation reaction', 'u, E, B each along an axis (27 combinations), symbolic magnitudes, against the formula of each model; general directions blow up the polynomial normal form and are outside.'),
('C09', 'B push', 'small grids with *every* field value and coefficient symbolic, so each update is compared coefficient by coefficient, inside and outside of the range; div B on all cells whose faces are updated. RZ: axis rules per mode. OpenMP builds with 2 and 3 threads in 3 orders.'),
('C10', 'E push', 'as C09 with currents: Ampere, div E + J on all nodes including the axis (weight 4), axis rules of the modes, gradient of F.'),
('Q01', 'chi', 'all momenta and fields in the box, SI and normalized, double and single; squares of the returned value are compared with the invariant (one square root), sign by monotonicity; rest and zero-field cases exactly 0.'),
('Q02', 'vector algebra', 'polynomial identities for all components (norm: square and sign).'),
('Q03', '1D tables', 'all data and coordinates symbolic (generic coordinates: any increasing sequence; equispaced: any range), all points of the closed range: the search forks over cells. Out-of-bounds reads are engine faults. Copies, raw pointers, reference tables; several tables through one (in-memory) stream, missing and truncated streams.'),
('Q04', '2D tables', 'as Q03, bilinear; row-major addressing, mixed routines, columns with log(0), raw tables assigned and copied, rectangular shapes both ways, streams.'),
('Q05', 'containers', 'histories of up to 4 operations on 2 vectors (symbolic choice of operation, index and values) against a list model; allocations are tracked by the engine (double release, leak, out of bounds, read of released blocks).'),
('Q06', 'synchrotron step', 'symbolic optical depth, dt, energy/momentum, fields, table data: rate, threshold, clamping, event flag and event time; missing table.'),
('Q07', 'photon emission', 'symbolic momentum, chi, draws and table: fraction from the inverse cumulative table, photon momentum, weights, total momentum, sampling 1..3 (core function and generic).'),
('Q08', 'Breit-Wheeler step', 'as Q06 with the asymptotic forms outside of the table (pow and exp as functions), thresholds in chi and energy.'),
('Q09', 'pair generation', 'as Q07: fraction, mirror for draws >= 1/2, Lorentz factors, directions, weights.'),
('Q10', 'synchrotron engine', 'the engine class with 3x4 tables on symbolic limits: every table element is the integral (stand-in) of the real kernel between the right ends at the right chi, under every OpenMP schedule listed above; constructors, copies, moves, innards, files with truncation.'),
('Q11', 'Schwinger', 'rate as function of the invariants for field configurations along listed directions, limits; single pairs and Poisson numbers for symbolic draws; engine object.'),
('Q12', 'utilities', 'spaced vectors for all limits and sizes to 64 (log: 2^a 3^b intervals), upper bound for every sorted array to 8, Poisson: partial sums for every draw.'),
('Q13', 'Breit-Wheeler engine', 'as Q10 for the pair kernel; symmetric table.'),
('Q14', 'random wrapper, Bessel wrapper, defaults', 'symbolic draws, every constructor/copy/move; k_v for symbolic order and argument including the range where the standard function throws.'),
]
end = r'''## Planted bugs
`seeded/` holds bugs written from the property texts, each with a demonstration; all are caught by the check of their property:
q01 Q09, q02 Q07, q03 Q06, q04 Q08, q05 Q05, q06 Q04, q07 Q12, q08 Q11, q09 Q14, q10 Q01, q11 Q13, q12 Q10, q13 Q03, q14 Q09. Only changes to the QED headers are kept there, because bugs have to be in C/C++ sources that the
existing build of the demonstrations can reach; for the Fortran routines the same was done with throw-away mutations
(`tools/mut.py`), 10 to 30 per check, all caught or equivalent.

## Edits that keep the behaviour
Four batches of refactorings were run through the checks: helpers extracted, loops rewritten, terms reordered, expressions factored
differently (QED headers and Fortran routines), and functional rewrites (1/exp(x), log1p, x*sqrt(x) for pow(x,3/2), cbrt for pow,
cosh/sinh for 1/tanh, exp of differences of logarithms), and changes of mechanism (library searches for hand-written ones and back,
copy and swap, fused multiply-add, hypot, clamps, reversed parallel loops). No alarm; what remains undecided are single goals (Q01: the
lepton formula as a product of roots, the photon formula with a clamped difference of squares (Cauchy-Schwarz); Q12: the Poisson sums for ranges of means with 1/exp).

## Findings
Genuine defects found are repaired by 23 "fix:" commits, listed with the property in `known-findings.json`; one is recorded and
not repaired: `geteb3d_energy_conserving_vecV2_1_1_1`, called nowhere, ignores `l_lower_order_in_v=.FALSE.` (C04).

## False alarms met, and what was corrected
* Ranges of two cases shared a variable name, so one case ran with the box of the other: variables are now named per case.
* The numeric search left the box of an input: candidates are now checked against box and preconditions.
* Q11 asked for the exact probability 1-exp(-mean) for a single pair; the documentation promises a pair when the draw is below the
  expected number: the statement was corrected.
* Equality of results that went through a table in single precision was asked without tolerance: now within the rounding of the
  stored type.

## Known limits
* Rounding is outside everywhere. In particular the Poisson routine returns 1 for means where exp(-mean) underflows (about 745 in
  double, 103 in single precision), and squares of SI momenta underflow in single precision.
* Grids of one or two cells, tables up to about 4x5: the code is uniform in the sizes, but that is an argument, not part of the check.
* Not covered: MPI exchange, tiling, the pseudo-spectral solver (FFTW), particle boundary conditions, diagnostics and I/O of the Fortran
  code; OpenMP in the deposition managers.
'''
