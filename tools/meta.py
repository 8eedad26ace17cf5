#!/usr/bin/env python3
"""single source of the property texts: writes properties.jsonl, MANIFEST.json and bounds.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

COMMON = [
    "torch operators behave as their documentation says on real numbers: the engine executes the real Python code and torch's own "
    "decompositions for views, indexing, autograd and functorch, and gives the arithmetic operators their mathematical meaning; concrete "
    "float64 replays on solver witnesses are compared with the encoding in every case (traces_validated_against_impl)",
    "floating point numbers are treated as exact reals: rounding, overflow and underflow are outside; a counterexample counts only when "
    "the unpatched code reproduces it in float64",
    "powers, exp, log and sqrt are reasoned about through their algebraic laws and derivatives (normal form) plus z3 non-linear real "
    "arithmetic; points where an expression is singular (0/0, log of 0) are compared only where the reference is defined",
    "trusted: the engine in /verif/vlib, z3, Python, torch's dispatcher",
]

P = []

# an object that has been used before answers as a new one does
LATER = "the same object is used again after {}"
STATES = LATER.format("one or two evaluations at other states which share some of the very same tensors, or after evaluations with other values of the parameters")
REPEATED = {
    "C01": LATER.format("another problem of the same shape (other initial state, other times) was solved with the same options"),
    "C03": "a second gradient after an in place update of the parameters or the extra parameters, or after thawing a frozen parameter; initial conditions which are (multiples of) a parameter",
    "C04": "a second gradient after an in place update of the parameters or the extra parameters, or after thawing a frozen parameter; initial conditions which are (multiples of) a parameter",
    "C06": LATER.format("solves of other systems and products with other vectors"),
    "C10": LATER.format("interpolation at other times, and of other data"),
    "C11": STATES, "C12": STATES, "C13": STATES, "C14": STATES,
    "C15": LATER.format("an explicit earlier evaluation at another symbolic state"),
    "C16": LATER.format("another load history, which may share the time, data or temperature tensor"),
    "C18": "a second evaluation after the coefficients were updated in place, as optimisers do",
    "C19": LATER.format("other values"), "C20": LATER.format("other values"),
    "C24": "predictions again after an in place update of the parameters and with the experiments in another order",
    "C25": STATES, "C26": STATES,
    "C28": LATER.format("calls with other arguments"),
}


def prop(id, title, statement, over, quant, why, files, mech, bounds, outside, note, assumptions=(), observe=None, na=None, level="model_checking"):
    if id in REPEATED:
        bounds += "; repeated use: " + REPEATED[id]
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, bounds=bounds,
                  outside=outside, note=note, assumptions=list(assumptions), observe=observe or [], na=na, level=level))


NOTE = ("Bounded, exhaustive over real-valued inputs: the real code is executed symbolically from the current tree on every run, every path is "
        "enumerated and every obligation is decided by normal form + SMT for all values; ")

GEN = ("genericity: the solver contexts compare norms that do not vanish identically, so a residual norm is taken to be non-zero when it is not the "
       "constant zero (the special zero case is covered by C08)")

prop("C01", "Every returned step satisfies the implicit or explicit Euler equations",
     "Integrating an ordinary differential equation returns a history that starts at exactly the given initial condition and in which every consecutive pair of states satisfies "
     "the chosen scheme (backward Euler evaluates the rate at the end of the step, forward Euler at the beginning) with the step sizes of the requested times. This holds for any number of "
     "time points and batch entries, any block size including ones which do not divide the number of steps, and either initial guess strategy. The inputs are left untouched.",
     ["inputs", "configurations"], "all initial states, forcing terms and step sizes; numbers of time points, block sizes, guess strategies and both schemes",
     "The tests compare a handful of integrations of specific problems to analytic or reference solutions with loose tolerances; an error in one block position, in the final partial block, or for unequal step sizes in a batch stays below them.",
     ["pyoptmat/ode.py", "pyoptmat/chunktime.py"],
     [("integrator loop and block bookkeeping", "pyoptmat/ode.py:FixedGridBlockSolver.integrate"), ("Newton solve of one block", "pyoptmat/chunktime.py:newton_raphson_chunk"),
      ("scheme residual and Jacobian", "pyoptmat/ode.py:BackwardEulerScheme, ForwardEulerScheme"), ("initial guess", "pyoptmat/ode.py:FixedGridBlockSolver._initial_guess")],
     "2 to 10 time points, 1 to 3 batch entries, state size 1 or 2, block sizes 1 to 20, guess zero/previous, tolerances handed through to the iteration; initial state and forcing fully symbolic, step sizes symbolic for up to 4 time points; affine time dependent systems, rates and Jacobians which are views of the state or of tensors the function keeps, and a quadratic system solved exactly by one/two Newton steps",
     "other nonlinear right hand sides (their Newton convergence is C08), longer histories, user supplied guess histories",
     NOTE + "scheme residual proved identically zero for affine and nilpotent-quadratic problems, where Newton is exact.", [GEN], ["odeint", "odeint_adjoint return values"])

prop("C02", "Integration results do not depend on solver options",
     "The integrated history is the same whatever block size, batched linear algebra algorithm (dense, sequential, parallel cyclic reduction or any hybrid switch size), initial guess strategy or gradient mode (plain or adjoint) is chosen. "
     "These options may only change cost.",
     ["inputs", "configurations"], "all initial states, forcing terms and steps; all combinations of block size, algorithm, switch size and guess within the bounds",
     "The tests try a few option combinations on one problem each and never cross all of them with odd block counts.",
     ["pyoptmat/ode.py", "pyoptmat/chunktime.py"],
     [("block solver setup", "pyoptmat/ode.py:FixedGridBlockSolver._setup_system"), ("direct solver selection", "pyoptmat/chunktime.py:BidiagonalForwardOperator, ChunkTimeOperatorSolverContext"),
      ("PCR and hybrid factorization", "pyoptmat/chunktime.py:BidiagonalPCRFactorization, BidiagonalHybridFactorization")],
     "4 to 12 time points, blocks of 2 to 11 steps, dense, thomas, pcr, hybrid with switch sizes 0-8; state size 1-2, batch 1-2; symbolic initial state and forcing, symbolic steps for 4 points; affine and quadratic problems; loose and mixed tolerances for every algorithm, where what is returned silently has to meet the requested tolerance",
     "larger systems; round off differences between the algorithms",
     NOTE + "compares with the one-step-at-a-time integration.", [GEN], ["odeint, odeint_adjoint return values"])

prop("C03", "The adjoint gradient is the exact derivative of the discrete solution",
     "Back-propagating through the adjoint integrator gives the exact derivative of the returned discrete history with respect to every module parameter, every explicitly listed extra parameter and the initial condition. "
     "This holds for both schemes, any block size and any linear algebra option, for scalar, batched or shared parameters, also when some parameters are frozen or have no influence, when several integrations are differentiated in any order, and when a result is differentiated twice.",
     ["inputs", "configurations"], "all parameter values, initial states, output weights and step sizes within the bounds",
     "The tests compare adjoint and autograd gradients on a few nonlinear problems at one point with loose tolerances; both can be wrong together and the number of blocks is rarely odd.",
     ["pyoptmat/ode.py"],
     [("adjoint pass", "pyoptmat/ode.py:FixedGridBlockSolver.rewind"), ("adjoint autograd function", "pyoptmat/ode.py:IntegrateWithAdjoint"), ("block adjoint solves", "pyoptmat/ode.py:BackwardEulerScheme, ForwardEulerScheme")],
     "3 to 9 time points, block sizes 1 to 9, 1 to 3 batch entries, state size 1-2; forcing, operator, shared parameters, extra parameters and initial condition; symbolic parameters/initial state, symbolic steps for 3 points; thomas, pcr and hybrid solvers; frozen or unused parameters, parameters listed twice, two problems or two integrations in a row, losses of single results, entries or variables, a start at which nothing moves",
     "other right hand sides, more than 9 points, second derivatives",
     NOTE + "reference is the symbolic derivative of the executed discrete solution.", [GEN], ["gradients of parameters, extra parameters and initial condition"])

prop("C04", "Automatic differentiation through the plain integrator is exact",
     "Ordinary back-propagation through the plain integrator gives the exact derivative of the returned history with respect to parameters and the initial condition for every scheme, block size and linear solver option.",
     ["inputs", "configurations"], "all parameter values, initial states, output weights and step sizes within the bounds",
     "Tests use back-propagation only as the reference for the adjoint, with the default linear solver.",
     ["pyoptmat/ode.py", "pyoptmat/chunktime.py"],
     [("integration loop", "pyoptmat/ode.py:FixedGridBlockSolver.integrate"), ("differentiable factorizations", "pyoptmat/chunktime.py:BidiagonalThomasFactorization, BidiagonalPCRFactorization, BidiagonalHybridFactorization")],
     "as C03", "as C03", NOTE + "reference is the symbolic derivative of the executed discrete solution.", [GEN], ["torch.autograd gradients"])

prop("C05", "Bidiagonal solves really solve the block bidiagonal system",
     "For every block bidiagonal system with invertible diagonal blocks each of the available solution algorithms returns the vector that satisfies the system: multiplying it by the matrix gives back the right hand side. "
     "This holds for every number of blocks, block size, batch size and hybrid switch size.",
     ["inputs", "configurations"], "all right hand sides and (for small sizes) all block entries; numbers of blocks, algorithms and switch sizes",
     "The tests use one random system of fixed size with a power-of-two-like structure; cyclic reduction has a different elimination pattern for every block count.",
     ["pyoptmat/chunktime.py"],
     [("sequential elimination", "pyoptmat/chunktime.py:BidiagonalThomasFactorization.matvec"), ("cyclic reduction", "pyoptmat/chunktime.py:BidiagonalPCRFactorization.matvec"), ("hybrid", "pyoptmat/chunktime.py:BidiagonalHybridFactorization.matvec")],
     "1 to 33 blocks (quick), to 66 (thorough), block size 1-2, batch 1-2, hybrid switch sizes 0-9; right hand sides in other memory layouts; all entries symbolic for up to 5 scalar blocks / two 2x2 blocks, right hand side symbolic beyond",
     "singular or ill-conditioned diagonal blocks, round-off", NOTE + "residual of the linear system proved zero.", ["diagonal blocks have determinants (and leading entries) larger than 1/16 in magnitude where they are symbolic"], ["result of applying the factorization"])

prop("C06", "Chunked matrix operators agree with the dense matrix they represent",
     "A block diagonal-banded operator applied to a vector, converted to a dense matrix, or converted to a sparse matrix always represents the same matrix: the one holding each given block on the requested diagonal. "
     "The linear solver front end solves that matrix for the dense and for the direct option and rejects unknown ones.",
     ["inputs", "configurations"], "all block entries and vectors; numbers of blocks, diagonals and their order, block and batch sizes",
     "Tests check one layout of random blocks.",
     ["pyoptmat/chunktime.py"],
     [("operator", "pyoptmat/chunktime.py:BidiagonalForwardOperator"), ("general banded matrix", "pyoptmat/chunktime.py:SquareBatchedBlockDiagonalMatrix"), ("solver context", "pyoptmat/chunktime.py:ChunkTimeOperatorSolverContext")],
     "1 to 7 blocks, block size 1-3, batch 1-2, any subset of diagonals -3..3 tried in several orders", "larger sizes; sparse library kernels themselves (their index construction is covered)",
     NOTE + "dense reference.", [], ["to_diag, to_batched_coo, to_unrolled_csr, to_dense, matvec"])

prop("C07", "A factorization can be reused and never changes its inputs",
     "Solving with one factored bidiagonal matrix several times gives the same answer as solving with a freshly factored one each time. Neither the stored matrix blocks nor any right hand side handed in is modified.",
     ["inputs", "histories"], "all right hand sides; sequences of solves with the same factorization", "Tests solve once per object, so state left behind by a solve or an overwritten argument is invisible.",
     ["pyoptmat/chunktime.py"], [("factorization objects", "pyoptmat/chunktime.py:LUFactorization and subclasses"), ("cyclic reduction updates in place", "pyoptmat/chunktime.py:BidiagonalPCRFactorization.matvec")],
     "1 to 9 blocks, batch 1-2, block size 1-2, three solves in a row, hybrid switch sizes 0-3", "more than three solves", NOTE + "inputs compared before and after.", [], ["arguments after the call, second solve"])

prop("C08", "Newton solves either meet their tolerance or say that they failed",
     "Every Newton iteration either returns an iterate whose residual satisfies the absolute or the relative tolerance in every batch entry, or issues its failure report (a warning, or an exception when that was requested). "
     "In particular a not-a-number or infinite residual is always reported, the iteration limit is respected, and an already converged starting point is returned unchanged. For linear problems one step is exact.",
     ["inputs", "histories"], "every residual function (represented by arbitrary residual values along the iteration), tolerance, iteration limit up to the bound and batch size",
     "Tests only run the solvers on problems which converge.",
     ["pyoptmat/solvers.py", "pyoptmat/chunktime.py"],
     [("Newton", "pyoptmat/solvers.py:newton_raphson"), ("backtracking Newton", "pyoptmat/solvers.py:newton_raphson_bt"), ("chunked Newton", "pyoptmat/chunktime.py:newton_raphson_chunk")],
     "up to 2 iterations, 1-3 batch entries, 1-2 unknowns; residual values along the iteration arbitrary (symbolic), NaN/inf injected at chosen evaluations; backtracking limited to 0 halvings in the contract cases; the iteration limit and the failure report of both integrators; preconditioner reuse with a linear solver reporting any iteration count",
     "longer iteration histories, convergence rates", NOTE + "the residual function is an arbitrary script of values.", ["Jacobians in the scripts are diagonal with entries between 1 and 3"], ["return value, warnings, exceptions"])

prop("C09", "Batched linear solvers solve every batch entry",
     "Every linear solver choice (direct, diagonal, iterative, with or without preconditioner and starting guess) returns, for every batch entry separately, a vector meeting its accuracy contract: exact for the direct ones, within the requested tolerance or fully converged "
     "in as many iterations as unknowns for the iterative one. Batch entries whose right hand side vanishes do not disturb the others, and a preconditioner kept between calls changes only cost.",
     ["inputs", "configurations"], "all matrices in a well conditioned range and right hand sides, batch sizes 1-3",
     "Tests use a single random system; batch entries which converge at different times are not considered.",
     ["pyoptmat/solvers.py"], [("solver selection", "pyoptmat/solvers.py:lu_linear_solve, jacobi_iteration_linear_solve, lu_gmres, jacobi_gmres"), ("GMRES", "pyoptmat/solvers.py:gmres"), ("preconditioner reuse", "pyoptmat/solvers.py:PreconditionerReuseNonlinearSolver")],
     "1-3 batch entries, 1-4 unknowns; all matrix entries symbolic for up to 2 unknowns", "larger systems; loss of orthogonality from round-off", NOTE + "residual proved zero / within tolerance.",
     ["symbolic matrices are bounded away from singular"], ["solution vectors"])

prop("C10", "Time series interpolation is exact piecewise linear interpolation",
     "Every interpolation helper returns, for any time inside the covered range, the value on the straight line between the two neighbouring data points of each batch entry, exactly the data at data points, and a result of the shape of the requested times. "
     "This holds for shared and for per-entry time grids and for additional leading batch dimensions.",
     ["inputs", "configurations"], "all strictly increasing time grids, values and query times in range",
     "Tests compare against scipy on one grid and never query times equal to data points or with extra leading dimensions.",
     ["pyoptmat/utility.py"], [("interpolators", "pyoptmat/utility.py:BatchTimeSeriesInterpolator, CheaterBatchTimeSeriesInterpolator, ArbitraryBatchTimeSeriesInterpolator, timeseries_interpolate_*")],
     "2-5 data points, 1-3 batch entries, up to two extra leading dimensions of sizes 1-3", "times outside the covered range, repeated data times", NOTE + "reference: piecewise linear formula per segment.",
     ["data times strictly increasing; for the structured interpolator all entries are at the same relative position, as its documentation requires"], ["interpolated values"])

prop("C11", "Flow rules return the exact derivatives of their own rates",
     "The stress, history and total-rate derivatives that every flow rule reports equal the derivatives of the inelastic rate and history rates it reports, for every stress, history, temperature, rate and parameter value. This is what every Newton iteration and gradient relies on.",
     ["inputs"], "all states, parameters and rates in the physical range, both signs of the stress, batch shapes",
     "Tests compare against finite differences at one random state per class with 1e-4 tolerances and mostly positive stresses.",
     ["pyoptmat/flowrules.py"], [("flow rules", "pyoptmat/flowrules.py: all FlowRule subclasses")],
     "all flow rule classes; scalar, (2,) and (1,2) batches; hardening of up to 6 internal variables; arbitrary sub-models represented by first order jets, superpositions of parts with 0 to 2 internal variables each; regime rules with scaled thresholds and non-zero eps", "other batch shapes; exponents below 1 or above 12", NOTE + "reference: symbolic derivative of the executed rate.",
     ["exponents n in [1,12], positive viscosities; derivative identities at non-differentiable points (kinks) are excluded"], ["values and derivatives returned by flow_rate, history_rate, dflow_*, dhist_*"])

prop("C12", "Hardening models return the exact derivatives of their own rates",
     "The reported derivatives of every isotropic and kinematic hardening model (value with respect to history, and history rate with respect to stress, history, inelastic rate and total rate) equal the derivatives of the reported values, for every state and parameter value.",
     ["inputs"], "all states, parameters and rates, batch shapes", "Tests compare against finite differences at one state per model.",
     ["pyoptmat/hardening.py"], [("hardening models", "pyoptmat/hardening.py: all HardeningModel subclasses")],
     "all classes, Chaboche with 1-3 terms, superposition of several models; batch (2,) and (1,2)", "other batch shapes and numbers of terms", NOTE + "reference: symbolic derivative of the executed rate.",
     ["parameters positive, exponents in (1,6]"], ["value, dvalue, history_rate and its derivatives"])

prop("C13", "Damage models return the exact derivatives of their own rates",
     "The reported derivatives of every damage model with respect to stress, damage and strain rate equal the derivatives of the damage rate it reports for every state, including negative stresses.",
     ["inputs"], "all stresses, damage values, temperatures, rates and parameters", "Tests use finite differences at positive stresses with a loose tolerance.",
     ["pyoptmat/damage.py"], [("damage models", "pyoptmat/damage.py: all DamageModel subclasses")], "all classes; scalar, (2,) and (1,2) batches; zero stress; default regularisation", "other batch shapes",
     NOTE + "reference: symbolic derivative of the executed rate.", ["damage in [0,1), positive parameters"], ["damage_rate and its derivatives"])

prop("C14", "Material models form the right rates with exact Jacobians",
     "A strain-controlled material model returns the elastic stress rate minus inelastic flow, its history rates and (for damaged materials) the effective-stress form of the equations; the Jacobians it returns with respect to state and strain rate are the exact derivatives of those rates. "
     "This holds for every flow rule and damage model it is composed of.",
     ["inputs", "configurations"], "all states, rates, temperatures and parameters; arbitrary flow rule and damage model",
     "Tests check finite differences of a few complete models at one state.",
     ["pyoptmat/models.py"], [("undamaged model", "pyoptmat/models.py:InelasticModel"), ("damaged model", "pyoptmat/models.py:DamagedInelasticModel")],
     "0-3 history variables, batches (2,), (2,2), scalar; arbitrary flow and damage models to first order (every model is its first order jet at a state), plus library compositions", "deeper batch shapes",
     NOTE + "formula reference for the rates, symbolic derivative reference for the Jacobians.", ["damage in [0,1)"], ["forward outputs"])

prop("C15", "Stress control is consistent with strain control",
     "A stress-controlled model returns the strain rate for which the strain-controlled model would give exactly the imposed stress rate, together with the history rates at that strain rate, and the exact Jacobian of this with respect to its state.",
     ["inputs", "configurations"], "all states, stress rates, histories and (affine to first order) material models", "Tests compare only complete integrations of one model; the Jacobian for rate dependent history evolution was wrong.",
     ["pyoptmat/models.py"], [("inner solve and Jacobian", "pyoptmat/models.py:StressBasedModel")],
     "0-3 history variables, 1-3 batch entries incl. (1,2); arbitrary models affine in the strain rate, two library models; gradients with respect to the parameters of the model", "materials strongly nonlinear in the strain rate (inner Newton convergence is C08)",
     NOTE + "formula and symbolic derivative references.", [GEN], ["forward outputs of the stress based model"])

prop("C16", "Mixed control and the drivers follow the prescribed histories",
     "With mixed control every experiment follows its own control type, giving exactly what the pure strain or stress controlled model gives for it. The drivers use the prescribed strain, stress and temperature histories: rates are the slopes of the prescribed curves in every interval, "
     "repeated time points do not produce undefined values, and results are returned in the order and shape documented.",
     ["inputs", "configurations"], "all histories, states and control patterns within the bounds", "Tests run homogeneous batches of a single control type.",
     ["pyoptmat/models.py"], [("mixed model", "pyoptmat/models.py:BothBasedModel"), ("drivers", "pyoptmat/models.py:ModelIntegrator.solve_strain, solve_stress, solve_both, forward")],
     "mixed control: 2-3 experiments and (2,2), (2,3), arbitrary models to first order; drivers: 1-3 experiments, 3-5 time points, repeated times (of all or one experiment), strain control integrated end to end with blocks of 1-9 steps", "longer histories", NOTE + "reference: pure control models, slopes of the prescribed data.", [GEN], ["forward outputs, integrated histories"])

prop("C25", "Composite models are exactly the sum or selection of their parts",
     "Superimposed flow rules and hardening models add their parts and keep their internal variables separate and in order; regime switching models use exactly one of their two parts on each side of the regime boundary (or the documented blend) with the documented activation energy. "
     "Rate independent limits and isotropic-kinematic combinations pass the sub-models exactly the quantities documented.",
     ["inputs", "configurations"], "all states and arbitrary (first order) sub-models", "Tests only check consistency of derivatives of complete compositions, not that the composition is the documented one.",
     ["pyoptmat/flowrules.py", "pyoptmat/hardening.py"], [("superposition", "pyoptmat/flowrules.py:SuperimposedFlowRule, pyoptmat/hardening.py:SuperimposedKinematicHardening"), ("regimes", "pyoptmat/flowrules.py:KocksMeckingRegimeFlowRule, SoftKocksMeckingRegimeFlowRule"), ("rate independent wrapper", "pyoptmat/flowrules.py:RateIndependentFlowRuleWrapper")],
     "2-3 sub-models with 0-2 internal variables, batches (2,), (1,2)", "more sub-models", NOTE + "reference: documented composition formulas.", [], ["flow_rate, history_rate and derivatives"])

prop("C26", "Constitutive laws compute the documented equations",
     "Perfect viscoplasticity, every isotropic and kinematic hardening law and every damage law return the values of their documented equations, for every state, rate, temperature and parameter value, in every batch entry.",
     ["inputs"], "all states, rates and parameters", "Tests check derivatives only, or a few numbers at one state; a changed constant or sign that keeps the derivatives consistent is invisible.",
     ["pyoptmat/flowrules.py", "pyoptmat/hardening.py", "pyoptmat/damage.py"], [("laws", "pyoptmat/flowrules.py, hardening.py, damage.py")],
     "all classes; batches (2,), (1,2); temperature dependent parameters through arbitrary values", "other batch shapes", NOTE + "reference: the documented formulas.", ["physical parameter ranges"], ["rates and values"])

prop("C27", "Numerical differentiation helpers are exact on affine functions",
     "The finite difference helpers return, for scalar, vector or mixed valued functions and arguments, a derivative of the documented shape which is exact for affine functions, at every point including zero, and leave the point untouched.",
     ["inputs", "configurations"], "all affine functions and points; combinations of scalar and vector arguments and results", "Tests use them as a reference at generic points and never check them for vectors or zeros.",
     ["pyoptmat/utility.py"], [("differences", "pyoptmat/utility.py:differentiate, new_differentiate, batch_differentiate")],
     "argument and result sizes scalar or 1-3, batches (1,), (2,), (3,), (2,2); results which are (views of) the argument itself", "truncation errors on nonlinear functions, round-off", NOTE + "exact on affine functions.", [], ["returned derivatives"])

prop("C28", "Automatic Jacobians and neural ODE wrappers are exact",
     "Functions wrapped to also return Jacobians return their unchanged value and the exact Jacobian per batch entry with respect to every requested argument. Neural ODE wrappers return the network applied to state and forcing, and its exact derivative with respect to the state only.",
     ["inputs", "configurations"], "all arguments and coefficients of quadratic functions; argument selections; batch shapes", "Tests use one network with one batch size.",
     ["pyoptmat/utility.py", "pyoptmat/neuralode.py"], [("jacobianize", "pyoptmat/utility.py:jacobianize"), ("neural ODE", "pyoptmat/neuralode.py:NeuralODE")],
     "1-3 arguments of size 2, up to two batch dimensions, quadratic test functions", "other functions (functorch itself is trusted)", NOTE + "reference: symbolic derivative.", [], ["value and Jacobian"])

prop("C29", "Batched tensor helpers compute their mathematical definition",
     "The batched matrix product works for any number of leading dimensions, the sign-like and identity helpers return the documented tensors in every entry, and the composition helper applies functions in the documented order.",
     ["inputs", "configurations"], "all entries; shapes within the bounds", "Tests only cover one shape.",
     ["pyoptmat/utility.py"], [("helpers", "pyoptmat/utility.py:mbmm, heaviside, macaulay, add_id, compose")], "matrices up to 3x3, up to three leading dimensions, broadcast ones too", "larger", NOTE + "entrywise reference.", [], ["return values"])


prop("C17", "The experiments of a batch never influence each other",
     "Evaluating a batch of experiments, each with its own state, history, temperature and parameters, gives for every one of them exactly what evaluating it alone gives. This holds for flow rules, damage and material models, bidiagonal and dense solves, interpolation, integration with either gradient mode, its gradients, and the strain, stress and mixed control drivers.",
     ["inputs", "configurations"], "all states, parameters (constant or temperature dependent) and histories of every entry; model compositions, solver options, batch sizes",
     "Tests run batches but compare them with finite differences of the same batch, so that consistent mixing of entries, or a value broadcast from the first entry, stays invisible.",
     ["pyoptmat/flowrules.py", "pyoptmat/models.py", "pyoptmat/ode.py", "pyoptmat/chunktime.py", "pyoptmat/temperature.py", "pyoptmat/hardening.py", "pyoptmat/damage.py"],
     [("flow rules and hardening with batched parameters", "pyoptmat/flowrules.py, pyoptmat/hardening.py"), ("block solver", "pyoptmat/ode.py:FixedGridBlockSolver"), ("factorizations", "pyoptmat/chunktime.py")],
     "2-3 entries (and two time steps of two entries), 12 flow rule compositions, 4 damage models, 7 material models, 3 to 7 time points, all three controls of the driver (also with a time point repeated in one entry), the three bidiagonal algorithms with 3-8 blocks",
     "iterations whose length depends on the slowest entry (Newton to a tolerance, GMRES), larger batches", NOTE + "reference: the same code on one entry.", [GEN], ["all values and Jacobians returned for an entry"])

prop("C18", "Temperature dependent parameters follow their documented formulas",
     "Every temperature dependent parameter evaluates, for every temperature, to its documented formula (constant, piecewise linear through its control points, polynomial, Arrhenius, shear modulus and MTS scalings, Kocks-Mecking) of the individually scaled coefficients, followed by the overall scaling. "
     "Each entry of a batch of parameters is paired with its own temperature, and evaluating a parameter changes neither it nor the temperatures.",
     ["inputs", "configurations"], "all temperatures, coefficients, control points and scaling functions (affine, arbitrary coefficients); scalar, batched and doubly batched temperatures and coefficients",
     "Tests evaluate a few parameters at a few temperatures, never exactly at a control point, and mostly without scaling functions.",
     ["pyoptmat/temperature.py"], [("parameters", "pyoptmat/temperature.py: all TemperatureParameter subclasses")],
     "2-4 control points, polynomials with 1-4 coefficients, temperature shapes (), (1,), (2,), (1,2), (2,2), (2,3), parameter shapes (), (2,), (3,)",
     "temperatures outside the control points; the Kocks-Mecking viscosity model is checked for the shapes up to (2,)", NOTE + "reference: the documented formulas.",
     ["positive temperatures and physical constants; scaling functions are affine with symbolic coefficients (positive ones where the formula needs it)"], ["forward and value of the temperature parameters"])

prop("C19", "Scaling functions and their inverses agree",
     "A scaling function maps a normalized variable to the physical one by its documented formula (multiplication, linear or logarithmic interpolation between bounds), returns the bounds at the ends of the normalized range and never leaves them when clamping. "
     "Unscaling is its inverse inside the bounds, in both directions.",
     ["inputs"], "all values, bounds and scales, scalar and batched; clamped and free",
     "Tests check a round trip for a handful of values inside the bounds.",
     ["pyoptmat/scaling.py"], [("scaling functions", "pyoptmat/scaling.py: all ScalingFunction subclasses")], "shapes (), (2,), (2,2)", "the scaled mean of the logarithmic function (its documentation does not say which mean is meant)",
     NOTE + "reference: formulas.", ["upper bound larger than the lower one"], ["scale, unscale, forward"])

prop("C20", "Calibration parameter bounds always hold",
     "Whatever value the optimizer tries, a bounded parameter never leaves its bounds (or its minimum), and inside the bounds its value follows the documented scaling. The argument is left untouched.",
     ["inputs"], "all trial values, bounds, means, factors and scales", "The calibration helpers have no tests.",
     ["pyoptmat/optimize.py"], [("scale functions", "pyoptmat/optimize.py:bounded_scale_function, bound_factor, clamp_scale_function, bound_and_scale, log_bound_and_scale")],
     "shapes (), (2,), (2,2) with scalar and batched bounds", "other shapes", NOTE + "reference: clamp formulas.", ["upper bound larger than the lower one, factors between 0 and 1, scales not zero"], ["scaled values"])

prop("C21", "Simulated results are abstracted by each experiment's own type",
     "Converting simulated results to comparable experimental results treats every experiment by its own test type and its own cycle counts: tensile and direct data unchanged, creep and relaxation relative to the start of the hold and zero before it, cyclic tests the maximum of each cycle, abstract tensile tests the yield and ultimate strength. "
     "The order of experiments, the predictions and the cycle counts are left unchanged.",
     ["inputs", "configurations"], "all simulated histories; mixtures of the seven test types and cycle count patterns", "No test runs this code; a mixture with different cycle counts used the counts of the first experiment.",
     ["pyoptmat/experiments.py"], [("conversion", "pyoptmat/experiments.py:convert_results and the format functions")],
     "1-7 experiments, 1-5 time points, each test type alone, in pairs with different cycle counts and in seven mixtures", "longer histories, unordered cycle counts", NOTE + "reference: the documented abstraction, per experiment.",
     ["cycle counts are non-decreasing and the steps an abstraction refers to exist"], ["convert_results"])

prop("C22", "Generated load histories are the prescribed tests",
     "The histories generated for tension, creep and cyclic tests are the prescribed ones: evenly sampled loading at each test's own rate up to its own limit, a hold at exactly the reached level up to the requested end time (evenly or logarithmically sampled), and cycles made of load, hold, reversal, hold and unload segments with the requested amplitudes and durations. "
     "Times, controlled values, temperatures and cycle counts agree with each other for every test of a batch, and random tests draw every quantity from its own range.",
     ["inputs", "configurations"], "all rates, levels, hold times and amplitudes; numbers of steps and cycles; all draws of the random numbers",
     "No test covers the generators.",
     ["pyoptmat/experiments.py"], [("generators", "pyoptmat/experiments.py:make_tension_tests, make_creep_tests, sample_tension, sample_cycle_normalized_times, generate_random_tension, generate_random_cycle")],
     "1-3 experiments, 2-6 steps per segment, 1-3 cycles; numpy is replaced by a symbolic stand-in for the array functions used", "other numpy functions than the stand-in knows lead to an inconclusive case",
     NOTE + "reference: piecewise histories.", ["positive rates, temperatures, creep stresses; the end time of a creep test lies after its loading"], ["times, values, temperatures, cycle counts"])

prop("C23", "Loaded experiments keep every quantity in its place",
     "Loading a data set returns times, temperatures, the controlled quantity (strain or stress, by each experiment's own control) and the measured other quantity for every experiment in the original order, with the right type and control codes.",
     ["inputs", "configurations"], "all data; mixtures of test types and controls", "No test loads a data set of mixed control.",
     ["pyoptmat/experiments.py"], [("loading", "pyoptmat/experiments.py:load_results")], "1-7 experiments, 1 and 3 time points, 5 mixtures of types with 4 control patterns; cycle counts up to 2^31", "the file format itself (xarray)", NOTE + "entrywise reference.", [], ["returned tensors"])

prop("C24", "Statistical models have the documented probability structure",
     "The deterministic wrapper predicts the abstracted results of each experiment with the current parameter values. The single level and hierarchical statistical models sample the parameters from the documented priors (population location and scale, one value per experiment), predict with each experiment's own values, and compare with the data using the noise and the weight "
     "of each experiment's type. The joint log density and the parameters collected for gradient computation follow from that.",
     ["inputs", "configurations"], "all prior parameters, sampled values, data and predictions (affine stand-in model); mixtures of test types, noise and weight options",
     "No test covers the statistical wrappers.",
     ["pyoptmat/optimize.py"], [("wrappers", "pyoptmat/optimize.py:DeterministicModel, StatisticalModel, HierarchicalStatisticalModel")],
     "1-7 experiments, 2-4 time points, 1-3 parameters, scalar and vector parameters, noise by type or common, weights on/off", "the inference algorithms of pyro", NOTE + "reference: the written out densities.",
     ["the integrated material model is replaced by an arbitrary affine function of parameters and data", "pyro's own sampling bookkeeping is trusted"], ["pyro traces: distributions, values, scales, log density"])


prop("C30", "Everything calibration differentiates has exact, defined gradients",
     "Back-propagating through flow, hardening and damage rates, material models under strain and stress control, temperature dependent parameters, scaling and bounding functions, the abstraction of results, the deterministic wrapper and a whole calibration step through drivers and time integration gives the exact derivative of the value with respect to every parameter and the state. "
     "The gradients stay defined and exact where simulations start and pause: at zero stress, at zero internal variables and inside the yield surface, also for the reported derivatives that plain back-propagation passes through.",
     ["inputs", "configurations"], "all parameters, states, rates and temperatures; compositions of models, parameter classes and test types within the bounds",
     "Tests differentiate a few complete models at generic points; a value cut from the graph, an in-place update, or an infinite slope met exactly at zero is seen only for the parameter and state concerned.",
     ["pyoptmat/flowrules.py", "pyoptmat/hardening.py", "pyoptmat/damage.py", "pyoptmat/models.py", "pyoptmat/temperature.py", "pyoptmat/scaling.py", "pyoptmat/optimize.py", "pyoptmat/experiments.py"],
     [("rates", "pyoptmat/flowrules.py, hardening.py, damage.py: flow_rate, history_rate, damage_rate"), ("parameters", "pyoptmat/temperature.py: value"), ("scaling", "pyoptmat/scaling.py, pyoptmat/optimize.py: scale functions"),
      ("powers at zero", "pyoptmat/utility.py:abs_power, macaulay_power"), ("results", "pyoptmat/experiments.py:convert_results"), ("wrapper", "pyoptmat/optimize.py:DeterministicModel")],
     "15 flow rule and hardening compositions, 3 damage models, all temperature parameter classes and scale functions, 5 mixtures of test types with 3-5 time points; 1-2 entries; a whole calibration step (experiments to model, driver, time integration, abstracted results, loss) of a linear viscous material over 4 time points under strain, stress and mixed control, by backpropagation and by the adjoint; exponents 1, 1.5, 2 and 3 at the exact zero and elastic states, arbitrary in [1,12] elsewhere",
     "second derivatives other than being defined; kinks (the derivative is compared where it exists); larger batches", NOTE + "reference: symbolic derivative of the executed value, in which a detached result still shows its dependence.",
     ["physical parameter ranges as in C11-C13 and C18"], ["torch.autograd gradients of returned values"])


def main():
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
    man = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python tools/selfcheck.py",
        hooks=dict(guard="none: no hooks were needed", enable="not applicable", source_commits=[]),
        checks=[dict(property=p["id"], quick_cmd="/opt/venv/bin/python run.py %s --tier quick" % p["id"],
                     thorough_cmd="/opt/venv/bin/python run.py %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                     technique="symbolic execution of the real torch code + SMT (z3), counterexamples replayed", level=p["level"], level_note=p["note"] + " Bounds: " + p["bounds"] + ".")
                for p in sorted(P, key=lambda p: p["id"]) if not p["na"]],
        not_applicable=[dict(property=p["id"], reason=p["na"]) for p in P if p["na"]],
        notes="All checks execute the code in /repo symbolically (vlib/symt.py) and decide every obligation with normal forms and z3 (vlib/nf.py). See DESIGN.md.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    b = dict(common=dict(assumptions=COMMON))
    for p in P:
        b[p["id"]] = dict(bounds=p["bounds"], outside=p["outside"], assumptions=p["assumptions"])
    with open(os.path.join(HERE, "bounds.json"), "w") as f:
        json.dump(b, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
