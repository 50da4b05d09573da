# Texts of the properties: P(id, title, statement, over, text, why, files, mechanisms, note)

P("P03", "Wrapped vectors share and release the caller's memory exactly once",
  """A vector wrapped around an array provided by the caller reads and writes that very array; whatever sequence
  of re-wrapping and dropping follows, the caller's release function is invoked exactly once for each
  association, with the client data of that association, when it is replaced or when the vector is destroyed,
  and never otherwise.  Re-wrapping a vector that is not a wrapper or giving no array fails and changes nothing.""",
  "histories inputs", "every history of wrap, re-wrap, hold and drop with any combination of client data and release function",
  "Tests wrap one array once and never observe the release callback or re-wrapping.",
  "simple_vector.c dblvector.c fltvector.c optimpack.h",
  [("wrapping and re-wrapping of simple vectors", "src/simple_vector.c"), ("finalization of vectors", "src/simple_vector.c")],
  "2 elements, histories of 2 operations, all flag combinations; single and double precision.")

P("P04", "Vector operations compute the specified linear combinations",
  """Copying, swapping, filling, scaling, component-wise products and linear combinations of vectors give, for every
  component, the value of the documented formula for all coefficients, including the special values 0, 1 and -1,
  also when the destination is one of the operands; operands that are not destinations are left unchanged.""",
  "inputs", "all values of the coefficients and of the components, every aliasing of destination and operands, single and double precision",
  "Tests only exercise a few coefficients through whole optimizations and never check aliasing; the code has separate branches for each special coefficient.",
  "algebra.c simple_vector.c", [("dispatch on special coefficients", "src/algebra.c"), ("element-wise loops", "src/simple_vector.c")],
  "3 elements; arithmetic is idealized as real numbers (rounding is outside).")

P("P05", "Vector reductions compute the specified norms and inner products",
  """The inner product, weighted inner product, sum, and the Euclidean, 1- and infinity-norms of vectors have their
  mathematical values for all components, and operands are unchanged.""",
  "inputs", "all values of the components, every aliasing of operands, single and double precision",
  "Tests use reductions only inside optimizers, where a wrong but positive norm still converges.",
  "algebra.c simple_vector.c", [("reductions", "src/simple_vector.c"), ("public wrappers", "src/algebra.c")],
  "3 elements; arithmetic is idealized as real numbers (rounding is outside).")

P("P06", "Mixing spaces or bad indices is reported and leaves vectors unchanged",
  """An operation on vectors that do not all belong to the same space is reported to the installed error handler and
  modifies none of them; reading or writing a component, importing and exporting succeed exactly for valid indices, sizes,
  element types and addresses, with the documented status otherwise and nothing written.""",
  "inputs configurations", "every assignment of the operands to two spaces of any kind, every index, size and element type",
  "Tests never pass mismatched vectors or invalid indices.",
  "algebra.c utils.c simple_vector.c", [("space and index checks", "src/algebra.c"), ("error handler", "src/utils.c")],
  "vectors of 1 to 4 elements; indices, sizes and types are arbitrary machine integers.")

P("P07", "Box sets are created exactly for valid bounds; set operations check arguments",
  """A box set is created if and only if the kind of each bound is known and consistent with its address and space, an
  invalid request fails with the documented error code and leaks nothing; the operations on a convex set return the
  documented status for missing arguments and vectors of another space and then change nothing.""",
  "inputs configurations", "all kinds of bounds (any integer), NULL or not, vectors of the right or of another space",
  "Tests only build three of the many combinations of bounds and no invalid one.",
  "algebra.c", [("construction of box sets", "src/algebra.c"), ("argument checks of set operations", "src/algebra.c")],
  "2 variables; kinds of bounds are arbitrary integers.")

P("P08", "Projection on a box gives the closest feasible point",
  """For every vector of variables and every consistent box, the projected variables are within the bounds and each
  variable is unchanged when feasible and set to the violated bound otherwise, whichever way the bounds were specified and
  also in place.  The bounds in use are those given at creation (or the live array for static bounds) even after the caller
  has released or overwritten its own storage.""",
  "inputs configurations", "all values of variables and bounds (infinities included), the 64 combinations of kinds of bounds, in place or not, both precisions",
  "There are 16 generated loops per precision; tests exercise three of them on a few points.",
  "algebra.c simple_vector.c", [("box projection loops", "src/simple_vector.c"), ("bound storage", "src/algebra.c")],
  "2 variables; bit-precise floating-point, NaN bounds excluded.")

P("P09", "Projected directions and free variables are exact at active bounds",
  """For feasible variables, the projected direction equals the given direction except for the components that would
  immediately leave the box, which are zero; the free variables are exactly those whose component of the direction is
  non-zero and not blocked.  This holds for both orientations and all kinds of bounds.""",
  "inputs configurations", "all feasible variables, directions, bounds, orientations, kinds of bounds, both precisions",
  "A wrong strict/loose comparison at a bound only shows for variables exactly at a bound and a given sign of the direction.",
  "algebra.c simple_vector.c", [("projection of directions", "src/simple_vector.c"), ("free variables", "src/simple_vector.c")],
  "2 variables; bit-precise floating-point.")

P("P10", "Step limits bracket where bounds become active along a direction",
  """For feasible variables and any direction, the three step limits are the smallest step and the smallest non-zero step at which a bound
  becomes active and the largest step above which the projected variables no longer change, infinite when unlimited; any subset
  of the three may be requested.""",
  "inputs configurations", "all feasible variables, directions, bounds, orientations, kinds of bounds, subsets of results, both precisions",
  "Limits depend on the minimum or maximum over variables of signed ratios; tests only see their effect on convergence.",
  "algebra.c simple_vector.c", [("step limits", "src/simple_vector.c")],
  "2 variables; arithmetic is idealized as real numbers.")

P("P23", "Names, descriptions and string copies never overflow and always terminate",
  """Copying a string or querying a name or description writes at most the given number of bytes, always terminates the
  result when there is room for it, gives the leading part of the text and returns the size required for the whole text,
  a missing destination or optimizer being accepted.  The description names the method and options in use.""",
  "inputs configurations", "all strings and buffer sizes, every optimization method and combination of options",
  "The tests print one description with one buffer size; overflow only occurs for some combination of options.",
  "utils.c nlcg.c vmlmb.c driver.c", [("string copy", "src/utils.c"), ("descriptions", "src/nlcg.c src/vmlmb.c src/driver.c")],
  "strings up to 4 arbitrary bytes, 7 buffer sizes; all methods.")

P("P24", "Status codes and named constants are consistent for every input",
  """Every known status has a non-empty description of its own that matches its meaning and any other integer has an empty one;
  each documented constant is found by its name with its value, any other name is rejected and leaves the result unchanged; C library
  error codes map to the corresponding status.""",
  "inputs", "all integer codes, all documented names, names differing by any character",
  "Tests do not look at descriptions and wrappers in other languages rely on the named constants.",
  "utils.c optimpack.h", [("table of statuses", "src/optimpack.h"), ("constants by name", "src/utils.c")],
  "all 32-bit codes; unknown names are known names with one arbitrary character.")

P("P25", "Level-1 linear algebra routines match their mathematical definition",
  """Swap, copy, scaling, sums, inner products, norms and index-of-maximum over strided arrays have their mathematical value for
  all lengths, strides (negative ones included) and contents, including across the unrolled part of the loops; elements that are not
  addressed are never written and a non-positive length is a no-op.  The Euclidean norm does not overflow nor underflow.""",
  "inputs", "all contents, lengths, strides of both signs, both precisions",
  "Loops are unrolled by 4 or 5 with clean-up code and specialized for unit strides; the tests never call them directly.",
  "linalg.c", [("level-1 routines", "src/linalg.c")],
  "up to 13 elements, strides 1, 2, -1, -2; idealized arithmetic, plus bit-precise range check of the norm.")

P("P26", "Matrix-vector products and triangular solves match their definition",
  """General and triangular matrix-vector products and triangular solves give the result defined by the matrix equation for every
  layout, transposition, triangle, diagonal, stride and leading dimension, do not read the other triangle nor the implicit unit diagonal and write only
  the result; an invalid argument is reported by its position and nothing is written.""",
  "inputs configurations", "all contents, flags, dimensions, strides, leading dimensions, both precisions",
  "Over a hundred combinations of flags and strides each take a different loop nest; only a few are reached by the other code.",
  "linalg.c", [("level-2 routines", "src/linalg.c")],
  "dimensions up to 3, strides 1, 2, -1, -2; idealized arithmetic.")

P("P27", "Matrix-matrix products match their definition",
  """General and symmetric rank-k matrix products give the result defined by the matrix equation for every
  layout, transposition, triangle and leading dimension, write only the result (the selected triangle for the symmetric update), and do not read
  the destination when its coefficient is zero; an invalid argument is reported by its position and nothing is written.""",
  "inputs configurations", "all contents, coefficients, flags, dimensions, leading dimensions, both precisions",
  "Each combination of flags takes a different loop nest and tests do not call these routines.",
  "linalg.c", [("level-3 routines", "src/linalg.c")],
  "dimensions up to 2; idealized arithmetic.")

P("P28", "Cholesky factorization succeeds exactly on positive definite matrices",
  """For every symmetric matrix the factorization returns success exactly when the matrix is positive definite, the triangle
  written then reproducing the matrix, and otherwise returns the order of the first leading minor that is not positive; the other triangle
  is neither read nor written and an invalid argument is reported by its position.""",
  "inputs configurations", "all symmetric matrices, both triangles and layouts, leading dimensions, both precisions",
  "Only one routine uses it, on matrices which are positive definite in the tests.",
  "linalg.c", [("unblocked Cholesky factorization", "src/linalg.c")],
  "dimensions up to 2; idealized arithmetic.")

P("P01", "Objects live exactly as long as they are referenced",
  """An object (vector space, vector, convex set, line search, optimizer) is destroyed exactly when its last reference is dropped, whatever
  the order in which the references held by the caller and by other objects are released: an object in use by another one remains
  usable after the caller drops it, nothing is used after having been destroyed, nothing is destroyed twice and nothing is leaked once all are released;
  holding or dropping NULL does nothing.""",
  "histories", "every graph of dependent objects and every order of releasing the references, then using what remains",
  "Tests release objects in one fixed order and do not check leaks or stale references.",
  "algebra.c nlcg.c vmlmb.c simple_vector.c lnsrch.c optimpack-private.h",
  [("reference counting", "src/algebra.c"), ("finalization of optimizers and sets", "src/algebra.c src/nlcg.c src/vmlmb.c")],
  "graphs of up to 6 objects; quick: any object first, any last, the rest in two orders; thorough: any order.")

P("P02", "Constructors survive any failure of memory allocation",
  """Whichever allocations fail, a constructor (space, vector, wrapper, set, line search, optimizer, driver, derivative-free context) either returns a fully usable object
  or returns NULL with errno telling ENOMEM, releases everything it obtained, gives back every reference it took on its arguments, and never accesses invalid memory.""",
  "faults", "every subset of failing allocations in every constructor, for every kind of bounds and of optimizer",
  "Tests never make an allocation fail.",
  "algebra.c simple_vector.c lnsrch.c nlcg.c vmlmb.c driver.c cobyla.c newuoa.c",
  [("unwinding after a failed allocation", "src/algebra.c src/nlcg.c src/vmlmb.c src/driver.c")],
  "2 variables; every subset of failing allocations; single and double precision.")

P("P11", "Line searches obey their protocol",
  """A line search is created exactly for the documented parameters; starting it fails exactly for invalid arguments, with the status telling which one;
  iterating without having started, with another step than the current one or after the end is an error; the queries (task, status, step, converged, warnings, errors) always agree with the last outcome;
  the trial step always stays within the given bounds and convergence leaves it unchanged.""",
  "histories inputs", "all parameters, all starting values, all function values and slopes, every history of calls",
  "Tests only run line searches to success inside optimizers.",
  "lnsrch.c", [("protocol shared by the line searches", "src/lnsrch.c")],
  "protocol bit-precise; iterations (up to 2, 1 for the cubic method) with idealized arithmetic, values below 1000 in magnitude.")

P("P12", "Function-value line searches accept exactly sufficient decreases and reduce the step as documented",
  """The backtracking line search accepts a step exactly when the function value satisfies the Armijo condition with respect to the starting value, and the nonmonotone one exactly when
  it does with respect to the largest of its last M starting values, whatever the number of searches done with the same object; when rejected, the next step is the documented one: minimum of the interpolating parabola
  when it is within the safeguards, bisection otherwise, never below the smallest step, whose rejection ends the search with a warning.""",
  "histories inputs", "all function values, slopes, steps and bounds, every number of searches with the same object",
  "Tests never look at the intermediate steps and the history of a nonmonotone search wraps around only after many iterations.",
  "lnsrch.c", [("Armijo line search", "src/lnsrch.c"), ("nonmonotone line search and its circular history", "src/lnsrch.c")],
  "memory up to 3, up to 4 searches (thorough: 4 and 6), 2 iterations (1 for the nonmonotone one), values below 100 in magnitude, idealized arithmetic.")

P("P13", "The strong Wolfe line search follows the published algorithm",
  """Every iteration of the cubic line search yields the outcome, the status and the next step of the algorithm published by More and Thuente: it converges exactly when the sufficient decrease
  and curvature conditions hold, the trial step never leaves its bounds nor, once a minimum is bracketed, the bracket, and each warning is given under its documented condition.""",
  "histories inputs", "every history of function values and slopes",
  "Tests only observe that whole optimizations terminate: the four interpolation cases and the safeguards are nearly interchangeable on the sample problems.",
  "lnsrch.c", [("reverse-communication line search of More and Thuente and its safeguarded step", "src/lnsrch.c")],
  "one iteration with arbitrary value and slope (magnitude below 100) as the first or the second one (then after a first iteration on a fixed family of parabolas); dyadic tolerances, idealized arithmetic.")

P("P14", "Limited-memory variable metric optimizers obey the reverse communication protocol",
  """Through any history of calls of the limited-memory methods (L-BFGS, VMLMB, BLMVM) and any outcome of the line search: the pending task is the one last returned; an evaluation is requested first, then a new or final iterate is
  delivered exactly when the line search ends successfully, final exactly when the norm of the projected gradient is within the tolerance; the variables change only when an evaluation
  is requested; the gradient is never written; failures of the line search are reported, errors are permanent until a restart, and the numbers of evaluations, iterations and restarts count exactly these events; starting again works in any state.""",
  "histories faults", "every sequence of calls and of restarts, every value of the reductions over vectors, every outcome of the line search, with or without constraints",
  "Tests only follow the successful path of whole optimizations.",
  "vmlmb.c optimpack.h", [("reverse communication of the limited-memory methods", "src/vmlmb.c")],
  "vectors, feasible set and line search are abstract (arbitrary results); 5 calls for L-BFGS, 4 otherwise, one correction; thorough: 5 calls, restart before any of them, arbitrary objective values.")

P("P15", "Bounded optimizers only evaluate the objective function at feasible points",
  """With bounds (scalar, array, one sided or both), every point at which VMLMB or BLMVM asks for the objective function and every iterate it delivers satisfies the bounds exactly,
  rounding errors included, whatever the starting point, the function and the gradients.""",
  "inputs histories", "every starting point, bounds, function values and gradients; every history of line searches",
  "Tests use a few bounds on smooth functions; the violation by one rounding error of a bound was never seen.",
  "vmlmb.c algebra.c simple_vector.c optimpack-private.h", [("projection of the variables", "src/vmlmb.c"), ("box projection", "src/simple_vector.c")],
  "structural argument with abstract vectors (4 calls) and bit-precise runs: 1 variable, 2 calls, gradients in {-1,0,1}, single and double precision.")

P("P16", "Limited-memory optimizers stop exactly when the projected gradient is small enough",
  """The limited-memory optimizers deliver a final iterate exactly when the Euclidean norm of the gradient restricted to the directions in which the variables can move
  is at most max(gatol, grtol*norm at the starting point), and report that norm.""",
  "inputs", "all gradients, all tolerances, variables at or inside their bounds, at the starting point and later",
  "Tests only check that runs terminate; stopping too early, too late, or on the unprojected gradient goes unseen.",
  "vmlmb.c", [("convergence test", "src/vmlmb.c")],
  "2 variables, relative tolerances in {0, 1/4, 2}, arbitrary absolute tolerance; first and second delivered points; idealized arithmetic.")

P("P17", "Limited-memory search directions, restarts and steps follow the BFGS recurrence",
  """The search direction of L-BFGS, VMLMB and BLMVM is minus the product of the gradient by the BFGS approximation of the inverse Hessian built from the last M pairs of variable and gradient differences
  (restricted to the free variables for VMLMB, projected gradients for BLMVM) having positive curvature; when this is not a sufficient descent direction, the method restarts along the steepest descent; the initial step, its limits, the slope given to the line search
  and the trial points are the documented functions of these quantities.""",
  "inputs histories", "every gradient and objective value after any of the given histories of corrections, for every memory",
  "A wrong direction which still descends makes tests converge a little more slowly; they cannot tell it from the right one.",
  "vmlmb.c", [("two-loop recursion and its circular memory", "src/vmlmb.c"), ("initial step and restarts", "src/vmlmb.c")],
  "2 variables, 1 or 2 previous corrections (3 for L-BFGS; thorough: 3 with memory 2 and more gradients), one arbitrary component of the last gradient (two for L-BFGS after 1 correction); idealized arithmetic; the oracle updates dense matrices.")

P("P18", "The nonlinear conjugate gradient optimizer obeys the reverse communication protocol",
  """Through any history of calls and any outcome of the line search: the pending task is the one last returned; an evaluation is requested first, a new or final iterate is delivered exactly when the line search
  ends successfully, final exactly when the gradient is within the tolerance; the variables change only when an evaluation is requested and the gradient is never written;
  failures are reported and permanent until a restart; the numbers of evaluations, iterations and restarts count exactly these events.""",
  "histories faults", "every sequence of calls and of restarts, every value of the reductions over vectors, every outcome of the line search",
  "Tests only follow the successful path of whole optimizations.",
  "nlcg.c optimpack.h", [("reverse communication of the conjugate gradient methods", "src/nlcg.c")],
  "vectors and line search are abstract (arbitrary results); 5 calls, 2 update formulae (thorough: 8, restart before any call, arbitrary objective values).")

P("P19", "Nonlinear conjugate gradient methods compute their published parameter, direction, step and convergence test",
  """For each of the eight formulae, the conjugate gradient parameter and the search direction are the published ones (clipped to nonnegative values with Powell's option);
  when the direction is not a sufficient descent, the method restarts along the steepest descent; the initial step is Shanno and Phua's when asked, the one predicted by the lower bound of the function when given, and otherwise the documented one;
  the slope and step limits given to the line search, the trial points and the convergence test are consistent with these.""",
  "inputs histories", "every gradient after given histories, every formula and option, zero or nonzero objective values, with or without lower bound",
  "Every formula converges on the sample problems even when wrong; options such as fmin were never tested (it was ignored).",
  "nlcg.c", [("update formulae", "src/nlcg.c"), ("initial step and restarts", "src/nlcg.c")],
  "2 variables, up to 2 previous steps with given gradients then one arbitrary component (two for the first direction); descent threshold for 2 formulae; idealized arithmetic.")


P("P20", "Optimizer constructors accept exactly the valid options",
  """Default options are valid and options are checked as documented: opk_check_nlcg_options, opk_check_vmlmb_options and the constructors accept an option set exactly when every field lies in its documented range,
  NaN and infinities included; what is refused leaves nothing allocated and sets errno; accepted options are the ones in force (and read back), never modified by the caller later on.""",
  "inputs", "all values of all options",
  "Tests only use valid options.",
  "nlcg.c vmlmb.c", [("options of the conjugate gradient optimizer", "src/nlcg.c"), ("options of the limited-memory optimizers", "src/vmlmb.c")],
  "3 variables; bit-precise.")

P("P21", "The simple driver is equivalent to the optimizer it drives",
  """opk_new_optimizer accepts exactly the valid combinations of algorithm, type, size, bound types and addresses (EINVAL or EFAULT otherwise, with nothing leaked); then opk_start and opk_iterate yield,
  on caller arrays which may be different at each call, exactly the tasks, statuses, counts, steps and variables of the underlying optimizer called with vectors and box set built from the same data;
  static bounds are copied and volatile ones are used in place; queries of a NULL driver are harmless.""",
  "inputs histories", "all integer arguments; every outcome of the line search, every objective value along a history",
  "Tests only compare converged solutions for a single storage of the bounds.",
  "driver.c", [("simple driver", "src/driver.c")],
  "up to 3 variables (arguments), 2 variables and 6 calls with given gradients (equivalence; 3 or 5 calls with the default line search).")

P("P22", "Univariate minimization brackets the minimum within its limits",
  """opk_fmin and its variants only evaluate the function inside the given interval and between the bracket end-points, at most the given number of times; they return the best point seen together with a bracket made of evaluated points (or end-points)
  which contains it, as narrow as required on convergence; the three interfaces (plain, with context, reverse communication) make the same evaluations and yield the same results.""",
  "inputs histories", "every sequence of function values",
  "Tests minimize a few smooth functions.",
  "fmin.c", [("Brent's method with exclusive or inclusive bounds", "src/fmin.c")],
  "up to 5 evaluations of arbitrary values (thorough: 7), given intervals and precisions; bit-precise with the bounds, idealized arithmetic for the bracket.")

P("P29", "Linear conjugate gradients follow their recurrence",
  """Each step of opk_plcg_[fd] and opk_lcg_[fd], preconditioned or not, requests the right product and leaves the solution, residuals, direction and scalars given by the conjugate gradient recurrence;
  the residuals are those of the current solution; the solution is exact after as many iterations as variables; non positive-definite operators are reported and wrong states are rejected.""",
  "inputs histories", "every right hand side, preconditioned or not, for given matrices",
  "Tests solve one well conditioned system.",
  "lcg.c", [("reverse communication linear conjugate gradients", "src/lcg.c")],
  "2 variables, 4 given matrices (positive definite and indefinite), one arbitrary component of the right hand side; idealized arithmetic.")

P("P30", "Trust region conjugate gradients never leave the trust region",
  """Each step of opk_trcg_[fd] yields a solution inside the trust region, which is the conjugate gradient iterate as long as it is inside and otherwise lies on the boundary along the current direction (as well as for non positive curvature), the residuals being those of this solution;
  a non positive radius and wrong states are rejected.""",
  "inputs histories", "every right hand side, with and without preconditioner, for given matrices and radii",
  "Tests solve one well conditioned system, with one radius.",
  "lcg.c", [("Steihaug's trust region conjugate gradients", "src/lcg.c")],
  "2 variables, 4 given matrices, one arbitrary component of the right hand side, given radii (2 and 1/2); idealized arithmetic.")

P("P31", "COBYLA runs stay within their limits and all its interfaces make the same run",
  """COBYLA first evaluates the starting point and the vertices of a simplex of size rhobeg, then points inside the trust region, never more than maxfun of them; it returns an evaluated point with its objective value and constraint violation
  (the best one for an unconstrained problem stopped by maxfun) and the number of evaluations, and prints nothing unless asked to. Maximizing, scaling the variables and the reverse communication interface (also after a restart)
  evaluate the same points and give the same result; rho never increases and ends at rhoend on success; a finished context refuses to iterate.""",
  "inputs histories", "objective values and constraint values along the run, final radii and limits on the number of evaluations",
  "Tests run a few known problems to convergence and only look at the last point.",
  "cobyla.c", [("iterations and reverse communication", "src/cobyla.c"), ("scaling and maximization", "src/cobyla.c")],
  "1 variable with 0 to 2 constraints (5 or 4 evaluations, all values of the objective function without constraints, of its first value otherwise, the other values being forked among given ones; idealized arithmetic); 2 variables with 0 or 1 constraint, 8 evaluations, given values only (bit-precise).")

P("P32", "NEWUOA runs stay within their limits and all its interfaces make the same run",
  """NEWUOA evaluates the documented points of its initial model, never more than maxfun points, and returns the best evaluated point with its value, even when stopped before the model is complete.
  Maximizing, scaling the variables and the reverse communication interface (also after a restart) evaluate the same points and give the same result; rho never increases and ends at rhoend on success; a finished context refuses to iterate; nothing is printed unless asked to.""",
  "inputs histories", "every starting point and all objective values while the model is built; perturbed values of a given function afterwards",
  "Tests run one problem to convergence and only look at the last point.",
  "newuoa.c", [("initial model, iterations and reverse communication", "src/newuoa.c")],
  "2 variables, 4 to 6 points in the model; less evaluations than this with arbitrary values, or 16 evaluations of a given function perturbed by one of 3 values at 4 evaluations (forked, not symbolic); bit-precise.")

P("P33", "BOBYQA never evaluates a point outside the bounds",
  """BOBYQA only evaluates points which satisfy the bounds exactly, also when the variables are scaled by factors which are not powers of two and when the bounds are not representable after scaling; the initial points are the documented ones where the bounds leave room;
  too close bounds are refused before any evaluation, the variables being unchanged; at most maxfun points are evaluated, the best of which is returned with its value. Maximizing and scaling evaluate the same points and give the same result.""",
  "inputs histories", "every bound or starting point and all objective values while the model is built; perturbed values of a given function afterwards",
  "Tests run one problem to convergence, with bounds on exact values and without looking at the evaluated points.",
  "bobyqa.c", [("initial points and bounds", "src/bobyqa.c"), ("scaling", "src/bobyqa.c")],
  "2 variables, 4 to 6 points in the model; less evaluations than this with arbitrary values, or 16 evaluations of a given function perturbed by one of 3 values at 4 evaluations (forked, not symbolic); scaling by 10 and 7 with 256 bounds each; bit-precise.")

P("P34", "Derivative free optimizers refuse exactly the invalid arguments",
  """COBYLA, NEWUOA and BOBYQA refuse a number of variables, constraints or interpolation points out of range, trust region radii which do not obey 0 < rhoend <= rhobeg (NaN included) and scaling factors which are not positive and finite,
  with the status of the first wrong argument, before any evaluation and leaving the variables untouched; valid arguments yield evaluations. cobyla_create and newuoa_create accept exactly the valid arguments, set errno to EINVAL or ENOMEM otherwise and leak nothing;
  null contexts and null variables are reported as such.""",
  "inputs faults", "all dimensions, radii and scaling factors; allocation failures",
  "Tests only use valid arguments.",
  "cobyla.c newuoa.c bobyqa.c", [("checks of the arguments", "src/cobyla.c src/newuoa.c src/bobyqa.c")],
  "one kind of argument (dimensions, radii, scaling) is arbitrary at a time, except for the constructors; up to 3 variables, 2 constraints when valid; bit-precise.")
