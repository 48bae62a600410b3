import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None))
    P.append(d)
ALG="fbstab/fbstab_algorithm-impl.h"; ALGH="fbstab/fbstab_algorithm.h"
C="fbstab/components/"
p("C01","Residuals are exactly the KKT residuals of the QP",
 "Evaluating a residual at a primal-dual point stores exactly the documented vectors: (Hz+f+G'l+A'v, h-Gz, min(y,v)) for the natural residual, the same with alpha*min(y,v)+(1-alpha)*max(0,y)*max(0,v) for the penalized one, and the proximal residual with sigma*(z-zbar), sigma*(l-lbar) added and phi_alpha(y+sigma*(v-vbar), v) in the last block. The norms and the merit value reported right after an evaluation, a fill or a negation are those of the stored vectors (merit = half the squared norm). Negation flips the sign of every entry, and evaluation changes nothing but the residual itself.",
 ["inputs","histories"],"every problem size, problem data, points x and xbar, sigma and alpha, and every earlier content of the residual object",
 "The unit tests compare two residuals at one fixed small problem with numbers; they cannot cover all sizes, all data or the reuse of a residual object, and never look at norms after fill or negate.",
 [C+"full_residual.cc",C+"full_residual.h",C+"abstract_components.h"],
 [("NaturalResidual / PenalizedNaturalResidual / InnerResidual",C+"full_residual.cc"),("cached norms",C+"full_residual.cc")],
 [("z_, l_, v_","stationarity, equality and complementarity blocks",C+"full_residual.h"),("znorm_, lnorm_, vnorm_","cached block norms",C+"full_residual.h")],["FullResidual accessors, Norm(), Merit()"])
p("C02","Problem operators act as the QP's matrices and vectors",
 "For both the dense and the optimal-control representation, y <- a*M*x+b*y with M one of H, G, G', A, A', and y <- y+a*w with w one of f, h, b, compute exactly that for the matrices and vectors of the documented QP, for every scalar a and b (with b = 0 the old y is not read), and write nothing but y. In the optimal-control case H, G, A, f, h, b are the block matrices assembled from the stage data (dynamics, costs, constraints, initial state), so G and G' and A and A' are mutual transposes. The forcing norm reported is the Euclidean norm of (f,h,b).",
 ["inputs"],"every horizon and dimension, every stage data, every x and y and every pair of scalars (a,b)",
 "The MPC unit tests only try one 2-stage problem with a in {1,-1,2.2} for some operators; the dense operators are not unit tested; no test covers all a, b, N, nx, nu, nc.",
 [C+"mpc_data.cc",C+"mpc_data.h",C+"dense_data.cc",C+"dense_data.h"],
 [("gemvH/gemvG/gemvGT/gemvA/gemvAT/axpyf/axpyh/axpyb",C+"mpc_data.cc"),("gemv*/axpy*",C+"dense_data.cc"),("ForcingNorm",C+"mpc_data.h")],(),["Data interface"])
p("C03","The dense Newton step solves the Newton system",
 "After the dense linear solver reports a successful initialization at (x, xbar, sigma), solving with right-hand side (rz, rl, rv) returns dz, dl, dv with (H+sigma*I)dz+G'dl+A'dv = rz, -G dz+sigma*dl = rl and -C A dz+D dv = rv, where C = diag(gamma), D = diag(mu+sigma*gamma) hold the generalized gradient of the penalized Fischer-Burmeister function at (y+sigma*(v-vbar), v). The step's constraint margin is set to b - A dz. Neither the right-hand side nor the points used for initialization are modified.",
 ["inputs","histories"],"every nz>0, nl>=0, nv>0, symmetric H, data, points, sigma>0 and right-hand side (real arithmetic, factorization successful)",
 "The unit test solves one 2-variable system and compares numbers; it has no equality constraints and cannot show the elimination is algebraically right for all inputs.",
 [C+"dense_cholesky_solver.cc",C+"dense_cholesky_solver.h"],
 [("Initialize: K = [E G'; G -sI], E = H+sI+A'Gamma A",C+"dense_cholesky_solver.cc"),("Solve: elimination and recovery",C+"dense_cholesky_solver.cc")],(),["LinearSolver interface"])
p("C04","The Riccati Newton step solves the Newton system for any horizon",
 "After the optimal-control linear solver reports a successful initialization at (x, xbar, sigma), solving with right-hand side (rz, rl, rv) returns dz, dl, dv that satisfy, with the QP matrices assembled from the stage data, (H+sigma*I)dz+G'dl+A'dv = rz, -G dz+sigma*dl = rl and -C A dz+D dv = rv, for every horizon and stage dimensions. C and D hold the generalized gradient of the penalized Fischer-Burmeister function as in the dense case, and the step's constraint margin is b - A dz. Neither the right-hand side nor the initialization points are modified.",
 ["inputs","histories"],"every N, nx, nu, nc >= 1, stage data with symmetric stage Hessians, points, sigma>0 and right-hand side (real arithmetic, factorizations successful)",
 "The unit test solves one system of horizon 2 and only checks that the residual is small numerically; the recursion has to be right for every horizon and dimension.",
 [C+"riccati_linear_solver.cc",C+"riccati_linear_solver.h",C+"mpc_data.cc"],
 [("matrix recursion in Initialize",C+"riccati_linear_solver.cc"),("vector recursions in Solve",C+"riccati_linear_solver.cc")],
 [("L_, M_, SG_, SM_, AM_, P_","factors of the matrix recursion",C+"riccati_linear_solver.h")],["LinearSolver interface"])
p("C05","A SUCCESS exit certifies the tolerance it was asked for",
 "If a solve returns SUCCESS then either the penalized natural residual norm of the returned point (never a NaN) is at most abs_tol + rel_tol*(1+||(f,h,b)||), or at least one proximal step was taken and the last one was no longer than stall_tol. In every exit with SUCCESS or MAXITERATIONS the reported residual is the penalized natural residual norm of the point that is written back, and the reported initial residual is that of the supplied guess. A point meeting the tolerance at the start of an outer iteration is returned at once, so a guess that already satisfies it comes back unchanged with zero iterations.",
 ["inputs","histories","configurations"],"every problem, initial guess, option setting and call history, including guesses or data that produce NaN",
 "End-to-end tests check a handful of solved problems with a loose tolerance; they cannot see what happens on stall exits, budget exits, NaN data or unusual tolerances.",
 [ALG,ALGH,C+"full_residual.cc",C+"full_variable.cc"],
 [("main proximal loop and its exits",ALG),("PrepareOutput / WriteVariable",ALG)],
 [("combo_tol_","combined tolerance",ALGH)],["SolverOut and the returned variable"])
p("C06","Infeasibility verdicts come with a valid certificate",
 "If a solve reports dual infeasibility, the returned z is nonzero (infinity norm w > 1e-14) with max(Az) <= tol*w, |Gz| <= tol*w, |Hz| <= tol*w (infinity norms) and f'z < 0; if it reports primal infeasibility, the returned (l,v) satisfies |A'v+G'l| <= tol*u, v >= -tol*u and b'v+h'l < 0 with u = max(|l|,|v|), where tol is the infeasibility tolerance; if it reports both, both hold. Conversely a proximal step satisfying exactly one, or both, of these tests is reported as such when checking is enabled. With checking disabled no infeasibility verdict is ever returned.",
 ["inputs","histories","configurations"],"every problem, step vector, tolerance and option setting, including infeasible starts and NaN",
 "Tests contain one infeasible and one unbounded problem plus two hand-made certificates; whether a verdict can be wrong for some other vector or guess is a statement about all inputs.",
 [C+"full_feasibility.cc",ALG],
 [("CheckFeasibility",C+"full_feasibility.cc"),("CheckForInfeasibility and verdict exit",ALG)],(),["FullFeasibility::CheckFeasibility, SolverOut.eflag and returned variable"])
p("C07","The returned margin is b - Az and the returned duals are nonnegative",
 "Whatever way a solve ends by returning SUCCESS or MAXITERATIONS, the y it writes back equals b - A z for the z it writes back, and every iterate kept by the solver has this property. Unless the point written back is the supplied guess itself, every inequality dual written back with such an exit is nonnegative. On an infeasibility verdict the y written back is b - A z for the difference direction z it returns.",
 ["inputs","histories","configurations"],"every problem, guess (including guesses with a wrong y), option setting and exit",
 "Tests look at z and v of a few solved problems and never compare y with b - Az; the margin is maintained incrementally over arbitrarily many updates.",
 [C+"full_variable.cc",ALG],
 [("axpy with margin correction, InitializeConstraintMargin, Copy, ProjectDuals",C+"full_variable.cc"),("CopyIntoVariable / WriteVariable",ALG)],
 [("y_","constraint margin",C+"full_variable.h")],["returned variable"])
p("C08","Every solve terminates within its iteration budgets",
 "A solve that returns reports at most max_newton_iters Newton iterations and at most max_prox_iters proximal iterations, each subproblem performs at most max_inner_iters Newton iterations and each line search at most max_linesearch_iters trials, so every solve terminates. The reported counts equal the number of Newton systems solved and of proximal updates completed in this call. A MAXITERATIONS exit happens only when the Newton or the proximal budget is used up.",
 ["inputs","histories","configurations"],"every problem (including NaN data), guess, option setting and call history",
 "No test exercises the budgets; termination and exact counting for all inputs is a statement about all loop executions.",
 [ALG,ALGH],[("loop guards and counters",ALG)],[("newton_iters_, prox_iters_","iteration counters",ALGH)],["SolverOut"])
p("C09","Option sanitization yields usable, stable options",
 "Whatever options are supplied, including NaN and infinities, the options in effect afterwards are numbers inside the documented ranges with inner_tol_min <= inner_tol_max and sigma_min <= sigma0 <= sigma_max, and all iteration limits at least 1. Settings that are already valid are taken over unchanged, field by field, so sanitization is idempotent and the default and reliable presets pass through as they are. No accepted option setting makes a solve fail with an internal error.",
 ["configurations","inputs"],"every combination of option values",
 "No test supplies out-of-range, contradictory or NaN options.",
 [ALG,ALGH,"tools/utilities.h"],[("ValidateOptions, DefaultParameters, ReliableParameters, UpdateParameters",ALG),("saturate","tools/utilities.h")],(),["CurrentParameters, UpdateOptions"])
p("C10","Accepted steps satisfy the backtracking line search rule",
 "Every inner update moves the iterate by t times the Newton direction with t = beta^j for some 0 <= j <= max_linesearch_iters, and j is the first trial whose merit is at most m0 - 2*t*eta*(current merit), or j = max_linesearch_iters when none qualifies. Here m0 is the current merit if the search is monotone, and the maximum of the current and at most four previous merits of the same subproblem otherwise. All merits are those of the proximal residual of the current subproblem.",
 ["inputs","histories","configurations"],"every problem, iterate, option setting and iteration",
 "The line search is internal; the tests only see that solves converge, which a wrong acceptance rule usually does not prevent.",
 [ALG],[("linesearch loop, InsertMerit, MaxMerit",ALG)],[("merit_buffer_","recent merits",ALGH)],["sequence of residual evaluations and updates"])
p("C11","Malformed problems are rejected with an exception, valid ones accepted",
 "Constructing solvers or their workspaces with nonpositive sizes (no equality constraints are fine), and solving with data or guesses whose dimensions (including every sequence length and matrix shape) are inconsistent with one another or with the solver, throws std::runtime_error and leaves the guess untouched; null pointers, unlinked data and arguments of the wrong size given to the data operators are rejected the same way where documented. Giving the sizes as a vector is the same as giving them one by one. Every consistently sized problem is accepted. Nothing malformed reaches the numerical code.",
 ["inputs","configurations"],"every combination of dimensions and shapes",
 "Tests only check one null-data and one size case; the accept/reject boundary is a statement about all dimension combinations.",
 [C+"mpc_data.cc",C+"dense_data.h","fbstab/fbstab_dense.h","fbstab/fbstab_dense.cc","fbstab/fbstab_mpc.h","fbstab/fbstab_mpc.cc",C+"full_variable.cc",C+"full_residual.cc",C+"full_feasibility.cc",C+"dense_cholesky_solver.cc",C+"riccati_linear_solver.cc"],
 [("ValidateInputs",C+"mpc_data.cc"),("DenseData constructor",C+"dense_data.h"),("ValidateInputs / ValidateInputSizes","fbstab/fbstab_dense.h")],(),["constructors and Solve"])
p("C12","Matrix sequences index column-major and check bounds",
 "In an owned or mapped sequence of len matrices of size nr x nc, entry (i,j) of matrix k is the storage element k*nr*nc + j*nr + i, reads and writes through it touch only that element, and all elements of matrices 0..len-1 lie inside the storage. Asking for any other k throws std::out_of_range, and constructing with invalid sizes (or a null mapping) throws std::runtime_error. A mapped view of an owned sequence has the same sizes and elements.",
 ["inputs"],"every length, shape, index triple and content",
 "Only a few fixed sequences are used by the tests.",
 ["tools/matrix_sequence.h"],[("operator(), constructors","tools/matrix_sequence.h")],(),["MatrixSequence, MapMatrixSequence"])
p("C13","Solves do not depend on earlier solves",
 "The point written back and every field of the summary except the solve time are a function of the problem data, the guess's z, l, v and the options in effect only: not of what the solver object solved before, of the guess's y, or of uninitialized memory. The same holds for each component: evaluating a residual, checking feasibility or computing a Newton step gives results independent of earlier contents of its workspaces.",
 ["histories","inputs"],"every sequence of earlier solves and every workspace content",
 "Tests use a fresh solver per problem; dependence on stale workspace shows only for particular histories.",
 [ALG,C+"full_residual.cc",C+"full_feasibility.cc",C+"dense_cholesky_solver.cc",C+"riccati_linear_solver.cc",C+"dense_data.cc"],
 [("initialization phase of Solve",ALG),("workspace reset in components",C+"full_feasibility.cc")],(),["Solve called repeatedly"])
p("C14","A solve modifies only its in/out arguments and only when it returns",
 "Solving never writes to the problem data, never changes the options in effect, and changes the guess only by writing the final z, l, v and y when it returns; if a solve throws, the guess is as it was. Updating options changes nothing but the options.",
 ["inputs","histories","configurations"],"every problem, guess, option setting and exit, normal or by exception",
 "Tests do not compare data before and after, nor what happens to the guess when an exception is thrown.",
 [ALG,"fbstab/fbstab_dense.h","fbstab/fbstab_mpc.h"],[("WriteVariable at exits only",ALG)],(),["Solve, UpdateOptions"])
p("C15","The penalized Fischer-Burmeister function and its gradient are right",
 "The scalar function used in the proximal residual is phi(a,b) = alpha*(a+b-sqrt(a^2+b^2)) + (1-alpha)*max(0,a)*max(0,b), which vanishes exactly when a >= 0, b >= 0 and ab = 0. In both linear solvers the gradient used is the exact gradient of that function wherever sqrt(a^2+b^2) >= 1e-13 and an element of its generalized gradient (up to rounding) closer to the origin. For 0 < alpha < 1 and sigma > 0 both gradient entries are nonnegative and mu+sigma*gamma is positive, so no division by zero occurs in forming or solving the Newton system.",
 ["inputs","configurations"],"every pair (a,b), alpha in (0,1) and sigma > 0",
 "Tests check the gradient at a few points; correctness near the kinks and for all arguments is a statement over the reals.",
 [C+"full_residual.cc",C+"dense_cholesky_solver.cc",C+"riccati_linear_solver.cc"],[("pfb",C+"full_residual.cc"),("PFBGradient",C+"dense_cholesky_solver.cc"),("PFBGradient",C+"riccati_linear_solver.cc")],(),["residual and linear solver"])
p("C16","Display settings only affect printing",
 "With display off nothing is printed; with FINAL only the closing summary is printed; and the printed numbers are the iteration counts, residual norms and tolerance of the solve, whatever the solver did before. The point returned and the summary are the same for every display setting, and all output goes through the supplied printer.",
 ["configurations","inputs"],"every display level, problem and option setting",
 "Tests run with the default display level only.",
 [ALG,"tools/output_stream.h"],[("Print* helpers",ALG)],(),["OutputStream::Print"])
p("C17","Iterates form a vector space with deep copies",
 "Copying an iterate makes the target equal in all four components and independent of the source; adding a multiple a of another iterate gives z+a*z', l+a*l', v+a*v' and the margin of the new z; filling sets z, l and v to the value and the margin accordingly; projecting replaces v by max(v,0) and nothing else; and the norm is sqrt(|z|^2+|l|^2+|v|^2). None of these modifies its argument. Filling a user's variables sets all of z, l, v and y to the value.",
 ["inputs","histories"],"every size, content, scalar and problem data",
 "Tests check these on one fixed size with constant vectors.",
 [C+"full_variable.cc",C+"full_variable.h"],[("Copy, axpy, Fill, ProjectDuals, Norm",C+"full_variable.cc")],(),["FullVariable"])
p("C18","Each Newton step is taken on the current proximal subproblem",
 "Every Newton system is set up at the current inner iterate with the last accepted outer iterate as proximal centre and the regularization sigma0 in effect, and its right-hand side is the negated proximal residual at that same point, centre, sigma and alpha. A subproblem is left early only when its residual is at most the inner tolerance and the outer residual has decreased, or its residual is at most the minimum inner tolerance, or a budget is exhausted. The next outer iterate is the subproblem's result with its inequality duals projected onto the nonnegative orthant.",
 ["inputs","histories","configurations"],"every problem, option setting and iteration",
 "The coupling between residual, solver and centre is internal; tests see only final convergence.",
 [ALG],[("SolveProximalSubproblem",ALG)],(),["component calls made by a solve"])
p("C19","Consistent problems never hit a size assertion or bad index",
 "For every consistently sized problem, of any dimensions including no equality constraints, every vector and matrix operation performed by the solver has conforming dimensions, every element and stage access is in range, and no operation reads or writes overlapping operands in a way that changes its result. Hence no solve aborts, reads outside its data or corrupts memory.",
 ["inputs","histories"],"every problem size, option setting and iteration",
 "Tests run a few sizes; conformity for all sizes is a universally quantified statement.",
 [C+"riccati_linear_solver.cc",C+"dense_cholesky_solver.cc",C+"mpc_data.cc",C+"dense_data.cc",C+"full_residual.cc",C+"full_variable.cc",C+"full_feasibility.cc",ALG],[("workspace sizing in constructors",C+"riccati_linear_solver.cc")],(),["all numerical code"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); assert len(x['title'])<=80,(x['id'],len(x['title']))
    print(x['id'],x['statement'].count('. ')+1)
