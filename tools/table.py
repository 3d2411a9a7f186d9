BFF = [U + "BF.cc", U + "BF.h", U + "BF_Py.py"]
AI = "abstract interpretation of both sources to closed-form value terms, compared with the mathematical definition"
NOTE = "Decides the algebraic content of every path for symbolic sizes; real arithmetic, no rounding. Shapes outside the analysable fragment are reported as undecided in the evidence and are not claimed."

prop(
    "P01",
    "Polynomial bases evaluate the named polynomials and all their derivatives",
    "For every number of functions, every set of points and every derivative order, each column returned by the Chebyshev, Legendre, Laguerre and both Hermite bases is the correspondingly named polynomial of that degree, or exactly its requested derivative with respect to the problem variable. This holds for the compiled and for the pure-Python implementation.",
    ["inputs", "configurations"],
    "all numbers of functions m >= 1, all points, all derivative orders d >= 0, both implementations, all five families",
    "The tests evaluate a handful of degrees, points and derivative orders up to about eight; recurrences with a wrong start, bound or order-dependent factor agree on those and differ elsewhere.",
    BFF,
    [("three-term recurrences for values and derivatives", U + "BF.cc CP/LeP/LaP/HoPpro/HoPphy::Hint, RecurseDeriv; BF_Py.py _Hint"), ("domain map and chain-rule factor", U + "BF.cc BasisFunc::H; BF_Py.py BasisFunc.H")],
    AI,
    note=NOTE,
)
prop(
    "P02",
    "Fourier and random-feature bases evaluate their activation and derivatives",
    "For every number of functions, every set of points and every derivative order, each column of the Fourier basis is the corresponding constant, cosine or sine, and each column of a random-feature basis is its activation applied to weight times point plus bias, differentiated the requested number of times. Both implementations agree.",
    ["inputs", "configurations"],
    "all m, all points, all weights and biases, all derivative orders, six families, both implementations",
    "The tests sample small orders and a few random weights; sign periodicity, order-specific tables and chain factors can be wrong at orders they never request.",
    BFF,
    [("period-four derivative table of the Fourier basis", U + "BF.cc FS::Hint; BF_Py.py FS._Hint"), ("order-specific derivative tables of the activations", U + "BF.cc ELM*::Hint"), ("repeated automatic differentiation", U + "BF_Py.py ELM*._Hint")],
    AI,
    note=NOTE,
)
prop(
    "P03",
    "The domain map, its derivative factor and column removal are exact",
    "Asking a one-input basis for values on the problem domain returns the basis evaluated at the affinely mapped points, times the map's slope raised to the derivative order, with exactly the columns listed for removal left out and the others in their original order unless the full set is requested. Points given as a vector or as a column give the same matrix, and the entry used by compiled traces gives the same as the direct call.",
    ["inputs", "configurations"],
    "all domains, point sets, removal lists, derivative orders, full and reduced sets, eleven families, both implementations and both native entry points",
    "The tests remove one or two fixed columns on fixed domains; the removal loop, the strides and the factor depend on sizes that tests sample at single values.",
    BFF,
    [("mapping constants", U + "BF.cc BasisFunc constructor; BF_Py.py BasisFunc.__init__"), ("matrix assembly and removal", U + "BF.cc BasisFunc::H, BasisFunc::xla; BF_Py.py BasisFunc.H")],
    AI,
    note=NOTE,
)
prop(
    "P04",
    "Multi-input product bases contain every admissible product exactly once",
    "For every number of inputs, degree and removal table, the matrix of a multi-input Chebyshev, Legendre or Fourier basis has one column for each combination of one-input functions whose indices add up to at most m-1 and of which, unless the full set is requested, at least one index is not in the removal row of its input; the columns come in one fixed order and each holds the product of the one-input functions at the mapped points, differentiated as requested per input with the matching chain factors. The advertised numbers of functions are the numbers of those columns, and compiled and pure-Python versions agree.",
    ["inputs", "configurations"],
    "all numbers of inputs, m, removal tables, per-input derivative orders, full and reduced sets, three families, both implementations, both native entry points",
    "The tests use two inputs, one removal table and a few derivative combinations; the enumeration recurses once per input and its strides depend on all sizes.",
    BFF,
    [("enumeration of index vectors", U + "BF.cc nBasisFunc::NumBasisFunc, RecurseBasis; BF_Py.py nBasisFunc._NumBasisFunc, H"), ("per-input evaluation and layout", U + "BF.cc nBasisFunc::nHint")],
    AI + "; induction over the recursion level",
    note=NOTE,
)
prop(
    "P05",
    "Multi-input random-feature bases evaluate their activation and derivatives",
    "For every number of inputs and every combination of derivative orders, column k of a multi-input random-feature basis is its activation at the weighted sum of the mapped inputs plus bias k, differentiated as requested in each input with the matching weights and chain factors. Columns listed for removal are left out, the rest keep their order, weights and biases that were set are exactly the ones used and read back, and compiled and pure-Python versions agree.",
    ["inputs", "configurations"],
    "all points, weights, biases, derivative orders, removal lists and five activations; any number of inputs for the compiled version, one to three for the pure-Python one",
    "The tests use two inputs and a few orders; the order-specific tables, strides over inputs and the removal loop are not settled by those.",
    BFF,
    [("evaluation tables", U + "BF.cc nELM*::nElmHint; BF_Py.py nELM*._nHint"), ("map and removal", U + "BF.cc nELM::nHint; BF_Py.py nELM.H"), ("weights and biases", U + "BF.cc nELM::setW, setB, getW, getB; BF_Py.py nELM.w, nELM.b")],
    AI,
    note=NOTE,
)

UT = U + "TFCUtils.py"
EQ = "abstract interpretation of the Python source to value terms over uninterpreted operators (residual, Jacobian, pseudo-inverse, tracing), compared with the specified term under arbitrary meanings of those operators"
prop(
    "P06",
    "TFCDict and TFCDictRobust behave as one vector split over named entries",
    "For every set of keys and entry shapes, turning a TFCDict or TFCDictRobust into a flat array and back (and a flat array into a dictionary and back) is the identity, with the entries in the order in which the keys were inserted, also after update, += and a pytree round trip. Adding or subtracting a dictionary works key by key and a flat array slice by slice, for JAX and NumPy data alike; + and - return a new dictionary and leave both operands unchanged, += and -= change only the left one. Flattening as a pytree and rebuilding gives an equal dictionary of the same class, and onesRobust/zerosRobust return ones/zeros of the same structure.",
    ["inputs", "configurations", "histories"],
    "all keys, entry sizes and shapes (up to three entries, symbolic sizes), both classes, dictionary and array operands, JAX and NumPy values",
    "The tests add one pair of small dictionaries of JAX arrays; slice tables, key order and aliasing depend on the sizes, order and kind of the entries.",
    [UT],
    [("slice table and conversion", UT + " TFCDict.getSlices, toArray, toDict and the same of TFCDictRobust"), ("arithmetic", UT + " __add__, __sub__, __iadd__, __isub__"), ("pytree registration", UT + " register_pytree_node calls, onesRobust, zerosRobust")],
    EQ,
    note="Up to three entries with symbolic sizes. Assigning a new key or an entry of another length without update() is outside the statement.",
)
prop(
    "P07",
    "LS and LsClass return the least-squares solution of the linear problem",
    "For every residual that is affine in the unknowns, LS and LsClass.run return the least-squares solution in the same structure as the unknowns (array, TFCDict or TFCDictRobust), whatever the initial guess of run, the method, the further arguments of the residual, whether a Jacobian is supplied, whether the solve is timed, which arguments are declared constant and in which order, and however often run was called before. The caller's guess, arguments, list of constant arguments and earlier results are left unchanged.",
    ["inputs", "configurations", "histories"],
    "all affine residuals, three kinds of unknowns, both methods, timed or not, up to four further arguments of which any may be constant, user Jacobian or not, repeated runs",
    "The tests solve one problem per kind with one method; combinations of options, argument order and repeated use are not sampled.",
    [UT],
    [("function form", UT + " LS"), ("class form", UT + " LsClass.__init__, LsClass.run"), ("constant arguments", UT + " pe")],
    EQ,
    note="pe is used through its summary (decided by P09); jacfwd, pinv and lstsq through their defining properties.",
)
prop(
    "P08",
    "NLLS and NllsClass iterate Gauss-Newton steps and stop as documented",
    "NLLS and NllsClass start from the given guess and replace the unknowns by unknowns minus the least-squares step of the residual's linearisation there, until the largest absolute residual is at most tol, the largest absolute change of the unknowns is at most tol, or maxIter iterations were made; they return the final unknowns in the structure of the guess and the number of iterations. This holds for array, TFCDict and TFCDictRobust unknowns, both methods, timed or printing or not, with a supplied Jacobian, condition or body used in place of the default, with any arguments declared constant in any order, and for repeated runs; the caller's data are left unchanged.",
    ["inputs", "configurations", "histories"],
    "all residuals, guesses, tolerances and iteration limits, three kinds of unknowns, all options, repeated runs",
    "The tests run a few convergent problems to convergence, where a wrong stopping rule, a stale argument or an unused option leaves the answer the same.",
    [UT],
    [("function form", UT + " NLLS"), ("class form", UT + " NllsClass.__init__, NllsClass.run")],
    EQ + "; the loop is judged by its condition and one step from an arbitrary state",
    note="Convergence itself is not claimed. The recorded change counts by its absolute value.",
)
prop(
    "P09",
    "pe and pejit give the original function of the remaining arguments",
    "For every function and every list of argument numbers, in any order, pe and pejit return a function of the remaining arguments, in their original order, whose value is that of the original function with the listed arguments fixed to the values given to pe, with the same output structure. Arguments may be arrays, tuples, dictionaries or TFCDicts, and outputs may depend on constant arguments only. pejit passes its keyword arguments on to jit, and the list of numbers is not modified.",
    ["inputs", "configurations"],
    "all functions; every ordered choice of constant arguments out of up to four; array, tuple, dictionary and TFCDict arguments and outputs",
    "The tests fix the first argument of a two-argument function; the permutation of arguments and the flattening of nests only show with more.",
    [UT],
    [("reordering, tracing and rebuilding", UT + " pe"), ("compiled form", UT + " pejit")],
    EQ,
    note="JAX's partial evaluation is summarised by its contract. Up to four arguments.",
)
prop(
    "P10",
    "egrad and egradRobust differentiate with respect to exactly one argument",
    "egrad(g, j) and egradRobust(g, j), called with any arguments, return the sum of the derivatives of g at those arguments in all elements of argument j (the element-wise derivative for element-wise functions), and nothing from the other arguments; egradRobust does so for arrays, tuples, dictionaries and TFCDicts, of any real or complex number type, also for compiled g. step is 1 for positive and 0 for zero or negative elements.",
    ["inputs", "configurations"],
    "all functions, up to four arguments, every argument number, array and nested arguments",
    "The tests differentiate functions of one or two arguments; a tangent that is wrong for other positions or shapes does not show there.",
    [UT],
    [("tangents", UT + " egrad, egradRobust, onesRobust, zerosRobust"), ("step", UT + " step")],
    EQ,
    note="jvp is used through its contract (linear in the tangents).",
)
UF = "src/tfc/utfc.py"
MF = "src/tfc/mtfc.py"
prop(
    "P11",
    "utfc's basis accessors return, trace and differentiate as the right order",
    "H, dH, d2H, d4H and d8H of a utfc object return the derivative of that order of its basis matrix at the given points, for the reduced and the full set. JAX differentiation of any of them, any number of times and with array, zero or traced tangents, gives the next-order matrix times the tangent of the points and nothing else; abstract evaluation reports exactly the shape that is returned, and batching and the hybrid form (HybridUtfc) give the same values. Both backends behave the same.",
    ["inputs", "configurations", "histories"],
    "all points, derivative orders, full and reduced sets, eight bases, both backends, every kind of tangent JAX passes",
    "The tests differentiate a few functions once or twice on fixed points under jit; a wrong order, flag or tangent case shows only for combinations they do not trace.",
    [UF],
    [("accessors", UF + " H, dH, d2H, d4H, d8H"), ("JAX primitive and its rules", UF + " _SetupJax")],
    EQ + "; JAX's primitive tables are modelled, so every rule is followed from the place it is registered",
    note="The basis object is an operator here; what it computes is P01 to P05. JAX's own transformations are used through their contract.",
)
prop(
    "P12",
    "mtfc's basis accessors return, trace and differentiate as the right orders",
    "H(*x, d, full) of an mtfc object returns the basis matrix differentiated d[k] times in input k, for the reduced and the full set. JAX differentiation in any input, repeatedly and with array, zero or traced tangents, adds one order in exactly that input, times that input's tangent, and sums over the inputs; abstract evaluation reports exactly the shape that is returned, and batching gives the same values. Both backends behave the same.",
    ["inputs", "configurations", "histories"],
    "all points, per-input derivative orders, full and reduced sets, eight bases, both backends, one to three inputs",
    "The tests use two inputs and low orders in fixed functions; mixing up inputs, orders or tangents shows only for combinations they do not trace.",
    [MF],
    [("accessors", MF + " H, Hx and the like"), ("JAX primitive and its rules", MF + " _SetupJAX")],
    EQ + "; JAX's primitive tables are modelled, so every rule is followed from the place it is registered",
    note="The basis object is an operator here; what it computes is P01 to P05.",
)
prop(
    "P13",
    "A compiled call reaches its own basis object with the right operands",
    "However many basis objects exist and in whatever order they were made, a compiled (jit) evaluation runs the routine of exactly the object it was traced from, with that object's identifier, the points, derivative order(s), full flag and sizes in the order and types the native routine reads them, and declares the shape and memory layout the routine writes. The native entry for compiled calls then writes the same matrix as a direct call.",
    ["inputs", "configurations", "histories"],
    "every sequence of object constructions and destructions; one-input and multi-input objects; full and reduced sets; nineteen native classes",
    "The tests make one or two objects per process and compile a few shapes; mixing up objects, operands or layouts needs particular histories or unequal sizes to show.",
    [UF, MF] + BFF,
    [("lowering", UF + " _SetupJax H_xla; " + MF + " SetupJAX H_xla"), ("object table", U + "BF.cc BasisFunc constructors, BasisFuncContainer, xlaWrapper"), ("native entries", U + "BF.cc BasisFunc::xla, nBasisFunc::xla, nELM::xla")],
    EQ + "; the object table by its representation invariant (every constructor from an arbitrary valid state, no other mutation)",
    note="XLA's calling convention is taken as documented.",
)
prop(
    "P14",
    "utfc is set up as asked: basis, domain, removed functions and points",
    "For every choice of basis, backend, domain, degree and removal (a number, a list, a NumPy or a JAX array), a utfc object builds the named basis on the given domain with one more function than the degree and exactly the requested functions removed, and its N points are the Chebyshev-Gauss-Lobatto nodes (Chebyshev and Legendre) or equally spaced nodes (all others), in increasing order from one end of the domain to the other, with z and x related by the object's own map. Removals that outnumber the degree or contain negative numbers in a list are refused, all others are accepted.",
    ["inputs", "configurations"],
    "all N >= 2, degrees, end points, removal lists and ways of giving them, eight bases, two backends",
    "The tests use a few sizes on one or two domains; size- or type-dependent set-up paths are not exercised.",
    [UF],
    [("constructor", UF + " utfc.__init__")],
    EQ,
    note="Sizes are symbolic in the analysis; the final comparison is made at several valuations, including those next to every constant the code compares a size with.",
)
prop(
    "P15",
    "mtfc is set up as asked: basis, domain, removal table and point grid",
    "For every choice of basis, backend, domain, degree, numbers of points and removal specification (per-input numbers, lists or arrays, a table, or for random-feature bases one list), an mtfc object builds the named basis on the given domain with the requested functions removed per input, and its points are the full grid of the per-input nodes, every combination exactly once with the last input varying fastest, with z and x related by the object's own map per input. Too many removals are refused, all others are accepted.",
    ["inputs", "configurations"],
    "one to three inputs, unequal numbers of points, all end points and degrees, eight bases, two backends, every way of giving nC, n, x0 and xf",
    "The tests use one or two grids, mostly with two inputs; the grid order and padding of the table depend on sizes and on how the removal is given.",
    [MF],
    [("constructor", MF + " mtfc.__init__")],
    EQ,
    note="End points and degree are symbolic; numbers of points and removal rows are taken from a list of representative unequal cases.",
)
prop(
    "P16",
    "The compiled module's Python interface passes data through unchanged",
    "Whatever the memory layout, stride or convertible number type of an array given to a compiled basis object, the native code sees its values in order and its true sizes; constructor arguments reach the parameters of the same name of the class of the same name; results and attributes come back with their true shape as arrays that own their memory; weights, biases and map slopes that are set are the ones used and read back, in both implementations, and weights or biases of the wrong size are refused.",
    ["inputs", "configurations"],
    "every exported class and member of the compiled module; every array layout, stride and element type; every size",
    "The tests pass freshly made contiguous arrays of the native type and read few attributes; a lost conversion or a swapped size shows only for strided, transposed or non-square inputs.",
    [U + "BF_Py.cc", U + "BF.cc", U + "BF.h", U + "BF_Py.py"],
    [("bindings", U + "BF_Py.cc PYBIND11_MODULE"), ("weights", U + "BF.cc ELM::setW, nELM::setW; " + U + "BF_Py.py ELM.w, nELM.w")],
    "symbolic evaluation of the module function's clang AST: each exported member is resolved to its function, whose native calls, array flags, returned shapes, owners and release functions are compared with the member's contract; " + EQ,
    note="pybind11's conversions are taken as documented (c_style|forcecast gives contiguous values of the element type).",
)
CF = U + "CeSolver.py"
prop(
    "P17",
    "A constrained expression is always the one its current inputs define",
    "For every list of constraint operators, kappa values, support functions and every free function, CeSolver's support matrix is the operators applied to the support functions, alpha its inverse, phi the support functions times alpha, rho each kappa minus its operator applied to the free function, and the constrained expression the free function plus phi times rho, so that it satisfies every linear constraint. This stays true after any sequence of reads and assignments: whatever is read reflects the inputs last assigned, and a phi or ce assigned directly stands until something it depends on is assigned. checkCe is true exactly when every constraint holds of the stored expression.",
    ["inputs", "histories"],
    "all constraint operators, kappa values, support and free functions; every sequence of reads and assignments of the nine attributes, to a fixed point of the abstract states",
    "The tests solve two examples and re-assign one attribute once; a cache that is not refreshed shows only after particular read-assign-read sequences.",
    [CF],
    [("formulas", CF + " CeSolver.S, alpha, phi, rho, _solveCe"), ("caches", CF + " CeSolver property setters"), ("check", CF + " CeSolver.checkCe")],
    "typestate by abstract interpretation to a fixed point: superseded inputs collapse to one abstract value, every read in every reachable abstract state is compared with its definition",
    note="Scalar-valued constraints; one and two constraints over all histories, three constraints for the formulas. Sympy's matrix algebra and simplify are taken as correct.",
)
prop(
    "P18",
    "Code printed for a constrained expression means that expression",
    "For every function, partial or repeated derivative and evaluated derivative in a constrained expression, the TFC printer's text is Python code that denotes it: egrad nested once per differentiation at the position of each variable, applied to all arguments of the function, with substituted values in exactly the places of the substituted variables, and NumPy's functions and constants for sympy's. Making or using the printer leaves sympy's other printers as they were.",
    ["inputs", "configurations"],
    "functions of up to three arguments, derivative orders up to three in each variable, substitutions that overlap names, swap variables or nest",
    "The tests print one expression with a single first derivative and do not look at the text.",
    [CF],
    [("printer", CF + " TfcPrinter")],
    "abstract interpretation of each printing method on expression shapes, the text parsed and compared with the syntax tree the shape defines; effect check on the shared tables",
    note="Shapes are enumerated up to the stated bounds.",
)
prop(
    "P19",
    "The constraint graph keeps exactly the valid embeddings, and draws those",
    "For every list of nodes and constraints between two different nodes, ComponentConstraintGraph considers every orientation of the constraints once, keeps an orientation in goodTargets exactly when the oriented graph has no cycle, and refuses a constraint whose node is not listed. SaveGraphs draws one tree per kept orientation (per orientation with allGraphs): every node, and every constraint with its name from node0 to node1 when its target is 0 and back when it is 1; the index links to each tree's page once, and each page shows its own tree and that tree's map.",
    ["inputs", "configurations"],
    "every choice of the ends of the constraints, for up to four nodes and three constraints; every combination of allGraphs and savePDFs",
    "No test builds a constraint graph.",
    [UT, U + "Html.py"],
    [("constraint graph", UT + " ComponentConstraintGraph"), ("files", U + "Html.py Dot, HTML")],
    "abstract interpretation of the constructor with symbolic ends, the condition for keeping an orientation compared with acyclicity for every choice of ends; recorded drawing operations of SaveGraphs compared with the kept orientations",
    note="Numbers of nodes and constraints are bounded; constraints from a node to itself are not considered.",
)
prop(
    "P20",
    "The native classes stay inside their arrays and release what they allocate",
    "For every number of points, functions, dimensions and removed functions, and every derivative order, the native basis classes read and write only inside the arrays they were given or allocated: the points, the removal list, the weights, the output of the caller and their own buffers. Every buffer they allocate is released exactly once with the operator that matches its allocation: temporary ones before the routine returns, the members of an object when it is destroyed, and a returned result, allocated with at least the size reported, is left to its receiver.",
    ["inputs", "configurations"],
    "all sizes from one up, symbolically; derivative orders 0 to 3 (and the general-order branch) for the recursive polynomials; valid removal lists",
    "A read or write outside an array, or a lost buffer, rarely changes the values a test looks at.",
    BFF,
    [("evaluation", U + "BF.cc Hint, nElmHint, nHint"), ("entries", U + "BF.cc H, xla"), ("construction and destruction", U + "BF.cc constructors and destructors")],
    "abstract interpretation with symbolic sizes; index obligations discharged by monotonicity over the enclosing loops and non-negative coefficients after shifting sizes to their least values; ownership matching of allocations and releases",
    note="Positions of products counted while enumerating them are decided with the products (P04, P05); an index chosen by data in nELMReLU is reported as undecided.",
)
prop(
    "P30",
    "Least-squares solutions are accurate to working precision",
    "For well-posed problems the unknowns returned by LS, NLLS and their class forms agree with the exact minimiser of the residual up to an error proportional to the conditioning of the problem and the working precision.",
    ["inputs"],
    "all residuals with a full-rank Jacobian",
    "The tests solve a handful of problems whose solution is known.",
    [UT],
    [("solvers", UT + " LS, NLLS")],
    "none",
    na="bounds rounding errors of LAPACK and XLA kernels and the conditioning of the caller's residual; neither is visible in the source of tfc. The algebra of the solvers is decided by P07 and P08.",
)
prop(
    "P31",
    "NLLS converges to a root from a sufficiently close guess",
    "For every twice differentiable residual with a root at which the Jacobian has full rank, NLLS and NllsClass started close enough to the root end with the residual below the tolerance before the iteration limit.",
    ["inputs"],
    "all such residuals and guesses",
    "The tests start from guesses known to converge.",
    [UT],
    [("solvers", UT + " NLLS, NllsClass")],
    "none",
    na="a quantitative convergence statement about the caller's residual. That each iteration is a Gauss-Newton step and that the loop stops as documented is decided by P08.",
)
