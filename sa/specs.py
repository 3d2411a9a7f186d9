"""Which rules decide which property."""
REAL = "real arithmetic (rounding and overflow are outside the domain)"
SHAPE = "the evaluation routines are entered with the documented shapes: a column of N >= 1 points and m >= 1, d >= 0"

SPECS = {
    "P01": {
        "rules": [("poly", "check"), ("domain", "check_poly"), ("bindrule", "check_poly")],
        "floor": 60,
        "what": "Abstract interpretation of the value and derivative routines of the five polynomial families in BF_Py.py and BF.cc (clang AST), for symbolic number of points, number of columns and derivative order, and of the routines that map the domain.",
        "assumptions": [REAL, SHAPE],
    },
    "P02": {
        "rules": [("fsrule", "check"), ("elm", "check"), ("domain", "check_other"), ("diffrule", "check"), ("bindrule", "check_other"), ("paramrule", "check_one")],
        "floor": 40,
        "what": "Abstract interpretation of the evaluation routines of the Fourier basis and the five random-feature bases, both implementations, every residue class of the derivative order and every order-specific case.",
        "assumptions": [REAL, SHAPE, "egrad differentiates its argument (decided separately)"],
    },
    "P03": {
        "rules": [("domain", "check"), ("bindrule", "check_one")],
        "floor": 50,
        "what": "Abstract interpretation of the constructors, H and xla of eleven one-input families with the evaluation routine left uninterpreted.",
        "assumptions": [REAL, "entries of the removal list are distinct and in range (as set up by the constraint classes)"],
    },
    "P04": {
        "rules": [("nd", "check"), ("poly", "check_product"), ("fsrule", "check"), ("bindrule", "check_prod")],
        "floor": 30,
        "what": "Abstract interpretation of construction, H and xla of the three product bases in both implementations; the self-recursive enumeration is decided inductively (its recursive case at a symbolic level, its innermost case for symbolic outer exponents).",
        "assumptions": [REAL, "the set of admissible exponent vectors is not empty; nC is a dim x numC table"],
    },
    "P05": {
        "rules": [("nelm", "check"), ("diffrule", "check"), ("bindrule", "check_nelm"), ("paramrule", "check_multi")],
        "floor": 80,
        "what": "Abstract interpretation of construction, weight and bias access, H and xla of the five multi-input random-feature bases in both implementations.",
        "assumptions": [REAL, "pure-Python version: one, two and three inputs; compiled version: any number", "egrad differentiates its argument (decided separately)"],
    },
    "P06": {
        "rules": [("tdict", "check")],
        "floor": 60,
        "what": "Abstract interpretation of the two dictionary classes and their pytree registration for symbolic entry sizes.",
        "assumptions": ["one to three entries", "NumPy in-place operators modify the array, JAX ones make a new one"],
    },
    "P07": {
        "rules": [("solver", "check_linear"), ("tdict", "check"), ("perule", "check")],
        "floor": 40,
        "what": "Abstract interpretation of LS, LsClass.__init__ and LsClass.run with the residual, its Jacobian and the pseudo-inverse as operators.",
        "assumptions": ["full-rank Jacobian in the comparison", "pe, jit, jacfwd, pinv, lstsq by contract"],
    },
    "P08": {
        "rules": [("solver", "check_nonlinear"), ("tdict", "check"), ("perule", "check")],
        "floor": 40,
        "what": "Abstract interpretation of NLLS, NllsClass.__init__ and NllsClass.run; the condition, one body step from an arbitrary state, the initial state and the returned value of the captured loop are compared with the specification.",
        "assumptions": ["full-rank Jacobian in the comparison", "pe, jit, while_loop, jacfwd, pinv, lstsq by contract"],
    },
    "P09": {
        "rules": [("perule", "check")],
        "floor": 60,
        "what": "Abstract interpretation of pe and pejit with JAX's flattening and tracing summarised by contract.",
        "assumptions": ["up to four arguments"],
    },
    "P10": {
        "rules": [("diffrule", "check"), ("tdict", "check_tree")],
        "floor": 30,
        "what": "Abstract interpretation of egrad, egradRobust and step with jvp summarised by contract.",
        "assumptions": ["up to four arguments"],
    },
    "P11": {
        "rules": [("jaxrule", "check_u")],
        "floor": 40,
        "what": "Abstract interpretation of utfc._SetupJax, its accessors and every rule it registers, for both backends.",
        "assumptions": ["JAX calls each registered rule as documented; the basis object is an operator of points, order and flag"],
    },
    "P12": {
        "rules": [("jaxrule", "check_m")],
        "floor": 40,
        "what": "Abstract interpretation of mtfc._SetupJAX, its accessors and every rule it registers, for both backends.",
        "assumptions": ["JAX calls each registered rule as documented; one to three inputs"],
    },
    "P13": {
        "rules": [("jaxrule", "check_low"), ("regrule", "check"), ("regrule", "check_entries")],
        "floor": 20,
        "what": "Abstract interpretation of the lowering functions of utfc and mtfc, of the nineteen native constructors from an arbitrary valid object table, of the wrapper and of the nineteen native entries for compiled calls.",
        "assumptions": ["XLA calls the registered routine with the operands of the custom call in order, row-major"],
    },
    "P14": {
        "rules": [("suprule", "check_u")],
        "floor": 15,
        "what": "Abstract interpretation of utfc.__init__ with symbolic sizes, end points and removal lists.",
        "assumptions": ["N >= 2", REAL],
    },
    "P15": {
        "rules": [("suprule", "check_m")],
        "floor": 30,
        "what": "Abstract interpretation of mtfc.__init__ with symbolic end points and degree.",
        "assumptions": ["one to three inputs; at least two points per input", REAL],
    },
    "P16": {
        "rules": [("bindrule", "check"), ("paramrule", "check")],
        "floor": 40,
        "what": "Symbolic evaluation of the module function in BF_Py.cc (clang AST): constructors, H, attributes, weights and slopes of the nineteen exported classes; abstract interpretation of the weight and bias accessors of both implementations.",
        "assumptions": ["pybind11 converts array arguments as their flags say", "the native routines write what P01 to P05 say"],
    },
    "P17": {
        "rules": [("cerule", "check")],
        "floor": 4,
        "what": "Fixed-point exploration of CeSolver's abstract states (every read and assignment from every reachable state), with constraint operators uninterpreted.",
        "assumptions": ["scalar-valued constraints; the support matrix is invertible", "lists given are not changed in place afterwards"],
    },
    "P18": {
        "rules": [("printrule", "check")],
        "floor": 8,
        "what": "Abstract interpretation of TfcPrinter's methods on function, derivative and substitution shapes; the printed text is parsed and compared.",
        "assumptions": ["sympy calls _print_<class> for each node, as documented"],
    },
    "P19": {
        "rules": [("graphrule", "check")],
        "floor": 6,
        "what": "Abstract interpretation of ComponentConstraintGraph with symbolic edge ends; the condition for keeping an orientation is compared with acyclicity for every choice of ends, and the drawing operations of SaveGraphs are compared with the kept orientations.",
        "assumptions": ["a nonnegative matrix has only zero eigenvalues iff its graph has no cycle, and numpy computes them exactly zero (balancing permutes such a matrix to triangular form)", "every constraint connects two different nodes"],
    },
    "P20": {
        "rules": [("memrule", "check")],
        "floor": 30,
        "what": "Every access through a pointer in the native classes (clang AST) becomes an obligation 0 <= index < size with symbolic sizes, path condition and enclosing loops; every allocation and release is matched along the life of the object and the call.",
        "assumptions": ["the removal list names distinct existing functions", "no more derivative orders than dimensions are given", "compiled callers pass arrays of the declared shapes (P13, P16)"],
    },
}
