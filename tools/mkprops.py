#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as source because JSONL is hard to edit by hand).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

G=["gmatlib/src/lib.rs","gmatlib/src/trait_impls.rs"]
p("M01","Matrix construction and element access are exact and in bounds",
 "A matrix built from values has the stated shape and holds exactly those values in row-major order, and a value list that does not fill whole rows is refused with an error. Reading or writing element (row, column) reads or writes exactly that element and no other. Any row or column outside the matrix panics, for reads and for writes, without touching the contents.",
 ["inputs"],"every shape up to 3x3 (and empty lists), every element value, every row/column index over the whole machine-word range",
 "The tests read a handful of in-range elements of small constant matrices; nothing tries an out-of-range write, and no test can cover all index values.",
 G,[("Matrix::new/new_identity/from_vec/from_row_vec/from_col_vec/iter/into Vec","gmatlib/src/lib.rs"),("Index/IndexMut","gmatlib/src/trait_impls.rs")])
p("M02","Row operations change exactly the named row and nothing else",
 "Swapping two rows exchanges them; scaling a row, scaling the whole matrix, adding one row to another and adding a scaled row to another give each element of the target row the value of the defining formula. All other elements keep their values and the shape never changes, on square and non-square matrices alike. A row index outside the matrix panics.",
 ["inputs"],"every matrix shape up to 3x3 (4x4 in the thorough tier), all element and scalar values, all row indices including equal ones and ones out of range",
 "The documentation tests use the identity matrix, on which row and column operations coincide; no test uses non-square or asymmetric data, and none uses equal or invalid rows.",
 G,[("inplace_row_swap/inplace_row_scale/inplace_scale/inplace_row_add/inplace_scaled_row_add","gmatlib/src/lib.rs")])
p("M03","Element-wise arithmetic agrees across every operand form",
 "Adding or subtracting two equally sized matrices, or scaling a matrix by a number, yields the element-wise result with the same shape, identically for owned and borrowed operands and for the compound-assignment forms. Operands that are only borrowed are left unchanged. Operands of different sizes panic and are never combined partially.",
 ["inputs"],"all pairs of shapes up to 3x3, all element and scalar values, every owned/borrowed/assigning operator form",
 "Each operator form has one example with constant integers; agreement for all values, all shapes and the mismatch cases of every form is never exercised.",
 G,[("Add/AddAssign/Sub/SubAssign/Mul<T> impls","gmatlib/src/trait_impls.rs")])
p("M04","The matrix product is the mathematical product, or an error",
 "Multiplying an m-by-k matrix by a k-by-n matrix returns the m-by-n matrix whose (i,j) element is the inner product of row i and column j, leaves both operands unchanged, and the operator forms agree with the method. Operands whose inner dimensions differ give an error from the method and a panic from the operators, never a result.",
 ["inputs"],"all shape pairs with dimensions up to 3, all element values, every owned/borrowed operator form",
 "Tests multiply a few constant matrices; wrong indexing that happens to agree on those, or on square operands, passes.",
 G,[("Matrix::multiply_matrix","gmatlib/src/lib.rs"),("Mul<Matrix> impls","gmatlib/src/trait_impls.rs")])
p("M05","Augment, subset, transpose and trace rearrange elements exactly",
 "Augmenting, taking a sub-block, transposing and taking the trace produce precisely the elements and shape that their definitions prescribe and leave the source matrix unchanged. A row-count mismatch when augmenting and a trace of a non-square matrix are errors. A sub-block that reaches outside the matrix or whose end precedes its start panics.",
 ["inputs"],"all shapes up to 3x3, all element values, all sub-block corners including reversed and out-of-range ones",
 "Only one or two constant examples of each operation exist, mostly on square or symmetric data; invalid corners are never tried.",
 G,[("augment_with/subset/transpose/trace","gmatlib/src/lib.rs"),("BitOr","gmatlib/src/trait_impls.rs")])
p("M06","Inversion succeeds exactly on invertible matrices and returns the inverse",
 "Inverting a square matrix of any size succeeds whenever the matrix is invertible, including when a zero appears on the diagonal during elimination, and the result times the original is the identity. A singular or non-square matrix yields an error, never a panic or a result. After an error the matrix still holds its original values.",
 ["inputs"],"all real-valued 1x1 to 4x4 matrices; larger matrices (5x5, 6x6) with families of symbolic entries including every zero pattern of the symbolic pivots; rounding is outside the claim",
 "Tests invert a few well-conditioned constant matrices and none that needs a row exchange or that fails; correctness for all entries is an algebraic identity no sample settles.",
 ["gmatlib/src/lib.rs"],[("try_inplace_invert and its size-specific kernels","gmatlib/src/lib.rs")])
p("M07","Foreign-function matrix handles stay valid and agree with the native API",
 "Through the C interface every operation gives the same result as the native matrix operation. Handles passed to an operation remain owned by the caller: whether the call succeeds, fails or is given invalid indices or shapes, they are neither freed nor corrupted, can still be used, and can be freed exactly once. Failures are reported by the documented failure value.",
 ["inputs","histories"],"every exported operation, shapes up to 3x3, all element values and indices, sequences of an arbitrary operation (success or failure) followed by use and release of every handle",
 "No test calls the C interface at all, and use-after-free or double free does not show up in value assertions.",
 ["gmatlib/src/ffi.rs"],[("extern \"C\" functions","gmatlib/src/ffi.rs")])

S=["geqslib/src/shunting.rs","geqslib/src/context.rs"]
p("M08","Printing, comparing, iterating and converting a matrix show exactly its contents",
 "A matrix prints as its rows in order, separated by semicolons, with the elements of each row in order, separated by commas, in one pair of brackets; printing never panics, not even for a matrix without elements. Iterating over a matrix and converting it into a list both give the elements row by row. Two matrices are equal exactly when they have the same shape and the same elements. The row and column literals build vectors with the listed elements in order.",
 ["inputs"],"all shapes up to 3x4 including empty ones, all element values",
 "No test prints a matrix; comparison of equally long matrices of different shape and of nearly equal matrices is not tested.",
 G,[("Display, From<Matrix<T>> for Vec<T>, PartialEq","gmatlib/src/trait_impls.rs"),("Matrix::iter, row_vec!, col_vec!","gmatlib/src/lib.rs")])
p("E01","Expressions evaluate with standard mathematical meaning",
 "A well-formed expression evaluates to the value standard notation gives it: parentheses first, then function application to exactly its parenthesised arguments, then right-associative powers, then unary minus, then left-associative products and quotients, then left-associative sums and differences. Whitespace does not change the meaning, and constants, variables and functions are those of the context. A division whose divisor is exactly zero is an error rather than a value.",
 ["programs","inputs"],"every well-formed expression up to the stated token length over the operator/function/parenthesis vocabulary, and all values of the variables in it",
 "A few fixed expressions are evaluated; precedence and association errors show only on particular operator combinations and the space of expressions is unbounded.",
 S,[("rpnify/eval_rpn_expression/punctuate","geqslib/src/shunting.rs")])
p("E02","Malformed expressions are rejected with an error, never a value or a panic",
 "Evaluating or compiling text that is not a well-formed expression (unbalanced parentheses on either side, missing operands or arguments, unknown names, empty text, missing operators between operands) returns an error. No input text, however malformed, causes a panic. Text that is well formed is never rejected.",
 ["inputs","programs"],"every token sequence up to the stated length over the vocabulary, and every short string over the stated alphabet",
 "No test feeds malformed text; the property quantifies over all strings.",
 S,[("rpnify/eval_rpn_expression/eval_str/eval_str_with_context","geqslib/src/shunting.rs")])
p("E03","Compiled functions equal substitution and do not depend on call history",
 "A function compiled from an expression returns, for every argument assignment, the value of the expression with the variables replaced by those arguments limited to the variables' domains. Calling it repeatedly with the same arguments gives the same result whatever was evaluated in between. Compiling requires every name to be known, a single-argument function requires exactly one variable, and passing an unknown name is an error.",
 ["inputs","histories"],"all argument values, call sequences of bounded length, expressions with one and two variables",
 "Tests call each compiled function once with constants.",
 S,[("compile_to_fn/compile_to_fn_of_hashmap","geqslib/src/shunting.rs")],[("variable cells","shared mutable values of the context's variables")])
p("E04","Conditional and built-in functions have their documented meaning",
 "The five-argument conditional compares its first and third arguments with the comparison selected by the second (1 equal, 2 at most, 3 at least, 4 less, 5 greater, otherwise not equal) and yields its fourth argument when the comparison holds and its fifth otherwise. The named functions of the default context (trigonometric, hyperbolic, logarithmic, absolute value) apply the mathematical function of that name to the argument, and the default constants have their mathematical values.",
 ["inputs"],"all argument values (exact comparisons), all comparison codes, every name of the default context",
 "One test evaluates one conditional with one pair of values; ties, swapped branches and the other comparisons are untested.",
 ["geqslib/src/context.rs"],[("conditional, new_context and the built-in functions","geqslib/src/context.rs")])
p("V01","A bounded variable never leaves its domain",
 "After any assignment or compound arithmetic assignment, a variable with an ordered domain holds a value inside that domain: the requested value if it lies inside, otherwise the nearest bound. The bounds themselves are never changed by assignments.",
 ["inputs","histories"],"all real values of value, bounds (min <= max) and operands, and the infinities, sequences of assignments of bounded length",
 "Two values are tried on one domain; compound assignments are never tested.",
 ["geqslib/src/variable.rs"],[("Variable::set and the *Assign impls","geqslib/src/variable.rs")])
p("N01","The scalar root finder returns only genuine approximate roots",
 "Whenever the one-dimensional root finder returns a value, the function's magnitude there and the magnitude of the last Newton step are both within the requested margin. It starts from the caller's guess, evaluates no more iterations than the limit, and passes an error of the function through to the caller. A non-positive margin, or running out of iterations, is an error.",
 ["inputs","programs"],"an arbitrary function (every evaluation returns an arbitrary value or error), all guesses, margins and iteration limits up to the bound",
 "Tests use a few smooth functions with benign signs; a wrong acceptance shows only for particular signs and slopes.",
 ["geqslib/src/newton.rs"],[("newton_raphson","geqslib/src/newton.rs")])
p("N02","The multivariate root finder returns only genuine approximate solutions",
 "Whenever the multivariate root finder returns a point, the Euclidean magnitude of the system there and of the last Newton step are both within the requested margin. It takes Newton steps with the true finite-difference Jacobian from the caller's guess, uses at most the given number of iterations, and returns an error for a non-positive margin, for unequal numbers of equations and unknowns, or when an evaluation fails.",
 ["inputs","programs"],"arbitrary affine and quadratic systems of one and two unknowns with symbolic coefficients, arbitrary functions for the acceptance rule, all guesses and margins, bounded iteration limits",
 "Tests solve two or three fixed systems with a loose final comparison.",
 ["geqslib/src/newton.rs"],[("multivariate_newton_raphson","geqslib/src/newton.rs")])
p("S01","Systems of equations are constrained exactly when equations match unknowns",
 "Adding an equation to a growing system reports that it was accepted only if it introduces at most one new unknown and the system was not yet fully constrained, and the set of unknowns and the number of equations always reflect exactly the accepted equations. An equation that is rejected or fails to compile leaves the system as it was. A solvable system is produced exactly when the number of accepted equations equals the number of unknowns.",
 ["histories","programs"],"all sequences of up to the stated number of equations drawn from a vocabulary covering zero to two new unknowns, malformed and duplicate equations",
 "The documentation tests follow three fixed sequences, all without errors.",
 ["geqslib/src/system.rs","geqslib/src/lib.rs"],[("SystemBuilder::new/try_constrain_with/try_fully_constrain_with/is_fully_constrained/build_system","geqslib/src/system.rs")])
p("S02","Equation solving honours guess and domain and returns solutions",
 "Solving one equation or a system reports values for exactly the unknowns, and at those values the two sides of every equation differ by no more than the margin. The search starts from the caller's guess for each unknown, and values reported lie in the declared domain. An equation without exactly one '=' or without exactly one unknown is an error.",
 ["inputs","programs"],"affine equations and systems of up to two unknowns with arbitrary symbolic coefficients, guesses and domains, bounded iteration limits",
 "Tests solve a handful of fixed equations with default guesses and infinite domains.",
 ["geqslib/src/lib.rs","geqslib/src/system.rs"],[("solve_equation_with_context/solve_equation_from_str","geqslib/src/lib.rs"),("System::specify_variable/solve","geqslib/src/system.rs")])
p("F01","Foreign-function equation handles are never freed or corrupted by use",
 "Through the C interface, solving an equation or building and solving systems gives the same outcome as the native interface, including failure codes. A context or declaration handle passed to any operation stays valid, unchanged in content except where documented, and is freed exactly once by its own release function. Failed calls report the documented failure value.",
 ["histories","inputs"],"sequences of C-interface calls of bounded length, with succeeding and failing equations, every handle used and released afterwards",
 "No test calls the C interface; a double free is invisible to value assertions.",
 ["geqslib/src/ffi.rs","nexsys/src/ffi.rs"],[("extern \"C\" functions","geqslib/src/ffi.rs"),("extern \"C\" functions","nexsys/src/ffi.rs")])

p("U01","Unit conversions are coherent with the base unit tables",
 "The factor between two units of one quantity is the quotient of their sizes: a unit converts to itself by one, opposite conversions are reciprocal, and conversions compose. Derived units have the size their name says: squares, cubes, products and quotients of the sizes of the units they are built from. Converting between units of different quantities, or an unknown unit, is an error.",
 ["inputs","configurations"],"every pair of base and derived units, for arbitrary positive base unit sizes",
 "Three conversions are checked against rounded literals; cubes of units and the composition laws are not.",
 ["nexsys/src/units/mod.rs"],[("unit_data/convert/generate_*","nexsys/src/units/mod.rs")])
p("P01","Preprocessing replaces comments, constants and conversions and nothing else",
 "Removing comments deletes exactly the text from each comment marker to the end of its line. Each named constant is replaced by its tabulated value and each bracketed conversion by its factor, wherever they occur, without altering any other text, and an unknown constant or impossible conversion is an error. No input text causes a panic.",
 ["inputs"],"every short text over an alphabet that covers comment markers, constants that are prefixes of each other, conversions and line breaks",
 "Tests contain one conversion example and no comments or constants; interference between neighbouring occurrences appears only in combinations.",
 ["nexsys/src/parsing/mod.rs"],[("comments/consts/conversions","nexsys/src/parsing/mod.rs")])
p("P02","Declarations of guesses, domains and constants are read exactly",
 "A guess, domain or constant declaration takes effect for exactly the named variable with exactly the written numbers, in any order and combination, and is removed from the text while all equations remain. Every number format accepted by the declaration syntax is read as that number; nothing causes a panic.",
 ["inputs"],"all declaration texts with numbers of bounded length (signs, blanks, fractions) and all combinations of the three declarations for two variables",
 "One documentation example uses three positive integers.",
 ["nexsys/src/parsing/mod.rs"],[("guess_values/domains/const_values/compile","nexsys/src/parsing/mod.rs")])
p("P03","Conditional blocks compile to the equivalent conditional expression",
 "A conditional block becomes one equation that, for all values, is satisfied exactly when the branch selected by the comparison is satisfied: each comparison operator keeps its meaning and the branches keep their order, also when nested. Names are not altered and other text is kept. Malformed comparison operators are reported as errors, never as panics.",
 ["programs","inputs"],"every comparison operator, branch equations and nesting up to depth two, and all values of the variables",
 "Tests compare three fixed outputs textually; the meaning for all values and other operators is untested.",
 ["nexsys/src/parsing/conditionals.rs","geqslib/src/context.rs"],[("conditionals/format_conditional","nexsys/src/parsing/conditionals.rs")])
p("Q01","Solved systems satisfy every equation, whatever the order of equations",
 "When the solver returns for a system of as many independent equations as unknowns, every unknown has a value and every equation holds within the accuracy of the margin. The outcome does not depend on the order of the equations. Declared guesses are used and declared domains are respected.",
 ["programs","inputs"],"triangular and coupled affine systems of up to three equations with symbolic coefficients, every equation order",
 "One documentation example is solved; chains of single-unknown equations and reordered systems are not.",
 ["nexsys/src/lib.rs"],[("basic_solve/solve_with_preprocessors","nexsys/src/lib.rs")])

N=["neapolitan/src/lib.rs","neapolitan/src/flux_formulas.rs","neapolitan/src/modelling/element.rs","neapolitan/src/modelling/node.rs"]
p("K01","Reported studies conserve flux at every free node",
 "In the result of a study, the reported flux entering each node that the configuration does not fix equals the reported flux leaving it, to within the solver margin (exactly where a potential source drives the node). This holds whatever the order in which elements were added and in whichever direction each is oriented, and a network whose every node is connected to a fixed one by conducting elements and sources that do not contradict each other has a result.",
 ["programs","inputs","configurations"],"all networks up to the stated number of nodes and elements with symbolic gains and potentials, every element order and orientation",
 "Tests print one fixed circuit without asserting its solution.",
 N,[("NodalAnalysisStudyBuilder::run_study","neapolitan/src/lib.rs"),("get_flux_discrepancy","neapolitan/src/modelling/node.rs")])
p("K02","Reported element fluxes and potentials obey each element's law",
 "In the result of a study, a resistive or conductive element carries the potential difference from input to output times its conductance, a source of flux carries its given flux, and a potential source keeps the output above the input by its given value. The reported flux of a potential source is the flux that balances the node it drives, in either orientation.",
 ["programs","inputs","configurations"],"all element kinds in both orientations in networks up to the stated size, symbolic gains and potentials",
 "The fuzz test compares one-sided differences of one resistor; sources are never checked.",
 N+["neapolitan/src/dc_circuits.rs","neapolitan/src/heat_transfer.rs"],[("normal_flux/observe_flux/constant_flux","neapolitan/src/flux_formulas.rs"),("element constructors","neapolitan/src/dc_circuits.rs")])
p("K03","Fixed nodes keep their configured potential",
 "A node configured as fixed is reported with exactly its configured potential, whatever elements are attached. Every node and every element of the model appears exactly once in the result.",
 ["programs","inputs","configurations"],"all networks up to the stated size, symbolic configured potentials, fully determined models included",
 "No test looks at the potentials in a result.",
 N,[("NodalAnalysisStudyBuilder::run_study","neapolitan/src/lib.rs")])
p("K04","Invalid models are reported as errors, never panics",
 "Building and running a study from any model description returns either a result or an error: unknown study types or element types, node numbers outside the model, elements without the gain they need, potentials of the wrong dimension and sources between two fixed nodes are errors. Nothing in a model makes the library panic or recurse without end.",
 ["programs","configurations","inputs"],"all model descriptions up to the stated size over valid and invalid types, node numbers, gain lists and potential lists",
 "Tests only build valid models.",
 N+["neapolitan/src/dc_circuits.rs","neapolitan/src/heat_transfer.rs"],[("NodalAnalysisStudyBuilder","neapolitan/src/lib.rs"),("element constructors","neapolitan/src/dc_circuits.rs")])
p("K05","Element constructors apply the law of their kind to the right nodes",
 "An element created between two nodes reports, for all potentials, the flux of its law: resistors divide the potential difference by the resistance, conductors and convection interfaces multiply it by the conductance, flux sources report their constant. A potential source fixes the free end at once to the potential its value demands, prefers to drive its output, and is refused when both ends are fixed. Elements are only registered with the nodes they must be balanced in.",
 ["inputs","configurations"],"all gains and potentials, every combination of fixed and free ends, all element kinds",
 "Only the resistor is exercised, with one-sided assertions that cannot fail for too-large results.",
 ["neapolitan/src/dc_circuits.rs","neapolitan/src/heat_transfer.rs","neapolitan/src/flux_formulas.rs","neapolitan/src/modelling/element.rs"],[("resistor/voltage_source/current_source","neapolitan/src/dc_circuits.rs"),("conductor/convection_interface/temperature_delta/heat_flux","neapolitan/src/heat_transfer.rs")])
p("K06","A saved model reads back as the same model",
 "Saving the model of a study leaves the builder as it was and gives a text that parses, by every way the library offers, to a model equal to the one saved, whatever it contains; studies of the original and of the copy give the same results. Text that is not a model is refused with an error.",
 ["programs","inputs"],"all sequences of building steps up to the bound, symbolic element names, every way to read the text back",
 "No test saves or reads a model.",
 ["neapolitan/src/lib.rs","neapolitan/src/modelling/mod.rs"],[("NodalAnalysisStudyBuilder::save_model","neapolitan/src/lib.rs"),("NodalAnalysisModel: FromStr","neapolitan/src/modelling/mod.rs")])
p("K07","Studies of the user's own dimensions and element kinds follow the same laws",
 "A configurator accepts each name of an element kind once. A study with such a configuration, of any dimension, reports for every element the flux that its formula gives for the reported potentials, in every component, and balances every component of the flux at each node that is not fixed; fixed nodes keep every component of their potential. Kinds, potentials and source values that do not fit the configuration are errors, never panics.",
 ["programs","inputs","configurations"],"all networks up to the bound over built-in kinds and kinds registered through the public API, dimensions one to three, symbolic values",
 "Tests use the two built-in configurations, which have dimension one.",
 N+["neapolitan/src/dc_circuits.rs"],[("NodalAnalysisStudyConfigurator","neapolitan/src/lib.rs"),("NodalAnalysisStudyBuilder::run_study","neapolitan/src/lib.rs"),("GenericElement::try_new","neapolitan/src/modelling/element.rs")])
p("C01","The nxc command line tool reports what the library solves and harms no file",
 "For every command line and input file, nxc ends with a defined exit code and never panics. It succeeds exactly when its options make sense and the library solves the file's text with the margin and iteration limit given on the command line (0.0001 and 100 by default), and its results then state every solved value, on the terminal or, with the output option, in a .txt file beside the input. Every option in its usage text works. The input and other existing files are never changed, and nothing is written when the tool fails; asking for verbose output changes nothing else.",
 ["programs","configurations","inputs","faults"],"all argument sequences up to the bound, symbolic option values and text, unreadable and unwritable files",
 "No test runs the tool.",
 ["nexsys/src/main.rs"],[("main","nexsys/src/main.rs")])
p("C02","The neapolitan command line tool writes the library's result and harms no file",
 "For every command line and model file, the neapolitan tool ends with a defined exit code and never panics. It succeeds exactly when its options make sense, the model parses and the library's study of it with the precision and iteration limit given on the command line (0.0001 and 100 by default) has a result, and then the file beside the model whose name ends in .soln.json holds exactly that result as JSON. The model file and other existing files are never changed, and nothing is written when the tool fails.",
 ["programs","configurations","inputs","faults"],"all argument sequences up to the bound, symbolic option values and model text, unreadable and unwritable files",
 "No test runs the tool.",
 ["neapolitan/src/main.rs"],[("main","neapolitan/src/main.rs")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
