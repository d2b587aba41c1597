#!/usr/bin/env python3
"""The listed properties; writes properties.jsonl and MANIFEST.json.

A property is claimed if checks/<id>/check.json exists."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, cant, files, mech, note, observe=None, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, cant=cant,
                  files=["include/etr_bits/" + f for f in files],
                  mech=[dict(name=a, where="include/etr_bits/" + b) for a, b in mech],
                  note=note, observe=observe, state=state, na=na))


KINDS = ("variables (numeric, integer, logical), borrowed memory, scalars of type double, int and bool, results of "
         "functions, subsets, calculations and comparisons")

prop("C01", "Element-wise arithmetic with recycling",
     "The operators + - * / ^ calculate element by element, and the shorter operand is recycled to the length of the longer one, "
     "whatever kind of object the operands are (variables, scalars, borrowed memory, subsets, function results or nested calculations of "
     "numeric, integer and logical type). Sums, differences and products of integers and logicals are exact integers, everything else is "
     "calculated in double precision (5 / 2 is 2.5). Evaluating or assigning a calculation gives these values, also if the assigned variable "
     "occurs in the calculation, and a calculation with an empty object is empty. Numbers of other C++ types (float, long, std::size_t) count as the number they are.",
     ["inputs", "programs"],
     "all operators, all pairs of kinds of operands (" + KINDS + "), all lengths, all values, nested expressions",
     "The tests use a few hand picked pairs of operands with equal lengths or a scalar; there are 14 x 17 kinds of pairs for each operator, "
     "arbitrary nesting and arbitrary lengths.",
     ["BinaryCalculations.hpp", "Core/Utils.hpp", "Core/Traits.hpp", "Vector/AssignmentOperator.hpp"],
     [("index modulo size of each operand", "BinaryCalculations.hpp"), ("evaluation into a temporary before the assignment", "Vector/AssignmentOperator.hpp")],
     "reference model over generated operands of 17 kinds (all pairs, every operator) and generated expression programs; values small/real/special, lengths 1 to 300; both the expression itself and its assignment are compared")

prop("C02", "Comparisons are element-wise, recycled and give logical results",
     "The operators == != < <= > >= compare element by element with recycling, whatever kind of object the operands are, and the result "
     "is a logical object which can be assigned, calculated with, used as an index and, if it has one element, as a condition. "
     "< <= > >= are exact; two numbers are equal if they are identical or differ by less than 0.001, and != is always the opposite of ==.",
     ["inputs", "programs"],
     "all comparison operators, all pairs of kinds of operands, all lengths, all values outside of NaN and of differences of exactly 0.001",
     "The tests compare few constant vectors; tolerance, infinite values, integer limits, recycling and mixed types need generated values.",
     ["BinaryCalculations.hpp", "Core/Traits.hpp", "Vector/VectorClass.hpp"],
     [("comparison functions with tolerance", "BinaryCalculations.hpp"), ("conversion to bool", "Vector/VectorClass.hpp")],
     "reference model over pairs of operand kinds for 6 operators including values near the tolerance, as values, as logical/integer/numeric variables, as index and as condition; plus generated programs mixing comparisons with arithmetic")

prop("C03", "Dimensions of matrices are propagated correctly",
     "A calculation, comparison or math function is a matrix if and only if one of its operands is a matrix, and has the dimensions of that "
     "matrix, however deeply it is nested. Assigning replaces the dimensions of a variable: it becomes a matrix if the assigned object is one "
     "and a plain vector otherwise, also when its length does not change. The elements of a matrix are stored column by column.",
     ["programs", "histories"],
     "all expressions with matrices, vectors and scalars; all sequences of assignments which turn vectors to matrices and back",
     "The tests check dimensions for single operations; nested expressions and the reuse of a variable with other dimensions are not covered.",
     ["BinaryCalculations.hpp", "UnaryCalculations.hpp", "Core/MatrixParameter.hpp", "Vector/AssignmentOperator.hpp", "Core/BaseStore.hpp"],
     [("dimension propagation of operations", "BinaryCalculations.hpp"), ("setMatrix on assignment", "Vector/AssignmentOperator.hpp")],
     "generated expression programs over matrices, vectors and scalars and generated assignment histories, dimensions, element order, rows and columns compared with a model after each step")

prop("C04", "Math functions are applied to every element",
     "sinus, asinus, sinush, cosinus, acosinus, cosinush, tangens, atangens, tangensh, ln, sqroot, exp and the unary minus return, for every "
     "element of any kind of object (and for a plain double), the value of the corresponding mathematical function in double precision. Also "
     "for integer and logical objects the result is not rounded (only the unary minus of integers stays an integer). The result has the length "
     "and dimensions of the argument, and the argument does not change.",
     ["inputs", "programs"],
     "13 functions, 17 kinds of arguments, all lengths and values, also outside of the domain (NaN) and at the limits; nested calls",
     "The tests evaluate each function for one small numeric vector; subsets, integers, matrices, scalars, recycling in nested calls and special values are not reached.",
     ["UnaryCalculations.hpp", "Core/Traits.hpp"],
     [("one function per operation and per kind of argument", "UnaryCalculations.hpp")],
     "differential against the C library for generated operands of 17 kinds x 13 functions, scalars and generated nested programs")

prop("C05", "Variables have value semantics",
     "An assignment or copy gives the variable exactly the elements, length and dimensions of the assigned object evaluated before the "
     "assignment; afterwards the two are independent: changing one never changes the other. This holds for every kind of assigned object "
     "(scalars, variables, subsets, calculations, function results, also those which contain the assigned variable itself), for every previous "
     "length or type of the variable (growing, shrinking, scalar, matrix, empty), and for passing to and returning from functions.",
     ["histories"],
     "all sequences of assignments, copies, moves, element changes and function calls over several variables of all types",
     "Tests assign once to a fresh variable; the behaviour depends on the previous capacity, on aliasing and on histories.",
     ["Vector/AssignmentOperator.hpp", "Vector/Constructors.hpp", "Core/BaseStore.hpp", "Vector/VectorClass.hpp"],
     [("temporary and move on assignment", "Vector/AssignmentOperator.hpp"), ("copy constructor and assignment", "Core/BaseStore.hpp")],
     "model based: random histories over numeric, integer and logical variables against plain vectors; all variables compared after every step, AddressSanitizer and leak check")

prop("C06", "Reading a subset of a vector returns the selected elements in order",
     "A subset of any object (variable, borrowed memory, matrix, function result, calculation, subset) contains exactly the selected elements "
     "in the order of the index: positions start at 1, may be repeated and may be given as int, double (truncated), a number of another C++ type, integer or numeric object "
     "of any kind; true selects everything and a logical index the elements where it is true, recycled if it is shorter. The result is a vector "
     "also for a matrix, it can be assigned, calculated with and subsetted again, and reading changes nothing.",
     ["inputs", "programs"],
     "11 kinds of subjects x 15 kinds of indices, all lengths, all positions",
     "The tests use a handful of constant indices for each type; order, duplicates, recycling and kinds of subjects are only sampled.",
     ["Subsetting/VectorSubsetting.hpp", "Core/SubsetClass.hpp", "Subsetting/UtilsSubsetting.hpp"],
     [("calculation of the positions", "Subsetting/VectorSubsetting.hpp"), ("access through the positions", "Core/SubsetClass.hpp")],
     "reference model for all pairs of subject and index kinds with generated content")

prop("C07", "Writing to a subset of a vector changes exactly the selected elements",
     "Assigning to a subset stores the values (a single value is used for every position) at the selected positions in the order of the "
     "index, so the last one counts if a position is repeated, and changes neither another element nor length nor dimensions. The assigned "
     "object is evaluated before anything is stored, also if it refers to the same variable. An assignment with another number of elements is "
     "refused with an error and changes nothing.",
     ["inputs", "histories"],
     "all kinds of variables x index kinds x kinds of assigned objects, all lengths, also self referential assignments",
     "Tests write constants to a few fixed positions; aliasing, duplicates, types and untouched elements are not settled by examples.",
     ["Subsetting/VectorSubsetting.hpp", "Vector/AssignmentOperator.hpp", "Core/SubsetClass.hpp"],
     [("assignment to a subset", "Vector/AssignmentOperator.hpp")],
     "model based histories of subset assignments for numeric, integer, logical and borrowed vectors and matrices with all index kinds and kinds of right hand sides")

prop("C08", "Reading a subset of a matrix returns the selected rows and columns",
     "A matrix subset with a row and a column index contains the elements of the cross product of the selected rows and columns, column by "
     "column in the order of the indices; every kind of index can be combined with every other. The result is a matrix with that number of "
     "rows and columns unless one of the indices is a single number; then it is a vector. Logical indices are recycled to the number of rows or columns; longer ones are refused.",
     ["inputs", "programs"],
     "all pairs of 15 kinds of indices, kinds of matrices, all dimensions",
     "There are more than 200 pairs of index kinds; the tests use some of them on a square or a small matrix.",
     ["Subsetting/MatrixSubsetting.hpp", "Core/SubsetClass.hpp", "Subsetting/UtilsSubsetting.hpp"],
     [("calculation of the positions", "Subsetting/MatrixSubsetting.hpp")],
     "reference model for all pairs of index kinds over generated matrices (variables of all types, calculations, function results, subsets)")

prop("C09", "Writing to a subset of a matrix changes exactly the selected elements",
     "Assigning to a matrix subset stores the values (a single value is used for every element) into the cross product of the selected rows "
     "and columns, column by column in the order of the indices. No other element, and neither length nor dimensions change. The assigned object is evaluated "
     "before anything is stored, and an assignment with another number of elements is refused and changes nothing.",
     ["inputs", "histories"],
     "all pairs of index kinds, kinds of assigned objects, all dimensions, sequences of assignments",
     "The tests write to few fixed positions of small matrices.",
     ["Subsetting/MatrixSubsetting.hpp", "Vector/AssignmentOperator.hpp"],
     [("assignment to a subset", "Vector/AssignmentOperator.hpp")],
     "model based histories of matrix subset assignments with all pairs of index kinds and several kinds of right hand sides")

prop("C10", "Access outside of an object is refused and never touches memory",
     "Reading or writing a position which does not exist (0, negative, beyond the length, rows or columns) through an index or through at() ends with "
     "an error instead of touching memory outside of the object, whatever kind the object and the index are. After the error no other object has changed and "
     "the object can still be used with its length and dimensions. Using a variable which has no memory is refused as well. So is false as an index, which selects nothing.",
     ["inputs", "fault_sequences"],
     "all kinds of objects and indices with at least one invalid position at any place of the index",
     "Tests try single invalid positions for some kinds; an invalid position somewhere in an index is not covered.",
     ["Subsetting/VectorSubsetting.hpp", "Subsetting/MatrixSubsetting.hpp", "Subsetting/at.hpp", "Core/BaseStore.hpp", "Core/SubsetClass.hpp", "Core/Borrow.hpp"],
     [("range checks", "Core/SubsetClass.hpp"), ("range checks", "Core/BaseStore.hpp")],
     "fault injection: valid generated accesses of every kind in which one position is replaced by an invalid one, under AddressSanitizer, with the model checking that an error is raised and that nothing else changed")

prop("C11", "Borrowed memory is used in place and never exceeded",
     "An object that borrows memory (as vector or as matrix) reads and writes exactly that memory: assignments of any kind and element changes are visible to the owner "
     "immediately, the memory is never replaced, freed or written outside of its bounds. Assigning more elements than were borrowed is "
     "refused and leaves the memory unchanged. It takes part in calculations, subsets and functions like any other variable.",
     ["histories"],
     "all sequences of assignments, subset writes and calculations on borrowed vectors and matrices, valid and invalid",
     "The tests borrow a fixed array and assign once; sequences, rejected assignments and neighbours of the memory are not observed.",
     ["Core/Borrow.hpp", "Vector/AssignmentOperator.hpp", "Vector/Constructors.hpp"],
     [("capacity check", "Vector/AssignmentOperator.hpp"), ("storage without ownership", "Core/Borrow.hpp")],
     "model based histories on borrowed memory between guard zones, the raw memory is compared with the model after every step")

prop("C12", "A range contains every step from start to end",
     "colon(a, b) contains a, then every further value in steps of one towards b (upwards or downwards) without passing b, and nothing "
     "else, for integers and for doubles, positive, negative and equal bounds; its length is the distance rounded down plus one. "
     "The result behaves like any other vector in assignments, calculations, concatenations and as an index.",
     ["inputs"],
     "all pairs of start and end (int, double, bool), used in every context",
     "Tests use four ranges.",
     ["Allocation/Colon.hpp", "Allocation/AllocationUtils.hpp"],
     [("creation of ranges", "Allocation/Colon.hpp")],
     "reference model over generated bounds (integers, fractions, descending, large) and contexts")

prop("C13", "Concatenation and repetition keep all elements in order",
     "coca returns all elements of its arguments in order and nothing else, for every number and mixture of arguments (scalars, "
     "variables of any type, borrowed memory and results of functions); matrices contribute their elements column by column. The "
     "result is an integer (logical) vector only if all arguments are integer (logical) and otherwise keeps fractions. rep(x, n) contains all elements of x in order n times, and a number of repetitions below one is refused.",
     ["inputs", "programs"],
     "all numbers, orders and kinds of arguments, all lengths, all repetition counts",
     "The tests concatenate a few fixed combinations.",
     ["Coca.hpp", "Allocation/Rep.hpp", "Allocation/AllocationUtils.hpp"],
     [("collection of the arguments", "Coca.hpp"), ("repetition", "Allocation/Rep.hpp")],
     "generated programs with random argument lists against the reference model")

prop("C14", "Constructed vectors and matrices have the requested content and size",
     "matrix(x, rows, columns) returns a matrix of these dimensions filled with the number x or column by column with the elements of x. "
     "vector_numeric, vector_integer and vector_logical return that many elements which are zero. "
     "Sizes of zero or below and a content of another length than the matrix are refused with an error.",
     ["inputs"],
     "all kinds of content, all dimensions, all kinds of dimension arguments",
     "The tests create a few matrices of fixed size.",
     ["Allocation/Matrix.hpp", "Allocation/Vector.hpp", "Vector/Constructors.hpp", "Core/BaseStore.hpp"],
     [("creation of matrices", "Allocation/Matrix.hpp"), ("creation of vectors", "Allocation/Vector.hpp")],
     "reference model over generated contents and sizes (valid and invalid)")

prop("C15", "length, dim, isNA and isInf describe the object",
     "length returns the number of elements and dim the numbers of rows and columns of any matrix (variable, result, subset or calculation); dim refuses objects which are no matrix. "
     "isNA is true exactly for the elements which are not a number and isInf exactly for the infinite ones (both signs), element by "
     "element, for scalars, variables of any type, borrowed memory and calculations.",
     ["inputs", "programs"],
     "all kinds of objects, all lengths and dimensions, special values at any place",
     "Tests check a single NaN and infinity.",
     ["Helper.hpp"],
     [("length, dim, isNA, isInf", "Helper.hpp")],
     "reference model over generated operands of all kinds with NaN and infinite values")

prop("C16", "Interpolation passes through the points and is exact for straight lines",
     "cmr evaluates a Catmull-Rom spline: at each of the given times it returns the given value, between two inner points the cubic which is defined by the "
     "four neighbouring points (in the first and the last interval the missing neighbour is the point at the other end of the series), and "
     "outside of the range the value at the boundary. A scalar time and the first element of any object as time give the same "
     "value. Times and values of different lengths and less than four points are refused.",
     ["inputs"],
     "all time and parameter series, evaluation times inside, at and outside of the range",
     "Tests compare one fixed series with a tolerance of 0.1.",
     ["Interpolation.hpp"],
     [("spline evaluation", "Interpolation.hpp")],
     "reference implementation of the spline plus metamorphic laws (points, boundaries, affine invariance, straight lines) over generated series")

prop("C17", "Derivatives are exact",
     "With a variable chosen as the independent one, every assignment of an expression of + - * /, sinus, comparisons, constants and "
     "variables also calculates the derivative of each element with respect to the independent variable according to the rules of calculus, "
     "through any sequence of assignments, for borrowed and owned variables, with recycling and with the assigned variable in the expression.",
     ["programs", "histories"],
     "all expression trees and assignment sequences over variables, constants and scalars; all choices of the independent variable",
     "The tests check derivatives of a few fixed expressions.",
     ["Derivatives/AllVars.hpp", "Derivatives/getDerivs.hpp", "Derivatives/VarPointer.hpp", "Derivatives/DerivTypes.hpp", "Vector/DerivativeCalc.hpp", "BinaryCalculations.hpp", "UnaryCalculations.hpp", "Vector/AssignmentOperator.hpp"],
     [("derivative of operations", "BinaryCalculations.hpp"), ("evaluation on assignment", "Vector/AssignmentOperator.hpp")],
     "generated programs (assignment sequences) against forward mode dual numbers in the reference model")

prop("C18", "Calculating derivatives does not change the values",
     "A program that runs with derivatives gives, for every variable after every assignment, exactly the values and lengths "
     "which the same program gives with ordinary variables, whichever variable is the independent one. "
     "Errors such as using constants of invalid size are the same in both. The functions which create constants within such programs (colon, coca, "
     "vector_numeric, vector_integer, vector_logical with a place for the constant) give the same elements as the ordinary ones, each time they are called.",
     ["programs", "histories"],
     "all programs in the language subset which supports derivatives, all independent variables",
     "The tests compare values of derivative programs only for a few fixed expressions.",
     ["Derivatives/AllVars.hpp", "Derivatives/VarPointer.hpp", "Derivatives/DerivTypes.hpp", "Allocation/AllocationUtils.hpp", "Allocation/ScalarForDeriv.hpp", "Coca.hpp", "Vector/AssignmentOperator.hpp"],
     [("constants stored with the variables", "Derivatives/AllVars.hpp"), ("assignment of variables with derivatives", "Vector/AssignmentOperator.hpp")],
     "differential: the same generated program with and without derivatives, and against the reference model")

prop("C19", "No sequence of operations corrupts or leaks memory",
     "No program built from the operations of the library, including operations that are refused with an error in the middle of an expression, reads or "
     "writes memory outside of its objects, uses freed memory, frees twice or leaks. After a refused operation the program "
     "can continue, and all variables are released exactly once.",
     ["histories", "fault_sequences"],
     "all sequences of creations, copies, moves, assignments, subsets, function calls and failing operations",
     "Tests run without sanitizers and without histories which mix growing, moving and failing operations.",
     ["Core/BaseStore.hpp", "Core/Borrow.hpp", "Core/SubsetClass.hpp", "Vector/AssignmentOperator.hpp", "Vector/Constructors.hpp", "Coca.hpp"],
     [("ownership of the memory", "Core/BaseStore.hpp")],
     "random histories under AddressSanitizer and UndefinedBehaviorSanitizer with an allocation balance over repeated runs")

prop("C20", "Printed output shows exactly the content",
     "print writes every element of an object in order (vectors one by one, matrices row by row with one line per row) such that "
     "reading the output back gives the elements, for every kind of object, scalars and strings; logical elements are always printed as true and false. Printing changes nothing, neither the object nor the format of the stream. "
     "Writing an object into a stream shows the same elements. The functions which print types and expression trees write "
     "the type, with one level of indentation for each level of nesting.",
     ["inputs", "programs"],
     "all kinds of objects, lengths, dimensions and values",
     "No test looks at the printed output.",
     ["Printing.hpp"],
     [("print functions", "Printing.hpp")],
     "round trip: the captured output is parsed and compared with the model for generated operands of all kinds")

prop("C21", "Conversions between numeric, integer and logical follow C++ rules",
     "Assigning or storing into a variable or subset of another type converts each element: numbers are truncated towards zero for integer targets, are true "
     "unless they are zero for logical targets, and integers and logicals become the same number in numeric targets. This holds for "
     "every kind of source (scalar, variable, subset, calculation, function result), and converting up and down again gives the same values.",
     ["inputs", "histories"],
     "all pairs of source and target types, all source kinds, all values in the range of the target",
     "Tests convert single values.",
     ["Vector/AssignmentOperator.hpp", "Vector/Constructors.hpp", "Core/BaseStore.hpp"],
     [("element wise conversion on assignment", "Vector/AssignmentOperator.hpp")],
     "reference model over all pairs of source kind and target type, chains of conversions and conversions while writing subsets")

prop("C22", "at() accesses exactly one element",
     "at(x, i) of a variable refers to the element at position i, counted from 1, and at(m, r, c) to the element in row r and column c, for positions "
     "given as int or double and for variables of every type. Reading returns this element and writing through it changes this element and "
     "nothing else; elements of constant variables can only be read.",
     ["inputs", "histories"],
     "all kinds of variables and positions, reads and writes",
     "Tests read few elements.",
     ["Subsetting/at.hpp"],
     [("access to one element", "Subsetting/at.hpp")],
     "model based histories of reads and writes at generated positions")

prop("C23", "The storage keeps its content through every operation",
     "The storage classes behave like a growable array: after any sequence of resize, reallocation, appending, filling, copying, moving and "
     "element changes, size and content are those of a plain array, the capacity is never below the size and never exceeded. Growing by appending "
     "keeps all elements; copies are independent; moved objects hand over their memory.",
     ["histories"],
     "all sequences of storage operations for all element types",
     "Tests call each operation once on a small storage.",
     ["Core/BaseStore.hpp", "Core/Borrow.hpp"],
     [("capacity management", "Core/BaseStore.hpp")],
     "model based: random operation sequences for double, int and bool storage against std::vector under sanitizers")

prop("C24", "Iterating visits every element once and in order",
     "A range based loop over a variable (or its storage), borrowed object, subset of a variable or function result visits exactly its elements, each once and in "
     "order; changing elements through the loop variable of a variable changes these elements. Nothing else is visited or changed, "
     "also for empty, scalar and matrix objects; loops over constant variables only read.",
     ["inputs", "programs"],
     "all kinds of objects, all lengths",
     "Tests iterate over two fixed vectors.",
     ["Vector/VectorClass.hpp", "Core/BaseStore.hpp", "Core/Borrow.hpp"],
     [("begin and end", "Vector/VectorClass.hpp")],
     "reference model over generated operands of all kinds, reads and writes in loops")

prop("C25", "Linear interpolation is exact",
     "li returns for a time the value on the straight line between the two neighbouring points, exactly the given value at a point and the value at the "
     "boundary outside of the range, for scalars and for objects with one element as time. Times and values of different lengths are refused.",
     ["inputs"],
     "all increasing time series, values, and evaluation times inside, at and outside of the range",
     "Linear interpolation is not tested at all.",
     ["Interpolation.hpp"],
     [("linear interpolation", "Interpolation.hpp")],
     "reference implementation over generated series")

prop("C26", "Whole programs compute what the same C++ program computes",
     "Programs written with the library (loops, conditions, element access, matrices, functions with arguments passed by value or reference) "
     "end with the same variables as the same algorithm in plain C++. Sorting, prime sieve, Fibonacci numbers, matrix products, "
     "ODE steps, moving averages and similar algorithms give the same results for every input. "
     "This also holds for programs of several translation units.",
     ["programs", "inputs"],
     "a set of algorithms with generated inputs",
     "Examples are not executed by the tests, and the tests have no programs which mix features.",
     ["Vector/VectorClass.hpp", "Subsetting/at.hpp", "Subsetting/VectorSubsetting.hpp", "Subsetting/MatrixSubsetting.hpp", "BinaryCalculations.hpp", "Allocation/Colon.hpp"],
     [("the public interface as a whole", "Vector/VectorClass.hpp")],
     "differential against native implementations with generated inputs")

prop("C27", "R objects are used in place and converted exactly",
     "An object which borrows an R vector or matrix (BorrowSEXP, used when the library runs within R) reads and writes exactly this R object as long as the objects assigned "
     "to it have not more elements; with more elements it continues with memory of its own. Memory of R is never freed, exceeded or replaced. Copying "
     "an R object into a variable, cpp2R, and conversions to and from Rcpp and Armadillo types preserve type, elements, length and dimensions and are "
     "independent copies; R's protection stack is balanced. R objects of other types are refused, and then nothing is changed. Programs with derivatives "
     "whose variables are R objects calculate the same as with memory of the library.",
     ["histories", "inputs"],
     "all R vectors and matrices of type numeric, integer and logical, all sequences of assignments to objects which borrow them, all conversions",
     "The test suite is compiled with STANDALONE_ETR, which removes the whole connection to R.",
     ["Core/BorrowSEXP.hpp", "SEXPConversions.hpp", "Core/BaseStore.hpp", "Vector/VectorClass.hpp", "Vector/AssignmentOperator.hpp"],
     [("borrowing of R memory", "Core/BorrowSEXP.hpp"), ("copying R objects", "Core/BaseStore.hpp"), ("conversions", "SEXPConversions.hpp")],
     "model based histories and round trips on a stand-in for the R API which keeps R's objects, their memory with guards and the protection stack; the library is compiled without STANDALONE_ETR")

prop("C28", "Distribution functions are vectorised like those of R",
     "dunif, punif, qunif, runif and the functions of the same kind for the normal, log-normal and gamma distribution apply R's function element by element "
     "with all arguments recycled, and the result is as long as the longest argument. The random functions return the requested number of draws with recycled "
     "parameters, refuse less than one, and save the state of the random number generator. The gamma functions take the rate.",
     ["inputs"],
     "all 16 functions, all kinds of arguments, all lengths",
     "The distribution functions exist only within R, the test suite does not compile them.",
     ["Distri.hpp"],
     [("recycling of the arguments", "Distri.hpp")],
     "reference model over generated arguments with R's scalar functions replaced by a stand-in which makes every argument visible in the result; the library is compiled without STANDALONE_ETR")

prop("C29", "Exhausted memory is reported and damages nothing",
     "If memory is exhausted while a statement is executed, the caller gets std::bad_alloc and all variables are intact: those which are not assigned are unchanged, "
     "and if the memory for elements is missing the assigned variable (or its subset, or borrowed memory) keeps its previous content too. Nothing is leaked, freed twice or accessed "
     "after it was freed; the statement can be repeated and the variables can be used further. An object which is too large for the memory, or has more elements than can be counted, is never created with less memory or fewer elements than requested.",
     ["fault_sequences", "histories"],
     "all statements, all histories, each allocation of a statement",
     "No test lets an allocation fail.",
     ["Core/BaseStore.hpp", "Vector/AssignmentOperator.hpp", "Vector/Constructors.hpp", "Coca.hpp"],
     [("new memory is requested before the old one is given up", "Core/BaseStore.hpp"), ("evaluation into a temporary before the assignment", "Vector/AssignmentOperator.hpp")],
     "fault injection: generated statements in which the n-th allocation fails, under AddressSanitizer with snapshots of all variables and an allocation balance; the statement is repeated with enough memory")

prop("C30", "Threads with objects of their own do not influence each other",
     "Threads which work with variables of their own (and only read shared ones) get the same results as if they ran one after the other: the library has no "
     "hidden state, so there are no data races, and a call never depends on earlier calls. This includes calculations, subsets, functions, interpolation and derivatives.",
     ["schedules", "histories"],
     "all interleavings of any statements of several threads on separate variables",
     "The tests use one thread.",
     ["Vector/VectorClass.hpp", "Vector/AssignmentOperator.hpp", "Interpolation.hpp", "Core/SubsetClass.hpp", "Derivatives/AllVars.hpp"],
     [("scratch memory belongs to each variable", "Vector/VectorClass.hpp")],
     "generated histories executed first alone and then in two to four threads with ThreadSanitizer; the final variables are compared")


prop("C31", "A warning appears exactly when something is ignored",
     "An operation which uses only the first element of an argument (the dimensions of matrix, times of rep, start and end of colon, the time of cmr, a logical condition) warns if and only if the argument has "
     "more than one element, and a single size or position with decimal places (matrix, rep, vector_numeric, subset) warns if and only if they are cut off. All other operations, including assignments, calculations, "
     "functions, combinations, conversions of vectors and subsets with vectors, write nothing, neither to the output nor as a warning; the result is the same in programs for R, where warnings go to Rcpp::warning. "
     "Not specified: conversions of an object with several elements to a number, at() with decimal places, decimal places in vectors of positions, the time of li, vector_integer and vector_logical with decimal places.",
     ["inputs", "programs"],
     "all operations, kinds of arguments, lengths and values",
     "No test looks at the warnings.",
     ["Core/Utils.hpp", "Allocation/AllocationUtils.hpp", "Allocation/Matrix.hpp", "Allocation/Colon.hpp", "Allocation/Rep.hpp", "Interpolation.hpp", "Vector/VectorClass.hpp", "Subsetting/UtilsSubsetting.hpp"],
     [("warn", "Core/Utils.hpp"), ("one element is used", "Allocation/Matrix.hpp")],
     "the captured output (with and without STANDALONE_ETR) of generated calls is compared with a rule about the lengths and decimal places of the arguments")

prop("C32", "Meaningless programs are refused by the compiler",
     "A program which assigns to a calculation, comparison, function result, a part of one of these, or to a constant variable, its elements or parts; which takes a part of a plain number; which uses something else than "
     "numbers and vectors of them as index, position, operand, value of a variable or argument of coca, colon, matrix (content), vector_*, length and isNA; or which interpolates (cmr) with a number, integer or logical vector "
     "instead of numeric vectors does not compile. The same program with a legal expression at this place compiles.",
     ["programs"],
     "all programs of assignments, calculations, subsets and function calls with one misuse at any place",
     "A test which compiles cannot contain such a program.",
     ["Vector/AssignmentOperator.hpp", "Subsetting/ScalarSubsetting.hpp", "Subsetting/VectorSubsetting.hpp", "Subsetting/MatrixSubsetting.hpp", "Subsetting/at.hpp", "Interpolation.hpp", "Allocation/Vector.hpp", "Vector/Constructors.hpp"],
     [("refused assignments", "Vector/AssignmentOperator.hpp"), ("refused subsets", "Subsetting/ScalarSubsetting.hpp")],
     "generated programs are compiled with one misuse (has to be refused) and without it (has to be accepted); a refused program is shrunk to its misuse")

prop("C33", "The effort of evaluations does not explode",
     "Evaluating a calculation, with or without derivatives, takes a time which grows moderately (polynomially) with the number of its operations, however they are nested: a formula with thirty "
     "operations on a few elements is evaluated at once. The time of an operation on vectors and matrices (assigning, calculating, reading and writing subsets, appending, "
     "concatenating, repeating, ranges, interpolation, derivatives) grows in proportion to the number of elements; it is not quadratic.",
     ["programs", "inputs"],
     "all shapes of calculations and all operations with growing numbers of operations and elements",
     "The tests use calculations with two or three operations and few elements and do not measure anything.",
     ["BinaryCalculations.hpp", "UnaryCalculations.hpp", "Derivatives/DerivTypes.hpp", "Core/BaseStore.hpp", "Core/SubsetClass.hpp", "Vector/AssignmentOperator.hpp"],
     [("size of nested calculations", "BinaryCalculations.hpp"), ("growth of the memory", "Core/BaseStore.hpp")],
     "generated families of calculations (18 kinds, 5 with derivatives) with up to 30 operations and 34 operations with doubling numbers of elements: CPU time against a limit or the growth of an eightfold size, and all values against a model",
     observe="CPU time of the evaluating thread")


def main():
    # every property has exactly one line
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": p["mech"]}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["cant"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 vf.py setup", "checks": [], "not_applicable": [], "notes":
         "Property based testing: generated operands, indices, histories and programs against reference models. "
         "See DESIGN.md. No hooks are needed in the repository."}
    for p in P:
        i = p["id"]
        if p["na"]:
            m["not_applicable"].append({"property": i, "reason": p["na"]})
        elif not os.path.exists(os.path.join(HERE, "checks", i, "check.json")):
            m["not_applicable"].append({"property": i, "reason": "the check is under construction"})
        else:
            m["checks"].append({"property": i, "quick_cmd": "python3 vf.py check %s --tier quick" % i,
                                "thorough_cmd": "python3 vf.py check %s --tier thorough" % i,
                                "technique": "property-based testing (generated inputs, shrinking, replay): " + p["note"].split(";")[0],
                                "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
