#!/usr/bin/env python3
# Source of properties.jsonl (run by hand: python3 tools_props.py > properties.jsonl).
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    P.append(d)

V='strictpp/StrictCommon/strict_val.hpp'; M='strictpp/StrictCommon/strict_math.hpp'; O='strictpp/StrictCommon/strict_val_ops.hpp'
p('C01','Strict scalars compute exactly what the built-in types compute',
 "For every supported built-in type T and all operands for which the built-in operation is defined, each arithmetic, compound-assignment, increment/decrement, bitwise, shift, comparison and logical operator of Strict<T>, and each explicit conversion between strict types, yields bit for bit the value the built-in operation yields. Compound assignments and increments modify only their left operand, prefix forms return the updated object and postfix forms the old value, and no operation alters an operand passed by value.",
 ['inputs'],"all pairs of values of bool, int, long, unsigned, unsigned long, float, double, long double and float128, including limits, signed zeros, infinities, NaN and denormals, for every operator and every cast pair",
 "The tests evaluate a few literals per type; the claim is over all operand values (wrap-around, sign bits, rounding, NaN comparisons).",
 [V],[('operators forward to the built-in operator on the unwrapped value',V),('explicit casts si/sl/sui/sul/sf/sd/sld/sq, strict_cast',V)],['Strict<T>::val()'])
p('C02','Invalid scalar operations are rejected, valid ones never are',
 "Integer division or remainder by zero and signed shifts with a negative operand raise the library's error, leaving the left operand of a compound form unchanged, and the same operators never raise it for any other operands. Helpers with a documented domain (factorial, binom_coeff, integer pows, pow_prods, clamps, in_open/in_closed, and the non-negative size/position/count wrappers) raise it for every argument outside that domain and never inside it.",
 ['inputs'],"all operand values of all integer types for / % << >> and their compound forms; all arguments of the domain-checked helpers",
 "The tests check a handful of rejecting literals; a check that is missing for one type or one compound form, or off by one at a boundary, is not exercised.",
 [V,O,M,'strictpp/StrictCommon/error.hpp','strictpp/StrictCommon/auxiliary_types.hpp'],[('ASSERT_STRICT_*_DEBUG checks in scalar operators',V),('domain assertions of scalar helpers',O)])
p('C03','Scalar math helpers compute their mathematical definition',
 "For every argument in its domain, each scalar helper returns its definition: sign, absolute value, min, max, square, cube, reciprocal, clamp, open/closed interval membership, integer powers, factorial and binomial coefficient are exact (floating results correctly rounded step by step), and the transcendental, rounding, classification and fma wrappers return exactly what the platform's function for that same floating type returns. Repeated-squaring integer powers of floating values, negative exponents included, agree with the true power to within rounding.",
 ['inputs'],"all arguments, all integer and floating types, exponents of both signs and both parities",
 "Tests call each helper on one or two small values of one type.",
 [M,O],[('thin wrappers over <cmath>/libquadmath',M),('square-and-multiply loops, binomial product',O)])
p('C04','Error-free transformations account for the rounding error exactly',
 "For floating x and y whose sum or product neither overflows nor underflows, two_sums and two_prods return the rounded result together with a correction such that result plus correction equals the exact real sum or product. pow_prods returns a leading part equal to a rounded power and a correction that makes their sum accurate to nearly twice the working precision for every non-negative exponent, and the array forms two_prod and pow_prod do the same element by element.",
 ['inputs'],"all finite float, double, long double and float128 operands outside the overflow/underflow range, widely differing exponents, all small exponents p >= 0",
 "Exactness fails only on operands with particular exponent gaps and bit patterns; the tests compare a few values with a tolerance.",
 [O,'strictpp/Expr/binary.hpp','strictpp/Expr/functors.hpp'],[('Knuth TwoSum, FMA TwoProd, compensated power',O)])
A1='strictpp/array_base1D.hpp'; A2='strictpp/array_base2D.hpp'
p('C05','Any history of 1D array operations leaves the array equal to a list model',
 "After any sequence of constructions, assignments, element writes, resizes (preserving or not), resize-and-assigns, insertions and removals (by position, position and count, index list, front, back, last with any offset), swaps, copies and moves, a dynamic 1D array has exactly the size and elements that the same operations give on an ordinary sequence. Elements that an operation does not mention keep their value and order, operands other than the target are unchanged, and freshly grown storage is zero.",
 ['histories'],"all sequences of public mutating operations with valid arguments on Array1D of every element type and both alignment modes, including empty arrays and operands that are expressions, slices or scalars",
 "The tests run each operation a few times from a fixed array; sequences, empty cases, and interactions of operations are not covered.",
 [A1,'strictpp/derived1D.hpp','strictpp/ArrayCommon/algorithm.hpp'],[('insert/remove/resize/swap of the dynamic array',A1)],['size(), operator[], iteration'])
p('C06','Any history of 2D array operations leaves the array equal to a matrix model',
 "After any sequence of constructions, assignments, resizes, row and column insertions and removals (single, counted, index lists, last with any offset, several rows or columns of another array or expression), swaps, copies and moves, a dynamic 2D array has exactly the rows, columns and elements that the same operations give on a plain row-major matrix. Rows and columns not mentioned keep their contents and relative order, and operands other than the target are unchanged.",
 ['histories'],"all sequences of public mutating operations with valid arguments on Array2D of every element type, including empty arrays",
 "The tests perform each row/column operation on one or two fixed shapes.",
 [A2,'strictpp/derived2D.hpp'],[('insert_rows/insert_cols/remove_rows/remove_cols/resize/resize_and_assign',A2)],['rows(), cols(), operator()'])
p('C07','A failed array operation leaves the array unchanged',
 "When an insertion, removal, resize, resize-and-assign, assignment, construction-from-list or read on an array is rejected for invalid arguments, or evaluating its operand expression raises an error part-way in an operation that changes the array's size, the array keeps its previous size and all of its previous elements and stays usable. Every invalid argument of these operations (negative or out-of-range position, count, index, unordered or duplicate index list, mismatching size) is rejected.",
 ['fault_sequences','inputs'],"all invalid arguments of the mutating operations, and operand expressions that fail at any element, on arrays of any size including empty",
 "The tests assert the throw on a few arguments and never look at the array afterwards, except for one resize_and_assign case.",
 [A1,A2,'strictpp/ArrayCommon/valid.hpp'],[('argument checks before mutation; build-then-swap in resizing operations',A1)])
p('C08','Out-of-range access is always rejected and in-range access never is',
 "Reading or writing an element, row, column, diagonal or block through any checked accessor of an array, slice, view or expression with an index outside the current extent raises the library's error, and every index inside it (including `last` with any valid offset) is accepted and designates that very element. Access through `at` is checked even in builds with debug checks disabled, and whole-array assignment between different sizes is always rejected in checked builds.",
 ['inputs','configurations'],"all integer indices (negative, boundary, huge) on all array kinds and shapes, in checked and in debug-off builds",
 "Tests probe one or two out-of-range indices per class.",
 ['strictpp/derived1D.hpp','strictpp/derived2D.hpp','strictpp/ArrayCommon/valid.hpp','strictpp/slice.hpp'],[('valid_index / valid_row / valid_col checks','strictpp/ArrayCommon/valid.hpp')])
S='strictpp/slice.hpp'
p('C09','1D slices select exactly the described elements, for reading and writing',
 "Every 1D slice (start/size/stride, first/last/stride, all, even, odd, reverse, skip-n, first-n, last-n, complement, explicit index lists, and any nesting of these) has the size and the element sequence given by its description, with negative and zero strides included, and a description that reaches outside the array is rejected. Writing through a slice changes exactly the designated elements of the underlying array and nothing else, and a slice stays a live view of that array.",
 ['inputs','histories'],"all slice descriptions, valid or not, nested to any depth, on arrays, fixed arrays, attached memory, rows, columns and expressions",
 "Tests enumerate a few slices of short arrays; boundary arithmetic of strides, remainders and nesting is not covered.",
 [S,'strictpp/slicearray_base1D.hpp'],[('seqN/seq/placeholders resolve to (start,size,stride)',S),('slice wrapper index mapping','strictpp/slicearray_base1D.hpp')])
p('C10','2D views and slices select exactly the described elements',
 "Rows, columns, row and column ranges, main and offset diagonals, blocks, two-dimensional slices, 1D views of 2D arrays and 2D views of 1D arrays address exactly the elements their description names, in the documented order, for reading and for writing, on every shape including empty ones. Writing through a view changes exactly those elements of the underlying array, and a description outside the array or a view shape whose product differs from the size is rejected.",
 ['inputs','histories'],"all view descriptions on all 2D shapes and 1D sizes, nested views included",
 "Tests use a few fixed shapes; offset diagonals, rectangular shapes, empty ranges and nested views are not covered.",
 ['strictpp/derived2D.hpp','strictpp/derived1D.hpp',S,'strictpp/slicearray_base2D.hpp'],[('row/col/diag/block/view1D/view2D','strictpp/derived2D.hpp')])
p('C11','Lazy element-wise expressions equal eager element-by-element evaluation',
 "Any expression built from arrays, slices, scalars and the element-wise operators and functions evaluates, at every index, to exactly the value obtained by applying the same scalar operations to the operands' elements, whether it is indexed, iterated, evaluated, assigned, or used through a compound assignment, and regardless of how sub-expressions are shared or nested. Expressions do not modify their operands, reflect operand values current when read, and combining operands of different sizes is rejected.",
 ['programs','inputs'],"all expression trees over 1D and 2D operands of every element type, all sizes, all operand values in the domain of the scalar operations",
 "Tests evaluate a fixed list of one- and two-operator expressions on small arrays.",
 ['strictpp/Expr/unary.hpp','strictpp/Expr/binary.hpp','strictpp/Expr/types.hpp','strictpp/Expr/functors.hpp'],[('unary/binary lazy nodes and functors','strictpp/Expr/types.hpp')])
p('C12','Structural expressions place every element where their definition says',
 "Merging (vertical and horizontal), excluding (index, range, last with offset), transposing, sequences, ranges and linspace, constants, identity and unit vectors, row/column reductions and broadcasts, matrix-vector products and tensor products, and generator functions have the extents their definition prescribes and, at every index, exactly the element that definition prescribes; linspace and irange hit their end points. Arguments with no meaning (out-of-range exclusions, mismatching extents, negative sizes) are rejected.",
 ['inputs','programs'],"all operand shapes including empty and single-element ones, all parameters, all element types, arbitrary expression operands",
 "Tests check each on one fixed small operand.",
 ['strictpp/Expr/special.hpp','strictpp/Expr/types.hpp','strictpp/array_ops.hpp'],[('index-mapping expression nodes','strictpp/Expr/special.hpp')])
p('C13','Reductions and queries equal their definition on every array',
 "Sums, products, means, minima, maxima and their indices, dot products, norms, polynomial evaluation, equality, and any/all/none style predicates return what their definition gives on the element sequence, index queries returning the first position attaining the extremum, for arrays, slices and expressions of any size and of one or two dimensions. On empty input the result is the stated default or a rejection, as documented for each function.",
 ['inputs'],"all element sequences of every type, including empty, single-element, repeated-extremum and all-negative inputs",
 "Tests use short ascending arrays; ties, negative values and non-contiguous views are not covered.",
 ['strictpp/array_ops.hpp'],[('reduction loops','strictpp/array_ops.hpp')])
p('C14','Stable and semi-stable operations meet their compensated error bounds',
 "For every floating input whose intermediate results do not overflow or underflow, the stable sum, mean, product, dot product, norm and polynomial operations return a value whose error against the exact real result is within the compensated bound (one unit roundoff of the result plus the square of the roundoff times the condition of the input), however ill-conditioned the input. The semi-stable variants stay within their own, weaker classical bound.",
 ['inputs'],"all finite floating inputs, especially heavy cancellation and widely varying magnitudes, all lengths",
 "Loss of compensation shows only on ill-conditioned data; the tests check a few constructed sums.",
 ['strictpp/array_stable_ops.hpp',O],[('compensated accumulation','strictpp/array_stable_ops.hpp')])
p('C15','Sorting, range queries, visiting and shuffling respect their contracts',
 "Sorting in increasing or decreasing order produces an ordered permutation of the input for every array kind, and shuffling produces a permutation. Range queries and condition scans return exactly the indices (in order) or truth value their predicate defines, and visiting functions call the user's function once per element in order and write back exactly its effect.",
 ['inputs'],"all element sequences, all bounds, slices and 2D arrays included",
 "Tests sort one short array; duplicates, slices and long inputs are not covered.",
 ['strictpp/array_ops.hpp','strictpp/ArrayCommon/algorithm.hpp'],[('sort/for_each/in_range helpers','strictpp/array_ops.hpp')])
p('C16','Iterators obey random-access laws and visit every element once',
 "Forward, const and reverse iterators of arrays, slices and expressions, and the row, column and index-range iterators of 2D objects, satisfy the random-access laws (begin plus n reaches element n, differences and comparisons agree with positions, increments and decrements invert each other) and visit every element exactly once in order. Dereferencing or subscripting an iterator outside its range, using a null iterator, and comparing or subtracting iterators of different arrays are rejected in checked builds, and standard algorithms run on them give the same result as on a plain vector.",
 ['histories','inputs'],"all sequences of iterator operations on all array kinds and shapes",
 "Tests walk each iterator once from begin to end.",
 ['strictpp/iterator.hpp'],[('iterator position arithmetic and range assertions','strictpp/iterator.hpp')])
p('C17','Text output reads back to the same value; malformed input is rejected whole',
 "Writing a scalar or an array to a stream or file with enough digits and reading the text back yields the same extents and bit-identical elements, for every element type. Reading text that is not a well-formed array (a bad, truncated or out-of-range number anywhere, ragged rows) raises the library's error and leaves the target array unchanged, and never touches memory outside it, in debug-off builds too.",
 ['inputs','configurations'],"all arrays of all element types and shapes; all byte strings as input text",
 "The tests contain no input/output round trip at all.",
 ['strictpp/array_IO.hpp','strictpp/StrictCommon/strict_IO.hpp'],[('stream operators and row parsing','strictpp/array_IO.hpp')])
p('C18','Error-measuring tools return the defined absolute and relative errors',
 "The absolute- and relative-error functions and their maximum forms over arrays return the defined quantity for every pair of inputs, including zero references and inputs of both signs (NaN never counts as within a tolerance), and the within-tolerance predicates are true exactly when that quantity does not exceed the tolerance. Negative tolerances and mismatching sizes are rejected, and both argument orders are treated as defined.",
 ['inputs'],"all scalar and array pairs and tolerances of every floating type",
 "Tests use one pair per function.",
 ['strictpp/Util/error_tools.hpp'],[('error formulas','strictpp/Util/error_tools.hpp')])
p('C19','Random generation stays in range, avoids zero when asked, and terminates',
 "For every valid range the random and semi-random scalar and array generators return only values inside the closed range, the not-zero variants never return zero, every call terminates, and both end values of a small integer range and both boolean values do occur. Semi-random generation is a pure function of its seed and range, and invalid ranges are rejected.",
 ['inputs'],"all ranges low <= high of every type, all seeds, all array sizes and kinds",
 "Tests draw a few values from one range; termination and range membership are universal claims.",
 ['strictpp/Util/random.hpp','strictpp/Util/semi_random.hpp'],[('distribution and rejection loops','strictpp/Util/random.hpp'),('congruential generator','strictpp/Util/semi_random.hpp')])
p('C20','No public expression or view can outlive the storage it refers to unnoticed',
 "Building a lazy expression, slice, view or iterator-based object directly on a temporary owning array is rejected at compile time for every operation that would keep a reference to it. Every expression over temporary slices or temporary sub-expressions that the library accepts stays valid and yields the same values after those temporaries are gone.",
 ['programs'],"all single operations applied to temporaries in each argument position, and all nestings of operations on temporary views and expressions",
 "The tests never check rejection, and evaluate expressions within the full-expression that created them.",
 ['strictpp/Expr/unary.hpp','strictpp/Expr/binary.hpp','strictpp/Expr/special.hpp','strictpp/Expr/types.hpp','strictpp/derived1D.hpp','strictpp/derived2D.hpp'],[('deleted overloads for owning temporaries; nodes stored by value, owners by reference','strictpp/Expr/types.hpp')])
p('C21','Fixed-size arrays behave like dynamic arrays of the same shape',
 "For every shape and operation they share, fixed-size 1D and 2D arrays give the same results, accept and reject the same arguments, and convert to and from dynamic arrays without changing any element. Elements of all arrays are stored contiguously in row-major order, aligned arrays start on their promised boundary after any operation, and default-constructed elements are zero.",
 ['histories','inputs'],"all operation sequences on FixedArray1D/FixedArray2D of several shapes versus Array1D/Array2D, all element types, aligned and unaligned",
 "Tests duplicate a few cases for both kinds without comparing them.",
 ['strictpp/fixed_array_base1D.hpp','strictpp/fixed_array_base2D.hpp',A1,A2,'strictpp/ArrayCommon/alignment.hpp'],[('fixed storage and alignment','strictpp/fixed_array_base1D.hpp')])
p('C22','Attached arrays and raw data pointers alias exactly the intended memory',
 "An array attached to external memory reads and writes exactly that memory, element i of the view being element i of the buffer (row-major in two dimensions), never touches memory outside the stated extents, and never frees or copies it. The raw data accessors of owning and fixed arrays point at their first element, and values written through them are seen by the array and conversely.",
 ['histories','inputs'],"all extents and offsets, all element types, sequences of mixed reads and writes through the view and the buffer",
 "Tests attach one small buffer.",
 ['strictpp/attach1D.hpp','strictpp/attach2D.hpp',A1,A2],[('pointer-backed bases','strictpp/attach1D.hpp')])
p('C23','Compile-time evaluation gives the same results as run-time evaluation',
 "Any program over the part of the interface declared constexpr (fixed and dynamic arrays, slices, expressions, reductions and scalars) that runs without being rejected can also be evaluated in a constant expression, and yields there exactly the values it yields at run time. A program whose run-time execution is rejected by the library is not accepted as a constant expression.",
 ['programs'],"all programs over the constexpr part of the API",
 "The tests only check that some constexpr calls compile.",
 ['strictpp/StrictCommon/config.hpp',V,'strictpp/Expr/types.hpp','strictpp/array_ops.hpp'],[('STRICT_CONSTEXPR functions',V)])
p('C24','No implicit conversion or mixed-type arithmetic compiles',
 "No binary operator, compound assignment, comparison, construction or assignment between strict values, arrays or expressions of two different element types compiles (nor, for arrays, of different dimensions), nor does one between a strict value and a raw built-in value of a different type, an implicit conversion of a strict value to a built-in type (except Strict<bool> to bool), or an operator outside its type's domain such as remainder on floating values (for a lazy array expression: its evaluation). Every same-type combination that the operators are defined for does compile and has the operands' element type.",
 ['programs'],"the full matrix of operators, operand types, operand kinds and argument positions",
 "The tests only contain code that compiles, so nothing fails when a forbidden conversion becomes possible.",
 [V,'strictpp/StrictCommon/strict_traits.hpp','strictpp/concepts.hpp','strictpp/Expr/binary.hpp'],[('concept-constrained templates and deleted constructors',V)])
p('C25','Disabling debug checks never changes the result of a valid program',
 "Any sequence of valid operations produces identical results with debug checks enabled and disabled, with exceptions or assertions as the error mechanism, and at any optimisation level. Checks that are always on (bounds of at(), reshaping, text input) still reject when debug checks are disabled.",
 ['configurations','programs'],"all valid operation sequences under every error-mode and optimisation configuration",
 "The tests are built in one configuration only.",
 ['strictpp/StrictCommon/error.hpp','strictpp/StrictCommon/config.hpp'],[('ASSERT_STRICT_DEBUG / ASSERT_STRICT_ALWAYS macros','strictpp/StrictCommon/error.hpp')])
p('C26','Eigen interoperability preserves elements and products',
 "Mapping a 2D array (dynamic or fixed, of any shape) to Eigen exposes exactly its elements in place, in row-major position, and the matrix product of any two conforming 2D arrays, returned or written into a destination (which may be an operand), equals the mathematical product. Non-conforming operands are rejected.",
 ['inputs'],"all shapes, including rectangular and single-row/column ones, of every floating and integer type Eigen supports",
 "No test includes the Eigen part.",
 ['strictpp/Eigen/map.hpp','strictpp/Eigen/matrix_ops.hpp'],[('Eigen::Map over data','strictpp/Eigen/map.hpp')])
p('C27','Copies are independent, moves transfer, and self-operations are harmless',
 "A copy of an array has equal elements and shares no storage with its source, so later changes to either never affect the other; a move gives the target the source's former elements and leaves the source a valid, assignable array. Self-assignment, self-move and self-swap leave an array unchanged, assigning between views copies elements instead of rebinding, and swapping exchanges the contents exactly.",
 ['histories'],"all sequences of copies, moves, swaps and writes over sets of arrays, slices and views",
 "Tests copy or move a fixed array once.",
 [A1,A2,'strictpp/derived1D.hpp','strictpp/derived2D.hpp'],[('special members of bases and mutable views',A1)])
p('C28','Allocation failure at any point loses nothing and leaks nothing',
 "If any memory allocation during a construction, copy, resize, insertion, removal, assignment or evaluation fails, the operation propagates the failure, every array it was to change keeps its previous contents, and all memory allocated on the way is released. Without failures, every history of operations releases all of its memory when its arrays are destroyed.",
 ['fault_sequences'],"every allocation point of every operation in generated histories",
 "No test injects a failure or counts allocations.",
 [A1,A2,'strictpp/ArrayCommon/alignment.hpp'],[('owning storage released by RAII; build-then-swap',A1)])
p('C29','Threads do not disturb each other',
 "Operations of different threads on different objects, and operations that only read a shared (constant) object - element access, slices and views, lazy expressions, comparisons, reductions, iteration, copying and printing - may run at the same time: there is no data race, and each thread observes exactly what it observes alone. Random values and shuffles may be drawn in several threads at once (each random expression belonging to one thread). Under every interleaving.",
 ['schedules'],"all combinations of operations of two to four threads and all interleavings",
 "All tests are single threaded.",
 ['strictpp/StrictCommon/strict_IO.hpp','strictpp/StrictCommon/strict_random.hpp',A1,A2],[('buffers and engines per thread, no shared mutable state','strictpp/StrictCommon/strict_IO.hpp')])
p('C30','Rejections are reported, and stop the operation at the check',
 "With STRICT_ERROR_EXCEPTIONS a rejected call throws StrictException, a std::exception whose message - valid as long as the exception or a copy lives - says what was violated (index range, integer division, remainder, shift operands), and names file, function, line and the failed condition. Without it the same calls, and no others, end the program by a failed assertion (SIGABRT) with that condition and place on the error stream, after exactly the effects of the valid calls before; with STRICT_STACKTRACE a trace is printed first. Valid programs print nothing.",
 ['histories'],"all programs and arguments; every check of the library",
 "Tests call valid operations, or observe that something is thrown in a few cases.",
 ['strictpp/StrictCommon/error.hpp','strictpp/StrictCommon/config.hpp'],[('assertion macros','strictpp/StrictCommon/error.hpp')])
p('C31','Results do not depend on compiler, language standard or optimisation',
 "A program using the library gives the same values bit for bit, the same final array contents and the same rejections whether built by g++ or clang++, as C++20, C++23 or C++26, without or with optimisation and vectorisation, and with or without quadruple precision support (contraction of products and sums excluded).",
 ['histories'],"all programs, on every supported build",
 "Tests are built in one configuration.",
 [A1,A2,'strictpp/StrictCommon/config.hpp','strictpp/ArrayCommon/algorithm.hpp'],[('restrict qualifiers, conditional constexpr','strictpp/StrictCommon/config.hpp')])
p('C32','Literals and constants denote exactly the written value',
 "A literal of the library (suffixes _si, _sl, _sui, _sul, _sf, _sd, _sq and their upper-case forms) has the type its suffix names and the value its text denotes in C++ in any base and notation, with or without digit separators: exactly for integers, rounded to nearest for floating types (through long double for _sf and _sd). An integer literal beyond its type, or a literal of the wrong kind, does not compile; a quadruple literal written in binary or octal is rejected. The constants pi, e, sqrt2 and epsilon are the nearest values of every floating type.",
 ['programs'],"all literals of every suffix; all constants of every type",
 "Tests use a few small literals and do not compare their values with the written text.",
 ['strictpp/StrictCommon/strict_literals.hpp','strictpp/StrictCommon/constants.hpp'],[('consteval literal operators','strictpp/StrictCommon/strict_literals.hpp')])
p('C33','Timers measure elapsed time, and timing a statement only times it',
 "At any moment a timer's wall time is the time that has passed since it was created or last restarted (to the nanosecond), whatever happens to the time of day and to other timers; a copy measures from the same start. STRICT_TIME(statement) carries the statement out exactly once, on the variables the statement names, and then prints one line with the statement's text and the time it took in seconds to five digits; it prints nothing if the statement throws, and leaves the stream's format alone. The configuration report names the configuration the program was compiled with.",
 ['histories','schedules'],"all histories of timers and clocks, all statements",
 "No test uses the timer.",
 ['strictpp/Util/timer.hpp','strictpp/StrictCommon/config.hpp'],[('timer and STRICT_TIME','strictpp/Util/timer.hpp')])
p('C34','Public concepts and aliases classify every type correctly',
 "Each concept of spp::concepts holds for exactly the types it names: owning arrays of any storage and alignment, slices, views, attached arrays and lazy expressions of any nesting are array types of their dimension and element type (only owning arrays are owners), strict scalars are strict, built-in types have their category, and everything else, including every reference, is none of these. The aliases for the element, built-in, real and size type agree with the elements the object has.",
 ['programs'],"all types formed by the library's operations over every element type, qualified and referenced, and unrelated types",
 "Tests use objects, they never ask how a type is classified.",
 ['strictpp/concepts.hpp','strictpp/ArrayCommon/array_traits.hpp','strictpp/StrictCommon/strict_traits.hpp','strictpp/StrictCommon/common_traits.hpp'],[('concept definitions over base-class tags','strictpp/ArrayCommon/array_traits.hpp')])
p('C35','Lazy expressions evaluate nothing until used, and each needed element once',
 "Building, copying, wrapping, slicing or asking the extents of a lazy expression evaluates none of its elements. Reading one element evaluates exactly the operand elements that element consists of, once for each occurrence; constructing an array from the expression, assigning it (plainly, with resizing, compound, to a view or to its own operand), iterating over it, sum, prod, min, max, dot_prod, for_each, eval and the one-dimensional min_index and max_index evaluate every element exactly once, all_of, any_of and none_of each element that they show to the predicate once and no other, and a rejected assignment evaluates nothing.",
 ['programs'],"all nestings of element-wise and structural operations over user functions with observable evaluation",
 "Tests compare values, which do not depend on when and how often elements are evaluated.",
 ['strictpp/Expr/types.hpp','strictpp/Expr/unary.hpp','strictpp/Expr/binary.hpp','strictpp/Expr/special.hpp','strictpp/ArrayCommon/algorithm.hpp'],[('nodes hold operands and functions, evaluated on access','strictpp/Expr/types.hpp')])
p('C36','Nothing constant can be modified through the library',
 "What is reached from a constant object by any chain of views, slices, rows, columns, diagonals, blocks, reshaping, attachment, names, iterators, row and column ranges and pointers can be read but not modified, and neither can the elements of a lazy expression or of a constant iterator: every assignment, compound assignment, element access, algorithm, random fill, resizing, swap or input that would do so is refused by the compiler. The same chains from an object that is not constant can be modified, also through temporary views.",
 ['programs'],"all chains of views and names, all ways to modify, all kinds of arrays and element types",
 "A program that compiles cannot show that another one does not.",
 ['strictpp/derived1D.hpp','strictpp/derived2D.hpp','strictpp/iterator.hpp','strictpp/slicearray_base1D.hpp','strictpp/slicearray_base2D.hpp','strictpp/attach1D.hpp','strictpp/attach2D.hpp'],[('const and non-const overloads choose constant or mutable views','strictpp/derived1D.hpp')])
p('C37','Named arguments mean what they say and cannot be confused',
 "Every function that takes sizes, positions, strides, bounds, values, seeds or switches does the same with named arguments (Size, Rows, Cols, First, Endmost, Stride, Pos, Count, Index, Low, High, Start, End, Incr, Value, Seed) as with positional ones, in every accepted spelling of an index (int, long and their strict forms), and rejects the same calls. Swapped or misnamed arguments, a mixture of the forms, an index that is not a signed integer (a bool, character, floating or unsigned value), a value of another element type, a switch that is not a bool and a seed that is not unsigned do not compile.",
 ['programs'],"all functions with such arguments, all arguments and element types",
 "Tests call a few functions in one of the forms, and cannot hold a call that must not compile.",
 ['strictpp/StrictCommon/auxiliary_types.hpp','strictpp/slice.hpp','strictpp/Expr/special.hpp','strictpp/Util/random.hpp','strictpp/Util/semi_random.hpp',A1,A2],[('named argument types','strictpp/StrictCommon/auxiliary_types.hpp')])
for d in P:
    print(json.dumps(d))
