# Configuration of every check: what is compiled, how many cases are explored.
COMMON_ASSUMPTIONS = [
    "g++ 13.3, libstdc++, libquadmath and the sanitizers behave as documented",
    "the library is used through #include <strictpp/strict.hpp> with errors reported as exceptions unless stated",
    "inputs outside the domain of the underlying built-in operation (signed overflow, over-wide shifts, undefined conversions) are excluded by construction",
]
CHECKS = {}


def add(pid, rule, configs, assumptions=(), custom=None):
    CHECKS[pid] = dict(rule=rule, configs=configs, assumptions=list(assumptions))
    if custom:
        CHECKS[pid]["custom"] = custom


add("C01", "a case draws a type, an operator or cast pair and operand values (edge values, single bits, masks, uniform "
    "bit patterns, denormals, infinities, NaN); non-trivial: the built-in operation is defined for the operands, so "
    "results were compared bit for bit", [dict(tus=["c01.cpp"], cases=(8000000, 100000000))])
add("C02", "a case draws a type, an operation with a precondition and arguments around its boundary; non-trivial: the "
    "arguments violate the precondition (or the wrapper value is negative), so a rejection had to be observed",
    [dict(tus=["c02.cpp"], cases=(2000000, 30000000))])
add("C03", "a case draws a type, a helper and arguments in its domain; non-trivial: all arguments are in the domain and the "
    "result was compared (powers: exponent above one)", [dict(tus=["c03.cpp"], cases=(2000000, 30000000))])
add("C04", "a case draws a floating type and operands with chosen exponent gaps, mantissa shapes and relations; the exact sum, "
    "product or power is computed in unbounded dyadic arithmetic; non-trivial: the correction term is non-zero (the operation rounded)",
    [dict(tus=["c04.cpp"], opt="-O1 -g1", cases=(2000000, 30000000)),
     dict(tus=["c04.cpp"], name="release", opt="-O2 -g0 -march=native", san=False, cases=(2000000, 60000000))])
add("C05", "a case is a history of 1-12 operations on a dynamic 1D array (with operands of eight kinds) compared with std::vector "
    "after every step; non-trivial: the size changed at least twice", [dict(tus=["c05a.cpp", "c05b.cpp"], cases=(400000, 6000000))])
add("C06", "a case is a history of 1-12 operations on a dynamic 2D array (with six kinds of operands) compared with a row-major matrix "
    "after every step; non-trivial: the shape changed at least twice", [dict(tus=["c06a.cpp", "c06b.cpp", "c06c.cpp"], cases=(150000, 3000000))])
add("C07", "a case is up to four operations with arguments around and beyond their valid range, or with operands whose evaluation throws at a "
    "chosen element (user's or library's error); non-trivial: an invalid argument had to be rejected or an operand really failed, and the "
    "array was compared with its previous contents", [dict(tus=["c07.cpp", "c07_1.cpp"], cases=(600000, 8000000))])
add("C08", "a case draws one of 18 kinds of 1D or 15 kinds of 2D objects (owning, fixed, sliced, nested, attached, lazy), an accessor and an index in "
    "one of six forms around the extent; non-trivial: the index is outside (a rejection had to be observed) or designates an element other than the first",
    [dict(tus=["c08.cpp", "c08_1.cpp", "c08_2.cpp", "c08_3.cpp", "c08_4.cpp"], cases=(400000, 6000000)),
     dict(tus=["c08.cpp", "c08_1.cpp"], name="debug-off", extra="-DSTRICT_DEBUG_OFF", cases=(150000, 2000000))])
add("C09", "a case draws an array and a chain of 1-3 slice descriptions out of twelve kinds (a quarter of them outside the array), then an access "
    "and a write; non-trivial: a description was outside or the sliced object has at least two elements",
    [dict(tus=["c09.cpp", "c09_1.cpp", "c09_2.cpp", "c09_3.cpp", "c09_4.cpp"], cases=(500000, 8000000))])
add("C10", "a case draws a 2D object (owning, const, fixed, attached, strided, index-list, view of a 1D slice), a view description (row, column, diagonal, block, "
    "twelve forms of slices per axis, 1D or 2D view) around its extents, then reads, changes the memory and writes; non-trivial: the description is outside or "
    "the object has at least two elements", [dict(tus=["c10.cpp"] + ["c10_%d.cpp" % i for i in range(1, 8)], cases=(400000, 6000000))])
add("C11", "a case draws one of the generated expression programs (random trees of depth 1-4 over 15 kinds of 1D or 11 kinds of 2D operands, nine element types, operators, "
    "functions, conversions, user functions and shared subexpressions), operand sizes and values, and uses it in four ways; or one entry of a table of every operator, function, cast and compound assignment per type; non-trivial: every value is defined and there are at "
    "least two elements, or one operand has another size and a rejection had to be observed",
    [dict(tus=["c11_%d.cpp" % i for i in range(1, 7)] + ["c11.cpp"], gen=("gen_c11", 8, 28), opt="-O0 -g0", san="address", cases=(300000, 8000000))])
add("C12", "a case draws an operand of one of 18 kinds of 1D or 15 kinds of 2D objects, a structural function, its parameters (some invalid) and a way to use the result; then the "
    "operand's memory is changed and the result compared again; non-trivial: the result has at least two elements or the arguments have no meaning and a rejection had to be observed",
    [dict(tus=["c12.cpp"] + ["c12_%d.cpp" % i for i in range(1, 14)], opt="-O0 -g0", san="address", cases=(400000, 8000000))])
add("C13", "a case draws an object of one of 18 kinds of 1D or 15 kinds of 2D objects (four kinds for element types other than int and double), its contents and a group of reductions or queries with every overload, "
    "compared with the definition on the plain sequence (exactly for integers, against the exact dyadic value within the rounding bound for floating types); non-trivial: the object has at least two elements",
    [dict(tus=["c13_%d.cpp" % i for i in range(1, 17)], opt="-O0 -g0", san="address", cases=(400000, 12000000))])
add("C14", "a case draws a floating type, a stable operation, one of four kinds of objects (1D) or two (2D) and data, most of it constructed so that later terms cancel the exact sum of the earlier ones; the exact real result is computed in "
    "unbounded dyadic arithmetic; non-trivial: the data cancels at least ten bits (sums, dot products) or has more than two terms (products, norms, polynomials)",
    [dict(tus=["c14_%d.cpp" % i for i in range(1, 13)], opt="-O1 -g0", san="address", cases=(200000, 5000000)),
     dict(tus=["c14_%d.cpp" % i for i in range(1, 13)], name="release", opt="-O2 -g0 -march=native", san=False, cases=(400000, 20000000))])
add("C16", "a case draws an object of one of 18 kinds of 1D or 15 kinds of 2D objects and an iterator pair (forward, const, reverse, const reverse, over rows, columns or index pairs), then a sequence of up to eight moves, comparisons, "
    "subscripts and dereferences checked against a position, or a standard algorithm compared with the same algorithm on a plain vector; non-trivial: at least two elements or an access outside had to be rejected",
    [dict(tus=["c16_%d.cpp" % i for i in range(1, 8)], opt="-O0 -g0", san="address", cases=(250000, 10000000))])
add("C15", "a case draws an object of one of 18 kinds of 1D or 15 kinds of 2D objects and its contents (duplicates, extremes, signed zeros), then sorts (four forms), shuffles, visits (reading and writing) or queries a range (five forms, some with "
    "bounds out of order); the memory outside the object is compared too; non-trivial: at least two elements or a rejection had to be observed",
    [dict(tus=["c15_%d.cpp" % i for i in range(1, 7)], opt="-O0 -g0", san="address", cases=(300000, 10000000))])
add("C17", "a case draws an object and its contents, an output format with enough digits and one of five ways to write it, and reads the text back (from a string, a file, byte by byte, or from a source failing at a chosen byte) into an array with "
    "other contents; or a text (numbers with one bad token, ragged, truncated or out-of-range spot, or random bytes) judged by the standard stream as reference reader; non-trivial: at least two elements, or the text is malformed and had to be rejected whole",
    [dict(tus=["c17_%d.cpp" % i for i in range(1, 10)], opt="-O0 -g0", san="address", cases=(300000, 6000000)),
     dict(tus=["c17_%d.cpp" % i for i in (5, 7, 8, 9)], name="debug-off", extra="-DSTRICT_DEBUG_OFF", opt="-O0 -g0", san="address", cases=(100000, 2000000))])
add("C18", "a case draws two scalars, arrays (18 kinds of 1D, 15 of 2D objects) or an array and a list, related by ulps, sign, rounding-sized perturbations or not at all, and tolerances at, next to and away from the actual error (some negative), and compares "
    "every error function and predicate with its formula; non-trivial: the operands differ or have at least two elements, or sizes differ and a rejection had to be observed",
    [dict(tus=["c18_%d.cpp" % i for i in range(1, 7)], opt="-O0 -g0", san="address", cases=(600000, 20000000))])
add("C19", "a case draws an element type, a range (unit, single point, denormal-sized, narrow, full, mirrored, reversed or NaN), a seed and one of the random or semi-random scalar, array or lazy generators; non-trivial: at least two elements generated, "
    "a scalar generated by every form, or an invalid range or size that had to be rejected; a call that does not return within the case's CPU limit is a violation",
    [dict(tus=["c19_%d.cpp" % i for i in range(1, 9)], opt="-O0 -g0", san="address", cases=(200000, 4000000), case_cpu=10)],
    assumptions=("ranges whose width is not representable in the element type are excluded for floating types",))
add("C27", "a case draws a history of up to eight copies, moves, swaps, self-operations, element writes and destructions over three arrays of one type (dynamic, fixed, one- and two-dimensional, aligned and not) checked against plain sequences and for disjoint "
    "storage after each step; or an assignment between two views of one type followed by writes on both sides; or copies of one of 18/15 kinds of objects whose memory is then changed; non-trivial: at least two steps with an effect, or at least two elements",
    [dict(tus=["c27_%d.cpp" % i for i in range(1, 7)], opt="-O0 -g0", san="address", cases=(300000, 10000000))])
add("C21", "a case draws a fixed-size type (15 shapes, element types and alignments), its contents and one to three shared operations (access, slices, views, lists, assignment and construction with right and wrong extents, reductions, sorting, text, moves) run on the fixed "
    "and on a dynamic array of the same shape, which must agree in results, rejections and final contents; or a history of size-changing operations on dynamic arrays after which every element address and the alignment are checked; non-trivial: at least two elements, or both reject",
    [dict(tus=["c21_%d.cpp" % i for i in range(1, 9)], opt="-O0 -g0", san="address", cases=(300000, 10000000))])
add("C22", "a case draws a block of memory (new[], malloc, C array, or the data of an owning or fixed array), a 1D and a 2D attachment at drawn offsets and extents (to mutable and const memory) with copies, slices and reshapes of them, and up to five reads or writes through any of them or through the memory itself, after which "
    "the memory and all views are compared with a plain model (AddressSanitizer guards the ends of the block); or a history of writes through and around data()/blas_data() of owning and fixed arrays; non-trivial: at least two elements, or a rejection",
    [dict(tus=["c22_%d.cpp" % i for i in range(1, 8)], opt="-O0 -g0", san="address", cases=(200000, 10000000))])
add("C28", "a case draws a dynamic array, an operand of one of 18 kinds of 1D or 15 kinds of 2D objects and one of 57 operations, runs it once without failures (counting allocations) and then once for each allocation with exactly that allocation failing (operator new is replaced): the failure must propagate, the target and the operand keep their contents, "
    "and the number of live blocks return to its old value; or a history without failures after which no block is left; non-trivial: the operation allocates, or the history has at least two steps",
    [dict(tus=["c28_new.cpp"] + ["c28_%d.cpp" % i for i in range(1, 6)], opt="-O0 -g0", san="address", cases=(150000, 6000000))])
add("C26", "a case draws an array (dynamic or of one of 8 fixed shapes, aligned or not) of one of 7 element types, its contents and up to four reads or writes through the array or through its Eigen map, compared with a plain matrix after each; or three matrices with conforming or non-conforming extents (up to 40x40) whose product is "
    "compared with the sum-of-products definition on values for which it is exact, returned and written into a destination (also one of the operands); non-trivial: at least two elements, or a rejection",
    [dict(tus=["c26_%d.cpp" % i for i in range(1, 14)], opt="-O0 -g0", san="address", extra="-DSTRICT_ENABLE_EIGEN -isystem /usr/include/eigen3", cases=(60000, 3000000))])
add("C25", "a case draws a program of up to seven steps out of 278 operations (six groups: 1D, 2D, lazy expressions, reductions and scalars, mathematical functions with special values, text; integers, double and float) with small arguments, some of them invalid, and runs it in five configurations of the library compiled into one binary: debug checks with exceptions (-O0), with assertions (-O1), "
    "with exceptions and NDEBUG (-Os), debug checks off with exceptions (-O2), and off with assertions and NDEBUG (-O3); results and final states of every step must be identical, every rejection must occur wherever its checks are on (steps a debug check rejects are left out where it is off); non-trivial: a valid step, or a step rejected by a check that is always on",
    [dict(tus=["c25_main.cpp"] + ["c25_%s_%d.cpp" % (c, g) for c in ("ref", "off", "asrt", "rel", "ndbg") for g in range(1, 7)], opt="-O0 -g0", san="address", exceptions=False, quad=False, cases=(100000, 5000000))])
add("C24", "a case is a small program (one operator, compound assignment, assignment, construction, conversion, unary operator or named function with operands of drawn kinds and element types in both positions, or a random expression of depth 2-4) that must compile, or - by the rule that both element types "
    "are the same and the operator is in the type's domain - must not; composed programs come in pairs that differ in one operand's type or one operator; the compiler's verdict is the observation; non-trivial: every distinct program (each one is decided by the compiler)", [], custom="c24",
    assumptions=("g++ accepts exactly the programs it reports no error for",))

add("C29", "a case draws three shared objects' contents (int, double, quad) and what two to four threads do: programs of one to four steps on objects of their own (the 278 operations of C25), or reads of shared constant objects (34 groups of operations: access, slices, expressions, reductions, iteration, "
    "printing, parsing, copies, random generation and shuffling); every thread's work is run alone, then all at once under ThreadSanitizer, and must observe the same; non-trivial: every case (at least two threads work at the same time)",
    [dict(tus=["c29_main.cpp", "c29_int.cpp", "c29_double.cpp", "c29_quad.cpp"] + ["c29_prog_%d.cpp" % i for i in range(1, 7)], opt="-O0 -g1", san="thread", exceptions=False, quad=False, cases=(30000, 2000000))],
    assumptions=("ThreadSanitizer sees the races of the schedules that were run (happens-before, not schedule dependent for accesses both made)",))
add("C30", "a case draws a program of up to seven of the 278 operations of C25, a sixth of the arguments invalid: the message of every rejection is parsed and compared with the library's source, and a quarter of the programs run again in a child process built without exceptions (with and without stack traces), which must end by an abort with a diagnostic "
    "in the first rejected step, after the same results in the steps before it; or one violation of a named category (index, division, remainder, shifts); non-trivial: a rejection was observed",
    [dict(tus=["c30_main.cpp", "c30_cat.cpp"] + ["c%s_%d.cpp" % (c, g) for c in ("25_ref", "30_dflt") for g in range(1, 7)] + ["c30_trace_1.cpp", "c30_trace_3.cpp"], opt="-O0 -g0", san="address", exceptions=False, quad=False, cases=(40000, 2000000))])
add("C31", "a case draws a program of up to seven of the 278 operations of C25 and runs it in five builds linked into one binary: g++ -std=gnu++20 -O0 with quadruple precision, g++ -std=gnu++23 -O2 with it, g++ -std=c++20 -O3 -march=native without contraction of products and sums, clang++ -std=c++20 -O1 and clang++ -std=c++26 -O2 without; results, final states and rejections of every step must be "
    "identical bit for bit; non-trivial: at least one valid step", [dict(tus=["c31_main.cpp"] + ["c31_%s_%d.cpp" % (c, g) for c in ("base", "g23", "g20", "clg", "clx") for g in range(1, 7)], opt="-O0 -g0", san=False, exceptions=False, quad=False, cases=(200000, 10000000))],
    assumptions=("clang++ 18 with libstdc++ behaves as documented",))
add("C20", "a case is one operation with an owning temporary (ten spellings), a named array or a temporary view in one argument position, of a drawn array kind and element type, used in one of four ways, which must be refused or accepted by the compiler; or a draw from the generated nestings (depth 1-4) of operations "
    "on temporary slices, views, attachments and expressions and of dead local views, built in a function that returns them, with drawn contents and two of seven ways to use the result after the stack was overwritten, compared with the same text evaluated within one full expression, before and after the arrays change (AddressSanitizer "
    "detects uses of dead stack objects); non-trivial: every program judged by the compiler, every evaluated nesting with distinct contents",
    [dict(tus=[], gen=("gen_c20", 12, 28), opt="-O0 -g0", san="address", cases=(250000, 6000000))],
    assumptions=("g++ accepts exactly the programs it reports no error for",))
CHECKS["C20"]["pre"] = "c20"

add("C32", "a case draws one of the generated literals (integer literals in four bases, decimal and hexadecimal floating literals of all suffixes, with digit separators, edge values, magnitudes and up to sixty digits) whose exact value is computed in rational arithmetic and rounded to the format, or a constant; or "
    "one literal beyond its type, of the wrong kind or valid, judged by the compiler; non-trivial: every distinct literal", [dict(tus=[], gen=("gen_lit", 8, 160), opt="-O0 -g0", san="address", cases=(20000, 400000))],
    assumptions=("g++ accepts exactly the programs it reports no error for",))
CHECKS["C32"]["pre"] = "c32"

add("C33", "a case draws a history of up to twelve events (the clocks advance, the time of day is set, timers start, restart, are copied) after each of which every timer is read, with both clocks simulated by the harness; or one of fifteen kinds of statements, most over variables with common names, timed by "
    "STRICT_TIME with a drawn duration; or the configuration report in one of four configurations; non-trivial: the clock advanced before a timer was read (history) or during the statement",
    [dict(tus=["c33.cpp"], cases=(400000, 20000000)),
     dict(tus=["c33.cpp"], name="debug-off", extra="-DSTRICT_DEBUG_OFF", cases=(60000, 1000000)),
     dict(tus=["c33.cpp"], name="no-quad", quad=False, extra="-std=gnu++23 -DSTRICT_STACKTRACE", cases=(60000, 1000000)),
     dict(tus=["c33.cpp"], name="assertions", exceptions=False, opt="-O2 -g0", san=False, cases=(400000, 20000000))])

add("C34", "a case draws one of the generated types (owning arrays, nestings of views and expressions of depth 0-3 over nine element types, conversions, comparisons, scalars, built-in and unrelated types; plain, qualified or referenced), all 35 public concepts and the element type aliases are compared "
    "with what the generator knows about the type; non-trivial: an array, scalar or built-in type",
    [dict(tus=[], gen=("gen_traits", 8, 150), opt="-O0 -g0", san="address", cases=(20000, 400000)),
     dict(tus=[], gen=("gen_traits_std", 2, 100), gen_base=500, name="no-quad", quad=False, opt="-O0 -g0", san="address", cases=(4000, 80000))])

add("C35", "a case draws one of the generated nestings (depth 1-4) of structural and additive operations over leaves that count the evaluation of every element, with drawn contents, three of twelve or thirteen ways to use it; "
    "the evaluated elements must be exactly those the result consists of; non-trivial: at least two elements",
    [dict(tus=[], gen=("gen_lazy", 10, 28), opt="-O0 -g0", san="address", cases=(100000, 3000000))])

add("C23", "a case draws one of the generated programs (one to four statements and one or two outputs over a dynamic and a fixed array of each dimension and a scalar of one of nine types: element access, slices, views, expressions, structural functions, reductions, queries, casts, resizing, insertion, removal, "
    "assignment, iteration, sorting) and one of its four to six parameter vectors (sizes, indices, values; some invalid); the compiler evaluates it as a constant expression, the binary at run time, and acceptance and every value must agree; non-trivial: every distinct program and parameter vector",
    [dict(tus=[], gen=("gen_c23", 26, 12), opt="-O0 -g0", san="address", cases=(30000, 60000)),
     dict(tus=[], gen=("gen_c23", 6, 12), gen_base=500, name="O2", opt="-O2 -g0", san="address", cases=(10000, 30000))])

add("C36", "a case is a small program: one of the array kinds, memory attached through a plain or constant pointer, or a lazy expression, followed by a chain of up to four views, names, constant names, references and moves, and one of some ninety ways to modify or read what was reached, judged by the compiler; "
    "it must be refused exactly if it modifies and the chain passed a constant object or a lazy expression; non-trivial: every distinct program", [],
    assumptions=("g++ accepts exactly the programs it reports no error for",))
CHECKS["C36"]["pre"] = "c36"

add("C37", "a case draws one of the generated pairs of calls (a positional one with drawn spellings of its indices, and the same with named arguments), of 100 functions over the element types they support, with drawn sizes, positions, bounds, seeds and contents; both calls must give the same result or be rejected; "
    "or one call with well-formed, swapped, mixed, misnamed or wrongly typed arguments, judged by the compiler; non-trivial: carried out by both, every distinct program judged", [dict(tus=[], gen=("gen_named", 12, 60), opt="-O0 -g0", cases=(60000, 1500000))],
    assumptions=("g++ accepts exactly the programs it reports no error for",))
CHECKS["C37"]["pre"] = "c37"
