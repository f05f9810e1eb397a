#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "observe_at": observe, "hook_needed": None}})
S = "strictpp/"
p("P01", "No memory error or undefined behaviour in checked mode",
  "With run-time checks enabled, no sequence of public operations on arrays, slices, views, expressions and iterators, whether each call is accepted or rejected by a check, reads or writes outside the storage an object owns or was attached to, uses freed or out-of-scope storage, leaks memory or executes undefined behaviour. A rejected call leaves every object usable for further operations.",
  ["histories", "inputs"], "All histories over dynamic and fixed 1D/2D arrays (aligned or not, every element type), including calls with out-of-range indexes, mismatched or negative sizes, invalid slices and empty arrays; arithmetic whose mathematical result is representable.",
  "Tests run a few dozen fixed calls under ASan; most combinations of earlier history, shape and argument are never executed, and UBSan is never used.",
  [S+"array_base1D.hpp", S+"array_base2D.hpp", S+"slicearray_base1D.hpp", S+"slicearray_base2D.hpp", S+"attach1D.hpp", S+"attach2D.hpp", S+"iterator.hpp"],
  [("bounds and size assertions", S+"derived1D.hpp operator[], "+S+"derived2D.hpp operator(), "+S+"ArrayCommon/valid.hpp"), ("tmp-and-swap reallocation", S+"array_base1D.hpp resize/insert/remove")],
  ["AddressSanitizer/LeakSanitizer/UBSan reports of an executing harness"])
p("P02", "Every invalid call is reported and every valid call is accepted",
  "With run-time checks enabled, a call whose arguments are outside its domain (index or position out of range, sizes that do not match, ill-formed or out-of-range slice, invalid shape, non-positive count, empty input to an operation that needs elements, integer division or remainder by zero, shift with a negative operand, reversed range) always reports an error instead of returning, and a call inside its domain never reports one. Checked element access reports out-of-range access even when debug checks are compiled out.",
  ["inputs", "histories"], "All public operations with a stated domain, arguments on, just inside, just outside and far outside the domain boundary, objects in any reachable state including empty.",
  "The tests check a handful of rejected calls per class at fixed sizes; the boundary of each domain depends on the object state and every argument.",
  [S+"derived1D.hpp", S+"derived2D.hpp", S+"slice.hpp", S+"ArrayCommon/valid.hpp", S+"StrictCommon/error.hpp", S+"StrictCommon/strict_val.hpp", S+"array_ops.hpp", S+"Expr/types.hpp"],
  [("assertion macros", S+"StrictCommon/error.hpp"), ("domain predicates", S+"ArrayCommon/valid.hpp and "+S+"slice.hpp")],
  ["exception or its absence at each call"])
p("P03", "Failed operations change nothing and leak nothing",
  "If constructing, resizing, inserting into, removing from, assigning to or replacing an array fails because a check rejects it or memory allocation fails at any point, then the target array keeps exactly the shape and elements it had, all operands are unchanged, and no memory is leaked. The same holds for construction, insertion and replacement when an element of the source expression reports an error part-way (plain assignment of an expression evaluates in place and may leave the elements before the failing one assigned). The same call succeeds when repeated without the fault.",
  ["fault_sequences", "inputs"], "Every allocation performed by the call failing in turn, every element position at which the source expression can report an error, and every rejected argument, for 1D and 2D arrays with and without alignment.",
  "Tests only cover replacing an array from a throwing expression at one place; no test makes an allocation fail.",
  [S+"array_base1D.hpp", S+"array_base2D.hpp"],
  [("build a temporary, then swap without throwing", S+"array_base1D.hpp and "+S+"array_base2D.hpp resize, resize_and_assign, insert*, remove*")],
  ["state of target and operands after the failure", "allocator balance"])
p("P04", "A 1D array behaves as a sequence under any editing history",
  "After any history of construction, element and whole-array assignment, resizing (keeping or dropping contents), insertion, removal and replacement, a dynamic one-dimensional array holds exactly the elements, in order, that the same edits produce on an abstract sequence; elements exposed by growing are zero when contents are kept. Edits whose source reads the edited array itself give the result computed from the contents before the edit. An edit that cannot be carried out is reported and leaves the history where it was.",
  ["histories", "inputs"], "All finite histories over every element type and alignment, any valid position or count given as number, named argument or offset from the end, sources of any storage kind.",
  "Tests apply single edits to arrays of a few elements; position, count and prior capacity interact across histories.",
  [S+"array_base1D.hpp", S+"ArrayCommon/algorithm.hpp", S+"ArrayCommon/array_auxiliary.hpp"],
  [("copy of prefix, inserted range and suffix into new storage", S+"array_base1D.hpp insert/remove/resize")],
  ["size and elements after each step"], [("size and storage", "element count and heap block", S+"array_base1D.hpp")])
p("P05", "A 2D array behaves as a matrix under any editing history",
  "After any history of construction, assignment, resizing in both dimensions (keeping or dropping contents), insertion and removal of rows and columns and replacement, a dynamic two-dimensional array has exactly the shape and elements that the same edits produce on an abstract matrix, with elements exposed by growing equal to zero when contents are kept. Number of rows, number of columns and total size stay consistent, and an array with no rows has no columns and vice versa. An edit that cannot be carried out is reported and leaves the history where it was.",
  ["histories", "inputs"], "All finite histories over every element type and alignment, any valid position or count given as number, named argument, list or offset from the end, including edits that start from or lead to an empty array and edits whose source is the array itself.",
  "Tests apply single edits to one or two shapes; non-square shapes, empty transitions and combinations are not reached.",
  [S+"array_base2D.hpp", S+"ArrayCommon/algorithm.hpp", S+"ArrayCommon/array_auxiliary.hpp"],
  [("row/column copies into new storage", S+"array_base2D.hpp insert_*/remove_*/resize")],
  ["rows, cols, size and elements after each step"], [("dimensions", "row and column counts kept beside the 1D storage", S+"array_base2D.hpp")])
p("P06", "Arrays have value semantics",
  "Copies of an array are equal to the original and independent of it, moving transfers the exact contents and leaves a valid source (empty if dynamic, all zero if fixed-size), swapping exchanges contents completely, and assigning an array to itself by copy or move changes nothing. These hold for dynamic and fixed-size arrays of either dimension in any order of operations.",
  ["histories"], "All histories of copy, move, swap, self-assignment and mutation over pools of arrays of equal and different shapes, every element type, both alignments.",
  "Tests copy and move fresh arrays once; aliasing and moved-from reuse along histories are not exercised.",
  [S+"array_base1D.hpp", S+"array_base2D.hpp", S+"fixed_array_base1D.hpp", S+"fixed_array_base2D.hpp"],
  [("copy/move constructors and assignments, swap", S+"array_base1D.hpp, "+S+"array_base2D.hpp, fixed variants")],
  ["contents of every array of the pool after each operation"])
p("P07", "1D slices address exactly the selected elements",
  "A slice of a one-dimensional object, whether by range, count and stride, named selection, reversal, skipping, complement or an index list, and slices of slices to any depth, has exactly the length and element order its selection denotes. Reading through it gives the current value of those elements; writing, assigning or updating through it changes those elements of the underlying array and no others, and the slice it reports (get_slice) is the one it was made with.",
  ["programs", "inputs"], "All valid selections including zero and negative strides, empty selections and repeated indexes, all nesting of selections, sources of any storage kind and size.",
  "Tests use about ten selections on fixed small arrays; nesting and stride/length corner cases are unbounded.",
  [S+"slice.hpp", S+"slicearray_base1D.hpp", S+"derived1D.hpp", S+"ArrayCommon/index_helper.hpp"],
  [("slice to (start, size, stride) translation", S+"slice.hpp"), ("element address computation", S+"slicearray_base1D.hpp un")],
  ["length and elements of the slice, and the whole underlying array"])
p("P08", "2D slices, rows, columns, diagonals and blocks address the right elements",
  "A row, column, diagonal (main or offset), block, row set, column set or two-dimensional selection of a matrix, and any nesting of these, has exactly the shape and elements its arguments denote on the source matrix. Reading through it gives the current values; assigning or updating through it changes those elements of the source and no others.",
  ["programs", "inputs"], "All shapes including non-square, single-row, single-column and empty, all valid arguments given as numbers, offsets from the end, ranges, strides, complements and index lists, all nestings, sources of any storage kind.",
  "Tests use a few selections on one or two shapes.",
  [S+"derived2D.hpp", S+"slicearray_base2D.hpp", S+"slice.hpp", S+"slicearray_base1D.hpp"],
  [("row/col/diag/block to slice translation", S+"derived2D.hpp"), ("address computation", S+"slicearray_base2D.hpp un")],
  ["shape and elements of the view, and the whole source matrix"])
p("P09", "Reshaped and attached views share storage with their source",
  "Viewing an object as one- or two-dimensional, or attaching to external memory, yields an object with the requested shape whose elements are the source's elements in row-major order, sharing storage: writes through either side are visible through the other, and nothing outside the viewed extent is touched. A two-dimensional view is accepted only if its size equals the source size.",
  ["programs", "inputs"], "All sizes and factorizations, source kinds (dynamic, fixed, slice, view of view, raw pointer, standard containers' memory), mutable and constant access, with slicing, expressions and assignments applied to the view.",
  "Tests check a few views on constant shapes.",
  [S+"attach1D.hpp", S+"attach2D.hpp", S+"derived1D.hpp", S+"derived2D.hpp"],
  [("pointer and slice proxies", S+"attach1D.hpp and "+S+"attach2D.hpp")],
  ["elements of view and source after each write, guard zones around external memory"])
p("P10", "Array expressions equal the element-by-element computation",
  "Evaluating any composition of unary and binary operators and elementwise functions over arrays, slices and scalars gives an object of the operands' common shape whose every element equals the same scalar computation applied to the corresponding elements, for every operator and element type. Compound assignment with an array, expression or scalar is the same as assigning the binary expression.",
  ["programs", "inputs"], "All expression trees over the supported operators, all element types, one and two dimensions, operands of any storage kind, scalar operand on either side.",
  "Tests evaluate each operator once on small arrays; compositions, operand kinds and non-commutative scalar orders are open-ended.",
  [S+"Expr/unary.hpp", S+"Expr/binary.hpp", S+"Expr/types.hpp", S+"Expr/functors.hpp", S+"derived_base.hpp"],
  [("expression nodes evaluate operands by index", S+"Expr/types.hpp"), ("operator to functor mapping", S+"Expr/binary.hpp, "+S+"Expr/unary.hpp")],
  ["shape and elements of the evaluated expression"])
p("P11", "Expressions are lazy and in-place updates are exact",
  "A stored expression reflects the values its operands have at the moment of evaluation, every time it is evaluated, and never the values at construction. Assigning to an array or slice an expression that reads the same elements at the same positions gives the result of first evaluating the expression on the old contents, at every optimisation level.",
  ["programs", "histories", "configurations"], "All expression shapes over operands mutated between evaluations, in-place and compound updates of arrays, slices and views by elementwise expressions of themselves, all optimisation levels and compilers available.",
  "Tests evaluate expressions right after building them, in one unoptimised build.",
  [S+"Expr/types.hpp", S+"ArrayCommon/algorithm.hpp", S+"derived_base.hpp"],
  [("operands stored by reference or as light copies, no caching", S+"Expr/types.hpp"), ("single forward copy loop", S+"ArrayCommon/algorithm.hpp")],
  ["elements after each evaluation or update"])
p("P12", "Structural array functions build exactly the object they describe",
  "Concatenation of arrays and scalars, horizontal and vertical concatenation, exclusion, transposition, row and column reduction and broadcasting, outer and matrix-vector products, arithmetic sequences, evenly spaced points, index ranges, unit vectors, identity and constant arrays have exactly the shape and elements their definitions give for their arguments. Evenly spaced points start at the first bound and end at the second up to rounding.",
  ["inputs", "programs"], "All argument sizes including empty and one, all numbers and mixtures of arguments, positions given as numbers, named arguments or offsets from the end, operands of any storage kind, evaluated eagerly or stored first.",
  "Tests evaluate each function on one or two fixed inputs.",
  [S+"Expr/special.hpp", S+"Expr/types.hpp", S+"Expr/binary.hpp"],
  [("index-generated expressions", S+"Expr/special.hpp")],
  ["shape and elements of the result"])
p("P13", "No accepted expression refers to a destroyed temporary",
  "An expression, slice or view that the library accepts and that is stored in a variable stays valid for as long as the arrays that own its data live, even if every intermediate slice and expression used to build it was a temporary. Forming a lazy object from a temporary array that owns its data is never accepted.",
  ["programs"], "Every lazy operation applied to lvalue arrays, temporary slices, temporary views and temporary expressions (nested), stored and evaluated later; every lazy operation offered a temporary owning array as any operand.",
  "A dangling reference usually still reads the old bytes, so ordinary tests pass; tests rarely store expressions built from temporaries.",
  [S+"Expr/special.hpp", S+"Expr/binary.hpp", S+"Expr/unary.hpp", S+"Expr/types.hpp", S+"ArrayCommon/array_traits.hpp", S+"derived1D.hpp", S+"derived2D.hpp"],
  [("owners by reference, everything else by copy", S+"ArrayCommon/array_traits.hpp CopyOrReferenceExpr"), ("deleted overloads for owning temporaries", S+"Expr/*.hpp, "+S+"derived1D.hpp, "+S+"derived2D.hpp")],
  ["AddressSanitizer use-after-scope/use-after-free while evaluating stored objects, and evaluated values"])
p("P14", "Scalar wrapper arithmetic equals built-in arithmetic",
  "For every wrapped type, each arithmetic, bitwise, shift, logical, comparison, increment and compound operation, and each explicit cast, yields exactly the value the built-in operation yields on the unwrapped values, with no extra rounding, promotion or change of type. Integer division or remainder by zero and shifts of or by negative numbers are reported as errors.",
  ["inputs"], "All operand values of each type for which the built-in operation is defined, with boundary values, infinities and NaNs.",
  "Tests touch scalar operators incidentally with small values.",
  [S+"StrictCommon/strict_val.hpp", S+"StrictCommon/strict_val_ops.hpp", S+"StrictCommon/strict_traits.hpp", S+"StrictCommon/strict_literals.hpp"],
  [("operators on the wrapped value", S+"StrictCommon/strict_val.hpp")],
  ["bit pattern of the result or the reported error"])
p("P15", "Values of different types never mix implicitly",
  "The library accepts no operation that would implicitly convert between wrapped types or between a wrapped type and a different built-in type: no mixed-type scalar arithmetic, comparison, construction or assignment, no mixed element types in array expressions or assignments, and no floating-point or unsigned index or size. Explicit casts and same-type operations remain accepted.",
  ["programs"], "All ordered pairs of the supported types under every scalar and array operation, assignment, construction and indexing form.",
  "Tests only compile programs that are meant to be accepted.",
  [S+"StrictCommon/strict_val.hpp", S+"StrictCommon/strict_traits.hpp", S+"StrictCommon/auxiliary_types.hpp", S+"ArrayCommon/index_helper.hpp", S+"Expr/expr_traits.hpp", S+"ArrayCommon/valid.hpp"],
  [("explicit constructors and deleted catch-all", S+"StrictCommon/strict_val.hpp"), ("index wrapper specialisations", S+"ArrayCommon/index_helper.hpp")],
  ["whether a mixed operation is accepted and executes, and what it evaluates to"])
p("P16", "Scalar mathematical functions are correct on their whole domain",
  "Powers (integer, floating and integer exponent), factorial, binomial-type and absolute value, minimum/maximum, sign and range helpers, rounding, classification and elementary functions of the wrapped types return the mathematically defined value: exact for integers when representable, equal to the standard function for elementary functions, and within a few units in the last place per multiplication for repeated multiplication.",
  ["inputs"], "All arguments in the domain of each function and type, including zero, negative exponents, limits, infinities and NaNs.",
  "Tests check a few values through array wrappers.",
  [S+"StrictCommon/strict_math.hpp", S+"StrictCommon/strict_val_ops.hpp", S+"StrictCommon/strict_val.hpp"],
  [("binary powering and forwarding to the standard library", S+"StrictCommon/strict_math.hpp")],
  ["returned value against an independent high-precision or exact computation"])
p("P17", "Reductions equal their definition",
  "Sum, product, mean, minimum, maximum and their positions, the one, two, infinity and general norms with their scaled forms, dot product and polynomial evaluation return the value of their definition over all elements exactly once each: exact for integers and order-independent results, and within the rounding error bound of the naive algorithm for floating point. Minimum and maximum positions are the first position attaining the extreme, and the result does not depend on the storage kind of the input.",
  ["inputs", "programs"], "All lengths and shapes including empty where allowed and one, all element types, inputs of any storage kind including slices and expressions.",
  "Tests use arrays of constant or tiny content.",
  [S+"array_ops.hpp"],
  [("single-pass loops", S+"array_ops.hpp")],
  ["returned value against an independent exact or high-precision reference"])
p("P18", "Predicates and searches over arrays equal their quantified definition",
  "Whole-array predicates (any, all, none, contains zero/infinity/NaN, all finite/zero/positive/negative/non-negative/non-positive, equality of arrays) are true exactly when the quantified statement over the elements is true; range queries (open, closed, conditional) return exactly the elements or positions that satisfy the condition, in order; applying a function to each element visits every element exactly once in order.",
  ["inputs", "programs"], "All contents including special values at any single position, all lengths including empty, every element type, one and two dimensions, any storage kind.",
  "Tests use uniform arrays, so an error at a first, last or interior position is not seen.",
  [S+"array_ops.hpp", S+"ArrayCommon/algorithm.hpp", S+"Expr/binary.hpp"],
  [("early-exit loops", S+"array_ops.hpp")],
  ["returned value or visited sequence against the definition"])
p("P19", "Compensated operations meet their error bounds",
  "The error-free sum and product of two numbers return a pair whose exact sum is the exact result; the stable sum, product, dot product, norms and polynomial evaluation have error bounded by about one rounding of the result plus a second-order term in the condition number, so they are never meaningfully worse than the naive algorithm and remain accurate on ill-conditioned data. The pairwise-block sum stays within its own smaller rounding bound.",
  ["inputs"], "All lengths around and across internal block sizes, data with condition numbers from one to beyond the inverse of working precision, all floating-point types, every optimisation level without value-changing flags, absent overflow and underflow.",
  "Tests compare on one benign and one fixed example; the loss of compensation shows only on ill-conditioned data.",
  [S+"array_stable_ops.hpp", S+"StrictCommon/strict_val_ops.hpp"],
  [("Neumaier/Dot2/compensated Horner recurrences", S+"array_stable_ops.hpp"), ("two-sum and two-product", S+"StrictCommon/strict_val_ops.hpp")],
  ["returned value against exact (quadruple or rational) reference and the published bound"])
p("P20", "Random generation respects its range and reproducibility",
  "Every value produced by the random and semi-random generators lies within the requested closed range, non-zero variants never produce zero and always terminate when the range contains a non-zero value, every value of a small integer range is eventually produced, and all elements of the target and nothing else are overwritten. The semi-random generator produces the same sequence for the same seed, shape and range.",
  ["inputs", "histories"], "All integer ranges, and all floating-point ranges whose width is representable (including degenerate, one-sided, sign-crossing ranges), shapes, seeds, element types, target kinds including slices, and all call forms.",
  "Tests draw a few values from one range.",
  [S+"Util/random.hpp", S+"Util/semi_random.hpp", S+"Util/random_traits.hpp"],
  [("distribution bounds", S+"Util/random.hpp"), ("linear congruential generator", S+"Util/semi_random.hpp")],
  ["generated values, termination"])
p("P21", "Writing an array and reading it back restores it",
  "Text produced by printing a one- or two-dimensional array to a stream or file and read back into an array of the same type reproduces its shape and values: exactly for integers and for floating-point types whose printed precision identifies the value, and to the printed precision otherwise. Printing never alters the array, and the printed rows, columns and labels correspond to the elements at those positions in every format setting.",
  ["inputs", "configurations"], "All shapes that contain elements, all numeric element types with finite values, any format settings (fixed or scientific, precision, row or column style, detailed or plain), any storage kind as source.",
  "Tests do not cover input/output at all.",
  [S+"array_IO.hpp", S+"StrictCommon/strict_IO.hpp"],
  [("growing buffer reader and row parser", S+"array_IO.hpp"), ("number formatting", S+"StrictCommon/strict_IO.hpp")],
  ["text produced and array read back"])
p("P22", "Malformed input is rejected without touching the target",
  "Reading an array from text succeeds exactly when the text is a whitespace-separated list of values of the element type, in the form and range that standard formatted extraction accepts (and, for two dimensions, every non-empty line has the same number of values), and then yields exactly those values; otherwise, or if a file cannot be opened or the stream fails while reading, it reports an error, the target array keeps its previous contents, and no memory outside the array is touched, also when debug checks are compiled out.",
  ["inputs", "configurations"], "All byte strings, in particular truncated and corrupted numbers, overflowing numbers, ragged, short and over-long rows, blank lines and missing final newline; checked and unchecked builds.",
  "Tests do not cover input at all.",
  [S+"array_IO.hpp", S+"StrictCommon/strict_IO.hpp"],
  [("stream state checks and temporary swap", S+"array_IO.hpp")],
  ["error or contents after the read, sanitizer reports"])
p("P23", "Iterators satisfy random-access laws and drive algorithms correctly",
  "Iterators over arrays, slices, expressions, rows, columns and index ranges satisfy the random-access laws (advance, difference, comparison, subscript, reversal agree with indexing, and traversal visits each element once in order). Sorting yields an ordered permutation of the input, shuffling yields a permutation, and standard algorithms run through these iterators give the same result as on a plain copy, touching only the iterated elements.",
  ["inputs", "programs"], "All sizes including empty, all iterator kinds and element types, mutable and constant, forward and reverse, owners, slices, views and expressions.",
  "Tests check a few traversals on constant sizes.",
  [S+"iterator.hpp", S+"array_ops.hpp", S+"derived1D.hpp", S+"derived2D.hpp"],
  [("position arithmetic", S+"iterator.hpp")],
  ["values seen through iterators, elements after algorithms"])
p("P24", "Tolerance and error measures are exact to their definition",
  "abs_error is |approx - exact| and rel_error is |approx - exact| / |exact|, absent when either value is zero; their array forms give the largest value over all elements, the relative one absent when any element of either array is zero. within_tol_abs holds exactly when |x - y| does not exceed the tolerance, within_tol_rel exactly when |x - y| / max(|x|, |y|) does not exceed it or both magnitudes do not exceed the near-zero threshold; their array forms hold exactly when they hold for every pair of elements. The absolute error and both predicates are symmetric in the two values; empty arrays give the stated default; mismatched shapes and negative tolerances are rejected; omitted tolerances are 100 machine epsilons.",
  ["inputs"], "All pairs of finite values or equally shaped arrays, with the deviation at any position, tolerances on either side of the actual error, all floating-point types and call forms.",
  "Tests use two uniform arrays per function.",
  [S+"Util/error_tools.hpp"],
  [("comparison formulas", S+"Util/error_tools.hpp")],
  ["returned value against the definition"])
p("P25", "Results do not depend on build configuration",
  "A program that makes only valid calls computes bit-identical results with run-time checks enabled or compiled out, with error reporting by exception or by abort, with or without quadruple precision support, at every optimisation level, and when evaluated at compile time. Invalid calls abort when exceptions are disabled and checks are enabled.",
  ["configurations", "programs"], "All combinations of the documented configuration macros, optimisation levels and the two available compilers, over generated valid programs; floating-point results use no value-changing compiler flags.",
  "The tests run in exactly one configuration.",
  [S+"StrictCommon/config.hpp", S+"StrictCommon/error.hpp", S+"ArrayCommon/algorithm.hpp"],
  [("macros with no side effects in conditions", S+"StrictCommon/error.hpp"), ("constexpr annotations", S+"StrictCommon/config.hpp")],
  ["result digest of the same program in each configuration"])
p("P26", "Concurrent use of distinct or constant objects is race-free",
  "Threads that only read shared arrays (indexing, slicing, building and evaluating expressions, reducing, comparing, iterating) and threads that work on distinct arrays, including random generation and formatting to separate streams, need no synchronisation: no data race occurs and every thread obtains the result it would obtain alone.",
  ["schedules", "histories"], "All interleavings of any number of threads performing read-only operations on shared objects and arbitrary operations on their own objects, with format settings not modified.",
  "No test starts a thread.",
  [S+"array_base1D.hpp", S+"Expr/types.hpp", S+"Util/random.hpp", S+"StrictCommon/strict_IO.hpp"],
  [("no mutable or static state behind constant operations", S+"array_base1D.hpp, "+S+"Expr/types.hpp"), ("generator state", S+"Util/random.hpp")],
  ["ThreadSanitizer reports, per-thread results"])
p("P27", "Bridging to Eigen preserves layout, values and products",
  "Mapping an array to the external linear-algebra library exposes the same elements at the same positions with shared storage, for row-major matrices and vectors, constant or mutable, and matrix products computed through the bridge equal the mathematical product with the right shape, rejecting non-conforming shapes.",
  ["inputs"], "All shapes including non-square and vectors, all supported element types, owners and contiguous sources.",
  "The bridge is only syntax-checked; no test executes it.",
  [S+"Eigen/map.hpp", S+"Eigen/matrix_ops.hpp"],
  [("map construction with row-major storage", S+"Eigen/map.hpp")],
  ["elements through the map, product entries"])
p("P28", "Storage is contiguous, row-major and aligned as promised",
  "The data pointer of a non-empty array addresses all its elements contiguously in row-major order, the pointer to the built-in type addresses the same memory, an empty array reports no data pointer, and storage of arrays requested as aligned starts on a 64-byte boundary whenever it exists. The sizes an array reports in bytes and its multiples are those of that storage, and it reports itself as dynamic or fixed-size and as aligned according to its type. This holds after any history of edits, moves, swaps and copies, and exported copies for external routines hold the same values independently.",
  ["histories", "inputs"], "All element types, sizes, both alignments, dynamic and fixed-size arrays of either dimension, any editing history, objects created on the heap, the stack and inside containers.",
  "Tests check the pointer of a freshly built array once.",
  [S+"array_base1D.hpp", S+"array_base2D.hpp", S+"fixed_array_base1D.hpp", S+"fixed_array_base2D.hpp", S+"ArrayCommon/alignment.hpp", S+"array_ops.hpp"],
  [("aligned allocation", S+"array_base1D.hpp"), ("alignas storage", S+"fixed_array_base1D.hpp")],
  ["pointer values and memory read through them"])
p("P29", "Results do not depend on how operands are stored",
  "Any read-only operation (reduction, predicate, expression, structural function, slicing, printing, comparison) gives the same result whether an operand with the same shape and elements is a dynamic array, a fixed-size array, an aligned array, a slice, a reshaped view, attached memory or a lazy expression; writing operations have the same effect on every mutable kind.",
  ["programs", "inputs"], "All combinations of operand storage kinds per operation, any contents and shapes, one and two dimensions.",
  "Tests run each operation almost only on dynamic arrays.",
  [S+"array_base1D.hpp", S+"fixed_array_base1D.hpp", S+"slicearray_base1D.hpp", S+"attach1D.hpp", S+"attach2D.hpp", S+"Expr/types.hpp", S+"array_ops.hpp"],
  [("uniform element access interface", S+"derived1D.hpp, "+S+"derived2D.hpp")],
  ["results across storage kinds"])
p("P30", "Whole programs compute what the same loops over plain arrays compute",
  "A program composed of the library's operations (slices read and written, in-place expressions, views, structural functions, reductions, edits, iterators, text) computes, statement by statement, exactly what the same statements computed element by element on plain arrays would, whatever the storage of its arrays and the order and nesting of the operations. Storage beside the parts being written keeps its contents.",
  ["programs", "inputs", "histories"], "All programs built from the public operations on valid operands, any element type, data, storage kind and length.",
  "Tests call one operation at a time on fresh arrays; interactions between operations over a long-lived state are not exercised.",
  [S+"strict.hpp", S+"slice.hpp", S+"array_ops.hpp", S+"Expr/binary.hpp", S+"Expr/special.hpp", S+"iterator.hpp", S+"derived1D.hpp", S+"derived2D.hpp"],
  [("assignment of expressions", S+"derived1D.hpp, "+S+"derived2D.hpp"), ("slices as operands and targets", S+"slicearray_base1D.hpp")],
  ["state of every array after every statement"])
p("P31", "Every reported violation says what it is and where",
  "With exceptions enabled, an invalid call that is reported throws spp::StrictException (a std::exception) whose text begins with the kind of violation where one is defined (element access or iterator dereference out of range: OUT OF RANGE!; integer division by zero: INTEGER DIVISION BY 0!; remainder by zero: MODULO DIVISION BY 0!; negative shift operands: FIRST/SECOND SHIFT OPERAND HAS A NEGATIVE VALUE!; malformed text: Invalid input.; a file that cannot be opened: Invalid file path.), names no other kind, and states the library file, function, line and the condition that failed. The text is the same in every copy of the exception and as long as one is alive, and nothing is printed. With assertions the same kind and place appear on standard error before the abort. Valid calls report and print nothing. print_config_info() states the configuration in force.",
  ["inputs", "configurations"], "Every element access form and storage kind, every integer operand combination in scalar, lazy and compound operations, every malformed text and unusable path, in exception and assertion builds, checked and unchecked.",
  "Tests only check that something is thrown, for a few calls.",
  [S+"StrictCommon/error.hpp", S+"StrictCommon/config.hpp", S+"StrictCommon/strict_val.hpp", S+"derived1D.hpp", S+"derived2D.hpp", S+"iterator.hpp", S+"array_IO.hpp"],
  [("assertion macros with kinds", S+"StrictCommon/error.hpp"), ("exception type", S+"StrictCommon/error.hpp")],
  ["exception type and text", "standard error and output", "termination"])
p("P32", "Timers measure elapsed time",
  "A spp::timer shows, in seconds, the time elapsed on the clock since it was created or last restarted, to nanosecond resolution, as often as it is asked and independently of other timers and of copies made of it. STRICT_TIME(statement) executes the statement exactly once with its usual effect (names in it mean what they mean to the caller, exceptions pass through), then prints one line with the text of the statement and its duration in scientific notation with four decimals, and leaves the format of std::cout as it was.",
  ["histories", "inputs"], "All sequences of creating, copying, assigning, restarting and reading timers, all intervals; any timed statement.",
  "No test covers timers: results depend on the clock.",
  [S+"Util/timer.hpp"], [("clock readings", S+"Util/timer.hpp")], ["wall_time() under a controlled clock", "printed line"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
