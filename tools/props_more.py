prop("C09", "A 1-D array read is complete, or rejected without effect",
     "Reading an Array1D from a stream either stores exactly the numbers of all whitespace-separated tokens, in order, or "
     "reports failure by an exception and leaves the array as it was. It reports failure whenever any token is not a "
     "complete numeral within the range of the element type, or the stream or an allocation fails at any point; valid "
     "input is never rejected, however the stream delivers it.",
     ["inputs", "fault_sequences"],
     "every text, every partition of its delivery, a failure of the stream at every byte, every failing allocation, "
     "every element type, with and without STRICT_DEBUG_OFF",
     "Tests read a few well-formed and malformed literals from complete, fault-free string streams.",
     ["array_IO.hpp", "StrictCommon/strict_IO.hpp", "array_base1D.hpp"],
     [M("read loop into a temporary, then swap", "array_IO.hpp: istream_base_read(Array1D)")],
     "target array", "after every read")
prop("C10", "A 2-D array read is complete and rectangular, or rejected without effect",
     "Reading an Array2D from a stream either stores exactly one row per non-blank line with the numbers of its tokens, or "
     "reports failure by an exception and leaves the array as it was. It reports failure whenever rows differ in length, "
     "a token is not a complete numeral within the range of the element type, or the stream or an allocation fails at "
     "any point; valid input is never rejected, however the stream delivers it.",
     ["inputs", "fault_sequences"],
     "every text, every partition of its delivery, a failure of the stream at every byte, every failing allocation, "
     "every element type, with and without STRICT_DEBUG_OFF",
     "Tests read a few literals from complete, fault-free string streams.",
     ["array_IO.hpp", "StrictCommon/strict_IO.hpp", "array_base2D.hpp"],
     [M("line by line into a temporary, then swap", "array_IO.hpp: istream_base_read(Array2D), get_first_row, get_row")],
     "target array", "after every read")
prop("C11", "Reading a file survives every disk fault without a wrong result",
     "read_from_file either stores exactly what the file holds or reports failure by an exception and leaves the array as "
     "it was: a missing or unopenable file, an I/O error at any byte, torn or damaged content and failed allocations never "
     "yield a silently shortened or altered array. Short and interrupted reads are invisible, the file is not "
     "changed and no descriptor is left open.",
     ["fault_sequences", "inputs"],
     "every file content, every placement of open, read and allocation faults, 1-D and 2-D, every element type",
     "Tests read intact files from a working disk.",
     ["array_IO.hpp"], [M("open check, read, swap", "array_IO.hpp: read_from_file")],
     "target array and file", "after every read_from_file")
prop("C12", "print_to_file stores the whole text or reports failure",
     "When print_to_file returns, the file holds exactly the text of the array and nothing of older content; if opening, "
     "writing, flushing or closing the file fails, the failure is reported by an exception. What a permanently failing disk or "
     "stream has received is a prefix of the text, operator<< on a failing stream leaves the failure in its state, "
     "and the array is never changed.",
     ["fault_sequences", "inputs"],
     "every array, slice and expression, every output format, every placement of open, write, close and allocation faults",
     "Tests write to a working disk only.",
     ["array_IO.hpp"], [M("print, close, check", "array_IO.hpp: print_to_file"),
                        M("output loops", "array_IO.hpp: ostream_base_print")],
     "file content and stream state", "after every print_to_file and operator<<")
prop("C13", "What is written can be read back with the same shape and values",
     "An array written with operator<< or print_to_file in a non-detailed format and read back into an array of the same "
     "dimension and element type has the same shape, equal integers, and floating-point values equal to the originals "
     "rounded to the printed precision, including signs of zero. Short and interrupted transfers and the way the "
     "stream delivers the text make no difference.",
     ["inputs", "fault_sequences", "configurations"],
     "every finite content and shape including empty, every precision and style, every partition of transfers; bool "
     "arrays (printed as words) are not meant to be read back",
     "Tests do not combine formats, sizes and interrupted transfers.",
     ["array_IO.hpp", "StrictCommon/strict_IO.hpp"],
     [M("element formatting", "StrictCommon/strict_IO.hpp: operator<<"), M("print and read loops", "array_IO.hpp")],
     "shape and elements read back", "after reading back")
prop("C14", "A scalar read yields the number or an exception, never a wrong value",
     "Extracting a Strict value from a stream stores the value and consumes the characters that the builtin extraction would "
     "(for __float128, one whitespace-delimited token that is entirely a numeral), or throws when the token is malformed, "
     "out of range, missing, or the stream fails; then the variable keeps its old value.",
     ["inputs", "fault_sequences"],
     "every text, position, delivery and stream failure, every element type",
     "Tests read a few valid literals.",
     ["StrictCommon/strict_IO.hpp"], [M("extraction and check", "StrictCommon/strict_IO.hpp: operator>>")],
     "the variable and the stream position", "after every extraction")
prop("C16", "A timer measures elapsed time whatever happens to the system clock",
     "wall_time returns the time that has passed since the timer was created or last restarted, in seconds and to the "
     "resolution of the clock: never negative, never decreasing, and unaffected by jumps of the system clock in either "
     "direction. STRICT_TIME runs its statement once, prints one line with its text and elapsed time, prints nothing "
     "if it throws, and leaves std::cout's format alone.",
     ["histories", "fault_sequences"],
     "every history of creating, copying, restarting and reading timers, every passage of time from nanoseconds to years, "
     "every jump of the system clock and every preemption around a clock reading",
     "Tests cannot set the clock back or wait for years.",
     ["Util/timer.hpp"], [M("monotonic clock readings", "Util/timer.hpp: timer"), M("macro", "Util/timer.hpp: STRICT_TIME")],
     "wall_time and std::cout", "at every reading")
prop("C17", "Random numbers stay within their bounds and follow the entropy source",
     "Every number that rands, random and their not0 forms produce lies within the requested finite bounds, is never zero in "
     "the not0 forms, and every value of a small range and both ends of a wide one keep occurring; different entropy "
     "gives different numbers. Only the elements of the given arrays or slices are written, lazy random expressions have "
     "the requested shape, and unordered bounds (or only zero for not0) are rejected. When the entropy source "
     "fails the call reports it, and an array whose filling had not begun keeps its contents.",
     ["histories", "fault_sequences", "inputs"],
     "every call form, bounds, array shape and slice, every entropy sequence including constant and alternating ones, and "
     "failures of the entropy source at any draw",
     "Tests draw a few numbers from the real device; its values, their order and its failures are not under their control.",
     ["Util/random.hpp", "Util/random_traits.hpp"],
     [M("one generator per call, seeded from std::random_device", "Util/random.hpp: detail::Generator"),
      M("fill loops and lazy expressions", "Util/random.hpp: detail::random, detail::random_not0")],
     "target arrays", "after every call")
prop("C18", "Shuffling permutes exactly the given array or slice",
     "shuffle rearranges the elements of its array or slice into a permutation of what they were and touches nothing else, "
     "under every entropy sequence; every position can be reached by every element and the orders "
     "vary with the entropy. If the entropy source fails, the call reports it and nothing has moved.",
     ["histories", "fault_sequences"],
     "every array, slice, entropy sequence and failure of the entropy source",
     "Tests shuffle a few arrays with the real device, whose values and failures they do not control.",
     ["array_ops.hpp", "iterator.hpp"], [M("std::shuffle over library iterators", "array_ops.hpp: shuffle")],
     "the shuffled array", "after every shuffle")
prop("C19", "Semi-random numbers are reproducible, in bounds and spread over the range",
     "For a given seed, bounds and size the semi-random functions always produce the same numbers within one build, "
     "whatever was called before; every number lies in the bounds, is never zero in the not0 forms, neighbouring "
     "seeds give different series, and a long series "
     "reaches every value of a small range. This holds for every second of the clock at which the program was "
     "built; calls terminate, write only their target, and reject unordered bounds.",
     ["histories", "inputs", "configurations"],
     "every seed, bounds, array shape, call history and build time",
     "Tests run in a build made at one second of the clock and with few seeds.",
     ["Util/semi_random.hpp"], [M("linear congruential generator", "Util/semi_random.hpp: detail::SemiGenerator")],
     "target arrays", "after every call")
prop("C15", "Printed arrays appear on the console whole, each in one piece",
     "print and printn put each array, expression or scalar they are given on std::cout as its operator<< text, headed by its "
     "name and a colon if it has one, in the order given; a newline follows each scalar and separates arrays, and printn adds "
     "one at the end. Each such text arrives in one piece however other threads print at the same time, and whole or not at "
     "all when an allocation fails, which the call then reports by an exception; the format of std::cout is neither "
     "used nor changed.",
     ["schedules", "fault_sequences"],
     "every interleaving of printing threads, every failing allocation, every format and style, every state of std::cout's "
     "flags",
     "Tests print from one thread with enough memory and do not look at the console.",
     ["array_IO.hpp", "StrictCommon/strict_IO.hpp"],
     [M("text assembled in a string stream, then written at once", "array_IO.hpp: print, print_helper, printn"),
      M("the same for scalars", "StrictCommon/strict_IO.hpp: print, printn")],
     "bytes reaching the buffer of std::cout", "during and after every call")
prop("C20", "Threads that share only what they read do not affect each other",
     "Threads that work on arrays, disjoint parts of an array, expressions, streams and files of their own, and only read "
     "what they share, never race in the library and get the results they would get running one after the other, whatever "
     "the schedule (random numbers: some within their bounds). This covers construction, assignment, editing, slicing, iteration, algorithms, sorting, input and "
     "output, timers, random and semi-random numbers, and calls that report an error or run out of memory.",
     ["schedules", "fault_sequences"],
     "every interleaving at every memory access, every program of calls, every failing allocation; the global formats are "
     "set before the threads start",
     "Tests run one thread.",
     ["array_base1D.hpp", "array_base2D.hpp", "slicearray_base1D.hpp", "array_IO.hpp", "array_ops.hpp", "Util/random.hpp",
      "Util/semi_random.hpp", "StrictCommon/strict_IO.hpp"],
     [M("no hidden mutable state: const members only read, generators and buffers are local", "all headers")],
     "results of every call and every memory access", "at every access and after every call")
prop("C21", "In the default build an invalid array call stops before doing anything",
     "In the default configuration, where errors are assertions rather than exceptions, a call on an array, slice or "
     "expression that violates a documented precondition (index or count out of range, negative or half-zero size, "
     "mismatched operand or move-assignment size, unordered removal indexes, ragged list, integer division by a zero "
     "scalar) fails an assertion. At that moment no array has changed, no memory outside an array has been touched and "
     "nothing is leaked, also while memory is exhausted (when bad_alloc may be reported instead).",
     ["histories", "fault_sequences", "configurations"],
     "every kind of invalid call on every array state reachable by a history, with and without failing allocations, in "
     "the build that is not given STRICT_ERROR_EXCEPTIONS",
     "The tests are built with exceptions only, and an assertion that fails would end them.",
     ["StrictCommon/error.hpp", "array_base1D.hpp", "array_base2D.hpp", "derived1D.hpp", "derived2D.hpp", "slice.hpp",
      "ArrayCommon/valid.hpp"],
     [M("assert() behind ASSERT_STRICT_* and NORMAL_ASSERT_STRICT_*", "StrictCommon/error.hpp"),
      M("checks that may not throw", "array_base1D.hpp, array_base2D.hpp: move assignment")],
     "size/rows/cols and elements of all arrays", "when the assertion fails")
prop("C22", "Valid array calls do the same in every build configuration and element type",
     "Any history of valid calls gives the same arrays, slices and views whether errors are exceptions or assertions, "
     "with STRICT_DEBUG_OFF or NDEBUG (a release build) or without, and for boolean and quadruple-precision elements "
     "as for the others: the contents that the plain sequence and matrix model gives. No such call is ever rejected, "
     "and calls that failed because of an allocation failure or a throwing operand count as not having happened.",
     ["histories", "fault_sequences", "configurations"],
     "every finite history of valid calls on several interacting arrays and views, with faults at arbitrary points, in "
     "the release, default, NDEBUG and exception configurations; in NDEBUG builds, memory does not fail while text is read",
     "The tests are built in one configuration; a check whose condition has an effect, or code that only one "
     "configuration compiles, is not seen there.",
     ["StrictCommon/error.hpp", "StrictCommon/config.hpp", "array_base1D.hpp", "array_base2D.hpp", "derived1D.hpp",
      "derived2D.hpp", "slice.hpp", "Expr/binary.hpp", "array_IO.hpp"],
     [M("checks that compile to nothing", "StrictCommon/error.hpp"),
      M("checks before the work, none within", "array_base1D.hpp, array_base2D.hpp, slicearray_base1D.hpp, slicearray_base2D.hpp")],
     "size/rows/cols and elements of all arrays", "after every step")
prop("C23", "Queries over arrays give the value of their definition at every moment",
     "At any point of any history, the reductions, extrema, norms, products, polynomials, predicates, searches, error "
     "metrics, comparisons and selections of arrays, slices and expressions give what their definitions give for the "
     "contents at that moment, and change nothing. A query without a value (empty operand, operands of different size) "
     "is rejected; one aborted by a throwing predicate, a throwing element or an allocation failure changes nothing and "
     "gives the right value when repeated.",
     ["histories", "fault_sequences", "inputs"],
     "every query on every array, slice and expression reachable by a history, including empty ones and two operands "
     "of one type, with throwing callables and failing allocations; floating-point results are exact on whole numbers, "
     "else correct to about the precision of the type",
     "Tests call each function on a few literals, all alive and nothing failing.",
     ["array_ops.hpp", "array_stable_ops.hpp", "Util/error_tools.hpp", "StrictCommon/strict_math.hpp", "Expr/binary.hpp"],
     [M("loops over the expression, checks of size before", "array_ops.hpp, array_stable_ops.hpp"),
      M("error metrics", "Util/error_tools.hpp")],
     "returned value and elements of all arrays", "after every query")
prop("C24", "Iterators denote the position they were moved to, whatever happens to the array",
     "An iterator of an array, its rows or columns, a slice or an expression, moved by any sequence of ++, --, +=, -=, +, -, "
     "assignment and swap, denotes the element at the position the arithmetic gives in the contents of that moment, "
     "forwards and in reverse; comparisons and differences follow positions, and standard algorithms over such ranges "
     "do what they do over a plain sequence. Dereferencing outside the current size and comparing iterators of "
     "different arrays is rejected without effect, also when the array was resized after the iterator was made.",
     ["histories", "fault_sequences"],
     "every walk of iterators over every array, row, column, slice and expression, and every history of the array in "
     "between, with failing allocations and throwing operands",
     "Tests walk a fixed array from begin to end.",
     ["iterator.hpp", "array_base1D.hpp", "array_base2D.hpp", "slicearray_base1D.hpp", "slicearray_base2D.hpp", "Expr/types.hpp"],
     [M("array reference and position; bounds checked at dereference", "iterator.hpp")],
     "element denoted, difference and order of iterators, elements of all arrays", "after every iterator operation")
prop("C25", "Strict numbers compute what builtin numbers compute, or refuse without effect",
     "A program over Strict numbers - arithmetic, bitwise and compound operators, ++ and --, comparisons, logic, conversions, "
     "math functions, powers, interval tests, error-free sums and products, literals and constants - leaves in every number "
     "exactly what the same program leaves in builtin numbers, for all values of the type including its limits, infinities "
     "and NaNs, in every build configuration. Integer division by zero, negative shifts, unordered bounds, negative sizes and "
     "the other invalid arguments are refused in the checked builds and leave every number unchanged.",
     ["programs", "inputs", "fault_sequences"],
     "every program and every value for which the builtin operation is defined, with invalid calls and failing allocations "
     "in between; powers by repeated multiplication and error-free products to their rounding error",
     "Tests compute with a few literals; edges of the types, mixed conversions and refused calls in between are not reached.",
     ["StrictCommon/strict_val.hpp", "StrictCommon/strict_val_ops.hpp", "StrictCommon/strict_math.hpp",
      "StrictCommon/strict_literals.hpp", "StrictCommon/auxiliary_types.hpp", "StrictCommon/constants.hpp"],
     [M("operators on the wrapped value; checks before the operation", "StrictCommon/strict_val_ops.hpp"),
      M("scalar functions", "StrictCommon/strict_math.hpp")],
     "value of every number and flag", "after every step")
prop("C26", "Element-wise expressions apply the scalar operation to every element",
     "At any point of any history, a unary, binary, compound, mathematical or casting expression over arrays, slices, "
     "transposes and scalars yields, at every position and through every access path, exactly the value of the scalar "
     "operation on the elements at that position, for all values including infinities, NaNs and the limits of the type. "
     "Evaluating it changes nothing, and an allocation failure on the way neither.",
     ["histories", "inputs", "fault_sequences"],
     "every expression on contents left by every history of fills and updates, with failing allocations",
     "Tests compare a few expressions on a few literals.",
     ["Expr/unary.hpp", "Expr/binary.hpp", "Expr/functors.hpp", "Expr/expr.hpp", "array_ops.hpp", "Expr/special.hpp"],
     [M("functor applied at the accessed position", "Expr/functors.hpp"), M("expression objects", "Expr/types.hpp")],
     "every element of the evaluated expression and of its operands", "after every evaluation")
prop("C27", "Compensated algorithms and error metrics are accurate on ill-conditioned data",
     "For any data left by any history - cancelling sums, large next to small numbers, nearly orthogonal vectors, expanded "
     "polynomials - the stable and semi-stable sums, means, products, dot products, norms and polynomials stay within the "
     "error bound of their algorithm (about that of twice the working precision, respectively of blocked summation), and "
     "the plain ones within that of working precision. Absolute and relative errors and tolerances follow their formulas, "
     "empty data gives the stated default, and an allocation failure or refused call in between changes nothing.",
     ["histories", "inputs", "fault_sequences"],
     "all data whose exact result neither overflows nor underflows on the way, every algorithm and form of operand",
     "Tests use well-conditioned data on which naive algorithms pass as well.",
     ["array_stable_ops.hpp", "array_ops.hpp", "Util/error_tools.hpp", "StrictCommon/strict_math.hpp"],
     [M("error-free transformations", "StrictCommon/strict_math.hpp"), M("compensated loops", "array_stable_ops.hpp"),
      M("error metrics", "Util/error_tools.hpp")],
     "returned value against 113-bit arithmetic, all data", "after every call")
prop("C28", "A slice denotes exactly the elements its arithmetic names, or is rejected",
     "At any point of any history, a slice - seqN, seq, all, even, odd, reverse, skipN, firstN, lastN, a list of positions or a "
     "complement, by position or by name - of an array, fixed array, row, column, diagonal, matrix, expression or another "
     "slice denotes exactly the elements that its start, size and stride (or list) name in what it is taken of, for reading "
     "and for writing, and writing through it changes nothing else. A slice of which any element lies outside, or whose "
     "numbers are negative or contradictory, is rejected without effect for every value of the index type, including those "
     "whose arithmetic would overflow.",
     ["histories", "inputs", "fault_sequences"],
     "every chain of up to three slices over every shape reached by a history, any start, size and stride, with failing "
     "allocations",
     "Tests slice a few shapes with small numbers, mostly once.",
     ["slice.hpp", "ArrayCommon/valid.hpp", "slicearray_base1D.hpp", "slicearray_base2D.hpp", "derived1D.hpp", "derived2D.hpp"],
     [M("validation before mapping; position = start + i * stride", "slice.hpp"),
      M("slices of slices by composition", "slicearray_base1D.hpp, slicearray_base2D.hpp")],
     "elements read and written through the chain, elements of all arrays", "after every step")
NOTES = {}
_pure = ("inputs",)


def _na(statement, files, where):
    return {"statement": statement,
            "quantifier": {"over": ["inputs"], "text": "every input"},
            "why_tests_cant": "The input space is unbounded; tests sample it.",
            "anchors": {"files": [S + f for f in files], "mechanism": [M(where, files[0])]}}


NA_FULL = {
    "C30": _na("No Strict type converts implicitly to or from another arithmetic type; mixing types fails to compile.",
               ["StrictCommon/strict_val.hpp", "StrictCommon/strict_val_ops.hpp"], "deleted and constrained overloads"),
    "C36": _na("An expression evaluated at compile time has the value it has at run time.",
               ["StrictCommon/config.hpp"], "STRICT_CONSTEXPR"),
    "C38": _na("matrix_prod and related functions return the matrix product of their arguments.",
               ["Eigen/matrix_ops.hpp"], "Eigen maps"),
}
