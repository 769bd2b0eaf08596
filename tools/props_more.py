prop("C05", "Parallel execution of an algorithm gives what sequential execution gives",
     "Executing any of the algorithms in parallel leaves exactly the values and no-data marks in its results that sequential execution leaves there, for every shape of the data (also empty, and smaller than the number of threads), every number of threads and every schedule of the threads. "
     "The call returns only when all work is done, and no execution contains a data race: no two threads touch the same element or no-data mark unordered, one of them writing. "
     "The arguments are not changed.",
     ["schedules", "inputs", "configurations"], "All algorithms that take an execution policy, on all shapes of 0-8 elements and rasters up to 5x6, 7x6 and 11x5, with pools of 1-6 threads; for small shapes all schedules up to a deviation bound, for all shapes the default schedule with a happens-before race detector.",
     "The tests compare results of a few arrays under whatever schedule occurs; a race or a block that is skipped, done twice, or merged in the wrong order depends on shape, thread count and schedule.",
     ["algorithm/core/unary_local_operation.h", "algorithm/core/binary_local_operation.h", "algorithm/core/unary_aggregate_operation.h", "algorithm/core/index_ranges.h", "algorithm/convolution/convolve.h", "algorithm/core/if.h", "algorithm/core/cover.h", "algorithm/statistic/count.h"],
     [("parallel execution of element-wise operations", "algorithm/core/detail"), ("parallel aggregation", "algorithm/core/unary_aggregate_operation.h"), ("index_ranges", "algorithm/core/index_ranges.h")],
     ["result values and masks"])

prop("C07", "Integer arithmetic is exact or reported as out of range or domain",
     "Adding, subtracting, multiplying and dividing two integers of any types, absolute value and factorial give the mathematically exact result (quotients truncated towards zero) in the documented result type whenever it fits there and both arguments are representable in it. "
     "With the operation's range and domain policies, an element is marked as no-data exactly when the result does not fit (overflow, also of the smallest value divided by or multiplied with -1, or negated) or the arguments are outside of the domain (division by zero, factorial of a negative number). "
     "No combination of values traps or gives undefined behaviour.",
     ["inputs"], "All pairs of 8 bit values, and all pairs of boundary values of all other integral types, for all 64 combinations of signedness and width; optimised as well as unoptimised.",
     "The tests try a handful of values for a few type combinations; overflow rules are different for each of the 64 type pairs.",
     ["algorithm/algebra/elementary/add.h", "algorithm/algebra/elementary/subtract.h", "algorithm/algebra/elementary/multiply.h", "algorithm/algebra/elementary/divide.h", "algorithm/algebra/elementary/absolute.h", "algorithm/algebra/elementary/factorial.h", "core/type_traits.h", "algorithm/core/result_type.h"],
     [("add::OutOfRangePolicy", "algorithm/algebra/elementary/add.h"), ("subtract::OutOfRangePolicy", "algorithm/algebra/elementary/subtract.h"), ("multiply::OutOfRangePolicy", "algorithm/algebra/elementary/multiply.h"), ("divide::OutOfDomainPolicy, OutOfRangePolicy", "algorithm/algebra/elementary/divide.h")],
     ["result value", "no-data mark"])

prop("C10", "Statistics summarise exactly the elements that have data",
     "The minimum, maximum, range, sum, mean, median, mode and number of elements of a collection of any rank, shape and no-data pattern, and the number of occurrences of a value in it, are those of exactly the elements that are not no-data; the element-wise minimum and maximum of two collections are no-data where either argument is. "
     "The result is no-data exactly when there is no element with data or, for sum and mean with their range policy, when the running sum leaves the range of its type. "
     "Elements marked as no-data have no influence, and the argument is not changed.",
     ["inputs"], "All no-data patterns of all 0d, 1d and 2d collections of up to 6 elements (thorough: 9), including empty ones, of int8, int32, double and uint8 to int64, sequential and parallel.",
     "The tests use one 3x2 array with one or two no-data patterns.",
     ["algorithm/statistic/sum.h", "algorithm/statistic/mean.h", "algorithm/statistic/count.h", "algorithm/statistic/unary_max.h", "algorithm/statistic/unary_min.h", "algorithm/statistic/binary_max.h", "algorithm/statistic/binary_min.h", "algorithm/core/unary_aggregate_operation.h"],
     [("unary_aggregate_operation", "algorithm/core/unary_aggregate_operation.h"), ("count", "algorithm/statistic/count.h")],
     ["result value", "no-data mark"])

prop("C11", "Accumulators give the same statistic however values are split and merged",
     "An accumulator for count, sum, minimum, maximum, range, mean, median, mode, variance or standard deviation that was fed a non-empty list of values reports that statistic of exactly that list, whether the values were passed at construction, by assignment (which forgets all earlier values) or one by one, and asking for the result changes nothing. "
     "Merging accumulators, in any split, grouping and order and with parts that saw no values, gives the statistic of all their values together. "
     "The range-watching variants of count and sum report out of range exactly when the result type cannot hold the outcome, and the mean of integers is exact (truncated) however many values there are.",
     ["inputs", "histories"], "All lists of up to 5 values over small alphabets for 6 type combinations, with all ways to split them in three parts, and 1-300 values for 8 bit types.",
     "The tests feed a few fixed lists and merge two accumulators once.",
     ["algorithm/accumulator/count.h", "algorithm/accumulator/sum.h", "algorithm/accumulator/min.h", "algorithm/accumulator/max.h", "algorithm/accumulator/range.h", "algorithm/accumulator/mean.h", "algorithm/accumulator/median.h", "algorithm/accumulator/mode.h", "algorithm/accumulator/variance.h", "algorithm/accumulator/standard_deviation.h", "core/frequency_table.h"],
     [("operator|=", "algorithm/accumulator"), ("FrequencyTable::merge", "core/frequency_table.h")],
     ["the accumulator's result"])

prop("C12", "Convolution is the weighted sum of each neighbourhood, under all policies",
     "Each element of a convolved raster is the sum of the kernel's weights times the neighbouring values, divided by the sum of the weights that took part where the policy says so, for square, symmetric and other kernels of any radius and any raster shape, also at the borders and corners. "
     "Which neighbours take part follows from the policies: no-data neighbours and positions outside of the raster are skipped or replaced by the average of their own valid neighbourhood, and an element that is no-data itself is skipped or computed like any other. "
     "An element is no-data exactly when it is no-data and skipped, when there is nothing to sum, or when the result is out of range.",
     ["inputs", "configurations"], "All no-data patterns of 3x3 rasters for all policy combinations and 3x4, 4x3 ones; impulses in every position; radii 1-3; several kernels and all kernel types; rasters up to 7x6.",
     "The tests convolve one raster with one kernel and one or two no-data cells; corners, borders and the interior are nine separate cases in the code, each times the policies.",
     ["algorithm/convolution/convolve.h", "algorithm/convolution/policies.h", "algorithm/convolution/neighborhood/square.h"],
     [("convolve", "algorithm/convolution/convolve.h"), ("AlternativeForNoDataPolicy, NormalizePolicy, OutOfImagePolicy, NoDataFocusElementPolicy", "algorithm/convolution/policies.h")],
     ["result values and masks"])

prop("C13", "Slope is the steepness of the third-order finite difference gradient",
     "The slope of a raster cell is the square root of the sum of squares of the two Horn gradients, computed with the cell width and height, where missing neighbours (no-data or outside of the raster) are replaced by the average of their own valid neighbourhood; a plane has the plane's steepness in every inner cell. "
     "A cell is no-data in the result exactly when it is no-data itself or an intermediate result is not finite. "
     "The argument is not changed.",
     ["inputs"], "All no-data patterns of 3x3, 3x4 and 4x3 rasters, patterns with up to two (un)masked cells of rasters up to 5x5 and 3x7, several cell sizes, float and double, all planes with small integer gradients.",
     "The tests compute one raster with one no-data cell and square cells.",
     ["algorithm/space/focal/slope.h", "algorithm/convolution/kernel/square.h", "algorithm/convolution/convolve.h"],
     [("slope", "algorithm/space/focal/slope.h")], ["result values and masks"])

prop("C14", "Gradient, laplacian and lax follow their definitions at every cell",
     "The gradient in x and y is the central difference divided by the distance between the neighbours where both neighbours have data, the one-sided difference where one has, and zero where none has. "
     "The laplacian is the weighted sum of the differences with the neighbours that have data, divided by the cell area, and lax is the convex combination of a cell and the weighted average of its neighbours with data. "
     "A cell is no-data in the result exactly when it is no-data itself (for the laplacian: when it, or all its neighbours, have no data) or the result is not finite.",
     ["inputs"], "All no-data patterns of 3x3, 3x4 and 4x3 rasters (gradient: all shapes up to 10 cells), patterns with up to two (un)masked cells of rasters up to 5x5, several cell sizes.",
     "The tests compute one raster with a few no-data cells; borders, corners and one-column rasters are separate cases in the code.",
     ["algorithm/algebra/vector/gradient.h", "algorithm/algebra/vector/laplacian.h", "algorithm/algebra/vector/lax.h"],
     [("gradient_x, gradient_y", "algorithm/algebra/vector/gradient.h"), ("laplacian", "algorithm/algebra/vector/laplacian.h"), ("lax", "algorithm/algebra/vector/lax.h")],
     ["result values and masks"])

prop("C15", "Compressing and decompressing lose no element and no order",
     "Compressing a collection gives the elements that have data, in their order, and their number. "
     "Decompressing values compressed this way, with the same no-data pattern, gives back the original collection and its no-data pattern. "
     "Neither writes outside of its result, or changes its argument.",
     ["inputs"], "All no-data patterns of all 1d collections of up to 10 and 2d ones of up to 12 elements, including empty, full and all-no-data ones, executed sequentially and in parallel.",
     "The tests compress one array with one no-data pattern.",
     ["algorithm/core/compress.h", "algorithm/core/decompress.h"],
     [("compress", "algorithm/core/compress.h"), ("decompress", "algorithm/core/decompress.h")], ["result values, masks, count"])

prop("C16", "Offset moves every element by exactly the given distance",
     "Offsetting a collection gives a collection whose element at each position is the argument's element at that position minus the offset, no-data when that one is no-data, for offsets of either sign and any size in each dimension. "
     "Elements that come from outside of the collection are no-data or, in the variant with a fill value, have the fill value. "
     "The argument is not changed.",
     ["inputs"], "All no-data patterns of all small 1d and 2d shapes with all offsets up to beyond the size in each dimension.",
     "The tests offset one array in a few directions.",
     ["algorithm/core/offset.h", "core/point.h"], [("offset", "algorithm/core/offset.h")], ["result values and masks"])

prop("C17", "Conditional, cover and clamp select the right value for each element",
     "The conditional gives each element the true branch's element where the condition holds (any non-zero value) and otherwise the false branch's, and is no-data exactly where the condition or the selected element is no-data, or, without a false branch, where the condition does not hold; cover takes the first of its arguments that has data. "
     "Clamp gives the value, but no less than the lower and no more than the upper bound, and is no-data where the value is. "
     "This holds for every supported combination of scalar and array arguments, and no argument is changed.",
     ["inputs"], "All combinations of condition and branch states (no-data, false, true; no-data or a value) of all small shapes, and all combinations of ranks that compile.",
     "The tests use one array per combination of ranks, with one pattern.",
     ["algorithm/core/if.h", "algorithm/core/cover.h", "algorithm/core/clamp.h"],
     [("if_", "algorithm/core/if.h"), ("cover", "algorithm/core/cover.h"), ("clamp", "algorithm/core/clamp.h")], ["result values and masks"])

prop("C19", "Combining no-data, filling and copying touch exactly the right elements",
     "The union and intersection of the no-data of two arguments mark exactly the elements that are no-data in either or in both, and merging no-data adds the argument's no-data to the result's and leaves the rest alone. "
     "Fill gives all elements the value; copy copies exactly the elements of the given range, values and no-data, and leaves all others as they were.",
     ["inputs"], "All pairs of no-data patterns of small shapes, all index ranges within them.",
     "The tests use one pattern each.",
     ["algorithm/core/unite_no_data.h", "algorithm/core/intersect_no_data.h", "algorithm/core/merge_no_data.h", "algorithm/core/fill.h", "algorithm/core/copy.h"],
     [("unite_no_data, intersect_no_data, merge_no_data", "algorithm/core"), ("copy", "algorithm/core/copy.h")], ["result values and masks"])

prop("C04", "Work is divided into blocks that cover every element exactly once",
     "For every number of threads and every size of a 1d or 2d array, the blocks the work is divided into contain every index of the array exactly once, in increasing order, and nothing outside of it. "
     "No block of a non-empty array is empty, and there are at least as many blocks as threads when there are at least as many elements (rows) as threads. "
     "An index range has the size of what it contains, is empty when it contains nothing, and equals ranges with the same bounds only.",
     ["inputs", "configurations"], "1-24 threads times 0-400 elements, 1-12 threads times 0-60 rows times 0-17 columns, all ranges within 0-4 (thorough: 64 threads, 1500 elements, 200 rows).",
     "The tests check a few combinations of sizes and numbers of threads; remainders of the division decide.",
     ["algorithm/core/index_ranges.h", "algorithm/core/index_ranges.cc", "algorithm/core/index_range.h", "algorithm/core/index_range.cc"],
     [("index_ranges", "algorithm/core/index_ranges.cc"), ("IndexRange, IndexRanges", "algorithm/core/index_range.cc")], ["blocks returned"])

prop("C06", "Element-wise operations mark no-data exactly and compute everything else",
     "In the result of an element-wise operation on scalars, arrays, or a mix of both, an element is no-data exactly when a corresponding argument element is no-data and the input policy looks at it, or its value is outside of the operation's domain, or its result is outside of the operation's range, as far as the policies passed say so. "
     "Every other element has the operation's result for the corresponding argument elements, a scalar corresponding with every element. "
     "With a policy that ignores or does not mark no-data nothing is marked, and the arguments are never changed.",
     ["inputs", "configurations"], "All patterns of element states (no-data, out of domain, out of range, fine) of arguments of rank 0, 1 and 2 with 0-4 elements, all rank combinations, all mixes of input and output policies, for a custom operation; all no-data patterns for all 35 element-wise operations; sequential and parallel.",
     "The tests mask one element of one array per operation; each rank combination and execution policy is a separate copy of the loop in the code.",
     ["algorithm/core/nullary_local_operation.h", "algorithm/core/unary_local_operation.h", "algorithm/core/binary_local_operation.h", "algorithm/policy/detect_no_data_by_value.h", "algorithm/policy/mark_no_data_by_value.h", "algorithm/policy/input_no_data_policies.h"],
     [("unary_local_operation", "algorithm/core/unary_local_operation.h"), ("binary_local_operation", "algorithm/core/binary_local_operation.h"), ("no-data policies", "algorithm/policy")],
     ["result values and masks"])

prop("C08", "Floating point functions are right over their whole domain",
     "Arithmetic, powers, roots, logarithms, rounding, gamma, factorial, absolute value and trigonometric functions give the mathematical value for every floating point argument (also mixed with integers), to within rounding, including infinities, zeros and denormal numbers. "
     "With the operation's policies, an element is no-data exactly when the argument is outside of the documented domain (division by zero, root or logarithm of a negative value, arc sine or cosine outside of [-1, 1], tangent at odd multiples of half pi, sine, cosine and tangent of infinity, factorial of negative or fractional values, gamma of negative whole numbers, negative base with fractional exponent, zero base with negative exponent) or, for arithmetic, powers, gamma and factorial, when the result is not finite.",
     ["inputs"], "All 90 special values (and pairs of them) of float and double: limits, denormals, halves, neighbours of 1, multiples of pi, infinities, not-a-number; the tangent at 401 multiples of half pi and their neighbours.",
     "The tests compute a few ordinary values per function; domains have edges.",
     ["algorithm/algebra/elementary/sqrt.h", "algorithm/algebra/elementary/log.h", "algorithm/algebra/elementary/log2.h", "algorithm/algebra/elementary/log10.h", "algorithm/algebra/elementary/pow.h", "algorithm/algebra/elementary/tgamma.h", "algorithm/algebra/elementary/factorial.h", "algorithm/algebra/elementary/ceil.h", "algorithm/algebra/elementary/floor.h", "algorithm/algebra/elementary/round.h", "algorithm/algebra/elementary/trunc.h", "algorithm/trigonometry/tan.h", "algorithm/trigonometry/asin.h", "algorithm/trigonometry/acos.h"],
     [("OutOfDomainPolicy, OutOfRangePolicy of each operation", "algorithm/algebra/elementary"), ("OutOfDomainPolicy of each function", "algorithm/trigonometry")],
     ["result value", "no-data mark"])

prop("C09", "Comparisons and logical operations follow their truth tables for all values",
     "Equal, less, less or equal, greater and greater or equal give the order of the two numbers for every pair of values of a type, infinities and negative zero included, and are false for not-a-number. "
     "And, or, xor, nor, xnor and not follow their truth tables, every non-zero value of any arithmetic type counting as true.",
     ["inputs"], "All pairs of 8 bit values, all pairs of boundary values of the other integral types, all pairs of special float and double values, all pairs of bool; mixed types for logic.",
     "The tests compare a few small numbers.",
     ["algorithm/algebra/elementary/equal.h", "algorithm/algebra/elementary/less.h", "algorithm/algebra/elementary/less_equal.h", "algorithm/algebra/elementary/greater.h", "algorithm/algebra/elementary/greater_equal.h", "algorithm/algebra/boole/and.h", "algorithm/algebra/boole/or.h", "algorithm/algebra/boole/xor.h", "algorithm/algebra/boole/nor.h", "algorithm/algebra/boole/xnor.h", "algorithm/algebra/boole/not.h", "core/math.h"],
     [("Algorithm of each operation", "algorithm/algebra/boole/detail"), ("Algorithm of each comparison", "algorithm/algebra/elementary/detail")],
     ["result value"])

prop("C18", "Casting converts every value and keeps no-data",
     "Casting the elements of a collection to another type gives for every value that fits the target type that value, truncated towards zero for an integral, non-zero-ness for a boolean and rounded to nearest for a floating point target. "
     "No-data stays no-data and nothing else becomes no-data, also with the range policy, for the types it supports.",
     ["inputs"], "All 121 pairs of arithmetic types with all boundary or special values that fit; all no-data patterns of small shapes.",
     "The tests cast a few values between a few types.",
     ["algorithm/core/cast.h"], [("cast", "algorithm/core/detail/cast.h")], ["result value", "no-data mark"])

prop("C20", "Collections keep the shape, values, mask and position given to them",
     "Arrays, masked arrays, rasters and masked rasters of rank 1 to 3 have the shape they were made with, and the elements, in row-major order, that were given to them, by whichever way they are read; references see and change the values they refer to. "
     "Elements are masked only when masked explicitly (by element, by value, by another array, all), stay masked until unmasked, keep their values, and an exported mask is 0 where masked and 255 elsewhere; assigning a value to a masked scalar unmasks it. "
     "A clone has the shape and position of its source, the value asked for and nothing masked, and changing a clone or copy leaves the source alone.",
     ["inputs", "histories"], "All shapes with sides up to 3 (thorough 6), ranks 1-3, three value types, four kinds of collection; all sequences of up to 3 operations on masked arrays of up to 4 elements and on pairs of masked scalars.",
     "The tests make a few shapes and use each operation once; rank 3 clones did not work.",
     ["feature/core/array.h", "feature/core/masked_array.h", "feature/core/raster.h", "feature/core/masked_raster.h", "feature/core/masked_scalar.h", "feature/core/array_reference.h", "feature/core/data_customization_point/array.h", "feature/core/data_customization_point/masked_array.h", "feature/core/data_customization_point/raster.h", "feature/core/data_customization_point/masked_raster.h"],
     [("Array, MaskedArray", "feature/core/masked_array.h"), ("clone, get, size, index", "feature/core/data_customization_point")],
     ["values", "masks", "shapes", "transformations"])

prop("C22", "String functions do what they say for every string",
     "Splitting gives the non-empty words between the separating characters in order, stripping removes exactly the listed characters (or whitespace) from the ends asked for, and joining puts the separator between all words. "
     "Contains, starts with and ends with find a part wherever it is, replacing replaces all its occurrences from left to right, once. "
     "A string is convertible to an integer or floating point number exactly when all of it is a decimal number that fits, and then converts to that number, otherwise to zero.",
     ["inputs"], "All strings of up to 4-7 (thorough 9) characters of small alphabets containing the special characters, with all arguments of a few characters; numbers at the limits of 64 bits.",
     "The tests use some words; empty words, overlaps and ends are where such functions go wrong.",
     ["core/string.h", "core/string.cc"], [("split, strip, join, replace, as", "core/string.cc")], ["strings returned"])

prop("C23", "Paths and data names are taken apart and put together consistently",
     "The parts of a path (names, filename, stem, parent), its extension when replaced, whether it is empty or absolute, and two paths joined follow the generic path conventions for every text, and no operation changes its arguments. "
     "A data name is a database pathname, up to the first colon, and an absolute data pathname without empty names and without separator at the end; naming the same data by those parts gives the same name.",
     ["inputs"], "All paths of up to 6 (thorough 8) characters a, b, dot and slash; all pairs of paths up to 3; all data names of up to 7 (8) characters a, b, colon, slash, dot.",
     "The tests use a few ordinary names.",
     ["core/path.h", "core/path.cc", "core/data_name.h", "core/data_name.cc"], [("Path", "core/path.cc"), ("DataName", "core/data_name.cc")], ["pathnames"])

prop("C24", "Symbol tables, scopes and stacks keep what was put in them",
     "After any sequence of pushing, popping and clearing scopes and adding and erasing values, a symbol table gives for each name the value and level of the innermost scope defining it, or says it has none, and knows its size and level; a scope has exactly the last value set for each name. "
     "A stack gives back values last in first out, and only as the type they were pushed as. "
     "Copied and moved containers have the same contents, and changing one does not change the other.",
     ["histories"], "All sequences of up to 6 (thorough 8) operations, with 2-3 names and 2 values, copying at each step.",
     "The tests perform one sequence of operations each.",
     ["language/core/symbol_table.h", "core/scope.h", "core/stack.h", "core/stack.cc"], [("SymbolTable", "language/core/symbol_table.h"), ("Scope", "core/scope.h"), ("Stack", "core/stack.h")], ["values, sizes and levels"])

prop("C25", "Sets of types are sets, and expression types are satisfied by subsets",
     "Collections of data types and of value types behave as sets under or, and, exclusive or, counting, equality and subset tests (an empty set is no subset), and convert to and from the names of their members. "
     "An expression type is satisfied by another one exactly when the other's data types and value types are both non-empty subsets of its own; a list of expression types is satisfied by another list exactly when some type in the latter satisfies some type in the former, the first one of which is reported. "
     "The traits of each value type name that type.",
     ["inputs"], "All 4 sets of data types and 8192 sets of value types, each paired with hundreds of others; all pairs of 75+ expression types; all pairs of lists of up to 2 types.",
     "The tests combine a few flags.",
     ["core/flag_collection.h", "core/data_types.cc", "core/value_types.cc", "core/expression_type.cc", "core/type_traits.cc", "language/operation/core/expression_types.cc"],
     [("FlagCollection", "core/flag_collection.h"), ("ExpressionType", "core/expression_type.cc"), ("ExpressionTypes", "language/operation/core/expression_types.cc")], ["flags, texts, answers"])

prop("C26", "A scope exit calls its function exactly once unless released",
     "The function given to a scope exit is called once, when the instance responsible for it is destroyed, whether by leaving the scope normally or by an exception, which gets through. "
     "Moving an instance moves the responsibility, and releasing an instance ends it: then the function is not called.",
     ["histories", "fault_sequences"], "All sequences of up to 6 (thorough 7) operations make, move, release and destroy on any number of instances; three nested scopes with an exception at every point.",
     "The tests have one instance that is or is not released; moves were not tested and called the function twice.",
     ["core/scope_exit.h"], [("ScopeExit", "core/scope_exit.h")], ["calls"])

prop("C27", "A syntax tree has exactly the content of the XML it is parsed from",
     "Parsing the XML of any script gives a module whose statements, blocks, expressions, names, operators, numbers (type and value), strings and positions are exactly those of the document, in order, at any depth of nesting of all kinds of statements and expressions. "
     "A document that is cut off, followed by more text, or that lacks or adds elements or attributes with respect to the schema is refused with a parse error that has a position and a message; it never crashes and never gives a tree.",
     ["inputs"], "All scripts of up to 4 nodes over all statement and expression kinds, all nestings up to depth 4 along one path, all number types with their boundary values, all strings up to length 3 over characters that need escaping, all prefixes of small documents, and all single-element and single-attribute spoilings.",
     "The tests parse about twenty documents and check that no exception is thrown; which nestings work depends on stacks in the parser.",
     ["language/ast/xml/xml_parser.cc", "language/ast/xml/syntax_tree.xsd", "language/ast/core/operator_vertex.cc"],
     [("XmlParser::parse_string", "language/ast/xml/xml_parser.cc")],
     ["vertices of the tree", "exception"])

prop("C28", "A name is linked to the definition that is in force where it is used",
     "After identification of a script of expressions, assignments to names, and if and while statements, each use of a name is linked to exactly the latest earlier definition of that name in the same block or, failing that, in the innermost enclosing block that has one; names in the right-hand side of an assignment refer to what was defined before it. "
     "A defining name is linked to itself and lists exactly its uses, in order; a name without definition is linked to nothing. "
     "Definitions in a block are unknown after it.",
     ["inputs"], "All scripts of up to 7 nodes over two names with if statements, and up to 5 with all kinds of expressions, while statements and blocks.",
     "The tests identify a handful of scripts; scoping depends on the combination of blocks, shadowing and order.",
     ["language/ast/visitor/identify_visitor.cc", "language/core/symbol_table.h", "language/ast/core/name_vertex.cc"],
     [("IdentifyVisitor", "language/ast/visitor/identify_visitor.cc")],
     ["definitions and uses of name vertices"])

prop("C29", "The control flow graph runs a script in evaluation order",
     "After threading a script without while statements in which no function is called more than once, following the successors from the module, for any outcomes of the conditions, visits exactly the vertices that evaluating the script visits, in that order, and returns to the module: arguments before the operation, the right-hand side before the target before the assignment, the condition before the chosen block, a call of a user-defined function followed by its definition, parameters and body and then by what follows the call. "
     "A return statement leads to the end of its function, from any depth of nested blocks, and the end of a function that is not called leads nowhere.",
     ["inputs", "histories"], "All scripts of up to 5 nodes over all kinds of expressions, 6 nodes with (nested) functions, and all function bodies of up to 8 nodes of if and return statements, each with all outcomes of the conditions.",
     "The tests check the edges of about twenty scripts.",
     ["language/ast/visitor/thread_visitor.cc", "language/ast/core/ast_vertex.cc"],
     [("ThreadVisitor", "language/ast/visitor/thread_visitor.cc")],
     ["successors of vertices"])

prop("C30", "Annotation gives expressions their types, and validation reports the first error",
     "After annotation of a script of expressions and assignments, each valid expression has the one type it will have when evaluated: constants the type of their value, names the type of their latest assignment or of the global symbol, operations the type that follows from the operation and its arguments in order (a field if any argument is a field; the widest of the argument value types, unless the operation fixes it), and operations are linked to their description. "
     "Validation of an annotated script throws nothing if the script is valid, and otherwise reports the first error in evaluation order with name, position, and numbers or types of arguments: undefined identifier, undefined operation, wrong number of arguments, or wrong type of the i-th argument.",
     ["inputs"], "All applications of eight operations with one to three parameters to arguments of all 11 value types, constant and field; all nestings of two operations over 12 leaves; all sequences of up to three assignments and expressions.",
     "The tests annotate about ten expressions, with operations whose parameters are all alike.",
     ["language/ast/visitor/annotate_visitor.cc", "language/ast/visitor/validate_visitor.cc", "language/operation/core/expression_type_calculation.cc", "language/operation/core/operations.cc", "core/expression_type.cc"],
     [("AnnotateVisitor", "language/ast/visitor/annotate_visitor.cc"), ("ValidateVisitor", "language/ast/visitor/validate_visitor.cc"), ("standard_expression_type", "language/operation/core/expression_type_calculation.cc")],
     ["expression types", "operation", "exception"])

prop("C31", "Inputs and outputs of a script are its undefined names and last definitions",
     "For a script of expressions and assignments to names, the inputs are exactly the names that are used where they have no earlier definition, each once, in order of first use. "
     "The outputs are exactly the last definitions of each defined name, in the order of the script. "
     "This holds also when a visitor is used for one script after the other.",
     ["inputs", "histories"], "All scripts of up to 7 nodes of assignments and at most one expression over three names, with one visitor for all and a fresh one for each.",
     "The tests have one script for inputs and one for outputs, the latter with one redefinition; positions shift with each redefinition.",
     ["language/ast/visitor/io_visitor.cc"],
     [("IOVisitor", "language/ast/visitor/io_visitor.cc")],
     ["inputs", "outputs"])

prop("C21", "It does not matter how no-data is marked",
     "An operation gives the same elements no-data, and the same values elsewhere, whether no-data is kept in a mask, as a marker value among the values, as the default marker of the value type, or in a collection of its own with a marker of another type. "
     "The policies detect exactly the elements that hold the marker and mark exactly the element indicated, for any value type, value, marker and number of dimensions. "
     "The default marker is the smallest value of a signed type, the largest of an unsigned type and the smallest positive normal value of a floating point type.",
     ["inputs"], "32 operations on all no-data patterns of one to three arguments of all small shapes, four ways of marking, sequential and parallel; all values of the 8 and 16 bit types and boundary values of the others against several markers; all sets of elements marked.",
     "The tests of the policies mark two elements of one array; the tests of the operations use masks only, while the Python binding uses markers among the values.",
     ["algorithm/policy/detect_no_data.h", "algorithm/policy/detect_no_data_by_value.h", "algorithm/policy/mark_no_data.h", "algorithm/policy/mark_no_data_by_value.h", "core/type_traits.h"],
     [("DetectNoData", "algorithm/policy/detect_no_data.h"), ("MarkNoData", "algorithm/policy/mark_no_data.h"), ("no_data_value", "core/type_traits.h")],
     ["elements that are no-data, and values of the others"])

prop("C32", "A raster is read as it was written, and exactly its no-data cells are marked",
     "Reading a raster dataset gives the value of each cell of the first band at its place, for any shape and value type, with exactly the cells marked that hold the dataset's no-data value (not-a-number included); a no-data value that the type cannot hold marks nothing. "
     "A dataset that is missing or unreadable, has no band, has values of another type, or loses values raises an I/O error that names it. "
     "Raster formats are available exactly while at least one client exists.",
     ["inputs", "fault_sequences", "histories"], "All contents of small rasters over values with and without no-data, all values of the 8 and 16 bit types and boundary values of others, all shapes up to 6 x 6, file layouts (tiles, strips, compression, formats), every truncation of small files, all histories of clients.",
     "The tests read one raster and check its shape.",
     ["io/gdal/read.h", "io/gdal/detail/read.h", "io/gdal/dataset.cc", "io/gdal/gdal_client.cc", "io/gdal/gdal_value_type_traits.cc", "io/core/file.cc"],
     [("read", "io/gdal/detail/read.h"), ("GDALClient", "io/gdal/gdal_client.cc")],
     ["cell values", "no-data marks", "exceptions"])

prop("C33", "A dataset is open exactly as long as a handle refers to it",
     "After any sequence of opening, moving, assigning and destroying dataset handles, exactly the datasets that some handle refers to are open, and each is closed once. "
     "Reading a raster, a convention or a variable leaves no dataset open, whether it succeeds or fails.",
     ["histories", "fault_sequences"], "All sequences of up to 6 (thorough 7) handle operations on a few handles and two datasets, for raster and NetCDF handles; repeated reads of every outcome with the number of open datasets and file descriptors observed.",
     "The tests never move a handle; moved handles closed the dataset, twice.",
     ["io/gdal/dataset_handle.h", "io/gdal/dataset_handle.cc", "io/netcdf/core/dataset_handle.h", "io/netcdf/core/dataset_handle.cc", "io/gdal/dataset.cc", "io/netcdf/core/dataset.cc"],
     [("DatasetHandle (raster)", "io/gdal/dataset_handle.h"), ("DatasetHandle (NetCDF)", "io/netcdf/core/dataset_handle.h")],
     ["open datasets", "open file descriptors"])

prop("C34", "NetCDF conventions, variables and scalars are reported and read as they are",
     "The conventions of a dataset are the elements of its conventions attribute (separated by commas or, without them, by whitespace), and whether it follows a convention, has a variable, whether the variable is scalar and which type it has is answered as the file has it. "
     "Reading a scalar gives the value of the named variable, bit for bit. "
     "Otherwise the first of these raises an I/O error that names the dataset: it is missing, it is unreadable, it does not follow the convention, it has no such variable, the variable is no scalar, it is of another type.",
     ["inputs", "fault_sequences"], "All conventions attributes of up to 4 (thorough 5) names and separators, all ways of storing them, all kinds of attribute; all sets of up to three variables of all types and ranks; boundary and special values; all combinations of what can be wrong.",
     "The tests read one scalar of one file.",
     ["io/netcdf/core/attribute.cc", "io/netcdf/core/dataset.cc", "io/netcdf/core/variable.cc", "io/netcdf/coards/dataset.cc", "io/netcdf/coards/read.h", "io/netcdf/coards/detail/read.h"],
     [("conventions", "io/netcdf/core/dataset.cc"), ("read_coards", "io/netcdf/coards/read.h")],
     ["conventions, answers, values", "exceptions"])

prop("C35", "XML documents of tracks and distributions are read completely, or refused",
     "Parsing a GPX 1.0 or 1.1 document gives exactly its waypoints, routes, tracks and segments, in order, with the coordinates, elevations, times and names they have; parsing a distribution gives the mean and standard deviation stated. "
     "A document that is cut off, does not follow the schema, or holds a value outside of its range is refused with a parse error that has the name of the document and the position and nature of the first error. "
     "A missing document raises an I/O error that names it.",
     ["inputs"], "All documents with up to two of each element and all combinations of their optional parts, boundary coordinates, characters that need escaping; all truncations; unknown elements at one or two places; each element twice; wrong values for each type.",
     "The tests parse a few documents, and are not part of the build for GPX; errors are not tested.",
     ["io/gpx/parse.cc", "io/gpx/gpx-1.0.xsd", "io/gpx/gpx-1.1.xsd", "language/io/uncertml2/uncertml2_parser.cc", "core/parse_error.cc", "core/io_error.cc"],
     [("parse", "io/gpx/parse.cc"), ("UncertML2Parser", "language/io/uncertml2/uncertml2_parser.cc")],
     ["tree", "distribution", "exception"])

prop("C36", "The text written for a script reads back as the same script",
     "The text written for a syntax tree without functions, read by the rules of the language, has the same statements, blocks and expressions, nested in the same way, for any tab size, and whatever was written before with the same visitor. "
     "Integral numbers have the same value and signedness, floating point numbers the same value to the last bit, and strings the same characters.",
     ["inputs", "histories"], "All scripts of up to 4 (thorough 5) nodes over all kinds of statements and expressions, all nestings of blocks up to 8 (10) nodes, all nestings of two and three operators, all 8 bit numbers and boundary and special values of the other types, all strings of up to 3 (4) of 13 characters, five tab sizes.",
     "The tests are not part of the build; those there are write a few scripts, and no numbers of other than the default types.",
     ["language/ast/visitor/module_visitor.cc", "language/ast/core/operator_vertex.cc"],
     [("ModuleVisitor", "language/ast/visitor/module_visitor.cc")],
     ["text"])

prop("C37", "Features and attributes are found at the path where they were stored",
     "After any history of additions, a feature holds exactly the features and attributes added to it, and each is found, by any relative or absolute path that leads to it, as the very object that was stored there. "
     "Counting, naming and asking for presence agree with that at each feature; nothing is found at any other path, and asking for it has no effect and raises no exception.",
     ["histories"], "All histories of up to 3 (thorough 4) additions over paths of up to three names out of two, absolute and relative, in which a feature can be stored at several places; longer ones over one name; pairs over names that are alike; after each, every query at every path.",
     "The tests build one tree and ask for what is in it.",
     ["language/feature/core/feature.cc", "language/feature/core/feature.h", "core/path.cc"],
     [("Feature", "language/feature/core/feature.cc")],
     ["features and attributes found", "numbers and names"])

prop("C38", "Attributes keep what was added to them, and report their type",
     "After any history of additions to a spatial attribute each identifier is given out once and leads to the geometry and the value it was given out for; sizes and iteration agree with that. "
     "A constant attribute has the value set last. "
     "Each constant and field attribute reports the data type and value type it was made with, also through its base class and repeatedly with the same visitor.",
     ["histories", "inputs"], "All histories of up to 5 (thorough 7) additions of three geometries with two values, two of the geometries equal; all settings of constant attributes up to 4; all kinds of attributes and value types, visited in every order of two.",
     "The tests add one or two geometries.",
     ["language/feature/core/spatial_attribute.h", "language/feature/core/spatial_domain.h", "language/feature/core/geometry_values.h", "language/feature/core/constant_attribute.h", "language/feature/visitor/attribute_type_visitor.h"],
     [("SpatialAttribute", "language/feature/core/spatial_attribute.h"), ("AttributeTypeVisitor", "language/feature/visitor/attribute_type_visitor.h")],
     ["identifiers, geometries, values", "reported types"])

prop("C39", "Messages and errors say exactly what they were given",
     "Each message is the text of the catalogue with each argument at its place, verbatim, whatever characters the arguments contain; numbers are written in full. "
     "An I/O, parse or validation error has the message of its kind with the source, position, statement and text it was made with (or the text of the system error), "
     "and keeps that through any copies, moves, assignments and throws, also when it is caught as a general error.",
     ["inputs", "histories"], "All messages with all combinations of special texts and boundary numbers as arguments; all errors with all combinations of sources, positions and texts; all histories of up to 3 (thorough 4) copies, moves, assignments and throws.",
     "The tests look at a few messages.",
     ["core/messages.cc", "core/messages.h", "core/exception.cc", "core/io_error.cc", "core/parse_error.cc", "core/validate_error.cc", "core/script_error.cc"],
     [("Messages", "core/messages.cc"), ("ParseError", "core/parse_error.cc"), ("IOError", "core/io_error.cc")],
     ["messages"])

prop("C40", "Drawings of a script show the script, and nothing else",
     "The drawing of a syntax tree is valid DOT with one node for each scope, statement and expression, labelled with its name, symbol, number (to six digits) or text, and its types, and an arrow from each to its parts, in order, in a cluster per scope; flow and uses are added when asked for. "
     "The flow graph has a node for each operation, value and defining or undefined name, and an arrow from what defines each argument to what uses it. "
     "A visitor used again draws the same.",
     ["inputs", "histories"], "All scripts of up to 4-7 (thorough 6-7) nodes, as parsed, identified and threaded; all 8 bit numbers and boundary values; all texts of up to 3 of 13 characters; all operators; all pairs of types.",
     "The tests are not part of the build, and only run the visitors.",
     ["language/ast/visitor/dot_visitor.cc", "language/ast/visitor/ast_dot_visitor.cc", "language/ast/visitor/flowgraph_dot_visitor.cc"],
     [("AstDotVisitor", "language/ast/visitor/ast_dot_visitor.cc"), ("FlowgraphDotVisitor", "language/ast/visitor/flowgraph_dot_visitor.cc")],
     ["nodes, labels, arrows"])

prop("C41", "Executing a script does what it says, once, in order",
     "Each statement is executed in order, and in it each operation once, after its arguments, from left to right, with exactly their values. "
     "An input is read when first used, and never again unless inputs are set anew; an output is written once, with the value assigned to it last. "
     "Afterwards each name has the value it was given last, and the values of expression statements are the results, also over any sequence of scripts in the same session.",
     ["programs", "histories"], "All scripts without nested blocks of up to 6 (thorough 7) nodes over operations of 0 to 3 arguments, with all, some or no inputs and outputs; all sequences of 3 (thorough 4) small assignments; all sessions of up to 3 scripts with inputs and outputs set anew and results cleared in between.",
     "The tests are not part of the build, and execute a few scripts.",
     ["language/interpreter/execute_visitor.cc", "language/interpreter/execute_visitor.h", "language/core/symbol_table.h"],
     [("ExecuteVisitor", "language/interpreter/execute_visitor.cc")],
     ["operations, reads and writes", "values and results"])

prop("C42", "A Fern dataset has exactly what was written to it, also after a crash",
     "After any history of writing attributes and reopening, the dataset contains exactly the attributes written, with the type and value written last, and the features that lead to them; counting, naming, asking for presence, opening, reading and types agree, also for another program, and for the file as a crash would leave it after any write. "
     "What is not there is refused with an error that names it. "
     "Opening works, or is refused with the reason and without loss of an open dataset; asking whether it can be opened changes nothing.",
     ["histories", "crash_points", "inputs"], "All histories of up to 4 (thorough 5) writes to six paths and reopens in three modes, with a copy of the file made before it is closed; all pairs of boundary values of all types; pairs of special names; every truncation of a dataset and every other kind of place, in every mode; all histories of up to 5 (thorough 6) opens, closes and writes of two handles; all histories of clients.",
     "The tests are not part of the build, and write one value.",
     ["language/io/fern/fern_dataset.cc", "language/io/fern/fern_driver.cc", "language/io/fern/hdf5_file.cc", "language/io/fern/hdf5_group.cc", "language/io/fern/hdf5_dataset.cc", "language/io/fern/utils.cc", "language/io/core/file.cc"],
     [("FernDataset", "language/io/fern/fern_dataset.cc"), ("FernDriver", "language/io/fern/fern_driver.cc")],
     ["features, attributes, values and types", "files and errors"])
