# One entry per property: the source of properties.jsonl and MANIFEST.json (tools/gen.py).
P = []
NA = []
def p(id, title, statement, over, text, why, files, mech, observe=None, note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe or [], note=note, na=na))

p('C01', 'Checked numeric assignment never changes a value silently',
  'Assigning a boolean, integer, float or complex scalar to another numeric type under the overflow, fractional or inexact error mode either stores the value that the mode promises (identical for values in range, truncated towards zero or rounded only where the mode allows it) or raises an error. It raises exactly for the values outside what the mode allows: overflow for out-of-range, fractional also for lost fractions, inexact also for any value that does not convert back, with NaN and infinities included. In the unchecked mode in-range values convert as a C++ cast does.',
  ['inputs'], 'every bit pattern of the source, for 13 x 13 built-in type pairs and four error modes',
  'tests assign a few hand-picked values per type pair; the failing values sit at the edges of ranges (2^31, 2^63, NaN, denormals) of 169 pairs',
  ['include/dynd/assignment.hpp', 'include/dynd/callables/assign_callable.hpp', 'include/dynd/kernels/assignment_kernels.hpp'],
  [('range and round-trip tests of overflow_cast, fractional_cast, inexact_cast', 'include/dynd/assignment.hpp')], ['nd::array::assign'],
  note='all bit patterns of each source type decided by bit-vector and IEEE floating point reasoning')
p('C04', 'Unicode transcoding is exact or refused',
  'Converting text between ascii, ucs2, utf8, utf16 and utf32 (strings and fixed-size strings, and the per-code-point decoders and encoders they use) under a checked error mode yields exactly the same sequence of code points, or raises an error when and only when the input is ill-formed, holds a character the target encoding cannot represent, or does not fit the target size. In unchecked mode ill-formed input decodes to a "?" substitute, always making progress. No conversion reads outside its input or writes outside its output.',
  ['inputs'], 'every byte content of short buffers in each of the five encodings, every code point, every pair of encodings, small target sizes',
  'tests convert a few valid strings; ill-formed sequences, surrogates at the end of a buffer and exact-fit sizes are a combinatorial space',
  ['src/dynd/string_encodings.cpp', 'include/dynd/kernels/assignment_kernels.hpp', 'include/dynd/callables/assign_callable.hpp', 'src/dynd/types/string_type.cpp', 'src/dynd/types/fixed_string_type.cpp'],
  [('next_*/append_* code point functions', 'src/dynd/string_encodings.cpp'), ('fixed_string and string assignment kernels', 'include/dynd/kernels/assignment_kernels.hpp')], ['nd::array::assign', 'get_next_unicode_codepoint_function', 'get_append_unicode_codepoint_function'],
  note='compared against an independent reference transcoder')
p('C09', 'Indexing and slicing select the right elements or raise',
  'Indexing a fixed, variable-sized or tuple dimension by an integer, or slicing a fixed dimension by any start, finish and step, yields a view of exactly the selected elements (negative positions count from the end, negative steps go backwards), without copying. An index or slice start outside the dimension, and more indices than dimensions, raise an error and never refer outside the data. Combinations over several dimensions, and slices of slices, compose the same way.',
  ['inputs'], 'every 64-bit index, start, finish and step over small arrays of one to three dimensions',
  'tests index with a few literals; boundary positions, extreme steps and combinations are unbounded',
  ['src/dynd/shape_tools.cpp', 'src/dynd/types/fixed_dim_type.cpp', 'src/dynd/types/var_dim_type.cpp', 'src/dynd/types/tuple_type.cpp', 'src/dynd/array.cpp', 'include/dynd/irange.hpp'],
  [('apply_single_index, apply_single_linear_index', 'src/dynd/shape_tools.cpp'), ('apply_linear_index of dimension types', 'src/dynd/types/')], ['nd::array::operator()', 'nd::array::at_array'],
  note='compared against an independent reference of the index rules')

p('C02', 'Text is read as the exact integer or boolean, or refused',
  'Parsing text as an integer (directly, by assigning a string array to an integer array, or through string_to_number) yields exactly the written value or raises an error. It accepts an optional minus sign, decimal digits, an optional "." followed only by zeros, and an optional positive exponent (e5, e+5, at most two significant digits), and raises for anything else and for every value outside the range of the destination type, both before and after the exponent is applied. Booleans accept exactly the words 0 1 n y f t no on off yes false true in any letter case.',
  ['inputs'], 'every short byte string, every digit string around the limits of the eight built-in integer types, exponents',
  'tests parse a few literals; overflow bugs show only for particular leading digits and lengths per type',
  ['include/dynd/parse_util.hpp', 'src/dynd/parse_util.cpp', 'include/dynd/kernels/assignment_kernels.hpp'],
  [('parse<T> for unsigned, signed and bool', 'include/dynd/parse_util.hpp'), ('string_to_number', 'include/dynd/parse_util.hpp'), ('string to integer and bool assignment kernels', 'include/dynd/kernels/assignment_kernels.hpp')], ['parse', 'string_to_number', 'nd::array::assign'],
  note='compared against an independent reference reader working in 128 bits')

p('C12', 'Elementwise arithmetic computes the C++ operator on every element',
  'nd::add, subtract, multiply, divide, mod, the bitwise operators, the shifts, the logical operators, unary plus and minus, bitwise and logical not, and sqrt, applied to arrays of the built-in integer, boolean and float types (complex for add, subtract and negation), give for every element exactly the value and the result type of the C++ operator on the promoted operands. Integer division or modulo by zero raises an error for every combination of integer types and floating point division by zero does not. Array operands work element by element, also through reversed views, variable-sized dimensions and with a scalar operand. Operand types without the operation are refused with an error.',
  ['inputs'], 'every value of both operands for every pair of 11 built-in types and 13 operators',
  'tests run a few literal operands of a few pairs; 11 x 11 type pairs times 13 operators have their own instantiated kernel and dispatch entry',
  ['include/dynd/kernels/arithmetic.hpp', 'include/dynd/binary_arithmetic.hpp', 'include/dynd/unary_arithmetic.hpp', 'src/dynd/add.cpp', 'src/dynd/divide.cpp', 'include/dynd/dispatcher.hpp', 'include/dynd/kernels/apply_function_kernel.hpp', 'include/dynd/kernels/elwise_kernel.hpp'],
  [('inline_* operator kernels', 'include/dynd/kernels/arithmetic.hpp'), ('dispatch tables of the arithmetic callables', 'include/dynd/binary_arithmetic.hpp')], ['nd::add', 'nd::divide', 'nd::left_shift', 'nd::logical_and'],
  note='compared against C++ operators on the usual arithmetic conversions')

p('C13', 'Comparisons agree with C++ value comparison',
  'nd::equal, not_equal, less, less_equal, greater and greater_equal return, for every pair of built-in numeric operands, exactly the C++ comparison after the usual arithmetic conversions. Strings compare lexicographically as sequences of unsigned bytes, whatever their length. Tuples and structs of the same number of fields, nested ones and ones of many fields included, are equal exactly when all their fields are equal, even if their field types and layouts differ; different field counts are refused. Array operands compare element by element (also reversed views, variable-sized dimensions and scalar operands), all_equal is true exactly when every element is equal, and total_order is the strict order of its operands. Operands that cannot be compared raise an error.',
  ['inputs'], 'every value of both operands for 121 type pairs and six operators; short and long strings; tuple and struct shapes up to 12 fields',
  'tests compare a few literals and small flat tuples; each type pair has its own kernel and dispatch entry, and tuple comparison depends on layout and metadata',
  ['include/dynd/kernels/equal_kernel.hpp', 'include/dynd/kernels/not_equal_kernel.hpp', 'include/dynd/kernels/less_kernel.hpp', 'include/dynd/kernels/less_equal_kernel.hpp', 'include/dynd/kernels/greater_equal_kernel.hpp', 'include/dynd/kernels/all_equal_kernel.hpp', 'include/dynd/kernels/total_order_kernel.hpp', 'include/dynd/callables/equal_callable.hpp', 'include/dynd/callables/not_equal_callable.hpp', 'include/dynd/comparison_common.hpp', 'include/dynd/types/string_type.hpp'],
  [('comparison kernels', 'include/dynd/kernels/'), ('tuple and struct equality', 'include/dynd/callables/equal_callable.hpp'), ('string operators', 'include/dynd/types/string_type.hpp')], ['nd::equal', 'nd::less', 'nd::all_equal', 'nd::total_order'],
  note='compared against C++ comparison on the usual arithmetic conversions')

p('C16', 'String operations follow substring semantics',
  'For every text and every non-empty pattern, string find and rfind return the byte position of the first and last occurrence (-1 when there is none), count the number of non-overlapping occurrences from the left, contains, startswith and endswith whether the pattern occurs, occurs at the start, occurs at the end. replace substitutes exactly the non-overlapping occurrences from the left and leaves its source alone, concatenation joins its operands in order, and split returns exactly the pieces between occurrences. Texts and patterns of every length behave the same (stored inline or on the heap), and the callables apply element by element to arrays. None of them reads outside its operands.',
  ['inputs'], 'every content of short texts and patterns, longer repetitive texts with free bytes, replacement texts of several lengths',
  'tests use a few literal words; a search bug shows only for particular repetitions, overlaps or positions at the end of a buffer',
  ['include/dynd/string_search.hpp', 'include/dynd/string.hpp', 'include/dynd/kernels/string_concat_kernel.hpp', 'include/dynd/kernels/string_count_kernel.hpp', 'include/dynd/callables/string_split_callable.hpp', 'src/dynd/string.cpp'],
  [('string_search and string_search_reverse', 'include/dynd/string_search.hpp'), ('string_replace, string_concat, string_split', 'include/dynd/string.hpp')], ['nd::string_find', 'nd::string_replace', 'nd::string_split', 'nd::string_concatenation'],
  note='compared against a naive reference search')

p('C19', 'String and bytes values keep their exact contents',
  'A string or bytes value of any length, stored inline or on the heap, holds exactly the bytes it was given, and copying, assigning (self-assignment and overwriting included), moving, swapping, resizing, appending and clearing keep the values that these operations promise, copies being independent of the original. Growing keeps the existing bytes. Every value releases its storage exactly once: none leaks, is freed twice, or is read after it was freed.',
  ['inputs', 'histories'], 'every sequence of two or three operations over values of lengths around the inline limit, all byte contents',
  'tests exercise single operations on fixed literals; storage bugs need transitions between inline and heap in a particular order',
  ['include/dynd/bytes.hpp', 'include/dynd/string.hpp', 'src/dynd/types/string_type.cpp', 'src/dynd/types/bytes_type.cpp'],
  [('sso_bytestring', 'include/dynd/bytes.hpp'), ('bytes, string assign/resize/append', 'include/dynd/bytes.hpp')], ['dynd::string', 'dynd::bytes'],
  note='compared against a plain byte-array model; heap use measured')

p('C10', 'Broadcasting matches shapes correctly or refuses them',
  'Assigning one array to another, and applying an elementwise operation such as addition to operands of different shapes, follows the broadcasting rule: shapes are aligned at the innermost dimension, missing outer dimensions and dimensions of size one repeat, equal sizes pair up. Every element of the result is computed from exactly the operand elements which that rule selects, whether dimensions are fixed or variable-sized, and an unset variable-sized destination takes the size of its source. Shapes which do not fit raise an error, and nothing outside the operands is read or written. The shape functions (broadcast_to_shape, incremental_broadcast, broadcast_input_shapes) compute that same rule.',
  ['inputs'], 'every pair of shapes of up to two or three dimensions with fixed and variable-sized dimensions of size 0 to 3, every element value',
  'tests use a few shape pairs; fixed and variable-sized dimensions, missing dimensions and size-one dimensions combine into hundreds of kernels compositions',
  ['include/dynd/kernels/elwise_kernel.hpp', 'include/dynd/callables/elwise_callable.hpp', 'include/dynd/callables/base_elwise_callable.hpp', 'include/dynd/callables/elwise_dispatch_callable.hpp', 'src/dynd/shape_tools.cpp', 'src/dynd/assignment.cpp'],
  [('elwise kernels per dimension kind', 'include/dynd/kernels/elwise_kernel.hpp'), ('broadcast functions', 'src/dynd/shape_tools.cpp')], ['nd::array::assign', 'nd::add', 'broadcast_to_shape'],
  note='compared against an independent broadcasting reference')

p('C11', 'Rearranging and copying arrays keeps every element',
  'Permuting or transposing the dimensions of an array, rotating its axes, adding a dimension, reshaping, viewing it as another type of the same layout, concatenating, and copying it (eval_copy, assign, empty_like) keep every element: each element of the result is the element of the source at the corresponding position, for sources in any memory order (C order, transposed, reversed or with steps). Permute, rotate and new_axis do not copy: writing through the view changes the original. Invalid axes, axis orders which are not permutations, reshapes to another number of elements, negative or overflowing sizes, counts of dimensions out of range and incompatible views raise an error. The storage and the element view of an array expose exactly its bytes.',
  ['inputs'], 'every axis order, axis number and reshape of arrays of one to four dimensions in four memory layouts, every element value',
  'tests permute or reshape one or two C-order arrays; stride bugs show only for particular layouts and numbers of dimensions',
  ['src/dynd/array.cpp', 'src/dynd/view.cpp', 'src/dynd/shape_tools.cpp', 'src/dynd/types/fixed_dim_type.cpp', 'include/dynd/array.hpp'],
  [('permute, rotate, transpose, new_axis', 'src/dynd/array.cpp'), ('reshape', 'src/dynd/array.cpp'), ('view', 'src/dynd/view.cpp'), ('strides_to_axis_perm, axis_perm_to_strides', 'src/dynd/shape_tools.cpp')], ['nd::array::permute', 'nd::array::rotate', 'nd::array::new_axis', 'nd::reshape', 'nd::view'],
  note='compared against the index formula of each operation')

p('C14', 'Reductions combine exactly the elements of each group',
  'A reduction (sum, min, max, all, and reductions built from user functions with nd::functional::reduction, with one or two operands) over any choice of axes, with or without keepdims, yields for every kept position the result of folding exactly the source elements of that group, once each and in order, starting from the identity; the result has the shape of the kept axes and the type of the operation. It holds for arrays of any memory layout, of size zero and one, and for variable-sized inner dimensions; a single value reduces to itself, infinities included. all_equal is true exactly when every pair of elements is equal.',
  ['inputs'], 'every choice of axes for arrays of one to three dimensions of sizes 0 to 3 in three memory layouts, every element value, ten types',
  'tests reduce a few small arrays over all axes; the initialising first pass, followup passes and kept dimensions combine differently for every set of axes and size',
  ['include/dynd/kernels/reduction_kernel.hpp', 'include/dynd/callables/reduction_callable.hpp', 'include/dynd/callables/base_reduction_callable.hpp', 'src/dynd/sum.cpp', 'src/dynd/statistics.cpp', 'src/dynd/all_equal.cpp', 'include/dynd/functional.hpp'],
  [('reduction kernels per dimension kind', 'include/dynd/kernels/reduction_kernel.hpp'), ('axes and keepdims', 'include/dynd/callables/reduction_callable.hpp')], ['nd::sum', 'nd::min', 'nd::max', 'nd::all', 'nd::all_equal', 'nd::functional::reduction'],
  note='compared against a fold over the groups')

p('C05', 'JSON text is validated by its grammar and survives a round trip',
  'validate_json accepts a text exactly when it is JSON: one value with white space around it, objects and lists with correctly placed commas and colons, numbers, literals, and strings whose escapes are known and complete (\\u with four and \\U with eight hexadecimal digits); it raises for every other text and never reads past the end. Unescaping a string yields exactly the characters that its escapes denote, surrogate pairs included, or raises for a code point that is none. Formatting strings, integers, booleans, missing values and nested lists, tuples and structs of them with format_json yields valid JSON without raw control characters, which denotes the same values, whatever the length of the text and the characters in it.',
  ['inputs'], 'every text of up to 4 bytes, every arrangement of up to 7 structural characters, every number spelling of up to 6 characters, every \\u escape, every short string and every nesting of small containers',
  'tests validate a few documents; a grammar or escaping bug needs a particular rare arrangement, escape or text length',
  ['src/dynd/json_parser.cpp', 'src/dynd/json_formatter.cpp', 'src/dynd/parse_util.cpp', 'src/dynd/string_encodings.cpp'],
  [('validate_json and its parse_json over text', 'src/dynd/json_parser.cpp'), ('unescape_string', 'src/dynd/parse_util.cpp'), ('format_json', 'src/dynd/json_formatter.cpp')], ['validate_json', 'format_json', 'unescape_string'],
  note='compared against an independent recogniser of the JSON grammar and an independent reader of the formatted text')

p('C06', 'JSON text is read into the values it denotes, or refused',
  'parse_json into a given type (booleans, integers, strings, fixed-size strings, options of them, fixed and variable-sized dimensions, tuples and structs, nested) stores exactly the values the text denotes, wherever the bytes of the text lie, or raises. It raises for malformed text, numbers outside the range of the type, lists of another length than a fixed dimension or tuple, and objects that lack a field of the struct; fields of an object are matched by name in any order, unknown members are skipped and a missing optional field is a missing value. null and the missing-value texts give missing values only for options. nd::json::parse of a scalar type agrees.',
  ['inputs'], 'every short text for each of some thirty types, free bytes in the skeletons of nested documents, every digit around the limits of each integer type, lists of up to 40 elements',
  'tests parse a few documents; a wrong value needs a particular spelling, length, member order or truncation',
  ['src/dynd/json_parser.cpp', 'include/dynd/kernels/parse_kernel.hpp', 'include/dynd/parse_util.hpp', 'src/dynd/parse_util.cpp', 'include/dynd/callables/parse_callable.hpp'],
  [('parse_json per type', 'src/dynd/json_parser.cpp'), ('json::parse kernels', 'include/dynd/kernels/parse_kernel.hpp')], ['parse_json', 'nd::json::parse'],
  note='compared against an independent reader directed by the type')

p('C07', 'Types survive printing and reading as datashape',
  'Printing any type built from the datashape constructors (fixed, variable-sized, symbolic, named and ellipsis dimensions, dimension powers, options, pointers, tuples and structs with or without variadic ends, callables with positional and keyword arguments, constructed type variables, strings, bytes and characters with their sizes, alignments and encodings) and reading the text back gives an equal type, which prints the same. Field names of any characters survive. White space and comments between tokens do not matter. Sizes of any magnitude are read exactly or refused, and malformed text always raises; reading never goes past the end of the text.',
  ['inputs'], 'every nesting of depth two (three for selected constructors) of 24 constructors over 33 leaf types, every field name of up to 3 ASCII characters or of one code point, every one-character edit of 26 texts, every size up to 20 digits',
  'tests read a few dozen fixed texts; printing and reading are separate code per type which must agree for every combination',
  ['src/dynd/types/datashape_parser.cpp', 'src/dynd/types/datashape_formatter.cpp', 'src/dynd/parse_util.cpp', 'src/dynd/types/tuple_type.cpp', 'src/dynd/types/struct_type.cpp', 'src/dynd/types/callable_type.cpp', 'src/dynd/types/pow_dimsym_type.cpp', 'src/dynd/types/fixed_string_type.cpp', 'src/dynd/types/fixed_bytes_type.cpp', 'src/dynd/types/bytes_type.cpp'],
  [('datashape::parse', 'src/dynd/types/datashape_parser.cpp'), ('print_type of each type', 'src/dynd/types/'), ('operator== of each type', 'src/dynd/types/')], ['ndt::type', 'type_from_datashape', 'operator<<'],
  note='round trip decided by structural equality of the types; texts built by an independent printer')

p('C15', 'Missing values are recognised and carried through every operation',
  'is_na, the availability tests and assign_na of options of booleans, integers, floats, complex numbers and strings treat exactly the missing value of each type as missing (any NaN for the real types), elementwise for arrays of any layout. Converting an option to another option keeps a missing value missing and converts a present value like the plain types; converting a missing value to a plain type raises and never invents a value. Arithmetic and comparisons in which an operand is missing give missing; otherwise they give the value which the plain operands give. The texts NA, NULL, None and the empty text are read as missing.',
  ['inputs'], 'every cell content of ten option types, every pair of types for conversion, 13 operators and six comparisons with each operand optional or not, arrays of several sizes and layouts',
  'tests check a few literal values; conversions and operators have a kernel per pair of types, chunked loops fail only at particular lengths and positions',
  ['include/dynd/option.hpp', 'src/dynd/option.cpp', 'include/dynd/kernels/is_na_kernel.hpp', 'include/dynd/kernels/assign_na_kernel.hpp', 'include/dynd/kernels/assignment_kernels.hpp', 'include/dynd/callables/forward_na_callable.hpp', 'include/dynd/callables/assign_callable.hpp', 'src/dynd/types/option_type.cpp'],
  [('is_na and assign_na kernels', 'include/dynd/kernels/'), ('option assignment kernels', 'include/dynd/kernels/assignment_kernels.hpp'), ('forward_na', 'include/dynd/callables/forward_na_callable.hpp')], ['nd::is_na', 'nd::assign_na', 'nd::array::assign', 'nd::add', 'nd::less'],
  note='compared against the plain kernels and an independent table of missing-value patterns')
p('C18', 'Fields of tuples and structs keep their own values, and assignment matches them',
  'The fields of every tuple and struct are laid out aligned and disjoint; indexing by position, by name, by slices of fields (with any further index into the fields) and through arrays of rows yields exactly the fields asked for as views, and positions or names which do not exist raise. Assigning a tuple assigns field by field in order, assigning a struct matches the fields by name whatever their order and nesting, for any number of fields and any layout of the source; assignment raises exactly when the number or names of the fields differ or a field does not convert. Strings in fields are copied and released.',
  ['inputs'], 'up to 4 fields of ten types for the layout, every slice of up to 5 fields, every order of up to 4 names, up to 14 fields in an assignment, every content',
  'tests use two or three fields of fixed types in one order; permutations, metadata offsets of fields and larger field counts combine without limit',
  ['src/dynd/types/tuple_type.cpp', 'src/dynd/types/struct_type.cpp', 'include/dynd/callables/assign_callable.hpp', 'include/dynd/kernels/tuple_assignment_kernels.hpp', 'include/dynd/callables/field_access_callable.hpp', 'include/dynd/kernels/field_access_kernel.hpp'],
  [('tuple and struct types', 'src/dynd/types/'), ('struct assignment', 'include/dynd/callables/assign_callable.hpp')], ['nd::array::operator()', 'nd::array::p', 'nd::array::assign', 'ndt::struct_type'])

p('C26', '128-bit integers compute like integers',
  'int128 and uint128 behave as 128-bit two\'s complement and unsigned integers: sums, differences, negation, bit operations, products with and quotients by 32-bit factors, comparisons among themselves and with the built-in integers, conversion from and to every built-in integer type, and printing give the exact result modulo 2^128. Conversion from and to float and double is exact for values which both can represent and truncates fractions. Assignment of arrays of these types from and to the other integer and floating point types stores the value when the target can represent it and raises in every checked error mode when it cannot; addition and subtraction of arrays are elementwise exact.',
  ['inputs'], 'every pair of 128-bit values for sums, differences, bit operations, comparisons, integer conversions and assignment; structured families for products, quotients, printing and floating point',
  'tests compare a few dozen constants; carries between the halves, the least value and values around 2^64 and 2^127 need rare bit patterns',
  ['include/dynd/int128.hpp', 'include/dynd/uint128.hpp', 'src/dynd/int128.cpp', 'src/dynd/uint128.cpp', 'include/dynd/assignment.hpp'],
  [('int128', 'src/dynd/int128.cpp'), ('uint128', 'src/dynd/uint128.cpp'), ('checked casts', 'include/dynd/assignment.hpp')], ['dynd::int128', 'dynd::uint128', 'nd::array::assign'],
  note='compared with the 128-bit integers of the compiler (bit vectors of width 128 in the solver)')

p('C27', 'Half precision numbers convert and compare exactly',
  'Every float16 bit pattern converts to float32 and float64 exactly (sign of zero, subnormals, infinities and NaN payloads included) and back to the same bits. Converting a float32 or float64 to half precision rounds to nearest, ties to even; it raises only for values beyond the half range or for inexact values below its normal range, and keeps infinities and NaN. Comparisons between half precision numbers and with doubles, the tests (iszero, isnan, isinf, isfinite, signbit), the truth value, negation and conversion from and to integers agree with the value.',
  ['inputs'], 'every half precision pattern, every pair in ordered comparisons, every significand of float32 and float64 at 28 exponents',
  'tests convert a few constants; rounding ties, subnormals and NaN payloads need particular bit patterns out of 2^64',
  ['include/dynd/float16.hpp', 'src/dynd/float16.cpp', 'include/dynd/int128.hpp', 'src/dynd/int128.cpp', 'src/dynd/uint128.cpp'],
  [('halfbits conversions', 'src/dynd/float16.cpp'), ('float16', 'include/dynd/float16.hpp')], ['dynd::float16', 'halfbits_to_float', 'float_to_halfbits', 'halfbits_to_double', 'double_to_halfbits'],
  note='compared with an independent integer formula for the bits')

p('C30', 'Calling a callable checks its arguments and computes exactly the function',
  'A C++ function, method or function object made into a callable computes, for every argument, what the C++ code computes. A call is accepted exactly when the number of positional arguments is right, every argument has the type of its parameter, and every required keyword is given once by position or by name and no unknown keyword is given; otherwise it raises. A destination given as "dst" receives the result when its type and shape are those of the result (or one it broadcasts to, for elementwise arithmetic) and is otherwise refused untouched. Among overloads the most specific one which accepts the arguments is chosen whatever the order of definition; a call none accepts raises, and ambiguous overloads are refused. Assignment between two types without a conversion raises, and no assignment touches memory outside its operands.',
  ['inputs'], 'every keyword layout of three-argument functions, 14 argument types per parameter, overload sets of three candidates over four types and one or two arguments, destinations of 11 types and 7 shapes, 34 x 34 type pairs of assignment, every value',
  'tests call a few signatures correctly; wrong counts, names, types and orders of definition combine without limit',
  ['include/dynd/callable.hpp', 'src/dynd/callables/base_callable.cpp', 'include/dynd/callables/base_dispatch_callable.hpp', 'include/dynd/callables/multidispatch_callable.hpp', 'include/dynd/dispatcher.hpp', 'include/dynd/callables/apply_callable_callable.hpp', 'include/dynd/callables/assign_callable.hpp', 'src/dynd/assignment.cpp'],
  [('callable::call and base_callable::call', 'include/dynd/callable.hpp'), ('dispatcher', 'include/dynd/dispatcher.hpp'), ('apply', 'include/dynd/functional.hpp')], ['nd::callable::operator()', 'nd::functional::apply', 'nd::callable::specialize', 'nd::array::assign'],
  note='compared with an independent reading of the call and with the C++ function itself')

p('C39', 'Taking elements by positions or by a mask gives exactly those elements',
  'nd::take with an array of positions returns, for every layout of the source and of the positions, a fixed dimension holding a copy of the element at each position (negative positions count from the end) and raises when any position is outside the source; with a boolean mask of the size of the source it returns a variable-sized dimension of the elements whose mask is true, in order. A mask of another size, positions of another type than the native integer and sources without a dimension raise. The source is unchanged, a given destination receives the elements only when its type and size match, and strings are copied.',
  ['inputs'], 'every 64-bit position and every mask over sources of up to 4 elements of five element types and strings, in four layouts',
  'tests take three or four elements of one contiguous array; positions at the limits, strides and runs at the end of a mask are not reached',
  ['include/dynd/kernels/take_kernel.hpp', 'include/dynd/callables/take_dispatch_callable.hpp', 'src/dynd/index.cpp', 'src/dynd/shape_tools.cpp'],
  [('indexed_take_ck, masked_take_ck', 'include/dynd/kernels/take_kernel.hpp'), ('take callables', 'include/dynd/callables/take_dispatch_callable.hpp')], ['nd::take'])

p('C17', 'Sorting orders exactly the given elements, and binary search finds them',
  'nd::sort of a one-dimensional fixed array of booleans, integers, floats or strings, in place and in any layout (contiguous, reversed or strided), leaves exactly the same elements in nondecreasing order and changes nothing outside the array, for any length; with NaN among the elements nothing is lost and no memory outside the array is touched. Sorting anything else raises. nd::binary_search in a sorted array of int32, booleans or strings returns a position holding the value when the array has it and -1 when it does not (empty arrays included), in any layout; a value of another type is converted when it has the same value in the element type or refused.',
  ['inputs'], 'every content of arrays of up to 5 elements of 11 built-in types and strings, free elements in patterns of 17 to 24 elements, in four layouts',
  'tests sort one contiguous array; the partition and insertion steps fail only for particular lengths, orders, ties and strides',
  ['src/dynd/sort.cpp', 'include/dynd/kernels/sort_kernel.hpp', 'include/dynd/callables/sort_callable.hpp', 'include/dynd/iterator.hpp', 'src/dynd/search.cpp', 'include/dynd/kernels/binary_search_kernel.hpp', 'include/dynd/callables/binary_search_callable.hpp'],
  [('sort_kernel over strided_iterator', 'include/dynd/kernels/sort_kernel.hpp'), ('binary_search_kernel', 'include/dynd/kernels/binary_search_kernel.hpp')], ['nd::sort', 'nd::binary_search'])

p('C22', 'A type matches a pattern exactly when the pattern denotes it',
  'Matching a concrete type against a pattern (fixed, Fixed and var dimensions, named dimensions, ellipses, dimension powers, typed and constructed variables, Any and the kinds, options, tuples, structs, pointers and callables with or without variadic ends) succeeds exactly when the pattern denotes it: every variable stands for one thing throughout, an ellipsis for any number of dimensions, a power for exactly that many equal ones. The variables found, substituted into the pattern, give the type back. Substitution puts exactly the given values in place, keeps what has no value when a partial result is allowed and raises otherwise. Types are equal exactly when they are built alike.',
  ['inputs'], 'patterns of up to three dimensions of 12 kinds with any sizes over 30 element patterns, against types of up to four dimensions over 15 element types, and pairs of fields sharing variables',
  'tests match a few dozen pairs; a wrong answer needs a combination of an ellipsis, a power or a shared variable with a particular number of dimensions',
  ['src/dynd/types/fixed_dim_type.cpp', 'src/dynd/types/var_dim_type.cpp', 'src/dynd/types/typevar_dim_type.cpp', 'src/dynd/types/ellipsis_dim_type.cpp', 'src/dynd/types/pow_dimsym_type.cpp', 'src/dynd/types/typevar_type.cpp', 'src/dynd/types/typevar_constructed_type.cpp', 'src/dynd/types/tuple_type.cpp', 'src/dynd/types/struct_type.cpp', 'src/dynd/types/option_type.cpp', 'src/dynd/types/callable_type.cpp', 'src/dynd/types/substitute_typevars.cpp', 'src/dynd/types/dim_fragment_type.cpp'],
  [('match of each type', 'src/dynd/types/'), ('substitute', 'src/dynd/types/substitute_typevars.cpp')], ['ndt::type::match', 'ndt::substitute', 'ndt::type::operator=='],
  note='compared with an independent matcher which tries every length of an ellipsis')

p('C32', 'Ranges and linear spaces hold exactly the requested values',
  'nd::range and nd::old_range of an integer type from start to stop by step hold start, start + step, ... up to but excluding stop, for every start and stop and either sign of the step, without the count or a value wrapping around; a zero step raises, and a step away from the stop gives no elements. For float types a range whose bounds are multiples of the step holds exactly that many values, each start + i * step rounded, and bounds or steps which are infinite, NaN or zero raise or give no elements. Omitted start and step mean 0 and 1. nd::old_linspace holds the requested number of evenly spaced values whose first and last are exactly the given ends, and raises for fewer than two values or types other than real and complex floats.',
  ['inputs'], 'every start and stop of the eight built-in integer types with power-of-two steps and others in windows at both ends, float ranges and linear spaces on grids',
  'tests build a few short ranges; the count overflows or rounds only for bounds near the limits of a type and particular steps',
  ['src/dynd/range.cpp', 'include/dynd/callables/range_callable.hpp', 'include/dynd/kernels/range_kernel.hpp', 'src/dynd/array_range.cpp'],
  [('range_callable', 'include/dynd/callables/range_callable.hpp'), ('old_range, old_linspace', 'src/dynd/array_range.cpp')], ['nd::range', 'nd::old_range', 'nd::old_linspace'])

p('C40', 'Function combinators compute the function they stand for',
  'nd::functional::outer of a function applies it to every combination of elements of its arguments, with the dimensions of the arguments one after the other in the result; compose applies the second function to the result of the first, on scalars and, lifted elementwise, on arrays of any length and layout, also through buffers which own memory; constant returns a copy of its value whatever the arguments; left_compound and right_compound combine a destination with a source on the given side; where returns the positions of the elements for which the predicate holds, in order. The sources are unchanged and unsupported arguments raise.',
  ['inputs'], 'outer products of one to three arguments of up to two dimensions, compositions of up to 70 elements, where on up to 5, in three layouts, every value',
  'tests apply each combinator to one or two contiguous arrays; strides, empty dimensions and chunk ends are not reached',
  ['include/dynd/functional.hpp', 'src/dynd/functional.cpp', 'include/dynd/callables/outer_callable.hpp', 'include/dynd/callables/compose_callable.hpp', 'include/dynd/kernels/compose_kernel.hpp', 'include/dynd/callables/constant_callable.hpp', 'include/dynd/kernels/constant_kernel.hpp', 'include/dynd/callables/compound_callable.hpp', 'include/dynd/kernels/compound_kernel.hpp', 'include/dynd/callables/where_callable.hpp', 'include/dynd/kernels/where_kernel.hpp'],
  [('outer_callable', 'include/dynd/callables/outer_callable.hpp'), ('compose_kernel', 'include/dynd/kernels/compose_kernel.hpp'), ('where_kernel', 'include/dynd/kernels/where_kernel.hpp')], ['nd::functional::outer', 'nd::functional::compose', 'nd::functional::constant', 'nd::functional::where'])

p('C20', 'Memory of variable-sized dimensions keeps every element as it grows',
  'Growing or shrinking an allocation of a memory block keeps its elements (as many as still fit), hands out aligned memory which overlaps no other allocation of the block, clears new memory where the block promises it and leaves every other allocation unchanged, for plain, zero-initialized and object memory and any order of allocations, resizes and resets. Lists of any length read from JSON into a variable-sized dimension (of integers, strings, options, records, or further lists, several in one block) keep every element, and elements stay valid when only a view of them is left. All memory is released at the end, also when reading fails in the middle.',
  ['inputs', 'histories'], 'histories of three or four operations in blocks of capacity 3, lists at 16 lengths around every growth up to 1100, nested lists, six element types, every content',
  'tests read lists of a few elements, which never outgrow the first chunk of memory',
  ['include/dynd/memblock/pod_memory_block.hpp', 'include/dynd/memblock/zeroinit_memory_block.hpp', 'include/dynd/memblock/objectarray_memory_block.hpp', 'src/dynd/types/var_dim_type.cpp', 'src/dynd/json_parser.cpp', 'src/dynd/types/string_type.cpp'],
  [('alloc, resize and reset of the memory blocks', 'include/dynd/memblock/'), ('var_dim metadata', 'src/dynd/types/var_dim_type.cpp'), ('parse_var_dim_json', 'src/dynd/json_parser.cpp')], ['nd::pod_memory_block', 'nd::zeroinit_memory_block', 'nd::objectarray_memory_block', 'parse_json'])

p('C21', 'Arrays and their views keep exactly the memory they need alive',
  'In any history of indexing, slicing, selecting fields, moving axes, copying, assigning, sharing and dropping arrays of strings, bytes, options, tuples, structs and fixed or variable-sized dimensions in any nesting, every array and view keeps its elements until the last handle to it is gone, a view shares the elements of its source and a copy shares none, an assignment changes the destination only, and a refused assignment changes nothing. No freed memory is read or freed twice, and when the last handle is gone all memory has been released; the same holds for the results of callables and for calls which raise.',
  ['histories', 'inputs'], 'every history of two operations out of 14 over 15 array types and of three (four at depth) over selected ones, 24 calls and 8 refused calls, every content',
  'tests do not count memory, and a dangling reference usually reads the old contents; it needs an order of dropping in which the view is left last',
  ['include/dynd/array.hpp', 'src/dynd/array.cpp', 'include/dynd/buffer.hpp', 'include/dynd/memblock/buffer_memory_block.hpp', 'include/dynd/memblock/objectarray_memory_block.hpp', 'src/dynd/types/fixed_dim_type.cpp', 'src/dynd/types/var_dim_type.cpp', 'src/dynd/types/tuple_type.cpp', 'src/dynd/types/struct_type.cpp', 'src/dynd/types/option_type.cpp', 'src/dynd/types/string_type.cpp', 'include/dynd/types/sso_bytestring.hpp', 'include/dynd/kernels/assignment_kernels.hpp'],
  [('arrmeta_copy_construct, arrmeta_destruct and data_destruct of each type', 'src/dynd/types/'), ('apply_linear_index', 'src/dynd/types/'), ('buffer_memory_block', 'include/dynd/memblock/buffer_memory_block.hpp')], ['nd::array'],
  note='every load, store and free checked against the life of its object; live heap bytes compared')

p('C24', 'Type promotion and lossless conversion agree with the values',
  'The type promoted from two numeric types does not depend on their order and is that of the C++ operators on them (at least int32; the larger type, the unsigned one on a tie; floats above integers, at least float32; complex above floats and wide enough for a float64 operand); void gives way to the other type, two strings give string, an option of either operand gives an option, and a number with a string is refused. A type is called losslessly convertible to another only if every value of it survives conversion and back, for bool, every integer and float width and complex; integers, floats and complex types that can hold every value of another are called so; an option is never lossless into a type without missing values, and dimensions, tuples and structs are exactly when their elements are and the shapes and names agree.',
  ['inputs'], 'every ordered pair of 21 types and of options of them; for lossless conversion every pair of 17 types and every bit pattern of the source',
  'tests check a few dozen pairs out of 441 and no value; an asymmetric or lossy pair shows only for one order or one value',
  ['src/dynd/type_promotion.cpp', 'include/dynd/type_promotion.hpp', 'src/dynd/type.cpp', 'include/dynd/type.hpp', 'src/dynd/types/option_type.cpp', 'src/dynd/types/string_type.cpp', 'src/dynd/types/fixed_dim_type.cpp', 'src/dynd/types/tuple_type.cpp', 'src/dynd/types/struct_type.cpp'],
  [('promote_types_arithmetic', 'src/dynd/type_promotion.cpp'), ('is_lossless_assignment', 'src/dynd/type.cpp'), ('is_lossless_assignment of each type', 'src/dynd/types/')], ['promote_types_arithmetic', 'is_lossless_assignment'],
  note='the values are decided by converting every bit pattern there and back in the strictest error mode')

p('C33', 'Complex numbers compute, compare and split into parts exactly',
  'For complex numbers of either precision, as C++ values and as array elements, alone, with each other, with integers and with floats in either order, sums, differences, products and quotients are the componentwise formulas in the common floating-point type (a quotient is the product with the conjugate of the divisor over its squared magnitude), equality holds exactly when both parts are equal and inequality is its negation, assignment between precisions rounds each part, and an order between complex numbers is refused. real, imag and conj of a scalar or of an array of any layout give exactly the parts and the number with its imaginary part negated, and the sum of an array of complex numbers adds the parts.',
  ['inputs'], 'every bit pattern of both parts, two precisions with each other and with eight real types in both orders, arrays of up to three elements in three layouts',
  'tests use a few integral values; signed zeros, infinities, NaN and mixed operand orders are not reached',
  ['include/dynd/complex.hpp', 'src/dynd/math.cpp', 'include/dynd/callables/conj_callable.hpp', 'include/dynd/kernels/conj_kernel.hpp', 'include/dynd/callables/real_callable.hpp', 'include/dynd/kernels/arithmetic.hpp', 'include/dynd/kernels/equal_kernel.hpp'],
  [('dynd::complex operators', 'include/dynd/complex.hpp'), ('real, imag, conj', 'src/dynd/math.cpp')], ['dynd::complex', 'nd::real', 'nd::imag', 'nd::conj', 'nd::add', 'nd::divide'],
  note='every formula decided for all bit patterns by IEEE floating point reasoning')

p('C28', 'Arrays made from C++ values hold exactly those values and give them back',
  'An array made from a C++ scalar, complex number, string, bytes, vector (nested up to three deep, ragged, empty), C array, initializer list, pointer and size, or tuple has the corresponding type (rows of equal length give a fixed dimension and rows of different lengths a variable-sized one), holds exactly the given values in order and shares no memory with the source. Reading a scalar array back as a C++ type gives the same value or raises when that type cannot hold it, text and bytes come back unchanged, and an array with dimensions is refused as a scalar. A record made from arrays and names has the given fields in order. All memory is released at the end.',
  ['inputs'], 'scalars of fifteen C++ types with every value and back as every one of eleven, text of up to 4 bytes, vectors of up to 4 elements, up to 3 x 3 and 2 x 2 x 2 ragged or not, C arrays of up to three dimensions, initializer lists of eleven shapes, nested tuples',
  'tests make a few rectangular arrays of small numbers; ragged, empty and string rows and values at the limits are not reached',
  ['include/dynd/array.hpp', 'src/dynd/array.cpp', 'include/dynd/kernels/init_kernel.hpp', 'include/dynd/type.hpp', 'src/dynd/types/var_dim_type.cpp'],
  [('init_kernel and container_init', 'include/dynd/kernels/init_kernel.hpp'), ('shape and is_ragged traits', 'include/dynd/type.hpp'), ('array::as', 'include/dynd/array.hpp')], ['nd::array', 'nd::array::as', 'nd::tuple', 'nd::as_struct'])

p('C23', 'Arrays that are not writable never change, and views keep their access',
  'An array flagged read-only or immutable is never changed through its handle or through any view of it: assigning to it or to a part of it, assign_na, sorting, reading JSON into it and giving it as the destination of a callable raise and leave every byte as it was, and its memory is not handed out for writing. Every view (index, slice, field, permuted axes, new axis, reshape of contiguous memory, reinterpretation) of an array has the access of the array, selects the same elements as from a writable one and copies nothing. Reading and computing from such an array gives what it gives for a writable one. A copy holds the same, has the requested access and shares no memory, and a tuple of arrays has the access all of them have.',
  ['inputs', 'histories'], '14 array types, three kinds of access, every chain of up to two of eleven views, 13 ways of writing and 20 of reading, every content',
  'tests never write to an array that is not writable; a path that forgets the check shows only for one way of writing through one view',
  ['include/dynd/buffer.hpp', 'include/dynd/memblock/buffer_memory_block.hpp', 'src/dynd/array.cpp', 'include/dynd/array.hpp', 'src/dynd/view.cpp', 'src/dynd/callables/base_callable.cpp', 'include/dynd/kernels/sort_kernel.hpp', 'src/dynd/json_parser.cpp', 'src/dynd/types/pointer_type.cpp'],
  [('data() and the access flags', 'include/dynd/buffer.hpp'), ('call with a destination', 'src/dynd/callables/base_callable.cpp'), ('views', 'src/dynd/array.cpp')], ['nd::array', 'nd::array::assign', 'nd::array::data', 'nd::array::eval_copy'],
  note='compared with a writable handle to the same memory')

p('C34', 'Printed arrays show exactly their elements',
  'Writing an array to a stream shows "array(", its value, and its type. Integers of any width are shown as their decimal digits and nothing else, booleans as True and False, missing values as NA, strings, fixed strings and characters of every encoding between double quotes with escapes such that unescaping them gives exactly the code points, bytes as two hexadecimal digits each, and dimensions, tuples and structs as bracketed lists of their elements in order, separated by commas, whatever the strides of the array. When a list is long its middle, and only its middle, is replaced by three dots: the elements before and after them are the first and the last ones. Assigning a 32-bit integer to a fixed string writes its decimal digits, or is refused when they do not fit.',
  ['inputs'], 'every integer of 8 to 64 bits, texts of every one or two code points in seven types, every bytes value of ten lengths, lists of up to 800 elements of three widths and rows and nested lists with arbitrary elements in several layouts',
  'tests print a handful of small arrays; separators, widths and the elision of long lists go wrong only for particular counts and lengths',
  ['src/dynd/type.cpp', 'src/dynd/array.cpp', 'src/dynd/string_encodings.cpp', 'src/dynd/types/fixed_dim_type.cpp', 'src/dynd/types/var_dim_type.cpp', 'src/dynd/types/fixed_string_type.cpp', 'src/dynd/types/bytes_type.cpp', 'src/dynd/types/char_type.cpp', 'src/dynd/types/option_type.cpp', 'src/dynd/types/tuple_type.cpp'],
  [('layout of lists', 'src/dynd/type.cpp'), ('escapes', 'src/dynd/string_encodings.cpp'), ('operator<<', 'src/dynd/array.cpp')], ['nd::operator<<', 'strided_array_summarized', 'print_escaped_utf8_string', 'hexadecimal_print'],
  note='floating point values are outside: the stream formats them')

p('C08', 'Shape, strides, axis order and element type describe the array',
  'For an array of fixed dimensions with any strides, the shape, the strides, the size of each dimension and the element type asked for are those of the array, an element lies where its index and the strides put it, what remains after an index has the remaining shape and strides, and asking for a dimension that does not exist raises. A variable-sized dimension has the size of its data, and a size that differs between rows is told as -1. The axis order found for given strides is a permutation by increasing distance, with equal distances in C order; memory order is called C, F or neither exactly when it is, and memory is called contiguous only when every element lies at its linear position. An array made like another has its shape, is dense, and keeps its memory order. A new array is contiguous. For a type, the type below each dimension, the number of strided dimensions, the size of its data and metadata, replacing its element type and inserting dimensions of size one agree with its construction, for symbolic, ellipsis and power dimensions too.',
  ['inputs'], 'every stride of 64 bits in up to four dimensions, sizes up to 15, every nesting of up to three dimensions of eight kinds over nine element types',
  'tests use contiguous arrays of a few shapes; axis orders go wrong for particular orders of strides, in three or more dimensions, or for sizes of one and zero',
  ['src/dynd/shape_tools.cpp', 'include/dynd/shape_tools.hpp', 'include/dynd/buffer.hpp', 'src/dynd/type.cpp', 'src/dynd/array.cpp', 'src/dynd/types/fixed_dim_type.cpp', 'src/dynd/types/var_dim_type.cpp', 'src/dynd/types/fixed_dim_kind_type.cpp', 'src/dynd/types/typevar_dim_type.cpp', 'src/dynd/types/ellipsis_dim_type.cpp', 'src/dynd/types/base_type.cpp'],
  [('strides_to_axis_perm', 'src/dynd/shape_tools.cpp'), ('reorder_default_constructed_strides', 'src/dynd/types/fixed_dim_type.cpp'), ('get_shape and get_strides', 'include/dynd/buffer.hpp'), ('with_replaced_dtype', 'src/dynd/type.cpp')], ['nd::array::get_shape', 'nd::array::get_strides', 'nd::array::get_dtype', 'nd::empty_like', 'ndt::type::with_new_axis', 'strides_to_axis_perm'])

p('C29', 'C interface types count references, are released once and know their parts',
  'A type made through the C interface (tuple, dense, sparse) starts with one reference, keeps its parameters in the order given even when the caller reuses the array they were passed in, has no superclasses, and names its constructor; its alignment is the strictest of its parameters, or one for an empty tuple. Taking and dropping references counts exactly, a type stays intact while it has references and is released once, with all of its memory, when the last one is dropped. The built-in types have the sizes and alignments of the machine types they are named after, and a buffer knows its memory and frees it.',
  ['inputs', 'histories'], 'tuples of up to 4 parameters of any alignment, nested types, every reference count, every history of 6 references',
  'no test exercises the C interface; an error in the layout or the count crashes only when a type is released',
  ['src/dynd/abi/type.cpp', 'src/dynd/abi/metadata.c', 'src/dynd/abi/resource.cpp', 'src/dynd/abi/types/tuple.cpp', 'src/dynd/abi/types/dense.cpp', 'src/dynd/abi/types/sparse.cpp', 'src/dynd/abi/types/primitive.cpp', 'include/dynd/abi/refcount.h', 'include/dynd/abi/type.h'],
  [('make_tuple and tuple_alignment', 'src/dynd/abi/types/tuple.cpp'), ('dynd_incref and dynd_decref', 'include/dynd/abi/refcount.h'), ('dynd_malloc_type', 'src/dynd/abi/type.cpp')], ['dynd_type_tuple', 'dynd_type_dense', 'dynd_type_sparse', 'dynd_incref', 'dynd_decref'])

p('C35', 'Exact equality and conversion to a requested type agree with the elements',
  'Two arrays are exactly equal when they have the same type and shape and every pair of corresponding elements compares equal, whatever the order of their memory; otherwise they are not, including variable-sized dimensions of different lengths, and comparing them does not raise. An array asked for as a type it already matches is passed along itself; otherwise the answer has a concrete type matching the request and the elements of the array converted to it, or the request is refused, and a request of the same dimensions is not refused. Filling a shape into a type replaces exactly the symbolic fixed dimensions it covers, and refuses sizes that disagree.',
  ['inputs'], 'every value of the elements, arrays of up to three dimensions in three memory orders, every request and pattern of up to two and three dimensions',
  'tests compare a few contiguous arrays and the tests of conversion to a requested type are commented out; errors need differing lengths, memory orders or symbolic dimensions',
  ['src/dynd/array.cpp', 'include/dynd/array_iter.hpp', 'src/dynd/asarray.cpp', 'src/dynd/types/substitute_shape.cpp', 'src/dynd/view.cpp', 'src/dynd/types/fixed_dim_type.cpp', 'src/dynd/shape_tools.cpp'],
  [('equals_exact', 'src/dynd/array.cpp'), ('array_iter', 'include/dynd/array_iter.hpp'), ('asarray', 'src/dynd/asarray.cpp'), ('substitute_shape', 'src/dynd/types/substitute_shape.cpp')], ['nd::array::equals_exact', 'nd::asarray', 'ndt::substitute_shape'])
