import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,hook=None,obs=None):
    a={"files":files,"mechanism":[{"name":m,"where":w} for m,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
I="crates/utils/src/intern.rs"; L="crates/utils/src/linked.rs"; B="crates/ints/src/big_int.rs"; BM="crates/ints/src/big_int/macros.rs"
p("C01","A live interned id always resolves to the value it was issued for",
 "From the moment adding a value to an interner returns an id until the last reference to that id is released, looking the id up returns a value equal to the one added, whatever any thread adds, references, releases or looks up meanwhile. An id with no references left, or never issued, is reported as absent by the fallible lookup instead of panicking or returning another value.",
 ["schedules","histories"],"All programs of add / reference / release / look-up on any number of threads that only use ids they hold references to, and all interleavings of their atomic steps.",
 "Existing tests run one free-running 100-thread add test and three short sequential scripts; they sample a handful of schedules, never release concurrently, and never leave the first chunk of ids.",
 [I,L],[("slot search and claim","Interner::add / find"),("reference counts","incr_inner / decr_inner"),("lookup","Interner::try_get")],
 [("refs","number of references to the slot","Interned.refs"),("val","value last stored in the slot","Interned.val")],"numeric_verif: instrumented atomics")
p("C02","Interning shares equal values, separates others, counts and recycles",
 "While a value has a live id, adding an equal value returns that same id, and ids of different live values are different; an id's reference count equals adds plus references minus releases (releasing at zero changes nothing). Released ids are reused, so every id ever issued is below the preallocated capacity or the peak number of simultaneously live ids, both rounded up to a whole chunk of 32.",
 ["schedules","histories"],"All programs and interleavings as for C01, and all sequential histories over many values and several chunks.",
 "Tests check one pair of duplicates and one revive in the first slots; duplicates hidden behind dead slots, later chunks, counts under contention and bounded growth are never reached.",
 [I],[("dedupe and dead-slot reuse","Interner::find"),("exclusive claiming","AddGuard"),("chunk growth","UnsyncLinked::push")],
 [("refs","reference count per id","Interned.refs")],"numeric_verif: instrumented atomics")
p("C03","The interner and its list are free of data races under every schedule",
 "Every access to a stored value, and every access to a list node, happens-after the write that initialised it, and every replacement of a stored value happens-after all earlier reads of the value it replaces, under the C11/Rust memory model orderings the code actually requests. This holds for every program that only uses ids it holds.",
 ["schedules"],"All interleavings of programs as in C01 and of concurrent pushes and reads of the list, judged by the happens-before relation induced by the requested memory orderings rather than by what the test machine's hardware happens to do.",
 "x86 hardware hides weak orderings: a Relaxed in place of Acquire/Release passes every test here; the tests do not run under a race detector.",
 [I,L],[("acquire/release on slots","incr_inner, decr_inner, find"),("acquire/release on node pointers","set_next, get_next_opt, tail, Iter::next, push")],
 None,"numeric_verif: instrumented atomics report the requested orderings")
p("C04","Concurrent list pushes lose nothing, keep order, and report true positions",
 "Every push returns the position (1-based) at which its element can then be read by index forever after; concurrent pushes get distinct positions, the length equals the number of completed pushes when no push is running and never shrinks, iteration and indexing agree and never skip, repeat or invent an element. Dropping the list drops every element exactly once.",
 ["schedules","histories"],"All interleavings of pushes, indexed reads, iterations and length reads from any number of threads.",
 "Tests check only the final length and a parity sum after free-running threads; the returned position is never checked and contended tail updates are rare.",
 [L],[("tail CAS loop","UnsyncLinked::push"),("walks","tail / get / Iter::next"),("ownership","Drop for UnsyncLinked")],None,"numeric_verif: instrumented atomics, list exported")
p("C05","BigInt values are immutable, independent and balanced over any history",
 "Through any history of creating, cloning, dropping, moving, overwriting and operating on big integers (by value, by reference, in place, and with operands aliasing each other), every variable still holds exactly the mathematical value last assigned to it. When every big integer sharing a stored value is gone the store holds no reference to it, and while k of them live it holds exactly k.",
 ["histories","programs"],"All sequences of operations over any number of variables, with small (inline) and large (stored) values and sign changes.",
 "Tests evaluate single expressions; none checks other variables after in-place updates, aliasing, drops or slot reuse, and none checks reference balance.",
 [B,BM,I],[("clone/drop reference counting","Clone and Drop for BigInt"),("in-place operators","impl_assign_op"),("tagged representation","TaggedOffset, new_slice")],
 [("store","global interner of large magnitudes","INT_STORE")],"numeric_verif: value and reference inspection")
p("C06","BigInt results do not depend on what other threads do with big integers",
 "Threads computing with big integers concurrently, including creating, cloning, handing over and dropping equal large values, each obtain exactly the results they would obtain alone. When all threads are done and have dropped their values, the shared store holds no references beyond those still owned.",
 ["schedules","histories"],"All interleavings of the atomic steps of arithmetic, clone and drop on two or more threads over overlapping value sets.",
 "No existing test uses BigInt from more than one thread.",
 [B,I],[("shared store","INT_STORE"),("claiming a slot","Interner::add")],None,"numeric_verif: instrumented atomics, value inspection")
p("C07","BigInt addition, subtraction, multiplication, negation and power are exact",
 "For all big integers and every operand form (owned, borrowed, in place, and mixed with any primitive integer), +, -, *, unary negation, absolute value and non-negative integer powers give the exact mathematical integer result. No operand magnitude makes them panic, wrap or saturate.",
 ["inputs"],"All pairs of integers of any length and sign, all twelve primitive integer types, all operand forms.",
 "Tests use a few small and two-limb constants; carry chains across limbs, limb-boundary values, sign mixes and primitive forms are not covered.",
 [B,BM,"crates/bits/src/algos/element"],[("sign-magnitude dispatch","impl_op add/sub/mul"),("limb arithmetic","ElementAdd/ElementSub/ElementMul")],None,"numeric_verif: value inspection")
p("C08","BigInt division and remainder truncate toward zero and reconstruct the dividend",
 "For all integers a and b != 0 and every operand form, a == (a / b) * b + a % b with |a % b| < |b| and a % b zero or of the sign of a. Dividing by zero always panics and never returns a value or hangs.",
 ["inputs"],"All pairs of integers of any length and sign, all operand forms including primitive divisors.",
 "Tests divide a few small positive constants.",
 [B,BM,"crates/bits/src/algos/bitwise/div.rs"],[("long division","BitwiseDiv::div_long"),("sign rules","impl_op div/rem")],None,"numeric_verif: value inspection")
p("C09","BigInt comparison, equality and sign tests agree with the mathematical order",
 "Comparing two big integers, or a big integer with any primitive integer, gives the order and equality of the numbers they denote, however each was produced; equality is equality of value. There is a single zero, which is neither negative nor different from any other zero, and is-zero, is-one, is-positive (>= 0) and is-negative (< 0) follow the value.",
 ["inputs","histories"],"All pairs of values of any length and sign, including values reached through different operations.",
 "Tests compare a few small values.",
 [B,BM],[("ordering","Ord/PartialOrd for BigInt"),("canonical form","new_slice, new_inline, Neg"),("primitive comparisons","impl_for_int PartialEq/PartialOrd")],None,"numeric_verif: value inspection")
p("C10","BigInt conversions with primitives are exact, checked, saturating or modular",
 "Creating a big integer from any primitive integer preserves its value; fallible conversion back succeeds exactly when the value is in range and then preserves it, saturating conversion gives the nearest representable value, and truncating conversion keeps the low bits in two's complement. The float approximation has the right sign, is within a relative error of 2^-40 while the magnitude is below 2^1000, and grows to infinity of the right sign beyond the float range.",
 ["inputs"],"All values of every length and sign against all twelve primitive integer types.",
 "Tests convert a few small positive values.",
 [B,BM,"crates/bits/src/utils.rs"],[("limb packing","int_to_arr / arr_to_int"),("casts","impl_for_int From/TryFrom/FromChecked/FromSaturating/FromTruncating"),("float","approx_float")],None,"numeric_verif: value inspection")
p("C11","BigInt text formatting and parsing are exact and inverse to each other",
 "Formatting in decimal, hexadecimal (0x prefix) or binary (0b prefix) writes an optional minus sign and the digits of exactly the value, with no superfluous leading zeros in decimal and hexadecimal. Parsing in any radix from 2 to 36 accepts exactly an optional minus sign and digits of that radix in either case, yields the value they denote, and reports any other character or a radix above 36 as an error.",
 ["inputs"],"All values, all radices, all digit strings of any length.",
 "Tests format and parse a few short constants.",
 [B],[("digit extraction","write_base"),("digit parsing","from_str_radix, RadixChars")],None,"numeric_verif: value inspection")
p("C12","BigInt bit operations and shifts act on infinite two's complement",
 "For all big integers and every operand form, &, |, ^ and ! give the result of the operation on infinite two's complement representations; x << n equals x times 2^n and x >> n equals x divided by 2^n rounded toward negative infinity, for every n >= 0 that fits memory.",
 ["inputs"],"All values of any length and sign and all non-negative shift amounts, including multiples of the limb width and amounts beyond the length.",
 "Tests shift a few small values and never use negative operands.",
 [B,"crates/bits/src/algos/element"],[("two's complement identities","impl_op bitand/bitor/bitxor/shr, Not"),("limb shifts","ElementShl/ElementShr")],None,"numeric_verif: value inspection")
U="crates/ints/src/u.rs"; II="crates/ints/src/i.rs"
p("C13","U<N> arithmetic is exact, and checked, saturating and wrapping as named",
 "For every byte width N and all values, checked add/sub/mul/div return the exact result or None exactly when it does not fit (or the divisor is zero), saturating forms return the nearest representable value, wrapping forms the result modulo 2^(8N), and division and remainder truncate. The operators +, -, * panic on overflow when debug assertions are on and wrap when they are off, and dividing by zero always panics.",
 ["inputs","configurations"],"All widths N >= 1, all operand pairs, both build configurations.",
 "Tests add and divide three tiny constants at one width.",
 [U,"crates/bits/src/algos/element","crates/bits/src/algos/bitwise/div.rs"],[("in-place limb algorithms","ElementAdd/ElementSub/ElementMul/BitwiseDiv"),("overflow policy","Checked*/Saturating*/Wrapping* impls and operators")])
p("C14","U<N> ordering, bits, shifts, casts, bytes, powers and text follow the value",
 "For every byte width N, comparison and equality follow the number, bitwise operators and shifts by less than 8N bits are those of 8N-bit integers (larger shifts than 8N panic with debug assertions on), and byte conversions in either endianness are inverse and positional. Checked, saturating and truncating casts to and from primitive unsigned integers follow the value, powers are exact or overflow like multiplication, and decimal text denotes the value without leading zeros.",
 ["inputs","configurations"],"All widths, all values and shift amounts, all primitive unsigned types, both build configurations.",
 "Tests only check equality of tiny constants.",
 [U,"crates/bits/src/algos/element"],[("comparison","ElementCmp"),("shifts","ElementShl/ElementShr"),("casts","impl_unsign_cast"),("text","write_base")])
p("C15","I<N> is two's-complement 8N-bit signed arithmetic",
 "For every byte width N, +, -, * and negation give the result modulo 2^(8N) in two's complement, division truncates toward zero with the remainder taking the dividend's sign (minimum / -1 wraps to the minimum), and dividing by zero panics. Ordering, equality, sign tests, absolute value, bitwise operators, bounds and identities follow the signed value.",
 ["inputs","configurations"],"All widths, all operand pairs, both build configurations.",
 "There are almost no tests of the signed type.",
 [II,"crates/bits/src/algos"],[("two's complement limb algorithms","Add/Sub/Mul/Neg for I"),("sign handling","Div/Rem/abs/cmp")])
p("C16","Slice arithmetic computes exact integers, bitwise and element-wise alike",
 "Reading a slice as a little-endian integer, the allocating add, sub, mul, div, shl, shr, and, or, xor and the comparison give the exact mathematical result for all lengths (sub returns the magnitude and whether it is negative, div the quotient and remainder), for every unsigned element type, and the bitwise and element-wise versions agree. Dividing by a zero slice panics.",
 ["inputs"],"All pairs of non-empty slices of any lengths, including unequal lengths and high zero elements, all element types, all shift amounts.",
 "Tests check a few two-element constants per algorithm and never compare the two families.",
 ["crates/bits/src/algos"],[("carry/borrow chains","ElementAdd/ElementSub/BitwiseAdd/BitwiseSub"),("partial products","ElementMul/BitwiseMul"),("long division","BitwiseDiv/ElementDiv"),("shifts","ElementShl/ElementShr/BitwiseShl/BitwiseShr")])
p("C17","In-place slice arithmetic wraps to the slice and reports overflow exactly",
 "The in-place overflowing forms leave in the left slice the exact result modulo 2^(its bit length) without changing its length or the right slice, and report overflow exactly when the exact result differs; checked forms return None exactly then (or for a zero divisor, or a shift greater than the bit length), and wrapping forms reduce shift amounts modulo the bit length. In-place division and remainder agree with the allocating ones and in-place not inverts every bit.",
 ["inputs"],"All non-empty left and right slices of any lengths, all element types, all shift amounts.",
 "Tests check a few wrapping constants; overflow flags with longer right operands, partial products past the end and element-multiple shifts are unchecked.",
 ["crates/bits/src/algos"],[("overflow tracking","add_overflowing/sub_overflowing/mul_overflowing"),("shift and mask","inner_shl_wrap_and_mask/inner_shr_wrap_and_mask")])
p("C18","Bit access, iteration, growth and packing are positional and touch nothing else",
 "Bit i of a slice is bit i mod w of element i / w; getting reads it, setting changes it and nothing else, out-of-range access panics, returns None or does nothing as the name says, growth appends the fill value and never shrinks or alters existing elements, and bit iteration yields every bit once in order with exact remaining length. Splitting an unsigned integer into elements and joining them is exact and inverse, joining fails exactly when the value does not fit, shrinking removes exactly the high zero elements, and byte reversal reverses.",
 ["inputs","histories"],"All slices, all indices in and out of range, all sequences of sets, pushes and extensions, all element and integer types.",
 "Tests set two bits and extend one vector.",
 ["crates/bits/src/bit_slice.rs","crates/bits/src/bit_slice/iter.rs","crates/bits/src/utils.rs"],[("bit addressing","idx_bit, get_bit_opt, set_bit_opt"),("growth","BitVecExt"),("iteration","BitIter"),("packing","int_to_arr, arr_to_int, IntSlice::shrink")])
T="crates/traits/src/__impl.rs"
p("C19","Numeric trait operations on primitives compute what their names say",
 "For every primitive integer type, the wrapping, overflowing, checked and widening operation traits give the exact result modulo 2^w, with its overflow flag, or None exactly when it does not fit (checked shifts: when the amount is at least w), and the widening multiply-add returns the exact double-width result as low and high halves. Power (exponent below 2^32), factorial, greatest common divisor (non-negative, gcd(0,0)=0, result representable), identities, sign tests (positive means >= 0), bounds, leading/trailing zero counts and byte conversions follow the mathematical value, also for the non-zero types.",
 ["inputs","configurations"],"All operands of all twelve primitive integer types (and the non-zero types where implemented).",
 "One gcd test exists; no other primitive implementation is tested.",
 [T,"crates/traits/src/__impl/nz.rs","crates/traits/src/ops/widening.rs","crates/traits/src/bytes.rs"],[("macro-generated impls","impl_int/impl_uint/impl_sint/impl_nz"),("wide product","WideningMul for u128")])
p("C20","Primitive casts: checked, saturating and truncating each keep their contract",
 "For every pair of primitive integer types that offers it, the checked cast succeeds exactly when the value fits and then preserves it, the saturating cast returns the nearest representable value, and the truncating cast returns the value modulo 2^w in the target's representation. Saturating casts from floats round toward zero and clamp (NaN to zero), and integer-to-float casts give a nearest float.",
 ["inputs"],"All 144 type pairs and all source values.",
 "No cast between primitives is tested.",
 [T,"crates/traits/src/cast.rs"],[("range tables","saturate_uint_impl/saturate_sint_impl"),("checked_impl","checked_impl"),("truncating_as","truncating_as")])
p("C21","Fixed-point values behave as scaled integers",
 "A Fixed<T, N> denotes raw / 2^N: construction, comparison, equality, +, -, negation, remainder, absolute value, sign tests, identities and bounds are exact, and * and / are within one unit in the last place of the exact result and exact when it is representable. floor, ceil, trunc, fract and round give the rounding toward minus infinity, plus infinity, zero, the part removed by trunc, and a nearest whole number; debug and binary text denote the exact value - all whenever the intermediates fit the backing integer.",
 ["inputs","configurations"],"All backing integers and precisions with 1 <= N < width - 1 and all raw values whose results (and scaled intermediates) fit.",
 "Tests check three roundings and three debug strings.",
 ["crates/reals/src/fixed.rs"],[("rescaling","Mul/Div for Fixed"),("rounding","Real for Fixed"),("text","Debug/Binary for Fixed")])
p("C22","Rationals stay reduced and compute exactly",
 "A rational built from a numerator and non-zero denominator, or resulting from +, -, *, /, is in lowest terms with a positive denominator and equals the exact mathematical result, so equal values compare equal; a zero denominator yields None and dividing by zero panics. Negation, absolute value, sign tests, identities, the debug text (numerator / denominator) and rounding (floor and ceil give a neighbouring whole number on the side their name says for non-negative values and leave whole values unchanged, round a nearest whole number) follow the value - whenever the intermediates fit the backing integer.",
 ["inputs"],"All backing signed and unsigned primitive integers and all operand pairs whose cross products fit.",
 "Tests reduce two fractions.",
 ["crates/reals/src/rat.rs",T],[("reduction","Rat::reduce and Gcd"),("cross multiplication","Add/Sub/Mul/Div for Rat"),("rounding","Real for Rat")])
p("C23","Complex, vector and matrix algebra follow their definitions",
 "Complex +, -, *, / (with complex or scalar operands), modulus, squared modulus and identities follow the field definition of complex numbers; vector operations apply the element operation lane by lane in every operand form, and dot product, cross product, sum, product, distance, squared distance, constructors and checked forms (None exactly when some lane overflows) follow their definitions. Matrix sum, difference, product of any compatible shape, transpose, row/column construction, row swap, diagonal, identity and zero follow their definitions.",
 ["inputs","configurations"],"All element values (over exact element types), all dimensions.",
 "Tests check one matrix product and a few vector sums.",
 ["crates/compounds/src/complex.rs","crates/compounds/src/vector.rs","crates/compounds/src/matrix/static.rs"],[("operators","ops_impl/assign_ops_impl, Mul for Matrix, Mul/Div for Complex"),("transpose and construction","zip_all based from_columns/transpose")])
p("C24","Row reduction gives an equivalent echelon form and the determinant is exact",
 "For every matrix shape over an exact field, row reduction terminates without panicking and returns a matrix of the same shape in row-echelon form with the same row space (obtained by row swaps and adding multiples of rows), for statically and dynamically sized matrices alike. The determinant of every square matrix equals its Leibniz expansion, including singular matrices and matrices needing row swaps.",
 ["inputs","configurations"],"All shapes (tall, wide, square), all exact entries including zero columns, repeated rows and singular matrices.",
 "Tests reduce two square matrices and take two determinants.",
 ["crates/compounds/src/matrix/macros.rs","crates/compounds/src/matrix/static.rs","crates/compounds/src/matrix/dynamic.rs"],[("pivoting","gauss_elim!"),("sign of swaps","factor")])
p("C25","Matrix indexing and views agree and never leave the matrix",
 "Element (r, c) of a static matrix, a dynamic matrix built from the same rows, and shared or mutable views of either is the same element for every in-range index, writes through one index change exactly that element, and row swaps exchange exactly two rows. Every index with r >= rows or c >= columns panics instead of reading or writing anything.",
 ["inputs","configurations","histories"],"All shapes, all in-range and out-of-range index pairs, all sequences of writes and swaps.",
 "Tests index one 4x4 dynamic matrix; views have no tests.",
 ["crates/compounds/src/matrix/refs.rs","crates/compounds/src/matrix/dynamic.rs","crates/compounds/src/matrix/static.rs"],[("bounds checks","Index/IndexMut impls"),("row-major layout","as_ptr, new")])
p("C26","Static iterators visit every element once in order and drop each exactly once",
 "For every chain of map, zip, enumerate and array or tuple zipping over arrays, the consumers (collect into arrays, Option and Result, fold, try_fold, any, all, sum, product) see elements 0..N in order, each once, stop at the first failure with the result the plain loop would give, and call no closure afterwards. Every owned element is dropped exactly once, whether iteration completes, stops early, or a closure panics.",
 ["programs","inputs"],"All adapter chains and consumers, all lengths, every early-exit and panic position.",
 "Tests collect four integers; element types with drop, early exit positions and panics are not covered.",
 ["crates/static-iter/src"],[("ownership transfer","IntoIter::idx and Drop"),("partial results","FromStaticIter impls"),("adapters","Map/Zip/Enumerate/zip_all")])
p("C27","Float implementations of the numeric traits give the values they name",
 "For every f32 and f64, floor, ceil, trunc, round (half away from zero), fract, abs, the sign, zero and one tests, the bounds and the constants are exact; sqrt, powers, roots of positive values, logarithms and the trigonometric functions and their reciprocals agree with the mathematical function up to rounding, and the roots the Real trait provides are roots for every implementing type. Bytes of f32, f64 and F<N> in little, big and native order are those of the bit pattern, and converting there and back changes nothing.",
 ["inputs"],"All floats including zeros, subnormals, infinities and NaN (trigonometry and powers on a moderate range), all byte patterns.",
 "No test uses a float through the traits except in vectors and matrices.",
 ["crates/traits/src/__impl.rs","crates/traits/src/class.rs","crates/reals/src/f.rs","crates/traits/src/bytes.rs"],
 [("delegation to the primitive","impl_float!"),("default roots","Real::root / sqrt / cbrt"),("byte orders","impl_bytes!, F::{from,to}_{le,be,ne}_bytes")])
p("C28","Random fixed-width integers are uniform over all bit patterns",
 "With the rand feature, a random U<N> or I<N> (drawn from the standard distribution or by filling an existing value) is determined by the random source alone, whatever the value held before. From a source of independent uniform bits, every bit pattern of the width is equally likely for every N: no bit or byte is fixed, biased, repeated elsewhere in the value or carried over to the next value, and no pattern (zero, the largest, negative values) is left out.",
 ["inputs","configurations"],"All widths, all sources of uniform bits, all previous contents.",
 "No test draws a random value.",
 ["crates/ints/src/u/rand_impl.rs","crates/ints/src/i/rand_impl.rs"],
 [("delegation to byte arrays","Fill and Distribution<U<N>>/<I<N>> for StandardUniform")])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
import sys
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
