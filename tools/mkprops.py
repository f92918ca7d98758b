import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
I="src/ieee.rs"; L="src/lib.rs"; D="src/ppc.rs"

p("C01","Bit patterns and values correspond exactly in every format",
 "In every built-in format each bit pattern decodes to the sign, class (zero, subnormal, normal, infinity, quiet or signaling NaN) and numeric value its format assigns to it, and all class queries (including the smallest/smallest-normalized/largest/integer tests) report exactly that. Re-encoding a decoded pattern gives back the same pattern; the only exception is the x87 extended format, where the four unsupported pattern families canonicalise as documented (pseudo-infinities, pseudo-NaNs and unnormals become NaNs keeping their significand, pseudo-denormals become the equal normal). Negation, absolute value and copy-sign change nothing but the sign bit.",
 ["inputs"],"all bit patterns of all formats (2^8 to 2^128 per format)",
 "Tests decode a few dozen chosen patterns per wide format; the 8-bit formats are enumerated only through string/convert tests. x87 non-canonical patterns and NaN payload preservation are sampled by hand.",
 [I,D,L],[("Semantics::from_bits / to_bits (default and x87)","src/ieee.rs Semantics, X87DoubleExtendedS"),("class predicates","src/lib.rs trait Float"),("double-double bit split","src/ppc.rs from_bits/to_bits")],
 [("sign/category/exp/sig","decoded abstract value","src/ieee.rs IeeeFloat")],["from_bits","to_bits","category","is_* queries","neg/abs/copy_sign"])

p("C02","Addition and subtraction are correctly rounded with exact status",
 "For every format except double-double, every pair of finite operands and every rounding direction, the sum or difference is the value obtained by rounding the exact real result once to that format (gradual underflow included; overflow gives infinity, or NaN where the format has none, when the direction rounds away, and the largest finite value otherwise). An exact zero result from unlike-signed operands is +0, or -0 when rounding toward negative, and like-signed zeros keep their sign. The status reports inexact exactly when the delivered value differs from the real result, underflow exactly when it is also subnormal or zero, and overflow exactly when an infinity (or its stand-in) was delivered.",
 ["inputs","configurations"],"all operand pairs x 5 rounding directions x all formats",
 "Tests list a fixed table of special-value pairs plus a few hand-picked roundings in single precision; guard/sticky behaviour depends on exponent distance and significand tails that 2^64..2^256 operand pairs can take.",
 [I],[("sig::add_or_sub","src/ieee.rs"),("IeeeFloat::normalize","src/ieee.rs"),("add_r/sub_r","src/ieee.rs")],None,["add_r","sub_r","+","-"])

p("C03","Multiplication is correctly rounded with exact status",
 "For every format except double-double, every pair of finite operands and every rounding direction, the product is the exact real product rounded once to that format, with sign the exclusive-or of the operand signs. Overflow, gradual underflow and zero results, and the inexact/underflow/overflow status, obey the same rule as for addition.",
 ["inputs","configurations"],"all operand pairs x 5 rounding directions x all formats",
 "Tests multiply a table of special values; carries across the halves of the wide product, tails below the rounding point and results near the subnormal boundary are reached only by specific significand pairs.",
 [I],[("mul_r","src/ieee.rs"),("sig::mul / sig::widening_mul","src/ieee.rs"),("IeeeFloat::normalize","src/ieee.rs")],None,["mul_r","*"])

p("C04","Division is correctly rounded with exact status",
 "For every format except double-double, every finite dividend, every finite non-zero divisor and every rounding direction, the quotient is the exact real quotient rounded once to that format, with sign the exclusive-or of the operand signs and the same overflow/underflow/inexact status rule as addition. A finite non-zero value divided by a zero gives the correspondingly signed infinity (or NaN where the format has none) and exactly the divide-by-zero status.",
 ["inputs","configurations"],"all operand pairs x 5 rounding directions x all formats",
 "Tests divide a table of special values; the short-divisor fast paths, long division and lost-fraction classification are selected by the number of significant divisor bits, which the tests do not vary.",
 [I],[("div_r","src/ieee.rs"),("sig::div (short and long division)","src/ieee.rs"),("IeeeFloat::normalize","src/ieee.rs")],None,["div_r","/"])

p("C05","Fused multiply-add rounds exactly once",
 "For every format except double-double, all finite operands a, b, c and every rounding direction, the fused operation delivers the exact real value a*b+c rounded once, with the same status rule as addition (a zero product plus an addend behaves like the addition of that signed zero). Exact cancellation gives +0, or -0 when rounding toward negative; a non-zero result that underflows to zero keeps its own sign.",
 ["inputs","configurations"],"all operand triples x 5 rounding directions x all formats",
 "Tests contain a handful of FMA cases plus fuzz-found regressions; double rounding, massive cancellation and sticky bits from a distant addend need coordinated triples out of a 2^96+ space.",
 [I],[("mul_add_r","src/ieee.rs"),("sig::widening_mul, sig::add_or_sub, shift_right/combine","src/ieee.rs")],None,["mul_add_r","mul_add"])

p("C06","NaN, infinity and zero operands follow default exception handling",
 "In every format except double-double and every arithmetic operation (add, subtract, multiply, divide, fused multiply-add, both remainders, round-to-integral, next-up/down, scaling, conversion), a NaN operand yields a quiet NaN taken from the first NaN operand (sign and payload kept, except that next-up/down of a signaling NaN may drop the payload), and invalid is reported exactly when an operand is signaling or the operation itself is invalid (inf-inf, 0*inf, 0/0, inf/inf, remainder of infinity or by zero), which delivers the default positive quiet NaN. Infinities otherwise behave as limits with correct sign and clear status. x87 pseudo-NaNs keep their cleared integer bit and still count as signaling; formats without signaling NaNs never report invalid for a NaN operand.",
 ["inputs","configurations"],"all operand tuples with at least one zero/infinity/NaN, all payloads and signs, all operations and rounding directions",
 "The special-value tables in the tests use one NaN payload per format, mostly ignore the NaN result's bits, and cover fused multiply-add specials only through fuzz regressions.",
 [I],[("IeeeDefaultExceptionHandling","src/ieee.rs"),("category matches in add_r/mul_r/div_r/mul_add_r/ieee_rem/c_fmod/round_to_integral/next_up/scalbn_r/frexp_r/convert_r","src/ieee.rs")],None,["all arithmetic results and statuses"])

p("C07","Remainder operations are exact",
 "For every format except double-double and all finite x and finite non-zero y, the IEEE remainder is exactly x - n*y with n the integer nearest x/y (ties to even), and the fmod-style remainder (also the % operator) is exactly x - n*y with n the quotient truncated toward zero; both always report a clear status. A zero remainder carries the sign of x, and both operations terminate for every exponent distance.",
 ["inputs"],"all operand pairs of all formats, including the extreme exponent distances",
 "Tests check about a dozen pairs in double; overflow of 2*y, subnormal divisors, formats without infinity, and exponent gaps of thousands are not covered.",
 [I,L],[("c_fmod","src/ieee.rs"),("ieee_rem","src/ieee.rs"),("Rem impl","src/lib.rs float_common_impls")],None,["ieee_rem","c_fmod","%"])

p("C08","Rounding to an integral value is exact to the chosen direction",
 "For every format except double-double, every finite value and every rounding direction, round-to-integral delivers the integral value that rounding the input in that direction gives, keeps the input's sign (also for zero results), and reports inexact exactly when the value changed and nothing else. Values that are already integral, zeros and infinities come back unchanged with clear status, and the is-integer query is true exactly for the finite integral values.",
 ["inputs","configurations"],"all values x 5 rounding directions x all formats",
 "Tests use about forty doubles; halfway cases near the precision limit, 8-bit formats and other directions at subnormal inputs are unsampled.",
 [I,L],[("round_to_integral (magic constant add/sub)","src/ieee.rs"),("is_integer","src/lib.rs, src/ppc.rs")],None,["round_to_integral","is_integer"])

p("C09","next-up and next-down step through adjacent values",
 "In every format except double-double, next-up of a non-NaN value other than the top value delivers the least representable value strictly greater than it (both zeros count as one value: next-up of either zero is the smallest positive value, next-up of the smallest negative is -0), and next-down is its mirror image under negation. Next-up of the largest finite value is +infinity (NaN where the format has none), infinity stays, and -infinity steps to the negative largest; the status is clear for every non-NaN input.",
 ["inputs"],"all values of all formats",
 "Tests step from about twenty values of quad/single; binade boundaries and the subnormal/normal seam are tested at one point each and not for every format.",
 [I,L],[("next_up","src/ieee.rs"),("next_down","src/lib.rs"),("sig::increment/decrement","src/ieee.rs")],None,["next_up","next_down"])

p("C10","Comparisons, equality and min/max agree with the numeric order",
 "For every format except double-double, ordering operators agree with the real order of the values: NaN is unordered and unequal to everything, the two zeros are equal, infinities are extremes; the magnitude comparison of finite non-zero values ignores signs and bitwise equality is true exactly for equal bit patterns. min/max return the non-NaN operand when one is NaN and otherwise the smaller/larger operand (the first one when they compare equal); minimum/maximum return the first NaN operand unchanged if any, order -0 below +0, and otherwise the smaller/larger.",
 ["inputs"],"all ordered pairs of all formats",
 "Tests compare a small matrix of doubles; order consistency over neighbouring exponents/significands, subnormals and NaN payloads is a relation over all pairs.",
 [I,L],[("PartialOrd/PartialEq","src/ieee.rs"),("cmp_abs_normal, bitwise_eq","src/ieee.rs"),("min/max/minimum/maximum","src/lib.rs")],None,["partial_cmp","==","<","min","max","minimum","maximum","cmp_abs_normal","bitwise_eq"])

p("C11","Float-to-float conversion rounds once and reports loss truthfully",
 "Converting any finite value between any two formats (other than double-double) in any rounding direction delivers the exact value rounded once to the target with the usual status rule; zeros and infinities keep their sign, and an infinity converted to a format without infinities becomes NaN with inexact. NaNs become quiet NaNs with payloads aligned at the top of the significand, reporting invalid exactly for signaling sources. The loses-info output is false only if converting the result back restores the original value (for a signaling NaN, its quieted form), and is true whenever the finite result is inexact or NaN payload bits (or an x87-only NaN distinction) were dropped.",
 ["inputs","configurations"],"all values x all ordered format pairs x 5 rounding directions",
 "Tests convert a few dozen values among a few format pairs; subnormal-to-subnormal truncation, widening of 8-bit formats and payload loss have 64 format pairs and 2^128 sources.",
 [I],[("FloatConvert::convert_r","src/ieee.rs"),("IeeeFloat::normalize","src/ieee.rs")],None,["convert_r","convert"])

p("C12","Float-to-integer conversion rounds, saturates and reports exactly",
 "For every format except double-double, every target width from 1 to 128 bits, signed or unsigned, and every rounding direction, converting a finite value rounds it to an integer in that direction; if that integer fits, it is returned with a clear status when exact and inexact otherwise. If it does not fit, or the input is infinite, the nearest bound of the target range is returned with exactly invalid; NaN gives zero with invalid. The exactness output is true exactly when the result is numerically equal to the input and the input is not negative zero.",
 ["inputs","configurations"],"all values x widths 1..128 x signedness x 5 rounding directions x all formats",
 "Tests use a 5-bit target and a few roundings of one format; fits/doesn't-fit decisions at each width boundary and direction are unsampled.",
 [I,L],[("to_u128_r","src/ieee.rs"),("to_i128_r","src/lib.rs"),("Loss::through_truncation, round_away_from_zero","src/ieee.rs")],None,["to_u128_r","to_i128_r","to_u128","to_i128"])

p("C13","Integer-to-float conversion is correctly rounded",
 "For every format except double-double, every 128-bit unsigned or signed integer and every rounding direction, conversion from integer delivers that integer rounded once to the format, with the usual status rule (overflow in small formats included); zero gives +0 and the signed minimum is handled like any other value.",
 ["inputs","configurations"],"all 128-bit integers x signedness x 5 rounding directions x all formats",
 "Tests convert a few integers; ties and near-ties exist at each of the 128 bit lengths, and overflow exists only in small formats.",
 [I,L],[("from_u128_r","src/ieee.rs"),("from_i128_r","src/lib.rs")],None,["from_u128_r","from_i128_r","from_u128","from_i128"])

p("C14","Decimal text parses to the correctly rounded value",
 "For every format except double-double, every well-formed decimal string (any number of digits, any dot position, any exponent) and every rounding direction, parsing delivers the denoted real number rounded once in that direction, with the same overflow, underflow and inexact status rule as arithmetic. Leading and trailing zeros, the dot's position and the letter case of the exponent marker never influence the result, and a zero significand gives a zero of the written sign for any exponent.",
 ["inputs","configurations"],"all decimal strings of any length x 5 rounding directions x all formats",
 "Tests parse a few hundred short strings; the precision needed is unbounded (a digit thousands of places out can decide the rounding) and the algorithm retries with growing precision only in such cases.",
 [I],[("from_decimal_string","src/ieee.rs"),("sig::from_limbs/extract/mul/div on multi-limb values","src/ieee.rs")],None,["from_str_r","FromStr"])

p("C15","Hexadecimal text parses to the correctly rounded value",
 "For every format except double-double, every well-formed hexadecimal floating-point string (0x, hexadecimal digits with optional dot, mandatory binary exponent) and every rounding direction, parsing delivers the denoted value rounded once in that direction with the usual status rule, whatever the number of digits, the dot position, leading or trailing zeros, or the size of the exponent.",
 ["inputs","configurations"],"all hexadecimal strings of any length x 5 rounding directions x all formats",
 "Tests parse about a hundred short strings; digits beyond the 128-bit accumulator, sticky tails, and saturating exponents are sampled once or never.",
 [I],[("from_hexadecimal_string","src/ieee.rs"),("Loss tracking beyond the accumulator","src/ieee.rs")],None,["from_str_r"])

p("C16","Parsing accepts exactly the documented grammar",
 "For every string, parsing either returns a value or a parse error and never panics: accepted are exactly optionally signed decimal numbers (digits with at most one dot, optional exponent whose digits may be absent), hexadecimal numbers with a mandatory exponent, the spelled infinities, and quiet or signaling NaNs with an optional decimal, octal or hexadecimal payload, each with the sign rules of the existing grammar; every other string is an error whose kind names the first offence. Special values parse with clear status, the written sign and the payload bits that fit the format (double-double gives a signaling spelling's quieted form), and acceptance never depends on the format or rounding direction.",
 ["inputs"],"all Unicode strings, all formats",
 "Tests enumerate a list of about a hundred accepted and rejected strings; the grammar is a language over all strings.",
 [I],[("from_str_r","src/ieee.rs"),("error exits of from_decimal_string/from_hexadecimal_string","src/ieee.rs")],None,["from_str_r result, error text"])

p("C17","Printing is faithful, laid out as documented, and round-trips",
 "For every value of every format and every combination of precision, width and alternate form, the printed text denotes the value's exact decimal expansion limited to the requested number of significant digits (absent or zero precision meaning the format's natural precision; dropped trailing zeros; error below one unit of the last kept digit, rounded half up), laid out in positional or scientific form by the documented width and precision rules. With default precision, parsing the text back to the same format restores every non-NaN value exactly, sign of zero included. The debugging text begins with that same printed text, followed by the value's category and sign.",
 ["inputs","configurations"],"all values of all formats x precision x width x alternate flag",
 "Tests print about thirty doubles and all 8-bit values in default form; digit generation, discarding and carry propagation depend on the whole value and on the options.",
 [I,D],[("fmt::Display for IeeeFloat","src/ieee.rs"),("fmt::Display for DoubleFloat","src/ppc.rs")],None,["Display / format! with options"])

p("C18","Scaling, exponent extraction and decomposition are exact",
 "For every format except double-double, scaling by a power of two delivers x*2^n rounded once in the requested direction for every 32-bit n (overflow and gradual underflow included), extracting the exponent gives floor(log2|x|) for finite non-zero x (subnormals included) and the documented special codes otherwise, and decomposition returns a fraction with magnitude in [1/2,1) and an exponent that recombine to x exactly; zeros, infinities and NaNs are returned as documented (NaNs quieted).",
 ["inputs","configurations"],"all values x all 32-bit exponents x 5 rounding directions x all formats",
 "Tests scale a few values by chosen amounts; clamping of extreme exponents, rounding into the subnormal range and the smaller formats are unsampled.",
 [I],[("scalbn_r","src/ieee.rs"),("ilogb","src/ieee.rs"),("frexp_r","src/ieee.rs")],None,["scalbn_r","ilogb","frexp_r"])

p("C19","Named values, format constants and exact inverses are right",
 "For every format, the published width, precision and exponent limits, and the zero, infinity, NaN (with any payload request, quiet or signaling), smallest, smallest-normalized and largest values, are exactly those the format's parameters imply, and the matching queries hold for exactly those values of either sign. The exact inverse of a value exists exactly when it is a normal power of two whose reciprocal is a normal number of the format, and then equals that reciprocal.",
 ["inputs","configurations"],"all formats, all payloads, all values (inverse)",
 "Tests check the constants of five formats and a dozen inverses; payload requests are 128-bit and inverses are defined for every value.",
 [I,D,L],[("Float constants, qnan/snan/largest/smallest_normalized","src/ieee.rs, src/ppc.rs"),("get_exact_inverse","src/ieee.rs"),("is_smallest/is_largest/is_smallest_normalized","src/lib.rs")],None,["constants","qnan","snan","get_exact_inverse"])

p("C20","Double-double add, subtract and multiply produce the reference pair",
 "For all double-double operands and rounding directions, addition, subtraction and multiplication deliver the pair of doubles, and the status, of the published double-double sequences of double operations (Linnainmaa 1981, as in LLVM): for normalised finite operands without overflow or underflow the error in nearest rounding is about 2^-105 of the sum of the operand magnitudes (addition) or of the product (multiplication). The same holds for the double format built over any other binary format with public DoubleFloat. Zero, infinite and NaN operands are resolved by class before any double operation takes place.",
 ["inputs","configurations"],"all pairs of 128-bit double-double patterns x 5 rounding directions",
 "Tests add and multiply about twenty pairs; intermediate overflow, signed zero low parts and cancellation select different branches.",
 [D],[("add_r","src/ppc.rs"),("mul_r","src/ppc.rs")],None,["add_r","sub_r","mul_r"])

p("C21","Double-double remaining operations match the 106-bit intermediate",
 "For all double-double operands, division, fused multiply-add, remainders, round-to-integral, next-up, integer and text conversion deliver what the 106-bit intermediate format delivers for the sum of the two parts, with that operation's status, split back into a normalised pair whose parts sum to that result (to the last place of the double format's range; a result beyond it gives an infinite high part, and next-up of -infinity is the negative largest). Comparison, class queries, negation, exponent extraction, scaling and decomposition follow the component rules (ordering lexicographic by parts, magnitude ordering the same after making the high part positive, class and sign of the high part, subnormal when either part is subnormal or the parts do not add to the high part). The same holds for double formats over other binary formats; the integer value of a malformed pair (parts adding up to the other sign or to no finite value) is not specified.",
 ["inputs","configurations"],"all double-double patterns, rounding directions, widths and strings",
 "Tests exercise about ten values per operation; split/recombine exactness and the mixed-sign, subnormal-low-part cases are unsampled.",
 [D,I],[("From<Fallback> / Into<Fallback>","src/ppc.rs"),("Fallback-delegating operations","src/ppc.rs"),("cmp_abs_normal, is_denormal, scalbn_r, frexp_r","src/ppc.rs")],None,["all DoubleDouble operations"])

p("C22","Results depend only on operand bits; statuses accumulate along histories",
 "Along any sequence of operations, every result and status is the same as if each operand had been freshly loaded from its bit pattern: how a value was produced (arithmetic, scaling, parsing, conversion, negation, special-value constants) never shows. The or of the statuses of a history is exactly the set of exceptional conditions its steps raised, underflow and overflow never appear without inexact, and operator, assignment and default-rounding forms equal the explicit nearest-even operation.",
 ["histories","inputs"],"all programs over a bank of registers, all formats",
 "Tests apply one operation to freshly built values; stale internal exponent or significand fields (the code warns about them) need a producer and a consumer, and every operator form is a separate path.",
 [I,L],[("canonicalisation in to_bits/bitwise_eq/normalize","src/ieee.rs"),("float_common_impls operators","src/lib.rs"),("Status bit flags, StatusAnd, unpack!","src/lib.rs")],
 [("registers","values produced so far","harness register bank"),("sticky status","or of all statuses","harness")],["every operation result in the history"])

p("C23","Every operation terminates without panicking on every input",
 "No operation on any built-in format panics, overflows or fails to terminate for any operand bits, rounding direction, integer, exponent, string, formatting option or target width from 1 to 128 (magnitude comparison is only defined for finite non-zero operands, and unwrapping a non-clear status panics by design). Internal consistency assertions never fire.",
 ["inputs","histories"],"all operations x all inputs x all formats",
 "A panic needs one input that breaks an internal assertion or an arithmetic range; past crashes in this crate were found by fuzzing only.",
 [I,D,L],[("assert!/assert_eq!/unwrap in arithmetic, split and parse paths","src/ieee.rs, src/ppc.rs"),("loops in c_fmod, from_decimal_string, Display","src/ieee.rs")],None,["panics, hangs"])

p("C24","User-declared formats obey the same arithmetic as built-in ones",
 "Any binary format declared through the public format-description trait by its total width and exponent width (with or without infinities, its exponent range possibly moved by declaring the least exponent, significands of 3 to 120 bits, exponents of at most 20 bits, largest exponent at least the precision) gets the parameters these imply, and all encodings, arithmetic, remainders, neighbours, comparisons, conversions to and from integers, text and other formats behave as the same real-number rules prescribe for the built-in formats.",
 ["configurations","inputs"],"all admissible (width, exponent width, non-finite style) triples x all operations x all inputs",
 "No test declares a format; only eight parameter choices are ever instantiated, so precision/width-dependent paths (limb-boundary significands, short exponents) are unexplored.",
 [I],[("Semantics default constants and codec","src/ieee.rs"),("S::PRECISION-dependent arithmetic","src/ieee.rs")],None,["all operations at custom formats"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
