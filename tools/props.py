ENUM = "bounded-exhaustive state enumeration of the real code against an explicit reference model"
TRUST = "Trusts Go's math/big integers and the reference model (integer arithmetic only, cross-checked against the hardware formats by its own tests). Exhaustive within the stated bounds, silent outside them."

prop("C01", "Half precision decoding is exact for all 65536 encodings",
  "Every 16-bit half precision encoding decodes to exactly the value IEEE 754 assigns to it: normal, denormal, signed zero, infinity, or a signed NaN reported as such. The sign, exponent and fraction accessors return the encoding's fields, the encoding itself is preserved, and the decoded value carries at least 11 bits of precision and rounds to nearest.",
  ["inputs"], "all 65536 encodings", "The tests compare a few dozen golden encodings; nothing relates the others to the format definition.",
  ["binary16/binary16.go"], [("textual 0b1.fff p exp construction parsed by math/big", "binary16/binary16.go:Big")], ["Big", "Signbit", "Exp", "Frac", "Bits"],
  "Complete: every encoding is enumerated. " + TRUST, ENUM)
prop("C02", "bfloat decoding is exact for all 65536 encodings",
  "Every 16-bit bfloat encoding decodes to exactly the value of the float32 whose upper half it is: normal, denormal, signed zero, infinity, or a signed NaN reported as such. The sign, exponent and fraction accessors return the encoding's fields, and the decoded value carries at least 8 bits of precision and rounds to nearest.",
  ["inputs"], "all 65536 encodings", "The tests compare a handful of golden encodings.",
  ["bfloat/bfloat.go"], [("textual construction parsed by math/big", "bfloat/bfloat.go:Big")], ["Big", "Signbit", "Exp", "Frac"],
  "Complete: every encoding is enumerated. " + TRUST, ENUM)
prop("C03", "Quadruple precision decoding is exact",
  "Every 128-bit quadruple precision encoding decodes to exactly the value IEEE 754 assigns to it: normal, denormal, signed zero, infinity, or a signed NaN reported as such. The sign, exponent and two-word fraction accessors return the encoding's fields, the encoding itself is preserved, and the decoded value carries at least 113 bits of precision and rounds to nearest.",
  ["inputs"], "all encodings; enumerated over every sign and exponent field, every fraction with at most 1 bit transition (3 at boundary exponents) and every 16-bit fraction window", "Tests sample 9 encodings of 2^128.",
  ["binary128/binary128.go"], [("textual construction from two fraction words parsed by math/big", "binary128/binary128.go:Big")], ["Big", "Signbit", "Exp", "Frac", "Bits"],
  "Complete in the exponent, bounded in the fraction (see the evidence's groups). " + TRUST, ENUM)
prop("C04", "x86 extended precision decoding is exact, unnormal encodings included",
  "Every 80-bit x86 extended precision encoding decodes to exactly (-1)^s * 2^(e-16383) * (explicit lead bit + fraction), with the smallest exponent for a zero exponent field, so that denormals, pseudo-denormals and unnormals have the value their fields spell; signed zeros and infinities are recognised, and every other encoding with the largest exponent field is a NaN of that sign. The accessors for sign, exponent, lead bit and fraction return the encoding's fields, the encoding is preserved, and the decoded value carries at least 64 bits of precision and rounds to nearest.",
  ["inputs"], "all encodings; enumerated over every sign and exponent field, every significand (lead bit included) with at most 1 bit transition (3 at boundary exponents) and every 16-bit significand window", "Tests sample 7 encodings of 2^80.",
  ["float80x86/float80x86.go"], [("textual construction from lead bit and fraction parsed by math/big", "float80x86/float80x86.go:Big")], ["Big", "Signbit", "Exp", "Lead", "Frac", "Bits"],
  "Complete in the exponent, bounded in the significand. " + TRUST, ENUM)
prop("C05", "A double-double decodes to the exact sum of its two parts",
  "A double-double encoding decodes to exactly the sum of its high and low double, however far apart or unnormalised they are; it is reported as NaN exactly when that sum is NaN (a NaN part, or infinities of opposite sign), with the sign of the NaN part (of the high part if both are NaN), and it is an infinity when a part is. The two words are preserved, a zero made of two zeros has the sign of the high part, and the decoded value carries at least 106 bits of precision.",
  ["inputs"], "all pairs of doubles; enumerated over exponent pairs, exponent gaps, sign combinations and fraction patterns", "Tests use 5 golden pairs; one of them failed before the fix recorded in known_findings.json.",
  ["float128ppc/float128ppc.go"], [("big.Float addition of the parts, widened until exact", "float128ppc/float128ppc.go:Big")], ["Big", "IsNaN", "Bits"],
  "Bounded in the fractions of both parts. The sign of a zero obtained by cancelling non-zero parts and of Inf-Inf is left open. " + TRUST, ENUM)
for id, nm, cd, f in (("C06", "half precision", "16-bit half precision", "binary16/binary16.go"), ("C07", "quadruple precision", "128-bit quadruple precision", "binary128/binary128.go"), ("C08", "x86 extended precision", "80-bit x86 extended precision", "float80x86/float80x86.go")):
    prop(id, f"Encoding a big float gives the nearest {nm} value",
      f"Encoding any multi-precision float in {cd} yields the canonical encoding of the nearest value of the format, ties to even, whatever the argument's own precision and rounding mode and whichever operation it came from. Values beyond the largest finite number by half a unit or more become infinity of the same sign, values below half the smallest denormal become zero of the same sign, and denormals are rounded at their own last place.",
      ["inputs"], "all big.Float values: every exponent from below the denormals to above the overflow threshold and extremes up to 2^(2^31); kept significands x rounding tails" + (" at every one of the 31744 half intervals" if id == "C06" else ""), "Tests only encode values that are representable (or far below the range).",
      [f, "internal/round/round.go"], [("rounding to the format's values before field extraction", "internal/round/round.go:Nearest"), ("mantissa/exponent extraction", f + ":NewFromBig")], ["NewFromBig", "Bits"],
      "Bounded in significands (transition-bounded patterns x tails), complete in exponents. " + TRUST, ENUM)
prop("C09", "Encoding a big float as double-double gives nearest high and low parts",
  "Encoding any multi-precision float as a double-double yields the double nearest to it as high part and the double nearest to the remaining difference as low part (ties to even), whatever the argument's own precision and rounding mode and whichever operation it came from. Values that round to an infinite double become that infinity with a zero low part; the conversion leaves its argument unchanged and never fails.",
  ["inputs"], "all big.Float values: every exponent -1130..1026, high/gap/low combinations, tails", "Tests only round-trip 5 golden pairs.",
  ["float128ppc/float128ppc.go"], [("Float64 of the argument, then Float64 of the exact difference", "float128ppc/float128ppc.go:NewFromBig")], ["NewFromBig", "Bits"],
  "Either sign of a zero low part is accepted. Bounded in significands. " + TRUST, ENUM)
prop("C10", "Reported accuracy equals the sign of result minus argument",
  "Every conversion that reports an accuracy reports Exact if and only if the result has exactly the argument's value, Below if the result is smaller than the argument, and Above if it is larger; this covers encoding from float32, float64 and multi-precision floats in every format, and decoding to float32 and float64, including overflow to infinity, underflow to zero and negative values. Conversions of NaN report Exact.",
  ["inputs"], "the argument families of C06-C09, C11 and C12", "Tests check the accuracy of a few dozen exact conversions and one inexact one.",
  ["binary16/binary16.go", "binary128/binary128.go", "float80x86/float80x86.go", "float128ppc/float128ppc.go", "internal/round/round.go"], [("accuracy from comparing the rounded value with the argument", "internal/round/round.go:Nearest"), ("accuracy from big.Float conversions", "Float32/Float64 of each format")], ["accuracy results of NewFromBig, NewFromFloat32, NewFromFloat64, Float32, Float64"],
  "Truthfulness is judged against the result the code returned, independently of whether that was the nearest. " + TRUST, ENUM)
prop("C11", "Converting a float32 or float64 gives the nearest value of the format",
  "Converting any float32 or float64 to half, x86 extended, quadruple or double-double precision yields the canonical encoding of the nearest value (rounded once, ties to even); for the wider formats that is the same value. Infinities and signed zeros are preserved, and a NaN becomes a NaN of the same sign.",
  ["inputs"], "every sign and exponent of float32 and float64 with transition-bounded fractions, all half interval boundaries; all 2^32 float32 for half precision in the thorough tier", "Tests convert a few dozen golden doubles.",
  ["binary16/binary16.go", "binary128/binary128.go", "float80x86/float80x86.go", "float128ppc/float128ppc.go"], [("conversion through big.Float", "NewFromFloat64"), ("widening to float64 first", "NewFromFloat32")], ["NewFromFloat32", "NewFromFloat64", "Bits"],
  "Bounded in fractions for float64. " + TRUST, ENUM)
prop("C12", "Narrowing to float32 and float64 rounds the exact value once",
  "Converting any encoding of the half, x86 extended, quadruple or double-double formats to float64 or float32 returns the float nearest to its exact value (ties to even, never rounded twice) together with the truthful accuracy. Values too large become infinity, values too small become zero of the same sign, and a NaN stays a NaN of the same sign with accuracy Exact.",
  ["inputs"], "encodings at every rounding point of float64 and float32, at every exponent of both, plus the decoding families", "Tests compare Float64 of golden values that are exactly representable.",
  ["binary16/binary16.go", "binary128/binary128.go", "float80x86/float80x86.go", "float128ppc/float128ppc.go"], [("big.Float.Float32/Float64 of the exact value", "Float32, Float64")], ["Float32", "Float64"],
  "Bounded in significands, complete in target exponents. " + TRUST, ENUM)
ALLF = ["binary16/binary16.go", "binary128/binary128.go", "float80x86/float80x86.go", "float128ppc/float128ppc.go"]
prop("C13", "Round trips through wider types are lossless",
  "Decoding a non-NaN encoding and encoding the result in the same format gives back the same encoding (the canonical encoding of the same value for non-canonical ones) and reports Exact, and doing it again changes nothing. A float32 or float64 comes back unchanged from any format that contains all of them, every half comes back unchanged from float32 and float64, and so does any encoding whose conversion to float32 or float64 was reported Exact. A NaN comes back as a NaN of the same sign.",
  ["inputs"], "the encoding families of C01-C05 in the four encodable formats, and all signs and exponents of float32 and float64 with transition-bounded fractions", "TestRoundTrip covers a handful of double-doubles; the other formats have golden tables in one direction each.",
  ALLF, [("inverse pair Big / NewFromBig", "each format"), ("inverse pairs FloatN / NewFromFloatN", "each format")], ["Big", "NewFromBig", "Float32", "Float64", "NewFromFloat32", "NewFromFloat64"],
  "Half precision complete; other formats complete in the exponent, bounded in the fraction. Chains of up to 8 calls per state. A double-double whose leading sum exceeds float64 becomes infinite, as C09 says. " + TRUST, "bounded-exhaustive exploration of conversion chains on the real code (round-trip oracle)")
prop("C14", "Published special values are what their names say",
  "In the half, quadruple, x86 extended and double-double formats the published infinities, zeros and NaNs have exactly the sign and class their names say, seen through every accessor and every conversion. Converting the infinities and zeros of any format to any other, through big floats, float64 or float32, gives that format's published value of the same name.",
  ["inputs"], "every constant x medium x target format", "No test reads the published values; one of them (float128ppc.NegInf) was positive.",
  ALLF, [("package variables", "PosInf, NegInf, PosZero, NegZero, PosNaN, NegNaN of each format")], ["the constants and every conversion of them"],
  "Complete: the space is finite and enumerated entirely. " + TRUST, ENUM)
prop("C15", "Conversions are total: no input makes them panic or hang",
  "Every conversion and accessor of the five formats returns for every encoding, every float32 and float64 and every multi-precision float, including NaN and infinite encodings, infinite double-double parts, and numbers with extreme exponents or very long significands. Decoding always returns a usable number, and a number decoded from a non-NaN encoding can be encoded in every format.",
  ["inputs"], "the input families of C01-C12 taken together, each through the whole API", "Tests call the API on golden inputs only; Inf + -Inf as a double-double used to panic.",
  ALLF + ["bfloat/bfloat.go"], [("no panic on unexpected parse results or NaN operations", "Big, NewFromBig of each format")], ["any call"],
  "A panic, a nil result or a call that does not return is the violation; results are not judged here. Bounded as C01-C12. " + TRUST, "bounded-exhaustive exploration of the real code (panic and hang monitor)")
prop("C16", "A result depends on nothing but the arguments, whatever was called before",
  "Every function of the library returns the same result after any history of other calls as it does when called first, and whatever the caller does to the values it got back or passed in earlier. No call changes its arguments, a result handed out earlier, or a published constant.",
  ["histories"], "all sequences over an alphabet of over 1000 calls: all pairs, triples and longer within bounds; per function, pairs of almost equal arguments and uninterrupted sweeps over up to 65536 arguments in several orders", "Tests make each call once on a fresh value, in one fixed order.",
  ["binary16/binary16.go", "bfloat/bfloat.go", "binary128/binary128.go", "float80x86/float80x86.go", "float128ppc/float128ppc.go", "float.go", "internal/strconv/ftoa.go", "internal/strconv/decimal.go"],
  [("value types and freshly allocated results", "every package"), ("tables only read", "internal/strconv/decimal.go, extfloat.go")], ["results, arguments and constants re-read after the history"],
  "Every history starts from the restored initial package state of the current tree (package variables are found and restored by an instrumented build). Exhaustive within the sequence bounds in the evidence.", "bounded-exhaustive exploration of call histories on the real code from a restored initial state",
  state=(("package-level variables", "everything a call could leave behind", "every package"),))
prop("C17", "Concurrent calls return the results of sequential ones",
  "Functions of the library may be called from several goroutines at once, also with the same multi-precision argument: every call returns what it returns when called alone, no call disturbs another's results or arguments, and no two calls conflict on unsynchronised memory. No interleaving makes a call panic or wait for ever.",
  ["schedules"], "all statement-level interleavings up to a preemption bound of scenarios with 2-3 threads and 1-2 calls each", "Tests are sequential.",
  ["binary16/binary16.go", "bfloat/bfloat.go", "binary128/binary128.go", "float80x86/float80x86.go", "float128ppc/float128ppc.go", "float.go", "internal/strconv/ftoa.go", "internal/strconv/decimal.go"],
  [("no shared mutable state", "every package")], ["results of each call", "happens-before conflicts between calls"],
  "Stateless exploration under a controlled scheduler of an instrumented build of the current tree, all schedules within the preemption bound; a second pass runs schedules under a happens-before race monitor. Sequentially consistent memory in the first pass.", "stateless model checking of all thread interleavings up to a preemption bound, plus a happens-before monitor",
  state=(("package-level variables", "the only memory two calls could share besides arguments", "every package"),))
prop("C18", "IsExact16, IsExact32 and IsExact64 report representability",
  "The exactness predicates return true for a multi-precision float if and only if some 16-bit half, float32 or float64 respectively has exactly its value, zeros and infinities included. They return for every number, of any size and precision, and leave the number unchanged.",
  ["inputs"], "all big floats: every half and points around it, every exponent, short decimals, integers, sparse long significands, extreme exponents", "Tests check a dozen numbers per predicate.",
  ["float.go", "internal/strconv/ftoa.go"], [("comparison of shortest text and accuracy", "float.go")], ["IsExact16", "IsExact32", "IsExact64"],
  "Known finding: numbers that are representable but whose shortest decimal spelling is not their exact expansion are reported as not exact (known_findings.json lists the precise condition per predicate; anything else is a violation). " + TRUST, ENUM)
prop("C19", "Shortest text is the shortest that reads back, and closest among those",
  "Formatting a float with the smallest number of digits gives the decimal that has as few digits as any that rounds back to that 16-, 32- or 64-bit value, and the one closest to the value among those. The layout of digits, point, exponent and sign follows the verb, and appending to a buffer gives the same text after the buffer's contents.",
  ["inputs"], "every half, float32 and float64 values: all exponents x transition-bounded fractions, neighbours of all short decimals, dyadic fractions, integers, and for every exponent and number of digits the floats nearest to a decision point; all verbs", "Tests format a few golden values through the exactness predicates.",
  ["internal/strconv/ftoa.go", "internal/strconv/extfloat.go", "internal/strconv/decimal.go"], [("Grisu with fallback", "internal/strconv/ftoa.go:FormatFloat"), ("exact decimal shortening", "internal/strconv/ftoa.go:roundShortest")], ["FormatFloat", "AppendFloat"],
  "16-bit against an integer-arithmetic reference formatter, 32- and 64-bit against it and the standard library's independent algorithms. Half precision complete. " + TRUST, ENUM)
prop("C20", "Text with a given precision is the correctly rounded decimal",
  "Formatting a float with a given number of digits gives the decimal nearest to its exact value with that many digits, ties to even, for every verb, precision and bit size. The binary exponent verb spells significand and exponent exactly, the layout follows the verb, and appending to a buffer gives the same text after the buffer's contents.",
  ["inputs"], "as C19, x precisions 0..20 and up to 1100", "No test formats with a precision.",
  ["internal/strconv/ftoa.go", "internal/strconv/extfloat.go", "internal/strconv/decimal.go"], [("fixed precision fast path", "internal/strconv/extfloat.go:FixedDecimal"), ("multi-precision decimal rounding", "internal/strconv/decimal.go")], ["FormatFloat", "AppendFloat"],
  "As C19. " + TRUST, ENUM)
prop("C21", "Integer text is the exact digits in every base",
  "Formatting a signed or unsigned 64-bit integer in any base from 2 to 36 gives its exact digits without leading zeros, preceded by a minus sign if negative. Appending gives the same text after the buffer's contents.",
  ["inputs"], "every small integer in every base, every power of every base and its neighbourhood, transition-bounded 64-bit patterns", "No test formats integers.",
  ["internal/strconv/itoa.go"], [("digit loops per base", "internal/strconv/itoa.go:formatBits")], ["FormatInt", "FormatUint", "AppendInt", "AppendUint", "Itoa"],
  "Bounded in values, complete in bases. " + TRUST, ENUM)
prop("C22", "Results do not depend on the machine or the compiler's optimisation",
  "Every function gives the same results wherever the library is built: 32- or 64-bit integers and words, with or without fused multiply-add, with or without compiler optimisation.",
  ["configurations"], "386, amd64 with FMA (v3), WebAssembly and unoptimised amd64 builds, each over hash-selected blocks of the explorations of C01-C15, C18-C21, C23-C26", "Tests run on one machine.",
  ALLF + ["bfloat/bfloat.go", "float.go", "internal/strconv/ftoa.go", "internal/strconv/extfloat.go", "internal/strconv/itoa.go"], [("no int-sized intermediate for wide fields", "e.g. binary128/binary128.go:Exp"), ("no float arithmetic that may be fused", "float128ppc/float128ppc.go")], ["every function"],
  "The targets that can run here; a case counts when its result on the target differs from the native one. arm64, ppc64, s390x and big-endian machines cannot be executed here. " + TRUST, "bounded-exhaustive exploration of the real code built for each configuration, differential between configurations")
prop("C23", "Chains of conversions between formats never drift",
  "Along every sequence of conversions between half, x86 extended, quadruple, double-double, float32 and float64, each step gives the value of the target nearest to the one before it with truthful accuracy, and a NaN stays a NaN of its sign. From any starting value only finitely many encodings are reachable, so repeated conversion settles.",
  ["histories"], "breadth-first closure of the conversion graph over 6 formats from every half, every float exponent and boundary encodings of the wide formats", "Tests make one conversion at a time.",
  ALLF, [("every conversion pair", "each format")], ["all conversions"],
  "States reached are closed under conversion for each initial encoding. " + TRUST, "explicit-state reachability over the conversion graph of the real code, each transition checked against the model")
prop("C24", "Conversions respect order and sign",
  "Within a format, encodings in increasing order of magnitude decode to strictly increasing magnitudes, and flipping the sign negates the value. Encoding and narrowing are monotone and symmetric: a larger argument never gives a smaller result, and the negated argument gives the negated result.",
  ["inputs"], "the families of C01-C12 with each case's successor and negation", "Tests compare single values.",
  ALLF + ["bfloat/bfloat.go"], [("sign kept apart from magnitude", "Big, NewFromBig of each format")], ["Big", "NewFromBig", "Float64", "NewFromFloat32", "NewFromFloat64"],
  "A relational oracle, independent of the reference decoder and encoder. Bounded as C01-C12.", "bounded-exhaustive exploration of the real code (relational oracle)")
prop("C25", "Formatting accepts every valid argument, rejects every other, and appends",
  "Formatting a number panics for a base outside 2 to 36 and for a bit size other than 16, 32 and 64, and returns for every other argument: any value, any verb, any negative precision (shortest text) and any precision whose text fits in memory. A verb that is not known gives a percent sign and the verb. Appending to a buffer of any length and spare capacity, nil included, returns its contents followed by the text that formatting returns, and leaves those contents in place, also when it panics.",
  ["inputs"], "all 256 verbs x values x precisions x bit sizes; bit sizes and bases -70..200 and extremes; buffers of 0..80 bytes with room for 0..80 more x functions x values", "No test calls the formatting functions with odd arguments or a non-empty buffer.",
  ["internal/strconv/ftoa.go", "internal/strconv/itoa.go"], [("argument switches", "internal/strconv/ftoa.go:genericFtoa, formatDigits"), ("base check", "internal/strconv/itoa.go:formatBits")], ["FormatFloat", "AppendFloat", "FormatInt", "FormatUint", "AppendInt", "AppendUint", "Itoa"],
  "Complete in verbs, bounded in precisions and buffers. " + TRUST, ENUM)
prop("C26", "A value is its encoding, however it was made",
  "A number of any of the four encodable formats is determined by its bits: whether it came from bits, a float32, a float64 or a multi-precision float, is a published constant or a variable's zero value (positive zero), every accessor and conversion of it gives what the number rebuilt from its bits gives. Half, quadruple and x86 extended numbers are equal under == exactly if their encodings are.",
  ["inputs"], "the argument families of C06-C09 and C11, the constants and zero values; for ==, boundary exponents x fractions against every encoding one bit away", "Tests look at a result through its bits or through one method.",
  ALLF, [("a number holds its encoding and nothing else", "type Float of each format")], ["NewFromBits", "NewFromBig", "NewFromFloat32", "NewFromFloat64", "all methods", "=="],
  "Relational, no reference model. Double-double == is IEEE comparison of the parts and not part of the property. Bounded as C06-C11.", "bounded-exhaustive exploration of the real code (relational oracle)")
prop("C27", "A call costs what its operands' size warrants and leaves nothing behind",
  "The work a call does and the memory it allocates are bounded by the size of its operands and of its result (bits of the significand, digits asked for or returned): they never grow with the magnitude of a multi-precision number's exponent, up to the ends of its range, nor faster than about linearly with its length. When the results of a call are no longer used, nothing of it stays: memory in use and running goroutines do not grow with the number of calls made, however different their arguments.",
  ["inputs", "histories"], "every function x every exponent of its operands (of multi-precision operands: powers of two to 2^31 and the range around the formats) x lengths up to 66000 bits x verbs, precisions up to 100000 and bases; series of up to 262144 ever new arguments per function and kind of argument", "A test sees the result, not what it cost, and makes too few calls for anything to pile up.",
  ALLF + ["float.go", "internal/strconv/ftoa.go", "internal/strconv/decimal.go", "internal/strconv/itoa.go", "internal/round/round.go"],
  [("rounding by precision, never by shifting an integer by the exponent", "internal/round/round.go:Nearest"), ("exponents clamped before shifting", "NewFromBig of each format"), ("no package-level state", "every package")],
  ["statements executed inside the library", "bytes allocated", "memory in use and goroutines after the calls"],
  "Bounds are more than ten times what the library takes (conversions: 12000 statements + 8 per bit, 64 KB + 10 bytes per bit; text: 3 million statements more), so slower but reasonable code passes. Work inside math/big is seen only through the memory it allocates. Bounded in arguments and in the length of the series.",
  "bounded-exhaustive exploration of calls and of long call series on the instrumented real code, counting statements, allocation and retention",
  state=(("heap", "everything still reachable once the results are gone", "every package"),))
