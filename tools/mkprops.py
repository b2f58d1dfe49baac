#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the text is this file)."""
import json,os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
N="astro-float-num/src/"
prop("C01","NaN and infinite operands give the documented special result",
 "For every BigFloat operation, an operand that is NaN makes the result NaN carrying that operand's error (the left operand's when both are NaN), and operands that are infinite give the defined class of result: which of NaN, +Inf, -Inf, zero, one or a finite number, and with which sign. This holds for every class of the other operand (zero or not, positive or negative) and for every precision, rounding mode and state of the constants cache. (For a finite base raised to an infinite power the library's own tests fix the classes: a base above one gives the infinity of the exponent's sign, one gives one, a smaller base gives zero.)",
 ["inputs"],"all public operations of BigFloat x all classes of special/finite operands (NaN with and without error, +-Inf, +-0, +-finite) x any precision / rounding mode / finite value",
 "test_ext samples a few pairs with one precision and mode; most class combinations with NaN payloads, and every finite value inside a class, are never tried",
 [N+"ext.rs"],[("Flavor dispatch of every operation",N+"ext.rs"),("gen_wrapper_* macros",N+"ext.rs")],
 [("Flavor","finite value, NaN with optional error, signed infinity",N+"ext.rs")],["return value of each BigFloat method"])
prop("C02","Failures and poles map to the right special value",
 "An operation on finite operands that fails never yields a number: overflow yields the infinity of the true result's sign, division by zero yields the infinity of the quotient's sign (NaN when the dividend is zero too, and for remainders), and invalid arguments or failed allocation yield NaN carrying exactly that error. Arguments outside a function's domain or on a pole (logarithm of zero, which is -Inf for ln, log2, log10, or of a negative number or to a base that is not positive, square root of a negative number, |x|>1 for asin/acos/atanh, x<1 for acosh, atanh(+-1), zero to a negative power, negative base to a non-integer power) are always reported that way and never reach the approximation.",
 ["inputs","fault_sequences"],"all finite operand classes, all points where an internal step can fail, all precisions and rounding modes",
 "failed allocations cannot be provoked by the tests, and domain tests use a few arguments each",
 [N+"ext.rs",N+"num.rs",N+"ops/"],[("result_to_ext",N+"ext.rs"),("domain checks at the top of each operation",N+"ops/")],None,["BigFloat result, err()"])
prop("C03","Comparisons form one consistent total order on numbers",
 "Comparing two numbers orders them by value: zeros of either sign are equal, a non-zero number compares to zero by its sign, numbers of different sign by sign, numbers of one sign by magnitude (reversed when negative), infinities lie beyond every finite number, and NaN compares to nothing. Swapping the operands negates the outcome, the absolute comparison ignores signs, and ==, <, max, min and clamp agree with it.",
 ["inputs"],"all pairs of NaN/+-Inf/+-0/+-finite numbers with every relation between their exponents and mantissas",
 "tests compare a few dozen pairs; the relation has to hold for all pairs, notably zeros against tiny numbers and mixed signs",
 [N+"num.rs",N+"ext.rs"],[("cmp / abs_cmp",N+"num.rs"),("BigFloat::cmp, abs_cmp, PartialEq, PartialOrd, max, min, clamp",N+"ext.rs")])
prop("C04","A finite result carries the requested precision",
 "Every finite result of an operation, constructor, conversion or constant that takes a precision has exactly that precision rounded up to the word size, on every path including zero results, exact results and special-case shortcuts. Changing the precision of a number in place has the same effect. (The value of the precision argument that asks the parser to choose is not a requested precision, and full-precision operations take none.)",
 ["inputs"],"all finite operands of any precision, all requested precisions below the limit, all rounding modes, all shortcut paths",
 "tests rarely look at the precision of a result and never on shortcut paths (zero, one, tiny arguments, exact powers)",
 [N+"num.rs",N+"ops/",N+"ext.rs",N+"conv.rs"],[("set_precision / try_set_precision / new2 at the end of each operation",N+"ops/")],None,["BigFloat::mantissa_max_bit_len()"])
prop("C05","The caller's rounding mode and precision drive the final rounding",
 "The finite result of every operation that takes a precision and a rounding mode is produced by a last rounding step that uses exactly the caller's precision and the caller's mode: no path substitutes another mode, skips the step, or rounds an approximation whose closeness was not tested (unless the rounded value is exact). A result too small to represent becomes zero or the smallest positive number as the mode demands. Where the result's sign is changed after rounding, the directed modes are mirrored first, so Up and Down keep their meaning for negative results.",
 ["inputs"],"all operations taking (precision, rounding mode), all execution paths to a finite result, all seven modes",
 "directed modes differ from nearest only in the last bit, and tests mostly run one mode per function; shortcut paths are hit by rare arguments",
 [N+"ops/",N+"num.rs",N+"ext.rs",N+"ops/consts/"],[("try_set_precision (Ziv test) / set_precision",N+"num.rs"),("invert_rm_for_sign",N+"common/util.rs")],None,["mantissa of the result under Up/Down/ToZero/FromZero"])
prop("C06","Inexactness of an operand is never forgotten",
 "If an operand of an operation is marked inexact then every finite result whose value that operand influences is marked inexact, on every path: zero results, exact shortcuts, underflow to zero, digits that cancel. (An operand does not influence the result when it is multiplied by an exact zero, raised to the power 0, is the exponent of a base 0 or 1, or is a divisor larger than the dividend of a remainder.) The flag is sticky: no rounding or change of precision clears it.",
 ["inputs"],"all operations, each operand marked inexact or not, all paths to a finite result including zero and exact shortcuts",
 "one test checks a few values per function; the flag must survive on every path, and expr! relies on it for its error bounds",
 [N+"num.rs",N+"ops/",N+"ext.rs"],[("ret.set_inexact(ret.inexact() | self.inexact())",N+"ops/")],[("inexact","sticky flag",N+"num.rs")],["BigFloat::inexact()"])
prop("C07","Unsupported precision is refused before any work is done",
 "A precision above the supported maximum never produces a finite number: every operation, constructor, conversion and constant refuses it with an error (BigFloat: NaN; operands that are NaN or infinite, and divisions by zero, may still give their own special value). On the way to the refusal no integer overflows, nothing panics, no constant is computed and no memory is requested in proportion to the precision.",
 ["inputs"],"all public functions with a precision argument, all precisions from the limit to usize::MAX, all finite operands",
 "no test passes an unsupported precision to any function but set_precision",
 [N+"num.rs",N+"ops/",N+"conv.rs",N+"ext.rs"],[("p_assertion",N+"num.rs"),("round_p",N+"common/util.rs")])
prop("C08","Running out of memory is reported, never an abort",
 "No function of the numeric core allocates memory in a way that aborts the process when memory is exhausted: every growth of a buffer whose size depends on precision, operand length or history is attempted fallibly, and failure surfaces as the memory-allocation error (as NaN carrying it at the BigFloat level).",
 ["fault_sequences","inputs"],"all allocation sites reachable from the public API, failure of any allocation",
 "tests never fail an allocation",
 [N+"common/buf.rs",N+"mantissa/",N+"ops/series.rs",N+"conv.rs",N+"parser.rs"],[("WordBuf::new / try_extend / try_reserve_exact",N+"common/buf.rs"),("From<TryReserveError> for Error",N+"defs.rs")])
prop("C09","No internal failure is swallowed or turned into a panic",
 "Every error produced inside the library (invalid argument, division by zero, failed allocation) reaches the caller as an error, or as a NaN or infinity at the BigFloat level: no intermediate error is discarded, replaced by a number or by text, or unwrapped into a panic, and a failed allocation is never reported as something else. Excepted are the initialisation of built-in constants and the text written by the std formatting traits; overflow may become the limit value of the function.",
 ["fault_sequences","inputs"],"all call sites of fallible functions in the library",
 "the failing branches are unreachable for the arguments tests use",
 [N],[("? operator, map_err, result_to_ext",N)])
prop("C10","Refinement loops always make progress",
 "Every computation that retries with more precision until its rounding is certain really does increase the precision of the computation on each retry, on every path back to the start of the loop, so that no argument makes it repeat the same attempt forever: the increment stays positive, every operation the rounded value comes from is given the grown precision, and the number of bits taken for correct when rounding is attempted never exceeds it.",
 ["inputs"],"all retry loops of the library, all paths through the loop body",
 "a retry happens for about one argument in 2^64, so a loop that fails to progress hangs only on arguments tests do not contain",
 [N+"ops/",N+"conv.rs"],[("p_wrk += p_inc; p_inc = round_p(p_wrk / 5)",N+"ops/")])
prop("C11","Cached constants do not depend on call history",
 "The value returned for pi, e, ln 2 and ln 10 depends only on the requested precision and rounding mode: stored state is reused only when it was computed from enough terms for the requested precision, is never changed by serving a request from it, and is replaced as a whole, value and partial sums together. Each constant is served from its own state. A request that fails part way leaves the cache as it was, able to serve later requests correctly.",
 ["histories","fault_sequences"],"all sequences of requests of any precision and mode on one cache, with a failure at any internal step",
 "tests request increasing precisions without failures",
 [N+"ops/consts/"],[("for_prec: reuse guard and update of the cached partial sums",N+"ops/consts/pi.rs, e.rs, ln2.rs, ln10.rs")],[("b/p/q/t.. partial sums","binary splitting state for a number of terms",N+"ops/consts/")])
prop("C12","expr! computes the expression that was written",
 "The expr! macro turns each operator, function name, constant name, literal and variable of the given expression into the matching operation on the same operands in the same order, honouring precedence, parentheses and macro fragments, whatever the variables are called. A literal has exactly the value written (or is parsed from its text with the working precision). Every step runs with at least the context's precision plus a guard word plus the current error allowances; the first allowances cover at least one bit per rounding operation and the exponent's bits for exp, sinh and cosh. A result is accepted only when, for every logarithm, power, trigonometric and inverse function, the error computed for that function on its own operands, and for every sum or difference of inexact operands that cancels, the bits lost, fit into an allowance of that operation's own; otherwise an allowance grows and the expression is evaluated again. The value delivered is rounded once with the context's precision and rounding mode and checked against the context's exponent range; a failure of that rounding is delivered as NaN with its error.",
 ["programs"],"all expressions the macro accepts: every operator, every function, every constant, every literal kind, every variable name, nested in any position; all inputs, precisions and rounding modes of the resulting code",
 "the macro crate has no tests of its own in this workspace, and the workspace's other crates resolve a registry copy of it",
 ["astro-float-macro/src/lib.rs","astro-float-macro/src/util.rs",N+"macro_util.rs",N+"ctx.rs"],[("traverse_expr / traverse_call / traverse_binary / traverse_unary, the loop generated by expr","astro-float-macro/src/lib.rs"),("str_to_bigfloat_expr","astro-float-macro/src/util.rs")])
prop("C13","A context's exponent limits stay in the legal range",
 "However a context is built or changed, its minimum exponent lies between the library's minimum and 0 and its maximum exponent between 0 and the library's maximum; precision, rounding mode and cache are returned as given; and every kind of context (structure, tuples, references) reports the same values for the same settings. A computed value outside the limits is delivered as zero (below) or as the infinity of its sign (above).",
 ["inputs","histories"],"all contexts, all sequences of setters, all exponent arguments of the Exponent type",
 "tests build a handful of contexts with legal limits",
 [N+"ctx.rs",N+"macro_util.rs"],[("clamp in Context::new, set_emin, set_emax and the Contextable impls",N+"ctx.rs"),("check_exponent_range",N+"macro_util.rs")])
prop("C14","Text input and output agree on digits, radix and exponent syntax",
 "For each radix the characters the parser accepts as digits are exactly those below the radix, with the value the formatter's digit table gives them; the exponent separator and sign, the names of infinities and NaN, and the radix of exponent digits that the formatter writes are those the parser reads. Bin, Oct, Dec and Hex are each dispatched to the conversion of their own base, in both directions. Every digit of a text is taken once and in order, every digit written stands at its place (an inner part of a number keeps its zeros), with the decimal point and the exponent accounted for; exponents beyond the range give an infinity or zero of the text's sign, and a text of zeros is zero whatever its exponent.",
 ["inputs"],"all radixes, all digit characters, both directions, number classes NaN/Inf/zero/normal/subnormal",
 "tests round-trip random numbers, which exercises agreement but not e.g. upper/lower case digits, separators for every class, or exponent extremes",
 [N+"parser.rs",N+"strop.rs",N+"conv.rs",N+"ext.rs"],[("is_radix_digit, parse_exp, DIGIT_CHARS, format, write_str, convert_from_radix / convert_to_radix, Mantissa::conv_to_dec",N)])
prop("C15","Results depend on the arguments only",
 "Apart from the explicitly random constructor, no operation reads or changes state outside its arguments: no random source, clock, environment, file, or global variable takes part in computing or formatting a value, except the decimal conversion cache of the current thread, whose content does not influence results. While that cache is in use no user-supplied code (a formatter's writer) is run.",
 ["histories","schedules"],"all public operations, all histories of earlier calls in any thread",
 "absence of hidden inputs cannot be sampled",
 [N],[("TENPOWERS thread-local",N+"common/consts.rs"),("random_normal",N+"num.rs")])
prop("C16","Values are immutable, thread-safe data",
 "Operations never modify the operands they borrow, two values never share storage, and numbers, contexts and caches can be moved and shared between threads: no value contains interior mutability, raw pointers or thread-bound state.",
 ["schedules","histories","programs"],"all programs using the public API, all interleavings",
 "data races and aliasing cannot be settled by single-threaded unit tests",
 [N],[("&self receivers, owned WordBuf storage",N)])
prop("C17","Build features do not change numeric behaviour",
 "Switching the std, random or serde features on or off, or debug assertions on or off, changes which interfaces exist but not what any remaining operation computes: every function available in two configurations has the same behaviour in both, and a debug-only check has no side effect.",
 ["configurations"],"all combinations of features of the core crate, debug and release",
 "the suite runs in one configuration",
 [N+"lib.rs",N],[("cfg(feature = ...) items",N)])
prop("C18","Serialised numbers are accepted back, whatever kind of number they are",
 "Serialising a number writes the text form, and deserialising accepts that text and every kind of number a self-describing format can hold (unsigned and signed integers, floats, borrowed or owned strings), handing each to the conversion of that kind without narrowing it; a conversion that fails is a deserialisation error and never a panic.",
 ["inputs"],"all values of each visited kind",
 "tests deserialise three literals",
 [N+"for_3rd/de.rs",N+"for_3rd/ser.rs"],[("BigFloatVisitor::visit_*",N+"for_3rd/de.rs")])
prop("C19","The exponent never wraps or leaves its legal range",
 "No operation stores an exponent that wrapped around or left its legal range: whenever an arithmetic operation, a rounding, a constructor or a conversion computes an exponent, values above the maximum become the overflow error and values below the minimum become a subnormal number or zero before the exponent is narrowed to its storage type. (For mantissas of at most 2^30 bits.)",
 ["inputs"],"all finite operands including those at the extremes of the exponent range",
 "needs operands within a few bits of the exponent limits in each operation",
 [N+"num.rs",N+"ops/",N+"conv.rs"],[("EXPONENT_MIN/EXPONENT_MAX guards before narrowing casts",N)])
prop("C20","Unsafe code stays within the memory it owns",
 "The length of a buffer is set without initialising its words only to a value that memory reserved successfully on the same path covers, for every requested size; a buffer growing in place has its new words written before the growing operation returns; and every raw pointer that is dereferenced lies within the slice it was taken from, for every slice length and shift amount, in builds with and without debug checks.",
 ["inputs"],"all functions containing an unsafe operation, all lengths, precisions and shift amounts",
 "an access one word past a buffer, or into spare capacity never written, usually goes unnoticed; tests pass either way",
 [N+"common/buf.rs",N+"mantissa/conv.rs",N+"common/util.rs"],[("WordBuf::new, try_extend*, shift_slice_left/right, conv_to_dec",N+"common/buf.rs")])
prop("C21","Primitive conversions keep every bit and the sign",
 "Converting a primitive integer or float to a number goes through a conversion wide enough for the type, sees negative values as negative (including the most negative value), keeps the sign of zero for floats, and turns infinite and NaN floats into infinity of that sign and NaN. All conversion routes (constructors and From) agree.",
 ["inputs"],"all values of all primitive integer and float types",
 "tests convert a few values per type",
 [N+"num.rs",N+"ext.rs"],[("impl_int_conv, impl_from, from_f64, from_i128, from_u128",N)])
prop("C22","Signs of results follow the symmetry of each function",
 "The sign of a zero or shortcut result follows the function's symmetry: odd functions (sin, tan, asin, atan, sinh, tanh, asinh, atanh, cbrt, odd powers) keep the sign of a zero argument, even ones (cos, cosh, even powers, abs) ignore it, products and quotients take the product of signs, and the remainder and the roundings to integer take the operand's sign.",
 ["inputs"],"all zero and non-zero operands of either sign for each function",
 "tests compare zeros by value, which ignores their sign",
 [N+"ops/",N+"num.rs",N+"ext.rs"],[("new2(p, sign, inexact) shortcuts, set_sign, inv_sign",N)])
# --- properties outside the reach of static analysis
prop("N01","Every operation is correctly rounded",
 "For all finite operands, precisions and rounding modes the result of each operation equals the exact mathematical value rounded in that mode.",
 ["inputs"],"all finite operands, precisions, modes","infinite input space; tests sample",
 [N+"ops/",N+"num.rs",N+"mantissa/"],[("Ziv loop with error estimates",N+"ops/")])
prop("N02","Multiplication and division algorithms agree for all sizes",
 "Schoolbook, Karatsuba, Toom-3, FFT, and balanced/unbalanced variants return the exact product for operands of every length, and division and root routines return exact quotient and remainder.",
 ["inputs"],"all operand lengths and digits","thresholds combine with carries only for rare digits",
 [N+"mantissa/"],[("mul_unbalanced, toom2, toom3, fft_mul, div_basic, div_unbalanced, sqrt_rem, cbrt_rem",N+"mantissa/")])
prop("N03","Conversion to text and back restores the number",
 "Formatting a number and parsing the text with the same precision returns the number in binary, octal and hexadecimal; in decimal it returns a number that agrees with it in all the digits written.",
 ["inputs"],"all numbers and radixes","sampled",[N+"conv.rs",N+"strop.rs",N+"parser.rs"],[("conv_to_dec / conv_from_dec",N+"conv.rs")])
prop("N04","Error estimates of series and argument reductions are sufficient",
 "The number of guard bits used by each approximation bounds its accumulated rounding error for all arguments.",
 ["inputs"],"all arguments and precisions","needs worst cases",[N+"ops/",N+"ops/series.rs"],[("add_prec estimates",N+"ops/")])
prop("N05","expr! results are correct to the requested precision",
 "The added error estimates of expr! cover the true propagated error of every expression.",
 ["inputs","programs"],"all expressions and operands","sampled",[N+"macro_util.rs","astro-float-macro/src/lib.rs"],[("compute_added_err",N+"macro_util.rs")])
prop("N06","Constants' digits are right at every precision",
 "pi, e, ln 2, ln 10 equal the true constants correctly rounded at all precisions.",
 ["inputs"],"all precisions and modes","sampled",[N+"ops/consts/"],[("binary splitting",N+"ops/consts/")])
prop("N07","Mantissas stay normalised and bit lengths accurate",
 "Every number returned has a normalised mantissa (or is subnormal at the minimum exponent) with a bit length matching its digits.",
 ["inputs"],"all results","sampled",[N+"mantissa/mantissa.rs",N+"num.rs"],[("normilize2, find_one_from",N+"mantissa/mantissa.rs")])
prop("N08","Running time grows as documented with precision",
 "Cost of operations stays within the documented complexity for all precisions.",
 ["inputs"],"all precisions","timing",[N+"mantissa/",N+"ops/"],[("algorithm thresholds",N+"mantissa/mul.rs")])
prop("N09","Memory is never read before it is written",
 "Every word of a buffer obtained uninitialised is written before it can be read by any digit kernel.",
 ["inputs"],"all buffers, all lengths","uninitialised reads usually see plausible values",[N+"common/buf.rs",N+"mantissa/"],[("users of WordBuf::new",N+"mantissa/")])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for p in P:f.write(json.dumps(p)+"\n")
    print(len(P))
