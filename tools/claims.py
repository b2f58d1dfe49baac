NOTES="Static analysis of the type-checked MIR of /repo (rustc driver in driver/, abstract interpreter in sa/). Nothing of the library is executed and no solver is used."
AI="disjunctive abstract interpretation of MIR (value numbering, intervals, fixpoint with widening), inlining callees"
CLAIMS={
"C01":(AI+": outcome of every BigFloat method per class of operand compared with a table of limits",
  "Complete over the classes for all methods taking BigFloat operands and all accessors. Parity of the exponent and comparison with one are taken as given predicates. Trusts the MIR facts and the models of std functions."),
"C02":(AI+": outcome of every operation per class of finite operand compared with domains and poles; mapping of every number-level error",
  "Complete over the classes for domain, pole and error mapping. Where an overflow comes out of a series or a loop of multiplications its sign is not decided (values only). Comparisons with one and parity are taken as given predicates (C03)."),
"C22":(AI+": sign and zero-ness of every outcome per sign class of the operands",
  "All rows whose sign follows from the operands' signs without digits: zero arguments of all functions, products, quotients, remainder, roundings, roots, pow. For odd, positive and near-zero functions also the signs at non-zero arguments that control flow carries (sinh, tanh, asinh, atanh, asin, atan, exp, cosh, acos, acosh, small arguments of sin and tan). Signs of sin, cos, tan at large arguments and powi of a negative base follow digits and are not decided."),
"C03":(AI+": outcomes of every comparison function classified and compared with the order",
  "Complete over operand classes (NaN, ±Inf, ±0, sign, relation of effective exponents and of digits) for cmp, abs_cmp, ==, partial_cmp, max, min, clamp. Trusts the MIR facts, the models of std functions, and that Mantissa::abs_cmp orders digits."),
"C04":(AI+": length of every successful result compared, as a linear term, with ceil(p/64)",
  "All paths of all operations, constructors, conversions, constants taking a precision, at number and BigFloat level, and of the mantissa operations below them. Trusts the MIR facts and the models of std functions."),
"C05":(AI+": provenance marks of the last rounding (precision, mode, sign at rounding, closeness tested) at every finite result",
  "All paths of all operations, conversions and constants taking a rounding mode, and of the mantissa rounding below them; the mode/sign tables of the rounding primitives are checked per mode. Whether a working precision suffices numerically is not decided (N01, N04). Trusts the MIR facts and the models of std functions."),
"C07":(AI+", with the precision restricted to the values the library's own test rejects: refusal on every path, no failing arithmetic check, panic or allocation depending on the precision",
  "All functions taking a precision at number and BigFloat level and the constants. 64-bit words. Trusts the MIR facts and the models of std functions."),
"C06":(AI+": value of the inexact flag at every successful result under the assumption that an operand's flag is set",
  "All paths of all operations at number level and of the mantissa operations accumulating inexactness. Trusts the MIR facts and the models of std functions; whether discarded digits are non-zero is not decided."),
"C08":("typestate dataflow over MIR: reservation state of every container at every growing call, obligations propagated to callers; call-graph query for infallible allocations",
  "All functions of the crate. The amount reserved is compared with the amount inserted only when it is a constant. Constant initialisers, Debug and serde are exempt."),
"C09":("path-sensitive taint dataflow over MIR: every failing outcome (per kind of error) followed from the call to the function's return",
  "All calls that can fail, in all functions and closures; intraprocedural, composed at calls. Overflow, which operations may turn into a limit value, is C02's subject."),
"C10":("numeric dataflow over MIR (lower bounds, growth relative to the loop head, path-sensitive inside the loop) plus dependence slicing: lexicographic progress measure on every back edge",
  "All loops containing a rounding attempt. That more precision yields a smaller error, and that exact results are caught before the loop, is not decided (values)."),
"C11":("typestate dataflow over MIR (group of fields replaced together), dependence slicing, and guard analysis (bound on the number of terms as a linear function of the requested precision, compared with the convergence rate of the series)",
  "All caches of constants. The convergence rates (bits per term) are taken from mathematics; that the partial sums are the series' is not decided (N06)."),
"C13":(AI+": limits stored and reported per class of argument (below, inside, above the legal range), identity of the parts of a context, class of the delivered value per relation of exponent and limits",
  "Complete over the classes for every function building, changing or reading any kind of context and for the exponent check. That expr! applies the check is C12's subject."),
"C19":(AI+": intervals of linear terms at every narrowing cast and every addition in the exponents' type, under the conditions of the path",
  "All operations, constructors and conversions from their entry points with symbolic operands. Assumes mantissas and precisions of at most 2^30 bits. Sums of an intermediate result's exponent (arguments reduced inside sin, acos ...) are reported as undecided in the evidence: their range depends on values."),
"C20":("inventory of unsafe operations in the type-checked MIR and "+AI+" of each function having one: reserved capacity as a ghost bound, pointers as base plus linear offset, loops by induction variables",
  "Every unsafe operation of the crate, in a build with and one without debug checks. That the users of a fresh buffer (WordBuf::new) write all of its words before reading them is N09."),
"C15":("effect analysis on the call graph: classification of every external reference, of every static and of address-to-number casts",
  "All functions of the crate, transitively. core, alloc, lazy_static and the listed std modules are taken to be free of effects outside their arguments."),
"C16":("type structure query (freeze, owned types) and pointer provenance dataflow over MIR",
  "All value, context and cache types and every write in the crate. Relies on the borrow checker for safe code."),
"C17":("comparison of canonical forms of the type-checked MIR of every function across build configurations; dead-code elimination of debug checks with a purity rule on signatures",
  "Five configurations against the default build (features singly off, none, debug assertions off); every function existing in both. Targets other than x86_64 are not compared."),
"C21":(AI+": magnitude, sign and exponent of the result per class of the primitive argument (floats by intervals of their bit patterns)",
  "All constructors and From implementations taking one primitive, all classes including the most negative integer, zeros, infinities, NaN and subnormal floats. The loops placing the bits of a word or 128-bit value into the mantissa are trusted to keep the value (digits, N02)."),
"C18":("query over the visitor's and serialiser's call sites; "+AI+" of each visiting method per class of the visited number",
  "All methods of the visitor and both entry points. serde's default forwarding is trusted; what the parser makes of a text is C14's subject."),
"C14":(AI+" of the parser over abstract texts (intervals of characters, unbounded repetition) and of the formatter over abstract digits; symbolic lengths in the decimal conversion by halves",
  "A partition of all characters for every position class, all radixes, both directions, all classes of numbers; the exponent is compared as a linear term for one and two digits and by range for any number. Trusts Chars, String and the formatting machinery of core; what the conversions make of digits is N03."),
"C12":(AI+" of the MIR that the current macro expands to, over a generated witness crate with one function per form of input (library operations uninterpreted)",
  "Every operator, function, constant and literal kind, alone and with one nested operation in each argument position, is expanded by the macro of the tree under analysis and the expansion is interpreted for all inputs; deeper nesting follows because each construct is translated by one recursive case, which is an assumption. How much error compute_added_err reports is numerical (N05)."),
}
NA={
"N01":"quantifies over the digits of results; no sound static argument in reach bounds the rounding error of each algorithm, and the structural parts (last rounding, flags, precision) are C04-C06",
"N02":"equality of digit strings produced by different algorithms for every length is a functional-correctness statement about runtime values",
"N03":"round-trip equality of values; the static part (same alphabet, radix and syntax in both directions) is C14",
"N04":"numerical error analysis of series; quantifies over runtime values",
"N05":"numerical error propagation through arbitrary expressions; the structure of the generated code is C12",
"N06":"digits of constants; the static part (cache reuse discipline) is C11",
"N07":"normalisation depends on the digits produced by loops over words; not visible in the shape of the code",
"N08":"running time",
"N09":"which words of a buffer a digit kernel has written depends on the trip counts of nested loops over slices; the growth of buffers in place is C20",
}
