DEFAULT_TECH = "property-based testing: choice-tape generators, reference-model oracle, automatic shrinking, ASan/UBSan"
DEFAULT_NOTE = ("Randomised search against an independent reference model with shrinking; holds on every generated case, "
                "no proof beyond them. Trusts compiler, libstdc++/libquadmath, sanitizers and the reference model.")
TECH = {
 "C25": "property-based differential testing: generated programs run in five build configurations of the library linked into one binary, traces compared, shrinking",
 "C24": "property-based testing over generated programs: random operator/operand/type combinations and composed expressions with a type-rule oracle, the compiler's verdict as the observation, each wrong program re-judged alone",
 "C20": "property-based testing over generated programs: operations on temporaries judged by the compiler against an ownership rule, and random nestings returned from functions, evaluated under AddressSanitizer against the same text in one full expression, shrinking",
 "C23": "property-based differential testing: random programs over the constexpr interface and random parameters, evaluated by the compiler and at run time, acceptance and values compared, shrinking over the parameter choice",
 "C28": "property-based testing with fault injection: every allocation of a generated operation is made to fail in turn (replaced operator new), state and live blocks compared with before",
 "C30": "property-based testing: generated programs with invalid arguments, messages parsed and compared with the source, and a differential run of the same program without exceptions in a child process that has to abort at the same check, shrinking",
 "C31": "property-based differential testing: generated programs run in five builds (two compilers, three language standards, four optimisation levels) linked into one binary, traces compared, shrinking",
 "C32": "property-based testing over generated literals: exact rational arithmetic as the oracle for values, the compiler's verdict for literals that must be refused",
 "C33": "property-based stateful testing: histories of timers against simulated clocks (clock_gettime replaced), timed statements with drawn durations, output parsed, shrinking",
 "C34": "property-based testing over generated types: random nestings of operations classified by every concept and compared with the generator's knowledge",
 "C35": "property-based testing: random nestings over leaves that count evaluations, compared with the values asked for (additive fingerprints), shrinking",
 "C36": "property-based testing over generated programs: random chains of views, names and modifications, the expected verdict (tracked constness) compared with the compiler's",
 "C37": "property-based testing over generated calls: positional against named arguments (differential), and calls with one fault that the compiler has to refuse",
 "C29": "property-based testing: generated multi-threaded histories run under ThreadSanitizer and compared with each thread's work run alone, shrinking",
}
NOTE = {
 "C29": "Interleavings are sampled by the scheduler; data races are found by happens-before analysis of the generated accesses, so they need not be hit in an unlucky order.",
 "C04": "Randomised search; the oracle is exact dyadic arithmetic on unbounded integers, so equality of result+correction is decided exactly for each generated case.",
 "C24": "The deciding step is a generated program and the compiler's verdict on it, compared with a rule about types; the matrix is sampled, not proved.",
 "C20": "Sampled programs; an expression that silently kept a dead object would have to be read by one of the generated uses to be seen.",
}
NA = {}
