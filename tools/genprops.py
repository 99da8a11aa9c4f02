import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
CR="src/robust_semantics/classic_robustness.cc"; MM="src/robust_semantics/minmax.cc"; MW="src/robust_semantics/mono_wedge.h"
SG="src/core/signal.cc"; SH="src/include/signal_tl/signal.hpp"; AS="src/core/ast.cc"; AH="src/include/signal_tl/ast.hpp"; FM="src/include/signal_tl/fmt.hpp"
GR="src/parser/grammar.hpp"; AC="src/parser/actions.hpp"; PA="src/parser/parser.cc"; EM="src/parser/error_messages.hpp"
NOVAL="The only robustness test evaluates one fixed formula on three traces and asserts merely that nothing is thrown: no value is ever compared."

p("C01","And, Or and Not are the pointwise min, max and negation of their operands",
 "At every instant of the time range shared by all operands, not only at the sample times, the robustness of a conjunction is the minimum, and of a disjunction the maximum, of the operands' robustness; that of a negation is the operand's negated. This holds for any number of operands, in any order, with different sample times, and where operands cross between samples. Implication, equivalence and exclusive-or have the robustness of their definitions by not, and, or.",
 ["inputs","programs"],"all operand formulas, all arities, all traces of piecewise-linear signals with overlapping time ranges, all query instants",
 NOVAL+" Crossings between samples, unaligned sample times and arity > 2 are never reached.",
 [CR,MM,SG,AS],[("compute_minmax_pair inserts the crossing of the two lines when the winner changes",MM),("synchronize",SG),("operator-(Sample)",SH)],["compute_robustness(And/Or/Not/Implies/Iff/Xor) against compute_robustness of each operand"])
p("C02","Unbounded eventually and always are the future sup and inf at every instant",
 "At every instant t of the operand's time range, the robustness of 'eventually f' is the largest, and of 'always f' the smallest, value the robustness of f takes from t to its end, with the operand read as a piecewise-linear function between samples. The result covers exactly the operand's time range.",
 ["inputs","programs"],"all operand formulas, all traces, all query instants including those between samples",
 NOVAL,[CR,MM],[("compute_minmax_seq, backward running optimum",MM)],["compute_robustness(Always/Eventually) against compute_robustness of the operand"])
p("C03","Bounded eventually and always look at exactly the window [t+a, t+b]",
 "At every instant t of the operand's time range, the robustness of 'eventually[a,b] f' is the largest, and of 'always[a,b] f' the smallest, value the robustness of f takes in the window [t+a, t+b], f being piecewise linear between samples and keeping its last value after its end. This holds for every admissible interval, whether given as integers or as reals: a > 0, point windows, windows longer than the trace, and an infinite upper bound; the result covers exactly the operand's time range.",
 ["inputs","programs"],"all intervals 0 <= a <= b <= inf, all operand formulas, all traces, all query instants",
 "No test builds a formula with an interval at all.",
 [CR,MM,MW,AH],[("Interval::has_value / is_zero_to_inf decide bounded or unbounded",AH),("compute_minmax_seq(x, a, b, comp)",MM),("monotonic wedge of window maxima",MW)],["compute_robustness(Always/Eventually with interval) against compute_robustness of the operand"])
p("C04","Until is the classic until at every instant",
 "At every instant t of the time range shared by both operands, the robustness of 'f until g' is the largest, over instants t' >= t in that range, of the minimum of g's robustness at t' and the smallest robustness of f over [t, t') (f is not required at t' itself), with both operands read as piecewise-linear functions. In particular it is never positive when g is never satisfied. An interval [0, infinity) means the same as no interval.",
 ["inputs","programs"],"all operand formulas, all traces (aligned or not), all query instants",
 "No test evaluates an until formula.",
 [CR],[("compute_until",CR)],["compute_robustness(Until) against compute_robustness of both operands"])
p("C05","Atomic formulas are the signed margin to the bound; constants are infinite",
 "The robustness of 'x > c' and 'x >= c' is the value of signal x minus c, and of 'x < c' and 'x <= c' is c minus the value, over exactly the time range of x, at every instant; only the named signal matters. 'true' is plus infinity and 'false' minus infinity over the time range spanned by the whole trace, even if that is a single instant. Combining a constant with any formula never produces an undefined (NaN) value.",
 ["inputs","programs"],"all comparison operators, bounds, signal names, traces (including single-sample ones), and constants in any operand position",
 NOVAL+" Constants are never evaluated.",
 [CR,AS,AH],[("RobustnessOp for Predicate and Const",CR),("Predicate comparison operators",AS)],["compute_robustness(Predicate/Const)","compute_robustness(c & f), (f & c), (c | f), ..., with c constant"])
p("C06","Nested formulas get the classic semantics, and the sign decides satisfaction",
 "For any formula built from all operators, to any nesting depth, the robustness signal equals the classic (Donze-Maler) robust semantics of that formula on the piecewise-linear trace at every instant. Where it is positive the formula is satisfied, and where it is negative the formula is violated, in the Boolean semantics of STL.",
 ["inputs","programs"],"all formulas from the supported operators (any nesting, shared sub-formulas), all traces, all instants",
 NOVAL,[CR,MM,SG,AS],[("RobustnessOp visitor over the syntax tree",CR)],["compute_robustness on whole formulas against an independent quantitative and an independent Boolean evaluator"])
p("C07","Robustness is a guaranteed margin: perturbing signals by d moves it at most d",
 "If every signal of a trace is changed by at most d at every instant, the robustness of any formula changes by at most d at every instant; so a verdict with margin r survives every perturbation smaller than r. Raising a signal never lowers the robustness of a formula in which that signal only occurs positively (and never raises it where it only occurs negatively).",
 ["inputs","programs"],"all formulas, all pairs of traces on the same time range at distance d",
 "A relation between pairs of executions; tests look at single executions and check no values.",
 [CR,MM,SG],[("composition of min/max/sup/inf, each non-expansive",CR)],["pairs of compute_robustness runs on original and perturbed traces"])
p("C08","Logically equivalent formulas have the same robustness",
 "Rewriting a formula by a law of STL leaves its robustness signal unchanged at every instant: De Morgan, double negation, commutativity, associativity, idempotence, absorption and distributivity of and/or; duality of always and eventually (bounded or not); eventually f = true until f; idempotence of unbounded and addition of bounded intervals under nesting; the fixed points of unbounded operators; definitions of implies, iff, xor.",
 ["inputs","programs"],"all instances of the listed laws over all sub-formulas and traces",
 "Relations between executions; no test compares two evaluations.",
 [CR,MM,AS],[("RobustnessOp visitor",CR),("formula-building operators and functions",AS)],["pairs of compute_robustness runs"])
p("C09","Robustness depends on the signals as functions of time, not on representation",
 "The robustness at an instant does not change when samples lying on the existing line segments are added or removed, when signals are renamed consistently in trace and formula, or when signals the formula does not mention are added within the trace's time range. Shifting all signals in time by dt shifts the result by dt, multiplying all values and bounds by k > 0 multiplies it by k, and discarding the trace before t leaves the result from t on unchanged.",
 ["inputs","programs"],"all formulas, traces, inserted sample positions, shifts, factors, cut points and extra signals",
 "Relations between executions; no test compares two evaluations.",
 [CR,MM,SG],[("compute_robustness",CR),("synchronize",SG)],["pairs of compute_robustness runs on transformed traces"])
p("C10","Any valid trace and formula give a well-formed robustness signal",
 "For every supported formula over signals with a common time range, evaluation succeeds and returns a non-empty signal whose sample times strictly increase, which starts and ends exactly with the operands' common time range, and which has no NaN; if the trace is finite and the formula contains no constant, all values are finite. This holds whatever the magnitude, offset or spacing of the timestamps (for instance Unix times with millisecond steps, or steps near the resolution of doubles), for single-sample signals and for nearly parallel crossings, as long as the slopes between samples are within the range of doubles.",
 ["inputs","programs"],"all supported formulas and traces, in particular numerically extreme timestamps and slopes",
 "The one robustness test exists because of such a failure, and covers the three traces that once failed.",
 [MM,SG,CR],[("intercept guards in compute_minmax_pair",MM),("strict monotonicity check in push_back",SG)],["result of compute_robustness: sample times, range, values, exceptions"])
p("C11","Evaluating is pure: inputs untouched, results repeatable and independent",
 "Evaluating, synchronizing, transforming, printing or combining never changes the trace, the signals or the formulas passed in. Repeating an evaluation gives bit-identical results whatever was evaluated, parsed or printed in between, and a result handed out earlier is not changed by later calls nor by appending to the signals it was computed from, or the other way round.",
 ["inputs","histories"],"all interleavings of API calls over shared traces, signals and formulas",
 "Needs histories of calls; the tests make each call once and look at no state afterwards.",
 [CR,MM,SG,AS,PA],[("shared_ptr-shared operands, results built as new signals",CR),("AndHelper/OrHelper copy operand lists",AS)],["deep snapshots of every input before and after each call; results re-evaluated after unrelated calls"])
p("C12","Evaluation and parsing may run concurrently on shared inputs",
 "Several threads may at the same time evaluate formulas over a shared trace, share sub-formulas, query or transform the same signals, combine the same formulas, and parse specifications, without data races, and each obtains exactly the result it would obtain alone.",
 ["schedules","inputs"],"all thread schedules of read-only use of shared formulas, signals and traces, plus concurrent parsing",
 "The tests are single-threaded.",
 [CR,MM,SG,AS,PA],[("const access only, no global or static mutable state",CR)],["ThreadSanitizer reports; per-thread results against a sequential run"])
p("C13","No valid use of the API touches invalid memory or has undefined behaviour",
 "No sequence of public calls with valid arguments (including ones answered by an exception) reads or writes outside live objects, dereferences past-the-end iterators, uses freed or uninitialised memory, leaks memory or executes undefined behaviour.",
 ["inputs","histories","programs"],"all sequences of calls of the signal, formula, robustness, parser and printing API",
 "Out-of-range reads and uninitialised values rarely change the outcome of the few calls the tests make, which run without instrumentation.",
 [SG,SH,MM,MW,CR,AS,PA,AC,FM],[("iterator arithmetic in at, end_at, synchronize, resize, windows",SG),("wedge search",MW)],["AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, libstdc++ debug mode, valgrind memcheck"])
p("C14","A signal is always a strictly increasing, faithfully stored series of samples",
 "However a signal is built (appends, sample lists, points and times, copies), it contains exactly the given times and values in order, its timestamps strictly increase, and each sample's derivative is the slope to the next sample (zero at the last). An append that does not lie strictly after the current end, NaN included, and point/time lists of different length are refused with an exception, and a refused append leaves the signal unchanged.",
 ["inputs","histories"],"all sequences of constructions and appends, valid and invalid, all finite values and times",
 "The one test on this does not compile with the installed test library and is not run; it covers a 4-sample signal.",
 [SG,SH],[("Signal::push_back",SG),("Signal constructors",SH)],["iteration, size, front/back, begin_time/end_time, at_idx after every call"],
 [("samples","time-ordered samples with slopes",SH)])
p("C15","Signal queries return the piecewise-linear interpolant",
 "Looking a signal up at any instant of its time range returns the linear interpolation between the neighbouring samples (exactly the sample's value at a sample time), with that instant as time and the slope there as derivative; any instant outside the range, and any instant of an empty signal, is refused with an exception. Iteration from or up to a time visits exactly the samples at or after, or at or before it. Per-sample interpolation, area and intersection agree with the line through the sample.",
 ["inputs"],"all signals and instants, before, at, between and after samples; all pairs of lines",
 "No test looks a value up.",
 [SG,SH],[("Signal::at",SG),("begin_at, end_at, Sample::interpolate/area/time_intersect",SH)],["at, begin_at, end_at, interpolate, area, time_intersect, at_idx"])
p("C16","Synchronizing resamples both signals onto one time axis without changing them",
 "Synchronizing two signals yields two signals with identical sample times, covering exactly the intersection of the two time ranges and containing every sample time of either signal in it; each equals the original at every instant. Signals without a common instant (or without samples) are refused with an exception.",
 ["inputs"],"all pairs of signals: equal, nested, partially overlapping, touching and disjoint time ranges; shared or distinct sample times",
 "No test calls it with signals that start or end at different times.",
 [SG],[("synchronize",SG)],["synchronize(x, y)"])
p("C17","Simplify, resize and shift change a signal only as they say",
 "Simplify keeps the function of time and the time range and only drops samples. Shift moves all sample times by dt and keeps values and slopes. Resize to [s, e] returns a signal on exactly [s, e] that equals the original at every instant of the overlap and has the fill value at the bounds outside the original's range; resize_shift is resize followed by shift. None changes the original signal.",
 ["inputs"],"all signals, all s <= e before, inside, across and after the signal's range, all shifts and fill values",
 "No test calls these functions.",
 [SG],[("Signal::simplify/resize/shift/resize_shift",SG)],["simplify, resize, shift, resize_shift"])
p("C18","Parsing gives exactly the formulas that were written",
 "Every well-formed specification is accepted (nested up to 900 deep), and each defined formula and assertion is, under its name, exactly the one written: same operators, operand order, comparison direction (also when the constant comes first), numeric constant and nesting, with references replaced by the formulas they name; nothing else is defined. Whitespace, line breaks, comments and redundant parentheses do not matter, and neither do the process's locale settings.",
 ["inputs","configurations"],"all well-formed specifications in the S-expression language, all layouts, all locales",
 "Tests parse about half a dozen specifications and assert only that nothing is thrown: no parsed formula is ever inspected.",
 [GR,AC,PA,EM,AS],[("PEG grammar",GR),("semantic actions with a stack of local states",AC)],["from_string: formulas and assertions, structurally and by evaluating them"])
p("C19","Malformed specifications are refused with an exception, never misread",
 "Any byte string that is not a well-formed specification (syntax errors, trailing or missing parts inside parentheses, too few or too many operands, undefined names, redefinitions, numbers out of range, over-deep nesting, arbitrary garbage) is refused by throwing a standard exception. It never crashes or hangs and is never accepted with part of the text ignored or reinterpreted.",
 ["inputs"],"all byte strings, in particular small mutations of well-formed specifications",
 "Three hand-written bad files are tested.",
 [GR,AC,PA,EM],[("must rules and error control",EM),("operand-count checks, duplicate and lookup checks",AC)],["from_string on mutated and random input against an independent recogniser of the language"])
p("C20","Building formulas preserves meaning and never alters existing formulas",
 "The combinators (and, or, not, implies, iff, xor, comparison and temporal constructors, operators and functions alike) build formulas meaning what they say: simplification of constants and flattening never changes the robustness, drops or reorders other operands, or fails, whichever side a constant or nested conjunction is on. Formulas already built, and copies of them, are never changed. Conjunctions or disjunctions with fewer than two operands are refused.",
 ["programs","histories"],"all sequences of combinator applications with sharing, constants in every position",
 "The tests build two formulas and inspect neither.",
 [AS,AH],[("operator&, operator|, operator~, AndHelper, OrHelper",AS)],["structure of the built formula and of all earlier ones; truth table and robustness against the intended meaning"])
p("C21","Printed formulas, samples and signals say what they are",
 "The text printed for a formula determines it: reading it back by the printed notation gives the same operators, operand order and grouping, signal names, comparison directions, bounds (to the last bit) and intervals (as real numbers), so different formulas never print alike. An interval is printed exactly when one was given other than [0, infinity). Printing a sample or signal shows every time and value, in order.",
 ["programs","inputs"],"all formulas, bounds, intervals, samples and signals",
 "No test looks at printed text.",
 [FM,AH],[("fmt::formatter specialisations",FM),("Interval::has_value",AH)],["fmt::format, operator<< on formulas, samples, signals, read back by an independent reader"])
p("C22","What cannot be evaluated is refused with an exception, not answered",
 "A formula naming a signal missing from the trace, an until with an interval other than [0, infinity), an interval with its upper below its lower bound, and operands without a common instant are refused with an exception, wherever they occur in a formula, instead of being evaluated to something else. Real-valued intervals with negative bounds or an upper bound not above the lower are refused on construction, and all valid intervals are accepted and keep their bounds.",
 ["inputs","programs"],"all positions of an unsupported construct in a formula, all intervals, all traces",
 "No test triggers a refusal outside the parser.",
 [CR,AH,SG],[("not_implemented_error, logic_error on bad intervals",CR),("Interval constructor checks",AH),("map::at",CR)],["exceptions of compute_robustness and Interval; Interval::as_double"])
p("C23","Cost grows near-linearly with the length of the trace",
 "The work and the number of result samples for evaluating a formula grow no faster than n log n in the number of samples, for every operator and every shape of signal, whatever the window width, nor in the size of the formula or the number of signals. The work of parsing, printing, synchronizing and looking up grows no faster with the length of its input.",
 ["inputs","programs"],"all operators, adversarial signal shapes (ramps, zigzags, plateaus), window widths, sizes up to tens of thousands of samples",
 "Tests use 25 samples and measure nothing.",
 [MM,MW,CR,SG,PA],[("monotonic wedge, amortised constant update",MW),("single backward pass",MM)],["executed control-flow edges (compiler-inserted counters) at doubling sizes, result sizes"])
p("C24","Running out of memory anywhere is an exception that damages nothing",
 "If any single memory allocation fails during evaluation, construction, transformation, parsing or printing, the call throws (or completes correctly), leaks nothing, and leaves every signal, trace and formula passed in exactly as it was, including the signal being appended to; repeating the call with memory available gives the correct result.",
 ["fault_sequences"],"every allocation of every kind of call, each made to fail in turn",
 "No test injects faults.",
 [SG,CR,MM,AS,PA,AC],[("RAII and shared_ptr ownership; order of updates in push_back",SG)],["allocation-failure injection at every allocation index, with snapshots, re-run and leak checks"])
p("C25","Parsing a file equals parsing its contents",
 "Reading a specification from a file gives the same formulas and assertions, or a refusal in the same cases, as parsing the file's bytes as a string, whatever its size, line endings, missing final newline or embedded bytes. A path that cannot be read is refused with an exception, and the file is never modified.",
 ["inputs"],"all file contents and sizes (empty, around page size, larger), path shapes",
 "Tests read a few small well-formed ASCII files and compare nothing.",
 [PA],[("file_input / string_input",PA)],["from_file against from_string on the same bytes"])
p("C26","The Python bindings expose the same behaviour as the C++ API",
 "Every function, operator, property and exception reachable from Python gives the result of its C++ counterpart; in particular each exposed attribute shows the field it is named after.",
 ["inputs","programs"],"all bound functions and attributes",
 "There are no tests of the bindings, and they are not built by the default configuration.",
 ["python_bindings/pyast.cc","python_bindings/pysignal.cc","python_bindings/pyrobustness.cc"],[("pybind11 class and function definitions","python_bindings/")],["the built extension module, from Python"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
