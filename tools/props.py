# Text of the properties and of the checks; tools/gen.py writes properties.jsonl
# and MANIFEST.json from it.
I, H, C, S = "inputs", "histories", "configurations", "schedules"
ALLF = ["iir/Butterworth.cpp", "iir/ChebyshevI.cpp", "iir/ChebyshevII.cpp", "iir/RBJ.cpp"]
MC = "stateless model checking of the real objects: "
P = {}
def p(id, title, statement, over, text, why, files, mech, tech, note, quick, thorough, state=None):
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, quick=quick, thorough=thorough, state=state or [])

p("C01", "A setup's result depends on its own arguments only, not on history",
  "After any history of setups (accepted or rejected), filtering, resets and queries, on this object or others, an accepted setup gives exactly the filter that the same call gives on a new object: same coefficients, number of sections, response, pole/zero report and output after a reset.",
  [H, C], "all designed and RBJ filter classes and SOSCascade; all call histories up to the depth, and the whole reachable state space of each object under the alphabet",
  "The tests set each object up once or twice; a stale intermediate design needs a particular sequence of two or three different setups to show.",
  ALLF + ["iir/PoleFilter.h", "iir/Cascade.cpp", "iir/Layout.h"],
  [("intermediate analog designs are cached and recomputed when order or gain/ripple change", "design() in iir/Butterworth.cpp, ChebyshevI.cpp, ChebyshevII.cpp"), ("layout and cascade are rebuilt by each setup", "Cascade::setLayout, LayoutBase::reset")],
  MC + "all call histories to a depth plus breadth-first search over raw object states",
  "Every history and every reachable object state within the alphabet is executed on the library itself; the oracle is the same call on a new object in a forked process without history. Values outside the alphabet are not covered.",
  "alphabet of ~20-25 legal (each parameter varied alone, also by 1e-9; every order; band edges beyond 0 or Nyquist) and ~10 illegal calls per class for template order 5, 19 calls for template order 12; all histories of length 3; BFS capped by states",
  "three state types and template orders; all histories of length 3; BFS until no new state appears",
  [("cached order/gain/ripple", "which analog design is current", "iir/*.cpp AnalogLowPass/AnalogLowShelf members")])

p("C02", "A rejected call changes nothing",
  "A setup call with an argument outside its allowed range (order above the template order or negative, frequency not below half the sampling rate or negative, negative width, ripple, attenuation or Q, a NaN, sampling rate 0 or negative) is rejected in every state of the filter, repeatedly, and the filter goes on exactly as if the call had not been made: same coefficients, response and pole/zero report, same continuing output, same outcome of later setups.",
  [H, I], "all histories of up to 2 accepted setups, samples, up to 3 rejected calls and a later accepted setup, all designed and RBJ classes and SOSCascade",
  "The tests check that an exception is thrown on a new object; not that a running filter is unharmed, nor that repeating the call is rejected again.",
  ALLF + ["iir/PoleFilter.cpp", "iir/Biquad.cpp", "iir/Common.h"],
  [("arguments are checked before any coefficient is written", "design(), setup in *.cpp; PoleFilter.cpp transforms"), ("failed analog design is not taken as current", "design() in *.cpp")],
  MC + "all histories with rejected calls against a twin that skips them",
  "Every history within the bounds is executed twice on the library, with and without the rejected calls. Rejections caused by numerical degeneracy of otherwise legal values (e.g. centre frequency 0) are outside of the claim.",
  "template order 5 (and 12 with fewer calls); up to 2 accepted setups x all sequences of up to 2 rejected calls (~40 per class)", "3 state types; sequences of up to 3 rejected calls; all pairs of setups")

p("C03", "Illegal arguments always throw, legal ones never",
  "Every call with an order above the template order or negative, a normalised frequency that is negative, NaN or not below 1/2, a negative or NaN width, Q, ripple or attenuation, a NaN gain or slope, a useless sampling rate, NaN coefficients, unpaired complex poles or zeros, or an index or query frequency out of range throws std::invalid_argument; every call with ordinary legal arguments is accepted.",
  [I, C], "full product of boundary values of all arguments, orders (including INT_MIN and INT_MAX) and call forms, on new and on used objects",
  "The tests try a few wrong values for a few classes; the property is about every class, every argument and every boundary, also in combination.",
  ALLF + ["iir/PoleFilter.cpp", "iir/Biquad.cpp", "iir/Cascade.h", "iir/Cascade.cpp", "iir/Common.h", "iir/Layout.h"],
  [("explicit range checks", "PoleFilter.cpp transform constructors, RBJ.cpp checkFrequency/checkWidth, design()"), ("NaN checks on poles, zeros and coefficients", "Layout.h, Biquad.cpp")],
  MC + "exhaustive product of boundary alphabets over every call form and order",
  "Complete over the listed alphabets (boundaries, next representable values, infinities, NaN); each call is executed on the library. Gains, ripples and frequencies between the listed values are not covered.",
  "template order 5, up to ~13 illegal and ~6 legal values per argument, full product; every order at 511 legal frequencies (for bands: with 5 widths)", "template orders 1,2,3,5,6,8 and all state types, larger alphabets")

p("C04", "No call leaves a NaN coefficient in a filter",
  "Whatever values are passed - zero, denormal, boundary, huge, infinite or NaN - a setup or coefficient call either throws std::invalid_argument or leaves coefficients without NaN; no other exception escapes.",
  [I, C], "full product of adversarial values for all arguments of all setup and coefficient calls",
  "NaN results need degenerate combinations (Q 0, frequency 0, gain so large that it overflows) which the tests do not try.",
  ALLF + ["iir/Biquad.cpp", "iir/Layout.h", "iir/PoleFilter.cpp"],
  [("NaN checks where coefficients and poles are stored", "Biquad::setCoefficients, Biquad::applyScale, LayoutBase::add")],
  MC + "exhaustive product of adversarial arguments, invariant on every resulting state",
  "Complete over the alphabets of 13-22 values per argument; each call is executed on the library.",
  "template order 5, 13-22 values per argument, full product, 6-fold product of 8 values for coefficients", "3 template orders and states, up to 32 values per argument")

p("C05", "The build without exceptions behaves the same and aborts where others throw",
  "With exceptions disabled by the documented macro the library compiles with -fno-exceptions, gives identical filters and samples for every accepted call, and calls abort() exactly for those calls for which the default build throws, instead of continuing.",
  [C, I], "the same enumeration of calls and histories in both build configurations, all designed and RBJ classes",
  "The test suite is only built with exceptions on.",
  ["iir/Common.h", "iir/Cascade.h", "iir/Layout.h"] + ALLF,
  [("single place which throws or aborts", "throw_invalid_argument in iir/Common.h")],
  MC + "the same exhaustive enumeration in two builds, compared record by record (forked process per rejected call)",
  "Both configurations are compiled from the working tree and run on the same enumeration; differences in one record are violations.",
  "template orders 5 and 12; all legal/illegal alphabet calls and pairs", "3 template orders and states")

p("C06", "All forms of a setup call are equivalent",
  "Giving frequencies in Hz with a sampling rate, or normalised; with or without the explicit maximum order; with default or the same explicit optional arguments: all forms give the same filter up to rounding, on a new object and after each other.",
  [I, C, H], "full product of parameters, orders and sampling rates over all designed and RBJ classes",
  "Tests use one form per filter at one rate; a swapped or unscaled argument in one overload of one class stays invisible.",
  ["iir/Butterworth.h", "iir/ChebyshevI.h", "iir/ChebyshevII.h", "iir/RBJ.h"],
  [("overloads forward to one normalised setup", "setup/setupN in the class headers")],
  MC + "exhaustive product of call forms, differential between forms",
  "All overloads of every class over the alphabets; equality up to 1e-8. Says nothing about whether the common result is right (C21-C25 do).",
  "template orders 5 and 12, 6 sampling rates", "3 template orders and states, 14 sampling rates, larger alphabets")

p("C07", "A lower order than the template's gives exactly the lower order filter",
  "A filter with room for a higher order that is set up with a lower order has the sections and coefficients of the filter whose template order is that lower order, counts only those sections, and passes the signal unchanged through the others; this holds for every sequence of orders on one object.",
  [C, H], "all pairs (template order, order), all sequences of orders up to a length, all designed classes",
  "Tests use one order per object; leftover sections from a higher order only appear after lowering the order of a used object.",
  ["iir/Cascade.cpp", "iir/Cascade.h", "iir/PoleFilter.h", "iir/Layout.h"],
  [("all sections set to identity before the layout is applied", "Cascade::setLayout")],
  MC + "all (capacity, order) pairs and all order sequences, differential against the exact-capacity template",
  "Complete for the template orders listed; the oracle is the library's own exact-order template (itself checked by C21-C24).",
  "template orders 1-6 and 12, order sequences of length 3", "template orders 1-10 and 12")

p("C08", "Every section computes its difference equation, in every structure, forever",
  "For any coefficients and any input sequence, the output of a second order section is a0 y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2] from zero initial conditions, for all three filter structures, for samples of any magnitude and after any number of samples.",
  [I, H], "all coefficient sets of a dyadic alphabet x all sample sequences up to a length (exact arithmetic), power of two amplitudes, long runs",
  "Tests check that outputs are not NaN and decay; a wrong sign or delay for one coefficient changes values but not that.",
  ["iir/State.h", "iir/Biquad.h", "iir/Biquad.cpp", "iir/Cascade.h"],
  [("state update of the three structures", "DirectFormI/DirectFormII/TransposedDirectFormII::filter")],
  MC + "all sample sequences x coefficient sets against the state equations, exact",
  "In the dyadic alphabet every double operation is exact, so equality is bit for bit and independent of how the sum is written; for other coefficients the difference equation's form is the same code.",
  "5 values per coefficient, sequences of length 4-6, one run of 2^28 samples", "longer sequences, one run of more than 2^32 samples")

p("C09", "An imported second-order-sections table is used as given, in order",
  "Row i of a table (b0 b1 b2 a0 a1 a2) becomes section i, normalised by its a0, given in the constructor or by setup, after any other table; the signal passes the sections in row order, so that changing the table in a running filter continues each section from its own delay line.",
  [I, H, C], "all tables of up to 4 rows from an alphabet of sections, all three structures, retuning at every position of the stream",
  "One table is imported in the tests; order of the sections is invisible unless a running filter is retuned.",
  ["iir/Custom.h", "iir/Cascade.h", "iir/Biquad.cpp"],
  [("row to section assignment", "CascadeStages::setup"), ("sections applied in order", "CascadeStages::filter")],
  MC + "all tables and retuning points against chained difference equations",
  "Complete over tables with up to 4 rows from the section alphabet; larger tables share the loop.",
  "up to 3 rows including an all-zero numerator, sequences of length 4", "4 rows, longer sequences")

p("C10", "The three filter structures are interchangeable",
  "The same design in direct form I, II and transposed II has the same coefficients and verdicts and gives the same output up to rounding for the same samples.",
  [C, I], "all designed classes and orders and SOSCascade, products of parameters, all ternary input sequences up to a length and long signals, at amplitudes from 1e-150 to 1e150",
  "Tests use the non-default structures in a few cases and do not compare them.",
  ["iir/State.h", "iir/PoleFilter.h"], [("state type is a template parameter", "CascadeStages, PoleFilter")],
  MC + "all input sequences to a length, differential between structures",
  "Differential on the real code within 1e-9 of the maximum; parameters from the alphabets.",
  "template orders 6 and 13, all 729 ternary sequences, 1500 sample signals, sections with every subset of coefficients zero", "sequences of length 9")

p("C11", "reset() gives exactly the freshly set up filter",
  "After reset() at any point of any history - including infinite or NaN samples - the output is the one of a newly constructed filter with the same setup, and coefficients, response and poles/zeros are unchanged.",
  [H, I], "all sequences of samples (with NaN and infinity), setups and queries up to a depth, then reset, all classes and structures",
  "Tests reset once after ordinary samples and look at single outputs.",
  ["iir/State.h", "iir/Cascade.h", "iir/RBJ.h"], [("reset of every delay line", "State.h reset(), CascadeStages::reset, RBJbase::reset")],
  MC + "all operation sequences to a depth, differential against a new object",
  "All sequences within the depth on the library for every class; a new object is the oracle.",
  "template orders 3-5 (and 12), depth 5, also with neutral and degenerate setups, resets after 140000 samples", "deeper")

p("C12", "Changing a running filter keeps its delay lines",
  "Setting up a running filter again does not reset or disturb its memory: repeating the parameters in use, rejected calls and queries have no effect on the output, and a real change continues from the delay lines with the new coefficients.",
  [H], "all operation sequences up to a depth on a running filter, all classes and structures",
  "No test changes parameters while filtering.",
  ["iir/State.h", "iir/Cascade.cpp", "iir/PoleFilter.h", "iir/RBJ.h"], [("coefficients and delay lines are separate", "CascadeStages::m_stages / m_states")],
  MC + "all operation sequences to a depth against the topology's state equations",
  "The oracle model (state equations) is run beside every sequence and compared after each sample.",
  "template orders 3, 4 and 12, ~9 operations, depth 5; all triples of neutral and degenerate setups (gain 0, exact halves, muted rows); every lower order and the next lower", "depth 7",
  [("delay lines", "past samples of each section", "iir/State.h")])

p("C13", "A copy is an independent, equal filter",
  "A copy of a filter in any state continues with exactly the same output as the original would, and afterwards neither setups, samples, resets nor destruction of one influence the other.",
  [H], "all pairs of histories before and after the copy up to a depth, all classes and structures",
  "The tests do not copy filters in use; an aliased buffer needs a setup or destruction of the original after the copy.",
  ["iir/PoleFilter.h", "iir/Cascade.h", "iir/Cascade.cpp", "iir/Layout.h"], [("copy constructor redirects to its own storage", "PoleFilter copy constructor, moveCascadeStorage, moveStorage")],
  MC + "all histories around a copy against two independently built twins",
  "Every interleaving within the depth is run on the library; twins built by the same calls are the oracle. Source memory is overwritten after its destruction.",
  "template orders 3-4 and 12, depth 2+2..3, also from neutral and degenerate setups", "deeper")

p("C14", "Assignment copies the filter and leaves it independent",
  "After assignment between any two filters of a class in any states (also to itself), the target has the source's coefficients, sections, response and pole/zero report; designed filters start from zero delay lines, others continue from the source's; and afterwards neither influences the other.",
  [H], "all pairs of histories of both objects, before and after the assignment, all classes and structures",
  "No test assigns filters.",
  ["iir/PoleFilter.h", "iir/Cascade.h", "iir/Layout.h"], [("assignment copies base, sections and storage, then resets the delay lines", "PoleFilter::operator=")],
  MC + "all histories around an assignment against independently built twins",
  "As C13.", "template orders 3-4 and 12, depth 2+2..3, also from neutral and degenerate setups", "deeper")

p("C15", "Filter objects are independent of each other, also across threads",
  "Operations on one filter object never change what another object does, in any interleaving of calls, and also when the two are used by different threads at the same time; there is no shared mutable state and no data race between distinct objects.",
  [S, H], "all pairs of classes; all interleavings of 5 calls per object; all thread schedules with up to 2 preemptions at accesses to memory both threads touch",
  "Tests are single threaded; a shared scratch buffer or cache needs two objects set up at the same time.",
  ["iir/Butterworth.cpp", "iir/ChebyshevI.cpp", "iir/ChebyshevII.cpp", "iir/RBJ.cpp", "iir/Cascade.cpp", "iir/Biquad.cpp", "iir/PoleFilter.cpp"],
  [("no static or global mutable data", "all of iir/")],
  "stateless model checking with a controlled scheduler (preemption bound 2) over instrumented memory accesses, plus happens-before race detection",
  "Two real threads are scheduled at instruction-level accesses to shared memory found by instrumentation; sequentially consistent interleavings up to 2 preemptions, data races by happens-before. On a tree without shared memory there are exactly two schedules per pair. More than two threads are not explored (objects are pairwise independent). Static data written by the C and C++ run time on behalf of the library is seen through the copying and formatting functions (memcpy, strcpy, snprintf ...) only.",
  "40 classes x 2 programs, all 3240 pairs, all 252 interleavings for equal classes (every 7th otherwise)", "3 template orders/structures, 3 programs each, all interleavings")

p("C16", "No dynamic memory",
  "Construction, accepted setups, filtering of any sample type, reset, response and coefficient queries, copying and assignment never allocate or free heap memory.",
  [H, I], "all operation sequences up to a depth for all classes with a counting allocator",
  "The tests cannot see allocations.",
  ["iir/PoleFilter.h", "iir/Layout.h", "iir/Cascade.h", "iir/Cascade.cpp"], [("fixed size storage as template members", "Layout, CascadeStages")],
  MC + "all operation sequences to a depth under a counting allocator",
  "malloc, calloc, realloc, free and aligned variants are replaced for the whole program (operator new ends there). Exceptions and the pole/zero report (a vector) are exempt.",
  "template orders 5, 12 and 130, ~14 operations, depth 4", "4 template orders/structures, depth 5")

p("C17", "No memory error or undefined behaviour for any arguments",
  "Whatever the order, index, frequency, gain or sample - legal, boundary, huge, infinite or NaN - and whatever was called before, no call reads or writes outside of the object or executes undefined behaviour (a result beyond the range of an integer sample type excepted).",
  [I, H, C], "all operation sequences up to a depth plus every extreme call alone, before and after every other, for every template order",
  "The tests run without sanitizers and with benign arguments.",
  ["iir/Layout.h", "iir/Cascade.h", "iir/Cascade.cpp", "iir/PoleFilter.cpp", "iir/PoleFilter.h"] + ALLF,
  [("order checked against the storage before poles are added", "design()/setup in *.cpp, Cascade::setLayout"), ("index checks", "Cascade::operator[], LayoutBase::getPair")],
  MC + "all operation sequences to a depth in an address/undefined sanitizer build with guard bytes",
  "The sanitizers decide each executed access; overflows which stay inside one object are seen by C01/C07/C11-C13 instead. Conversion of filter results beyond the range of an integer sample type is outside of the claim.",
  "template orders 1, 3, 4, 9 to depth 3, 131 to depth 2", "template orders 1-9, 11 (depth 4), 40, 131 and 200, all structures")

p("C18", "A filter which was never set up passes its input through",
  "A newly constructed filter returns every sample unchanged and has response 1, wherever its memory came from, and this stays so after rejected setups, resets, samples, queries, copies, assignments and activity of other objects.",
  [H, I], "all operation sequences up to a depth without an accepted setup, over dirty memory, all classes and structures",
  "Tests always set up first; uninitialised members depend on what the memory contained.",
  ["iir/Cascade.h", "iir/Biquad.h", "iir/State.h", "iir/PoleFilter.h"], [("default member values make an identity section", "Biquad.h, State.h, CascadeStages")],
  MC + "all operation sequences to a depth over memory with adversarial contents",
  "Exact equality on every sample; memory filled with 0x00, 0xFF, 0x5A before construction.",
  "template orders 1-4 and 12, depth 4", "depth 5")

p("C19", "The response is the transfer function the filter really applies",
  "For every design and frequency, response() is the product of the responses of the filter's sections and equals the Fourier transform of the impulse response which filter() produces; a section's response is its coefficients' transfer function.",
  [I, C], "products of designs x frequencies for all designed and RBJ classes; product of section coefficients",
  "Tests only look at the response of a few filters at a few frequencies, with no reference to the samples.",
  ["iir/Cascade.cpp", "iir/Biquad.cpp", "iir/State.h", "iir/Cascade.h"], [("evaluation of the transfer function", "Cascade::response, Biquad::response")],
  MC + "exhaustive product of designs, impulse response of the running filter against the reported response",
  "Impulse responses are run until they have decayed below 1e-13 and transformed; agreement within 1e-8 of the peak.",
  "template orders 8 and 13, 25 frequencies and very low ones from 1e-9", "larger alphabets, 400 frequencies")

p("C20", "The pole/zero report describes the filter",
  "For designs and sections without a zero at infinity, the reported poles and zeros are real or conjugate pairs whose rational function has, up to a constant gain, the magnitude of the filter's response; there are as many as the order says; and a section rebuilt from its report is the same section.",
  [I, C], "products of designs of all designed and RBJ classes, products of section coefficients, both ways to ask",
  "Tests compare the two reports for a few designs; not with the response or for odd orders in general.",
  ["iir/Biquad.cpp", "iir/Cascade.cpp", "iir/PoleFilter.h", "iir/Types.h"], [("poles and zeros recovered from coefficients", "BiquadPoleState"), ("report of the digital layout", "PoleFilterBase2::getPoleZeros")],
  MC + "exhaustive product of designs and sections, report against response",
  "Differential between the report and the response at 9 frequencies.",
  "template orders 8 and 13, also sections whose poles and zeros cancel", "larger alphabets")

for id, fam, extra, files, tolnote in (
    ("C21", "Butterworth", "-3 dB at the cutoff or band edges and no ripple", ["iir/Butterworth.cpp"], "5e-5"),
    ("C22", "Chebyshev I", "equal ripple of the given size in the passband, whose edge is the given frequency", ["iir/ChebyshevI.cpp"], "2e-4"),
    ("C23", "Chebyshev II", "equal ripple at the given attenuation in the stopband, whose edge is the given frequency", ["iir/ChebyshevII.cpp"], "5e-4")):
    p(id, fam + " low, high, band pass, band stop have the textbook response",
      "For every order, frequency and width with band edges between 0.0019 and 0.4981 (to the accuracy that double precision leaves, also for centre and cutoff frequencies down to 0.0001 and up to 0.4999) and every usual ripple or attenuation, the complex frequency response of a %s filter is the bilinear transform, prewarped at the given frequencies, of the textbook analog filter: %s, unit passband gain." % (fam, extra),
      [I, C], "full product of kinds, orders, frequencies, widths and parameters, at 60-250 frequencies each",
      "Tests check attenuation at one frequency for one or two orders; wrong poles, gain or frequency mapping in other regions stay unseen.",
      files + ["iir/PoleFilter.cpp", "iir/Cascade.cpp", "iir/MathSupplement.h"], [("analog prototype", "AnalogLowPass::design"), ("transforms and normalisation", "PoleFilter.cpp, Cascade::setLayout")],
      "explicit-state enumeration of designs on the real code against an independent analytic reference model",
      "The reference computes poles and zeros of the analog prototype from the textbook formulas, independent of the library; agreement of magnitude and phase within " + tolnote + " (5e-3 or better at the extreme frequencies, where measured rounding errors are up to 1.4e-4). It reads the response, which C19 ties to the samples. Parameters between grid points are not covered.",
      "orders up to 16-20, ~33 frequencies x 12 widths x ~11 parameters, and orders up to 8 at 8 extreme frequencies", "orders up to 24-32, ~130 frequencies")
p("C24", "Shelving filters of the Butterworth and Chebyshev families have their response",
  "For every order, frequency, width, gain of either sign and ripple below the gain, the complex response of a low, high or band shelf is that of the family's analog shelf prewarped at the given frequencies: the given gain inside, 0 dB outside, and for Chebyshev filters ripple of the given size where the documentation says (type I in the shelf, type II in the stopband).",
  [I, C], "full product of kinds, orders, frequencies, widths, gains and ripples",
  "Tests check a shelf's gain at one frequency for one or two orders.",
  ["iir/Butterworth.cpp", "iir/ChebyshevI.cpp", "iir/ChebyshevII.cpp", "iir/PoleFilter.cpp"], [("analog shelf prototypes", "AnalogLowShelf::design")],
  "explicit-state enumeration of designs on the real code against an independent analytic reference model",
  "As C21-C23, tolerance 1e-5. Type II shelves have their ripple in the shelf, not in the stopband as documented: recorded as known finding, everything else about their response is checked.",
  "orders up to 12", "orders up to 20, ~130 frequencies")
p("C25", "RBJ filters have the audio cookbook's response",
  "For every frequency in (0, 1/2), Q, bandwidth, slope and gain the complex response of each RBJ filter is that of its cookbook analog prototype prewarped at the frequency, with the parameters meaning what the documentation says (Q, bandwidth in octaves, slope, gain in dB); the notch has its zero at the frequency.",
  [I, C], "full product of kinds, ~220 frequencies and all parameters, at 100-400 response frequencies",
  "Tests check one frequency per filter with loose thresholds.",
  ["iir/RBJ.cpp", "iir/RBJ.h"], [("cookbook formulas", "setupN in iir/RBJ.cpp")],
  "explicit-state enumeration of designs on the real code against an independent analytic reference model",
  "Agreement within 1e-5 of prototypes written as analog functions (not as the cookbook's digital coefficients). Band pass/stop take a Q where octaves are documented: known finding, the Q meaning is enforced.",
  "223 frequencies", "3022 frequencies, 400 response frequencies")
p("C26", "Every accepted design is stable",
  "For every frequency and band edge between 0.0001 and 0.4999 and every usual order, Q, bandwidth, slope, gain, ripple and attenuation, all poles of every section lie strictly inside the unit circle, coefficients are finite, and the impulse response of the running filter dies away.",
  [I, C], "full product of classes, orders, frequencies, widths and parameters",
  "Tests run a handful of designs and check for NaN.",
  ALLF + ["iir/PoleFilter.cpp", "iir/Biquad.cpp"], [("left half plane prototypes and bilinear transform", "PoleFilter.cpp")],
  "explicit-state enumeration of designs, stability invariant on the coefficients in use and on the running filter",
  "Triangle criterion on the section coefficients as stored (exact in double up to one rounding); impulse responses run for a part of the designs.",
  "orders up to 20, 78 frequencies x 10 widths", "orders up to 24, 178 frequencies")
p("C27", "All sample types give the double precision result, converted",
  "Filtering samples of any arithmetic type (float, long double, int, short, char, long long ...) gives the result of the double precision filter for the same values, rounded to float or truncated towards zero, with no precision lost inside, as long as the result is in the type's range.",
  [I, H], "all sample sequences up to a length from an alphabet of amplitudes, all classes and structures",
  "Tests use double and one float case.",
  ["iir/Cascade.h", "iir/RBJ.h"], [("conversion only at input and output", "CascadeStages::filter, RBJbase::filter")],
  MC + "all sample sequences to a length, differential between sample types",
  "The double instantiation is the oracle (tied to the difference equation by C08).",
  "all arithmetic sample types of C++ but bool, __int128 and a user fixed point class; template orders to 12, 8 sets of 7 amplitudes up to 2^53 and down to 1e-20, length 4 + tail", "length 5, all designs of the alphabet")
p("C28", "A set up filter is linear, time invariant and causal",
  "For every design, the output for any input is the superposition of delayed, scaled copies of its impulse response, before nothing but zero, at every amplitude from denormal-free tiny to huge.",
  [I, C], "all ternary input sequences up to a length, all delays and power of two gains, all classes and structures",
  "Tests feed single impulses.",
  ["iir/State.h", "iir/Cascade.h", "iir/Biquad.h"], [("linear state updates without thresholds", "State.h")],
  MC + "all input sequences to a length, metamorphic oracle",
  "Superposition compared within rounding; power of two scaling exactly.",
  "3^6 sequences, template orders 5 and 12, a run of 140000 pseudo-random samples", "3^8 sequences, all designs, runs of 3 million samples")
p("C29", "Sections and one/two pole filters are exactly what their calls say",
  "After any sequence of coefficient calls a section's transfer function is the one given last (poles, zeros, coefficients or identity) times the scales applied since; getters, response and filter output in every structure agree with it, and calls with unpaired complex values or NaN are rejected without effect.",
  [I, H], "full products of poles and zeros; all sequences of 27 calls up to a depth",
  "Tests use one pole and one zero.",
  ["iir/Biquad.cpp", "iir/Biquad.h", "iir/Custom.cpp", "iir/Custom.h", "iir/Types.h"], [("poles and zeros to coefficients", "Biquad::setOnePole/setTwoPole/setPoleZeroPair/setPoleZeroForm/applyScale"), ("polar form", "Custom::TwoPole::setup")],
  MC + "all call sequences to a depth against a rational-function reference model",
  "The model keeps numerator and denominator in extended precision and is compared after every call.",
  "50 poles x 50 zeros, depth 4", "90 x 90, depth 5")
p("C30", "Work per sample is bounded, whatever the data and the time",
  "The number of steps of one filter() call is bounded by the number of sections, for any sample values (denormal, huge, infinite, NaN), any state and after any number of samples; a setup call takes a number of steps bounded by the order, for any arguments.",
  [I, H], "all sequences of 12 special values up to a length, long runs, products of setup arguments, all classes and structures",
  "Tests do not measure work; a data dependent loop needs special values.",
  ["iir/State.h", "iir/Cascade.h", "iir/PoleFilter.cpp", "iir/MathSupplement.h"], [("straight line code per section", "State.h, CascadeStages::filter")],
  MC + "all sample sequences to a length with a counter in every basic block",
  "Counts basic blocks of the library; generous constant per section (24) and order (700), so that ordinary branches are no alarm. Hardware effects such as slow denormals are outside.",
  "sequences of length 4, 70000 samples; products of 17 values for the arguments of the coefficient calls", "length 5, 2 million samples")
p("C31", "Queries only read: a filter can be inspected while it runs",
  "Asking a filter for its response, poles and zeros, number of sections or coefficients, and copying it, does not modify it: several threads may do so on the same object at the same time, and one thread may make these queries (other than copying) while another one filters with the same object, without data race, with the same answers and the same filtered samples as without the other thread.",
  [S, H], "all classes and structures, six histories of the object, ten pairs of thread programs; all thread schedules with up to 2 preemptions at conflicting accesses",
  "Tests are single threaded; a cached response, memoised pole report or scratch value inside the object is invisible in one thread.",
  ["iir/Cascade.cpp", "iir/Cascade.h", "iir/Biquad.cpp", "iir/Biquad.h", "iir/PoleFilter.h", "iir/RBJ.h", "iir/State.h"],
  [("queries are const and filtering writes delay lines only", "Cascade::response, Cascade::getPoleZeros, PoleFilterBase2::getPoleZeros, Biquad::response; CascadeStages::filter")],
  "stateless model checking with a controlled scheduler (preemption bound 2) over instrumented memory accesses, plus happens-before race detection",
  "Two real threads on one object, scheduled at instruction-level accesses to memory both touch; sequentially consistent interleavings up to 2 preemptions, races by happens-before on the object and on static data. Without conflicting accesses there are exactly two schedules per pair. More than two threads are not explored.",
  "template orders 2, 5, 3 in the three structures, 6 histories x 10 pairs of programs", "7 template orders/structures, ~40 histories per class")

p("C33", "Every build of the library behaves the same",
  "With GCC or Clang, at any optimisation level, as C++11 to C++23, in debug and release builds (with and without NDEBUG), with or without fused multiply-add instructions, the library compiles without changes, accepts and rejects the same calls, and gives - up to rounding - the same filters, reports and samples for every history of calls.",
  [C, H], "eight builds x the same enumeration of setup calls (legal, illegal, extreme) in histories with samples of all types, second setups, copies, assignments and resets, all classes and structures",
  "The test suite runs in one configuration; behaviour that hangs on assert, evaluation order, uninitialised values or exact floating point coincidences shows in another one.",
  ALLF + ["iir/PoleFilter.cpp", "iir/PoleFilter.h", "iir/Biquad.cpp", "iir/Cascade.cpp", "iir/Cascade.h", "iir/State.h", "iir/MathSupplement.h"],
  [("portable C++11 without configuration dependent code", "all of iir/")],
  MC + "the same exhaustive enumeration in eight builds, compared record by record",
  "Every build is compiled from the working tree and run on the same enumeration; differences beyond 1e-7 in one record are violations (identical for most). Other processors and compilers are not available here.",
  "template orders 3, 5, 12, 4; ~60-100 calls x 8 histories per class", "template orders as quick; up to 41 histories per call")
p("C32", "The transforms turn any analog prototype into its digital filter",
  "A prototype added to a layout - conjugate pairs and possibly a last single pole, zeros finite or infinite - is stored as given (unmatched pairs, NaN and additions after a single pole are refused without effect); LowPass, HighPass, BandPass and BandStopTransform map it to the bilinear, prewarped digital layout (twice the poles for bands, inside the unit circle if in the left half plane), and setLayout makes the cascade with this response and the layout's gain at its reference frequency, for filters made by users from PoleFilterBase as well.",
  [I, H], "all prototypes of up to 2 pole pairs and a single pole from an alphabet of 24 pairs and 12 singles x 4 transforms x frequencies and widths; all sequences of 14 layout calls up to a depth",
  "The built-in families only feed prototypes with particular symmetry into the transforms; the tests have no other.",
  ["iir/PoleFilter.cpp", "iir/PoleFilter.h", "iir/Layout.h", "iir/Cascade.cpp", "iir/Types.h", "iir/MathSupplement.h", "iir/Biquad.cpp"],
  [("conformal maps of poles and zeros", "LowPassTransform, HighPassTransform, BandPassTransform, BandStopTransform"), ("container of pairs", "LayoutBase"), ("layout to sections and gain", "Cascade::setLayout")],
  "explicit-state enumeration of prototypes and call sequences on the real code against an independent analytic reference model",
  "Complete over the alphabets; the reference evaluates the prototype at the mapped frequency. The sign of the overall gain is free (the library normalises the magnitude).",
  "2628 prototypes (zeros up to far outside), 6 frequencies, 4 widths; call sequences of length 5", "prototypes with 3 pairs, call sequences of length 6",
  [("pole/zero list", "pairs added since reset, count of poles", "iir/Layout.h m_pair, m_numPoles")])
p("C34", "Design symmetries hold exactly",
  "Mirroring the frequency axis mirrors the filter (a high pass is the low pass of the mirrored cutoff with z negated, band filters and shelves likewise), shelves of opposite gain cancel, Butterworth low and high pass (band pass and band stop) are power complementary, a Chebyshev II filter is the power complement of the Chebyshev I filter of the opposite kind, low and high shelf of a gain multiply to that gain, and RBJ low and high pass add up to the band stop, band pass and band stop to 1: to 1e-7 at every frequency, for every order and parameter set.",
  [I, C], "products of classes, orders, frequencies, widths, gains, ripples, attenuations, Q and slopes; every pair compared at ~50 frequencies",
  "Tests look at single filters with coarse limits; a relation between two designs is never tested.",
  ALLF + ["iir/PoleFilter.cpp", "iir/Biquad.cpp", "iir/Cascade.cpp", "iir/RBJ.cpp"],
  [("analog prototypes", "AnalogLowPass::design, AnalogLowShelf::design of the three families"), ("frequency transforms", "iir/PoleFilter.cpp"), ("cookbook formulas", "iir/RBJ.cpp")],
  MC + "exhaustive product of design pairs, related responses compared",
  "The oracle is a second design of the library, so errors which respect the symmetry are left to C21-C25; no formula of the oracle limits the accuracy, which is why 1e-7 can be demanded.",
  "template order 12, 22 frequencies, 7 widths, 10 gains", "template order 20, 84 frequencies, 26 widths, 24 gains")

p("C35", "Parameters can be swept without jumps",
  "Moving the cutoff or centre frequency, width, gain, ripple, attenuation, Q, bandwidth or slope of a filter continuously through its legal range (order fixed, band edges inside 0..Nyquist, shelf ripple below the gain) changes every coefficient of every section continuously: there is no value at which a coefficient, the number of sections or the role of a section jumps, so a filter that is retuned in small steps while it runs does not click.",
  [I, C], "every line of a grid of the parameter space of every class and order is walked with one object; steps that change more or less than their neighbours are bisected down to 1e-13 of the range",
  "Tests design at a handful of isolated values; a jump between two values is not visible in either of them.",
  ALLF + ["iir/PoleFilter.cpp", "iir/Biquad.cpp", "iir/Cascade.cpp", "iir/RBJ.cpp"],
  [("order and pairing of poles and zeros", "addPoleZeroConjugatePairs, *Transform in iir/PoleFilter.cpp"), ("gain in the first section", "iir/Cascade.cpp"), ("cookbook formulas", "iir/RBJ.cpp")],
  MC + "exhaustive walk over a grid of parameter lines with bisection of every conspicuous step",
  "Complete for jumps larger than about 1/50 of the step they hide in (and 1e-5 of the coefficient); smaller ones and those in lines between the grid lines can be missed. The division ends when the step is below 1e-5.",
  "template order 12, 1024 steps per line, 1-4 values of the other parameters", "template order 20, 4096 steps per line, 1-8 values of the other parameters")
p("C36", "The filters have no effect on the program around them",
  "No call - accepted, rejected or a query, with any sample - changes anything outside of its own objects: floating point control state (rounding, denormals, exception masks and pending exception flags), formatting and state of the standard streams, locale, environment, handlers, signal actions, random number generators, open files, working directory, threads and limits stay as they are, whatever they are; nothing is printed, and memory taken for an exception or a report is given back.",
  [H, I], "all histories up to a depth over ~30-60 calls per class (legal, illegal, degenerate, samples of all types with denormal, infinite and NaN values, copies, assignments, reports), each under three floating point modes; the state of the process is compared after every call",
  "Tests look at the filter, never at the process around it.",
  ALLF + ["iir/PoleFilter.cpp", "iir/Biquad.cpp", "iir/Cascade.cpp", "iir/Common.h", "iir/State.h"],
  [("no global state, no output, no handlers", "all of iir/"), ("exceptions are the only reporting", "throw_invalid_argument in iir/Common.h")],
  MC + "all call histories to a depth with a comparison of the process state after every call",
  "Sticky floating point exception flags and errno may change (any arithmetic does). Leaks are counted in blocks on the second execution of the same histories, so memory taken once by the C++ run time is no alarm.",
  "template orders 3, 4, 3, 12 in the three structures; histories of length 2", "histories of length 3")
p("C37", "A filter works at any time of the program's life",
  "Filters may be constructed, set up, fed, queried, changed, copied and destroyed before main (as objects with static storage duration), in main, in other threads, while a thread ends, in exit handlers and after main, and may live across these phases: every result is the same as in main.",
  [H, S], "all ways to distribute the five steps of a filter's life over seven phases of a program (462 per design), several designs of every class",
  "Tests use filters inside of main only; a table or constant that is computed by a static constructor, or torn down by a destructor, is right there.",
  ALLF + ["iir/PoleFilter.cpp", "iir/Biquad.cpp", "iir/Cascade.cpp", "iir/MathSupplement.h", "iir/Types.h"],
  [("constants need no constructor", "iir/MathSupplement.h"), ("no state outside of the objects", "all of iir/")],
  MC + "all placements of a life's steps in the phases of the program",
  "One program per shard; GCC's initialisation priorities put the first phase before every constructor of a static object (also those of the library) and the last after every destructor. The phases of a shared library loaded at run time are not covered.",
  "template orders 3, 4, 12, 3 in the three structures; 8 designs per class", "22 designs per class")

p("C38", "A user's own state class works like the library's",
  "All filter classes which take a state class accept one of the user - also one which owns memory, is over-aligned, has virtual functions, throws or cannot be copied: every sample visits each section in use exactly once and in order with that section's coefficients and the previous section's output, sections not in use only ever pass it on; reset() reaches every state, setups, queries and rejected calls reach none, copies carry them, and they are constructed, copied and destroyed as objects, exactly as often as the filter is. A single section runs any number of states with its coefficients.",
  [H, I], "all histories up to a depth over ~20 calls (setups of several orders, rejected setups, samples of four types, states which throw in any section, reset, queries, copies, assignments) for 21 designed classes and the table filter with five kinds of state classes; all histories of sections, cookbook and one pole filters with six states",
  "Tests only use the states of the library, whose values can be copied byte by byte and never fail, and see only the sum of all sections.",
  ["iir/Cascade.h", "iir/PoleFilter.h", "iir/Biquad.h", "iir/State.h", "iir/Custom.h", "iir/RBJ.h"],
  [("StateType", "CascadeStages<MaxStages,StateType> in iir/Cascade.h"), ("any state", "Biquad::filter(double, StateType&) in iir/Biquad.h"), ("protected delay lines", "DirectFormI in iir/State.h")],
  MC + "all operation sequences to a depth with recording state classes",
  "The recording states carry a hash of everything they were given; the model keeps it per section and compares it at each call, so a lost, doubled or misdirected call, copy or reset of any state shows.",
  "template orders 1 to 6 and 1 to 4 sections; histories of length 3 (sections: 5)", "histories of length 4 (sections: 6)")

p("C39", "Own cascades and own designs behave like the library's filters",
  "A Cascade over storage of the user holds, after any history, the sections, gain and report of the last accepted layout, changed only by the scales and coefficients given since; refused layouts and queries change nothing, and no other storage is touched. A filter made from PoleFilter with a design class of the user has, after any history, the coefficients, response and report of its last accepted design, keeps its delay lines over designs and refused designs, and can be reset, copied, moved, assigned and swapped like the library's classes.",
  [H, I], "all histories up to a depth over 26 calls of a cascade with three storages and nine layouts (accepted, refused, empty, too big); all histories over 18 operations of twelve own filters (four transforms, three structures)",
  "Tests only use the designs of the library.",
  ["iir/Cascade.h", "iir/Cascade.cpp", "iir/PoleFilter.h", "iir/PoleFilter.cpp", "iir/Layout.h", "iir/Biquad.cpp", "iir/Types.h"],
  [("storage of the user", "Cascade::Storage, setCascadeStorage in iir/Cascade.h"), ("layout to sections", "Cascade::setLayout in iir/Cascade.cpp"), ("glue of design, storage and states", "PoleFilter in iir/PoleFilter.h")],
  MC + "all operation sequences to a depth against a list of rational functions and against twins with state equations",
  "The model realises a layout from its poles and zeros; designs are compared with a new object of the same design. A copied Cascade shares its storage by design and is not explored on its own.",
  "histories of length 4", "histories of length 5")
p("C40", "Poles, zeros and layouts are described truthfully",
  "A pair of poles or zeros says of itself exactly whether it is real, matched (two reals or a conjugate pair), NaN or single, and a single complex number is refused unless it is real. A layout holds, after any history of calls, exactly the poles and zeros added and accepted since its last reset, in order, with its normalisation; NaN, unmatched or non-real single entries and anything after a first order section are refused without effect, and no pair beyond the last can be read.",
  [H, I], "all products of real and imaginary parts from an alphabet of doubles; all histories of a depth over 20 calls of a layout with two storages",
  "Tests never use pairs or layouts.",
  ["iir/Types.h", "iir/Layout.h", "iir/MathSupplement.h"], [("predicates of pairs", "ComplexPair, PoleZeroPair in iir/Types.h"), ("poles and zeros of a filter", "LayoutBase in iir/Layout.h")],
  MC + "all products of parts, and all call sequences to a depth against a list of pairs",
  "Adding to a full layout is the caller's fault and not explored; the normalisation after a reset is not specified. The mathematical helpers (asinh, addmul, infinity, constants) are evaluated on a grid.",
  "110 complex numbers squared, 9^4 pole/zero pairs, histories of length 4", "256 complex numbers squared, histories of length 5")

# dense lines: one argument in small steps, the others stand still (denseLines in harness/core.hpp)
for ids, q, t in [
  ("C03", "dense lines: every argument in 4000 small steps over its legal range, in 20000 over its illegal one, 66000 illegal orders of either sign", "dense lines of 20000 (200000) steps"),
  ("C04", "dense lines: every argument in 20000 small steps over the whole range of double", "dense lines of 200000 steps"),
  ("C06", "dense lines: every argument in 4000 steps, another sampling rate each time; all whole sampling rates to 200000 and 50000 between 1e-6 and 1e12", "dense lines of 20000 steps, whole rates to 1000000"),
  ("C07", "dense lines: every argument in 4000 small steps, 3 bases", "dense lines of 20000 steps"),
  ("C08", "dense lines: each coefficient, a0 and the size of the samples (1e-280 to 1e280) in 40000 steps", "dense lines of 400000 steps"),
  ("C10", "dense lines: every argument in 4000 small steps, with samples of another size each time", "dense lines of 20000 steps"),
  ("C11", "samples of 30000 sizes between 1e-320 and 1e308 before the reset", "300000 sizes"),
  ("C12", "dense lines: a running filter swept through every argument in 2000 small steps, each setup given twice", "dense lines of 8000 steps"),
  ("C18", "100000 to 400000 sizes of samples, response at 100000 frequencies", "ten times as many"),
  ("C19", "dense lines: every argument in 3000 small steps, frequencies in 40000 steps, section coefficients in 100000 steps", "dense lines of 20000, 400000 and 1000000 steps"),
  ("C20", "dense lines: every argument in 2000 small steps, section coefficients in 100000 steps", "dense lines of 12000 and 1000000 steps"),
  ("C21 C22 C23 C24 C25", "dense lines: every argument in 12000 small steps from 2 or 3 bases, orders to 9", "dense lines of 60000 steps, orders to 12"),
  ("C26", "dense lines: every argument in 12000 small steps, orders to 12", "dense lines of 60000 steps"),
  ("C27", "all 65536 samples of 16 bits and 65536 of each other type in small steps", "2000000 samples of each type"),
  ("C28", "dense lines: every argument in 1600 small steps; 20000 amplitudes between 1e-240 and 1e260; 2^24 samples", "dense lines of 8000 steps, 200000 amplitudes; 2^27 samples"),
  ("C29", "dense lines: each argument of each coefficient call in small steps", "finer lines"),
  ("C32", "dense lines: frequencies, widths, poles and zeros of two prototypes in 6000 small steps", "dense lines of 60000 steps"),
  ("C34", "dense lines: every argument in 2400 small steps, the orders in turn", "dense lines of 8000 steps")]:
  for i in ids.split():
    P[i]["quick"] += "; " + q; P[i]["thorough"] += "; " + t
for i in "C03 C06 C07 C10 C12 C19 C20 C21 C22 C23 C24 C25 C26 C28 C34".split():
  P[i]["quick"] += "; a lattice of as many points over all arguments at once"
