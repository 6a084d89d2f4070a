#!/usr/bin/env python3
# Writes properties.jsonl (kept as a generator so that long statements stay readable).
import json
M="ColorMagic/manipulation/"; S="ColorMagic/spaces/"; U="ColorMagic/utils/"
ALLM=[M+x for x in ("color_converter.cpp","chromatic_adaptation.cpp","color_adjustments.cpp","color_blend.cpp","color_blend.h","porter_duff.cpp","base_color_blend.h","color_calculation.cpp","color_combinations.cpp","color_distance.cpp")]
ALLS=[S+x for x in ("color_base.h","rgb_color_space_definition.h","gamma.h","white_point.h","rgb_truecolor.cpp")]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                     mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook))
L=[]
L.append(p("P01","Concurrent callers sharing inputs never disturb each other",
 "Any number of threads may call value-returning operations (conversion, adaptation, adjustment returning a new colour, combination, arithmetic, distance, blending, Porter-Duff, hex parsing, presets, predefined colours, gamma evaluation, matrix arithmetic, copying) at the same time on shared colours, colour-space definitions, white points, gamma curves and matrices that nobody mutates. Under every interleaving each call has exactly the outcome (value bit for bit, or exception) it has when run alone in a fresh process, and no two calls make conflicting unsynchronised accesses to the same memory.",
 ["schedules","inputs"],"every interleaving of 2..4 caller threads at memory-access granularity, every operation mix, every assignment of shared inputs",
 "The suite is single-threaded: it executes no interleaving at all, and a hidden shared scratch buffer or cache is invisible to it.",
 ALLM+ALLS+[U+"matrix.h",U+"colors.h"],
 [("operations keep all intermediate state in locals or fresh heap objects",M+"color_converter.cpp"),("adaptation matrices are only read after start-up",M+"chromatic_adaptation.cpp")],
 [("adaptation matrices","process-wide tables read by every adaptation",M+"chromatic_adaptation.cpp:4")],["return value/exception of every public call","memory accesses of the compiled library"]))
L.append(p("P02","A call's outcome depends only on its arguments",
 "Repeating a call with equal argument values (and, for dissolve blending, the same random draws) gives the bit-identical outcome no matter which calls came before it in the process or thread, how often, which of them failed, what freed or never-written memory happens to contain, where objects live or lived, or what the clock says. In particular, an argument object that was modified, reassigned, or destroyed and replaced by another object at the same address is always seen with its current value.",
 ["histories","inputs","fault_sequences"],"every history of preceding calls, argument mutations, object destructions and address reuse; every heap and stack content; every clock",
 "Tests call each function a few times on fresh objects in one fixed order with benign memory; stale caches, counters, uninitialised reads and address-keyed state need a particular history or memory content.",
 ALLM+ALLS+[U+"matrix.h"],
 [("no operation keeps state between calls",M+"color_converter.cpp"),("matrix storage is value-initialised",U+"matrix.h")],(),["return value/exception of every public call"]))
L.append(p("P03","Value-returning calls never modify their arguments",
 "No operation that returns its result (as opposed to setters, assignment and the adjustments that take their colour by reference) changes any colour, definition, white point, gamma curve or matrix passed to it or reachable from it, not even temporarily while the call is running, and whether the call succeeds, reports an error, runs out of memory at any point or is aborted by an exception from a user-supplied gamma or blend function.",
 ["schedules","inputs","fault_sequences"],"every operation and input; every instant inside the call at which another caller could look; every allocation failure or gamma exception inside the call",
 "Tests compare results, not the arguments afterwards, never look at arguments in mid-call, and inject no faults.",
 ALLM+ALLS+[U+"matrix.h"],
 [("conversions construct new objects",M+"color_converter.cpp"),("adaptation retargets a copy of the definition",M+"chromatic_adaptation.cpp"),("general compositing writes only its result",M+"base_color_blend.h")],(),["argument objects' memory during and after each call"]))
L.append(p("P04","Running out of memory in any call is reported and harmless",
 "If any memory allocation made during a call fails, the call either still delivers its normal outcome or throws std::bad_alloc - it never returns a null, partial or different result, never terminates the process, and never touches memory it does not own. Afterwards every argument and every other object still has its value, and the same call made again with memory available has its normal outcome.",
 ["fault_sequences","inputs","histories"],"every operation and input, every allocation index inside it, single failures, bursts and failures by size, any history of earlier failures",
 "Tests never make an allocation fail.",
 ALLM+ALLS+[U+"matrix.h"],
 [("all results and temporaries are heap objects obtained by throwing new",M+"color_converter.cpp"),("standard containers release on unwinding",U+"matrix.h")],(),["outcome of the failed call","objects after it","outcome of the retry"]))
L.append(p("P05","Mutations of matrices, definitions, curves, colours are all-or-nothing",
 "Assigning, resizing or compound-updating a matrix, retargeting a colour-space definition to another white point, assigning or extending a gamma curve, assigning or adjusting a colour in place and applying a gamma curve to a colour in place either complete, or throw (out of memory or an exception from a user gamma function) and leave the object with exactly its previous value, fully usable. After any history of such operations and of copying, a definition's white point, forward and inverse matrices equal those of a definition freshly built from the same primaries and its current white point, a matrix's shape matches its contents, gamma parts are in border order, and a mutation of one object never changes a copy of it.",
 ["histories","fault_sequences","inputs"],"every sequence of mutations, copies and failures; every failure point inside each mutation",
 "Tests mutate objects once, successfully; a half-applied mutation only exists when a failure lands between two particular writes.",
 [U+"matrix.h",S+"rgb_color_space_definition.h",S+"gamma.h",S+"color_base.h",S+"white_point.h",M+"color_adjustments.cpp"],
 [("matrix assignment and resize",U+"matrix.h:119"),("white point setter recomputes both matrices",S+"rgb_color_space_definition.h"),("gamma assignment and part insertion",S+"gamma.h"),("in-place adjustment assigns a finished result",M+"color_adjustments.cpp:4"),("in-place gamma application",S+"color_base.h")],
 [("definition","primaries, white point, forward and inverse matrix",S+"rgb_color_space_definition.h"),("matrix","row count, column count, values",U+"matrix.h")],["getters of the mutated object after each step"]))
L.append(p("P06","User functions may throw, call back in, or stall at any time",
 "When a user-supplied gamma or blend function throws during an operation, that same exception reaches the caller of the operation unchanged, all arguments keep their values, and later calls are unaffected. Such a function may itself call any library operation (including one on the same objects), and both the inner and the outer call have their normal outcome; a caller that is held up inside its gamma or blend function does not keep other callers from completing theirs.",
 ["fault_sequences","schedules","inputs"],"every operation that evaluates a gamma curve or a custom blend function, every invocation index at which the function throws, re-enters or stalls, every nested operation, every interleaving with other callers",
 "Tests only use well-behaved preset curves that return immediately.",
 [S+"gamma.h",S+"color_base.h",S+"rgb_color_space_definition.h",M+"color_converter.cpp",M+"base_color_blend.h"],
 [("curve evaluation calls the user function directly, without locks or handlers",S+"gamma.h"),("conversion to and from XYZ applies the curve",M+"color_converter.cpp")],(),["exception at the API boundary","outcome of nested and concurrent calls"]))
L.append(p("P07","Dissolve picks whole channels by chance and weight, reproducibly",
 "For every sequence of values the C library's process-wide random generator can deliver, dissolve blending equals source-over-style compositing in which each channel of the overlap independently is exactly the source's or exactly the destination's channel, and the result alpha does not depend on chance. With a fair generator the colour with the greater opacity (the destination on a tie) supplies three quarters of the channels, opacity being compared on one scale whatever the colour types; the same generator sequence gives the same result, and no other operation draws from, and none reseeds, that generator.",
 ["fault_sequences","inputs","histories"],"every random stream (fair, constant, extreme, periodic), every pair of colours, types and region flags, any interleaving of other operations",
 "No test calls dissolve: its outcome is random, so a test cannot pin it without controlling the generator.",
 [M+"color_blend.h",M+"color_blend.cpp",M+"base_color_blend.h"],
 [("per-channel choice",M+"color_blend.h:647"),("opacity comparison",M+"color_blend.cpp:24"),("compositing of the three areas",M+"base_color_blend.h")],
 [("C library random generator","process-wide source of randomness","rand()")],["result channels against the supplied random stream"]))
L.append(p("P08","Every result is an independent object",
 "The colours, definitions, curves, white points and matrices a call creates stay valid and keep their values through any later history: further calls (also failing ones), mutation or destruction of the argument colours, and mutation or destruction of other results. A returned colour is either one of the call's own argument objects (same-type conversion, no-op adjustment or adaptation, base colour of a combination) or an object that no earlier result, later result or other caller shares; mutating it never changes what any other call returns.",
 ["histories","schedules","inputs"],"every sequence of calls, mutations and destructions of results and argument colours, in any order",
 "Tests look at a result immediately after the call and throw it away.",
 ALLM+ALLS+[U+"matrix.h",U+"colors.h"],
 [("each result is allocated by the call that returns it",M+"color_converter.cpp"),("containers are returned by value",S+"gamma.h")],(),["all retained results after every step"]))
L.append(p("P09","Every call finishes in bounded steps and no caller can block another",
 "For every argument value (including huge, negative, infinite and not-a-number components, angles, amounts and weights) and every fault, a call finishes within a fixed number of execution steps plus a fixed number per colour it is given or asked to produce. When several threads call concurrently and any of them are suspended at arbitrary points for arbitrarily long, all calls complete once they are resumed: no schedule deadlocks or livelocks.",
 ["schedules","inputs","fault_sequences"],"every argument value, every schedule with suspensions at arbitrary points, every fault sequence",
 "Tests use ordinary values on one thread; a loop that needs millions of turns for an extreme angle, or a lock cycle, never shows.",
 ALLM+[S+x for x in ("hsl.cpp","hsv.cpp","hsi.cpp","hcy.cpp","color_base.h","gamma.h","rgb_color_space_definition.h")]+[U+"matrix.h"],
 [("hue normalisation reduces modulo a full turn before looping",S+"hsl.cpp"),("operations take no locks",M+"color_converter.cpp")],(),["executed basic blocks and memory accesses per call"]))
L.append(p("P10","Calls leave the process's ambient state alone",
 "No operation, successful or failing, changes the floating-point environment's rounding or trap settings, the C or C++ locale, environment variables, signal dispositions, the new/terminate handlers or the random seed, not even between entry and exit where another thread could see it, and none writes to the standard streams, opens files or creates threads.",
 ["histories","schedules","fault_sequences"],"every operation, input and fault, observed at entry, exit and at arbitrary instants in between",
 "Tests do not look at ambient state, and a change-and-restore is invisible without looking in mid-call.",
 ALLM+ALLS+[U+"matrix.h"],
 [("operations are plain arithmetic on their arguments",M+"color_converter.cpp")],(),["process-wide settings and interposed C library entry points"]))
def v(id,title,statement,files):
    return p(id,title,statement,["inputs"],"all input values","Tests sample a few dozen fixed colours.",files,[("arithmetic of the named functions",files[0])],(),["return values"])
L.append(v("V01","Conversions implement the published formulas in every direction","Converting any in-gamut colour between any two of the fifteen colour spaces gives the value the published definitions of those spaces prescribe, within float accuracy, through whichever entry point is used.",[M+"color_converter.cpp"]))
L.append(v("V02","Round trips through a lossless space restore the colour","Converting an in-gamut colour to any space of at least equal gamut and back restores it and its alpha within float accuracy, for every definition preset.",[M+"color_converter.cpp"]))
L.append(v("V03","Components stay inside their space's range","After construction, any setter or any operation, every component of a colour lies in the documented range of its space and hues are wrapped.",[S+"color_base.h",S+"hsl.cpp"]))
L.append(v("V04","Distances are metrics with the documented ranges","Each distance is zero for equal colours, non-negative, and (where documented) symmetric and within its stated range.",[M+"color_distance.cpp"]))
L.append(v("V05","Blend modes and Porter-Duff operators follow their formulas","Each separable blend mode, non-separable blend mode and Porter-Duff operator gives the channel values and alpha of its published formula for all colours and alphas.",[M+"color_blend.h",M+"porter_duff.cpp",M+"base_color_blend.h"]))
L.append(v("V06","Adaptation maps the source white to the target white","Every chromatic adaptation method maps the source white point to the target white point, and adapting there and back restores the colour.",[M+"chromatic_adaptation.cpp"]))
L.append(v("V07","Combinations keep saturation and lightness and space hues evenly","Colour combinations consist of the requested number of colours whose hues are spaced as documented with saturation and lightness unchanged.",[M+"color_combinations.cpp"]))
L.append(v("V08","Colour arithmetic respects weights","Weighted addition, subtraction and averaging give the documented weighted result in each space and reject weights outside [0,1].",[M+"color_calculation.cpp"]))
L.append(v("V09","Matrix algebra is correct for every shape","Determinant, inverse, transpose and products agree with linear algebra for every shape the operation accepts.",[U+"matrix.h"]))
L.append(v("V10","Gamma presets are inverse pairs and hex codes parse exactly","Each gamma preset's inverse curve undoes its curve on [0,1], and every valid hex code parses to the channels it spells while every other string is rejected.",[S+"gamma.h",S+"rgb_truecolor.cpp"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in L))
