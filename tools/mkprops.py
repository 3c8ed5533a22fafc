#!/usr/bin/env python3
# Generates /verif/properties.jsonl (single source for the property texts).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))

p("C01","Counter value, high and low follow every call sequence",
 "After any sequence of Set, Inc, Dec and Reset calls, a Counter's current value is the 64-bit arithmetic result of those calls, and its high and low are exactly the largest and smallest values it has been given since construction or the last Reset (its initial 0 does not count). Set and Reset return the values held just before them, Inc and Dec the value just after, and reading never changes anything. Stats reports exactly these numbers as high, low and value, with NaN for high and low while nothing has been recorded.",
 ["inputs","histories"],"every sequence of operations with every int64 argument",
 "No existing test touches Counter; the result depends on the order of operations and on signs and overflow of the arguments.",
 ["counter.go"],[("update of val/low/high/nonempty","counter.go set, Set, Inc, Dec, Reset")],
 [("val, low, high, nonempty","running value and extremes","counter.go Counter")],["Counter.Current/High/Low/Reset/Stats"])

p("C02","Distribution aggregates are exact for every observed sequence",
 "For int64, float64 and duration distributions alike, after any sequence of observed values Count, Sum, Low, High, Recent and FullAverage are exactly the count, sum, minimum, maximum, last value and mean (Sum/Count, 0 when empty) of the values observed since construction or the last Reset, regardless of how many quantile queries were made in between. A Copy taken at any moment has the same aggregates and is independent of later changes to the original. Stats reports count, and once something was observed also sum, min, max and recent, with those same numbers (durations in seconds).",
 ["inputs","histories"],"every sequence of inserts, queries, copies and resets with every value",
 "There is no test of any distribution; first-insert, negative-value, overflow and after-reset cases depend on the history.",
 ["distgen.go.m4","intdist.go","floatdist.go","durdist.go","dist.go","val.go"],[("Insert/Reset/Copy/FullAverage/Stats","intdist.go, floatdist.go, durdist.go"),("toFloat64","dist.go")],
 [("Low, High, Recent, Count, Sum","aggregates","intdist.go IntDist")],["IntDist/FloatDist/DurationDist fields, FullAverage, Copy, Stats; IntVal/FloatVal/DurationVal Stats"])

p("C03","Quantiles come from the sample, ordered and within its range",
 "For every 0 <= q <= 1, Query(q) returns, without panicking, the linear interpolation at rank q*(n-1) of the sorted sample of n values held (values are kept in float32 precision), so Query(0) and Query(1) are the sample's smallest and largest value and Query is non-decreasing in q; with nothing observed since construction or the last Reset it is 0. While at most 64 values were observed the sample is exactly the values observed since the last Reset; afterwards it always consists of 64 of the observed values, where each new observation either replaces one of them or is not kept (with Window set to 64, the size of the sample, it is always kept). ReservoirAverage is the mean of that sample.",
 ["inputs","histories"],"every observation sequence, every random choice of the sampler, every q",
 "No test inserts into a distribution; which values survive depends on the random sampler and on interleaving of queries (which sort the sample) with inserts.",
 ["distgen.go.m4","intdist.go","floatdist.go","durdist.go","rng.go"],[("reservoir sampling in Insert","intdist.go Insert"),("sorted interpolation","intdist.go Query")],
 [("reservoir, sorted","sample and whether it is sorted","intdist.go IntDist")],["Query, Quantile, ReservoirAverage, Stats rmin/ravg/r10/r50/r90/r99/rmax"])

p("C04","Meters never lose or invent events as time passes",
 "At every moment a Meter's Total equals the total it was last set or reset to (0 at construction) plus all amounts marked since construction (or since the last Reset), however many ticks of the sliding window happened in between; a Reset forgets everything before it. Its Rate is the amount marked in the retained window divided by the seconds since that window began (0 if no time has passed), and a DiffMeter reports the difference of the two meters' rates and totals.",
 ["inputs","histories","schedules"],"every sequence of Mark, Mark64, SetTotal, Reset and ticks, every amount, every clock",
 "No test marks a meter, and the window only moves every ten minutes.",
 ["meter.go"],[("bucket shift with carry into total","meter.go tick"),("sum over buckets","meter.go stats")],
 [("total, slices","carried total and window buckets","meter.go Meter")],["Meter.Rate/Total/Stats, DiffMeter.Stats"])

p("C05","Every monitored call is accounted exactly once",
 "Each monitored call (Task or FuncStats.Observe) increases the concurrent count while it runs and, when it ends, adds exactly one to exactly one of: successes, the count of its error's name, or panics; its duration goes to the success times or the failure times accordingly. A panic is re-raised with the same value after being counted and an error is never swallowed or altered. Current always equals the number of started-but-not-ended calls, Highwater the maximum Current has reached, and Stats reports successes, errors, panics, failures = errors+panics and total = successes+failures, consistent with those, and the times as series of their own, under the measurement with _times appended and tagged kind=success or failure. Parents lists each function that has called the function so far exactly once (nil for calls without a local parent) and nothing else.",
 ["inputs","histories","schedules"],"every sequence and interleaving of starting and ending calls with every outcome (nil, any error, panic, nil error pointer)",
 "Tests run one or two successful tasks and one error; panics, mixed histories and overlapping calls are not covered.",
 ["funcstats.go","ctx.go","func.go"],[("start/end accounting","funcstats.go start, end"),("recover and re-panic","ctx.go newSpan exit, funcstats.go Observe")],
 [("current, highwater, errors, panics, successTimes, failureTimes","per-function accounting","funcstats.go FuncStats")],["FuncStats accessors, Stats, Func.Parents"])

p("C06","The live span tree shows exactly the spans still running",
 "At any quiescent moment, walking all spans of a Registry visits every started-but-unfinished span exactly once and no finished one: a span with a running parent appears among that parent's children, and a span without a parent, or whose parent has finished, appears as a root span (and reports Orphaned in the latter case). When every span has ended nothing remains, and a Trace's span count is the number of its unfinished spans. This holds for every nesting and for every order and interleaving in which parents and children start and finish.",
 ["schedules","histories"],"every nesting, every finish order, every interleaving of span starts and ends",
 "The only test nests spans in one goroutine in stack order; orphaning needs a parent that ends before or while its child starts or ends.",
 ["ctx.go","span.go","spanbag.go","registry.go","trace.go"],[("orphaning under the span lock","span.go addChild/orphan, ctx.go exit"),("child bag","spanbag.go"),("root and orphan sets","registry.go")],
 [("done, orphaned, children","span state","ctx.go Span"),("spans, orphans","registry's live roots","registry.go")],["Registry.RootSpans/AllSpans, Span.Children/Orphaned, Trace.Spans"])

p("C07","Spans inherit trace, parent and context values correctly",
 "A task started with a context that carries a span gets that span's trace and reports it as its parent; without one it starts a fresh trace with no parent. ResetTrace always starts a fresh trace without a parent, RemoteTrace uses the given trace and reports the given parent id, and a context passed through ResetContextSpan carries no span. The context handed on carries the new span while every other value, cancellation and deadline stays visible; a nil context pointer is accepted and left alone, and Args and Annotations give back what was supplied, in order.",
 ["inputs","histories"],"every chain of context derivations and task starts of each kind",
 "Tests start plain nested tasks only; the combinations of remote, reset and derived contexts are not exercised.",
 ["ctx.go","span.go","task.go"],[("parent/trace selection","ctx.go newSpan"),("context value lookup","span.go Value, ctx.go resetContext")],(),["SpanFromCtx, Span.ParentId/Trace/Value/Args/Annotations"])

p("C08","Observers see every span exactly once, until cancelled",
 "A span observer registered on a trace is told of each span that starts afterwards exactly once and of each span that finishes afterwards exactly once (with that span's error and panic flag), until its cancel function is called, after which it is told of nothing new; cancelling one observer never affects another, and contexts returned by observers are threaded through to later observers and to the task. A trace observer registered on a Registry is called exactly once for every trace started while it is registered. This holds for every order and interleaving of registering, cancelling, starting and finishing.",
 ["schedules","histories"],"every sequence and interleaving of registrations, cancellations (also repeated) and spans",
 "One test registers an observer late on a single goroutine and never cancels.",
 ["trace.go","ctx.go","registry.go"],[("lock-free observer list","trace.go ObserveSpansCtx/removeObserverFrom"),("watcher list","registry.go ObserveTraces/updateWatcher")],
 [("spanObservers","observer list of a trace","trace.go Trace"),("traceWatchers","trace observers","registry.go")],["SpanObserver callbacks, ObserveTraces callback"])

p("C09","Concurrent use of metrics loses no update and has no data race",
 "Counters, meters, value distributions, bool and struct values, timers and function statistics may be updated, read and reported from any number of goroutines at once: no update is lost or counted twice, every number read is one that some sequential order of the calls explains (for counters, meters, distributions and timers each report as a whole is), and no two accesses to shared memory conflict without synchronisation. The same goes for reporting or formatting series keys and tags that are shared between goroutines.",
 ["schedules"],"every interleaving of two or three goroutines operating on the same metric",
 "Tests are single-threaded and no test uses the race detector on these types.",
 ["counter.go","meter.go","val.go","timer.go","funcstats.go","funcset.go","tags.go","transform.go"],[("mutexes and atomics around each state","counter.go, meter.go, val.go, timer.go, funcstats.go, funcset.go")],(),["public accessors after joining the goroutines"])

p("C10","Same name and tags give the same metric, always and only",
 "Asking a Scope for a metric of some kind with the same name and the same tags always returns the same object, also when several goroutines ask for the first time at once, and a different name, tag key or tag value always gives a different object. Asking for a name and tags already used for a metric of another kind panics instead of returning a wrong object, and asking a Registry for a scope name always returns the one Scope of that name. Tasks and functions are kept apart from other metrics of the same name.",
 ["inputs","schedules","histories"],"every pair of names and tag lists (bounded length), every interleaving of first uses",
 "Tests never ask twice for the same metric except through Task, and never concurrently.",
 ["scope.go","registry.go"],[("double-checked get-or-create","scope.go newSource"),("identity key","scope.go sourceName"),("scope table","registry.go ScopeNamed")],
 [("sources","metrics by identity","scope.go Scope")],["Scope.Counter/Meter/IntVal/.../FuncNamed, Registry.ScopeNamed"])

p("C11","Series keys are immutable, canonical and unambiguous",
 "Setting tags on a tag set or series key yields one holding all previous tags with the given ones added or overwritten (the last of equal keys wins) and leaves the original unchanged. Its text form lists the tags sorted by key as key=value joined by commas after the measurement, then a space and the field, with every comma, space and (in tags and fields) equals sign escaped by a backslash; it depends only on the contents, not on how they were built. Two keys (measurement, tags, field) without backslashes have the same text only if they are equal.",
 ["inputs","histories"],"every measurement, tag and field string up to the stated length, every order of setting them",
 "The tests use digit-only keys and values and never look at the text form.",
 ["tags.go","stats.go"],[("copy on set","tags.go Set/SetTags/SetAll"),("escaping and sorting","tags.go writeTags/writeTag/writeMeasurement"),("cached text","tags.go String")],
 [("all, str","tags and cached text","tags.go TagSet")],["TagSet.Get/All/Len/String, SeriesKey.String/WithField"])

p("C12","A registry's stats contain every source exactly once, scoped",
 "Reporting a Registry's (or Scope's) stats calls every metric, gauge and chained source of every scope exactly once and passes on each of its values unchanged, with the scope's name added as the scope tag; re-registering a gauge replaces the earlier one of that name, while chained sources accumulate. Scopes are visited in name order, Funcs visits every function exactly once, and transformers added by WithTransformers apply only to the registry it returned, the last added one first. Collect returns exactly the reported values keyed by their text form.",
 ["inputs","histories"],"every population of scopes, metrics, gauges and chains",
 "One test collects stats of a single function and event.",
 ["registry.go","scope.go","stats.go","transform.go"],[("snapshot and iterate","scope.go Stats/allNamedSources, registry.go Scopes/Stats")],(),["Registry.Stats/Scopes/Funcs, Scope.Stats, Collect"])

p("C13","Delta transformer reports the exact change of every total",
 "A DeltaTransformer passes every reported value through unchanged and in order, and after each total it has seen before for the same series it additionally reports a delta equal to the new total minus the previous one for that series, and nothing else. Different series (as told apart by their text form) never influence each other, and different transformers are independent.",
 ["inputs","histories"],"every sequence of reports over any series, fields and values",
 "No test covers transformers.",
 ["transform.go"],[("last total per series","transform.go DeltaTransformer.Transform")],[("lastTotals","previous totals","transform.go DeltaTransformer")],["callback of a transformed StatSource"])

p("C14","Struct stats report every numeric and bool field, never panic",
 "Reporting a struct (directly or through StructVal, by value or by pointer) yields one value for each field convertible to float64 (its numeric value) or bool (1 or 0), following pointers and nested exported structs with dotted names, and skips fields tagged ignore. It never panics, whatever the field values are (without pointer cycles), including nil pointers, which are skipped; StructVal reports the struct most recently observed.",
 ["inputs"],"every value of the fields, including nil pointers, for a family of struct shapes",
 "One test with one value; zero, negative and nil-pointer values are not covered.",
 ["struct.go","val.go"],[("reflective walk","struct.go StatSourceFromStruct/deref")],(),["StatSourceFromStruct(...).Stats, StructVal.Stats"])

p("C15","Errors are counted under the documented name",
 "The name an error is counted under is the one given by the most recently added handler that accepts it, else the name the error gives itself, else the documented name of the known io, context, errno and net errors, else System Error. Handlers are consulted newest first and only until one accepts.",
 ["inputs","histories"],"every combination of accepting and declining handlers and every kind of error",
 "Only one unnamed error is ever recorded by the tests and no handler is added.",
 ["error_names.go","error_names_net.go","error_names_syscall.go"],[("name lookup order","error_names.go getErrorName")],[("errorNameHandlers","registered handlers","error_names.go")],["FuncStats.Errors"])

p("C16","Ids are non-negative and do not repeat",
 "Whatever randomness the process starts with, every id handed out for functions, spans and traces is non-negative, and ids handed out one after another, or at the same time by different goroutines, are distinct.",
 ["inputs","schedules"],"every initial random seed, every interleaving of calls",
 "Tests run with one random seed and never compare ids.",
 ["id.go"],[("odd increment, atomic add","id.go NewId, init")],[("idCounter, inc","id generator state","id.go")],["NewId, Span.Id, Func.Id, Trace.Id"])

p("C17","Trace headers survive the round trip and bad ones are harmless",
 "Writing any TraceInfo to headers and reading it back gives the same trace id, parent id (when both are present) and sampled flag for every 64-bit id, and the same baggage for allowed keys (keys free of comma and equals sign, values free of comma); only allowed baggage keys are ever read. Reading any header values never panics, and a malformed traceparent yields an empty TraceInfo; without traceparent, a tracestate containing sampled=true requests sampling without ids.",
 ["inputs"],"every pair of 64-bit ids, every header string up to the stated length",
 "Tests use ids 1, 2 and 16 and well-formed headers only.",
 ["http/info.go"],[("formatting","http/info.go SetHeader"),("parsing","http/info.go TraceInfoFromHeader/hexToUint64")],(),["TraceInfo.SetHeader, TraceInfoFromHeader"])

p("C18","HTTP middleware propagates traces and records the status code",
 "A handler wrapped by TraceHandler runs inside a span on the trace and under the parent id named by the request's headers (a fresh trace when there is none), marked sampled exactly when the request asks for it; the response passes through unaltered (but for trace-id and child-id headers when sampling is requested without ids) and the span is annotated with the request URI, the allowed baggage and the status code last set (200 if none). TraceRequest runs the request (with or without headers of its own) in a span, adds headers that identify a sampled trace and none otherwise, and returns the client's response and error unaltered. The wrapped writer is a Flusher exactly when the original is, and panics in the handler still end the span and propagate.",
 ["inputs","histories","fault_sequences"],"every header combination, every sequence of writes and status codes, client errors and handler panics",
 "Tests cover a few fixed requests against a real server.",
 ["http/server.go","http/client.go","http/http.go","http/info.go"],[("request handling","http/server.go ServeHTTP, http/client.go TraceRequest"),("status recording","http/http.go Wrap")],(),["span annotations, response writer, outgoing headers"])

p("C19","Span collection returns exactly the watched subtree",
 "Collecting spans (CollectSpans, WatchForSpans or a SpanCollector) returns the triggering span and exactly those of its descendants, over the collected chain of parents, that finished after collection started and no later than it, each once, with the error, panic flag and finish time of each; other traces and later spans are never included. Done is closed exactly once, after the trigger finished or Stop was called, no matter how many spans start, finish or stop concurrently, and when watching ends nothing keeps being observed on its behalf; cancelling the context ends a watch with the context's error.",
 ["schedules","histories"],"every tree, finish order and interleaving of starts, finishes and stops",
 "There are no tests of the collect package.",
 ["collect/collect.go","collect/ctx.go","collect/trace.go"],[("trigger by compare-and-swap","collect/collect.go Start/Finish/Stop"),("parent index","collect/collect.go Spans"),("registration on all traces","collect/trace.go")],
 [("check, root, spansByParent","collector state","collect/collect.go")],["CollectSpans, WatchForSpans, SpanCollector.Spans/Done, FindSpan"])

p("C20","Every request path gets the documented report or a client error",
 "For every path and query, the request router returns either the report documented for that path with its content type, or an error that maps to 404 for an unknown path and to 400 for a trace request that lacks both regex and trace_id or has an invalid regex, trace_id or preselect value or a preselected regex that matches no function; it never panics. A trace_id is read as 64-bit hex, and extra or repeated slashes and further path elements do not change the report chosen. /trace/remote marks the trace it finds as sampled, tells the trace's callback once, and answers with the trace's id or, given a viewer, with a page that redirects to that viewer's address with the id added, whatever the address contains. The index links only to reports that exist.",
 ["inputs"],"every path and query string up to the stated length",
 "There are no tests of the present package.",
 ["present/path.go","present/errs.go","present/http.go"],[("routing","present/path.go FromRequest/shift"),("status mapping","present/errs.go getStatusCode")],(),["FromRequest, HTTP handler"])

p("C21","Reports are complete and well-formed for every content",
 "The JSON reports are valid JSON lists with one element per span, function or statistic, the dot reports are graphs in whose labels no name, argument, annotation or error text can end the label or add markup, and each live span, function or statistic appears exactly once in its report, in every format. A failing writer makes the report stop and return that error.",
 ["inputs","histories","fault_sequences"],"every name, annotation, statistic value (including NaN and infinities) and every point at which the writer fails",
 "There are no tests of the present package.",
 ["present/dot.go","present/json.go","present/funcs.go","present/spans.go","present/stats.go"],[("escaping","present/dot.go escapeDotLabel"),("list framing","present/json.go listWriter")],(),["StatsJSON/FuncsJSON/SpansJSON/SpansDot/FuncsDot/SpansText/FuncsText/StatsText output"])

p("C22","Trace drawing is total and keeps every bar inside the graph",
 "Rendering any list of finished spans as SVG never panics or loops, whatever their times, ids, parents and order (no spans, zero durations, missing or remote parents, children outliving parents). Each span is drawn once, as a bar at least one unit wide whose horizontal extent is (up to that unit) within the graph and proportional to its start and finish, and spans that overlap in time never share a row with one another. Its colour tells panicked, canceled, failed and successful spans apart, a line leads to its parent's bar, and its name, arguments, start and duration are shown as text: whatever bytes they contain, they cannot end the element, attribute or script string they stand in.",
 ["inputs","histories"],"every list of up to the stated number of spans with every start/finish time and parent structure",
 "There are no tests of the present package.",
 ["present/trace.go"],[("row layout","present/trace.go computeLayoutInformation"),("time scale","present/trace.go SpansToSVG timeToX")],(),["SpansToSVG"])

p("C23","A waiting trace query stays alive, stops on write error, ends clean",
 "While a trace query waits for its span it writes only keep-alive newlines; if such a write fails (or panics) the wait ends and that error is returned, and otherwise the result is the collected trace, still well-formed behind the newlines. A keep-alive reaches the client when it is written, not when the query ends, also through FromRequest and HTTP. Once the query has returned, no further write to the response happens and nothing stays registered, in every interleaving of keep-alives, span completion and failure.",
 ["schedules","fault_sequences"],"every interleaving of keep-alive ticks, write failures and the matching span",
 "Keep-alives happen every 30 s; nothing tests them.",
 ["present/utils.go","present/trace.go","present/path.go"],[("keep-alive loop and stop","present/utils.go keepAlive")],[("stopped, pingErr","keep-alive state","present/utils.go")],["TraceQueryJSON/TraceQuerySVG writes and result"])

p("C24","User callbacks may call back into the library",
 "Callbacks supplied by the user (stats callbacks, gauges, chained sources, transformers, error name handlers and self-naming errors, span and trace observers, span and function visitors) run without any internal lock held: they may use the same metric, function, span, scope or registry again, and they may panic, without deadlocking or leaving anything locked afterwards.",
 ["histories","schedules","fault_sequences"],"every callback kind re-entering every operation or panicking",
 "No test re-enters the library or panics from a callback.",
 ["counter.go","meter.go","val.go","timer.go","funcstats.go","scope.go","registry.go","span.go","trace.go","error_names.go","transform.go"],[("copy under lock, call outside","each Stats/Iterate method")],(),["completion of the re-entrant call and of a later call"])

p("C25","Environment statistics report each observation once and truthfully",
 "The environment sources report what the system returned at that moment under the documented names and omit what could not be read; each garbage-collection pause is counted at most once in the pause distribution, however often and from however many goroutines statistics are read. Process name, file-descriptor count and other system data never make a report fail or panic.",
 ["inputs","histories","schedules"],"every answer of the system (values and errors) and every number of reads",
 "Tests only check that the fd count and binary can be read once.",
 ["environment/runtime.go","environment/os.go","environment/os_unix.go","environment/process.go","environment/proc_linux.go","environment/rusage.go","environment/env.go"],[("pause de-duplication","environment/runtime.go"),("error checks","environment/*.go")],(),["StatSource returned by Runtime/OS/Process/Proc/Rusage, Register"])

p("C26","Functions and packages are named after the code that calls",
 "For every fully qualified Go function name, the automatically chosen function name is the part after the package (everything after the first dot behind the last slash) and unknown when there is none, and the scope name is the package path (preceded by a slash when the path has none). The name is that of the function that makes the call, not of one further up or down. A Task resolves its function once, on first use, and keeps reporting to it even when first used by several goroutines at once.",
 ["inputs","schedules"],"every function name up to the stated length, every interleaving of first uses",
 "Seven fixed names are tested.",
 ["callers.go","ctx.go","task.go","scope.go"],[("name splitting","callers.go extractFuncName/callerPackage"),("one-time resolution","ctx.go Scope.Task")],(),["Scope.Name, Func.ShortName/FullName, Task.Func"])

p("C27","Timers and bool values record each observation exactly once",
 "A running timer adds exactly one duration to its Timer, the elapsed time at its first Stop, however often and concurrently it is stopped, and every Stop returns the time elapsed since the start. A BoolVal reports how many trues and falses were observed, their difference as disposition, and the last observed value as recent.",
 ["inputs","histories","schedules"],"every sequence and interleaving of starts, stops and observations, every clock",
 "No test covers timers or bool values.",
 ["timer.go","val.go"],[("stopped flag under the lock","timer.go RunningTimer.Stop"),("atomic counts","val.go BoolVal")],(),["Timer.Values/Stats, RunningTimer.Stop, BoolVal.Stats"])

p("C28","Measured times follow the monotonic clock, never the wall clock",
 "Setting the system's wall clock forth or back, at any time and by any amount, changes nothing that is measured: two readings of the library's clock are as far apart (also as shown, in Unix time) and in the same order as the monotonic time between them, and durations of spans and calls, start and finish times relative to one another, timer values, meter rates, elapsed times in reports and drawings and the process uptime are the monotonic time passed.",
 ["inputs","histories","fault_sequences"],"every jump of the wall clock at every point of a measurement",
 "Tests cannot set the system clock.",
 ["monotime/monotime.go","monotime/monotime_fallback.go","ctx.go","span.go","timer.go","funcstats.go","meter.go","environment/process.go"],[("start reading plus elapsed monotonic time","monotime/monotime.go Now")],[("initTime","the first reading","monotime/monotime.go")],["monotime.Now, Span.Duration/Start, Timer values, FuncStats times, Meter.Rate, reports"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
