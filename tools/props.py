import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
M="go/tricorder/metric.go"; A="go/tricorder/api.go"
p("C01","The registry behaves as one path tree under every history",
"After any history of registering metrics and directories (absolutely, relative to a directory handle, or through a group or directory group), unregistering paths or handles, and looking paths up, what is reported and found is exactly a path tree where each path holds at most one metric or directory: a path already holding something, or running through a metric, is refused as in use and nothing already there is disturbed, and unregistering removes exactly the named entry with everything below it. Paths that differ only in empty or blank components are the same path, unregistering the root does nothing, and a handle's absolute path is the path it was created under. What is registered through a handle whose directory was unregistered is never reported, and unregistering a stale handle never removes a newer directory at the same path.",
["histories","inputs"],"every finite sequence of register/unregister/lookup calls over any path strings and any live or stale handles",
"TestAPI walks one fixed hierarchy in one order and unregisters a handful of paths; stale handles, re-registration after unregistration and odd path spellings in combination are never sampled.",
[A,M],[("directory.createDirIfNeeded/storeMetric refuse occupied names","go/tricorder/metric.go"),("directory.removeChildDirectory compares identity","go/tricorder/metric.go"),("newPathSpec drops blank components","go/tricorder/metric.go")],
["ReadMyMetrics","GetDirectory","DirectorySpec.AbsPath","errors returned by Register*"],
[("directory.contents","name to entry map of one directory","go/tricorder/metric.go")])
p("C02","A refused registration returns the right error and leaves no trace",
"Registering something that is not a supported metric (nil, a non-pointer, a nil pointer, a pointer to an unsupported type, a nil function, a function that needs arguments or returns an unsupported type) is refused with the wrong-type error instead of succeeding or crashing the application then or at a later request, and registering a distribution under a unit other than the one it already has is refused with the wrong-unit error. A registration refused for any reason leaves no metric, creates no directory, and assigns no unit to a distribution. A distribution takes the unit of its first successful registration and keeps it.",
["inputs","histories"],"every Go value passed as a metric, every path, and every sequence of successful and refused registrations of the same distribution",
"The tests try two unsupported types (pointer to complex128, function returning complex128) and check only the error value.",
[A,M],[("newValue validates the registered value","go/tricorder/metric.go"),("distribution.SetUnit","go/tricorder/metric.go"),("directory.registerMetric","go/tricorder/metric.go")],
["errors returned by RegisterMetric","GetDirectory after a refusal","unit accepted by a later registration","ReadMyMetrics"])
p("C03","Every listing has exactly the metrics at or under the path, everywhere alike",
"For any tree of registered metrics and any requested path, the in-process, Go RPC, REST and plain-text listings each contain exactly the metrics at that path or below it (by whole path components), each once, depth first with names in order, leaving out only float metrics whose value is NaN or infinite; a path that does not exist lists nothing. Asking for a single metric returns it when the path is a metric and otherwise reports not found (RPC error, HTTP 404). All these interfaces agree with each other on the path, description, unit, kind, sub-type and bits of every metric.",
["inputs","configurations"],"every set of registered metrics, every query path and every one of the four interfaces",
"TestAPI queries one fixed tree and calls internal functions; the HTTP and RPC handlers have no tests at all.",
[M,"go/tricorder/rpc.go","go/tricorder/json.go","go/tricorder/html.go"],[("directory.GetAllMetricsByPath depth first traversal","go/tricorder/metric.go"),("collect drops non-finite floats","go/tricorder/metric.go"),("rpcType / jsonHandlerFunc / textEmitDirectoryOrMetric","go/tricorder/rpc.go, json.go, html.go")],
["ReadMyMetrics","MetricsServer.ListMetrics, GetMetric over net/rpc","GET /metricsapi/...","GET /metrics/...?format=text"])
p("C04","Go RPC and in-process reads report the current value in its documented type",
"For every supported metric (bool, every sized and unsized integer, floats, string, time, pointer to time, duration, and types defined from any of these except the time ones; given by pointer, by callback or as a list) a request reports the value the variable, callback or list has at that moment, with the documented kind, sub-type and bits and the registered unit and description, and carried in exactly the Go type documented for that kind. The same metric fetched over the Go RPC wire is identical to the one read in process. A nil time pointer is reported as the zero time. An answer of ReadMyMetrics stays as it was when returned, whatever is registered, changed or requested later.",
["inputs","histories"],"every supported type, every value of it, every sequence of changes to the variable",
"The tests register one variable per type with one value each, never a named type, and never send anything through net/rpc.",
[M,"go/tricorder/rpc.go","go/tricorder/messages/api.go"],[("newValue / getPrimitiveType","go/tricorder/metric.go"),("valueToInterface sizes plain ints","go/tricorder/metric.go"),("gob.Register calls","go/tricorder/messages/api.go")],
["ReadMyMetrics","MetricsServer.GetMetric","MetricsServer.ListMetrics"])
p("C05","REST responses are well-formed JSON that decodes to the exact current values",
"Every successful REST response is well-formed JSON in which each metric's fields decode, following the documented chart of kinds, to exactly its current value, unit, kind, sub-type, bits, path and description; times and durations are exact decimal strings with nine fractional digits in the metric's unit (milliseconds for that unit, otherwise seconds), a zero or nil time being 0, and empty lists are empty, never null. A metric whose value JSON cannot express (NaN or an infinity anywhere in it) is left out of listings and not found as a singleton, and never spoils the response for other metrics. A client that accepts gzip receives the same bytes compressed, every response carries the tricorder media type header and every successful one the JSON content type.",
["inputs","configurations"],"every set of metrics of every type and value, listing or singleton, with or without gzip",
"The REST handler has no test; only the conversion helper is tested, on a dozen fixed values.",
["go/tricorder/json.go","go/tricorder/http.go","go/tricorder/messages/metric.go",M],[("jsonMetricsCollector","go/tricorder/json.go"),("Metric.ConvertToJson","go/tricorder/messages/metric.go"),("gzipHandler","go/tricorder/http.go")],
["GET /metricsapi/..., body, status and headers"])
p("C06","The plain-text view shows every value exactly",
"In the plain-text view every listed metric is one record of its absolute path, a space and its value, and a single metric is just its value: integers, booleans and floats parse back to exactly the current value, strings appear verbatim in double quotes, times and durations are exact decimals with nine fractional digits in the metric's unit, and lists are the elements in order joined by '|'. A distribution shows its min, max, average, median, sum and count and exactly the non-empty buckets with their bounds and counts. A path that does not exist yields the does-not-exist message and no values.",
["inputs"],"every metric of every supported type and value, listed or fetched singly",
"Text rendering of a few scalars is tested through an internal method; the handler, lists in text and the distribution text format are not.",
["go/tricorder/html.go",M],[("textCollector / textEmitMetric / textEmitDistribution","go/tricorder/html.go"),("valueToTextString","go/tricorder/metric.go")],
["GET /metrics/...?format=text"])
p("C07","HTML pages show exactly the right metrics, safely escaped, with working links",
"The HTML page of a directory shows, in name order, exactly its direct metrics with path, value, type, description and unit, and for each direct sub-directory a link that leads to that sub-directory's page whatever characters its name has; the page of a metric shows that metric alone. No path, description, unit or string value, however chosen, adds markup to the page: tags depend only on the structure, and the text shown is the registered text. Every HTML and text response carries the security headers (frame denial, XSS protection, content security policy), and the style sheet pages link to and the /has-tricorder-metrics probe (\"true\") are served.",
["inputs"],"every tree shape and every (valid UTF-8) name, description, unit and string value, including markup and URL metacharacters",
"The HTML view has no test.",
["go/tricorder/html.go","go/tricorder/http.go"],[("htmlTemplate (html/template autoescaping)","go/tricorder/html.go"),("htmlView.Link","go/tricorder/html.go"),("setSecurityHeaders","go/tricorder/html.go")],
["GET /metrics/...","following each link in the page"])
p("C08","Human-friendly numbers in HTML are never misleading",
"On HTML pages an integer without unit is shown in full with a comma every three digits, and any other integer is shown in full below the radix (1024 for bytes and bytes per second, otherwise 1000) or else as a number of at least three significant digits with the correct sign and magnitude suffix that is the true value correctly rounded to the digits shown. A non-negative duration is shown truncated to the smallest unit displayed and its parts add up to it; a negative one is shown as an exact decimal in the metric's unit. A time is shown exactly, in UTC, to the nanosecond.",
["inputs"],"every int8..int64, uint8..uint64, every unit, every duration and time",
"Tests sample about forty numbers and twenty durations.",
[M,"go/tricorder/duration/duration.go"],[("iCompactForm / uCompactForm / addSeparators","go/tricorder/metric.go"),("Duration.prettyFormat","go/tricorder/duration/duration.go")],
["list items on the HTML page of a list metric","value on the HTML page of a metric","Duration.PrettyFormat"])
p("C09","Distribution statistics equal those of the values held, after any history",
"After any sequence of adds (and, for non-cumulative distributions, updates and removals of values held), with float32, float64 or, for time units, durations converted to the distribution's unit, the reported count, sum, average and per-bucket counts are (up to floating-point rounding) those of the multiset of values now held, each value counted in the one bucket whose half-open range contains it. Min and max bound all values held since the distribution was last empty, get tighter only by becoming empty or through UpdateMinMax (never past the current values), and the generation grows by exactly one per change and never otherwise. The non-cumulative flag is reported as created whether or not the distribution is empty, and values of unsupported types, values added before a unit is assigned, and durations added to a non-time unit are refused by panic without changing anything.",
["histories","inputs"],"every sequence of operations on either kind of distribution over any bucketer, values of which the caller really holds",
"Tests add 100 fixed values to three bucketers and update or remove in one fixed pattern; nothing empties and refills a distribution.",
[M,A],[("distribution.add/update/remove","go/tricorder/metric.go"),("findDistributionIndex","go/tricorder/metric.go"),("Snapshot","go/tricorder/metric.go")],
["messages.Distribution from ReadMyMetrics","NonCumulativeDistribution.Sum/Count"],
[("distribution.counts,total,min,max,count,generation","running statistics","go/tricorder/metric.go")])
p("C10","Bucketers have exactly the documented contiguous half-open ranges",
"An exponential bucketer has the requested number of buckets with endpoints start times powers of scale, a linear one endpoints start plus multiples of the increment, an arbitrary one exactly the given endpoints, and a geometric one the consecutive numbers 1, 2, 5 times powers of ten from the largest not above lower to the smallest not below upper. In every reported distribution the ranges are contiguous and in ascending order, the first unbounded below and the last unbounded above, and the predefined bucketers cover the documented powers. Arguments outside the documented domain panic instead of yielding a bucketer.",
["inputs"],"every count, start, scale, increment, endpoint list and lower/upper pair (geometric bounds within 1e-9..1e18; float rounding tolerated to 1e-9 relative)",
"Tests check four fixed bucketers.",
[M,A],[("newExponentialBucketerStream, newLinearBucketerStream, newGeometricBucketerStream, newBucketerFromEndpoints","go/tricorder/metric.go")],
["Ranges of a registered distribution"])
p("C11","The reported median is consistent with the data",
"The reported median of a non-empty distribution lies between its reported min and max and is exact for one or two values. For more values it lies within the bucket(s) holding the middle value(s) of the data: for an odd count inside the middle value's bucket range, for an even count between the averages of the lower and of the upper limits of the two middle values' buckets (limits clipped to min and max). Floating-point rounding is allowed for.",
["histories","inputs"],"every multiset of values, every bucketer, and any history of adds, updates and removals leading to it",
"Five tests check the median of small hand-picked data sets.",
[M],[("distribution.calculateMedian / indexToValue","go/tricorder/metric.go")],
["Median, Min, Max and Ranges from ReadMyMetrics"])
p("C12","Distributions stay correct and internally consistent under concurrent use",
"When any number of goroutines add, update, remove and read a distribution at once, no operation is lost or applied twice, and every reported snapshot corresponds to one instant: bucket counts add up to the count, and count, sum, average, min, max, generation and buckets all belong to the same set of completed operations. Successive reads never go back in generation. Concurrent use causes no data race.",
["schedules","histories"],"every interleaving of concurrent adds, updates, removals and reads through any interface",
"No test uses a distribution from more than one goroutine.",
[M],[("distribution.lock held over each operation and snapshot","go/tricorder/metric.go")],
["snapshots read concurrently","final statistics","race detector"])
p("C13","Lists report atomically the last slice they were given, immune to later edits",
"A list metric always reports exactly the elements, in order, of the slice it was created with or last changed to, with the sub-type and bits of its element type; slices of int and uint are reported as their sized types and an unsupported or differing element type panics leaving the list unchanged. If the slice was passed as mutable, later changes by the caller to it never show, and a result already handed out never changes. Under concurrent changes and reads every read sees one complete version together with that version's timestamp, without data race.",
["histories","schedules","inputs"],"every element type, every sequence of creations, changes, caller-side edits and reads, and every interleaving of Change with reads",
"Tests use fixed lists of five types and check one caller-side edit each; none is concurrent.",
[M,A],[("asSliceValue defensive copy","go/tricorder/metric.go"),("listType.lock","go/tricorder/metric.go")],
["ReadMyMetrics","GET /metricsapi/...","GET /metrics/...?format=text"])
p("C14","Each request sees one consistent, freshly updated view of every group",
"Under every interleaving of requests, a request that starts reading a group no other in-process request is reading makes the group's current update function run exactly once before any of the group's metrics is read; a request arriving while another is reading the group skips the update, sees the same data and timestamp, and is not held up. From its first read of a group to its end, however many metrics it reads, no update function of that group runs. Replacing an update function takes effect from the next update on and drops the previous one; reading one group never updates another nor waits for another's update, and an update function may itself read other groups and register or remove metrics.",
["schedules","histories"],"every interleaving of any number of listing or single-metric requests over any interface and any assignment of metrics to groups, with update functions replaced in between",
"TestAPI drives groups from a single goroutine with internal sessions opened by hand; no request handler and no real concurrency is involved.",
[M,A,"go/tricorder/html.go","go/tricorder/json.go","go/tricorder/rpc.go"],[("session.Visit/Close","go/tricorder/metric.go"),("region.handleLockUnlock event loop","go/tricorder/metric.go")],
["calls of registered update functions and callbacks","values and timestamps in the responses","race detector"],
[("region.lockCount","requests now reading the group","go/tricorder/metric.go")])
p("C15","However a request ends, it stops holding its groups",
"A request that ends early, because the client's connection fails at any point of the response or because a metric callback panics, stops counting as a reader of every group it touched, exactly like a request that completes: the next request to read such a group updates it again and completes with fresh values. This holds for single-metric and listing requests on every interface. The failure changes nothing that later requests report.",
["fault_sequences","histories"],"every write failure point and every panicking callback position, on every interface, in any sequence of requests",
"No test injects a failure.",
[M,"go/tricorder/html.go","go/tricorder/json.go"],[("defer s.Close() in every entry point","go/tricorder/metric.go, html.go")],
["number of update calls after the fault","values of the following request"])
p("C16","Converting metrics between JSON and Go RPC form loses nothing",
"For every metric of every kind, sub-type and unit, converting Go RPC form to JSON form and back yields the same value, kind, sub-type and timestamp, the only exception being that a zero time value comes back as the epoch; each conversion is idempotent and leaves every other field alone. A JSON-form time or duration (or list of them) whose value is not the string (or strings) its kind calls for, or not a decimal number, or a duration beyond what Go's can hold, and any metric whose timestamp is not a decimal number, is refused with an error and left completely unchanged. Nil lists become empty lists of the same type.",
["inputs"],"every kind, sub-type, unit, value and timestamp, and every malformed JSON-side value",
"Tests convert about fifteen fixed metrics and no malformed one beyond a few.",
["go/tricorder/messages/metric.go","go/tricorder/messages/api.go","go/tricorder/duration/duration.go"],[("asJson / asGoRPC","go/tricorder/messages/metric.go"),("convertToGoRPC assigns only after success","go/tricorder/messages/metric.go")],
["Metric.ConvertToJson","Metric.ConvertToGoRPC","AsJsonWithSubType"])
p("C17","Durations and times convert to text, units and floats exactly or to the nearest",
"For every Go duration and every time of the years 1 to 9999, the decimal text in any unit is the exact quantity with nine fractional digits and the right sign, parsing that text in the same unit gives back the same duration or instant, and parsing any decimal number (of a whole part within 64 bits) gives it truncated to whole nanoseconds. Conversion to float seconds is the nearest to double precision and back again restores a duration exactly up to 2^50 ns of either sign and a time within double precision plus one nanosecond. Strings that are not decimal numbers are refused.",
["inputs"],"all int64 durations, all times of years 1..9999, all units, all decimal strings, arbitrary byte strings",
"Tests check about forty hand-picked values, none negative through the float conversions.",
["go/tricorder/duration/api.go","go/tricorder/duration/duration.go","go/tricorder/units/api.go"],[("mult/div/convert","go/tricorder/duration/duration.go"),("parse","go/tricorder/duration/duration.go"),("FromFloat/ToFloat","go/tricorder/duration/api.go")],
["package duration API"])
p("C18","Value types are coherent and integers survive float conversion",
"For every metric type the type derived from its zero value, or from a slice of it, is that type (or a list of it), and the predicates on types (int, uint, float, bits, sub-type use, equality, float support) agree with the Go type carried; values of any other Go type are unknown, and types without a zero value or slice form give an error (or panic where documented), never a wrong value. Converting a value of a numeric type to float and back restores it exactly whenever a double can hold it, and converting any float within the type's range to an integer type rounds to the nearest integer, halves away from zero.",
["inputs"],"every type, every Go value, every float within range",
"Tests check a table of sample values; none above 2^33 or just below a half.",
["go/tricorder/types/api.go","go/tricorder/types/types.go","go/tricorder/messages/api.go"],[("FromGoValueWithSubType, SafeZeroValue, SafeNilSlice tables","go/tricorder/types/api.go"),("round","go/tricorder/types/types.go")],
["package types API","messages.ZeroValue"])
p("C19","Every application flag is reported live under /proc/flags",
"After RegisterFlags every flag defined on the command line whose name is a path component (not blank, no slash) appears under /proc/flags by its name, with its usage text as description and its current value in the type its getter yields (its string form when that type is not a supported one or it has no getter); setting the flag later changes what is reported. The unit is the one set for that flag beforehand, otherwise seconds for durations and none for the rest. Registering again neither fails nor disturbs what is registered.",
["inputs","histories"],"every set of flags of standard and custom types, with any names, usages, units, and any sequence of sets",
"TestAPI registers three flags once.",
[M,A],[("registerFlags / newValue for flag.Value / flagUnit","go/tricorder/metric.go")],
["ReadMyMetrics(\"/proc/flags\")"])
p("C20","Built-in process metrics tell the truth about the process",
"At every request the built-in metrics agree with what the operating system and the Go runtime report for the process at that moment: user and system CPU time, maximum resident set size in bytes, page faults, block I/O, context switches, goroutine count, open descriptors, memory total, Go version, program name, arguments joined by '|', and start time. They are present in every program that links the package, from start on, with the documented units. CPU times and counters never go backwards.",
["inputs","configurations"],"every argument vector and every workload the process ran before the request",
"No test looks at a built-in metric's value.",
["go/tricorder/setup.go","go/tricorder/wrapper/syscall_linux.go"],[("initDefaultMetrics","go/tricorder/setup.go"),("timeValToDuration","go/tricorder/setup.go"),("wrapper.Getrusage","go/tricorder/wrapper/syscall_linux.go")],
["ReadMyMetrics(\"/proc\") in child processes, bracketed by getrusage"])
p("C21","Health and readiness endpoints always answer the last state set",
"After any history of health and readiness changes, /healthz answers 200 \"OK\" if last set healthy (or never set) and otherwise 503 with the last status text, and /readiness likewise starting as 503 \"not ready\"; the two never influence each other, and a client that stalls, fails or aborts while being answered holds up nobody. An attempt to set an empty or \"OK\" failure status panics and changes nothing. Under concurrent changes and requests each answer is one of the states set, matching status code and text, and no data race occurs.",
["histories","schedules","inputs"],"every sequence and interleaving of the four setters with any status text and of requests to both endpoints",
"The package has no tests.",
["go/healthserver/api.go","go/healthserver/impl.go"],[("mutex-protected status","go/healthserver/impl.go")],
["GET /healthz","GET /readiness"])
p("C22","Concurrent registration, removal and listing never corrupt the registry",
"When goroutines register, unregister and look up entries of a directory at the same time, the results of the calls are those of some one-at-a-time order of them: of several registrations racing for a path exactly one wins, and what is reported afterwards is what that order leaves. A listing running meanwhile reports every metric that stays registered throughout exactly once and in order, and never one that was not registered at some point during it. No data race or crash occurs.",
["schedules","histories"],"every interleaving of registrations, unregistrations, lookups and listings by any number of goroutines",
"No test touches the registry from two goroutines.",
[M],[("directory.lock around check-and-store","go/tricorder/metric.go")],
["errors returned","ReadMyMetrics during and after","race detector"])
p("C23","Group ids and timestamps identify what was updated together",
"Two reported metrics have the same group id exactly when they belong to the same group, or show the same distribution or the same list, and within one response metrics with the same group id have the same timestamp. A variable's or callback's timestamp is the one returned by its group's latest update (the time of the request for the default update function), and a list's or distribution's is the moment of its last change, never before its creation and unaffected by reads or refused operations. Ids never change while the metric stays registered, and JSON timestamps are the same instants in seconds.",
["histories","inputs"],"every assignment of metrics, lists and distributions to groups and paths and every history of changes and requests, including changes made while a request is being served",
"TestAPI checks a few group ids and timestamps set by hand through internal functions.",
[M,"go/tricorder/messages/api.go"],[("idGenerator","go/tricorder/metric.go"),("session.Visit timestamp per request","go/tricorder/metric.go"),("distribution/list timeStamp","go/tricorder/metric.go")],
["GroupId and TimeStamp from ReadMyMetrics and REST"])
p("C24","Requests and removed metrics leave nothing behind",
"However many requests are served, on whichever interface and however each of them ends, the goroutines, open descriptors and memory of the process do not grow with their number once they are done. After a metric or a directory is unregistered, or its registration was refused, the package no longer holds on to the variables, callbacks, lists and distributions that were registered there, nor to a list's former slice after a change or a group's former update function after its replacement, so the application's memory for them can be reclaimed.",
["histories","inputs"],"every history of registrations, removals, replacements and any number of completed or failed requests",
"No test runs more than a few requests or looks at memory.",
[M,"go/tricorder/http.go","go/tricorder/html.go","go/tricorder/json.go","go/tricorder/rpc.go"],[("session lifetime","go/tricorder/metric.go"),("removeListEntry / removeChildDirectory","go/tricorder/metric.go"),("gzipHandler","go/tricorder/http.go")],
["goroutine, descriptor and heap object counts","finalizers of registered objects"])
p("C25","Any request is answered, and asking changes nothing",
"Whatever is sent to the package's HTTP endpoints (any method, path, query, headers and body) or to its RPC service (any method, argument or bytes), and whatever string is given to the in-process lookups, gets a complete answer without server error (an unhealthy 503 aside), never a crash or a hang, and leaves the connection usable for the next request where the protocol keeps it open; a request left unfinished holds up no other. Asking changes nothing: afterwards everything registered, its values, distributions, lists, group ids and directories, is reported as before, and no path asked for has come into being. A metric callback may itself ask for metrics on any interface and register, change or remove things, and the request that called it still completes.",
["inputs","histories"],"every request a client can send, well-formed or not, in every order, with any population; every action of a callback",
"No test sends an HTTP or RPC request at all, let alone a malformed one.",
["go/tricorder/html.go","go/tricorder/json.go","go/tricorder/http.go","go/tricorder/rpc.go",M],[("htmlAndTextHandlerFunc","go/tricorder/html.go"),("jsonHandlerFunc","go/tricorder/json.go"),("rpcType","go/tricorder/rpc.go"),("GetAllMetrics holds no lock while collecting","go/tricorder/metric.go")],
["raw HTTP over a real net/http server","net/rpc connections","ReadMyMetrics","GetDirectory"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
