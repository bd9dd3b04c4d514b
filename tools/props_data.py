# executed by props.py
M_ENUM = "exploration"

prop("C01", "JSON documents and node trees convert faithfully both ways",
 "Decoding a byte string succeeds exactly when it is one valid JSON document (empty input means 'no data', not an error), and the resulting tree denotes the same JSON value with every number's digits kept verbatim. Encoding a tree yields a valid document denoting exactly that tree, with ordered pairs kept in order, and decoding that document gives an equivalent tree back.",
 ["inputs"], "every token string up to a length bound, every tree up to a size bound, every string over an alphabet of awkward characters",
 "Tests check about twenty hand-picked documents; malformed documents and combinations of nesting, escapes and number spellings are not sampled.",
 ["enc/json.go", "enc/enc.go", "enc/map.go", "enc/list.go", "enc/pairs.go", "enc/numeric.go", "enc/scalar.go", "enc/nil.go"],
 [("JSON.Decode / fromNative", "enc/json.go, enc/enc.go"), ("JSON.Encode and the MarshalJSON methods of the nodes", "enc/json.go, enc/pairs.go, enc/map.go")],
 observe=["enc.JSON.Decode", "enc.JSON.Encode"],
 technique=ENUM, level="exploration",
 note="Exhaustive over all token strings / trees within the stated bounds; oracle is encoding/json. Values outside the alphabet are not covered.")

prop("C02", "Numbers keep their value or fail; they never change silently",
 "Moving a number between JSON and a Go integer, unsigned or floating type, in either direction and wherever it sits (value, pointer, element, field, map key), either preserves its value or reports an error. Only a decimal fraction may be dropped when the target is an integer, and a float target holds the nearest representable value. It never wraps, saturates, turns negative, becomes infinite or loses its exponent.",
 ["inputs"], "every number spelling over a boundary alphabet (sign, integer part, fraction, exponent) times every numeric Go type and position, and every boundary value of every numeric type",
 "Tests convert one or two small numbers per type; out-of-range values and exponent spellings are never tried.",
 ["enc/numeric.go", "enc/handler.go", "enc/map.go", "enc/enc.go"],
 [("unmarshalNumericInto and the Numeric conversions", "enc/numeric.go"), ("numeric map keys", "enc/map.go"), ("Marshal of int/uint/float kinds", "enc/handler.go")],
 observe=["enc.UnmarshalJSON", "enc.MarshalJSON", "enc.Unmarshal", "enc.Marshal"],
 technique=ENUM, level="exploration",
 note="Exhaustive over spelling x type x position; oracle is exact big-rational arithmetic.")

prop("C03", "A Go value survives a round trip through JSON text or a node tree",
 "A value of any type built from exported struct fields with json tags, pointers, slices, arrays, string- or integer-keyed maps, times, durations and custom marshallers (map keys with marshallers of their own included), when marshalled and unmarshalled into a fresh value of the same type, comes back equal, whether it travels as JSON text or directly as a node tree. The JSON text denotes the value encoding/json would produce for the features both support with the same meaning. Unexported fields and fields marked '-' are neither emitted nor filled in.",
 ["inputs"], "every type expression up to a depth bound over the supported constructors and tag forms, times a small set of values per leaf",
 "Tests round-trip a fixed list of about thirty values; combinations of tags, nesting, nil pointers and maps are not enumerated.",
 ["enc/handler.go", "enc/map.go", "enc/list.go", "enc/pairs.go", "enc/util.go", "enc/time.go"],
 [("Handler.Marshal", "enc/handler.go"), ("Handler.unmarshal and unmarshalInto of each node", "enc/handler.go, enc/map.go, enc/list.go"), ("parseTag", "enc/util.go")],
 observe=["enc.Marshal", "enc.Unmarshal", "enc.MarshalJSON", "enc.UnmarshalJSON"],
 technique=ENUM, level="exploration",
 note="Exhaustive over generated types (reflect.StructOf and a hand-written family) and leaf values; oracle is equality and encoding/json.")

prop("C04", "Marshalling and unmarshalling report errors, never crash",
 "Unmarshalling any document or tree, however malformed or mismatched, into any Go target type (with well-formed json tags) either succeeds or returns an error and never panics; marshalling any acyclic Go value does the same. A value that does not match the shape of the target (object into number, text into bool, wrong array length and so on) is an error, and the unhandled-fields callback sees exactly the object members that have no field.",
 ["inputs"], "every document up to a size bound times every target type in a family of about eighty",
 "Tests use well-typed inputs; servers feed this code attacker-controlled documents.",
 ["enc/handler.go", "enc/map.go", "enc/list.go", "enc/numeric.go", "enc/scalar.go", "enc/util.go", "enc/time.go"],
 [("Handler.unmarshal", "enc/handler.go"), ("unmarshalInto", "enc/*.go")],
 observe=["enc.Unmarshal", "enc.UnmarshalJSON", "enc.Marshal"],
 technique=ENUM, level="exploration",
 note="Exhaustive over documents x target types; oracle is no panic plus a shape-compatibility table cross-checked with encoding/json.")

prop("C05", "The codec can be used from many goroutines at once",
 "Marshalling, unmarshalling and encoding on behalf of concurrent callers needs no external locking: under every interleaving each call returns what it would return alone, with no data race and no crash.",
 ["schedules"], "all interleavings up to a preemption bound of two or three callers using every code path that touches package-level state",
 "Tests are single-threaded.",
 ["enc/handler.go", "enc/json.go"],
 [("warn-once table for inefficient custom unmarshallers", "enc/handler.go")],
 state=[("warn-once table", "messages already logged", "enc/handler.go")],
 observe=["enc.Unmarshal", "enc.UnmarshalJSON", "enc.Marshal"],
 technique=SCHED, level="model_checking",
 note="All schedules up to the reported preemption bound; data races judged by the Go race detector on each schedule.")

prop("C06", "A node pipe delivers each message once, in order, and closes cleanly",
 "Between the two ends of a node pipe every message whose write succeeded is read exactly once and in write order, also when the writer closes afterwards; after that the reader gets end-of-file. Writing after close reports a closed pipe, closing twice is harmless, and a blocked read or write returns promptly with the context's error when its context ends; nothing panics or hangs.",
 ["schedules"], "all interleavings up to a preemption bound of a writer, a reader, a closer and a canceller, for buffer sizes 0 to 2",
 "No test exercises the pipe.",
 ["enc/util.go"], [("Pipe.Read/Write/Close", "enc/util.go")],
 observe=["enc.NewPipe"],
 technique=SCHED, level="model_checking",
 note="All schedules up to the reported preemption bound on the real pipe.")

prop("C07", "Context tags and tracking ids are scoped and resolved nearest-first",
 "A tag set on a context is visible on that context and everything derived from it and nowhere else; listing tags visits every tag set between the root and the context, outermost first, so that the last one seen for a name is the nearest, and a lookup agrees with that. Every span carries the tracking id of its root extended by its own position, so sibling and nested spans of one request all have distinct ids.",
 ["histories", "inputs"], "every sequence of derivation operations up to a depth bound, observed from every context in the resulting tree",
 "Tests look at one chain of tags; the derivation tree is not explored.",
 ["ctx/tags.go", "ctx/span.go", "ctx/helper.go"], [("WithTag / RangeTag", "ctx/tags.go"), ("Span / WithTracking", "ctx/span.go")],
 observe=["ctx.WithTag", "ctx.RangeTag", "ctx.Span", "ctx.GetTracking"],
 technique=SEQ, level="model_checking",
 note="All derivation sequences to the depth bound compared with an explicit tree model.")

prop("C08", "Cancellation reaches exactly the contexts derived from it, with its cause",
 "Ending a context ends every context derived from it and no other; a detached context keeps its values but is never ended by its ancestors, and can still be ended itself. The cause reported by any ended context is the one given to the cancellation that reached it first.",
 ["histories"], "every sequence of derive, detach, cancel and deadline operations up to a depth bound",
 "Tests detach one context once.",
 ["ctx/detach.go", "ctx/helper.go", "ctx/ctx.go"], [("Detach", "ctx/detach.go"), ("WithCancel / Cause", "ctx/helper.go")],
 observe=["ctx.Detach", "ctx.WithCancel", "ctx.Cause"],
 technique=SEQ, level="model_checking",
 note="All derivation/cancellation sequences to the depth bound compared with an explicit tree model.")

prop("C09", "Errors keep their identity, message and origin while being wrapped",
 "An error wrapped any number of times, through any mix of formatting, wrapping and joining, still matches every cause it wraps, keeps a message that contains what was reported, and carries the stack and context of the place it was first created. Wrapping an already wrapped error does not nest it again and wrapping nothing gives nothing. An error gate swallows exactly the error it handed out itself. The stack lists the calls that led there, innermost first, and the helpers that tell where a call comes from name that place.",
 ["inputs", "histories"], "every composition of error operations up to a depth bound over a set of base errors",
 "Tests check one wrapped error.",
 ["ctx/error.go", "utils/errors.go", "utils/stack.go"], [("NewErrorf / WrapError / maybeWrap", "ctx/error.go"), ("ErrorGate", "utils/errors.go")],
 observe=["ctx.NewErrorf", "ctx.WrapError", "errors.Is", "errors.As"],
 technique=ENUM, level="exploration",
 note="All compositions to the depth bound; oracle is errors.Is/As on the un-wrapped originals.")

prop("C10", "Every log call yields one well-formed line, to the right logger, without secrets",
 "Each log call at or above its logger's level produces exactly one JSON line holding the level, message, source position and the context's tags, and a call below the level produces nothing. A logger, helper or level installed on a context affects that context and those derived from it only. A log argument marked as redacted never appears in the line, and logging never alters the caller's arguments. Every error argument is listed under the error tag with its text, and one created by this library with its stack and the tags of the context it was created in.",
 ["inputs", "histories"], "every sequence of context/logger derivations up to a depth bound times every argument shape and level",
 "Tests log a handful of lines from one context.",
 ["ctx/log/log.go", "ctx/log/redacted.go"], [("logger configuration on the context", "ctx/log/log.go"), ("redaction of arguments", "ctx/log/log.go")],
 observe=["log.Infof", "log.WithLogFunc", "log.WithLogger"],
 technique=SEQ, level="model_checking",
 note="All derivation sequences and argument shapes within the bound against a scoping model.")

prop("C11", "Configuration is read completely, typed, and without side effects",
 "Loading a configuration fills every tagged field from its environment variable or else its default, converted to the field's type; a required value that is missing or a value that does not parse is an error naming it, never a crash or a silent zero. Fields the configuration does not mention keep their value, and the input environment and other loaded configurations are unaffected.",
 ["inputs", "configurations"], "every supported field type times every tag form times every presence and spelling of the variable",
 "One test loads one struct.",
 ["config/config.go"], [("From", "config/config.go")],
 observe=["config.From"], technique=ENUM, level="exploration",
 note="Exhaustive over field type x tag form x value spelling.")

prop("C12", "The in-memory key-value store behaves like one atomic map",
 "Concurrent get, upsert, delete and range calls on the key-value store behave as if performed one at a time on a plain map; a range visits exactly the entries that match all its filters and is a consistent snapshot. A failed or aborted operation leaves no trace, and values handed in or out are not shared with the store.",
 ["schedules", "histories", "inputs"], "all interleavings of two or three callers with one or two operations each on colliding keys; every operation sequence up to a depth bound; every filter combination",
 "One sequential test.",
 ["storage/keyvalue.go", "storage/filter.go"], [("memKeyValue", "storage/keyvalue.go"), ("Filter", "storage/filter.go")],
 observe=["storage.KeyValue"], technique=SCHED + "; linearizability against a map", level="model_checking",
 note="All schedules within the bound checked for linearizability; all sequences to the depth bound against a map.")

prop("C13", "The bounded cache stays bounded, fresh and least-recently-used",
 "A lookup returns the value the loader produced for that key after the last invalidation, and calls the loader only when no such value is held; failed or uncacheable loads are never kept. The total size of the kept entries never exceeds the configured maximum, and when it must make room it drops the entries used least recently, counting hits as use. All of this holds under concurrent use without data races.",
 ["histories", "schedules"], "every operation sequence up to a depth bound over more keys than capacity; all interleavings of two or three callers up to a preemption bound",
 "One test checks sizes over one access pattern.",
 ["utils/caches/lru.go", "utils/caches/cache.go"], [("LRU.Get and eviction", "utils/caches/lru.go")],
 observe=["caches.LRU.Get", "caches.LRU.Invalidate"], technique=SEQ + "; plus schedule exploration", level="model_checking",
 note="All sequences to the depth bound and all schedules to the preemption bound.")

prop("C14", "Request and memory caches load each key once and return one agreed value",
 "Callers that ask the request cache for the same key at the same time share one load and all get its result, value or error; later callers get the held result until it is invalidated, evicted or its time to live is over, and then it is loaded again; a result without time to live is never held. A slow load for one key never delays another key. The memory cache likewise loads each key once, holds it until it is invalidated, and never holds an error. No interleaving races, hangs or returns another key's value.",
 ["schedules"], "all interleavings of two or three callers (get, invalidate, expiry) on one or two keys up to a preemption bound",
 "The existing concurrent test is skipped as racy and samples a few schedules.",
 ["utils/caches/request.go", "utils/caches/mem.go"], [("RequestCache", "utils/caches/request.go"), ("Mem", "utils/caches/mem.go")],
 observe=["caches.RequestCache.Get", "caches.Mem"], technique=SCHED, level="model_checking",
 note="All schedules within the bound with virtual time.")

prop("C15", "Locks exclude, and trying a lock never lies or blocks",
 "At most one caller holds a lock at any time, under every interleaving; an attempt that reports success holds it and one that reports failure does not, a bounded attempt returns by its deadline, and releasing makes it available to a waiter. The metered lock excludes the same way.",
 ["schedules"], "all interleavings of two or three callers mixing blocking and trying acquisition up to a preemption bound",
 "Not tested concurrently.",
 ["utils/sync/mutex.go"], [("Mutex.TryLock", "utils/sync/mutex.go"), ("MetricsMutex", "utils/sync/mutex.go")],
 observe=["sync.Mutex", "sync.MetricsMutex"], technique=SCHED, level="model_checking",
 note="All schedules within the bound with virtual time.")

prop("C16", "The typed concurrent map and set behave atomically for every value type",
 "Concurrent operations on the typed map and set behave as if performed one at a time on a plain map, for every key and value type including interfaces holding nil; ranging visits every entry present throughout exactly once, and encoding and decoding the map preserves its entries. No operation panics or races.",
 ["schedules", "histories"], "all interleavings of two or three callers with up to two operations on colliding keys; every operation sequence up to a depth bound for several value types",
 "Sequential tests on ints.",
 ["utils/sync/map.go", "utils/lists/set.go"], [("Map", "utils/sync/map.go"), ("Set", "utils/lists/set.go")],
 observe=["sync.Map", "lists.Set"], technique=SCHED + "; linearizability against a map", level="model_checking",
 note="All schedules within the bound checked for linearizability; all sequences to the depth bound.")

prop("C17", "Reading a stream to the end loses nothing and stops when told",
 "Reading a stream to the end returns exactly the bytes it produced, in order, for every way a reader may split them (short reads, empty reads, data returned together with end-of-file or an error), and reports the reader's error. When the context ends first, the call returns the context's error promptly without racing with a read still in progress.",
 ["inputs", "fault_sequences", "schedules"], "every split of short streams into reader answers up to a bound, and all interleavings with cancellation",
 "Two tests: one slow reader, one timeout.",
 ["utils/io.go"], [("ReadAll", "utils/io.go")],
 observe=["utils.ReadAll"], technique="exhaustive enumeration of reader answers and of schedules", level="model_checking",
 note="All answer sequences up to the bound crossed with all schedules up to the preemption bound.")

prop("C18", "The ordered map keeps insertion order and agrees with a plain map",
 "After any sequence of operations the ordered map holds exactly the entries a plain map would, enumerates them in insertion order with an updated key keeping its place, and supports the documented queries consistently.",
 ["histories"], "every operation sequence up to a depth bound over three keys",
 "One test adds a few keys.",
 ["utils/ordered_map.go"], [("OrderedMap", "utils/ordered_map.go")],
 observe=["utils.OrderedMap"], technique=SEQ, level="model_checking",
 note="All operation sequences to the depth bound against a slice-of-pairs model.")

prop("C19", "List helpers compute exactly what they say and leave their input alone",
 "Sorting, reversing, splitting, flattening, grouping, permuting and unique-adding return exactly the mathematically defined result for every list, including empty and repeated elements, and do not disturb the caller's input beyond what in-place operations document.",
 ["inputs"], "every list up to a length bound over a small alphabet, times every argument",
 "Tests check one or two lists per helper.",
 ["utils/lists/lists.go", "utils/lists/sort.go", "utils/lists/reverse.go", "utils/lists/group.go", "utils/lists/perm.go", "utils/maps/maps.go"],
 [("Split, Flatten, Permute, Reverse, Sort, AddUnique, GroupBy", "utils/lists/*.go")],
 observe=["lists.*", "maps.*"], technique=ENUM, level="exploration",
 note="Exhaustive over all lists within the bound.")

prop("C20", "Shutdown waits for held work, then finishes, exactly once",
 "After shutdown begins everyone waiting for the start is told, the drained signal comes only when no hold remains and always comes once the last hold is released, and repeated or concurrent begin, hold and release calls neither panic nor lose a hold. The first termination signal begins shutdown, the second cancels remaining work, and the third forces exit; the five-second notice comes five seconds after the start.",
 ["schedules"], "all interleavings up to a preemption bound of holders, a beginner, waiters and up to three signals, with virtual time",
 "One test runs one happy path in real time.",
 ["shutdown/shutdown.go", "shutdown/accessors.go"], [("shutter", "shutdown/shutdown.go"), ("Hold/Release/Started/Done", "shutdown/accessors.go")],
 observe=["shutdown.Hold", "shutdown.Begin", "shutdown.Done", "shutdown.WaitForSignal"], technique=SCHED, level="model_checking",
 note="All schedules within the bound with virtual time and injected signals.")

prop("C21", "HTTP handlers' results map to the right status, headers and body",
 "For every outcome of a handler (value, nothing, plain error, coded error) and every request shape, the server sends one response with the matching status code and a well-formed body; internal errors (5xx) never reveal their message, client errors (4xx) are reported as such, and a malformed request body is the client's error; a panic ends its own request only. Compression is used only when the client accepts it and always decodes to the same body; liveness and readiness report the configured state; metrics and monitoring pages are served where they are set up; request metrics count each request once with the status sent.",
 ["inputs", "configurations"], "every handler outcome times method times request body shape times Accept headers times registration form",
 "Tests exercise a few requests.",
 ["http/server.go", "http/mux.go", "http/api.go", "http/error.go", "http/call.go", "http/metrics.go", "http/monitor.go"],
 [("Server.HandleRequest / doRequest", "http/server.go"), ("ErrorCode", "http/error.go")],
 observe=["http.Server.Mux"], technique=ENUM, level="exploration",
 note="Exhaustive over the outcome x request product; oracle is a table derived from the documented contract.")

prop("C22", "The HTTP client returns the response or an error, and leaks nothing",
 "For every server answer and transport fault the client call returns the complete response, or an error that says what failed; a non-success status is an error carrying that status and no partial body is reported as success. Whatever happens the response body is closed and the request sent is exactly the one asked for.",
 ["inputs", "fault_sequences"], "every status class times body shape times truncation or transport fault at each point times call form",
 "Tests exercise the success path.",
 ["http/client.go", "http/call.go", "http/api.go"], [("Client.Get/Post/API", "http/client.go")],
 observe=["http.Client"], technique="exhaustive fault enumeration over a scripted transport", level="fault_enumeration",
 note="Exhaustive over answer x fault position x call form.")

prop("C23", "API requests are isolated and their in/out/auth contract is enforced",
 "Every request runs on a fresh object that starts as a copy of the registered one and shares nothing with other requests but what its state fields refer to (those are copied by reference); only declared inputs are read from the request and only declared outputs appear in the response. A missing required input or missing required authentication is always an error and the action is then never run. A round trip (http.TestAPI, api.Test) runs the action on an object of its own and leaves the caller with exactly the outputs it computed.",
 ["inputs", "histories"], "every handler struct shape from an alphabet of field tags and types times every request presence pattern, and sequences of requests on one handler",
 "Tests cover three handler structs.",
 ["api/handler.go", "api/tag.go", "api/json.go", "api/data.go", "api/api.go", "api/test.go", "http/test.go"],
 [("NewHandler / Server().Recv / Send", "api/handler.go"), ("parseTags", "api/tag.go")],
 observe=["api.NewHandler"], technique=ENUM, level="exploration",
 note="Exhaustive over generated handler struct types and request presence patterns.")

prop("C24", "WebSocket frames reach the right channel and each call gets one answer",
 "For every sequence of client frames, a frame opens, reaches or closes exactly the channel it names; each request on an open channel calls its method once and gets exactly one answer on that channel, a return after its replies or an error carrying its text, in order. A well-formed message that is no frame of the protocol or names an unknown path, method or channel is answered with an error or disconnect frame and reaches no object. Pings are answered, a message cut short or fragmented is never delivered, and no frame a client can send crashes the process or leaves a connection, context or goroutine behind once the connection ends.",
 ["histories", "inputs"], "every sequence of client frames up to a depth bound from an alphabet of valid, malformed and hostile frames (including control frames)",
 "Tests play three scripted conversations.",
 ["http/ws/conn.go", "http/ws/channel.go", "http/ws/rpc.go", "http/ws/handler.go", "http/ws/reflect.go", "http/ws/ws.go"],
 [("Conn.Loop / onFrame", "http/ws/conn.go, http/ws/rpc.go"), ("method dispatch", "http/ws/reflect.go")],
 observe=["ws.Handler.Server"], technique=SEQ, level="model_checking",
 note="All frame sequences to the depth bound through the real websocket server against a protocol model.")

prop("C25", "A WebSocket connection stays consistent under concurrent sends and close",
 "Whatever the interleaving of the reader, handlers sending from other goroutines, the peer closing and the server closing, frames are never interleaved or corrupted, a message is on the wire exactly if its send succeeded, handlers of one connection run one at a time in arrival order, and once the server has left the connection its context has ended, it is closed, sends fail with an error and no goroutine remains. Nothing races, deadlocks or panics, the test client used from several goroutines included.",
 ["schedules"], "all interleavings up to a preemption bound of reader, background senders, peer close and server close on an in-memory connection",
 "Tests are effectively sequential.",
 ["http/ws/conn.go", "http/ws/channel.go", "http/ws/ws.go", "http/ws/handler.go"],
 [("impl conn write lock, reader goroutine, inbox", "http/ws/ws.go, http/ws/conn.go")],
 observe=["ws.Handler.Server"], technique=SCHED, level="model_checking",
 note="All schedules within the bound on the real server including the websocket library, over an in-memory connection.")

prop("C26", "Metrics lose nothing and every scrape is a consistent moment",
 "Whatever the interleaving of observations and scrapes, no observation is lost or counted twice, and every series a scrape shows is as it was at one moment: a histogram's buckets are cumulative and its total count and sum belong to the same set of observations, and no later scrape shows fewer. Observing and scraping never race, block each other forever or panic, also for the very first observation of a label set.",
 ["schedules"], "all interleavings up to a preemption bound of two observers and one scraper per metric type",
 "Tests are single-threaded.",
 ["utils/prom/counter.go", "utils/prom/gauge.go", "utils/prom/histogram.go", "utils/prom/metric.go", "utils/prom/http.go"],
 [("per-label state and its lock", "utils/prom/*.go")],
 observe=["prom.Counter", "prom.Gauge", "prom.Histogram", "prom.Registry"], technique=SCHED, level="model_checking",
 note="All schedules within the bound; scrape results checked against the set of linearizations.")

prop("C27", "The metrics page is always valid and exact",
 "For every set of metrics, label values and observations the exposed text parses as the Prometheus exposition format: one typed family per metric, labels and descriptions escaped so that they read back as given, different label values in different series, histogram buckets cumulative and complete, and every number equal to what was recorded. A number of label values other than that of the names is refused without a trace, and a page that cannot be written is an error.",
 ["inputs", "histories"], "every label value up to a length bound over an alphabet of awkward characters, every observation sequence up to a bound over boundary values",
 "Tests compare a few lines of output.",
 ["utils/prom/labels.go", "utils/prom/metric.go", "utils/prom/counter.go", "utils/prom/gauge.go", "utils/prom/histogram.go", "utils/prom/custom.go"],
 [("label rendering", "utils/prom/labels.go"), ("Print of each metric", "utils/prom/*.go")],
 observe=["prom metrics Print", "prom.Handler"], technique=ENUM, level="exploration",
 note="Exhaustive within bounds; oracle is an independent parser of the exposition format and a reference accumulator.")

prop("C28", "Generated OpenAPI describes what the service actually accepts and returns",
 "For every registered handler type the generated document is produced without crashing or looping, also for recursive and unusual types; every reference resolves within the document, also after a type was refused. A structure is described with exactly the fields that travel, different types never share a description, and every JSON value the service emits for a type matches the schema published for it, with required and optional inputs and authentication declared as enforced. An example given with a type is published as the value it plainly denotes. Every registered path is documented and served.",
 ["inputs", "programs"], "every type expression up to a depth bound over the supported constructors, times representative values",
 "One test checks one schema.",
 ["api/openapi/schema.go", "api/openapi/openapi.go", "api/openapi/path.go"],
 [("schemaFromType", "api/openapi/schema.go"), ("Service.Paths", "api/openapi/path.go")],
 observe=["openapi.Service"], technique=ENUM, level="exploration",
 note="Exhaustive over generated types; oracle is a small JSON-schema validator applied to the codec's own output.")

prop("C29", "Test assertions pass exactly when the asserted condition holds",
 "Each assertion helper lets a test pass exactly when its stated condition is true of the given values, fails it otherwise, and stops the test when it fails; Shift and Pop return and remove the end element they name. None of them panics on nil, empty or unusual values, however it is called (deferred, through a function value, on several lines, with its source missing); Empty says nothing of kinds that can't be empty, and never passes for them.",
 ["inputs"], "every helper times every pair of values from an alphabet of awkward values",
 "The helpers' own tests check a few true and false cases.",
 ["test/assert.go", "test/equals.go", "test/empty.go", "test/nil.go", "test/errors.go", "test/strings.go", "test/list.go", "test/util.go"],
 [("assertion helpers", "test/*.go")],
 observe=["test.*"], technique=ENUM, level="exploration",
 note="Exhaustive over helper x value pairs and helper x forms of call, each run as a test of the testing package in the process.")

prop("C30", "The buffered test pipe behaves like a byte stream",
 "Bytes written to the buffered pipe are read back exactly once and in order for every split into reads and writes, even if the writer reuses its slice; reads return data before end-of-file, and close wakes blocked readers.",
 ["schedules", "histories"], "every sequence of reads, writes and close up to a depth bound with varied sizes, and all interleavings of a writer and a reader",
 "Not tested directly.",
 ["test/io.go"], [("BufferedRWC", "test/io.go")],
 observe=["test.BufferedRWC"], technique=SCHED, level="model_checking",
 note="All schedules within the bound and all operation sequences to the depth bound.")

prop("C31", "A listening server ends gracefully",
 "When Listen returns without an error, the server answers requests at the address it returned; when it cannot listen it returns an error, also once the shutdown has begun, and never hangs. Once the shutdown has begun, no new connection is served and idle connections are closed; each request that is being handled gets its whole response, each open WebSocket connection keeps working until it is closed, and the shutdown is not complete before they are done (up to the half minute the server waits).",
 ["histories", "schedules"], "every phase a connection can be in when the shutdown begins, alone and in every combination of two and three connections, ending in every order, for every way of listening",
 "No test shuts a listening server down.",
 ["http/server.go", "http/ws/handler.go", "shutdown/shutdown.go", "shutdown/accessors.go"],
 [("Server.Listen", "http/server.go"), ("Handler.ServeHTTP's hold", "http/ws/handler.go"), ("Hold/Done", "shutdown/accessors.go")],
 observe=["http.Server.Listen", "shutdown.Begin", "shutdown.Done"], technique=ENUM, level="exploration",
 note="Exhaustive over the combinations of connection phases and orders of ending, each in its own process on the loopback network; the schedule inside net/http is the operating system's.")

prop("C32", "HTTP requests served at the same time do not affect each other",
 "Whatever else is being served, and however their steps interleave, every request gets exactly the response it would get alone: its own status, headers and body (compressed or not), computed from its own input, user agent and path; a request that fails, panics or cannot be read changes nothing for the others. Each answered request is counted exactly once with its own method, path and status, and nothing races, hangs or leaks.",
 ["schedules"], "every pair and some triples of 17 kinds of request, under all interleavings up to a preemption bound, with a point at every read of a request, write of a response and within the handlers",
 "Tests send one request at a time.",
 ["http/server.go", "http/mux.go", "http/api.go", "http/call.go", "http/metrics.go", "http/error.go"],
 [("Server.handleRequest", "http/server.go"), ("Server.Handle / response", "http/mux.go"), ("RegisterAPI", "http/api.go"), ("CallHandler.Register", "http/call.go")],
 observe=["http.Server.Mux", "http.Server.Listen", "http.Metrics"], technique=SCHED, level="model_checking",
 note="All schedules within the bound, responses through recording connections of our own.")
