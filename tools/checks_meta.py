# check(id, rule, technique, oracle, bounds, reach)
check("C01",
      "1-3 generated requests (valid, or damaged by truncation, byte edits, inserted delimiters), random cuts, read buffer sizes and body reading ways; non-trivial: the stream reaches the server in more than one read; plus every two-way cut of generated streams",
      "metamorphic property-based testing (segmentation of the byte stream)",
      "metamorphic: the same stream delivered in one read must give the same handler views, errors and output bytes",
      "up to 3 requests of a few hundred bytes, any cut positions; ~4 s quick",
      "the tests cut a few fixed valid requests; here malformed and truncated streams, limits, chunk sizes, escapes and CRLF pairs are cut anywhere")
check("C02",
      "valid requests from an abstract syntax (methods, escaped targets, header lists with near-miss and mixed-case names, specially treated headers, bare LF, length or chunked bodies), small, realistic and large; non-trivial: at least one header or a body",
      "property-based testing against an abstract request (round-trip)",
      "round-trip: the abstract request rendered to bytes must be what the handler observes, in every field, exactly once",
      "up to 48 headers, 20 kB bodies and paths, one request per connection; ~5 s quick",
      "tests compare a handful of literals; combinations of specially treated headers, case and empty values are not sampled")
check("C03",
      "arbitrary bytes, damaged valid streams, and labelled malformations (bad method, protocol, escape, header line, length...) at any position of a pipeline, cut anywhere and ending in EOF, reset or timeout, plus floods of megabytes; non-trivial: the stream is not a list of valid requests",
      "fuzzing with invariants and labelled malformations",
      "invariants: no panic, bounded reads, output is a sequence of complete well-formed responses; a labelled malformed request never reaches a handler, gets one response of its class and ends the connection",
      "streams to a few hundred bytes (floods to 3 MB); ~5 s quick",
      "crashes and derailment need particular malformed bytes at particular positions")
check("C04",
      "configurations with small random limits and requests placed just below, at and above each limit, as first or later request of a connection; the default limits at their real size; non-trivial: some limit is within a few bytes of the request",
      "property-based testing at limit boundaries against a reference calculation",
      "reference: sizes of the abstract request compared with the configured limits give the expected verdict (served, 414, 431, 413)",
      "limits to some hundred bytes plus the default ones (64 kB heads, 512 MB bodies by their announced length); ~4 s quick",
      "limits are only tested at one value each, for the first request")
check("C05",
      "sequences of 2-5 requests (bodies read fully, partly or not, contexts set, default headers overridden, errors, upgrades, streams, malformed ones) over one connection; non-trivial: at least two requests were answered",
      "differential property-based testing (sequence versus fresh connection)",
      "differential: each request and its response must equal those of the same request alone on a fresh connection",
      "up to 5 requests per connection; ~5 s quick",
      "a leak needs a particular pair of requests; tests reset state between cases")
check("C06",
      "programs of body reading calls (Bytes, String, Callback with failing callbacks, Retrieve, Read with any sizes, Discard), mixed, over length and chunked bodies, intact, truncated, over-long or malformed; non-trivial: the body is not empty",
      "stateful property-based testing against a byte-stream model",
      "model: a cursor over the sent body; every call must return the next bytes exactly once, end at the end, errors are sticky and the next request is intact",
      "bodies to a few hundred bytes, programs to 8 calls; ~5 s quick",
      "tests use one reading method per body")
check("C07",
      "heads with any mix of Content-Length and Transfer-Encoding lines (repeated, conflicting, overflowing, blank, control bytes, odd token lists) and chunked bodies with broken syntax, followed by a canary request; non-trivial: more than one framing header or a malformed one",
      "differential property-based testing against an independent RFC 9112 framer",
      "reference: an independent strict message framer decides the boundaries; the server either agrees or refuses and closes - the canary or body bytes are never served out of place",
      "a few framing lines, bodies below 100 bytes; ~4 s quick",
      "tests never combine framing headers")
check("C08",
      "responses built by random sequences of builder calls (code, status text, headers, content type, cookies with all attributes, bodies by every setter, JSON, errors), default headers, GET and HEAD; non-trivial: at least two builder calls",
      "model-based property-based testing of the response builder",
      "model: a plain record of what was set; the strictly parsed output must equal it",
      "up to 12 builder calls; bodies to some kB; ~5 s quick",
      "tests build a few responses and use a lenient parser")
check("C09",
      "readers with scripted piece sizes, data together with EOF, zero reads, failures and panicless short or long streams; announced, unknown and wrong sizes; files; GET and HEAD, 1.0 and 1.1; write failures at any write; non-trivial: the stream has data or fails",
      "property-based testing with fault injection on readers and writers",
      "the strictly parsed response must carry exactly the stream's bytes; the reader is closed exactly once; incomplete streams never look complete",
      "streams to some kB; every write index; ~5 s quick",
      "tests use well-behaved readers only")
check("C10",
      "pipelines of requests with any Connection values, versions, upgrades, streamed, erroneous and hijack-free handlers, cut anywhere; scripted write failures at any write; non-trivial: at least two requests or a failing write",
      "model-based property-based testing with write-fault injection",
      "model of connection persistence gives how many requests are served and answered in order; output recorded at each read shows that a response was sent before waiting; nothing follows a failed write",
      "up to 6 requests; ~5 s quick",
      "tests check single exchanges")
check("C11",
      "random route tables (static, parameters, wide fan-outs, groups, resources, several methods) and request paths derived from the templates or perturbed; templates of any shape; duplicate and conflicting registrations; non-trivial: the table has at least two templates or the template is malformed",
      "model-based property-based testing against a reference matcher",
      "reference: a naive segment-by-segment matcher over the list of templates; metamorphic: registration order is shuffled",
      "up to 10 templates (55 for wide ones), 4 segments; ~5 s quick",
      "tests register a few fixed routes")
check("C12",
      "random nesting of groups, resources, routes and middleware registrations, with middlewares stopping the chain; non-trivial: at least two middlewares apply",
      "model-based property-based testing (registration programs)",
      "model: the list of middlewares in documented order; the recorded trace must equal it",
      "groups to depth 3; ~3 s quick",
      "tests have two fixed shapes")
check("C13",
      "routers with random routes, catchers and error handlers (specific and catch-all), requests for known, unknown and malformed targets; connections ending in every way (closed, failed, malformed, truncated, failing writes); non-trivial: a catcher or an error handler is involved",
      "model-based property-based testing",
      "model: longest prefix catcher, else handler of the code, else the catch-all, else the default response with the error's code",
      "~4 s quick",
      "tests use one catcher and one error handler")
check("C14",
      "random directory trees in a scratch directory with secrets outside, prefixes, groups, and request paths (existing files, perturbed, traversal in every encoding); non-trivial: the path is under the prefix",
      "property-based testing against the file system as oracle",
      "the file read directly is the expected body, 404 otherwise; secrets outside of the root must never appear",
      "trees of up to ~10 files; ~5 s quick",
      "tests fetch two fixed files")
check("C15",
      "2-8 connections with 1-6 requests each (static and dynamic routes, files, TRACE, errors, catchers, streams, JSON, cookies, queries, virtual hosts) served at once over one router, with injected yields; non-trivial: at least two connections overlap",
      "differential property-based testing of concurrent histories under the race detector",
      "differential: each connection's output must equal that of the same connection served alone by a fresh router; the Go race detector must stay silent",
      "8 connections; schedules are those the Go scheduler produces with yields at every read and write; ~15 s quick",
      "tests serve one connection at a time", race=True)
check("C16",
      "sets of hosts with random spelling (case, www., default and other ports), default router or none, requests with none, one or several Host headers spelled independently; non-trivial: at least two hosts are registered",
      "model-based property-based testing",
      "reference: a map from the independently normalised host to its router",
      "up to 6 hosts; ~3 s quick",
      "tests register one or two hosts in one spelling")
check("C17",
      "byte strings with any escaping of any bytes, and texts with bad or cut escapes, decoded directly and as request paths; all two-byte escape texts enumerated; non-trivial: at least one escape",
      "round-trip property-based testing plus enumeration",
      "round-trip, and an independent decoder for arbitrary texts",
      "all 65536 escape texts; strings to 60 bytes; ~3 s quick",
      "tests decode a few strings")
check("C18",
      "lists of pairs with any bytes, escaped in any way, with flags, malformed queries, accessed in any order and repeatedly; non-trivial: at least one pair",
      "round-trip property-based testing against an independent form decoder",
      "round-trip, and a reference decoder for arbitrary texts; errors repeat on every access",
      "lists to 8 pairs; ~4 s quick",
      "tests parse a few queries once")
check("C19",
      "lists of cookies rendered into one or several Cookie headers, malformed ones, read repeatedly over several requests of a connection; non-trivial: at least one cookie",
      "round-trip property-based testing",
      "round-trip: the jar must hold the list that was rendered; malformed headers give an error",
      "up to 8 cookies, 3 requests; ~3 s quick",
      "tests parse a few headers")
check("C20",
      "histories of Add, Clear, lookups, iteration and Clone over keys of colliding spellings; non-trivial: at least two additions",
      "stateful model-based property-based testing",
      "model: a list of pairs compared case-insensitively; clones are compared after the source memory is overwritten",
      "histories to 30 operations; ~3 s quick",
      "tests use a fixed list")
check("C21",
      "header values assembled from main value, parameters, blanks, qualities; non-trivial: at least one parameter",
      "property-based testing against the abstract value",
      "round-trip: accessors must return the parts the value was assembled from, or the default",
      "up to 4 parameters; ~2 s quick",
      "tests use fixed values")
check("C22",
      "configurations with any subset of the settings filled by random values, filled by reflection; non-trivial: some set and some unset; every single setting alone is enumerated",
      "property-based testing over the structure of the configuration (reflection)",
      "reference: per leaf, user value if non-zero, otherwise the default's; the defaults compared before and after",
      "all leaves; ~2 s quick",
      "the tests check one field")
check("C23",
      "histories over a real application on loopback: listeners, clients connecting, requests in flight, stops (graceful or not) at any moment, addresses that can't be bound; non-trivial: a connection is open at the stop",
      "stateful property-based testing of the application's life cycle with real sockets",
      "invariants over the recorded history: accepted requests are answered, nothing is served afterwards, return value, stop callback count and order, ports released",
      "up to 4 listeners and 6 clients; ~20 s quick",
      "one fixed shutdown is tested", workers=6)
check("C24",
      "applications with several listeners (plain, custom handlers, TLS with a generated certificate) and clients with several requests each; non-trivial: at least two listeners",
      "property-based testing with real sockets",
      "each response names the listener's handler and encryption, which must be that of the dialled port; the bind callbacks recorded",
      "up to 4 listeners; ~15 s quick",
      "tests have one listener", workers=6)
check("C25",
      "all methods, protocols and codes enumerated; arbitrary and perturbed texts, also sent as requests; non-trivial: every enumerated entry, and texts differing from a valid token by little",
      "enumeration and property-based testing against independent tables",
      "independent tables of RFC 9110 names and net/http status texts",
      "all 65536 codes; all texts one edit away from a token; ~3 s quick",
      "tests check each valid entry or none")
check("C26",
      "hosts (names, IPv4, localhost in any case, near misses) and ports; non-trivial: the address has both parts or is a near miss",
      "property-based testing against an independent classifier",
      "reference: net.SplitHostPort/net.ParseIP based classifier",
      "~2 s quick",
      "tests check a few addresses")
check("C27",
      "stacks of stock middlewares around generated handlers (responses of any kind, nil, panics) and requests; non-trivial: a middleware has something to do",
      "property-based testing with per-middleware oracles",
      "the response without the middleware, plus the documented effect; log lines are checked to be one printable line per request; locations checked byte-wise",
      "~4 s quick",
      "tests cover two middlewares in one situation")
check("C28",
      "sequences of requests with upgrade lists; non-trivial: at least one supported upgrade",
      "model-based property-based testing",
      "model of the choice; strict parse of interim and final responses; same request gives same bytes",
      "up to 4 requests; ~3 s quick",
      "one upgrade is tested")
check("C29",
      "sets of codings with invertible and failing scripts registered in any order, tokens known and unknown, data of any bytes; non-trivial: at least one coding is involved",
      "stateful property-based testing against a map model",
      "round-trip and a map from token to coding with the documented aliases",
      "~2 s quick",
      "tests check one coding")
check("C30",
      "arbitrary byte strings, texts mixing ASCII, control, UTF-8 and invalid bytes; all single bytes and pairs enumerated; non-trivial: at least one byte is escaped",
      "enumeration and property-based testing against a byte-wise reference",
      "reference: a table of 256 escapes applied byte by byte",
      "all 65536 pairs; ~2 s quick",
      "tests check a few strings")
check("C31",
      "TRACE requests of any shape interleaved with others over one router, on one and several connections; non-trivial: at least two TRACE requests",
      "round-trip property-based testing",
      "the body must be exactly the request line and headers that were sent",
      "~3 s quick",
      "one TRACE is tested")
check("C32",
      "scripts of socket reads (data, data with error, errors) and histories of reads and give-backs; readers over pieces with any buffer sizes; non-trivial: at least one give-back or an error together with data",
      "stateful model-based property-based testing",
      "model: the concatenation of the received bytes with a cursor",
      "histories to 20 operations; ~2 s quick",
      "tests have fixed sequences")
check("C33",
      "values of several model types rendered to JSON by encoding/json, damaged documents, content types; responses with a previous body; non-trivial: a value with content",
      "round-trip and differential property-based testing against encoding/json",
      "round-trip through the independent encoding/json",
      "~3 s quick",
      "one struct is tested")
check("C34",
      "requests (with bodies, read or not) whose handler hijacks and then exchanges random bytes; pipelined bytes follow the request in any segmentation; non-trivial: bytes follow the request",
      "model-based property-based testing",
      "the hijacker must read exactly what follows the body; the output holds exactly what it wrote; no reads or writes of the server afterwards",
      "~3 s quick",
      "hijacking is tested with one request")
check("C35",
      "routers with aliases (also in groups) and mutators, requests for sources, targets and others; non-trivial: an alias or mutator applies",
      "metamorphic and model-based property-based testing",
      "metamorphic: the aliased request must be handled as the request for the target by a router without aliases; the trace of mutators",
      "~3 s quick",
      "one alias is tested")
check("C36",
      "histories of insertions and lookups with keys of colliding lengths; non-trivial: at least two insertions of the same length",
      "stateful model-based property-based testing",
      "model: a Go map keeping the first value",
      "histories to 40 operations, keys to 300 bytes; ~2 s quick",
      "tests insert distinct keys once")
check("C37",
      "scripts of a client (requests, bodies, chunks cut anywhere) with pauses up to one tick below the timeout, handlers slower than the timeout, and a silence beginning at any byte, in virtual time (testing/synctest) over an in-memory connection; applications with several listeners and silent clients on real sockets; non-trivial: at least two pieces of data before the silence",
      "model-based property-based testing of generated schedules in virtual time",
      "the moment the connection is let go is computed from the schedule; whatever was complete before is answered, an incomplete body is an error",
      "timeouts from 2 ns to 1 h (virtual, exact), schedules to 4 requests; ~5 s quick",
      "tests wait for one timeout of one client")
check("C38",
      "thousands of generated requests (fresh names, paths, hosts and values every time) over one connection; thousands of connections ending in every way, over one router or application; multi-megabyte bodies and streams in pieces; clients repeating any unit forever at any place of a request; non-trivial: every case that ran",
      "invariant-based property-based testing over long generated histories",
      "the live heap after collection, open descriptors and running goroutines at two moments of a history that repeats itself, or while data passes",
      "6000 requests, 1500 connections, 8 MB bodies, 4 MB heads per case; ~15 s quick",
      "no test looks at what is kept")
check("C39",
      "caches as an interrupted, concurrent or foreign start may leave them (missing, empty, truncated at any byte, foreign or mismatching files, usable pairs, no directory possible) and repeated starts; given certificate files, usable and not; domain lists with cached certificates; handshakes on real sockets; non-trivial: every case but unrestricted domain lists",
      "fault-injecting property-based testing over generated cache states and start histories",
      "the certificate presented in the handshake is compared with the one expected; the files; plain requests",
      "every truncation point drawn; ~10 s quick",
      "no test covers TLS")
