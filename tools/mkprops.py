#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property list)."""
import json, pathlib

P = []

def prop(id, title, statement, over, qtext, why, files, mechanism):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=mechanism, where=files[0])])))

prop("C01", "How TCP splits the byte stream never changes what the server does",
     "For any byte stream a client sends on one connection, well-formed or not, the requests the handlers observe (every field and the whole body), the errors reported and the bytes written back are the same however the stream is cut into reads, down to one byte per read and with the last bytes arriving together with the end of the stream.",
     ["inputs", "schedules"], "all request streams (pipelined, chunked, malformed, truncated) x all segmentations x read buffer sizes",
     "The parser tests split a few fixed valid requests; they never compare outcomes for malformed streams, for cuts inside CRLF, chunk sizes or percent escapes, or under limits.",
     ["internal/protocol/http1/parser.go", "internal/protocol/http1/suit.go", "internal/protocol/http1/body.go", "internal/tcp/client.go"],
     "resumable parser state machine, segment buffers, pending/unread data of the connection wrapper")

prop("C02", "Handlers see exactly the request the client sent",
     "For every syntactically valid HTTP/1.0 or 1.1 request within the limits, the handler is invoked exactly once and observes the method, decoded path, raw query, protocol, header pairs (order, duplicates and letter case preserved), content length, content type, connection and upgrade values, transfer and content codings, and body that were sent - nothing lost, added, merged or changed.",
     ["inputs"], "all valid requests: methods, targets, header lists, CRLF or bare LF line ends, body framings",
     "Tests compare a handful of literal requests; they do not vary header shapes, name case, empty values, bare LF, or combinations of the specially treated headers.",
     ["internal/protocol/http1/parser.go", "http/request.go", "http/proto/proto.go", "http/method/method.go"],
     "request line and header parsing, specially treated headers recognised by length and folded letters")

prop("C03", "Hostile bytes never crash, hang or derail the server",
     "Whatever bytes a client sends and wherever it stops, serving the connection neither panics nor spins, and what is written back is a sequence of complete, well-formed HTTP/1.x responses. A malformed request (bad request line, unsupported method or protocol, bad percent escape, header line without a valid name, non-numeric length) is never passed to a request handler: it gets one error response of the fitting class and the connection is closed without serving anything after it.",
     ["inputs", "fault_sequences"], "arbitrary byte streams, mutated valid requests, labelled malformations at any position of a pipeline, truncation at every point",
     "Tests try about ten fixed malformed requests, each alone on a connection.",
     ["internal/protocol/http1/parser.go", "internal/protocol/http1/suit.go", "internal/protocol/http1/serializer.go", "http/proto/proto.go"],
     "parser error states, error response path, connection loop")

prop("C04", "Configured limits are enforced for every request",
     "A request exceeding a configured limit (URI buffer, number of headers, header name or value length, total header space, body size, chunk size) is refused with the documented status (414, 431 or 413, chunk size by an error) and no handler ever receives more than the limit allows; a request within the limits is never refused on their account. This holds for every request on a connection, not only the first one.",
     ["inputs", "configurations"], "limit configurations x requests around each limit x position on the connection x segmentation",
     "Tests check two or three limits, with default settings and one oversized request each.",
     ["internal/protocol/http1/parser.go", "internal/protocol/http1/body.go", "config/config.go", "internal/construct/constructors.go"],
     "bounded segment buffers, header counter, remaining-body counters")

prop("C05", "Requests on one connection are isolated from each other",
     "Every request on a keep-alive or pipelined connection is observed by its handler, and answered, exactly as it would be as the first request of a fresh connection: no header, query, route parameter, body byte, content length, coding, upgrade, context, environment value, cookie, response header, status or default header leaks from or is lost because of earlier requests, and the connection's encryption mark stays.",
     ["histories"], "histories of requests and handler behaviours (reading all, some or none of the body; setting any response field) against each request alone",
     "Tests send identical or nearly identical requests in a row and look at the status only.",
     ["http/request.go", "http/response.go", "internal/response/fields.go", "internal/protocol/http1/serializer.go", "internal/protocol/http1/suit.go"],
     "request/response objects reused and cleared between requests, default header exclusion marks")

prop("C06", "Every way of reading the request body yields exactly the sent bytes",
     "Whichever reading methods a handler uses and mixes (whole body, string, callback, piecewise retrieval, reader with any buffer sizes, discard), it obtains the body's bytes in order, each once, with end-of-body reported exactly at the end, and the whole-body methods return the same again when repeated; a failing transfer, an over-long or malformed body is reported as that error and never as a shorter body, whatever length it announces. What a handler leaves unread is skipped, so the next request starts right after the body, and a body that failed ends the connection.",
     ["inputs", "histories", "fault_sequences"], "bodies (content-length and chunked, extensions, trailers) x segmentations x sequences of read operations x truncation points",
     "Tests read fixed bodies with one method each, from a looping dummy client that never fails.",
     ["internal/protocol/http1/body.go", "internal/stash/reader.go", "http/body.go", "http/request.go"],
     "plain and chunked body readers, pending buffer of the reader, end-of-body flag")

prop("C07", "Request boundaries are unambiguous: no request smuggling",
     "For every stream, either the server finds the same message boundaries as the HTTP/1.1 framing rules (transfer coding before content length, one well-formed content length), or it refuses the request and closes. In particular repeated or conflicting lengths, lengths that do not fit, spaces inside lengths, repeated or over-long transfer codings, or a chunked body that breaks the syntax never make body bytes be served as a request or request bytes be swallowed as a body.",
     ["inputs"], "requests with hostile framing headers followed by marker requests, all segmentations",
     "No test sends conflicting, repeated or overflowing framing headers.",
     ["internal/protocol/http1/parser.go", "internal/protocol/http1/body.go"],
     "content-length accumulation, transfer-encoding tokenisation, chunked flag")

prop("C08", "A response on the wire is exactly the response the handler built",
     "For every response a handler can build through the response builder (code, custom status text, headers, content type, cookies, body), the bytes sent parse back to the same status code and text, the same header lines plus the default headers that were not overridden, one Set-Cookie per cookie with all its attributes, a correct Content-Length and the same body; HEAD requests get the same head and no body. Registered status codes are sent with their standard text.",
     ["inputs"], "response builder programs x request methods and protocols x default headers",
     "Serializer tests use a few fixed responses; custom status text, repeated overrides and cookie attribute combinations are not varied.",
     ["internal/protocol/http1/serializer.go", "http/response.go", "http/status/codes.go", "http/cookie/cookie.go", "internal/response/fields.go"],
     "response line and header rendering, default header exclusion, cookie rendering")

prop("C09", "Streamed responses deliver the stream byte for byte",
     "A response built from a reader or file is delivered completely and in order whatever sizes the reader returns, including data together with end of stream: with Content-Length when the size is known and positive, otherwise chunked for HTTP/1.1 clients; headers and cookies are sent as for any response. The reader is closed exactly once in every case (HEAD, read failure, write failure), and a stream that fails part-way ends the connection instead of looking complete.",
     ["inputs", "fault_sequences"], "reader behaviours (piece sizes, data+EOF, errors at any point) x declared sizes x methods x write failures",
     "Tests stream one strings.Reader with and without size; no reader fails, returns data with EOF, or implements Close.",
     ["internal/protocol/http1/serializer.go", "internal/types/attachment.go", "http/response.go"],
     "plain and chunked streaming loops, attachment closing")

prop("C10", "One response per request, in order, and the connection persists as agreed",
     "Every complete request is answered by exactly one final response, in request order and before the server waits for further input. The connection stays open after a response exactly when HTTP/1.1 without Connection: close or HTTP/1.0 with Connection: keep-alive was requested, and whatever follows a closing request is never served; if writing fails, nothing more is written or served.",
     ["inputs", "histories", "fault_sequences"], "pipelines of mixed protocols, Connection values and response kinds x write failures at every point",
     "Tests check keep-alive for single plain responses; not streamed responses, HEAD, write failures or what follows a closing request.",
     ["internal/protocol/http1/suit.go", "internal/protocol/http1/serializer.go", "internal/tcp/server.go"],
     "keep-alive decision, serve loop, error on write")

prop("C11", "Routing picks exactly the registered endpoint",
     "For any set of registered routes (static and with {name} segments, over groups and resources) and any request, the router calls the one handler whose template matches the path segment by segment - a literal segment taking precedence over a parameter - and whose method matches, with exactly that template's parameters; a HEAD request without own handler uses the GET handler; a known path with another method yields 405 listing exactly the registered methods in Allow; any other path yields 404. Trailing slashes do not matter, and the answer does not depend on whether dynamic routes exist elsewhere or on registration order. A template whose parameter is not a whole, closed segment, a second handler for the same method and template, and a second name for the parameter at the same place are refused at registration instead of replacing each other. (Paths for which the literal choice leads to a dead end where a parameter would not are left open.)",
     ["programs", "inputs"], "route tables (up to dozens of routes per node) x request methods and paths",
     "Router tests use one fixed table and a few paths.",
     ["router/inbuilt/inbuilt.go", "router/inbuilt/registrar.go", "router/inbuilt/internal/radix/tree.go", "router/inbuilt/internal/radix/template.go", "router/inbuilt/internal/radix/arrmap.go", "router/inbuilt/uri/normalize.go", "router/inbuilt/types.go"],
     "static route map or segment tree chosen at start; array-to-map fallback for wide nodes; path normalisation")

prop("C12", "Middlewares run in the documented order around the right handlers",
     "For any nesting of groups, resources and per-route middlewares, a request passes the middlewares of the root, then of each enclosing group outside-in, then the route's own, each in registration order and exactly once, before its handler; a middleware that does not call the next one stops the chain, and middlewares of other groups never run. All this holds for every router made of the same fabric, e.g. one shared by several virtual hosts. Error handlers are wrapped in the root's middlewares only.",
     ["programs"], "router construction programs (nesting, order of Use and route calls) x requests",
     "Tests cover one two-level arrangement.",
     ["router/inbuilt/middlewares.go", "router/inbuilt/groups.go", "router/inbuilt/resource.go", "router/inbuilt/registrar.go", "router/inbuilt/catchers.go"],
     "handler composition at start-up, merging of sub-routers")

prop("C13", "Errors and uncaught paths go to the documented handler",
     "A request for an unknown path is passed to the catcher with the longest registered prefix of that path, if any, otherwise to the error handler for that code, otherwise to the catch-all error handler, with the error available in the request; a known path never reaches a catcher. Errors of the protocol layer reach the same error handlers, and without custom handlers the response carries the error's own status code. However a connection ends (unless it was hijacked), the router is told so exactly once and at last: by the protocol error, or by the close-connection error.",
     ["programs", "inputs"], "catcher sets x error handler registrations x requests and protocol errors",
     "Tests register one catcher and two error handlers.",
     ["router/inbuilt/inbuilt.go", "router/inbuilt/catchers.go", "router/inbuilt/route.go", "router/inbuilt/defaulterrhandlers.go", "router/simple/simple.go"],
     "catcher ordering by prefix length, error handler lookup")

prop("C14", "Static serving returns exactly the file under the root, never outside",
     "For any directory served under a prefix, including from groups, a request for prefix/relative-path is answered with exactly the bytes of that regular file and the content type of its extension, and with 404 if there is no such file. No request path, however encoded or concurrent with others, makes the server return anything that is not a file inside the directory.",
     ["inputs", "configurations", "schedules"], "directory trees x prefixes x request paths (dots, encodings, doubled slashes, siblings sharing the prefix) x concurrent requests",
     "There is no test of static serving; path tests cover three literal paths.",
     ["router/inbuilt/static.go", "internal/pathlib/pathlib.go", "http/response.go", "http/mime/exts.go"],
     "prefix replacement, double-dot check, file attachment")

prop("C15", "Concurrent connections never interfere",
     "However many connections are served at once by one application and router, every response corresponds to the request on its own connection, handlers observe only their own connection's data, and serving is free of data races.",
     ["schedules"], "interleavings of connections with different requests on static, dynamic, static-file, TRACE, error and streaming endpoints",
     "Tests open one or two connections at a time and are not run under the race detector.",
     ["router/inbuilt/inbuilt.go", "router/inbuilt/static.go", "router/inbuilt/trace.go", "internal/tcp/server.go", "http/serve/http1.go"],
     "router shared by all connections; per-connection request objects and buffers")

prop("C16", "Virtual hosts receive exactly their own requests",
     "With several hosts registered, a request goes to the router of the host named by its Host header, compared without regard to letter case, a leading www. and the default ports on either side; other hosts go to the default router or get 421. A request without Host goes to the default router or gets 400, and a request with several Host headers always gets 400. An error of a request (malformed data after its Host header) is handled by the error handler of the same router, never by one of another host.",
     ["programs", "inputs"], "host registrations x Host header lists",
     "Tests use two literal hosts.",
     ["router/virtual/virtual.go", "router/virtual/internal/domain/normalize.go"],
     "host normalisation at registration and lookup, default router")

prop("C17", "Percent-decoding of paths is exact and rejects bad escapes",
     "For every byte string, decoding its percent-encoding (any mix of escaped and literal bytes, upper or lower case digits) yields the original bytes; text with an incomplete or non-hexadecimal escape is rejected as a bad request rather than decoded to something else. The same holds for the path a handler observes.",
     ["inputs"], "all byte strings x encodings, all malformed escapes at every position",
     "Tests decode seven literals.",
     ["internal/uridecode/decoder.go", "internal/hexconv/hexconv.go", "internal/protocol/http1/parser.go"],
     "in-place decoding with a digit table")

prop("C18", "Query parameters are exactly those encoded by the client",
     "For every list of key-value pairs, form-encoding it (percent escapes, plus for space) into the request target gives the handler that same list in order, with keys lacking an equals sign given the documented default value; a malformed query is reported as an error on every access, without parameters. The raw query is returned as sent, before and after parsing, and a parameter is looked up by its key.",
     ["inputs", "histories"], "pair lists x encodings x access sequences, malformed queries",
     "Tests parse ten literal queries, none with an escaped separator, none twice.",
     ["http/query/query.go", "http/query/internal/parser.go", "internal/uridecode/decoder.go"],
     "lazy parse, splitting and decoding")

prop("C19", "Request cookies are exactly those sent",
     "For every list of cookies sent in one or several Cookie headers, the handler's jar holds exactly those name-value pairs in order, on every call and for every request of the connection; a malformed Cookie header is reported as an error.",
     ["inputs", "histories"], "cookie lists x header splits x repeated access x consecutive requests",
     "Tests parse three literal headers.",
     ["http/cookie/jar.go", "http/request.go"],
     "cookie line scanning, jar reuse")

prop("C20", "Header and parameter storage behaves as an ordered multimap",
     "After any sequence of additions and clears, the key-value storage behind headers, query, cookies and route parameters answers every lookup (first value, default, all values, presence, unique keys, pairs, length, iteration) like an ordered list of pairs with case-insensitive keys. A clone keeps its contents whatever happens to the original or to the memory its strings came from.",
     ["histories"], "operation histories against a list model",
     "Tests run one fixed sequence.",
     ["internal/keyvalue/storage.go", "http/headers/headers.go"],
     "linear pair list with reused result buffers")

prop("C21", "Header value accessors split value and parameters correctly",
     "For any header value built from a main value and semicolon-separated parameters, the accessors return the main value, each named parameter's value, the charset and the one-digit quality, and the given or documented default exactly when the parameter is absent.",
     ["inputs"], "values x parameter lists x lookups",
     "Tests check a handful of literals.",
     ["http/headers/valueaccessors.go"],
     "substring search of parameters")

prop("C22", "Partial configuration is completed with defaults, never altered",
     "For any partially filled configuration, every setting the user gave a non-zero value is in effect unchanged and every setting left zero takes the default value; the defaults themselves are never modified.",
     ["configurations"], "all configurations: every subset of fields set",
     "There is no test of completing a configuration.",
     ["config/config.go"],
     "field-by-field defaulting")

prop("C23", "Stopping the server is orderly",
     "After a graceful stop, no new connection is served while connections already accepted are served to their end; any other stop closes the listeners at once, without waiting for the connections; after any stop the serving call returns the matching error only when all accepted connections have finished, the stop callback runs exactly once after that, every listener is closed, and nothing is left running, so the application may be served again. Stopping never blocks the caller, and stopping repeatedly makes no difference. If any address cannot be bound, serving reports the error and leaves no listener open.",
     ["schedules", "histories", "fault_sequences"], "listeners x connections in flight x stop kinds x accept/bind failures",
     "Tests stop an idle server; no connection is in flight and no bind fails.",
     ["indi.go", "internal/tcp/server.go"],
     "accept loop, wait group, pause and stop over all listeners, hooks")

prop("C24", "Every listener serves its own connections with its own settings",
     "With any number of listeners (plain, custom, TLS), each accepted connection is handled by the handler of the listener it came from, its requests carry that listener's encryption mark from the first to the last, its connection is closed when serving ends, settings given to the application apply to every listener without a handler of its own no matter in which order they were added, and the bind callback is called once per bound address with the address being listened on.",
     ["configurations", "schedules"], "listener sets x connections per listener x requests per connection",
     "Tests run a single plain listener, or look only at statuses.",
     ["indi.go", "internal/tcp/server.go", "internal/address/address.go", "http/serve/http1.go"],
     "per-source handler closures, encryption token passing")

prop("C25", "Method, protocol and status tables are faithful",
     "Every supported method, protocol version and status code converts to its standard name and back, names are matched exactly (case-sensitive methods, full token), and anything else is classified as unknown. Every predefined error carries the status code its name says.",
     ["inputs"], "all registered values exhaustively, near-misses by generation",
     "Only a benchmark touches method parsing; tables are not compared with an independent source.",
     ["http/method/method.go", "http/method/method_string.go", "http/proto/proto.go", "http/proto/upgrade.go", "http/status/codes.go", "http/status/errors.go"],
     "hand-written and generated lookup tables")

prop("C26", "Listen addresses are completed and classified correctly",
     "For any host and port, an address without host listens on all interfaces at that port and any other address is kept as given; local-host and IP addresses are recognised with and without port, in any letter case, and nothing else is.",
     ["inputs"], "hosts (names, IPv4, empty) x ports",
     "Tests check five literals.",
     ["internal/address/address.go"],
     "port stripping")

prop("C27", "Stock middlewares do what they promise around any handler",
     "For any handler, including one that panics or returns no response: the recovering middleware turns a panic into a 500 and leaves everything else alone; the server header middleware adds exactly one Server header; the log middlewares record each request on one line of printable ASCII and change nothing; the redirecting middlewares redirect exactly the matching requests to the right location and pass on all others, and a location never contains bytes a client smuggled in.",
     ["inputs", "programs"], "middleware stacks x handler behaviours x requests",
     "There is no test of the stock middlewares.",
     ["router/inbuilt/middleware/recover.go", "router/inbuilt/middleware/serverheader.go", "router/inbuilt/middleware/logging.go", "router/inbuilt/middleware/httpsonly.go", "router/inbuilt/middleware/redirect.go", "router/inbuilt/middleware/customcontext.go", "router/inbuilt/mutator/requestlogger.go", "http/path.go"],
     "wrapper functions around the next handler")

prop("C28", "Protocol upgrade is announced once and applies to that request only",
     "When a request asks to upgrade to a supported HTTP/1.x version, the server first sends one 101 response naming the chosen protocol (the first supported in the client's order of preference) and then the final response in that protocol; unsupported upgrades are ignored. Repeating upgrades on one connection gives the same bytes each time, and requests without an upgrade are unaffected.",
     ["inputs", "histories"], "Upgrade header lists x protocols x sequences of requests on one connection",
     "A test sends one upgrade request.",
     ["internal/protocol/http1/suit.go", "http/proto/upgrade.go", "internal/protocol/http1/serializer.go"],
     "pre-response rendered ahead of the final response")

prop("C29", "Content codings round-trip through the coding manager",
     "For any set of registered codings, encoding and then decoding with the same token restores the data, identity and empty data pass through unchanged, each token reaches exactly the coding registered last under it (with x-gzip and x-compress as aliases), and an unknown token is an error.",
     ["inputs", "histories"], "registration sequences x tokens x data",
     "There is no test of the coding manager.",
     ["http/coding/codings.go"],
     "token map")

prop("C30", "Escaped text is printable ASCII and loses no printable byte",
     "For any path, escaping it for logs yields only printable ASCII, leaves printable ASCII text unchanged, and replaces every other byte - including every byte of multi-byte characters and invalid sequences - by its own two-character escape, with the documented letter for the named control characters.",
     ["inputs"], "all byte strings",
     "Tests check three literals.",
     ["http/path.go"],
     "byte scan with an escape table")

prop("C31", "TRACE echoes the request and nothing else",
     "A TRACE request on a route without own TRACE handler is answered with 200, type message/http and a body that is this request's line and header fields in order - never any byte of another request, on this or any other connection.",
     ["histories", "inputs"], "sequences of TRACE and other requests over several connections",
     "A test sends one TRACE request on a fresh router.",
     ["router/inbuilt/trace.go", "router/inbuilt/inbuilt.go"],
     "request re-rendering into a buffer")

prop("C32", "Connection reads form an exact byte stream",
     "For any sequence of reads and give-backs, the connection wrapper delivers exactly the bytes received, in order: given-back bytes come first, bytes arriving together with an error or the end are delivered before it, and the read deadline is renewed for every read from the socket. Wrapping piecewise data into a reader delivers the same bytes for any buffer sizes, with the final error after the last byte and again on later reads.",
     ["histories", "fault_sequences"], "operation sequences x received pieces x errors",
     "Tests use one or two fixed pieces and no errors.",
     ["internal/tcp/client.go", "internal/stash/reader.go", "internal/tcp/dummy/client.go"],
     "pending buffer, stored error")

prop("C33", "JSON bodies and responses round-trip",
     "For any model value, a JSON request body of it is decoded into an equal value and a JSON response of it carries the application/json type and text that decodes to an equal value, whatever body was set before and without changing memory that body came from; malformed JSON, foreign content types and values that cannot be encoded are reported as errors.",
     ["inputs"], "model values x content types x malformed texts x builder histories",
     "Tests decode one object and encode one.",
     ["http/request.go", "http/response.go"],
     "streaming encoder writing into the response body")

prop("C34", "Hijacking hands over the connection cleanly",
     "When a handler hijacks the connection, it receives the connection positioned right after the request body, including bytes already buffered, can exchange any bytes in both directions, and the server itself neither writes nor reads anything on it afterwards, apart from closing it when the handler returns.",
     ["inputs", "schedules"], "requests with and without unread body x following raw bytes x segmentations",
     "A test hijacks once with no buffered bytes.",
     ["http/request.go", "internal/protocol/http1/suit.go", "internal/tcp/client.go"],
     "body discard before hand-over, serve loop exit")

prop("C35", "Aliases and mutators act before routing, once per request",
     "Every mutator runs exactly once per routed request in registration order before routing, and an alias makes a request for its source path be routed, with method and query kept, exactly like a request for the target, with the original path recorded; requests for other paths are unaffected.",
     ["programs", "inputs"], "alias and mutator sets over groups x requests",
     "Tests cover one alias.",
     ["router/inbuilt/aliases.go", "router/inbuilt/mutator.go", "router/inbuilt/mutator/alias.go", "router/inbuilt/groups.go"],
     "path replacement before lookup")

prop("C36", "The string map returns the first value inserted under a key",
     "For any history of insertions, a lookup in the length-bucketed string map returns the value first inserted under exactly that key, and reports absence for every other key of any length.",
     ["histories"], "insert/lookup histories with colliding lengths",
     "A test inserts a few literals.",
     ["internal/strlenmap/map.go"],
     "buckets by key length, first match wins")

prop("C37", "A silent client is let go after the read timeout, an active one never is",
     "A client that sends nothing for the configured read timeout while the server waits for it - before, inside (head or body) or after a request - is let go exactly then: the connection ends, the router is told once, and a handler waiting for the body gets an error. A client that is never silent that long is never let go on this account, however slowly it sends, however long the whole takes and however long handlers run; everything complete before the silence is answered. The timeout set for an application applies to all its listeners, so a graceful stop completes even though clients stay connected.",
     ["schedules"], "client schedules (pieces and pauses) x handler durations x timeouts x the byte at which the client falls silent",
     "A test waits for one timeout; time cannot be enumerated by real waiting.",
     ["internal/tcp/client.go", "internal/protocol/http1/suit.go", "internal/construct/constructors.go", "http/serve/http1.go"],
     "deadline renewed before every read, read error ends the serve loop")

prop("C38", "Memory and other resources stay bounded whatever the traffic",
     "However many requests a connection carries and however many connections are served, and whatever names, paths, hosts and values they bring, nothing is kept of those that are over: memory, open files and goroutines do not grow with their number. Request bodies and streamed responses of any size pass in pieces without being collected unless the handler asks for the whole body, and a client that never finishes a request gets no more memory than the configured limits allow.",
     ["histories", "inputs"], "request and connection histories x endings x body and stream sizes x endless inputs",
     "A leak shows only over long histories; tests serve a few requests and do not look at what is kept.",
     ["internal/protocol/http1/suit.go", "internal/protocol/http1/parser.go", "internal/protocol/http1/body.go", "internal/protocol/http1/serializer.go", "http/request.go", "router/inbuilt/inbuilt.go", "internal/tcp/server.go"],
     "buffers cleared and reused per request, bounded buffers, piecewise reads and writes")

prop("C39", "TLS listeners present the right certificate, whatever the cache holds",
     "A TLS listener answers only over TLS, with the certificates given for it, those of the issuers included. AutoHTTPS on a local or IP address makes a self-signed certificate once and reuses it on later starts; missing, partial or mismatching files left in the cache by an interrupted start are replaced, a usable pair never is, and a new private key is readable by its owner only. On another address each domain gets its own cached certificate, and none is asked of the certificate authority for a domain that is not listed (any is, if none is listed). A certificate that cannot be loaded is reported by serving and leaves nothing listening; where no certificate can be made the address is not served at all rather than in plain.",
     ["fault_sequences", "histories"], "cache states (every truncation, every mixture of files) x repeated starts x addresses x domain lists",
     "No test starts a TLS listener; interrupted starts cannot be sampled by hand.",
     ["https.go", "indi.go"],
     "certificate generation into a cache directory, certificate manager with host policy")

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
