#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long records stay readable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

POOL="src/utils/concurrent/thread_pool.rs"; SRV="src/server/server.rs"; NODE="src/server/node.rs"; ROUTER="src/server/router.rs"
EXT="src/server/extend.rs"; LIM="src/server/limit.rs"; REQ="src/http/requester.rs"; RESP="src/http/response.rs"; CTX="src/server/context.rs"
CLI="src/client/client.rs"; RSP="src/http/responser.rs"; URLF="src/http/url/url.rs"; LOC="src/http/url/location.rs"; COOK="src/http/header/cookie.rs"
HDR="src/http/header/header.rs"; CT="src/http/header/content_type.rs"; ENC="src/http/header/encode_type.rs"; VAL="src/http/values.rs"; UI="src/http/url/authority/userinfo.rs"

p("P01","Every accepted pool task runs exactly once; a refused task never runs",
  "While a thread pool handle is alive, every task whose submission was accepted is executed exactly once, and a task whose submission was refused is never executed. Submission is refused only when the configured number of tasks is already waiting in the queue. This holds for any number of submitting threads (including tasks that submit further tasks) and any timing of submissions and completions.",
  ["schedules","histories"],"All interleavings (within a deviation bound) of 1-3 submitting threads, 1-3 workers and the pool's internal coordinator, for queue capacities 1-3 and 1-5 tasks.",
  "The four pool tests submit from one thread on an idle machine and assert nothing about completion; the hand-off between a worker going idle and a submission queueing a task needs a specific interleaving.",
  [POOL],[("execute: idle worker or queue","ThreadPool::execute"),("idle notification matching queue to workers","ThreadPool::notify_check")],
  [("worker_idle_queue","workers believed free",POOL),("task_queue","accepted tasks not yet handed to a worker",POOL)],
  ["task side effects","return value of execute"])
p("P02","A pool runs at most its size at once and uses all of it when work waits",
  "A pool created with size N never executes more than N tasks at the same time. Whenever tasks are waiting, N tasks are being executed: N mutually dependent tasks (each waiting for all the others to start) always complete, and no accepted task stays waiting while a worker has nothing to do.",
  ["schedules","configurations"],"All interleavings within a deviation bound for pool sizes 1-3 with rendezvous tasks submitted before, during and after other work.",
  "No test observes concurrency; both directions depend on the schedule.",
  [POOL],[("fixed worker set","Builder::create"),("idle queue of capacity pool_size","ThreadPool::notify_check")],None,["task side effects"])
p("P03","A panicking task neither stops the pool nor costs it capacity",
  "If a task panics, only that task is lost: every other accepted task still runs exactly once, later submissions are still served, and the pool again executes as many tasks simultaneously as its size. This holds for any number of panicking tasks in any position and timing.",
  ["schedules","fault_sequences"],"All placements of up to 3 panicking tasks in histories of up to 5 submissions, all interleavings within a deviation bound.",
  "No test lets a task panic, although refilling failed workers is the first thing the pool documents.",
  [POOL],[("sentinel drop requests a refill","Sentinel::drop"),("refill","ThreadPool::notify_check Fill")],None,["task side effects"])
p("P04","Dropping the last pool handle drains accepted work and frees every thread",
  "When the last handle of a thread pool is dropped, every task accepted before is still executed exactly once and afterwards all threads the pool created terminate. While any clone of the handle is alive the pool keeps working.",
  ["schedules","histories"],"All interleavings within a deviation bound of handle clones, drops, submissions and running (also panicking) tasks.",
  "The tests end the process without looking at the pool's threads; whether the last drop is noticed depends on the order of drops and completions.",
  [POOL],[("handle counting and close notification","impl Drop/Clone for ThreadPool"),("Close messages","Worker::work, ThreadPool::notify_check")],[("PoolState.count","number of handles",POOL)],["threads alive in the process"])
p("P05","A request runs the handler its method and path select, else gets 404",
  "For any set of registered routes a request is answered by the handler of a registered route of the same method whose pattern matches the path segment by segment (a ':name' segment matches any segment); when several match, at each level the alternative registered first wins, and alternatives that lead nowhere are abandoned for later ones. If no registered route matches, no handler runs and the response is 404. Registering two routes of the same method and shape, or a pattern not starting with '/', is refused at registration. Routes may be registered while the server is answering requests: from the moment the registration has returned they are served, and routes registered earlier are served throughout.",
  ["inputs","configurations","histories"],"All route tables of up to 4 patterns of up to 3 segments over a small alphabet with wildcards, in every registration order, times all request paths of up to 4 segments, for all 12 methods; also router groups with prefixes.",
  "Two fixed tables are tested, only with paths that match; non-matching prefixes, backtracking and registration order are never exercised.",
  [NODE,ROUTER],[("route tree","Node::add_fn/add_split"),("lookup with backtracking","Node::fetch_fn"),("group prefix concatenation","Router::repo_wf")],[("Root","one tree per method",NODE)],["handler invocations","response status"])
p("P06","Path parameters carry the path's segments under the matched route's names",
  "When a request runs the handler of a route, each ':name' of that route's own pattern is readable by the handler under that name with exactly the corresponding segment of the request path as value, and there are no other path parameters. This holds also when other routes use different parameter names at the same position.",
  ["inputs","configurations"],"All route tables of up to 3 patterns with differing parameter names in shared positions times all paths over a small alphabet.",
  "Tests bind two names in one table where no two routes name the same position differently.",
  [NODE,CTX],[("field collection during lookup","Node::fetch_fn"),("field accessors","Context::req_field/req_have_field/req_count_fields")],None,["Context::req_field"])
p("P07","Filters run in declared order, each once, and gate the handler",
  "For each request to a route, the route's own filters run in declared order, then the filters of its router group in declared order, then the handler, each exactly once. As soon as a filter sends the response, no later filter and no handler runs, and the client receives exactly that one response. Filters see the same request the handler sees, and changes a filter makes to the pending response are kept.",
  ["inputs","configurations","histories"],"All combinations of up to 3 route filters and up to 3 group filters, with every subset of them responding, for routes with and without own extension.",
  "No test runs a filter.",
  [ROUTER,EXT,SRV],[("merging group and route extension","Router::repo_wf"),("filter loop","Extend::check_filter"),("handler gate","server.rs exec_stream")],[("executed","whether a response was sent",CTX)],["filter and handler invocations","bytes on the wire"])
p("P08","A rate-limited route admits no more than its quota",
  "On a route limited to C requests per section of S milliseconds with minimum interval I, any two admissions that are C admissions apart are more than S milliseconds apart, and any two consecutive admissions are more than I milliseconds apart, also after idle periods and with simultaneous clients. Requests above the quota are delayed, and every one of them is admitted once the quota allows it; limits of one route do not affect others, routes that are given the same limit share its quota, and setting the wall clock changes none of this.",
  ["schedules","histories","configurations"],"All arrival patterns of up to 6 requests on a small grid of arrival times (including long idle periods) from concurrent connections, for several (S,C,I), under virtual time, with schedule deviations.",
  "The single limiter test prints and asserts nothing; quotas concern all arrival histories.",
  [LIM,EXT,NODE],[("admission thread","Limit::run"),("waiting for admission","Extend::check_limit")],[("times","times of the last admissions",LIM)],["virtual time of handler invocations"])
p("P09","What a handler sees does not depend on how TCP delivered the request",
  "For any well-formed HTTP/1.0 or 1.1 request (CRLF line ends, request line, 'Name: value' headers including Host, and for POST/PUT/PATCH a body of Content-Length bytes), of any head size, the handler runs once and observes the method, path, query, header values and form content that were sent, however the bytes are split over reads. The response is the same as if everything had arrived at once.",
  ["inputs","schedules"],"All one- and two-cut segmentations of a set of requests (GET/POST/PUT/PATCH, urlencoded and multipart bodies, heads below, at and above the read buffer size), byte-wise delivery, and segment arrival interleaved with reads.",
  "The only parse test reads one file in one read of at most 1024 bytes.",
  [REQ],[("head parsing","Requester::parse"),("body completion","Requester::fill_body")],None,["Context accessors in a handler"])
p("P10","No bytes from a client can take the server or a worker down",
  "Whatever bytes a client sends, and whenever it closes or resets the connection, no server thread panics or hangs on that connection after the client has closed it, and every other well-formed request is still answered as usual with the full number of workers. A client receives at most one response per request.",
  ["inputs","fault_sequences","histories"],"All single-byte mutations, deletions, truncations and token substitutions of a corpus of requests, all short byte strings over an HTTP alphabet, and connection resets at every I/O operation, each followed by a probe request.",
  "Tests feed one valid request.",
  [REQ,NODE,UI,CT,SRV,POOL],[("error responses","Requester::interrupt"),("worker refill","thread_pool.rs")],None,["panics","probe request"])
p("P11","Unacceptable requests are refused with the matching status, handler not run",
  "A request with an unknown method is answered 405, one for an unregistered resource 404, one without a Host header 417, one with an unsupported HTTP version 505, one with an invalid Content-Length on POST/PUT/PATCH 411, and one with undecodable credentials or an undecodable Cookie header 400. In each of these cases no filter or handler runs and the connection is closed after the one response.",
  ["inputs"],"All combinations of valid and invalid request elements (method, target, version, Host, Content-Length, Authorization, Cookie) for every method.",
  "No test sends an unacceptable request.",
  [REQ],[("interrupt responses","Requester::parse*"),("close after error","server.rs handle_connection")],None,["response status","handler invocations"])
p("P12","A kept-alive connection answers each request once, in order, independently",
  "On a connection whose requests carry 'Connection: keep-alive', each request is answered exactly once and in order, and the connection stays open for the next one; after a request without it (or with any other value) the response is sent and the connection is closed. The response announces 'Connection: keep-alive' exactly when the connection stays open. Each response depends only on its own request: nothing of earlier requests on the connection (headers, parameters, form, cookies, response headers) is visible to later ones.",
  ["histories","schedules"],"All sequences of up to 4 requests of several kinds (keep-alive, close, POST with form, unknown resource, HTTP/1.0 and 1.1) with all interleavings within a deviation bound.",
  "No test opens a connection.",
  [SRV,HDR],[("connection loop","loop_exec/exec_stream"),("connection persistence decision","Header::check_close")],None,["bytes on the wire","end of stream"])
p("P13","Idle kept-alive connections are closed after the timeout, never before",
  "A kept-alive connection on which no further request arrives is closed by the server once the configured keep-alive time has passed since the last request was handled, and the threads serving it are released. A connection that keeps sending requests at intervals shorter than the timeout is not closed because of it; the timeout restarts with every handled request. Setting the wall clock forward or back changes none of this.",
  ["schedules","histories","configurations"],"All sequences of up to 4 requests with inter-arrival times on a grid around the timeout, under virtual time with schedule deviations.",
  "Needs control of time and connections; no test has either.",
  [SRV],[("timeout thread","check_keepalive"),("timeout restart","loop_exec")],None,["virtual time of end of stream"])
p("P14","Concurrent connections are isolated and every one of them is served",
  "Requests arriving at the same time on different connections each receive the response to their own request, complete and unmixed. With N pool threads, N connections are served simultaneously, never more, and connections beyond that are served as soon as others end; only connections beyond the pool's queue of 100 are closed unanswered, without any effect on the others.",
  ["schedules","configurations"],"All interleavings within a deviation bound of 2-4 connections against 1-3 workers, with short writes and split reads.",
  "No test runs the server; interference needs specific schedules.",
  [SRV,POOL,NODE],[("one task per connection","HttpServer::listener"),("shared route tree","RwLock<Root>")],None,["bytes on the wire per connection"])
p("P15","The bytes on the wire are exactly the response the handler built",
  "For any sequence of response operations in filters and handler, the client receives one well-formed HTTP message: the chosen version and status with its standard phrase, every header value set or added (set replaces, add appends), one Set-Cookie line per added cookie, the media type last given (text/plain where a body is written without one), and the last body written, with a Content-Length equal to the number of body bytes sent. Partial socket writes do not change the bytes delivered.",
  ["inputs","histories","fault_sequences"],"All sequences of up to 3-4 response operations from an alphabet of about 20 operations, for both versions and connection modes; all short-write patterns at each write.",
  "The one response test bypasses serialization and is failing.",
  [CTX,RESP,REQ,VAL],[("serialization","Requester::response"),("body bookkeeping","Response::write*")],None,["bytes on the wire"])
p("P16","Compressed responses are labelled and decode to the handler's body",
  "If and only if the server has compression enabled and the client accepts gzip, deflate or zlib, a response body may be sent compressed; it is then labelled with that coding in Content-Encoding and decodes with it to exactly the bytes the handler wrote, otherwise the body is sent as is and is not labelled. Content-Length always counts the bytes sent, and the coding used is one the client listed, gzip before deflate before zlib.",
  ["inputs","configurations"],"All ordered subsets of accept-encoding tokens (also with spaces and unknown tokens), all four body operations, bodies of length 0 to large and of several redundancies, compression on and off, and repeated body writes.",
  "Codec tests round-trip one string; nothing checks what a response declares.",
  [RESP,ENC,HDR,"src/utils/compress.rs"],[("coding choice","AcceptEncoding::best"),("compress on write","Response::write_type/write_slice_type")],None,["bytes on the wire"])
p("P17","Query parameters reach the handler under their names with their values",
  "For a request target 'path?name=value&...' the handler sees exactly the listed parameters: the name is the text before the first '=' of each '&'-separated piece and the value the text after it, verbatim; a piece without '=' is a name with empty value, empty pieces are ignored, and the last occurrence of a name wins. The path is the text before the first '?', and a '#fragment' is part of neither.",
  ["inputs"],"All request targets of up to 6 characters over the alphabet { / a b ? = & # } following a registered path, compared with a reference parser.",
  "One target is tested.",
  [LOC,REQ,CTX],[("target parsing","Location::from_bytes"),("parameter storage","Requester::parse_request_line")],None,["Context::req_param/req_have_param/req_count_param/req_path"])
p("P18","URL-encoded form fields reach the handler under their names",
  "For a POST, PUT or PATCH request with Content-Type application/x-www-form-urlencoded the handler sees exactly the fields of the body: the name is the text before the first '=' of each '&'-separated piece and the value the text after it, verbatim; a piece without '=' is a name with empty value, empty pieces are ignored, and the last occurrence of a name wins.",
  ["inputs"],"All bodies of up to 7 characters over { a b = & CR LF } compared with a reference parser, for the three methods.",
  "No test parses a url-encoded form.",
  [REQ,CTX],[("form parsing","Requester::parse_body"),("body collection","Requester::fill_body")],None,["Context::req_form/req_have_form/req_count_form"])
p("P19","Multipart fields and files are delivered byte for byte",
  "For a multipart/form-data request body built from any list of text fields and files, the handler reads each text field's value under its name and each file's name and exact content under its field name, whatever bytes the contents consist of (including CR, LF, NUL and prefixes of the boundary). A body that is not valid multipart never panics and never yields invented content.",
  ["inputs"],"All lists of up to 3 parts with contents from all short strings over an alphabet of CR, LF, '-', the boundary and ordinary bytes; truncations and mutations of such bodies.",
  "One LF-delimited body is tested.",
  [REQ,VAL],[("multipart parsing","Requester::parse_body"),("file storage","MultipartValues")],None,["Context::req_form/req_form_file"])
p("P20","Request cookies reach the handler with their names and values",
  "For a 'Cookie' header of 'name=value' pairs separated by ';' with optional spaces the handler sees exactly those cookies, in order, with the given names and values, and looking up a name gives the first cookie of that name. A pair that is not of this form is refused with 400 and never misread.",
  ["inputs"],"All Cookie header values of up to 7 characters over { a b = ; space } compared with a reference parser.",
  "No test reads request cookies.",
  [COOK,REQ],[("cookie parsing","Cookie::read_cookies"),("lookup","Requester::cookie_get")],None,["Context::req_cookies/req_cookie_get"])
p("P21","A cookie set on a response reads back as the same cookie",
  "For any cookie built from a name, a value and any combination of path, domain, expiry (whole seconds), max-age, secure, http-only and same-site attributes, adding it to a response and reading the response's cookies yields an equal cookie, in the order added. The header sent contains exactly the attributes that were set.",
  ["inputs","histories"],"All 2^7 attribute subsets with several values each, in lists of up to 3 cookies, under several current times.",
  "Three cookies without path, domain, expiry or same-site are tested.",
  [COOK,HDR,RESP],[("serialization","Cookie::to_string"),("parsing","Cookie::read_set_cookies")],None,["Response::read_set_cookies","Set-Cookie header"])
p("P22","Basic credentials are delivered exactly, or refused",
  "If a request carries 'Authorization: Basic' with the base64 of 'user:password', the handler sees exactly that user name and password, the password being everything after the first colon. Undecodable credentials are answered 400; requests without the header or with another scheme are served without credentials; no header value makes the server fail.",
  ["inputs"],"All user/password pairs of up to 3 characters over { a b : } and all Authorization values of up to 8 characters over a small alphabet, compared with a reference decoder.",
  "Only the encoder is tested, on one pair.",
  [UI,HDR,REQ],[("decoding","Userinfo::from_basic")],None,["Context::req_userinfo"])
p("P23","A client request goes to the URL's host and port and asks for its target",
  "For any URL [http://][user:password@]host[:port][/path][?query][#fragment] a GET connects to exactly that host and port (80 by default, 443 for https), and the one request sent has that path ('/' if none) and query as its target, a Host header naming the host, and the credentials, if any, as Basic authorization. An invalid URL yields an error and no connection.",
  ["inputs","fault_sequences"],"All URLs composed from alternatives for each component, hosts beginning with every prefix of 'https', and short writes at each write call.",
  "The URL tests print the parse result and assert nothing.",
  [URLF,LOC,CLI,RSP,"src/http/request.rs"],[("URL parsing","URL::from"),("request writing","Responser::request")],None,["address connected to","bytes sent"])
p("P24","The client returns exactly the response the server sent, or an error",
  "For any HTTP/1.0 or 1.1 response with a known status and without a transfer coding, the client returns its headers' cookies with their attributes (an attribute value it cannot read costs that attribute only) and exactly the body bytes sent, however the bytes are split over reads, for every status phrase and with or without Content-Length; bytes after a body of stated length are not part of it. A connection refused, reset, or closed before the announced body is complete yields an error, never a panic, a hang or a truncated body passed off as complete.",
  ["inputs","fault_sequences","schedules"],"All known status codes, bodies over an alphabet with CR, LF and NUL, all one-cut segmentations and byte-wise delivery, truncation at every byte, and resets at every read.",
  "No test runs the client.",
  [RSP,CLI],[("response parsing","Responser::parse")],None,["HttpClient::get result"])
p("P25","The library's client and server understand each other",
  "For any path, query and handler response (status, headers, cookies, body), a GET by this library's client to this library's server runs the handler once with that path and query and returns the handler's body and cookies to the caller. Several clients at once do not disturb each other.",
  ["inputs","schedules"],"All combinations of a set of targets and handler responses; all interleavings within a deviation bound of two simultaneous clients.",
  "The examples need a running server and are not tests.",
  [CLI,RSP,SRV,REQ,RESP],[("client","HttpClient::get"),("server","HttpServer::listener")],None,["HttpClient::get result","handler invocation"])
p("P26","String multimaps behave as ordered lists of values per key",
  "After any sequence of set, add and del operations, get returns the first value of a key, vec all its values in insertion order, contain whether it has any, and len the number of keys, where set replaces all values of a key, add appends one and del removes the key and returns its first value. Operations on one key never change another.",
  ["histories"],"All operation sequences up to length 6 over 2-3 keys and 2 values, by explicit-state exploration of a reference model replayed on the implementation; likewise for the file map.",
  "Three short sequences are tested.",
  [VAL],[("multimap","Values"),("file map","MultipartValues")],None,["Values and MultipartValues accessors"])
p("P27","Base64 and hex decoding invert encoding and reject everything else",
  "For every byte string, decoding its base64 or hex encoding returns it, through every overload, and the encodings are the standard ones. Decoding a text that is not a valid encoding returns an error, never a panic or invented bytes.",
  ["inputs"],"All byte strings up to length 2 and all of length 3 over representative bytes, and all texts up to length 4 over an alphabet of valid, padding and invalid characters, against an independent implementation.",
  "One string is tested.",
  ["src/utils/cryptos/base64.rs","src/utils/cryptos/hex.rs"],[("codec","Base64, Hex")],None,["encode/decode results"])
p("P28","Time values add, subtract, convert and format consistently",
  "Adding any amount in any unit moves a time by exactly that amount and subtracting it restores the original; unit conversions truncate consistently. Formatting a time and parsing it back yields the same time to the second for every format that has full date and time, and the formatted fields are those of the proleptic Gregorian calendar; a text whose fields are out of range is rejected.",
  ["inputs","histories"],"All sequences of up to 4 add/sub operations over all units from a grid of base times (epoch, leap days, century years, month and year ends, negative times), and every day of 1900-2100, against an independent calendar.",
  "One base time after 2021 is tested.",
  ["src/utils/time.rs"],[("duration arithmetic","Time::add*/sub*"),("formatting","Time::format*")],None,["Time accessors"])
p("P29","Log records go to the files of the modules they are configured for",
  "After a logging configuration with a main log and any set of modules (distinct names and packages, none nested in another), a record from a module's package is written to that module's file exactly when it passes the module's level, and then also to the main file exactly when the module is additive; any other record is written to the main file exactly when it passes the main level. A module without directory or limits uses the main ones. Each record appears once per file, complete and in order, also with several threads and across reconfigurations. A file is rolled when it exceeds its maximum size and the configured number of rolled files is kept; nothing else is lost. A configuration that cannot be used leaves the previous one in force and does not prevent later ones.",
  ["inputs","configurations","histories"],"All combinations of main level, module levels, additive flags, directories, record level and record target, all sequences of four of ten configurations, unusable configurations between usable ones, rolling by size, and interleavings of logging threads.",
  "The log test asserts nothing.",
  ["src/utils/log.rs"],[("configuration","LogModule::config"),("reconfiguration","LogModule::config_log")],None,["contents of log files"])
p("P30","Protocol names and numbers convert back and forth without loss",
  "Every method, version, status and scheme converts to its standard text or number and back to itself, distinct values have distinct texts, and texts or numbers that are not one of them are rejected rather than mapped to something else. Media types given by the standard text map to the type whose text is the same.",
  ["inputs"],"All method, version and status constants, all u16 status codes, all strings up to length 3 and all one-edit neighbours of valid texts.",
  "A handful of constants is tested.",
  ["src/http/method.rs","src/http/status.rs","src/http/version.rs",CT],[("tables","Method, Status, Version, ContentType")],None,["conversion results"])
p("P32","Compressed data decompress to what was compressed, and nothing else does",
  "For every byte string and compression level, gzip, zlib and deflate produce a complete standard stream that decompresses to exactly that string. A truncated stream is rejected, so is a damaged gzip or zlib stream unless it still decompresses to the original, and no input makes decompression panic.",
  ["inputs"],"All byte strings up to length 2, all strings over a small alphabet, lengths around window and block sizes at all levels, truncation at every byte, every byte changed to every value, and all short token strings, against an independent decoder.",
  "One string per format is tested.",
  ["src/utils/compress.rs"],[("codecs","Compress")],None,["Compress results"])
p("P31","A handler sees who is calling and what kind of request it is",
  "The client address a handler reads is the address of the peer of the connection the request came on, also with several connections open. The websocket test answers true exactly for requests whose Connection header is 'Upgrade' and whose Upgrade header is 'websocket' (in any letter case).",
  ["inputs","schedules"],"All combinations of the two header values from a set of spellings and absences; up to 3 simultaneous connections from distinct addresses with interleavings.",
  "No test builds a context.",
  [CTX,REQ,SRV],[("address capture","HttpServer::listener"),("accessors","Context::req_client_addr, req_is_web_socket")],None,["Context accessors"])

p("P33","Request headers reach the handler, recognised in any letter case",
  "For each line 'Name: value' of the request head (names distinct apart from letter case) the handler finds under that name, as sent, exactly the value: the text after the first ':' without the blanks (spaces and tabs) before and after it. The header map holds these and nothing else; a line without ':' adds nothing. The headers the server itself interprets (Host, Content-Length, Content-Type, Cookie, Connection, Accept-Encoding, Authorization, Upgrade) have their effect in any letter case of the name and with any blanks around the value.",
  ["inputs"],"All values up to 5 characters over the alphabet { a B : space tab = ; , quote non-ASCII }, all sequences of up to 5 header lines of 13 kinds, all letter-case spellings of the interpreted names, any number of headers and lengths of names and values up to 1000.",
  "One header section is tested, in canonical spelling.",
  [REQ,HDR,CTX],[("header parsing","Requester::parse_request_header"),("lookup without regard to case","Header::find")],None,["Context::req_header, req_header_get","effects of the interpreted headers"])

THR_="src/utils/concurrent/thread.rs"
p("P34","Pool workers have the configured name, stack and number, also later on",
  "Every task of a thread pool runs on a thread whose name is the configured prefix followed by a number, with a stack of at least the configured size (Rust's default where none is configured), and tasks that run at the same time run on differently named threads. This holds for every way of building the pool (new, new_with_name, new_custom, default, a builder, a builder used again) and also for the workers that replace panicked ones. size() is the configured number; the default queue holds 100 tasks. Thread::spawn, spawn_on_name and spawn_on_custom run the function exactly once on a thread with that name and at least that stack, and joining it gives the function's value or its panic.",
  ["configurations","schedules"],"All constructors x 9 prefixes x 7 stack sizes x pool sizes up to 5 (12) x 4 panic patterns; schedules of pools of 2 and of single threads.",
  "The tests print the names and assert nothing; replacements never occur in them.",
  [POOL,THR_],[("worker threads","Worker::new"),("builder","Builder"),("threads","Thread::spawn_on_custom")],[("PoolState.name_prefix, stack_size","configuration used for replacements too",POOL)],["std::thread::current().name()","stack size of the running thread","ThreadPool::size"])
p("P35","Refused threads and descriptors cost nothing but what needed them",
  "When the operating system refuses a thread or a descriptor nothing else is lost. Creating a pool or a thread returns an error instead of panicking and leaves no thread behind. A pool whose replacement for a panicked worker is refused still executes every accepted task exactly once, has its full size again as soon as threads can be created, and ends completely when dropped. A server answers every request at most once and never sends anything unasked; a connection it cannot keep open it closes, and every connection it keeps is closed after the idle timeout; connections not concerned are unaffected, and afterwards everything is served by all workers as before.",
  ["fault_sequences","schedules","configurations"],"Every pattern of refused thread creations over pools of up to 8 (10) workers, over the first 7 (8) replacements, of refused socket duplications over the first 12 (14), of refused accepts over the first 6 with each error, times histories of tasks and kept-alive connections; selected patterns under every schedule up to the bound.",
  "No test can make the system refuse anything.",
  [POOL,THR_,SRV],[("pool creation","Builder::create, ThreadPool::init"),("replacement","ThreadPool::notify_check Fill"),("idle timer of a connection","loop_exec"),("accept loop","HttpServer::listener")],None,["results of the constructors","task side effects","threads alive in the process","bytes on the wire"])
p("P36","A server listens on the first usable address, or says why not",
  "HttpServer::listener listens on the first of the given addresses that can be bound and serves the server's routes there; when none can be, or the system refuses the threads for its pool, it returns the error and leaves no thread and no socket behind, other servers keep serving, and the same server can be started elsewhere. Several servers in one process each serve their own routes on their own port, and one server may listen on several ports.",
  ["configurations","fault_sequences","schedules"],"All address lists up to length 4 (5) over free, used, foreign and unlistenable addresses, address texts, port 0, thread refusals, all orders of 6 requests over 3 listeners, and their schedules.",
  "Every test that listens uses one free port and never returns.",
  [SRV],[("binding","HttpServer::listener"),("routes shared by clones","HttpServer.root")],None,["result of listener","listening sockets","responses"])

with open("/verif/properties.jsonl","w") as f:
    for r in P: f.write(json.dumps(r,ensure_ascii=False)+"\n")
print(len(P))
