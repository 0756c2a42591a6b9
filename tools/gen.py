#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and propmeta.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "src/bindings/cpp/"
R = "src/onion/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), note="", assume=(), scen=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, state=state, note=note, assume=assume, scen=scen))

prop("P01", "Requests reach the handler as sent, however the network segments them",
     "For every well-formed HTTP request, the handler observes exactly the method, path, query, headers, cookies and body (form fields, uploaded files, raw data) the client sent, no matter how the network splits the bytes into segments, how short the reads are, or which other requests preceded it (each sent after the previous response) on the same connection. A well-formed request is never rejected, merged with a neighbour or lost.",
     ["inputs", "schedules", "histories", "configurations"], "all well-formed requests within the size limits, all segmentations of their bytes, all sequences of requests on a connection, all server modes",
     "The tests parse whole requests from memory or from a few fixed splits; the number of split points times parser states is unbounded, and state carried from one request to the next is only exercised for a couple of sequences.",
     [R + "request_parser.c", R + "request.c", R + "http.c", R + "codecs.c", R + "dict.c"], [("incremental tokenizer and request parser", R + "request_parser.c"), ("request reset between requests of a connection", R + "request.c")],
     ["the request accessors used by a handler", "the response the client receives"], [("parser state", "what the next byte means", R + "request_parser.c")], scen="fidelity")
prop("P02", "Uploads arrive intact or not at all, and leave no temporary files",
     "A file or body that reaches the handler (multipart upload or PUT) holds exactly the bytes the client sent, stays available unchanged while the handler runs and is never shared between requests; when the disk or the connection fails, the request is refused instead of delivering altered or truncated data. Once the request ends, for whatever reason, its temporary files and descriptors are gone.",
     ["inputs", "fault_sequences", "schedules", "crash_points"], "all uploads, all positions of disk errors, short writes, full disks and dropped connections, all interleavings of concurrent uploads",
     "Tests upload a few small files to a healthy disk and never inject a disk error, a short write or a disconnect in the middle of the body.",
     [R + "request_parser.c", R + "request.c"], [("multipart and PUT body writers", R + "request_parser.c"), ("release of request files", R + "request.c")],
     ["file contents seen by the handler", "the temporary directory", "open descriptors"], scen="intact, diskfaults")
prop("P03", "The client receives exactly the response the handler produced",
     "The status, headers, cookies (each with the attributes and expiry asked for) and body bytes the handler produced reach the client exactly once, in order, with valid HTTP framing for the client's protocol version, whatever write sizes the handler uses and however little the network accepts at a time; the connection stays open or closes as announced. If the connection fails midway, the client only sees a prefix it can recognise as incomplete, and other connections are unaffected.",
     ["inputs", "schedules", "fault_sequences", "histories"], "all sequences of response operations and body sizes, all patterns of short, interrupted and failed writes, all sequences of responses on a connection",
     "Tests check a handful of responses on sockets that always accept everything; partial writes, stalls and failures at each byte are never produced.",
     [R + "response.c", R + "http.c", R + "request.c"], [("response buffering, chunking and header emission", R + "response.c"), ("keep-alive decision", R + "response.c")],
     ["the byte stream received by the client"], scen="framing, failing")
prop("P04", "Every request is handled exactly once and in isolation, and service never stalls",
     "In every server mode, each complete request is given to the handler exactly once, with its own data, and its response goes to its own connection in the order of that connection's requests; handlers of one connection never overlap. Misbehaving or vanishing clients and transient system errors never stop service to other clients: while a worker is free, ready requests are answered in bounded time, and a new client is served once the faults stop.",
     ["schedules", "fault_sequences", "histories", "configurations"], "all interleavings of worker threads, all mixes of correct, slow, silent, malformed and vanishing clients, all sequences of accept, poll and network faults",
     "Tests run one real schedule per execution with cooperative clients; races between workers and error paths of system calls are not reached.",
     [R + "poller.c", R + "listen_point.c", R + "onion.c", R + "request.c", R + "http.c"], [("one-shot epoll arming and per-descriptor slots", R + "poller.c"), ("accept path", R + "listen_point.c")],
     ["handler invocations", "responses per connection"], [("slot list", "descriptors watched and their callbacks", R + "poller.c")], scen="normal, hostile, faults, blocked")
prop("P05", "Idle connections time out on time, active ones do not",
     "With a connection timeout of T seconds, a connection on which nothing happens (idle, or in the middle of sending a request) is closed no earlier than T-1 and no later than about T+1 seconds after its last activity, whatever other connections do, whenever it was opened, and however the wall clock jumps. A connection with activity at shorter intervals, or whose handler is still running, is never closed by the timeout, and a negative timeout disables it.",
     ["schedules", "histories", "inputs", "configurations"], "all timings of connections and activity relative to each other and to second boundaries, all timeout values, all wall clock jumps",
     "Tests check one timeout with one connection in real time; the failures depend on coincidences of several connections within one second.",
     [R + "poller.c", R + "listen_point.c", R + "onion.c"], [("timer scan and re-arming", R + "poller.c"), ("receive timeout of the socket", R + "listen_point.c")],
     ["the time at which the client sees the connection closed"], [("timer limit", "when the next scan happens", R + "poller.c")], scen="expire, forever")
prop("P06", "A server can be stopped, restarted and freed at any moment",
     "Once a server is serving, a stop request from another thread, from a handler or by SIGTERM/SIGINT always makes listening end in bounded time in every mode, without deadlock or crash, after finishing and answering the requests whose handlers had started; afterwards no port is open and no handler runs. The server can then listen again and serves as before, and freeing it closes every connection and releases everything; listening reports failure if no port could be opened, and serves on the ports that could.",
     ["schedules", "crash_points", "histories", "fault_sequences", "configurations"], "all moments and origins of the stop request relative to all threads, all cycles of listen and stop, all failures to create threads or open ports",
     "Tests stop an idle server from one place; the races between stop, workers, signals and start-up need particular interleavings.",
     [R + "onion.c", R + "poller.c", R + "listen_point.c"], [("stop and join protocol", R + "onion.c"), ("poller stop notification", R + "poller.c")],
     ["return of listen and stop calls", "open ports and descriptors", "responses of requests in progress"], scen="cycle, startfaults")
prop("P08", "Configured size limits hold, exactly and for every arrival pattern",
     "A request whose form body is within the configured limit and whose uploaded files are within the configured limit is accepted and delivered complete; one that exceeds a limit, by its announced length or by what it really sends, is refused without reaching the handler as if it were complete. However the body is split or announced, the server never keeps in memory more than a small multiple of the form limit, nor on disk more than the file limit, per request.",
     ["inputs", "schedules", "configurations", "histories"], "all limits, body kinds, sizes around the limits, announced lengths (absent, false, huge) and segmentations",
     "Tests try one value below and one above a limit in one write; boundaries with every part layout and segmentation, and the memory used on the way, are not sampled.",
     [R + "request_parser.c", R + "onion.c"], [("body accounting in the parsers", R + "request_parser.c")],
     ["status and data seen by the handler", "peak memory and disk use while the request is read"], scen="limits")
prop("P09", "No input makes the server misbehave",
     "Whatever bytes any number of clients send, in whatever pieces and however they leave, the server never reads or writes outside its memory, never crashes, never loops or hangs, and never leaks memory, descriptors or temporary files; correct clients connected at the same time are served normally. Connections that send garbage end with an error response or are closed, at the latest by the timeout.",
     ["inputs", "schedules", "fault_sequences", "histories"], "all byte sequences as input (random, mutated and hostile requests of every kind), all segmentations, abandonments and interleavings with correct clients",
     "The space of malformed input times arrival patterns is unbounded; tests contain a few dozen fixed malformed requests delivered at once.",
     [R + "request_parser.c", R + "http.c", R + "request.c", R + "codecs.c", R + "dict.c"], [("incremental request parser", R + "request_parser.c"), ("percent and form decoding", R + "codecs.c")],
     ["memory errors (address sanitizer)", "progress", "live allocations and descriptors", "responses of correct clients"], scen="garbage")
prop("P10", "Session data belongs to its user, in every backend",
     "With the memory, sqlite and redis backends, a handler sees in the session exactly what earlier answered requests of the same session left there (any text, nested data), on whatever connection they arrive, and never anything of another session; unknown or guessed ids see nothing and are never adopted, and sessions that were emptied or dropped are gone. The client is told the id of its session whenever the session holds data. Concurrent requests, and a store that fails at any operation, never crash, leak, hang or mix sessions.",
     ["histories", "schedules", "inputs", "fault_sequences", "configurations"], "all sequences of session operations by all users over all connections, all contents, all interleavings, all failures of the store",
     "Tests use one user with simple values and a store that works; concurrency of tabs and users, odd contents and failing stores are not sampled.",
     [R + "sessions.c", R + "sessions_mem.c", R + "sessions_sqlite3.c", R + "sessions_redis.c", R + "request.c", R + "response.c", R + "dict.c"], [("session lookup and saving", R + "request.c"), ("serialisation", R + "dict.c")],
     ["session contents seen by handlers", "session cookies in responses"], scen="users, shared, storefaults", assume=["the redis server is a model of GET/SET/HGET/HSET/HDEL semantics", "sqlite is the installed library on a simulated disk"])
prop("P11", "Answered session changes survive a crash",
     "With the sqlite backend, once a client has received a complete response, the session as that request left it is found by a server started after the process is killed or the machine loses power at any later point, even if it dies again while starting. A request in progress at the crash has changed the session completely or not at all, and no other session is affected.",
     ["crash_points", "histories", "schedules", "fault_sequences"], "all crash points between any two disk operations or at any time, all losses and tears of unsynced writes, all histories of sessions before it",
     "No test crashes the process; which writes survive is decided by the moment of the crash and the kernel.",
     [R + "sessions_sqlite3.c", R + "sessions.c", R + "request.c"], [("session saved before the response completes", R + "request.c"), ("store statement", R + "sessions_sqlite3.c")],
     ["session contents seen by handlers after the restart"], scen="crash", assume=["removal of a file is durable at once (sqlite's default leaves that to the filesystem)", "a 512-byte sector write is atomic"])
prop("P13", "WebSocket messages arrive whole, in order and exactly once, both ways",
     "After a valid upgrade, every data frame a client sends (any opcode, any length, masked or not, fragmented or interleaved with control frames, however the network splits it, plain or over TLS) is delivered to the websocket callback with exactly its payload, in order, and every message the handler writes, of any length, arrives at the client as one valid frame with exactly that payload. Pings are answered with their payload, a close is answered and ends the websocket, and a broken or vanished client ends it in bounded time without disturbing other connections or leaking anything. A request that is not a valid upgrade never becomes a websocket.",
     ["inputs", "schedules", "fault_sequences", "histories"], "all sequences of frames in both directions, all lengths and segmentations, all disconnections, all server modes",
     "The tests exchange a few short frames over a connection that delivers everything at once.",
     [R + "websocket.c", R + "http.c", R + "https.c", R + "request.c"], [("frame header parser and masking", R + "websocket.c"), ("websocket loop of a connection", R + "websocket.c")],
     ["payloads given to the callback", "frames received by the client"], [("frame state", "bytes left of the current frame and its mask", R + "websocket.c")], scen="websocket")
prop("P14", "An exported directory serves exactly its files, and nothing outside of it",
     "A request below an exported directory is answered with exactly the content of the file its path resolves to, whole or the single byte range it asked for (with the matching status, length and range), with the content type the system's table gives to its extension, with only the headers for HEAD and with 'not modified' only if the client really has that content; a directory is answered with a listing of its visible entries. Whatever the path (dots, encodings, symbolic links, names that start like the exported one), no file or directory outside of the exported one is opened or sent. If the file is replaced, shrinks or can not be read while it is served, the client gets one of its contents, or a response it can tell is incomplete, and the server goes on.",
     ["inputs", "schedules", "fault_sequences", "histories"], "all trees and links, request paths, ranges and conditions, all moments at which files are replaced or cut, all disk and network errors",
     "Tests ask for a handful of paths and ranges of files that do not change, on a disk and a network that never fail.",
     [R + "handlers/exportlocal.c", R + "shortcuts.c", R + "mime.c", R + "url.c"], [("containment check", R + "handlers/exportlocal.c"), ("file response with ranges and etags", R + "shortcuts.c")],
     ["the response of the client", "paths opened by the server"], scen="serve, replaced, diskfaults")
prop("P15", "A WebDAV share does what it acknowledges, atomically, and only inside of it",
     "Every PUT, DELETE, MOVE, MKCOL, PROPPATCH, GET, HEAD and PROPFIND on a WebDAV share acts on exactly the named resources as a file tree would: when it is answered with success its whole effect is there and visible to later requests, when it is refused or fails nothing changed, and concurrent readers and a crash at any moment only ever see the complete old or the complete new file. Nothing outside of the shared directory is read, created, changed or removed, whatever the path, destination or symbolic links, and with a custom permission checker nothing it did not allow. Properties reported are exactly those asked for, or all, of each resource that is there.",
     ["histories", "inputs", "schedules", "crash_points", "fault_sequences", "configurations"], "all sequences of WebDAV requests by concurrent clients, all paths and contents, all disk errors and crash points, temporary directory on the same or on another file system",
     "There is no automatic test of it; disk errors, other file systems, crashes and concurrent requests are not reachable from one.",
     [R + "handlers/webdav.c", R + "shortcuts.c", R + "request_parser.c"], [("permission check", R + "handlers/webdav.c"), ("rename across file systems", R + "shortcuts.c")],
     ["responses", "the file tree of the share and around it"], scen="share, diskfaults, crash")
prop("P17", "HTTPS gives the same service as plain HTTP, whatever the TLS records",
     "Over TLS every request reaches the handler and every response the client exactly as over plain HTTP, however the plaintext is divided in records and the records in segments, with signals and short reads and writes in between. A client that stalls, fails or vanishes during or after the handshake is dropped, at the latest at the timeout, and never delays or disturbs other clients for longer than that nor leaks a TLS session.",
     ["inputs", "schedules", "fault_sequences", "histories"], "all requests, divisions in TLS records and segments, all failures and stalls of the handshake and the connection",
     "Tests make a few https requests with a client that writes each request in one record.",
     [R + "https.c", R + "listen_point.c", R + "http.c"], [("record loop and handshake", R + "https.c")],
     ["the request seen by the handler", "the response of the client", "TLS sessions alive"], note="The TLS library is a stub with records, partial records and errors, but no cryptography.", assume=("the TLS library is replaced by a stub that frames records but does not encrypt",), scen="content, hostile")
prop("P18", "What PAM protects is reached only by who authenticated there",
     "A handler behind PAM authentication runs only for requests that carry, in a well formed Authorization header, a user and password that service accepts for an account in force, or that belong to a session in which that same service accepted them before; every other request gets a challenge with the realm and reaches nothing, however the header is malformed, whatever session identifier is made up and whatever fails in PAM or in the session store. Who authenticated is let in now and later in that session until it is ended, and the protected handler sees that user name.",
     ["inputs", "histories", "schedules", "fault_sequences"], "all sequences of requests with right, wrong and malformed credentials and session identifiers, several protected areas, all failures of PAM",
     "There are no tests of it: it needs accounts of the system; malformed headers, failing PAM and several services are not tried at all.",
     [R + "handlers/auth_pam.c", R + "codecs.c", R + "sessions.c", R + "request.c"], [("credentials decoding and check", R + "handlers/auth_pam.c"), ("logged in mark of the session", R + "handlers/auth_pam.c")],
     ["whether the protected handler ran, and its user", "the response of the client"], note="PAM is a stub that accepts a table of accounts per service and fails when told to.", assume=("PAM is replaced by a stub with a table of accounts per service",), scen="gate")
prop("P19", "Each request is answered by the first handler of the tree that takes it",
     "In any tree of url patterns, paths and chained handlers a request runs exactly the handlers that tree selects, in order, each with the rest of the path and the pattern groups that belong to it, until one answers; if none does, or one reports an error, the client gets the matching error page, once, from the configured error handler, or a response it can tell is incomplete if the answer was already on its way. Internal redirections run the target as if it had been asked for.",
     ["inputs", "configurations", "schedules", "histories"], "all trees of handlers, request paths and queries, all results handlers may return, with concurrent requests",
     "Tests fix a few trees and paths; they never combine them with queries, errors after partial output, redirections and handlers that decline.",
     [R + "url.c", R + "handler.c", R + "request.c", R + "handlers/path.c", R + "handlers/static.c", R + "onion.c", R + "shortcuts.c"], [("url matching", R + "url.c"), ("error pages", R + "onion.c")],
     ["which handlers ran and with what path and groups", "the response of the client"], scen="routes")
prop("P07", "A running server gives back everything a connection used once it is over",
     "However a connection ends (answered, refused, aborted by the client, failed by disk, TLS, allocation of descriptors or other system errors, timed out, or upgraded to a websocket), a server that keeps running soon holds no memory, descriptor, thread, TLS session or temporary file because of it. So what a server uses is bounded by the connections and sessions that are alive, not by how many it has served.",
     ["histories", "fault_sequences", "schedules", "inputs"], "all histories of requests to the built-in handlers and application handlers, all ways to end them, all sequences of system call faults, without stopping the server",
     "Tests stop the server or the process right after a few requests, so that what each request leaves behind is never seen, and never fail the calls whose error paths leak.",
     [R + "request.c", R + "request_parser.c", R + "response.c", R + "listen_point.c", R + "poller.c", R + "http.c", R + "https.c", R + "websocket.c", R + "shortcuts.c", R + "handlers/webdav.c", R + "handlers/exportlocal.c"], [("end of a request and of its connection", R + "request.c"), ("end of a poller slot", R + "poller.c")],
     ["live heap blocks, open descriptors, threads, TLS objects and files in the temporary directory while the server idles"], scen="steady")
prop("P12", "Dictionaries behave as sorted maps, also when several threads share them",
     "A dictionary behaves as a map from names (case sensitive or not, as set) to texts and nested dictionaries, that keeps repeated names where they are added so and replaces or removes them where asked, is walked in order, and is copied, merged and written as JSON with the same content; what a JSON text says is read from it, or nothing if it is cut or malformed, and paths of names reach nested entries. Threads that take its locks see each operation whole, and it and what it holds live exactly as long as somebody keeps a reference.",
     ["inputs", "histories", "schedules"], "all sequences of operations and all interleavings of threads that use the locks and references",
     "Tests insert and remove in a few orders and check one shared use; balance, copies of copies, case and references have unbounded histories.",
     [R + "dict.c", R + "codecs.c", R + "block.c"], [("balanced tree and reference count", R + "dict.c")],
     ["what the dictionary functions return", "live memory after the last reference is gone"], scen="shared, json",
     note="The single-threaded histories decide most of it; the scheduler matters for locks and references.")
prop("P16", "The poller tells every readiness of a descriptor, once at a time, until it ends",
     "A descriptor that an application adds to the poller of a server or to one of its own, with any number of threads, gets its callback each time it is ready for what it asked, never in two threads at the same time and never when it is not ready, until its callback refuses to continue, it hangs up or is removed; then its end is told exactly once and it is not called again. Requests keep being served meanwhile, descriptors may be added at any time, also from callbacks, and stopping ends all the polling threads, after which the poller can be started again.",
     ["schedules", "histories", "fault_sequences", "configurations"], "all interleavings of polling threads, additions, events and removals, all numbers of threads and descriptors, interrupted waits",
     "Tests add a handful of descriptors to a poller with one thread, in one real schedule.",
     [R + "poller.c", R + "onion.c"], [("slots and one-shot rearming", R + "poller.c"), ("stop event", R + "poller.c")],
     ["callbacks and ends of each descriptor", "responses of requests meanwhile"], [("slot list", "descriptors watched", R + "poller.c")], scen="own, server",
     note="Not included: timeouts of slots that are not connections, and removing a slot while its callback may run in other thread.")
prop("P20", "Every listen point of every server in a process serves on its own",
     "A server with several listen points (plain, TLS or of the application, at several ports) serves each request according to the point it came to: with that transport and its own certificate, told secure only when it is, with the address of its own client; a point that can not be opened leaves the others serving, and is tried again at the next start. Several servers in the same process, with their handlers and sessions, start, stop and are freed without affecting each other, and all of it is released at the end.",
     ["configurations", "schedules", "fault_sequences", "histories"], "all sets of listen points and servers in poll, pool and threaded modes, all subsets that can not be opened, all orders of starts, stops and clients",
     "Tests use one listen point that opens, and one server at a time.",
     [R + "onion.c", R + "listen_point.c", R + "http.c", R + "https.c", R + "request.c"], [("list of listen points", R + "onion.c"), ("opening and accepting", R + "listen_point.c")],
     ["responses at each port", "what the handler is told of client and security", "which ports are open"], scen="points, servers",
     note="Not included: types of files by extension and signals, which the process has only one of.")
prop("P21", "An application in C++ gets the same service, and its objects end exactly once",
     "An application written with the C++ classes reads in its handlers exactly what each client sent (also over TLS, in sessions and uploads) and each client receives exactly what the handler streamed; whatever a handler throws becomes the matching HTTP answer, or an internal error, and never ends the server or another request. Dictionaries are shared references: copies, assignments (also to itself), locks and missing parts behave as references to one dictionary freed with the last of them. Functions, objects and tables given to the server live until it is freed and are destroyed exactly once.",
     ["inputs", "schedules", "configurations", "histories", "fault_sequences"], "all handlers, requests and exceptions, all server modes, all histories of references to dictionaries",
     "Tests of the bindings are of a few dictionary calls and two requests without faults, concurrency or exceptions.",
     [B + f for f in ("dict.cpp", "dict.hpp", "handler.cpp", "handler.hpp", "url.cpp", "url.hpp", "request.hpp", "response.hpp", "onion.hpp", "exceptions.cpp", "exceptions.hpp", "extrahandlers.cpp", "shortcuts.cpp", "mime.hpp")], [("exceptions to answers", B + "handler.cpp"), ("references", B + "dict.cpp"), ("ownership of handlers", B + "url.cpp")],
     ["what handlers read", "responses at the client", "constructions and destructions of the application's objects"], scen="dict, app")
prop("P22", "Every handled request leaves exactly one whole and true line in the log",
     "Every request a handler was given leaves exactly one line in the log with its client, method, path, status, body size and whether the connection is kept, and what handlers log appears exactly once with its level, file and line; lines are whole, dated when they happened and never mixed with those of other threads, and only what is too long is cut. The environment options (no information, no colour, system log) and a log function of the application are followed. A log that can not be written never disturbs the service.",
     ["schedules", "fault_sequences", "inputs", "configurations"], "all interleavings of threads that log, all messages and lengths around the limits, all failures and short writes of standard error",
     "Nothing tests the log: it goes to a terminal nobody reads, from one thread at a time.",
     [R + "log.c", R + "response.c", R + "http.c"], [("format, lock and output of a line", R + "log.c"), ("line of a request", R + "response.c")],
     ["the bytes written to standard error, to the system log and to the application's log function"], scen="log, failing",
     note="Not included: paths with control characters, which are written as they are, and source file names too long for the line.")
prop("P23", "Memory and threads come only from the functions the application supplies",
     "With functions for memory and threads supplied by the application, everything is served as without them; every block the library frees or grows was made by those functions and is freed once, blocks asked for as free of pointers never hold one, and every thread created with them is joined or detached exactly once. When the application's memory function fails, the failure function is told, and nothing goes on as if there were memory.",
     ["configurations", "schedules", "fault_sequences", "histories"], "all the workloads of the other properties (but those of stores that outlive the process) under supplied functions, all allocations at which memory ends",
     "Tests with supplied functions are of a garbage collector that is not installed, and no test makes an allocation fail.",
     [R + "low.c", R + "request.c", R + "dict.c", R + "poller.c", R + "onion.c", R + "handlers/exportlocal.c", R + "handlers/webdav.c"], [("indirection of memory and threads", R + "low.c")],
     ["calls to the supplied functions", "what the other properties observe"], scen="own, failing",
     note="Runs the scenarios of the other properties, chosen at random, under an allocator and thread functions of its own.")
prop("P24", "Compiled templates and packed files answer exactly what their sources say",
     "A page made from a template answers exactly the text of the template, with the values of its context quoted for HTML, nothing for what is not there, and its conditions, loops, includes, translations and inherited blocks resolved. A packed file or directory answers exactly the packed bytes, their length and type, and not found for anything else. This holds whatever else is served at the same time, also when requests share one context, and nothing is left behind.",
     ["inputs", "schedules", "fault_sequences"], "all contexts, all templates and files of a generated set, all concurrent requests, interruptions and vanishing clients",
     "Tests render few templates with few contexts, one request at a time.",
     ["tools/otemplate/parser.c", "tools/otemplate/functions.c", "tools/otemplate/tags.c", "tools/otemplate/tag_builtins.c", "tools/otemplate/variables.c", "tools/otemplate/templatetags/i18n.c", "tools/opack/opack.c", R + "codecs.c", R + "dict.c", R + "response.c"], [("code generation", "tools/otemplate/functions.c"), ("packing", "tools/opack/opack.c")],
     ["bytes of the responses"], scen="pages, vanish, shared",
     note="The real generators run inside the simulator at build time; the code they generate is compiled and served. The templates are a fixed pseudo-random set; contexts, requests and schedules are drawn per run.")
prop("P25", "Generators that share an asset header keep every declaration in it",
     "Whatever the number, order and concurrency of the runs of the template compiler and the file packer that share an asset header, it declares every function they generated exactly once, and keeps the declarations that were there. A run that could not read all of its input or write all of its output ends with an error; a run that fails or is killed at any point leaves the header whole, without losing what others declared.",
     ["schedules", "crash_points", "fault_sequences", "histories"], "all interleavings of the system calls of the runs, all points at which one is killed, all failures of the disk, headers that are missing, empty or big",
     "Parallel builds run the generators at the same time on one header; no test runs two, nor makes a write fail.",
     ["tools/common/updateassets.c", "tools/opack/opack.c", "tools/otemplate/otemplate.c"], [("header update", "tools/common/updateassets.c")],
     ["the asset header", "the generated files", "exit status"], scen="together, failing, killed",
     note="The real main functions run as simulated programs over the simulated disk. Runs of the template compiler, which has global state, do not overlap each other in time, only with the packer.")
#MORE
NA = []

def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    na = {p for p, _ in NA}
    checks = [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
               "technique": "deterministic simulation with fault injection: seeded search over schedules, inputs and faults, against a reference model", "level": "exploration",
               "level_note": ("Scenarios: %s. The real library runs single-process under a seeded scheduler (preemption at system calls, lock operations and memory accesses), a simulated kernel and clock; every violation is replayed in a fresh process before it is reported. Assurance is that of the sampled runs; trusts the simulated kernel interface and the oracle. " % p["scen"]) + p["note"]} for p in P if p["id"] not in na]
    json.dump({"version": 1, "setup_cmd": "python3 build.py", "hooks": {"guard": "ONION_SIM_HOOKS", "enable": "build.py compiles /repo's sources with -DONION_SIM_HOOKS; no hook was needed: every seam is the libc symbol, renamed in the compiled objects", "source_commits": []},
               "checks": checks, "not_applicable": [{"property": a, "reason": b} for a, b in NA],
               "notes": "See DESIGN.md. known_findings.json lists the defects found; all listed as fixed are repaired by 'fix:' commits in /repo."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    json.dump({p["id"]: {"rule": "Scenarios of this property: %s." % p["scen"], "assumptions": ["the simulated kernel calls behave as Linux documents them", "libc behaves as documented"] + list(p["assume"])} for p in P}, open(os.path.join(V, "propmeta.json"), "w"), indent=1)
if __name__ == "__main__": main()
