#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts live)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   observe_at=observe or [],hook_needed=None)))

p("C01","Framed messages survive any stream fragmentation",
  "Every sequence of non-empty messages written through the Content-Length framing writer is returned by the framing reader as exactly the same byte strings, in the same order, however the transport splits the bytes across individual reads. Message bytes are arbitrary (header text, CR/LF and NUL bytes inside a body are ordinary data), and no byte of one message leaks into another.",
  ["inputs","histories"],"all message contents and lengths, and all ways the transport may return fewer bytes than asked for",
  "content_stream_test.cpp uses five fixed ASCII payloads with whole-chunk or one-byte reads; it never varies body bytes, sizes around the internal chunk size, or split points.",
  ["src/content_stream.cpp","src/content_stream.h"],[("ContentWriter::write","src/content_stream.cpp"),("ContentReader::read/buffer/match","src/content_stream.cpp")],
  [("buf","bytes received but not yet consumed","ContentReader::buf")],["ContentReader::read()"])
p("C02","Lenient framing skips garbage and resynchronises",
  "With the ignore policy the framing reader discards bytes that do not begin a frame header and then delivers the next well-formed message intact, wherever the garbage ends and however it resembles a header. Text that is not a well-formed header (prefix, optional blanks, decimal digits, CRLF CRLF) never yields a message, never closes the stream, and never crashes the reader.",
  ["inputs"],"all byte strings, within the stated length, placed before, between and inside frame headers",
  "The tests place two fixed garbage strings between frames; header look-alikes, partial prefixes, NUL bytes and malformed terminators are not tried.",
  ["src/content_stream.cpp"],[("scan()","src/content_stream.cpp"),("match()/matchAny()","src/content_stream.cpp")],None,["ContentReader::read()","Reader::close() calls"])
p("C03","Strict framing closes the stream on any malformed header",
  "With the close policy, if the bytes at a message boundary are not a frame header, or a header's length is not directly followed by CRLF CRLF, the framing reader closes the underlying stream and returns no message for it. A well-formed frame is still delivered, and no frame other than well-formed ones is ever delivered.",
  ["inputs"],"all byte strings at a message boundary and inside a header, within the stated length",
  "One fixed HTTP request is tested; the security purpose (rejecting cross-protocol requests) needs every other byte string.",
  ["src/content_stream.cpp","include/dap/session.h"],[("badHeader()","src/content_stream.cpp"),("match()","src/content_stream.cpp")],None,["ContentReader::read()","Reader::isOpen()"])
p("C04","A delivered message has exactly the declared length",
  "A message is delivered only when the decimal value of its declared Content-Length equals the number of body bytes returned. Declared lengths that do not fit the machine word are rejected rather than reduced, and a body cut short by the end of the stream is never delivered in part.",
  ["inputs","fault_sequences"],"all decimal digit strings within the stated number of digits, leading zeros included, and all points at which the stream can end",
  "Tests only use two-digit lengths with complete bodies; no test truncates a body or overflows the length.",
  ["src/content_stream.cpp"],[("length parsing and buffer(len) in read()","src/content_stream.cpp")],None,["ContentReader::read()"])
p("C05","A framing write succeeds only if the whole frame was accepted",
  "Writing a message hands the transport exactly 'Content-Length: <n>' CRLF CRLF followed by the n message bytes, with n the decimal message size. It reports success exactly when the transport accepted every part, and never sends body bytes after the transport refused the header.",
  ["inputs","fault_sequences"],"all message sizes and contents within bounds, all outcomes of each transport write",
  "The tests only write to a buffer that never fails and check three fixed messages.",
  ["src/content_stream.cpp"],[("ContentWriter::write","src/content_stream.cpp")],None,["Writer::write() calls","ContentWriter::write() result"])
p("C06","The in-memory pipe is a lossless byte FIFO under concurrency",
  "Bytes read from a pipe are, in order, exactly the bytes successfully written to it: none lost, duplicated or reordered, for any number of bytes and any schedule of one reader and concurrent writers, and each write's bytes stay contiguous. A blocked read wakes when enough data arrives or either end closes; after close, isOpen() is false, writes fail and reads never block.",
  ["schedules","inputs"],"all interleavings of the pipe's readers, writers and closers within the stated thread and operation counts",
  "Pipes are only exercised indirectly by session tests under whatever schedule the OS happens to produce.",
  ["src/io.cpp"],[("Pipe::read/write/close","src/io.cpp")],[("data","queued bytes","Pipe::data"),("closed","pipe was closed","Pipe::closed")],["Reader::read()","Writer::write()","isOpen()"])
p("C07","Channels deliver every item once, in order, and close wakes takers",
  "Each item put into a channel is taken exactly once, in the order in which the puts happened, for any number of concurrent putters and takers. A taker blocks only while the channel is open and empty; closing the channel wakes every blocked taker, items put before the close are still delivered, and only then does take() report the end. Resetting empties the channel and opens it again.",
  ["schedules","histories"],"all interleavings of putters, takers and closers within the stated counts",
  "chan_test.cpp puts and takes one item on one schedule.",
  ["src/chan.h"],[("Chan::put/take/close","src/chan.h")],[("queue","items not yet taken","Chan::queue"),("closed","channel was closed","Chan::closed")],["Chan::take()"])
p("C08","The reader/writer lock excludes writers and never strands a waiter",
  "While a write lock is held no other read or write lock is held; read locks can be held together. Every lock request is eventually granted once the locks that block it are released: no schedule leaves a thread waiting on a lock that nobody holds. Moving a lock guard moves the lock, which is released exactly once.",
  ["schedules"],"all interleavings of readers and writers within the stated thread and acquisition counts",
  "rwmutex_test.cpp samples schedules with counters and cannot show the absence of a lost wakeup.",
  ["src/rwmutex.h"],[("RWMutex::lockReader/unlockReader/lockWriter/unlockWriter","src/rwmutex.h"),("RLock/WLock","src/rwmutex.h")],[("readLocks","readers holding the lock","RWMutex::readLocks"),("pendingWriteLocks","writers waiting","RWMutex::pendingWriteLocks")],["critical sections guarded by RLock/WLock"])
p("C09","A future yields its promise's value to every waiter",
  "get() and wait() return only after the value was set, get() returns exactly the value that was set, and every thread blocked on a future when or before the value is set is woken. wait_for() and wait_until() report ready exactly when the value was set by then, and timeout otherwise.",
  ["schedules","inputs"],"all interleavings of one setter and the stated number of waiters, all values, all timeout outcomes",
  "Futures are only exercised through session tests with one waiter and no timeouts.",
  ["include/dap/future.h"],[("promise::set_value","include/dap/future.h"),("future::get/wait/wait_for/wait_until","include/dap/future.h")],[("hasVal","value was set","promise_state::hasVal")],["future::get()","future::wait_for()"])
p("C10","The any and variant containers own exactly one value of known type",
  "After any sequence of constructions, copies, moves, assignments (self-assignment included) and resets of any containers, each holds exactly the value and type last put into it: is<T>() is true for that type only, get<T>() returns an equal value, copies are independent of their source, and a moved-from container is empty and reusable. Every stored value is destroyed exactly once and its memory released, whether stored inline or on the heap.",
  ["histories","inputs"],"all operation sequences of the stated length over values of every storage class (inline scalar, inline owning memory, heap), all leaf values",
  "any_test.cpp covers fixed single operations and never checks memory ownership.",
  ["include/dap/any.h","include/dap/variant.h"],[("any copy/move/assign/reset/alloc/free","include/dap/any.h"),("variant","include/dap/variant.h")],[("value/heap/buffer","where the value lives","any")],["any::is/get","allocation balance"])
p("C11","Optional values copy, convert and compare like std::optional",
  "An optional reports a value exactly when one was put in, returns exactly that value, and keeps this through copy, move, conversion and assignment. Its six comparison operators are mutually consistent: an empty optional equals an empty one and is less than any value, and otherwise they agree with comparing the contained values.",
  ["inputs","histories"],"all pairs of optionals over all 64-bit contained values, all assignment sequences of the stated length",
  "optional_test.cpp compares a few fixed numbers.",
  ["include/dap/optional.h"],[("optional<T> operators","include/dap/optional.h")],None,["optional<T> public interface"])
p("C12","JSON encoding round-trips every value",
  "Any value of the DAP data types (booleans, 64-bit integers, finite numbers, UTF-8 strings, arrays, objects, null and nestings of them) serialized to JSON text and parsed back is equal to the original, with the same types, in each supported JSON library adapter, also when decoded into an array, string, any or optional that held another value. Serializing a string never aborts the process, whatever bytes it holds, UTF-8 or not.",
  ["inputs","configurations"],"all leaf values within the stated windows and all structures of the stated shapes, per JSON library",
  "json_serializer_test.cpp round-trips a handful of constants; integers beyond 32 bits inside objects, control characters, NUL and non-UTF-8 bytes are absent.",
  ["src/nlohmann_json_serializer.cpp","src/rapid_json_serializer.cpp","src/jsoncpp_json_serializer.cpp","include/dap/serialization.h"],[("Serializer::serialize overloads","src/*_json_serializer.cpp"),("Deserializer::deserialize overloads","src/*_json_serializer.cpp")],None,["json::Serializer::dump()","json::Deserializer::deserialize()"])
p("C13","Decoding is total and type-strict on untrusted JSON",
  "For every received text, valid JSON or not, whose nesting fits the stack, decoding terminates without crashing, aborting or touching invalid memory. Reading a value as a DAP type other than the any and variant types, which accept every JSON value, succeeds only if the JSON value has that type and yields that value unchanged (an out-of-range integer is refused, not wrapped); a failed or missing required field makes the decode fail, and an absent or wrongly typed optional field leaves the optional unset.",
  ["inputs","configurations"],"all byte strings of the stated length, and all JSON kinds at every typed position, per JSON library",
  "The tests only decode text produced by the library's own serializer; the fuzzer is not part of the suite and samples only one JSON library.",
  ["src/nlohmann_json_serializer.cpp","src/rapid_json_serializer.cpp","src/jsoncpp_json_serializer.cpp","src/null_json_serializer.h","include/dap/serialization.h"],[("Deserializer::deserialize/array/field/count","src/*_json_serializer.cpp")],None,["json::Deserializer"])
p("C14","Every protocol message encodes each field under its DAP name",
  "Each protocol structure serializes each of its fields, and nothing else, under the field name the Debug Adapter Protocol gives it, from exactly that field's value, omitting unset optional fields. Decoding puts each named value back into the same field and no other, so encode then decode reproduces the structure.",
  ["inputs","programs"],"all protocol request, response, event and data types, all combinations of set and unset optional fields taken one at a time and all together, all leaf values of the stated sizes",
  "Only three of about two hundred generated structures appear in tests, with most fields unset.",
  ["include/dap/protocol.h","src/protocol_types.cpp","src/protocol_requests.cpp","src/protocol_response.cpp","src/protocol_events.cpp","include/dap/typeof.h"],[("DAP_IMPLEMENT_STRUCT_TYPEINFO field tables","src/protocol_*.cpp"),("DAP_OFFSETOF and (de)serializeFields","include/dap/typeof.h")],None,["TypeInfo::serialize()","TypeInfo::deserialize()"])
p("C15","Type information matches the type it describes",
  "For every DAP type, the type information's size and alignment are those of the type, constructing gives the default value, copy-constructing gives an equal independent value, and destructing releases everything, so that construct/copy/destruct of any value balances. The type lookup for a type always returns the same object, in every thread, and different types have different objects. Type information stays valid until static destruction and beyond it while calls of initialize() outnumber those of terminate(), from whatever threads, and is then destroyed once.",
  ["inputs","programs","histories"],"all DAP basic types, array, optional and variant compositions and protocol structures, all leaf values of the stated sizes",
  "typeinfo_test.cpp checks one derived structure, on one thread; the type-erased lifecycle the session relies on is not observed.",
  ["include/dap/typeof.h","include/dap/typeinfo.h","src/typeof.cpp"],[("BasicTypeInfo","include/dap/typeof.h"),("TypeInfos","src/typeof.cpp")],None,["TypeInfo interface"])
p("C16","Every response completes exactly the request it answers",
  "A request's future is completed by the response carrying that request's sequence number and by no other message, whatever the order in which responses arrive, with the response body on success or, on failure, with an error holding the response's error text, unchanged and never interpreted (some other text if the response carries none). A response that lacks its status completes its request with an error. A response whose number matches no outstanding request, or a second response to the same request, reports a protocol error and changes no future. If the request cannot be sent its future completes with an error.",
  ["histories","inputs"],"all orders and contents of responses to the stated number of outstanding requests, including unknown, duplicate, failed and malformed ones",
  "session_test.cpp answers one request at a time, in order, with fixed data.",
  ["src/session.cpp","include/dap/session.h"],[("processResponse/EventHandlers::response","src/session.cpp"),("Session::send(request)","include/dap/session.h")],[("responseMap","requests awaiting a response","Impl::EventHandlers")],["future<ResponseOrError<T>>","onError callback"])
p("C17","Every dispatched request gets one response that echoes it",
  "When a registered request handler finishes, with a value, an error, or later through its callback, exactly one response is written: it echoes the request's sequence number and command, carries success and the response body for a value or failure and the error text for an error. The response-sent handler then runs once, after the response was handed to the transport, with the same value or error.",
  ["inputs","histories"],"all request sequence numbers in the stated windows, all handler outcomes and response values of the stated sizes, all handler signatures",
  "session_test.cpp checks success and one fixed error text, through the library's own client, which hides wrong envelope fields.",
  ["src/session.cpp","include/dap/session.h"],[("processRequest payload","src/session.cpp"),("registerHandler overloads","include/dap/session.h")],None,["bytes handed to the Writer","registerSentHandler callback"])
p("C18","Concurrent senders never tear frames or reuse sequence numbers",
  "Whatever the interleaving of threads sending requests and events and of handlers responding, the byte stream is a concatenation of whole frames, one per message, and every message of a session carries a sequence number no other message of that session carries. Each request's future is completed by its own response.",
  ["schedules"],"all interleavings of the stated number of sending threads on one session",
  "The Concurrency test runs one OS schedule and never looks at the wire or at sequence numbers.",
  ["src/session.cpp"],[("sendMutex in Impl::send","src/session.cpp"),("atomic nextSeq","src/session.cpp")],[("nextSeq","next sequence number","Impl::nextSeq")],["bytes handed to the Writer"])
p("C19","Malformed messages are reported and never reach a handler",
  "Every received non-empty message that is not a well-formed request or event for a registered handler, or a response, is reported to the error handler exactly once and invokes no request or event handler; well-formed ones invoke exactly the handler registered for their name, once, with the decoded contents (absent arguments or body count as empty). After any such message the session still handles the next one, and no message content (length, formatting characters, deep or unexpected JSON) can corrupt memory or leak.",
  ["inputs","histories"],"all combinations of present, absent and wrongly typed envelope fields, all short names and texts, followed by a well-formed message",
  "Only unbound sends are tested for errors; no test feeds a malformed message to a session.",
  ["src/session.cpp"],[("processMessage/processRequest/processEvent","src/session.cpp"),("EventHandlers::error","src/session.cpp")],None,["registered handlers","onError callback"])
p("C20","Requests and events are dispatched in arrival order, one at a time",
  "A bound session invokes its request and event handlers in exactly the order in which the messages arrived, one handler at a time, each message once, while receiving continues during a handler. Sends by one thread are put on the wire in program order.",
  ["schedules","histories"],"all interleavings of the receiving, dispatching and user threads for the stated number of messages",
  "No test sends two different messages and checks order under more than one schedule.",
  ["src/session.cpp","src/chan.h"],[("recvThread/dispatchThread/inbox","src/session.cpp")],[("inbox","received payloads not yet dispatched","Impl::inbox")],["registered handlers"])
p("C21","Closing or destroying a session terminates cleanly",
  "When the peer closes the stream, the onClose callback runs exactly once, after which no more messages are received. Destroying a session, at any moment and in any schedule, provided its handlers return, closes both streams, finishes with no thread left running, and neither deadlocks nor uses freed memory; a second connect or a second start of processing is reported as an error and otherwise has no effect.",
  ["schedules","histories"],"all interleavings of session threads with peer close, local sends and destruction, within the stated message count",
  "OnClientClosed and OnServerClosed each sample one schedule.",
  ["src/session.cpp"],[("Impl::~Impl","src/session.cpp"),("startProcessingMessages","src/session.cpp"),("isBound/isProcessingMessages","src/session.cpp")],None,["onClose callback","Session destructor"])
p("C22","Each socket descriptor is closed exactly once and never used after",
  "Every socket descriptor the library obtains is closed exactly once, on every path including connect, bind and accept failures and peer errors, and is never passed to the operating system after it was closed, for any schedule of concurrent read, write, isOpen and close calls. close() unblocks a blocked read or accept and never deadlocks; afterwards isOpen() is false, reads return 0 and writes fail. Writing to a connection that is gone fails without ending the process.",
  ["schedules","fault_sequences"],"all results of the socket calls and all interleavings of the stated concurrent calls",
  "socket_test.cpp uses real loopback sockets, which do not fail on demand; descriptor leaks and bind failures are invisible.",
  ["src/socket.cpp","src/rwmutex.h"],[("Socket::Shared::close/isOpen/read/write","src/socket.cpp"),("Socket::Socket","src/socket.cpp")],[("s","the descriptor, or invalid","Socket::Shared::s")],["socket system calls"])
p("C23","A socket write that reports success sent every byte",
  "A socket write returns true only after the operating system accepted all the bytes, in order and once each, even when it accepts them in parts; otherwise it returns false. Closing the socket afterwards does not discard bytes so accepted. A socket read returns exactly the number of bytes received into the buffer, never more than asked for, and 0 on end of stream or error.",
  ["fault_sequences","inputs"],"all sequences of partial acceptance and failure by the operating system, all sizes within bounds",
  "Loopback sends of a few bytes never come back short.",
  ["src/socket.cpp"],[("Socket::Shared::write/read","src/socket.cpp")],None,["send()/recv() calls","ReaderWriter::write/read results"])
p("C24","Connecting honours its timeout and reports failure as null",
  "connect() tries the address and port given and returns a usable stream exactly when the connection was established, and null otherwise. With a non-zero timeout it waits for at most that time, for every timeout value, and the returned stream is in blocking mode; with a zero timeout it does not impose one.",
  ["inputs","fault_sequences"],"all 32-bit timeouts and all results of the system calls involved",
  "One 200 ms timeout is tested.",
  ["src/socket.cpp","src/network.cpp"],[("Socket::connect","src/socket.cpp"),("setBlocking/errored","src/socket.cpp")],None,["system call arguments","connect() result"])
p("C25","The network server reports start failures and stops cleanly",
  "start() returns true exactly when the server is listening on the address and port given, and otherwise reports one error and returns false without hanging. Every connection that arrives while the server runs is accepted and passed to the connect callback exactly once; stop(), destruction and restart end the previous listener and return with its thread finished, after which no callback of it runs, in every schedule.",
  ["schedules","fault_sequences"],"all results of the socket calls and all interleavings of the accept thread with start, stop and destruction within the stated connection count",
  "network_test.cpp connects on fixed ports where nothing fails.",
  ["src/network.cpp","src/socket.cpp"],[("Impl::start/stop","src/network.cpp")],[("stopped","no accept thread is running","Impl::stopped")],["OnConnect/OnError callbacks","start() result"])
p("C26","Stream wrappers forward faithfully",
  "A spying reader or writer passes every call through unchanged and copies exactly the bytes actually transferred, each transfer preceded by the prefix, to the spy stream. A combined reader/writer is open only while both halves are and closes both; a file stream returns and stores exactly the bytes of the file, reports short reads and failed writes, starts empty when opened by path, and closes a closable file exactly once, after which it is not touched again, and a non-closable one never.",
  ["inputs","fault_sequences"],"all transfer sizes and contents within bounds, all outcomes of the wrapped calls",
  "No test covers spies, files or the combined stream's closing.",
  ["src/io.cpp","include/dap/io.h"],[("ReaderSpy/WriterSpy/RW/File","src/io.cpp")],None,["wrapped stream calls"])
p("C27","Handler registration: first handler per name wins, errors are reported",
  "Exactly the first request or event handler registered for a name, and the first response-sent handler for a response type, is used; registering another for it reports an error and does not replace it, also when handlers are registered while other threads receive and send messages. The most recent error handler receives every protocol error; error texts and writef output are the formatted message, cut to the buffer size and never overrunning it.",
  ["inputs","histories","schedules"],"all orders of registration, all schedules of a registration against a receipt, all texts and lengths within bounds around the internal buffer size",
  "RegisterHandlerFunction only checks that registration compiles and runs.",
  ["src/session.cpp","src/io.cpp"],[("EventHandlers::put/error/errorfLocked","src/session.cpp"),("writef","src/io.cpp"),("Error::Error","src/session.cpp")],None,["registered handlers","onError callback"])
p("C28","Structures of the user encode and decode all their fields, inherited ones too",
  "For every structure described with the library's structure macros, with or without a described base, at any depth of inheritance and wherever the base lies in the structure, encoding stores each own and inherited field under its declared name from its own value, also when the structure is nested in arrays, optionals, anys or variants, and decoding what was encoded restores every field and touches nothing else. A missing required field, own or inherited, makes decoding fail, and a field that cannot be encoded makes encoding fail.",
  ["inputs","configurations"],"all kinds of inheritance listed in the bounds, all values within the stated sizes, each field missing or failing",
  "typeinfo_test.cpp encodes one structure with one base that comes first, with one set of values.",
  ["include/dap/typeof.h","include/dap/typeinfo.h","include/dap/serialization.h"],[("DAP_IMPLEMENT_STRUCT_TYPEINFO(_EXT)","include/dap/typeof.h"),("BaseFields","include/dap/typeof.h"),("BasicTypeInfo","include/dap/typeof.h")],None,["encoded text","decoded structure"])
p("C29","A response-or-error holds exactly what was put into it",
  "A ResponseOrError built from, copied from, moved from or assigned a response holds that response and no error; one built from or assigned an error holds exactly that error's text and counts as an error; copying and moving carry both over, replace whatever was held before, leave a copied source unchanged, and neither lose nor leak anything, for every sequence of these operations.",
  ["inputs","histories"],"all operation sequences of the stated length over two values, all contents within the stated sizes",
  "The session tests only read responses and errors once, straight after they were received.",
  ["include/dap/session.h"],[("ResponseOrError","include/dap/session.h"),("Error","include/dap/session.h")],None,["ResponseOrError::response","ResponseOrError::error"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
