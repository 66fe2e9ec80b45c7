#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where property texts live)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

NOTEST = "The repository has no test of this package; "

p("R01", "A request is answered at most once",
  "However timeouts, cancellations, I/O failures, duplicate replies and handler answers race, the receiver of a request gets at most one response for it, unless an interceptor explicitly puts the request back into its waiting state from inside its own notification. A reply carrying data is accepted only while the request is being worked on, a failure answers a request in any not yet answered state, and an answered request never becomes unanswered again. Only one worker can take a given waiting request into work.",
  ["schedules", "histories"], "every interleaving of senders, workers, timers and cancellers over every request state",
  NOTEST + "at-most-once is a claim over all interleavings of independent goroutines.",
  ["request.go", "response.go"],
  [("Request lifecycle word and its lock", "request.go:Request.state, Request.Mutex"), ("claim before notify", "request.go:chainResponse, RespondBytes, RespondFail"), ("compare-and-swap transitions", "request.go:cas, SetPending, SetInFly")],
  ["Responder.Respond calls seen by a caller"])
p("R02", "An accepted request is never silently dropped",
  "Every request that a running service accepts, queues or takes from a queue is on every path either answered, found to be already answered, or handed on to a handler, to another queue or to a registry that answers it later. This includes services that are being stopped: whatever is still queued or arrives later is answered with the shutdown code.",
  ["schedules", "histories"], "every path from receiving a request out of a queue (or accepting it in Send) to the end of its handling, for every stop/exit order",
  NOTEST + "loss shows only for particular stop/overflow timings.",
  ["service.go", "buffer.go", "balancer.go", "parallel_service.go", "net/client/server.go", "net/client/connection/connection.go"],
  [("endpoint queue and overflow buffer", "service.go:SimplePoint.Send; buffer.go:push, loop"), ("consumer loops", "parallel_service.go:Loop; balancer.go:Loop; net/client/server.go:Loop, AllDisconnected; net/client/connection/connection.go:writeLoop")])
p("R03", "A worker pool never exceeds its size and never leaks a slot",
  "A pool created for N workers never runs more than N handlers at the same time, and never fewer than N may run when the pool is idle: every slot taken for a request is given back exactly once, whether the handler ran, panicked, or was not started because the request was already answered.",
  ["schedules", "histories"], "every path through the dispatch loop and the worker, including panicking handlers",
  NOTEST + "a leaked or duplicated slot only shows after rare paths such as an already answered request.",
  ["parallel_service.go"], [("semaphore channel", "parallel_service.go:BF.New, Loop, inc, serv")])
p("R04", "A panicking handler is contained and its request answered",
  "When a user handler of a worker pool panics, the panic does not leave the worker, the request is answered with the internal-error code unless it was answered already, requests and child contexts started by the handler stay attached to a context that is completed, and the worker slot is freed.",
  ["inputs", "histories"], "every handler outcome: return, panic before or after the request was answered",
  NOTEST + "a handler may panic anywhere.",
  ["parallel_service.go", "request.go"], [("deferred completion with recover", "parallel_service.go:inc, serv; request.go:ReqContext.Done")])
p("R05", "Interceptors are notified once, newest first, before the receiver",
  "When a request is answered, every interceptor attached to it is notified exactly once, in reverse order of attachment, and all of them before the final receiver. An interceptor that puts the request back stops the rest of the notification, and no interceptor can be attached to a request that is in work or answered, other than by the worker that takes it into work.",
  ["schedules", "histories"], "every chain of interceptors and every request state",
  NOTEST + "order and exactly-once are claims about arbitrary chains.",
  ["request.go", "response.go"], [("interceptor chain", "response.go:Bookmark.setReq, unchain; request.go:chainResponse, ChainBookmark, SetInFly")])
p("R06", "Cancelling or expiring a context reaches everything attached to it",
  "Once a context is cancelled or expired, every request, multi-request and child context that is attached to it, or gets attached concurrently or later, is cancelled too; the first of cancel and expire wins and the other has no effect. An entry that completes is detached, and one that is not attached or already detached does not disturb the bookkeeping of the others.",
  ["schedules", "histories"], "every interleaving of attach, detach, cancel and expire",
  NOTEST + "the missed-entry window is a race between attaching and cancelling.",
  ["context.go"], [("canceler registry under the context lock", "context.go:AddCanceler, RemoveCanceler, cancelAll, Cancel, Expire"), ("attachment points", "context.go:NewRequest, NewMulti, Child")])
p("R07", "No wake-up is lost",
  "A goroutine that waits for a condition (the timer loop, a context waiting for its children, a multi-request waiting for its answers, the overflow buffer waiting for entries) is woken whenever its condition has become true, no matter when the change happens relative to its going to sleep. It goes to sleep only after checking its condition under the same lock or token that the waker goes through.",
  ["schedules"], "every interleaving of the waiter and its wakers",
  NOTEST + "a lost wake-up needs the change to fall between check and sleep.",
  ["custom_timer.go", "context.go", "wait_group.go", "buffer.go"],
  [("condition variables and token channel", "custom_timer.go:loop, wakeup, After; context.go:WaitAll, RemoveCanceler; wait_group.go:Results, Respond; buffer.go:push, close, loop")])
p("R08", "A multi-request completes exactly when all its requests are answered",
  "A multi-request delivers each response of its requests exactly once, and its result channel is closed exactly once, after the last response was put into it and never before. Collecting results never returns before all issued requests are answered, and cancelling or expiring a multi-request answers every request that was issued through it, including ones issued later.",
  ["schedules", "histories"], "every order of answers relative to collecting, and of cancelling relative to issuing",
  NOTEST + "an early or double close needs an answer to fall into a narrow window.",
  ["wait_group.go"], [("answer counter and channel hand-over", "wait_group.go:Respond, Each, Results, Request, performFailAll")])
p("T01", "Timers never fire early, fire once, and are disarmed by completion",
  "A timer callback runs only after the full requested time has passed, at most once per arming, and never while the timer bookkeeping is locked, so it may re-arm, stop or complete anything. Completing a request or a multi-request disarms its timer, and stopping an idle timer has no effect on others.",
  ["schedules", "histories"], "every interleaving of arming, stopping and expiry",
  NOTEST + "early or double firing depends on timing.",
  ["custom_timer.go", "request.go", "wait_group.go"], [("timer heap", "custom_timer.go:After, Stop, loop, push, remove"), ("disarm on completion", "request.go:chainResponse; wait_group.go:Respond")])
p("L01", "Every lock taken is released exactly once on every path",
  "On every path through the library, including early returns, loop exits and panics raised by the library itself, each lock that was acquired is released exactly once, by a holder, and never acquired again while held by the same goroutine. So no operation can leave an object locked for ever.",
  ["inputs", "histories"], "every path of every function of the library packages",
  "The tests reach few of the paths; a missing unlock on a rare path freezes the process later.",
  ["request.go", "context.go", "wait_group.go", "custom_timer.go", "buffer.go", "generator.go", "net/server/connection.go", "net/server/server.go", "net/client/auto.go", "net/client/connection/request_holder.go", "marshal/writer_reflect.go", "marshal/reader_reflect.go", "sbox/reader.go", "sbox/writer.go"],
  [("sync.Mutex pairs", "all packages")])
p("L02", "Locks are taken in a consistent order and not held while waiting",
  "The library acquires its locks in one global order, so no interleaving of its operations deadlocks on them. It never waits for a channel operation that may block, for network I/O or for a user callback while holding a lock that the other side needs to make progress.",
  ["schedules"], "every pair of lock acquisitions along every call path, including calls through interfaces to the library's own implementations",
  NOTEST + "a deadlock needs two goroutines at particular points.",
  ["request.go", "context.go", "wait_group.go", "custom_timer.go", "net/server/connection.go", "net/server/server.go", "net/client/connection/request_holder.go"],
  [("lock nesting", "request.go:RespondBytes/RespondFail -> responders and interceptors; custom_timer.go:loop; net/server/connection.go:Respond, cancelInFly")])
p("L03", "Shared tables are touched only under their lock",
  "Tables shared between goroutines (requests in work per server connection and its pending output, connections per server, cancelable entries per context, rows of the overflow buffer and of the client's request table, the timer heap, collected answers of a multi-request) are read and changed only while the lock that protects them is held.",
  ["schedules"], "every access to these tables on every path",
  "Races show only under load and with the race detector; the tests are single-threaded.",
  ["context.go", "wait_group.go", "custom_timer.go", "buffer.go", "net/server/connection.go", "net/server/server.go", "net/client/connection/request_holder.go"],
  [("lock protected tables", "see files")])

p("W01", "A frame's declared length equals the bytes written after the header",
  "Every request and response frame put on the wire is a 12 byte header whose length field equals the number of bytes that follow for this frame: the body, preceded, for responses other than pings, by the return code in the configured width (4, 1 or 0 bytes). Pings carry no return code.",
  ["inputs", "configurations"], "all bodies, return codes and return code widths",
  NOTEST + "lengths are a claim for all bodies and all three widths.",
  ["net/header.go", "net/buf_writer.go"], [("frame writer", "net/header.go:WriteRequest, WriteResponse, Ping")])
p("W02", "Writer and reader agree on the layout of a frame",
  "Type, length and id are little-endian 32 bit numbers in this order, followed by the return code in the configured width and the body; the reading side takes each of them from exactly the offset and width where the writing side puts it. A response whose declared length is too short for its return code yields the protocol-error code and never a negative or wrapped length.",
  ["inputs", "configurations"], "all frames and all return code widths",
  NOTEST + "agreement is a claim over every field value and width.",
  ["net/header.go"], [("frame reader and writer", "net/header.go:ReadRequest, ReadResponse, ReadPing, Write*")])
p("W03", "The buffered writer loses, repeats and reorders nothing",
  "Whatever sequence of writes and flushes is made, the bytes handed to the connection are the bytes written, in order, each once; after a successful flush nothing is left behind, and no write touches memory outside its buffer.",
  ["inputs", "histories"], "all sequences of write and flush calls with all sizes",
  NOTEST + "buffer boundary cases depend on every combination of sizes.",
  ["net/buf_writer.go"], [("write buffer", "net/buf_writer.go:Write, WriteByte, WriteUint32, Write3Uint32, Flush, write")])
p("W04", "The buffered reader returns exactly the next bytes of the stream",
  "Each successful read returns exactly the requested number of bytes and they are the next unread bytes of the stream, however the connection splits them; later reads never overlap or skip bytes. Appending to returned bytes cannot change unread data, and a short stream ends in an error.",
  ["inputs", "histories", "fault_sequences"], "all read sizes and all splits of the stream, including errors at any byte",
  NOTEST + "short reads split at any byte.",
  ["net/slice_reader.go"], [("read buffer", "net/slice_reader.go:Read, ReadByte, read")])
p("W05", "Output is flushed before a writer goes to sleep",
  "Neither a client connection nor a server connection ever blocks waiting for more work, nor shuts its writing side down in an orderly way, while frames it has already accepted for sending still sit in the output buffer.",
  ["schedules"], "every path to a blocking wait in both writer loops",
  NOTEST + "an unflushed frame only shows when no further traffic follows.",
  ["net/client/connection/connection.go", "net/server/connection.go"], [("writer loops", "net/client/connection/connection.go:writeLoop; net/server/connection.go:writeLoop")])
p("W06", "An I/O error ends the use of the stream and is not swallowed",
  "After a read, write or flush error the connection does not use that direction of the stream again, and the error makes the writer or reader goroutine leave and tell its control loop. No error of a frame operation is ignored.",
  ["fault_sequences"], "an error at every stream operation",
  NOTEST + "each stream call can fail.",
  ["net/header.go", "net/buf_writer.go", "net/slice_reader.go", "net/client/connection/connection.go", "net/server/connection.go"],
  [("error results of frame operations", "see files")])
p("W07", "Read and write deadlines follow the configuration",
  "With a timeout configured, every blocking read or write on a connection that supports deadlines is preceded by setting a deadline of now plus that timeout in the right direction, and a completed operation clears it; without a timeout no deadline is ever set.",
  ["configurations", "histories"], "all configurations and all operations",
  NOTEST + "a missing deadline shows only when the peer hangs.",
  ["net/buf_writer.go", "net/slice_reader.go"], [("deadline handling", "net/buf_writer.go:write; net/slice_reader.go:read")])

p("S01", "Internal return codes never reach the wire",
  "A server never sends a response whose return code is of the internal kind: such codes are replaced by the configured mapping, or else by the fatal-kind code of the same class, and a mapping that maps from non-internal or to internal codes is refused. Other codes are sent unchanged.",
  ["inputs", "configurations"], "all return codes and mappings",
  NOTEST + "a claim over all codes and maps.",
  ["net/server/connection.go", "net/server/server.go"], [("code translation", "net/server/connection.go:Respond; net/server/server.go:NewServer")])
p("S02", "A server answers each request exactly once, in its own id",
  "Each request read from a connection is recorded before it is handed to the service, and its answer, carrying the request's id and type, is queued for sending exactly once; answers to requests that are not, or no longer, outstanding are not sent. Queued answers leave in the order in which they were queued, and queuing never blocks the answering goroutine.",
  ["schedules", "histories"], "every interleaving of answers, overflow and teardown",
  NOTEST + "overflow into the secondary buffer depends on the speed of the peer.",
  ["net/server/connection.go"], [("in-work table, output channel and overflow", "net/server/connection.go:readLoop, Respond, enqueue, cleanBuffer, writeLoop")])
p("S03", "Server connection teardown completes once and only when drained",
  "A server connection whose peer stops sending stays until every outstanding request is answered and written, then closes its output once and reports itself closed exactly once; when writing fails, all outstanding requests are cancelled and reading is stopped. Nothing is closed twice and no goroutine of the connection keeps waiting afterwards.",
  ["schedules", "fault_sequences"], "every order of read end, write failure and last answers",
  NOTEST + "teardown orders are races.",
  ["net/server/connection.go"], [("connection control loop", "net/server/connection.go:controlLoop, closed, cancelInFly, readLoop, writeLoop")])
p("S04", "The server answers pings itself",
  "A ping frame received by a server is answered by the connection itself with an empty ping response of the same id, is never handed to the service, and does not count as an outstanding request.",
  ["inputs", "histories"], "all ping ids at any time",
  NOTEST + "any client may ping at any time.",
  ["net/server/connection.go"], [("ping branch", "net/server/connection.go:readLoop")])
p("S05", "Stopping a server closes everything and reports completion once",
  "After a stop request a server accepts no new connection, asks every connection it has to stop reading, and reports completion exactly once, when its last connection is gone. A connection accepted while stopping is closed, and every accepted connection is known to the server before it can report its end.",
  ["schedules"], "every interleaving of accept, connection end and stop",
  NOTEST + "the window between accept and stop is a race.",
  ["net/server/server.go"], [("server control", "net/server/server.go:Stop, controlLoop, listenLoop")])

p("C01", "A response answers the request it belongs to",
  "A client connection passes a response to the very request that was sent with the response's id and to no other; each sent request is taken out by the first response with its id. Responses with ids that are unknown, reserved or already answered are ignored and do not disturb the connection or its accounting.",
  ["inputs", "histories"], "all response ids in all orders, including hostile ones",
  NOTEST + "ids come from the peer.",
  ["net/client/connection/request_holder.go", "net/client/connection/connection.go"], [("request table", "net/client/connection/request_holder.go:getNext, remove; connection.go:readLoop")])
p("C02", "A request is registered under a unique id before it is sent",
  "Before any byte of a request is handed to the output, the request is registered under the id that is sent, so that no response can overtake the registration. Ids of outstanding requests of one connection are distinct and never zero or the id reserved for pings.",
  ["schedules", "histories"], "every path of the client writer, any number of requests incl. id wrap-around",
  NOTEST + "wrap-around and overtaking need long runs or races.",
  ["net/client/connection/request_holder.go", "net/client/connection/connection.go"], [("id allocation and registration", "request_holder.go:getNext; connection.go:writeLoop")])
p("C03", "Teardown of a client connection fails every outstanding request",
  "When a client connection ends, for whatever reason, every request that was sent and not answered is answered with the I/O-error code, or with the shutdown code when the connection was stopped on purpose. This happens after both directions are finished, so an answer that was already received is not lost.",
  ["schedules", "fault_sequences"], "every order of stop, read error and write error",
  NOTEST + "needs failures at particular points.",
  ["net/client/connection/connection.go", "net/client/connection/request_holder.go"], [("teardown", "connection.go:controlLoop, controlLoopExit, flushInFly; request_holder.go:getAll")])
p("C04", "The client pool's connection accounting is conserved",
  "The numbers of dialing, established and dying connections that a pool keeps change together with the events that its connections report, so that each connection is counted in exactly one of them from its start to its end and is forgotten when it ends. Hence the pool opens exactly the missing connections, stops exactly the surplus ones, and leaves only when none is left.",
  ["schedules", "histories"], "every sequence of connection events and resizes",
  NOTEST + "drift shows only after failures or resizes.",
  ["net/client/server.go", "net/client/connection/connection.go"], [("pool counters", "net/client/server.go:fixConnections, onConnError, Loop; connection.go: events")])
p("C05", "A connection carries traffic only after a successful ping handshake",
  "A dialed connection is reported as established, and starts reading and writing requests, only after a ping was written, flushed and its answer read and verified; any failure before that is reported as a dial failure, exactly one dial report is made per connection and the socket is closed.",
  ["fault_sequences"], "failure of any handshake step",
  NOTEST + "handshake failures need a misbehaving peer.",
  ["net/client/connection/connection.go", "net/header.go"], [("handshake", "connection.go:Loop; net/header.go:Ping, ReadPing")])
p("C06", "Configured client limits and intervals reach the place where they act",
  "Each value of a client configuration (network, address, dial, read, write and request timeouts, ping interval, return code width, number of connections) takes effect in its own role: a set value is neither ignored, replaced by a default nor mixed up with another one, and unset values get the documented defaults.",
  ["configurations"], "all configurations",
  NOTEST + "swapped durations are invisible until a peer hangs.",
  ["net/client/config.go", "net/client/server.go", "net/client/connection/connection.go", "net/server/connection.go"], [("configuration flow", "net/client/server.go:NewServer; connection.go:Loop, RunWithConn, writeLoop")])

p("M01", "Encoder and decoder agree on the layout of every type",
  "For every supported Go type and field directive, the decoder reads exactly the sequence of primitive items (width, byte order, signedness, count or size prefix, order of fields) that the encoder writes for it, whether it is handled directly or by reflection. Interface-typed elements, whose layout depends on the value, are outside this property.",
  ["inputs", "programs"], "all types built from supported kinds and directives, all values",
  "The tests round-trip a few struct types; agreement has to hold for each kind, each path and each directive.",
  ["marshal/writer.go", "marshal/writer_any.go", "marshal/writer_reflect.go", "marshal/reader.go", "marshal/reader_any.go", "marshal/reader_reflect.go"],
  [("primitive codecs", "marshal/writer*.go, reader*.go"), ("type tables", "marshal/writer_reflect.go:Fill*; marshal/reader_reflect.go:Fill*")])
p("M02", "Decoding never reads outside the input and hostile lengths are errors",
  "Whatever bytes are decoded, the decoder touches only bytes of the given input and elements of the destination that exist; a byte size, or a count of elements that have a fixed size, that is negative or larger than the remaining input ends in an error before anything is allocated or read for it. Every decoding loop over input ends.",
  ["inputs"], "all inputs and destination types",
  "The tests decode only well-formed input.",
  ["marshal/reader.go", "marshal/reader_any.go", "marshal/reader_reflect.go"], [("length checks", "marshal/reader*.go")])
p("M03", "Decoding errors are sticky and surface",
  "In package marshal: after the first error a reader consumes nothing more and produces only zero values, the first error is kept, and every entry point that returns an error returns it. Input left over where the whole input must be used is an error.",
  ["inputs", "histories"], "all sequences of read calls and all inputs",
  "The tests do not decode malformed input.",
  ["marshal/reader.go", "marshal/reader_any.go", "marshal/reader_reflect.go", "marshal/marshal.go"], [("sticky error", "marshal/reader*.go:Reader.Err")])
p("M04", "A written size prefix equals the bytes that follow it",
  "Whenever the encoder writes a byte size in front of a value, for built-in types, for types measured in advance and for types that are encoded to a scratch buffer first, the number equals the number of bytes written for the value. A written element count equals the number of elements that follow.",
  ["inputs", "programs"], "all types and values written with a size or count",
  "The tests cover a few types only.",
  ["marshal/writer_any.go", "marshal/writer_reflect.go", "sbox/writer.go", "sbox/modify.go"], [("size computation", "marshal/writer_reflect.go:Size, WithSize, FillStruct; WriteWithSize")])
p("M05", "Codec registries are never modified after being published",
  "Goroutines look codecs up without a lock, so a table of codecs that is visible to them is never changed: new codecs are added, under the registry lock, to a private copy that contains everything known, which replaces the visible table only when all codecs in it are complete.",
  ["schedules"], "every interleaving of look-ups and registrations",
  "The tests are single-threaded.",
  ["marshal/writer_reflect.go", "marshal/reader_reflect.go", "sbox/reader.go", "sbox/writer.go"], [("copy-on-write maps", "WriterFor, ReaderFor, sbox writer, reader")])
p("M06", "Encoded output is never overwritten by later encoding",
  "Bytes returned by the encoder stay as they are: no later use of the same writer, or of a pooled one, writes into them, and appending to them cannot reach memory the writer still uses. A pooled reader or writer is used by one goroutine at a time: only after it was taken out of the pool and not after it was given back, and nothing of its former use (output not fetched, an error) is left in it for its next user.",
  ["histories", "schedules"], "all sequences of encode calls",
  "Overlap shows only when a writer is reused.",
  ["marshal/writer.go", "marshal/marshal.go", "marshal/writer_reflect.go", "generator.go"], [("output slicing and pools", "marshal/writer.go:Written, ensure; marshal.go:Write, Read; generator.go")])
p("M07", "Variable-length numbers are encoded in the length that is announced",
  "The number of bytes that the encoder emits for a variable-length number equals the precomputed length used in size accounting, all but the last byte carry the continuation bit, groups are emitted most significant first, and the decoder assembles them in the same order and stops at the first byte without the bit, rejecting input that runs out or overflows.",
  ["inputs"], "all 64 bit numbers and all inputs",
  "The tests use small numbers only.",
  ["marshal/writer.go", "marshal/reader.go", "marshal/marshal.go"], [("varint codec", "marshal/writer.go:Uint64var, varu64size; marshal/reader.go:Uint64var; marshal/marshal.go:Varsize")])

p("B01", "A tuple's field count and field sizes describe what follows",
  "Every tuple written announces exactly the number of fields that follow, and each field is preceded by its exact byte size, for all key and tuple types, including structs with a repeated tail.",
  ["inputs", "programs"], "all tuple types and values",
  "The tests compare a handful of tuples.",
  ["sbox/writer.go", "sbox/modify.go", "sbox/select.go"], [("tuple writers", "sbox/writer.go:WriteTuple, Fill, structCnt, structWriter")])
p("B02", "Reading a tuple stays within the destination and the input",
  "Reading tuples never indexes a destination outside its length and never allocates for more elements than the input can hold; a tuple with more or fewer fields than the destination has is handled without touching anything else, and tuples are read from consecutive places of the input.",
  ["inputs"], "all inputs and destination types",
  "The tests read well-formed tuples only.",
  ["sbox/reader.go", "sbox/result.go"], [("tuple readers", "sbox/reader.go; sbox/result.go")])
p("B03", "Malformed responses end in an error",
  "A result whose header, tuple count or tuple size cannot be decoded makes the reading functions return an error, and counts of tuples read never include one that was not there.",
  ["inputs"], "all inputs",
  "The tests read well-formed results only.",
  ["sbox/reader.go", "sbox/result.go"], [("error propagation", "sbox/result.go:ReadFirst, ReadMany, oneTuple; sbox/reader.go:ReadSizedTuple, ReadRawTuple")])
p("B04", "A select announces as many keys as it writes",
  "The key count in a select request equals the number of key tuples written after it, for every supported kind of keys (nil pointers among the keys excepted), and the limit derived from the number of keys is that same number.",
  ["inputs"], "all kinds and lengths of keys",
  "The tests write few kinds of keys.",
  ["sbox/select.go"], [("key counting and writing", "sbox/select.go:CountKeys, CountKeysValues, WriteKeys, WriteKeysValues, IWrite")])
p("B05", "Request bodies carry the protocol's codes, flags and field order",
  "Insert, delete, update, select and call requests carry their protocol request codes, their flags with the return bit lowest and the mode above it, and their parts in protocol order; each update operation is written as field number, the protocol code of the operation and its sized value.",
  ["inputs"], "all requests",
  "The tests encode tuples only, not requests.",
  ["sbox/modify.go", "sbox/select.go", "sbox/rpc.go"], [("request encoders", "sbox/modify.go, select.go, rpc.go: IWrite, IMsg")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
