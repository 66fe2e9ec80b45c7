PATHS="path-sensitive interprocedural typestate dataflow over SSA"
CLAIMS={
"L01":(PATHS+" (lock sets)","every path of every entry point of the library up to loop summaries; callbacks of users assumed not to release library locks"),
"L03":(PATHS+" (lockset analysis with a protection table)","every access of a table field on every path of every entry point; objects that have not left their allocating function are exempt"),
"L02":(PATHS+" (lock-order graph, effects under held locks)","edges between lock classes on every path of every entry point, callees that are not followed by class hierarchy analysis; ordering of locks of one class is assumed from ownership"),
"R01":(PATHS+" (typestate of the request state word)","all paths of all entry points that touch the state word, the chain or the receiver; interceptors may do anything between notifications except attach or detach interceptors of the request being answered"),
"R05":(PATHS+" (typestate of the interceptor chain)","order of linking and unlinking, notification of the first interceptor only, receiver last; the chain is assumed to hold only interceptors that refer to its request, which is checked where they are linked"),
"T01":(PATHS+" (typestate of timer entries, linear arithmetic over deadlines)","After, Stop and the timer loop on every path, completions on every path of every entry point; the shape of the heap itself (that the earliest entry is on top) is not examined"),
"R08":(PATHS+" (counting automaton over collected answers and the result channel)","all paths of all entry points that touch a multi-request; elements are followed one by one through summarised loops"),
"R02":(PATHS+" (obligation tracking)","every request taken over by the library on every path of every entry point; what handlers, services and started goroutines do with a request is their own obligation"),
"R03":(PATHS+" (token accounting)","constructor, loop and workers of the pool, with handler panics modelled as exceptional paths"),
"R04":(PATHS+" (exception flow)","all normal and exceptional paths of the worker goroutine; runtime.Goexit in a handler is not considered"),
"R06":(PATHS+" (typestate of contexts and their entries)","all paths of all entry points that touch a context; the array of entries is followed place by place, the table entry by entry through summarised loops"),
"R07":(PATHS+" (typestate of condition variables and wake-up tokens)","all waits and signals of the timer loop, contexts, multi-requests and the overflow buffer; the overflow buffer assumes one forwarding loop, which is how it is started"),
"S01":(PATHS+" (bit provenance of return codes)","every response that enters a connection's output on every path of every entry point of the server; every entry of the mapping at construction"),
"S02":(PATHS+" (typestate of frames and answers, linear arithmetic over the overflow queue)","every frame and every answer on every path of every entry point of the server package; that request objects are not reused while outstanding is not examined"),
"S03":(PATHS+" (typestate of the connection's goroutines and their messages)","reader, writer and control loop of a server connection on every path through summarised loops; their composition follows from the messages they exchange"),
"S04":(PATHS+" (path conditions on frames)","every frame read on every path of the server's reader"),
"S05":(PATHS+" (typestate of the server's accept and control loops)","accept loop, control loop, Stop and Run on every path through summarised loops"),
"W03":(PATHS+" (method contracts, linear arithmetic over buffer positions)","contracts of all methods from any state that satisfies the writer's invariant, which covers all sequences of calls that return no error; what a writer does after an error is W06"),
"W04":(PATHS+" (method contracts, linear arithmetic over stream positions)","contracts of all methods from any state that satisfies the reader's invariant, for any way the connection splits the stream; loops by checked invariants"),
"W01":(PATHS+" (symbolic frame layout)","all paths of the frame writing methods for every width of return codes the initialiser accepts, bodies of any length up to 2 GiB"),
"W02":(PATHS+" (symbolic frame layout)","all paths of the frame writing and reading methods for every width of return codes, streams of any content"),
"W05":(PATHS+" (typestate of the output buffer)","all goroutines of client and server connections on every path through summarised loops"),
"W06":(PATHS+" (typestate of stream directions)","all goroutines of client and server connections and all frame and buffer methods on every path; what the control loops do with the message is S03 and C03"),
"W07":(PATHS+" (path conditions and provenance of deadlines)","all methods of the buffered reader and writer on every path; that the connection passes the configured timeouts is C06"),
"C01":(PATHS+" (typestate of places of outstanding requests, symbolic place computation)","every response read and every place taken, released or searched on every path of the client's reader, writer and table; that the reader and the writer do not disturb each other's places follows from the typestate of the id, not from a model of the memory"),
"C02":(PATHS+" (typestate of places of outstanding requests)","every id that is given out and every request written on every path of the client's writer and table, for any value of the counter of ids"),
"C03":(PATHS+" (typestate of the connection's goroutines, their messages and the places of requests)","reader, writer and control loop of a client connection on every path through summarised loops; every row and place of the table is followed through the loops that visit it; requests that other goroutines answer meanwhile are R01"),
"C04":(PATHS+" (conservation of counters, linear arithmetic over the numbers of connections, typestate of reports)","every event, start and stop on every path through the loop of a client pool, with the numbers followed through summarised loops by linear invariants; every report of a connection on every path of its goroutines; that the pool's guards see numbers that are right follows from the accounting of all earlier paths"),
"C05":(PATHS+" (typestate of the handshake)","every path of every function that dials a connection or starts its goroutines; frames of pings for every width of return codes"),
"C06":(PATHS+" (provenance of configured values)","the making of a pool for every combination of set and unset values, every pool made by Auto, every place where a connection dials, initialises its streams or makes a ticker, on every path"),
"M02":(PATHS+" (bounds obligations by linear arithmetic, element access by reflection, allocation sizes)","every decoding function of package marshal on every path, for unknown input and any state of the reader; calls between decoding functions are replaced by what is proved of each"),
"M03":(PATHS+" (typestate of readers)","every decoding function of package marshal on every path, once for a reader that has failed and once for one that has not; calls between decoding functions are replaced by what is proved of each"),
"B01":(PATHS+" (counting of emitted items by linear invariants)","every tuple writer of package sbox on every path through summarised loops, for every struct layout and tail; that a call that writes a size in front of a value writes the right size is M04's part and is taken as given here"),
"B04":(PATHS+" (counting of emitted tuples by linear invariants)","the writer of selects on every path through summarised loops, for every dynamic type and kind of keys and any number of them"),
"B05":(PATHS+" (layout of emitted items, provenance of bits, constant tables)","every request writer of package sbox on every path; update operations for each of the 16 valid operation codes; operation codes outside of the protocol are outside of the property"),
    "B02": ("bounds, allocation and counting analysis over summarised loops (path-sensitive abstract interpretation of the tuple readers, recursion by contract)", "every path of every function that reads tuples, for unknown input, reader state and destination; lengths seen through reflection are symbols; a field of a repeated row is only required to be guarded by a comparison of its place with the announced number"),
    "B03": ("typestate and counting analysis (errors of readers, tuples taken against tuples reported), recursion by contract", "every path of every function that reads results; the error of a tuple's own body is demanded from the functions that read a single tuple, not from those that read many, which log it"),
    "M07": ("bit-provenance analysis (origin of every bit of every byte, abstract interpretation with unrolled loops, one run per length class)", "all ten length classes of the encoder, the precomputed sizes and the decoder, all paths; bits are symbols, so every number of a class is covered"),
    "M05": ("ownership and lockset analysis of the codec tables (must-hold locks over the call graph, then path-sensitive typestate of the tables)", "every function that touches a codec table, in every lock context it can run in, on every path; every assignment of a field of a codec"),
    "M06": ("ownership analysis of writer buffers and typestate of pooled objects, path by path", "every function that touches the buffer of a writer and every function that takes or gives back a pooled reader, writer or generator, on every path"),
    "M04": ("counting of emitted bytes and elements against what is announced, path by path with linear invariants for loops (abstract interpretation), agreement of the tables of writers with what their functions were shown to write", "every function of package marshal that puts values into the buffer, announces a size or count, fills a table or sums the size of a struct, on every path, loops summarised; what user types announce about themselves, and the function that measures strings, are taken as given"),
}
NOT={
 'M01': "the layout of a type is the composition of function values that the codec constructors choose by reflect.Kind and by field tags and keep in tables built at run time; agreement of the two sides needs the pairing of all these function values by what they emit and consume, for recursively composed types. The parts that are decided statically are M07 (variable-length numbers), M02/M03 (what decoders may read), M05 (tables) and B01/B04/B05 (requests)",
}
