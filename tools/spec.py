# Texts of the properties.  tools/gen.py turns them into properties.jsonl and MANIFEST.json.
I = "include/cybozu/"
SPEC = []
def P(id, title, statement, over, qtext, why, files, mech, na=None, level_note=None, observe=None):
    SPEC.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, na=na, level_note=level_note, observe=observe))

P("C01", "Locks give mutual exclusion, are independent, and scoped locks release",
  "At any instant at most one thread is inside a section guarded by a given lock (mutex or critical section, locked directly or through a scoped lock), and everything written inside the section is seen by the next thread that enters. A scoped lock releases its lock exactly once however its scope is left, including by an exception, and holding one lock never blocks a thread that uses a different lock. Every thread that asks for a lock obtains it once the holder has left.",
  ["schedules", "programs"], "all interleavings of any number of threads with any nesting of sections and exits by return or exception",
  "mutex_test uses a handful of uncontrolled schedules; a lost release or a missing lock operation needs a preemption inside the section.",
  [I+"mutex.hpp", I+"critical_section.hpp"],
  [("Mutex/AutoLockT over pthread_mutex", I+"mutex.hpp"), ("CriticalSection, AutoLockCs", I+"critical_section.hpp")])
P("C02", "Condition variable: no lost notify, lock held on return from wait",
  "A thread that waits on a condition variable gives up the lock and starts waiting in one atomic step, so a notification issued after that by a thread holding the lock is never lost: notify-one releases at least one waiter and notify-all releases every waiter present. When wait returns the caller holds the lock again and nobody else does. A producer/consumer protocol built on it delivers every item exactly once and never deadlocks, also when the system wakes waiters spuriously.",
  ["schedules", "programs", "fault_sequences"], "all interleavings of producers, consumers, notifiers and spurious wake-ups",
  "condition_variable_test runs one thread pair under the host scheduler; lost wake-ups need a preemption between two specific instructions.",
  [I+"condition_variable.hpp", I+"condition_variable_cs.hpp", I+"critical_section.hpp", I+"mutex.hpp"],
  [("ConditionVariable::wait/notifyOne/notifyAll", I+"condition_variable.hpp"), ("ConditionVariableCs", I+"condition_variable_cs.hpp")])
P("C03", "Event: a wakeup is remembered, releases one wait, and is never invented",
  "A wakeup issued before the matching wait is remembered, so the wait returns; a wakeup issued while threads are waiting releases one of them. The number of waits that returned never exceeds the number of wakeups issued, and what a thread wrote before its wakeup is seen by the thread whose wait it ends. This holds for both implementations of the event, also when the underlying calls are interrupted by signals or wake spuriously.",
  ["schedules", "fault_sequences", "configurations"], "all interleavings of waiters and wakers, spurious wake-ups, EINTR, both implementations",
  "event_test passes under one host schedule; the remembered-wakeup race and EINTR never occur there.",
  [I+"event.hpp"], [("Event (condition variable build)", I+"event.hpp"), ("Event (pipe build)", I+"event.hpp")])
P("C04", "Atomic operations are linearizable on every integer width",
  "Concurrent add, exchange and compare-and-swap operations on one 32- or 64-bit integer, signed or unsigned, behave as if each took effect in one instant between its call and its return: results and the final value equal those of some sequential order. Add returns the old value, exchange returns the replaced value, compare-and-swap stores the new value only if the old one matched and returns what it found. No operation touches neighbouring memory, and writes made before an atomic operation are visible to a thread that observes its effect.",
  ["schedules", "inputs", "histories"], "all interleavings of concurrent operations, all operand values",
  "atomic_test counts with real threads and no linearizability oracle; it samples few interleavings and small values.",
  [I+"atomic.hpp"], [("AtomicAdd/AtomicExchange/AtomicCompareExchange/mfence", I+"atomic.hpp")])
P("C05", "A started thread runs its entry once and join waits for its end",
  "Starting a thread reports success exactly when a thread was created, and then the entry runs exactly once, in a thread other than the caller's. Join returns only after the entry has finished and then all its effects are visible; join without a running thread and a second join are harmless, detach succeeds at most once, and of concurrent joins and detaches exactly one handles the thread. Destroying the object also waits for a running entry. A thread object can be started again after a join, and failing to create a thread leaks nothing and leaves the object usable.",
  ["schedules", "fault_sequences", "programs"], "all interleavings of start, join and detach from several threads, all failures of thread creation",
  "thread_test never makes creation fail and never races join with detach.",
  [I+"thread.hpp"], [("ThreadBase::beginThread/joinThread/detachThread", I+"thread.hpp"), ("thread::Begin/Join/Detach", I+"thread.hpp")])
P("C06", "parallel_for visits each index once, waits for all, and reports failures",
  "A parallel loop over n items with t workers calls its body exactly once for every index in [0,n) when nothing fails, gives each worker number to one thread at a time, and each worker covers one contiguous ascending range. It returns only after every worker has finished, and the body is never called afterwards. A worker whose body asks to stop or throws goes no further, other workers are unaffected, and the loop then reports the failure to its caller as an exception exactly when some body threw or a worker could not be started.",
  ["schedules", "inputs", "fault_sequences"], "all n, t, interleavings, subsets of failing bodies and thread-creation failures",
  "parallel_test checks a few sizes and one exception; no creation failure, no late worker, no odd exception.",
  [I+"parallel.hpp", I+"thread.hpp"], [("parallel_for, parallel_local::Thread", I+"parallel.hpp")])
P("C07", "Thread-local slots are private per thread, start empty, and are returned",
  "The value a thread reads from a thread-local slot is the last value that same thread stored in that same slot, and null if it stored none, whatever other threads and other slots do. Storing reports failure exactly when the value could not be kept. Every slot owns exactly one system key and gives it back when destroyed, so slots can be created and destroyed without limit, and a slot that got no key never disturbs another slot.",
  ["schedules", "histories", "fault_sequences"], "all interleavings, creation/destruction histories, key exhaustion and allocation failures",
  "tls_test uses one slot and no failing key creation.",
  [I+"tls.hpp"], [("Tls::get/set/constructor/destructor", I+"tls.hpp")])
P("C08", "Sleep lasts at least the requested time and not needlessly longer",
  "A thread that asks to sleep for a number of milliseconds resumes no earlier than that and, when it can be scheduled, no later than that plus the system's wake-up delay. This holds for zero, for values of one second and more, and while other threads sleep for different times. Only the calling thread is suspended.",
  ["schedules", "inputs"], "all durations and all combinations of concurrently sleeping threads",
  "no test checks the duration; wall-clock tests cannot do so exactly.",
  [I+"thread.hpp"], [("Sleep", I+"thread.hpp")])
P("C09", "Logger writes whole lines exactly once, in order, to the chosen destination",
  "Every message at or above the current threshold that any thread logs appears exactly once, complete, on a line of its own, with the time at which it was logged, and no message below the threshold appears; messages of one thread keep their order, and lines of different threads never mix. Messages go to the destination chosen last (a file, opened for appending, or a stream lent by the caller, which is never closed, or syslog with the matching level), and switching destination leaks no file. Logging never throws or crashes the program: when a line cannot be written to the log file that is reported on the standard error output.",
  ["schedules", "inputs", "fault_sequences", "histories"], "all interleavings of logging threads, message sizes and contents, destination changes, write failures, clock values",
  "the logger has no unit test at all.",
  [I+"log.hpp"], [("Logger::put/write/open*/set", I+"log.hpp"), ("PutLog, OpenLogFile, SetLogFILE, OpenSyslog, SetLogPriority", I+"log.hpp")])
P("C10", "File writing: what a successful write reports is in the file",
  "After a write returned normally the file holds exactly those bytes at the position the open mode and seeks prescribe, whatever sizes the system transfers per call and however often it interrupts; a write that fails throws, having stored a prefix of its data and nothing else. Truncating, appending, and refusing invalid mode combinations or a second open behave as documented, and concurrent appenders lose nothing. Each opened descriptor is closed exactly once on every path, a borrowed descriptor is left open unless close is called, and after a failed open the object is closed.",
  ["inputs", "fault_sequences", "histories", "schedules"], "all programs of open/write/seek/sync/close, all short writes, EINTR, errors and full disks, sizes beyond one system call",
  "file_test uses a real disk which never returns a short write, an error or an interrupt.",
  [I+"file.hpp"], [("File::open/write/seek/close/~File", I+"file.hpp")])
P("C11", "File reading: exact bytes, correct end of file, errors reported",
  "Reading returns exactly the stored bytes in order from the current position, independently of how the system splits the transfers or interrupts them. The exact-size read either fills the whole buffer or throws; the partial read returns zero only at the end of the file, and a failing system call is always reported as an exception, never as end of file or as wrong data. Loading a whole file or its lines yields the complete content, and every descriptor is closed on every path.",
  ["inputs", "fault_sequences", "histories"], "all contents, read sizes, short reads, EINTR, errors, sizes beyond one system call",
  "file_test reads small regular files without faults; end of file inside an exact read looped for ever.",
  [I+"file.hpp"], [("File::read/readSome/seek/getSize", I+"file.hpp"), ("loading helpers", I+"file.hpp")])
P("C12", "Data written through File survives a crash once synced or destroyed",
  "When a sync returned normally, everything written to the file before it survives a crash at any later moment. When a file object that is still open for writing is destroyed without an error, everything written through it survives as well. Before that a crash may lose unsynced data but never data that was already durable in the same file and not overwritten.",
  ["crash_points", "histories", "fault_sequences"], "all crash points at every system call, all orders of write, sync, close and reopen",
  "no test crashes; a missing fsync is invisible without one.",
  [I+"file.hpp"], [("File::sync, File::close, ~File", I+"file.hpp")])
P("C14", "File-system helpers: rename, remove, query, list and map tell the truth",
  "Renaming moves the whole file or leaves both names as they were and throws; it never replaces an existing target, even one that appears at the same moment, and of two conflicting renames one wins. Removing, size query, existence query and directory listing report the real state or an error: a listing contains each entry of the directory exactly once with its type and the extension filter applied, and is never silently truncated. A memory mapping shows exactly the file's bytes, and every descriptor, directory handle and mapping is released on every path.",
  ["schedules", "inputs", "fault_sequences"], "all directory contents, entry types, failing calls, and interleavings of two renaming processes",
  "file_test checks the fault-free single-process case only.",
  [I+"file.hpp", I+"mmap.hpp"], [("RenameFile/RemoveFile/DoesFileExist/GetFileSize/GetFileList", I+"file.hpp"), ("Mmap", I+"mmap.hpp")])
P("C15", "Stream adaptors transfer all bytes or report failure",
  "Reading an exact number of bytes through the generic stream interface delivers the next bytes of the source in order, whatever chunk sizes the source returns, and reports failure when the source ends or fails first; a source error is never reported as an orderly end of data. Writing through it either stores all bytes in order or reports failure, and never writes outside a fixed memory area. This holds for memory, string, file, standard-library and user-defined streams, with both the exception and the flag style of reporting.",
  ["inputs", "fault_sequences"], "all data, request sizes, chunkings and failure points of source and sink",
  "stream_test uses in-memory streams that never return short or fail.",
  [I+"stream.hpp"], [("readSome/read/write/readChar/writeChar", I+"stream.hpp"), ("Memory*/String* streams", I+"stream.hpp")])
P("C16", "Line reader returns each line exactly once for any chunking",
  "Reading lines from a stream yields exactly the lines of the input, in order, with LF or CRLF removed and a lone CR kept, however the source splits the data into chunks, including a split between CR and LF; the last line is delivered also without a line end, and then the end is reported. A line longer than the configured maximum is reported as an error and a line up to the maximum never is. An error of the source is passed on, never taken for the end of the input, and loses no data received before it.",
  ["inputs", "fault_sequences", "configurations"], "all inputs, chunkings, maximum sizes and source failures",
  "line_stream_test reads from strings in one chunk with few maximum sizes.",
  [I+"line_stream.hpp"], [("LineStreamT::next", I+"line_stream.hpp")])
P("C17", "Deflate/gzip streams: lossless for any chunking, corruption is detected",
  "Whatever is written to a compressor in pieces of any size and flushed comes out of a decompressor unchanged, for any chunk sizes of the underlying streams and requests, any internal buffer size, with and without the gzip wrapper. Input that is truncated or whose gzip checksum does not match is reported as an error, never returned as complete data, and after such an error the end of the data is not reported either; an error of an underlying stream is passed on. No path leaks the codec's memory, and both sides interoperate with standard tools.",
  ["inputs", "fault_sequences", "configurations"], "all data, chunkings, buffer sizes, truncation points, bit flips and stream failures",
  "zlib_test compresses small in-memory strings with default sizes and never feeds damaged input.",
  [I+"zlib.hpp"], [("ZlibCompressorT::write/flush", I+"zlib.hpp"), ("ZlibDecompressorT::readSome/read", I+"zlib.hpp")])
P("C18", "Serialized values are restored exactly, damaged input is reported",
  "Any value of the supported types (integers, floating point, strings, vectors, lists, maps, sets and nested combinations) saved to a stream and loaded again is equal to the original and leaves the stream exactly behind its encoding, for any chunking of the stream. Loading from input that ends early or from a failing stream throws, and saving to a failing stream throws. An integer too wide for the variable it is loaded into is reported rather than cut. A load that fails never crashes, hangs or corrupts memory.",
  ["inputs", "fault_sequences"], "all values, chunkings, truncation points and stream failures",
  "serializer_test round-trips a few values through an intact stringstream.",
  [I+"serializer.hpp"], [("save/load, loadRange/saveRange, loadPod/savePod", I+"serializer.hpp")])
P("C19", "Saved succinct indexes load back equal; bad images are reported",
  "A bit vector, compressed bit vector, wavelet matrix, frequency table, FM-index, sparse vector or string saved to a stream and loaded again answers every query like the original, for any chunking of the stream. Loading a truncated image or reading from a failing stream throws; saving to a failing stream throws. Several structures saved one after another to the same stream load back independently.",
  ["inputs", "fault_sequences"], "all structures, chunkings, truncation points and stream failures",
  "the tests save and load a few structures through intact string streams.",
  [I+"sucvector.hpp", I+"csucvector.hpp", I+"wavelet_matrix.hpp", I+"fmindex.hpp", I+"frequency.hpp", I+"bitvector.hpp", I+"string.hpp"],
  [("save/load", I+"sucvector.hpp"), ("save/load", I+"wavelet_matrix.hpp"), ("save/load", I+"fmindex.hpp"), ("save/load", I+"frequency.hpp")])
P("C20", "CSV rows survive writing and reading for any chunking and failure",
  "Rows written with the CSV writer and read back with the CSV reader are equal, field by field, for any field contents without carriage returns (the reader ignores them), including quotes, commas, line feeds and empty fields, and any chunking of the stream. Every row of the input is returned exactly once, also a last row without a line end; malformed quoting is reported. A failure while writing or reading is reported and never yields a shortened table that looks complete.",
  ["inputs", "fault_sequences"], "all tables, chunkings and failure points of the stream or file",
  "csv_test parses fixed strings from intact streams.",
  [I+"csv.hpp"], [("CsvReaderT::read", I+"csv.hpp"), ("CsvWriterT::write", I+"csv.hpp")])
P("C21", "Base64 stream coding is lossless for any chunking and passes errors on",
  "Encoding a stream produces the standard base64 text of all its bytes with the requested line length, and decoding returns exactly the encoded bytes, independently of how source and destination are chunked. A failing source or destination stream is reported. Nothing is dropped at chunk boundaries.",
  ["inputs", "fault_sequences"], "all data, line lengths, chunkings and failure points",
  "base64_test uses intact string streams.",
  [I+"base64.hpp"], [("EncodeToBase64/DecodeFromBase64", I+"base64.hpp")])
P("C22", "Configuration load: every entry or an error",
  "Loading a configuration returns every key with its value as written, from a file or stream with any chunking, and reports a missing file, a malformed line, a duplicate key, or a failure while reading. It never returns a partially read configuration as if it were complete. Loading the text form of a configuration again preserves all entries.",
  ["inputs", "fault_sequences"], "all configurations, chunkings and failure points",
  "config_test loads intact strings only.",
  [I+"config.hpp"], [("Config::load, operator<<", I+"config.hpp")])
P("C23", "Random generator fills every byte from the system source or throws",
  "A request for random data either fills every requested byte with fresh bytes of the system's random source, or throws; it never returns stale, predictable or partly filled buffers, whatever short reads, interrupts or errors occur. Every byte of the source is handed out at most once, also when several threads share one generator. The descriptor is released exactly once.",
  ["schedules", "inputs", "fault_sequences"], "all request sizes, interleavings, short reads, EINTR, end of file and errors",
  "random_generator_test draws a few values from an intact device.",
  [I+"random_generator.hpp"], [("RandomGenerator::read/get", I+"random_generator.hpp")])
P("C24", "TCP stream socket delivers bytes in order, without loss or duplication",
  "Bytes written to a connected socket arrive at the peer's reads exactly once and in order, however the network splits, delays or buffers them and however often calls are interrupted or transfer only a part. A full write or full read completes or throws; end of stream, a reset connection and a failing call are distinguished from data. A socket object owns its descriptor, moving hands it over (to exactly one of several threads that take it at once), and it is closed exactly once, with the data already written still delivered.",
  ["schedules", "inputs", "fault_sequences"], "all message patterns, segmentations, delays, buffer sizes, interrupts, resets, and interleavings of both sides",
  "socket_test exchanges a few bytes over an ideal loopback.",
  [I+"socket.hpp"], [("Socket::readSome/read/write/close/shutdown/waitForClose/moveFrom", I+"socket.hpp")])
P("C25", "connect ends in time with a usable blocking connection or an error",
  "Connecting returns normally exactly when the connection is established, and the socket then is in blocking mode and usable; otherwise it throws. With a timeout the call ends no later than the timeout whatever the network does (refusal, silence, late answer, unreachable), and it waits no less than the timeout before giving up on a silent peer. Name resolution results are released on every path and the requested address family is respected. A socket whose connect failed is closed and can be used for another attempt.",
  ["schedules", "fault_sequences", "configurations"], "all network behaviours, timeouts, interrupts, address families and failing calls",
  "socket_test connects to a listening local port only; no silence, no late answer.",
  [I+"socket.hpp"], [("Socket::connect with timeout", I+"socket.hpp"), ("SocketAddr::set", I+"socket.hpp")])
P("C26", "A listening socket accepts each connection once and waiting is bounded",
  "Each connection made to a bound port is handed out by accept exactly once, with the peer's address, and is usable in both directions. Waiting for a connection reports true as soon as one is pending and false only after the given time has passed without one; interrupting signals do not prolong the wait beyond that time; this holds for both waiting mechanisms, and a descriptor number that the mechanism can not handle is reported as an error and damages nothing. Binding serves exactly the requested address families, and the port of a server that was closed can be bound again at once. Failing to bind or to accept is reported instead of being retried without end, and leaks no descriptor, and a socket whose bind failed is closed; an object that already holds a socket closes it first.",
  ["schedules", "inputs", "fault_sequences", "configurations"], "all arrival times, timeouts, descriptor numbers, interrupts and failing calls",
  "socket_test accepts one immediate connection with a low descriptor.",
  [I+"socket.hpp"], [("Socket::bind/queryAccept/accept", I+"socket.hpp"), ("experimental::Epoll", I+"socket.hpp")])
P("C27", "Socket timeouts and options take effect as requested",
  "After setting a receive or send timeout, a blocked read or write ends with an error no earlier and not noticeably later than that time, and data arriving in time is delivered. Reading a timeout or option back gives the value set, and options are applied to this socket only. A failing option call is reported.",
  ["schedules", "inputs", "fault_sequences"], "all timeout values, arrival times and option values",
  "socket_test sets a timeout and reads it back once.",
  [I+"socket.hpp"], [("Socket::set*Timeout/get*Timeout/setSocketOption/setLinger", I+"socket.hpp")])
P("C28", "TLS client: exact bytes, truncation and failed handshakes are reported",
  "On an established TLS connection the bytes the client writes arrive unchanged and in order at the server and the bytes the server sends are returned unchanged and in order, for any segmentation, delay and interrupt. A connection that is cut without an orderly close, also in the middle of an exact read, is reported as an error, never as a complete message or an endless wait; an orderly close ends a partial read with zero. A server that does not speak TLS or a failing handshake is reported; closing a healthy connection tells the peer and succeeds, and the object can then make a new connection. Every session and descriptor is released exactly once on every path and a program that used the client ends normally.",
  ["schedules", "inputs", "fault_sequences"], "all segmentations, delays, cuts, server behaviours and data patterns",
  "there is no TLS test in the suite.",
  [I+"ssl.hpp", I+"socket.hpp"], [("ssl::ClientSocket connect/readSome/read/write/close", I+"ssl.hpp")])
P("C29", "Process start, exit status and clean-up are exact",
  "Starting a program either runs exactly that program once with exactly the given arguments and reports success, or reports failure and leaves neither a running child nor a zombie nor doubled output of the parent's buffers. While the child runs it is reported alive; the query that finds it ended gives its exit code, or -1 if a signal killed it. The program inherits no descriptor other than 0, 1 and 2 (the parent's, or the null device when closing was requested), and the parent keeps no extra descriptor. This holds whichever system call fails or is interrupted, whichever of the standard descriptors the parent itself has closed, and when several threads start programs at once.",
  ["schedules", "inputs", "fault_sequences"], "all argument lists, failing or interrupted fork, pipe, exec, read and wait calls, child life times and sets of open descriptors",
  "process handling has no test in the suite.",
  [I+"process.hpp"], [("process::Start/IsAlive", I+"process.hpp"), ("Process::run/isAlive", I+"process.hpp")])
P("C30", "A quit signal is noticed at any moment and never kills the program",
  "After the quit handler is installed, an interrupt, quit, abort or terminate signal that arrives at any instant in any thread calls the application's quit function once per signal, does not end the program, and interrupts a blocking call so that the program can notice it. The quit function is not interrupted by another of these signals in the same thread. The application registered last receives the signals, and without a signal quit is never called. A handler that can not be installed is reported on the standard error output and ends the program with a failure code.",
  ["schedules", "histories", "fault_sequences"], "all arrival times and orders of signals relative to the program's steps, all failing installations",
  "the handler has no test; signals at arbitrary instants cannot be produced by one.",
  [I+"quit_signal_handler.hpp"], [("QuitSignalHandler", I+"quit_signal_handler.hpp")])
P("C31", "Current time equals the system clock at the moment of the call",
  "The time taken from the system clock lies between the clock's values just before and just after the call, with its seconds and milliseconds consistent with each other, for every clock value including instants just before a second changes and clock jumps. Its text form denotes that instant and reads back to it, also while several threads format times at once. The stop watch based on the system clock accumulates exactly the elapsed time between begin and end and counts the measurements.",
  ["schedules", "inputs"], "all clock values and jumps, all interleavings",
  "time_test cannot choose the clock.",
  [I+"time.hpp", I+"benchmark.hpp"], [("Time::setCurrentTime, GetCurrentTimeSec, Time::toString", I+"time.hpp"), ("CpuClock", I+"benchmark.hpp")])
P("C32", "Arrays, values and formatted text survive failing allocation",
  "Every operation on an aligned array (construction, copy, assignment, resize, move, swap, clear), a scoped array, a JSON value and the printf-like formatter either completes with the contents it should have, or throws when memory cannot be obtained. After a failure the objects involved still hold what they held before and stay usable; nothing is leaked or freed twice. The storage of an aligned array is aligned as requested, an element that is kept keeps its value, requested clearing is done, and a size whose bytes cannot be represented is refused instead of giving a smaller array.",
  ["faults", "inputs", "histories"], "all sequences of operations, sizes and points at which an allocation fails",
  "the tests never see an allocation fail; array_test uses a few sizes.",
  [I+"array.hpp", I+"json.hpp", I+"format.hpp"], [("AlignedArray, ScopedArray, AlignedMalloc", I+"array.hpp"), ("json::Value", I+"json.hpp"), ("cybozu::format", I+"format.hpp")])
P("C33", "Digests, MACs and ciphers give the right value or an error, also under faults",
  "For every sequence of operations on digest objects (start, add data in pieces, finish, reset, copy, assign) and every point at which memory or a call of the crypto library fails, a digest that is delivered is the digest of exactly the data added since the last start, otherwise the failure is reported (an exception, or an empty digest for Sha256/Sha512). A copy and its original go on independently, contexts are neither leaked nor freed twice, and nothing is written beyond the digest size or into a buffer that is too small. HMAC and block ciphers likewise deliver the right bytes, for any split into pieces, or report an error; a key of the wrong size is refused, and a damaged or incomplete padded message is reported when the cipher is finished. All of this holds for objects used in different threads at once.",
  ["faults", "inputs", "histories", "schedules"], "all operation histories, splits and failure points",
  "sha_test and crypto_test hash a few strings and no call of OpenSSL ever fails.",
  [I+"crypto.hpp", I+"sha2.hpp", I+"sha1.hpp"], [("Hash, Hmac, Cipher", I+"crypto.hpp"), ("Sha256, Sha512", I+"sha2.hpp"), ("Sha1", I+"sha1.hpp")])
P("C34", "Concurrent queries on a shared object give the answers its content defines",
  "Any number of threads may query one object at once through its const interface, in every interleaving, and each gets exactly the answer the object's content defines: bits, ranks and selections of succinct and compressed bit vectors, values, ranks and selections of wavelet matrices, occurrences, positions and preceding text of an FM index, counts and order of a frequency table, bits and extracts of bit vectors, elements, norm, intersection and union of sparse vectors, the best scores of a score table, strings, XML, JSON, configuration documents and error texts. This also holds after the object was saved and loaded, for every valid position and rank, and no query reads outside the object or changes what later queries see.",
  ["schedules", "inputs", "histories"], "all contents, queries and interleavings",
  "the tests query from one thread.",
  [I+"sucvector.hpp", I+"csucvector.hpp", I+"wavelet_matrix.hpp", I+"fmindex.hpp", I+"frequency.hpp", I+"bitvector.hpp", I+"string.hpp", I+"config.hpp", I+"minixml.hpp", I+"json.hpp", I+"exception.hpp", I+"nlp/sparse.hpp", I+"nlp/top_score.hpp"],
  [("SucVectorT/CSucVector get, rank, select", I+"sucvector.hpp"), ("WaveletMatrixT queries", I+"wavelet_matrix.hpp"), ("FMindexT queries", I+"fmindex.hpp"), ("SparseVector, Intersection, Union", I+"nlp/sparse.hpp"), ("TopScore", I+"nlp/top_score.hpp")])
P("C35", "Independent objects used in different threads do not interfere",
  "Work on objects that no other thread uses (hashing, number and text conversion, formatting, string operations, base64, serialisation, compression, CSV, configuration, XML, options, JSON, random generators with their own state, time values, error texts, bit and array containers, succinct indexes, sparse vectors) gives in every interleaving with other threads exactly the result it gives when it runs alone; it never crashes and never depends on what ran before in the process.",
  ["schedules", "inputs", "histories"], "all combinations of operations in different threads and all interleavings",
  "the tests run each class in one thread.",
  [I+"itoa.hpp", I+"atoi.hpp", I+"format.hpp", I+"string.hpp", I+"string_operation.hpp", I+"base64.hpp", I+"serializer.hpp", I+"zlib.hpp", I+"csv.hpp", I+"config.hpp", I+"minixml.hpp", I+"option.hpp", I+"time.hpp", I+"exception.hpp", I+"sha1.hpp", I+"sha2.hpp", I+"xorshift.hpp", I+"nlp/sparse.hpp"],
  [("all free functions and member functions without shared objects", I+"itoa.hpp")])
P("C36", "Running out of memory is reported, changes nothing and leaks nothing",
  "If memory runs out at any allocation inside an operation of the value, container, parser, index and conversion classes (String, BitVector, SparseVector, Frequency, TopScore, SucVector, WaveletMatrix, FM-index, CSucVector, XML, Config, CSV, JSON-like, Option, base64, serialiser, formatting, hashing), the operation either gives its normal result or reports the failure, never a wrong result and never a crash; a BitVector, SparseVector, String or Frequency whose appending, insertion, replacement, resizing or assignment failed still holds what it held before, an index, document, table or configuration that was being built can be built again, and a command-line option or parameter whose definition failed is not defined and can be defined again; nothing is leaked, and everything done afterwards gives its normal result. Assigning a String to itself keeps it.",
  ["faults", "inputs", "histories"], "every allocation of every operation, with every content held before",
  "the tests never let an allocation fail.",
  [I+"bitvector.hpp", I+"nlp/sparse.hpp", I+"string.hpp", I+"frequency.hpp", I+"sucvector.hpp", I+"wavelet_matrix.hpp", I+"fmindex.hpp", I+"csucvector.hpp", I+"minixml.hpp", I+"config.hpp", I+"nlp/top_score.hpp", I+"base64.hpp"],
  [("BitVectorT::resize/append", I+"bitvector.hpp"), ("SparseVector::push_back", I+"nlp/sparse.hpp"), ("StringT operations", I+"string.hpp"), ("FMindexT::init", I+"fmindex.hpp")])
# --- pure functions: outside the reach of a simulator
P("C40", "Digests and MACs equal their standards",
  "Every digest, HMAC and checksum equals the value the standard defines for the concatenated input.", ["inputs"], "all messages and all splits into update calls",
  "the tests use a few vectors.", [I+"sha2.hpp", I+"crypto.hpp", I+"hash.hpp"], [("update/digest", I+"sha2.hpp")],
  na="A pure function of its input: no schedule, clock, I/O or fault for a simulator to decide.")
P("C41", "Number and string conversions are exact",
  "Converting a number to text and back gives the same number, and malformed or out-of-range text is rejected.", ["inputs"], "all values and texts",
  "the tests use sample values.", [I+"itoa.hpp", I+"atoi.hpp", I+"string_operation.hpp"], [("conversion functions", I+"atoi.hpp")],
  na="A pure function of its input: no schedule, clock, I/O or fault for a simulator to decide.")
P("C42", "UTF-8/16/32 conversion is exact and rejects malformed text",
  "Valid Unicode text converts losslessly between encodings and malformed sequences are rejected or replaced as documented.", ["inputs"], "all texts",
  "the tests use sample texts.", [I+"string.hpp"], [("conversion functions", I+"string.hpp")],
  na="A pure function of its input: no schedule, clock, I/O or fault for a simulator to decide.")
P("C43", "Rank, select and substring queries equal their definition",
  "Every rank, select, access and substring-count query on a succinct index equals the value computed from the original sequence.", ["inputs"], "all sequences and queries",
  "the tests compare small samples.", [I+"sucvector.hpp", I+"wavelet_matrix.hpp", I+"fmindex.hpp"], [("queries", I+"wavelet_matrix.hpp")],
  na="A pure function of an in-memory structure: no schedule, clock, I/O or fault. (Restoring the structure from a stream is C19.)")
P("C44", "Option, XML, JSON-like and regex parsers accept exactly their language",
  "Every well-formed document or command line parses to its meaning and every malformed one is rejected.", ["inputs"], "all texts",
  "the tests use sample texts.", [I+"option.hpp", I+"minixml.hpp", I+"regex.hpp"], [("parsers", I+"option.hpp")],
  na="Pure functions of an in-memory text: no schedule, clock, I/O or fault for a simulator to decide.")
P("C45", "Time formatting and parsing are inverse",
  "Formatting an instant and parsing the text gives the same instant.", ["inputs"], "all instants and formats",
  "the tests use sample instants.", [I+"time.hpp"], [("toString/fromString", I+"time.hpp")],
  na="A pure function of its input; the part that reads the clock is C31.")
