RM = "run-time monitoring: "
prop("P01", "The bounded blocking queue is a linearizable FIFO of its capacity",
     "Whatever threads enqueue and dequeue, every history of the array blocking queue (blocking, timed and immediate operations) is explained by a sequential FIFO that never holds more than its capacity: no element is lost, duplicated, reordered or torn. A blocked operation continues once it can, a timed one does not give up early, an enqueuer's callbacks are called exactly when it had to wait, and no access is a data race.",
     ["schedules", "histories"], "all interleavings of any number of producers, consumers and observers, all capacities, spurious wake-ups included",
     "the tests run a handful of threads without perturbing the schedule; they sample a vanishing part of the interleavings and look only at the final contents",
     ["Container/ArrayBlockingQueue.hpp", "Container/BlockingQueue.hpp", "Container/Queue.hpp"],
     [("mutex, two condition variables and a ring buffer", "Container/ArrayBlockingQueue.hpp")], ["return values and callbacks of the public operations"],
     RM + "recorded histories under injected delays and spurious wake-ups, checked for linearizability; ASan, UBSan, TSan",
     "Explores thousands of perturbed schedules of small programs plus stress; exhaustive over none. Trusts the sanitizers and the history checker.")
prop("P02", "The synchronised queue is a linearizable FIFO",
     "Whatever threads enqueue, try to dequeue and ask for emptiness, every history of the synchronised queue is explained by a sequential FIFO: no element is lost, duplicated, reordered or torn, and a refused dequeue or an answer of empty is given only when the queue was empty at that moment. No access is a data race.",
     ["schedules", "histories"], "all interleavings of any number of producers, consumers and observers",
     "one schedule per test run; emptiness answers in the middle of a concurrent history are not examined at all",
     ["Container/SynchronizedQueue.hpp", "Container/Queue.hpp"], [("one mutex around a deque", "Container/SynchronizedQueue.hpp")], ["return values of the public operations"],
     RM + "recorded histories under injected delays, checked for linearizability; ASan, UBSan, TSan",
     "Explores thousands of perturbed schedules of small programs plus stress. Trusts the sanitizers and the history checker.")
prop("P03", "Semaphores never overdraw or lose wake-ups, barriers release only full rounds",
     "The number of completed decrements of a semaphore never exceeds its initial count plus the increments begun, and a waiter continues once an increment is available to it. A cyclic barrier releases the threads of a round only after the configured number have arrived, releases all of them, and is ready for the next round or a reconfiguration. Data written before passing either is visible after it.",
     ["schedules", "histories"], "all interleavings of any number of threads, initial counts, rounds and reconfigurations, spurious wake-ups included",
     "the tests use fixed thread counts and sleep-free schedules; the windows in which a wake-up can be lost or a round overtaken are not reached",
     ["Concurrent/Semaphore.hpp", "Concurrent/CyclicBarrier.hpp"], [("counter with condition variable", "Concurrent/Semaphore.hpp"), ("two turnstiles", "Concurrent/CyclicBarrier.hpp")], ["return of the operations"],
     RM + "counting monitors and a quiescence detector under injected delays and spurious wake-ups; ASan, UBSan, TSan",
     "Thousands of perturbed schedules. A hang is reported only when all threads stop being scheduled at all, never by elapsed time alone.")
prop("P04", "Once-only execution, lazy values and per-thread instances",
     "Code given to a single time executor or lazy value completes exactly once however many threads call concurrently (again only after it failed by an exception), every call that returns normally sees its completed effect or the one constructed value, and the destruction code runs exactly once if and only if it had completed. A thread local instance gives each thread its own object, made by the first use in that thread, the same on every later use, and destroyed by that thread's end.",
     ["schedules", "histories"], "all interleavings of concurrent first calls, failing code, and thread exits",
     "the tests call from one thread or without contention at the moment of the first call",
     ["Concurrent/SingleTimeExecutor.hpp", "Concurrent/LazyValue.hpp", "Concurrent/ThreadLocalInstance.hpp"],
     [("double-checked flag under a mutex", "Concurrent/SingleTimeExecutor.hpp"), ("double-checked flag under a mutex", "Concurrent/LazyValue.hpp"), ("thread specific pointer", "Concurrent/ThreadLocalInstance.hpp")], ["calls of the supplied functions, returned references"],
     RM + "counting monitors under injected delays; ASan, UBSan, TSan; objects built in dirty memory",
     "Thousands of racing first calls. TSan does not model stand-alone fences, so the executor's published data is judged by value.")
prop("P05", "Objects cross the shared memory queue exactly once and intact",
     "Every object that an enqueue accepted on a shared memory queue comes out of exactly one dequeue, equal to what was put in, also when it does not fit in one buffer and travels in several parts, when parts of different senders interleave, and when senders and receivers are different processes. Objects of one sender are received in order by a single receiver, timed operations give up only after the wait and report it, and a receiver that gives up does not lose parts already received.",
     ["schedules", "histories", "inputs"], "object sizes around and beyond the buffer size, numbers of senders and receivers, processes, waits",
     "the tests send a few fixed objects from one process at a time",
     ["Interprocess/SharedMemoryQueue.hpp", "Interprocess/Impl/SharedMemoryQueueImpl.hpp"],
     [("multi-part marshalling with per-object identifiers", "Interprocess/SharedMemoryQueue.hpp")], ["dequeued objects, success flags, time"],
     RM + "identity-carrying payloads between processes with exactly-once, order and content monitors; ASan, UBSan",
     "Hundreds of multi-process histories. Trusts boost message_queue.")
prop("P06", "Shared memory objects: one object, shared, released by its owner",
     "A shared memory object (managed or not) created by one process is the object that the others open under that name: they see its state and their changes are seen, and open-or-create opens the existing object. Opening what does not exist is refused, creating gives a fresh object, and the memory stays until the creating instance is destroyed in the process that created it, after which nothing of the object is left behind in the system.",
     ["histories", "configurations"], "all orders of creation, opening, use and destruction in one or more processes",
     "the tests create and destroy one object in one order",
     ["Interprocess/MSharedMemoryObject.hpp", "Interprocess/USharedMemoryObject.hpp", "Interprocess/SharedMemoryUtils.hpp"], [("managed segment plus named object", "Interprocess/MSharedMemoryObject.hpp")], ["object state, exceptions, names in shared memory"],
     RM + "model of existing names and object states over random multi-process histories; ASan, UBSan", "Hundreds of histories; trusts boost interprocess.")
prop("P07", "The object trie behaves as a tree of values",
     "After any sequence of additions, replacements, searches, copies, moves and cascades, an object trie holds exactly the tree those operations describe: searches return the matching, nearest or leaf node that a plain descent through first matching children finds, and cascading overlays matching nodes and adds the others through the supplied function. Depth-first and breadth-first iteration, ancestors and child ranges visit every node once in the defined order.",
     ["histories", "inputs"], "all operation sequences and tree shapes, duplicates and empty nodes included",
     "the tests build a few fixed tries and search fixed paths",
     ["Container/ObjectTrie.hpp"], [("nodes holding vectors of children", "Container/ObjectTrie.hpp")], ["returned nodes, iteration order"],
     RM + "model-based monitor comparing the whole tree and all observers after every random operation; ASan, UBSan", "Tens of thousands of random sequences against a reference tree.")
prop("P08", "The dependency graph answers for the current set of relationships",
     "After any sequence of additions and removals, a dependency graph reports exactly the present dependencies, relationships and relationship data, and refuses operations on absent or duplicate dependencies as documented. Its dependency order is a permutation in which everything follows what it depends on, its parallel order puts each dependency in the earliest possible step, and cycles are reported exactly when they exist, by edges whose removal breaks them all.",
     ["histories", "inputs"], "all operation sequences and graph shapes",
     "the tests use one or two fixed graphs and few removals",
     ["Container/DependencyGraph.hpp"], [("boost graph plus reverse lookup rebuilt on removal", "Container/DependencyGraph.hpp")], ["query results"],
     RM + "model-based monitor comparing all queries after every random operation; ASan, UBSan", "Thousands of random sequences against a set-based reference graph.")
prop("P09", "Parsing property text is total, safe and faithful",
     "Whatever bytes are given, the property parser either yields a syntax tree or throws its syntax error, without touching memory it does not own, and the result stays valid when it is moved. For every well-formed property text, the tree holds exactly the names, values, nesting, comments and include directives written, in order, with escapes and line continuations resolved.",
     ["inputs"], "all byte strings, and all generated well-formed documents with any nesting, escapes, continuations, Unicode text and line endings",
     "the tests parse a few dozen hand-written texts",
     ["Lang/Property/PropertyParserService.hpp", "Lang/Property/Parser/PropertyParser.hpp", "Lang/Property/Parser/PropertyScanner.hpp", "Lang/Property/Lang/PropertyAst.hpp"],
     [("scanner over code spans", "Lang/Common"), ("recursive descent parser", "Lang/Property/Parser/PropertyParser.hpp")], ["syntax tree visited by a visitor, exceptions"],
     RM + "grammar-based generation with a known expected tree, and mutated hostile bytes, under ASan and UBSan", "Tens of thousands of documents; expected trees come from the generator, not from the parser.")
prop("P10", "Scanner tokens cover the text and locate it",
     "For every input text, the tokens delivered by a scanner cover the text from beginning to end in order without gap or overlap (but for what it skips as blank), and the reported code spans name the line and column at which the token's text stands. Going back to a mark and scanning again delivers the same tokens.",
     ["inputs", "histories"], "all texts, line endings and marks", "the tests scan a few fixed texts and compare a few spans",
     ["Lang/Common"], [("scanned token store and lazily calculated code spans", "Lang/Common")], ["tokens and code spans"],
     RM + "independent position counter against reported code spans; ASan, UBSan", "Tens of thousands of texts.")
prop("P11", "The injector builds exactly the bound object graph",
     "For every set of bindings, an injector either refuses construction because a binding is missing, duplicated or cyclic, or yields for each requested key an object from the binding made for exactly that type, kind and name, with its dependencies injected alike: singletons once and shared, thread local singletons once per thread, prototypes anew each time. A child injector sees its parents' bindings unless it overrides them, callbacks run once after construction and before destruction, and no object is leaked or used after it was destroyed.",
     ["configurations", "programs", "schedules"], "all binding sets, hierarchies, request orders and concurrent requests",
     "the tests use fixed configurations with a few bindings and one thread",
     ["Application/Injector.hpp", "Application/Impl/BindingMap.hpp", "Application/Impl/Binding.hpp"],
     [("bindings by key, validated by a dependency graph", "Application/Injector.hpp")], ["instances, exceptions, construction and destruction counts"],
     RM + "random binding configurations against a reference resolver, instance life-cycle counters; ASan, UBSan, TSan", "Hundreds of random configurations over a fixed family of types.")
prop("P12", "Environment configuration delivers the typed values of its sources",
     "For every set of property sources and type specifications, each specified property has the value of the last source that sets it, or its default, converted to the specified type, and composite properties nest accordingly. A property with neither a value nor a default has no binding. Values and defaults that are not of the type or outside its range, unknown types, sources that are missing and properties set by two configurations are refused with an exception when the injector is built.",
     ["configurations", "inputs"], "all specifications, sources, override orders and value texts", "the tests cover fixed files with well-formed values",
     ["Application/EnvironmentConfiguration.hpp", "Application/Impl"], [("property trie with cascaded sources and typed factories", "Application/Impl/EnvironmentConfigurationBuilder.hpp")], ["typed values, exceptions"],
     RM + "random specifications and sources against a reference resolver; ASan, UBSan", "Thousands of random configurations.")
prop("P13", "Command line parsing returns what was given, or refuses",
     "For every set of option definitions and every argument list, the parsed options, values, final value and numeric conversions are those written on the command line in the chosen style, each option being present exactly when it was given by one of its forms. Unknown options, missing option values, stray values and numbers that are malformed or out of range are refused with an exception, nothing outside the arguments is read, and a parser used again gives the results of the last command line only.",
     ["inputs", "configurations"], "all option sets, styles and argument lists", "the tests parse a few fixed argument lists",
     ["Application/CommandLine.hpp"], [("argument scan over option definitions", "Application/CommandLine.hpp")], ["query results, exceptions"],
     RM + "random definitions and argument lists against a reference interpretation; ASan, UBSan", "Tens of thousands of command lines.")
prop("P14", "Every enabled log message is delivered once, whole and in order",
     "Each message logged at an enabled level appears exactly once and unbroken in the stream that its logger has for that level, messages of one thread in the order logged, whatever threads log concurrently, and no message of a disabled level appears. This holds while the logging system is being reconfigured, and no access is a data race.",
     ["schedules", "histories"], "all interleavings of logging threads and reconfigurations, all message sizes", "the tests log from few threads and compare sizes, not content and order under reconfiguration",
     ["Logging/Logger.hpp", "Logging/Impl/LoggingState.cpp", "Logging/Impl/LoggingStreams.cpp"], [("atomic logging state, locked streams", "Logging/Impl/LoggingState.cpp")], ["contents of the streams"],
     RM + "identity-carrying messages with exactly-once, whole-line and order monitors on the streams; ASan, UBSan, TSan", "Hundreds of perturbed concurrent histories.")
prop("P15", "Loggers have the configuration of the nearest configured namespace",
     "For every logging configuration, each logger logs at the level, in the format and to the streams that the configuration text gives to its namespace or, where it gives none, to the nearest configured enclosing namespace. A configuration that is refused leaves the previous one in force.",
     ["configurations", "histories"], "all namespace trees, option subsets and reconfiguration histories", "the tests use a few fixed configurations",
     ["Logging/Impl/LoggingState.cpp", "Logging/Impl/LoggerPropertyVisitor.hpp", "Logging/Impl/LoggerItems.cpp"], [("logger tree and option propagation", "Logging/Impl/LoggingState.cpp")], ["logger levels, stream contents"],
     RM + "random configuration texts against a reference inheritance model; ASan, UBSan", "Thousands of random configurations.")
prop("P16", "Log messages are the template with its parameters, in the specified format",
     "For every message template and parameter list, the logged text is the template with each pair of braces replaced by the printed form of the next parameter, escapes resolved, and each format specifier of the logger's format replaced by the item it names. Memory outside the message and parameters is never read, whatever the number of parameters.",
     ["inputs"], "all templates, parameter counts and types, and format strings", "the tests log a few fixed messages with matching parameters",
     ["Logging/Logger.hpp", "Logging/Impl/LoggerItems.cpp", "Logging/Impl/LoggingState.cpp"], [("format items", "Logging/Impl/LoggerItems.cpp")], ["stream contents"],
     RM + "random templates, parameters and formats against a reference renderer; ASan, UBSan", "Tens of thousands of messages.")
prop("P17", "What is written to a file resource is what is read from it",
     "For every text and byte sequence, what is written to a file or string URI through a resource is afterwards read back identically through every kind of resource and file reading utility, and files, directories and their recursive traversal are reported as the file system has them. An HTTP resource gives exactly the body the server sent, and an unreachable server is reported by an exception. Moved resources keep working.",
     ["inputs", "histories"], "all contents, encodings, file trees and operation orders", "the tests use small fixed files",
     ["Resource/File.hpp", "Resource/Utf8To32ReadResource.hpp", "Resource/ByteReadResource.hpp", "Resource/Utf32To8WriteResource.hpp", "Resource/ByteWriteResource.hpp", "Util/Files.hpp"], [("stream wrappers with code conversion", "Resource")], ["contents read back, directory listings"],
     RM + "random contents and file trees in a scratch directory against the harness's own copy; ASan, UBSan", "Thousands of files.")
prop("P18", "URI components are those of the grammar",
     "Every URI text is split into scheme, user, host, port, path, query and fragment exactly as the generic URI grammar defines, or refused with the URI exception, without reading beyond the text, and printing the components gives a URI that splits the same way. Normalising a path removes single dots, pairs of a directory and double dots, and trailing slashes, and nothing else.",
     ["inputs"], "all byte strings and all generated URIs, with and without each component", "the tests parse a few dozen URIs",
     ["Resource/UriComponents.hpp"], [("hand-written splitter", "Resource/UriComponents.hpp")], ["component accessors, exceptions"],
     RM + "generated URIs with known components and hostile bytes; ASan, UBSan", "Tens of thousands of URIs.")
prop("P19", "URI texts become the resource they name",
     "For every URI text, the resource obtained is of the kind its scheme names and addresses the path or location written in it. A copy or clone of a URI object equals its original, equal URIs have equal hash codes, and resolving a relative, absolute or full text from a URI gives the resource that the resolution rules name.",
     ["inputs"], "all schemes, paths and archive entries", "the tests cover a few fixed URIs",
     ["Resource/UriFromString.hpp", "Resource/UriResolve.hpp", "Resource/File.hpp", "Resource/Url.hpp"], [("scheme table", "Resource/UriFromString.hpp")], ["dispatched type, raw text"],
     RM + "generated URI texts against a reference classification; ASan, UBSan", "Thousands of URIs.")
prop("P20", "String utilities agree with a reference on all Unicode text",
     "For every UTF-8 or UTF-32 text, the string utilities (prefix and suffix tests, counting, trimming, padding, splitting, joining, replacing, case changing) return what a straightforward definition over code points gives, and terminate. They never read outside their arguments.",
     ["inputs"], "all texts, separators, widths and options", "the tests use a few short, mostly ASCII strings",
     ["Util/Strings.hpp"], [("code point iteration", "Util/Strings.hpp")], ["returned values"],
     RM + "differential testing against reference definitions over decoded code points; ASan, UBSan", "Hundreds of thousands of calls.")
prop("P21", "Values survive conversion to text and back, and nothing else is accepted",
     "For every value of the arithmetic, Boolean and character types, converting it to text and back gives the same value, in each supported string encoding. Text that is not a number of the type, or whose number is outside its range, is refused with the conversion exception instead of giving another value.",
     ["inputs"], "all values and texts of all supported types", "the tests convert a few values",
     ["Type/ToString.hpp", "Type/FromString.hpp"], [("strto* based conversion", "Type/FromString.hpp")], ["converted values, exceptions"],
     RM + "boundary-biased random values and texts against 128-bit reference arithmetic; ASan, UBSan", "Hundreds of thousands of conversions.")
prop("P22", "Compression and archives give back what was put in",
     "For every content, compressing with gzip and decompressing (in any combination of files, strings and streams) returns it identically, and a damaged input is refused with an exception. A zip archive holds, after any sequence of puts, replacements, renames and deletions that is committed, exactly the entries, contents and comments which that sequence describes, an abandoned sequence leaves it untouched, and a damaged or encrypted entry (without its password) is never read as something else.",
     ["inputs", "histories"], "all contents, chunk sizes, entry names and operation sequences", "the tests use fixed small files",
     ["Util/Compression.hpp", "Util/Zip.hpp", "Resource/ZipFile.hpp", "Resource/ZipEntry.hpp"], [("boost gzip filters", "Util/Compression.hpp"), ("libzip wrapper", "Util/Zip.hpp")], ["decompressed content, archive listings"],
     RM + "random contents and operation sequences against a map model, with zlib and an independent zip reader; ASan, UBSan", "Hundreds of archives, thousands of contents.")
prop("P23", "Hash functions agree with their standards for every input and chunking",
     "For every byte sequence, each supported hash function gives the digest its standard defines, as bytes and as text, independent of whether the data comes from memory, a file or a stream, and of how it is divided. Asking for the digest does not change the state, a missing file is refused, and hashing in several threads at once gives the same digests.",
     ["inputs", "schedules"], "all inputs, lengths around block boundaries, sources", "the tests hash one or two fixed texts",
     ["Util/Hashing.hpp"], [("HashLibrary wrapper", "Util/Hashing.hpp")], ["digests"],
     RM + "differential testing against Python hashlib digests; ASan, UBSan", "Thousands of inputs.")
prop("P24", "Character classification and UTF-8 coding follow Unicode",
     "For every code point, the character functions classify and map it as the Unicode data of the ICU library does, and encoding it as UTF-8 and decoding it gives it back. The safe iteration and search functions accept every byte sequence, report malformed parts, and never read outside it.",
     ["inputs"], "all 1 114 112 code points and all byte sequences", "the tests use a few characters",
     ["Type/Character.hpp"], [("ICU wrappers", "Type/Character.hpp")], ["returned values"],
     RM + "exhaustive sweep over all code points against ICU and a bitwise reference codec; ASan, UBSan", "The code point sweep is complete; byte sequences are random.")
prop("P25", "The test runner accounts for every test exactly once",
     "In every execution model and with any concurrency, each selected test that the model covers is run exactly once and reported exactly once, as a success if its assertions held and as a failure if it failed an assertion, threw, or brought its process down where the model isolates it. Its process exit code and report totals agree with these results, and an assertion fails exactly when its condition is false.",
     ["programs", "crash_points", "configurations"], "all test groups with passing, failing, throwing and crashing tests, models, selections and process counts", "the repository's own tests are run by the runner and do not include failing or crashing ones",
     ["Testing/TestRunner.hpp", "Testing/Impl"], [("execution models", "Testing/Impl/TestRunnerExecutor.hpp"), ("shared memory queue for results", "Testing/Impl")], ["report output, exit code, executions recorded by the tests"],
     RM + "generated test programs whose tests record their own executions, with injected failures and crashes", "Tens to hundreds of runner processes.")
prop("P26", "URL decoding and media types",
     "Every text is percent-decoded as the rule says (two hexadecimal digits make one byte, a plus sign makes a space), incomplete or wrong escapes being refused or passed on as requested, and nothing beyond the text is read. Parameter lists are split into exactly their keys and values. A media type is the one registered for the extension, in any case, or none.",
     ["inputs"], "all byte strings", "the tests decode a few texts",
     ["Network/Utilities/UrlDecode.hpp", "Network/Utilities/MimeTypes.hpp"], [("decoder loop", "Network/Utilities/UrlDecode.hpp")], ["decoded text, exceptions"],
     RM + "reference decoder on random and hostile texts; ASan, UBSan", "Hundreds of thousands of texts.")
prop("P27", "Child processes run the given code and their end is reported truly",
     "A forked child runs the given function exactly once in a process of its own and, when it is to exit with the function, never returns into the parent's code, and waiting reports for exactly the children waited for whether each exited, with which status, or was killed or aborted, and by which signal. Checking without waiting never blocks and reports a running child as running, and terminating a process ends it when it is running.",
     ["crash_points", "schedules", "histories"], "all numbers of children, exits, signals and orders of ending", "the tests fork one child that exits normally",
     ["Concurrent/Fork.hpp"], [("fork and waitid", "Concurrent/Fork.hpp")], ["termination reports, files written by children"],
     RM + "random populations of children with known fates; ASan, UBSan", "Thousands of children.")
prop("P28", "Scope guards run exactly once",
     "The function of a scope guard runs exactly once, at the end of the scope on every path out of it including exceptions, or when executed early, and not at all when it was cleared. A movable guard that is moved passes this duty on: exactly one of the objects runs it.",
     ["programs", "histories"], "all sequences of construction, moves, clearing, early execution and scope exits", "the tests cover one order each",
     ["Type/OnScopeExit.hpp", "Type/MovableOnScopeExit.hpp"], [("destructor guarded by a flag", "Type/OnScopeExit.hpp")], ["calls of the function"],
     RM + "random guard histories against a duty model; ASan, UBSan", "Tens of thousands of histories.")
prop("P29", "Dates, durations and pretty printed values",
     "A non-negative duration under a hundred hours that is printed in a format and parsed again in that format is the same one to the printed precision, and a time point is printed as the calendar and the standard format directives define it. Durations in words, byte counts, hexadecimal dumps and prefixed numbers are printed for every value, correctly rounded and without undefined behaviour.",
     ["inputs"], "all time points, durations, byte contents and values (negative durations in date formats excepted)", "the tests print a few values",
     ["Util/DateTime.hpp", "Util/PrettyPrint.hpp"], [("date library wrappers", "Util/DateTime.hpp")], ["printed text, parsed values"],
     RM + "round trips and reference printers on random values; ASan, UBSan", "Tens of thousands of values.")
prop("P30", "The HTTP server answers each request as its site says, exactly once",
     "Every well-formed request is answered in order with exactly one response: that of the web application of the nearest configured location for its path and method (the file, canned body, redirection or handler result configured there, not found without one), by one call of the handler, in the session of its cookie or in a new one, and never with a file outside of the document root. A server configured by an environment configuration text serves the site that the text describes, and a location given twice is refused. Malformed requests are refused without calling a handler, and they, handlers that throw and clients that vanish neither harm other connections nor leave their own open.",
     ["inputs", "schedules", "histories"], "all sites, request sequences, fragmentations and interleavings of connections", "the HTTP tests are not among the reliable tests, and send single well-formed requests",
     ["Network/Http/Server", "Network/Utilities"], [("session state machine", "Network/Http/Server/HttpSession.cpp"), ("routing trie", "Network/Http/Server/HttpWebApps/RoutingHttpWebApp.hpp"), ("configuration", "Network/Http/Server/HttpServer.cpp")],
     ["responses, handler calls, sessions, open descriptors"],
     RM + "random sites and hostile clients on raw sockets against a reference of the site, exactly-once counts and descriptor accounting; ASan, UBSan, TSan", "About a thousand servers and twenty thousand requests per run.")
prop("P31", "HTTP servers start, stop and restart",
     "A server that was started, in the background or in the calling thread, runs and answers with all of its workers at once until it is stopped, by a call, by a termination signal it is registered for, or by its destruction, however many times. Once stopped it no longer runs, accepts no connection, and has ended its workers and connections; a start on a port that is in use fails in the caller and leaves the server stopped. Starts and stops by several threads take effect one after another, and a start in the calling thread returns when the server was stopped.",
     ["schedules", "histories"], "all histories of starts, stops, signals and connections, by any threads", "the tests start and stop a server once",
     ["Network/Http/Server/HttpServer.cpp", "Network/Http/Server/Impl/Listener.hpp"], [("start and stop under a mutex", "Network/Http/Server/HttpServer.cpp"), ("listener", "Network/Http/Server/Impl/Listener.hpp")],
     ["isRunning, connections, worker threads, descriptors"],
     RM + "random lives of servers with live connections against a state model, quiescence monitor for what never returns; ASan, UBSan, TSan", "About a thousand lives per run.")
prop("P32", "HTTP clients send the request and return the response",
     "A get, head or post call of an HTTP client sends exactly one request of the client's version with the given path, body and user agent to the host and port of the client or its URL, and returns the status, fields and body of the response, whatever its framing and fragmentation. Responses that are malformed or cut short, and servers that cannot be reached, are reported as exceptions, as are URLs without a supported scheme and unknown versions.",
     ["inputs", "schedules"], "all paths, bodies and responses", "the tests fetch a few pages",
     ["Network/Http/Client"], [("request function", "Network/Http/Client/HttpClient.hpp"), ("clients of URLs", "Network/Http/Client/HttpClient.cpp")], ["requests received by raw servers, responses returned"],
     RM + "random requests to raw servers that record them and answer with random framings, pieces and breakage; ASan, UBSan", "Thousands of exchanges per run.")
prop("P33", "User and application directories are those of the user and the environment",
     "The user name is that of the effective user, the home directory is HOME or, if it is not set, that of the user database, however large its entry; users without an entry are an exception and no call fails to return. The user data, configuration and runtime directories of an application are those of the documented environment variables, or else the documented ones below the home or temporary directory, and the global ones lie beside the program; the runtime directory exists when it is returned, and when it was created only its user has access to it. The answers do not change for the life of the process.",
     ["inputs", "configurations"], "all environments and user databases", "the tests run in one environment with a set HOME",
     ["Util"], [("user information", "Util/User.hpp"), ("application directories", "Util/Impl/AppImpl.hpp"), ("fixed directories", "Util/App.hpp")], ["answers of processes with other users, environments and user databases"],
     RM + "child processes with random environments and users, a stand-in user database with injected faults, processor time limits; ASan, UBSan", "Thousands of processes per run.")
prop("P34", "Identifiers, random numbers, ports, endpoints, collections and streams",
     "UUIDs made by any threads and processes are distinct and agree with their bytes, text and order. Uniform generators return values of their closed range, for every range, the same ones for the same seed. The free port search returns the first port of its range that can be bound, or an exception if there is none, and initialisation with a free port is repeated as often as permitted when the port is in use and only then. Endpoint texts of IPv4 and bracketed IPv6 addresses and ports become the endpoint they name and back, and others are refused. The container, vector, pointer and stream utilities agree with their definitions, thread names are those of their thread, clocks agree with the system clock in their unit, and exceptions carry their text and location.",
     ["inputs", "schedules", "configurations"], "all ranges, texts, collections and states of ports", "the tests compare ten random numbers of one seed and a few lines of streams",
     ["Util", "Type", "System", "Testing", "Network"], [("ranges of generators", "Util/Impl/RandomImpl.hpp"), ("identifiers", "Type/UUID.hpp"), ("free ports", "Testing/Util/NetworkTesting.hpp"), ("endpoints", "Network/Http/Server/NetworkTypes.hpp"), ("containers", "Util/Containers.hpp"), ("vectors", "Util/Vectors.hpp"), ("streams", "Util/Streams.hpp"), ("clocks", "System/SystemClock.hpp")],
     ["values returned, ports bound, identifiers made"],
     RM + "random ranges, occupied ports, processes and threads, compared with the standard library, inet_pton and the harness's own sockets; ASan, UBSan", "Ten thousand cases per run.")
