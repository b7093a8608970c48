BASE = "Decided for every value within the stated bounds by symbolic execution of the real code and z3; environment stand-ins in /verif/shim are trusted, completed paths are replayed natively to validate the encoding."

prop("C01", "Wire primitives round-trip exactly",
     "Every primitive the encoder writes (integers of all widths, variable-length decimals, floats, booleans, strings, blobs, counted byte arrays, int arrays) is read back by the decoder with the same value, consuming exactly the bytes written, however the byte stream is split into reads. Integers and floats are big-endian, a decimal uses the shortest of the 0/1/2/4/8-byte forms, and the encoder's reported size equals the bytes it produced. What was written or read stays as it is when the caller reuses its slices or reads and writes more, and encoders and decoders used by several goroutines at once do not disturb each other.",
     ["inputs"], "all 64-bit decimals, all fixed-width values and float bit patterns, blob and string contents and lengths across every length-form boundary (253/254/255/32767/32768/65535/65536/100000), all splits of the stream",
     "The tests round-trip a handful of numbers from one in-memory buffer; the length forms above 253 bytes and partial reads are never exercised.",
     ["common/netdata/datainputx.go", "common/netdata/dataoutputx.go"],
     [("length and decimal forms", "common/netdata/dataoutputx.go WriteDecimal, WriteBlob"), ("reading back", "common/netdata/datainputx.go ReadDecimal, ReadBlob, Read")], BASE)

prop("C02", "Value trees and packs survive encoding and decoding",
     "Any value tree (null, boolean, decimal, float, double, text, text hash, blob, IPv4 address, lists and maps nested in each other up to 500 deep) and any map, performance-counter or object pack decodes to an equal tree or pack of the same type, with no byte left over. What a typed setter of a map, list or pack stored is returned by the getters of its kind; a getter of another kind, or for a key that is not there, returns 0, false or \"\". When the underlying stream fails while a value or pack is written, the writer reports an error.",
     ["inputs", "fault_sequences"], "all leaf values, all shapes up to the stated width and depth, all pack field values, all points at which the stream may fail",
     "Tests encode a few fixed trees and compare single fields; type tags, nested containers, element counts that change width and write failures are not covered.",
     ["common/netdata/valuecreator.go", "common/netdata/packcreator.go", "common/netdata/listvalue.go", "common/netdata/mapvalue.go", "common/netdata/mappack.go", "common/netdata/objectpack.go", "common/netdata/perfcounterpack.go", "common/netdata/perfcounter_k8s_pack.go"],
     [("type tags", "common/netdata/valuecreator.go CreateValue, packcreator.go CreatePack"), ("containers", "common/netdata/listvalue.go, mapvalue.go, mappack.go")], BASE)

prop("C03", "Agent-sent packs and steps have the collector's wire layout",
     "Every pack and profile step the agent sends is laid out on the wire field by field as the Scouter protocol prescribes: type tag, field order, field encodings and the conditional fields. An independent decoder of that layout recovers every field value that was set, and a sequence of steps decodes as exactly those steps in order. A pack or step encoded again gives the same bytes, and an encoding is not affected by others made later or by other goroutines.",
     ["inputs"], "all values of all fields of transaction, profile, alert, text, object and counter packs and of all step kinds",
     "No test decodes what is sent: the agent has no reader for these packs, so a swapped or dropped field stays invisible until a collector misreads it.",
     ["common/netdata/xlogpack.go", "common/netdata/xlogprofilepack.go", "common/netdata/alertpack.go", "common/netdata/textpack.go", "common/netdata/step.go", "common/netdata/methodstep.go", "common/netdata/apicallstep.go", "common/netdata/pmessagestep.go"],
     [("pack writers", "common/netdata/xlogpack.go Write, xlogprofilepack.go Write"), ("step writers", "common/netdata/step.go StepsToBytes and the Write methods of the steps")], BASE)

prop("C04", "Decoding arbitrary bytes is safe and detects truncation",
     "Decoding any byte sequence as a primitive, value or pack returns a result or an error: it never panics, never runs on after the input has ended, and never allocates memory out of proportion to the bytes actually present. An encoding that is cut short at any point is reported as an error, never taken for a complete value; so is a type tag that is not defined, or a value that is no map where a pack has its map, at whatever depth it stands. However deeply lists and maps are nested in the input, the process survives it.",
     ["inputs"], "all byte sequences up to the stated length, also behind valid beginnings, and all cut points of valid encodings",
     "Tests decode only what the encoder produced; bytes from the network are an unbounded input space.",
     ["common/netdata/datainputx.go", "common/netdata/listvalue.go", "common/netdata/mapvalue.go", "common/netdata/mappack.go", "common/netdata/objectpack.go", "common/netdata/perfcounterpack.go"],
     [("length checks", "common/netdata/datainputx.go ReadBlob, Read"), ("error propagation", "common/netdata/datainputx.go ReadValue, ReadPack and the Read methods of containers and packs")], BASE)

prop("C05", "UDP framing delivers every pack intact",
     "Each encoded pack handed to the UDP client reaches the collector exactly once and unchanged: alone in a single-pack datagram, batched with others in a multi-pack datagram, or split into numbered fragments that reassemble to it. Every datagram carries the marker, counts and lengths that describe its contents, no datagram exceeds the configured size limit apart from its header, and packs that are not split keep the order in which they were given within their datagram. This holds also when several goroutines send through one client at the same time.",
     ["inputs", "configurations"], "all sequences of buffer sizes around the datagram limit, all limits, all contents",
     "The tests send to a live socket and look at nothing that arrives.",
     ["netio/udpclient/udpclient.go"],
     [("single, multi and fragment framing", "netio/udpclient/udpclient.go WriteBuffer, WriteBufferList, writeMTU")], BASE)

prop("C06", "Outbound queue: order kept, drop only when full, never blocks",
     "Packs queued for sending are sent in the order they were queued (those that have to be split included), each exactly once. Queueing never blocks the application thread: a pack is dropped only when the bounded queue (send_queue_size) is full at that moment, and a stalled or failing connection to the collector does not change that. A datagram that fails loses only the packs in it; sending resumes afterwards, also when the socket could not be opened at first, and packs queued after a change of collector address, port or datagram limit are sent under the new setting. While it cannot or need not send anything, the sender waits; it never spins.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of producers and the sender within the preemption bound, all queue sizes up to the bound, all connection failures",
     "Interleavings of producers, the sender and a failing socket are not reachable by unit tests.",
     ["netio/udpsender/udpsender.go", "common/factory/channelfactory/channelfactory.go", "netio/udpclient/udpclient.go"],
     [("bounded channel with non-blocking send", "netio/udpsender/udpsender.go AddPack, AddBuffer"), ("batching loop", "netio/udpsender/udpsender.go run")], BASE)

prop("C07", "Every hashed text reaches the collector before it is needed again",
     "A text is identified by the CRC-32 of its bytes (the empty text by 0). Whenever one of the text functions returns a hash for use in place of a text, that text has been handed to the sender with that hash and under its own kind, now or earlier; what was sent as one kind never counts as sent for another. The same text is not sent again until the sent-text memory is reset or has evicted it; after a reset each text is sent again on its next use.",
     ["inputs", "histories"], "all texts and hash values, all histories of sends, resets and evictions within the bound",
     "Whether a hash is resolvable depends on the history of everything sent before it.",
     ["netio/netio.go", "common/util/hashutil.go", "common/structure/cacheset"],
     [("sent-text sets", "netio/ sendTextDirect and the Send functions"), ("hash", "common/util HashString")], BASE)

prop("C08", "Bounded containers behave as bounded FIFO maps and sets",
     "For every history of operations each bounded map, set and cache (lra, cachemap, cachemap2, cacheset) with a capacity of at least one holds what a plain map or set limited to its capacity would: the value added under a key, absence after removal or Clear, and never more entries than the capacity (lra with capacity 0 is unlimited). When a new key exceeds the capacity the oldest inserted entry is evicted and only that one; adding a present key again does not change its age (lra takes the new value, the cachemaps keep the first). Size, Empty and GetValues describe exactly the entries present, and lra calls OnEvicted once for each entry that leaves.",
     ["histories", "inputs"], "all histories of put, get, remove, clear and enumerate up to the stated length over symbolic keys, for every small capacity",
     "Tests run one or two fixed sequences; eviction order bugs need particular sequences of removals and re-insertions.",
     ["common/structure/lra/lra.go", "common/structure/cachemap/cachemap.go", "common/structure/cachemap2", "common/structure/cacheset"],
     [("eviction", "common/structure/*/ Put and Add")], BASE)

prop("C09", "Bounded containers are safe and atomic under concurrent use",
     "Concurrent operations on a shared bounded map, set or cache (lra, cachemap, cachemap2, cacheset) always complete (no deadlock), are free of data races, and give results that some sequential order of the operations would give.",
     ["schedules"], "all interleavings at synchronisation points of two or three threads running short operation sequences",
     "The failing schedules are rare and the tests are sequential.",
     ["common/structure/lra/lra.go", "common/structure/cachemap/cachemap.go", "common/structure/cachemap2", "common/structure/cacheset"],
     [("locks", "common/structure/*/")], BASE)

prop("C10", "Wildcard patterns match exactly as globs",
     "A service, method or URL pattern containing '*' matches a string exactly when the string can be obtained by replacing every '*' with some text, wherever the stars stand; a pattern without a star matches only itself. A comma-separated pattern list, however long, matches exactly when one of its patterns does, whatever else was or is being matched at the same time.",
     ["inputs"], "all patterns and strings up to the stated lengths",
     "Tests check a dozen pattern and string pairs; overlap and ordering mistakes need particular combinations.",
     ["common/util/strmatch.go"],
     [("matcher classification and comparison", "common/util/strmatch.go StrMatch.include, NewStrMatch")], BASE)

prop("C11", "Sampling and discard decisions follow the configuration",
     "What is sent of a finished service is a function of its elapsed time, error, name and the configuration. A service matching the discard patterns is not sent, unless it failed and xlog_discard_service_show_error is on; any other failed service is sent with its profile. Otherwise: with general sampling enabled, services matching the exclude patterns are sent; then the first enabled patterned sampling (1, 2, 3) whose patterns match decides, else general sampling if enabled, else the service is sent. The deciding sampling uses the rate of the first step whose threshold is above the elapsed time (else the over rate): 0 sends nothing, 100 everything, and in between that many of 100 equally likely draws. A service sampled out with only_profile loses only its profile (what of it was not sent yet), otherwise profile and transaction record, except that the record of a service that belongs to a transaction started elsewhere is still sent. Changed pattern lists take effect. Each service is decided on its own, also when several end at the same time.",
     ["inputs", "configurations", "histories"], "all elapsed-time thresholds, rates and random draws; all combinations of enabled samplings, matching patterns, discard, exclusion, error and show-error; one reload",
     "The decision depends on a dozen options at once and on a random draw.",
     ["strace/xlogsampler.go", "strace/tracemain.go", "conf/configure.go"],
     [("sampler", "strace/xlogsampler.go"), ("discard and sending", "strace/tracemain.go findXLogDiscard, endAnyServiceOfTraceContext")], BASE)

prop("C12", "A service is registered once and ended exactly once",
     "From its start until its first end a service is listed as active exactly once and found by its transaction id; after that it no longer is. However often and by whomever it is ended - EndService, EndHttpService, removal as a stuck service, several of these at the same time - it is counted in the service meter once, with the elapsed time from start to the first end and whether it failed, and its transaction record is sent once (never, when it is not ended; sampling apart). Starting a service in a context that already carries one keeps that service. GoWithTrace runs the function exactly once; inside a service it runs as a service of its own, active while the function runs and ended when it returns. Calls with a context without a service, or without a context, record nothing.",
     ["histories", "schedules"], "all histories of starts, ends, errors and stuck removals up to the bound; two concurrent ends of a service with a context switch at any statement; all end orders of a service and its goroutines",
     "Tests end each service once from one goroutine; double and concurrent ends need a particular history or schedule.",
     ["strace/tracemain.go", "strace/tctxmanager/tctxmanager.go", "netio/tracecontext.go", "counter/serviceMetering.go"],
     [("start and end", "strace/tracemain.go startService, endAnyServiceOfTraceContext"), ("active services", "strace/tctxmanager/tctxmanager.go")], BASE)

prop("C13", "The transaction record tells what happened in the service",
     "The transaction record sent for a service carries the agent's object hash, its transaction id, group and caller, type, elapsed milliseconds, status, error, user, sql and api call counts and times, user agent, referer, remote IPv4 address (0.0.0.0 when it is not one), login, description and the five texts that the trace context held at the end, and the number of profile steps and bytes sent for it. Names are sent as hashes, and for every hash the text itself was sent under the right kind: service name (path and <method> for http), error, user agent, referer, login, description. The error is the first one marked or returned by an api call, unless it is set forcibly. Every ended api call is counted with its duration; no count, and not the first error, is lost when several goroutines use the service's context at the same time. Http headers (all, or those listed), the query string and the client address header are profiled or used exactly as configured. What did not come up in the service is zero or empty, whatever the services before it had.",
     ["inputs", "histories", "configurations"], "all values of each number of the record, all short texts, all combinations of http request features and profiling options, all short sequences of errors and calls, all small profile buffer sizes",
     "No test looks at what is sent for a service: a wrong, stale or missing field stays invisible.",
     ["strace/tracemain.go", "netio/tracecontext.go", "netio/dataproxy.go", "netio/profilecollector.go"],
     [("record from context", "netio/tracecontext.go ToXlog"), ("end of a service", "strace/tracemain.go endAnyServiceOfTraceContext"), ("http", "strace/tracemain.go StartHttpService, profileHttpHeaders")], BASE)

prop("C14", "Transactions that belong together are linked",
     "A goroutine started with GoWithTrace inside a service gets a transaction id of its own, the group of its parent, its parent as caller, its parent's remote address and type BACK_THREAD2; the parent has exactly one step naming that id. StartApiCallWithPropagation adds to the request exactly the headers X-Scouter-Gxid, -Caller and -Callee, holding (also when several calls start at the same time) group, own id and the id of the call's step in the collector's base-32 form (x or z for the sign, then the digits), and X-Scouter-Caller-Obj with the object hash in decimal. A transaction without a group founds one with its own id. A service started by inheritance has its parent's group, name, address, type, error, counts, user, agent, referer, login, description and texts, and its parent as caller.",
     ["inputs", "histories"], "all 64-bit ids, all trees of goroutines within the bound, all values of inherited fields",
     "Linkage only shows when records and headers of several services are compared.",
     ["strace/tracemain.go", "common/util/hexautil.go", "netio/tracecontext.go"],
     [("goroutines", "strace/tracemain.go startChildGoroutineService"), ("headers", "strace/tracemain.go StartApiCallWithPropagation, common/util/hexautil.go"), ("inheritance", "strace/tracemain.go inheritTctx")], BASE)

prop("C15", "Profile steps are delivered once, in order and as a tree",
     "Every profile step completed before the end of a service whose profile is sent is delivered exactly once, in profile packs with the service's id, the hash of its name and the agent's object hash, that hold at least one and at most profile_step_max_count steps, each pack consecutive steps in the order of completion (the packs themselves may overtake each other), however many steps are kept in memory (profile_step_max_keep_in_memory_count). The index of a step is its place in the order of starts, its parent is the index of the innermost method or api call open when it started (0 at top level), its start time is relative to the service and its elapsed time is that from start to end. A step carries what was given for it: message, hashed message or parameters, the name of a method, the name, address and error of an api call. Steps added by several goroutines at once are all delivered, each with an index of its own. Steps added after the end are not delivered; nor is, after the end, any step of a service whose profile is dropped.",
     ["histories", "schedules", "configurations"], "all nested histories of steps of every kind up to the bound, all small buffer and bulk sizes, two goroutines adding steps with a context switch at any statement",
     "Losing or repeating steps needs buffer sizes and histories that fill them, or an unlucky schedule.",
     ["netio/profilecollector.go", "netio/dataproxy.go", "strace/tracemain.go"],
     [("collecting", "netio/profilecollector.go Push, Pop, Add, Close"), ("bulks", "netio/dataproxy.go SendProfile"), ("steps", "strace/tracemain.go StartMethod, EndMethod, StartApiCall, EndApiCall, Add*Step")], BASE)

prop("C16", "The agent never harms the host",
     "Whatever the host passes to the tracing functions - no context, request, URL, headers, error or step, ended services, steps of other services, contexts, errors and values whose own methods panic - and whatever the agent meets - any numbers as values of its configuration keys (memory sizes up to 100000), files and folders that cannot be created, read or written, sockets that cannot be opened or written to, a failing log - no panic of the agent reaches the host, no call of it blocks, and the process is not ended. A start call always returns a usable context that holds the values of the given one. The function given to GoWithTrace or GoWithTraceOnGoing runs exactly once, also when the agent fails. A panic inside the agent is reported by a fatal alert titled Panic; also when reporting fails it does not reach the host. Background tasks and counters go on after a panic in a task. A panic of a host's own function reaches the host unchanged, and its service is ended. Afterwards services are traced as ever.",
     ["inputs", "faults", "configurations"], "every exported tracing function with each kind of bad argument; symbolic numbers for the numeric keys; faults of each file operation and socket",
     "A crash of the host needs one bad argument, number or failing system call out of many at one place.",
     ["strace/tracemain.go", "common/util/panicutil.go", "common/logger/logger.go", "netio/udpsender/udpsender.go", "task/countertask/countertask.go", "conf/configure.go"],
     [("tracing functions", "strace/tracemain.go"), ("reporting of panics", "common/scouterutil.go ReportScouterPanic"), ("log", "common/logger"), ("sockets", "netio/udpsender, netio/tcpclient")], BASE)

prop("C17", "Counters describe exactly the window they stand for",
     "At any time the service counters of a period of p seconds (at most 300) describe exactly the services ended in the current second and the p-1 seconds before it: the rate is their number divided by p, the elapsed time their average (whole milliseconds, negative ones as 0), the error rate the percentage that failed; without services all are 0. Value counters give the sum and average of the values of the window in the same way. Ending services and reading counters at the same time from several goroutines counts each service once and races on nothing. The agent sends a real-time counter pack every 2 seconds (window 30 s) and a five-minute one every 10 seconds (window 300 s), each with the object's name and these numbers under the right counter names; both have the number of active services averaged over the samples of their window (one each 2 seconds), the real-time pack also the current numbers of active services by speed and the runtime counters. SendServiceCounter sends the same numbers.",
     ["histories", "inputs", "schedules"], "all histories of up to 3 ends at gaps around every boundary of the 301-second ring, all elapsed times and errors; ends and readings by two goroutines around a change of the second with a context switch at any statement",
     "A stale or twice counted bucket shows only with gaps of a certain length at a certain place of the ring.",
     ["counter/metering.go", "counter/serviceMetering.go", "counter/valueMetering.go", "counter/collector.go", "task/countertask/countertask.go"],
     [("ring of seconds", "counter/metering.go getPosition, SearchOnHandler"), ("service counters", "counter/serviceMetering.go"), ("value counters", "counter/valueMetering.go"), ("packs", "task/countertask/countertask.go, counter/collector.go")], BASE)

prop("C18", "Active services are classified, listed, and reported when stuck",
     "Whenever active services are counted, each is counted once: as normal when active for at most trace_activeservice_yellow_time ms, as slow up to trace_activeservice_red_time, else as very slow (at most 2000 services are looked at). Each service active for more than stuck_service_base_time_ms, and no other, is then reported by one STUCK_SERVICE alert of the agent's object naming service, elapsed ms and the goroutine that runs it (level error with stuck_service_alert_enabled, else warning); with stuck_service_remove_enabled it is also ended, as failed unless it already had an error, with an error message step at its end, and not reported again; otherwise it stays active and is reported at every count. The collector's list of active services has exactly one row for each active service with its id in base 32, name, the goroutine that runs it, elapsed ms and address; the detail of an id describes that service, and says it ended when it is not active. Looking at services while they start, run and end races on nothing and never shows a half started one.",
     ["inputs", "histories", "schedules"], "all 32-bit thresholds, ages around them; all histories of up to 3 starts and ends; a service starting, running and ending under a look at it with a context switch at any statement",
     "Classification needs services of minutes of age; a half started service is only seen at an unlucky moment.",
     ["strace/tctxmanager/tctxmanager.go", "strace/tracemain.go", "netio/tcpclient/handlers.go"],
     [("counting and stuck services", "strace/tctxmanager/tctxmanager.go GetActiveCount"), ("removal", "strace/tracemain.go endStuckServiceForcibly"), ("list and detail", "netio/tcpclient/handlers.go GetActiveList, GetGoroutineDetail")], BASE)

prop("C19", "The collector's file commands stay within the dump folders",
     "Whatever name they carry - with dots, slashes, absolute or relative paths - OBJECT_DUMP_FILE_DETAIL hands out only contents of files of the dump folder, OBJECT_DOWNLOAD_HEAP_DUMP only those of files of the binary dump folder whose name ends in pprof, and OBJECT_DELETE_HEAP_DUMP removes only such a file and tells truthfully whether it did. No file outside of the two folders is handed out, changed or removed. Names of files directly in the folder are served.",
     ["inputs"], "all names of up to 9 (thorough 12) of the characters dot, slash and a letter before each suffix, against files placed where such names could lead, and a list of longer names",
     "A way out of the folder is one spelling among very many.",
     ["dump/dump.go", "netio/tcpclient/handlers.go"],
     [("commands", "netio/tcpclient/handlers.go deleteBinaryDump, downloadBinaryDump"), ("files", "dump/dump.go DownloadBinaryDumpFiles, DeleteBinaryDumpFiles, StreamDumpFileContents")], BASE)

prop("C20", "The TCP session answers every request once, in order",
     "The agent opens one TCP session at a time with the configured collector and begins it with the marker 0xCAFE1002 and the hash (CRC-32) of its object name. Every well-formed request - known command or not, with parameters that are expected, missing, of another type or another kind of pack, sent alone or together with others, arriving whole or in parts - is answered exactly once and in order: parts each behind the flag 0x03, then the flag 0x04. A command whose execution panics is answered too, the panic is reported and the session goes on. A request that cannot be decoded (wrong lengths, truncated, unknown kind of pack) is not answered and ends the session. A session that ends (undecodable request, closed or broken connection, net_collector_tcp_so_timeout_ms without a request - and not before) is closed and followed by a new one. When the collector's address or port or the object's name changes, also while the connection is being made, the session answers at most one more request and then is closed and replaced by one with the configured collector for the current object.",
     ["inputs", "fault_sequences", "histories"], "every command with every kind of parameters; arbitrary request bytes up to the bound; every cut of the stream; each write failing; each kind of change at each moment",
     "The tests never run a session: a reply that is not framed, or a session that outlives its collector, needs particular bytes or moments.",
     ["netio/tcpclient/tcpclient.go", "netio/tcpclient/tcpmanager.go", "netio/tcpclient/handlers.go"],
     [("session", "netio/tcpclient/tcpclient.go Prepare, Process"), ("restart", "netio/tcpclient/tcpmanager.go startTcp"), ("commands", "netio/tcpclient/handlers.go handle")], BASE)

prop("C21", "The configuration in use is the configured one",
     "For each of the 63 keys the value in use is the one given in the configuration file, else the one given in the environment (its complete value, whatever characters it has), else the default; a key given empty in the file has its default, a number that is not a valid decimal integer counts as not given, and a flag is true exactly for 1, true, yes or on in any case. No entry of the environment makes the agent panic. The file is the one named by SCOUTER_CONFIG, else by scouter.config, else conf/scouter.conf in SCOUTER_AGENT_HOME, else in ./scouter. Within 5 seconds of a change of the file - written (also with an older time than before), removed, put back - its values are in use; while it cannot be read or decoded the former values stay in use, and it is applied as soon as it can be. Observers are told after every application and not when nothing changed; the observer of the object is told exactly when its name changed. The object's name is /host/obj_name, its hash the CRC-32 of that. The collector's commands list each key once with the value in use, default and type, hand out the file's text, and save a new text and apply it at once, telling whether it was saved; a request to save that carries no text changes nothing and says that nothing was saved.",
     ["inputs", "histories", "faults"], "every key in both sources, all texts up to the bound as numbers, flags and environment values, all histories of up to 3 (thorough 4) changes of the file with any modification times and faults",
     "Precedence and falling back to a default show per key and combination; restored files and unreadable ones only in histories.",
     ["conf/configure.go", "conf/opserver.go", "conf/exthandler.go", "netio/tcpclient/handlers.go"],
     [("values", "conf/configure.go addToConf, boolOf, intOf, stringOf"), ("following the file", "conf/configure.go Refresh"), ("observers", "conf/opserver.go"), ("commands", "conf/exthandler.go, netio/tcpclient/handlers.go")], BASE)

prop("C22", "Dumps are complete and delivered unchanged",
     "TRIGGER_THREAD_DUMP answers with the path of a file in the dump folder that holds the complete goroutine dump (every goroutine with its stack), and with no name when it could not be written. The block, mutex and cpu profile commands are answered at once; the profile is taken for 30 seconds, ends up completely in one file: as text in the dump folder (.log) or in the pprof format in the binary dump folder (.pprof), and afterwards, also when the file cannot be written, blocking and the cpu are no longer profiled and the mutex profile fraction is what it was before; profiles asked for at different times do not shorten each other when they overlap, and the former settings are back after the last of them. OBJECT_DUMP_FILE_LIST and OBJECT_LIST_HEAP_DUMP list exactly the files of their folder (the latter those ending in pprof) once each with size and, for the former, time in ms; an unreadable folder gives empty lists. The parts of a delivered dump, each at most 4 KB, put together are the file byte for byte. OBJECT_DELETE_HEAP_DUMP removes exactly the named file. No file stays open.",
     ["inputs", "faults"], "dumps of 20 sizes around the multiples of all buffers with arbitrary bytes at the boundaries; all combinations of files; each command with and without unwritable folders",
     "A cut off or repeated part needs a certain size, a profiling rate left on needs a failure.",
     ["dump/dump.go", "netio/tcpclient/handlers.go"],
     [("dumps and profiles", "dump/dump.go heavyAllStackTrace, profileCpu, profileBlock, profileMutex"), ("lists", "dump/dump.go ListDumpFiles, ListBinaryDumpFiles"), ("delivery", "dump/dump.go StreamDumpFileContents, DownloadBinaryDumpFiles, DeleteBinaryDumpFiles")], BASE)

prop("C23", "Text forms and hashes stand for their values",
     "The address given for a text is the IPv4 address it spells (four decimal parts of 0 to 255 separated by three dots), and 0.0.0.0 for every other text. The text of a 64-bit id is x (z for a negative one) followed by the base-32 digits (0-9, a-v) of its absolute value without leading zeros. The hash of a text or of bytes is the CRC-32 (IEEE) as a signed 32-bit number. Times are given in whole milliseconds since 1970, the time between two as the whole milliseconds. All this holds also when several goroutines ask at once.",
     ["inputs"], "all 64-bit ids; all texts up to the bound with dots in any place; all texts of up to 2 bytes and longer ones with any byte at any place",
     "The tests look at one id and a few addresses; extreme ids and refused spellings are not among them.",
     ["common/util/iputil.go", "common/util/hexautil.go", "common/util/hashutil.go", "common/util/timeutil.go"],
     [("addresses", "common/util IpToBytes"), ("ids", "common/util IntToXlogString32"), ("hashes", "common/util HashString, Hash"), ("times", "common/util MillisBetween, TimeToMillis")], BASE)

prop("C24", "The agent keeps its object registered",
     "Importing the agent and calling Init any number of times starts it once. At the start and then every 2 seconds exactly one object pack is sent to the configured collector: with the name /host/obj_name, its CRC-32 as hash, the configured type, version 0.0.0, and alive. The text of the name (kind object) reaches the collector before or with the first pack and again within 300 ms after the name changed; a changed name or type is that of the next pack. A collector whose address changed, or that could not be reached for a time, gets the packs again within about 2 seconds after it is configured and reachable. trace_obj_send makes no difference to any of this and no panic.",
     ["histories", "configurations", "faults"], "all texts of up to 2 bytes as names and types, changes at any time of the 2-second cycle, failing dials",
     "An object that disappears shows only after a change of its name or of the collector.",
     ["agent.go", "task/agenttask/agenttask.go", "netio/udpsender/udpsender.go", "netio/dataproxy.go", "conf/configure.go"],
     [("registration", "task/agenttask/agenttask.go"), ("name text", "netio/dataproxy.go SendObjName, conf observers"), ("collector", "netio/udpsender/udpsender.go")], BASE)

prop("C25", "Reconnecting to the collector backs off",
     "After a TCP session has ended or an attempt to connect has failed, the agent pauses before the next attempt: 3 s after the first failure or the end of a session, twice as long after every further failure in a row, at most 60 s, and never more than 2 s longer than that. A connection that is made resets the pause. Every attempt goes to the collector configured at that time and is limited by net_collector_tcp_connection_timeout_ms.",
     ["histories", "timing"], "rows of failures before and after a session, with an attempt and the session lasting any time",
     "The pause shows only over minutes of a collector's absence.",
     ["netio/tcpclient/tcpmanager.go", "netio/tcpclient/tcpclient.go"],
     [("pause", "netio/tcpclient/tcpmanager.go startTcp"), ("attempt", "netio/tcpclient/tcpclient.go Prepare")], BASE)

prop("C26", "Runtime counters describe the Go runtime",
     "Each real-time counter pack tells the number of goroutines, of cgo calls so far and of bytes allocated on the heap at its time (as decimal numbers), and the garbage collections per second and the milliseconds of their pauses per second between the pack before and it (fractions kept, 0 in the first pack), whatever the numbers so far, also when the runtime's 32-bit count of collections passes 2^31 or wraps around.",
     ["inputs", "histories"], "all numbers of up to 16 bits and above 2^32, any number of collections and pauses up to the bound in any of three successive packs or intervals",
     "Large totals, wrapped counts and idle intervals do not occur in a test run.",
     ["counter/gocounter/gocounter.go", "task/countertask/countertask.go"],
     [("reading the runtime", "counter/gocounter/gocounter.go GetGoCounter"), ("packs", "task/countertask/countertask.go getAllCounterOnPack")], BASE)

prop("C27", "Services that run at the same time do not disturb each other",
     "When services run in several goroutines at the same time, each one's record holds its own name, error, address, user agent, http status and calls, and all its own steps with its own consecutive indexes and nothing of another; their ids differ; a goroutine started with tracing is linked with the service that started it; each is counted once and none stays active after its end. This holds however the goroutines' steps interleave, also while the collector resets the sent texts or the agent counts the active services, and the agent's code has no data races in doing so.",
     ["inputs", "schedules"], "pairs of concurrent services of the stated kinds, all schedules with the stated number of switches at statement level",
     "Tests run one service at a time; a buffer or a last value shared by services shows only when two of them meet at one statement.",
     ["strace/tracemain.go", "strace/tctxmanager/tctxmanager.go", "netio/dataproxy.go", "netio/profilecollector.go", "netio/tracecontext.go", "common/netdata/step.go", "common/structure/lra/lra.go", "common/util/keygen/keygen.go"],
     [("services", "strace/tracemain.go"), ("texts and bulks", "netio/dataproxy.go"), ("profile", "netio/profilecollector.go"), ("ids", "common/util/keygen/keygen.go")], BASE)
prop("C28", "Nothing the agent did for one occasion remains",
     "After a service of any kind, a profile, a dump or another command of the collector, a session with the collector, a change of the collector's address or a reading of the configuration is over, also when the host panicked or a file, socket or dial failed in it, the agent has as many goroutines, open files and open sockets as before it: the connection of an ended session is closed, there is one UDP socket, and an ended service is not active any more.",
     ["inputs", "histories", "faults"], "one to six occasions of each kind with the stated faults, waiting up to 40 s afterwards",
     "A goroutine, file or socket left behind shows only when the host has run for days.",
     ["strace/tracemain.go", "strace/tctxmanager/tctxmanager.go", "dump/dump.go", "netio/tcpclient/tcpclient.go", "netio/tcpclient/tcpmanager.go", "netio/udpsender/udpsender.go", "conf/configure.go"],
     [("services", "strace/tracemain.go endAnyService"), ("files", "dump/dump.go"), ("sessions", "netio/tcpclient/tcpclient.go Process"), ("sockets", "netio/udpsender/udpsender.go reloadUdpSender")], BASE)

prop("C29", "A changed setting takes effect while the host runs",
     "When the configuration file changes, or the collector saves another configuration, then within 6 s, and without a restart of the host, the new settings govern what begins afterwards: which headers, query and client address web services record; how many profile steps are kept in memory and sent together; which services and profiles are sent, by patterns and sampling; when active services count as slow or stuck and what happens to stuck ones; under which object name and type transactions, profiles, counters and registrations are sent; and which address, ports, time-out and datagram size are used for the collector (a TCP session goes over after its next request). A setting that is no longer in the file is its default again. The size of the send queue alone is fixed at the start.",
     ["inputs", "histories"], "two (thorough: three) configurations one after the other, each setting from its list, arbitrary values, ages, elapsed times and draws",
     "Tests set a value before the code under test runs first; a value that is remembered from the first use is right then and wrong for ever after.",
     ["conf/configure.go", "strace/tracemain.go", "strace/xlogsampler.go", "strace/tctxmanager/tctxmanager.go", "netio/dataproxy.go", "netio/profilecollector.go", "netio/udpsender/udpsender.go", "netio/tcpclient/tcpclient.go", "task/agenttask/agenttask.go"],
     [("reading", "conf/configure.go run, Refresh"), ("sampling", "strace/xlogsampler.go"), ("collector", "netio/udpsender/udpsender.go reloadUdpSender, netio/tcpclient/tcpclient.go Process"), ("profile", "netio/profilecollector.go newStepBuffer, netio/dataproxy.go SendProfile")], BASE)


prop("C30", "The agent's log keeps every message",
     "Each message logged on one of the levels trace, info, warning and error is written, unchanged and with its level in front, as one line at the end of logs/scouter.log in the agent's folder (SCOUTER_AGENT_HOME, else scouter in the current folder, else in the folder for temporary files), and to the standard output (level error: the standard error). The folder and the file are made when missing; what the log held before, also from an earlier start, stays. When the file cannot be opened the messages go to the standard output and error all the same.",
     ["inputs", "faults"], "all sequences of up to 3 messages with arbitrary bytes on all levels, the stated folders, former logs and faults",
     "No test reads the log: a level that goes nowhere, or a log emptied at each start, is noticed when it is needed.",
     ["common/logger/logger.go", "common/util/osutil.go"],
     [("log", "common/logger/logger.go Init"), ("folder", "common/util/osutil.go GetScouterPath, MakeDir")], BASE)
