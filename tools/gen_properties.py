import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

# ---------------- concurrency
p("C01","Multi-producer/multi-consumer queue loses, duplicates and reorders nothing",
 "Every item accepted by the bounded many-producer many-consumer queue is delivered unaltered and fully visible to exactly one consumer, in first-in first-out order, and the queue never holds more items than its capacity. A non-waiting operation reports full or empty only when the queue is full or empty or another operation is in progress; a waiting operation completes as soon as space or an item can be had. This holds at every queue size, including across many wrap-arounds.",
 ["schedules","histories","inputs"],
 "Every interleaving of any number of producer and consumer threads at every shared access, every reordering the C11 memory model permits, every queue size and element size, every mix of waiting and non-waiting calls.",
 "t_mpmcq runs a few real threads for a while and checks throughput-style totals: it samples whatever interleavings the machine happens to produce, on a strongly ordered CPU only, and never a stalled thread between claiming and filling a slot.",
 ["inc/fast/mpmc_bounded_queue.h","test/t_mpmcq.c"],
 [("per-slot turn counter published with release, read with acquire","inc/fast/mpmc_bounded_queue.h"),("compare-and-swap / fetch-add claim of head and tail tickets","inc/fast/mpmc_bounded_queue.h")],
 ["return values of enqueue/dequeue","delivered items per consumer","length/full/empty queries at quiescence"],
 [("head, tail","tickets handed to producers and consumers","struct __mpmc_q"),("turn","generation of one slot","slot type")])
p("C02","Single-producer/single-consumer queue is an exact bounded FIFO",
 "With one producer thread and one consumer thread, every item accepted by the bounded queue is received exactly once, unaltered, fully visible and in the order it was sent. An insert is refused only when the queue holds one item less than its declared size, a removal is refused only when it is empty, and neither blocks. The size, full and empty queries agree with this whenever the other side is idle.",
 ["schedules","histories","inputs"],
 "Every interleaving of the two sides at every shared access, every C11-permitted reordering, every size and every burst pattern across wrap-around.",
 "t_spscq measures a producer and a consumer on real cores: no control of interleaving, an x86 memory model only, one size.",
 ["inc/fast/spsc_bounded_queue.h","test/t_spscq.c"],
 [("index published with release after the element is written, read with acquire","inc/fast/spsc_bounded_queue.h"),("one slot kept unused to tell full from empty","inc/fast/spsc_bounded_queue.h")],
 ["return values and received items","size/full/empty queries"])
p("C03","Ring buffer transfers batches atomically and in order",
 "The ring delivers every stored pointer exactly once, unaltered and in first-in first-out order for any mix of single/multiple producers and consumers, holding at most one pointer less than its size. A fixed-size batch operation transfers all of its items contiguously or none (reporting lack of room or items), and a best-effort batch transfers and reports exactly the leading part that fits. Concurrent operations never overwrite an unread slot or read an unwritten one.",
 ["schedules","histories","inputs"],
 "Every interleaving of producers and consumers in all four single/multi modes, every batch size against every fill level, every C11-permitted reordering, stalled threads between reserving and publishing.",
 "t_ringbuf checks single-threaded contents and a few threads' throughput: the window between reserving a range and publishing it, and weakly ordered machines, are never reached on purpose.",
 ["inc/fast/ringbuf.h","test/t_ringbuf.c"],
 [("reserve by compare-and-swap on head, publish in order through tail","inc/fast/ringbuf.h"),("mask arithmetic on free-running indices","inc/fast/ringbuf.h")],
 ["return codes of enqueue/dequeue (single, bulk, burst)","pointers received"])
p("C04","Blocking queue hands over every item once and never over- or underruns",
 "Items put into the bounded blocking queue come out exactly once, unaltered and in the order they went in, for any number of producer and consumer threads. A producer waits exactly while the queue is full and a consumer exactly while it is empty; no wait is lost, and an interrupted wait never lets a thread overwrite an item or take one that is not there. An initialisation that fails leaves no synchronisation object behind.",
 ["schedules","fault_sequences","histories"],
 "Every interleaving of producers and consumers, every queue capacity, interruption of any wait by a signal, stalled threads.",
 "t_prodcons runs a few threads to completion; it never interrupts a wait and cannot choose the schedule.",
 ["inc/fast/syncq.h","test/t_prodcons.c"],
 [("two counting semaphores bound the item count","inc/fast/syncq.h"),("mutex around the index update","inc/fast/syncq.h")],
 ["items received","blocked threads at quiescence"])
p("C05","Thread pool runs every submitted job exactly once before wait returns",
 "Every job submitted to the pool before waiting runs exactly once, on a valid worker number and with the context given at creation; no two jobs run on the same worker at once. Waiting returns only after every job has finished and every worker has exited, and returns the number of jobs that reported failure. A pool whose creation fails leaves no worker running and gives back what it had taken, and a finished pool holds no memory, threads or synchronisation objects after cleanup.",
 ["schedules","fault_sequences","histories"],
 "Every interleaving of submitters and workers, any number of workers and jobs (more than the queue holds as well), interrupted waits, thread/semaphore/mutex/memory creation failing at any point, stalled workers.",
 "t_prodcons and mt-dd-wipe-style use exercise one pool shape; thread-creation failure, interrupted waits and unlucky schedules never happen in them.",
 ["src/posix/job.c","inc/posix/job.h","inc/fast/syncq.h"],
 [("blocking job queue with stop markers","src/posix/job.c"),("per-worker completion signal and join","src/posix/job.c")],
 ["job callback invocations","return value of wait","threads/heap/sync objects left"])
p("C06","Work distributor honours worker pinning, per-worker order and completion",
 "Every work item submitted to the distributor runs exactly once; an item pinned to a worker runs on that worker, items pinned to one worker by one submitter run in submission order, and unpinned items go to the workers in turn. Waiting returns only after all items have finished and all workers have exited, with the number of items that reported failure. A distributor whose creation fails leaves no worker running and gives back what it had taken, and a finished one holds no resources after cleanup.",
 ["schedules","fault_sequences","histories"],
 "Every interleaving of several submitters and workers, any pinning pattern, interrupted waits, resource creation failing at any point.",
 "No test of this module exists beyond programs that use it once with a fixed shape.",
 ["src/posix/work.c","inc/posix/work.h","inc/fast/syncq.h"],
 [("one blocking queue per worker","src/posix/work.c"),("round-robin cursor under a lock","src/posix/work.c")],
 ["work callback invocations","return value of wait","threads/heap/sync objects left"])
p("C07","Hash table with a lock policy is linearizable and never self-deadlocks",
 "With a mutual-exclusion policy installed, any number of threads may insert, replace, probe, look up, remove, count and sweep the table concurrently: each operation takes effect atomically, as if the operations ran one at a time, also while the table grows. No operation leaves a lock held or deadlocks, on success or on failure, and statistics agree with the contents once threads are idle.",
 ["schedules","fault_sequences","histories"],
 "Every interleaving of concurrent table operations including growth, every outcome of each operation (found, missing, duplicate, out of memory).",
 "t_hashtab uses the table from one thread with the lock policy absent, so no lock is ever taken.",
 ["src/hashtable/hashtab.c","src/hashtable/hashtab_iter.c","src/posix/cmutex.c","inc/utils/lockmgr.h"],
 [("table lock and per-bucket locks through a lock policy","src/hashtable/hashtab.c")],
 ["return values of the operations","final contents and statistics","lock state at quiescence"])
p("C08","Separate objects used by different threads never interfere",
 "What is used only through caller-supplied objects and buffers may be used from any number of threads at once as long as each uses its own: growable strings, splitting, packing, identifier, number, size and address text, base64, hex dumps, line reading, hashes, pools, arenas, both hash tables, filters, generators and compression contexts. Every call gives the result it gives when nothing else runs, from the first use on, and the library shares no memory between them without synchronisation. UUIDs and ULIDs generated by any threads of any processes, also after a fork, share no random bits; a ULID carries the time of its generation; when the system has no randomness, generation fails instead of repeating.",
 ["schedules","fault_sequences","histories"],
 "Every interleaving of any number of threads over every combination of objects and inputs, also when they are the first users, and every point at which a process forks or randomness fails.",
 "The unit tests use one object at a time in one thread of one process.",
 ["src/uuid.c","src/ulid.c","src/gstring.c","src/gstring_var.c","src/strsplit.c","src/splitargs.c","src/pack.c","src/humanize.c","src/strtosize.c","src/parse-ip.c","src/c_resolve.c","src/hexdump.c","src/freadline.c","src/b64_encode.c","src/b64_decode.c","src/mempool.c","src/arena.c","src/hashtable/hashtab.c","src/hashtable/fast-ht.c","src/hashtable/bloom.c","src/hashtable/xorfilter.c","src/hashfunc/siphash24.c","src/hashfunc/xxhash.c","src/zbuf_c.c","src/zbuf_unc.c"],
 [("all state lives in the caller's object or on the stack; randomness comes from the system at every call","src/uuid.c")],
 ["results of all calls compared with the same calls alone","accesses to shared memory","identifiers of all threads and processes"])
# ---------------- memory and collections
p("M01","Pool allocator hands out disjoint live blocks and survives exhaustion",
 "Blocks obtained from a fixed-size pool are at least the requested size, suitably aligned, disjoint from every other live block, and keep their contents until given back; given-back blocks are reused. A pool with a limit hands out at most (and, memory permitting, all of) that many blocks at a time, and reports exhaustion by returning nothing. When memory cannot be obtained the call fails cleanly, the pool stays usable, and destroying the pool returns everything it ever took.",
 ["histories","fault_sequences","configurations"],
 "Every sequence of get/put operations over every block size, limit and chunk setting (also over caller-supplied memory), with the underlying allocator failing at any call.",
 "t_mempool uses a handful of fixed configurations and an allocator that never fails.",
 ["src/mempool.c","inc/utils/mempool.h"],
 [("free list plus bump allocation out of chunks","src/mempool.c"),("pluggable memory manager","src/memmgr.c")],
 ["returned pointers","contents of live blocks","calls on the memory manager"])
p("M02","Arena allocations are disjoint, stable and released together",
 "Every allocation from an arena is writable for its whole size, aligned, disjoint from every other allocation of that arena, and keeps its address and contents until the arena is deleted. When memory cannot be obtained the allocation fails by returning nothing, earlier allocations stay valid and later ones may succeed. Deleting the arena returns all memory it took, exactly once.",
 ["histories","fault_sequences","inputs"],
 "Every sequence of allocation sizes (tiny to larger than a chunk), any chunk size, allocation failure at any call.",
 "t_arena allocates a few sizes with memory that never fails.",
 ["src/arena.c","inc/utils/arena.h"],
 [("chunk list with bump pointer","src/arena.c")],
 ["returned pointers","contents","live heap blocks after delete"])
p("M03","Hash table behaves as a map under any salt, growth and failed allocation",
 "The table behaves as a map from keys to items: insertion refuses existing keys, replace overwrites or inserts, probe returns what is there, lookup and remove act on exactly the matching item, conditional removal and application visit each item once, and all iterators visit exactly the contents (in key order for sorted ones, and the key's own chain for chain iterators). The destructor runs exactly once for every item the table lets go of. When memory runs out the operation reports it and the contents stay as if it had not been asked for.",
 ["histories","fault_sequences","configurations"],
 "Every sequence of operations, every hash salt and hash distribution (including all keys colliding), every fill limit and initial size, allocation failure at any call including during growth.",
 "t_hashtab inserts a word list with whatever salt the run draws and memory that never fails.",
 ["src/hashtable/hashtab.c","src/hashtable/hashtab_iter.c","inc/utils/hashtab.h"],
 [("chained buckets doubled when the fill limit is passed","src/hashtable/hashtab.c"),("iterator objects","src/hashtable/hashtab_iter.c")],
 ["return values","iteration results","destructor calls","statistics","memory manager calls"])
p("M04","Compact hash table behaves as a map for every salt and history",
 "The compact table maps non-zero integer keys to pointers: probe stores a pair unless the key is present and then returns the present value, find, replace and remove act on exactly the given key and report whether it was there, and the item count is exact. This holds for every random salt, through every growth and after any number of removals, the memory held follows the number of items held at once rather than the number of operations, and deleting the table frees all of it.",
 ["histories","configurations","inputs"],
 "Every operation sequence and key set, every salt the system's randomness may produce at creation and at each growth, every initial size.",
 "t_fast-ht checks a word list under the one salt drawn by that run.",
 ["src/hashtable/fast-ht.c","inc/utils/fast-ht.h"],
 [("salted hash with fingerprint bags, rehash on growth","src/hashtable/fast-ht.c")],
 ["return values","item count","live heap blocks after delete"])
p("M05","Bloom filters never forget a member, for any salt and history",
 "A key added to a standard or scalable filter is always reported present, and a key added to a counting filter is reported present until it has been removed as often as it was added, whatever salts are drawn, however many keys are added and through every growth step; with everything removed again (and never 255 or more items in it) a counting filter reports no key. Removing from a counting filter a key that is reported absent changes nothing and says so, and the recorded number of items follows the accepted operations. The observed false-positive rate of filters designed for hundreds of keys or more stays in the order of the requested one up to the design capacity (for a scalable filter: at any size). Lack of memory makes creation fail cleanly and puts growth off.",
 ["histories","configurations","inputs"],
 "Every add/remove/find sequence, every capacity and error rate, every salt, all three filter kinds.",
 "t_bloom uses one word list, one salt per run and never removes under overlap.",
 ["src/hashtable/bloom.c","src/hashtable/bloom_internal.h","inc/utils/bloom.h"],
 [("k salted hashes into a bit or counter array; chained filters when full","src/hashtable/bloom.c")],
 ["find/probe/add/remove results","size"])
p("M06","Static xor filters contain every key they were built from",
 "A filter successfully built from a set of keys reports every one of them present, whatever random seed each construction attempt draws, and (for sets of thousands of keys, built with random seeds) reports about 1/256 (8-bit) or 1/65536 (16-bit) of other keys present. Building touches no memory outside the filter at any set size, including very small ones, gives up cleanly when it cannot succeed, and deletion frees everything.",
 ["inputs","configurations","fault_sequences"],
 "Every key set size from one up, every seed sequence, memory exhaustion during construction.",
 "t_xorfilter builds a few large filters with one seed per run.",
 ["src/hashtable/xorfilter.c","src/hashtable/xorfilt_internal.h","inc/utils/xorfilter.h"],
 [("three-wise peeling with retry on a new seed","src/hashtable/xorfilter.c")],
 ["find results","heap blocks"])
# ---------------- durability / files
p("D01","Saving a Bloom filter is atomic and durable under crashes and I/O errors",
 "Saving a filter to a path either fails with an error and leaves what was readable at that path untouched (or, if only making the new name durable failed at the very end, the complete new filter), or succeeds, after which the path holds the complete new filter and keeps holding it (or a later one) through any crash. A crash at any moment leaves at the path either the complete previous file or the complete new one, never a mixture. Another process saving to the same path meanwhile, or what an earlier crash left in the directory, changes nothing about this. No failure leaks a descriptor, mapping, memory or a stray temporary file (unless the machine crashed).",
 ["crash_points","fault_sequences","inputs"],
 "A crash after any step with any subset of unsynchronised data lost or torn, every single and multiple failure of the file operations involved, every filter kind and size, saving over an older file.",
 "t_bloom saves to a healthy disk and reads back; no I/O ever fails and nothing crashes.",
 ["src/hashtable/bloom_marshal.c","inc/utils/bloom.h"],
 [("write to a temporary file, checksum, sync, rename","src/hashtable/bloom_marshal.c")],
 ["return code","contents of the directory before/after crash","descriptors, mappings, heap blocks"])
p("D02","Loading a Bloom filter returns the saved filter or an error",
 "Loading a saved filter yields a filter with the same kind, parameters, item count and the same answer for every key as the one saved, whether loaded into memory or used from the mapping. While another process replaces the file by a complete one, loading yields the old or the new one. A file that is truncated, extended, torn or altered anywhere, or that cannot be opened, examined or mapped, or a lack of memory, is reported as an error without crashing, reading outside the file, or leaking a descriptor, mapping or memory.",
 ["inputs","fault_sequences"],
 "Every saved filter, every corruption of its bytes or length, every failing system call or allocation during loading.",
 "t_bloom loads files it has just written, intact, once per kind.",
 ["src/hashtable/bloom_marshal.c"],
 [("size and checksum verification before decoding","src/hashtable/bloom_marshal.c")],
 ["return code","answers of the loaded filter","descriptors, mappings, heap blocks"])
p("D03","Saving a xor filter is atomic and durable under crashes and I/O errors",
 "Saving a xor filter to a path either fails with a (negative) error and leaves what was readable at that path untouched (or, if only making the new name durable failed at the very end, the complete new filter), or succeeds, after which the path holds the complete new filter and keeps holding it through any crash. A crash at any moment leaves at the path either the complete previous file or the complete new one. Another process saving to the same path meanwhile, or what an earlier crash left in the directory, changes nothing about this. No failure leaks a descriptor, mapping, memory or a stray temporary file (unless the machine crashed).",
 ["crash_points","fault_sequences","inputs"],
 "A crash after any step with any subset of unsynchronised data lost or torn, every failure of the file operations involved, both filter widths and every size.",
 "t_xorfilter-file saves to a healthy disk and reads back.",
 ["src/hashtable/xorfilter_marshal.c","inc/utils/xorfilter.h"],
 [("write to a temporary file, checksum, sync, rename","src/hashtable/xorfilter_marshal.c")],
 ["return code","contents of the directory before/after crash","descriptors, mappings, heap blocks"])
p("D04","Loading a xor filter returns the saved filter or an error",
 "Loading a saved xor filter yields one that reports present every key the saved one contained and gives the same answer for any other key, in both loading modes. While another process replaces the file by a complete one, loading yields the old or the new one. A file that is truncated, extended, torn or altered anywhere, or a failing system call or allocation, is reported as an error without crashing, reading outside the file, or leaking a descriptor, mapping or memory.",
 ["inputs","fault_sequences"],
 "Every saved filter, every corruption of its bytes or length, every failing system call or allocation during loading.",
 "t_xorfilter-file loads intact files it has just written.",
 ["src/hashtable/xorfilter_marshal.c"],
 [("size and checksum verification before decoding","src/hashtable/xorfilter_marshal.c")],
 ["return code","answers of the loaded filter","descriptors, mappings, heap blocks"])
p("D05","Log rotation keeps the newest generations and never mixes or loses others",
 "Rotating a file with N kept generations turns it into generation 0 and moves the kept generations (0 to N-1) up by one, only as far as the lowest unused number; it drops nothing but generations numbered N or more and, when no number is unused, the oldest kept one, and every generation's contents stay intact. Rotating a file that does not exist (or, by size, one that does not exceed the limit) changes nothing. If any step fails, or the machine stops between steps, every file that is still within the kept window survives under some generation name with its contents intact and in age order, and the failure is reported. Unrelated files are never touched.",
 ["crash_points","fault_sequences","histories"],
 "Every number of kept generations, every pre-existing set of generations (with gaps), failure of any file operation, a stop between any two operations followed by further rotations.",
 "t_rotatefile rotates once or twice in a clean directory and nothing fails.",
 ["src/rotatefile.c","inc/utils/rotatefile.h"],
 [("delete oldest, then rename from old to new","src/rotatefile.c")],
 ["directory contents","return code"])
p("D06","Recursive directory creation is idempotent and race-tolerant",
 "Creating a directory path creates every missing component with the requested permissions and succeeds whenever the full path is a directory afterwards, including when it already existed or when another process creates any component at the same moment. It fails with the reason, having created only ancestors of the path, if a component is not a directory or cannot be created, and it never creates anything outside the path, whatever slashes and dots the path contains.",
 ["schedules","fault_sequences","inputs"],
 "Every path shape (repeated and trailing slashes, dots, absolute and relative), every pre-existing tree, a concurrent creator acting between any two steps, failure of any file operation.",
 "t_mkdirhier runs alone on an idle file system.",
 ["src/mkdirhier.c","inc/utils/mkdirhier.h"],
 [("look at each prefix, create it if missing","src/mkdirhier.c")],
 ["return code","resulting tree"])
p("D07","Line reading returns every line intact for any chunking and I/O failure",
 "Reading a stream line by line returns every line in order without its terminator, accepting LF, CR and CR-LF endings. Only a line longer than the caller's buffer is cut, with an error, and its rest is what is read next; nothing is ever written past the buffer. End of file is reported once all lines, including an unterminated last one, have been returned (an empty line also has length 0, but the stream is then not at its end), and a read error is reported as an error, never as end of file.",
 ["inputs","fault_sequences"],
 "Every stream content, every buffer size, every split of the data into short reads, a read error at any point.",
 "There is no test of line reading; other tests only use it on well-formed regular files.",
 ["src/freadline.c","inc/utils/utils.h"],
 [("character loop with one-character push-back","src/freadline.c")],
 ["returned lengths and contents","bytes written to the buffer"])
p("D08","Mapped-file object gives file access, reports failure and leaks nothing",
 "Opening a mapped file yields a handle through which any requested window of the file can be mapped, read and, if opened for writing, written so that the change is in the file; whole-file, partial and growing mappings all see the right bytes, growing never loses what the file holds, a window mapped twice stays until it was unmapped twice, and locking covers the requested range. Every failure of an underlying operation is reported to the caller, and neither success nor failure leaks a descriptor or mapping or unmaps something still in use.",
 ["fault_sequences","histories","inputs"],
 "Every sequence of open, map, unmap and close over any offsets and sizes, failure of any system call.",
 "mmaptest maps an existing file once; nothing fails and leaks are not looked at.",
 ["src/posix/mmap.cpp","inc/utils/mmap.h"],
 [("constructor/destructor ownership of descriptor and mappings","src/posix/mmap.cpp")],
 ["exceptions","bytes read through the mapping and from the file","descriptors and mappings left"])
p("D09","Tree walk visits every stable entry once, under errors and concurrent change",
 "Walking a file tree reports every entry that exists unchanged throughout the walk exactly once (directories once before and once after their contents), with its correct path and metadata, in comparison order if one is given, and reports unreadable or vanished entries as such instead of dropping or repeating others. A walk that changes directories and does not follow links (the default) never leaves the given trees when directories are moved or replaced underneath it; a walk that cannot go on says so by ending with errno set instead of pretending to be complete. Every walk terminates, and afterwards the process is in its original working directory with no descriptor or memory leaked and no memory misused, whatever operation fails.",
 ["schedules","fault_sequences","inputs"],
 "Every tree shape and walk option, concurrent renames, removals and replacements between any two steps, failure of any file operation or allocation.",
 "t_fts walks a quiet tree and prints it.",
 ["src/fts.c","inc/fts.h"],
 [("device/inode check on every directory change","src/fts.c"),("saved descriptor of the starting directory","src/fts.c")],
 ["sequence of reported entries","working directory, descriptors and heap at the end"])
p("D10","Streaming compression round-trips through any chunking and slow sinks",
 "Data fed to the streaming compressor in any pieces and drained by an output callback that takes any part of what it is offered yields a stream that decompresses to exactly the original data; feeding any valid stream to the streaming decompressor in any pieces likewise delivers exactly the original data to its callback. A callback that accepts nothing (after which compression can go on once it accepts data again), corrupt or truncated input, or lack of memory is reported as an error, and finishing releases everything, even when it fails.",
 ["inputs","fault_sequences"],
 "Every payload, every input and output buffer size, every split of input, every pattern of partial consumption by the sink, memory exhaustion.",
 "Nothing in the test suite compiles or runs the streaming wrappers.",
 ["src/zbuf_c.c","src/zbuf_unc.c","inc/zlib/zbuf.h"],
 [("output buffer drained through a callback with carry-over of unconsumed bytes","src/zbuf_c.c"),("inflate loop with the same buffer scheme","src/zbuf_unc.c")],
 ["bytes delivered to the callback","return codes"])
# ---------------- identity / time / entropy
p("I01","ULIDs sort by creation time, round-trip as text and need real randomness",
 "An identifier generated later, by the system clock's millisecond, compares greater than one generated earlier, both as bytes and as text, and two identifiers differ whatever clock they are generated under. The text form is 26 characters of the documented alphabet and converts back to the same identifier; text that is not a valid identifier is rejected. If the system cannot supply randomness or the time, generation reports an error instead of returning a guessable identifier.",
 ["inputs","fault_sequences","configurations"],
 "Every clock value over the representable range including jumps and standstill, every random value, failing or partial randomness, every text.",
 "t_ulid generates a few values at the current time and looks at one round trip.",
 ["src/ulid.c","inc/utils/ulid.h"],
 [("48-bit millisecond timestamp followed by 80 random bits","src/ulid.c")],
 ["identifier bytes and text","return codes"])
p("I02","Random UUIDs are valid version-4 ids and never silently non-random",
 "Every generated identifier carries the version-4 and variant marks, and all its other 122 bits come from the system's randomness, so that different random input gives different identifiers. If the system cannot supply randomness, generation reports an error and never returns an identifier as if it were random. The text form is the canonical one of exactly those bytes and converts back to them; a text that has not exactly 32 hexadecimal digits or has other characters is refused, and no conversion reads or writes outside its buffers.",
 ["inputs","fault_sequences"],
 "Every random value, failing or partial randomness.",
 "t_uuid prints a few values drawn on a healthy system.",
 ["src/uuid.c","src/uuid2str.c","inc/utils/uuid.h"],
 [("128 random bits with six fixed","src/uuid.c")],
 ["identifier bytes and text","return codes"])
p("I03","Random generator never repeats its stream across threads, forks or reseeds",
 "No two threads and no two processes related by fork ever obtain the same random stream, at whatever point the fork happens, and no request returns bytes already returned before. Once 1.6 MB have been produced since fresh seed material was last obtained from the system, the next request is preceded by obtaining more, whatever the request sizes. Bounded draws are always below the bound and uniform over it, and lack of seed material never lets the generator run unseeded.",
 ["schedules","fault_sequences","histories"],
 "Every sequence of requests of every size, forks (also nested ones, with process ids reused) and thread switches between any two requests, seed failures.",
 "The tests draw numbers in one process and one thread and look at averages.",
 ["src/arc4random.c","src/chacha_private.h","inc/utils/arc4random.h"],
 [("per-thread cipher state, fork detection by process id, output budget before reseeding","src/arc4random.c")],
 ["bytes returned","requests for seed material"])
p("I04","System-randomness reader fills the whole request or reports failure",
 "A request for n random bytes returns exactly n bytes taken from the system's random source, in order and each used once, however short the individual reads are and however often they are interrupted. If the source cannot be opened or read, the caller is told; the reader neither returns a partly filled buffer as success nor loops forever.",
 ["fault_sequences","inputs"],
 "Every request size, every pattern of short and interrupted reads, errors and end of file at any point.",
 "No test uses the reader.",
 ["src/posix/sysrand.cpp","src/posix/posix_entropy.c","inc/utils/sysrand.h","inc/utils/random.h"],
 [("read loop retrying interrupted and short reads","src/posix/sysrand.cpp")],
 ["bytes returned","exceptions"])
# ---------------- process / terminal / system interface
p("S01","Password prompt returns what was typed and always restores the terminal",
 "Reading a password returns exactly the line entered, without its line ending; with confirmation it is returned only if both entries agree, with at most three tries. Echo is off while a terminal is read and the terminal's previous settings are restored on every way out, and every failure (no terminal settings, end of input, read error, no memory) is reported as an error and never as success. No descriptor or memory is leaked and nothing outside the buffers is touched, whatever is typed.",
 ["inputs","fault_sequences"],
 "Every input (empty, over-long, no newline, early end), terminal present or absent, failure of any terminal, read or memory operation.",
 "t_readpass is interactive and is not run.",
 ["src/readpass.c","inc/utils/readpass.h"],
 [("save, change and restore terminal attributes around the reads","src/readpass.c")],
 ["returned password and code","terminal attributes, open files, heap at the end"])
p("S02","Daemonizing detaches fully or reports failure",
 "After successful daemonizing the calling code continues only in a grandchild process that is in a session of its own without being its leader, with the requested working directory and with standard input, output and error on the null device, a file mode mask of 022 and no extra descriptor left open; the original process and the intermediate child have exited successfully. If a process cannot be created, the directory cannot be entered or the null device is not available, the failure is reported to the caller.",
 ["fault_sequences","schedules"],
 "Failure of either process creation and of each descriptor operation, any initial set of open descriptors.",
 "No test daemonizes.",
 ["src/daemon.c","inc/utils/daemon.h"],
 [("double fork around a new session, descriptor redirection","src/daemon.c")],
 ["process tree, descriptors, working directory","return code"])
p("S03","Progress display is exact at every terminal width and never fails its caller",
 "For every terminal width, total and sequence of increments the progress display computes without crashing, shows a percentage between 0 and 100 that matches the progress made and a bar whose filled and empty parts always add up to the same width, and writes nothing at all if the output is not a terminal. It redraws only when the shown text changes.",
 ["inputs","configurations","fault_sequences"],
 "Every width the terminal may report (including 0), size query failing, every total and increment up to 64 bits, short or failing writes.",
 "t_progress draws one bar on whatever terminal there is (none in the test run).",
 ["src/progbar.c","inc/utils/progbar.h"],
 [("width clamped to the terminal, percentage mapped to cells","src/progbar.c")],
 ["bytes written to the terminal"])
p("S04","Resolver results are complete, and failures are reported and leak nothing",
 "Listing interfaces or resolving a name returns every address the system supplied, each once and unaltered (address, mask and name), and nothing else. If the system's listing or lookup fails the caller gets an error code and never an empty success, and in every case everything obtained from the system is released exactly once. Formatting an address for display never writes past the buffer it is given.",
 ["fault_sequences","inputs"],
 "Every answer of the system (none, many, mixed families, missing fields), failure of the lookup.",
 "t_cresolve queries the host's own interfaces and prints them.",
 ["src/c_resolve.c","inc/utils/resolve.h"],
 [("copy of the system's list into a vector","src/c_resolve.c")],
 ["returned vector","system lists and heap left"])
p("M07","Growable vectors and byte buffers behave as plain sequences",
 "Through every sequence of operations (push, pop, insert at the front, append, copy, swap, sort, sample, shuffle, reset, finish and initialise again, with any initial capacity including none) a growable vector or byte buffer holds exactly the elements a plain sequence would hold, in that order; its capacity is never below its length or what was reserved; no memory outside its storage is touched and everything is released at the end. Given a uniform generator, shuffling makes every order, and sampling or choosing an element every choice, equally likely.",
 ["histories","inputs"],
 "Every operation sequence over two vectors of any element size, every capacity; storage that moves at any growth. Failing allocations excepted, which these macros cannot report.",
 "t_vect pushes and pops a fixed sequence.",
 ["inc/fast/vect.h","inc/fast/buf.h"],
 [("growth by doubling","inc/fast/vect.h"),("reservoir sampling, Fisher-Yates shuffle","inc/fast/vect.h")],
 ["elements, length and capacity after every operation","heap left at the end"])
p("M08","Linked lists and fixed queues keep exactly their elements, in order",
 "Through every sequence of operations the singly linked, doubly linked, circular and single-pointer lists contain exactly the nodes inserted and not removed, in the specified order, seen alike by every way of iterating forwards, backwards, from a node or safely against removal; first, last, next, previous, empty and similar queries agree with it; joining and cutting lists moves every node exactly once. No operation touches a node that has left the lists. A fixed-size queue delivers each element once, in order, holds one element fewer than its size, refuses when full and answers empty when empty.",
 ["histories"],
 "Every operation sequence over several lists, nodes released as soon as they leave, queues of every size including 1.",
 "t_list inserts and removes at the ends of one doubly linked list.",
 ["inc/fast/list.h","inc/fast/llist.h","inc/fast/queue.h"],
 [("link updates of each macro or inline function","inc/fast/list.h"),("wrapping read and write index","inc/fast/queue.h")],
 ["contents through every iterator after each operation","heap"])
p("M09","Heap yields elements in order; bit sets behave as sets",
 "Through every sequence of insertions and removals (of the least element or at any position) a heap always yields a least element of those it holds, loses and duplicates none, removes exactly the element at the position asked for, refuses when full, empty or out of range, and touches nothing outside the array it was given. A bit set of any size behaves as an array of booleans under setting, clearing, testing, copying, duplicating and the logical operations, also on itself, and creating or duplicating one returns NULL if there is no memory.",
 ["histories","fault_sequences"],
 "Every operation sequence, sizes from 0, equal keys, failing allocations.",
 "There is no test of either.",
 ["inc/utils/minheap.h","inc/fast/bitset.h"],
 [("sift up and down","inc/utils/minheap.h"),("word-wise logic","inc/fast/bitset.h")],
 ["elements returned, bits read","heap"])
p("M10","Growable strings hold exactly the text built, even when memory runs out",
 "Through every sequence of operations a growable string holds exactly the text that plain text operations give (appending characters, texts, other strings or itself, copying, truncating, chopping, trimming, removing quotes), always terminated and within its capacity. Unescaping undoes escaping for every set of characters to escape and every punctuation escape character, and decodes named, octal, decimal and hexadecimal escapes. Expanding replaces every $name and ${name} by the value looked up and \\$ by $, or returns a negative result and leaves the empty text. Reading returns every line of a stream whole, however long and however the stream delivers it. An operation that runs out of memory returns the failure value (NULL or a negative value); the text is then unchanged (or empty after an expansion) and stays usable; a read error is reported, not taken for the end of the file. Nothing leaks.",
 ["histories","fault_sequences"],
 "Every sequence of operations on several strings, all texts without NUL, every failing allocation, read error and short read.",
 "The two tests sample a few fixed texts; no test lets memory run out or a stream fail.",
 ["src/gstring.c","src/gstring_var.c","src/escape.c","src/unescape.c","src/bits.h","inc/utils/gstring.h"],
 [("growth","src/gstring.c"),("variable expansion","src/gstring_var.c"),("escaping","src/escape.c"),("unescaping","src/unescape.c")],
 ["text, length, capacity","return values","heap"])
p("M11","Packed messages unpack to the same values; damaged ones never harm the reader",
 "Packing by any valid template writes exactly the bytes the documented encoding prescribes (little or big endian, single values, fixed counts, counted arrays of any length including 0 and 1, floating point, fixed and terminated strings, padding), or fails with -ENOSPC without writing outside the buffer. Unpacking these bytes by the same template yields the same values. A message cut short, extended or damaged in transit yields either the values its bytes encode or the documented error; a malformed template (unknown type, repeated or dangling '*', a count with '*', a count above 32 bits, a count without type) and a missing pointer yield an error. No message, template or failing allocation makes it read or write outside the buffers or allocate for elements that are not there, and what was allocated is reachable by the caller.",
 ["inputs","fault_sequences"],
 "Every template, value, buffer size, truncation, extension or damage of the message, and failing allocation.",
 "The test packs a few values with counts of one digit and always enough memory and intact data.",
 ["src/pack.c","inc/utils/pack.h","inc/fast/encdec.h"],
 [("template interpretation","src/pack.c"),("integer encoding","inc/fast/encdec.h")],
 ["bytes packed, values unpacked","return values","heap"])
p("M12","Hashes fed in pieces equal the hash of the whole, however it is cut",
 "For the streaming hashes (XXH32, XXH64 and SipHash-2-4), any number of updates with pieces of any length (also 0) and alignment, followed by asking for the result, gives the published hash of all the bytes fed since the last reset, the same as hashing them at once. With xxHash the result can be asked for at any time without disturbing what follows; states are independent of each other, of what their memory held before the reset, and of the input buffer after the call; the input is never read beyond its end. The portable form of a hash is big endian and converts back. Creating a state gives null exactly when there is no memory, and freeing it gives everything back.",
 ["histories","inputs","fault_sequences"],
 "Every division of every input into pieces, every interleaving of updates, interim results and resets on several states, failing allocation of states.",
 "The tests hash vectors in one piece; nothing calls the update functions more than once.",
 ["src/hashfunc/xxhash.c","inc/utils/xxhash.h","src/hashfunc/siphash24.c","inc/utils/siphash.h"],
 [("buffering of partial blocks between updates","src/hashfunc/xxhash.c"),("tail and length carried between updates","src/hashfunc/siphash24.c")],
 ["hash values","state creation results","heap"])
p("M13","Splitting a string gives exactly its parts, or fails cleanly without memory",
 "strsplit and strsplit_quick give, in order, the parts of the string between delimiter characters (each delimiter, or in squeezed mode each run of them after trimming white space, separates; an empty last part is left out), each null-terminated and lying inside the given string, and their exact number. strsplit returns null exactly when memory runs out, leaving nothing allocated, and never ends the process; its result is one block the caller frees. strsplit_quick never writes beyond the given slots (also if there are none) and returns a negative value exactly when there are fewer than parts. Earlier results stay valid.",
 ["inputs","fault_sequences"],
 "Every string, delimiter set (also empty, control and 8-bit characters), number of slots, and failing allocation at the start or at any growth.",
 "The test has a table of examples with few parts and memory never runs out.",
 ["src/strsplit.c","src/strtrim.c","src/bits.h","inc/utils/strutils.h"],
 [("growth of the array of parts","src/strsplit.c"),("delimiter set","src/bits.h")],
 ["parts and their number","heap"])
p("I05","Small generators follow their seeds, or real randomness if none is given",
 "Initialised with a non-zero seed, xorshift64*, xorshift128+, xorshift1024*, xoroshiro128+ and the romu generators take no randomness from the system and give the stream their published definition prescribes, the same for the same seed, whatever memory held before and however several generators are interleaved. With a seed of 0 each left-out seed is replaced by at least 64 bits from the system, every byte of which matters; the same holds for frand, whose numbers lie in [0,1). A generator is never used unseeded: if the system has no randomness the process ends instead. No seed and no randomness, not even all zeros, makes a generator return the same number forever.",
 ["histories","fault_sequences","inputs"],
 "Every seed, every interleaving of generators, and every behaviour of the system's randomness: failing, all zero, or any value.",
 "Tests draw a few numbers from seeded generators and print them; randomness never fails.",
 ["src/prng/xorshift.c","src/prng/xoroshiro.c","src/prng/romu-rand.c","src/prng/frand.c","inc/utils/splitmix.h"],
 [("seeding from the system","inc/utils/splitmix.h:makeseed"),("state transition","src/prng/xorshift.c")],
 ["numbers drawn","bytes of randomness taken","end of the process"])
p("S05","Diagnostics are whole lines in order, and xmalloc memory is never null",
 "error, warn and die write exactly one line to standard error: program name if set, message, for error also the reason and number of a non-zero error code of either sign, and one newline, whatever the length of the message (long ones may be cut, keeping the newline and the reason), also if it is empty, ends in a newline or cannot be formatted. Everything printed earlier on standard output is out before it. error ends the process exactly when status is non-zero, with that status, and die with 1; warn always returns; failing writes change none of this. The xmalloc memory manager returns a block of the size asked for or reports the size and ends the process with 1; the default one returns null instead.",
 ["inputs","fault_sequences"],
 "Every message, error number, exit status, buffering of the streams, failing or short write, and failing allocation.",
 "Tests never look at diagnostics, exhaust memory or let a write fail.",
 ["src/error.c","inc/error.h","src/memmgr.c","inc/utils/memmgr.h"],
 [("bounded message buffer","src/error.c"),("flushing order","src/error.c"),("allocation failure","src/memmgr.c")],
 ["bytes on both streams","exit status","blocks returned"])
p("S06","A hex dump shows every byte with its offset and reports failing output",
 "A dump through a caller's function or to a file consists of lines of up to 16 bytes with their offset (from the start of the buffer, or the address), every byte in hex and as text (unprintable ones as '.'), for every buffer of any length including 0 and any number of writes per session. If the function fails, its error is returned unchanged and it is not called again; if writing to the file fails, a negative error is returned; otherwise 0. Nothing beyond the buffer is read.",
 ["inputs","fault_sequences"],
 "Every buffer, both offset modes, any number of writes, every failing call of the output function, every buffering of the file and every failing or short write.",
 "The test prints dumps to its own output and nobody compares them; output never fails.",
 ["src/hexdump.c","inc/utils/hexdump.h"],
 [("line formatting","src/hexdump.c:hex_dump_write"),("file writer","src/hexdump.c:__fp_writer")],
 ["text written","return values","calls of the output function"])
p("D11","CDB lookups return exactly what is stored; damage yields at worst an error",
 "For every well-formed CDB file, looking up a stored key returns the value stored (first) under it with its exact length, including keys with equal hashes and empty keys or values, and looking up any other key returns -ENOENT. For a damaged or truncated file the reader returns an error, -ENOENT or a value that lies in the file and is preceded there by the key asked for; it never crashes, never accesses anything outside the file and always ends. If the file cannot be opened, examined or mapped, or is too short, a negative errno value is returned and nothing is left open or mapped.",
 ["inputs","fault_sequences"],
 "Every set of keys and values including full hash collisions, every table size and file layout, any damage, failure of each system call.",
 "There is no test.",
 ["src/cdb_read.c","src/cdb_reader.h"],
 [("open addressing over a mapped table with bounds checks","src/cdb_read.c")],
 ["return value and data of each lookup","descriptors and mappings"])
p("D12","ftw calls the function once for everything below a path, or fails",
 "Walking with ftw() calls the function once for every entry of the tree, a directory before its contents, with the entry's path, metadata and kind (a directory that turns out to be unreadable is then reported as such, an entry that cannot be examined as FTW_NS); links below the starting point are not followed. If the function returns nonzero the walk stops at once and returns that value. Otherwise 0 is returned only if nothing was left out for any other reason; a walk cut short by an error returns -1 with errno set. Memory and descriptors are released in every case and the working directory is unchanged.",
 ["inputs","fault_sequences"],
 "Every tree, permissions, stop point, and failure of any file operation or allocation.",
 "There is no test.",
 ["src/ftw.c","src/fts.c"],
 [("loop over fts_read","src/ftw.c")],
 ["sequence of calls of the function","result, errno, descriptors and heap"])
# ---------------- not applicable
p("N01","Encoders and decoders are inverse to each other",
 "Base64 and hex encodings decode to exactly what was encoded for every input, reject malformed input, and never write past the given buffer.",
 ["inputs"],"Every byte string and buffer size.","Tests use tables of examples.",
 ["src/b64_encode.c","src/b64_decode.c","src/str2hex.c","inc/utils/base64.h","src/uuid2str.c"],[("pure conversion functions","src/")])
p("N02","String utilities parse, trim, copy and match within bounds",
 "CSV and argument splitting (plain splitting: M13), trimming, copying, quoting and substring search (growable strings: M10) produce exactly the specified pieces for every input and never touch memory outside the given buffers.",
 ["inputs"],"Every string and delimiter set.","Tests use tables of examples.",
 ["src/strsplit_csv.c","src/strtrim.c","src/strcopy.c","src/splitargs.c","src/strunquote.c","src/gstring.c","src/gstring_var.c","src/dirname.c","inc/utils/strmatch.h"],[("pure string functions","src/")])
p("N03","Number, size and address parsing accepts exactly the valid forms",
 "Parsing of integers, human-readable sizes and IP addresses or masks yields the exact value or an error, with overflow detected, and formatting is its inverse.",
 ["inputs"],"Every input text.","Tests use tables of examples.",
 ["src/strtosize.c","src/humanize.c","src/parse-ip.c","inc/utils/strutils.h"],[("pure parsing functions","src/")])
p("N04","One-shot hash functions reproduce their reference outputs",
 "The hash functions without a streaming interface give the reference output for every input and seed, independent of alignment.",
 ["inputs"],"Every input and seed.","Tests compare a few vectors.",
 ["src/hashfunc/"],[("pure arithmetic","src/hashfunc")])
p("N06","Timers fire once, in order, never early",
 "A timer armed on the timer wheel fires exactly once, not before its time and within one tick after it, and a cancelled timer never fires.",
 ["schedules","histories"],"Every sequence of arming, cancelling and clock movement.","There is no test.",
 ["inc/utils/timer_wheel.h"],[("declared interface only","inc/utils/timer_wheel.h")])
p("N07","Command-line and configuration text is interpreted as documented",
 "Option parsing and configuration files yield exactly the documented settings for every command line and file, with errors reported for malformed ones.",
 ["inputs"],"Every command line and file.","Tests use a few command lines.",
 ["src/getopt_long.c","src/configfile.c","tools/mkgetopt.py","inc/utils/cmdline.h"],[("text parsers","src/configfile.c")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
