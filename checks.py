"""The checks: for every property the driver processes to run. cases: (quick, thorough) per process."""
CHECKS = {}


def check(pid, technique, rule, jobs, **kw):
    CHECKS[pid] = dict(technique=technique, rule=rule, jobs=jobs, **kw)


def J(driver, cases, shards=4, **kw):
    return dict(driver=driver, cases=cases, shards=shards, **kw)


check("C01", "online trace monitor against a FIFO reference model, under random task programs",
      "A case is a random program of 1 to 6000 tasks (async_task, async_ex, launch, yield, half of them with suspend and resume, nested to depth 5, 1 to 40 arguments); every step of every task is compared with a FIFO model. Or it is a set of sleeping and yielding tasks under a virtual clock: no sleeper runs before a task that was ready before its time was up. Non-trivial: at least 3 tasks; distinct by the observed order of steps.",
      [J("c01_sched", (2000, 40000), 4, cpus=2), J("c01_sched", (600, 10000), 1, cpus=2, args=["ids=66000"], variant="dbg"),
       J("c04_delay", (200, 10000), 1, cpus=2, args=["fifo=1"])])

check("C02", "runtime monitors on stack contents, registers and stack ranges across suspensions; fault test of the overflow diagnostic",
      "A case is a set of 1 to 64 tasks with random stack sizes that recurse to a random share of their stack, fill it with patterns and suspend (yield, delay, launch, await_for) at random depths, with data attached; or a process with a task that uses up its stack in small steps and suspends after each in yield, delay, async_wait or await_for, and then processes with a task that gets as deep without a suspension and suspends there once, after 0 to 40 suspensions before. Non-trivial: more than 2 suspensions; distinct by sizes, uses and number of suspensions.",
      [J("c02_stack", (60, 1500), 4, cpus=2, args=["overflows=25"]), J("c02_stack", (40, 800), 1, cpus=2, variant="dbg")])

check("C03", "online monitor of every returned id, readiness, result and cancel flag against the recorded history of the tasks",
      "A case is a set of 1 to 300 (plus nested) tasks that yield, sleep, await each other, look up results of any task of the process so far, and request or poll cancellation. Non-trivial: at least one await_for; distinct by the sequence of awaits.",
      [J("c03_results", (300, 4000), 4, cpus=2), J("c03_results", (150, 2000), 1, cpus=2, args=["ids=66000"], variant="dbg")])

check("C04", "online monitor of every sleep under a virtual clock (never early, in the order of the deadlines, not held up)",
      "A case is a set of 1 to 200 tasks that sleep for 0 to 2000000000 ms, yield, or do both, while the driver moves the library's clock to just before, exactly to, or past the deadlines. Non-trivial: at least one sleep; distinct by the order of the wake-ups.",
      [J("c04_delay", (300, 20000), 4, cpus=2)])

check("C05", "online monitor of task group members and of the array tasks_wait returns",
      "A case is a task group of 0 to 150 tasks (with and without results, yields, delays, nested groups) waited for while background tasks run and up to 3 other tasks wait for groups of their own. Non-trivial: more than one group task; distinct by the order in which the tasks ended.",
      [J("c05_group", (150, 3000), 4, cpus=2), J("c05_group", (60, 1500), 1, cpus=2, args=["ids=66000"]), J("c05_group", (60, 1000), 1, cpus=2, variant="dbg")])

check("C06", "online monitor of the values each consumer receives from each generator and of their ends",
      "A case is a set of generators that yield random sequences with yields and delays in between, and consumers that take from them. Non-trivial: at least one value; distinct by the sequence of values and ends observed.",
      [J("c06_gen", (150, 6000), 3, cpus=2), J("c06_gen", (60, 1500), 1, cpus=2, args=["ids=66000"], variant="dbg")])

check("C07", "online monitor of runs, threads, arguments, results and of the ids waitfor returns, with random delays at every function call of the library, and a checking allocator",
      "A case is 1 to 4 concurrent tasks of the main thread that each start 0 to 199 tasks with go() (in a wait group waited for, or awaited one by one, or forgotten; with nested go(), yields, delays, values of all kinds, go_guard) on a pool of 3 or 7 threads. Non-trivial: more than one task; distinct by the threads the tasks ran on and their steps.",
      [J("c07_go", (1500, 60000), 2, cpus=4), J("c07_go", (600, 20000), 1, cpus=4, args=["ids=66000"]), J("c07_go", (1500, 60000), 2, cpus=4, variant="jit"), J("c07_go", (1500, 60000), 2, cpus=8, variant="jitd")])

check("C08", "online monitor of the runs, order, arguments, results and errno of every job, with random delays at every function call of the library, and a checking allocator",
      "A case is 1 to 12 tasks that queue up to 40 jobs each on the threads of the pool and collect the results (queue_get, promise_wait, queue_wait) in random order, while another task counts its turns; jobs return numbers, -1 with errno, addresses, arrays and some wait for a task to go on. Non-trivial: more than one job; distinct by the kinds and threads of the jobs.",
      [J("c08_jobs", (1500, 60000), 2, cpus=4), J("c08_jobs", (1500, 60000), 1, cpus=4, variant="jit", args=["ids=66000"]), J("c08_jobs", (1500, 60000), 2, cpus=4, variant="jitd", args=["pool=1"])])

check("C09", "online monitor of the runs, threads, arguments, values, errno, exceptions and cleanups of every future, with random delays at every function call of the library, and a checking allocator",
      "A case is 1 to 6 tasks (or threads without tasks) that start up to 15 futures each, which return numbers, -1 with errno, addresses, arrays, or are ended by exceptions, panics and signals, with cleanups and try blocks, and start futures of their own to depth 3; they are polled, waited for and collected in random order, some never. Non-trivial: more than one future; distinct by the kinds and arguments of the futures.",
      [J("c09_future", (1500, 60000), 1, cpus=4, args=["large=1"]), J("c09_future", (700, 30000), 1, cpus=4, args=["plain=1"]), J("c09_future", (1000, 30000), 1, cpus=4, variant="dbg"), J("c09_future", (1500, 40000), 1, cpus=4, variant="jitd")])

check("C10", "online monitor of every callback against poll(2) at the moment of the loop's poll and a model of the registrations",
      "A case is a random program on up to 60 sockets, pipes and event descriptors and two loops: registering, changing, unregistering, closing (numbers are used again), reading, writing, shutting down, also from inside callbacks, with 20 to 220 turns. Non-trivial: more than 2 callbacks; distinct by the sequence of callbacks.",
      [J("c10_loop", (600, 20000), 4, cpus=1)])

check("C11", "online monitor of every timeout under a virtual clock against a model of what is armed",
      "A case is a random program on up to 400 descriptors and two loops with resolutions of 1 to 782 s that arms, re-arms and clears timeouts, also from inside callbacks, while the time passes in small and large steps. Non-trivial: at least 2 timeouts; distinct by the sequence of callbacks.",
      [J("c11_timeouts", (2000, 40000), 3, cpus=1)])

check("C12", "online monitor of every timer under a virtual clock against a model of what is armed",
      "A case is a random program on two loops with up to 2400 timers (0 ms to 24 days), created, repeated and cleared also from inside callbacks, and up to 40 descriptors, while the time moves in small and large steps or exactly to deadlines. Non-trivial: at least 2 timers fired; distinct by the order in which they fired.",
      [J("c12_timers", (90, 3000), 3, cpus=1), J("c12_timers", (60, 1500), 1, cpus=1, variant="dbg")])

check("C13", "online monitor of every signal delivery against a model of the registrations; conservation of queued signals under threads",
      "A case registers, replaces, moves between loops, raises (one, or several pending at once), and unregisters in handlers 23 signals, with descriptors of the same numbers on the loops, or lets 1 to 4 threads queue real-time signals to the process, whose handlers then run on its different threads. Non-trivial: more than one delivery; distinct by the sequence of deliveries.",
      [J("c13_signals", (4000, 150000), 4, cpus=2)])

check("C14", "online monitor of every byte of every stream against its generator and the amount offered by the writer, with peers that use plain system calls, small socket buffers, early closing, signals and random delays; progress monitor for the other tasks",
      "A case is 1 to 12 concurrent connections (TCP over IPv4, IPv6 and by name, Unix sockets, socket pairs, pipes) whose ends are tasks of the main thread, tasks of pool threads or threads of the driver, each with a conversation of 1 to 24 steps of 1 to 700000 bytes with random chunk sizes, buffer sizes and pauses, in turn or both ways at once. Every case is non-trivial; distinct by kinds, ends and sizes.",
      [J("c14_stream", (220, 8000), 2, cpus=4), J("c14_stream", (200, 6000), 1, cpus=4, variant="jitd"), J("c14_stream", (200, 6000), 1, cpus=3, variant="dbg")])

check("C15", "online monitor: every datagram carries its origin, number and contents; requests, replies and the socket's queue are matched one to one",
      "A case is a server (in a task or a pool thread, 1 to 3 receiving tasks, which reply at once, after others, or from a task of udp_handler) and 1 to 10 peers (udp_bind, udp_connect, in the pool, with system calls) with 1 to 40 requests each, several at a time, of 16 to 65507 bytes and empty ones, over IPv4 and IPv6. Every case is non-trivial; distinct by peers and sizes.",
      [J("c15_udp", (1000, 40000), 2, cpus=4), J("c15_udp", (700, 30000), 1, cpus=4, variant="jitd"), J("c15_udp", (700, 30000), 1, cpus=3, variant="dbg")])

check("C16", "differential monitor: every file operation is done by the library in one directory and by system calls in its mirror; results, errno, data, trees and open descriptors are compared; fault injection by a file size limit; random delays at every function call of the library",
      "A case is 1 to 12 concurrent tasks that each do 5 to 200 random operations of 31 kinds on 14 names (files, directories, links, loops, missing) and up to 6 descriptors and 3 streams in a directory of their own, with contents of 0 to 256 KB, while another task counts its turns; some wait for a slow operation on a fifo. Non-trivial: more than 3 operations; distinct by the operations and the errors seen.",
      [J("c16_fs", (200, 8000), 2, cpus=3, args=["limit=1"]), J("c16_fs", (70, 2500), 1, cpus=4, variant="jitd"), J("c16_fs", (70, 2500), 1, cpus=3, variant="dbg")])

check("C17", "online trace monitor of random exception programs against a reference interpreter, in threads, tasks and tasks of a pool, with a checking allocator",
      "A case is 1 to 12 random programs (throw, panic, raised signals and faulting writes, rethrow, calls, suspensions, try with every kind of handler and finally, nested to depth 12) run at once in threads, in tasks of one thread, or in tasks of several threads; every step, exception name, message and flag is compared with the interpreter's. Non-trivial: an exception was thrown or several programs ran at once; distinct by the programs.",
      [J("c17_except", (6000, 200000), 2, cpus=4), J("c17_except", (6000, 200000), 1, cpus=2, args=["events=1"]), J("c17_except", (6000, 100000), 1, cpus=2, args=["events=1"], variant="dbg"), J("c17_except", (5000, 100000), 2, cpus=4, args=["events=1", "pool=1"]), J("c17_except", (5000, 100000), 1, cpus=4, args=["events=1", "pool=1"], variant="jit")])

check("C18", "online trace monitor of random programs of guard sections, cleanups and protected pointers against a reference interpreter; processes ended by uncaught exceptions, with a checking allocator",
      "A case is 1 to 12 random programs as for C17 with guard sections, defer, deferring, fence, defer_free, protected, recovering cleanups and cleanups that use try and guard themselves, in threads, tasks and tasks of several threads; or a process that runs one whose exceptions may end it. The trace holds every cleanup with its argument and the exception it saw. Non-trivial: an exception was thrown or several programs ran at once; distinct by the programs.",
      [J("c17_except", (6000, 200000), 1, cpus=4, args=["guard=1"]), J("c17_except", (6000, 200000), 1, cpus=4, args=["guard=1"], variant="dbg"), J("c17_except", (6000, 200000), 1, cpus=2, args=["guard=1", "events=1"]), J("c17_except", (5000, 100000), 1, cpus=4, args=["guard=1", "events=1", "pool=1"]), J("c17_except", (4000, 60000), 1, cpus=4, args=["guard=1", "events=1", "pool=1"], variant="jit"), J("c17_except", (2500, 40000), 2, cpus=4, args=["guard=1", "child=1"], variant="dbg")])

check("C19", "runtime oracle: models of arrays, ranges, tuples, maps kept beside the real ones, under address sanitizer, checking allocator and the library's own allocator",
      "A case is a random sequence of operations on arrays, ranges, tuples and foreach loops with a model of the contents beside them. Non-trivial: every case; distinct by the operations and sizes.",
      [J("c19_arrays", (1500, 40000), 2, variant="asan"), J("c19_arrays", (1500, 40000), 2), J("c19_arrays", (1500, 40000), 2, variant="dbg")])

check("C20", "differential runtime oracle against reference implementations, on inputs that end at an inaccessible page, with a checking allocator",
      "A case is one group of string or memory functions (searches, comparisons, splits, joins, replacements, paddings, copies, trims, numbers, sorts) on generated text from small and full alphabets, 0 to 4000 bytes. Non-trivial: every case; distinct by arguments or their lengths and results.",
      [J("c20_strings", (6000, 200000), 2), J("c20_strings", (6000, 200000), 2, variant="dbg")])

check("C21", "differential runtime oracle: an independent base64 coder, on buffers that end at an inaccessible page",
      "A case encodes and decodes random bytes or text of 0 to 3000 bytes, valid or damaged (wrong characters, padding, lengths). Non-trivial: every case; distinct by input.",
      [J("c21_base64", (6000, 200000), 2)])

check("C22", "differential runtime oracle: independent parser of the grammar, round trips, checking allocator",
      "A case is one generated or damaged url, path or query with the parts it was composed of. Non-trivial: every case; distinct by input.",
      [J("c22_uri", (10000, 300000), 2), J("c22_uri", (10000, 300000), 2, variant="dbg")])

check("C28", "differential runtime oracle: inet_pton/inet_ntop and an independent composer of addresses, on text ending at an inaccessible page",
      "A case is one address (IPv4, IPv6, socket path, with or without scheme and port; valid or damaged) given to the address parsers. Non-trivial: every case; distinct by input.",
      [J("c28_addr", (10000, 300000), 2), J("c28_addr", (10000, 300000), 2, variant="dbg")])

check("C29", "differential runtime oracle: reference reading of generated command lines",
      "A case is one generated command line and a set of questions about its options. Non-trivial: every case; distinct by command line.",
      [J("c29_getopt", (6000, 200000), 2)])

check("C23", "online monitor: the child is the driver itself and reports what it was given; output, exit status, descriptors and process table are compared with its instructions; the number of processes is limited as fault injection; random delays at every function call of the library",
      "A case is 1 to 5 processes at once (spawn, spawn_cgi, exec; from the main task, tasks or pool threads) with random arguments, environment, amount and pace of output (0 to 460 KB), copied input, stderr, exit status or signal, or a program or process that cannot be started. Every case is non-trivial; distinct by these.",
      [J("c23_spawn", (350, 20000), 2, cpus=3), J("c23_spawn", (250, 10000), 1, cpus=3, args=["user=1"]), J("c23_spawn", (250, 12000), 1, cpus=4, variant="jitd", args=["pool=3", "jitter=5"]), J("c23_spawn", (200, 10000), 1, cpus=3, variant="dbg", args=["pool=2"]), J("c23_spawn", (120, 6000), 1, cpus=2, args=["fds=1"])])

check("C24", "online monitor: every handler invocation (kind, name, directory, filter) against the changes made, and a second inotify descriptor of the system as reference",
      "A case is 1 to 4 watched trees of up to 40 directories with up to 200 changes (files created, modified, removed, renamed, moved in and out; directories made, renamed, removed, moved between trees) with watches ended or removed in between, by events_watch or, on pool threads, fs_events; or up to 120 changes read with the inotify functions on up to 3 descriptors. Every case is non-trivial; distinct by numbers of trees, changes and reports.",
      [J("c24_watch", (90, 6000), 2, cpus=1), J("c24_watch", (50, 3000), 1, cpus=4, args=["pool=1"]), J("c24_watch", (60, 4000), 1, cpus=4, args=["pool=3"]), J("c24_watch", (30, 2000), 1, cpus=2, variant="jitd", args=["jitter=200"]), J("c24_watch", (40, 2000), 1, cpus=2, variant="dbg"), J("c24_raw", (150, 8000), 1, cpus=1), J("c24_raw", (80, 3000), 1, cpus=1, variant="asan")])

check("C25", "runtime monitor of the contents, alignment and size of every block of concurrent threads",
      "A case is 1 to 3 rounds of 1 to 6 threads that allocate (malloc, calloc, aligned; 0 bytes to 9 MB), reallocate, exchange through mailboxes and free blocks filled with patterns that are checked before every release, move and exchange. Non-trivial: every case; distinct by threads, operations, mailboxes and seed of the first thread.",
      [J("c25_alloc", (120, 4000), 4, cpus=2)])

check("C26", "runtime monitor of conservation (every item obtained exactly once) under contention, sequential reference model, address sanitizer",
      "A case is a deque of initial capacity 1 to 300 with an owner that pushes up to 30000 items and takes, and 1 to 4 thieves that steal; or a random sequence of operations of one thread compared with a model. Non-trivial: every case; distinct by the numbers of items each obtained.",
      [J("c26_deque", (300, 8000), 3, cpus=4), J("c26_deque", (150, 4000), 1, cpus=4, variant="asan")])

check("C30", "online monitor: counters of tasks, jobs, threads and descriptors of whole programs run as child processes with 1 to 4 cores; every callback of several loops against a model of what is registered; random delays at every function call of the library",
      "A case is a program: 1 to 3 rounds of start, up to 400 tasks with jobs, pool tasks, groups, timers, descriptors, exceptions and deferred functions, and shutdown, by events_start or the functions it consists of; or up to 1200 operations on up to 8 loops at once of each of up to 4 threads, or a row of up to 66000 loops. Every case is non-trivial; distinct by the numbers of tasks, jobs, steps, loops, turns and callbacks.",
      [J("c30_start", (130, 6000), 2, cpus=4), J("c30_start", (60, 3000), 1, cpus=4, variant="jitd"), J("c30_start", (60, 3000), 1, cpus=4, variant="dbg"), J("c30_loops", (150, 6000), 2, cpus=2), J("c30_loops", (80, 3000), 1, cpus=2, variant="dbg"), J("c30_loops", (50, 2000), 1, cpus=2, variant="jitd")])

check("C31", "runtime accounting: ledger of the checking allocator (or resident size), descriptors and threads in use after windows of repeated rounds of the same work",
      "A case is 1 to 5 of 47 kinds of work (tasks, groups, generators, jobs, futures, exceptions, arrays, strings, sockets, files, processes, watches, loops, timers, signals, pool tasks) done again and again, in tasks of their own or in one task, and counted in 4 windows of 15 to 44 rounds (2 of 500 with the library's own allocator). A leak is growth in every window beyond the results kept. Every case is non-trivial; distinct by work and rounds.",
      [J("c31_leak", (80, 6000), 1, cpus=2, variant="dbg"), J("c31_leak", (80, 6000), 2, cpus=4, variant="dbg", args=["pool=2"]), J("c31_leak", (80, 6000), 1, cpus=4, variant="dbg", args=["pool=1"]), J("c31_leak", (8, 400), 1, cpus=4, args=["rss=1", "pool=2"]), J("c31_leak", (10, 400), 1, cpus=2, args=["rss=1"])])

check("C32", "runtime monitors (exclusion, conservation of updates, litmus tests) under contention; ThreadSanitizer",
      "A case is 2 to 6 threads that contend with one kind of operation (lock, flag, fetch_add/sub, fetch_or/and/xor, compare and swap, exchange, pointer swap, store/load order, message passing). Non-trivial: every case; distinct by kind, threads and operations.",
      [J("c32_atomics", (300, 8000), 3, cpus=4), J("c32_atomics", (40, 600), 2, cpus=4, variant="tsan", must_exit0=True)])

check("C33", "runtime monitors on threads: counters of runs, models of thread-local values and keys, clocks around joins",
      "A case is 1 to 24 threads with random exit codes, operations on thread-local variables and up to 6 keys, joined with and without timeouts. Non-trivial: every case; distinct by exit codes and ways of ending.",
      [J("c33_threads", (100, 2500), 4, cpus=2)])

check("C34", "differential monitor: every lookup by a task is compared with the same lookup by a system call's wrapper in libc, and looked at again later; random delays at every function call of the library; a checking allocator",
      "A case is 1 to 40 tasks that each do 2 to 26 random lookups at once: names of /etc/hosts, numeric and invalid texts, services, flags, families, buffer sizes from 0, up to 4 hosts held together. Nothing goes to the network. Non-trivial: every case; distinct by the results.",
      [J("c34_names", (300, 15000), 2, cpus=4), J("c34_names", (150, 6000), 1, cpus=4, variant="dbg"), J("c34_names", (150, 6000), 1, cpus=4, variant="jitd")])

check("C35", "online monitor of every descriptor against a model of the bytes in its pipe and against fcntl, fstat and getsockopt, and a checking allocator",
      "A case is 10 to 400 random operations on up to 40 named pipes and up to 110 descriptors (pipes, sockets, files, directories, devices): making, opening for reading, writing or both, writing, reading (read, callbacks, async_read), types, flags, timeouts, data of descriptors, processes in between, closing, removing. Non-trivial: every case; distinct by the sequence of operations.",
      [J("c35_fds", (8000, 300000), 2, cpus=1), J("c35_fds", (3000, 100000), 1, cpus=1, variant="dbg")])

check("C36", "end-to-end monitor: programs run in processes of their own, the result of each piece is compared with its closed form, and the exit status with the one chosen; random delays at every function call of the library in one variant",
      "A case is a program started with events_start: 1 to 80 pieces of 65 kinds (exceptions, guards, signals, deferred functions, arrays, text, generators, delays, cancelling, groups, jobs, futures, files, sockets, lookups, processes, timers) in the main task, tasks, tasks of other threads, jobs and futures, up to 24 at once, or one that ends the process: by exit(), an exception nothing catches, a signal or a panic, in any of these places. Non-trivial: every case; distinct by the pieces and places.",
      [J("c36_mixed", (500, 15000), 1, cpus=4), J("c36_mixed", (300, 8000), 1, cpus=4, variant="dbg"), J("c36_mixed", (300, 8000), 1, cpus=4, variant="jitd")])
