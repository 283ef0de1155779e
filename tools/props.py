#!/usr/bin/env python3
"""Single source for properties.jsonl (and for the checks' MANIFEST entries, see mkmanifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Every task runs exactly once, with its arguments, in fair FIFO order",
  "Every task started with async_task, launch or async_ex runs its function exactly once, with exactly the arguments it was given, on the thread that created it. Ready tasks run in first-in first-out order: a task that yields continues only after every other task that was ready at that moment has run, and no task is lost, duplicated or starved however many tasks exist and however they yield, spawn and finish. A task that suspends itself runs again only after a resume, once for each, in its turn; resume of a task that is ready already only lets the others run.",
  ["schedules", "programs"], "all programs of tasks that spawn, yield, suspend, resume and finish, any number of tasks and nesting",
  "The tests create at most about ten tasks and never look at the order or at the number of runs.",
  ["src/events.c"], [("enqueue/dequeue, task_push, yield, launch, resume, tasks_schedulering", "src/events.c")],
  ["the order in which task bodies run", "arguments seen by each body"],
  [("run_queue", "FIFO of ready tasks of a thread", "src/events.c")])
p("C02", "A task's own state survives every suspension",
  "When a task is suspended and later continued, its local variables, the contents of its stack, and its callee-saved registers are exactly what they were, whatever other tasks did meanwhile, and so are its identity, its number and the data attached to it with task_data_set (none at first). Stacks of different live tasks never overlap, and a task that uses more stack than it was given is stopped with a diagnostic at its next suspension instead of silently continuing.",
  ["schedules", "programs"], "all interleavings of suspending tasks, with stack use up to the requested size",
  "No test checks registers or stack contents over a switch, or a stack overflow.",
  ["src/asm.c", "src/events.c"], [("coro_swap/task_derive", "src/asm.c"), ("tasks_stack_check, create_task", "src/events.c")],
  ["locals, stack contents, callee-saved registers before and after yield/delay", "abort with a stack overflow message"])
p("C03", "Task results are delivered exactly, to the right id, and stay available",
  "async_task returns an id different from that of every other task; task_is_ready is false until the task has returned and true ever after. await_for returns only once the task has returned, and it and results_for then give exactly the value returned (an empty value if it returned none) each time they are asked, for every id, however many tasks were created since; a cancel request is seen by the task it was made for and by no other.",
  ["schedules", "programs"], "all interleavings of producers and awaiting tasks, any number of tasks created",
  "The tests read one or two results of a handful of tasks; the results table grows only beyond that.",
  ["src/events.c"], [("tasks_create_result, tasks_result_set, await_for, results_for, task_is_ready, task_set_canceled", "src/events.c")],
  ["return values of await_for, results_for, task_is_ready, task_is_canceled"],
  [("sys_event.results", "table of results, indexed by result id", "src/events.c")])
p("C04", "delay() never wakes early, wakes in deadline order, blocks nobody else",
  "delay(ms) returns no earlier than ms milliseconds after the call and reports the time slept; sleeping tasks wake in the order of their deadlines, each exactly once, and while some tasks sleep every ready task keeps running. A program whose remaining tasks all sleep wakes all of them.",
  ["schedules", "programs"], "all sets of concurrent sleepers and durations, mixed with ready tasks",
  "The tests sleep in one or two tasks with well separated durations.",
  ["src/events.c"], [("delay, add_timeout, task_wait_system", "src/events.c")],
  ["clock before and after delay, order of wake-ups, progress of ready tasks"],
  [("sleep_queue", "sleeping tasks sorted by alarm time", "src/events.c")])
p("C05", "tasks_wait returns after all the group's tasks, with exactly their results",
  "tasks_wait() on a task group returns only when every task the waiting task created since task_group() has finished, whatever mix of yields, delays, and nested task creation they do. The returned array holds exactly once the id of each task that returned a value and no other id, each id gives the value that task returned, and the group is no longer a task group.",
  ["schedules", "programs"], "all group sizes and all mixes of task durations",
  "The one test has ten tasks with the same delay, and it fails for an unrelated reason.",
  ["src/events.c"], [("task_group, task_push, tasks_wait", "src/events.c")], ["array returned by tasks_wait, order of task ends and the return of tasks_wait"])
p("C06", "A generator hands over every value once, in order, and then ends",
  "The values a generator passes to yielding() are returned by successive yielded() calls exactly once each, in order, with none lost, repeated or merged, for any number of generators used in any interleaving by any tasks, while the task that created the generator lives. After the generator function has returned, yielded() returns an empty value.",
  ["schedules", "programs"], "all sequences of values, all interleavings of several generators and other tasks",
  "The only test passes a single value.",
  ["src/events.c"], [("generator, yielding, yielded", "src/events.c")], ["values returned by yielded"])
p("C07", "go()/waitgroup run every task exactly once across threads, no result lost",
  "Every task created with go() runs exactly once, on exactly one thread of the pool or of the waiting group, with exactly its arguments. waitfor() returns only after every task of the wait group has finished; the ids it returns are exactly those of the tasks that returned a value, each once, and each id gives that task's value.",
  ["schedules", "programs", "configurations"], "all interleavings of the pool threads, all group sizes and core counts",
  "The one test runs thirty identical tasks on one machine shape and checks two results.",
  ["src/events.c", "src/deque.c"], [("go, waitgroup, tasks_poster, waitfor, task_take, enqueue_tasks", "src/events.c"), ("deque_push, deque_steal", "src/deque.c")],
  ["per task run counters, thread ids, results table, array returned by waitfor"])
p("C08", "queue_work runs every job once, off-thread, and returns its result and errno",
  "Every job given to queue_work runs exactly once, with exactly its arguments, in the pool thread it was queued to, jobs of one pool thread in the order they were queued, and without blocking the tasks of the calling thread. queue_get returns only after the job ended and gives exactly the value (or the values of the array, also of one it made itself) the job returned (with the job's errno when it returned -1), and is refused a second time; queue_wait calls the continuation exactly once with each result. What a job deferred runs once, after it and before the next job of its thread.",
  ["schedules", "programs"], "all interleavings of submitting tasks and pool threads, any number of outstanding jobs",
  "The test queues three jobs one after the other.",
  ["src/future.c", "src/events.c"], [("queue_work, enqueue_promise, promise_set, promise_wait, queue_get, queue_wait", "src/future.c"), ("__future_wrapper", "src/events.c")],
  ["run counters and argument copies in jobs, values returned by queue_get"])
p("C09", "thrd_async delivers the thread's result, or its exception, exactly once",
  "thrd_async runs the function exactly once in a new thread with exactly the given arguments; thrd_is_done turns true only when it has ended, and thrd_get returns only then, with exactly the value(s) the function returned (and errno, if it returned -1), or raises in the caller the exception that ended the function; its cleanups have run by then. Any number of futures may be outstanding at once and be collected in any order, or not at all.",
  ["schedules", "programs"], "all numbers of outstanding futures and all orders of completion and collection",
  "The test has one future; the exception test is known to be flaky.",
  ["src/future.c"], [("thrd_async, thrd_get, thrd_wait, thrd_is_done, thrd_data", "src/future.c")], ["values returned by thrd_get, exceptions raised by it"])
p("C10", "Event callbacks fire for the ready descriptors and events registered, only",
  "While a descriptor is registered with events_add, its current callback is called with its current argument, on a later events_once, whenever the descriptor is ready for an event it asked for (read, write or both, as last set with events_set_event), reporting only events that were asked for and were ready when the loop polled (a hang-up is reported to every descriptor). Once events_del has been called, and unless it is registered again, its callback is never called again, even when the descriptor number is reused; the registration queries always agree with what was last requested.",
  ["histories", "inputs"], "all sequences of add, set_event, set_callback, del, close and reuse, and readiness changes, over many descriptors, also from inside callbacks",
  "The tests use one or two sockets and a fixed sequence.",
  ["src/events.c", "src/epoll.c"], [("events_add, events_del, events_set_event, events_set_callback", "src/events.c"), ("events_update_internal, events_poll_once_internal", "src/epoll.c")],
  ["callback invocations (fd, event mask, argument) compared with poll(2)"])
p("C11", "A descriptor's timeout fires once, not early, and only while it is armed",
  "A descriptor registered or re-armed with a timeout of s seconds gets exactly one timeout callback, no earlier than s seconds (counted from the loop's time) and no later than one tick of the loop's timeout resolution plus one loop turn after that, unless the timeout is cleared, re-armed or the descriptor is unregistered first, after which the old deadline never fires. Timeouts of different descriptors never disturb each other, whatever their numbers and deadlines.",
  ["histories", "inputs"], "all sequences of arming, re-arming, clearing and passing of time over many descriptors",
  "The one test arms one descriptor and waits in real time.",
  ["src/events.c"], [("events_set_timeout, events_handle_timeout_internal", "src/events.c")], ["timeout callbacks against a model, under a virtual clock"])
p("C12", "Timers fire once per arming, not early, in deadline order",
  "A timer created with events_actor calls its function exactly once, no earlier than its delay, in the order of deadlines (one timer a turn of the loop), and with its argument; a timer re-armed in its callback with events_repeat_actor fires again after the new delay, and so on until its function clears it (events_clear_actor) or does not arm it again, and then no more. The loop counts as running exactly as long as timers (or descriptors) are outstanding.",
  ["histories", "schedules"], "all sets of timers, delays, repeats and clears",
  "The one test has a single timer.",
  ["src/events.c"], [("events_actor, events_repeat_actor, events_clear_actor, events_execute", "src/events.c")], ["timer callbacks against a model, under a virtual clock", "events_is_running"])
p("C13", "Each signal registered on the loop reaches its own handler",
  "A signal registered with events_add(EVENTS_SIGNAL) calls the handler registered last for it, once for each delivery, with that signal number and its argument, and no other handler, whichever thread takes it; after its handler unregisters it with events_del the default action is back. What was interrupted finds its errno as it was. The loop it was registered on counts as running until then, and descriptors of the same number are not affected.",
  ["histories"], "all sequences of registering, raising and unregistering of several signals",
  "No stable test covers signal events.",
  ["src/os_unix.c", "src/events.c"], [("events_add_signal, events_del_signal, events_sig_handler", "src/os_unix.c"), ("events_add, events_del", "src/events.c")], ["handler invocations (signal, argument)"])
p("C14", "Stream I/O between tasks delivers every byte once, in order",
  "Over TCP, Unix domain sockets, pipes and socket pairs, the bytes a task sends with async_write arrive at the peer's async_read in order, with none lost, duplicated or changed, for every message size, chunking and buffer pressure. async_write returns only after all bytes were accepted or with an error, async_read returns at least one byte, 0 at end of stream only, or an error, and neither blocks other tasks of the thread; one task may read from a descriptor while another writes to it. async_connect and async_accept give non-blocking sockets of connections that exist, each one once, accept with the address of the peer; a failed connection is reported with its errno.",
  ["inputs", "schedules", "fault_sequences"], "all sizes, chunkings, speeds and numbers of concurrent connections",
  "The tests exchange one five-byte message per connection.",
  ["src/async_io.c", "src/async_uds.c", "src/events.c"], [("async_read, async_write, async_connect, async_accept, async_bind", "src/async_io.c"), ("uds_bind, uds_connect, uds_accept", "src/async_uds.c"), ("async_wait, wait_cb", "src/events.c")],
  ["bytes received against bytes sent, progress of a ticking task"])
p("C15", "Datagrams arrive whole, with their sender, and replies go back to it",
  "Every datagram received with udp_recv or async_recvfrom is byte for byte one datagram that was sent to that socket, with its exact length; on the loopback none is lost or duplicated while the socket buffer has room. udp_send on a received packet reaches the sender of exactly that packet, whatever packets arrived in between.",
  ["inputs", "schedules"], "all datagram sizes and interleavings of several peers",
  "The test exchanges one datagram with one peer.",
  ["src/async_udp.c"], [("udp_bind, udp_to, udp_recv, udp_send, async_sendto, async_recvfrom", "src/async_udp.c")], ["payload, length and origin of each datagram"])
p("C16", "fs_ operations have the effect and result of the system calls they stand for",
  "Each fs_ operation (open, read, write, close, stat, fstat, access, mkdir, rmdir, unlink, rename, chmod, touch, exists, filesize, readfile, writefile, copyfile, sendfile the buffered stream calls, and streams and pipes to commands by promise) leaves the file system in the state, and gives the result and errno, that the corresponding POSIX operation would, for every path and content, any number of tasks at once, without blocking other tasks; fs_writefile replaces the contents, fs_readfile gives them (nothing for an empty or unreadable file), fs_touch creates a file and leaves an existing one. Errors of one operation never show up in another.",
  ["inputs", "histories", "schedules"], "all sequences of file operations and contents, from many tasks",
  "The tests cover one open/read and one error.",
  ["src/async_io.c", "src/future.c"], [("fs_*", "src/async_io.c"), ("queue_work, promise_set", "src/future.c")], ["results, errno, contents of a scratch directory"])
p("C17", "Exceptions reach the nearest matching handler; finally always runs once",
  "A thrown exception (throw, panic, rethrow, or a signal turned into one) passes control to the nearest enclosing try, in call order, whose catch, catch_any or catch_if accepts it, with its name and message, skipping everything in between. Each finally block entered runs exactly once whether or not something was thrown or caught, an exception not caught passes on after it, and code after a try without an uncaught exception continues normally.",
  ["programs"], "all nestings of try/catch/finally, throws, rethrows and throws inside handlers, at any depth, in the main thread and in tasks",
  "The tests cover seven fixed shapes.",
  ["src/except.c"], [("ex_throw, try_start, try_catching, try_finallying, try_next, try_rethrow", "src/except.c")], ["trace of executed blocks against a reference interpreter"])
p("C18", "Deferred cleanups run exactly once, in reverse order, at scope exit",
  "Every cleanup registered with defer, deferring or fence runs exactly once with its own argument, after everything registered later in the same scope, when the guard section (outside of one, the task or the main program) that registered it ends, whether it ends normally or by an exception, also one that ends the program, and never before; what a task registers with defer_free is freed when the task ends. A cleanup that recovers an exception (guard_caught) stops it there; otherwise it passes on to the enclosing guard or try. guard_message tells a cleanup of the exception that ends its section and of none handled before. protected cleans up its pointer, if not null, exactly when an exception passes it, newest first.",
  ["programs"], "all nestings of guard sections, functions and tasks, with any number of registrations, with and without exceptions",
  "The test covers one recursion of four levels with one cleanup each.",
  ["src/except.c", "src/events.c"], [("guard_init, guard_reset, scope_unwind, scope_deferred, fence, ex_unwind_stack", "src/except.c"), ("deferred, defer_free, deferred_unwind", "src/events.c")], ["trace of cleanup calls against a reference interpreter"])
p("C19", "Arrays behave as the sequence their operations describe",
  "After any sequence of append (all typed forms), remove, pop, shift, copy, reset, reserve, range and foreach operations, an array's size, capacity bound, order and element values are those of a plain list given the same operations, for any length, and no operation touches memory it does not own. Tuples are refused modification with an exception and stay unchanged.",
  ["histories", "inputs"], "all operation sequences and lengths, including growth past every capacity",
  "The test runs one fixed sequence on short arrays.",
  ["src/arrays.c"], [("data_append, data_append_item, data_remove, data_pop, data_shift, data_copy, data_reserve, rangeing", "src/arrays.c")], ["contents and size against a list model, AddressSanitizer, guard bytes"])
p("C20", "String and memory helpers compute what they document, within their bounds",
  "For every input, the string and memory functions (search, count, split, explode, join, replace, pad, repeat, trim, case conversion, comparison, number formatting, sorting) return exactly what their documentation describes (for delimiters that are not empty), always terminated, and neither read nor write outside their arguments and results.",
  ["inputs"], "all strings, delimiters, lengths and counts",
  "The tests check one or two ordinary inputs each.",
  ["src/arrays.c"], [("str_*, mem*, trim", "src/arrays.c")], ["results against reference implementations, AddressSanitizer/UBSan, guard pages"])
p("C21", "Base64 encoding and decoding are exact inverses",
  "str_encode64 produces the standard base64 text of its input, str_decode64 of that text, given room for it, gives back exactly the original text, and str_is_base64 accepts it; for every length and content, without exceeding the destination. Text that is not base64 never makes decoding write beyond the destination size given.",
  ["inputs"], "all inputs, lengths and destination sizes",
  "No stable test covers more than a sample.",
  ["src/arrays.c"], [("str_encode64, str_decode64, str_is_base64", "src/arrays.c")], ["results against a reference codec, AddressSanitizer"])
p("C22", "parse_uri and pathinfo split every text into its components, safely",
  "parse_uri and parse_uri_ex give for every URL exactly the scheme, user, password, host, port, path, query and fragment it contains (control characters replaced by '_'), or reject it, identically in both forms; pathinfo gives the directory, its last component, the extension and file name of every path. No text, however malformed, makes them access memory outside it, leak or crash.",
  ["inputs"], "all texts",
  "The tests parse a few well formed URLs.",
  ["src/arrays.c"], [("parse_uri, parse_uri_ex, uri_free, pathinfo", "src/arrays.c")], ["components against a reference parser, AddressSanitizer/UBSan"])
p("C23", "Spawned processes get their arguments and report output and exit exactly",
  "spawn, spawn_cgi and exec start the given program exactly once with exactly the given arguments and environment; everything the child writes to its standard output reaches the output callback in order and complete, and the exit callback is called exactly once, after that, with its exit status or terminating signal. spawn_is_finish turns true only then, and other tasks keep running meanwhile. exec_wait gives the exit status of a process started with exec, or ETIMEDOUT after the given time while it runs. No descriptor is left open, closed, or inherited by the process in excess.",
  ["inputs", "schedules", "fault_sequences"], "all arguments, output sizes and timings, exit codes and signals, several children at once",
  "The tests run one child with a few lines of output and exit code 0.",
  ["src/async_io.c", "src/os_unix.c"], [("spawning, spawn, spawn_cgi", "src/async_io.c"), ("os_exec_info, exec, exec_info, exec_wait", "src/os_unix.c")], ["callback arguments against what the child did"])
p("C24", "Directory watching reports every change, and only changes that happened",
  "While a directory is watched (events_watch, fs_events), each file created, modified, removed or renamed in it or in a directory below it is reported, once and in order, to the handler given for it, with the matching kind and name and the path of the directory, and nothing is reported that did not happen. Directories made or moved there are watched too, removed ones no longer. Several trees can be watched, and one ended while the others go on. After the watch is removed no more reports come and no descriptor is left, and events_is_watching and the watch count agree with the directories watched. The inotify functions without a loop give what the system's give, and inotify_next visits every entry read.",
  ["histories"], "all sequences of changes in watched directories",
  "The only test for it fails or is unstable here.",
  ["src/os_unix.c", "src/events.c", "src/epoll.c"], [("inotify_handler, inotify_add_watch, inotify_rm_watch, inotify_close", "src/os_unix.c"), ("events_watch, events_remove, events_del_watch, fsevents_task, fsevents_stop", "src/events.c"), ("fs_events, fs_events_cancel", "src/async_io.c"), ("inotify_next, fs_events_path", "src/os_unix.c")], ["handler invocations (kind, name) against the changes made"])
p("C25", "The allocator never hands out overlapping, misaligned or moved-away memory",
  "Blocks returned by the allocator are aligned as requested (16 bytes by default, up to 32 KB), at least as large as asked, and never overlap another live block; a block keeps its contents until it is freed, reallocation keeps the common prefix, zeroed allocation is zero. This holds for every size and for blocks freed or reallocated by other threads than the one that allocated them, including after that thread ended.",
  ["inputs", "schedules", "histories"], "all sizes, alignments, operation sequences and thread interleavings",
  "No test addresses the allocator.",
  ["src/rpmalloc.c"], [("rpmalloc, rpcalloc, rprealloc, rpaligned_alloc, rpfree, thread heaps", "src/rpmalloc.c")], ["address ranges and content patterns of live blocks"])
p("C26", "The work deque gives every pushed task to exactly one taker",
  "Every item pushed on a work deque by its owner is obtained exactly once, by the owner's take or by some thread's steal, never lost, duplicated or invented, while owner and thieves run concurrently and the deque grows. Without concurrency takes are last-in first-out and steals first-in first-out.",
  ["schedules"], "all interleavings of one owner and several thieves, through growth",
  "No test exercises the deque directly or under contention.",
  ["src/deque.c"], [("deque_push, deque_take, deque_steal, deque_resize", "src/deque.c")], ["items pushed against items obtained"])
p("C28", "Network addresses are parsed and formatted faithfully",
  "Every valid numeric address text (IPv4 or IPv6, with or without port, with or without scheme) gives exactly the address family, bytes and port it denotes, formatting an address gives text that parses back to the same address, and invalid text is rejected. No text makes parsing access memory outside it.",
  ["inputs"], "all texts and addresses",
  "No stable test covers address parsing.",
  ["src/async_io.c", "src/arrays.c"], [("async_parse_addr, async_sockaddr_str, async_inet_pton", "src/async_io.c"), ("str_parseip", "src/arrays.c")], ["results against inet_pton/inet_ntop"])
p("C29", "Command line options are recognised exactly",
  "For every argument vector, getopt_has recognises exactly the flags present and getopts returns exactly the value that belongs to the matched flag (the next argument, the part after '=', or the flag itself for boolean ones); in ordered mode positional arguments are returned in order, each once.",
  ["inputs"], "all argument vectors and flag sets",
  "The test checks one argument vector.",
  ["src/getopt.c"], [("getopt_has, getopts, getopt_message_set, getopt_arguments_set", "src/getopt.c")], ["return values against a model"])
p("C30", "A program started with events_start runs to its end and shuts down cleanly",
  "events_start runs the main task, with its argument, and every task it creates to completion and then returns 0, with all threads of the pools ended and all descriptors closed, for every number of cores and any amount of work submitted to the pools; so do events_init, events_init_pool or events_create, async_run, events_destroy and events_deinit, and a program may do this more than once. events_create_future and events_create_pool start one thread for the loop they are given, as long as there are no more loops than cores; events_create_pool reports EINVAL beyond. Loops can be created, used and destroyed, next to each other and on different threads, without affecting each other: a descriptor's or timer's function is called only by a turn of its own loop, events_once and events_is_running tell what that loop has, loops have different ids, and the end of one is not the end of another.",
  ["programs", "configurations", "schedules"], "all workloads and core counts",
  "The tests run one shape and ignore the shutdown.",
  ["src/events.c", "src/epoll.c", "src/deque.c"], [("events_start, events_init_pool, async_run, events_deinit", "src/events.c"), ("events_create, events_destroy", "src/epoll.c"), ("deque_destroy", "src/deque.c")], ["process exit status, completion counters"])
p("C31", "Sustained work does not leak memory or descriptors",
  "Memory and descriptors in use depend on the work outstanding, not on the work done: repeating any cycle of tasks, task groups, generators read to their end, thread jobs, futures, timers, descriptor registrations, sockets, files, processes, watches, loops, exceptions and deferred cleanups leaves the same amount in use after each round, at the latest when the tasks that did the work have ended (results of tasks, which stay readable, excepted), and no block is freed twice or written after it was freed.",
  ["histories"], "all repetitions of the public operations",
  "No test repeats an operation or looks at memory.",
  ["src/events.c", "src/future.c", "src/except.c", "src/arrays.c"], [("task_delete, deferred_unwind, promise_free, data_delete, scope_unwind", "src/events.c")], ["allocator ledger (live blocks, guard bytes, poison of freed blocks), /proc/self/fd"])
p("C32", "Spin locks exclude and atomic operations are atomic",
  "At most one thread at a time is between atomic_lock and atomic_unlock of the same lock, whatever it wrote there is seen by the next owner, and a test-and-set of a held flag fails without waiting. The atomic read-modify-write operations lose no update and compare-and-swap succeeds exactly when the expected value was present.",
  ["schedules"], "all interleavings of contending threads",
  "No test runs contending threads.",
  ["include/catomics.h"], [("atomic_lock, atomic_unlock, atomic_flag_test_and_set, atomic_fetch_*, atomic_cas", "include/catomics.h")], ["owner counters, sums, ThreadSanitizer"])
p("C33", "Thread exit codes, timeouts and thread-local values are each thread's own",
  "os_create runs the function once with its argument, os_join with a timeout returns its exit code once it has ended and reports ETIMEDOUT while it runs, and nothing else. Thread-local variables and keys hold for each thread exactly what that thread stored last, start empty in each new thread, and a key's destructor runs once for each thread that left a value.",
  ["schedules", "histories"], "all numbers of threads and interleavings",
  "The tests use one thread.",
  ["src/os_unix.c", "include/future.h"], [("os_create, os_join, os_tls_*", "src/os_unix.c"), ("thrd_local, thrd_static", "include/future.h")], ["return codes and values per thread"])
p("C34", "Lookups of names by tasks give what the system gives, each task its own",
  "async_getaddrinfo and async_getnameinfo give exactly the status and the addresses or texts that getaddrinfo and getnameinfo give for the same arguments, and async_gethostbyname and gethostbyname_ip the host's name and addresses, for every name, service, address, flag and buffer size, while any number of tasks look up others at the same time; a host looked up stays as it was until the task ends, whatever is looked up after it, and other tasks go on during a lookup.",
  ["inputs", "schedules"], "all names, services, addresses and flags, from any number of tasks at once",
  "No stable test looks anything up.",
  ["src/async_io.c"], [("async_getaddrinfo, async_getnameinfo, async_gethostbyname, async_inet_pton", "src/async_io.c")], ["results against getaddrinfo, getnameinfo and gethostbyname_r"])

p("C35", "Named pipes, and queries and settings of descriptors, do what they say",
  "mkfifo makes a named pipe of the given mode where mkfifo_name tells, or fails if there is one; open by its name gives descriptors of it, and what is written to it is read from it, in order, complete, by read, callbacks and async_read. However many named pipes there are, read, close and event callbacks of any other descriptor use that descriptor and nothing else. events_fd_type tells what a descriptor is, events_set_nonblocking and events_set_blocking change that one flag, events_tcp_timeout sets both timeouts of a socket for every number of milliseconds, and events_get_target_data gives what was last set for that descriptor.",
  ["inputs", "histories"], "all sequences of making, opening, reading, writing and closing pipes and other descriptors",
  "The stable tests make no named pipe and set no timeout of a socket.",
  ["src/os_unix.c", "src/events.c"], [("os_mkfifo, os_open, os_read, os_close, events_new_fd", "src/os_unix.c"), ("events_fd_type, events_set_blocking, events_tcp_timeout, events_set_target_data", "src/events.c")], ["bytes of every channel, and every descriptor's state, against a model and the system calls"])

p("C36", "A program doing a bit of everything, everywhere, gets its results and ends well",
  "In a program started with events_start, exceptions, guards, signals as exceptions, deferred functions, arrays, ranges and text functions give the same results in the main task, in other tasks, in tasks of other threads, in jobs and in futures, and so do generators, delays, groups, jobs, futures, files, sockets, lookups, child processes and timers in tasks of any thread, whatever else goes on at the same time. When the main task is done the program ends, and with the exit status it chose; so it does after exit() anywhere, and an exception nothing catches, or a panic, ends it with status 1 after the deferred functions of its thrower ran once each.",
  ["programs", "schedules"], "all programs made of these pieces, in all places and all numbers, at once or one after the other",
  "Each stable test does one thing, in one place, and no stable test mixes threads of tasks, jobs and futures.",
  ["src/events.c", "src/except.c", "src/future.c", "src/async_io.c"], [("__thrd_wrapper, __future_wrapper, events_start, go", "src/events.c"), ("scope_init, scope_destroy, scope_unwind", "src/except.c"), ("_thrd_wrapper, thrd_async, queue_work", "src/future.c")], ["the result of each piece against its closed form, the exit status of the process"])

if __name__ == "__main__":
    assert all(len(x["title"]) <= 80 for x in P), [x["id"] for x in P if len(x["title"]) > 80]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P))
