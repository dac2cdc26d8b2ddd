prop("C01", "Parallel evaluation equals sequential evaluation",
     "The value (or failure) of any expression is the same whatever the number of worker threads the runtime was started with and however they are scheduled. "
     "This includes order, nulls, types and grouping of the result, and the names visible to parallel code.",
     ["inputs", "configurations", "schedules"], "all data sets above and below the splitting thresholds, all queries and functions, 1 to many executors, all interleavings of their memory accesses",
     "Tests run one executor count on small vectors that never split; the quantifiers over executor count, chunk boundary and schedule are untouched.",
     ["core/pool.c", "core/aggr.c", "core/index.c", "core/group.c", "core/math.c", "core/iter.c", "core/sort.c", "core/filter.c", "core/query.c", "core/eval.c"],
     [("splitting of a vector into chunks", "core/pool.c pool_split_by, pool_chunk_aligned, pool_chunks_count"), ("partial aggregation and merge", "core/aggr.c PARTED_MAP / AGGR_COLLECT"),
      ("parallel grouping", "core/index.c index_group_distribute, index_group_list_radix"), ("parallel map", "core/iter.c map_unary and friends"), ("scope handed to executors", "core/eval.c")],
     observe=["value printed or compared after evaluation"])
prop("C02", "Parallel runs execute every task exactly once",
     "Every task given to a parallel run is executed exactly once, its result is returned at the position it was added, and the run completes whatever the scheduling of the workers. "
     "A task that fails makes the run return that failure with its details; no run hangs, loses or repeats work, also when the queue has to grow or runs follow each other closely.",
     ["schedules", "histories"], "all interleavings of main and workers, spurious wakeups, any sequence of batches of any size incl. larger than the queue, failing tasks, nested parallel maps",
     "A test observes the one schedule the machine happened to produce; lost wakeups, late workers and queue growth under load need particular interleavings.",
     ["core/pool.c", "core/thread.c", "core/atomic.c", "core/iter.c"],
     [("lock-free task and result queues", "core/pool.c mpmc_push/mpmc_pop"), ("run state and wakeups", "core/pool.c pool_run, executor_run"), ("queue growth", "core/pool.c pool_add_task")],
     [("pool->state", "run in progress / stopped", "core/pool.h")], ["list returned by a parallel run"])
prop("C03", "Symbols are interned one to one under concurrency",
     "Any number of threads interning any texts at the same time get the same identifier for equal texts and different identifiers for different texts, and every identifier gives back exactly its text, then and for the rest of the process.",
     ["schedules", "inputs"], "all interleavings of concurrent interning, overlapping text sets, texts that collide in the hash table, many symbols (growth of the text area)",
     "Tests intern from one thread; duplicate insertion, half-published nodes and area growth need concurrent interleavings.",
     ["core/symbols.c", "core/atomic.c"], [("bucket locking and publication", "core/symbols.c symbols_intern"), ("growth of the text area", "core/symbols.c")],
     observe=["symbol identifiers and texts"])
prop("C04", "Live memory blocks never overlap and keep their contents",
     "A block handed out by the allocator overlaps no other live block and keeps its contents until it is released or resized, whichever threads allocate, resize, release and hand over blocks. "
     "Memory released can be used again: the allocator neither loses blocks nor hands one out twice, over any history including worker heaps borrowed and merged around parallel runs.",
     ["histories", "schedules"], "all sequences of allocate/resize/release of any sizes by main and worker threads, with hand-over between them and garbage collection in between",
     "Tests allocate what a few expressions need; overlap after coalescing, foreign releases and merges needs long particular histories.",
     ["core/heap.c", "core/pool.c"], [("buddy free lists, split and coalesce", "core/heap.c heap_alloc/heap_free"), ("foreign blocks", "core/heap.c foreign_blocks"), ("borrow and merge of worker heaps", "core/heap.c heap_borrow/heap_merge")],
     [("heap->freelist/avail/slabs", "free blocks per order", "core/heap.h")], ["addresses and contents of blocks", "memory statistics"])
prop("C05", "Evaluation releases exactly what it allocates",
     "Evaluating an expression any number of times, successfully or with an error, sequentially or in parallel, leaves behind no memory once its value is dropped, and no value is used or released after its last reference is gone.",
     ["programs", "histories", "schedules"], "all expressions incl. failing ones, deep recursion, nested parallel maps; all interleavings of reference count updates",
     "Tests look at values, not at what stays allocated; leaks on error paths and races on reference counts do not change a test's output.",
     ["core/rayforce.c", "core/rc.h", "core/eval.c", "core/error.c", "core/heap.c", "core/math.c", "core/aggr.c"],
     [("reference counts, atomic inside parallel runs", "core/rayforce.c clone_obj/drop_obj"), ("stack unwinding after an error", "core/eval.c")],
     observe=["live allocations before and after evaluation", "accesses to released memory"])
prop("C06", "Every request gets its own response",
     "A synchronous request over a connection returns the value that evaluating that request on the other side gives, and no other: whatever sizes the messages have, however the network cuts, delays or interleaves them, "
     "however many clients the server has, and also when the server pushes messages, asks the client back or relays to another process in the meantime. A failing request returns an error and leaves the connection usable.",
     ["inputs", "schedules", "histories"], "all values that can be sent, all interleavings of any number of clients, all fragmentations of the byte streams, requests nested in both directions, relayed and mixed with pushes and asynchronous messages",
     "A test on loopback sees one fragmentation, one client and full buffers never; mixed-up responses need interleavings of partial reads, pending writes and nested requests.",
     ["core/ipc.c", "core/epoll.c", "core/poll.c", "core/sock.c", "core/serde.c", "core/io.c"],
     [("waiting for the response of a request", "core/ipc.c ipc_send, core/epoll.c poll_block_on"), ("assembling messages from the stream", "core/ipc.c ipc_read_header/ipc_read_msg"), ("pending output", "core/poll.c poll_send_buf, core/epoll.c poll_send"), ("serialisation", "core/serde.c")],
     observe=["value of (write h msg)"])
prop("C07", "Messages of a connection are processed exactly once and in order",
     "The messages one side sends over a connection, synchronous and asynchronous, are processed by the other side exactly once and in the order sent; if the connection breaks, what was processed is a prefix of what was sent and includes everything that was acknowledged. "
     "Other connections are not affected, and a new connection starts from nothing.",
     ["histories", "schedules", "fault_sequences"], "all sequences of messages of any sizes, bursts that fill the buffers, server pushes; connections reset, refused, stalled or closed at any point; clients dying at any point",
     "Loss, duplication or reordering appears when output is queued behind full windows or a connection breaks between two partial sends, which tests on loopback never produce.",
     ["core/ipc.c", "core/epoll.c", "core/poll.c", "core/sock.c"],
     [("queue of pending output per connection", "core/poll.c poll_send_buf"), ("edge-triggered reading and writing", "core/epoll.c poll_run"), ("accounting of partial sends and receives", "core/epoll.c poll_send/poll_recv")],
     [("selector->tx.buf", "chain of unsent buffers", "core/poll.h")], ["effects of messages in the receiver"])
prop("C08", "A peer can send anything without harming the server",
     "Whatever bytes a peer sends, in whatever pieces, and whenever it goes away, the server keeps running, keeps accepting connections, answers its other clients correctly and without delay, and keeps nothing (memory, descriptors) for peers that are gone. "
     "A well-framed message whose contents are damaged or meaningless is answered with an error or ends that connection only.",
     ["inputs", "histories", "fault_sequences"], "all byte sequences and cuts of them, all mutations of valid messages, any number of misbehaving peers at once",
     "Malformed lengths, types and nesting are an unbounded input space and their effect (over-reads, leaks, spinning) shows only in memory accounting or for other clients.",
     ["core/ipc.c", "core/serde.c", "core/epoll.c", "core/eval.c", "core/parse.c", "core/cc.c"],
     [("header and handshake checks", "core/ipc.c ipc_read_header/ipc_read_handshake"), ("deserialisation", "core/serde.c de_raw"), ("evaluation of received objects and text", "core/ipc.c ipc_process_msg")],
     observe=["responses to other clients", "process alive", "descriptors and live allocations"])
prop("C09", "A connection is opened once, closed once and gives back everything",
     "For every connection .z.po runs at most once, when it is ready, and .z.pc exactly once after that, when it is gone, whichever side ended it and however, with .z.w equal to the handle they are given. "
     "A handle denotes one connection from opening to closing; once closed it cannot be used, closing it again harms nothing else, and no descriptor, registration or memory is left behind on either side.",
     ["histories", "schedules", "fault_sequences"], "all orders of opening, using and closing by client, server, handlers and the network, incl. from within .z.po/.z.pc and while a response is awaited; aborted handshakes; dying processes",
     "Double closes, callbacks on stale selectors and leaked descriptors need two endings of one connection to coincide.",
     ["core/ipc.c", "core/poll.c", "core/epoll.c", "core/freelist.c", "core/sock.c", "core/io.c"],
     [("registration and deregistration", "core/epoll.c poll_register/poll_deregister"), ("callbacks", "core/ipc.c ipc_call_usr_cb, ipc_on_close"), ("handles", "core/freelist.c, core/poll.c poll_get_selector")],
     [("poll->selectors", "handle -> connection", "core/poll.h")], [".z.po/.z.pc events, .z.w, descriptors"])
prop("C10", "Waiting is bounded and late answers go to nobody",
     "Opening a connection with a timeout ends within that timeout, and a synchronous request ends with an error within bounded time once its peer shows no sign of life, whatever part of an answer it has sent, also when it does not read. A peer that keeps making progress is waited for. "
     "An answer that arrives after its request has failed is never delivered to another request; a connection given up stays closed. A server waiting for such a peer serves its other clients again afterwards. Changes of the wall clock do not matter.",
     ["histories", "schedules", "fault_sequences"], "all behaviours of the peer over time (silent, slow, trickling, pushing, asking back, hanging up, resetting, not reading), interrupted system calls, clock jumps; direct and relayed calls",
     "Tests do not wait for timeouts, and the mix-up of a late answer needs a particular timing of silence, answer and next request.",
     ["core/epoll.c", "core/ipc.c", "core/sock.c", "core/io.c"],
     [("waiting with a deadline", "core/epoll.c poll_block_on"), ("connect and handshake timeout", "core/sock.c sock_open, core/ipc.c ipc_open"), ("giving a connection up", "core/ipc.c ipc_send")],
     observe=["duration and value of (hopen ..) and (write h ..)"])
prop("C11", "What is saved is what is loaded",
     "A vector, list or table stored with set or set-splayed is what get or get-splayed returns, in the same process and in one started later: same values, nulls, types and order, also when it is stored over an older object (or onto the one it was loaded from), "
     "when it shares a symbol file with others, and when transfers are short or interrupted. Loaded values behave in expressions as the originals do; using, changing or dropping them changes no file. Loading and dropping keeps no memory, mapping or descriptor.",
     ["inputs", "histories", "fault_sequences"], "all vectors, lists and tables of all types and sizes around page boundaries, all orders of saving, loading, changing and dropping, all short and interrupted reads and writes",
     "Tests store a few small objects once through a file system that never transfers less than asked for.",
     ["core/binary.c", "core/unary.c", "core/io.c", "core/serde.c", "core/fs.c", "core/mmap.c", "core/fdmap.c", "core/vary.c"],
     [("layout of stored objects", "core/binary.c binary_set, core/unary.c ray_get"), ("tables in parts and symbol files", "core/io.c io_set_table_splayed/io_get_table_splayed"), ("mapped objects and their descriptors", "core/fdmap.c, core/rayforce.c drop_obj")],
     observe=["values loaded, results of expressions over them, descriptors, mappings, live allocations"])
prop("C12", "Damaged files do no harm",
     "A stored object whose files are cut off, overwritten, extended, exchanged, empty, missing or lengthened is loaded, or refused with an error; whatever it turns out to be can be looked at, formatted, serialized and computed with. "
     "Nothing of this ends or hangs the process, reads or writes outside the data it was given, changes any other object in memory or on disk, or leaves descriptors, mappings or memory behind; an object that is whole again loads with the value it was saved with.",
     ["inputs", "fault_sequences", "histories"], "any damage of any file of any stored object (vectors, lists, enums, tables in one file, in parts and by date, csv and text files), any sequence of damages, loads and uses, failing calls in between",
     "Tests load files the program has written itself; a damaged one is an arbitrary one, and what it does to objects loaded later shows only in a sequence.",
     ["core/unary.c", "core/io.c", "core/serde.c", "core/items.c", "core/binary.c"],
     [("checks of a mapped object", "core/unary.c ray_get"), ("items of a mapped list", "core/items.c"), ("bounds of a serialized object", "core/serde.c de_raw"), ("reading csv", "core/io.c ray_read_csv")],
     observe=["crash, hang, accesses outside of allocations and mappings, values of all other objects, open descriptors, mappings, live allocations"])
prop("C13", "A save replaces an object completely or leaves it",
     "When saving fails (an error of the disk, no space, a refused call) or the process dies in the middle, the object is afterwards the old one or the new one, completely (for a table kept in parts: each column), never a mixture or a torn one; "
     "a save that reported success is the one that is found, one that reported an error left the old one. Other objects, also those that share its symbol file, are never affected, values loaded before stay what they were, and no files are left behind.",
     ["crash_points", "fault_sequences", "histories"], "a crash or a failing call at any system call of any save, any sequence of saves of several objects, restarts in between",
     "Tests cannot fail or stop a process at a chosen system call.",
     ["core/binary.c", "core/io.c", "core/fs.c"],
     [("replacing a file as a whole", "core/io.c io_file_save"), ("order in which the parts of a table are stored", "core/io.c io_set_table_splayed"), ("two files of a list", "core/binary.c binary_set_list")],
     observe=["objects loaded after a failure or restart, list of files"])
prop("C14", "A journal is replayed as it was written",
     "Replaying a journal evaluates exactly the items whose write was reported as done, once each and in order, across any number of restarts, reopenings and handles of the file; an item whose write failed is not there, "
     "one that was being written when the process died is there completely or not at all. A torn end does not keep what is before it from being replayed, and the counts that (read h) returns are those of what happened.",
     ["crash_points", "fault_sequences", "histories"], "a crash, short or failing transfer at any point of any append, any sequence of appends, replays, reopenings and restarts",
     "Tests write and read a journal in one go; torn appends and what is appended after a failed one need a crash or a failing write at a particular byte.",
     ["core/io.c", "core/serde.c", "core/fs.c"],
     [("appending an item", "core/io.c ray_write"), ("replay", "core/io.c ray_read"), ("bounds of an item", "core/serde.c de_raw")],
     observe=["effects of replayed items, counts returned by (read h)"])
prop("C15", "A table on disk answers queries as the same table in memory",
     "A query over a splayed table, or over one kept in parts by date (get-parted), gives what the same query gives over the same rows in memory: filters on the date and on any column, also combined, rows selected, counts, and first, last, min, max, sum, avg and med of columns, "
     "for all rows, for those selected, and for each date, whether a condition takes all rows of a part, some or none. The number of workers, the order they run in, and short or interrupted reads of the files do not matter.",
     ["inputs", "schedules", "fault_sequences"], "any columns (integers, floats, dates, times, symbols, with nulls), any lengths of the parts, any conditions and aggregates out of a grammar, worker counts, schedules, short transfers",
     "Tests use parts of one length, conditions that take whole parts or half of one, and never the same query over both kinds of table.",
     ["core/filter.c", "core/aggr.c", "core/query.c", "core/io.c", "core/items.c", "core/math.c", "core/ops.c", "core/index.c"],
     [("conditions over parts", "core/filter.c filter_collect, core/items.c ray_where"), ("aggregates over parts", "core/aggr.c"), ("the table by date", "core/io.c io_get_table_parted")],
     observe=["results of queries over get-parted and get-splayed tables and over tables in memory"])
prop("C16", "Changes of tables are whole, in order, and touch only what they name",
     "insert, upsert, update, alter and set, sent by any number of clients at the same time, change tables as if they ran one after another in the order the server took them up: rows are added or replaced by their keys, columns keep their types and one length, missing items become nulls. "
     "A request that fails changes nothing, and no request changes a value that it does not name: tables, columns and vectors that once were equal or the same object (set b a, a column taken out of a table, a table in another table's place) keep their items. "
     "An answered request has been executed exactly once, one whose connection broke at most once, and reads see whole requests only.",
     ["inputs", "schedules", "histories", "fault_sequences"], "any histories of set, insert, upsert, update and alter in place and by value, over any column types, keys, nulls and lengths; any sharing of columns; clients, arrival orders, broken connections",
     "Tests run single statements on fresh tables; what goes wrong needs a history: columns shared with another table, a failure half way, a key given twice, a null among the keys, a type that only appears later.",
     ["core/update.c", "core/rayforce.c", "core/items.c", "core/index.c", "core/query.c", "core/ipc.c"],
     [("insert, upsert, update", "core/update.c"), ("copy on write", "core/rayforce.c cow_obj"), ("items set and added", "core/rayforce.c set_obj, push_raw"), ("keys", "core/index.c index_upsert_obj")],
     observe=["replies to every request, the order logged by the server, and all tables at the end"])

prop("C17", "Tables come back from text files as they were written",
     "A table written with write-csv and read back with read-csv and the types of its columns is the same table: same names, number and order of rows, values, nulls and types, whichever separator is chosen, whatever quotes and separators the fields hold, and however many workers take part. "
     "A text in the same format written by anyone else (line ends of either kind, with or without the last one, any size around page and batch boundaries) reads as the fields it holds; a field too few is an error and never another row's values. "
     "A write that fails or is interrupted says so, and a read that meets failing calls gives an error and never a part of the file.",
     ["inputs", "schedules", "crash_points", "fault_sequences"], "any column types, values, nulls, names, separators, quotes, line ends and file lengths; any number of workers and interleavings of them; failing, short and interrupted calls; crashes during a write",
     "Tests read a handful of small files; boundaries of pages, chunks of workers and buffers, symbols interned by several workers at once, and failing calls do not occur in them.",
     ["core/io.c", "core/string.c", "core/date.c", "core/time.c", "core/timestamp.c", "core/symbols.c", "core/fs.c", "core/mmap.c", "core/format.c"],
     [("reading", "core/io.c io_read_csv, parse_csv_lines, parse_csv_range"), ("writing", "core/io.c io_write_csv"), ("numbers from text", "core/string.c i64_from_str, f64_from_str"), ("dates and times from text", "core/date.c date_into_i32")],
     observe=["the table read back, compared column by column with the one written; results of failing reads and writes"])

prop("C18", "Timers fire when due, as often as asked, and leave time for everything else",
     "A timer of a running server fires first one interval after it was made and then once per interval, never early and not late while the server has time, exactly as many times as asked (without end for 0), and not once more after it has been cancelled, by a client, by its own callback or by another one's. "
     "The id that making it returned names it and no other timer, however many there are, and cancelling one leaves the others on time. "
     "A callback that fails, takes long, makes or cancels timers disturbs neither other timers nor requests, which are answered in bounded time; setting the system's clock changes nothing.",
     ["inputs", "schedules", "histories", "fault_sequences"], "any numbers of timers, intervals from nothing to months, repeats, orders of making and cancelling, callbacks that fail, block, cancel and create; clients' requests in between; jumps of the wall clock, interrupted waits",
     "Tests have no timers at all: what counts is the passing of time, which a test can neither wait for nor turn back; simulated time can do both.",
     ["core/chrono.c", "core/epoll.c"],
     [("timers", "core/chrono.c timer_add, timer_del, timer_next_timeout"), ("waiting", "core/epoll.c poll_run")],
     observe=["what the callbacks print, with the simulated time of it; answers to requests"])

prop("C19", "A server told to end ends, in time, and leaves nothing behind",
     "Whoever tells it and when - a client's request or message, a timer, the callback of an opened or closed connection, a signal at any moment, while it waits for others, with output queued, timers running and requests half received - the server ends within bounded time and with the status it was given (0 for a signal). "
     "Every open connection is closed, with its .z.pc run, the port is free for a successor at once, worker threads are joined, and all memory it ever took, mappings of files included, is given back. Clients that wait for it get an error in bounded time.",
     ["inputs", "schedules", "histories", "fault_sequences"], "any state of connections, queues, timers, workers, values and errors at any moment of the end; signals at any point, once or repeatedly",
     "Tests end a process by leaving main; the state in which a real server ends, its timing and what remains open are not among them.",
     ["core/epoll.c", "core/poll.c", "core/ipc.c", "core/runtime.c", "core/pool.c", "core/heap.c", "core/eval.c", "core/chrono.c"],
     [("the end", "core/epoll.c poll_run, poll_destroy, sigint_handler"), ("release", "core/runtime.c runtime_destroy"), ("workers", "core/pool.c pool_destroy"), ("memory", "core/heap.c heap_destroy")],
     observe=["status and time of the end; descriptors, mappings, live allocations and threads of the process afterwards; what callbacks print"])

prop("C20", "Values for which memory is refused live in swap files or give an error",
     "When the system refuses memory for a value, the value is kept in a file of the swap directory and every operation gives what it gives in memory. Such a file belongs to one value of one process: no other file is touched, its name never remains, its space and its descriptor are free again when the value is gone, and nothing is left whenever the process ends or dies. "
     "Where no file can be had either, the operation gives an error (for the smallest objects the process ends with status 1), variables keep their values, and when there is room again everything works as before.",
     ["inputs", "schedules", "histories", "crash_points", "fault_sequences"], "values of all types and sizes, up to four workers, refusal of memory at any request, failures of any step of making the file, and crashes at any system call",
     "Tests run with memory to spare; which request is refused and what fails then is a matter of the system.",
     ["core/heap.c", "core/mmap.c", "core/fs.c", "core/rayforce.c", "core/math.c", "core/items.c", "core/compose.c"],
     [("swap files", "core/heap.c heap_add_pool"), ("release", "core/heap.c heap_free, heap_remove_pool"), ("errors", "core/rayforce.c vector"), ("files", "core/fs.c fs_fopen_swap")],
     observe=["results of expressions with and without refusals; files, descriptors, mappings and allocations that remain"])

prop("C21", "No two draws of random values repeat: not by executors, not by processes",
     "GUIDs made by any executor of any process, at any time, differ from all others, and no two executors or processes draw the same sequence of random numbers; every random number lies in the range asked for.",
     ["schedules", "histories"], "one to three processes of one to eight executors that draw GUIDs and numbers at any moment, also in the same second",
     "A test draws in one thread of one process; whether executors that start together repeat each other depends on how tasks are spread.",
     ["core/ops.c", "core/compose.c", "core/guid.c"],
     [("generator", "core/ops.c ops_rand_u64"), ("guids", "core/guid.c guid_generate")],
     observe=["all GUIDs and numbers drawn in a run"])

prop("C22", "A value never changes unless it is changed by its own name",
     "Evaluating an expression changes no variable, no literal of a function and no value in use, whatever parts it shares with them; evaluated again it gives the same. A change in place through a name (set, alter, modify, insert, upsert, update, also of a function's argument) is seen through that name alone: "
     "every other variable, list, dictionary, table or running function that shares the value keeps it, and all results are what they would be if nothing were ever shared - with any number of executors.",
     ["inputs", "schedules", "histories"], "all sequences of expressions and in-place changes over numbers, lists of vectors, dictionaries, tables and functions that share parts, with one to six executors",
     "Whether an operand may be reused depends on how many names its value has by then; tests look at the result, not at the operands, and share little.",
     ["core/math.c", "core/iter.c", "core/update.c", "core/query.c", "core/rayforce.c", "core/eval.c", "core/items.c", "core/compose.c"],
     [("copy on write", "core/rayforce.c cow_obj"), ("reuse of operands", "core/math.c binop_map, unop_map"), ("items", "core/iter.c map_unary_fn, map_binary_fn, ray_fold, ray_scan"), ("changes", "core/update.c ray_alter, ray_modify, ray_insert, ray_upsert")],
     observe=["all variables before and after every operation; results held across later operations; results with and without sharing"])

prop("C23", "A process starts as it is told to, or ends and says so by its status",
     "Started with any arguments (executors, port, script, terminal, arguments for the user), a process either serves in full - it listens on its port and on no other, has executed its script, runs as many executors as told, shows the user's arguments to the program and answers requests - "
     "or it ends in bounded time with a status other than 0: when its arguments are wrong, its port is taken or is none, or memory, threads, descriptors or calls are refused at any point of its start. "
     "It never hangs, crashes or serves in part, leaves nothing behind when it ends in order, and ends with the code that (exit n) was given.",
     ["fault_sequences", "configurations", "schedules"], "all failing calls at any point of the start, all arguments, one to many executors and all schedules of their start",
     "Tests start the runtime once, with every call succeeding and without a port or a main program; what happens when one call of the start fails is never met.",
     ["app/main.c", "app/repl.c", "app/term.c", "core/runtime.c", "core/pool.c", "core/heap.c", "core/ipc.c", "core/sock.c", "core/epoll.c"],
     [("arguments", "core/runtime.c parse_cmdline, runtime_create"), ("executors", "core/pool.c pool_create, executor_run"), ("memory", "core/heap.c heap_create"), ("listener", "core/ipc.c ipc_listen"), ("end", "core/runtime.c runtime_destroy")],
     observe=["exit status and time; port; answers; number of executors; descriptors, mappings, blocks and threads left"])
prop("C24", "Source is executed once, whole and in order, however it is read",
     "The expressions given to the program as standard input, as a file, as files that load files, as a file followed by standard input, or typed at a terminal are executed once each, completely and in their order, however the text is cut into reads, lines and keystrokes and whatever reads are interrupted; "
     "text that cannot be read completely or is malformed has an exit status other than 0 and none of its expressions is executed. An error ends a file or standard input with status 1, but not a terminal session, and (exit n) ends with n.",
     ["inputs", "fault_sequences", "schedules"], "all programs, all ways of giving them, all cuts of the text into reads, interrupted and failing reads",
     "Tests evaluate strings in memory: reading from pipes, files and terminals, where text is cut anywhere and reads fail, is not tested at all.",
     ["app/main.c", "app/repl.c", "app/term.c", "core/fs.c", "core/io.c", "core/eval.c", "core/parse.c", "core/runtime.c"],
     [("standard input", "app/repl.c repl_create"), ("terminal", "app/term.c term_read"), ("files", "core/io.c ray_load"), ("evaluation", "core/eval.c ray_eval_str_line")],
     observe=["what the program prints, exit status; descriptors, mappings and blocks left"])

prop("N01", "Arithmetic, comparisons and casts mean what they say for every operand",
     "Arithmetic, comparison, rounding and casting of numbers and vectors of all types give the mathematical result of the type they yield; nulls yield nulls, an item of a vector gives what the atom gives, and no operand ends the process.",
     ["inputs"], "all operands of all types", "Values are sampled by tests.", ["core/math.c", "core/cmp.c", "core/cast.c"], [("dispatch by types", "core/math.c")], observe=["results of expressions"])
prop("N02", "What is printed reads back as the same value",
     "The text that format gives for a value is, read again, the same value, and parsing a text gives a value or an error for any text.",
     ["inputs"], "all values and texts", "Texts are sampled by tests.", ["core/parse.c", "core/format.c"], [("parser", "core/parse.c"), ("formatter", "core/format.c")], observe=["results of parse and format"])
prop("N03", "Joins, sorting, grouping and searching select the right rows",
     "left-join, inner-join, window-join, asc, desc, iasc, group, distinct, find and in give what their definition by rows gives.",
     ["inputs"], "all tables, keys and vectors", "Tables are sampled by tests.", ["core/join.c", "core/sort.c", "core/index.c", "core/query.c"], [("indices", "core/index.c"), ("sorting", "core/sort.c")], observe=["results of queries"])
prop("N04", "Dates, times and timestamps convert without loss",
     "Conversions between dates, times, timestamps and numbers follow the calendar and are inverse to each other within their range.",
     ["inputs"], "all dates and times", "Dates are sampled by tests.", ["core/date.c", "core/time.c", "core/timestamp.c"], [("calendar", "core/date.c")], observe=["results of conversions"])
