# per property: quick and thorough (max runs, wall seconds), sampling rule, probe names, technique, note
SEQ = "Assumes sequentially consistent memory: accesses of one thread are not reordered."
PROPS = {
 "C01": {"quick": (1200, 70), "thorough": (40000, 700), "rule": "Workload: generated data set and queries evaluated with one executor and with several.", "probes": ["query_error_results", "query_value_results"],
         "technique": "seeded thread schedules at memory-access granularity, differential oracle against the same expression with one executor", "note": SEQ},
 "C02": {"quick": (2400, 60), "thorough": (100000, 700), "rule": "Workload: batches of tasks and parallel maps through the pool.", "probes": ["max_tasks_inflight_sum", "queue_growth_runs"],
         "technique": "seeded thread schedules with stalls and spurious wakeups, exactly-once and ordering oracle over the task history, bounded-progress liveness", "note": SEQ},
 "C03": {"quick": (1600, 60), "thorough": (100000, 700), "rule": "Workload: overlapping sets of texts interned by concurrent tasks.", "probes": ["bucket_collision_runs"],
         "technique": "seeded thread schedules, bijection oracle over all identifiers handed out", "note": SEQ},
 "C04": {"quick": (2000, 60), "thorough": (100000, 700), "rule": "Workload: allocate/free/reallocate/hand-over sequences on main and worker threads.",
         "technique": "seeded histories and schedules, shadow-heap oracle (overlap, contents, accesses outside live blocks)", "note": SEQ},
 "C05": {"quick": (1600, 70), "thorough": (40000, 700), "rule": "Workload: generated queries, including failing ones, evaluated repeatedly with allocation accounting.",
         "technique": "seeded schedules, shadow-heap oracle (use after free, blocks left behind per evaluation)", "note": SEQ},
 "C06": {"quick": (5000, 60), "thorough": (60000, 700), "rule": "Workload: clients of one server (or of a relaying server and its upstream) making requests of all kinds.", "probes": ["responses_checked"],
         "technique": "whole processes (clients, server, upstream) in one simulated network with fragmentation, delays, short sends, full windows and interrupted calls; every response compared with local evaluation of the same request", "note": "Messages of a connection are not lost in these runs (C07 has the breaking ones); transfers are kept short against the program's own give-up time."},
 "C07": {"quick": (5000, 60), "thorough": (80000, 700), "rule": "Workload: numbered asynchronous and synchronous messages and server pushes over connections that break.", "probes": ["acknowledged_messages", "connections_broken", "logs_compared"],
         "technique": "simulated network with resets, refusals, stalls and client crashes; exactly-once prefix oracle over what the receiver recorded against what was sent per connection", "note": "TCP's own guarantees (order, no duplication within a connection) are the network model."},
 "C08": {"quick": (2000, 60), "thorough": (30000, 700), "rule": "Workload: scripts of malformed, truncated, mutated and interrupted byte streams from several peers, repeated in rounds, next to a well-behaved client.", "probes": ["good_requests", "peers_answered_after_damage", "peers_disconnected"],
         "technique": "simulated peers sending seeded corruptions of real messages; oracles: other client's answers and delays, crash/shadow-heap/use-after-free detection, descriptors and live allocations per round", "note": "Messages are not authenticated by design: text that is valid source is evaluated, so the scripts avoid names that end the process or write files."},
 "C09": {"quick": (6000, 60), "thorough": (80000, 700), "rule": "Workload: opening, using and closing connections from both sides, from handlers, twice, while waiting, with resets and dying clients.", "probes": ["handles_used", "closed_by_other_connection", "closed_while_waiting", "closed_with_messages_waiting"],
         "technique": "simulated network with resets, aborted accepts, refusals and process death; automaton over recorded .z.po/.z.pc events, descriptor and registration baselines, uniqueness of live handles", "note": ""},
 "C10": {"quick": (8000, 60), "thorough": (100000, 700), "rule": "Workload: calls to a peer that is silent, slow, trickles, pushes, asks back, hangs up or stops reading; directly and relayed.", "probes": ["opens_ok", "opens_failed", "requests_ok", "requests_failed"],
         "technique": "simulated time: scripted peers, signals, clock jumps; every call must end within a bound after the peer's last sign of life and responses must carry the number of their own request", "note": "Bound used: 30 s after the last byte from the peer; hopen: its timeout plus 2 s (not checked while signals keep interrupting it)."},
 "C11": {"quick": (4000, 50), "thorough": (60000, 700), "rule": "Workload: objects of all kinds saved, loaded, used, changed, saved again by several processes in turn.", "probes": ["saves", "values_loaded_and_compared", "expressions_over_loaded_values", "saved_onto_itself", "loaded_by_another_process"],
         "technique": "processes on a simulated file system with short, interrupted and (in part of the runs) failing calls; loaded values and expressions over them compared with the same in memory; descriptors, mappings, allocations per round", "note": ""},
 "C12": {"quick": (8000, 50), "thorough": (120000, 700), "rule": "Workload: stored objects damaged at random places, loaded, used, made whole again, several times over.", "probes": ["loaded_damaged", "refused", "value_differs", "undamaged_compared"],
         "technique": "simulated file system with torn, cut, overwritten, exchanged and missing files plus failing calls; every access of the program checked against live allocations and mappings, undamaged objects compared with their saved values, three identical rounds compared for descriptors, mappings and allocations", "note": "Damaged files replace the stored ones before a load; a file is not cut off beneath an existing mapping (the process would get SIGBUS from the kernel)."},
 "C13": {"quick": (6000, 50), "thorough": (100000, 700), "rule": "Workload: several objects saved again and again by processes that crash or meet failing calls, loaded by the next one.", "probes": ["old_version_found", "new_version_after_doubt", "mixed_columns", "refused_to_load"],
         "technique": "simulated file system with a crash or failure at any system call; every object found afterwards is compared with the versions saved (per column for tables in parts), set of files compared", "note": "Crash of the process, not of the machine: what was written to the file system survives (the program never calls fsync). A list kept in two files may be unreadable after a crash, never wrong."},
 "C14": {"quick": (40000, 40), "thorough": (150000, 700), "rule": "Workload: items appended to journals by processes that crash or meet failing calls, replayed by them and by the next one.", "probes": ["replays", "items_written", "writes_failed"],
         "technique": "simulated file system with short, torn and failing writes, full disk and crashes at any system call; exactly-once ordered-prefix oracle over the effects of the replay", "note": "What is appended behind a torn item is not reached by a replay (the program does not cut the torn tail when opening); the property says nothing about it and the scenario starts a new journal there."},
 "C15": {"quick": (40000, 45), "thorough": (150000, 700), "rule": "Workload: queries out of a grammar over a table in parts, splayed and in memory, with worker counts and short reads chosen at random.", "probes": ["parted_compared", "parted_both_fail", "splayed_compared", "splayed_both_fail", "grouped_compared", "grouped_both_fail"],
         "technique": "simulated file system and worker scheduling; differential oracle: the same query over the same rows in memory", "note": "A date column of a table in memory can not be grouped by, so the grouped reference uses its numbers; aggregates of dates and times over parts are numbers (the tests of the repository say so) and compared as such; (in column ..) over a column other than the date of a parted table, parts without rows, and the first or last of symbols with nulls are left out: both sides differ by design."},
 "C16": {"quick": (40000, 45), "thorough": (150000, 700), "rule": "Workload: requests of several clients out of a grammar (set, insert, upsert, update, alter, failing variants of each, reads) over tables and vectors that share columns.", "probes": ["changes_applied", "reads_compared", "failing_requests", "final_tables_compared"],
         "technique": "simulated network of clients and a server; refinement against an executable reference model of the tables, replayed in the order of the server's own log", "note": "Upserts of dictionaries and tables give all columns; vectors shorter than the table for a column of lists are left out, and so are items whose conversion loses digits."},
    "C17": {"quick": (40000, 45), "thorough": (150000, 700), "rule": "Workload: tables of one to eight columns of any type that text can hold, written by the program or by the generator, up to 20 000 rows around page and chunk boundaries; one to four workers; failing calls and crashes during writes.", "probes": ["written_compared", "read_compared", "faulty_writes_ok", "faulty_writes_failed", "died_in_write", "read_failed_under_faults", "malformed_refused"],
         "technique": "simulated workers and file system; round trip against the generator's own table and text", "note": "Line breaks within quoted fields and column names with other than letters and digits are not part of the format; extra fields of a line are ignored by the program and not generated; GUIDs are compared as nulls only."},
    "C18": {"quick": (40000, 40), "thorough": (150000, 700), "rule": "Workload: one to forty timers made and cancelled by one to three clients and by callbacks; intervals of milliseconds to a hundred days of simulated time; clock jumps, signals, fragmented requests; some callbacks block, fail, cancel or create.", "probes": ["requests_answered", "firings_checked", "cancelled", "due_reached", "finished"],
         "technique": "simulated time and network; every firing is checked against the interval, number and life of its timer", "note": "When callbacks block for longer than the intervals, only a lower bound on the rate is checked; callbacks due in the same millisecond may come in any order."},
    "C19": {"quick": (40000, 40), "thorough": (150000, 700), "rule": "Workload: a server with up to five clients, timers, workers, files and values of all kinds, told to end in one of eleven ways at a random moment.", "probes": ["ended_by_request", "ended_by_signal", "released", "successor_served"],
         "technique": "simulated network, time, signals and memory; accounting of everything the process holds after its end", "note": "Descriptors of files opened with hopen belong to the program that opened them and are not counted."},
    "C20": {"quick": (40000, 45), "thorough": (150000, 700), "rule": "Workload: values of up to 2.3 million items made, used, replaced and dropped by up to four workers while the system refuses memory from a drawn size on, for some of the time, and (in part of the runs) files as well.", "probes": ["results_compared", "recovered_after_errors", "died"],
         "technique": "simulated memory and file system refusals; the same operations with memory as the reference; accounting of files, descriptors, mappings and allocations", "note": "Refusal of memory for the few bytes of an atom ends the process by design, so where files fail too only blocks of 32 MB and more are refused."},
    "C21": {"quick": (8000, 40), "thorough": (100000, 700), "rule": "Workload: GUIDs and random numbers drawn by the executors of one to three processes.", "probes": ["guids", "numbers"],
         "technique": "simulated workers and clock; uniqueness over all values drawn in a run", "note": "Statistical quality is not judged. Sequences of four numbers out of at least 2^40 are taken to be unique."},
    "C22": {"quick": (40000, 45), "thorough": (400000, 700), "rule": "Workload: up to 40 expressions over numbers, lists of vectors, dictionaries, tables and functions that share parts, evaluated by up to six executors, some of them changing one variable in place; values in use are held across later operations.", "probes": ["results", "errors", "compared_without_sharing"],
            "technique": "simulated workers and schedules; state of all variables before and after every operation; the same operations without any sharing as the reference", "note": "Operands are drawn, not enumerated."},
 "C23": {"quick": (40000, 35), "thorough": (150000, 700), "rule": "Workload: the whole program from main() with drawn arguments (workers, port, script, terminal); up to two calls made during its start, or all from one on, fail.", "probes": ["started", "started_in_spite_of_failures", "ended_at_once", "ended_in_order"],
         "technique": "simulated system calls with failures at any point of the start; the process must serve in full or end with a status and a word", "note": "A terminal is simulated, without which the program ends after the script."},
 "C24": {"quick": (40000, 40), "thorough": (150000, 700), "rule": "Workload: programs of up to 400 expressions given as a pipe, as files, as files that load files, as both, or typed at a terminal, in pieces and with interrupted and failing reads.", "probes": ["piped", "from_files", "typed", "read_errors"],
         "technique": "simulated standard input, terminal and file system; the generator's own model of what the program prints and how it ends", "note": "Malformed text: nothing of it is executed. Text typed at a terminal is executed expression by expression, so there one that fails does not end the program; comments with unbalanced brackets are not typed."},
}
