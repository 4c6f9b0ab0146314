"""The list of properties; gen.py writes properties.jsonl and MANIFEST.json from it."""
D = []


def prop(id, title, statement, over, text, why, files, mech, level_note, observe=None):
    D.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or ["standard output", "standard error", "exit status"], hook_needed=None),
                  note=level_note))


prop("C01", "Every file below the roots is visited exactly once",
     "A search whose file system does not change and does not fail evaluates its expression for every file reachable from the given roots (within the depth limits, and not below a pruned directory) exactly once, and for nothing else. "
     "The set of visited paths does not depend on the search strategy, the number of threads, the availability of io_uring, the descriptor limit, or how the threads are scheduled.",
     ["schedules", "inputs", "configurations", "fault_sequences"],
     "all directory trees, root lists, strategies (-S bfs/dfs/ids/eds), -s, -depth, -j1..8, io_uring present or not, descriptor limits down to the minimum, all interleavings of the main and I/O threads, and all benign system-call behaviour (short directory reads, missing d_type, EINTR, delayed or reordered completions)",
     "The test suite runs a few fixed trees of some dozen files with the default schedule of the host; lost or repeated files only appear when a particular completion order meets a particular cache or queue state.",
     ["src/bftw.c", "src/ioq.c", "src/dir.c", "src/eval.c"],
     [("queues of pending directories and files, with pin counts and an LRU cache of open directories", "src/bftw.c bftw_queue_*, bftw_cache_*, bftw_impl"), ("iterative deepening drivers and their pruned set", "src/bftw.c bftw_ids, bftw_eds"), ("asynchronous open/close/stat requests", "src/ioq.c")],
     "Seeded simulation of the whole program against a model that lists the tree itself; benign faults only, so the expected set is exact.")

prop("C02", "Documented visit order is kept",
     "Whatever the interleaving, a directory is visited before anything inside it (after everything inside it with -depth), -S ids, and breadth-first search with -s, visit each depth completely before the next deeper one, depth-first search with -s keeps each subtree contiguous, and with -s siblings come out in alphabetical order.",
     ["schedules", "inputs", "configurations"],
     "all trees, strategies, -s and -depth combinations, thread counts and schedules",
     "Order with background threads depends on completion order; tests sort their output before comparing it, except for a handful of small -s cases.",
     ["src/bftw.c"],
     [("ordered queues (buffered/sorted) that hold back out-of-order completions", "src/bftw.c bftw_queue_*, bftw_batch_*, bftw_list_sort"), ("post-order by reference count", "src/bftw.c bftw_gc")],
     "Order relations are checked over the recorded visit sequence of each simulated run.")

prop("C03", "No error is silently swallowed",
     "Whenever a file or directory cannot be visited, read or examined, bfs says so on standard error and exits with a non-zero status; everything not affected by an error is still visited, and without errors bfs exits with status 0 and an empty standard error.",
     ["fault_sequences", "schedules", "inputs"],
     "all placements of failing open, stat, readdir, close, thread creation, descriptor exhaustion and io_uring failures, one or several per run, transient or permanent, in the main thread and in the I/O threads",
     "The tests only produce errors that a file system can be made to give on purpose (permissions, missing files); errors at arbitrary calls, inside background threads or in a later pass of iterative deepening never occur.",
     ["src/bftw.c", "src/eval.c", "src/ioq.c", "src/dir.c", "src/diag.c"],
     [("error nodes delivered to the evaluation callback", "src/bftw.c bftw_visit, state->error"), ("exit status accounting", "src/eval.c eval_callback, bfs_eval"), ("negative results of I/O requests", "src/ioq.c ioq_dispatch")],
     "Accounting oracle: every unvisited file must be explained by a message naming it or an ancestor (or a global one), and messages and exit status must agree.")

prop("C04", "Tests and -printf see the file's true metadata",
     "For every visited file, tests and format directives reflect the attributes the file system has for exactly that path under the chosen symlink-following mode (-P, -H, -L): type, size, times, owner, permissions, links, target type, emptiness, access, extended attributes, ACLs. "
     "This holds whether the attributes came from readdir, a background statx, io_uring or a synchronous fallback.",
     ["schedules", "inputs", "configurations", "fault_sequences"],
     "all files, attribute values, tests and directives, with statx present or not, d_type known or not, prefetched or not",
     "Tests use files the test runner can create with default kernels; the fallback paths and the prefetch/caching logic that chooses between them are taken on fixed inputs only.",
     ["src/stat.c", "src/bftw.c", "src/eval.c", "src/printf.c", "src/fsade.c", "src/dir.c"],
     [("per-file stat cache with follow/nofollow variants", "src/bftw.c bftw_stat, bftw_stat_cache"), ("statx/fstatat conversions", "src/stat.c"), ("fallback for broken links", "src/stat.c bfs_stat_tryfollow")],
     "Model computes the value of each test and directive from the simulated inode; outputs are compared file by file.")

prop("C05", "Descriptors are never leaked, misused or exhausted by bfs itself",
     "bfs never uses or closes a descriptor it does not own, never needs more descriptors than its limit allows for its own bookkeeping, leaves inherited descriptors alone, and has closed everything it opened when it exits, also when calls fail along the way.",
     ["schedules", "fault_sequences", "configurations"],
     "all interleavings, trees, limits from the minimum upwards, inherited descriptors, failing open/dup/pipe/close and failing allocations",
     "A leaked or doubly closed descriptor is invisible to output comparison, and only occurs on error paths or under a particular reuse of descriptor numbers.",
     ["src/bftw.c", "src/dir.c", "src/ioq.c", "src/eval.c", "src/exec.c", "src/xspawn.c", "src/bfstd.c"],
     [("cache capacity bookkeeping", "src/bftw.c bftw_cache_*"), ("descriptor budget", "src/eval.c infer_fdlimit"), ("directory unwrapping", "src/dir.c bfs_unwrapdir")],
     "The simulated kernel checks every descriptor operation as it happens and the table at exit.", ["descriptor operations of the process", "descriptor table at exit"])

prop("C06", "Requests and results are handed between threads without races or losses",
     "Every request the search gives to its background threads (open, stat, close) is carried out at most once and answered exactly once, with the result of that request; the threads never access shared data without proper synchronization, "
     "and cancelling or shutting down while requests are in flight neither loses, repeats nor leaks any of them.",
     ["schedules", "fault_sequences", "configurations"],
     "all interleavings of the main thread and 1 to 8 background threads, all queue fill levels including a full queue that wraps around, with and without io_uring, short or failing submissions, spurious wake-ups, cancellation at any moment",
     "A race window is a few instructions wide; the queue holds 4096 requests, so small test trees never fill or wrap it.",
     ["src/ioq.c", "src/bftw.c", "src/thread.c", "src/atomic.h"],
     [("lock-free slots with skip counts and blocking flag", "src/ioq.c ioq_slot_push, ioq_slot_pop, ioq_slot_wait, ioqq_*"), ("batches", "src/ioq.c ioq_batch_*"), ("stop sentinel and cancellation", "src/ioq.c IOQ_STOP, ioq_cancel, ioq_ring_prep, ioq_sync_work")],
     "Every atomic access is a scheduling point; a happens-before detector built into the simulator sees every memory access of bfs and the orderings its atomics really ask for; lost, repeated or mixed-up answers show as missing files, wrong metadata, descriptor misuse, failed assertions or deadlock.",
     ["memory accesses of the process", "system calls of the process", "standard output"])

prop("C07", "Every search terminates",
     "Whatever the interleaving of its threads and whatever calls fail, bfs neither deadlocks nor loops: once faults stop, every search on a finite tree ends within a number of steps proportional to the work.",
     ["schedules", "fault_sequences", "inputs"],
     "all schedules including starvation of any thread, spurious wake-ups and failing operations at every point, early termination by -quit",
     "A lost wake-up or a missed hand-off needs one particular interleaving out of millions; the tests run each search once.",
     ["src/ioq.c", "src/bftw.c", "src/thread.c", "src/eval.c", "src/xspawn.c"],
     [("blocking slots with monitors", "src/ioq.c ioq_slot_*, ioqq_*"), ("draining on exit", "src/bftw.c bftw_state_destroy, ioq_cancel, ioq_destroy")],
     "The scheduler detects deadlock exactly; livelock is a bound on steps under a fair schedule after a random prefix (more than five times the largest ever observed).", ["termination of the process"])

prop("C08", "-quit, -limit and -exit stop the search at the right place",
     "After -quit, -exit or the last match allowed by -limit, no further file is evaluated and no further output or command is produced; everything before it has happened completely, batched commands are still run, output is flushed, and the exit status is the requested one.",
     ["schedules", "inputs"],
     "all expressions containing these actions, trees, strategies, thread counts, and all states of the background threads at that moment",
     "Tests stop tiny searches in a quiet state; the interesting case is stopping while opens, stats and closes are in flight.",
     ["src/eval.c", "src/bftw.c", "src/ioq.c", "src/exec.c"],
     [("quit flag and BFTW_STOP", "src/eval.c eval_callback, eval_quit, eval_limit, eval_exit"), ("cancellation of outstanding requests", "src/ioq.c ioq_cancel")],
     "The model evaluates the expression along the observed visit order and knows where it must end.")

prop("C09", "-exec ... + passes every match exactly once",
     "With -exec/-execdir ... +, every matching file is passed to exactly one command invocation, in visit order, after the command's fixed arguments; no invocation exceeds the system's argument limit, -execdir invocations run in the parent directory of all their arguments, and a failing invocation makes bfs exit non-zero. Files can only be dropped together with an error message.",
     ["inputs", "schedules", "fault_sequences"],
     "all match sequences, path lengths, argument limits (also when the real limit is lower than reported, so that execution fails and bfs retries with fewer arguments), failing and killed commands",
     "Tests never reach the argument limit with more than one argument pattern and never meet a system that rejects a batch bfs believed to fit.",
     ["src/exec.c", "src/eval.c"],
     [("argument budget", "src/exec.c bfs_exec_arg_max, bfs_exec_would_overflow"), ("E2BIG recovery", "src/exec.c bfs_exec_recover_e2big, bfs_exec_flush"), ("directory changes", "src/exec.c bfs_exec_changed_dirs")],
     "The arguments and directories of all simulated commands are compared with the sequence of matches.", ["arguments and working directory of the commands"])

prop("C10", "Commands are started with exactly the promised environment",
     "Each -exec, -execdir, -ok command is started once per evaluation with exactly the substituted arguments, in the right directory, with the standard streams, signal dispositions (except for an ignored SIGCHLD or SIGPIPE, which bfs may reset) and mask, resource limits and inherited descriptors bfs was started with and no others; its exit status is the action's result, it is always waited for, and a command that cannot be started is reported.",
     ["inputs", "schedules", "fault_sequences", "configurations"],
     "all commands and templates, fork or posix_spawn or failure of either, pipes and exec failing, raised descriptor limits, blocked or ignored signals",
     "Tests observe the output of commands, not what they inherit, and cannot make fork, pipe or exec fail.",
     ["src/xspawn.c", "src/exec.c", "src/eval.c", "src/sighook.c"],
     [("spawn action list and error pipe", "src/xspawn.c bfs_fork_exec, bfs_spawn"), ("limit restoration", "src/exec.c bfs_exec_spawn"), ("close-on-exec everywhere", "src/bfstd.c, src/dir.c")],
     "Every simulated command records what it was started with.", ["state of the started process"])

prop("C11", "All output reaches its destination, completely and in order",
     "Everything the expression prints (to standard output or to files named by -fprint and friends, also when several actions or /dev/stdout share a file) appears there completely, once and in evaluation order, is flushed before a command started by the search can observe it, and if any of it cannot be written (a full disk, an I/O error, a closed pipe or standard output closed from the start) bfs reports an error and exits non-zero, or dies from SIGPIPE (unless -noerror was given).",
     ["inputs", "schedules", "fault_sequences"],
     "all combinations of printing actions and destinations, short writes, full disks and I/O errors at any write or at close, early termination",
     "The tests never see a short or failing write except for /dev/full, and cannot observe what was flushed at the moment a command starts.",
     ["src/ctx.c", "src/eval.c", "src/exec.c", "src/printf.c", "src/color.c"],
     [("shared output files by device and inode", "src/ctx.c bfs_ctx_dedup"), ("flush before spawn and at exit", "src/ctx.c bfs_ctx_flush, bfs_ctx_free"), ("error propagation", "src/eval.c eval_report_error, bfs_eval")],
     "File contents and, for each command, the output visible at its start are compared with the model.", ["contents of standard output and output files", "output visible to commands"])

prop("C12", "Signals end or inform bfs exactly as they should, whenever they arrive",
     "A terminating signal kills bfs with that same signal, promptly and whenever it arrives, after the terminal has been restored, unless it was ignored when bfs was started (as by nohup), in which case it stays ignored (SIGPIPE excepted); SIGINFO/SIGUSR1 and SIGWINCH and the status bar's timer never disturb the results, the errors or the exit status; "
     "a signal handler only does what is safe inside a handler and preserves errno, hooks can be added and removed while signals arrive, and a command being started never runs bfs's handlers.",
     ["schedules", "fault_sequences"],
     "arrival of every handled signal at every scheduling point of any thread (including inside other handlers, inside system calls, during start-up, hook registration and removal, fork and clean-up), several signals at once",
     "Tests cannot deliver a signal between two chosen instructions; they send none except in a few unit tests of the hook list.",
     ["src/sighook.c", "src/bar.c", "src/eval.c", "src/xspawn.c", "src/ctx.c"],
     [("lock-free hook lists read by the handler, protected by reader counters", "src/sighook.c rcu_*, arc_*, sigpush, sigpop, run_hooks"), ("re-raising fatal signals", "src/sighook.c sigdispatch, reraise"), ("user hooks", "src/eval.c eval_siginfo, eval_sigalrm; src/bar.c bfs_bar_sigwinch, bfs_bar_sigexit")],
     "Signals are injected at seeded scheduling points; outputs are compared with the model as without signals, the cause of death with the signals sent, and the simulator knows when code runs inside a handler.",
     ["exit status or terminating signal", "standard output and error", "calls made inside signal handlers"])

prop("C13", "The status bar leaves the terminal as it found it",
     "While -status draws its bar, the rest of the output is not mixed up with it, and however bfs ends (normally, with an error, out of memory, by -quit or by a signal, also in the middle of drawing or resizing) the terminal's scrolling region and cursor are restored and the bar is cleared; "
     "drawing failures never affect the search.",
     ["schedules", "fault_sequences", "configurations"],
     "terminals of all sizes, resized or signalled at any moment, timers that fail or fire late, all ways to end, output and errors on the same terminal",
     "The test suite has no terminal for most tests, and cannot resize or kill at chosen instants.",
     ["src/bar.c", "src/eval.c", "src/sighook.c", "src/color.c"],
     [("scroll region set-up and reset", "src/bar.c bfs_bar_resize, bfs_bar_reset, bfs_bar_hide"), ("bar text", "src/eval.c eval_status"), ("exit and resize hooks", "src/bar.c bfs_bar_sigexit, bfs_bar_sigwinch")],
     "The simulated terminal interprets the escape sequences written to it; its state at the end of the run is compared with the initial one.",
     ["byte stream written to the terminal"])

prop("C14", "-delete removes exactly the matching files, children first",
     "-delete removes exactly the files for which it is evaluated, each once, never anything outside the searched tree, never through a symbolic link, and every directory only after everything inside it was visited; "
     "a file that cannot be removed is reported, makes the exit status non-zero and the action false, and the search of the other files goes on; files that bfs itself removed are never reported as missing.",
     ["inputs", "schedules", "fault_sequences", "configurations"],
     "all trees, expressions in front of -delete, strategies, thread counts and schedules, failing unlink() calls, removal while directories are still being read or opened by the background threads",
     "Tests delete a handful of files in trees of one shape with one schedule and never see unlink() fail half-way.",
     ["src/eval.c", "src/bftw.c", "src/opt.c"],
     [("deletion relative to the open parent directory", "src/eval.c eval_delete"), ("implied -depth and post-order visits", "src/parse.c parse_delete, src/bftw.c bftw_gc"), ("repeated passes of iterative deepening", "src/bftw.c bftw_ids_callback")],
     "The sequence of simulated unlinkat() calls (directory, name, flags, result) is compared with the model evaluated along the visit order; nothing real is deleted.",
     ["unlinkat() calls and their targets", "standard output and error", "exit status"])

prop("C15", "Running out of memory is survived or reported",
     "If any memory allocation fails at any point, bfs does not crash, corrupt memory, leak descriptors or hang; if the exit status is zero the search and its output were complete.",
     ["fault_sequences", "schedules"],
     "every allocation of the main and I/O threads failing, singly or in bursts, from command-line parsing to clean-up",
     "No test makes an allocation fail.",
     ["src/alloc.c", "src/bftw.c", "src/ioq.c", "src/dstring.c", "src/trie.c", "src/parse.c", "src/eval.c", "src/bfstd.c"],
     [("checked allocations and unwinding", "src/*.c error paths"), ("arena and varena growth", "src/alloc.c")],
     "AddressSanitizer build of the simulator with failing allocators; weak oracle (status zero implies complete).")

prop("C16", "Symlink cycles and repeated files are handled exactly",
     "With -L every directory cycle is detected, reported once per occurrence and not descended into, and the search still covers everything else; with -unique each file (device and inode) is visited exactly once over all roots and links.",
     ["inputs", "schedules", "configurations"],
     "all link structures (self links, mutual links, links to ancestors, hard links, several roots), strategies and schedules",
     "Tests contain one or two hand-made loops; which of several paths reaches a file first depends on the schedule.",
     ["src/bftw.c", "src/eval.c"],
     [("ancestor comparison by device and inode", "src/bftw.c bftw_must_detect_cycle"), ("seen set", "src/eval.c eval_file_unique")],
     "Model derives loops and the set of distinct files from the simulated inode graph.")

prop("C17", "-xdev and -mount stay on the starting file systems",
     "With -xdev no file below a mount point is visited while the mount point itself is; with -mount mount points are not visited either; nothing else is omitted, in any traversal order.",
     ["inputs", "configurations", "schedules"],
     "all placements of mount points (nested, at roots, behind links), strategies, -depth, -L, statx with and without mount information",
     "Tests need mount privileges and cover one layout; combinations with -depth and strategies were wrong.",
     ["src/bftw.c", "src/eval.c", "src/mtab.c"],
     [("device comparison with the root", "src/bftw.c bftw_is_mount, bftw_visit, bftw_push_dir"), ("mount-point hints", "src/mtab.c bfs_might_be_mount")],
     "Model derives the expected set from simulated devices.")

prop("C18", "User and group names follow the database",
     "-nouser, -nogroup, -printf %u/%g and -ls give the answers of the user and group databases, also when commands started by the search change those databases meanwhile (whatever was looked up or assumed before the command ran), and -nouser and -nogroup report a failing look-up instead of silently taking it for an absent entry.",
     ["inputs", "schedules", "fault_sequences"],
     "all owners present or absent in the databases, entries added, removed or renumbered by an -exec command between any two files, failing look-ups",
     "Tests run with a fixed passwd file.",
     ["src/pwcache.c", "src/exec.c", "src/eval.c", "src/printf.c"],
     [("look-up caches", "src/pwcache.c bfs_getpwuid, bfs_getgrgid"), ("invalidation around commands", "src/ctx.c bfs_ctx_flush, src/pwcache.c bfs_users_flush, bfs_groups_flush"), ("facts about owners in the optimizer", "src/opt.c data_flow_uid, data_flow_gid")],
     "The simulated databases are changed by the stand-in commands; the model applies the same changes in evaluation order.")

prop("C20", "All memory is released",
     "When bfs exits normally (also with errors, after -quit, or when allocations fail) every block of memory it allocated during the search has been freed or is still reachable from its global state; the memory used per file does not accumulate.",
     ["inputs", "schedules", "fault_sequences"],
     "all searches, expressions and formats, error paths, early termination with requests in flight, failing system calls and allocations",
     "Leaks do not change the output; the suite can only see them where a leak-checking build happens to run the right path.",
     ["src/bftw.c", "src/ioq.c", "src/eval.c", "src/printf.c", "src/fsade.c", "src/exec.c", "src/ctx.c", "src/alloc.c"],
     [("arenas and varenas", "src/alloc.c"), ("freeing of files, directories and stat buffers", "src/bftw.c bftw_file_free, bftw_state_destroy"), ("context clean-up", "src/ctx.c bfs_ctx_free"), ("paths built for file descriptors", "src/fsade.c fake_at")],
     "The simulator's allocator tracks every block of bfs; at a normal exit the blocks not freed are traced from the global variables.", ["allocator calls of the process"])

prop("C21", "Relative times use one consistent moment",
     "All relative time tests (-mtime, -mmin, -newerXY with relative dates, -used) of one search are evaluated against the same moment, taken when bfs starts, however long the search takes and however the system clock jumps meanwhile.",
     ["schedules", "fault_sequences", "inputs"],
     "clock jumps forwards and backwards at any moment, slow file systems, all time tests and units",
     "Tests run for milliseconds with a steady clock.",
     ["src/ctx.c", "src/parse.c", "src/eval.c", "src/xtime.c"],
     [("time fixed in the context", "src/ctx.c ctx->now"), ("time tests", "src/eval.c eval_time, eval_newer, eval_used")],
     "The simulated clock advances with every step and jumps; the model evaluates against the start.")

prop("C22", "The optimizer never changes what an expression does",
     "For every expression, the sequence of outputs and actions performed for each file is the one given by left-to-right, short-circuit evaluation of the expression as written, independently of the optimization level, of the values tests take and of faults in the information they consult.",
     ["inputs", "programs", "configurations"],
     "all expressions over tests and actions with and, or, not, comma, -exclude and nested combinations, at -O0 to -O4/fast, on all files",
     "Tests check a few dozen hand-picked expressions; the rewrite rules interact (ignored results, data-flow facts, De Morgan, reordering).",
     ["src/opt.c", "src/eval.c", "src/parse.c", "src/expr.c"],
     [("data-flow analysis", "src/opt.c data_flow_*"), ("simplification and reordering", "src/opt.c simplify_*, reorder_andor, opt_ignore"), ("evaluation", "src/eval.c eval_and, eval_or, eval_not, eval_comma")],
     "Differential: random expressions are evaluated by the simulated bfs and by a direct interpreter over the same inodes.")

prop("C23", "Files that stay put are found although others come and go",
     "While other processes create, delete and rename files during the search, every file that existed throughout under an unchanged path is still visited exactly once, nothing is visited that never existed, bfs still terminates, and a disappearing file at most leads to an error about itself (none with -ignore_readdir_race).",
     ["schedules", "fault_sequences", "inputs"],
     "all moments of creation, removal and replacement (file by directory or link and back) relative to reading, opening and examining the directory, strategies, thread counts, -depth",
     "Tests do not change the tree while bfs runs.",
     ["src/bftw.c", "src/dir.c", "src/ioq.c", "src/eval.c", "src/stat.c"],
     [("type re-checks and error recovery", "src/bftw.c bftw_init_ftwbuf, bftw_visit"), ("errors of vanished files", "src/eval.c eval_should_ignore, eval_error"), ("O_NOFOLLOW/O_DIRECTORY opens", "src/bftw.c bftw_openat")],
     "A simulated second process changes the file system at seeded steps; the model knows which files were stable.")

prop("C24", "-ok asks before every command and obeys the answer",
     "-ok and -okdir show the exact command on standard error before running it, read one line of standard input per prompt, run the command if and only if the answer is affirmative, and count as false otherwise; end of input counts as a refusal.",
     ["inputs", "schedules", "fault_sequences"],
     "all answers including empty lines and end of input, trees, schedules, failing commands",
     "Tests pipe a constant stream of answers.",
     ["src/exec.c", "src/eval.c", "src/bfstd.c"],
     [("prompting", "src/exec.c bfs_exec_confirm, src/bfstd.c ynprompt")],
     "Prompts and executed commands are compared with a model that consumes the answers.", ["standard error", "standard input consumption", "commands run"])

prop("C25", "-files0-from supplies exactly the listed roots",
     "-files0-from searches exactly the NUL-terminated paths of its input, in that order, from a file or standard input, including paths with newlines or special characters and a missing final NUL, and reports unreadable input.",
     ["inputs", "schedules", "fault_sequences"],
     "all lists, sources, short and interrupted reads",
     "Tests read short lists in one read.",
     ["src/parse.c", "src/bfstd.c", "src/bftw.c"],
     [("reading the list", "src/parse.c parse_files0_roots, src/bfstd.c xgetdelim")],
     "Model uses the same list of roots.")
