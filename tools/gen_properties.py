"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

DG = "daisy/dependency_graph.py"
p("C01", "Blocks tile a task's output region as its fit mode promises",
  "For every task, the blocks' write regions lie on the regular grid that starts at the beginning of the task's total write region, are pairwise disjoint, and are: all full-size cells inside the total write region ('valid'), all cells that overlap it ('overhang'), or those cells clipped to it so that they cover it exactly ('shrink'). Every block's read region is its write region grown by the task's lower and upper context on either side. The number of blocks reported for the task is the number of blocks that exist (zero if none fits).",
  ["inputs", "configurations"], "every total ROI, read ROI, write ROI (any number of dimensions, any offsets, symmetric or asymmetric context, read ROI containing write ROI), fit mode and conflict flag",
  "The tests compare a handful of 1D/2D layouts; the statement is about every geometry, including asymmetric contexts, negative offsets, regions smaller than one block and all three fit modes.",
  [DG, "daisy/block.py", "daisy/task.py"],
  [("level offsets x level strides enumerate the grid", DG+": compute_level_offsets/_compute_level_block_offsets/level_blocks"), ("fit handling", DG+": inclusion_criteria/fit_block/shrink"), ("block count", DG+": _num_level_blocks/num_blocks")],
  [("total_write_roi", "region to be tiled", DG)], ["DependencyGraph.task_dependency_graphs[...].level_blocks", "num_blocks", "blocks handed out by Scheduler.acquire_block"])
p("C02", "A block has one identity, however it is obtained",
  "Within one run no two different blocks (of the same or of different tasks) have the same block id, and every way of obtaining a block - enumerating a task, asking for upstream or downstream blocks, region queries, entry points, being handed out - yields the same id together with the same read and write region. The id depends only on the task and on the block's position, so it is the same in every process and in every later run over the same task. Blocks compare (and hash) as equal exactly if they are the same block, also if one of them comes from another process.",
  ["inputs", "configurations", "histories"], "every task geometry and every route by which a block can be obtained, across repeated runs",
  "Tests compare ids for a few fixed blocks; collisions and disagreements between routes only show up for particular geometries (3D, boundary blocks, asymmetric contexts).",
  [DG, "daisy/block.py"], [("cantor numbering of the grid index", "daisy/block.py: __compute_block_id"), ("re-construction of neighbour blocks", DG+": upstream/downstream/get_subgraph_blocks")],
  [("block_id", "(task id, number)", "daisy/block.py")], ["Block.block_id/read_roi/write_roi"])
p("C03", "Conflicting blocks of a task never run at the same time",
  "If a task declares a read/write conflict, then at no time are two of its blocks in processing such that the write region of one overlaps the read region (hence also the write region) of the other. If a task declares no conflict, none of its blocks waits for another block of the same task.",
  ["schedules", "inputs", "histories"], "every geometry and fit mode, every order of acquiring and releasing blocks, including failures and retries",
  "Tests check fixed dependency lists of small layouts; whether two conflicting blocks can overlap in time depends on all interleavings of acquire/release/failure.",
  [DG, "daisy/scheduler.py", "daisy/ready_surface.py"], [("conflict offsets between consecutive levels", DG+": compute_level_stride/compute_level_conflicts/get_conflict_offsets"), ("ready surface only frees a block when all upstream blocks succeeded", "daisy/ready_surface.py: mark_success")],
  [("processing_blocks", "blocks handed out", "daisy/processing_queue.py")], ["Scheduler.acquire_block", "Scheduler.release_block"])
p("C04", "A block starts only after everything it reads from is complete",
  "A block of a task with upstream tasks is handed out only when every block of every upstream task whose write region overlaps the block's read region has been completed (processed successfully or skipped as already done). This holds for any task graph, including chains, diamonds and tasks with several upstream tasks whose grids are not aligned.",
  ["schedules", "inputs", "histories"], "every task DAG, every geometry, every schedule of acquire/release/failure",
  "Tests run one or two pre-arranged two-task pipelines in one order.",
  [DG, "daisy/scheduler.py", "daisy/ready_surface.py"], [("inter-task dependencies by region query", DG+": DependencyGraph.upstream/get_subgraph_blocks"), ("ready surface", "daisy/ready_surface.py: mark_success")],
  [], ["Scheduler.acquire_block"])
p("C05", "Dependencies are coherent: mutual, acyclic, real, with all entry points",
  "For every set of tasks, block B is reported as an upstream block of C exactly when C is reported as a downstream block of B, and a block of an upstream task is reported as upstream exactly if its write region overlaps the block's read region; all reported neighbours are existing blocks of the given tasks; no block transitively depends on itself. The reported entry points of each task are exactly the blocks that have no upstream block, each reported once, and their announced number is right.",
  ["inputs", "configurations"], "every task DAG and geometry (fit modes, misaligned and shifted grids, symmetric and asymmetric contexts)",
  "Tests enumerate neighbours for a few fixed layouts; a one-sided dependency only appears for particular misaligned grids or asymmetric contexts and then silently deadlocks or orders a run wrongly.",
  [DG], [("upstream/downstream", DG+": DependencyGraph.upstream/downstream"), ("roots", DG+": root_gen/num_roots/roots")],
  [], ["DependencyGraph.upstream", "DependencyGraph.downstream", "DependencyGraph.roots"])
p("C06", "Region queries return exactly the blocks that touch the region",
  "Asking a task for the blocks that write to (or read from) a given region returns exactly those existing blocks of the task whose write (respectively read) region overlaps the given region, each once; a region that touches no block yields an empty answer.",
  ["inputs"], "every geometry, fit mode and non-empty query region, inside, across and outside the task's total region",
  "Tests query a few regions of one 2D task.",
  [DG], [("grid arithmetic", DG+": get_subgraph_blocks/covered_write_roi")], [], ["BlockwiseDependencyGraph.get_subgraph_blocks"])
p("C07", "Expanding a region to the block grid gives the smallest aligned cover",
  "Expanding a region to a block grid returns the smallest region that contains it and whose two corners lie on the grid (the grid of the task's write regions, or the grid anchored at the coordinate origin for the plain write-shape variant). Expanding a request additionally adds the task's read context around that cover, and expanding an already expanded region changes nothing.",
  ["inputs"], "every region, total ROI, read ROI and write ROI in any number of dimensions, including negative coordinates",
  "There is no test at all for these functions.",
  ["daisy/blocks.py"], [("floor/ceil division", "daisy/blocks.py: expand_roi_to_grid/expand_write_roi_to_grid/expand_request_roi_to_grid")], [], ["daisy.expand_roi_to_grid", "daisy.expand_write_roi_to_grid"])
p("C08", "No stall: work is available exactly when its prerequisites are complete",
  "At every moment, a task offers a block if and only if some block of it is not yet processed, not in processing, not ruled out by a permanent failure, and has all its upstream blocks completed. Hence, as long as blocks that are handed out are eventually returned, every block ends up completed, failed or orphaned: scheduling never gets stuck and never withholds runnable work. Returning a block reports the state of every task that thereby got something to do.",
  ["schedules", "histories", "inputs"], "every task DAG and geometry, every interleaving of acquire and release with every outcome",
  "Tests walk one schedule; stalls depend on which combination of blocks has completed or failed.",
  ["daisy/scheduler.py", "daisy/ready_surface.py", "daisy/processing_queue.py", DG], [("ready queue", "daisy/scheduler.py: acquire_block/release_block/__update_ready_queue"), ("ready surface", "daisy/ready_surface.py"), ("lazy roots", "daisy/processing_queue.py: get_next")],
  [("ready_count", "number of offered blocks", "daisy/task_state.py")], ["Scheduler.get_ready_tasks", "Scheduler.acquire_block"])
p("C09", "Exclusive hand-out, bounded retries, nothing after success",
  "A block is in processing at most once at a time; after a failed attempt it is offered again until it has been attempted max_retries + 1 times, after which it counts as permanently failed and is never offered again; after a successful attempt it is never offered again.",
  ["schedules", "histories"], "every sequence of acquire/release with every outcome, every max_retries, any number of workers and tasks",
  "Tests cover one block failing a couple of times with one max_retries value.",
  ["daisy/scheduler.py", "daisy/processing_queue.py"], [("retry counting", "daisy/scheduler.py: release_block"), ("processing set", "daisy/scheduler.py: __remove_from_processing_blocks")],
  [("block_retries", "failures so far", "daisy/processing_queue.py")], ["Scheduler.acquire_block", "Scheduler.release_block"])
p("C10", "A permanent failure orphans exactly the blocks that depend on it",
  "When a block fails permanently, exactly the blocks that depend on it directly or transitively (within its task and in downstream tasks) become orphaned: they are never handed out, are counted as orphaned exactly once in their own task, and their tasks can still finish. All other blocks are still processed.",
  ["schedules", "histories", "inputs"], "every task DAG and geometry, every set and order of failures relative to successes",
  "Tests fail one block in a fixed order; double counting or missed orphans depends on several failures in particular orders.",
  ["daisy/ready_surface.py", "daisy/scheduler.py"], [("mark_failure", "daisy/ready_surface.py: mark_failure"), ("orphan counting", "daisy/scheduler.py: release_block")],
  [("boundary", "failed frontier", "daisy/ready_surface.py"), ("orphaned_count", "orphans per task", "daisy/task_state.py")], ["Scheduler.task_states"])
p("C11", "Task counters always tell the truth",
  "After every scheduling step, each task's ready, processing, completed, skipped, failed, orphaned and pending counts equal the number of its blocks in that condition (skipped blocks are also completed), all are non-negative, and ready, processing, completed, failed, orphaned and pending add up to the task's total. A task reports that it is done exactly when each of its blocks is completed, permanently failed or orphaned.",
  ["schedules", "histories"], "every reachable scheduling history",
  "Tests look at a few counters at the end of a few runs.",
  ["daisy/task_state.py", "daisy/scheduler.py"], [("counter updates", "daisy/scheduler.py: acquire_block/release_block"), ("derived counters", "daisy/task_state.py: pending_count/is_done")],
  [], ["Scheduler.task_states"])
p("C12", "Blocks already done are skipped, never processed, and unblock the rest",
  "A block for which the task's check function says that it is already done is never handed to a worker; it counts as completed and skipped, and blocks that depend on it become available just as if it had been processed. If the check says no, or raises, the block is processed normally; if a (pre, post) pair of functions is given, the second decides after processing whether the block succeeded.",
  ["inputs", "schedules", "histories"], "every assignment of check results (true, false, raising) to blocks, in every task of every task DAG, including resuming an interrupted run",
  "Tests use check functions that are constant; mixing skipped and processed blocks across tasks is where runs stop early.",
  ["daisy/scheduler.py", "daisy/serial_server.py", "daisy/server.py"], [("precheck", "daisy/scheduler.py: acquire_block/__precheck"), ("serial loop", "daisy/serial_server.py")],
  [("skipped_count", "skipped blocks", "daisy/task_state.py")], ["Scheduler.acquire_block", "Scheduler.task_states"])
SV = "daisy/server.py"
p("C13", "The server keeps custody of every block it sends out",
  "Every block sent to a worker is accounted for exactly once: by the first return from the worker it was sent to, or by being declared lost when that worker's connection is closed, in which case it counts as a failed attempt. Duplicate returns, returns from other workers than the one that currently holds the block, and returns of blocks already declared lost change nothing, and a block is never sent over a connection that is already closed.",
  ["fault_sequences", "schedules", "crash_points"], "every interleaving of requests, returns, failures, worker crashes and disconnects of any number of workers",
  "Tests have one crash scenario; double accounting needs a late return racing with loss detection and re-assignment.",
  [SV, "daisy/block_bookkeeper.py"], [("bookkeeper", "daisy/block_bookkeeper.py: is_valid_return/notify_block_sent/notify_block_returned/get_lost_blocks"), ("safe release", SV+": _safe_release_block/_check_for_lost_blocks")],
  [("sent_blocks", "blocks in custody of clients", "daisy/block_bookkeeper.py")], ["messages to/from the server", "Server.run_blockwise result", "task states"])
p("C14", "A run always finishes: no worker starves, no block is forgotten",
  "If worker functions keep requesting blocks until they are told to stop, a run terminates with every block of every task completed, failed or orphaned, for any arrival order of messages, any finite number of worker crashes, and connections that are lost while blocks are out - whatever runs the process has had before. A request is answered (with a block, or with a request to shut down once its task has no more work to give out) as soon as it can be; a worker waiting for work in one task never keeps workers of another task from being answered.",
  ["schedules", "fault_sequences", "crash_points", "configurations"], "every task DAG, number of workers, message interleaving and finite fault sequence",
  "Tests run a few healthy pipelines and a single crash; starvation and lost wake-ups need several waiting workers or a crash at a particular moment.",
  [SV, "daisy/worker_pool.py", "daisy/task_worker_pools.py", "daisy/block_bookkeeper.py"], [("event loop", SV+": _event_loop/_get_client_message"), ("pending requests", SV+": pending_requests"), ("recruiting and replacing workers", SV+": _recruit_workers; daisy/task_worker_pools.py: check_worker_health")],
  [("pending_requests", "unanswered requests per task", SV)], ["messages to/from the server", "Server.run_blockwise return"])
p("C15", "However a run ends, nothing is left running",
  "When a run ends - all tasks done, stopped from outside, an error reported by a worker, or an exception inside the server - all workers that were started are stopped, connections to clients are closed, and observers are told exactly once that the server exits, after all other notifications. A stop request takes effect within one round of the event loop, without handing out further blocks afterwards; an error in a worker is raised in the caller. Nobody is left waiting for a run that is over: workers of a server that was killed end by themselves, and a client that connects late is refused or gets no block.",
  ["crash_points", "fault_sequences", "schedules"], "every point of a run at which it can end, and every cause",
  "Tests end runs normally; leftover workers depend on where in the loop the run is interrupted.",
  [SV, "daisy/worker_pool.py", "daisy/worker.py", "daisy/tcp/tcp_server.py"], [("finally block", SV+": run_blockwise"), ("stop event", SV+": _event_loop"), ("error queue", "daisy/worker_pool.py: check_for_errors")],
  [], ["worker processes", "streams", "observer callbacks"])
p("C16", "Observers see a consistent story of the run",
  "In every run, serial or distributed, observers are notified of: each task's start once, before any of its blocks is acquired; each block handed out and each accepted return, once each, with the task's current state; each task's completion once, when (and only when) it is done and after all its returns were reported; and the server's exit once, at the very end. However many observers there are, and even if some of them unregister while they are being notified, each is told everything as long as it is registered. The task's init callback runs exactly once, when a distributed task starts, before any of its workers is started.",
  ["schedules", "histories", "fault_sequences"], "every run, serial and distributed, with skips, failures, orphans and losses",
  "No test registers an observer and checks the sequence.",
  [SV, "daisy/serial_server.py", "daisy/server_observer.py", "daisy/cl_monitor.py"], [("notifications", SV+": notify_*; daisy/serial_server.py"), ("started/finished sets", SV+": started_tasks/finished_tasks")],
  [], ["ServerObserver callbacks", "init_callback_fn"])
p("C17", "Worker pools keep exactly the workers they should",
  "A pool that is set to n workers starts or stops just as many workers as needed (the youngest are stopped first), workers that die abnormally are replaced one for one, workers that exit normally are not, and a worker that keeps failing blocks is restarted without changing the number of workers; a task never has more than its configured number of workers running. Worker ids are never reused, each worker learns its own id and task, and an exception raised by a worker function surfaces in the process that owns the pool.",
  ["histories", "fault_sequences", "schedules"], "every sequence of resize, stop, crash, normal exit, repeated failure and error operations",
  "Tests replace one crashed worker and check one normal exit.",
  ["daisy/worker_pool.py", "daisy/task_worker_pools.py", "daisy/worker.py"], [("set_num_workers/reap_dead_workers/inc_num_workers/stop", "daisy/worker_pool.py"), ("restart after repeated failures", "daisy/task_worker_pools.py: on_block_failure"), ("ids", "daisy/worker.py: get_next_id")],
  [("workers", "id -> worker", "daisy/worker_pool.py"), ("failure_counts", "failures per worker", "daisy/task_worker_pools.py")], ["WorkerPool", "multiprocessing.Process start/terminate"])
p("C18", "Serial and distributed runs agree, and the reported result is true",
  "For the same tasks and the same outcome of each processing attempt, serial and distributed runs process each block the same number of times and end with the same completed, skipped, failed and orphaned counts, which are those determined by the dependencies, check results and retry limits alone. A distributed run reports success exactly if every block of every task, including upstream tasks that were not listed explicitly, was completed.",
  ["inputs", "schedules", "configurations"], "every task DAG and every outcome function, independent of the schedule",
  "Tests never compare the two modes and never look at the reported result of a run with failures.",
  ["daisy/serial_server.py", "daisy/convenience.py", SV, "daisy/scheduler.py"], [("serial loop", "daisy/serial_server.py: run_blockwise"), ("task collection and result", "daisy/convenience.py: run_blockwise/_run_blockwise")],
  [], ["daisy.run_blockwise", "SerialServer.run_blockwise", "Server.run_blockwise"])
CL = "daisy/client.py"
p("C19", "A client returns every block exactly once, with the right status",
  "For every block a client receives and leaves, it sends back that block's final status before requesting again: success if the user code finished without marking the block as failed, failed if the code raised, was interrupted, or marked it so; if the code raised an ordinary exception the exception is additionally reported together with the worker's identity and is not propagated to the worker loop. A client that is told to shut down, or whose server is gone, yields no block, without raising.",
  ["histories", "fault_sequences", "inputs"], "every sequence of server replies, user-code outcomes (return, exception, interrupt, explicit status) and connection losses",
  "The test runs one block successfully.",
  [CL, "daisy/messages/", "daisy/task.py"], [("context manager", CL+": acquire_block/release_block"), ("worker loop", "daisy/task.py: _process_blocks")],
  [], ["messages sent by the client", "value yielded by acquire_block"])
p("C20", "Messages arrive intact, in order, once, and disconnects are noticed",
  "Messages sent over one connection are received unchanged, in the order in which they were sent and exactly once, in either direction, whatever their number and size (below the transport's limit of 100 MB) and however many clients are connected, and a reply sent over the connection a message came from reaches exactly the client that sent it. Messages whose attached exception cannot be restored on the other side still arrive. After a client disconnects gracefully the server raises no error; after it disappears the server is told; in both cases the connection reports closed, while other connections keep working; after the server closes its connections every client is told.",
  ["histories", "schedules", "fault_sequences", "inputs"], "every sequence of sends, receives, disconnects and crashes over any number of connections, every message size",
  "Tests send a few small messages over one or two connections.",
  ["daisy/tcp/"], [("length-prefixed framing", "daisy/tcp/tcp_stream.py: _send_message/_get_message"), ("receive loops", "daisy/tcp/tcp_server.py: handle_stream; daisy/tcp/tcp_client.py: _receive"), ("disconnect handshake", "daisy/tcp/tcp_client.py: disconnect")],
  [], ["TCPServer.get_message", "TCPClient.get_message", "TCPStream.closed"])
p("C21", "A worker's context survives transport unchanged",
  "The context a worker reads from its environment contains exactly the keys and values (as strings) that it was created with, or creating or changing it was refused; copies are independent of the original. In particular a worker started for a task always connects to the address, task and worker id that the server chose for it, and writes its logs where the server was told to, whatever the log directory is called.",
  ["inputs", "histories"], "every set of keys and values, including values with separator and escape characters",
  "Tests only use plain alphanumeric values.",
  ["daisy/context.py", "daisy/worker.py", CL], [("to_env/from_env", "daisy/context.py"), ("worker wrapper", "daisy/worker.py: _spawn_wrapper")],
  [], ["Context.to_env", "Context.from_env"])
p("C22", "Block custody records: timeouts and closed connections lose a block once",
  "The record of blocks sent out reports a block as lost exactly if it is still out and its connection is closed or (when a processing timeout is set) it has been out for longer than the timeout; each loss is reported once and ends custody. A return is valid only for a block that is out, and only from the connection it was sent over; on return the block carries the times at which it was sent and returned. A worker that keeps a block for longer than the timeout that the block's task declares loses the block.",
  ["histories", "fault_sequences"], "every sequence of send, return, connection loss, passage of time and loss query, for any number of blocks and connections",
  "There is no direct test; the timeout path is never exercised.",
  ["daisy/block_bookkeeper.py"], [("bookkeeper", "daisy/block_bookkeeper.py")], [("sent_blocks", "what is out", "daisy/block_bookkeeper.py")], ["BlockBookkeeper"])
p("C23", "The ready surface frees and orphans exactly the right nodes of any DAG",
  "For any finite dependency graph and any order in which nodes whose dependencies all succeeded are marked as success or failure, marking a success returns exactly the nodes that thereby have all their dependencies successful, each once; marking a failure returns exactly the nodes that depend on it and were not already ruled out. At the end every node has been freed, ruled out, or was an entry point.",
  ["schedules", "histories", "inputs"], "every finite DAG and every admissible marking order",
  "Tests use one or two hand-made graphs and orders.",
  ["daisy/ready_surface.py"], [("surface/boundary sets", "daisy/ready_surface.py")], [("surface", "successful nodes with open dependents", "daisy/ready_surface.py"), ("boundary", "failed frontier", "daisy/ready_surface.py")], ["ReadySurface.mark_success", "ReadySurface.mark_failure"])
p("C24", "The execution summary reports what happened",
  "At the end of a run the command line monitor prints, for every task that was started or done, the true number of blocks, completed, skipped, failed and orphaned blocks, lists the blocks whose failure was reported by workers (the first hundred of them, and the number of the others), names the log files of the workers that reported the first ten, and claims that all blocks were processed successfully exactly if they were. Monitoring never makes a run fail, and log messages still reach every log handler once, in order.",
  ["histories", "fault_sequences"], "every run, serial and distributed, with any mix of outcomes",
  "No test looks at the printed summary.",
  ["daisy/cl_monitor.py"], [("summary", "daisy/cl_monitor.py: on_server_exit"), ("progress", "daisy/cl_monitor.py: _update_state")], [], ["stdout of a run"])
p("C25", "A worker's output ends up in its own log files, complete",
  "If a log directory is set (when the worker's context is made, that is when the run starts), whatever a worker process writes to its standard output or error - through print, the file descriptors or its child processes - is found, complete and in order, in the files worker_<id>.out and worker_<id>.err of its task's folder below that directory, and nowhere else; this holds however the worker ends, and the files contain nothing from other workers. If no log directory is set, the output goes where the server's own output goes and no log files are written. The same holds for workers that are started from within workers.",
  ["histories", "fault_sequences", "configurations"], "every number of workers and tasks, every way of writing, every end of a worker (return, exception, exit, kill, stop), every directory name",
  "Tests only check that the two log files exist and contain one line.",
  ["daisy/logging.py", "daisy/worker.py"], [("redirect_stdouterr/_file_reopen", "daisy/logging.py"), ("worker wrapper", "daisy/worker.py: _spawn_wrapper")],
  [("LOG_BASEDIR", "where logs go", "daisy/logging.py")], ["files below the log directory", "output of the process that started the workers"])
p("C26", "A server announces an address at which clients can reach it",
  "A server that was given a host announces that host; otherwise it announces the address of the machine's default route if connections to that address work, and the loopback address if there is no such route or if connections to it fail in any way. A client that connects to the announced address and port reaches that server and no other, and is answered. Creating a server fails for want of a free port exactly if as many attempts to listen fail as were allowed.",
  ["configurations", "fault_sequences"], "every network setup (no route, route whose address cannot be bound, connected to, or talked to), any number of servers on one machine",
  "Tests run on the one network setup of the test machine.",
  ["daisy/tcp/tcp_server.py", "daisy/server.py"], [("address detection and validation", "daisy/tcp/tcp_server.py: _get_address"), ("hostname and port", SV+": __init__")],
  [], ["TCPServer.address", "Server.hostname/port"])
p("C27", "A task runs the user's function as its signature says",
  "A function without arguments is run exactly once in every worker of its task; a function of one argument is called by a worker once for every block that the worker receives, with that block and in that order, until the server has no more; any other function is refused when the task is created (arguments with a default count like the others). This holds for plain functions, lambdas, closures, methods and callable objects alike; a serial run calls a function of one argument once for every block of its task, and a task keeps the regions and settings it was created with.",
  ["inputs", "histories"], "every kind of callable, every sequence of blocks sent to a worker, every setting of the task",
  "Tests use plain functions with one or no argument and a fixed number of blocks.",
  ["daisy/task.py", "daisy/worker.py", "daisy/serial_server.py"], [("signature", "daisy/task.py: Task.__init__"), ("worker loop", "daisy/task.py: _process_blocks"), ("transport of the function", "daisy/worker.py: spawn_function")],
  [], ["calls of the user's function", "Task attributes"])
p("C28", "Work on a task begins as soon as it can, with all its workers",
  "When a run begins, and whenever a block is returned or declared lost, every task that then has a block to process is started at once - even if the tasks it depends on are not finished - and gets as many workers as it is configured to have. From then on that number of workers is kept running (apart from those that ended normally, and replacing those that did not), and a worker that asks for a block while its task has one to process, or while nothing is left to process, gets an answer.",
  ["schedules", "histories", "fault_sequences"], "every task graph, every order of returns, crashes and losses",
  "Tests only look at the final result of runs, which does not depend on when tasks are started or on how many workers there are.",
  [SV, "daisy/task_worker_pools.py", "daisy/worker_pool.py"], [("recruiting", SV+": _recruit_workers; daisy/task_worker_pools.py: recruit_workers"), ("event loop", SV+": _event_loop")],
  [], ["start of worker processes", "on_task_start notifications", "messages to clients"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    n = x["statement"].count(". ") + 1
    assert n <= 3, (x["id"], n)
print(len(P))
