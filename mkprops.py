"""Source of properties.jsonl (run: python3 mkprops.py).  Kept as code so that the file stays valid JSON."""
import json, pathlib
P=[]
def p(id,title,statement,over,qtext,why,files,state=(),mech=(),observe=(),hook=False):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
X="src/docket/execution.py"; W="src/docket/worker.py"; D="src/docket/docket.py"
DEP="src/docket/dependencies/"
p("C01","Accepted tasks survive worker crashes (at-least-once)",
 "Once add() reports a task as scheduled, its body is eventually run to completion by some live worker even if workers processing it die abruptly at any point, as long as a worker keeps running and the task is not cancelled, replaced, struck or cleared. A task whose worker died mid-run is redelivered once the redelivery timeout has passed, and afterwards its record reads completed.",
 ["crash_points","schedules"],"every Redis-operation boundary at which a worker can die, before or after the operation takes effect, for immediate, future, retried, perpetual and replaced tasks",
 "A test kills a worker at one or two hand-picked places; loss shows only when the death falls between two particular Redis operations.",
 [W,X,D],[("stream + consumer group","delivered but unacknowledged tasks","docket.py stream_key"),("queue + parked hash","future tasks","docket.py queue_key/parked_task_key")],
 [("atomic scripts _schedule/_claim/_terminal",X),("xautoclaim redelivery and lease renewal",W),("_stream_due_tasks moving due tasks",W)],["task bodies","Execution.state"])
p("C02","Failure-free execution is exactly once, across workers",
 "When no worker dies and no connection fails, every task accepted under a key runs exactly once, however many workers share the docket, however long it runs relative to the redelivery timeout, and whichever order the workers' Redis operations interleave.",
 ["schedules"],"interleavings of the Redis operations of several workers and clients, up to a bound on reordered operations",
 "Double execution needs a particular interleaving of two workers' polls, lease renewals and acknowledgements that timing-based tests do not produce on demand.",
 [W,X],[("pending entries list","which worker holds which message and for how long","consumer group docket-workers")],
 [("lease renewal",W+" _renew_leases"),("ack in terminal script",X+" _terminal")],["task bodies"])
p("C03","A connection failure at any Redis operation loses no task",
 "If any single Redis operation of a serving worker fails with a connection error, whether before or after it took effect, no accepted task is lost: the worker goes on serving (reconnecting if needed) or stops with an error so that it can be restarted, and every accepted task's body still runs to completion. Only a task whose own dependencies or admission gate were being resolved when the error struck may instead be recorded as failed. A worker that serves on, or one restarted, runs, schedules, cancels and is listed as before.",
 ["fault_sequences","schedules"],"every Redis operation a worker issues while processing a workload, each failing before or after taking effect",
 "Tests inject an error at a few chosen calls; the reaction to an error at every other call is never exercised.",
 [W,X,"src/docket/strikelist.py",DEP+"_concurrency.py"],[("pending entries list","unacknowledged messages","stream")],
 [("reconnect loop",W+" _run"),("cancellation listener reconnect",W),("strike monitor reconnect","src/docket/strikelist.py")],["task bodies","Execution.state","Docket.workers()"])
p("C04","A key has at most one live task: add() deduplicates",
 "While a task under a key is scheduled, queued, parked by an admission gate, awaiting a retry or running, add() with that key changes nothing and reports ALREADY_SCHEDULED; once the task has completed, failed or been cancelled, add() with that key is accepted again and runs. Of several concurrent add() calls for a free key exactly one is accepted.",
 ["schedules","histories"],"all interleavings of concurrent add() calls with each other and with the worker's progress through the task's lifecycle, and all operation sequences up to a depth",
 "The window between two steps of a task's lifecycle is too narrow to hit by timing; tests add at a few convenient moments.",
 [X,D,DEP+"_concurrency.py"],[("known marker and state of the run record","whether the key is taken","runs:<key>")],
 [("_schedule existence check",X),("_claim",X)],["Execution.disposition","task bodies"])
p("C05","The latest replace() of a key wins",
 "After replace() returns, the replaced schedule never starts any more unless it had already started, and the replacement runs exactly once with its own arguments, at its own time. A superseded run that is still going on, however it ends (return, exception, retry, reschedule), neither loses, re-runs, nor overwrites the newer schedule or its record.",
 ["schedules","histories"],"replace() arriving at every operation boundary of the replaced task's life (queued, due, claimed, running, failing, retrying, parked), with operation interleavings",
 "Supersession bugs need replace() to land between two specific operations of the running attempt.",
 [X,D,DEP+"_retry.py",DEP+"_perpetual.py",DEP+"_concurrency.py"],[("generation counter","which schedule of a key is current","runs:<key>.generation")],
 [("generation checks in _claim/_terminal/_schedule",X)],["task bodies with arguments","Execution.state"])
p("C06","A cancelled pending task never starts and frees its key",
 "If cancel() returns before a task has been handed to a worker, the task's body never starts, wherever the task was waiting (future queue, ready stream, or parked by a concurrency limit), and the key can be reused at once. Its record reads cancelled, and waiting for its result raises the cancellation error.",
 ["schedules","histories"],"cancel() arriving at every operation boundary before hand-over of an immediate, future, due or parked task",
 "The move from future queue to ready stream happens inside a polling worker; a test cannot place cancel() in between at will.",
 [D,W,X,DEP+"_concurrency.py"],[("stream_id of the run record","where the ready message is","runs:<key>.stream_id")],
 [("_cancel_task",D),("_stream_due_tasks",W)],["task bodies","Execution.state","get_result()"])
p("C07","Cancelling a running task stops it and settles its record",
 "cancel() of a task that is running on a live worker interrupts that run (unless it finishes first), its record settles as cancelled, its cleanup handlers run, and no other task is interrupted. The key can be used again afterwards.",
 ["schedules"],"cancel() at every operation boundary while the task runs, including when an earlier run under the same key ended just before on the same worker",
 "Delivery of the signal depends on the worker's bookkeeping at that instant.",
 [W,D,"src/docket/_cancellation.py"],[("running tasks by key","which local run a cancellation refers to",W)],
 [("cancellation listener",W)],["task bodies","Execution.state"])
p("C08","A strike blocks exactly the matching calls",
 "At any time a call is blocked exactly when the strikes issued and not yet restored include one on its function, one on its function with a matching parameter condition, or one on a matching parameter alone; restoring one strike leaves every other strike in force. Blocked calls are neither scheduled nor, if already scheduled, executed.",
 ["histories","inputs"],"all sequences of strike and restore instructions up to a depth over functions, parameters, operators and values, checked against a set model",
 "The interplay of several overlapping strikes on one function depends on their order; tests use one strike at a time.",
 ["src/docket/strikelist.py",D,W],[("strike tables","strikes in force",'strikelist.py task_strikes/parameter_strikes')],
 [("update()","src/docket/strikelist.py")],["StrikeList.is_stricken","Execution.disposition","task bodies"])
p("C09","All connected dockets converge to the same strikes",
 "Once all issued instructions have been delivered, every connected docket or worker, including ones that join later and ones that issued instructions themselves, agrees on which calls are blocked, and agrees with the order in which the instructions were recorded. A worker that has finished loading strikes has seen every instruction issued before it joined.",
 ["schedules","histories"],"interleavings of concurrent strike/restore calls from two clients and a late joiner, with more instructions than one read batch",
 "Divergence needs two issuers to interleave between recording and applying an instruction.",
 ["src/docket/strikelist.py"],[("strikes stream","total order of instructions","<docket>:strikes")],
 [("_monitor_strikes/send_instruction","src/docket/strikelist.py")],["StrikeList.is_stricken"])
p("C10","Retries make exactly the promised attempts at the promised times",
 "A task with Retry(attempts=n) that keeps failing is attempted exactly n times, numbered 1..n, each next attempt starting no earlier than the promised delay (exponential backoff: minimum doubling each time, capped at the maximum) after the previous failure, and then is recorded as failed; if attempt k succeeds there are exactly k attempts. While a retry is pending the task keeps its key, and cancelling it stops further attempts.",
 ["inputs","schedules"],"all small settings of attempts, delays and success positions, and cancellations at every operation boundary",
 "Tests check single settings; off-by-one errors in one attempt or delay combination remain unseen.",
 [DEP+"_retry.py",X],[("attempt number","carried in the message",X)],[("handle_failure",DEP+"_retry.py"),("reschedule branch of _schedule",X)],["task bodies"])
p("C11","A perpetual task has exactly one successor per run until stopped",
 "Each completed run of a Perpetual task, successful or failed, schedules exactly one successor under the same key, carrying on its arguments (or those it set) after its period (or when the run last asked for it with after() or at()); runs of one key never overlap. A run that cancels itself, and cancel() of the key, whether the successor is pending or a run is under way, end the chain; a replace() by someone else during the run takes precedence over the automatic successor. The chain also goes on, once, after a worker has died or one of its requests has failed.",
 ["schedules","histories"],"operation interleavings of the run's completion with replace()/cancel() by another client, and all short histories of perpetuate/cancel/fail behaviours",
 "Chains break or double only when completion interleaves with another client's operation.",
 [DEP+"_perpetual.py",W,X],[("generation counter","supersession","runs:<key>")],[("on_complete",DEP+"_perpetual.py")],["task bodies"])
p("C12","Automatic perpetual and cron tasks are seeded once and kept alive",
 "With workers running, every automatic task that is not struck is scheduled without any call to add(), has a single chain however many workers start at the same time, and is re-established after its chain is lost. Re-establishing never disturbs a chain that is alive.",
 ["schedules","crash_points"],"startup of two workers with all interleavings up to a bound, worker death at each operation of seeding, and loss of the chain",
 "Seeding races between workers starting together are not reproducible by timing.",
 [W,DEP+"_perpetual.py",DEP+"_cron.py"],[("perpetual lock","who seeds","<docket>:perpetual:lock")],[("_schedule_all_automatic_perpetual_tasks",W)],["task bodies"])
p("C13","Cron tasks run only at, and at every, matching instant",
 "Every run of a Cron task is scheduled for an instant matching its expression in its time zone, strictly later than the previous run's, and the first matching instant after the moment of (re)scheduling, so that with a healthy worker no matching instant is skipped and none runs twice.",
 ["inputs","schedules"],"all expressions, time zones and start instants in a bounded family (including daylight-saving changes and late runs), with an independent definition of matching",
 "Wrong instants appear only for certain start times relative to import, midnight or a clock change.",
 [DEP+"_cron.py"],[("iterator position","next instant",DEP+"_cron.py")],[("Cron.on_complete / initial_when",DEP+"_cron.py")],["Execution.when"])
p("C14","A concurrency limit is never exceeded",
 "At no time do more tasks with the same concurrency key run than the limit allows, whichever workers run them, however long they run, and also after a worker holding a slot has died and its tasks are redelivered, or one of its requests has failed. Tasks with a different key are not held up.",
 ["schedules","crash_points"],"interleavings of acquire, release, renewal and wake-up across workers up to a bound, and worker death at each operation",
 "Over-admission needs a specific interleaving of release, wake-up and a newcomer's acquire.",
 [DEP+"_concurrency.py",W],[("slots","holders with lease times","<docket>:concurrency:*")],[("_acquire_or_park",DEP+"_concurrency.py")],["task bodies"])
p("C15","A task held back by a concurrency limit always gets its turn",
 "Every task parked by a concurrency limit eventually runs once slots become free, whatever interleaving of parking, releasing, cancelling and replacing occurs around it and also if the worker holding the slot dies; each such task runs once and the cancelled ones never do.",
 ["schedules","crash_points"],"interleavings of park, release, cancel and replace up to a bound, and worker death at each operation of holder and parker",
 "A lost wake-up needs the release to fall exactly between a competitor's failed acquire and its parking.",
 [DEP+"_concurrency.py",W],[("waiter stream","parked tasks","<concurrency key>:waiters")],[("_release_and_wake/_scavenge_and_wake/safeguard",DEP+"_concurrency.py")],["task bodies"])
p("C16","A rate limit admits at most its quota in every window",
 "In every time window of the configured length, at most the configured number of executions with the same rate key start. With drop=False the excess executions are postponed and all eventually run; with drop=True they are recorded as cancelled and never run, and calls within quota are never dropped or postponed.",
 ["schedules","inputs"],"all arrival patterns over a small grid of instants and keys, with concurrent executions interleaved across workers",
 "Tests use one burst; the sliding window's edges and concurrent admissions are not covered.",
 [DEP+"_ratelimit.py"],[("window log","admitted starts","<docket>:ratelimit:*")],[("rate limit script",DEP+"_ratelimit.py")],["task bodies","Execution.state"])
p("C17","Debounce runs one submission of a burst, once things have settled",
 "For a burst of submissions under one debounce key, exactly one runs, only after no further submission has arrived for the settle period, and the others are dropped; a later burst runs again. Distinct keys do not affect one another, and a burst whose chosen submission was cancelled does not keep later ones from running.",
 ["inputs","schedules"],"all arrival patterns over a small grid of instants and keys",
 "Which submission is the winner depends on the arrival pattern relative to the settle period.",
 [DEP+"_debounce.py"],[("winner and last-seen","debounce state","<docket>:debounce:*")],[("debounce script",DEP+"_debounce.py")],["task bodies"])
p("C18","Cooldown admits one execution per window per key",
 "After an execution is admitted, further executions with the same cooldown key are dropped and recorded as cancelled until the window has passed, after which one is admitted again; calls outside any window are never dropped, and at most one of several concurrent candidates is admitted.",
 ["inputs","schedules"],"all arrival patterns over a small grid of instants and keys, with concurrent candidates on two workers",
 "Window edges and simultaneous candidates are not sampled by tests.",
 [DEP+"_cooldown.py"],[("cooldown marker","window in force","<docket>:cooldown:*")],[("Cooldown.__aenter__",DEP+"_cooldown.py")],["task bodies","Execution.state"])
p("C19","A task's recorded states and events follow its real life cycle",
 "The record a client reads and the state events it receives for a key move only along scheduled, queued, running, (scheduled or queued again on retry or parking,) completed, failed or cancelled; running is recorded before the body starts and a final state only after it ended, a final state is never overwritten except by a new schedule, every change of the record is announced in order, and every run's final state exactly once. (A cancellation is recorded and announced when it is requested, and the run it interrupts ends shortly after; if that run ends by itself before the request reaches it, its actual outcome follows. A perpetual task's successor replaces the record directly.)",
 ["schedules"],"every prefix of operations of immediate, future, retried, failing, cancelled and rate-limited tasks, the record being read after each operation",
 "A wrong intermediate state is visible only between two operations; tests look after the fact.",
 [X,W,D],[("state field and state channel","life cycle","runs:<key>, state:<key>")],[("_schedule/_claim/_terminal/_stream_due_tasks",X)],["Execution.sync/subscribe"])
p("C20","Waiting for a result always ends, with the task's own outcome",
 "get_result() called at any moment returns exactly the value the task returned, raises the exception it raised, or raises the cancellation error, and it returns as soon as the task reaches its final state; with a timeout it never waits past the deadline. It never hangs on a task that has finished. (With a positive retention: nothing can be said of tasks whose records are not kept.)",
 ["schedules"],"get_result() started at every operation boundary of a task's life, with operation reorderings between the waiter and the worker",
 "The hang needs completion to fall between two operations of the waiter.",
 [X,"src/docket/_result_store.py",W],[("state channel","completion event","state:<key>")],[("subscribe/get_result",X)],["get_result()"])
p("C21","Finished tasks leave nothing behind",
 "When all tasks have finished and the workers have stopped, no data of individual tasks remains except records and results that expire by themselves within the configured retention; with zero retention nothing at all remains. This holds whatever the tasks went through: retries, parking, cancellation, replacement, rate limiting, worker death.",
 ["histories","schedules"],"all short histories of operations per feature, with cancellations at every operation boundary",
 "Leaks appear on rarely taken paths and only show as slow growth in production.",
 [X,D,W,DEP+"_concurrency.py"],[("all keys of the docket","persistent data","Redis keyspace")],[("_terminal/_cancel_task/TTL handling",X)],["Redis keyspace"])
p("C22","clear() removes every pending task and nothing else",
 "clear() removes all tasks that are waiting (future or ready) so that none of them ever starts, returns how many it removed, and leaves running tasks running to a proper end; afterwards the same keys can be scheduled again at once.",
 ["schedules","histories"],"clear() at every operation boundary of a workload with future, ready and running tasks, followed by re-adding the keys",
 "What clear() hits depends on where each task is at that instant.",
 [D],[("stream, queue, run records","pending work","docket.py")],[("clear()",D)],["task bodies","Execution.disposition"])
p("C23","A snapshot reports every live task once, in its true place",
 "A snapshot taken at any moment lists each live task in exactly one of future or running (a ready task, or one parked by a concurrency limit, counts as future), with its own key, function, arguments and time (and, if running, its worker and when it started), lists every worker that is up, and its totals equal the lists. A task that does not move during the snapshot is never missing or listed twice.",
 ["schedules","histories"],"snapshots at every operation boundary of a workload with future, ready, running and retried tasks on two workers",
 "A task in transition is missed only if the snapshot falls in between.",
 ["src/docket/_docket_snapshot.py"],[("stream, queue, pending entries","live work","docket.py")],[("snapshot()","src/docket/_docket_snapshot.py")],["Docket.snapshot()"])
p("C24","A stopping worker finishes its tasks and starts no more",
 "When a worker is asked to stop, at any moment, it starts no further tasks, every body it started runs to its end and is recorded, it removes itself from the list of workers, and the tasks it had not started are run by another worker. It never runs more tasks at once than its configured concurrency.",
 ["schedules"],"a stop request at every operation boundary of a worker processing a workload larger than its concurrency",
 "Shutdown at an arbitrary instant (between delivery and start, say) is not reachable by timing.",
 [W],[("active tasks","bodies in progress",W)],[("_worker_loop finally block",W)],["task bodies","Docket.workers()"])
p("C25","run_until_finished and run_at_most stop exactly when they should",
 "run_until_finished returns once, and not before, no task is waiting, scheduled for later or running, including tasks scheduled by tasks, retries and parked tasks. run_at_most runs each bounded key at most its given number of times, and returns.",
 ["histories","schedules"],"all small workloads of immediate, future, chained, retried, parked and perpetual tasks with operation reorderings",
 "Returning early shows only if the last check falls into a gap between two moves of a task.",
 [W],[("stream length, queue size, active tasks","remaining work",W)],[("check_for_work",W)],["task bodies"])
p("C26","Dependencies are entered once, shared and unwound in reverse order",
 "For every execution each declared dependency is resolved once (shared use included) before the body starts, given to it, and, however the body ends, cleaned up exactly once in reverse order after it; a failing dependency prevents the body from starting and still unwinds those already entered. A worker-shared dependency is set up once per worker, even when tasks ask for it concurrently, and torn down when the worker stops.",
 ["inputs","schedules"],"all dependency graphs up to a size with a failure at every position, and concurrent executions interleaved at suspension points",
 "Only specific graph shapes with a failure at a specific place break the unwinding.",
 [DEP+"_resolution.py",DEP+"_functional.py",W],[("exit stack","cleanup order",DEP+"_resolution.py")],[("resolved_dependencies",DEP+"_resolution.py")],["dependency enter/exit events"])
p("C27","A timeout interrupts an overlong run, never a timely one",
 "A task with Timeout(t) that runs longer than t is interrupted at t (or at t plus the extensions it requested) and treated as failed, or retried if it also has Retry; a task that ends earlier is never interrupted and its outcome is recorded unchanged.",
 ["inputs","schedules"],"all combinations of body duration, timeout, extensions and retry settings on a grid, in virtual time",
 "Tests use generous margins because of real clocks; the edges are unexplored.",
 [DEP+"_timeout.py",W],[("deadline","when to interrupt",DEP+"_timeout.py")],[("Timeout.run",DEP+"_timeout.py")],["task bodies","Execution.state"])
p("C28","Progress belongs to the run that reports it",
 "Progress a run reports is what an observer reads while it runs and is announced in order; every run starts from zero, and neither the end of an older run under the same key nor its late reports alter the progress of a newer one.",
 ["schedules","histories"],"interleavings of an old and a new run of one key (replace during run) with progress reports, and all short sequences of progress operations against a model",
 "Clobbering needs an old run to end while the newer one reports.",
 ["src/docket/_execution_progress.py",X],[("progress record","current/total/message","progress:<key>")],[("_claim/_terminal progress handling",X)],["ExecutionProgress"])
p("C29","No task starts before its time, and due tasks start promptly",
 "A task scheduled for a time never starts before that time, and with a free worker it starts within the worker's polling intervals after it; this holds for replaced, retried and perpetual schedules alike.",
 ["inputs","schedules"],"all placements of tasks' times on a grid relative to now and to the scheduler's polls",
 "Early or stuck starts depend on the alignment of due times with polls.",
 [W,X],[("future queue scores","due times","<docket>:queue")],[("_stream_due_tasks",W)],["task bodies"])
p("C30","Worker listings show exactly the workers that are alive",
 "A worker that is up appears in the list of workers, with the tasks it offers, within one heartbeat of starting and for as long as it runs; one that stops is gone at once and one that dies is gone after the allowed number of missed heartbeats. Listings per task agree.",
 ["crash_points","histories"],"start, stop and death of two workers at every heartbeat phase on a grid, the listing being read throughout",
 "Expiry edges relative to heartbeat phases are not sampled.",
 ["src/docket/_docket_snapshot.py",W],[("workers sets","heartbeats","<docket>:workers")],[("_heartbeat",W)],["Docket.workers()","Docket.task_workers()"])
p("C31","An agenda is scattered completely, in order and within its window",
 "Agenda.scatter schedules every entry exactly once, with its own function and arguments, in agenda order and evenly spread from the start of the requested window to its end (a single entry in its middle), each displaced by no more than the requested jitter and never before the window's start. An entry whose key is in use keeps the schedule it has; an unregistered name or an empty window is refused before anything is scheduled.",
 ["inputs"],"all agendas up to a size over windows, starts and jitters on a grid",
 "Tests check one or two sizes.",
 ["src/docket/agenda.py"],[],[("scatter","src/docket/agenda.py")],["Execution.when","task bodies"])
p("C32","Dockets with different names never affect one another",
 "Tasks, keys, strikes, cancellations, limits, snapshots and clear() of one docket have no effect on another docket on the same Redis, whatever its name, and a task's key may be any text without colliding with other keys or internal data.",
 ["inputs","histories"],"all pairs of operations on two dockets over a family of awkward docket names and task keys",
 "Collisions need particular names.",
 [D,X],[("key prefix","namespace","docket.py key()")],[("key construction",D)],["task bodies","Redis keyspace"])
p("C33","Generated task keys are unique and time-ordered",
 "Keys generated for tasks are valid version 7 UUIDs and all distinct, even when the clock stands still or steps back; within a process they increase strictly in the order of generation as long as the clock does not step back (for up to 16384 keys in one tick of the clock).",
 ["inputs","schedules"],"all short sequences of clock movements (advance, stall, step back) and sequence-counter values including wrap-around",
 "Counter overflow and clock steps do not occur in a test run.",
 ["src/docket/_uuid7.py"],[("last timestamp and counter","monotonicity","src/docket/_uuid7.py")],[("uuid7","src/docket/_uuid7.py")],["uuid7()"])
p("C34","A misbehaving task harms only itself",
 "Whatever a task does within its own code (it raises exceptions that cannot be stored, loaded or printed, or a CancelledError of its own; its result cannot be stored or loaded; its dependencies fail to be set up or cleaned up, or swallow its exception; its arguments don't fit, cannot be loaded, compared or printed, or nobody knows its function), the worker goes on running the other tasks, and that task ends, being retried if it asks for that, with a recorded outcome on which waiting for it ends. It is only recorded as completed once its dependencies have been cleaned up. A strike instruction that cannot be loaded doesn't keep others from taking effect. (Exceptions that aren't Exceptions, such as SystemExit, end the worker as in any Python program.)",
 ["inputs"],"every kind of misbehaviour at every place (call, dependency set-up, body, clean-up, result) with every feature, beside ordinary tasks, and all pairs of a selection",
 "Tests raise well-behaved exceptions; one odd exception or argument takes down every worker it is redelivered to in turn.",
 [W,X,DEP+"_resolution.py","src/docket/strikelist.py"],[("active tasks","bodies in progress",W)],[("_execute, start_task",W)],["task bodies","Execution.state","Docket.workers()"])
p("C35","Every run receives exactly the call that was accepted",
 "A run gets the positional and keyword arguments of the very call accepted under its key, equal in type and value, whichever way it reached the worker (at once, ahead of time, replaced, retried, parked, rate-limited, redelivered, added again under a used key) and whatever else runs beside it; a perpetual run gets those of the run before it, or those that set for it. The key, execution, docket, worker and arguments it can ask for are its own, and no run and no record a client reads ever mixes two calls. (Arguments a run itself changes in place are set aside.)",
 ["inputs","schedules","crash_points"],"a list of signatures and argument shapes and values through every way to a worker, all under way at once, and replacing calls at every operation of two keys' lives",
 "The ways to a worker copy the call field by field in different scripts; tests pass a few arguments through one of them.",
 [X,W,D],[("message fields","the call","stream messages, parked:<key>, runs:<key>")],[("_schedule, _stream_due_tasks",X),("_execute",W)],["task bodies","Docket.get_execution","CurrentExecution/TaskKey/TaskArgument"])
p("C36","The metrics agree with what the tasks did",
 "Once everything is over, the counters say what happened: every attempt that started is counted started and completed once and timed once, under its task and worker, every one that ended well succeeded, every one that raised, timed out or whose dependencies failed failed, every retry retried, every successor perpetuated; every accepted, replacing, cancelled and struck call is counted once, and every attempt of a redelivered message redelivered. tasks_running is at least the number of bodies running and returns to zero; punctuality and duration add up to the delays and times there were; queue_depth and schedule_depth are the tasks that wait ready (those running may be included) and those scheduled for later; strikes_in_effect is the number of distinct strikes in force. (An attempt turned away by a concurrency or rate limit also counts as started and completed; a perpetual successor also counts as a replacement.)",
 ["schedules","histories"],"every kind of run with a user adding, replacing, cancelling and striking at every operation, redelivery, all short sequences of strikes and restorations, and all mixes of waiting, due, scheduled and running tasks",
 "Tests assert on single increments of a mocked counter; sums that drift over cancelled, retried or repeated histories are nobody's assertion.",
 [W,D,DEP+"_retry.py",DEP+"_perpetual.py","src/docket/strikelist.py","src/docket/instrumentation.py"],[("counters and gauges","what the tasks did","src/docket/instrumentation.py")],[("_execute, _heartbeat",W),("add, replace, cancel",D),("_count","src/docket/strikelist.py")],["OpenTelemetry instruments","task bodies"])
p("C37","Logs show the arguments they are to show, and no others",
 "However a call is made and however it goes (run, retried, timed out, limited, struck, replaced, cancelled, superseded, unknown to the worker, unreadable, not storable, redelivered, in the midst of errors and deaths), nothing docket logs reveals an argument unless the parameter that takes it is annotated Logged; with length_only, of an argument that has a length only that length. The lines that tell of a run show its key and the arguments of its Logged parameters. (What the values of strikes, keys, and messages of exceptions raised by tasks reveal is set aside.)",
 ["inputs","schedules","crash_points"],"all signatures of up to three parameters of every kind, plain, Logged or logged by length, in every way of passing arguments; 13 kinds of task with a user, errors and deaths at every operation",
 "Tests look at one log line of a plain signature; a secret shown on a rare path, or by a signature that maps arguments otherwise, shows only when all of them are read.",
 [X,W,"src/docket/annotations.py","src/docket/strikelist.py",DEP+"_retry.py",DEP+"_perpetual.py"],[("log records","arguments","Execution.call_repr")],[("call_repr",X),("Logged.format","src/docket/annotations.py"),("_is_match","src/docket/strikelist.py")],["log records"])
p("C38","The assertions of docket.testing tell what is scheduled",
 "Of the calls accepted and neither started, cancelled nor replaced since (those ready and those for later, with the arguments last given; not those being run), assert_task_scheduled passes exactly if one matches, and assert_task_not_scheduled exactly if none does: the function (or its name), the positional arguments exactly if asked for, the keyword arguments asked for among those passed, and the key if asked for. assert_task_count passes exactly for their number (of one function or all), assert_no_tasks exactly if there are none; otherwise each raises AssertionError. Asking changes nothing.",
 ["inputs","histories","schedules"],"all multisets of up to two calls of 20 kinds (ready, later, replaced, cancelled, running, ended, struck, made anew), with each of some hundred to 420 queries, by function and by name; over a hundred tasks; and questions all along two workers' schedules",
 "A user's tests stand on these: an assertion that passes when it should fail hides defects, and what it says depends on every way a task can come and go.",
 ["src/docket/testing.py","src/docket/_docket_snapshot.py",D],[("snapshot","waiting tasks","Docket.snapshot")],[("assert_task_scheduled, assert_task_count","src/docket/testing.py"),("snapshot",D)],["docket.testing"])
pathlib.Path(__file__).with_name("properties.jsonl").write_text("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
