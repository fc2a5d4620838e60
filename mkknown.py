#!/usr/bin/env python3
"""Writes known_findings.json (by hand, never by a check)."""
import json, os, subprocess
FIXED = [   # property, start of the commit subject, what failed
    ("C06", "fix: record the stream entry of due", "a due task moved to the ready stream could not be removed by cancel() or replace() and still started"),
    ("C05", "fix: a superseded run must not reschedule", "a run superseded by replace() that failed with Retry rescheduled the old call over the replacement"),
    ("C05", "fix: a superseded run must not overwrite the newer", "a superseded run that ended after the replacement stored its own result under the key"),
    ("C06", "fix: clean up cancelled waiters", "cancelling a parked task on the memory backend killed the cancel subscriber (HMGET) and left its waiter entry"),
    ("C15", "fix: dropped waiters must not use up", "a freed slot spent on a cancelled waiter left the next parked task waiting"),
    ("C04", "fix: a parked task keeps its key", "add() was accepted while the key's task was parked, and stale waiter entries were woken after replace()"),
    ("C07", "fix: the end of an older run must not", "after an older run of a key ended, cancel() no longer reached the newer run"),
    ("C07", "fix: cancelling a task while it is being claimed", "cancel() arriving during the claim shut the whole worker down"),
    ("C06", "fix: a task cancelled between its delivery", "a task cancelled between delivery and claim still ran"),
    ("C15", "fix: a late lease renewal must not bring back", "a slot renewal in flight at release recreated the slot and blocked the waiters"),
    ("C15", "fix: keep guarding a parked task", "the safeguard of a parked task fired only once; a holder dying later stranded the task"),
    ("C03", "fix: a worker whose connection fails must not hang", "an error of a task's operation together with one while closing the cancellation subscription left the worker hanging: "
     "heartbeating, but neither processing tasks nor stopping"),
    ("C08", "fix: a worker starts nothing before it knows", "a worker without automatic tasks could run tasks struck long before it started (it did not wait for the strikes in effect to be loaded)"),
    ("C36", "fix: the gauge of strikes in effect", "docket_strikes_in_effect counted striking the same thing twice as two strikes, and fell below zero on restoring what was not struck"),
    ("C21", "fix: the due message of a key whose", "a safeguard that put itself off just as its waiter was woken left its record (runs:__safeguard__:<key>) for ever: due, it was moved to the stream, which made a new record, and then found superseded"),
    ("C37", "fix: a strike that can't be compared", "comparing an argument with a strike's value that it can't be compared with logged the argument, Logged or not"),
    ("C37", "fix: an argument is logged only if", "f(*rest, id: Annotated[int, Logged]) called with two or more positional arguments logged the second, and f(x: Annotated[int, Logged], /, **kw) called with a keyword x logged that"),
    ("C08", "fix: blocking a stricken task leaves", "a worker blocking a struck call whose key had just been replaced by (or cancelled and added again with) a call no strike matches forgot the new call: another was accepted under its key, and the new one never ran"),
    ("C08", "fix: a strike on an entire task holds", "a strike on a whole function was lost when a parameter strike on the function existed, was added or was restored"),
    ("C09", "fix: a late local update must not undo", "an issuer applying its own instruction after its monitor had read newer ones diverged from all other dockets"),
    ("C10", "fix: exponential retries must not give up", "ExponentialRetry.forever() failed its task at the 48th attempt (OverflowError computing the delay)"),
    ("C02", "fix: a new schedule must not inherit the expiry", "a key used again after its task had ended kept the old record's TTL: schedules still waiting when it elapsed were lost"),
    ("C06", "fix: the expiry of a cancelled task must not fall", "cancel() expired or deleted the record of a schedule made right after the cancellation took effect, which was then lost"),
    ("C11", "fix: the end of a perpetual run must not undo", "a replace() between a perpetual run's supersession check and its successor was lost; a self-cancelling run cancelled a newer schedule"),
    ("C13", "fix: a cron task is first scheduled for the next instant from now", "an automatic cron task declared before its worker starts was scheduled for an instant already past; around clock changes an instant was scheduled twice"),
    ("C18", "fix: per-parameter controls must see arguments passed by position", "per-parameter cooldown, debounce and rate limits used one key for all values passed by position or by default"),
    ("C18", "fix: a task blocked by one admission control", "a call dropped by a cooldown was also parked by a concurrency limit, and ran later"),
    ("C18", "fix: a cooldown must not drop the very execution", "a redelivered task, or one that waited for another control, was dropped by its own cooldown marker; the example of two cooldowns in the documentation did not hold"),
    ("C16", "fix: a rate limit must not count a redelivered execution", "a redelivered task was dropped or postponed on account of its own first delivery; tasks made to wait by another control used up quota"),
    ("C17", "fix: a cancelled task must not block its debounce key", "after the chosen submission was cancelled, all later submissions were dropped while they kept coming"),
    ("C27", "fix: a task under a Timeout that raises its own", "a task with a Timeout that raised a TimeoutError of its own was recorded as completed with None, as was the result of one ending in the moment of its timeout"),
    ("C19", "fix: a run cancelled before it was admitted", "a task cancelled between claim and admission was parked by its concurrency limit and its cancelled record became scheduled again"),
    ("C19", "fix: a perpetual task that ends itself", "Perpetual.cancel() recorded a run as cancelled just before it was recorded as completed"),
    ("C19", "fix: a late cancellation does not overwrite", "a cancellation striking while the outcome was being recorded turned a completed run's record into cancelled"),
    ("C20", "fix: cancelling a task announces it", "waiting for the result of a task that was cancelled before it ran never ended"),
    ("C20", "fix: waiting for a result does not miss", "waiting for a replacement while the older run ended returned None; a task that ended just before the subscription was live was waited for forever"),
    ("C22", "fix: clear() frees the keys", "after clear() the keys of cleared ready tasks stayed taken, parked tasks were left (and ran), and running tasks' messages were dropped: a worker's death lost them"),
    ("C03", "fix: a parked task is guarded from the moment", "an outage between parking a task and adding its safeguard could strand it"),
    ("C24", "fix: a worker that is stopping keeps", "a stopping worker gave up its leases, so that its running tasks were run again elsewhere, and was deaf to cancellations"),
    ("C24", "fix: a request to stop while reconnecting", "a worker asked to stop while reconnecting cancelled its running tasks"),
    ("C23", "fix: snapshot() works on the in-memory backend", "snapshot() raised KeyError on the memory backend while a task was running"),
    ("C23", "fix: a snapshot lists all tasks", "with more than a thousand ready or running tasks a snapshot left some out or showed running tasks as future"),
    ("C23", "fix: a snapshot does not fail", "a task of a function not registered with the docket taking the snapshot (any parked task's safeguard) made snapshot() raise"),
    ("C23", "fix: a snapshot lists parked tasks", "parked tasks were missing and their internal safeguards were listed instead; the total counted those"),
    ("C23", "fix: a snapshot shows when", "the start of a running task was shown as the time of its last lease renewal"),
    ("C21", "fix: without retention, too, a task cancelled as it is", "with execution_ttl=0 a cancellation racing a reschedule or retry revived the task and left its record for ever"),
    ("C25", "fix: replacing a parked task takes its safeguard", "replacing a task parked by its concurrency limit left its old safeguard scheduled: run_until_finished did not return until it fired"),
    ("C34", "fix: an exception that cannot be stored", "a task raising an exception that cannot be pickled or printed stopped the worker"),
    ("C34", "fix: arguments that cannot be loaded", "a task whose arguments cannot be loaded stopped every worker that received it, and made snapshot() raise"),
    ("C34", "fix: an argument that cannot be compared", "an argument whose comparison with a struck value raises stopped the worker"),
    ("C34", "fix: an argument that cannot be printed", "an argument whose repr raises stopped the worker when its call was logged"),
    ("C34", "fix: a task is not completed before", "a task whose dependency's cleanup fails was announced completed and then failed, or completed and then retried"),
    ("C34", "fix: a strike instruction that cannot be loaded", "a strike of a value that one process cannot load kept all further strikes from taking effect there"),
    ("C28", "fix: tasks running at once don't report", "the Progress of a parameter's default was shared: of two tasks running at once, one's reports went to the other"),
    ("C28", "fix: a new run doesn't announce the progress", "a retried run's announcements carried the message of the previous run"),
    ("C28", "fix: a superseded run's late reports", "a run replaced while running went on changing the progress of its successor; concurrent reports were announced out of order"),
    ("C30", "fix: a worker that comes back", "a worker that died and came back with fewer tasks was listed with those it no longer offers, for ever"),
    ("C19", "fix: a cancelled run whose retry", "cancel() that reached both a scheduled retry and the run that had just scheduled it (its reply still on the way) was announced twice as cancelled"),
    ("C32", "fix: a docket's running tasks are not", "cancelling a task cancelled the running task of that key of a docket whose name is a matching glob pattern (or is nested); a docket with [ in its name could not cancel at all"),
]
FINDINGS = [
    {"property": "C05", "id": "late-result-write", "scenario": "two-replacers", "key": "result",
     "what": "history: an older run passes its supersession check, then its result is written only after the replacement has run to completion and stored "
             "its own; results are stored under the task key without a generation, so the older result stays (deviations: replace held past the claim, "
             "result SET held past the replacement's)"},
    {"property": "C32", "id": "parked-data-name", "scenario": r"internal-(queue|stream|workers|strikes|(runs|progress|known|stream-id):(run|parked)|worker-tasks:w|task-workers:job|concurrency:who:x|cooldown:cooled)-\w+", "key": ".*",
     "what": "input: a task scheduled for later (or cancelled) under a key that is the name of the docket's own data (queue, stream, workers, strikes, worker-tasks:W, task-workers:F, those of limits) or of another key's "
             "(runs:K, progress:K, known:K, stream-id:K): a scheduled task's data is kept under <docket>:<key> without a namespace of its own; moving it would break mixed versions during an upgrade"},
]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
fixed = []
for p, s, w in FIXED:
    h = [l.split(" ", 1)[0] for l in log if l.split(" ", 1)[1].startswith(s)]
    assert len(h) == 1, (s, h)
    fixed.append(f"fixed: property={p} {h[0]} {w}")
json.dump({"findings": FINDINGS, "fixed": fixed}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.json"), "w"), indent=1)
print(len(FINDINGS), "findings,", len(fixed), "fixed;", len([l for l in log if " fix: " in " " + l]), "fix commits")
