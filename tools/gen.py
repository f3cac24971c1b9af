#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q = "aj_core/src/queue.rs"; J = "aj_core/src/job/mod.rs"; A = "aj_core/src/aj.rs"; R = "aj_core/src/job/retry.rs"
C = "aj_core/src/job/job_context.rs"; M = "aj_core/src/backend/mem.rs"; RD = "aj_core/src/backend/redis.rs"; T = "aj_core/src/backend/types.rs"
P = "aj_core/src/plugin"; MA = "aj_macro/src/lib.rs"; X = "aj_core/src/job/executable.rs"
props = []
def p(id, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    props.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mech=mech, observe=observe, technique=technique, note=note))
NOTE = ("Explicit enumeration of every path of the suites' choice trees on the real crates, on a controlled actix runtime and clock, "
        "stepped together with a reference machine; holds within the stated bounds. Trusted: the runtime stand-in (mcrt), tokio's paused clock, the oracle. ")

p("C01", "Every accepted one-shot job is executed exactly once",
  "A job without retry and cron that is accepted by any submission path (run, just_run, add_job, enqueue_job) is executed exactly once - never lost, never executed twice - whatever else is submitted, running or waiting, in any number, on the in-memory and the Redis backend. It ends as Finished or Failed according to its own outcome.",
  ["histories", "schedules", "configurations"], "all histories of submissions, outcomes and polls, all numbers of waiting jobs, all interleavings of clients with the polling queue",
  "The tests run a handful of fixed jobs one at a time in real time; loss and duplication need particular numbers of jobs (batch size 20), limits, delays or interleavings.",
  [Q, J, A], [("pick_ready_jobs / execute_job_task / mark_job_*", Q), ("InitWorkQueue, JustRunJob", A)],
  ["executions seen by the job itself", "AJ::get_job"],
  "stateless model checking: exhaustive histories and deviation-bounded schedules of the real engine against a reference machine",
  NOTE + "3 (4) jobs, up to 61 jobs in bulk, at most 2 (3) scheduling deviations.")
p("C02", "The reported job record always tells the truth about the job's life",
  "At every moment get_job reports the status (Queued, Running, Finished, Failed, Canceled) the job really is in, a run count equal to its executions so far, and time stamps of the moments it was queued, last started, completed or cancelled. Each execution calls pre_execute, execute and post_execute once, in this order, and the output after post_execute decides Finished or Failed.",
  ["histories", "schedules"], "all histories of submit, cancel, retry, resubmit, polls and job endings, observed after every step and by a concurrent reader",
  "Tests look at the status at a few points of a few fixed histories; a wrong or stale record appears only in particular histories or between particular steps.",
  [J, Q, C], [("enqueue/process/finish/cancel/fail", J), ("execute", J)], ["AJ::get_job", "the job's own callbacks"],
  "stateless model checking: all histories to depth 4 (5), record compared with a reference machine after every step; deviation-bounded concurrent observer",
  NOTE + "Depth 4 (5), 7 kinds of job.")
p("C03", "Delayed jobs never start early and start within one polling interval",
  "A job scheduled for an instant (schedule_at, delay, or a past instant) is never started before it, to the microsecond, and is started at the latest one polling interval after it when a slot is free. Waiting jobs, however many and wherever in the queue, never keep due jobs from being started.",
  ["inputs", "histories", "configurations"], "all due instants relative to the polls, all mixtures and numbers of waiting and due jobs, polling intervals, limits",
  "Tests use one delayed job and wall-clock sleeps; boundary instants, sub-millisecond distances and queues longer than one batch are not reached.",
  [J, Q, C], [("is_ready, schedule_at, delay", J), ("process_jobs, pick_ready_jobs rotation", Q)], ["start instants seen by the job"],
  "stateless model checking on a virtual clock: exhaustive enumeration of due instants, queue contents and intervals",
  NOTE + "Up to 600 waiting jobs; instants around every poll, microsecond resolution.")
p("C04", "Running jobs never exceed the queue's limit and freed slots are used again",
  "At no moment are more jobs of a type executing than max_processing_jobs (20 by default), not even when backend operations fail, and whenever fewer are executing a waiting due job is started within one polling interval; every way for an execution to end (success, failure, retry, next cron run, panic) frees its slot. An update of the limit or interval takes effect by the next poll and never disturbs running jobs.",
  ["configurations", "histories", "schedules"], "all limits (0, 1, .., beyond the batch size), numbers of jobs, job lengths, endings, and limit changes in between",
  "No test looks at the limit; a leak or an overshoot by one needs full slots, a particular way of ending or a configuration change at the right time.",
  [Q], [("pick_jobs_to_process, remove_processing_job, re_enqueue", Q), ("WorkQueueConfig update", Q)], ["concurrently executing jobs"],
  "stateless model checking: exhaustive limits x loads x endings x reconfigurations against a reference machine",
  NOTE + "Limits 0..70000, up to 300 jobs; one failing backend operation anywhere.")
p("C05", "A cancelled job never runs; cancelling anything else changes nothing",
  "After cancel_job is acknowledged for a waiting job (queued, delayed, waiting for a retry or for its next cron run) it is reported as Canceled and is not executed any more unless it is submitted or retried again. Cancelling a running, done or unknown job succeeds without any effect, and no cancellation affects another job.",
  ["histories", "schedules"], "all histories of cancel with submit, retry, polls, endings; cancel racing with the poll; positions in long queues",
  "Tests cancel one job once; what happens in the other states, at the instant of the poll and for jobs deep in the queue is untested.",
  [Q, A], [("cancel_job", Q), ("cancel_job", A)], ["executions", "AJ::get_job", "answers of cancel_job"],
  "stateless model checking: all histories to depth 4 (5), deviation-bounded races of cancel with the poll",
  NOTE + "Depth 4 (5), up to 260 queued jobs, 3 (4) deviations.")
p("C06", "Failed executions are retried exactly as often as the policy allows",
  "A job with a retry policy is executed again after each failed execution until one succeeds or the maximum number of retries is used up (unlimited if there is none), and never after a success; it then ends as Finished or Failed according to its last execution. While it waits it is reported as Queued, its payload keeps the changes of earlier executions, and a retry_at defined by the job itself decides instead of the policy.",
  ["inputs", "histories"], "all outcome sequences, maxima (0, 1, .., none), strategies, retry decisions of the job's own",
  "Tests run one retry configuration; off-by-one counts and wrong final states need particular outcome sequences.",
  [Q, R, X], [("execute_job", Q), ("should_retry, retry_at", R)], ["executions", "AJ::get_job"],
  "stateless model checking: every outcome sequence x policy on the real engine against a reference machine",
  NOTE + "Outcome sequences to length 4 (5), up to 260 retries.")
p("C07", "Retries happen after the configured delay, for every strategy and count",
  "With an interval strategy each retry is due exactly the interval after the execution failed; with exponential backoff the k-th retry is due initial delay x 2^k after it (up to k = 30, and never sooner than that for larger k). No combination of delay and count makes the engine panic, wrap around or retry at once, and no retry starts before it is due or later than one polling interval after it.",
  ["inputs", "histories"], "all strategies, delays from 0 to years, retry counts up to 70, with and without persisting the policy in between",
  "Tests check one or two delays; overflow and drift appear at large counts and delays.",
  [R, Q], [("Retry::retry_at, RetryStrategy", R)], ["start instants of executions", "Retry API"],
  "exhaustive enumeration of strategy x delay x count on the real type and on the real engine under a virtual clock",
  NOTE + "Counts to 70 on the type, to 6 through the engine.")
p("C08", "Manual retry re-runs done jobs once and refuses all others",
  "retry_job answers true exactly for a job that is Finished, Failed or Canceled; that job is then executed again (a cron job unless its end has passed), once per acknowledged retry, with its current payload and the automatic retries it has left. For a waiting, running or unknown job it answers false and changes nothing.",
  ["histories", "schedules"], "all histories of retry with submit, cancel, polls and endings; two concurrent retries; retries of several jobs",
  "Tests retry one finished job once.",
  [Q, A], [("retry_job, re_enqueue", Q), ("retry_job", A)], ["answers of retry_job", "executions", "AJ::get_job"],
  "stateless model checking: all histories to depth 4 (5), deviation-bounded concurrent retries",
  NOTE + "Depth 4 (5), 7 kinds of job.")
p("C09", "Cron jobs run once per slot of their expression, never outside of it",
  "A cron job is executed for the successive instants of its expression after it was built (submitted, if it is built at once) and after each execution: never before the instant, at most one polling interval after it, once per instant and never while its previous execution is still going on; instants that pass during an execution are skipped, not caught up. A cron job whose execution fails and is retried keeps its cron schedule afterwards.",
  ["inputs", "histories"], "all expressions of a set, phases of submission relative to the slots, execution lengths, outcomes and retries",
  "Tests run one every-second job for two ticks; phase, long executions and retries are not covered.",
  [J, Q, C], [("next_tick, is_ready", J), ("new_cron", C)], ["start instants"],
  "stateless model checking on a virtual clock: expression x phase x length x outcomes against a reference machine",
  NOTE + "Expressions with seconds to hourly slots, up to 300 runs.")
p("C10", "Cron limits are honoured exactly and the job then ends as done",
  "A cron job with max_repeat n is executed exactly n times (none for 0 or less); one with end_at is never executed for an instant after it; when the limits or the instants of the expression itself are used up the job ends as Finished (or Failed if the last execution failed) and frees its slot. A cron job whose last instant (or retry) passes while it still waits becomes done as well, as Finished and without an execution.",
  ["inputs", "histories"], "all max_repeat values, end instants relative to slots and polls, expressions that run out, execution lengths and outcomes",
  "Tests do not reach an end of a cron job except one max_repeat case.",
  [J, Q, C], [("next_tick, is_expired", J), ("pick_ready_jobs", Q)], ["executions", "AJ::get_job"],
  "stateless model checking on a virtual clock: limit x end instant x expression x length, reference machine",
  NOTE + "max_repeat 1..300 and none, end instants around every slot.")
p("C11", "Resubmitting an id follows the enqueue configuration in every state",
  "Submitting an id that exists follows its EnqueueConfig: a done job is queued again only if re_run is set, with the new payload and context if override_data is set and with its own otherwise; without a re-run, override_data replaces the payload of a waiting or done job (and the context of a waiting one) in place. A running job is never disturbed nor executed twice at once, and nothing else changes. update_job replaces the payload (and the context, if given) of a known job the same way as a submission with re_run, and ignores an unknown one.",
  ["histories", "configurations", "schedules"], "all states of the existing job x configurations x submission paths, and all histories of them",
  "Tests cover two or three of the combinations.",
  [Q, A], [("run_with_config", Q), ("update_job, add_job", A)], ["executions and their payload", "AJ::get_job"],
  "stateless model checking: complete state x configuration matrix and all histories to depth 4 (5)",
  NOTE + "Depth 4 (5).")
p("C12", "Plugins see every execution and every status change exactly once",
  "Each registered plugin is told before_run exactly once for every execution and after_run exactly once for every one that returns, and change_status once for every status the job enters, with that status; before_run is over before the execution (pre_execute, execute, post_execute) begins and after_run begins after it ended. A plugin registered later sees everything from then on, and no plugin, even a slow or panicking one, changes which jobs run or how they end.",
  ["histories", "schedules"], "all histories, numbers of plugins, registration times, slow plugins",
  "One test registers one plugin and looks at one hook.",
  [P + "/mod.rs", P + "/job_plugin.rs", J, Q], [("PluginCenter", P), ("status hooks", J)], ["plugin callbacks"],
  "stateless model checking: all histories to depth 3 (4) with 1..3 plugins, callbacks compared with the reference machine",
  NOTE + "Order of status notifications only checked while the plugin actor keeps up.")
p("C13", "Both backends implement the same list and map contract",
  "On the in-memory and on the Redis backend, pushing adds an item to the front of a list; moving takes up to n items from one end of a list to an end of another, in order; reading returns up to n items from an end without removing them; removing deletes all equal items; counting counts; upserting and reading back by key returns the last value. Empty or unknown lists and keys are empty results, not errors, and a failing Redis server yields an error, never a panic or an invented result, and a change cut off by such a failure loses and duplicates no item.",
  ["histories", "inputs", "fault_sequences"], "all sequences of operations to a depth, all directions and counts, all replies of a failing server",
  "Tests exercise one fixed sequence on the in-memory backend and need a server for the other.",
  [M, RD, T], [("Backend for InMemory", M), ("Backend for Redis", RD), ("get_from_storage, upsert_to_storage", T)], ["results of the Backend operations"],
  "explicit-state model checking: all operation sequences to depth 4 (5) on both real backends, compared with a model after every operation",
  NOTE + "Redis is the real client code against an in-process server that speaks its wire protocol. Moves within one list only for single items, where the two agree.")
p("C14", "The in-memory backend is atomic under concurrent threads",
  "Operations of the in-memory backend issued by several threads behave as if they were executed one after the other in some order consistent with each thread's own order and real time: no item or value is lost, duplicated or seen half-moved, and no interleaving deadlocks or panics.",
  ["schedules", "programs"], "all programs of a size over the operations, all interleavings of the threads up to a preemption bound",
  "Tests are single-threaded; thread interleavings cannot be sampled meaningfully.",
  [M], [("locking of InMemory", M)], ["results of the operations, final contents"],
  "stateless model checking of the real code on a controlled std (every lock and atomic operation a scheduling point), linearizability check of every execution",
  "Every interleaving of the synchronisation operations, up to the preemption bound in the larger suites, sequential consistency assumed. Trusted: the std facade (tstd) and its scheduler.")
p("C15", "One failing backend operation never loses, doubles or wedges jobs",
  "If any single backend operation fails, the call it belongs to reports the failure or takes effect completely, an accepted job is still executed and not more often than it should be, and every job ends in a done state. The queue keeps polling and serving other jobs with its slots, and never exceeds its limit.",
  ["fault_sequences", "histories"], "a failure of any one backend operation in all histories of a set",
  "No test injects a backend failure.",
  [Q, J, T], [("error handling in enqueue, re_enqueue, pick_ready_jobs, execute_job_task", Q)], ["answers", "executions", "AJ::get_job"],
  "fault enumeration by model checking: every single failure point of every history of the suites on the real engine",
  NOTE + "Exactly one failure; a failed operation has no effect on the data. Known finding: a failed removal from the running list costs the slot.")
p("C16", "A stop at any point loses no acknowledged job and starts no done job again",
  "If the process stops at any point, between or during its accesses to the backend, and the engine is started again on the same data, every acknowledged job is still known with its payload; jobs that were waiting are executed when due, as often as they still should be, and jobs that were done stay done and are not executed again. New jobs are accepted and executed.",
  ["crash_points", "histories"], "a stop before or after any backend operation and after any command sent to Redis, in all histories of a set, and a second stop during recovery",
  "No test restarts the engine.",
  [Q, J, T, RD], [("order of backend operations in enqueue, re_enqueue, pick_ready_jobs, mark_job_*", Q)], ["executions after the restart", "AJ::get_job"],
  "crash-point enumeration by model checking: every stop point of every history of the suites, recovery run on the real engine",
  NOTE + "Operations of the in-memory backend and single Redis commands are atomic and durable. Known finding: jobs in flight at the stop stay Running and keep their slots.")
p("C17", "Job types are isolated from each other",
  "Every job type has its own queue: its jobs are executed by that type only, and limits, polling intervals, configuration updates, full slots, delays, cancellations, retries, failures, panics and thread-blocking executions of one type never affect the jobs of another type that shares the backend (with other ids).",
  ["histories", "configurations", "schedules"], "all histories over two and three types, limits and intervals per type",
  "Tests use one type at a time.",
  [A, Q], [("Registry, register", A), ("format_queue_name", Q)], ["executions", "AJ::get_job"],
  "stateless model checking: all histories of 4 (5) steps over several types against a reference machine",
  NOTE + "Known finding: ids are shared between types.")
p("C18", "Concurrent starts and first submissions give one engine and one queue per type",
  "However many threads or tasks start the engine, with whatever backends and in whatever interleaving, one engine results, every start returns it, and the backend of the first one stays in use; starting works inside and outside of an actix runtime; concurrent first submissions of a type create one queue and all are accepted; a type whose queue name is already taken is refused with an error, and all others go on. Other calls on a type that was never used answer with an error or nothing found, without side effects.",
  ["schedules", "histories"], "all interleavings of 2..3 starting threads up to a preemption bound; all deviation-bounded schedules of first submissions; all orders of calls",
  "The tests start the engine once per process, from one thread.",
  [A], [("AJ::start, AJ_ADDR", A), ("InitWorkQueue, register", A)], ["addresses", "contents of the backends", "executions"],
  "stateless model checking: all thread interleavings (preemption-bounded) of the real start on a controlled std, all schedules of first use",
  NOTE + "2 (3) preemptions, 2 (3) deviations.")
p("C19", "Payload, id and context survive every trip through the engine unchanged",
  "The payload a job is executed with and that get_job returns is exactly the submitted one (or the one the last execution left), for every value that survives serialisation; any other is refused with an error, never accepted and lost. The same holds for its id, schedule (to the microsecond), cron and retry settings and creation time. Generated ids are unique and run returns the id under which the job is found.",
  ["inputs", "histories"], "all payload shapes and extreme values of a set, ids, contexts, on both backends",
  "Tests use plain short values.",
  [J, C, T, R], [("serde of Job, JobContext, JobType, Retry", C), ("set_id, set_context, builders", J)], ["payload seen by the execution", "AJ::get_job"],
  "exhaustive enumeration of payload, id and context shapes through the real engine and both backends",
  NOTE + "Bounded value sets per shape.")
p("C20", "Functions annotated with #[job] run in background with exactly their arguments",
  "For an annotated function - sync or async, any number and order of arguments, any return type - run, just_run, run_with_context and just_run_with_context each execute its body once in background with exactly the arguments given, in their places, under the id, schedule and retry of the given context. Calling the function itself still runs it directly, and different functions never share a queue or arguments.",
  ["programs", "inputs", "histories"], "function shapes x entry points x argument values x contexts, and all short histories of calls",
  "Tests call two functions with one entry point each.",
  [MA], [("job attribute, BackgroundJob derive", MA)], ["records of the function bodies"],
  "exhaustive enumeration of function shapes x entry points x arguments x contexts on the real macro and engine",
  NOTE + "16 function shapes; if they stop compiling that is a violation. Known finding: two functions of one name in two modules, or of names that differ in an underscore.")
p("C21", "A panicking job fails alone",
  "A job that panics - at once, after a suspension, in any of its executions, with or without retry or cron - is counted as executed, ends as Failed (without automatic retries or further cron runs), frees its slot and can be retried or submitted again. All other jobs, of its own and of other types, before and after it, are executed as if it had not panicked.",
  ["histories", "schedules"], "all histories mixing panicking jobs with others, positions, numbers and limits",
  "No test lets a job panic.",
  [Q], [("execute_job_task", Q)], ["executions", "AJ::get_job"],
  "stateless model checking: all histories with panicking jobs against a reference machine",
  NOTE + "Panics unwind (the default).")
p("C22", "Due jobs are started in the order in which they were accepted",
  "Of two jobs of one type that are due when they are accepted, the one accepted earlier is never started at a later poll than the other, whatever the limit, the number of jobs and the delayed or cancelled jobs between them. A waiting job that is submitted again or updated keeps its place; a job that is queued again after it was done goes behind those that wait already.",
  ["histories", "configurations"], "all numbers of jobs around the batch size, limits, mixtures with delayed and cancelled jobs, endings",
  "No test looks at the order.",
  [Q, M, RD], [("pick_ready_jobs", Q), ("queue_push / queue_get / queue_move", T)], ["start instants"],
  "stateless model checking: exhaustive loads x limits x mixtures, order checked on every start",
  NOTE + "Up to 260 (520) jobs; the order inside one poll is not constrained.")

with open(V + "/properties.jsonl", "w") as f:
    for x in props:
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]},
            "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
                        "observe_at": x["observe"], "hook_needed": None}}) + "\n")
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{
        "property": x["id"], "quick_cmd": f"./check.sh {x['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {x['id']}",
        "technique": x["technique"], "level": "model_checking", "level_note": x["note"]} for x in props],
    "not_applicable": [],
    "notes": "No hooks in /repo: the checks build /repo's crates unchanged against a stand-in for actix-rt (mcrt) and, for C14 and C18, a facade of std (tstd). See DESIGN.md.",
}, open(V + "/MANIFEST.json", "w"), indent=1)
