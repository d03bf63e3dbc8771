#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))
AJ, Q, JM = "aj_core/src/aj.rs", "aj_core/src/queue.rs", "aj_core/src/job/mod.rs"
RT, CX, EX = "aj_core/src/job/retry.rs", "aj_core/src/job/job_context.rs", "aj_core/src/job/executable.rs"
MEM, RED, TY = "aj_core/src/backend/mem.rs", "aj_core/src/backend/redis.rs", "aj_core/src/backend/types.rs"
PL, PJ, LIB, MAC = "aj_core/src/plugin/mod.rs", "aj_core/src/plugin/job_plugin.rs", "aj_core/src/lib.rs", "aj_macro/src/lib.rs"

p("C01", "Every accepted job is executed and reaches a final status",
  "Once a submission is accepted (an awaited run/add/enqueue returns Ok, run with the job's id; or just_run is called on a started engine), the job is executed and ends Finished, or Failed if its outcome is a failure. This holds for any number of threads submitting at once, for the very first submissions of a job type racing each other, for any backlog, and for any mix of job types; jobs made without an id get one that no other job has, so none takes another's place.",
  ["schedules", "histories", "configurations"],
  "all interleavings of submitters, queue creation and execution; all backlog sizes",
  "No existing test submits a job to a running engine at all; a test would sample one interleaving.",
  [AJ, Q, LIB], [("queue creation on first use", "AJ::enqueue_job / InitWorkQueue"), ("tick loop", "WorkQueue::process_jobs"), ("picking", "WorkQueue::try_pick_specific_ready_jobs"), ("fire and forget", "JustRunJob")],
  ["Job::run / just_run results", "job code entry and exit", "AJ::get_job"])
p("C02", "A job runs exactly once and never twice at the same time",
  "An accepted one-off job (no retry, no cron) is executed exactly once, however many jobs, submitters and job types are active. Two runs of the same job id are never in progress together, and submitting an id again (by any number of threads) while that job is queued or running adds no run of its own.",
  ["schedules", "histories"],
  "all interleavings of duplicate submissions with picking, running and completion",
  "Tests never run the engine; duplicates need particular overlaps of submission and picking.",
  [Q, MEM], [("existing-job branch", "WorkQueue::run_with_config"), ("move from queued to running", "try_pick_specific_ready_jobs")],
  ["job code entry and exit per job id"])
p("C03", "The concurrency limit of a queue is never exceeded, and is used",
  "At any moment at most max_processing_jobs jobs of one type are in progress, and while more ready jobs wait than there are free slots, all slots get used. A limit set with update_work_queue governs every start after the call returned (a lowered limit stops new starts until enough running jobs have ended), and slots are given back however a run ends (success, failure, retry, cron repetition, panic).",
  ["schedules", "histories", "configurations"],
  "all limits, limit changes, run lengths and completion orders",
  "No existing test observes concurrency of runs.",
  [Q], [("free slot computation", "WorkQueue::pick_jobs_to_process"), ("slot release", "remove_processing_job / re_enqueue"), ("limit change", "UpdateWorkQueue")],
  ["number of job runs in progress", "AJ::update_work_queue"])
p("C04", "Waiting jobs are served in order and none starves",
  "Jobs that are ready when submitted start in the order in which their submissions were accepted (strictly, with a limit of one; with a limit of n a job is overtaken by fewer than n later ones), for any backlog size; updating, resubmitting or cancelling waiting jobs does not change the order of the others or of the job itself. A job that becomes ready while others wait is not overtaken without bound by jobs submitted after it became ready or by repetitions of others (retries, cron), and any number of not-yet-due jobs in the queue delays no ready job.",
  ["schedules", "histories", "configurations"],
  "all backlog sizes and compositions (ready, future, cron), all limits, all arrival orders",
  "Existing tests have no backlog; the order only breaks for backlogs larger than the free slots.",
  [Q, MEM], [("scan from the oldest, rotate the not-ready", "WorkQueue::try_pick_specific_ready_jobs"), ("push at the front", "queue_push")],
  ["order of job starts against order of accepted submissions"])
p("C05", "Scheduled jobs run at their time: never before, promptly after",
  "A job scheduled for an instant (schedule_at, delay, or the job type) is never started while the clock is before that instant, and once the clock has passed it the job is started within a bounded number of queue ticks (of the length last set with update_work_queue, in force as soon as that call returns), exactly once, whatever the distance of the instant (microseconds to years, or already past) and whatever else is queued.",
  ["inputs", "schedules", "histories"],
  "all due times relative to now, all clock steps, all mixes of queued jobs",
  "Tests check one future instant on a detached job object, never an execution.",
  [JM, Q, CX], [("due test", "Job::is_ready"), ("tick loop", "WorkQueue::process_jobs"), ("stored instant", "JobType::ScheduledAt")],
  ["clock at each job start"])
p("C06", "Cron jobs run once per occurrence, within their limits, then complete",
  "A cron job is started at most once per occurrence of its expression and never while the clock is before the occurrence it waits for; after each run it waits for the first occurrence after that run ended (missed ones are not caught up). It runs at most max_repeat times and at no occurrence after end_at (one exactly at end_at still counts), and when no repeat, no time before end_at or no further occurrence is left after a run, it ends Finished (Failed if that run failed) instead of staying queued; what is no cron expression is refused by new_cron.",
  ["inputs", "histories"],
  "all valid expressions with an occurrence ahead, all limits, all clock steps and run lengths",
  "Tests only build one cron object; none lets a cron job run.",
  [JM, CX, Q], [("next occurrence and limits", "Job::next_tick / is_ready"), ("first occurrence", "JobType::new_cron"), ("re-enqueue", "WorkQueue::execute_job")],
  ["clock and number of each run of a cron job", "AJ::get_job"])
p("C07", "Failing jobs are retried exactly as often as configured",
  "A job with a retry policy whose runs keep failing is executed 1 + max_retries times (without limit if none is set) and then is Failed; a run that succeeds ends it as Finished with no further run; a job without a policy is executed once and is Failed if that run failed. What counts as failure is decided by the job's own is_failed_output on the outcome that post_execute returned, and a job type with its own retry_at runs again at the times that returns, as long as it returns one.",
  ["histories", "inputs"],
  "all sequences of run outcomes, all policies, alone and among other jobs",
  "Tests call the policy object directly; no test lets the engine retry a job.",
  [Q, RT, EX], [("retry decision", "Executable::retry_at / Retry::should_retry"), ("re-enqueue", "WorkQueue::execute_job")],
  ["job code entry and outcome", "AJ::get_job"])
p("C08", "Retries wait as their strategy says, for any retry number",
  "The k-th retry (k = 1, 2, ...) of a failed run starts no earlier than the interval (interval strategy) or initial x 2^k (exponential strategy) after the failed run ended, and within a bounded number of ticks once that time has passed. The delay never shrinks, wraps or crashes the queue for large k, large initial values or unlimited retries: it saturates.",
  ["inputs", "histories"],
  "all strategies, base delays, retry numbers up to the integer limits, and clock steps",
  "Tests compute three delays of one policy; overflow and the engine's use of the result are not reached.",
  [RT, Q], [("delay", "Retry::retry_at"), ("due time", "WorkQueue::execute_job")],
  ["clock at the end of a failed run and at the next start", "Retry::retry_at"])
p("C09", "A cancelled job does not run; cancelling never disturbs anything else",
  "If cancel_job returns Ok for a job that is waiting (immediate, scheduled, cron between runs, or waiting for a retry) before it is started, the job is Canceled and is not executed again unless it is explicitly resubmitted or retried. Cancelling a running, finished, failed, already cancelled or unknown job returns Ok and changes nothing, and no cancel affects another job; under races each job is either cancelled and not run, or run and not Canceled.",
  ["schedules", "histories"],
  "all states of the job at the cancel, all races of cancel with picking and completion",
  "No existing test cancels a job.",
  [Q, AJ, JM], [("only queued jobs are cancelled, under the queue's mailbox", "WorkQueue::cancel_job")],
  ["cancel_job result", "job code entry", "AJ::get_job"])
p("C10", "Updates take effect on the next run and are never lost or half applied",
  "When update_job returns Ok for a waiting job, its next run uses the new data (and, if a context is given, the new schedule and retry policy; otherwise those it had; the id stays the job's own whatever id that context carries), still exactly once; an update of a running job leaves that run and its outcome alone; an update of a completed job makes it run again with the new data; an unknown id is not created. Concurrent updates, cancels and runs of the same job leave it in the state of some order of the calls: no update resurrects a cancelled job's old state, reverts a completed one or duplicates a run.",
  ["schedules", "histories", "inputs"],
  "all job states at the update and all races with picking, completion, cancel and other updates",
  "No existing test updates a job.",
  [AJ, Q], [("read-modify-write in one message", "WorkQueue::update_job"), ("override rule", "run_with_config")],
  ["data seen by the run", "AJ::get_job"])
p("C11", "Resubmitting an id follows the enqueue options",
  "Submitting an id that already exists: while it is running nothing changes; while it is waiting its data and schedule are replaced when override_data is set (and left alone otherwise) and it still runs once; when it is done it runs again with the new data only if re_run is set, and otherwise stays done with its status. run, just_run and add_job mean re_run and override_data; new_skip_if_finished never runs a completed job again.",
  ["histories", "inputs"],
  "all job states, all option combinations documented, all sequences of resubmissions",
  "No existing test submits an id twice.",
  [Q, AJ], [("existing-job branch", "WorkQueue::run_with_config"), ("options", "EnqueueConfig")],
  ["runs and their data", "AJ::get_job status"])
p("C12", "Manual retry re-runs completed jobs only",
  "retry_job returns true for a job that is Finished, Failed or Canceled and makes that job run exactly once more (keeping id, data and run count; again subject to its schedule); it returns false and changes nothing for a waiting or running job and for an unknown id. Any number of concurrent manual retries of one completed job adds exactly one run, and all but one return false, as long as that run has not completed.",
  ["schedules", "histories"],
  "all job states, all sequences and races of manual retries",
  "No existing test retries a job by hand.",
  [Q, AJ], [("only done jobs", "WorkQueue::retry_job"), ("re-enqueue", "re_enqueue")],
  ["retry_job result", "runs", "AJ::get_job"])
p("C13", "The reported job state tells the truth",
  "get_job reports for every job the status it has (Queued while waiting, Running from start to end of a run, then Finished, Failed, Canceled, or Queued again), moving only along those transitions; the number of runs made so far is what job code sees in its context and what get_job reports once the run ended; creation, enqueue, run, completion and cancel times are those of the events they name. Once a job is done, nothing but an explicit request changes what is reported.",
  ["schedules", "histories"],
  "all histories of client calls, time steps and run outcomes",
  "Existing tests check a fresh context object only.",
  [JM, Q, CX], [("status writes", "Job::enqueue/process/finish/fail/cancel"), ("run counter", "Job::execute")],
  ["AJ::get_job after every step and in concurrent polling", "context passed to job code"])
p("C14", "Plugins and job callbacks see every run, in order",
  "For every run the order is: before_run of every registered plugin, pre_execute, execute, post_execute, after_run of every registered plugin; each exactly once per run that returns (does not panic), with the run's job id. change_status is delivered to every plugin for every status change of every job, none lost even if a plugin is slow or panics, and, for plugins whose callback does not suspend, in the order in which that job's status changed; plugins work however the engine was started, registered before (in its Actix system) or after.",
  ["schedules", "histories", "configurations"],
  "all numbers of plugins, job types and concurrent runs; engine started in or outside an Actix system",
  "Existing plugin tests call a wrapper method directly (and the two hook tests call another method than they name).",
  [PL, PJ, JM, AJ], [("hook dispatch", "PluginCenter::before/after/change_status"), ("registration", "AJ::register_plugin"), ("call order", "Job::execute")],
  ["plugin callbacks", "job callbacks"])
p("C15", "Jobs run with exactly the data and context they were submitted with",
  "The job code receives the submitted value unchanged (any serialisable value: unicode, large, nested, extreme numbers) and under the submitted id (ids that differ are different jobs, however similar), and state a run writes into its data is what the next run and get_job see; ids, schedules, retry policies and cron limits survive storage unchanged. A job that cannot be stored, or could not be read back, is refused with an error and leaves nothing behind.",
  ["inputs"],
  "all serialisable payloads, ids and contexts; payloads whose serialisation fails",
  "Existing tests never read a job back.",
  [TY, Q, CX, RT], [("store and load", "upsert_to_storage / get_from_storage"), ("context encoding", "JobContext, JobType, Retry serde")],
  ["value received by execute", "AJ::get_job"])
p("C16", "The in-memory backend is a linearizable set of deques and maps",
  "Under any concurrent use, each in-memory backend operation takes effect atomically and behaves as on plain double-ended queues and key-value maps: push at the front, get from either end in order, move of n items from an end of one queue to an end of another, or of one item within a queue (returning what was moved), removal of all equal items, count, upsert and get. In particular no item is lost, duplicated or invented by concurrent moves, and there are no data races or deadlocks.",
  ["schedules", "histories", "inputs"],
  "all concurrent histories of backend calls",
  "Existing tests are single-threaded examples.",
  [MEM], [("one lock per operation", "InMemory::queues / storages")],
  ["invocation, response and result of each backend call"])
p("C17", "The Redis backend behaves as the same deques and maps",
  "Every operation of the Redis backend has the same result and effect, on the stored lists and hashes, as on the in-memory reference (push, move of n items between two queues or of one within a queue, get from either end, remove all equal, count, upsert, get), for any names, items, values and (up to thousands) counts. When the server refuses a command or the connection is lost, the call returns an error, never a wrong value or a panic.",
  ["inputs", "histories", "fault_sequences"],
  "all sequences of operations and arguments; faults at any command",
  "Its tests are ignored without a server, and sample a few calls.",
  [RED], [("command mapping", "Redis::lpush/lmove/lrange/llen/lrem, storage_*")],
  ["results of backend calls", "contents of the server"])
p("C18", "Job types do not disturb each other",
  "Jobs of different types have separate queues, limits and threads, however many types there are and however similar their queue names: a type whose jobs block their thread, saturate its limit, fail, panic or pile up does not delay, run, cancel, or change jobs of another type, and operations addressed to one type act on jobs of that type only; a type that claims the queue name of another is refused, and nothing else changes.",
  ["schedules", "histories"],
  "all mixes of types and loads, all operations addressed by type and id",
  "Existing tests use one type at a time.",
  [AJ, Q], [("one actor and thread per type", "WorkQueue::start_with_name"), ("registry by type", "QUEUE_REGISTRY")],
  ["runs and states per type"])
p("C19", "Transient backend errors lose no job, run none twice and are reported",
  "If backend calls fail without effect for a while, a submission, cancel, update, retry, picking of jobs or taking up of a killed process's jobs that meets an error either reports it to the caller or is repaired by the engine: an accepted job still runs exactly once after the backend recovers, a failed submission can be repeated and then runs once, a cancel or update that returned Ok has taken effect, and the concurrency limit holds throughout.",
  ["fault_sequences", "schedules"],
  "all sets of failing backend calls outside the recording of a run's completion",
  "No existing test injects a backend error.",
  [Q, TY, AJ], [("error propagation", "get_from_storage, run_with_config"), ("partial picking", "try_pick_specific_ready_jobs"), ("single queueing", "push_queued_job")],
  ["call results", "runs", "AJ::get_job"])
p("C20", "Accepted waiting jobs survive a crash of the process",
  "With a persistent backend, if the process is killed at any point, then after a restart every job that had been accepted and was not started still runs (at its time, exactly once, as it was last updated), a job whose cancel was acknowledged does not run, a completed job does not run again, a job that was running at the kill is run again, and a job between two runs (retry or cron) is not lost. A submission that was cut off can be repeated with the same id and then runs.",
  ["crash_points", "histories"],
  "a kill before and after every backend command of a workload",
  "No existing test restarts the engine.",
  [Q, RED, JM], [("write order of lists and records", "push_queued_job, re_enqueue, cancel_job, process")],
  ["runs before and after the restart", "acknowledged calls"])
p("C21", "The engine starts once, under any runtime, and is then reachable",
  "AJ::start called from any number of threads, inside an Actix system, a Tokio runtime or none, starts exactly one engine: all callers get the same address, the backend of the one that started is the one used, and from then on the engine is always found and keeps serving submissions from every thread, also while others call start or look it up and after the starting thread has ended (unless the Actix system it was started in is gone).",
  ["schedules", "configurations"],
  "all runtimes and interleavings of start, lookup and submission",
  "Tests start the engine from one thread at a time and never use it.",
  [AJ], [("global address", "AJ_ADDR / AJ::start / get_aj_address")],
  ["addresses returned", "runs of jobs submitted afterwards"])
p("C22", "A panicking job harms only itself",
  "If job code panics (in pre_execute, execute, post_execute or is_failed_output, at once or after waiting, on its first or a later run), that job ends Failed, its slot is free again, and every other job of the same and of other types, queued, running, scheduled or submitted later, is executed as usual; the queue keeps answering calls and the failed job can be retried by hand.",
  ["histories", "schedules"],
  "all positions of the panic and all states of the other jobs",
  "No existing test panics in a job.",
  [Q], [("own task per run", "WorkQueue::execute_job_task")],
  ["runs", "AJ::get_job", "call results"])
p("C23", "The job macro runs the function with the arguments given",
  "A function under the job attribute (async or not, any number of arguments) behaves as a job type: run and just_run execute the function body once per submission with exactly the arguments given, in order, run_with_context and just_run_with_context do so under the whole context given, and job gives a job that can be scheduled, retried or cancelled; different functions and derived structs have different queues.",
  ["programs", "inputs"],
  "all function shapes the macro accepts and all argument values",
  "The macro crate has no tests that run a generated job.",
  [MAC], [("generated struct and impls", "job attribute, BackgroundJob derive")],
  ["arguments received by the function body"])
p("C24", "Job code may use the engine it runs in",
  "The code of a running job (pre_execute, execute, post_execute) and the plugin hooks called for it can submit, query, cancel, update and retry jobs of the same and of other types and wait for those calls, with any concurrency limit: the calls complete, have the same effect as from outside, and never deadlock the queue, even if all slots hold such jobs.",
  ["schedules", "histories"],
  "all nestings of calls from job code, all limits",
  "No existing test runs a job.",
  [Q, AJ], [("runs are spawned, not awaited, by the queue", "WorkQueue::execute_job_task")],
  ["completion and results of calls made by job code", "runs"])
p("C25", "The engine behaves the same on either backend",
  "For any sequence of client calls, time steps and run outcomes, runs (number, data, time), call results and reported states are the same with the Redis backend as with the in-memory one, and as the engine's documented behaviour requires.",
  ["histories", "inputs", "configurations"],
  "all client histories on both backends",
  "No existing test drives the engine on any backend.",
  [Q, RED, MEM, TY], [("backend abstraction", "trait Backend")],
  ["runs, call results and AJ::get_job against one reference model"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
