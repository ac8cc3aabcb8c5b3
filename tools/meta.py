"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED, TASK, SESS = "rocketry/core/schedule.py", "rocketry/core/task.py", "rocketry/session.py"
W = ("stateless model checking of the real scheduler: every deviation-bounded interleaving of scheduler, task threads and "
     "child processes, every body outcome and environment operation, under a virtual clock")
E = "exhaustive enumeration of a bounded input space on the real code against an independent reference model"

P = []


def p(id, title, statement, over, qtext, why, files, mech, technique=W, note="", state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe))


p("P01", "A task never runs twice at once unless multiple launches are allowed",
  "Whatever the execution type, start condition, queued manual runs, terminations and shutdown requests, a new run of a task starts only after the previous run of that task is over, unless multiple launches are allowed (by the task, or by the session when the task does not say). "
  "Where multiple launches are allowed, runs do overlap and each has a run id of its own. "
  "The task's liveness queries (is it alive, how many runs are alive) agree with what is really in progress.",
  ["schedules", "configurations"], "all interleavings within the deviation bound, all executions and multilaunch settings, all environment operations and outcomes within the bound",
  "the tests run each execution type under one natural timing; the property is about every timing of finishing, terminating and restarting",
  [SCHED, TASK], [("multilaunch test before a start", SCHED + ":is_task_runnable"), ("run stack and liveness", TASK + ":is_alive"), ("waiting for the start record", TASK + ":_lock_to_run_log")],
  state=[("run stack", "runs believed alive", TASK)], observe=["task log records", "body enter/exit", "thread/process lifetimes"])

p("P02", "Every run leaves exactly one start and one matching end record",
  "Each run of a task leaves in the task log exactly one start record followed by exactly one end record, both naming that task and carrying the run's own id, and the end record states what really happened (success, fail, inaction or terminate; a fail record carries the error of that run), in every execution type and under every timing of finishing, failing, timing out, termination and shutdown. "
  "Start, end and runtime in the records agree with the clock. "
  "When the session is over, each task's status and last-action times are those of its latest records.",
  ["schedules", "histories"], "all interleavings and outcomes within the deviation bound, all execution types",
  "the tests look at the log after one sequential history; races of finishing against terminating need particular interleavings",
  [TASK, SCHED, "rocketry/core/log/adapter.py"], [("log records of a run", TASK + ":_set_status"), ("relaying child records", SCHED + ":handle_logs"), ("termination record", TASK + ":_terminate_run")],
  observe=["task log records"])

p("P03", "A task starts exactly when it is due: condition, queue, priority, hold",
  "In each scheduling cycle an idle task is started if and only if it has a queued manual run, or it is enabled and its start condition is true, and the scheduler is not on hold; queued runs are started one at a time in the order they were queued, each with its own parameters and each exactly once. "
  "Tasks started in one cycle are started in descending priority order. "
  "Start-up tasks run once before the first cycle and shut-down tasks once after the last, never in between, and disabled ones only if run manually.",
  ["histories", "configurations"], "all sequences of environment operations (toggle conditions, hold, disable, queue runs) at cycle boundaries up to the bound, all task configurations listed",
  "tests sample a handful of operation sequences; the property is about all of them",
  [SCHED, TASK], [("cycle", SCHED + ":run_cycle"), ("due test", TASK + ":is_runnable"), ("queue of manual runs", TASK + ":_get_direct_params")])

p("P04", "The process limit is never exceeded and no due process task starves",
  "At no time are more child processes alive than the configured maximum, whatever the number of due process tasks, multiple launches, finishing times, terminations and failures. "
  "When a scheduling cycle ends with free capacity, no due idle process task has been left waiting, so every queued run is eventually executed. "
  "Tasks of other execution types do not count towards the limit and are not delayed by it.",
  ["schedules", "configurations"], "all interleavings within the bound for limits 1..3 and up to 4 process tasks",
  "the tests use one limit and one natural timing",
  [SCHED, TASK], [("capacity test", SCHED + ":has_free_processors"), ("processes taken", TASK + ":count_processes_taken")])

p("P05", "Timeouts, end conditions and terminate() stop exactly the right runs",
  "A run that lasts longer than its timeout (the task's own, or the session's) is terminated at the next scheduling cycle, a shorter one never is, and neither permanent tasks nor tasks with the timeout 'never' ever time out. "
  "A run is terminated when its end condition is true or the task is told to terminate, and never otherwise; runs of other tasks and later runs of the same task are unaffected. "
  "Terminated runs are logged as terminated, and a thread body that ignores the request keeps its own outcome.",
  ["schedules", "histories", "configurations"], "all durations around the limits, all operation sequences and interleavings within the bound, thread, process and async execution",
  "tests wait real time for one timeout each",
  [TASK, SCHED], [("termination test", TASK + ":_check_termination"), ("terminating runs", TASK + ":_terminate_run")])

p("P06", "Shutting down finishes or terminates everything and leaves nothing alive",
  "After a shutdown request no further scheduling cycle is begun; runs in progress finish naturally on a graceful shutdown (permanent tasks are terminated) and are terminated on an instant, forced or fatal one. "
  "When the session's start call returns or raises, no run is alive, every run has its end record, and the shut-down tasks and shut-down hooks have run exactly once, whatever went wrong in tasks, conditions or logging. "
  "A restart does all that and then starts over, and a session that was shut down, forcibly or not, can be started again with the configured behaviour.",
  ["schedules", "fault_sequences", "configurations"], "every point of the execution at which shutdown is requested (once, twice, forced, by condition, by a fatal error, by restart), all interleavings within the bound",
  "tests request shutdown at one or two points",
  [SCHED, SESS], [("shutdown sequence", SCHED + ":shut_down"), ("waiting for or terminating runs", SCHED + ":_shut_down_tasks"), ("second request forces", SESS + ":shut_down")])

p("P07", "A crash at any moment is recovered from the log",
  "If the process dies after any number of log records have been written, then on the next start every task whose latest record was a start gets exactly one crash record and no other task gets any record. "
  "After start-up each task's status and last-action times are those of the log, whichever execution wrote it. "
  "Starting repeatedly adds no further crash records, and conditions on past runs (has succeeded, has failed, after ...) see the recovered history.",
  ["crash_points", "histories"], "every prefix of the logs of explored executions and every record history up to the bound",
  "the tests have a few hand written logs",
  [TASK, SCHED], [("reading back the log", TASK + ":set_cached"), ("crash record", TASK + ":log_crash")])

p("P08", "An error in one task or condition is contained as configured",
  "A task whose body fails, whose parameters cannot be prepared, whose condition raises, whose log record cannot be written or whose process dies during setup does not prevent other tasks from running on time when the matching silencing option is on, and its run is recorded as a failure. "
  "When the option is off, such an error met by the scheduler ends the session with that error, after terminating the remaining runs. "
  "A task whose start could not be recorded is not executed in the scheduler's own process or thread.",
  ["fault_sequences", "schedules", "configurations"], "every kind of fault at every task, every execution type, all settings of the silencing options, all interleavings within the bound",
  "tests inject one fault in one place at a time",
  [SCHED, TASK], [("containment", SCHED + ":run_task"), ("condition failure", SCHED + ":check_task_cond"), ("thread errors", SCHED + ":check_thread_errors")])

p("P09", "Conditions about past runs equal what the log says",
  "The conditions on a task's history (has succeeded, failed, finished, started, terminated, inacted, is running; within a period, counted with comparisons, or of all time) have the value obtained by counting the matching log records in the period, for every log and every current time. "
  "The value is the same whether it is computed from the cached statuses or by reading the log. "
  "Records of other tasks, and of other actions, never influence it.",
  ["histories", "inputs"], "all record histories up to the length bound over a time grid x all listed conditions x all current times of the grid",
  "tests have a few logs per condition",
  ["rocketry/conditions/task/task.py", "rocketry/conditions/task/utils.py", TASK], [("cached evaluation", "rocketry/conditions/task/utils.py"), ("log counting", "rocketry/conditions/task/utils.py")], technique=E)

p("P10", "Pipelined tasks run once after each qualifying run",
  "A task to be run after another (after success, failure or finish; of one, all or any of several tasks) is due exactly when the named tasks have had a qualifying run since its own last start, so that in every execution it runs once after the upstream qualifies and not again until the upstream qualifies anew. "
  "A qualifying run is never lost because of the time the dependent task takes. "
  "The value agrees whether it comes from cached statuses or from the log.",
  ["histories", "schedules"], "all record histories up to the bound; all interleavings and outcomes of explored pipelines",
  "tests run a pipeline once",
  ["rocketry/conditions/task/task.py", SCHED], [("dependence test", "rocketry/conditions/task/task.py:DependMixin")], technique=W)

p("P11", "A failing task is retried at most n times, and then no more",
  "A task to be retried n times is run again right after a failure until it has succeeded or failed n times in a row after the original failure, and is then left alone until it is started for another reason. "
  "A success, inaction or termination in between ends the retrying and restores the full number of retries. "
  "This holds for every sequence of outcomes, before and after a restart of the application.",
  ["histories", "schedules"], "all outcome sequences up to the bound x n in 0..3, unlimited",
  "tests check a few sequences",
  ["rocketry/conditions/task/task.py"], [("retry count", "rocketry/conditions/task/task.py:Retry")], technique=W)

p("P12", "A task scheduled once per period runs exactly once in every period",
  "A task that is to run every so often (every interval; minutely to monthly; at a time of day, week or month; cron) is started exactly once in each of its periods, neither skipping one nor running twice, for every run duration, outcome and scheduler jitter that fits in the period. "
  "A task that was not run in a past period does not make up for it, and a restart of the application within a period does not cause a second run. "
  "The decision depends on the session's own clock and time zone.",
  ["histories", "inputs", "configurations"], "all listed schedules x all start offsets on a grid x all outcomes and durations within the bound under a virtual clock",
  "tests evaluate the condition at a few instants and never run a schedule across period boundaries",
  ["rocketry/conditions/task/task.py", "rocketry/conditions/api.py", "rocketry/time"], [("once per period", "rocketry/conditions/task/task.py:TaskExecutable")], technique=E)

p("P13", "A moment is in a calendar period exactly when the calendar says so",
  "For periods of a minute, hour, day, week, month or year given by a start and/or an end (also over the unit's boundary, by names or numbers, at a single unit, or starting at a point), membership of any moment equals plain calendar arithmetic: start inclusive, whole-unit ends covering the whole unit, months of all lengths and leap years included. "
  "Membership is decided on the moment's own wall-clock time, with or without a time zone.",
  ["inputs"], "all period specifications of a grammar x all moments at and next to every boundary in a set of months and years incl. leap days",
  "tests sample a few periods and a few moments",
  ["rocketry/core/time/anchor.py", "rocketry/time/interval.py", "rocketry/core/time/utils.py"], [("anchored membership", "rocketry/core/time/anchor.py:__contains__")], technique=E)

p("P14", "Rolling a moment forward or back gives the nearest occurrence of a period",
  "For every period and moment, rolling forward gives the interval from that moment (or the next start after it) to the following end of the period, and rolling back the one up to that moment (or the previous end before it) from the preceding start: nothing of the period lies between the moment and the result, and the result lies wholly in the period. "
  "This holds across months of different lengths, leap years and for open-ended periods in any session time zone. A span of time before or after a moment is exactly as long as it is written, in every notation.",
  ["inputs"], "all period specifications of a grammar x all moments next to every boundary",
  "tests sample a few periods and moments",
  ["rocketry/core/time/anchor.py", "rocketry/core/time/base.py", "rocketry/time/interval.py"], [("rolling", "rocketry/core/time/anchor.py:rollforward")], technique=E)

p("P15", "Combined periods behave as set intersection and union",
  "A moment is in the conjunction of periods exactly when it is in all of them and in the disjunction exactly when it is in any, for every combination, nesting and order, with always and never as neutral and absorbing elements. "
  "Rolling a combined period forward or back from any moment gives an interval consisting of moments of the combination, the nearest one, and rolling terminates also when the combination is empty.",
  ["inputs", "programs"], "all combinations of up to two (three in the deep tier) component periods and both operators x all moments next to boundaries",
  "tests sample a few combinations",
  ["rocketry/core/time/base.py"], [("All and Any", "rocketry/core/time/base.py")], technique=E)

p("P16", "Cron schedules match standard cron semantics",
  "A cron expression, given as a string or by its fields, matches a minute exactly when every field matches under the usual cron rules (numbers, names, lists, ascending ranges, steps; Sunday is 0 or 7; day of month and day of week are alternatives when both are restricted). "
  "The next and previous matching minutes computed from any moment are the nearest ones, for every expression that matches some date. "
  "A task on a cron schedule is due once per matching minute.",
  ["inputs"], "all field expressions of a grammar for each field, pairs of restricted fields, x all minutes of boundary days incl. leap day",
  "tests sample a few expressions",
  ["rocketry/time/cron.py", "rocketry/conditions/api.py"], [("cron period", "rocketry/time/cron.py")], technique=E)

p("P17", "Conditions compose as Boolean logic, in objects and in strings",
  "Any combination of conditions by and, or and not has the truth value Boolean logic gives, for every assignment of truth values to the parts, whether built from objects or written as a string (with the usual precedence, any parentheses and whitespace). "
  "A string and the equivalent expression of condition objects agree at every moment and history, malformed strings are rejected with an error, and building or evaluating one condition never changes another.",
  ["programs", "inputs"], "all expressions up to the depth bound x all truth assignments; all condition strings of the grammar against their object form",
  "tests sample a few expressions",
  ["rocketry/core/condition/base.py", "rocketry/parse/utils/string_parser.py", "rocketry/parse", "rocketry/conditions/api.py"], [("combining", "rocketry/core/condition/base.py"), ("parsing", "rocketry/core/parse/utils.py")], technique=E)

p("P18", "Parameters reach the task from the right source with the right value",
  "Each run of a task gets, for every argument of its function, the value of the most specific source that provides it (the queued run, then the task's own parameters, then those the run was started with, then the session's), and nothing it does not accept; arguments that are computed (other tasks' return values, the task, the session, environment, functions) are computed for that run. "
  "This is the same in every execution type, and a run's parameters never leak to later runs, to other tasks or to the session.",
  ["configurations", "programs"], "all subsets of sources x argument kinds x execution types x run sequences up to the bound",
  "tests sample single sources",
  [TASK, "rocketry/core/parameters", "rocketry/args/builtin.py", "rocketry/tasks/func.py"], [("collecting parameters", TASK + ":start_async"), ("computing", "rocketry/core/parameters/parameters.py")], technique=W)

p("P19", "A task's return value is available to others exactly as returned",
  "After a run succeeds, the value it returned is the task's return value in the session (also when the value is None) until the task's next success, in every execution type and for every interleaving with other tasks; failed, inacted and terminated runs leave it unchanged. "
  "A task taking another task's return value as argument gets the value stored by the time it was started, or the given default.",
  ["schedules", "histories"], "all interleavings and outcome sequences within the bound",
  "tests read one return value after one run",
  [TASK, SCHED, "rocketry/args/builtin.py"], [("storing", TASK + ":_handle_return"), ("relaying from processes", SCHED + ":handle_logs")])

p("P20", "The session's task collection stays consistent under any sequence of changes",
  "After any sequence of adding, renaming, removing and looking up tasks, names in a session are unique, each task is found by its own name or object and by no other, and iteration, length and membership agree. "
  "Adding a task whose name exists follows the configured policy (raise, ignore, rename) without disturbing the existing one. "
  "Sessions do not affect each other.",
  ["histories", "configurations"], "all operation sequences up to the depth bound for every policy",
  "tests sample short sequences",
  [SESS, TASK], [("registry", SESS + ":add_task"), ("name policy", TASK + ":parse_name")], technique=E)

p("P21", "Running selected tasks runs exactly those, once each",
  "Asking the session to run selected tasks runs each of them once (only if due, when conditions are to be obeyed), in priority order, and no other task, then returns when they are finished. "
  "Afterwards every task's enabled state, the session's settings and its conditions are as before, also if a task failed or the run ended with an error.",
  ["configurations", "histories"], "all selections of three tasks x configurations x outcomes x execution types",
  "tests sample a few selections",
  [SESS], [("selected run", SESS + ":run")])

p("P22", "Hooks run exactly once around each thing they watch",
  "Every registered hook is called exactly once before and (if it waits for it) exactly once after each task creation, task execution, scheduler start-up, cycle and shutdown, in registration order, for every outcome of the tasks and in every execution type; after a task execution it is told the error if there was one. "
  "Hooks of one session are not called for another.",
  ["schedules", "configurations"], "all outcomes and interleavings within the bound, function and generator hooks, all execution types",
  "tests run each hook with one outcome",
  ["rocketry/core/hook.py", SCHED, TASK], [("hook driver", "rocketry/core/hook.py:_Hooker")])

p("P23", "Controlling a running session from other threads is safe",
  "While the scheduler runs, another thread may at any moment queue runs, terminate, enable, disable, add, remove or look up tasks, hold, resume or shut down the session: no call fails or disturbs the scheduler. "
  "Each request takes effect exactly once: every queued run is executed once, a removed task is not started afterwards, a shutdown ends the session.",
  ["schedules"], "every point (source line) at which the scheduler can be interrupted by the other thread's operation, up to the preemption bound",
  "tests never control the point of interference",
  [SESS, SCHED, TASK], [("registry access", SESS), ("flags", SCHED)])

p("P24", "Scheduler, parameter and custom conditions tell the present state",
  "At every check, 'the scheduler has been running more/less than X' and 'the scheduler has more/less than n cycles' tell the time and cycles since the latest start of this session (also as shut condition), parameter and environment conditions tell whether the session has the given parameters (with the given values) now. "
  "A custom condition is the value its function returns then, called with the arguments given in that place (Python call or text of the condition string) and with the session and task being checked; uses with different arguments do not influence each other. "
  "A condition determined by a task is the value of its latest successful check with those arguments, false before the first and after the active time, and the check runs once per turn and set of arguments.",
  ["histories", "configurations"], "all listed forms of the conditions over every state and every pair of consecutive states, boundary times, all sequences of check outcomes up to the bound",
  "tests evaluate each condition in one or two states",
  ["rocketry/conditions/scheduler.py", "rocketry/conditions/parameter.py", "rocketry/conditions/func.py", "rocketry/conditions/meta.py", "rocketry/conditions/api.py"],
  [("custom conditions", "rocketry/conditions/func.py:observe"), ("conditions of tasks", "rocketry/conditions/meta.py:get_state")], technique=E)

p("P25", "Tasks of a group work as tasks of the application, with the group's settings",
  "Including a group (also one including other groups) adds each of its tasks exactly once to the application's session under its name with the group's prefixes: it starts only when its own start condition and those of its groups are true, "
  "its execution is its own, else that of the innermost group which has one, else that of the session, and the group's parameters are parameters of the session. "
  "Functions still refer to their tasks in dependencies, return values and look-ups; other tasks and groups are not affected.",
  ["configurations", "histories"], "all combinations of own, group and outer group settings in all forms, all truth assignments of the conditions",
  "tests include one group with one setting",
  ["rocketry/application.py", SESS, "rocketry/tasks/func.py"], [("including a group", "rocketry/application.py:include_grouper"), ("link from function to task", "rocketry/tasks/func.py:__call__")], technique=E)

NOT_YET = {}


def built(i):
    return os.path.exists(os.path.join(HERE, "props", i.lower() + ".py"))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            rec = {"id": x["id"], "title": x["title"], "statement": x["statement"],
                   "quantifier": {"over": x["over"], "text": x["qtext"]}, "why_tests_cant": x["why"],
                   "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                               "state": [{"name": a, "meaning": b, "where": c} for a, b, c in x["state"]],
                               "observe_at": list(x["observe"]), "hook_needed": None}}
            fh.write(json.dumps(rec) + "\n")
    man = {"version": 1, "setup_cmd": "bash setup.sh",
           "checks": [{"property": x["id"], "quick_cmd": f"bash run.sh {x['id']} quick", "thorough_cmd": f"bash run.sh {x['id']} thorough",
                       "evidence_file": f"evidence/{x['id']}.json", "technique": x["technique"], "level": "model_checking",
                       "level_note": x["note"] or "bounded exhaustive; bounds in DESIGN.md and the evidence file"} for x in P if built(x["id"])],
           "not_applicable": [{"property": x["id"], "reason": NOT_YET.get(x["id"], "check not built yet")} for x in P if not built(x["id"])],
           "hooks": {"guard": "none", "enable": "no hooks were needed: the checks patch the environment (clock, threads, processes, event loop) from outside", "source_commits": []},
           "notes": "see DESIGN.md"}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


def design():
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import design_parts as dp
    with open(os.path.join(HERE, "tools", "DESIGN.in.md")) as fh:
        txt = fh.read()
    props = []
    for x in P:
        props.append(f"### {x['id']} {x['title']}\n{x['statement']}\n\n*How:* " + dp.PROPS.get(x["id"], "not built yet"))
    fixed, known, seeds = [], [], []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        if line.startswith("fixed:"):
            fixed.append("* " + line[7:].strip())
        elif line.startswith("finding: "):
            r = json.loads(line[9:])
            known.append(f"* {r['property']}: {r['what']}")
    sd = os.path.join(HERE, "seeded")
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        seeds.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m.get('caught', '?')} |")
    txt = txt.replace("@PROPS@", "\n\n".join(props)).replace("@FIXED@", "\n".join(fixed)).replace("@KNOWN@", "\n".join(known))
    txt = txt.replace("@SEEDS@", "| id | property | breaks | caught by the property's quick check |\n|---|---|---|---|\n" + "\n".join(seeds))
    with open(os.path.join(HERE, "DESIGN.md"), "w") as fh:
        fh.write(txt)


main()
design()
