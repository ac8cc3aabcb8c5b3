"""Texts of DESIGN.md that belong to the individual properties; tools/meta.py assembles DESIGN.md."""
PROPS = {
"P01": "Engine W. Scenarios: one task x {async, thread (watching/ignoring the termination flag), process, main} x {always due, queued runs}, multilaunch settings of task and session, execution set on the task or only in the session, two tasks. Environment: queue a run, terminate, shut down (at any idle). Oracle: spans [spawn/start record .. death/end record] of runs of a task do not overlap unless allowed; at each idle is_alive/n_alive equal the number of runs really in progress; where allowed, runs overlap and have distinct ids. Bounds: 2 deviations (1 preemption) quick, 3 (2) thorough; ~30k executions, 25 s.",
"P02": "Engine W. 8 execution/body kinds x outcomes {success, fail, inaction, immediate} x terminate/shut down at any idle, timeouts, overlapping runs, four mixed executions, two processes. Oracle: per run id exactly [run, end] with the end matching what the body did (a terminated one only if it was signalled/cancelled) and carrying the error the body of that run raised; record times agree with the clock; repository content = emitted records; final status/last_* = last records. 2 deviations quick, 3 thorough; ~16k executions, 12 s.",
"P03": "Engine W. One task x {async, thread, process, main}: every history of 3 operations (queue run with parameter, toggle condition, enable/disable, hold/resume, toggle multilaunch-free execution) at every scheduling round; four tasks of different execution and priority; start-up and shut-down tasks of every execution; a task that performs one of the operations itself in the middle of a cycle (it holds for the tasks after it). Oracle: a reference scheduler evaluated at every cycle from the state captured by a cycle hook (due set, order by priority, parameters of the queue head). 42k executions, 28 s quick; 4 operations thorough.",
"P04": "Engine W. 3-4 process tasks with queued runs, max_process_count 1..3, multilaunch, failing/terminated/slow-dying children, mixed with async/thread tasks. Oracle: count of live children at every spawn <= limit; at every cycle (hook) min(free, due) process tasks start; all queued runs are executed by the end; other executions start in the first cycle. 2 deviations (1 preemption) quick, 35 s.",
"P05": "Engine W. {async, thread, process} x timeout forms (task, session, both, string, timedelta, never, permanent) x body durations around the limit; terminate() and end-condition toggles at any idle; overlapping runs, also queued at any time, ended by timeout or terminate(); threads that ignore the request; one of many tasks; start-up tasks; execution set in the session. Oracle: for each run the set of reasons (timeout, told, end condition, shutdown of a permanent task) from the environment events; terminated <=> a reason, within two scheduling rounds. 56k executions, 60-80 s.",
"P06": "Engine W. graceful/instant x {shut down, twice, force, restart (recall; replace/relaunch/fresh with recording stand-ins for exec/Popen), shut condition, error/SystemExit/KeyboardInterrupt in a condition, SchedulerExit/Restart raised by a task} requested at any idle (one scenario: at every switch point), four executions in progress, shut-down tasks of four executions (also permanent or disabled ones), permanent tasks, overlapping runs, sessions started again. Oracle: start-up/shutdown hooks delimit sessions; no cycle begins after the request; runs finish naturally on a graceful and are terminated on a forced shutdown; shut-down tasks once; nothing alive at the end; restart starts over; errors raise. 37k executions, 48 s.",
"P08": "Engine W with a fault injector: {raising start condition, raising end condition, parameter raising at pre-/post-materialization, log handler raising on chosen actions (run / end / all), child dying in its setup, failing body} x {async, main, thread, process} x {silenced, not silenced} x armed from the start or toggled at any idle, with the other silencing options set the same or the opposite way; bystanders: a heartbeat task due in every cycle and long thread/process/async runs. Oracle: session raises <=> a fault of that kind occurred and is not silenced; heartbeat in every cycle; bystanders finish; the victim's runs are recorded [run, fail] without entering the body, and all queued runs are attempted. Faults are also placed in start-up and shut-down tasks. 14k executions, 24 s.",
"P19": "Engine W. Every sequence of outcomes of 3 runs per execution; value consumers by Return(...) for all pairs of executions; two processes / process + thread under preemption; chains; overlapping runs of one task, also timing out or terminated. Oracle: replay of the success records; session.returns inspected at every idle; the argument seen by the consumer's body. 25k executions, 20 s.",
"P22": "Engine W. Four hooks (2 functions, 2 generators) of each of the five kinds, a second session with hooks of its own, x executions x outcomes x terminate/shut down/parameter failure, a task shutting the session down from within a cycle. Oracle: per run the event sequence pre.. enter exit post.. with the exception of the outcome; scheduler hooks form startup, cycle*, shutdown blocks surrounding the starts. 7-20 s.",
"P13": "Engine E. All specs (full, after, before, starting, at, between) of all seven units over ~10-60 values per unit in all notations (ints, strings, names, with time and fractions) x boundary +-1us moments in leap/ordinary years and 28..31-day months, x time zones; plus the same through the condition API and the string syntax on a virtual clock. Reference: calendar positions (index, offset). 640k evaluations, 8 s.",
"P14": "Engine E. Same specs and moments; reference: list of concrete calendar intervals around the moment. Also fixed/open-ended periods and relative spans in three time zones, and 2000 notations of lengths of time (all units and abbreviations, fractions, two and three units, HH:MM:SS, timedeltas) as past, future, near and far spans. 1M rolls, 17 s.",
"P15": "Engine E. All combinations of component periods by & and | (pairs, some triples in thorough), nesting and order, x moments next to component boundaries. Reference: set membership of components; for rolls: result inside the combination, no member between moment and result, maximal. 70 s.",
"P16": "Engine E. For each field all expressions of a grammar (values, names, lists, ranges, ranges with steps, */n) x moments around every value of the field; all pairs and several triples of restricted fields x boundary moments: membership, next and previous matching minute. A task on a cron schedule (condition object and string, any whitespace) driven end to end through Session.start() on a virtual clock with cycles every 20/35 s, bodies of three durations and both outcomes: runs exactly in the first cycle of each matching minute. Reference: own cron matcher. Not covered: expressions matching nothing, N/step, wrapping ranges, the either-day rule for */n. A cycle at exactly the first instant of the minute may be one cycle late (the previous minute still counts at that instant); accepted. 85k evaluations, 10 s; thorough 550k.",
"P17": "Engine E. (1) every token string over {a, b, ~, &, |, (, )} up to length 5 (7 in thorough), with and without spaces: accepted iff well-formed by a reference recursive-descent grammar, with the truth table of the reference; (2) all expression trees of up to 4 (5) leaves with negations, built by operators, by classes and from strings in four renderings, over all assignments; (3) all pairs of small expressions: &=, |=, ~ give the right table and leave the operands alone; (4) counting conditions with one and two comparisons; (5) ~900 condition strings of the grammar against the equivalent objects over 37 histories x 5 moments; (6) condition strings registered in different sessions. 520k evaluations, 20 s.",
"P09": "Engine E + W. For each of the six status conditions every history of up to 3 records (own action, other actions, other task's action) on a 4-point time grid, written through the task's own logging (or found at a restart), x 8-10 periods x 10-14 comparisons x 3-4 current times x {cached, read from the log} x record models (full, minimal, run id, dict) x time zone: value = count of matching records in the reference period (timeref). 'Is running' from the log: all sets of up to 3 runs (with ids, overlapping; without, sequential) x more than/less than/between. Engine W: at every idle of sessions of all executions the conditions (cached and from the log) equal the records written so far, 'is running' (also more than/less than/between some time) the live runs. 2.1M evaluations, ~70 s.",
"P10": "Engine E + W. Every history of up to 5 records over {upstream run/success/fail/terminate/inaction, dependent run/success, third task} x after success/fail/finish of one/all/any x {object, API, string} x {cached, log} x record models against the reference 'qualifying record after the own last start'. Engine W: pipelines of all pairs of executions, all/any pipelines, with re-runs and terminations of the upstream at any idle: at each cycle (hook) the dependent is started iff due and idle. ~45 s.",
"P11": "Engine E + W. Every history of up to 4 (6) outcomes found in the log x n in {0, 1, 2, 3, infinite} x record models; every sequence of 4 outcomes x times of starts for another reason x restart of the application at any cycle, driven end to end on a virtual clock; all executions in engine W with queued runs and terminations. Reference: fails in a row at the end of the outcome sequence <= n. ~16 s.",
"P07": "Engine E + W. Every log of up to 5 (4 with ids) records over 2 tasks {run, success, fail, inaction, terminate} x record models (run id, minimal, dict, pairs of records of equal time, CSV file), found by a start, a restart of the same session, or a new process: statuses, last_* and crash records equal the reference recovery (each run without end becomes exactly one crash record with its id, and is not reported again). Conditions after the recovery in start-up tasks, in the first cycle and in tasks created later. Engine W: sessions of all executions cut at every record written (crash point) and recovered. 15 s.",
"P12": "Engine E + W. ~50 schedules (minutely..yearly x at/between/after/before/starting/on, every(...) based on run/success/fail/finish, cron) x 3 consecutive occurrences x 7 patterns of cycle times relative to the occurrence x outcomes/durations x {one session, a fresh session and process per cycle} x time zone, driven through Session.start() on a virtual clock: exactly one run per occurrence that a cycle falls in, in its first cycle; every(...): gap since the reference event at least the span, and run at the first cycle after. Engine W: short schedules in all executions. ~60 s.",
"P18": "Engine W; the choices of the explorer enumerate configurations. (1) every subset of {session, own, queued, signature} sources for two arguments x 7 forms of function x 4 executions x {function, path} x sequences of 4 runs; (2) 32 kinds of argument (constants, Arg, Return, FuncArg pre/post/nested, Env, Cli, pipes, Task, Session, Config, logger, flag, missing ones) x source x execution x materialization, two tasks; (3) CodeTask and CommandTask (list/shell, argform, timeout) likewise. The surroundings (return values, environment, session values) change before each run. Oracle: the precedence table and the value of that moment; runs with missing arguments fail; the parameters of session and tasks are the same objects afterwards. The session has parameters nobody takes and that cannot be computed or pickled. Not covered: Session/Config/Task(name) objects in child processes (they are copies), FuncArg('post') needing the session in a child. 33k executions, 65 s.",
"P20": "Engine E. Every sequence of 3 (4 in thorough) operations {new task, rename, remove by name/object/delete, re-add, add a task of another session, include a group} from a start state x policies raise/ignore/rename against a reference collection (names, identities, lookups by name/object/containment), a scheduling cycle run at the end (exactly the members run) and a second session checked for being untouched; two sessions x clocks x logs x start orders. 27 s.",
"P21": "Engine W; the choices of the explorer enumerate configurations: everything that differs from a base configuration (forced/due x main/async/thread/process) in up to 2 (3) of: selection, execution, outcome, condition (never/true/raising), disabled, queued runs, start-up/shut-down task of each of three tasks; execution override (also an invalid one), priorities, naming by name/task/function, process limit 1, a task added/renamed/removed/disabled by a running task, own shut condition, a second call, an ordinary session before. Oracle: runs per task, start order, outcome records, a snapshot of settings, conditions, queues before and after. 26k executions, 20 s.",
"P23": "Engine W with switch points at every source line (some scenarios: every bytecode instruction, through sys.monitoring) of session.py, core/schedule.py and core/task.py. A user thread performs one of 24 operations {queue a run of an idle/busy/disabled/starting task, force_run, terminate, enable, disable, add, remove by object/name/delete of an idle/running/starting task, rename likewise, look up while a task adds and removes tasks, hold+resume, shut down, restart} preempting the scheduler at each of those points of a cycle (thorough: of the whole session, all executions), and itself held up for a whole cycle at each of its own lines. Locks of the code under test are emulated, so a user waiting for one gives way. Oracle: no call raises, the session ends normally, runs keep their two records and do not overlap, tagged runs executed exactly once, no start in a cycle beginning after remove/disable/hold, start in the first whole cycle after enable/add/resume, one termination, one restart, no cycle after a shutdown, nothing left running. 30k executions, 90 s.",
"P24": "Engine E, driven end to end (the conditions are start conditions of tasks of a session on a virtual clock; one row of starts per cycle compared with the reference). ~35 forms of 'scheduler running' at 20 boundary times x time zone x a second start; ~50 forms of cycle conditions x 7 cycles x 3 starts; all of them as shut conditions with four cycle lengths; 14 parameter conditions over every pair of 36 parameter states, a second session holding other values; 25 uses of 9 custom conditions (positional, keyword, default, string, regular expression, Task/Session/Arg arguments, combinations) over every pair of 16 states x 3 ways to define them; conditions determined by a task: every sequence of 4 (5) of {true, false, fail, no turn} x 3 active times x 2 sets of arguments. 60k evaluations, 7 s.",
"P25": "Engine E. Executions: all 600 combinations of own/group/outer group/session setting. Conditions and names: {none, object, string, custom function} x group and outer group conditions x prefixes x nesting x disabled, driven through 16 truth assignments, twice (a disabled task is enabled in between), a task added to the group afterwards. Pipelines across two groups referring by function, with prefixes, equal names, both orders of inclusion, parameters given by application/groups, both outcomes. 5 s.",
}
