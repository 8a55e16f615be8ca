"""Writes properties.jsonl (single source for the property texts)."""
import json, os
S = "salabim/salabim.py"
WHERE = {
"C01":"Component._push/_remove/_reschedule, Environment.step","C02":"Component.activate..standby, remaining_duration, Environment.step/_terminate","C03":"Component.interrupt/resume/hold/remaining_duration",
"C04":"Component._tryrequest/_release/cancel, Resource.release/set_capacity, Environment._terminate","C05":"Component.request/_check_fail/honor_all, Resource._tryrequest","C06":"Component.request/_release","C07":"Component.request/_tryrequest, Resource._tryrequest/release",
"C08":"Component.honor_all/honor_any/_tryrequest","C09":"Component.wait/wait_for/_trywait, State.set/reset/trigger/_trywait","C10":"Component._check_fail, request/wait/from_store/to_store",
"C11":"Qmember.insert_in_front_of, Component.leave/from_store/to_store, Store.rescan","C12":"Qmember.insert_in_front_of, Component.leave/from_store/to_store/filter, Store.rescan/set_capacity","C13":"Queue, Qmember, Component.enter*/leave/priority",
"C14":"Queue.__iter__/__reversed__","C15":"Qmember.insert_in_front_of, Component.leave, Queue.arrival_rate/departure_rate/reset_monitors","C16":"Monitor.tally/reset/monitor/_xweight/__call__","C17":"Monitor.tally/_tally_add_now/mean/std",
"C18":"Monitor.merge/slice/freeze/x_map/multiply","C19":"Component.standby, Environment.step","C20":"Environment.run/step/do_simulate","C21":"Component._push, Environment.step","C22":"random_seed, Environment.__init__, _set_env, _Distribution",
"C23":"Environment.reset_now/spec_to_time and every use of the offset","C24":"ComponentGenerator","C25":"Event","C26":"Environment.step/run","C27":"Environment.print_trace/suppress_trace/trace, print_* methods",
"C28":"Environment.simulate_and_animate_loop/run/animate/speed/synced/paused","C29":"PeriodMonitor, _PeriodComponent","C30":"suppress_trace, capture_stdout, cap_now, over3d","C31":"Uniform..Bounded, _Distribution","C32":"Environment.spec_to_time/spec_to_duration/datetime_to_t/t_to_datetime/to_* and their users","C33":"Environment.print_trace/step/trace/time_to_str and every print_trace call","C34":"_set_name, name/base_name/sequence_number/rename and register/deregister of all classes","C35":"Monitor.percentile/bin_*/value_*/values/print_statistics/print_histogram/histogram_autoscale"}
P = []
def p(id, title, statement, over, text, why, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S], mechanism=[dict(name=m, where=S+': '+WHERE[id]) for m in mech], observe_at=observe, hook_needed=None)))
F = "The tests run a handful of fixed models to fixed end times"

p("C01", "Events fire in (time, priority, order) sequence and the clock never runs back",
  "Whatever is scheduled, rescheduled or cancelled, components become current in order of scheduled time, then priority, then order of scheduling (urgent ones ahead of equal ones, latest first), exactly once per scheduling. The clock then equals exactly the scheduled time, never decreases, and nothing scheduled is skipped.",
  ["programs", "schedules", "fault_sequences"], "every model, every mix of times, ties, priorities and urgency, and every forced reschedule or cancellation of a pending event from another process or from the main program",
  F + " with few ties; the order among ties after removals from the middle of the event list is never compared with anything.",
  ["event list push/remove/pop", "main step loop", "scheduling helper shared by all process-interaction methods"], ["env.now()", "order in which processes resume"])
p("C02", "Process-interaction calls give exactly the documented status and resume time",
  "After any hold, activate, passivate, cancel, standby, resume or restart with another process, issued by the component itself or by anyone else and in any state, the component has exactly the documented status, scheduled time, remaining duration and running process. It then resumes exactly when that says, runs from where it was suspended (or from the start of the given process), and is never pending in two places.",
  ["programs", "histories", "fault_sequences"], "all sequences of interaction calls on a component by itself, other components and the main program, in every status it can be in",
  "Tests call each method in its usual state; forced calls on components that are requesting, waiting, standby, interrupted or ended are almost absent.",
  ["activate, hold, passivate, cancel, standby, remaining_duration", "removal of an entry from the event list and standby lists", "process termination"], ["status()", "scheduled_time()", "remaining_duration()", "isdata()/ispassive()/... predicates", "status and mode monitors"])
p("C03", "Interrupt and resume preserve the remaining time, at every nesting level",
  "An interrupted component stays inactive until it has been resumed as often as it was interrupted (or resumed for all levels at once), and then needs exactly the duration that remained when it was first interrupted. Interrupting is refused, without any effect, unless the component is scheduled or interrupted; resuming is refused unless interrupted.",
  ["schedules", "histories", "fault_sequences"], "all placements of nested interrupts and resumes in a component's holds, including at the instant an event is due and mixed with cancel, activate, hold and changes of the remaining duration",
  "Only a couple of fixed interrupt scenarios are run.",
  ["interrupt, resume, hold(interrupted=), remaining_duration"], ["status()", "interrupt_level()", "remaining_duration()", "time of resumption"])
p("C04", "Resource quantities are conserved",
  "At every moment a resource's claimed quantity equals the sum of what its claimers hold, available equals capacity minus claimed, occupancy is their ratio, and a component is a claimer exactly when it holds a positive quantity. Claims are only granted within capacity, and a component that ends or is cancelled gives back exactly what it held, once.",
  ["programs", "histories", "fault_sequences"], "all interleavings of requests, partial releases, resource-side releases, capacity changes, cancellations, forced activations, timeouts and process ends",
  F + "; no test sums claims after cancellations, partial releases or capacity changes.",
  ["request honoring", "release by component and by resource", "set_capacity", "cancel and process termination"], ["claimed_quantity(), available_quantity(), occupancy()", "claimers()", "component.claimed_quantity(resource)"])
p("C05", "Resource requests are honored in order and none is left behind",
  "Pending requests are kept in order of priority, then of arrival, and are honored in that order, a later request only being served before an earlier one that cannot be satisfied (or never, where the resource is restricted to its first or highest-priority requesters). Whenever a resource has enough available for a pending request that its rules allow to be served, that request is honored at that same moment, whatever made it possible (a release, a capacity change, a cancellation, a timeout or the departure of a blocking requester).",
  ["programs", "schedules", "histories"], "all request/release/cancel/timeout/capacity histories over several resources with mixed quantities and priorities, with and without the first-only and highest-priority-only restrictions",
  "A lost wake-up needs a particular sequence of departures from the request queue; tests contain no such sequence.",
  ["scan of requesters after a release, capacity change or failed request", "smallest-pending-quantity shortcut", "first-only and highest-priority-only rules"], ["requesters()", "claimers()", "time and order in which requests are honored"])
p("C06", "Preemption bumps only what it must, and tells the bumped component",
  "A request on a preemptive resource takes units only from claimers of strictly lower precedence, from the lowest precedence upwards, and only when that makes the request succeed at once; otherwise nobody is bumped. A bumped component loses its whole claim on that resource, is activated at that moment and can see it no longer claims; everyone else is untouched.",
  ["programs", "schedules"], "all sets of claimers with any quantities, priorities and statuses (holding, interrupted, passive, waiting elsewhere) at the moment a preempting request arrives",
  "The preemption tests use unit quantities and one bump.",
  ["bump candidate selection in request", "release with bump and activation"], ["isbumped()/isclaiming()", "claimers()", "resume time of the bumped component"])
p("C07", "Anonymous resources behave as exact bounded level counters",
  "The level of an anonymous resource changes only by honored gets and puts and explicit releases, by exactly their quantities, and stays between zero and its capacity. Every pending get or put that has become possible is honored at that same moment, including through chains of other anonymous resources and whatever then happens to the component that made it possible.",
  ["programs", "histories", "fault_sequences"], "all interleavings of gets, puts, resource releases, capacity changes and timeouts over chains of anonymous resources, with the putting component cancelled, interrupted or rescheduled right after its put",
  "The tests have one producer/consumer at fixed times.",
  ["request/get/put honoring on anonymous resources", "cascading retry after an anonymous quantity changed"], ["claimed_quantity()/available_quantity()", "requesters()", "moment of honoring"])
p("C08", "Multi-resource requests are all-or-nothing; one-of requests take exactly one",
  "A request for several resources claims all of them at one moment or none, holding nothing while it waits, and quantities named twice for the same resource add up. A one-of request claims exactly the first resource in its list that can serve it, and afterwards is pending on none of the others.",
  ["programs", "schedules", "histories"], "all combinations of multi-resource and one-of requests (ordinary, restricted and anonymous) competing over shared resources",
  "Tests contain single, uncontended multi-resource requests.",
  ["all-resources and any-resource test", "claiming loop and removal from every request queue"], ["claimed_resources(), claimed_quantity()", "requesters() of every named resource"])
p("C09", "State waits wake exactly the components whose condition holds",
  "When a state changes, every waiting component whose full condition (any or all of its constants, expressions or functions) holds is released at that moment, in waiting order, and nobody else is. A trigger releases at most the given number in waiting order on the temporary value, then leaves the state at its after-value and serves whoever matches that.",
  ["programs", "schedules", "histories"], "all histories of set, reset and trigger over several states of any value type with waits of every kind pending, mixed with cancellations, interrupts and timeouts",
  F + " using single states and simple conditions.",
  ["wait/wait_for condition evaluation", "state change broadcast", "trigger with max and value_after"], ["state()", "waiters()", "time and order of release"])
p("C10", "Time-limited requests, waits and store actions fail exactly on time or never",
  "A request, wait, or store action with a fail time either is honored strictly through its condition before that, or resumes exactly at the fail time reporting failure, having claimed, moved and changed nothing and pending nowhere any more. Once honored it never also fails, and a component that is forcibly activated, held, passivated or cancelled while pending is likewise removed from every waiting line and reports failure.",
  ["schedules", "histories", "fault_sequences"], "all races between honoring and the time limit, including both at the same instant, across multi-resource, multi-state and multi-store actions",
  "The same-instant races and the forced removals need schedules the tests do not have.",
  ["fail_at/fail_delay scheduling", "clean-up of pending requests, waits and store actions when a component becomes current or is rescheduled"], ["failed()", "requesters()/waiters()/from- and to-store requesters", "resume time"])
p("C11", "Store items are never lost or duplicated",
  "Every item put into a store is, until it is taken or removed, in exactly that store, and is handed to exactly one taker, whose filter accepts it and who sees that item and that store. A store never holds more than its capacity, and a waiting put delivers its item exactly once, when it is honored.",
  ["programs", "histories", "fault_sequences"], "all interleavings of single- and multi-store takes and puts with filters and keys, direct queue operations, filter changes, rescans, capacity changes, timeouts and cancellations",
  "Tests use one store with simple producers and consumers.",
  ["from_store, to_store", "enter/leave of a store serving waiting takers and putters", "rescan"], ["contents of every store", "return value of from_store, from_store_item(), from_store_store(), to_store_store()"])
p("C12", "Store requests are served in order and none is left behind",
  "A take gets the first accepted item in store order, or the one with the smallest key; an arriving item goes to the first waiting taker that accepts it and freed space to the first waiting putter, by request priority and then arrival. No taker keeps waiting once one of its stores contains an acceptable item (at arrival or when its filter is changed or rescanned), and no putter keeps waiting while one of its stores has room.",
  ["programs", "schedules", "histories"], "all arrival, departure, filter-change and capacity histories over several stores with waiting takers and putters at once",
  "Tests never have putters and selective takers waiting on the same full store.",
  ["matching on item arrival", "serving a putter on departure or capacity growth", "filter change and rescan"], ["from_store_requesters(), to_store_requesters()", "moment and order of service"])
p("C13", "Queues keep priority order, two-sided membership and their capacity",
  "A queue always contains exactly the components that entered and have not left, each once, in the order defined by the positions and priorities used (stable among equals), and every view of it (iteration, reverse, indexing, slices, length, membership, neighbours, head, tail, the component's own list of queues) agrees. A single entering, leaving or replacement that is refused (queue full, already a member, not a member, bad index) changes nothing at all.",
  ["programs", "histories"], "all sequences of the entering, leaving, moving, priority-changing, capacity-changing and set operations over several queues",
  "Tests check a few operations from a few starting contents.",
  ["linked membership records", "enter/leave/insert/priority", "queue set operations, extend, move, copy, clear"], ["iteration, len, index, in, slices", "queues(), enter_time(), priority()"])
p("C14", "Iterating a queue stays correct while the queue is modified",
  "A loop over an ordinary queue (one made by the user), forward or backward, may be interleaved with any modification of that queue, by the loop body or by other processes while the loop is suspended. It visits every component that stays a member throughout exactly once, visits components that entered meanwhile, never visits one that has already left, and terminates.",
  ["schedules", "histories"], "all interleavings of one or several concurrent iterations with enters, leaves, re-enters and priority changes at every suspension point",
  "Interleaving an open iterator with other processes' modifications is not tested.",
  ["queue iterators and their 'touched' bookkeeping"], ["sequence of components yielded"])
p("C15", "Queue statistics agree with the actual queue history",
  "At any time the recorded length history equals the true number of members over time, each departure records exactly the time that component stayed, and arrivals minus departures equals the length since the counters were reset. Mean length and stays therefore satisfy conservation over any completed period, across monitoring switches and resets and for the internal queues of resources, states and stores.",
  ["programs", "histories"], "all enter/leave histories with monitors switched off and on, reset, and set to statistics-only at any moment",
  "Tests print statistics for one or two models and do not recompute them.",
  ["tallies on entering and leaving", "arrival/departure counters", "reset_monitors, monitor on/off"], ["length, length_of_stay, available_quantity monitors", "number_of_arrivals, arrival_rate(), departure_rate()"])
p("C16", "Level monitors record the exact step function of their value",
  "For any sequence of changes, resets and switching off and on at any times, a level monitor returns the value in force at every past moment and the current value at now, and its mean, standard deviation, duration-per-value and extremes are those of the exact step function over precisely the monitored time. Reading statistics never changes later results.",
  ["histories", "schedules", "fault_sequences"], "all tally histories including several changes at one instant, resets at the instant of a change, and off/on at any moment",
  "Tests tally a few values and check a few statistics.",
  ["tally, reset, monitor on/off", "weight computation up to now and its cache"], ["monitor(t), mean, std, duration, xt/tx, minimum, maximum, value_duration"])
p("C17", "Statistics-only collection gives the same statistics as full collection",
  "For any history of tallies, weights, level changes, resets and switching off and on, a monitor that stores only statistics reports the same mean, standard deviation, extremes, total weight or duration and count, with and without zeros, as one that stores everything.",
  ["histories", "configurations"], "all tally histories for level and non-level, weighted and unweighted monitors, queried at any moment",
  "No test compares both kinds on one history.",
  ["incremental statistics update and the query-time extension to now"], ["mean(), std(), minimum(), maximum(), duration()/weight(), number_of_entries()"])
p("C18", "Merging, slicing, freezing and scaling monitors preserve the recorded data",
  "A slice contains exactly what was recorded in its half-open time window, a merge exactly the union (labels kept or levels summed where defined), a scaled or mapped monitor the same history with each value transformed, and a frozen monitor the history at that moment. None of them changes its sources, and none changes afterwards.",
  ["histories", "inputs"], "all recorded histories (with gaps, weights and resets) and all window boundaries, including boundaries on and between tallies and at now",
  "Tests cover one or two hand-made monitors per operation.",
  ["merge, slice, freeze, x_map, multiply, arithmetic operators"], ["x(), t(), xt(), xduration(), statistics of the derived monitors"])
p("C19", "Standby components are re-run after every event, none skipped",
  "After each event of an ordinary component, every component that was standby at that point becomes current once, in standby order, before the next event, except where the event's component was told to skip standby, in which case they are kept for later and not forgotten. A standby component that is activated, cancelled or otherwise rescheduled leaves the standby list at once.",
  ["programs", "schedules", "fault_sequences"], "all mixes of standby components, skipping components and forced rescheduling in the middle of a standby round",
  "One standby model is run without skip_standby or mid-round cancellation.",
  ["standby list and pending standby round in the step loop"], ["sequence of components becoming current", "isstandby()"])
p("C20", "Stopping and continuing a run at any point changes nothing",
  "Running to a time in any number of slices, by single steps, by duration or until time, or by stopping from within a process and continuing, gives the same history as one uninterrupted run (apart from extra rounds of standby components, which react to each return of a run as to an event), and each run call returns exactly when asked: at the given time after everything due before it, or when no events are left.",
  ["schedules", "configurations", "fault_sequences"], "all placements of run boundaries, single steps and in-process stops in a model's execution, including exactly on event times",
  "Tests call run once or twice per model.",
  ["run(duration/till), step, activation of main from a process"], ["complete event history and final state", "now() after run"])
p("C21", "Yield and yieldless versions of a model behave identically",
  "The same model written with yields (processes as generators) and without (processes as ordinary methods) has the same history: same resume times and order, same results of every call, same final state.",
  ["programs", "configurations", "fault_sequences"], "all models using any process-interaction methods under interrupts, cancellations, timeouts and restarts",
  "Both modes are tested on separate small models and not compared under forced rescheduling.",
  ["greenlet switch on self-scheduling calls versus generator send in the step loop"], ["event history", "return value of take-from-store calls"])
p("C22", "A run is a pure function of the model and its seeds",
  "The same model with the same random seed produces the same history and the same samples in any process and hash-seed, whether or not other environments exist, are created or run in between (at main level and leaving the default random stream alone: creating an environment seeds that stream unless told not to), garbage is collected, or a model is run again in the same interpreter. Distributions draw only from the stream given to them and seeding a stream affects that stream only.",
  ["programs", "configurations", "schedules"], "all models, seeds and interleavings of several environments in one interpreter",
  "A test process runs once with one hash seed; nothing compares two executions.",
  ["random seeding and stream selection", "default environment handling", "any iteration over unordered containers"], ["event history", "samples"])
p("C23", "Resetting the clock only relabels time",
  "Resetting now, at any moment and to any value, changes no order, duration or result of the simulation: everything pending occurs after the same remaining duration, and every absolute time given or reported afterwards is consistently expressed in the new clock, also with dates as time and with runs, fail times, generators and monitors given absolute times.",
  ["schedules", "fault_sequences", "inputs"], "all moments and targets of clock resets (forward, backward, repeated) in any model",
  "One test resets the clock in an idle model.",
  ["time offset applied at each absolute-time interface", "datetime0 adjustment"], ["now(), scheduled_time(), enter_time(), creation_time(), mode_time(), start_time()", "event history in elapsed time"])
p("C24", "Component generators create exactly what is specified, when specified",
  "A generator creates components at exactly the specified moments (fixed moments, inter-arrival times with or without disturbance, or spread over an interval), the specified number of them and none outside its start and end, each with the specified parameters, then reports its end exactly once. This holds whatever else is scheduled and after clock resets.",
  ["inputs", "configurations", "schedules"], "all combinations of start, delay, end, duration, number, iat, spread, moments and forced ends",
  "Tests exercise a few combinations.",
  ["component generator process variants"], ["creation times, count and parameters of the created components", "at_end calls"])
p("C25", "Scheduled one-shot events run their action exactly once",
  "A one-shot event runs its action exactly once at its scheduled time, in event order, and reports itself taken; if it is cancelled first the action never runs, and if it is rescheduled first it runs once at the new time.",
  ["schedules", "fault_sequences"], "all races of cancel, reschedule, interrupt and resume with the event's time",
  "Tests check the plain case.",
  ["event component process"], ["action invocations", "action_taken()"])
p("C26", "An exception in one process surfaces once and leaves the simulation usable",
  "An exception raised in a process, filter, condition or action reaches the caller of run unchanged, at that moment. All other components keep their status, claims, queue positions and schedules, and calling run again continues the simulation exactly as if the failing process had stopped there (a call on behalf of another component whose own condition or filter raises is not covered).",
  ["fault_sequences", "crash_points"], "an exception at every point of any process (and several in a row), in both process styles",
  "No test continues a simulation after an exception.",
  ["step loop error path", "run start and end bookkeeping"], ["exception seen by the caller", "history after continuing"])
p("C27", "Tracing and inspecting never change the simulation",
  "Switching the trace on, off or to a file at any moment, suppressing it for a block, and printing or reading any information or statistics leave the history, statistics (up to rounding) and random samples exactly as without. A block with suppressed trace that is left by an exception leaves the trace setting and the simulation state as they were.",
  ["configurations", "fault_sequences", "crash_points"], "all moments of switching, all inspection calls, and an exception at any point of a suppressed block",
  "Traces are compared as text in a couple of models.",
  ["trace printing and its suppression", "print_info/print_statistics/print_histogram family"], ["event history with and without", "trace() setting"])
p("C28", "Animation and real-time pacing never change the simulation",
  "A model gives the same history animated or not, at any speed, synchronised to the wall clock or not, and under any wall-clock behaviour (stalls, jumps, slow drawing) and any switching of animation, speed, synchronisation or pause, snapshot, single step or closing of the window during the run (a closed window ends the run with a prefix of that history); statistics that the model requests are those at its own time. When synchronised, simulated time never runs ahead of the wall clock times the speed, each frame shows what was due by then, and the run finishes within a bounded number of frames once it is allowed to proceed. (A process that records a blind video is itself part of the model; exceptions in an animated process are reported by the window system and not covered.)",
  ["schedules", "configurations", "fault_sequences"], "all wall-clock traces and user-interface actions at any frame",
  "Tests run without a display and without a clock they control.",
  ["simulate-and-animate loop", "animation time bookkeeping", "blind animation"], ["event history", "simulated time at each frame versus the wall clock"])
p("C29", "Period monitors partition their parent's data by period",
  "With a cyclic list of periods on a monitor, everything tallied is recorded in exactly the monitor of the period in which it happened, level values carry over period boundaries, and the per-period durations and weights add up to the parent's total from the start of partitioning as long as the parent is monitored. Several period monitors on one monitor work independently until removed, after which nothing more is recorded in them.",
  ["schedules", "inputs", "histories"], "all tally times relative to period boundaries, resets, and several partitions at once",
  "Period monitors are not tested.",
  ["period component and replaced tally/reset of the parent monitor"], ["statistics of each period monitor and of the parent"])
p("C30", "Temporary settings are restored however the block is left",
  "A block that temporarily suppresses the trace, captures standard output, allows times in the past or changes the drawing dimension has exactly that effect inside and restores the previous setting on leaving, also when left by an exception, when the process was suspended inside the block meanwhile, or when nested. (Blocks of different processes that overlap without nesting are not covered.)",
  ["fault_sequences", "crash_points", "histories"], "an exception at any point inside any nesting of such blocks",
  "Tests leave such blocks normally only.",
  ["context managers for trace, stdout capture, capping and 3d"], ["the setting before and after"])
p("C31", "Random samples stay in their support and follow their stream",
  "For every output the random stream can produce, including its extremes, and all valid parameters, each distribution returns a value in its support, equal to the documented function of that stream output, and consumes the stream independently of unrelated calls. Bounded, mapped and combined distributions never return a value their definition excludes. The mean it reports is the mean of that function, in the same time unit.",
  ["inputs", "fault_sequences"], "all stream outputs (including the extreme ones) and valid parameters",
  "Tests draw samples at ordinary seeds; extremes of the stream do not occur.",
  ["sample methods of the distributions", "bounded and combined sampling"], ["sample()", "mean()"])
p("C32", "A time or duration means the same in every notation",
  "A model whose durations and moments are given as numbers, as text, as callables or distributions, as timedeltas, datetimes or date texts, or converted from other time units has, in any time unit and with any date for time zero, the same history as the model with plain numbers; conversions to units and dates and back are exact inverses, and the date shown for a moment never jumps, also when the clock is reset. The wall clock of the computer has no influence.",
  ["inputs", "configurations", "schedules"], "all notations at every place where a time or duration is accepted, time units, dates of time zero, clock resets and wall-clock moments",
  "Tests convert a few fixed dates; nothing compares whole histories, and the wall clock is wherever it happens to be.",
  ["conversion of specifications to times and durations", "datetime0 and its shift by a clock reset", "time units"], ["event history", "now(), t_to_datetime, to_hours etc."])
p("C33", "The trace tells what really happened",
  "While trace is on, every time a component (or main at the end of a run) becomes current the trace has exactly one line that says so, in order, with its name and the simulated time or date, except for a component that suppresses trace and, where so set, one that resumes from standby and does nothing. A 'scheduled for' line tells the moment for which that component is then scheduled, no component changes its status or scheduled time without a line, and the lines about entering and leaving queues and about claims and releases add up to the actual contents and claims (an item handed over between a store and a waiting component is covered by its honor line). Nothing is traced while trace is off or the current component suppresses it, and none of this is disturbed by exceptions, clock resets, forced calls or switching.",
  ["programs", "histories", "fault_sequences"], "every model, with trace to standard output or a file, switched on and off anywhere, muted components, clock resets, dates, exceptions and forced calls",
  "Tests hardly look at the trace at all.",
  ["print_trace and its buffer for standby lines", "the lines printed by every process-interaction, queue and resource method", "time_to_str"], ["trace lines", "status(), scheduled_time(), queue contents, claims"])
p("C34", "Objects keep unique, predictable names, and registries hold what was registered",
  "Every component, queue, store, resource, state and monitor gets the name asked for; where that ends with a period or comma (or is left out: the class name) it is numbered from 0 or 1, consecutively per environment and kind of object (a store counts as a queue) in order of creation, whoever creates it and whatever other environments, failing set-ups, nested creations or generators do in between. Changing a name changes what is shown for that object and for the queues and monitors that belong to it, but never its base name, its sequence number or the numbering. A registry holds exactly the objects registered and not deregistered, in that order, each at most once, irrespective of their contents.",
  ["programs", "histories", "configurations"], "all orders of creation, renaming and registration by processes of several environments, in set-ups, by generators and by the main program",
  "Tests create objects in the main program of one environment.",
  ["assignment of serialized names", "renaming of derived objects", "registries"], ["name(), base_name(), sequence_number()", "registry contents"])
p("C35", "Percentiles, bins and printed statistics report exactly the recorded data",
  "Whatever was tallied, weighted, switched off, reset, sliced or merged, at any moment a monitor's percentiles (with any interpolation), bin and value counts, printed statistics and printed histograms equal what follows from the data recorded so far, with and without zeros. The rows of a histogram are disjoint and complete (bins exclude their lower and include their upper bound; values not listed are in the rest), so that they add up to the total and to 100%, in the order asked for. Text written to a file equals the text returned.",
  ["histories", "inputs", "configurations"], "all histories of any monitor by any processes, all moments of reporting, all options of the reports",
  "Tests print a few histograms and compare nothing, or one sample percentile.",
  ["percentile", "bins and value counts", "statistics and histogram tables"], ["percentile(), bin_*(), value_*()", "print_statistics(), print_histogram()"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
