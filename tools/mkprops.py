"""Writes /verif/properties.jsonl (kept as code so that it stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

T = 'profiling/tracing/__init__.py'; S = 'profiling/sampling/__init__.py'
SS = 'profiling/sampling/samplers.py'; ST = 'profiling/stats.py'; U = 'profiling/utils.py'
R = 'profiling/remote/__init__.py'; RS = 'profiling/remote/select.py'; RC = 'profiling/remote/client.py'
V = 'profiling/viewer.py'; M = 'profiling/__main__.py'; PR = 'profiling/profiler.py'; TT = 'profiling/tracing/timers.py'
RB = 'profiling/remote/background.py'; SK = 'profiling/sortkeys.py'; RA = 'profiling/remote/asyncio.py'; RG = 'profiling/remote/gevent.py'

prop('P01', 'Traced call counts follow the real call tree',
     'For any history of call and return events delivered to a tracing profiler (nested, recursive, interleaved over several threads, or starting in the middle of a call stack), the result holds exactly one node per distinct chain of callers that a call was seen on, each under the node of its caller. '
     "A node's call count is the number of calls entered on that chain; every other node is a caller that was already active when an event below or in it was seen, and counts zero. C-function events, returns without a recorded entry and frames excluded from profiling change no count. Functions of different files are different, even if their code compares equal.",
     ['histories', 'inputs'], 'every sequence of call/return/C events over every frame stack and every equality pattern of code objects',
     'test_tracing.py replays one call and one return on one three-frame stack; the node layout depends on the whole event history and on which code objects coincide, which no finite sample settles.',
     [T, ST], [('event handler', T + ' TracingProfiler._profile'), ('node lookup and creation', ST + ' RecordingStatistics.ensure_child'), ('placeholder nodes for active callers', ST + ' VoidRecordingStatistics')],
     ['TracingProfiler.stats (own_hits, children)'])
prop('P02', "Traced time is the program's time, never the profiler's",
     "For every non-decreasing sequence of timer readings and every call history, the inclusive time of a node is the sum, over its completed calls, of the timer time that passed between entry and exit outside the profiler's own bookkeeping, and a call that has not returned or whose entry was not seen contributes nothing. "
     'A function first seen as an already active caller stands for the time recorded below it, and keeps that when it is called itself later. '
     'Inclusive times are never negative, and the CPU time reported with the result is the elapsed CPU time minus all the time spent in bookkeeping.',
     ['histories', 'inputs', 'schedules'], 'every timer reading sequence, every nesting or interleaving of calls',
     'the tests only compare spin loops against each other with wide tolerances; bookkeeping charged to the wrong function stays invisible to them.',
     [T], [('entry/exit stamps', T + ' record_entering/record_leaving'), ('overhead accounting', T + ' TracingProfiler._profile'), ('result', T + ' TracingProfiler.result')],
     ['RecordingStatistics.deep_time', 'TracingProfiler.result()'])
prop('P03', 'Every sample is counted exactly once, on the sampled call path',
     "For any sequence of sampled frames inside the profiled base, each sample adds exactly one to the own count of the node whose path is the sampled call stack and changes no other node's own count, whatever was sampled before it. "
     'The total of all own counts (the inclusive count of the root) equals the number of samples, and the tree holds exactly the sampled call paths and their prefixes; a sample of an ignored frame counts for its nearest caller that is not ignored.',
     ['histories', 'inputs'], 'every sequence of sampled stacks, any order, any coincidence of code objects',
     'the sampling tests compare the hit ratio of two leaf functions; a lost or doubled sample on an inner function or an order-dependent loss is not observable there.',
     [S, ST], [('sample recording', S + ' SamplingProfiler.sample'), ('node creation', ST + ' RecordingStatistics.ensure_child')],
     ['SamplingProfiler.stats'])
prop('P04', 'A captured stack is exactly the profiled part of the call stack',
     "Capturing a frame's stack yields that frame and its callers ordered from outermost to innermost, containing exactly the frames that lie inside the base frame or base code (which itself and everything outside it is left out) and that are neither ignored frames nor frames running ignored code. "
     'A profiler uses the base and ignore settings it was constructed with.',
     ['inputs', 'configurations'], 'every call depth, every position of base frame/code and every set of ignored frames and codes',
     'test_frame_stack checks three settings on one three-deep stack.',
     [U, PR], [('pure Python walk', U + ' frame_stack'), ('profiler binding', PR + ' Profiler.frame_stack')], ['profiling.utils.frame_stack', 'Profiler.frame_stack'])
prop('P05', 'The C accelerator captures the same stack and is memory safe',
     'For every chain of frames and every base and ignore setting the C accelerator returns the same frames in the same order as the pure Python implementation (no frame at all is an empty chain). '
     'When an allocation or a set lookup fails it reports the failure instead of returning a wrong stack, and on every path it neither leaks nor over-releases an object nor touches memory outside the frames it was given.',
     ['inputs', 'fault_sequences'], 'every frame chain, every setting, every failing allocation or lookup',
     'the extension is not even built by the test suite (PyPy), and allocation failures cannot be provoked by tests.',
     ['profiling/speedup.c', U], [('C walk', 'profiling/speedup.c frame_stack'), ('wrapper', U + ' frame_stack (speedup branch)')], ['profiling.speedup.frame_stack'])
prop('P06', 'Derived figures agree with the recorded tree',
     "For every statistics tree, a node's inclusive count is its own count plus those of all its descendants; its exclusive time is its inclusive time minus its children's inclusive times, never below zero; per-call figures are the time divided by the own count, or zero without calls. "
     'A placeholder for a caller that was already running counts zero calls of its own and its inclusive time is the sum over its nearest recorded descendants; walking the descendants visits each exactly once, parents before children, and an opt-in walk descends only below the nodes it was told to descend into.',
     ['inputs'], 'every tree shape, every count and time value',
     'tests use a handful of literal trees; mock trees of test_sorting do not even build on the available interpreter.',
     [ST], [('deep_hits/own_time/per call', ST + ' Statistics'), ('placeholder time', ST + ' VoidRecordingStatistics.deep_time'), ('walk', ST + ' spread_stats')], ['Statistics properties', 'spread_stats'])
prop('P07', 'A saved or transmitted result is the result that was measured',
     'Serialising any recorded or loaded statistics tree and loading it back yields a tree of the same shape and child order whose nodes have the same name, file, line, module, call count and inclusive time, and therefore the same derived figures; saving it again changes nothing. '
     "This holds for trees deeper than the interpreter's recursion limit, and a saved profile is loaded by the viewer with the profiler type, CPU time and wall time it was saved with.",
     ['inputs', 'configurations'], 'every tree shape and content, every pickle protocol',
     'test_pickle round-trips one leaf and the deep-recursion test is skipped on PyPy.',
     [ST, PR, M], [('freeze', ST + ' make_frozen_stats_tree / frozen_stats_from_tree / Statistics.__reduce__'), ('dump', PR + ' Profiler.dump'), ('load', M + ' view')], ['pickle.loads(pickle.dumps(stats))', 'profiling view FILE'])
prop('P08', 'The flat layout conserves what the tree measured',
     'Flattening any statistics tree yields exactly one entry per distinct function (name, file, line and module together) occurring below the root, and its own count, exclusive time, inclusive count and inclusive time are the sums over all occurrences of that function. '
     "The root's own identity and figures are carried over unchanged and the flattened tree is left untouched.",
     ['inputs'], 'every tree shape, every coincidence of identities, every figure',
     'test_flatten checks own counts of one tree whose functions differ by name only.',
     [ST], [('flatten', ST + ' FlatFrozenStatistics.flatten')], ['FlatFrozenStatistics.flatten'])
prop('P09', 'Rankings order the entries by the column they name',
     'For every set of sibling statistics, sorting by a time, count or per-call key lists them in descending order of that figure (with the documented tie-breakers), sorting by name, module or function lists them in ascending order, and every entry appears exactly once. '
     'Every ranking is defined for every entry, including entries without a name or module; an entry without calls is ranked by its time in per-call rankings, and inverting a ranking lists the entries in the opposite order.',
     ['inputs'], 'every set of siblings with arbitrary figures and present or missing names',
     'the only sorting test does not run on the available interpreter and covers three entries with three figures.',
     [SK, ST], [('keys', SK), ('sorted', ST + ' Statistics.sorted')], ['Statistics.sorted', 'viewer columns'])
prop('P10', 'Start and stop alternate, and a failed start leaves it stopped',
     'For every history of start, stop and with-block operations on a profiler, sampler, timer or other runnable, it is running exactly after a successful start that has not been stopped yet; starting a running one or stopping a stopped one is refused without any effect, and each start/stop pair performs its set-up exactly once and its clean-up exactly once. '
     'A start that fails leaves it not running so that it can be started later.',
     ['histories', 'fault_sequences'], 'every sequence of operations, with the set-up or clean-up failing at any point',
     'test_runnable walks one success history and three malformed implementations, each once.',
     [U], [('lifecycle', U + ' Runnable'), ('with-block', U + ' Runnable.__enter__/__exit__')], ['Runnable.start/stop/is_running'])
prop('P11', "Profiling leaves the process's hooks as it found them",
     'Whenever a tracing profiler, sampler or greenlet timer is stopped, or its start fails at any step, every hook it installed (interpreter and threading profile functions, profiling signal handler and interval timer, greenlet trace function) is removed or put back to its previous value, except that a default profiling-signal action is replaced by ignoring the signal (a handler that Python cannot put back is out of scope). '
     'Clean-up actions deferred during set-up run exactly once each, in reverse order, whatever way the block ends and even if one of them fails (only a hook whose own removal call fails may stay), and a tracing profiler refuses to replace a profile function that is already installed.',
     ['fault_sequences', 'histories', 'configurations'], 'every previous hook state, failure of any set-up or clean-up call, every start/stop history',
     'test_setprofile and test_itimer_sampler check one successful run each; no test makes a step fail.',
     [T, SS, TT, U], [('deferral', U + ' deferral'), ('tracing run', T + ' TracingProfiler.run'), ('itimer', SS + ' ItimerSampler.run'), ('greenlet', TT + ' GreenletTimer.run')], ['sys.setprofile', 'threading.setprofile', 'signal.signal', 'signal.setitimer', 'greenlet.settrace'])
prop('P12', "Each run's result contains that run only",
     'Starting a profiler again discards everything the previous runs recorded, so that the statistics, CPU time and wall time it then reports depend only on what happened since that start. '
     'The reported CPU and wall times are the clock differences since the start, never negative, and zero for a profiler that never ran; excluding a code removes exactly its top-level entry and is harmless when there is none.',
     ['histories', 'inputs'], 'every history of runs, every clock behaviour including clocks that step back',
     'no test runs a profiler twice.',
     [PR, T, ST], [('start', PR + ' Profiler.start'), ('result', PR + ' Profiler.result'), ('clear', ST + ' RecordingStatistics.clear'), ('tracing state', T + ' TracingProfiler.run')], ['Profiler.result()'])
prop('P13', 'A context timer counts only the time its context was running',
     'For every schedule of context switches and every non-decreasing clock, the time a context timer reports for a context advances exactly by the clock time during which that context was resumed, stands still while it is paused, and never goes backwards. '
     'A context never paused or resumed counts as running since the clock reads zero. Pausing, resuming and reading one context never changes the time of another; the greenlet timer charges each interval between switches to the greenlet that ran in it.',
     ['schedules', 'histories', 'inputs'], 'every interleaving of pause, resume, switch and read over several contexts and every clock',
     'the timer tests run two workers once and compare with a tolerance.',
     [TT], [('pause/resume', TT + ' ContextualTimer'), ('trace', TT + ' GreenletTimer._trace')], ['ContextualTimer.__call__', 'GreenletTimer'])
prop('P14', 'The tracing sampler respects the interval in every thread',
     'For every interleaving of profile events over threads and all per-thread clock readings, the tracing sampler takes a sample of a thread exactly when at least the sampling interval has passed on that thread\'s clock since its last sample (or since zero for its first). '
     'Threads do not influence each other, and its periodic housekeeping forgets threads that have ended and only those; a thread that has got the identifier of an ended one is sampled by its own clock.',
     ['schedules', 'histories', 'inputs'], 'every event interleaving, every clock reading, arbitrarily long histories including housekeeping rounds',
     'its only test needs yappi (absent here) and three events in one thread; housekeeping happens after ten thousand samples.',
     [SS], [('rate limit', SS + ' TracingSampler._profile'), ('housekeeping', SS + ' TracingSampler._clear_for_dead_threads')], ['calls of profiler.sample'])
prop('P15', 'Messages survive any fragmentation of the stream',
     'For every sequence of messages written with the wire format and every way the transport splits, delays or truncates the byte stream, the receiver obtains exactly those messages, in order, byte for byte, never consuming bytes of the next message; short reads and a non-blocking socket that has nothing yet are delays. '
     'It reports a lost connection exactly when the stream ends before a complete message, and passes other transport errors on unchanged.',
     ['inputs', 'fault_sequences', 'schedules'], 'every payload length, every fragmentation, end of stream or error at every byte',
     'no test covers the remote modules.',
     [R], [('pack', R + ' pack_msg'), ('receive', R + ' recv / recv_msg')], ['recv_msg', 'pack_msg'])
prop('P16', 'Clients get a welcome, the profiler type, then every result in order',
     'For every history of clients connecting and leaving around profiling rounds, the profiler runs periodically while at least one client is connected and is stopped when the last one has left, and a new client after that starts it again. '
     'Each client receives first the welcome with the protocol and version, then the type of the innermost profiler, then the latest result if there is one, and afterwards each round\'s result exactly once and in order until it leaves.',
     ['histories', 'schedules'], 'every history of connections, disconnections and rounds',
     'no test covers the remote modules.',
     [R, RS], [('session', R + ' ProfilingServer.connected/disconnected'), ('rounds', R + ' ProfilingServer.profiling'), ('select loop', RS + ' SelectProfilingServer')], ['bytes sent to each client', 'profiler start/stop calls'])
prop('P17', 'A failing client never harms the server or other clients',
     'Whatever transport error occurs while sending to a client, at any message of its session, and whichever clients come or go while a result is being sent out, the server keeps running, every other connected client still receives the message (one that is still being greeted gets the newest result at the end of its greeting), and nothing more is ever sent to a client after a failed send. '
     'A client that is gone is removed, logged and closed exactly once.',
     ['fault_sequences', 'schedules', 'histories'], 'every error number at every send, every membership change during a broadcast',
     'no test covers the remote modules and errors at a particular send cannot be provoked by running sockets.',
     [R, RS, RG, RA], [('broadcast', R + ' ProfilingServer.profiling'), ('greeting', R + ' ProfilingServer.connected'), ('removal', R + ' ProfilingServer.disconnected')], ['bytes sent to each client', 'server.clients'])
prop('P18', "The viewer's live state follows the connection",
     'For every sequence of messages and failures a client handles, the viewer becomes active on a welcome, shows the profiler type and the results that were received in order, and becomes inactive when the connection fails. '
     'While connected exactly one watch exists on the current socket and after a failure none is left on the failed one; a failing-over client then closes it and schedules exactly one reconnection, delayed only if the server refused or its socket file is missing, and unknown messages are ignored. An unexpected outcome of a connection attempt is raised.',
     ['histories', 'fault_sequences'], 'every order of messages, transport errors and connection outcomes',
     'no test covers the client.',
     [RC], [('handlers', RC + ' protocol'), ('failover', RC + ' FailoverProfilingClient')], ['viewer calls', 'event loop watches and alarms'])
prop('P19', 'A paused viewer shows one result; resuming shows the newest',
     'For every interleaving of incoming results, pause, resume, sorting and layout changes, the table shows the newest result received while not paused and the result that was current at the moment of pausing until it is resumed, whatever arrives in between. '
     'On resuming the newest result is shown with its own CPU time, wall time, title and time of day. Being told another type of profiler shows an empty table of that type, while it is not paused.',
     ['histories'], 'every interleaving of results and user actions',
     'no test drives the viewer beyond number formatting.',
     [V], [('pause/resume', V + ' StatisticsViewer'), ('table', V + ' StatisticsTable.set_result')], ['StatisticsViewer.table', 'header text'])
prop('P20', 'Focus and unfolded rows survive every refresh',
     'When a new result, ordering or layout is shown, the focus stays on the same function along the same call path, or on its nearest ancestor that still exists, and a row is unfolded exactly if the user unfolded that function and has not folded it since; the mark at its left tells which (+ folded, - unfolded, blank without callees). '
     'The rows of each level are the children of their parent in the current order, each once.',
     ['histories', 'inputs'], 'every pair of consecutive trees, every focus and fold history, every order',
     'no test drives the viewer beyond number formatting.',
     [V], [('path', V + ' StatisticsTable.get_path/find_node'), ('unfolded rows', V + ' StatisticsTable._widget_expanded/_widget_collapsed'), ('rows', V + ' StatisticsNode')], ['StatisticsTable.get_focus', 'tree widgets'])
prop('P21', 'Displayed numbers denote the measured values',
     'For every count, time and ratio, the displayed text denotes the value correctly rounded to the digits shown with the right unit, so that reading the text back gives the value within half a unit of its last shown digit (long times are shown in whole minutes passed), and it is marked zero, n/a or out of range only when it is. '
     'Colour classes follow the value monotonically across the documented thresholds.',
     ['inputs'], 'every count up to the overflow range, every non-negative time and every ratio',
     'test_viewer.py checks about thirty literals; unit boundaries and carries in rounding fall between them.',
     [V], [('formatting', V + ' Formatter')], ['fmt.format_int/format_time/format_percent', 'fmt.attr_*'])
prop('P22', 'Waiting for sockets honours the timeout despite interruptions',
     'For every sequence of interruptions and every clock progress, waiting for client sockets with a timeout returns the ready sockets or, once the timeout has elapsed, nothing; it never asks the system to wait beyond the remaining time and never fails because of an interruption, while other errors are passed on. '
     'A ready listener yields a new client session, and a client that is readable or whose connection is broken is taken as having left, unless reading from it was interrupted or would block.',
     ['fault_sequences', 'schedules', 'inputs'], 'every interruption pattern, every clock, every timeout',
     'no test covers the remote modules.',
     [RS], [('retry loop', RS + ' select_sockets'), ('dispatch', RS + ' dispatch_sockets')], ['select.select calls', 'returned sockets'])
prop('P23', 'Profiling a program always ends with its result',
     'However the profiled program ends (normally, with an exception, or by exiting), the command stops the profiler exactly once before reporting, prints the error if there was one (an exit need not be printed), and then either saves the result to the requested file with the requested protocol, even if the program changes the current directory, or opens the viewer, never both. '
     'The reported statistics are those of the program and leave out the command\'s own function and its callers.',
     ['fault_sequences', 'configurations', 'inputs'], 'every way the program ends, every combination of options',
     'no test runs the profile command on a program.',
     [M], [('runner', M + ' __profile__')], ['profiler calls', 'dump file', 'viewer'])
prop('P24', 'Background start and stop have taken effect when they return',
     'Starting or stopping a profiler from a background thread returns only after the main thread has started or stopped it, toggles it exactly once per request, and the wrapper always reports the state, statistics and result of the profiler it wraps. '
     'Repeated rounds alternate start and stop with no lost or doubled toggle; a start that fails is reported to the requester, leaves the profiler stopped and does not disturb the program in the main thread.',
     ['histories', 'schedules'], 'every history of background start and stop requests and every delivery moment of the signal',
     'no test covers the background profiler.',
     [RB, PR], [('signal hand-over', RB + ' BackgroundProfiler'), ('wrapper', PR + ' ProfilerWrapper')], ['wrapped profiler start/stop', 'BackgroundProfiler.is_running'])
prop('P25', 'Option values mean what the command line says they mean',
     'A value given on the command line wins over .profiling, which wins over setup.cfg, which wins over the built-in default, and each value is read with the type its option has. '
     'An endpoint is accepted exactly if it is HOST:PORT with a host and an integer port, a signal exactly if it is a number or a known signal name in any case with or without the SIG prefix, and each names the same thing that is printed for it; a timer or sampler is chosen by its documented name.',
     ['configurations', 'inputs'], 'every combination of sources and every short string',
     'test_config checks three configurations, none with live options; no test parses endpoints or signals.',
     [M], [('config', M + ' config_default/config_flag'), ('types', M + ' Endpoint/SignalNumber/Class')], ['parsed parameters'])
prop('P26', 'Sampling frequency reflects CPU time spent',
     'Over a long run the share of samples attributed to a function converges to the share of CPU time spent in it.',
     ['schedules', 'inputs'], 'every program and every delivery behaviour of the profiling signal',
     'only a ratio of two spin loops is compared.',
     [SS], [('itimer', SS + ' ItimerSampler.run')], ['hit ratios'])
prop('P27', 'Concurrent threads never corrupt the recorded statistics',
     'When events of several threads are handled truly concurrently, no call, time or bookkeeping increment is lost and a result taken while threads still run is a consistent snapshot.',
     ['schedules'], 'every bytecode-level interleaving of event handlers in different threads',
     'the thread tests run two workers once.',
     [T, ST], [('shared state', T + ' TracingProfiler._profile')], ['TracingProfiler.stats'])
prop('P28', "Every row shows its own function's figures under their headings",
     "Whatever the statistics, every row of the viewer names its function with its module (or its file, and line) and shows under each heading that function's own figure: for tracing the number of calls, the exclusive and inclusive time, each also per call and as share of the CPU time of the result; for sampling the samples of the function itself and including its callees, each also as share of all samples. "
     'A share of nothing is shown as zero. The headings are those documented, in their order, exactly the column the table is ordered by is marked, and the figures shown belong to the result that is shown, in the nested and in the flat layout, after every new result, layout change or order change.',
     ['inputs', 'histories'], 'every tree, every figure, both layouts and both kinds of table',
     'no test looks at a row of the table.',
     [V, T, S], [('tracing cells', T + ' TracingStatisticsTable.make_cells'), ('sampling cells', S + ' SamplingStatisticsTable.make_cells'), ('rows and headings', V + ' StatisticsTable/StatisticsWidget'), ('function text', V + ' Formatter.markup_stats')],
     ['cells of the rows', 'headings'])
prop('P29', 'The keys of the viewer do what the documentation says',
     "For every sequence of keys, down and up move the focus to the row after or before it among the visible rows (onto the first row if none is focused) and stop at the ends; right unfolds a function that has callees, or moves to its first callee if it is unfolded; left folds an unfolded function, or moves to its caller; in the flat layout neither does anything. '>' unfolds and moves down the callees that come first in the ranking until one has none, '\\' switches between the nested and the flat layout keeping the focus on a function that is still shown, '[' and ']' order by the previous or next column that can order, going round at the ends, enter and space pause and resume, esc takes the focus off the rows, and q quits. "
     'The rows shown are the callees of the unfolded functions, each once, in the chosen order. The vim keys (hjkl) and game keys (wasd), once bound, mean the same as the arrows, and any other key changes nothing.',
     ['histories', 'inputs'], 'every sequence of keys on every tree',
     'no test presses a key.',
     [V], [('keys', V + ' StatisticsTable.keypress / StatisticsViewer.unhandled_input'), ('folding', V + ' StatisticsWidget'), ('order', V + ' StatisticsTable.shift_order'), ('aliases', V + ' bind_vim_keys/bind_game_keys')],
     ['focus', 'visible rows', 'order', 'paused'])
prop('P30', 'Live and remote profiling report the running program, round by round',
     'For every history of the program, the interval and clients coming and leaving, live and remote profiling listen at the requested endpoint, profile only while there is a client, and after each interval send every client a result holding exactly the calls or samples the program made since the previous one (besides calls of the profiler itself), with the requested profiler, protocol and signal. '
     'The profiled program runs once with its own arguments and its end is the end of the command: remote profiling passes its exception or exit on, except an interrupt; live profiling ends with its exit code and prints what it wrote to the standard error, closes the connection, passes an interrupt on, and leaves no program running when the viewer ends.',
     ['histories', 'schedules', 'fault_sequences'], 'every history of rounds, clients, calls and ends',
     'no test runs the live or remote command.',
     [M, RS, RB], [('commands', M + ' live_profile/remote_profile'), ('server', RS + ' SelectProfilingServer'), ('hand-over', RB + ' BackgroundProfiler')],
     ['bytes sent to the clients', 'exit code', 'signals to the program'])
prop('P31', 'The program that runs is the one the command line names',
     'For every way to name a program (a script file, -m with a module or package, -c with a command) and any arguments behind it (behind -- even if they look like options), profile, live-profile and remote-profile run exactly that program once as the main module: in a namespace of its own, with __name__, __file__ and __package__ as Python itself sets them and sys.argv holding exactly its arguments. When no program or several are named, or it cannot be found or compiled, the command is refused and no profiler is started. '
     'timeit-profile executes the set-up once, unprofiled, then the whole statement, of however many lines and with the variables of the set-up, as often as requested (else the least power of ten, from 10 up, for which a trial takes 0.2 seconds), and its result is that of this last run only.',
     ['inputs', 'configurations'], 'every form of program, every argument list, every duration of the trials',
     'the tests run one script without arguments; the forms, the arguments and the trial durations are never varied.',
     [M], [('programs', M + ' Script/Module/Command'), ('arguments', M + ' profiler_arguments'), ('repetitions', M + ' timeit_profile')],
     ['sys.argv and the globals of the program', 'runs of the statement'])
prop('P32', 'The viewer shows what its source names',
     'For every source given to the view command: a regular file is shown at once as the saved profile it is, with the type of its profiler, its result, the name of the file as title and the time of its last change; a socket file, or else HOST:PORT where no such file exists, is a server, which the viewer connects to and, whenever refused or disconnected, connects to again, by that address and family. '
     'The newest result received, with its times, the name of the source and the time it arrived, is shown and stays when the connection is lost; the viewer is live exactly from the welcome to the loss of the connection. Anything else is refused without opening the viewer, and leaving the viewer, also by an interrupt, ends the command quietly.',
     ['inputs', 'histories'], 'every form of source, every kind of file, every history of connections, refusals and results',
     'no test runs the view command.',
     [M, RC, V], [('source', M + ' ViewerSource/view'), ('title', M + ' get_title'), ('client', RC + ' FailoverProfilingClient')],
     ['the table of the viewer', 'connections made'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
