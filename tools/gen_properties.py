# Regenerates /verif/properties.jsonl (kept so the list is edited in one place).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))
U='profiling/utils.py'; PR='profiling/profiler.py'; TR='profiling/tracing/__init__.py'
TI='profiling/tracing/timers.py'; SA='profiling/sampling/__init__.py'; SM='profiling/sampling/samplers.py'
ST='profiling/stats.py'; SK='profiling/sortkeys.py'; RE='profiling/remote/__init__.py'
RS='profiling/remote/select.py'; RG='profiling/remote/gevent.py'; RA='profiling/remote/asyncio.py'
RC='profiling/remote/client.py'; RB='profiling/remote/background.py'; VI='profiling/viewer.py'
MA='profiling/__main__.py'; SC='profiling/speedup.c'

p('C01','Start and stop keep the running state exact',
  'For every profiler, sampler, timer and background trigger: it reports running exactly from a start that succeeded until the next stop. Starting one that is running, or stopping one that is not, raises RuntimeError and changes nothing (the recorded statistics included). A start that fails, for whatever reason, leaves it not running and restartable, and stop leaves it not running even when its tear-down code raises. A run() which yields never, a value or more than once is refused with TypeError, a missing one with NotImplementedError. Used in a with statement it runs inside the block, is stopped on every way out of it, and lets every exception of the block pass.',
  ['histories','fault_sequences'],'every sequence of start/stop calls and every exception raised by start-up or tear-down code',
  'tests call start/stop on four toy implementations; no test looks at the state after a failed start, after a rejected second start, or after a failing tear-down.',
  [U,PR,RB],[('Runnable.start / Runnable.stop / is_running',U),('Profiler.start',PR),('ProfilerWrapper delegation',PR)],
  [('running generator','not None while running',U)],['is_running()','RuntimeError/TypeError from start/stop','statistics after a rejected start'])
p('C02','Every hook that start installs is released by stop or by a failed start',
  'Between a successful start and the matching stop the profiling hooks (interpreter and thread profile functions, profiling signal handler and interval timer, greenlet trace function, nested timers and samplers) are installed; after stop, and after a start that raises half-way, none of them is left behind. The interval timer is disarmed before its signal handler is taken away.',
  ['fault_sequences','histories'],'every path through start and stop, including an exception at any installation step or from any release step',
  'tests only see the success path of two of the five installers (getprofile/getsignal after a clean stop); no test makes an installation step fail.',
  [TR,SM,SA,TI,RB,U],[('TracingProfiler.run',TR),('ItimerSampler.run, TracingSampler.run',SM),('SamplingProfiler.run',SA),('GreenletTimer.run',TI),('BackgroundProfiler.run',RB),('deferral',U)],
  [],['sys.getprofile()','signal.getsignal(SIGPROF)','signal.getitimer','greenlet.gettrace()'])
p('C03','Hooks that belong to somebody else are given back or never taken',
  'If a profile function, profiling-signal handler, interval timer or greenlet trace function was already installed, then either start refuses without touching anything or stop puts back exactly what was there before. The one exception: a default profiling-signal disposition is replaced by ignoring the signal, so that a late signal cannot kill the process.',
  ['configurations','histories'],'whatever was installed before start',
  'tests try a SIGPROF handler and one refused profile function; profile functions under the tracing sampler, trace functions and a running interval timer are never tried.',
  [SM,TR,TI],[('ItimerSampler.run previous handler/timer',SM),('TracingSampler.run',SM),('TracingProfiler.run guard',TR),('GreenletTimer.run',TI)],
  [],['signal.getsignal','signal.getitimer','sys.getprofile','greenlet.gettrace'])
p('C04','Deferred clean-ups all run, once each, last registered first',
  'Every call registered with the deferral helper runs exactly once, with the arguments it was registered with, in reverse order of registration, when the block is left - normally, by return, or by an exception. One clean-up that raises does not keep the remaining ones from running, and the exception is not swallowed.',
  ['fault_sequences','programs'],'every block body, number of registrations and failing clean-up',
  'no test exercises the helper directly, and none lets a clean-up fail.',
  [U],[('deferral',U)],[],['order of calls','exception leaving the block'])
p('C05','Each profiling session starts from a clean slate',
  'When a profiler is started again, nothing of an earlier session shows in the new result: call tree, own counts and times, pending call entries, accumulated overhead and the session clocks are all reset, and they are reset before the first event of the new session can be recorded. The sessions of two profilers do not touch each other: starting or running one leaves the call tree and the pending entries of the other as they were.',
  ['histories'],'every history of earlier sessions before a start',
  'tests run one session per profiler; live and remote profiling restart the same profiler every interval.',
  [PR,TR,ST],[('Profiler.start',PR),('TracingProfiler.run',TR),('RecordingStatistics.clear',ST)],
  [('stats','root of the call tree',PR),('overhead, entry times','tracing book-keeping',TR)],['result() after a second start'])
p('C06','The tracing profiler counts each call exactly once, at its call path',
  'Each call event adds exactly one to the call count of exactly one node: the one reached from the root by the codes of the calling frames that are not ignored, outermost first, then the code of the called function. Return events and events of C functions never change any call count, and the calling frames on the way are only given placeholder nodes, never counts.',
  ['inputs','histories'],'every sequence of interpreter profile events and every frame stack',
  'tests feed one three-deep stack and one flat loop; recursion, C events and event orders are not covered.',
  [TR,ST],[('TracingProfiler._profile, record_entering, record_leaving',TR),('ensure_child',ST)],
  [],['own_hits of every node'])
p('C07','Tracing time is matched per call, never negative and free of own overhead',
  'A return adds to its function\'s inclusive time the time since the matching entry of that same code and frame, never a negative amount, and consumes that entry; a return without a recorded entry changes nothing. The time spent inside the profiler\'s own callback is measured and subtracted exactly once, so it is neither charged to the profiled functions nor taken from them.',
  ['histories','inputs'],'every interleaving of call and return events and every clock behaviour, including clocks that step back',
  'tests only compare that one busy function took longer than another.',
  [TR],[('_profile time1/time2/time3, overhead',TR),('record_entering/record_leaving',TR)],
  [('_times_entered','(code, frame) -> entry time',TR)],['deep_time of every node','cpu time of result()'])
p('C08','Every delivered sample counts once, on the function that was running',
  'Each sample adds exactly one own hit, to the node of the sampled frame reached by the codes of its callers that are not ignored, outermost first; callers get placeholder nodes only. This holds whatever was sampled before.',
  ['histories','inputs'],'every order of samples over every set of stacks',
  'tests sample one stack repeatedly and compare ratios within 20%; a function that is sampled first as a caller and later as the running function is not tried.',
  [SA,ST],[('SamplingProfiler.sample',SA),('ensure_child',ST)],[],['own_hits of every node'])
p('C09','The call tree has one node per code, and placeholders never swallow data',
  'Asking a node for the child of a code returns the existing child of that code or creates, registers and returns one, so a parent never has two nodes for one code and never loses one. A node obtained for recording really records: if only a placeholder was there it is replaced by a recording node that keeps the placeholder\'s children; asking for a placeholder never degrades a recording node.',
  ['histories'],'every order of placeholder and recording requests',
  'tests use a fresh tree in which the recording node is always created first.',
  [ST],[('RecordingStatistics.ensure_child/add_child/get_child/discard_child/remove_child',ST),('VoidRecordingStatistics',ST)],
  [],['children, own_hits and deep_time of nodes'])
p('C10','A frame stack holds exactly the wanted frames, outermost first',
  'The stack of a frame lists the frame and its callers, outermost first, stopping before the base frame or the first frame running the base code, and leaving out precisely the frames and codes that are to be ignored. The C accelerated and the pure Python implementation decide identically and fail cleanly.',
  ['inputs','configurations'],'every frame chain, base and ignore set, and either implementation',
  'tests check three combinations on the Python implementation; the C one is never built or run by the tests here.',
  [U,SC,PR],[('frame_stack',U),('frame_stack',SC),('Profiler.frame_stack',PR)],[],['returned sequence of frames'])
p('C11','Reported times are never negative',
  'The CPU time and the wall time of a result, and the own time of every node, are never negative, whatever the clocks and the measured overhead were; without a start both result times are zero.',
  ['inputs','histories'],'all clock readings and overhead values',
  'tests see only ordinary clocks in a single thread.',
  [PR,TR,ST],[('Profiler.result',PR),('TracingProfiler.result',TR),('Statistics.own_time',ST)],[],['result()','own_time'])
p('C12','Freezing statistics and thawing them loses nothing',
  'Pickling any statistics and loading it back yields a tree of the same shape in which every node has the name, file, line, module, own hits and inclusive time of its original, each in its own field. Children stay under their own parent and every node occurs exactly once.',
  ['inputs'],'every tree and every kind of statistics node',
  'tests round-trip one name in a single node (the larger freezing test cannot run on this interpreter).',
  [ST],[('make_frozen_stats_tree / frozen_stats_from_tree / FrozenStatistics',ST),('Statistics.__reduce__',ST)],[],['attributes of the loaded tree'])
p('C13','Profiles of any call depth can be measured, saved, loaded and flattened',
  'Computing inclusive values, iterating over descendants, freezing, thawing and flattening need a stack depth that does not grow with the depth of the profiled call tree, so a deep profile never hits the recursion limit.',
  ['inputs'],'every depth of call tree',
  'the only test for it skips itself on this interpreter.',
  [ST],[('spread_stats, deep_hits, VoidRecordingStatistics.deep_time, make_frozen_stats_tree, flatten',ST)],[],['RecursionError'])
p('C14','The flat layout accounts for every node exactly once',
  'Flattening merges nodes that agree in name, file, line and module and no others. Every descendant contributes its own hits, inclusive hits, own time and inclusive time exactly once, each to the same metric, and the root keeps its own identity and totals.',
  ['inputs'],'every call tree',
  'one six-node example, and only own hits are compared.',
  [ST],[('FlatFrozenStatistics.flatten',ST),('spread_stats',ST)],[],['children of the flattened root'])
p('C15','Derived metrics follow their definition and never raise',
  'Inclusive hits are the own hits plus those of every descendant; own time is the inclusive time minus the children\'s inclusive times, not below zero; a placeholder\'s inclusive time is that of its nearest recorded descendants; per-call values divide by the call count. Where a divisor is zero these metrics, and every percentage shown, the CPU usage included, are zero instead of an error.',
  ['inputs'],'every tree and every value',
  'a handful of hand-made nodes without placeholders or zero totals.',
  [ST,VI],[('deep_hits, own_time, *_per_call, VoidRecordingStatistics',ST),('format_percent, attr_ratio, update_frame',VI)],[],['metric attributes','viewer text'])
p('C16','Every sort order is total, and puts the largest metric first',
  'Each sort order works on any statistics that can occur, module-level code without a function name or module included, and never fails to compare two of them. Orders by a metric put larger values first, orders by name go ascending, and each order sorts by the metric it is named after.',
  ['inputs'],'every set of sibling nodes',
  'the sorting test cannot run on this interpreter and never mixes named and unnamed nodes.',
  [SK,ST],[('by_* sort keys',SK),('Statistics.sorted',ST)],[],['sorted()','viewer order'])
p('C17','Writer and reader agree on the message format',
  'A message on the wire is the method number, the exact byte length of the payload, then the pickled payload; the receiving side reads exactly these fields in this order with the same encodings, and takes as many payload bytes as the length says. The method numbers are distinct, and every method that is sent has a handler in the client.',
  ['inputs','configurations'],'every method, payload and pickle protocol',
  'no test covers the remote package at all.',
  [RE,RC],[('pack_msg / recv_msg',RE),('protocol handlers',RC)],[],['bytes on the socket'])
p('C18','A message is reassembled however the transport fragments it',
  'Receiving a fixed number of bytes returns exactly that many bytes even when they arrive in pieces, with interruptions or on a non-blocking socket; only a closed connection or a genuine socket error ends it early, and then it raises a socket error instead of returning or dropping partial data.',
  ['schedules','inputs'],'every fragmentation and timing of the incoming bytes',
  'no test covers it.',
  [RE],[('recv',RE)],[],['recv_msg()'])
p('C19','A new client is welcomed, told the profiler, then sent results',
  'Every client that connects first gets the welcome in the oldest pickle protocol, carrying the protocol number and version, then the class of the real profiler (not of a wrapper), then the latest result if there is one. Profiling is started when, and only when, the first client has connected; a later client never starts it again. Two servers share nothing: a client of one never gets the result of the other, nor counts as its client.',
  ['histories','configurations'],'every sequence of connections and disconnections',
  'no test covers it.',
  [RE],[('ProfilingServer.connected',RE)],[('clients','connected clients',RE)],['messages sent to the client','start of profiling'])
p('C20','One client never disturbs the broadcast to the others',
  'Each finished interval is sent, whole and unchanged, to every client that is connected, also to one that connects while it is being sent; a client that cannot be sent to is disconnected and does not keep the others from getting it. The set of clients is never modified while it is being walked, and a client is removed, closed and reported once however often its loss is noticed. The select server never waits for a client to take its data.',
  ['fault_sequences','schedules'],'every set of clients, failing at any point, including connects and disconnects while a send is in progress',
  'no test covers it.',
  [RE],[('ProfilingServer.profiling, disconnected',RE)],[('clients','connected clients',RE)],['data sent to each client','clients'])
p('C21','A failing client cannot take the profiling server down',
  'No socket error of a single client - while it is being accepted, welcomed, sent the latest result, sent a broadcast, asked for its address or read from - propagates out of the server; that client is dropped and the server goes on.',
  ['fault_sequences'],'every socket error at every client operation',
  'no test covers it.',
  [RE,RS,RG],[('connected, profiling',RE),('dispatch_sockets, _addr',RS),('_addr',RG)],[],['exceptions leaving connected(), profiling(), dispatch_sockets()'])
p('C22','Profiling happens only while somebody watches, in matched intervals',
  'The server profiles exactly as long as it has clients: each interval starts the profiler, waits for the time it was given, stops it and broadcasts the result of that interval, and when the last client has gone the profiler is left stopped. A profiler that was already started or already stopped by someone else does not end the server.',
  ['histories','fault_sequences'],'every history of connects and disconnects, including both within one wait',
  'no test covers it.',
  [RE,RS],[('ProfilingServer.profiling',RE),('profile_periodically',RS)],[],['profiler state','exceptions from profiling()'])
p('C23','All server back ends honour the server contract',
  'Each server back end (select, gevent, asyncio) implements every operation the base server requires, with parameters the base server actually passes, and calls the base server back with arguments it accepts: it reports each disconnection for the client that was lost. Each reports the peer address of a client, and sends the data in full. A client that is accepted stays connected until it leaves, cannot be sent to, or profiling has ended.',
  ['configurations','histories'],'every back end and every contract operation',
  'no test covers any back end; one of them cannot even be imported by the interpreters available.',
  [RE,RS,RG,RA],[('ProfilingServer abstract methods',RE),('SelectProfilingServer',RS),('GeventProfilingServer',RG),('AsyncIOProfilingServer',RA)],[],['calls between base and back end'])
p('C24','The client shows what it is sent and survives losing the server',
  'Each received message is handed to its handler: a welcome activates the viewer, a profiler class selects exactly the statistics table of that kind of profiler, a result is displayed with its CPU time, wall time, the client\'s title and the time of arrival. When receiving fails with a socket error, the client stops watching that socket, marks the viewer inactive and raises nothing.',
  ['fault_sequences','histories'],'every sequence of messages and socket errors',
  'no test covers it.',
  [RC],[('ProfilingClient.handle/erred, handle_*',RC)],[],['viewer state'])
p('C25','The failover client always reconnects',
  'After any loss of the connection, and after any refusal because the server is not (yet) there, too busy to accept or out of reach, the failover client closes the dead socket, makes a new non-blocking one and schedules another attempt; it waits the failover interval when the server refused so or its socket file is missing. A successful attempt is watched exactly once.',
  ['fault_sequences','histories'],'every sequence of connection results and socket errors',
  'no test covers it.',
  [RC],[('FailoverProfilingClient.connect/disconnect/create_connection/erred',RC)],[],['scheduled reconnections','watched descriptors'])
p('C26','The background trigger always gets its answer',
  'Starting or stopping through the background trigger toggles the real profiler in the main thread by one signal and returns only after that was done; the wait is always ended, even if the profiler refuses to start or stop. The handler is registered for the same signal that is sent, and an answer of an earlier request is never taken for the current one.',
  ['schedules','fault_sequences'],'every interleaving of request and handler and every failure of the profiler',
  'no test covers it.',
  [RB,PR],[('BackgroundProfiler.prepare/run/_send_signal/_signal_handler',RB)],[('event','answer of the handler',RB)],['return of start()/stop()'])
p('C27','Waiting for clients is interruptible but bounded',
  'Waiting for sockets with a time limit returns at the latest when that limit has passed in total, however often the wait is interrupted, and waits for every client and the listener. Interrupted waits are resumed for the remaining time only; other errors are reported.',
  ['schedules','fault_sequences'],'every sequence of interruptions',
  'no test covers it.',
  [RS],[('select_sockets, sockets',RS)],[],['duration and result of the wait'])
p('C28','A paused viewer shows the paused result, a resumed one the latest',
  'While the viewer is paused newly arriving results are remembered but not displayed; resuming displays the most recent one received. Pausing, resuming and updating work at any time, also before the first result.',
  ['histories'],'every interleaving of results, pauses and resumes',
  'no test covers the viewer beyond number formatting.',
  [VI],[('StatisticsViewer.set_result/update_result/pause/resume',VI)],[],['result shown by the table'])
p('C29','Every table cell stands under the header of its metric',
  'In each statistics table the cells of a row are as many as the columns and, column by column, show the documented metric of the header above them; selecting a column for sorting sorts by the metric of that column; percentages relate to the profile total. The initial sort order is the one its table declares, is one of the columns, and cycling through the orders reaches each of them. The head of the column sorted by, and of no other, is marked.',
  ['inputs','configurations'],'every table and every statistics',
  'no test covers the tables.',
  [VI,TR,SA,SK],[('columns / make_cells / order',TR),('columns / make_cells / order',SA),('make_columns, shift_order, sort_stats',VI)],[],['rendered table'])
p('C30','Every display attribute that can be used is defined in the palette',
  'Whatever value is shown and whatever state the viewer is in, the display attribute chosen for it (risk level, time unit, header state, sorting, marks, names) is one the palette defines, also in its focused form.',
  ['inputs','configurations'],'every value and viewer state',
  'formatting tests check attribute names of nine values, never the palette.',
  [VI],[('Formatter.attr_*, markup_*, update_frame, get_mark',VI),('StatisticsViewer.palette, focus_map',VI)],[],['rendered attributes'])
p('C31','Focus and expanded nodes survive every refresh',
  'When a new result, another sort order or another layout is shown, the focus returns to the node with the same path of functions (or the nearest existing ancestor) and every function the user expanded is shown expanded, until the user collapses it. Identity of a function across results depends only on its name, file and line, also after transfer.',
  ['histories'],'every sequence of user actions and results',
  'no test covers it.',
  [VI,ST],[('get_path, find_node, refresh, setup_widget, _widget_expanded/_widget_collapsed',VI),('Statistics.__hash__',ST)],[],['focused path','expanded nodes'])
p('C32','Everything handed to the viewer for display is displayed',
  'Setting a result makes the table show that result\'s statistics and, in the header, its CPU time, wall time, usage, title and time of capture; none of the values a caller supplies is dropped or swapped on its way. The header state tells paused from inactive from active.',
  ['histories','inputs'],'every result and viewer state',
  'no test covers it.',
  [VI,PR],[('set_result, update_frame',VI),('make_viewer, run_viewer',PR)],[],['rendered header'])
p('C33','Each command line option reaches the component it configures',
  'For every sub-command, under each of its documented names: the options it declares are exactly the parameters it takes, and the chosen profiler, timer, sampler, sampling interval, result interval, signal, pickle protocol, dump file, endpoint, verbosity, spawn mode and colour mode each arrive unchanged at the component they name - in particular the pickle protocol governs every result written or sent, and a cooperative spawn mode (gevent, eventlet) makes waiting for sockets cooperative before the program runs, so that the program does get to run.',
  ['configurations'],'every combination of options of every sub-command',
  'tests ask for --help and construct two profilers; no sub-command is ever executed.',
  [MA],[('profiler_options, profiler_arguments, live_profiler_options, sub-commands',MA)],[],['construction of profilers, servers, dumps'])
p('C34','A profiled program sees the environment of a directly run program',
  'Under every sub-command that runs a program, the program is executed as __main__ with sys.argv being its file name followed by precisely its own arguments - set before it starts - and with its own globals, and __package__ as -m sets it, for a package too; an exception or exit of the program ends remote-profile as well (an interrupt: quietly); giving both -m and -c, or neither these nor a script, is a usage error.',
  ['configurations','programs'],'every program, arguments and sub-command',
  'tests only convert module names; nothing is executed.',
  [MA],[('profiler_arguments, Script, Module, Command, profile, live_profile, remote_profile',MA)],[],['sys.argv and globals of the program'])
p('C35','A one-shot profile is stopped and delivered however the program ends',
  'When the profiled program returns, raises, calls sys.exit or is interrupted, profiling is stopped before anything else is reported, the profiler\'s own frames are taken out of the result, and then the result is either dumped to the requested file or shown, never both or neither. A profiler that a command started never stays running when the command ends, even with an error.',
  ['programs','fault_sequences'],'every way the program can end',
  'no test executes a command.',
  [MA],[('__profile__, timeit_profile',MA)],[],['profiler state, dump file, viewer'])
p('C36','Configuration files are honoured with the right precedence and type',
  'An option not given on the command line takes its value from the profiling section of the configuration files, later files overriding earlier ones and the built-in default used only when neither has it; the value is read with the type the option has, so whatever is valid on the command line is valid in the file.',
  ['configurations'],'every configuration file content',
  'one test with four settings; typed options other than the pickle protocol are not tried.',
  [MA],[('read_config, option_getter, config_default, config_flag',MA)],[],['effective option values'])
p('C37','Live profiling leaves no process, pipe or terminal behind',
  'In live profiling each side closes the pipe and socket ends it does not use, the child\'s standard streams never reach the viewer\'s terminal, and however viewer or program end, the child is signalled or reaped, its error output is shown and its exit status becomes the exit status of the command (not zero if a signal killed it); an error of the viewer itself comes out of the command. No thread of the profiling server keeps a program from ending.',
  ['fault_sequences','schedules'],'every way either side can end',
  'no test executes live profiling.',
  [MA],[('live_profile',MA)],[],['processes, descriptors, exit status'])
p('C38','Context timers count exactly the time a context was running',
  'For each context the timer\'s reading does not move while the context is paused, continues from where it stopped when it is resumed, and otherwise advances with the clock; contexts do not influence each other. A greenlet switch pauses the one switched from and resumes the one switched to.',
  ['histories','schedules'],'every sequence of pauses, resumes and switches of every context',
  'one test compares the totals of two greenlets.',
  [TI],[('ContextualTimer.__call__/pause/resume',TI),('GreenletTimer._trace/detect_context',TI)],[('_contextual_times','context -> (paused at, resumed at)',TI)],['timer readings'])
p('C39','The tracing sampler keeps its interval per thread',
  'A thread is sampled only if at least the sampling interval of its own CPU time has passed since its previous sample, independent of other threads; each sample restarts the interval. Book-keeping of threads that ended is dropped, that of living threads is kept.',
  ['schedules','histories'],'every interleaving of threads and their ends',
  'the tests for this sampler skip here, and none ends a thread.',
  [SM],[('TracingSampler._profile/_clear_for_dead_threads',SM)],[('sampled_times','thread -> time of last sample',SM)],['samples delivered'])
p('C40','A dumped profile can be viewed again',
  'What is written to a dump file is the profiler class and the result, and the view command reads it in the same shape and tells the name of the file and, as time of capture, when it was written, in an active viewer; the result tuple has the same fields in the same order (statistics, CPU time, wall time) wherever it is produced, transferred or consumed, and the times are what the CPU clock of the process and the wall clock advanced by since the start.',
  ['inputs','configurations'],'every profiler class, result and transport',
  'one test loads one dump with its own code; the view command and the remote client are never run on one.',
  [PR,MA,RC,TR],[('Profiler.result/dump',PR),('TracingProfiler.result',TR),('view',MA),('handle_result',RC)],[],['dump file','view'])
p('C41','Documented viewer keys do what the manual says',
  'Quit, pause/resume, layout toggle, hotspot, defocus and the two sort-column keys are each handled and trigger their documented action; the movement keys are bound to the vim and game alternatives in matching directions.',
  ['histories'],'every key in every state',
  'no test presses a key.',
  [VI],[('StatisticsTable.keypress, StatisticsViewer.unhandled_input, bind_vim_keys, bind_game_keys',VI)],[],['action of a key'])
p('C42','A stopped profiler records nothing more',
  'After stop has returned, neither calls made by threads that were started during the session nor signals of the sampler that arrive late change the recorded statistics, so that a result does not change while it is displayed, saved or sent; nor does such a signal end the process.',
  ['schedules','histories'],'every thread that outlives the session',
  'no test lets a thread outlive a session.',
  [TR,SM],[('TracingProfiler.run / thread hook',TR),('TracingSampler.run / thread hook',SM)],[],['statistics after stop'])
p('C43','Formatted numbers carry the right unit and magnitude',
  'For every number a formatter is given, the text that is shown is that number in the unit shown with it, up to the last digit shown: a time in us, ms, sec or minutes (with seconds below ten minutes only), a count alone or with a prefix of k to Y, a ratio in percent of the given whole (0 of nothing). What is shown is at least one of its unit and not more than one of the next larger; seconds and prefixed counts show a tenth. Only zero is shown as 0 time or n/a, only counts beyond the last prefix as o/f (u/f when negative), and only zero has the display attribute of zero; each time unit has one attribute of its own. Percentages up to 99% have at most four characters and counts at most six, which fit their columns.',
  ['inputs'],'every number, at and around every threshold',
  'thirty sample values.',
  [VI],[('Formatter.format_*',VI),('Formatter.attr_*',VI),('StatisticsTable.columns',VI)],[],['rendered text','display attribute'])
p('C44','Statistics and their rows name the function they stand for',
  'The statistics recorded for a code - placeholders included, and whether read directly, frozen or flattened - bear the name of that code (none for module level code), its file, its first line and the name of its module (none if the module is unknown); the root bears none of them. The row of a function shows its name, its module or else its file, and its line; the row of module level code shows its module or else its file; different functions get different rows.',
  ['inputs'],'every code: functions, lambdas, comprehensions, scripts, packages and code without a module',
  'tests look at the name of one function and one module.',
  [ST,VI],[('RecordingStatistics.name/filename/lineno/module',ST),('regular_name',ST),('Formatter.markup_stats',VI)],[],['statistics attributes','function column'])
p('C45','timeit-profile profiles just the repeated statement',
  'The set-up statement is executed once, first, and is not part of the profile. Then the whole statement - of several lines, or a block, or using any name - is executed, in the name space of the set-up, just the given number of times while the profiler is running. Without a number it is the least power of ten, from 10 on, whose run takes at least 0.2 seconds, and what was executed to find it is not part of the result.',
  ['inputs'],'every statement, set-up and number',
  'no test executes timeit-profile.',
  [MA],[('timeit_profile',MA)],[],['executions of the statement'])
p('C46','Wrong arguments are refused before anything starts',
  'A command line or configuration that means nothing - a timer, sampler, spawn mode, signal name, endpoint or number that is none, an option that does not exist or lacks its value, -m together with -c, no program at all, a script that cannot be read or compiled, a module that cannot be found, a view source that is neither dump file nor socket nor address - makes the command fail, and before that nothing is run, profiled, dumped or shown and no process, socket or client is made.',
  ['inputs'],'every option of every command, on the command line and in both configuration files',
  'tests convert a handful of good values and one bad one.',
  [MA],[('Class/Script/Module/Command/Endpoint/ViewerSource/SignalNumber.convert',MA),('profiler_arguments',MA),('spawn',MA)],[],['exit of the command','its effects'])
p('C47','Timers read the clock they stand for',
  "The tracing profiler's times are readings of its timer: the default timer and, for as long as no greenlet is switched, the greenlet timer read the CPU clock of the process, the thread timer that of the calling thread; each reading is taken when it is asked for, in seconds, by the timer that was given, and anything that is no timer is refused.",
  ['inputs','schedules'],'every timer and reading','tests let a timer run once and compare with a tolerance.',
  [TR,'profiling/tracing/timers.py'],[('Timer/ThreadTimer/GreenletTimer',  'profiling/tracing/timers.py'),('TracingProfiler.__init__',TR)],[],['timer readings'])
p('C48','The CPU-time sampler samples once per interval of CPU time',
  'The signal sampler arms the CPU-time interval timer with first and repeated delay equal to its interval, only after its handler is installed; each signal samples exactly the interrupted frame, once, for as long as the profiler runs; the sampling profiler uses the sampler it is given, refuses what is none, and otherwise makes one with the default interval.',
  ['inputs','schedules'],'every interval, signal and sampler argument','a test counts the hits of two functions with 20% tolerance.',
  [SM,SA],[('ItimerSampler',SM),('SamplingProfiler.__init__',SA)],[],['armed timer','samples'])
p('C49','The rows draw the tree of calls',
  'Each function visible in a table is drawn in exactly one row: below its caller, indented by one column per level, with a cell for every column and a mark telling whether it has callees to show (+), shows them (-) or has none (blank); what no caller shows is not drawn and nothing is drawn for the root.  This stays so through opening and closing rows by any of the keys, refreshing, sorting, new results and either layout.',
  ['inputs','histories'],'every profile, set of open rows, key and layout','no test looks at a row.',
  [VI],[('StatisticsWidget.get_indented_widget, get_mark, update_mark',VI),('StatisticsNode.load_widget, load_child_node',VI),('EmptyWidget, RootStatisticsWidget',VI)],[],['drawn rows'])
p('C50','Sampled hits are proportional to CPU time',
  'Over a long run the share of samples of each function converges to its share of CPU time.',
  ['schedules','programs'],'every program and schedule','one statistical test with two functions and 20% tolerance.',
  [SM,SA],[('ItimerSampler',SM)],[],['hit ratios'])
p('C51','Counts stay exact when several threads are traced at once',
  'With any number of threads recording at the same time no call or sample is lost or double counted.',
  ['schedules'],'every interleaving of recording threads','tests run two threads without contention on one node.',
  [TR,SA,ST],[('own_hits += 1',TR),('ensure_child',ST)],[],['own_hits'])
p('C52','The log of a server tells who is connected and when it profiles',
  'Every client that connects and every client that is lost is logged in exactly one line, with its address if it has one and with the number of clients after the event; the profiling loop logs one line with the interval when it begins and one when it has ended.  Whatever form an address has, logging it does not fail.',
  ['histories','configurations'],'every history of clients, form of address and back end','one test counts two lines of one back end.',
  [RE,RS,RG,RA],[('_log_connected, _log_disconnected, fmt_*',RE),('_addr',RS),('_addr',RG),('_addr',RA)],[],['lines given to log()'])
p('C53','Results of any size reach a client that keeps reading',
  'A client that keeps reading receives every broadcast, however large the result is and however slowly it reads.',
  ['schedules','inputs'],'every result size and reading speed','no test covers it.',
  [RS,RE],[('SelectProfilingServer._send',RS)],[],['data received'])
p('C54','What the manual shows works as it is shown there',
  'Every command line of the manual is accepted and does what the text beside it says: it runs the program with its arguments under the profiler and timer named, writes the dump, serves at the endpoint, or shows the file or server.  Every option works in each form and place: long or short, joined to its value or apart, before or after the program, under the full name of a command, its alias or none.  The example of profiling from code works with each profiler, and every exported name exists.',
  ['configurations','inputs'],'every command line of the manual, every option of every command, in every form and place','no test runs a command line of the manual.',
  [MA,PR,RE],[('profiler_arguments, profiler_options',MA),('ProfilingCLI',MA),('Profiler.__enter__',U),('__all__',RE)],[],['what arrives at the profiler, the server and the program'])
p('C55','What help and usage tell is true',
  'The default which the help of an option names is what is used without it, each choice it lists is accepted and selects what has its name, an option told to be ignored changes nothing, the default endpoint told is the one that is bound, and signals are called by a name that selects them.  --help of every command shows its usage, with the program and its arguments where they are expected, and runs nothing.',
  ['configurations'],'every option of every command, every signal','no test reads a help text.',
  [MA],[('profiler_options, live_profiler_options',MA),('SignalNumber.name_of',MA),('ProfilingCommand.collect_usage_pieces',MA)],[],['help texts','what is used by default'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x, sort_keys=False)+'\n')
print(len(P))
