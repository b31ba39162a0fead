#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(),
         observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(qtext.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w}
                      for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': list(observe),
            'hook_needed': None,
        },
    })


prop('C01', 'Tracing counts every call on its exact call path',
     """For any program run under a tracing session, the result holds for every
     call path entered during the session a count equal to the number of times
     that path was entered (a generator resumption is an entry), whether calls
     recurse, return or raise, and also for functions that were already active
     when the session started and are called again later.  Functions that were
     only on the stack appear with a count of zero, and nothing that happened
     before the start or after the stop of the session is counted.""",
     ['programs', 'histories'],
     """all programs (call trees with recursion, exceptions and generators) and
     all placements of session start/stop within them, over repeated sessions""",
     """the tests record one three-deep chain and one flat loop; they never
     start a session inside a running call, and never compare a whole tree.""",
     ['profiling/tracing/__init__.py', 'profiling/stats.py'],
     [('TracingProfiler._profile', 'profiling/tracing/__init__.py'),
      ('record_entering / record_leaving', 'profiling/tracing/__init__.py'),
      ('ensure_child', 'profiling/stats.py')],
     [('stats', 'root of the recorded call tree', 'profiling/profiler.py'),
      ('_times_entered', 'calls that are open', 'profiling/tracing/__init__.py')],
     ['profiler.result()[0]', 'profiler.stats'])

prop('C02', 'Tracing times equal time spent in calls, without profiler overhead',
     """For every call path, the recorded inclusive time equals the sum, over
     its calls that began and ended within the session, of the timer time
     between entry and exit, excluding the time the profiler itself spent
     processing events; a function that was active before the session began
     contributes the inclusive times of its recorded callees instead.
     Exclusive time is inclusive time minus that of the direct callees and
     never negative, and the reported total CPU time excludes the profiler's
     own processing time.""",
     ['programs', 'histories', 'inputs'],
     """all programs, all durations of program steps and all costs of the
     profiler's own event processing""",
     """tests only check that a time is non-zero or bigger than another; real
     clocks cannot expose a constant bias or a double subtraction.""",
     ['profiling/tracing/__init__.py', 'profiling/stats.py'],
     [('overhead accounting', 'profiling/tracing/__init__.py'),
      ('own_time', 'profiling/stats.py'),
      ('VoidRecordingStatistics.deep_time', 'profiling/stats.py')],
     [('overhead', 'time spent in the profiler callback',
       'profiling/tracing/__init__.py')],
     ['profiler.result()'])

prop('C03', 'Concurrent threads lose no calls and corrupt no paths',
     """When several threads run under one profiling session (tracing, or
     sampling with the tracing sampler), the recorded tree is the one that
     results from handling their events one at a time: for every interleaving
     of the threads no call, sample or path is lost, duplicated or attributed
     to another path.  Once stop() has returned, no thread that is still
     running changes the result any more.""",
     ['schedules'],
     """all interleavings of 2-3 threads delivering call/return events to one
     profiler, and of those threads with stop()""",
     """the thread test compares two CPU times with a tolerance in one
     uncontrolled schedule; a lost update needs a switch inside the callback.""",
     ['profiling/tracing/__init__.py', 'profiling/sampling/__init__.py',
      'profiling/sampling/samplers.py', 'profiling/stats.py'],
     [('TracingProfiler._profile', 'profiling/tracing/__init__.py'),
      ('SamplingProfiler.sample', 'profiling/sampling/__init__.py'),
      ('RecordingStatistics.ensure_child', 'profiling/stats.py')],
     [('stats tree', 'shared by every traced thread', 'profiling/stats.py')],
     ['profiler.stats after all threads finished'])

prop('C04', 'Start/stop lifecycle is strict and survives failing starts',
     """Anything startable (profilers, timers, samplers, wrappers) reports that
     it is running exactly between a successful start and the next stop;
     starting it while running or stopping it while not running raises
     RuntimeError, a non-canonical implementation raises TypeError.  A start
     which is rejected keeps the ongoing session with its statistics and times,
     and after one that fails the instance is not running and can be started
     later.  Every successful profiler start begins with empty statistics.""",
     ['histories', 'fault_sequences'],
     """all sequences of start, stop, with-blocks and recording, with faults
     injected in the implementation's start and stop phases""",
     """test_runnable walks one history per implementation and never looks at
     the state after a start that failed.""",
     ['profiling/utils.py', 'profiling/profiler.py'],
     [('Runnable.start/stop', 'profiling/utils.py'),
      ('Profiler.start', 'profiling/profiler.py')],
     [('_running', 'the generator of the current session',
       'profiling/utils.py')],
     ['is_running()', 'raised exceptions', 'profiler.stats'])

prop('C05', 'A session installs its hooks and leaves none behind',
     """A running session has its profile function, thread profile function,
     profiling signal handler, profiling interval timer or greenlet trace
     function installed; when it stops, or when any step of its start fails,
     every one it installed is removed again (profile functions are unset;
     signal handler and interval timer are restored to what they were, except
     that a default signal disposition becomes ignored), whatever happens in
     between.  A tracing session refuses to start while another profile
     function is registered and leaves that function in place.""",
     ['histories', 'fault_sequences', 'configurations'],
     """all prior states of the hooks, all start/stop histories, and a fault at
     each step of installing and removing them""",
     """tests cover one prior state each for the signal handler and the profile
     function, without any failing step.""",
     ['profiling/tracing/__init__.py', 'profiling/sampling/samplers.py',
      'profiling/tracing/timers.py', 'profiling/utils.py'],
     [('deferral', 'profiling/utils.py'),
      ('TracingProfiler.run', 'profiling/tracing/__init__.py'),
      ('ItimerSampler.run', 'profiling/sampling/samplers.py'),
      ('TracingSampler.run', 'profiling/sampling/samplers.py'),
      ('GreenletTimer.run', 'profiling/tracing/timers.py')],
     [('sys/threading profile functions, SIGPROF, ITIMER_PROF, greenlet trace',
       'process-wide hooks', 'interpreter')],
     ['sys.getprofile()', 'signal.getsignal()', 'signal.getitimer()'])

prop('C06', 'Contextual timers charge a context only its own CPU time',
     """With a thread or greenlet timer, the time measured between two points
     of one thread or greenlet equals the CPU time which passed while that
     context itself was running between those points: for every sequence of
     context switches, including contexts that are first seen in the middle, a
     timer which is started again later, and contexts that were switched while
     the timer was not running.  A context's timer never goes backwards and
     does not advance while the context is paused.""",
     ['schedules', 'histories'],
     """all sequences of context switches, pauses, resumes, clock advances and
     timer restarts over 3 contexts""",
     """tests compare light and heavy work in one schedule with two contexts
     and one session, on real clocks.""",
     ['profiling/tracing/timers.py', 'profiling/tracing/__init__.py'],
     [('ContextualTimer.pause/resume/__call__', 'profiling/tracing/timers.py'),
      ('GreenletTimer._trace', 'profiling/tracing/timers.py'),
      ('ThreadTimer', 'profiling/tracing/timers.py')],
     [('_contextual_times', '(paused_at, resumed_at) per context',
       'profiling/tracing/timers.py')],
     ['timer()', 'deep_time of functions run in each context'])

prop('C07', 'Every sample is counted once at the path of the sampled frame',
     """After any sequence of samples, the exclusive hits at a call path equal
     the number of samples whose stack was exactly that path, the inclusive
     hits equal the number of samples whose stack passed through that path, and
     the inclusive hits of the root equal the total number of samples; this
     holds in whatever order callers and callees were sampled first.  A profiling
     signal which arrives while a sample is being taken is none of the program
     and neither changes nor loses any.""",
     ['histories', 'inputs'],
     """all sequences of sampled stacks over a small alphabet of functions
     including recursion, any base/ignored filter, and signals at every line
     of taking a sample""",
     """the tests only compare the ratio of two leaf functions.""",
     ['profiling/sampling/__init__.py', 'profiling/stats.py'],
     [('SamplingProfiler.sample', 'profiling/sampling/__init__.py'),
      ('ensure_child', 'profiling/stats.py')],
     [('stats', 'recorded tree', 'profiling/profiler.py')],
     ['profiler.stats'])

prop('C08', 'The tracing sampler honours the interval for each thread',
     """The tracing sampler takes a sample of a thread at an event if and only
     if the thread has consumed at least the interval of CPU time since its
     previous sample, independently of other threads, of how many samples were
     taken before, and of threads which have ended, also when an ended thread's
     identifier is used again by a new thread.  Bookkeeping for ended threads is
     eventually discarded.""",
     ['histories', 'schedules'],
     """all sequences of events with CPU times from several threads, thread
     deaths, identifier reuse, at every phase of the periodic clean-up""",
     """the sampler's tests are skipped here, use one thread and three events;
     the clean-up runs only once per 10000 samples.""",
     ['profiling/sampling/samplers.py'],
     [('TracingSampler._profile', 'profiling/sampling/samplers.py'),
      ('TracingSampler._clear_for_dead_threads',
       'profiling/sampling/samplers.py')],
     [('sampled_times', 'CPU time of the last sample of each thread',
       'profiling/sampling/samplers.py')],
     ['profiler.sample() calls'])

prop('C09', 'Stack filtering keeps exactly the frames above the base',
     """For every stack, base frame, base code, set of ignored frames and set
     of ignored codes, the extracted stack is, outermost first, the sequence of
     frames strictly above the innermost occurrence of the base frame or base
     code, without those that are ignored themselves or whose code is ignored.
     The C accelerator and the Python implementation give the same answer.""",
     ['inputs'],
     'all stacks up to a depth over a small code alphabet, and all filters',
     """the test uses one three-deep stack with two filters; the C accelerator
     is never built or run by the tests.""",
     ['profiling/utils.py', 'profiling/speedup.c', 'profiling/profiler.py'],
     [('frame_stack', 'profiling/utils.py'),
      ('frame_stack (C)', 'profiling/speedup.c')],
     [], ['return value of frame_stack / Profiler.frame_stack'])

prop('C10', 'Derived statistics and flattening conserve hits and time',
     """For every statistics tree: inclusive hits equal the exclusive hits
     summed over the node and all descendants, exclusive time equals inclusive
     time minus the direct children's (not below zero), per-call values divide
     by the exclusive hits (zero without hits), and walking the tree yields
     every descendant exactly once, parents before children.  Flattening groups
     all descendants by function (name, file, line, module), sums each group's
     four metrics, loses and adds no function, and keeps the root's own
     metrics.""",
     ['inputs'],
     'all tree shapes up to a size with small metric values and labels',
     """tests use one six-node tree and check only exclusive hits.""",
     ['profiling/stats.py'],
     [('spread_stats', 'profiling/stats.py'),
      ('Statistics.deep_hits / own_time', 'profiling/stats.py'),
      ('FlatFrozenStatistics.flatten', 'profiling/stats.py')],
     [], ['Statistics attributes', 'FlatFrozenStatistics.flatten()'])

prop('C11', 'Freezing, pickling and dumping preserve the whole result',
     """For every recorded or frozen statistics tree of any shape and depth and
     every pickle protocol, pickling and unpickling yields a tree with the same
     shape, sibling order and members, detached from the original and stable
     under repetition.  A dumped result file restores the profiler class, the
     statistics, CPU time and wall time of the result at the time of the dump,
     and replaces a previous file at the same path completely.""",
     ['inputs', 'histories'],
     'all tree shapes up to a size, chains beyond the recursion limit, all protocols',
     """tests pickle one leaf and one chain and only compare a name and a
     time.""",
     ['profiling/stats.py', 'profiling/profiler.py'],
     [('make_frozen_stats_tree / frozen_stats_from_tree', 'profiling/stats.py'),
      ('Profiler.dump', 'profiling/profiler.py')],
     [], ['pickle.loads(pickle.dumps(stats))', 'dump file'])

prop('C12', 'Every sort key totally orders any statistics and can be inverted',
     """Sorting the children of any statistics by any of the provided keys
     succeeds, also where names or modules are absent, and yields names and
     modules ascending and hits and times descending (time per call falling
     back on the time where there are no hits, absent names first).  The
     inverse of a key sorts in exactly the opposite order, and sorting keeps
     the relative order of equals and every element.""",
     ['inputs'],
     'all small sets of siblings over boundary metric values and absent names',
     """the only sorting test fails to run here and has three siblings with
     all names present.""",
     ['profiling/sortkeys.py', 'profiling/stats.py'],
     [('SortKey', 'profiling/sortkeys.py'),
      ('Statistics.sorted', 'profiling/stats.py')],
     [], ['Statistics.sorted(order)'])

prop('C13', 'The recording tree behaves as a map from code to statistics',
     """Under every sequence of ensuring, adding, getting, removing, discarding
     and clearing children, a recording statistics node agrees with a map from
     code to child: membership, length, iteration, children list and returned
     objects; ensuring an existing child returns it and never loses what was
     recorded below it; excluding code from a profiler removes exactly that
     code's statistics.  Statistics of an absent frame report no hits and
     accept none, and show as their time the time of the nearest recorded
     descendants.""",
     ['histories'],
     'all operation sequences up to a depth over a few codes',
     """tests exercise one ensure/discard sequence with one code.""",
     ['profiling/stats.py', 'profiling/profiler.py'],
     [('RecordingStatistics', 'profiling/stats.py'),
      ('VoidRecordingStatistics', 'profiling/stats.py'),
      ('Profiler.exclude_code', 'profiling/profiler.py')],
     [('_children', 'map from code to child statistics',
       'profiling/stats.py')],
     ['RecordingStatistics API'])

prop('C14', "The result's CPU and wall time describe the profiled session",
     """The result reports zero CPU and wall time before the first session, the
     time since the start while a session is running, and the duration of the
     last session from start to stop after it, no matter how much later the
     result is taken or how often.  A clock that steps backwards never makes
     the reported times negative.""",
     ['histories', 'inputs'],
     'all sequences of start, stop, clock steps (also backwards) and result()',
     """tests take one result directly after one session with a lower bound.""",
     ['profiling/profiler.py', 'profiling/tracing/__init__.py'],
     [('Profiler.start / result', 'profiling/profiler.py')],
     [('_cpu_time_started, _wall_time_started', 'start of the session',
       'profiling/profiler.py')],
     ['profiler.result()'])

prop('C15', 'The server profiles only for clients and broadcasts every result',
     """For every history of connections, disconnections and profiling
     intervals, the profiling server runs the profiler while and only while a
     client is connected (up to the end of the current interval), never runs
     two profiling loops, and sends each interval's result to every client
     which is connected then.  Every client receives exactly: one welcome with
     the protocol and version, one profiler class (that of the innermost
     wrapped profiler), the latest result known while it is greeted if there is
     one, and then each later result in order, as complete messages.""",
     ['histories', 'schedules'],
     """all histories of connect, disconnect and interval expiry with up to 3
     clients, on the base server and the select, gevent and asyncio servers""",
     """no test touches the profiling servers.""",
     ['profiling/remote/__init__.py', 'profiling/remote/select.py',
      'profiling/remote/gevent.py', 'profiling/remote/asyncio.py'],
     [('ProfilingServer.profiling', 'profiling/remote/__init__.py'),
      ('ProfilingServer.connected / disconnected',
       'profiling/remote/__init__.py'),
      ('SelectProfilingServer.dispatch_sockets', 'profiling/remote/select.py')],
     [('clients', 'the connected clients', 'profiling/remote/__init__.py'),
      ('_latest_result_data', 'last broadcast message',
       'profiling/remote/__init__.py')],
     ['bytes sent to each client', 'profiler.start/stop calls'])

prop('C16', 'A failing client never harms the server or the other clients',
     """Whenever sending to or receiving from a client fails in any way at any
     point (broken pipe, connection reset, bad descriptor, timeout, full send
     buffer), the server keeps serving: every other client still receives every
     complete message, the failing client is dropped and closed exactly once,
     and profiling ends when no client is left.  No client is ever sent the
     start of a message after an incompletely sent one.""",
     ['fault_sequences', 'histories'],
     """every send and receive of every client in bounded histories fails with
     every errno, including partial sends""",
     """no test touches the profiling servers.""",
     ['profiling/remote/__init__.py', 'profiling/remote/select.py'],
     [('profiling() broadcast error handling', 'profiling/remote/__init__.py'),
      ('connected() error handling', 'profiling/remote/__init__.py'),
      ('SelectProfilingServer._send', 'profiling/remote/select.py')],
     [('clients', 'the connected clients', 'profiling/remote/__init__.py')],
     ['bytes sent to each client', 'exceptions out of the serving loop'])

prop('C17', 'Clients reassemble exactly the messages that were sent',
     """For every sequence of packed messages and every way the network splits
     the byte stream, including reads that would block or are interrupted, the
     receiver yields exactly the sent methods and messages in order and consumes
     exactly their bytes.  A stream which ends or fails in or between messages
     is reported as a socket error; no truncated or corrupt message is ever
     delivered, and each delivered message takes effect on the viewer once.""",
     ['inputs', 'fault_sequences'],
     """all segmentations of the stream up to a number of short reads, and an
     end of stream or error at every byte""",
     """no test touches the remote protocol.""",
     ['profiling/remote/__init__.py', 'profiling/remote/client.py'],
     [('pack_msg / recv_msg / recv', 'profiling/remote/__init__.py'),
      ('ProfilingClient.handle', 'profiling/remote/client.py')],
     [], ['recv_msg(sock)', 'viewer calls'])

prop('C18', 'The failover client always keeps trying and recovers',
     """After every sequence of connection attempts, refusals, missing socket
     files, resets and ends of stream, the failover client is either watching
     exactly its current open socket or has exactly one reconnection alarm
     pending, every socket it gave up is closed and no longer watched, and the
     viewer is shown inactive from a loss until the next welcome.  It waits the
     failover interval after a refused connection or missing socket and
     reconnects at once after other losses.""",
     ['fault_sequences', 'histories'],
     'all sequences of connect results and socket outcomes up to a depth',
     """no test touches the clients.""",
     ['profiling/remote/client.py'],
     [('FailoverProfilingClient', 'profiling/remote/client.py')],
     [('sock', 'the current socket', 'profiling/remote/client.py')],
     ['event loop watches and alarms', 'viewer.active'])

prop('C19', 'The background profiler hands over without loss or deadlock',
     """Starting or stopping a background profiler from another thread makes
     the main thread start or stop the wrapped profiler exactly once and
     returns only after that happened, for every interleaving of the two
     threads and of signal delivery, through any number of sessions, and
     without ever waiting forever; also when the wrapped profiler fails to
     start or stop.""",
     ['schedules', 'fault_sequences'],
     """all interleavings of the server thread, the main thread and signal
     delivery over several sessions, with failing start and stop""",
     """no test touches the background profiler.""",
     ['profiling/remote/background.py', 'profiling/profiler.py'],
     [('_send_signal / _signal_handler', 'profiling/remote/background.py')],
     [('event', 'set when the main thread handled the request',
       'profiling/remote/background.py')],
     ['wrapped profiler start/stop', 'return of start()/stop()'])

prop('C20', 'Pausing freezes the shown result and resuming shows the latest',
     """For every sequence of results, profiler class changes, activations,
     inactivations, pauses and resumes, the viewer shows the latest result
     while it is not paused, keeps showing the result from the moment of the
     pause while it is paused, and shows the latest one at once when resumed.
     The header always reflects the state (paused before inactive before
     active, and the current sort column), title, time and CPU usage of the
     shown result.""",
     ['histories'],
     'all sequences of viewer events up to a depth',
     """viewer tests cover only number formatting.""",
     ['profiling/viewer.py', 'profiling/remote/client.py'],
     [('StatisticsViewer.set_result / pause / resume', 'profiling/viewer.py'),
      ('StatisticsTable.update_frame', 'profiling/viewer.py')],
     [('paused, active', 'viewer state', 'profiling/viewer.py')],
     ['rendered widget'])

prop('C21', 'Any key sequence keeps a usable view and updates keep the place',
     """Every sequence of the documented keys and result updates, on any
     statistics, never raises and leaves the focus on a row of the shown
     result; each key does what is documented (expand, fold, hotspot, defocus,
     sort column, layout, pause).  When a new result arrives or the order or
     layout changes, the focus stays on the same call path as far as it still
     exists (otherwise its nearest remaining ancestor) and expanded functions
     stay expanded.""",
     ['histories', 'inputs'],
     'all key and update sequences up to a depth on several trees',
     """no test drives the viewer widgets.""",
     ['profiling/viewer.py'],
     [('StatisticsTable.keypress', 'profiling/viewer.py'),
      ('get_path / find_node / refresh', 'profiling/viewer.py'),
      ('_expanded_stat_hashes', 'profiling/viewer.py')],
     [('walker focus, expanded set', 'what the user sees',
       'profiling/viewer.py')],
     ['rendered widget', 'focus'])

prop('C22', 'The table shows every visible row in order with its true values',
     """For any statistics and sort order, the expanded nested view shows each
     visible call path exactly once beneath its caller, siblings in the chosen
     order, and the flat view shows each function once; every row's cells show
     the function with its location and the formatted metrics and percentages
     of exactly that statistics against the session's CPU time (tracing) or
     the total hits (sampling).""",
     ['inputs', 'configurations'],
     'all small statistics trees, all sort columns, both layouts and profilers',
     """no test renders a table.""",
     ['profiling/viewer.py', 'profiling/tracing/__init__.py',
      'profiling/sampling/__init__.py'],
     [('make_cells', 'profiling/tracing/__init__.py'),
      ('load_child_keys', 'profiling/viewer.py')],
     [], ['rendered widget'])

prop('C23', 'Formatted numbers stay in their documented ranges and widths',
     """Every formatted time, count and percentage is the value in the
     documented unit, rounded: time units never show a value that belongs to
     the next unit (no 1000us, 1000ms, 60.0sec or 60s), counts use the largest
     fitting SI unit with at most three integral digits, percentages keep three
     significant digits, zero shows as zero (or n/a), and a longer time or
     higher count is never shown as a smaller value.  The colour attribute
     always belongs to the same range as the text.""",
     ['inputs'],
     """all values on an exhaustive grid, including both sides of every rounding
     and unit boundary""",
     """tests check about twenty values, none next to a boundary.""",
     ['profiling/viewer.py'],
     [('Formatter.format_time / format_int / format_percent',
       'profiling/viewer.py')],
     [], ['fmt.format_*', 'fmt.attr_*'])

prop('C24', 'Options come from command line, then .profiling, then setup.cfg',
     """For every combination of command-line options and [profiling] settings
     in setup.cfg and .profiling, each option takes its value from the command
     line if given, otherwise from .profiling, otherwise from setup.cfg,
     otherwise the documented default, independently of all other options and
     of earlier invocations; the value is converted the same way from either
     source and the profiler, timer or sampler it selects is what runs.""",
     ['configurations'],
     """the product of sources and values of all configurable options (pairwise
     complete), over successive invocations""",
     """one test with three configurations of two options.""",
     ['profiling/__main__.py'],
     [('config_default / config_flag / read_config', 'profiling/__main__.py'),
      ('profiler_options', 'profiling/__main__.py')],
     [], ['arguments of the invoked command'])

prop('C25', 'Profiling a script always reports, as if the script ran alone',
     """However the profiled script, module or command string ends (normally,
     by an exception, sys.exit or keyboard interrupt), the profiler is stopped
     and its result is dumped or shown, with an exception's traceback printed.
     The program runs with __name__ '__main__', __file__ and its name and
     arguments in sys.argv, and besides the calls by which the profiler itself
     is started and stopped only its own calls are in the result; timeit runs
     the setup once and profiles the whole statement exactly the requested
     number of times.""",
     ['programs', 'configurations'],
     """all combinations of source kind, profiler, ways to end, arguments and
     output""",
     """no test runs the profile command.""",
     ['profiling/__main__.py'],
     [('__profile__', 'profiling/__main__.py'),
      ('profiler_arguments / timeit_profile', 'profiling/__main__.py')],
     [], ['dump file', 'output of the command'])

prop('C26', 'Waiting for sockets is interruption-safe and keeps the interval',
     """Whatever mixture of interruptions, readiness and time-outs the system
     delivers, the select-based server handles every ready socket exactly once,
     waits for the remaining part of the interval only (never longer than the
     interval in total and never shorter unless something became ready), and
     waits indefinitely while there is no profiling interval.  An interrupted
     wait, and one refused because of a socket that is closed already, is
     continued; other errors of the system call are not swallowed.""",
     ['fault_sequences', 'histories'],
     'all sequences of select outcomes and elapsed times up to a depth',
     """no test touches the select server.""",
     ['profiling/remote/select.py'],
     [('select_sockets / dispatch_sockets', 'profiling/remote/select.py')],
     [], ['select calls and their timeouts', 'accepted and dropped sockets'])

prop('C27', 'Command-line values denote what they say or are rejected',
     """Signal numbers are accepted by number and by name in any case with or
     without SIG prefix, and every unknown name is rejected; timers and
     samplers are found by their short name and nothing else is; an endpoint is
     a host and port; a viewer source is a dump file, a socket file or an
     endpoint according to what exists.  Command aliases select their command
     and anything that is no command name is passed to the default command.""",
     ['inputs', 'configurations'],
     'all values over the alphabet of names, spellings and file kinds',
     """tests cover two aliases and one class name.""",
     ['profiling/__main__.py'],
     [('SignalNumber, Class, Endpoint, ViewerSource', 'profiling/__main__.py'),
      ('ProfilingCLI', 'profiling/__main__.py')],
     [], ['ParamType.convert results'])

prop('C28', 'Live and remote commands connect script, server and viewer',
     """The live-profile command runs the script in a child process with muted
     standard streams, serves its results to the viewer of the parent through
     one socket, and ends with the exit status and the standard error output
     of the script (of any end which isn't a signal's) whatever way the script
     or viewer ends; no child process or open socket is left.  The remote-profile command listens at the given
     endpoint while the script runs and ends quietly on interruption.""",
     ['schedules', 'fault_sequences'],
     """all orders in which script, child process and viewer end""",
     """no test runs these commands.""",
     ['profiling/__main__.py'],
     [('live_profile / remote_profile', 'profiling/__main__.py')],
     [], ['exit status, output, signals'])

prop('C29', 'Sampled hit ratios approach the real CPU time ratios',
     """With the signal-driven sampler, the share of samples of a function
     converges to its share of consumed CPU time, at negligible overhead.""",
     ['schedules'],
     'all programs, as the number of samples grows',
     """it is a statistical statement about real time; one test samples it with
     a wide tolerance.""",
     ['profiling/sampling/samplers.py'],
     [('ItimerSampler', 'profiling/sampling/samplers.py')],
     [], ['hits ratio'])

prop('C30', 'What was saved or is served is what the viewer shows',
     """For every profiler class, result and pickle protocol, viewing a dump file
     shows exactly the class's table with the functions, hits, times, session
     times, base name and local time of modification of the file, the same as
     the viewer that the profiler makes by itself, and a later dump replaces
     an earlier one.  Viewing an endpoint (TCP or socket file) shows each
     result which is served as it arrives, titled by the endpoint, whatever
     history of results, class changes, lost connections, cut messages and
     restarts the server has, and keeps the last one visible as inactive while
     there's no server.""",
     ['inputs', 'histories'],
     """all shapes of statistics, profiler classes and protocols; all histories of
     the server of an endpoint""",
     """no test invokes the command, loads a dump into a viewer or connects a
     viewer to a server which goes away.""",
     ['profiling/__main__.py', 'profiling/profiler.py',
      'profiling/remote/client.py', 'profiling/viewer.py'],
     [('view / ViewerSource / get_title / make_viewer', 'profiling/__main__.py'),
      ('dump / make_viewer / run_viewer', 'profiling/profiler.py'),
      ('FailoverProfilingClient', 'profiling/remote/client.py')],
     [], ['the screen', 'viewer.table', 'viewer.active'])

prop('C31', 'Profiling changes nothing the program sees and keeps nothing alive',
     """A program observes the same with and without a profiling session, of
     whatever profiler, timer or sampler, filters, and wherever the session is
     started and stopped: the same effects in the same order, values,
     exceptions with their tracebacks and contexts, behaviour of generators,
     coroutines, threads and greenlets.  Apart from code, the profiler and its
     result keep nothing of the program alive after a session, and a dropped
     profiler is released.  (Stack exhaustion, times and the hooks themselves,
     which a program could look for, are excepted.)""",
     ['inputs', 'histories'],
     """all programs over calls, exceptions, generators, threads, greenlets and
     signals, with a session begun and ended at any statement""",
     """the tests profile a few fixed functions and look at the statistics
     only.""",
     ['profiling/tracing/__init__.py', 'profiling/tracing/timers.py',
      'profiling/sampling/__init__.py', 'profiling/sampling/samplers.py',
      'profiling/stats.py'],
     [('_profile', 'profiling/tracing/__init__.py'),
      ('GreenletTimer._trace', 'profiling/tracing/timers.py'),
      ('sample', 'profiling/sampling/__init__.py'),
      ('handle_signal', 'profiling/sampling/samplers.py')],
     [('_times_entered', 'open calls by identifier of the frame',
       'profiling/tracing/__init__.py')],
     ['what the program logs', 'weak references to what it used'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p, sort_keys=True) + '\n')
    print(len(P), 'properties')
