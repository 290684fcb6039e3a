"""Edits that keep the behaviour, on which every check has to stay quiet.

usage: refactorings.py [--near | -p "C01 C02"] [NAME...]: runs the checks on a copy of
the repository for each of them, prints the checks that exit non-zero, and
how many obligations each leaves undecided.  --near runs the checks of the
properties about the changed files only.
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
R = []


def r(name, *edits):
    R.append((name, edits))


ST = 'stats.py'
r('spread: while with index',
  (ST, '''    descendants = deque(stats)
    while descendants:
        _stats = descendants.popleft()
        if spreader:
            spread.clear()
            yield _stats, spread
        else:
            yield _stats
        if spread:
            descendants.extend(_stats)
''', '''    queue = deque()
    queue.extend(stats)
    while len(queue) > 0:
        current = queue.popleft()
        if not spreader:
            yield current
        else:
            spread.clear()
            yield current, spread
        if spread:
            for child in current:
                queue.append(child)
'''))
r('deep_hits: generator sum',
  (ST, '''        hits = [self.own_hits]
        hits.extend(stats.own_hits for stats in spread_stats(self))
        return sum(hits)
''', '''        total = self.own_hits
        for stats in spread_stats(self):
            total += stats.own_hits
        return total
'''))
r('own_time: loop and if',
  (ST, '''        sub_time = sum(stats.deep_time for stats in self)
        return max(0., self.deep_time - sub_time)
''', '''        sub_time = 0.
        for stats in self:
            sub_time += stats.deep_time
        own_time = self.deep_time - sub_time
        if own_time < 0:
            return 0.
        return own_time
'''))
r('per_call: helper',
  (ST, '''    @property
    def deep_time_per_call(self):
        try:
            return self.deep_time / self.own_hits
        except ZeroDivisionError:
            return 0.0

    @property
    def own_time_per_call(self):
        try:
            return self.own_time / self.own_hits
        except ZeroDivisionError:
            return 0.0
''', '''    def _per_call(self, time):
        hits = self.own_hits
        if not hits:
            return 0.0
        return time / hits

    @property
    def deep_time_per_call(self):
        return self._per_call(self.deep_time)

    @property
    def own_time_per_call(self):
        return self._per_call(self.own_time)
'''))
r('ensure_child: restructured',
  (ST, '''        stats = self._children.get(code)
        stat_class = adding_stat_class or type(self)
        if stats is None:
            stats = stat_class(code)
            self.add_child(code, stats)
        elif (isinstance(stats, VoidRecordingStatistics) and
              not issubclass(stat_class, VoidRecordingStatistics)):
            # a placeholder cannot record anything.
            void, stats = stats, stat_class(code)
            stats._children = void._children
            stats.deep_time = void.deep_time
            self.add_child(code, stats)
        return stats
''', '''        stat_class = adding_stat_class or type(self)
        try:
            stats = self.get_child(code)
        except KeyError:
            stats = stat_class(code)
            self.add_child(code, stats)
            return stats
        if not isinstance(stats, VoidRecordingStatistics):
            return stats
        if issubclass(stat_class, VoidRecordingStatistics):
            return stats
        return self._replace_void(code, stats, stat_class)

    def _replace_void(self, code, void, stat_class):
        stats = stat_class(code)
        stats._children = void._children
        stats.deep_time = void.deep_time
        self.add_child(code, stats)
        return stats
'''))
r('clear: items unrolled order',
  (ST, '''        self._children.clear()
        for attr, value in self.__defaults__.items():
            setattr(self, attr, value)
''', '''        defaults = self.__defaults__
        for attr in defaults:
            setattr(self, attr, defaults[attr])
        self._children.clear()
'''))
r('void deep_time: sum in place',
  (ST, '''        times = []
        for stats, spread in spread_stats(self, spreader=True):
            if isinstance(stats, VoidRecordingStatistics):
                spread()
            else:
                times.append(stats.deep_time)
        return sum(times)
''', '''        total = 0
        for stats, spread in spread_stats(self, spreader=True):
            if not isinstance(stats, VoidRecordingStatistics):
                total += stats.deep_time
                continue
            spread()
        return total
'''))
r('freeze: while loop',
  (ST, '''    tree, stats_tree = [], [(None, stats)]
    for x in itertools.count():
        try:
            parent_offset, _stats = stats_tree[x]
        except IndexError:
            break
        stats_tree.extend((x, s) for s in _stats)
        members = (_stats.name, _stats.filename, _stats.lineno,
                   _stats.module, _stats.own_hits, _stats.deep_time)
        tree.append((parent_offset, members))
    return tree
''', '''    tree = []
    stats_tree = [(None, stats)]
    x = 0
    while x < len(stats_tree):
        parent_offset, _stats = stats_tree[x]
        for child in _stats:
            stats_tree.append((x, child))
        tree.append((parent_offset, _members_of(_stats)))
        x += 1
    return tree


def _members_of(stats):
    return (stats.name, stats.filename, stats.lineno, stats.module,
            stats.own_hits, stats.deep_time)
'''))
r('freeze: deque',
  (ST, '''    tree, stats_tree = [], [(None, stats)]
    for x in itertools.count():
        try:
            parent_offset, _stats = stats_tree[x]
        except IndexError:
            break
        stats_tree.extend((x, s) for s in _stats)
        members =''', '''    tree = []
    pending = deque([(None, stats)])
    while pending:
        parent_offset, _stats = pending.popleft()
        offset = len(tree)
        pending.extend((offset, s) for s in _stats)
        members ='''))
r('thaw: enumerate',
  (ST, '''    stats_index = []
    for parent_offset, members in tree:
        stats = FrozenStatistics(*members)
        stats_index.append(stats)
        if parent_offset is not None:
            stats_index[parent_offset].children.append(stats)
    return stats_index[0]
''', '''    nodes = [FrozenStatistics(*members) for __, members in tree]
    for x, (parent_offset, __) in enumerate(tree):
        if parent_offset is None:
            continue
        parent = nodes[parent_offset]
        parent.children.append(nodes[x])
    return nodes[0]
'''))
r('flatten: in test and keywords',
  (ST, '''            try:
                flat_stats = flat_children[key]
            except KeyError:
                flat_stats = flat_children[key] = cls(*key)
            flat_stats.own_hits += _stats.own_hits
            flat_stats.deep_hits += _stats.deep_hits
            flat_stats.own_time += _stats.own_time
            flat_stats.deep_time += _stats.deep_time
        children = list(itervalues(flat_children))
''', '''            if key not in flat_children:
                flat_children[key] = cls(*key)
            flat_stats = flat_children[key]
            cls._add(flat_stats, _stats)
        children = [x for x in itervalues(flat_children)]
'''),
  (ST, '''    @classmethod
    def flatten(cls, stats):
''', '''    @staticmethod
    def _add(flat_stats, stats):
        flat_stats.deep_time += stats.deep_time
        flat_stats.own_time += stats.own_time
        flat_stats.deep_hits += stats.deep_hits
        flat_stats.own_hits += stats.own_hits

    @classmethod
    def flatten(cls, stats):
'''))
r('flatten: setdefault',
  (ST, '''            try:
                flat_stats = flat_children[key]
            except KeyError:
                flat_stats = flat_children[key] = cls(*key)
''', '''            flat_stats = flat_children.get(key)
            if flat_stats is None:
                flat_stats = cls(*key)
                flat_children[key] = flat_stats
'''))
r('recording name: conditional expressions',
  (ST, '''        if self.code is None:
            return
        name = self.code.co_name
        if name == '<module>':
            return
        return name
''', '''        code = self.code
        if code is not None and code.co_name != '<module>':
            return code.co_name
        return None
'''),
  (ST, '''        return self.code and self.code.co_filename
''', '''        if self.code is None:
            return None
        return self.code.co_filename
'''),
  (ST, '''        module = inspect.getmodule(self.code)
        if not module:
            return
        return module.__name__
''', '''        module = inspect.getmodule(self.code)
        return module.__name__ if module else None
'''))
r('hash: key method',
  (ST, '''        return hash((self.name, self.filename, self.lineno))
''', '''        identity = (self.name, self.filename, self.lineno)
        return hash(identity)
'''))
r('regular_name',
  (ST, '''        if name and module:
            return ':'.join([module, name])
        return name or module
''', '''        if not (name and module):
            return name or module
        return '%s:%s' % (module, name)
'''))
U = 'utils.py'
r('runnable start: split',
  (U, '''        self._running = running = self.run(*args, **kwargs)
        try:
            try:
                yielded = next(running)
            except StopIteration:
                raise TypeError('run() must yield just one time')
            if yielded is not None:
                running.close()
                raise TypeError('run() must yield without value')
        except:
            # failed to start.
            self._running = None
            raise
''', '''        running = self.run(*args, **kwargs)
        self._running = running
        try:
            self._enter(running)
        except BaseException:
            self._running = None
            raise
'''),
  (U, '''    def stop(self):
        """Stops the instance.
''', '''    @staticmethod
    def _enter(running):
        try:
            yielded = next(running)
        except StopIteration:
            raise TypeError('run() must yield just one time')
        if yielded is not None:
            running.close()
            raise TypeError('run() must yield without value')

    def stop(self):
        """Stops the instance.
'''))
r('runnable stop: sentinel',
  (U, '''        running, self._running = self._running, None
        try:
            next(running)
        except StopIteration:
            # expected.
            pass
        else:
            raise TypeError('run() must yield just one time')
''', '''        running = self._running
        self._running = None
        try:
            next(running)
        except StopIteration:
            return
        raise TypeError('run() must yield just one time')
'''))
r('frame_stack: continue',
  (U, '''        while frame is not None:
            if frame is base_frame or frame.f_code is base_code:
                break
            if frame in ignored_frames or frame.f_code in ignored_codes:
                pass
            else:
                frames.appendleft(frame)
            frame = frame.f_back
        return frames
''', '''        while not (frame is None or frame is base_frame or
                   frame.f_code is base_code):
            ignored = (frame in ignored_frames or
                       frame.f_code in ignored_codes)
            if not ignored:
                frames.appendleft(frame)
            frame = frame.f_back
        return frames
'''))
r('deferral: loop with errors',
  (U, '''    deferred = []
    defer = lambda f, *a, **k: deferred.append((f, a, k))
    def call_deferred():
        while deferred:
            f, a, k = deferred.pop()
            try:
                f(*a, **k)
            except:
                # call the others even so.
                call_deferred()
                raise
    try:
        yield defer
    finally:
        call_deferred()
''', '''    calls = []
    def defer(f, *args, **kwargs):
        calls.append((f, args, kwargs))
    def call_all():
        if not calls:
            return
        f, args, kwargs = calls.pop()
        try:
            f(*args, **kwargs)
        finally:
            call_all()
    try:
        yield defer
    finally:
        call_all()
'''))
r('lazy import: importlib',
  (U, '''        if self.module is None:
            self.module = __import__(self.module_name)
        return self.module
''', '''        module = self.module
        if module is None:
            module = __import__(self.module_name)
            self.module = module
        return module
'''))
P = 'profiler.py'
r('profiler result: local',
  (P, '''        try:
            cpu_time = max(0, time.clock() - self._cpu_time_started)
            wall_time = max(0, time.time() - self._wall_time_started)
        except AttributeError:
            cpu_time = wall_time = 0.0
        return self.stats, cpu_time, wall_time
''', '''        cpu_time, wall_time = self._elapsed()
        return (self.stats, cpu_time, wall_time)

    def _elapsed(self):
        try:
            started = (self._cpu_time_started, self._wall_time_started)
        except AttributeError:
            return (0.0, 0.0)
        cpu_time = time.clock() - started[0]
        wall_time = time.time() - started[1]
        return (max(0, cpu_time), max(0, wall_time))
'''))
r('profiler start: order',
  (P, '''        self._cpu_time_started = time.clock()
        self._wall_time_started = time.time()
        self.stats.clear()
        return super(Profiler, self).start()
''', '''        self.stats.clear()
        self._wall_time_started = time.time()
        self._cpu_time_started = time.clock()
        super(Profiler, self).start()
'''))
r('profiler dump: dumps',
  (P, '''        result = self.result()

        with open(dump_filename, 'wb') as f:
            pickle.dump((self.__class__, result), f, pickle_protocol)
''', '''        dumping = (type(self), self.result())
        with open(dump_filename, 'wb') as f:
            pickle.dump(dumping, f, protocol=pickle_protocol)
'''))
r('profiler dump: write',
  (P, '''        with open(dump_filename, 'wb') as f:
            pickle.dump((self.__class__, result), f, pickle_protocol)
''', '''        data = pickle.dumps((self.__class__, result), pickle_protocol)
        with open(dump_filename, 'wb') as f:
            f.write(data)
'''))
r('exclude_code: discard',
  (P, '''        try:
            self.stats.remove_child(code)
        except KeyError:
            pass
''', '''        self.stats.discard_child(code)
'''))
r('make_viewer: star',
  (P, '''        stats, cpu_time, wall_time = self.result()
        viewer.set_result(stats, cpu_time, wall_time, title=title, at=at)
''', '''        result = self.result()
        viewer.set_result(*result, title=title, at=at)
'''))
r('wrapper: explicit properties',
  (P, '''    for attr in ['table_class', 'stats', 'top_frame', 'top_code', 'result',
                 'is_running']:
        f = lambda self, attr=attr: getattr(self.profiler, attr)
        locals()[attr] = property(f)
        del f
''', '''    table_class = property(lambda self: self.profiler.table_class)
    stats = property(lambda self: self.profiler.stats)
    top_frame = property(lambda self: self.profiler.top_frame)
    top_code = property(lambda self: self.profiler.top_code)
    result = property(lambda self: self.profiler.result)
    is_running = property(lambda self: self.profiler.is_running)
'''))
T = 'tracing/__init__.py'
r('tracing _profile: helper',
  (T, '''        frames = self.frame_stack(frame)
        if frames and frames[-1] is frame:
            # the frame itself may be ignored.
            frames.pop()
        parent_stats = self.stats
        for f in frames:
            parent_stats = parent_stats.ensure_child(f.f_code, void)
        code = frame.f_code
''', '''        parent_stats = self._parent_stats(frame)
        code = frame.f_code
'''),
  (T, '''    def _profile_thread(self''', '''    def _parent_stats(self, frame):
        frames = self.frame_stack(frame)
        if frames and frames[-1] is frame:
            # the frame itself may be ignored.
            frames.pop()
        stats = self.stats
        for f in frames:
            stats = stats.ensure_child(f.f_code, void)
        return stats

    def _profile_thread(self'''))
r('tracing _profile: early exit by membership',
  (T, '''        if event.startswith('c_'):
            return
        time1''', '''        if event not in ('call', 'return'):
            return
        time1'''))
r('tracing _profile: dispatch inverted',
  (T, '''        if event == 'call':
            time = time2 - self.overhead
            self.record_entering(time, code, frame_key, parent_stats)
        elif event == 'return':
            time = time1 - self.overhead
            self.record_leaving(time, code, frame_key, parent_stats)
        time3 = self.timer()
        self.overhead += time3 - time2
''', '''        if event == 'return':
            self.record_leaving(time1 - self.overhead, code, frame_key,
                                parent_stats)
        elif event == 'call':
            self.record_entering(time2 - self.overhead, code, frame_key,
                                 parent_stats)
        self.overhead += self.timer() - time2
'''))
r('tracing record_leaving: conditional',
  (T, '''        try:
            stats = parent_stats.get_child(code)
            time_entered = self._times_entered.pop((code, frame_key))
        except KeyError:
            return
        time_elapsed = time - time_entered
        stats.deep_time += max(0, time_elapsed)
''', '''        try:
            stats = parent_stats.get_child(code)
            time_elapsed = time - self._times_entered.pop((code, frame_key))
        except KeyError:
            pass
        else:
            if time_elapsed > 0:
                stats.deep_time += time_elapsed
'''))
r('tracing record_leaving: get',
  (T, '''        try:
            stats = parent_stats.get_child(code)
            time_entered = self._times_entered.pop((code, frame_key))
        except KeyError:
            return
''', '''        if code not in parent_stats:
            return
        stats = parent_stats.get_child(code)
        time_entered = self._times_entered.pop((code, frame_key), None)
        if time_entered is None:
            return
'''))
r('tracing run: try finally',
  (T, '''        with deferral() as defer:
            self._times_entered.clear()
            self.overhead = 0.0
            sys.setprofile(self._profile)
            defer(sys.setprofile, None)
            threading.setprofile(self._profile_thread)
            defer(threading.setprofile, None)
            self.timer.start(self)
            defer(self.timer.stop)
            yield
''', '''        self.overhead = 0.0
        self._times_entered.clear()
        try:
            sys.setprofile(self._profile)
            try:
                threading.setprofile(self._profile_thread)
                self.timer.start(self)
                try:
                    yield
                finally:
                    self.timer.stop()
            finally:
                threading.setprofile(None)
        finally:
            sys.setprofile(None)
'''))
r('tracing result: inline',
  (T, '''        base = super(TracingProfiler, self)
        frozen_stats, cpu_time, wall_time = base.result()
        return (frozen_stats, max(0, cpu_time - self.overhead), wall_time)
''', '''        result = super(TracingProfiler, self).result()
        stats, cpu_time, wall_time = result
        cpu_time -= self.overhead
        if cpu_time < 0:
            cpu_time = 0
        return stats, cpu_time, wall_time
'''))
r('tracing record_entering: order',
  (T, '''        stats = parent_stats.ensure_child(code, RecordingStatistics)
        self._times_entered[(code, frame_key)] = time
        stats.own_hits += 1
''', '''        key = (code, frame_key)
        stats = parent_stats.ensure_child(code, RecordingStatistics)
        stats.own_hits = stats.own_hits + 1
        self._times_entered[key] = time
'''))
S_ = 'sampling/__init__.py'
r('sampling sample: slices',
  (S_, '''        frames = self.frame_stack(frame)
        if frames:
            frames.pop()
        parent_stats = self.stats
        for f in frames:
            parent_stats = parent_stats.ensure_child(f.f_code, void)
        stats = parent_stats.ensure_child(frame.f_code, RecordingStatistics)
        stats.own_hits += 1
''', '''        parents = self.frame_stack(frame)
        if len(parents) > 0:
            parents.pop()
        stats = self.stats
        for code in [f.f_code for f in parents]:
            stats = stats.ensure_child(code, void)
        self._hit(stats, frame.f_code)

    def _hit(self, parent_stats, code):
        stats = parent_stats.ensure_child(code, RecordingStatistics)
        stats.own_hits += 1
'''))
r('sampling run: local',
  (S_, '''        self.sampler.start(self)
        yield
        self.sampler.stop()
''', '''        sampler = self.sampler
        sampler.start(self)
        yield
        sampler.stop()
'''))
SA = 'sampling/samplers.py'
r('itimer: try finally',
  (SA, '''        t = self.interval
        with deferral() as defer:
            prev_handle = signal.signal(signal.SIGPROF, handle)
''', '''        with deferral() as defer:
            t = self.interval
            prev_handle = signal.signal(signal.SIGPROF, handle)
'''),
  (SA, '''            if prev_handle == signal.SIG_DFL:
''', '''            if signal.SIG_DFL == prev_handle:
'''))
r('itimer: restore function',
  (SA, '''            defer(signal.signal, signal.SIGPROF, prev_handle)
            prev_itimer = signal.setitimer(signal.ITIMER_PROF, t, t)
            defer(signal.setitimer, signal.ITIMER_PROF, *prev_itimer)
            yield
''', '''            defer(lambda: signal.signal(signal.SIGPROF, prev_handle))
            delay, interval = signal.setitimer(signal.ITIMER_PROF, t, t)
            defer(signal.setitimer, signal.ITIMER_PROF, delay, interval)
            yield
'''))
r('tracing sampler: restructured',
  (SA, '''        t = thread_clock()
        thread_id = _thread.get_ident()
        sampled_at = self.sampled_times.get(thread_id, 0)
        if t < sampled_at:
            # a new thread took over the id of an ended one.
            sampled_at = 0
        if t - sampled_at < self.interval:
            return
        self.sampled_times[thread_id] = t
        profiler.sample(frame)
        self.counter += 1
        if self.counter % 10000 == 0:
            self._clear_for_dead_threads()
''', '''        thread_id = _thread.get_ident()
        t = thread_clock()
        if not self._is_due(thread_id, t):
            return
        profiler.sample(frame)
        self.sampled_times[thread_id] = t
        self.counter += 1
        if not self.counter % 10000:
            self._clear_for_dead_threads()

    def _is_due(self, thread_id, t):
        sampled_at = self.sampled_times.get(thread_id, 0)
        if sampled_at > t:
            sampled_at = 0
        return t - sampled_at >= self.interval
'''))
r('tracing sampler dead threads: comprehension',
  (SA, '''        living_thread_ids = set(sys._current_frames().keys())
        for thread_id in list(self.sampled_times.keys()):
            if thread_id not in living_thread_ids:
                self.sampled_times.pop(thread_id, None)
''', '''        living = sys._current_frames()
        dead = [x for x in list(self.sampled_times) if x not in living]
        for thread_id in dead:
            self.sampled_times.pop(thread_id, None)
'''))
TI = 'tracing/timers.py'
r('contextual timer: read method',
  (TI, '''        paused_at, resumed_at = self._contextual_times.get(context, (0, 0))
        if resumed_at is None:  # paused
            return paused_at
        return paused_at + self.clock() - resumed_at
''', '''        times = self._contextual_times.get(context)
        if times is None:
            return self.clock()
        paused_at, resumed_at = times
        if resumed_at is not None:
            paused_at += self.clock() - resumed_at
        return paused_at
'''))
r('contextual timer: helper for the context',
  (TI, '''    def pause(self, context=None):
        if context is None:
            context = self.detect_context()
        self._contextual_times[context] = (self(context), None)

    def resume(self, context=None):
        if context is None:
            context = self.detect_context()
        # the context may be running already.
        self._contextual_times[context] = (self(context), self.clock())
''', '''    def _context(self, context):
        return self.detect_context() if context is None else context

    def pause(self, context=None):
        context = self._context(context)
        elapsed = self(context)
        self._contextual_times[context] = (elapsed, None)

    def resume(self, context=None):
        context = self._context(context)
        elapsed = self(context)
        self._contextual_times[context] = (elapsed, self.clock())
'''))
r('greenlet timer: try finally',
  (TI, '''        prev_trace = self.greenlet.settrace(self._trace)
        yield
        self.greenlet.settrace(prev_trace)
''', '''        greenlet = self.greenlet
        prev_trace = greenlet.settrace(self._trace)
        try:
            yield
        finally:
            greenlet.settrace(prev_trace)
'''))
RE = 'remote/__init__.py'
r('pack_msg: dumps',
  (RE, '''    dump = io.BytesIO()
    pickle.dump(msg, dump, pickle_protocol)
    size = dump.tell()
    return (struct.pack(METHOD_STRUCT_FORMAT, method) +
            struct.pack(SIZE_STRUCT_FORMAT, size) + dump.getvalue())
''', '''    dump = pickle.dumps(msg, pickle_protocol)
    header = struct.pack(METHOD_STRUCT_FORMAT, method)
    header += struct.pack(SIZE_STRUCT_FORMAT, len(dump))
    return header + dump
'''))
r('recv: count up',
  (RE, '''    chunks = []
    while size > 0:
        try:
            chunk = sock.recv(size, socket.MSG_WAITALL)
        except socket.error as exc:
            if exc.errno in (EAGAIN, EWOULDBLOCK):
                # the rest has not arrived at the non-blocking socket yet.
                wait_sockets([sock], (), ())
            elif exc.errno != EINTR:
                raise
            continue
        if not chunk:
            raise socket.error(ECONNRESET, 'Connection closed')
        chunks.append(chunk)
        size -= len(chunk)
    return b''.join(chunks)
''', '''    data = b''
    while len(data) < size:
        try:
            chunk = sock.recv(size - len(data), socket.MSG_WAITALL)
        except socket.error as exc:
            if exc.errno == EINTR:
                continue
            if exc.errno not in (EAGAIN, EWOULDBLOCK):
                raise
            wait_sockets([sock], (), ())
        else:
            if not chunk:
                raise socket.error(ECONNRESET, 'Connection closed')
            data += chunk
    return data
'''))
r('recv: extracted chunk',
  (RE, '''    chunks = []
    while size > 0:
        try:
            chunk = sock.recv(size, socket.MSG_WAITALL)
        except socket.error as exc:
            if exc.errno in (EAGAIN, EWOULDBLOCK):
                # the rest has not arrived at the non-blocking socket yet.
                wait_sockets([sock], (), ())
            elif exc.errno != EINTR:
                raise
            continue
        if not chunk:
            raise socket.error(ECONNRESET, 'Connection closed')
        chunks.append(chunk)
        size -= len(chunk)
    return b''.join(chunks)
''', '''    chunks, left = [], size
    while left:
        chunk = recv_chunk(sock, left)
        chunks.append(chunk)
        left = left - len(chunk)
    return b''.join(chunks)


def recv_chunk(sock, size):
    while True:
        try:
            chunk = sock.recv(size, socket.MSG_WAITALL)
        except socket.error as exc:
            if exc.errno in (EAGAIN, EWOULDBLOCK):
                wait_sockets([sock], (), ())
                continue
            if exc.errno == EINTR:
                continue
            raise
        if chunk:
            return chunk
        raise socket.error(ECONNRESET, 'Connection closed')
'''))
r('recv_msg: nested',
  (RE, '''    data = recv(sock, struct.calcsize(METHOD_STRUCT_FORMAT))
    method, = struct.unpack(METHOD_STRUCT_FORMAT, data)
    data = recv(sock, struct.calcsize(SIZE_STRUCT_FORMAT))
    size, = struct.unpack(SIZE_STRUCT_FORMAT, data)
    data = recv(sock, size)
    msg = pickle.loads(data)
    return method, msg
''', '''    method = recv_struct(sock, METHOD_STRUCT_FORMAT)
    size = recv_struct(sock, SIZE_STRUCT_FORMAT)
    return method, pickle.loads(recv(sock, size))


def recv_struct(sock, fmt):
    data = recv(sock, struct.calcsize(fmt))
    return struct.unpack(fmt, data)[0]
'''))
r('server: broadcast extracted',
  (RE, '''            # broadcast.
            closed_clients = []
            for client in list(self.clients):
                try:
                    self._send(client, data)
                except socket.error:
                    closed_clients.append(client)
            del data
            # handle disconnections.
            for client in closed_clients:
                self.disconnected(client)
        self._log_profiler_stopped()
''', '''            self._broadcast(data)
        self._log_profiler_stopped()

    def _broadcast(self, data):
        closed_clients = set()
        for client in tuple(self.clients):
            try:
                self._send(client, data)
            except socket.error:
                closed_clients.add(client)
        for client in closed_clients:
            self.disconnected(client)
'''))
r('server: loop in one generator',
  (RE, '''        try:
            for __ in self._profiling():
                yield
        finally:
            self._profiling_started = False

    def _profiling(self):
        self._log_profiler_started()
''', '''        steps = self._profiling()
        try:
            while True:
                try:
                    next(steps)
                except StopIteration:
                    break
                yield
        finally:
            self._profiling_started = False

    def _profiling(self):
        self._log_profiler_started()
'''))
r('server: connected split',
  (RE, '''        profiler = self.profiler
        while True:
            try:
                profiler = profiler.profiler
            except AttributeError:
                break
        try:
            self.send_msg(client, WELCOME, (self.pickle_protocol, __version__),
                          pickle_protocol=0)
            self.send_msg(client, PROFILER, type(profiler))
            if self._latest_result_data is not None:
                self._send(client, self._latest_result_data)
        except socket.error:
            self.disconnected(client)
            return
''', '''        try:
            self._welcome(client)
        except socket.error:
            self.disconnected(client)
            return
'''),
  (RE, '''    def disconnected(self, client):
''', '''    def _real_profiler(self):
        profiler = self.profiler
        while hasattr(profiler, 'profiler'):
            profiler = profiler.profiler
        return profiler

    def _welcome(self, client):
        welcome = (self.pickle_protocol, __version__)
        self.send_msg(client, WELCOME, welcome, pickle_protocol=0)
        self.send_msg(client, PROFILER, type(self._real_profiler()))
        data = self._latest_result_data
        if data is not None:
            self._send(client, data)

    def disconnected(self, client):
'''))
r('server: disconnected',
  (RE, '''        if client not in self.clients:
            # already disconnected.
            return
        self.clients.remove(client)
        self._log_disconnected(client)
        self._close(client)
''', '''        try:
            self.clients.remove(client)
        except KeyError:
            return
        self._log_disconnected(client)
        self._close(client)
'''))
r('server: log with helper',
  (RE, '''        addr = self._addr(client)
        addr = addr if isinstance(addr, tuple) else None
        self.log(fmt_connected(addr, len(self.clients)))

    def _log_disconnected(self, client):
        addr = self._addr(client)
        addr = addr if isinstance(addr, tuple) else None
        self.log(fmt_disconnected(addr, len(self.clients)))
''', '''        addr = self._printable_addr(client)
        self.log(fmt_connected(addr, len(self.clients)))

    def _printable_addr(self, client):
        addr = self._addr(client)
        if not isinstance(addr, tuple):
            return None
        return addr

    def _log_disconnected(self, client):
        addr = self._printable_addr(client)
        self.log(fmt_disconnected(addr, len(self.clients)))
'''))
SE = 'remote/select.py'
r('select: wait loop with a deadline',
  (SE, '''        if timeout is not None:
            t = time.time()
        while True:
''', '''        deadline = None
        if timeout is not None:
            deadline = time.time() + timeout
        while True:
'''),
  (SE, '''            if timeout is None:
                continue
            # decrease timeout.
            t2 = time.time()
            timeout -= t2 - t
            t = t2
            if timeout <= 0:
                # timed out.
                return []
''', '''            if deadline is not None:
                timeout = deadline - time.time()
                if timeout <= 0:
                    return []
'''))
r('select: dispatch split',
  (SE, '''            if sock is self.listener:
                listener = sock
                sock, addr = listener.accept()
                self.connected(sock)
            else:
                try:
                    sock.recv(1)
                except socket.error:
                    pass
                self.disconnected(sock)
''', '''            if sock is not self.listener:
                self._lost(sock)
                continue
            client, __ = self.listener.accept()
            self.connected(client)

    def _lost(self, sock):
        try:
            sock.recv(1)
        except socket.error:
            pass
        self.disconnected(sock)
'''))
r('select: sockets',
  (SE, '''        if self.listener is None:
            return self.clients
        else:
            return self.clients.union([self.listener])
''', '''        sockets = set(self.clients)
        if self.listener is not None:
            sockets.add(self.listener)
        return sockets
'''))
A = 'remote/asyncio.py'
r('asyncio: writer by index',
  (A, '''        reader, writer = client
        writer.write(data)
''', '''        __, writer = client
        writer.write(data)
'''),
  (A, '''        reader, writer = client
        disconnected = lambda x: self.disconnected(client)
        ensure_future(reader.read()).add_done_callback(disconnected)
''', '''        def disconnected(future):
            self.disconnected(client)
        reading = ensure_future(client[0].read())
        reading.add_done_callback(disconnected)
'''))
G = 'remote/gevent.py'
r('gevent: watching',
  (G, '''        disconnected = lambda x: self.disconnected(sock)
        recv = wrap_errors(socket.error, sock.recv)
        gevent.spawn(recv, 1).link(disconnected)
''', '''        def disconnected(greenlet):
            self.disconnected(sock)
        recv = wrap_errors(socket.error, sock.recv)
        watcher = gevent.spawn(recv, 1)
        watcher.link(disconnected)
'''),
  (G, '''        if self.profiling_greenlet:
            self.profiling_greenlet.join()
''', '''        greenlet = self.profiling_greenlet
        if greenlet:
            greenlet.join()
'''))
B = 'remote/background.py'
r('background: handler',
  (B, '''        try:
            if self.profiler.is_running():
                self.profiler.stop()
            else:
                self.profiler.start()
        finally:
            self.event.set()
''', '''        profiler = self.profiler
        toggle = profiler.stop if profiler.is_running() else profiler.start
        try:
            toggle()
        finally:
            self.event.set()
'''))
r('background: send',
  (B, '''        self._send_signal()
        yield
        self._send_signal()

    def _send_signal(self):
        self.event.clear()
        os.kill(os.getpid(), self.signum)
        self.event.wait()
''', '''        self._send_signal()
        yield
        self._send_signal()

    def _send_signal(self):
        event = self.event
        event.clear()
        pid = os.getpid()
        os.kill(pid, self.signum)
        event.wait()
'''))
C = 'remote/client.py'
r('client: connect without a loop',
  (C, '''        while True:
            errno = self.sock.connect_ex(self.addr)
            if not errno:
                # connected immediately.
                break
            elif errno == EINPROGRESS:
                # will be connected.
                break
            elif errno in (ENOENT, ECONNREFUSED):
                # no such socket file, or no server listens there.
                self.sock.close()
                self.create_connection(self.failover_interval)
                return
            else:
                raise ValueError('Unexpected socket errno: %d' % errno)
        self.event_loop.watch_file(self.sock.fileno(), self.handle)
''', '''        errno = self.sock.connect_ex(self.addr)
        if errno in (ENOENT, ECONNREFUSED):
            self.sock.close()
            self.create_connection(self.failover_interval)
            return
        if errno and errno != EINPROGRESS:
            raise ValueError('Unexpected socket errno: %d' % errno)
        self.event_loop.watch_file(self.sock.fileno(), self.handle)
'''))
r('client: erred and handle',
  (C, '''        try:
            method, msg = recv_msg(self.sock)
        except socket.error as exc:
            self.erred(exc.errno)
            return
        self.protocol(method, msg, self)
''', '''        try:
            method, msg = recv_msg(self.sock)
        except socket.error as exc:
            self.erred(exc.errno)
        else:
            self.protocol(method, msg, self)
'''),
  (C, '''        self.sock.close()
        # try to reconnect.
        delay = self.failover_interval if errno == ECONNREFUSED else 0
        self.create_connection(delay)
''', '''        delay = 0
        if errno == ECONNREFUSED:
            delay = self.failover_interval
        self.sock.close()
        self.create_connection(delay=delay)
'''))
r('client: handlers',
  (C, '''    stats, cpu_time, wall_time = result
    client.viewer.set_result(stats, cpu_time, wall_time,
                             client.title, datetime.now())
''', '''    now = datetime.now()
    stats, cpu_time, wall_time = result
    client.viewer.set_result(stats, cpu_time, wall_time,
                             title=client.title, at=now)
'''))
V = 'viewer.py'
r('format_percent: helper',
  (V, '''        try:
            ratio /= float(denom)
        except ZeroDivisionError:
            ratio = 0
        if round(ratio, 2) >= 1:
            precision = 0
        elif round(ratio, 2) >= 0.1:
            precision = 1
        else:
            precision = 2
        string = ('{:.' + str(precision) + 'f}').format(ratio * 100)
        if unit:
            return string + '%'
        else:
            return string
''', '''        try:
            ratio = ratio / float(denom)
        except ZeroDivisionError:
            ratio = 0
        rounded = round(ratio, 2)
        precision = 0 if rounded >= 1 else 1 if rounded >= 0.1 else 2
        string = '{:.{}f}'.format(ratio * 100, precision)
        return string + '%' if unit else string
'''))
r('attr_time: table',
  (V, '''        if sec == 0:
            return 'zero'
        elif sec < 1e-3:
            return 'usec'
        elif sec < 1:
            return 'msec'
        elif sec < 60:
            return 'sec'
        else:
            return 'min'
''', '''        if sec == 0:
            return 'zero'
        for limit, attr in ((1e-3, 'usec'), (1, 'msec'), (60, 'sec')):
            if sec < limit:
                return attr
        return 'min'
'''))
r('attr_ratio: loop',
  (V, '''        if ratio > 0.9:
            return 'danger'
        elif ratio > 0.7:
            return 'caution'
        elif ratio > 0.3:
            return 'warning'
        elif ratio > 0.1:
            return 'notice'
        elif ratio <= 0:
            return 'zero'
''', '''        if ratio <= 0:
            return 'zero'
        levels = [(0.9, 'danger'), (0.7, 'caution'), (0.3, 'warning'),
                  (0.1, 'notice')]
        for bound, attr in levels:
            if ratio > bound:
                return attr
        return None
'''))
r('markup_stats: early return',
  (V, '''        if stats.name:
            loc = ('({0}:{1})'
                   ''.format(stats.module or stats.filename, stats.lineno))
            return [('name', stats.name), ' ', ('loc', loc)]
        else:
            return ('loc', stats.module or stats.filename)
''', '''        source = stats.module or stats.filename
        if not stats.name:
            return ('loc', source)
        loc = '(%s:%s)' % (source, stats.lineno)
        return [('name', stats.name), ' ', ('loc', loc)]
'''))
r('make_cells: list',
  (T, '''        yield fmt.make_stat_text(stats)
        yield fmt.make_int_or_na_text(stats.own_hits)
        yield fmt.make_time_text(stats.own_time)
        yield fmt.make_time_text(stats.own_time_per_call)
        yield fmt.make_percent_text(stats.own_time, self.cpu_time)
        yield fmt.make_time_text(stats.deep_time)
        yield fmt.make_time_text(stats.deep_time_per_call)
        yield fmt.make_percent_text(stats.deep_time, self.cpu_time)
''', '''        cpu_time = self.cpu_time
        return [
            fmt.make_stat_text(stats),
            fmt.make_int_or_na_text(stats.own_hits),
            fmt.make_time_text(stats.own_time),
            fmt.make_time_text(stats.own_time_per_call),
            fmt.make_percent_text(stats.own_time, cpu_time),
            fmt.make_time_text(stats.deep_time),
            fmt.make_time_text(stats.deep_time_per_call),
            fmt.make_percent_text(stats.deep_time, cpu_time),
        ]
'''))
r('make_columns: zip',
  (V, '''        widget_list = []
        widths = (width for __, __, width, __ in cls.columns)
        for width, widget in zip(widths, column_widgets):
            widget_list.append(width + (widget,))
        return urwid.Columns(widget_list, 1)
''', '''        widget_list = [column[2] + (widget,) for column, widget
                       in zip(cls.columns, column_widgets)]
        return urwid.Columns(widget_list, 1)
'''))
r('get_path: list reversed',
  (V, '''        path = deque()
        __, node = self.get_focus()
        while not node.is_root():
            stats = node.get_value()
            path.appendleft(hash(stats))
            node = node.get_parent()
        return path
''', '''        path = []
        node = self.get_focus()[1]
        while not node.is_root():
            path.append(hash(node.get_value()))
            node = node.get_parent()
        path.reverse()
        return path
'''))
r('find_node: helper',
  (V, '''        for hash_value in path:
            if isinstance(node, LeafStatisticsNode):
                break
            for stats in node.get_child_keys():
                if hash(stats) == hash_value:
                    node = node.get_child_node(stats)
                    break
            else:
                break
        return node
''', '''        for hash_value in path:
            child = self._find_child(node, hash_value)
            if child is None:
                return node
            node = child
        return node

    def _find_child(self, node, hash_value):
        if isinstance(node, LeafStatisticsNode):
            return None
        for stats in node.get_child_keys():
            if hash(stats) == hash_value:
                return node.get_child_node(stats)
        return None
'''))
r('update_frame: split',
  (V, '''        # Set thead attr.
        if self.viewer.paused:
            thead_attr = 'thead.paused'
        elif not self.viewer.active:
            thead_attr = 'thead.inactive'
        else:
            thead_attr = 'thead'
        self.thead.set_attr_map({None: thead_attr})
        # Set sorting column in thead attr.
        for x, (__, __, __, order) in enumerate(self.columns):
            attr = thead_attr + '.sorted' if order is self.order else None
            widget = self.thead.base_widget.contents[x][0]
            text, __ = widget.get_text()
            widget.set_text((attr, text))
        if self.viewer.paused:
            return
        # Update header.
''', '''        self._update_thead()
        if not self.viewer.paused:
            self._update_header()

    def _update_thead(self):
        viewer = self.viewer
        if viewer.paused:
            thead_attr = 'thead.paused'
        else:
            thead_attr = 'thead' if viewer.active else 'thead.inactive'
        self.thead.set_attr_map({None: thead_attr})
        columns = self.thead.base_widget.contents
        for x, column in enumerate(self.columns):
            attr = None
            if column[3] is self.order:
                attr = thead_attr + '.sorted'
            widget = columns[x][0]
            widget.set_text((attr, widget.get_text()[0]))

    def _update_header(self):
'''))
r('update_frame: header',
  (V, '''        if title or time:
            if time is not None:
                time_string = '{:%H:%M:%S}'.format(time)
            if title and time:
                markup = [('weak', title), ' ', time_string]
            elif title:
                markup = title
            else:
                markup = time_string
            meta_info = urwid.Text(markup, align='right')
        else:
            meta_info = None
''', '''        meta_info = None
        time_string = time.strftime('%H:%M:%S') if time else None
        if title and time:
            markup = [('weak', title), ' ', time_string]
        else:
            markup = title or time_string
        if markup:
            meta_info = urwid.Text(markup, align='right')
'''))
r('table keypress: dict of handlers',
  (V, '''        command = self._command_map[key]
        if key == ']':
            self.shift_order(+1)
            return True
        elif key == '[':
            self.shift_order(-1)
            return True
        elif key == '>':
            self.focus_hotspot(size)
            return True
        elif key == '\\\\':
            layout = {FLAT: NESTED, NESTED: FLAT}[self.layout]
            self.set_layout(layout)
            return True
        command = self._command_map[key]
''', '''        handlers = {']': lambda: self.shift_order(1),
                    '[': lambda: self.shift_order(-1),
                    '>': lambda: self.focus_hotspot(size),
                    '\\\\': self._toggle_layout}
        if key in handlers:
            handlers[key]()
            return True
        command = self._command_map[key]
'''),
  (V, '''    def shift_order(self''', '''    def _toggle_layout(self):
        self.set_layout(FLAT if self.layout == NESTED else NESTED)

    def shift_order(self'''))
r('table keypress: methods',
  (V, '''        elif command == urwid.ACTIVATE:
            # key: Enter or Space.
            if self.viewer.paused:
                self.viewer.resume()
            else:
                self.viewer.pause()
            return True
        return super(StatisticsTable, self).keypress(size, key)
''', '''        elif command == urwid.ACTIVATE:
            self._toggle_paused()
            return True
        return super(StatisticsTable, self).keypress(size, key)

    def _toggle_paused(self):
        viewer = self.viewer
        toggle = viewer.resume if viewer.paused else viewer.pause
        toggle()
'''))
r('shift_order: while',
  (V, '''        orders = [order for __, __, __, order in self.columns if order]
        x = orders.index(self.order)
        order = orders[(x + delta) % len(orders)]
        self.sort_stats(order)
''', '''        orders = []
        for column in self.columns:
            if column[3] is not None:
                orders.append(column[3])
        x = (orders.index(self.order) + delta) % len(orders)
        self.sort_stats(orders[x])
'''))
r('viewer: pause and resume',
  (V, '''        self.paused = True
        try:
            self._paused_result = self._final_result
        except AttributeError:
            pass
        self.table.update_frame()
''', '''        if hasattr(self, '_final_result'):
            self._paused_result = self._final_result
        self.paused = True
        self.table.update_frame()
'''),
  (V, '''        self.paused = False
        try:
            del self._paused_result
        except AttributeError:
            pass
        self.update_result()
''', '''        if hasattr(self, '_paused_result'):
            del self._paused_result
        self.paused = False
        self.update_result()
'''))
r('viewer: None instead of missing',
  (V, '''        try:
            if self.paused:
                result = self._paused_result
            else:
                result = self._final_result
        except AttributeError:
            self.table.update_frame()
            return
        stats, cpu_time, wall_time, title, at = result
        self.table.set_result(stats, cpu_time, wall_time, title, at)
''', '''        name = '_paused_result' if self.paused else '_final_result'
        result = getattr(self, name, None)
        if result is None:
            self.table.update_frame()
        else:
            self.table.set_result(*result)
'''))
r('viewer: activation',
  (V, '''    def activate(self):
        self.active = True
        self.table.update_frame()

    def inactivate(self):
        self.active = False
        self.table.update_frame()
''', '''    def _set_active(self, active):
        self.active = active
        self.table.update_frame()

    def activate(self):
        self._set_active(True)

    def inactivate(self):
        self._set_active(False)
'''))
r('viewer: keys bound by a loop',
  (V, '''    urwid.command_map['h'] = urwid.command_map['left']
    urwid.command_map['j'] = urwid.command_map['down']
    urwid.command_map['k'] = urwid.command_map['up']
    urwid.command_map['l'] = urwid.command_map['right']
''', '''    command_map = urwid.command_map
    for key, arrow in zip('hjkl', ('left', 'down', 'up', 'right')):
        command_map[key] = command_map[arrow]
'''))
r('widget keypress',
  (V, '''        command = self._command_map[key]
        if command == urwid.ACTIVATE:
            key = '-' if self.expanded else '+'
        elif command == urwid.CURSOR_RIGHT:
            key = '+'
        elif self.expanded and command == urwid.CURSOR_LEFT:
            key = '-'
        return super(StatisticsWidget, self).keypress(size, key)
''', '''        command = self._command_map[key]
        expanded = self.expanded
        if command == urwid.CURSOR_RIGHT:
            key = '+'
        elif command == urwid.CURSOR_LEFT:
            if expanded:
                key = '-'
        elif command == urwid.ACTIVATE:
            key = '-' if expanded else '+'
        return super(StatisticsWidget, self).keypress(size, key)
'''))
r('hotspot',
  (V, '''        widget, __ = self.tbody.get_focus()
        while widget:
            node = widget.get_node()
            widget.expand()
            widget = widget.first_child()
        self.tbody.change_focus(size, node)
''', '''        widget = self.tbody.get_focus()[0]
        while True:
            widget.expand()
            child = widget.first_child()
            if not child:
                break
            widget = child
        self.tbody.change_focus(size, widget.get_node())
'''))
M = '__main__.py'
r('cli: __profile__ restructured',
  (M, '''    profiler = profiler_factory(base_frame=frame, base_code=code)
    profiler.start()
    try:
        exec_(code, globals_)
    except BaseException:
        # don't profile print_exc().
        profiler.stop()
        traceback.print_exc()
    else:
        profiler.stop()
''', '''    profiler = profiler_factory(base_frame=frame, base_code=code)
    failed = False
    profiler.start()
    try:
        exec_(code, globals_)
    except BaseException:
        profiler.stop()
        failed = True
        traceback.print_exc()
    if not failed:
        profiler.stop()
'''))
r('cli: __profile__ deliver',
  (M, '''    if dump_filename is None:
        try:
            profiler.run_viewer(get_title(filename), mono=mono)
        except KeyboardInterrupt:
            pass
    else:
        profiler.dump(dump_filename, pickle_protocol)

        click.echo('To view statistics:')
''', '''    if dump_filename is not None:
        __dump__(profiler, dump_filename, pickle_protocol)
        return
    try:
        profiler.run_viewer(get_title(filename), mono=mono)
    except KeyboardInterrupt:
        pass


def __dump__(profiler, dump_filename, pickle_protocol):
    if True:
        profiler.dump(dump_filename, pickle_protocol)

        click.echo('To view statistics:')
'''))
r('cli: profiler options',
  (M, '''        if issubclass(profiler_class, TracingProfiler):
            # profiler requires timer.
            timer_class = timer_class or tracing.TIMER_CLASS
            timer = timer_class()
            profiler_kwargs = {'timer': timer}
        elif issubclass(profiler_class, SamplingProfiler):
            sampler_class = sampler_class or sampling.SAMPLER_CLASS
            sampler = sampler_class(sampling_interval)
            profiler_kwargs = {'sampler': sampler}
        else:
            profiler_kwargs = {}
        profiler_factory = partial(profiler_class, **profiler_kwargs)
''', '''        profiler_kwargs = {}
        if issubclass(profiler_class, TracingProfiler):
            timer_class = timer_class or tracing.TIMER_CLASS
            profiler_kwargs['timer'] = timer_class()
        elif issubclass(profiler_class, SamplingProfiler):
            if not sampler_class:
                sampler_class = sampling.SAMPLER_CLASS
            profiler_kwargs['sampler'] = sampler_class(
                interval=sampling_interval)
        profiler_factory = partial(profiler_class, **profiler_kwargs)
'''))
r('cli: profiler arguments',
  (M, '''        script = module or command
        if script is None:
            # -m and -c not passed.
            try:
                script_filename, argv = argv[0], argv[1:]
            except IndexError:
                raise click.UsageError('Script not specified')
            script = Script().convert(script_filename, None, None)
        kwargs.update(script=script, argv=argv)
        return f(**kwargs)
''', '''        if module is not None:
            script = module
        elif command is not None:
            script = command
        elif not argv:
            raise click.UsageError('Script not specified')
        else:
            script = Script().convert(argv[0], None, None)
            argv = argv[1:]
        return f(script=script, argv=argv, **kwargs)
'''))
r('cli: config default',
  (M, '''        get_option = option_getter(type)
        try:
            return get_option(config, section, option)
        except (NoOptionError, NoSectionError):
            return default
    return f
''', '''        if config.has_option(section, option):
            return option_getter(type)(config, section, option)
        return default
    return f
'''))
r('cli: live profile split',
  (M, '''        server_args = (interval, noop, pickle_protocol)
        server = SelectProfilingServer(None, profiler_trigger, *server_args)
''', '''        server = SelectProfilingServer(
            None, profiler_trigger, interval=interval, log=noop,
            pickle_protocol=pickle_protocol)
'''),
  (M, '''        try:
            exec_(code, globals_)
        finally:
            os.close(stderr_w_fd)
            child_sock.shutdown(socket.SHUT_WR)
''', '''        try:
            exec_(code, globals_)
        finally:
            try:
                os.close(stderr_w_fd)
            finally:
                child_sock.shutdown(socket.SHUT_WR)
'''))
r('cli: live parent extracted',
  (M, '''        # get exit code of child.
        w_pid, status = os.waitpid(pid, os.WNOHANG)
        if w_pid == 0:
            os.kill(pid, signal.SIGTERM)
        exit_code = os.WEXITSTATUS(status)
''', '''        exit_code = reap_child(pid)
'''),
  (M, '''@cli.command('live-profile', aliases''', '''def reap_child(pid):
    """Gets exit code of child."""
    w_pid, status = os.waitpid(pid, os.WNOHANG)
    if not w_pid:
        os.kill(pid, signal.SIGTERM)
    return os.WEXITSTATUS(status)


@cli.command('live-profile', aliases'''))
r('cli: remote profile',
  (M, '''    server_args = (interval, log, pickle_protocol)
    server = SelectProfilingServer(listener, profiler_trigger, *server_args)
    spawn(server.serve_forever)
''', '''    server = SelectProfilingServer(listener, profiler_trigger, interval,
                                   log, pickle_protocol)
    serve = server.serve_forever
    spawn(serve)
'''))
r('cli: spawn',
  (M, '''    if mode is None:
        # 'threading' is the default mode.
        mode = 'threading'
    elif mode not in spawn.modes:
''', '''    mode = mode or 'threading'
    if mode not in spawn.modes:
'''))
r('cli: view',
  (M, '''        viewer.set_profiler_class(profiler_class)
        viewer.set_result(stats, cpu_time, wall_time, title=title, at=time)
        viewer.activate()
''', '''        viewer.activate()
        viewer.set_profiler_class(profiler_class)
        viewer.set_result(stats, cpu_time, wall_time, title, time)
'''),
  (M, '''        with open(src_name, 'rb') as f:
            profiler_class, (stats, cpu_time, wall_time) = pickle.load(f)
''', '''        with open(src_name, 'rb') as f:
            profiler_class, result = pickle.load(f)
        stats, cpu_time, wall_time = result
'''))
r('cli: timeit',
  (M, '''        dummy_profiler = profiler_factory()
        with dummy_profiler:
            for x in range(1, 10):
                number = 10 ** x
                t = time.time()
                for y in range(number):
                    exec_(stmt, globals_)
                if time.time() - t >= 0.2:
                    break
        del dummy_profiler
''', '''        number = 1
        with profiler_factory():
            for __ in range(9):
                number *= 10
                started = time.time()
                for __ in range(number):
                    exec_(stmt, globals_)
                elapsed = time.time() - started
                if elapsed >= 0.2:
                    break
'''))
r('cli: argv assigned by slices',
  (M, '''    filename, code, globals_ = script
    sys.argv[:] = [filename] + list(argv)
    __profile__(filename''', '''    filename, code, globals_ = script
    set_argv(filename, argv)
    __profile__(filename'''),
  (M, '''class ProfilingCommand(click''', '''def set_argv(filename, argv):
    args = [filename]
    args.extend(argv)
    sys.argv[:] = args


class ProfilingCommand(click'''))
r('cli: module type',
  (M, '''        try:
            # since Python 3.4.
            mod_name, mod_spec, code = detail
        except ValueError:
            mod_name, loader, code, filename = detail
        else:
            loader = mod_spec.loader
            filename = mod_spec.origin
''', '''        if len(detail) == 3:
            mod_name, mod_spec, code = detail
            loader, filename = mod_spec.loader, mod_spec.origin
        else:
            mod_name, loader, code, filename = detail
'''))
r('cli: signal number',
  (M, '''        if isinstance(value, int):
            return value
        elif value.isdigit():
            return int(value)
        signame = value.upper()
        if not signame.startswith('SIG'):
            signame = 'SIG' + signame
        if signame.startswith('SIG_'):
            self.fail('Invalid signal %s' % signame)
        try:
            signum = getattr(signal, signame)
        except AttributeError:
            self.fail('Unknown signal %s' % signame)
        return signum
''', '''        if isinstance(value, int):
            return value
        if value.isdigit():
            return int(value)
        signame = value.upper()
        if not signame.startswith('SIG'):
            signame = 'SIG' + signame
        if signame.startswith('SIG_'):
            self.fail('Invalid signal %s' % signame)
        signum = getattr(signal, signame, None)
        if signum is None:
            self.fail('Unknown signal %s' % signame)
        return signum
'''))
r('cli: endpoint',
  (M, '''        host, port = value.split(':')
        port = int(port)
        return (host, port)
''', '''        host, port = value.split(':')
        return (host, int(port))
'''))
r('sort keys: functions',
  ('sortkeys.py', '''by_own_time = SortKey(lambda stat: (-stat.own_time, -stat.deep_time))
''', '''@SortKey
def by_own_time(stat):
    own_time, deep_time = stat.own_time, stat.deep_time
    return (-own_time, -deep_time)

'''),
  ('sortkeys.py', '''    return -stat.deep_time_per_call if stat.deep_hits else -stat.deep_time
''', '''    if not stat.deep_hits:
        return -stat.deep_time
    return -stat.deep_time_per_call
'''))

# A second batch: structure changed across functions, classes and modules.

r('2 stats: path helper shared by both profilers',
  (ST, '''    def clear(self):
        self._children.clear()
''', '''    def ensure_path(self, frames):
        """Ensures placeholders for the given frames, outermost first."""
        stats = self
        for f in frames:
            stats = stats.ensure_child(f.f_code, VoidRecordingStatistics)
        return stats

    def clear(self):
        self._children.clear()
'''),
  (T, '''        parent_stats = self.stats
        for f in frames:
            parent_stats = parent_stats.ensure_child(f.f_code, void)
        code''', '''        parent_stats = self.stats.ensure_path(frames)
        code'''),
  ('sampling/__init__.py', '''        parent_stats = self.stats
        for f in frames:
            parent_stats = parent_stats.ensure_child(f.f_code, void)
''', '''        parent_stats = self.stats.ensure_path(frames)
'''))
r('2 stats: spread as two generators',
  (ST, '''    spread = spread_t() if spreader else True
    descendants = deque(stats)
    while descendants:
        _stats = descendants.popleft()
        if spreader:
            spread.clear()
            yield _stats, spread
        else:
            yield _stats
        if spread:
            descendants.extend(_stats)
''', '''    if spreader:
        return _spread_on_demand(stats)
    return _spread_all(stats)


def _spread_all(stats):
    descendants = deque(stats)
    while descendants:
        _stats = descendants.popleft()
        yield _stats
        descendants.extend(_stats)


def _spread_on_demand(stats):
    spread = spread_t()
    descendants = deque(stats)
    while descendants:
        _stats = descendants.popleft()
        spread.clear()
        yield _stats, spread
        if spread:
            descendants.extend(_stats)
'''))
r('2 stats: flatten adds up in a method',
  (ST, '''            flat_stats.own_hits += _stats.own_hits
            flat_stats.deep_hits += _stats.deep_hits
            flat_stats.own_time += _stats.own_time
            flat_stats.deep_time += _stats.deep_time
        children''', '''            flat_stats._add(_stats)
        children'''),
  (ST, '''    @classmethod
    def flatten(cls, stats):
''', '''    def _add(self, stats):
        for attr in ('own_hits', 'deep_hits', 'own_time', 'deep_time'):
            setattr(self, attr, getattr(self, attr) + getattr(stats, attr))

    @classmethod
    def flatten(cls, stats):
'''))
r('2 stats: freeze with a growing list',
  (ST, '''    for x in itertools.count():
        try:
            parent_offset, _stats = stats_tree[x]
        except IndexError:
            break
        stats_tree.extend((x, s) for s in _stats)
''', '''    for x, (parent_offset, _stats) in enumerate(stats_tree):
        # the list grows while it is walked.
        stats_tree.extend([(x, s) for s in _stats])
'''))
r('2 stats: per call through one function',
  (ST, '''    @property
    def deep_time_per_call(self):
        try:
            return self.deep_time / self.own_hits
        except ZeroDivisionError:
            return 0.0

    @property
    def own_time_per_call(self):
        try:
            return self.own_time / self.own_hits
        except ZeroDivisionError:
            return 0.0
''', '''    def _per_call(self, time):
        hits = self.own_hits
        return time / hits if hits else 0.0

    @property
    def deep_time_per_call(self):
        return self._per_call(self.deep_time)

    @property
    def own_time_per_call(self):
        return self._per_call(self.own_time)
'''))
r('2 stats: repr with one expression',
  (ST, '''        deep_hits = self.deep_hits
        if self.own_hits == deep_hits:
            hits_string = str(self.own_hits)
        else:
            hits_string = '{0}/{1}'.format(self.own_hits, deep_hits)
''', '''        hits = [self.own_hits]
        deep_hits = self.deep_hits
        if deep_hits != hits[0]:
            hits.append(deep_hits)
        hits_string = '/'.join(str(x) for x in hits)
'''))
r('2 utils: deferral as a class',
  (U, '''@contextmanager
def deferral():
''', '''class deferral(object):
'''),
  (U, '''    deferred = []
    defer = lambda f, *a, **k: deferred.append((f, a, k))
    def call_deferred():
        while deferred:
            f, a, k = deferred.pop()
            try:
                f(*a, **k)
            except:
                # call the others even so.
                call_deferred()
                raise
    try:
        yield defer
    finally:
        call_deferred()
''', '''    def __init__(self):
        self._deferred = []

    def defer(self, f, *a, **k):
        self._deferred.append((f, a, k))

    def _call_deferred(self):
        while self._deferred:
            f, a, k = self._deferred.pop()
            try:
                f(*a, **k)
            except:
                # call the others even so.
                self._call_deferred()
                raise

    def __enter__(self):
        return self.defer

    def __exit__(self, *exc_info):
        self._call_deferred()
'''))
r('2 utils: context manager calls in recursion',
  (U, '''        while deferred:
            f, a, k = deferred.pop()
            try:
                f(*a, **k)
            except:
                # call the others even so.
                call_deferred()
                raise
''', '''        if not deferred:
            return
        f, a, k = deferred.pop()
        try:
            f(*a, **k)
        finally:
            call_deferred()
'''))
r('2 utils: start without nesting',
  (U, '''        try:
            try:
                yielded = next(running)
            except StopIteration:
                raise TypeError('run() must yield just one time')
            if yielded is not None:
                running.close()
                raise TypeError('run() must yield without value')
        except:
            # failed to start.
            self._running = None
            raise
''', '''        started = False
        nothing = object()
        try:
            yielded = next(running, nothing)
            if yielded is nothing:
                raise TypeError('run() must yield just one time')
            if yielded is not None:
                running.close()
                raise TypeError('run() must yield without value')
            started = True
        finally:
            if not started:
                self._running = None
'''))
r('2 utils: stop by next with a default',
  (U, '''        try:
            next(running)
        except StopIteration:
            # expected.
            pass
        else:
            raise TypeError('run() must yield just one time')
''', '''        nothing = object()
        if next(running, nothing) is not nothing:
            raise TypeError('run() must yield just one time')
'''))
r('2 profiler: clocks in a helper',
  (P, '''        self._cpu_time_started = time.clock()
        self._wall_time_started = time.time()
        self.stats.clear()
''', '''        self._cpu_time_started, self._wall_time_started = self._clocks()
        self.stats.clear()
'''),
  (P, '''    def frame_stack(self, frame):
''', '''    @staticmethod
    def _clocks():
        return time.clock(), time.time()

    def frame_stack(self, frame):
'''),
  (P, '''            cpu_time = max(0, time.clock() - self._cpu_time_started)
            wall_time = max(0, time.time() - self._wall_time_started)
''', '''            cpu_now, wall_now = self._clocks()
            cpu_time = max(0, cpu_now - self._cpu_time_started)
            wall_time = max(0, wall_now - self._wall_time_started)
'''))
r('2 profiler: wrapper by __getattr__-like loop',
  (P, '''        f = lambda self, attr=attr: getattr(self.profiler, attr)
        locals()[attr] = property(f)
        del f
''', '''        locals()[attr] = property(operator.attrgetter('profiler.' + attr))
'''),
  (P, '''import time

from''', '''import operator
import time

from'''))
r('2 tracing: entering and leaving in one method',
  (T, '''        if event == 'call':
            time = time2 - self.overhead
            self.record_entering(time, code, frame_key, parent_stats)
        elif event == 'return':
            # the time until time2 is in the overhead already.
            time = time2 - self.overhead
            self.record_leaving(time, code, frame_key, parent_stats)
''', '''        record = {'call': self.record_entering,
                  'return': self.record_leaving}.get(event)
        if record is not None:
            # the time until time2 is in the overhead already.
            record(time2 - self.overhead, code, frame_key, parent_stats)
'''))
r('2 tracing: net clock',
  (T, '''            time = time2 - self.overhead
            self.record_entering(time, code, frame_key, parent_stats)
''', '''            self.record_entering(self._net(time2), code, frame_key,
                                 parent_stats)
'''),
  (T, '''            time = time2 - self.overhead
            self.record_leaving(time, code, frame_key, parent_stats)
''', '''            self.record_leaving(self._net(time2), code, frame_key,
                                parent_stats)
'''),
  (T, '''    def record_entering(self''', '''    def _net(self, time):
        """The given time without the overhead."""
        return time - self.overhead

    def record_entering(self'''))
r('2 tracing: frames without the own one by slicing',
  (T, '''        if frames and frames[-1] is frame:
            # the frame itself may be ignored.
            frames.pop()
        parent_stats = self.stats
        for f in frames:
''', '''        callers = list(frames)
        if callers and callers[-1] is frame:
            # the frame itself may be ignored.
            callers = callers[:-1]
        parent_stats = self.stats
        for f in callers:
'''))
r('2 sampling: sampler with closures',
  (SA, '''        weak_profiler = weakref.proxy(profiler)
        handle = functools.partial(self.handle_signal, weak_profiler)
''', '''        weak_profiler = weakref.proxy(profiler)
        def handle(signum, frame):
            self.handle_signal(weak_profiler, signum, frame)
'''))
r('2 sampling: hook of a thread as a closure',
  (SA, '''            thread_profile = functools.partial(self._profile_thread, profiler)
            threading.setprofile(thread_profile)
''', '''            def thread_profile(frame, event, arg):
                self._profile_thread(profiler, frame, event, arg)
            threading.setprofile(thread_profile)
'''))
r('2 sampling: due as a method',
  (SA, '''        t = thread_clock()
        thread_id = _thread.get_ident()
        sampled_at = self.sampled_times.get(thread_id, 0)
        if t < sampled_at:
            # a new thread took over the id of an ended one.
            sampled_at = 0
        if t - sampled_at < self.interval:
            return
        self.sampled_times[thread_id] = t
        profiler.sample(frame)
''', '''        t = thread_clock()
        thread_id = _thread.get_ident()
        if not self._is_due(thread_id, t):
            return
        self.sampled_times[thread_id] = t
        profiler.sample(frame)
'''),
  (SA, '''    def _profile_thread(self''', '''    def _is_due(self, thread_id, t):
        try:
            sampled_at = self.sampled_times[thread_id]
        except KeyError:
            sampled_at = 0
        # a new thread may have taken over the id of an ended one.
        since = sampled_at if sampled_at <= t else 0
        return t - since >= self.interval

    def _profile_thread(self'''))
r('2 timers: context resolved by a decorator-like helper',
  ('tracing/timers.py', '''        if context is None:
            context = self.detect_context()
        paused_at, resumed_at = self._contextual_times.get(context, (0, 0))
        if resumed_at is None:  # paused
            return paused_at
        return paused_at + self.clock() - resumed_at
''', '''        if context is None:
            context = self.detect_context()
        try:
            paused_at, resumed_at = self._contextual_times[context]
        except KeyError:
            return self.clock()
        running = 0 if resumed_at is None else self.clock() - resumed_at
        return paused_at + running
'''))
r('2 remote: one struct',
  ('remote/__init__.py', '''    return (struct.pack(METHOD_STRUCT_FORMAT, method) +
            struct.pack(SIZE_STRUCT_FORMAT, size) + dump.getvalue())
''', '''    header = struct.pack('!BI', method, size)
    return b''.join((header, dump.getvalue()))
'''))
r('2 remote: receiving into a bytearray',
  ('remote/__init__.py', '''    chunks = []
    while size > 0:
''', '''    data = bytearray()
    while len(data) < size:
'''),
  ('remote/__init__.py', '''            chunk = sock.recv(size, socket.MSG_WAITALL)
''', '''            chunk = sock.recv(size - len(data), socket.MSG_WAITALL)
'''),
  ('remote/__init__.py', '''        chunks.append(chunk)
        size -= len(chunk)
    return b''.join(chunks)
''', '''        data += chunk
    return bytes(data)
'''))
r('2 remote: interval as two methods',
  ('remote/__init__.py', '''            result = self.profiler.result()
            data = pack_msg(RESULT, result,
                            pickle_protocol=self.pickle_protocol)
            self._latest_result_data = data
            # broadcast.
            closed_clients = []
            for client in list(self.clients):
                try:
                    self._send(client, data)
                except socket.error:
                    closed_clients.append(client)
            del data
            # handle disconnections.
            for client in closed_clients:
                self.disconnected(client)
''', '''            self._latest_result_data = self._pack_result()
            # broadcast.
            gone = [client for client in list(self.clients)
                    if not self._deliver(client)]
            # handle disconnections.
            for client in gone:
                self.disconnected(client)
'''),
  ('remote/__init__.py', '''    def send_msg(self''', '''    def _pack_result(self):
        return pack_msg(RESULT, self.profiler.result(),
                        pickle_protocol=self.pickle_protocol)

    def _deliver(self, client):
        """Whether the latest result could be sent."""
        try:
            self._send(client, self._latest_result_data)
        except socket.error:
            return False
        return True

    def send_msg(self'''))
r('2 remote: greeting in a method',
  ('remote/__init__.py', '''        profiler = self.profiler
        while True:
            try:
                profiler = profiler.profiler
            except AttributeError:
                break
        try:
            self.send_msg(client, WELCOME, (self.pickle_protocol, __version__),
                          pickle_protocol=0)
            self.send_msg(client, PROFILER, type(profiler))
            if self._latest_result_data is not None:
                self._send(client, self._latest_result_data)
        except socket.error:
            self.disconnected(client)
            return
''', '''        try:
            self._greet(client)
        except socket.error:
            self.disconnected(client)
            return
'''),
  ('remote/__init__.py', '''    def disconnected(self''', '''    def _profiler_class(self):
        profiler = self.profiler
        while hasattr(profiler, 'profiler'):
            profiler = profiler.profiler
        return type(profiler)

    def _greet(self, client):
        welcome = (self.pickle_protocol, __version__)
        self.send_msg(client, WELCOME, welcome, pickle_protocol=0)
        self.send_msg(client, PROFILER, self._profiler_class())
        latest = self._latest_result_data
        if latest is not None:
            self._send(client, latest)

    def disconnected(self'''))
r('2 remote: addresses by one formatter',
  ('remote/__init__.py', '''    if addr:
        fmt = 'Connected from {0[0]}:{0[1]} (total: {1})'
    else:
        fmt = 'A client connected (total: {1})'
    return fmt.format(addr, num_clients)


def fmt_disconnected(addr, num_clients):
    if addr:
        fmt = 'Disconnected from {0[0]}:{0[1]} (total: {1})'
    else:
        fmt = 'A client disconnected (total: {1})'
    return fmt.format(addr, num_clients)
''', '''    return _fmt_client('connected', addr, num_clients)


def fmt_disconnected(addr, num_clients):
    return _fmt_client('disconnected', addr, num_clients)


def _fmt_client(verb, addr, num_clients):
    if addr:
        who = '{0} from {1}:{2}'.format(verb.capitalize(), addr[0], addr[1])
    else:
        who = 'A client ' + verb
    return '{0} (total: {1})'.format(who, num_clients)
'''))
r('2 select: one socket per call',
  ('remote/select.py', '''        for sock in self.select_sockets(timeout=timeout):
            if sock is self.listener:
                listener = sock
                try:
                    sock, addr = listener.accept()
                except socket.error as exc:
                    if exc.errno not in CLIENT_GONE:
                        raise
                else:
                    self.connected(sock)
            else:
                try:
                    sock.recv(1)
                except socket.error:
                    pass
                self.disconnected(sock)
''', '''        for sock in self.select_sockets(timeout=timeout):
            if sock is self.listener:
                self._accept(sock)
            else:
                self._hang_up(sock)

    def _accept(self, listener):
        try:
            client = listener.accept()[0]
        except socket.error as exc:
            if exc.errno in CLIENT_GONE:
                return
            raise
        self.connected(client)

    def _hang_up(self, sock):
        try:
            sock.recv(1)
        except socket.error:
            pass
        finally:
            self.disconnected(sock)
'''))
r('2 select: sockets to wait for as a list',
  ('remote/select.py', '''        if self.listener is None:
            return self.clients
        else:
            return self.clients.union([self.listener])
''', '''        sockets = set(self.clients)
        if self.listener is not None:
            sockets.add(self.listener)
        return sockets
'''))
r('2 asyncio: methods instead of lambdas',
  ('remote/asyncio.py', '''        reader, writer = client
        disconnected = lambda x: self.disconnected(client)
        ensure_future(reader.read()).add_done_callback(disconnected)
''', '''        def done(future):
            self.disconnected(client)
        watching = ensure_future(client[0].read())
        watching.add_done_callback(done)
'''))
r('2 client: protocol of functions by a table',
  ('remote/client.py', '''        try:
            method, msg = recv_msg(self.sock)
        except socket.error as exc:
            self.erred(exc.errno)
            return
        self.protocol(method, msg, self)
''', '''        try:
            method, msg = recv_msg(self.sock)
        except socket.error as exc:
            self.erred(exc.errno)
        else:
            self.protocol(method, msg, self)
'''),
  ('remote/client.py', '''            if not errno:
                # connected immediately.
                break
            elif errno == EINPROGRESS:
                # will be connected.
                break
            elif errno in UNAVAILABLE:
''', '''            if errno in (0, EINPROGRESS):
                # connected immediately, or will be connected.
                break
            if errno in UNAVAILABLE:
'''))
r('2 client: reconnecting in a method',
  ('remote/client.py', '''                self.sock.close()
                self.create_connection(self.failover_interval)
                return
''', '''                return self._retry(self.failover_interval)
'''),
  ('remote/client.py', '''        self.sock.close()
        # try to reconnect.
        delay = self.failover_interval if errno == ECONNREFUSED else 0
        self.create_connection(delay)
''', '''        # try to reconnect.
        refused = errno == ECONNREFUSED
        self._retry(self.failover_interval if refused else 0)

    def _retry(self, delay):
        self.sock.close()
        self.create_connection(delay)
'''))
r('2 background: flip in a method',
  ('remote/background.py', '''        try:
            if self.profiler.is_running():
                self.profiler.stop()
            else:
                self.profiler.start()
        finally:
            self.event.set()
''', '''        profiler = self.profiler
        flip = profiler.stop if profiler.is_running() else profiler.start
        try:
            flip()
        finally:
            self.event.set()
'''))
r('2 viewer: formatter of time by a table',
  (V, '''        elif sec < 1e-3:
            # 1us ~ 999us
            return '{:.0f}us'.format(sec * 1e6)
        elif sec < 1:
            # 1ms ~ 999ms
            return '{:.0f}ms'.format(sec * 1e3)
        elif sec < 60:
            # 1.0sec ~ 59.9sec
            return '{:.1f}sec'.format(sec)
        elif''', '''        for limit, form, factor in ((1e-3, '{:.0f}us', 1e6),
                                    (1, '{:.0f}ms', 1e3),
                                    (60, '{:.1f}sec', 1)):
            if sec < limit:
                return form.format(sec * factor)
        if'''))
r('2 viewer: icons by name',
  (V, '''        if self.is_leaf:
            char = self.icon_chars[2]
        else:
            char = self.icon_chars[int(self.expanded)]
        return''', '''        collapsed, expanded, leaf = self.icon_chars
        if self.is_leaf:
            char = leaf
        elif self.expanded:
            char = expanded
        else:
            char = collapsed
        return'''))
r('2 viewer: path by recursion',
  (V, '''        path = deque()
        __, node = self.get_focus()
        while not node.is_root():
            stats = node.get_value()
            path.appendleft(hash(stats))
            node = node.get_parent()
        return path
''', '''        __, node = self.get_focus()
        return self._path_to(node)

    def _path_to(self, node):
        if node.is_root():
            return deque()
        path = self._path_to(node.get_parent())
        path.append(hash(node.get_value()))
        return path
'''))
r('2 viewer: header in methods',
  (V, '''        if title or time:
            if time is not None:
                time_string = '{:%H:%M:%S}'.format(time)
            if title and time:
                markup = [('weak', title), ' ', time_string]
            elif title:
                markup = title
            else:
                markup = time_string
            meta_info = urwid.Text(markup, align='right')
        else:
            meta_info = None
''', '''        parts = []
        if title:
            parts.append(('weak', title) if time else title)
        if time:
            parts.append(time.strftime('%H:%M:%S'))
        if parts:
            if len(parts) > 1:
                parts.insert(1, ' ')
            meta_info = urwid.Text(parts, align='right')
        else:
            meta_info = None
'''))
r('2 viewer: state of the head',
  (V, '''        if self.viewer.paused:
            thead_attr = 'thead.paused'
        elif not self.viewer.active:
            thead_attr = 'thead.inactive'
        else:
            thead_attr = 'thead'
        self.thead.set_attr_map({None: thead_attr})
''', '''        thead_attr = self._thead_attr()
        self.thead.set_attr_map({None: thead_attr})
'''),
  (V, '''    def update_frame(self''', '''    def _thead_attr(self):
        viewer = self.viewer
        if viewer.paused:
            return 'thead.paused'
        return 'thead' if viewer.active else 'thead.inactive'

    def update_frame(self'''))
r('2 viewer: results as an object',
  (V, '''        try:
            if self.paused:
                result = self._paused_result
            else:
                result = self._final_result
        except AttributeError:
            self.table.update_frame()
            return
        stats, cpu_time, wall_time, title, at = result
        self.table.set_result(stats, cpu_time, wall_time, title, at)
''', '''        which = '_paused_result' if self.paused else '_final_result'
        result = getattr(self, which, None)
        if result is None:
            self.table.update_frame()
        else:
            self.table.set_result(*result)
'''))
r('2 viewer: hotspot by a loop with a break',
  (V, '''        widget, __ = self.tbody.get_focus()
        while widget:
            node = widget.get_node()
            widget.expand()
            widget = widget.first_child()
        self.tbody.change_focus(size, node)
''', '''        widget, node = self.tbody.get_focus()
        while True:
            widget.expand()
            child = widget.first_child()
            if not child:
                break
            widget = child
            node = child.get_node()
        self.tbody.change_focus(size, node)
'''))
r('2 viewer: orders of the columns in a method',
  (V, '''        orders = [order for __, __, __, order in self.columns if order]
        x = orders.index(self.order)
        order = orders[(x + delta) % len(orders)]
        self.sort_stats(order)
''', '''        orders = self._orders()
        x = orders.index(self.order) + delta
        self.sort_stats(orders[x % len(orders)])

    @classmethod
    def _orders(cls):
        """The orders which can be chosen."""
        return [column[3] for column in cls.columns if column[3]]
'''))
r('2 tracing: cells by a list of metrics',
  (T, '''        yield fmt.make_stat_text(stats)
        yield fmt.make_int_or_na_text(stats.own_hits)
        yield fmt.make_time_text(stats.own_time)
        yield fmt.make_time_text(stats.own_time_per_call)
        yield fmt.make_percent_text(stats.own_time, self.cpu_time)
        yield fmt.make_time_text(stats.deep_time)
        yield fmt.make_time_text(stats.deep_time_per_call)
        yield fmt.make_percent_text(stats.deep_time, self.cpu_time)
''', '''        yield fmt.make_stat_text(stats)
        yield fmt.make_int_or_na_text(stats.own_hits)
        for time, per_call in (
                (stats.own_time, stats.own_time_per_call),
                (stats.deep_time, stats.deep_time_per_call)):
            yield fmt.make_time_text(time)
            yield fmt.make_time_text(per_call)
            yield fmt.make_percent_text(time, self.cpu_time)
'''))
r('2 cli: daemon thread by keyword',
  (M, '''    thread = threading.Thread(target=func, args=args, kwargs=kwargs)
    thread.daemon = True
''', '''    thread = threading.Thread(target=lambda: func(*args, **kwargs))
    thread.setDaemon(True)
'''))
r('2 cli: exit status in a function',
  (M, '''        if os.WIFSIGNALED(status):
            # killed by a signal, like shells.
            exit_code = 128 + os.WTERMSIG(status)
        else:
            exit_code = os.WEXITSTATUS(status)
''', '''        exit_code = exit_code_of(status)
'''),
  (M, '''def spawn_thread(func''', '''def exit_code_of(status):
    """The exit code for a status of `os.waitpid`."""
    if not os.WIFSIGNALED(status):
        return os.WEXITSTATUS(status)
    # killed by a signal, like shells.
    return 128 + os.WTERMSIG(status)


def spawn_thread(func'''))
r('2 cli: both servers set up by one function',
  (M, '''        profiler = profiler_factory(base_frame=frame, base_code=code)
        profiler_trigger = BackgroundProfiler(profiler, signum)
        profiler_trigger.prepare()
''', '''        profiler_trigger = make_trigger(profiler_factory, frame, code, signum)
'''),
  (M, '''    profiler = profiler_factory(base_frame=frame, base_code=code)
    profiler_trigger = BackgroundProfiler(profiler, signum)
    profiler_trigger.prepare()
''', '''    profiler_trigger = make_trigger(profiler_factory, frame, code, signum)
'''),
  (M, '''def spawn_thread(func''', '''def make_trigger(profiler_factory, frame, code, signum):
    profiler = profiler_factory(base_frame=frame, base_code=code)
    trigger = BackgroundProfiler(profiler, signum)
    trigger.prepare()
    return trigger


def spawn_thread(func'''))
r('2 cli: dump shown by a function',
  (M, '''        time = datetime.fromtimestamp(os.path.getmtime(src_name))
        with open(src_name, 'rb') as f:
            profiler_class, (stats, cpu_time, wall_time) = pickle.load(f)
        viewer.set_profiler_class(profiler_class)
        viewer.set_result(stats, cpu_time, wall_time, title=title, at=time)
        viewer.activate()
''', '''        show_dump(viewer, src_name, title)
'''),
  (M, '''def spawn_thread(func''', '''def show_dump(viewer, filename, title):
    """Shows a dumped result in the viewer."""
    with open(filename, 'rb') as f:
        profiler_class, result = pickle.load(f)
    at = datetime.fromtimestamp(os.stat(filename).st_mtime)
    viewer.activate()
    viewer.set_profiler_class(profiler_class)
    viewer.set_result(*result, title=title, at=at)


def spawn_thread(func'''))
r('2 cli: tries of timeit in a function',
  (M, '''        dummy_profiler = profiler_factory()
        with dummy_profiler:
            for x in range(1, 10):
                number = 10 ** x
                t = time.time()
                for y in range(number):
                    exec_(stmt, globals_)
                if time.time() - t >= 0.2:
                    break
        del dummy_profiler
''', '''        with profiler_factory():
            number = find_number(stmt, globals_)
'''),
  (M, '''def spawn_thread(func''', '''def find_number(stmt, globals_):
    """The least power of ten whose run takes 0.2 seconds."""
    number = 10
    while number < 10 ** 9:
        t = time.time()
        for __ in range(number):
            exec_(stmt, globals_)
        if time.time() - t >= 0.2:
            break
        number *= 10
    return number


def spawn_thread(func'''))
r('2 cli: module by attributes',
  (M, '''        pkg_name = mod_name.rpartition('.')[0]
''', '''        pkg_name = '.'.join(mod_name.split('.')[:-1])
'''))
# --- third batch: other styles
r('3 stats: spread with a stack of iterators order kept',
  (ST, '''    while descendants:
        _stats = descendants.popleft()
        if spreader:
            spread.clear()
            yield _stats, spread
        else:
            yield _stats
        if spread:
            descendants.extend(_stats)
''', '''    while True:
        try:
            _stats = descendants.popleft()
        except IndexError:
            return
        if not spreader:
            yield _stats
            descendants.extend(_stats)
            continue
        spread.flag = False
        yield (_stats, spread)
        if spread.flag:
            descendants.extend(_stats)
'''))
r('3 stats: ensure_child with guards',
  (ST, '''        stats = self._children.get(code)
        stat_class = adding_stat_class or type(self)
        if stats is None:
            stats = stat_class(code)
            self.add_child(code, stats)
        elif (isinstance(stats, VoidRecordingStatistics) and
              not issubclass(stat_class, VoidRecordingStatistics)):
            # a placeholder cannot record anything.
            void, stats = stats, stat_class(code)
            stats._children = void._children
            stats.deep_time = void.deep_time
            self.add_child(code, stats)
        return stats
''', '''        if adding_stat_class is None:
            adding_stat_class = self.__class__
        void = None
        if code in self:
            stats = self.get_child(code)
            if not isinstance(stats, VoidRecordingStatistics):
                return stats
            if issubclass(adding_stat_class, VoidRecordingStatistics):
                return stats
            void = stats
        stats = adding_stat_class(code)
        if void is not None:
            stats.deep_time = void.deep_time
            stats._children = void._children
        self.add_child(code, stats)
        return stats
'''))
r('3 stats: flatten with defaultdict-like class',
  (ST, '''        flat_children = {}
        for _stats in spread_stats(stats):
            key = (_stats.name, _stats.filename, _stats.lineno, _stats.module)
            try:
                flat_stats = flat_children[key]
            except KeyError:
                flat_stats = flat_children[key] = cls(*key)
            flat_stats.own_hits += _stats.own_hits
            flat_stats.deep_hits += _stats.deep_hits
            flat_stats.own_time += _stats.own_time
            flat_stats.deep_time += _stats.deep_time
        children = list(itervalues(flat_children))
''', '''        flat_children = {}
        children = []
        for _stats in spread_stats(stats):
            key = (_stats.name, _stats.filename, _stats.lineno, _stats.module)
            flat_stats = flat_children.get(key)
            if flat_stats is None:
                flat_stats = cls(*key)
                flat_children[key] = flat_stats
                children.append(flat_stats)
            for attr in ('own_hits', 'deep_hits', 'own_time', 'deep_time'):
                total = getattr(flat_stats, attr) + getattr(_stats, attr)
                setattr(flat_stats, attr, total)
'''))
r('3 stats: freeze by recursion-free helper',
  (ST, '''    tree, stats_tree = [], [(None, stats)]
    for x in itertools.count():
        try:
            parent_offset, _stats = stats_tree[x]
        except IndexError:
            break
        stats_tree.extend((x, s) for s in _stats)
        members = (_stats.name, _stats.filename, _stats.lineno,
                   _stats.module, _stats.own_hits, _stats.deep_time)
        tree.append((parent_offset, members))
    return tree
''', '''    tree = []
    queue = deque([(None, stats)])
    while queue:
        parent_offset, _stats = queue.popleft()
        offset = len(tree)
        tree.append((parent_offset, frozen_members(_stats)))
        for child in _stats:
            queue.append((offset, child))
    return tree


def frozen_members(stats):
    attrs = FrozenStatistics.__slots__[:-1]
    return tuple(getattr(stats, attr) for attr in attrs)
'''))
r('3 stats: thaw with two passes',
  (ST, '''    stats_index = []
    for parent_offset, members in tree:
        stats = FrozenStatistics(*members)
        stats_index.append(stats)
        if parent_offset is not None:
            stats_index[parent_offset].children.append(stats)
    return stats_index[0]
''', '''    stats_index = [FrozenStatistics(*members) for __, members in tree]
    for (parent_offset, __), stats in zip(tree, stats_index):
        if parent_offset is None:
            continue
        stats_index[parent_offset].children.append(stats)
    root = stats_index[0]
    return root
'''))
r('3 stats: deep_hits by a loop',
  (ST, '''        hits = [self.own_hits]
        hits.extend(stats.own_hits for stats in spread_stats(self))
        return sum(hits)
''', '''        total = self.own_hits
        queue = deque(self)
        while queue:
            stats = queue.popleft()
            total += stats.own_hits
            queue.extend(stats)
        return total
'''))
r('3 stats: names by getattr of the code',
  (ST, '''    @property
    def filename(self):
        return self.code and self.code.co_filename

    @property
    def lineno(self):
        return self.code and self.code.co_firstlineno

    @property
    def module(self):
        if self.code is None:
            return
        module = inspect.getmodule(self.code)
        if not module:
            return
        return module.__name__
''', '''    @property
    def filename(self):
        if self.code is None:
            return None
        return self.code.co_filename

    @property
    def lineno(self):
        return None if self.code is None else self.code.co_firstlineno

    @property
    def module(self):
        module = None
        if self.code is not None:
            module = inspect.getmodule(self.code)
        return module.__name__ if module else None
'''))
r('3 utils: deferral stack reversed',
  (U, '''    deferred = []
    defer = lambda f, *a, **k: deferred.append((f, a, k))
    def call_deferred():
        while deferred:
            f, a, k = deferred.pop()
            try:
                f(*a, **k)
            except:
                # call the others even so.
                call_deferred()
                raise
    try:
        yield defer
    finally:
        call_deferred()
''', '''    deferred = deque()

    def defer(f, *args, **kwargs):
        deferred.appendleft(functools.partial(f, *args, **kwargs))

    def call_deferred():
        if not deferred:
            return
        f = deferred.popleft()
        try:
            f()
        finally:
            call_deferred()
    try:
        yield defer
    finally:
        call_deferred()
'''), (U, 'import sys\n', 'import functools\nimport sys\n'))
r('3 utils: frame_stack built forwards',
  (U, '''        frames = deque()
        while frame is not None:
            if frame is base_frame or frame.f_code is base_code:
                break
            if frame in ignored_frames or frame.f_code in ignored_codes:
                pass
            else:
                frames.appendleft(frame)
            frame = frame.f_back
        return frames
''', '''        def ignored(frame):
            return frame in ignored_frames or frame.f_code in ignored_codes
        frames = []
        while not (frame is None or frame is base_frame or
                   frame.f_code is base_code):
            if not ignored(frame):
                frames.append(frame)
            frame = frame.f_back
        frames.reverse()
        return deque(frames)
'''))
r('3 utils: running asked in one place',
  (U, '''        if not self.is_running():
            raise RuntimeError('Not started')
        running, self._running = self._running, None
        try:
            next(running)
        except StopIteration:
            # expected.
            pass
        else:
            raise TypeError('run() must yield just one time')
''', '''        running = self._running
        if running is None:
            raise RuntimeError('Not started')
        self._running = None
        for __ in running:
            raise TypeError('run() must yield just one time')
'''))
r('3 profiler: elapsed in one function',
  (P, '''        try:
            cpu_time = max(0, time.clock() - self._cpu_time_started)
            wall_time = max(0, time.time() - self._wall_time_started)
        except AttributeError:
            cpu_time = wall_time = 0.0
        return self.stats, cpu_time, wall_time
''', '''        if not hasattr(self, '_cpu_time_started'):
            return self.stats, 0.0, 0.0
        cpu_time = elapsed(time.clock, self._cpu_time_started)
        wall_time = elapsed(time.time, self._wall_time_started)
        return self.stats, cpu_time, wall_time
'''),
  (P, '''class Profiler(Runnable):
''', '''def elapsed(clock, since):
    now = clock()
    if now < since:
        return 0
    return now - since


class Profiler(Runnable):
'''))
r('3 tracing: timing by a helper generator',
  (T, '''        time1 = self.timer()
        frames''', '''        timer = self.timer
        time1 = timer()
        frames'''),
  (T, '''        time2 = self.timer()
        self.overhead += time2 - time1
        if event == 'call':
            time = time2 - self.overhead
            self.record_entering(time, code, frame_key, parent_stats)
        elif event == 'return':
            # the time until time2 is in the overhead already.
            time = time2 - self.overhead
            self.record_leaving(time, code, frame_key, parent_stats)
        time3 = self.timer()
        self.overhead += time3 - time2
''', '''        record = {'call': self.record_entering,
                  'return': self.record_leaving}.get(event)
        time2 = timer()
        self.overhead += time2 - time1
        if record is not None:
            # the time until time2 is in the overhead already.
            record(time2 - self.overhead, code, frame_key, parent_stats)
        time3 = timer()
        self.overhead = self.overhead + time3 - time2
'''))
r('3 tracing: parent found by reduce',
  (T, '''        parent_stats = self.stats
        for f in frames:
            parent_stats = parent_stats.ensure_child(f.f_code, void)
        code = frame.f_code
''', '''        code = frame.f_code
        parent_stats = functools.reduce(
            lambda stats, f: stats.ensure_child(f.f_code, void),
            frames, self.stats)
'''), (T, 'import sys\n', 'import functools\nimport sys\n'))
r('3 tracing: hook in another order',
  (T, '''        with deferral() as defer:
            self._times_entered.clear()
            self.overhead = 0.0
            sys.setprofile(self._profile)
            defer(sys.setprofile, None)
            threading.setprofile(self._profile_thread)
            defer(threading.setprofile, None)
            self.timer.start(self)
            defer(self.timer.stop)
            yield
''', '''        self._times_entered = {}
        self.overhead = 0.0
        with deferral() as defer:
            self._install(defer)
            yield

    def _install(self, defer):
        hooks = [(sys.setprofile, self._profile),
                 (threading.setprofile, self._profile_thread)]
        for setprofile, hook in hooks:
            setprofile(hook)
            defer(setprofile, None)
        self.timer.start(self)
        defer(self.timer.stop)
'''))
r('3 sampling: sample by a while',
  ('sampling/__init__.py', '''        frames = self.frame_stack(frame)
        if frames and frames[-1] is frame:
            # the frame itself may be ignored.
            frames.pop()
        parent_stats = self.stats
        for f in frames:
            parent_stats = parent_stats.ensure_child(f.f_code, void)
        stats = parent_stats.ensure_child(frame.f_code, RecordingStatistics)
        stats.own_hits += 1
''', '''        stats = self.stats
        for f in self.frame_stack(frame):
            if f is frame:
                # recorded below, even if it is ignored.
                break
            stats = stats.ensure_child(f.f_code, void)
        sampled = stats.ensure_child(frame.f_code, RecordingStatistics)
        sampled.own_hits = sampled.own_hits + 1
'''))
r('3 samplers: timer state in a helper',
  (SA, '''        with deferral() as defer:
            prev_handle = signal.signal(signal.SIGPROF, handle)
            if prev_handle == signal.SIG_DFL:
''', '''        with deferral() as defer:
            set_handler = functools.partial(signal.signal, signal.SIGPROF)
            prev_handle = set_handler(handle)
            if prev_handle == signal.SIG_DFL:
'''),
  (SA, '''            defer(signal.signal, signal.SIGPROF, prev_handle)
            prev_itimer = signal.setitimer(signal.ITIMER_PROF, t, t)
            defer(signal.setitimer, signal.ITIMER_PROF, *prev_itimer)
            yield
''', '''            defer(set_handler, prev_handle)
            set_itimer = functools.partial(signal.setitimer,
                                           signal.ITIMER_PROF)
            delay, interval = set_itimer(t, t)
            defer(set_itimer, delay, interval)
            yield
'''))
r('3 samplers: due by the next time',
  (SA, '''        sampled_at = self.sampled_times.get(thread_id, 0)
        if t < sampled_at:
            # a new thread took over the id of an ended one.
            sampled_at = 0
        if t - sampled_at < self.interval:
            return
        self.sampled_times[thread_id] = t
        profiler.sample(frame)
        self.counter += 1
        if self.counter % 10000 == 0:
            self._clear_for_dead_threads()
''', '''        times = self.sampled_times
        sampled_at = times.get(thread_id)
        if sampled_at is None or sampled_at > t:
            # a new thread, which may have taken over the id of an ended one.
            sampled_at = 0
        if t - sampled_at >= self.interval:
            times[thread_id] = t
            profiler.sample(frame)
            self.counter += 1
            if not self.counter % 10000:
                self._clear_for_dead_threads()
'''))
r('3 samplers: dead threads by difference',
  (SA, '''        living_thread_ids = set(sys._current_frames().keys())
        for thread_id in list(self.sampled_times.keys()):
            if thread_id not in living_thread_ids:
                self.sampled_times.pop(thread_id, None)
''', '''        dead = set(self.sampled_times).difference(sys._current_frames())
        for thread_id in dead:
            self.sampled_times.pop(thread_id, None)
'''))
r('3 timers: state read once',
  (TI, '''        paused_at, resumed_at = self._contextual_times.get(context, (0, 0))
        if resumed_at is None:  # paused
            return paused_at
        return paused_at + self.clock() - resumed_at
''', '''        try:
            paused_at, resumed_at = self._contextual_times[context]
        except KeyError:
            return self.clock()
        running = resumed_at is not None
        return paused_at + (self.clock() - resumed_at if running else 0)
'''))
r('3 remote: pack in one go',
  (RE, '''    dump = io.BytesIO()
    pickle.dump(msg, dump, pickle_protocol)
    size = dump.tell()
    return (struct.pack(METHOD_STRUCT_FORMAT, method) +
            struct.pack(SIZE_STRUCT_FORMAT, size) + dump.getvalue())
''', '''    with io.BytesIO() as buf:
        pickle.dump(msg, buf, pickle_protocol)
        payload = buf.getvalue()
    parts = [struct.pack(METHOD_STRUCT_FORMAT, method),
             struct.pack(SIZE_STRUCT_FORMAT, len(payload)), payload]
    return b''.join(parts)
'''))
r('3 remote: unpack helper',
  (RE, '''    data = recv(sock, struct.calcsize(METHOD_STRUCT_FORMAT))
    method, = struct.unpack(METHOD_STRUCT_FORMAT, data)
    data = recv(sock, struct.calcsize(SIZE_STRUCT_FORMAT))
    size, = struct.unpack(SIZE_STRUCT_FORMAT, data)
    data = recv(sock, size)
    msg = pickle.loads(data)
    return method, msg
''', '''    method = recv_struct(sock, METHOD_STRUCT_FORMAT)
    size = recv_struct(sock, SIZE_STRUCT_FORMAT)
    return method, pickle.loads(recv(sock, size))


def recv_struct(sock, fmt):
    s = struct.Struct(fmt)
    return s.unpack(recv(sock, s.size))[0]
'''))
r('3 remote: broadcast removes at once',
  (RE, '''            closed_clients = []
            for client in list(self.clients):
                try:
                    self._send(client, data)
                except socket.error:
                    closed_clients.append(client)
            del data
            # handle disconnections.
            for client in closed_clients:
                self.disconnected(client)
''', '''            for client in tuple(self.clients):
                self._send_or_disconnect(client, data)
            del data
'''),
  (RE, '''    def send_msg(self, client''', '''    def _send_or_disconnect(self, client, data):
        try:
            self._send(client, data)
        except socket.error:
            self.disconnected(client)

    def send_msg(self, client'''))
r('3 remote: quiet start and stop',
  (RE, '''            try:
                self.profiler.start()
            except RuntimeError:
                pass
            # should sleep.
            yield
            try:
                self.profiler.stop()
            except RuntimeError:
                pass
''', '''            self._try(self.profiler.start)
            # should sleep.
            yield
            self._try(self.profiler.stop)
'''),
  (RE, '''    def send_msg(self, client''', '''    def _try(self, f):
        try:
            f()
        except RuntimeError:
            pass

    def send_msg(self, client'''))
r('3 remote: profiler unwrapped by getattr',
  (RE, '''        profiler = self.profiler
        while True:
            try:
                profiler = profiler.profiler
            except AttributeError:
                break
''', '''        profiler = self.profiler
        while hasattr(profiler, 'profiler'):
            profiler = profiler.profiler
'''))
r('3 remote: greeting in a loop',
  (RE, '''            self.send_msg(client, WELCOME, (self.pickle_protocol, __version__),
                          pickle_protocol=0)
            self.send_msg(client, PROFILER, type(profiler))
            if self._latest_result_data is not None:
                self._send(client, self._latest_result_data)
''', '''            welcome = (self.pickle_protocol, __version__)
            messages = [
                pack_msg(WELCOME, welcome, pickle_protocol=0),
                pack_msg(PROFILER, type(profiler),
                         pickle_protocol=self.pickle_protocol)]
            if self._latest_result_data is not None:
                messages.append(self._latest_result_data)
            for data in messages:
                self._send(client, data)
'''))
r('3 select: remaining time in a helper',
  (SE, '''            except select.error as exc:
                # ignore an interrupted system call.
                if exc.args[0] != EINTR:
                    raise
            else:
                # succeeded.
                return ready
            # retry.
            if timeout is None:
                continue
            # decrease timeout.
            t2 = time.time()
            timeout -= t2 - t
            t = t2
            if timeout <= 0:
                # timed out.
                return []
''', '''            except select.error as exc:
                # ignore an interrupted system call.
                if exc.args[0] == EINTR:
                    pass
                else:
                    raise
            else:
                # succeeded.
                return ready
            if timeout is not None:
                t, timeout = self._decrease(t, timeout)
                if timeout <= 0:
                    # timed out.
                    return []

    def _decrease(self, since, timeout):
        now = time.time()
        return now, timeout - (now - since)
'''))
r('3 select: accept in a method',
  (SE, '''            if sock is self.listener:
                listener = sock
                try:
                    sock, addr = listener.accept()
                except socket.error as exc:
                    if exc.errno not in CLIENT_GONE:
                        raise
                else:
                    self.connected(sock)
            else:
''', '''            if sock is self.listener:
                client = self._accept()
                if client is not None:
                    self.connected(client)
            else:
'''),
  (SE, '''    def dispatch_sockets(self''', '''    def _accept(self):
        try:
            return self.listener.accept()[0]
        except socket.error as exc:
            if exc.errno in CLIENT_GONE:
                return None
            raise

    def dispatch_sockets(self'''))
r('3 select: clients apart from the listener',
  (SE, '''        if self.listener is None:
            return self.clients
        else:
            return self.clients.union([self.listener])
''', '''        sockets = set(self.clients)
        if self.listener is not None:
            sockets.add(self.listener)
        return sockets
'''))
r('3 asyncio: partial instead of lambda',
  (A, '''        reader, writer = client
        disconnected = lambda x: self.disconnected(client)
        ensure_future(reader.read()).add_done_callback(disconnected)
''', '''        def disconnected(future):
            self.disconnected(client)
        future = ensure_future(client[0].read())
        future.add_done_callback(disconnected)
'''))
r('3 gevent: try finally for the lock',
  (G, '''        with self.lock:
            for __ in self.profiling():
                gevent.sleep(self.interval)
''', '''        self.lock.acquire()
        try:
            for __ in self.profiling():
                gevent.sleep(self.interval)
        finally:
            self.lock.release()
'''))
r('3 background: flip by a chosen method',
  (B, '''            if self.profiler.is_running():
                self.profiler.stop()
            else:
                self.profiler.start()
''', '''            profiler = self.profiler
            flip = profiler.stop if profiler.is_running() else profiler.start
            flip()
'''))
r('3 background: default signal in the constructor',
  (B, '''    signum = signal.SIGUSR2

    def __init__(self, profiler, signum=None):
        super(BackgroundProfiler, self).__init__(profiler)
        if signum is not None:
            self.signum = signum
        self.event = threading.Event()
''', '''    signum = signal.SIGUSR2

    def __init__(self, profiler, signum=None):
        super(BackgroundProfiler, self).__init__(profiler)
        self.event = threading.Event()
        self.signum = type(self).signum if signum is None else signum
'''))
r('3 client: connect with a set of good errors',
  (C, '''        while True:
            errno = self.sock.connect_ex(self.addr)
            if not errno:
                # connected immediately.
                break
            elif errno == EINPROGRESS:
                # will be connected.
                break
            elif errno in UNAVAILABLE:
                # no such socket file, no server listens there, the server is
                # too busy to accept, or it cannot be reached for now.
                self.sock.close()
                self.create_connection(self.failover_interval)
                return
            else:
                raise ValueError('Unexpected socket errno: %d' % errno)
        self.event_loop.watch_file(self.sock.fileno(), self.handle)
''', '''        errno = self.sock.connect_ex(self.addr)
        if errno in UNAVAILABLE:
            # no such socket file, no server listens there, the server is
            # too busy to accept, or it cannot be reached for now.
            self._reconnect(self.failover_interval)
        elif errno in (0, EINPROGRESS):
            # connected, or will be connected.
            super(FailoverProfilingClient, self).start()
        else:
            raise ValueError('Unexpected socket errno: %d' % errno)

    def _reconnect(self, delay):
        self.sock.close()
        self.create_connection(delay)
'''),
  (C, '''        self.sock.close()
        # try to reconnect.
        delay = self.failover_interval if errno == ECONNREFUSED else 0
        self.create_connection(delay)
''', '''        # try to reconnect.
        self._reconnect({ECONNREFUSED: self.failover_interval}.get(errno, 0))
'''))
r('3 client: handle with else',
  (C, '''            method, msg = recv_msg(self.sock)
        except socket.error as exc:
            self.erred(exc.errno)
            return
        self.protocol(method, msg, self)
''', '''            received = recv_msg(self.sock)
        except socket.error as exc:
            self.erred(exc.errno)
        else:
            method, msg = received
            self.protocol(method, msg, self)
'''))
r('3 client: result handled with keywords',
  (C, '''    stats, cpu_time, wall_time = result
    client.viewer.set_result(stats, cpu_time, wall_time,
                             client.title, datetime.now())
''', '''    client.viewer.set_result(*result, title=client.title, at=datetime.now())
'''))
r('3 viewer: percent by a loop',
  (V, '''        if round(ratio, 2) >= 1:
            precision = 0
        elif round(ratio, 2) >= 0.1:
            precision = 1
        else:
            precision = 2
        string = ('{:.' + str(precision) + 'f}').format(ratio * 100)
        if unit:
            return string + '%'
        else:
            return string
''', '''        rounded = round(ratio, 2)
        precision = 2
        for limit in (0.1, 1):
            if rounded >= limit:
                precision -= 1
        string = '{0:.{1}f}'.format(ratio * 100, precision)
        return string + ('%' if unit else '')
'''))
r('3 viewer: int with a loop over the units',
  (V, '''        unit = None
        unit_iter = iter(units)
        while abs(round(num, 1)) >= 1e3:
            num /= 1e3
            try:
                unit = next(unit_iter)
            except StopIteration:
                # overflow or underflow.
                return 'o/f' if num > 0 else 'u/f'
        if unit is None:
            return '{:.0f}'.format(num)
        else:
            return '{:.1f}{}'.format(num, unit)
''', '''        if abs(round(num, 1)) < 1e3:
            return '{:.0f}'.format(num)
        for unit in units:
            num /= 1e3
            if abs(round(num, 1)) < 1e3:
                return '{:.1f}{}'.format(num, unit)
        # overflow or underflow.
        if num > 0:
            return 'o/f'
        return 'u/f'
'''))
r('3 viewer: markup of stats by parts',
  (V, '''        if stats.name:
            loc = ('({0}:{1})'
                   ''.format(stats.module or stats.filename, stats.lineno))
            return [('name', stats.name), ' ', ('loc', loc)]
        else:
            return ('loc', stats.module or stats.filename)
''', '''        place = stats.module or stats.filename
        if not stats.name:
            return ('loc', place)
        markup = [('name', stats.name), ' ']
        markup.append(('loc', '(%s:%s)' % (place, stats.lineno)))
        return markup
'''))
r('3 viewer: expanded without a property of two names',
  (V, '''        in_init = not hasattr(self, 'expanded')
        self._expanded = expanded
        if in_init:
            return
        if expanded:
            urwid.emit_signal(self, 'expanded')
        else:
            urwid.emit_signal(self, 'collapsed')
''', '''        in_init = '_expanded' not in self.__dict__
        self._expanded = expanded
        if not in_init:
            name = 'expanded' if expanded else 'collapsed'
            urwid.emit_signal(self, name)
'''))
r('3 viewer: keys of the widget by a table',
  (V, '''        command = self._command_map[key]
        if command == urwid.ACTIVATE:
            key = '-' if self.expanded else '+'
        elif command == urwid.CURSOR_RIGHT:
            key = '+'
        elif self.expanded and command == urwid.CURSOR_LEFT:
            key = '-'
        return super''', '''        opened = self.expanded
        keys = {urwid.ACTIVATE: '-' if opened else '+',
                urwid.CURSOR_RIGHT: '+'}
        if opened:
            keys[urwid.CURSOR_LEFT] = '-'
        key = keys.get(self._command_map[key], key)
        return super'''))
r('3 viewer: refresh by steps',
  (V, '''        stats = self.get_stats()
        if stats is None:
            return
        if self.layout == FLAT:
            stats = FlatFrozenStatistics.flatten(stats)
        node = StatisticsNode(stats, table=self)
        path = self.get_path()
        node = self.find_node(node, path)
        self.set_focus(node)
''', '''        root = self._make_root()
        if root is not None:
            self.set_focus(self.find_node(root, self.get_path()))

    def _make_root(self):
        stats = self.get_stats()
        if stats is None:
            return None
        if self.layout == FLAT:
            stats = FlatFrozenStatistics.flatten(stats)
        return StatisticsNode(stats, table=self)
'''))
r('3 viewer: find_node by dictionaries',
  (V, '''        for hash_value in path:
            if isinstance(node, LeafStatisticsNode):
                break
            for stats in node.get_child_keys():
                if hash(stats) == hash_value:
                    node = node.get_child_node(stats)
                    break
            else:
                break
        return node
''', '''        for hash_value in path:
            if isinstance(node, LeafStatisticsNode):
                return node
            found = [stats for stats in node.get_child_keys()
                     if hash(stats) == hash_value]
            if not found:
                return node
            node = node.get_child_node(found[0])
        return node
'''))
r('3 viewer: states as properties of the table',
  (V, '''        if self.viewer.paused:
            thead_attr = 'thead.paused'
        elif not self.viewer.active:
            thead_attr = 'thead.inactive'
        else:
            thead_attr = 'thead'
''', '''        thead_attr = 'thead'
        if self.viewer.paused:
            thead_attr += '.paused'
        elif not self.viewer.active:
            thead_attr += '.inactive'
'''))
r('3 viewer: result as a property',
  (V, '''        try:
            if self.paused:
                result = self._paused_result
            else:
                result = self._final_result
        except AttributeError:
            self.table.update_frame()
            return
        stats, cpu_time, wall_time, title, at = result
        self.table.set_result(stats, cpu_time, wall_time, title, at)
''', '''        name = '_paused_result' if self.paused else '_final_result'
        result = getattr(self, name, None)
        if result is None:
            self.table.update_frame()
        else:
            self.table.set_result(*result)
'''))
r('3 viewer: moves in methods',
  (V, '''            widget, node = self.tbody.get_focus()
            if not widget.expanded:
                parent_node = node.get_parent()
                if parent_node is not None and not parent_node.is_root():
                    self.tbody.change_focus(size, parent_node)
                return True
''', '''            if self._focus_parent(size):
                return True
'''),
  (V, '''    def defocus(self):''', '''    def _focus_parent(self, size):
        widget, node = self.tbody.get_focus()
        if widget.expanded:
            return False
        parent_node = node.get_parent()
        if parent_node is None or parent_node.is_root():
            return True
        self.tbody.change_focus(size, parent_node)
        return True

    def defocus(self):'''))
r('3 viewer: toggles',
  (V, '''            layout = {FLAT: NESTED, NESTED: FLAT}[self.layout]
            self.set_layout(layout)
            return True
''', '''            self.set_layout(NESTED if self.layout == FLAT else FLAT)
            return True
'''),
  (V, '''            if self.viewer.paused:
                self.viewer.resume()
            else:
                self.viewer.pause()
            return True
''', '''            viewer = self.viewer
            (viewer.resume if viewer.paused else viewer.pause)()
            return True
'''))
r('3 cli: profile with finally',
  (M, '''    try:
        exec_(code, globals_)
    except BaseException:
        # don't profile print_exc().
        profiler.stop()
        traceback.print_exc()
    else:
        profiler.stop()
''', '''    exc_info = None
    try:
        exec_(code, globals_)
    except BaseException:
        exc_info = sys.exc_info()
    # don't profile print_exception().
    profiler.stop()
    if exc_info is not None:
        traceback.print_exception(*exc_info)
'''))
r('3 cli: discard in a loop',
  (M, '''    profiler.stats.discard_child(frame.f_code)
    profiler.stats.discard_child(profiler.start.__code__)
    profiler.stats.discard_child(profiler.stop.__code__)
''', '''    for hidden in (frame.f_code, profiler.start.__code__,
                   profiler.stop.__code__):
        profiler.stats.discard_child(hidden)
'''))
r('3 cli: children of live profile in functions',
  (M, '''        # mute stdin, stdout.
        devnull = os.open(os.devnull, os.O_RDWR)
        for f in [sys.stdin, sys.stdout]:
            os.dup2(devnull, f.fileno())
        # redirect stderr to parent.
        os.dup2(stderr_w_fd, sys.stderr.fileno())
''', '''        redirect_output(stderr_w_fd)
'''),
  (M, '''@cli.command('live-profile',''', '''def redirect_output(stderr_fd):
    devnull = os.open(os.devnull, os.O_RDWR)
    targets = [(sys.stdin, devnull), (sys.stdout, devnull),
               (sys.stderr, stderr_fd)]
    for stream, fd in targets:
        os.dup2(fd, stream.fileno())


@cli.command('live-profile','''))
r('3 cli: exit status by one expression',
  (M, '''        w_pid, status = os.waitpid(pid, os.WNOHANG)
        if w_pid == 0:
            os.kill(pid, signal.SIGTERM)
        if os.WIFSIGNALED(status):
            # killed by a signal, like shells.
            exit_code = 128 + os.WTERMSIG(status)
        else:
            exit_code = os.WEXITSTATUS(status)
''', '''        w_pid, status = os.waitpid(pid, os.WNOHANG)
        if not w_pid:
            os.kill(pid, signal.SIGTERM)
        killed = os.WIFSIGNALED(status)
        # killed by a signal, like shells.
        exit_code = (128 + os.WTERMSIG(status) if killed else
                     os.WEXITSTATUS(status))
'''))
r('3 cli: script read before compiling',
  (M, '''        with super(Script, self).convert(value, param, ctx) as f:
            filename = f.name
            code = compile(f.read(), filename, 'exec')
            globals_ = {'__file__': filename, '__name__': '__main__',
                        '__package__': None, '__doc__': None}
        return (filename, code, globals_)
''', '''        with super(Script, self).convert(value, param, ctx) as f:
            filename = f.name
            source = f.read()
        globals_ = dict(__name__='__main__', __package__=None, __doc__=None)
        globals_['__file__'] = filename
        return (filename, compile(source, filename, 'exec'), globals_)
'''))
r('3 cli: endpoint by rpartition',
  (M, '''        host, port = value.split(':')
        port = int(port)
        return (host, port)
''', '''        parts = value.split(':')
        host, port = parts
        return host, int(port)
'''))
r('3 cli: source type by early returns',
  (M, '''        src_type = False
        try:
            mode = os.stat(value).st_mode
        except OSError:
            try:
                src_name = Endpoint().convert(value, param, ctx)
            except ValueError:
                pass
            else:
                src_type = 'tcp'
        else:
            src_name = value
            if S_ISSOCK(mode):
                src_type = 'sock'
            elif S_ISREG(mode):
                src_type = 'dump'
        if not src_type:
            raise ValueError('Dump file or socket address required.')
        return (src_type, src_name)
''', '''        try:
            mode = os.stat(value).st_mode
        except OSError:
            try:
                return ('tcp', Endpoint().convert(value, param, ctx))
            except ValueError:
                mode = None
        if mode is not None:
            for src_type, test in (('sock', S_ISSOCK), ('dump', S_ISREG)):
                if test(mode):
                    return (src_type, value)
        raise ValueError('Dump file or socket address required.')
'''))
r('3 cli: options by issubclass order',
  (M, '''        if issubclass(profiler_class, TracingProfiler):
            # profiler requires timer.
            timer_class = timer_class or tracing.TIMER_CLASS
            timer = timer_class()
            profiler_kwargs = {'timer': timer}
        elif issubclass(profiler_class, SamplingProfiler):
            sampler_class = sampler_class or sampling.SAMPLER_CLASS
            sampler = sampler_class(sampling_interval)
            profiler_kwargs = {'sampler': sampler}
        else:
            profiler_kwargs = {}
''', '''        profiler_kwargs = {}
        if issubclass(profiler_class, SamplingProfiler):
            if sampler_class is None:
                sampler_class = sampling.SAMPLER_CLASS
            profiler_kwargs['sampler'] = sampler_class(sampling_interval)
        elif issubclass(profiler_class, TracingProfiler):
            # profiler requires timer.
            if timer_class is None:
                timer_class = tracing.TIMER_CLASS
            profiler_kwargs['timer'] = timer_class()
'''))
r('3 cli: config read with fallback function',
  (M, '''        config = read_config()
        if type is None and default is not None:
            # detect type from default.
            type = builtins.type(default)
        get_option = option_getter(type)
        try:
            return get_option(config, section, option)
        except (NoOptionError, NoSectionError):
            return default
    return f
''', '''        config = read_config()
        if not config.has_section(section):
            return default
        if not config.has_option(section, option):
            return default
        if type is None and default is not None:
            # detect type from default.
            type = builtins.type(default)
        return option_getter(type)(config, section, option)
    return f
'''))
r('3 cli: view by functions',
  (M, '''    elif src_type in ('tcp', 'sock'):
        family = {'tcp': socket.AF_INET, 'sock': socket.AF_UNIX}[src_type]
        client = FailoverProfilingClient(viewer, loop.event_loop,
                                         src_name, family, title=title)
        client.start()
''', '''    else:
        family = socket.AF_INET if src_type == 'tcp' else socket.AF_UNIX
        FailoverProfilingClient(viewer, loop.event_loop, addr=src_name,
                                family=family, title=title).start()
'''))
r('3 cli: timeit statement built by a function',
  (M, '''    code = compile('for _i in range(%d):\\n %s' %
                   (number, stmt.replace('\\n', '\\n ')), 'STATEMENT', 'exec')
''', '''    body = '\\n '.join(stmt.split('\\n'))
    source = 'for _i in range({0}):\\n {1}'.format(number, body)
    code = compile(source, 'STATEMENT', 'exec')
'''))
r('3 cli: timeit tries by a while',
  (M, '''            for x in range(1, 10):
                number = 10 ** x
                t = time.time()
                for y in range(number):
                    exec_(stmt, globals_)
                if time.time() - t >= 0.2:
                    break
''', '''            number = 10
            while True:
                t = time.time()
                for y in range(number):
                    exec_(stmt, globals_)
                if time.time() - t >= 0.2 or number >= 10 ** 9:
                    break
                number *= 10
'''))


def apply(edits, d):
    for f, old, new in edits:
        p = os.path.join(d, 'profiling', f)
        with open(p) as fp:
            s = fp.read()
        if s.count(old) < 1:
            return '%s: not found: %s' % (f, old[:60])
        s = s.replace(old, new, 1)
        with open(p, 'w') as fp:
            fp.write(s)
    for f in set(e[0] for e in edits):
        if f.endswith('.py'):
            with open(os.path.join(d, 'profiling', f)) as fp:
                compile(fp.read(), f, 'exec')
    return None


def check(d, p):
    x = subprocess.run(['timeout', '900', sys.executable, 'check.py', p],
                       cwd=HERE, env=dict(os.environ, VERIF_REPO=d),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       universal_newlines=True)
    return p, x.returncode, x.stdout


#: The properties about a file.
NEAR = (
    ('tracing/__init__', 'C01 C02 C03 C05 C06 C07 C11 C29 C33 C42'),
    ('tracing/timers', 'C01 C02 C03 C38 C47'),
    ('sampling/', 'C01 C02 C03 C05 C08 C29 C33 C39 C42 C48'),
    ('stats', 'C06 C08 C09 C12 C13 C14 C15 C16 C31 C44 C49'),
    ('sortkeys', 'C15 C16 C29 C31'),
    ('utils', 'C01 C02 C03 C04 C09 C10 C24 C38 C39 C47'),
    ('profiler', 'C01 C02 C05 C09 C10 C11 C26 C32 C40'),
    ('remote/', 'C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C33 C36 C37 '
     'C42 C52 C54'),
    ('viewer', 'C15 C24 C28 C29 C30 C31 C32 C41 C43 C44 C49'),
    ('__main__', 'C27 C33 C34 C35 C36 C37 C40 C41 C45 C46 '
     'C54 C55'))


def near(edits):
    return sorted(set(p for e in edits for f, ps in NEAR
                      if e[0].startswith(f) for p in ps.split()))


def main():
    sys.path.insert(0, HERE)
    from sa import core, rules  # noqa
    args = sys.argv[1:]
    props = sorted(core.RULES)
    only_near = args[:1] == ['--near']
    if only_near:
        args = args[1:]
    if args[:1] == ['-p']:
        props = args[1].split()
        args = args[2:]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for name, edits in R:
            if args and not any(a in name for a in args):
                continue
            d = tempfile.mkdtemp(prefix='refactor')
            try:
                shutil.copytree(os.path.join(REPO, 'profiling'),
                                os.path.join(d, 'profiling'))
                why = apply(edits, d)
                if why:
                    print('?? %s: %s' % (name, why))
                    bad += 1
                    continue
                loud, undec = [], []
                for p, rc, out in ex.map(lambda p: check(d, p), (
                        only_near and near(edits)) or props):
                    if rc:
                        bad += 1
                        loud.append((p, rc, [x for x in out.splitlines() if
                                             'VIOLATION' not in x][:3]))
                    n = out.count('UNDECIDED')
                    if n:
                        undec.append((p, n, [x for x in out.splitlines() if
                                             'UNDECIDED' in x][0]))
                print('%s %s' % ('LOUD' if loud else 'ok  ', name))
                for p, rc, lines in loud:
                    print('     %s exits %d: %s' % (p, rc, '\n          '
                                                    .join(lines)[:600]))
                for p, n, line in undec:
                    print('     %s: %s' % (p, line[:260]))
                sys.stdout.flush()
            finally:
                shutil.rmtree(d)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
