"""What runs inside a simulated process: simulated process pool, workload functions, commands on ocelot's public API."""
import asyncio
import ctypes
import dis
import functools
import gc
import hashlib
import json
import locale
import logging
import os
import pickle
import random
import re
import resource
import signal
import sys
import sysconfig
import time
import traceback
import weakref

import gen

LIB = ctypes.CDLL(None)
LIB.dst_call.restype = ctypes.c_long
LIB.dst_call.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_long]
LIB.dst_arm.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_void_p, ctypes.c_uint64]
LIB.dst_child.argtypes = [ctypes.c_int, ctypes.c_uint64]
_buf = ctypes.create_string_buffer(1 << 15)
CTX = {}
POOLS = weakref.WeakSet()
ATEXIT = []                 # what ocelot registered to be done when the interpreter exits
PENDING = {}                # thread pools with tasks that were not run yet


def call(op, arg=""):
    n = LIB.dst_call(op.encode(), str(arg).encode("utf-8", "surrogateescape"), _buf, len(_buf))
    return _buf.raw[:n].decode()


def mark(text):
    call("mark", text)


class quiet_io:
    """File operations of the harness itself, invisible to the simulator."""
    def __enter__(self):
        LIB.dst_pause(1)

    def __exit__(self, *a):
        LIB.dst_pause(0)


def spool(name):
    return os.path.join(CTX["spool"], name)


def put(name, obj):
    LIB.dst_pause(1)
    try:
        with open(spool(name), "wb") as f:
            pickle.dump(obj, f, protocol=4)
    finally:
        LIB.dst_pause(0)


def get(name):
    LIB.dst_pause(1)
    try:
        with open(spool(name), "rb") as f:
            return pickle.load(f)
    finally:
        LIB.dst_pause(0)


# ---- process pool ----------------------------------------------------------------------------------------------------
class MaybeEncodingError(Exception):
    pass


class AsyncResult:
    """Result of tasks of a pool; callbacks run when the pool's owner next looks, in the order the tasks finished."""

    def __init__(self, pool, ids, finish, callback=None, error_callback=None):
        self.pool, self.ids, self.finish = pool, ids, finish
        self._done = None
        self.cb, self.ecb = callback, error_callback
        self.left = set(ids)
        if (callback or error_callback) and ids:
            pool._watch.append(self)

    def _collect(self):
        if self._done is None:
            self.pool._wait_all(self.ids)
            self._settle()
        return self._done

    def _settle(self):
        if self._done is None:
            if self in self.pool._watch:
                self.pool._watch.remove(self)
            outs = [self.pool._result(i) for i in self.ids]
            err = next((v for ok, v in outs if not ok), None)
            self._done = (False, err) if err is not None else (True, self.finish([v for ok, v in outs]))
            if self._done[0] and self.cb:
                self.cb(self._done[1])
            elif not self._done[0] and self.ecb:
                self.ecb(self._done[1])

    def get(self, timeout=None):
        ok, v = self._collect()
        if not ok:
            raise v
        return v

    def wait(self, timeout=None):
        self._collect()

    def ready(self):
        self._collect()          # whoever polls is slow enough to find it ready
        return True

    def successful(self):
        return self._collect()[0]


class SimPool:
    """multiprocessing.Pool with really forked workers whose task assignment the simulator decides."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        n = processes or CTX["cpus"]
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        n = min(n, CTX["cpus"])
        CTX["pools"] = CTX.get("pools", 0) + 1
        self.id = "%s.p%d" % (CTX["nid"], CTX["pools"])
        self._n = n
        self._tasks = 0
        self._state = "run"
        self._pids = []
        self._watch = []
        POOLS.add(self)
        sys.stdout.flush()
        for _ in range(n):
            name, wid, seed = json.loads(call("pool.fork", self.id))
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    fd = LIB.dst_connect(name.encode())
                    LIB.dst_child(fd, seed)
                    LIB.dst_setpid(CTX["pid"] * 100 + int(wid.rsplit("w", 1)[1]) + 1)
                    CTX["nid"] = wid
                    disarm()
                    self._worker(initializer, initargs)
                except BaseException:
                    code = 1
                    if CTX.get("debug"):
                        traceback.print_exc(file=sys.__stderr__)
                finally:
                    os._exit(code)
            self._pids.append(pid)

    def _worker(self, initializer, initargs):
        if initializer:
            initializer(*initargs)
        while True:
            i = call("pool.take", self.id)
            if i == "-1":
                return
            try:
                func, args = get("%s.task%s" % (self.id, i))
                out = (True, func(*args))
            except Exception as e:
                out = (False, e)
            try:
                put("%s.res%s" % (self.id, i), out)
                get("%s.res%s" % (self.id, i))
            except Exception as e:
                put("%s.res%s" % (self.id, i), (False, MaybeEncodingError(repr(e))))
            call("pool.done", "%s %s" % (self.id, i))

    def _check(self):
        if self._state != "run":
            raise ValueError("Pool not running")

    def _submit(self, func, arglists):
        self._check()
        ids = []
        for args in arglists:
            put("%s.task%d" % (self.id, self._tasks), (func, args))
            ids.append(str(self._tasks))
            self._tasks += 1
        if ids:
            call("pool.submit", "%s %s" % (self.id, ",".join(ids)))
        return ids

    def _ready(self, ids):
        """Waits until at least one of these tasks is done; those that are, in the order in which they were done."""
        got = call("pool.wait", "%s %s" % (self.id, ",".join(ids)))
        return [x for x in got.split(",") if x]

    def _wait(self, ids):
        while True:
            got = self._ready(list(dict.fromkeys(list(ids) + [i for r in self._watch for i in sorted(r.left, key=int)])))
            for i in got:
                for r in list(self._watch):
                    r.left.discard(i)
                    if not r.left:
                        r._settle()
            mine = [i for i in got if i in ids]
            if mine or not ids:
                return mine

    def _wait_all(self, ids):
        left = list(ids)
        while left:
            for i in self._wait(left):
                left.remove(i)

    def _result(self, i):
        return get("%s.res%s" % (self.id, i))

    @staticmethod
    def _mapchunk(func, chunk):
        return [func(x) for x in chunk]

    @staticmethod
    def _starchunk(func, chunk):
        return [func(*x) for x in chunk]

    def _chunks(self, iterable, chunksize):
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._n * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        return [items[i:i + chunksize] for i in range(0, len(items), chunksize)]

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        ids = self._submit(SimPool._mapchunk, [(func, c) for c in self._chunks(iterable, chunksize)])
        return AsyncResult(self, ids, lambda outs: [x for o in outs for x in o], callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        ids = self._submit(SimPool._starchunk, [(func, c) for c in self._chunks(iterable, chunksize)])
        return AsyncResult(self, ids, lambda outs: [x for o in outs for x in o], callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        ids = self._submit(functools.partial(func, **kwds) if kwds else func, [tuple(args)])
        return AsyncResult(self, ids, lambda outs: outs[0], callback, error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        ids = self._submit(SimPool._mapchunk, [(func, c) for c in self._chunks(iterable, chunksize)])

        def it():
            for i in ids:
                self._wait_all([i])
                ok, v = self._result(i)
                if not ok:
                    raise v
                yield from v
        return it()

    def imap_unordered(self, func, iterable, chunksize=1):
        ids = self._submit(SimPool._mapchunk, [(func, c) for c in self._chunks(iterable, chunksize)])

        def it():
            left = list(ids)
            while left:
                for i in self._wait(left):
                    left.remove(i)
                    ok, v = self._result(i)
                    if not ok:
                        raise v
                    yield from v
        return it()

    def close(self):
        if self._state == "run":
            self._state = "close"
            call("pool.close", self.id)

    def _reap(self):
        for p in self._pids:
            try:
                os.waitpid(p, 0)
            except ChildProcessError:
                pass
        self._pids = []

    def terminate(self):
        if self._state != "dead":
            self._state = "dead"
            call("pool.kill", self.id)
            self._reap()

    def join(self):
        if self._state == "run":
            raise ValueError("Pool is still running")
        if self._state == "close":
            while self._watch:
                self._wait(())
            call("pool.join", self.id)
            self._reap()

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()


def patch_multiprocessing():
    import concurrent.futures
    import concurrent.futures.process
    import concurrent.futures.thread
    import multiprocessing
    import multiprocessing.context
    import multiprocessing.pool
    real_pool = multiprocessing.pool.Pool

    def pool(self=None, *a, **kw):
        return SimPool(*a, **kw)

    multiprocessing.pool.Pool = SimPool
    multiprocessing.context.BaseContext.Pool = pool
    multiprocessing.Pool = SimPool

    class SimThreadPool(SimPool):
        """The tasks of a thread pool run in the calling thread: at once, or later when it looks for results."""
        def __init__(self, processes=None, initializer=None, initargs=()):
            if initializer:
                initializer(*initargs)
            self._n = processes or CTX.get("cpus", 1); self._state = "run"; self._pids = []; self._r = {}; self._tasks = 0
            self._todo = []; self._order = []; self._watch = []
            self.id = "thread"
            self._pid = None

        def _submit(self, func, arglists):
            self._check()
            if self._pid != CTX.get("nid"):         # may have been created on import
                self._pid = CTX.get("nid")
                CTX["tpools"] = CTX.get("tpools", 0) + 1
                self._rng = random.Random("%s %s" % (CTX.get("thr", 0), CTX["tpools"]))
                self._lazy = self._rng.choice([0, 0, 0.5, 1])
            ids = []
            for args in arglists:
                i = str(self._tasks); self._tasks += 1
                ids.append(i)
                self._todo.append((i, func, args))
                PENDING[id(self)] = self
                if self._rng.random() >= self._lazy:
                    self._run()
            return ids

        def _run(self, upto=None):
            while self._todo and (upto is None or not any(i in self._r for i in upto)):
                i, func, args = self._todo.pop(self._rng.randrange(min(self._n, len(self._todo))))
                try:
                    self._r[i] = (True, func(*args))
                except Exception as e:
                    self._r[i] = (False, e)
                self._order.append(i)
            if not self._todo:
                PENDING.pop(id(self), None)

        def _ready(self, ids):
            self._run(ids)
            return [i for i in self._order if i in ids]

        def _result(self, i):
            return self._r[i]

        def close(self):
            self._state = "close"

        def terminate(self):
            self._state = "dead"
            self._todo = []
            PENDING.pop(id(self), None)

        def join(self):
            self._run()
            while self._watch:
                self._wait(())

    multiprocessing.pool.ThreadPool = SimThreadPool
    base = concurrent.futures._base

    class SimFuture(base.Future):
        def _pump(self):
            while not super().done() and not self._sim._pool._state == "dead":
                self._sim._some([self])

        def result(self, timeout=None):
            self._pump()
            return super().result(timeout)

        def exception(self, timeout=None):
            self._pump()
            return super().exception(timeout)

        def done(self):
            self._pump()
            return True

    class SimExecutor(base.Executor):
        threads = False

        def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), thread_name_prefix="", max_tasks_per_child=None):
            if self.threads and not isinstance(mp_context, (str, type(None))):
                initializer, initargs = mp_context, ()
            cls = SimThreadPool if self.threads else SimPool
            self._pool = cls(max_workers, initializer, initargs)
            self._futures = {}

        def submit(self, fn, /, *args, **kw):
            if self._pool._state != "run":
                raise RuntimeError("cannot schedule new futures after shutdown")
            f = SimFuture()
            f._sim = self
            f.set_running_or_notify_cancel()
            f._id, = self._pool._submit(functools.partial(fn, **kw) if kw else fn, [args])
            self._futures[f._id] = f
            if self.threads and f._id in self._pool._r:
                self._some([f])
            elif asyncio._get_running_loop():      # its loop would wait for somebody else to settle it
                while f._id in self._futures:
                    self._some([f])
            return f

        def _some(self, fs):
            """Waits until one of these futures is done and settles those that are."""
            ids = [f._id for f in fs if f._id in self._futures]
            out = []
            for i in self._pool._wait(ids) if ids else ():
                f = self._futures.pop(i)
                ok, v = self._pool._result(i)
                f.set_result(v) if ok else f.set_exception(v)
                out.append(f)
            return out

        def map(self, fn, *its, timeout=None, chunksize=1):
            return self._pool.imap(SimStar(fn), list(zip(*its)), chunksize)

        def shutdown(self, wait=True, cancel_futures=False):
            if self._pool._state == "run":
                while self._futures and not cancel_futures:
                    self._some(list(self._futures.values()))
                if self.threads and not cancel_futures:
                    self._pool._run()
                self._pool.terminate()

        def __exit__(self, *a):
            self.shutdown()
            return False

    def settle(fs):
        """Yields the futures as they are done."""
        left = list(dict.fromkeys(fs))
        for f in [f for f in left if f._state in ("FINISHED", "CANCELLED_AND_NOTIFIED")]:
            left.remove(f)
            yield f
        while left:
            for f in left[0]._sim._some([f for f in left if f._sim is left[0]._sim]):
                left.remove(f)
                yield f

    def wait(fs, timeout=None, return_when=base.ALL_COMPLETED):
        fs, done = set(fs), set()
        for f in settle(sorted(fs, key=lambda f: int(f._id))):
            done.add(f)
            if return_when == base.FIRST_COMPLETED or return_when == base.FIRST_EXCEPTION and f._exception:
                break
        return base.DoneAndNotDoneFutures(done, fs - done)

    for m in (concurrent.futures, base):
        m.as_completed = lambda fs, timeout=None: settle(fs)
        m.wait = wait

    class SimThreadExecutor(SimExecutor):
        threads = True

    for m in (concurrent.futures, concurrent.futures.process):
        m.ProcessPoolExecutor = SimExecutor
    for m in (concurrent.futures, concurrent.futures.thread):
        m.ThreadPoolExecutor = SimThreadExecutor
    cpu = lambda *a: CTX.get("cpus", 2)
    multiprocessing.cpu_count = cpu
    multiprocessing.context.BaseContext.cpu_count = cpu
    os.cpu_count = cpu
    if hasattr(os, "sched_getaffinity"):
        os.sched_getaffinity = lambda pid: set(range(CTX.get("cpus", 2)))
    import webbrowser
    for name in ("open", "open_new", "open_new_tab"):
        setattr(webbrowser, name, lambda url, *a, **k: call("mark", "browser " + url) is None)


class SimStar:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, args):
        return self.fn(*args)


# ---- workload functions -------------------------------------------------------------------------------------------------
UUID = re.compile(r"\b[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}\b")


def canon(data, root=None, fresh=None):
    """Digest of a list of datasets that does not depend on object identity or the scratch directory, nor, for the real
    system models (fresh), on the identifiers they make up."""
    text = json.dumps(data, sort_keys=True, default=repr, ensure_ascii=True)
    if fresh if fresh is not None else CTX.get("fresh"):
        text = UUID.sub("UUID", text)
    return hashlib.sha1(text.replace(root or CTX["root"], "$ROOT").encode()).hexdigest()[:24]


class WorkloadError(Exception):
    pass


ERRORS = {"ValueError": ValueError, "KeyError": KeyError, "OSError": OSError, "WorkloadError": WorkloadError,
          "AssertionError": AssertionError, "StopIteration": StopIteration, "SystemExit": SystemExit, "MemoryError": MemoryError,
          "KeyboardInterrupt": KeyboardInterrupt, "RuntimeError": RuntimeError, "PermissionError": PermissionError}


def make_function(spec):
    """A transformation function as described by `spec` (JSON): changes data, logs rows, fails, yields."""
    log = logging.getLogger("ocelot")
    det = logging.getLogger("ocelot-detailed")
    uid = spec["u"]

    def body(data):
        mark("fn.begin %s %d %s" % (uid, len(data), canon(data)))
        kind = spec.get("kind", "ident")
        if kind == "inplace":
            for ds in data:
                ds.setdefault("trace", []).append(uid)
        elif kind == "copy":
            data = [dict(ds, trace=ds.get("trace", []) + [uid]) for ds in data]
        elif kind == "drop":
            data = [ds for i, ds in enumerate(data) if i % 3 != spec.get("k", 0) % 3] or data[:1]
        elif kind == "dup":
            data = data + [dict(ds, trace=ds.get("trace", []) + [uid]) for ds in data[:2]]
        elif kind == "many":
            data = data + [dict(ds, trace=ds.get("trace", []) + [uid, j]) for j in range(4 if len(data) < 60 else 0) for ds in data]
        elif kind == "grow":                    # changes the very list object it was given
            data.append({"filepath": "grown-" + uid, "trace": [uid], "exchanges": []})
        for i, row in enumerate(spec.get("rows", [])):
            mark("log.begin %s %d" % (uid, i))
            log.info({"type": "table element" if spec.get("table") else "list element", "data": row})
            mark("log.end %s %d" % (uid, i))
        for i, msg in enumerate(spec.get("detail", [])):
            mark("det.begin %s %d" % (uid, i))
            det.info({"ds": data[0] if data else {}, "message": msg, "function": spec["n"]})
            mark("det.end %s %d" % (uid, i))
        for i in range(spec.get("yields", 0)):
            mark("y")
        if spec.get("raise"):
            mark("fn.raise %s" % uid)
            raise ERRORS[spec["raise"]]("planned failure " + uid)
        mark("fn.end %s %d %s" % (uid, len(data), canon(data)))
        return data

    body.__name__ = spec["n"]
    body.__doc__ = spec.get("doc")
    if spec.get("table"):
        body.__table__ = spec["table"]
    form = spec.get("form", "plain")
    if form == "partial":
        def two(data, extra=None):
            return body(data)
        two.__name__ = spec["n"]; two.__doc__ = spec.get("doc")
        if spec.get("table"):
            two.__table__ = spec["table"]
        return functools.partial(two, extra=1)
    if form == "callable":
        class Obj:
            def __call__(self, data):
                return body(data)
        o = Obj(); o.__name__ = spec["n"]; o.__doc__ = spec.get("doc")
        o.__table__ = spec.get("table")
        return o
    if form == "wrapt":
        import wrapt

        @wrapt.decorator
        def deco(wrapped, instance, args, kwargs):
            return wrapped(*args, **kwargs)
        return deco(body)
    if form == "perds":
        from ocelot.wrapper import TransformationWrapper

        def one(ds):
            ds.setdefault("trace", []).append(uid)
            return [ds]
        one.__name__ = spec["n"]; one.__doc__ = spec.get("doc")
        if spec.get("table"):
            one.__table__ = spec["table"]
        inner = TransformationWrapper(one)

        class W(TransformationWrapper):
            def __call__(self, data):
                mark("fn.begin %s %d %s" % (uid, len(data), canon(data)))
                data = inner(data)
                mark("fn.end %s %d %s" % (uid, len(data), canon(data)))
                return data
        return W(one)
    return body


# ---- the real system models -------------------------------------------------------------------------------------------------
def flat_functions(obj):
    """The functions of a configuration in the order in which they are applied."""
    import wrapt
    from collections.abc import Iterable
    if isinstance(obj, Iterable) and not isinstance(obj, wrapt.FunctionWrapper):
        return [f for x in obj for f in flat_functions(x)]
    return [obj]


def real_functions(spec):
    import ocelot.model
    fs = flat_functions(ocelot.model.mapping[spec["real"]])
    return fs[:spec.get("upto") or len(fs)] + [f for name in spec.get("plus", []) for f in flat_functions(by_path(name))]


def by_path(name):
    import importlib
    m, f = name.rsplit(".", 1)
    return getattr(importlib.import_module(m), f)


def described(f):
    """Name, description and table of a transformation function, as documented for get_function_meta."""
    g = f.func if isinstance(f, functools.partial) else f
    return {"n": g.__name__, "doc": g.__doc__, "table": getattr(g, "__table__", None)}


class Spy:
    """A function of a real system model; tells the simulator when it starts, logs rows and ends."""
    now = None

    def __init__(self, f, i):
        d = described(f)
        self.f, self.u = f, "r%d" % i
        self.__name__, self.__doc__, self.__table__ = d["n"], d["doc"], d["table"]

    def __call__(self, data):
        u = self.u
        mark("fn.begin %s %d %s" % (u, len(data), canon(data)))
        Spy.now = u
        CTX["tap"][u] = {"rows": [], "detail": []}
        try:
            data = self.f(data)
        except Exception:
            mark("fn.raise %s" % u)
            raise
        finally:
            Spy.now = None
        mark("fn.end %s %d %s" % (u, len(data), canon(data)))
        return data


def tap(name):
    real = getattr(logging.Logger, name)

    @functools.wraps(real)
    def method(self, *a, **kw):
        msg = next((x for x in a if isinstance(x, dict)), None)
        if Spy.now is None or msg is None or self.name != "ocelot-detailed" and (self.name + ".")[:7] != "ocelot.":
            return real(self, *a, **kw)
        t = CTX["tap"][Spy.now]
        if self.name != "ocelot-detailed" and msg.get("type") in ("table element", "list element"):
            kind, out, item = "log", t["rows"], (msg["type"], json.dumps(msg.get("data"), default=repr))
        elif self.name == "ocelot-detailed":
            kind, out, item = "det", t["detail"], (msg.get("message"), msg.get("function"))
        else:
            return real(self, *a, **kw)
        out.append(item)
        mark("%s.begin %s %d" % (kind, Spy.now, len(out) - 1))
        real(self, *a, **kw)
        mark("%s.end %s %d" % (kind, Spy.now, len(out) - 1))
    setattr(logging.Logger, name, method)


def real_config(spec):
    if spec.get("byname"):
        return spec["real"]
    if "tap" not in CTX:
        for name in ("info", "warning", "error", "critical", "log"):
            tap(name)
    CTX["tap"] = {}
    return [Spy(f, i) for i, f in enumerate(real_functions(spec))]


def make_config(spec):
    from ocelot.collection import Collection
    if spec is None or isinstance(spec, str):
        return spec
    if isinstance(spec, dict) and "real" in spec:
        return real_config(spec)
    if isinstance(spec, dict) and "fns" in spec:
        return [by_path(name) for name in spec["fns"]]

    def item(x):
        if "list" in x:
            return [item(y) for y in x["list"]]
        if "tuple" in x:
            return tuple(item(y) for y in x["tuple"])
        if "coll" in x:
            return Collection(x["coll"], *[item(y) for y in x["items"]])
        return make_function(x)
    return item(spec) if not isinstance(spec, list) else [item(x) for x in spec]


# ---- interrupts at an executed line of ocelot -----------------------------------------------------------------------------
def interruptible(code, cache={}):
    """Pairs of instructions between which CPython looks for signals and whose first one raises what the handler raises.

    A signal handler runs when a function is entered, after a call and at the end of a loop body only; the exception
    must meet the same handlers at the second instruction as it would at the first."""
    got = cache.get(code)
    if got is None:
        table = [(e.start, e.end, e.target) for e in dis._parse_exception_table(code)]

        def handler(off):
            return [t for a, b, t in table if a <= off < b]
        ops = {i.offset: i.opname for i in dis.get_instructions(code)}
        got = cache[code] = (ops, handler)
    return got


def arm_line_interrupt(n, pkg):
    """Raise KeyboardInterrupt at the n-th instant at which CTRL-C could take effect in ocelot's own code; n < 0 only counts."""
    state = {"n": n, "count": 0}

    def tr(frame, event, arg):
        if not frame.f_code.co_filename.startswith(pkg):
            return None
        frame.f_trace_opcodes = True
        ops, handler = interruptible(frame.f_code)
        prev = [None]

        def step(frame, event, arg):
            if event == "opcode":
                at, was = frame.f_lasti, prev[0]
                prev[0] = at
                if was is not None and ops.get(was) in SIGNAL_POINTS and handler(was) == handler(at):
                    state["count"] += 1
                    if state["count"] - 1 == state["n"]:
                        sys.settrace(None)
                        interrupt()
            return step
        return step
    sys._getframe().f_trace_opcodes = True       # 3.12 looks for this when the trace function is set
    sys.settrace(tr)
    CTX["points"] = state
    return state


def guard(frame, pkg, cache={}):
    """The innermost handler of ocelot's code that would see an exception raised here."""
    while frame is not None:
        code = frame.f_code
        if code.co_filename.startswith(pkg):
            got = cache.get(code)
            if got is None:
                table = [(e.start, e.end, e.target) for e in dis._parse_exception_table(code)]
                ops = [(i.offset, i.opname) for i in dis.get_instructions(code)]
                names = dict(ops)
                got = cache[code] = [(a, b, t) for a, b, t in table if names.get(t) == "PUSH_EXC_INFO"]
            at = frame.f_lasti
            for a, b, t in got:
                if a <= at < b:
                    return "%s:%s:%d@%d" % (code.co_filename[len(pkg):], code.co_name, code.co_firstlineno, t)
        frame = frame.f_back
    return ""


MON = 4
HARNESS = os.path.dirname(os.path.abspath(__file__)) + os.sep
SITE = sysconfig.get_paths()["purelib"] + os.sep


def interrupt():
    """CTRL-C takes effect here: Python calls the handler that is installed."""
    call("mark", "line-interrupt")
    h = signal.getsignal(signal.SIGINT)
    if callable(h):
        h(signal.SIGINT, sys._getframe(1))


def unraisable(e):
    """Python itself drops exceptions in destructors and callbacks of weak references."""
    if isinstance(e.exc_value, KeyboardInterrupt):
        call("mark", "interrupt-dropped")


def arm_call_interrupt(point, pkg):
    """CTRL-C at the n-th time a place of ocelot's code is passed at which CTRL-C can take effect: a function
    is entered (also one of a library), or a built-in function called from it has returned.  point: [place, n]; None only counts."""
    mon = sys.monitoring
    ev = mon.events
    mon.use_tool_id(MON, "ocelot interrupts")
    seen = {}
    due, total = [], [0]

    base = point and point[0].split("^")[0]

    def hit(place, own):
        if own and (not point or place == base):
            place += "^" + guard(sys._getframe(2), pkg)
        n = seen[place] = seen.get(place, 0) + 1
        if point and point[0] == "*":                     # any place
            total[0] += 1
            n = total[0]
        elif point and place != point[0]:
            n = 0
        if point and n - 1 == point[1]:
            due.append(1)
        if due:
            f = sys._getframe(2)
            while f and not f.f_code.co_filename.startswith((pkg, HARNESS)):
                f = f.f_back
            if f and f.f_code.co_filename.startswith(pkg):          # not within the simulator's own work, but after it
                disarm_call_interrupt()
                interrupt()

    names = {}

    def where(code):
        """Name of a code object; None where CTRL-C is not to be tried."""
        f = code.co_filename
        if f.startswith(pkg):
            return "%s:%s:%d" % (f[len(pkg):], code.co_name, code.co_firstlineno)
        if f.startswith(HARNESS) or f.startswith("<frozen") or code.co_name == "__del__":
            return None
        top = f[len(SITE):].split(os.sep)[0] if f.startswith(SITE) else "std/" + os.path.basename(f) if os.path.isabs(f) else "<string>"
        if top in ("std/weakref.py", "std/threading.py", "std/gc.py"):
            return None
        return "%s|%s:%s:%d" % (top, os.path.basename(f), code.co_name, code.co_firstlineno)

    def start(code, off):
        w = names.get(code)
        if w is None:
            w = names[code] = where(code) or ""
        if not w:
            return mon.DISABLE
        hit(w, "|" not in w)

    def called(code, off, fn, arg0):
        if not code.co_filename.startswith(pkg):
            return mon.DISABLE

    def back(code, off, fn, arg0):
        if code.co_filename.startswith(pkg):
            hit("%s@%d" % (where(code), off), True)
    mon.register_callback(MON, ev.PY_START, start)
    mon.register_callback(MON, ev.CALL, called)
    mon.register_callback(MON, ev.C_RETURN, back)
    mon.set_events(MON, ev.PY_START | ev.CALL)
    CTX["points"] = {"count": seen}


def disarm_call_interrupt():
    if sys.monitoring.get_tool(MON):
        sys.monitoring.set_events(MON, 0)
        sys.monitoring.free_tool_id(MON)
        sys.monitoring.restart_events()


SIGNAL_POINTS = ("CALL", "CALL_FUNCTION_EX", "CALL_KW", "RESUME", "JUMP_BACKWARD")


# ---- what a process holds ----------------------------------------------------------------------------------------------------
def audit():
    """Everything of the process that a finished command should have given back."""
    import threading
    LIB.dst_pause(1)
    try:
        gc.collect()
        fds = []
        for fd in os.listdir("/proc/self/fd"):
            try:
                link = os.readlink("/proc/self/fd/" + fd)
            except OSError:
                continue
            if int(fd) >= 800 or link.startswith(("/proc/", CTX["spool"])):
                continue
            fds.append(os.path.relpath(link, CTX["root"]) if link.startswith(CTX["root"] + "/") else link.split("[")[0])
        mask = os.umask(0); os.umask(mask)
        import ocelot.model
        named = {k: [getattr(f, "__name__", repr(f)) for f in v] for k, v in sorted(getattr(ocelot.model, "mapping", {}).items())}
        handled = {}
        for sig in sorted(signal.valid_signals() - {signal.SIGKILL, signal.SIGSTOP}):
            handled[int(sig)] = repr(signal.getsignal(sig))
        own = {n: len(getattr(l, "handlers", ())) for n, l in sorted(logging.root.manager.loggerDict.items()) if n.startswith("ocelot")}
        return {"open files": sorted(fds), "signal handling": [handled, signal.getitimer(signal.ITIMER_REAL) != (0.0, 0.0), sorted(map(int, signal.pthread_sigmask(signal.SIG_BLOCK, [])))],
                "resource limits": [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_FSIZE, resource.RLIMIT_CPU)],
                "interpreter settings": [sys.getrecursionlimit(), gc.isenabled(), locale.setlocale(locale.LC_ALL), time.tzname, sys.excepthook is sys.__excepthook__, sys.getswitchinterval(), list(sys.path), settings_of_numpy()],
                "standard streams": [id(sys.stdin), id(sys.stdout), id(sys.stderr)], "log handlers": own, "worker processes": sorted(p.id for p in gc_pools()), "SIGINT handling": repr(signal.getsignal(signal.SIGINT)),
                "SIGTERM handling": repr(signal.getsignal(signal.SIGTERM)),
                "working directory": os.getcwd().replace(CTX["root"], "$ROOT"), "environment": sorted(os.environ.items()), "umask": mask,
                "threads": threading.active_count(), "named configurations": named, "trace": sys.gettrace() is not None,
                "logging": [logging.root.level, logging.root.manager.disable, len(logging.root.handlers)]}
    finally:
        LIB.dst_pause(0)


def settings_of_numpy():
    np = sys.modules.get("numpy")
    return sorted(np.geterr().items()) if np else None


def gc_pools():
    return [p for p in POOLS if p._state == "run"]


# ---- commands ----------------------------------------------------------------------------------------------------------------
def shape(cfg):
    """The structure and the identity of the functions of a configuration object."""
    if cfg is None or isinstance(cfg, str):
        return cfg
    from ocelot.collection import Collection
    if isinstance(cfg, (list, tuple, Collection)):
        return (type(cfg).__name__, id(cfg), [shape(x) for x in cfg])
    return id(cfg)


def do_run(c):
    import ocelot
    cfg = make_config(c.get("config"))
    was = shape(cfg)
    kw = {}
    if "use_cache" in c:
        kw["use_cache"] = c["use_cache"]
    if "save" in c:
        kw["save_strategy"] = c["save"]
    if "follow" in c:
        kw["follow"] = c["follow"]
    src = c["src"] if c.get("rel") else gen.spelled(CTX["root"], c)
    if c.get("as_path"):
        import pathlib
        src = pathlib.Path(src)
    if c.get("cli"):
        from ocelot.bin import ocelot_cli
        argv = ["ocelot-cli", "run", str(src)]
        if isinstance(cfg, str):
            argv.append(cfg)
        if not c.get("show"):
            argv.append("--noshow")
        if c.get("save") is not None:
            argv.append("--save=%s" % c["save"])
        if c.get("follow"):
            argv.append("--follow=%s" % c["follow"])
        sys.argv = argv
        arm(c)
        try:
            ocelot_cli.main()
        finally:
            disarm()
        return {}
    st = arm(c)
    try:
        od, data = ocelot.system_model(src, cfg, bool(c.get("show")), **kw)
    finally:
        disarm()
        CTX["config changed"] = shape(cfg) != was
    return {"lines": st.get("count"), "dir": os.path.relpath(od.directory, CTX["root"]), "id": od.report_id, "n": len(data),
            "canon": canon(data), "data": data if c.get("want", True) else None}


def arm(c):
    if "int_call" in c:
        arm_call_interrupt(c["int_call"], CTX["pkg"])
    elif c.get("int_line") is not None:
        return arm_line_interrupt(c["int_line"], CTX["pkg"])
    return {}


def disarm():
    sys.settrace(None)
    disarm_call_interrupt()


def do_extract(c):
    from ocelot.io import extract_directory
    src = c["src"] if c.get("rel") else gen.spelled(CTX["root"], c)
    kw = {}
    if "use_mp" in c:
        kw["use_mp"] = c["use_mp"]
    arm(c)
    try:
        data = extract_directory(src, c.get("use_cache", True), **kw)
    finally:
        disarm()
    return {"data": data}


def do_cleanup(c):
    if c.get("cli"):
        from ocelot.bin import ocelot_cli
        sys.argv = ["ocelot-cli", "cleanup"]
        ocelot_cli.main()
    else:
        from ocelot.io import cleanup_data_directory
        cleanup_data_directory()
    return {}


def captured(fn):
    """Run fn; what it printed."""
    import contextlib
    import io
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        fn()
    return {"out": buf.getvalue()}


def do_validate(c):
    src = gen.spelled(CTX["root"], c)
    if c.get("cli"):
        from ocelot.bin import ocelot_cli
        sys.argv = ["ocelot-cli", "validate", src]
        return captured(ocelot_cli.main)
    from ocelot.io import validate_directory
    return captured(lambda: validate_directory(src))


def do_xsd(c):
    src = gen.spelled(CTX["root"], c)
    schema = os.path.join(CTX["root"], c["schema"]) if c.get("schema") else None
    if c.get("cli"):
        from ocelot.bin import ocelot_cli
        sys.argv = ["ocelot-cli", "xsd", src] + ([schema] if schema else [])
        return captured(ocelot_cli.main)
    from ocelot.io import validate_directory_against_xsd
    return captured(lambda: validate_directory_against_xsd(src, schema))


def do_report(c):
    from ocelot import HTMLReport
    HTMLReport(os.path.join(CTX["root"], c["log"]), False)
    return {}


def do_sleep(c):
    import time
    time.sleep(c["s"])
    return {}


def do_log(c):
    logging.getLogger("ocelot").info({"type": "list element", "data": c["text"]})
    logging.getLogger("ocelot-detailed").info({"ds": {}, "message": c["text"], "function": "outside"})
    return {}


def do_chdir(c):
    os.chdir(os.path.join(CTX["root"], c["to"]))
    return {}


def do_yields(c):
    for i in range(c["n"]):
        mark("y")
    return {}


def do_user(c):
    call("cmd", "user %d" % CTX["cmd"])
    return {}


COMMANDS = {"user": do_user, "run": do_run, "extract": do_extract, "cleanup": do_cleanup, "validate": do_validate, "xsd": do_xsd, "report": do_report,
            "sleep": do_sleep, "log": do_log, "chdir": do_chdir, "yields": do_yields}


def outcome(fn):
    try:
        return {"st": "ok", "val": fn()}
    except KeyboardInterrupt:
        return {"st": "int"}
    except SystemExit as e:
        return {"st": "exit", "code": e.code}
    except BaseException as e:
        CTX["alive"] = sorted(p.id for p in gc_pools())     # while the caller still looks at the error
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join("%s:%s" % (os.path.basename(f.filename), f.name) for f in tb[-4:])
        return {"st": "exc", "type": type(e).__name__, "msg": str(e)[:500], "where": where,
                "mro": [k.__name__ for k in type(e).__mro__]}


def node_main(sim, spec, sock):
    import sim as simmod
    CTX.update(nid=spec["id"], thr="%s %s %s" % (sim.seed, sim.phase_no, spec["id"]), spool=sim.spool, root=sim.root, cpus=spec.get("cpus", 2), debug=False, pools=0, fresh=bool(spec.get("fresh")),
               pkg=PKG, pid=1000 + int.from_bytes(hashlib.md5(spec["id"].encode()).digest()[:2], "little"))
    signal.signal(signal.SIGINT, signal.default_int_handler)
    env = {"HOME": sim.p("home"), "XDG_DATA_HOME": sim.p("data"), "TMPDIR": sim.p("tmp"), "TZ": sim.tz}
    os.environ.update(env)
    time.tzset()
    if sim.locale:                           # what open() takes for the encoding of text files
        locale.setlocale(locale.LC_CTYPE, sim.locale)
    for k in ("OCELOT_OUTPUT", "OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):      # the last two: set for the import of numpy only
        os.environ.pop(k, None)
    for k, v in sim.env.items():
        os.environ[k] = v.replace("$ROOT", sim.root)
    for k, v in spec.get("env", {}).items():
        os.environ[k] = v.replace("$ROOT", sim.root)
    import tempfile
    tempfile.tempdir = None
    os.chdir(sim.p(spec.get("cwd", ".")))
    dn = os.open("/dev/null", os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(dn, fd)
    os.close(dn)
    if "umask" in spec:
        os.umask(spec["umask"])
    random.seed(simmod.h64(sim.seed, sim.phase_no, spec["id"], "random"))
    try:
        import numpy
        numpy.random.seed(simmod.h64(sim.seed, sim.phase_no, spec["id"], "np") % 2 ** 32)
    except ImportError:
        pass
    fd = 890
    os.dup2(sock.fileno(), fd)
    sock.close()
    LIB.dst_setpid(CTX["pid"])
    sys.unraisablehook = unraisable
    gc.freeze(); gc.enable()
    res = open(spool(spec["id"] + ".res"), "ab", buffering=0)
    rfd = 891
    os.dup2(res.fileno(), rfd); res.close()
    LIB.dst_arm(fd, sim.root.encode(), sim.quiet.encode(), simmod.PAGE_ADDR, simmod.h64(sim.seed, sim.phase_no, spec["id"], "urandom"))
    call("start")
    for i, c in enumerate(spec["cmds"]):
        out = None
        before = audit() if spec.get("audit") else None
        try:
            call("cmd", "begin %d" % i)
            CTX["cmd"] = i
            out = outcome(lambda: COMMANDS[c["do"]](c))
        except KeyboardInterrupt:
            out = out or {"st": "int"}
        if c.get("int_line") is not None or "int_call" in c:
            out["lines"] = CTX.pop("points", {}).get("count")
        if isinstance(c.get("config"), dict) and "real" in c["config"]:
            if not c["config"].get("byname"):
                out["tap"] = CTX.get("tap")
        while before is not None:
            try:
                if "data" in (out.get("val") or {}):
                    del out["val"]["data"]
                after = audit()
                after["worker processes"] = sorted(set(after["worker processes"]) | set(CTX.pop("alive", [])))
                if CTX.pop("config changed", False):
                    before["configuration given"], after["configuration given"] = "as given", "changed"
                out["audit"] = {k: (before[k], after[k]) for k in before if before[k] != after[k]}
                break
            except KeyboardInterrupt:
                continue
        written = False
        for _ in range(3):
            if written:
                break
            try:
                LIB.dst_pause(1)
                try:
                    blob = pickle.dumps(out, protocol=4)
                except KeyboardInterrupt:
                    raise
                except Exception as e:
                    blob = pickle.dumps({"st": "exc", "type": "Unpicklable", "msg": repr(e), "where": "", "mro": []}, protocol=4)
                written = True
                os.write(rfd, blob)
                if c.get("scribble") and out["st"] == "ok" and out["val"].get("data"):     # the caller changes what it was given, as transformations do
                    for ds in out["val"]["data"]:
                        ds["name"] = "scribbled"; del ds["exchanges"][:]
                    del out["val"]["data"][:1]
                LIB.dst_pause(0)
                call("cmd", "end %d %s" % (i, out["st"]))
                break
            except KeyboardInterrupt:
                continue
    if spec.get("atexit", True):
        # what a normal interpreter exit would still do for ocelot: wait for its threads, flush and close log handlers
        for f in [p.join for p in list(PENDING.values())] + ATEXIT[::-1] + [logging.shutdown]:
            try:
                f()
            except BaseException:
                pass
    LIB.dst_disarm()
    os._exit(0)


PKG = None


def preload():
    """Import everything once in the worker, before any node is forked."""
    global PKG
    patch_multiprocessing()
    import atexit
    register = atexit.register

    def recorded(func, *args, **kw):
        at = sys._getframe(1).f_globals.get("__name__", "")
        if at.partition(".")[0] == "ocelot":
            ATEXIT.append(functools.partial(func, *args, **kw))
            return func
        return register(func, *args, **kw)
    atexit.register = recorded
    import ocelot
    import ocelot.bin.ocelot_cli
    import ocelot.io
    PKG = os.path.dirname(os.path.abspath(ocelot.__file__)) + os.sep
    from docutils.core import publish_parts
    publish_parts("warm *up*\n\n* a\n* b\n", writer_name="html")
    import jinja2
    jinja2.Template("{% for x in y %}{{ x|int }}{{ x|safe }}{% endfor %}").render(y=[1])
    from lxml import objectify, etree
    import numpy, pandas  # noqa
    import tempfile, uuid, pathlib  # noqa
    uuid.uuid4()
