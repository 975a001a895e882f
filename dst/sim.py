"""Deterministic scheduler: forks simulated processes ("nodes"), grants their libc operations one at a time, keeps the
simulated clock and file times, injects faults.  Runs inside a worker interpreter that has libdst preloaded."""
import ctypes
import errno as E
import gc
import hashlib
import itertools
import json
import mmap
import os
import pickle
import random
import re
import shutil
import signal
import socket
import stat as S
import struct
import sys

LIB = ctypes.CDLL(None)
REPLY = struct.Struct("<iiqq")
GO, FAIL, LIMIT, DIE, DIE_AFTER, INT_BEFORE, INT_AFTER = range(7)
ACT = {"go": GO, "fail": FAIL, "limit": LIMIT, "die": DIE, "die_after": DIE_AFTER, "int": INT_BEFORE, "int_after": INT_AFTER}
NSLOTS = 16384
NSEC = 10 ** 9
MUTATING = {"write", "truncate", "mkdir", "rmdir", "unlink", "rename", "link", "symlink", "chmod", "utime"}
RECV_TIMEOUT = 90.0


HEX = re.compile(r"[0-9a-f]{32}")


class HarnessError(Exception):
    pass


def h64(*parts):
    return int.from_bytes(hashlib.sha256("\x1f".join(map(str, parts)).encode()).digest()[:8], "little")


class Node:
    __slots__ = ("nid", "sock", "pid", "parent", "req", "nops", "alive", "ended", "how", "sleep_until", "kind", "pool", "lock_wait", "zyg")

    def __init__(self, nid, sock, pid, parent=None):
        self.zyg = None
        self.nid, self.sock, self.pid, self.parent = nid, sock, pid, parent
        self.req = None; self.nops = 0; self.alive = True; self.ended = False; self.how = None
        self.sleep_until = None; self.pool = None; self.lock_wait = 0


class Pool:
    def __init__(self, pid):
        self.id = pid; self.queue = []; self.done = {}; self.closed = False; self.workers = []


class Phase:
    """What happened in one phase."""
    def __init__(self):
        self.events = []          # (step, nid, op, path, path2, flags, size, action, ret, err, clock)
        self.results = {}         # nid -> list of command outcomes
        self.died = {}            # nid -> how
        self.marks = []           # (step, nid, text)
        self.sched = []           # run-length encoded schedule
        self.steps = 0
        self.fired = []           # faults that fired: (nid, ord, op, path, action)
        self.hung = None
        self.deadlock = None
        self.edits_done = []

    def ops(self, nid):
        return [e for e in self.events if e[1] == nid]


class Sim:
    """One simulated world: a scratch root, a clock, file times.  `phase()` runs nodes in it."""

    def __init__(self, base, seed, clock=None, quiet="/assets", env=None):
        self.base = base
        self.root = os.path.join(base, "root")
        self.alias = []                       # links and what they lead to; the event log has the latter
        self.spool = os.path.join(base, "spool")
        for d in (self.root, self.spool):
            os.makedirs(d)
        self.seed = seed
        c = {"start": 1500000000 * NSEC, "tick": [1000, 3000000], "gran": 1, "seed": 1, "jumps": {}}
        c.update(clock or {})
        self.clock = c
        self.tz, self.locale = "UTC", None
        self.real = c["start"]
        self.mono = 1000 * NSEC
        self.elapsed = 0
        self.quiet = quiet
        self.env = env or {}
        self.step_no = 0
        self.phase_no = 0
        self.page = PAGE
        self.page[:] = bytes(len(self.page))
        self.slot = {}
        self._put_clock()
        self.dirty = {}           # path -> length known to be durable
        self.listen_no = 0
        self.stats = {}
        self.digest = hashlib.sha256()
        self.hexnames = {}
        self.shape = hashlib.sha256()      # the same without clock values and sizes: the interleaving
        self.touch(self.root)

    # ---- clock and times ------------------------------------------------------------------------------------
    def _put_clock(self):
        struct.pack_into("<qqqq", self.page, 0, self.real, self.mono, self.clock["start"], NSLOTS)

    def advance(self, ns):
        self.real += ns
        if ns > 0:
            self.mono += ns
            self.elapsed += ns
        self._put_clock()

    def tick(self):
        lo, hi = self.clock["tick"]
        d = lo + h64(self.clock["seed"], self.step_no) % (hi - lo + 1) if hi > lo else lo
        j = self.clock["jumps"].get(str(self.step_no))
        if j:
            self.real += j
            self.stat("clock jump")
        self.advance(d)

    def gran(self, path=None):
        """Granularity of file times: that of the user's data directory, and possibly another one elsewhere (a memory stick, a
        network file system)."""
        g = self.clock["gran"]
        if path and "srcgran" in self.clock and not path.startswith(os.path.join(self.root, "data") + "/"):
            g = self.clock["srcgran"]
        return g

    def fsnow(self, path=None):
        g = self.gran(path)
        return self.real // g * g

    def set_times(self, ino, mtime=None, ctime=None):
        i = self.slot.get(ino)
        if i is None:
            h = (ino * 0x9E3779B97F4A7C15 & (2 ** 64 - 1)) % NSLOTS
            off = 32
            while True:
                k, = struct.unpack_from("<Q", self.page, off + 24 * h)
                if k == 0 or k == ino:
                    break
                h = (h + 1) % NSLOTS
            i = self.slot[ino] = h
            if len(self.slot) > NSLOTS * 3 // 4:
                raise HarnessError("time table full")
            d = self.clock["start"]
            struct.pack_into("<Qqq", self.page, off + 24 * h, ino, d, d)
        if mtime is not None:
            struct.pack_into("<q", self.page, 32 + 24 * i + 8, mtime)
        if ctime is not None:
            struct.pack_into("<q", self.page, 32 + 24 * i + 16, ctime)

    def get_times(self, path, follow=True):
        i = self.slot.get(os.stat(path, follow_symlinks=follow).st_ino)
        if i is None:
            return self.clock["start"], self.clock["start"]
        return struct.unpack_from("<qq", self.page, 32 + 24 * i + 8)

    def touch(self, path, m=True, follow=True):
        try:
            ino = os.stat(path, follow_symlinks=follow).st_ino
        except OSError:
            return
        t = self.fsnow(path)
        self.set_times(ino, t if m else None, t)

    def touch_parent(self, path):
        self.touch(os.path.dirname(path))

    def stat(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    # ---- file operations of the simulated user (and of set-up) -------------------------------------------------
    def p(self, rel):
        return os.path.join(self.root, rel)

    def u_mkdir(self, rel):
        path = self.p(rel)
        if not os.path.isdir(path):
            if os.path.dirname(rel):
                self.u_mkdir(os.path.dirname(rel))
            os.mkdir(path)
            self.touch(path); self.touch_parent(path)

    def u_write(self, rel, data, mode="wb", mtime=None):
        path = self.p(rel)
        new = not os.path.lexists(path)
        with open(path, mode) as f:
            f.write(data)
        self.touch(path)
        if new:
            self.touch_parent(path)
        if mtime is not None:
            self.u_utime(rel, mtime)

    def u_utime(self, rel, mtime, ctime=None):
        self.set_times(os.stat(self.p(rel)).st_ino, mtime, self.fsnow(self.p(rel)) if ctime is None else ctime)

    def u_rename(self, a, b):
        os.rename(self.p(a), self.p(b))
        self.touch(self.p(b), m=False, follow=False)
        self.touch_parent(self.p(a)); self.touch_parent(self.p(b))

    def u_unlink(self, rel):
        os.unlink(self.p(rel)); self.touch_parent(self.p(rel))

    def u_symlink(self, target, rel):
        os.symlink(target, self.p(rel)); self.touch(self.p(rel), follow=False); self.touch_parent(self.p(rel))

    def u_rmtree(self, rel):
        shutil.rmtree(self.p(rel)); self.touch_parent(self.p(rel))

    # ---- nodes ----------------------------------------------------------------------------------------------------
    def _spawn(self, spec):
        import node as nodemod
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        a.settimeout(RECV_TIMEOUT)
        nid = spec["id"]
        sys.stdout.flush(); sys.stderr.flush()
        if "hs" in spec and str(spec["hs"]) != os.environ.get("PYTHONHASHSEED"):
            pid, zyg = zygote(spec["hs"]).fork(self, spec, b), zygote(spec["hs"])
        else:
            pid, zyg = os.fork(), None
        if pid == 0:
            try:
                a.close()
                for n in self.nodes.values():
                    n.sock.close()
                nodemod.node_main(self, spec, b)
            except BaseException as e:       # only harness trouble gets here
                try:
                    LIB.dst_pause(1)
                    with open(os.path.join(self.spool, "harness-error"), "a") as f:
                        import traceback
                        f.write(nid + ": " + traceback.format_exc() + "\n")
                except BaseException:
                    pass
            finally:
                os._exit(98)
        b.close()
        n = Node(nid, a, pid)
        n.zyg = zyg
        self.nodes[nid] = n
        self._recv(n)
        return n

    def canonical(self, rel):
        for link, real in self.alias:
            if (rel + "/").startswith(link + "/"):
                return real + rel[len(link):]
        return rel

    def _rel(self, path):
        if path.startswith(self.root):
            rel = path[len(self.root) + 1:] or "."
            return self.canonical(rel) if self.alias else rel
        if path.startswith(self.base):
            return "<harness>" + path[len(self.base):]
        return path

    def _recv(self, n):
        """Wait for the node's next request; book the result of its previous operation."""
        try:
            msg = n.sock.recv(1 << 17)
        except socket.timeout:
            self.ph.hung = n.nid
            self._kill(n, "hung")
            self._book(n, 0, 0)
            return
        except ConnectionError:
            msg = b""
        if not msg:
            n.alive = False
            n.req = None
            n.how = n.how or "exit"
            n.sock.close()
            if n.parent is None:
                try:
                    st = n.zyg.wait(n.pid) if n.zyg else os.waitpid(n.pid, 0)[1]
                    if n.how == "exit":
                        code = os.waitstatus_to_exitcode(st)
                        if code != 0:
                            n.how = "crash %d" % code
                except ChildProcessError:
                    pass
            self._book(n, 0, 0)
            self._orphans(n)
            return
        f = msg.decode("utf-8", "surrogateescape").split("\x1f")
        self._book(n, int(f[0]), int(f[1]))
        n.req = (f[2], int(f[3]), int(f[4]), f[5], f[6])

    def _orphans(self, n):
        for m in list(self.nodes.values()):
            if m.parent == n.nid and m.alive:
                self._kill(m, "orphan")

    def _kill(self, n, how):
        if not n.alive:
            return
        n.alive = False; n.how = how; n.req = None
        try:
            os.kill(n.pid, signal.SIGKILL) if n.parent is None else None
        except OSError:
            pass
        n.sock.close()
        if n.parent is None:
            try:
                n.zyg.wait(n.pid) if n.zyg else os.waitpid(n.pid, 0)
            except ChildProcessError:
                pass
        self._orphans(n)

    def _book(self, n, ret, err):
        cur = self.cur.pop(n.nid, None)
        if cur is None:
            return
        step, op, path, path2, flags, size, action, created, clock = cur
        self._effects(op, path, path2, flags, size, ret, err, created)
        ev = (step, n.nid, op, self._rel(path) if path else "", self._rel(path2) if path2 else "", flags, size, action, ret if op != "open" or ret < 0 else 0, err, clock)
        self.ph.events.append(ev)
        self._digest(ev)

    def _digest(self, ev):
        """Event log digest; names derived from hashes of absolute paths are numbered by first appearance."""
        text = HEX.sub(self._hexname, repr(ev))
        self.digest.update(text.encode("utf-8", "surrogateescape"))
        self.shape.update(HEX.sub(self._hexname, "%s|%s|%s|%s|%s|%d;" % (ev[1], ev[2], ev[3], ev[4], ev[7], ev[9])).encode("utf-8", "surrogateescape"))

    def _hexname(self, m):
        return "h%d" % self.hexnames.setdefault(m.group(0), len(self.hexnames))

    def _effects(self, op, path, path2, flags, size, ret, err, created):
        if ret < 0:
            return
        if op == "open":
            if created is True:
                self.touch(path); self.touch_parent(path)
                self.dirty[path] = 0
            elif flags & os.O_TRUNC:
                self.touch(path); self.dirty[path] = 0
        elif op == "write":
            if ret > 0:
                self.touch(path)
                if path not in self.dirty:
                    try:
                        self.dirty[path] = max(0, os.path.getsize(path) - ret)
                    except OSError:
                        pass
        elif op == "truncate":
            self.touch(path); self.dirty[path] = min(self.dirty.get(path, size), size)
        elif op == "fsync":
            self.dirty.pop(path, None)
        elif op == "sync":
            self.dirty.clear()
        elif op in ("mkdir", "symlink"):
            self.touch(path, follow=op != "symlink"); self.touch_parent(path)
        elif op in ("rmdir", "unlink"):
            self.touch_parent(path); self.dirty.pop(path, None)
        elif op == "rename":
            self.touch(path2, m=False, follow=False)
            self.touch_parent(path); self.touch_parent(path2)
            self.dirty.pop(path2, None)
            for k in list(self.dirty):
                if k == path or k.startswith(path + "/"):
                    self.dirty[path2 + k[len(path):]] = self.dirty.pop(k)
        elif op == "link":
            self.touch(path2, m=False); self.touch_parent(path2)
        elif op == "chmod":
            self.touch(path, m=False)
        elif op == "utime":
            try:
                ino = os.stat(path, follow_symlinks=not flags & 0x100).st_ino
            except OSError:
                return
            now = self.fsnow(path)
            g = self.gran(path)
            if g < NSEC:              # the kernel's clock ticks slowly, but any time can be stored
                g = 1
            m = now if size == -2 ** 63 else None if size == -2 ** 63 + 1 else size // g * g
            self.set_times(ino, m, now)

    # ---- stepping ---------------------------------------------------------------------------------------------------
    def _runnable(self, n):
        if not n.alive or n.req is None:
            return False
        op = n.req[0]
        if op == "sleep" and n.sleep_until is not None:
            return self.mono >= n.sleep_until
        if op == "pool.take":
            pool = self.pools[n.req[3]]
            return bool(pool.queue) or pool.closed
        if op == "pool.wait":
            pid, ids = n.req[3].split(" ", 1)
            pool = self.pools[pid]
            if any(i in pool.done for i in ids.split(",")):
                return True
            return str(n.nops) in self.faults.get(n.nid, {})
        if op == "pool.join":
            return not any(self.nodes[w].alive for w in self.pools[n.req[3]].workers)
        return True

    def _step(self, n):
        op, flags, size, path, path2 = n.req
        step = self.step_no
        self.step_no += 1
        self.tick()
        if op == "sleep" and n.sleep_until is None:
            n.sleep_until = self.mono + size
            self.step_no -= 0
            return                                   # parked until the clock reaches it
        n.sleep_until = None
        ordn = n.nops
        n.nops += 1
        act = self.faults.get(n.nid, {}).get(str(ordn))
        if act and act[0] == "full":               # from here on the disk is full
            self.full = act[1]
            act = None
        if act is None and self.full and (op in ("write", "mkdir", "symlink") or (op == "open" and flags & os.O_CREAT and not os.path.lexists(path))):
            act = ["fail", self.full]
        action, err, num, seed = GO, 0, 0, 0
        name = "go"
        if act:
            name = act[0]
            if name == "power":
                self.ph.fired.append((n.nid, ordn, op, self._rel(path), name))
                self.stat("fault power/" + op)
                self.ph.events.append((step, n.nid, op, self._rel(path), "", flags, size, "power", 0, 0, self.real))
                self._power_loss(act[1] if len(act) > 1 else 0)
                return
            action = ACT[name]
            if op in ("cmd", "start") and name.startswith("int"):
                action = GO; name = "go"               # the harness's own request: no code of ocelot is running
            if name in ("fail", "limit") and (op.startswith("pool.") or op in ("mark", "start", "sleep", "cmd")):
                action = GO; name = "go"
            if name == "fail":
                err = getattr(E, act[1]) if isinstance(act[1], str) else act[1]
            elif name == "limit":
                num = max(1, act[1])
            elif name == "die_after":
                num = act[1] if len(act) > 1 else -1
                if num < 0:
                    num = 2 ** 62
            if name != "go":
                self.ph.fired.append((n.nid, ordn, op, self._rel(path), name + (":" + str(act[1]) if name == "fail" else "")))
                self.stat("fault %s/%s" % (name + (":" + str(act[1]) if name == "fail" else ""), op))
        if action in (GO, INT_BEFORE, INT_AFTER, LIMIT) and self._outside(op, flags, path, path2):
            action, err, name = FAIL, E.EACCES, "denied"      # nothing outside the scratch tree is ever changed
            self.stat("denied outside the scratch tree")
        self.stat("op " + op)
        if op in ("mark", "cmd", "start") or op.startswith("pool."):
            self._custom(n, step, op, path, action, name)
            return
        created = None
        if op == "open" and flags & os.O_CREAT:
            created = not os.path.lexists(path)
        if op == "listdir":
            seed = 0 if self.order == 0 else h64(self.order, step) | 1
            if self.order == "fixed":
                seed = 0
            seed = seed & (2 ** 63 - 1)
        if op == "flock":
            n.lock_wait += 1
            if n.lock_wait > 20000:
                self.ph.deadlock = n.nid
                self._kill(n, "deadlock")
                return
        else:
            n.lock_wait = 0
        self.cur[n.nid] = (step, op, path, path2, flags, size, name, created, self.real)
        if action == DIE:
            self.cur.pop(n.nid)
            self.ph.events.append((step, n.nid, op, self._rel(path), self._rel(path2) if path2 else "", flags, size, "die", 0, 0, self.real))
        self._reply(n, action, err, num, seed)
        if action == DIE:
            n.how = "killed"
        if action == DIE_AFTER:
            n.how = "killed"
            self._recv(n)                         # the "@die" message with the result
            if n.alive:
                n.sock.send(REPLY.pack(GO, 0, 0, 0))
        if n.alive:
            self._recv(n)

    def _outside(self, op, flags, path, path2):
        if not (op in MUTATING or op == "open" and (flags & 3 or flags & (os.O_CREAT | os.O_TRUNC))):
            return False
        return any(q.startswith("/") and not (q == self.root or q.startswith(self.root + "/") or q.startswith(self.base + "/")) for q in (path, path2) if q)

    def _reply(self, n, action=GO, err=0, num=0, seed=0, payload=b""):
        n.req = None
        try:
            n.sock.send(REPLY.pack(action, err, num, seed) + payload)
        except OSError:
            pass

    def _custom(self, n, step, op, arg, action, name):
        ph = self.ph
        if op in ("mark", "cmd"):
            ph.marks.append((step, n.nid, arg))
            if arg.startswith("user ") and self.user:
                self.user(n.nid, int(arg[5:]))
            if arg == "line-interrupt":
                ph.fired.append((n.nid, n.nops - 1, op, "", "line-interrupt"))
                self.stat("fault interrupt/line")
        ev = (step, n.nid, op, arg, "", 0, 0, name, 0, 0, self.real)
        ph.events.append(ev)
        self._digest(ev)
        payload = b""
        if op == "pool.fork" and action == GO:
            # the parent forks; its child connects to us by name
            self.listen_no += 1
            lname = "dst-%d-%d" % (os.getpid(), self.listen_no + 1000 * next(COUNTER))
            ls = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
            ls.bind("\0" + lname); ls.listen(1); ls.settimeout(RECV_TIMEOUT)
            pool = self.pools.setdefault(arg, Pool(arg))
            wid = "%s.w%d" % (arg, len(pool.workers))
            self._reply(n, action, payload=json.dumps([lname, wid, h64(self.seed, self.phase_no, wid) >> 1]).encode())
            try:
                c, _ = ls.accept()
            except socket.timeout:
                raise HarnessError("pool worker did not connect")
            finally:
                ls.close()
            c.settimeout(RECV_TIMEOUT)
            w = Node(wid, c, -1, parent=n.nid)
            self.nodes[wid] = w
            pool.workers.append(wid)
            self._recv(w)
            self._recv(n)
            return
        if op == "pool.take":
            pool = self.pools[arg]
            payload = str(pool.queue.pop(0) if pool.queue else -1).encode()
        elif op == "pool.submit":
            pid, ids = arg.split(" ", 1)
            self.pools[pid].queue.extend(ids.split(","))
        elif op == "pool.done":
            pid, i = arg.split(" ", 1)
            self.pools[pid].done[i] = len(self.pools[pid].done)
        elif op == "pool.wait":
            pid, ids = arg.split(" ", 1)
            done = self.pools[pid].done
            got = sorted((i for i in ids.split(",") if i in done), key=done.get)
            payload = ",".join(got).encode()
        elif op == "pool.close":
            self.pools[arg].closed = True
        elif op == "pool.kill":
            for w in self.pools[arg].workers:
                self._kill(self.nodes[w], "terminated")
        if action in (DIE, DIE_AFTER):
            n.how = "killed"
        self._reply(n, action, payload=payload)
        self._recv(n)

    def _power_loss(self, salt):
        """Everything dies; file data that was never fsynced survives only up to an arbitrary point."""
        for n in list(self.nodes.values()):
            self._kill(n, "power")
        rng = random.Random(h64(self.seed, "power", salt))
        for path in sorted(self.dirty):
            try:
                size = os.path.getsize(path)
            except OSError:
                continue
            keep = self.dirty[path]
            if size <= keep:
                continue
            how = rng.randrange(4)
            cut = size if how == 0 else keep if how == 1 else rng.randint(keep, size)
            os.truncate(path, cut)
            if how == 3 and cut > keep:           # blocks never written: read as zeros
                with open(path, "r+b") as f:
                    f.seek(keep); f.write(bytes(min(cut - keep, 4096)))
        self.dirty.clear()

    def power_loss(self, salt=0):
        self.nodes = {}
        self._power_loss(salt)

    def phase(self, nodes, sched=None, faults=None, edits=None, order=0, max_steps=60000, user=None):
        """Run the given node specs to completion.  edits: list of (step offset, callable); user: called for a "user" command of a node."""
        self.user = user
        self.ph = ph = Phase()
        self.phase_no += 1
        self.nodes, self.pools, self.cur = {}, {}, {}
        self.faults = faults or {}
        self.full = None
        self.order = order
        edits = sorted(edits or [], key=lambda x: x[0])
        start = self.step_no
        for s in nodes:
            self._spawn(s)
        pick = make_sched(sched)
        last = None
        while True:
            while edits and self.step_no - start >= edits[0][0]:
                at, fn = edits.pop(0)
                self.advance(1000)
                fn()
                ph.edits_done.append((self.step_no - start, at))
            run = [k for k, n in self.nodes.items() if self._runnable(n)]
            if not run:
                waiting = [n for n in self.nodes.values() if n.alive and n.req]
                sleepers = [n for n in waiting if n.req[0] == "sleep" and n.sleep_until is not None]
                if sleepers:
                    t = min(n.sleep_until for n in sleepers)
                    self.advance(max(0, t - self.mono))
                    continue
                if waiting:
                    ph.deadlock = ",".join(n.nid + ":" + n.req[0] for n in waiting)
                    for n in waiting:
                        self._kill(n, "deadlock")
                break
            k = pick(run, last)
            if ph.sched and ph.sched[-1][0] == k:
                ph.sched[-1][1] += 1
            else:
                ph.sched.append([k, 1])
            last = k
            self._step(self.nodes[k])
            if self.step_no - start > max_steps:
                ph.hung = "steps"
                for n in self.nodes.values():
                    self._kill(n, "step limit")
                break
        for at, fn in edits:
            self.advance(1000); fn()
        ph.steps = self.step_no - start
        for k, n in self.nodes.items():
            if n.how not in (None, "exit", "terminated", "orphan"):
                ph.died[k] = n.how
        he = os.path.join(self.spool, "harness-error")
        if os.path.exists(he):
            raise HarnessError(open(he).read())
        for s in nodes:
            ph.results[s["id"]] = self._results(s["id"])
            if self.nodes[s["id"]].how and self.nodes[s["id"]].how.startswith("crash"):
                if self.nodes[s["id"]].how not in ("crash 0",):
                    ph.died[s["id"]] = self.nodes[s["id"]].how
        self.stat("steps", ph.steps)
        return ph

    def _results(self, nid):
        path = os.path.join(self.spool, nid + ".res")
        out = []
        if os.path.exists(path):
            with open(path, "rb") as f:
                while True:
                    try:
                        out.append(pickle.load(f))
                    except EOFError:
                        break
            os.unlink(path)
        return out

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)

    # ---- looking at the world -------------------------------------------------------------------------------------------
    def tree(self, rel="."):
        """relative path -> None for a directory, bytes for a file, str for a link"""
        out = {}
        top = os.path.normpath(self.p(rel))
        if not os.path.isdir(top):
            return out
        for d, ds, fs in os.walk(top):
            r = os.path.relpath(d, self.root)
            if r != ".":
                out[r] = None
            for x in list(ds):
                q = os.path.join(d, x)
                if os.path.islink(q):
                    out[os.path.relpath(q, self.root)] = os.readlink(q)
            for x in fs:
                q = os.path.join(d, x)
                k = os.path.relpath(q, self.root)
                if os.path.islink(q):
                    out[k] = os.readlink(q)
                else:
                    with open(q, "rb") as f:
                        out[k] = f.read()
        return out


COUNTER = itertools.count()


def make_sched(s):
    s = s or {"kind": "rand", "seed": 0, "p": 0.5}
    if s["kind"] == "list":
        runs = [list(r) for r in s["runs"]]

        def pick(run, last):
            while runs:
                k, c = runs[0]
                if c <= 0:
                    runs.pop(0)
                    continue
                if k in run:
                    runs[0][1] -= 1
                    return k
                runs.pop(0)
            return last if last in run else run[0]
        return pick
    rng = random.Random(s["seed"])
    if s["kind"] == "prio":                       # fixed priorities with a few change points (PCT)
        prio = {}
        change = set(s.get("change", []))
        st = {"n": 0}

        def pick(run, last):
            for k in run:
                if k not in prio:
                    prio[k] = rng.random() + 1
            st["n"] += 1
            k = max(run, key=lambda x: prio[x])
            if st["n"] in change:
                prio[k] = -st["n"]
                k = max(run, key=lambda x: prio[x])
            return k
        return pick
    p = s.get("p", 0.5)

    def pick(run, last):
        if last in run and (len(run) == 1 or rng.random() >= p):
            return last
        return run[rng.randrange(len(run))]
    return pick


class Zygote:
    """An interpreter with another hash seed that forks nodes on request."""

    def __init__(self, hs):
        import subprocess
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        env = dict(os.environ, PYTHONHASHSEED=str(hs), DST_PAGE_FD=str(PAGE_FD))
        os.set_inheritable(PAGE_FD, True)
        here = os.path.dirname(os.path.abspath(__file__))
        self.proc = subprocess.Popen([sys.executable, os.path.join(here, "zygote.py"), str(b.fileno())], env=env, pass_fds=[b.fileno(), PAGE_FD], stdin=subprocess.DEVNULL)
        os.set_inheritable(PAGE_FD, False)
        b.close()
        a.settimeout(RECV_TIMEOUT)
        self.sock = a
        self.ask(None)

    def ask(self, msg, fds=()):
        try:
            socket.send_fds(self.sock, [pickle.dumps(msg, protocol=4)], list(fds))
            out = self.sock.recv(1 << 16)
        except OSError as e:
            raise HarnessError("zygote: %r" % e)
        if not out:
            raise HarnessError("zygote ended")
        return pickle.loads(out)

    def fork(self, sim, spec, sock):
        d = {k: getattr(sim, k) for k in ("base", "root", "spool", "quiet", "env", "seed", "phase_no", "tz", "locale")}
        return self.ask(("fork", d, spec), [sock.fileno()])

    def wait(self, pid):
        return self.ask(("wait", pid))


ZYGOTES = {}


def zygote(hs):
    z = ZYGOTES.get(hs)
    if z is None or z.proc.poll() is not None:
        z = ZYGOTES[hs] = Zygote(hs)
    return z


def init_page():
    global PAGE, PAGE_ADDR
    size = 32 + 24 * NSLOTS
    fd = int(os.environ.get("DST_PAGE_FD", "-1"))
    if fd < 0:
        fd = os.memfd_create("dst-page")
        os.ftruncate(fd, size)
    os.set_inheritable(fd, False)
    PAGE = mmap.mmap(fd, size)
    global PAGE_FD
    PAGE_FD = fd
    PAGE_ADDR = ctypes.addressof(ctypes.c_char.from_buffer(PAGE))


init_page()
