"""Deterministic simulator: owns the file system, pipes, clock, random numbers, process
scheduling and faults of every simulated process. One seed is one execution.

A simulated process (Node) runs real HFST code in a forked process; each of its calls to the
outside world is a request that waits here until the scheduler answers it. Exactly one node
runs at any time, so a run is a function of (plan, decisions).
"""
import array, errno, hashlib, json, os, random, signal, socket, struct, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(os.path.dirname(HERE), "build"))
BIN = os.path.join(BUILD, "bin")

(HELLO, OPEN, READ, WRITE, SEEK, CLOSE, ISATTY, CLOCK, RAND, UNLINK, STAT, SYSTEM, EVENT, NEXTOP,
 SRAND, RENAME, TEMPNAM, FLUSHED) = range(1, 19)
OPNAME = {HELLO: "start", OPEN: "open", READ: "read", WRITE: "write", SEEK: "seek", CLOSE: "close", ISATTY: "isatty",
          CLOCK: "clock", RAND: "rand", UNLINK: "unlink", STAT: "stat", SYSTEM: "system", EVENT: "event",
          NEXTOP: "nextop", SRAND: "srand", RENAME: "rename", TEMPNAM: "tempnam"}


class SimError(Exception):
    """The simulator itself failed (never a verdict about the system under test)."""


class Stuck(Exception):
    """Step budget exhausted, or every live node waits for something that cannot come."""


class Zygote:
    def __init__(self, tools):
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "LANG": "C.UTF-8", "HOME": "/nonexistent"}
        self.p = subprocess.Popen([os.path.join(BIN, "hfstsim"), str(b.fileno()), BIN] + sorted(tools), pass_fds=[b.fileno()],
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, env=env, cwd="/",
                                  stderr=None if os.environ.get("SIM_DEBUG") else subprocess.DEVNULL)
        b.close()
        self.s = a
        if a.recv(16) != b"ready":
            raise SimError("zygote did not start")

    def fork(self, spec, fd):
        self.s.sendmsg([b"F" + spec], [(socket.SOL_SOCKET, socket.SCM_RIGHTS, array.array("i", [fd]))])
        return struct.unpack("ii", self.s.recv(8))[0]

    def wait(self, pid, kill=False):
        self.s.send((b"K" if kill else b"W") + struct.pack("i", pid))
        r = self.s.recv(8)
        if len(r) != 8:
            raise SimError("zygote died")
        return struct.unpack("ii", r)[1]

    def close(self):
        self.s.close()
        self.p.wait()


class Pipe:
    """A pipe between nodes, or between a node and the driver (an actor in the simulator)."""
    def __init__(self, name, cap=65536, tty=False):
        self.name, self.buf, self.cap, self.tty = name, bytearray(), cap, tty
        self.readers = self.writers = 0
        self.feed = None        # callable() -> bytes | None (EOF): called when a reader would block
        self.written = 0

    def eof(self):
        return self.writers == 0 and self.feed is None


class File:
    """An open file description."""
    def __init__(self, name, data, mode, pipe=None):
        self.name, self.data, self.mode, self.pipe = name, data, mode, pipe
        self.pos = 0
        self.append = False
        self.broken = False


class Node:
    def __init__(self, nid, name, argv, kind):
        self.nid, self.name, self.argv, self.kind = nid, name, argv, kind
        self.fds, self.nextfd = {}, 10000
        self.req = None         # pending request
        self.status = None      # wait status once ended
        self.killed = None      # reason when the simulator killed it
        self.ops = []           # for clients: script still to run
        self.results = []       # for clients: events
        self.steps = 0
        self.cputime = 0
        self.stdout = bytearray()
        self.stderr = bytearray()
        self.sock = None
        self.op_source = None
        self.read_failed = False

    # outcome ---------------------------------------------------------------
    @property
    def rc(self):
        return os.waitstatus_to_exitcode(self.status)

    def signalled(self):
        return self.status is not None and os.WIFSIGNALED(self.status)

    def outcome(self):
        if self.killed:
            return "killed:" + self.killed
        if self.signalled():
            return "signal:" + signal.Signals(os.WTERMSIG(self.status)).name
        return "exit:%d" % os.WEXITSTATUS(self.status)


FATAL_SIGNALS = {"SIGSEGV", "SIGBUS", "SIGFPE", "SIGILL"}

DEFAULT_CFG = dict(short_read=0.0, short_write=0.0, eintr=0.0, read_eio=0.0, write_enospc=0.0, write_eio=0.0,
                   close_eio=0.0, open_fail=0.0, crash=0.0, sched=0.0, clock_jump=0.0, unlink_fail=0.0,
                   max_steps=60000, bufsizes=(0,), perturb=True, heap=False, pid=4242, now=1_000_000_000_000_000, disk_capacity=None, chunk_style=None, max_faults=1, bad={})


class Sim:
    def __init__(self, zygote, seed=None, cfg=None, decisions=None):
        self.z = zygote
        self.cfg = dict(DEFAULT_CFG)
        self.cfg.update(cfg or {})
        self.replaying = decisions is not None
        self.given = decisions or {}
        self.rng = random.Random("faults:%s" % seed)
        self.vals = random.Random("values:%s" % seed)   # values of rand() etc. (a function of the seed, also on replay)
        self.decisions = {}
        self.counts = {}
        self.fs = {}            # path -> bytearray
        self.full = None        # remaining disk space in bytes, or None
        self.nodes = []
        self.hash = hashlib.sha256()
        self.log = [] if os.environ.get("SIM_LOG") else None
        self.steps = 0
        self.fired = {}
        self.probes = {}
        self.now = self.cfg["now"]   # microseconds of wall-clock time
        self.cpu = 0
        self.cpu_limit_hit = False
        self.tick = 50
        self.clock_fn = None
        self.rand_fn = None
        self.tmp = 0
        self.hard_faults = 0
        self.last = None
        self.files_written = {}
        self.on_event = None
        self.hangup = None      # bytes of captured standard output after which its reader goes away

    # -- decisions -----------------------------------------------------------------------------
    def site(self, *key):
        k = ":".join(str(x) for x in key)
        n = self.counts.get(k, 0)
        self.counts[k] = n + 1
        return "%s#%d" % (k, n)

    def choose(self, site, default, gen):
        """The value of one decision: from the replay table, or from the seeded generator."""
        if self.replaying:
            v = self.given.get(site, default)
        else:
            v = gen()
        if v != default:
            self.decisions[site] = v
        return v

    def chance(self, p):
        return p > 0 and self.rng.random() < p

    def fire(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def trace(self, *what):
        s = repr(what)
        self.hash.update(s.encode())
        if self.log is not None:
            self.log.append(s)

    # -- processes -----------------------------------------------------------------------------
    def spawn(self, kind, argv, stdin=b"", stdout=None, name=None, tty=0):
        """stdin: bytes | Pipe | ('file', path);  stdout: None (captured) | Pipe | ('file', path)"""
        nid = len(self.nodes)
        node = Node(nid, name or argv[0], argv, kind)
        self.nodes.append(node)
        if stdin is None:
            stdin = b""
        if isinstance(stdin, (bytes, bytearray)):
            node.fds[0] = File("stdin", bytearray(stdin), "r")
        elif isinstance(stdin, Pipe):
            stdin.readers += 1
            node.fds[0] = File("stdin", None, "r", stdin)
        else:
            node.fds[0] = File("stdin", self.fs[stdin[1]], "r")
        if stdout is None:
            node.fds[1] = File("stdout", node.stdout, "w")
        elif isinstance(stdout, Pipe):
            stdout.writers += 1
            node.fds[1] = File("stdout", None, "w", stdout)
        else:
            self.fs[stdout[1]] = bytearray()
            node.fds[1] = File("stdout", self.fs[stdout[1]], "w")
        node.fds[2] = File("stderr", node.stderr, "w")
        bs = self.choose(self.site("bufsize", nid), 0, lambda: self.rng.choice(self.cfg["bufsizes"]))
        pt = self.choose(self.site("perturb", nid), 0, lambda: self.rng.randrange(1, 256) if self.cfg["perturb"] else 0)
        hs = self.choose(self.site("heap", nid), 0, lambda: self.rng.randrange(1, 1 << 31) if self.cfg["heap"] else 0)
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_STREAM)
        a.settimeout(120)
        spec = b"\0".join([kind.encode(), str(bs).encode(), b"%d.%d.%d" % (pt, hs, self.cfg["pid"]), str(tty).encode()] +
                          [os.fsencode(x) for x in argv]) + b"\0"
        node.tty = tty
        node.sock = a
        node.pid = self.z.fork(spec, b.fileno())
        b.close()
        self.receive(node)
        return node

    def client(self, ops, stdin=b"", stdout=None, name="client"):
        n = self.spawn("client", ["client"], stdin, stdout, name)
        n.ops = list(ops)
        return n

    def receive(self, node):
        """Wait for the node's next request; it is the only one running."""
        try:
            h = self.recvn(node, 4)
            if h is None:
                return self.ended(node, False)
            (n,) = struct.unpack("I", h)
            b = self.recvn(node, n)
            if b is None:
                return self.ended(node, False)
        except socket.timeout:
            self.z.wait(node.pid, kill=True)
            raise SimError("node %s made no request for 120 s" % node.name)
        op, x, y = struct.unpack_from("=Bqq", b)
        node.req = (op, x, y, b[17:])

    def recvn(self, node, n):
        out = b""
        while len(out) < n:
            try:
                r = node.sock.recv(n - len(out))
            except ConnectionResetError:
                return None
            if not r:
                return None
            out += r
        return out

    def ended(self, node, kill):
        node.status = self.z.wait(node.pid, kill=kill)
        node.sock.close()
        node.req = None
        for f in node.fds.values():
            self.drop(f)
        node.fds = {}
        if os.WIFSIGNALED(node.status) and os.WTERMSIG(node.status) == signal.SIGXCPU:
            self.trace("end", node.nid, "cpu-limit")
            self.cpu_limit_hit = True
        else:
            self.trace("end", node.nid, node.outcome())
        if os.WIFEXITED(node.status) and os.WEXITSTATUS(node.status) in (121, 122, 123):
            raise SimError("node %s: simulator glue failed" % node.name)

    def kill(self, node, reason="crash"):
        node.killed = reason
        self.ended(node, True)

    def drop(self, f):
        if f.pipe is not None:
            if f.mode == "r":
                f.pipe.readers -= 1
            else:
                f.pipe.writers -= 1
            f.pipe = None
            f.data = bytearray()

    def reply(self, node, ret, err=0, data=b""):
        node.req = None
        node.steps += 1
        try:
            node.sock.sendall(struct.pack("qiI", ret, err, len(data)) + data)
        except (BrokenPipeError, ConnectionResetError):
            pass
        self.receive(node)

    # -- scheduling ----------------------------------------------------------------------------
    def enabled(self, node):
        if node.req is None or node.status is not None:
            return False
        op, x = node.req[0], node.req[1]
        if op == READ:
            f = node.fds.get(x)
            if f is not None and f.pipe is not None:
                p = f.pipe
                return bool(p.buf) or p.writers == 0
        if op == WRITE:
            f = node.fds.get(x)
            if f is not None and f.pipe is not None:
                return f.pipe.readers == 0 or len(f.pipe.buf) < f.pipe.cap
        return True

    def run(self, until=None):
        """Run until every node has ended (or until(sim) holds)."""
        while True:
            if until is not None and until():
                return
            live = [n for n in self.nodes if n.status is None]
            if not live:
                return
            ready = [n for n in live if self.enabled(n)]
            if not ready:
                raise Stuck("deadlock: " + ", ".join("%s waits in %s" % (n.name, OPNAME[n.req[0]]) for n in live))
            if len(ready) == 1:
                node = ready[0]
            else:
                default = ready[0].nid if self.last not in [n.nid for n in ready] else self.last
                s = self.site("sched")
                nid = self.choose(s, default, lambda: self.rng.choice(ready).nid if self.chance(self.cfg["sched"]) else default)
                node = next((n for n in ready if n.nid == nid), None) or next(n for n in ready if n.nid == default)
            if self.last is not None and node.nid != self.last:
                self.fire("context_switch")
            self.last = node.nid
            self.steps += 1
            if self.steps > self.cfg["max_steps"]:
                raise Stuck("no end after %d steps" % self.steps)
            self.serve(node)

    def shutdown(self):
        for n in self.nodes:
            if n.status is None:
                n.killed = n.killed or "end of run"
                n.status = self.z.wait(n.pid, kill=True)
                n.sock.close()

    # -- requests ------------------------------------------------------------------------------
    def hard(self, rate, kind, site, values=True):
        """A fault of the kind that makes operations fail; at most cfg['max_faults'] per run."""
        def gen():
            if self.hard_faults < self.cfg["max_faults"] and self.chance(self.cfg[rate]):
                return values() if callable(values) else values
            return None
        v = self.choose(site, None, gen)
        if v is not None:
            self.hard_faults += 1
            self.fire(kind)
        return v

    def serve(self, node):
        op, x, y, data = node.req
        name = OPNAME.get(op, str(op))
        f = node.fds.get(x) if op in (READ, WRITE, SEEK, CLOSE, ISATTY, STAT) else None
        fname = f.name if f is not None else ""
        if self.cfg["crash"] or self.replaying:
            if op in (READ, WRITE, OPEN, CLOSE, NEXTOP) and \
                    self.hard("crash", "process_crash", self.site("crash", node.nid)):
                # a crash in the middle of a write may leave any prefix of it
                if op == WRITE and f is not None and f.pipe is None and x not in (2,):
                    k = self.choose(self.site("torn", node.nid), 0, lambda: self.rng.randrange(0, len(data) + 1))
                    if k:
                        self.fire("torn_write")
                        self.put(f, data[:k])
                self.trace("crash", node.nid, name, fname)
                self.kill(node)
                return
        getattr(self, "op_" + name)(node, x, y, data, f)

    def op_start(self, node, x, y, data, f):
        self.trace("start", node.nid, node.argv)
        self.reply(node, 0)

    def op_nextop(self, node, x, y, data, f):
        if node.op_source is not None:
            op = node.op_source(node)
        else:
            op = node.ops.pop(0) if node.ops else None
        self.trace("op", node.nid, op)
        if op is None:
            self.reply(node, 0)
        else:
            self.reply(node, 1, 0, op.encode("utf-8", "surrogateescape"))

    def op_event(self, node, x, y, data, f):
        s = data.decode("utf-8", "surrogateescape")
        self.trace("event", node.nid, s)
        node.results.append(s)
        if self.on_event:
            self.on_event(node, s)
        if node.status is None:
            self.reply(node, 0)

    def op_open(self, node, flags, y, data, f):
        mode, path = data.decode("utf-8", "surrogateescape").split("\n", 1)
        path = self.norm(path)
        if mode == "fd":
            acc = flags & 3
            m = "r" if acc == 0 else "w" if acc == 1 else "rw"
            trunc, creat = bool(flags & os.O_TRUNC), bool(flags & os.O_CREAT)
            append = bool(flags & os.O_APPEND)
        else:
            append = mode[0] == "a"
            m = {"r": "r", "w": "w", "a": "w", "t": "rw"}[mode[0]]
            if "+" in mode:
                m = "rw"
            trunc, creat = mode[0] in "wt", mode[0] in "wat"
        if mode == "tmp":
            self.tmp += 1
            path = "/v/tmpfile%d" % self.tmp
        e = self.hard("open_fail", "open_error", self.site("open", node.nid, path), lambda: self.rng.choice(["EACCES", "EMFILE", "EIO"]))
        if self.bad(path, "open"):
            e = "EIO"
        if e:
            self.trace("open", node.nid, path, m, e)
            return self.reply(node, -1, getattr(errno, e))
        if path not in self.fs:
            if path.endswith("/") or "/missing-dir/" in path:
                self.trace("open", node.nid, path, m, "ENOENT")
                return self.reply(node, -1, errno.ENOENT)
            if not creat:
                self.trace("open", node.nid, path, m, "ENOENT")
                return self.reply(node, -1, errno.ENOENT)
            self.fs[path] = bytearray()
        elif trunc:
            del self.fs[path][:]        # the same file: others may have it open
        nf = File(path, self.fs[path], m)
        nf.append = append
        node.nextfd += 1
        node.fds[node.nextfd] = nf
        self.trace("open", node.nid, path, m)
        self.reply(node, node.nextfd)

    def bad(self, path, kind):
        """A fault the plan puts on a file: it cannot be opened, read or written from some byte on, or closed."""
        if self.cfg["bad"].get(path, [None])[0] == kind:
            self.fire("bad_" + kind)
            return True
        return False

    def norm(self, path):
        if not path.startswith("/"):
            path = "/v/" + path
        return os.path.normpath(path)

    def op_read(self, node, x, n, data, f):
        if f is None or f.mode == "w":
            self.trace("read", node.nid, x, "EBADF")
            return self.reply(node, -1, errno.EBADF)
        if data and self.choose(self.site("eintr", node.nid, f.name), None, lambda: 1 if self.chance(self.cfg["eintr"]) else None):
            self.fire("read_eintr")
            self.trace("read", node.nid, f.name, "EINTR")
            return self.reply(node, -1, errno.EINTR)
        only = self.cfg.get("only_eio")
        if f.broken or (only is None or f.name in only) and self.hard("read_eio", "read_eio", self.site("reio", node.nid, f.name)):
            node.read_failed = True
            f.broken = only is not None      # such a medium stays unreadable
            self.trace("read", node.nid, f.name, "EIO")
            return self.reply(node, -1, errno.EIO)
        lim = self.cfg["bad"].get(f.name)
        if lim and lim[0] == "read":
            if f.pos >= lim[1]:
                self.fire("bad_read")
                node.read_failed = True
                self.trace("read", node.nid, f.name, "EIO")
                return self.reply(node, -1, errno.EIO)
            n = min(n, lim[1] - f.pos)
        avail = len(f.pipe.buf) if f.pipe is not None else max(0, len(f.data) - f.pos)
        if f.pipe is not None and avail == 0 and f.pipe.feed is not None:
            fed = f.pipe.feed()
            if node.status is not None:
                return
            if fed is None:
                f.pipe.feed = None
            else:
                f.pipe.buf += fed
                avail = len(f.pipe.buf)
        k = min(n, avail)
        if k > 1:
            k2 = self.choose(self.site("chunk", node.nid, f.name), k, lambda: self.chunk(k))
            if k2 != k:
                k = max(1, min(k, k2))
                self.fire("short_read")
        if f.pipe is not None:
            out = bytes(f.pipe.buf[:k])
            del f.pipe.buf[:k]
        else:
            out = bytes(f.data[f.pos:f.pos + k])
            f.pos += k
        self.trace("read", node.nid, f.name, out)
        self.reply(node, len(out), 0, out)

    def chunk(self, k):
        if not self.chance(self.cfg["short_read"]):
            return k
        r = self.rng.random()
        if r < 0.35:
            return 1
        if r < 0.7:
            return self.rng.randint(1, min(k, 16))
        return self.rng.randint(1, k)

    def put(self, f, data):
        if f.pipe is not None:
            f.pipe.buf += data
            f.pipe.written += len(data)
            return
        if f.append:
            f.pos = len(f.data)
        if f.name in ("stdout", "stderr"):
            f.data += data
        else:
            if f.pos > len(f.data):
                f.data += b"\0" * (f.pos - len(f.data))
            f.data[f.pos:f.pos + len(data)] = data
            f.pos += len(data)

    def op_write(self, node, x, raw, data, f):
        if f is None or f.mode == "r":
            self.trace("write", node.nid, x, "EBADF")
            return self.reply(node, -1, errno.EBADF)
        if x == 2:
            self.put(f, data)
            self.trace("stderr", node.nid, data)
            return self.reply(node, len(data))
        if f.pipe is not None and f.pipe.readers == 0 or \
                self.hangup is not None and f.name == "stdout" and f.pipe is None and len(f.data) >= self.hangup and data:
            self.fire("epipe")
            self.trace("write", node.nid, f.name, "EPIPE")
            return self.reply(node, -1, errno.EPIPE)
        if raw and self.choose(self.site("eintr", node.nid, f.name), None, lambda: 1 if self.chance(self.cfg["eintr"]) else None):
            self.fire("write_eintr")
            self.trace("write", node.nid, f.name, "EINTR")
            return self.reply(node, -1, errno.EINTR)
        if f.pipe is None:
            e = None
            if self.hard("write_eio", "write_eio", self.site("weio", node.nid, f.name)):
                e = "EIO"
            cap = self.hard("write_enospc", "disk_full", self.site("wfull", node.nid, f.name), lambda: self.rng.randrange(0, 200))
            if cap is not None:
                self.full = cap
            if e:
                self.trace("write", node.nid, f.name, e)
                return self.reply(node, -1, getattr(errno, e))
        k = len(data)
        lim = self.cfg["bad"].get(f.name)
        if lim and lim[0] == "write":
            if f.pos >= lim[1] and k:
                self.fire("bad_write")
                self.trace("write", node.nid, f.name, "ENOSPC")
                return self.reply(node, -1, errno.ENOSPC)
            k = min(k, lim[1] - f.pos)
        if f.pipe is not None:
            k = min(k, f.pipe.cap - len(f.pipe.buf))
        elif self.hangup is not None and f.name == "stdout":
            k = min(k, self.hangup - len(f.data))
        elif self.full is not None:
            if self.full == 0 and k:
                self.fire("enospc")
                self.trace("write", node.nid, f.name, "ENOSPC")
                return self.reply(node, -1, errno.ENOSPC)
            k = min(k, self.full)
        if k > 1:
            k2 = self.choose(self.site("wchunk", node.nid, f.name), k,
                             lambda: self.rng.randint(1, k) if self.chance(self.cfg["short_write"]) else k)
            if k2 != k:
                k = max(1, min(k, k2))
                self.fire("short_write")
        self.put(f, data[:k])
        if f.pipe is None and self.full is not None:
            self.full -= k
        self.trace("write", node.nid, f.name, data[:k])
        self.reply(node, k)

    def op_seek(self, node, x, off, data, f):
        (wh,) = struct.unpack("i", data)
        if f is None:
            return self.reply(node, -1, errno.EBADF)
        if f.pipe is not None or f.name in ("stdout", "stderr"):
            self.trace("seek", node.nid, f.name, "ESPIPE")
            return self.reply(node, -1, errno.ESPIPE)
        base = 0 if wh == 0 else f.pos if wh == 1 else len(f.data)
        if base + off < 0:
            return self.reply(node, -1, errno.EINVAL)
        f.pos = base + off
        self.trace("seek", node.nid, f.name, f.pos)
        self.reply(node, f.pos)

    def op_close(self, node, x, y, data, f):
        if f is None:
            return self.reply(node, -1, errno.EBADF)
        e = None
        if "w" in f.mode and f.pipe is None and x != 2:
            e = self.hard("close_eio", "close_eio", self.site("ceio", node.nid, f.name))
        if "w" in f.mode and self.bad(f.name, "close"):
            e = "EIO"
        self.trace("close", node.nid, f.name, e)
        self.drop(f)
        del node.fds[x]
        if e:
            return self.reply(node, -1, errno.EIO)
        self.reply(node, 0)

    def op_isatty(self, node, x, y, data, f):
        r = 1 if x in (0, 1, 2) and node.tty & (1 << x) else 0
        self.reply(node, r)

    def op_stat(self, node, x, y, data, f):
        if x == -1:
            p = self.norm(data.decode("utf-8", "surrogateescape"))
            if p not in self.fs:
                return self.reply(node, -1, errno.ENOENT)
            return self.reply(node, len(self.fs[p]))
        if f is None:
            return self.reply(node, -1, errno.EBADF)
        self.reply(node, (1 << 62) if f.pipe is not None or x <= 2 else len(f.data))

    def op_unlink(self, node, x, y, data, f):
        p = self.norm(data.decode("utf-8", "surrogateescape"))
        self.trace("unlink", node.nid, p)
        if p not in self.fs:
            return self.reply(node, -1, errno.ENOENT)
        del self.fs[p]
        self.reply(node, 0)

    def op_rename(self, node, x, y, data, f):
        a, b = (self.norm(q) for q in data.decode("utf-8", "surrogateescape").split("\n", 1))
        self.trace("rename", node.nid, a, b)
        if a not in self.fs:
            return self.reply(node, -1, errno.ENOENT)
        self.fs[b] = self.fs.pop(a)
        self.reply(node, 0)

    def op_tempnam(self, node, x, y, data, f):
        self.tmp += 1
        self.reply(node, self.tmp)

    def op_system(self, node, x, y, data, f):
        self.trace("system", node.nid, data)
        self.fire("command_recorded")
        self.reply(node, 256)

    def op_clock(self, node, kind, y, data, f):
        if self.clock_fn is not None:
            v = self.clock_fn(node, kind)
        else:
            j = self.choose(self.site("clockjump", node.nid), 0,
                            lambda: self.rng.choice([-3600_000_000, -1, 10_000, 5_000_000, 86400_000_000]) if self.chance(self.cfg["clock_jump"]) else 0)
            self.now += self.tick
            self.cpu += self.tick
            if j:
                self.fire("clock_jump")
                if kind == 0:
                    self.cpu += max(0, j)
                else:
                    self.now += j
            v = self.cpu if kind == 0 else self.now
        self.trace("clock", node.nid, kind, v)
        self.reply(node, v)

    def op_rand(self, node, kind, y, data, f):
        v = self.rand_fn(node, kind) if self.rand_fn is not None else self.vals.getrandbits(31)
        self.trace("rand", node.nid, v)
        self.reply(node, v)

    def op_srand(self, node, x, y, data, f):
        self.trace("srand", node.nid)
        self.reply(node, 0)

    def digest(self):
        return self.hash.hexdigest()[:16]
