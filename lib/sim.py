"""Client of the simulator server: one Sim object = one server process."""
import hashlib
import os
import struct
import subprocess

import numpy as np


class SimError(Exception):
    """The simulator itself misbehaved (never a verdict on the program)."""


def _tlv(items):
    out = []
    for k, v in items:
        k = k.encode()
        if isinstance(v, str):
            v = v.encode()
        elif not isinstance(v, bytes):
            v = str(v).encode()
        out.append(struct.pack("<I", len(k)) + k + struct.pack("<Q", len(v)) + v)
    out.append(struct.pack("<I", 0))
    return b"".join(out)


def _untlv(b):
    p = 0
    out = []
    while True:
        (kl,) = struct.unpack_from("<I", b, p)
        p += 4
        if kl == 0:
            return out
        k = b[p:p + kl].decode("latin-1")
        p += kl
        (vl,) = struct.unpack_from("<Q", b, p)
        p += 8
        out.append((k, b[p:p + vl]))
        p += vl


class Result:
    def __init__(self, items):
        self.files = {}
        self.faults = {}
        self.teams = {}
        self.raw = {}
        self.races = []
        self.decisions = []
        self.io = []
        for k, v in items:
            if k == "file":
                n, c = v.split(b"\0", 1)
                self.files[n.decode()] = c
            elif k == "fault":
                n, c = v.decode().rsplit(" ", 1)
                self.faults[n] = int(c)
            elif k == "team":
                a, b = v.split()
                self.teams[int(a)] = int(b)
            elif k == "races":
                for line in v.decode().splitlines():
                    a, b, c = line.split()
                    self.races.append((int(a, 16), int(b, 16), int(c)))
            elif k == "decisions":
                self.decisions = [tuple(int(x) for x in line.split())
                                  for line in v.decode().splitlines()]
            elif k == "io_trace":
                for line in v.decode("latin-1").splitlines():
                    a = line.split("\t")
                    self.io.append((a[0], a[1], int(a[2]), int(a[3]), int(a[4])))
            else:
                self.raw[k] = v
        self.how = self.raw.get("how", b"?").decode()
        self.status = self._i("status")
        self.screen = self.raw.get("screen", b"").decode("latin-1")
        self.err = self.raw.get("err", b"").decode("latin-1")
        for n in ("events", "syncs", "preemptions", "blocks", "regions",
                  "max_team", "io_ops", "allocs", "alloc_failed",
                  "clock_reads", "signals", "n_decisions"):
            setattr(self, n, self._i(n))
        self.sched_hash = self._i("sched_hash")
        c = self.raw.get("clock", b"0 0").split()
        self.clock_first, self.clock_last = float(c[0]), float(c[1])
        self.fault_seen = [tuple(int(x) for x in line.split()) for line in
                           self.raw.get("fault_seen", b"").decode().splitlines()]

    def _i(self, k):
        return int(self.raw.get(k, b"0"))

    @property
    def ended(self):
        """Readable ending: exit:0, signal:11, crash, deadlock, ..."""
        if self.how in ("exit", "signal", "killed-by-signal"):
            return "%s:%d" % (self.how, self.status)
        return self.how

    @property
    def ok(self):
        return self.how == "exit" and self.status == 0

    @property
    def hung(self):
        return self.how in ("deadlock", "event-limit", "cpu-limit", "wall-limit")

    def digest(self):
        h = hashlib.sha256()
        if self.how in ("cpu-limit", "wall-limit"):
            # stopped by the real clock: only the ending is repeatable
            return hashlib.sha256(self.how.encode()).hexdigest()
        for x in (self.ended, self.screen, self.err, self.events, self.io_ops,
                  self.sched_hash, self.preemptions):
            h.update(repr(x).encode())
        for n in sorted(self.files):
            h.update(n.encode() + b"\0" + self.files[n])
        return h.hexdigest()


SCALARS = ("nprocs", "policy", "seed", "quantum", "prob", "depth", "est",
           "victim", "scout", "max_events", "wall_ms", "capacity",
           "crash_event", "crash_io", "sig_event", "sig_event2", "sig_io",
           "sig_sync", "signo", "alloc_fail", "alloc_count", "alloc_min",
           "alloc_sites", "heap_fill", "heap_order", "clock", "tick", "io_trace", "decisions")


class Job(dict):
    """argv, files{name: bytes}, env{}, faults[(kind,path,nth,count,action,arg)],
    jumps[(read,delta)], replay[(from,at,to)], pcs[...] and the scalars."""

    def copy(self, **kw):
        j = Job(self)
        j.update(kw)
        return j

    def items_tlv(self):
        it = [("type", "run")]
        for a in self["argv"]:
            it.append(("argv", a))
        for k, v in sorted(self.get("env", {}).items()):
            it.append(("env", "%s=%s" % (k, v)))
        for n, c in sorted(self.get("files", {}).items()):
            if isinstance(c, str):
                c = c.encode()
            it.append(("file", n.encode() + b"\0" + c))
        for f in self.get("faults", []):
            it.append(("fault", "\t".join(str(x) for x in f)))
        for a, d in self.get("jumps", []):
            it.append(("jump", "%d %r" % (a, d)))
        if self.get("policy") == "replay":
            it.append(("replay", "\n".join("%d %d %d" % d for d in self["replay"])))
        for p in self.get("pcs", []):
            it.append(("pc", "%x" % p))
        for k in SCALARS:
            if k in self and self[k] is not None:
                v = self[k]
                it.append((k, repr(v) if isinstance(v, float) else str(v)))
        return it


class Sim:
    def __init__(self, exe):
        self.exe = exe
        self.p = None
        self.runs = 0
        self.h5cache = {}

    def _start(self):
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C"}
        if os.environ.get("SIM_DEBUG"):
            env["SIM_DEBUG"] = "1"
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, env=env, cwd="/")

    def _call(self, items):
        if self.p is None:
            self._start()
        try:
            self.p.stdin.write(_tlv(items))
            self.p.stdin.flush()
            n = self.p.stdout.read(8)
            if len(n) < 8:
                raise SimError("simulator server died")
            (ln,) = struct.unpack("<Q", n)
            b = self.p.stdout.read(ln)
            if len(b) < ln:
                raise SimError("simulator server died")
        except OSError as e:
            raise SimError(str(e))
        return _untlv(b)

    def run(self, job):
        self.runs += 1
        r = Result(self._call(job.items_tlv()))
        if r.how == "simulator-error":
            raise SimError(r.raw.get("message", b"").decode())
        if r.how in ("lost", "?") or r.how.startswith("lost-exit"):
            raise SimError("run ended without a result: " + r.how)
        return r

    def h5(self, blob):
        """{path: ndarray|bytes} of an HDF5 file; None if it cannot be opened.
        Unreadable datasets appear under key '!path'."""
        key = hashlib.sha256(blob).digest()
        if key in self.h5cache:
            return self.h5cache[key]
        items = self._call([("type", "h5"), ("blob", blob)])
        out = {}
        for k, v in items:
            if k == "how":
                return None  # reader crashed on the file
            if k == "!":
                out = None
                break
            if k.startswith("!"):
                out[k] = None
                continue
            h, d = v.split(b"\n", 1)
            h = h.decode().split()
            if h[0] == "g":
                continue
            shp = tuple(int(x) for x in h[1:])
            if h[0] == "s":
                out[k] = d
            elif h[0] == "i":
                out[k] = np.frombuffer(d, dtype=np.int64).reshape(shp)
            else:
                out[k] = np.frombuffer(d, dtype=np.float64).reshape(shp)
        if len(self.h5cache) > 200:
            self.h5cache.clear()
        self.h5cache[key] = out
        return out

    def mkh5(self, data):
        """HDF5 file holding the given {path: float array}."""
        items = [("type", "mkh5")]
        for k in sorted(data):
            a = np.ascontiguousarray(data[k], dtype=np.float64)
            items.append(("%s %s" % (k, " ".join(map(str, a.shape))), a.tobytes()))
        out = dict(self._call(items))
        if "blob" not in out:
            raise SimError("cannot make an HDF5 file")
        return out["blob"]

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(5)
            except Exception:
                self.p.kill()
            self.p.stdout.close()
            self.p = None
