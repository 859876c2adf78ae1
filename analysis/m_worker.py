"""automata for the worker tasks: C20, C21 (process_* are summarised: they run and have some result)"""
from engine import I, U, TOP, clean, is_anon
from base import Base
from natives import ready, PENDING

OPS = ("process_reads", "process_writes", "process_garbage")


class Worker(Base):
    def setup(self, e):
        nat = e.nat
        self.e = e
        paths = {}
        for r in self.p.roots:
            c = clean(r["path"])
            for o in OPS:
                if c.endswith("StorageList::" + o):
                    paths[c] = o
        for c, o in paths.items():
            nat.override[c] = lambda cc, o=o: cc.ret(("fut", "proc", (("str", o),)))
            nat.cache.clear()

        def poll(c, loc, v):
            o = v[2][0][1]
            c2 = c.fork()
            e.event(c.st, "proc", o)
            a = e.fresh(c.st, "result")
            e.event(c.st, "proc_done", o, ("s", a))
            out = list(nat.done(c, loc, ("s", a)))
            e.event(c2.st, "proc", o)
            return out + list(c2.ret(PENDING))
        nat.proc_poll = poll

    def bounded(self, st):
        """are we below a timeout?"""
        return any(f.extra is not None and f.extra.__class__ is tuple and len(f.extra) > 1 and f.extra[0] == "select" and f.extra[1] == "timeout" for f in st.stack)

    def role(self, a):
        return self.A.queues().get(a)

    def unbounded(self, st, name):
        return name in ("wait", "sigwait") and not self.bounded(st)


OPOF = {"read": "process_reads", "write": "process_writes"}


class C20(Worker):
    DEFAULTS = {"due_read": 0, "due_write": 0, "fin_read": 0, "fin_write": 0, "must_read": 0, "must_write": 0, "owed": 0, "sig": 0}

    # owed: a cleanup request (the worker's own signal) was consumed, and neither the cleanup nor a new request followed
    def event(self, st, name, *a):
        if name == "sigwait" and self.unbounded(st, name) and self.e.entry.endswith("_worker_task"):
            self.check(st, self.g(st, "owed") != 2, "C20", "wait for a cleanup request",
                       "the worker waits for a new cleanup request although the cleanup request it has taken was neither carried out nor renewed")
        if name == "sigtaken":
            if self.g(st, "sig"):  # (an empty signal has nothing to take)
                self.s(st, owed=1, sig=0)
        elif name == "select_won" and self.g(st, "owed"):
            self.s(st, owed=2)  # the round ends
        elif name == "signal":
            self.s(st, owed=0, sig=1)
        elif name == "proc" and a[0] == "process_garbage":
            self.s(st, owed=0)
        if name in ("wait", "woken"):
            x = self.role(a[0])
            if x in OPOF and self.e.entry.endswith("_worker_task"):
                if name == "wait":
                    if self.bounded(st):
                        self.s(st, last=x, **{"fin_" + x: 0})
                    else:
                        self.check(st, not self.g(st, "due_" + x), "C20", "wait for a %s request" % x,
                                   "the worker waits for a new %s request although it consumed one that was not handled" % x)
                else:
                    self.s(st, **{"due_" + x: 1})
        if self.unbounded(st, name):
            for x in OPOF:
                self.check(st, not self.g(st, "must_" + x), "C20", "wait after a %s request was due" % x,
                           "the worker waits again although the %s request it has finished collecting was not handled" % x)
        if name == "timeout":
            x = self.g(st, "last")
            if x:
                self.s(st, **{"fin_" + x: 1})
        elif name == "select_won":
            for x in OPOF:
                if self.g(st, "fin_" + x):
                    self.s(st, **{"must_" + x: 1, "fin_" + x: 0})
        elif name == "proc":
            for x, o in OPOF.items():
                if a[0] == o:
                    self.check(st, True, "C20", "%s request handled" % x, "")
                    self.s(st, **{"due_" + x: 0, "must_" + x: 0, "fin_" + x: 0})
        elif name == "exit" and a[0] == "return" and self.e.entry.endswith("_worker_task"):
            # the stop request ends the worker: a write that is due is flushed (C21)
            self.check(st, not self.g(st, "due_write"), "C20", "worker stopped", "the worker ends although a write request it consumed was not handled")


class C21(Worker):
    DEFAULTS = {"need": "no", "n": 0, "gcdue": 0, "flush": 0, "stop": 0}

    # need: no | ? (result of a write not examined yet) | read | gc | retry
    def event(self, st, name, *a):
        if name == "proc":
            o = a[0]
            n = self.g(st, "need")
            if o == "process_writes":
                self.check(st, n in ("no", "retry", "?"), "C21", "write repeated", "the write is repeated without doing first what the refused one asked for")
                self.s(st, need="no", res=None, flush=1)
            elif o == "process_reads" and n == "read" or o == "process_garbage" and n == "gc":
                self.s(st, need="retry")
            if o == "process_garbage":
                self.s(st, gcdue=0)
        elif name == "proc_done":
            o, r = a
            if o == "process_writes":
                self.s(st, need="?", res=r)
                self.classify(st)
            elif self.g(st, "need") == "retry":
                self.s(st, rres=r)
        elif name == "select_won" and self.stopper_won(st, a):
            self.s(st, stop=1, flush=0, need="no", n=0)
        if self.unbounded(st, name) or name == "exit" and a[0] == "return":
            n = self.g(st, "need")
            ok = n == "no" or n == "retry" and self.g(st, "n") >= 3 or n == "retry" and self.failed(st)
            what = {"?": "although the result of the write was not examined for a refusal",
                    "read": "although a write was refused until a read is done", "gc": "although a write was refused until a cleanup is done",
                    "retry": "although the refused write was not tried again"}.get(n, "")
            self.check(st, ok, "C21", "end of a write attempt", "the worker goes on %s" % what)
            self.s(st, need="no", n=0, res=None, rres=None)
        if self.unbounded(st, name):
            self.check(st, not self.g(st, "gcdue"), "C21", "wait after a write", "the worker waits for new requests after a finished write without a cleanup")
        if name == "exit" and a[0] == "return" and self.e.entry.endswith("default_worker_task"):
            self.check(st, self.g(st, "stop") == 1 and self.g(st, "flush") == 1, "C21", "worker stopped",
                       "the worker returns without writing what is pending after the stop request")

    def stopper_won(self, st, a):
        """the outermost select: the user's future is its other half"""
        n = sum(1 for f in st.stack if f.extra is not None and f.extra.__class__ is tuple and len(f.extra) > 1 and f.extra[0] == "select" and f.extra[1] == "select")
        return n == 1 and a[1][0] == "s" and not is_anon(a[1]) and a[1][1][0] == "new" and a[1][1][2] == "userfut"

    def failed(self, st):
        r = self.g(st, "rres")
        return r is not None and self.optd(st, r) == 1

    def discr(self, st, t, val):
        self.classify(st)

    def nodiscr(self, st, t, vals):
        self.classify(st)

    def classify(self, st):
        if self.g(st, "need") != "?":
            return
        r = self.g(st, "res")
        r = self.e.norm(st, r)
        d = self.optd(st, r)
        if d == 0:
            self.s(st, need="no", n=0, res=None, gcdue=0 if self.g(st, "stop") else 1)
        elif d == 1:
            e = self.e.project(r, (1, 0))
            k = self.dset(st, e, len(self.A.lserr_variants))
            app = self.A.lserr_variants["AppError"]
            if app not in k:
                self.s(st, need="no", res=None)
            elif k == {app}:
                ee = self.e.project(e, (app, 0))
                EV = self.A.error_variants
                kk = self.dset(st, ee, len(EV))
                fr, gc = EV["NeedsFirstRead"], EV["NeedsGarbageCollect"]
                n = min(3, self.g(st, "n") + 1)
                if kk == {fr}:
                    self.s(st, need="read", n=n, res=None)
                elif kk == {gc}:
                    self.s(st, need="gc", n=n, res=None)
                elif not kk & {fr, gc}:
                    self.s(st, need="no", res=None)

    def dset(self, st, v, n):
        if v[0] == "a":
            return {v[1]}
        if v[0] == "s" and not is_anon(v):
            f = st.facts.get(("d", v[1]))
            if f is not None:
                return {f[1]} if f[0] == "=" else set(range(n)) - set(f[1])
        return set(range(n))


HZ = 1000000      # embassy-time's ticks per second unless a tick-hz feature is chosen
UNITS = {"from_hours": 3600 * HZ, "from_mins": 60 * HZ, "from_secs": HZ, "from_millis": HZ // 1000, "from_micros": HZ // 1000000, "from_ticks": 1}


def ticks(v):
    """a duration as a number of microseconds, if it is a constant"""
    if v[0] == "i":
        return v[1]
    if v[0] == "s" and v[1][0] == "app":
        n, args = v[1][1], v[1][2:]
        for suffix in ("_floor",):
            if n.endswith(suffix):
                n = n[:-len(suffix)]
        if n in UNITS and len(args) == 1 and args[0][0] == "i":
            return args[0][1] * UNITS[n]
    if v[0] == "a" and len(v[2]) == 1:
        return ticks(v[2][0])
    return None


class C34(Worker):
    """which delays are armed before requests are handled"""
    DEFAULTS = {"due_read": 0, "due_write": 0, "quiet_read": 0, "quiet_write": 0, "busy": 0, "stop": 0, "delay": 0}
    WANT = {"read": 100 * HZ // 1000, "write": 10 * HZ}
    DELAY = 120 * HZ

    stopper_won = C21.stopper_won

    def duration(self, st, construct, v, want):
        n = ticks(self.e.norm(st, v))
        if n is None:
            g = "%s: %s: a duration that is not a constant" % (self.e.entry, construct)
            if g not in self.e.gaps:
                self.e.gaps.append(g)
            return True
        return n == want

    def event(self, st, name, *a):
        if name in ("wait", "woken"):
            x = self.role(a[0])
            if x in OPOF:
                if name == "woken":
                    self.s(st, **{"due_" + x: 1, "quiet_" + x: 0})
                else:
                    self.s(st, **{"quiet_" + x: 0})
                    if self.bounded(st):
                        self.s(st, last=x)
        if self.unbounded(st, name):
            self.s(st, busy=0)
        if name == "timeout":
            x = self.g(st, "last")
            if x:
                good = self.duration(st, "wait for further %s requests" % x, a[0], self.WANT[x])
                self.check(st, good, "C34", "wait for further %s requests" % x, "the wait for further %s requests does not have the documented length" % x)
                self.s(st, **{"quiet_" + x: 1, "last": None})
        elif name == "signal":
            good = self.duration(st, "delay of the first cleanup", a[1], self.DELAY)
            self.check(st, good, "C34", "delay of the first cleanup", "the first cleanup is not scheduled with the documented delay")
        elif name == "timer":
            v = self.e.norm(st, a[0])
            sent = v[0] == "s" and v[1][0] == "new" and v[1][2] == "sig"
            if not sent:
                good = self.duration(st, "delay of the first cleanup", v, self.DELAY)
                self.check(st, good, "C34", "delay of the first cleanup", "the first cleanup is not scheduled with the documented delay")
            self.s(st, delay=1)
        elif name == "select_won" and self.stopper_won(st, a):
            self.s(st, stop=1)
        elif name == "proc":
            o = a[0]
            if not self.g(st, "busy") and not self.g(st, "stop"):
                if o == "process_reads" and self.g(st, "due_read"):
                    self.check(st, self.g(st, "quiet_read"), "C34", "reads processed", "reads are processed although requests may still be coming in")
                elif o == "process_writes" or o == "process_garbage" and self.g(st, "due_write") and not self.g(st, "delay"):
                    self.check(st, self.g(st, "quiet_write"), "C34", "writes processed", "writes are processed although requests may still be coming in")
                elif o == "process_garbage":
                    self.check(st, self.g(st, "delay"), "C34", "first cleanup", "a cleanup that does not go with a write is made without the documented delay")
            self.s(st, busy=1, delay=0, **{"due_" + x: 0 for x in OPOF if OPOF[x] == o})
