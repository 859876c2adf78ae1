"""The exported program: types, instances, bodies, with per-body control-flow facts."""
import json


class Body:
    __slots__ = ("raw", "blocks", "locals", "argc", "spread", "succ", "heads", "joins", "live", "borrowed", "rpo", "file", "line", "inst")

    def __init__(self, inst, raw):
        self.inst = inst
        self.raw = raw
        self.blocks = raw["blocks"]
        self.locals = raw["locals"]
        self.argc = raw["argc"]
        self.spread = raw["spread"]
        self.file = raw["file"]
        self.line = raw["line"]
        self.succ = [self.successors(b["t"]) for b in self.blocks]
        self._loops()
        self._live()

    @staticmethod
    def successors(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [b for _, b in t[2]] + [t[3]]
        if k == "drop":
            return [x for x in (t[3], t[4]) if x is not None]
        if k == "call":
            return [x for x in (t[6], t[7]) if x is not None]
        if k == "assert":
            return [t[3]]
        if k == "yield":
            return [x for x in (t[1], t[2]) if x is not None]
        return []

    def _loops(self):
        n = len(self.blocks)
        color = [0] * n
        heads = set()
        preds = [0] * n
        for s in self.succ:
            for x in s:
                preds[x] += 1
        stack = [(0, iter(self.succ[0]))]
        color[0] = 1
        post = []
        while stack:
            b, it = stack[-1]
            for x in it:
                if color[x] == 1:
                    heads.add(x)
                elif color[x] == 0:
                    color[x] = 1
                    stack.append((x, iter(self.succ[x])))
                    break
            else:
                color[b] = 2
                post.append(b)
                stack.pop()
        self.rpo = [n] * n
        for i, b in enumerate(reversed(post)):
            self.rpo[b] = i
        self.heads = heads
        self.joins = {i for i in range(n) if preds[i] > 1}

    def _live(self):
        """backward liveness of locals (per block entry); borrowed locals are kept until StorageDead"""
        borrowed = set()
        use, kill = [], []

        def pl_use(p, u):
            u.add(p[0])
            for e in p[1:]:
                if e[0] == "i":
                    u.add(e[1])

        def op_use(o, u):
            if o[0] in "cm" and len(o) == 2:
                pl_use(o[1], u)

        def rv_use(r, u):
            k = r[0]
            if k == "use" or k == "repeat":
                op_use(r[1], u)
            elif k in ("ref", "raw"):
                pl_use(r[2], u)
                if not any(e[0] == "*" for e in r[2][1:]):
                    borrowed.add(r[2][0])
            elif k == "cast":
                op_use(r[2], u)
            elif k == "bin":
                op_use(r[2], u)
                op_use(r[3], u)
            elif k == "un":
                op_use(r[2], u)
            elif k == "discr":
                pl_use(r[1], u)
            elif k == "agg":
                for o in r[4]:
                    op_use(o, u)

        for b in self.blocks:
            # process backwards to compute upward-exposed uses
            u, kl = set(), set()
            t = b["t"]
            k = t[0]
            if k == "switch":
                op_use(t[1], u)
            elif k == "ret":
                u.add(0)
            elif k == "drop":
                pl_use(t[1], u)
            elif k == "assert":
                op_use(t[1], u)
            elif k == "yield":
                pass
            elif k == "call":
                p = t[4]
                if len(p) == 1:
                    kl.add(p[0])
                else:
                    pl_use(p, u)
                for o in t[2]:
                    op_use(o, u)
                if "ptr" in t[1]:
                    op_use(t[1]["ptr"], u)
            for s in reversed(b["s"]):
                if s[0] == "=":
                    p = s[1]
                    if len(p) == 1:
                        u.discard(p[0])
                        kl.add(p[0])
                    else:
                        pl_use(p, u)
                    rv_use(s[2], u)
                elif s[0] == "sd":
                    pl_use(s[1], u)
                elif s[0] == "assume":
                    op_use(s[1], u)
            use.append(u)
            kill.append(kl)
        n = len(self.blocks)
        live = [set() for _ in range(n)]
        changed = True
        order = list(range(n - 1, -1, -1))
        while changed:
            changed = False
            for i in order:
                o = set()
                for s in self.succ[i]:
                    o |= live[s]
                new = use[i] | (o - kill[i])
                if new != live[i]:
                    live[i] = new
                    changed = True
        self.live = [frozenset(x | borrowed) for x in live]
        self.borrowed = borrowed


TRANSPARENT = {
    "core::ptr::non_null::NonNull", "core::num::nonzero::NonZero", "core::cell::UnsafeCell", "core::cell::Cell",
    "core::mem::manually_drop::ManuallyDrop", "core::mem::maybe_uninit::MaybeUninit", "core::pin::Pin",
    "core::sync::atomic::Atomic", "core::mem::maybe_dangling::MaybeDangling", "core::ptr::unique::Unique",
    "core::cell::SyncUnsafeCell", "core::sync::exclusive::Exclusive",
    "core::task::wake::ResumeTy", "core::num::niche_types::NonZeroU32Inner",
}


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]
        self.insts = d["insts"]
        self.roots = d["roots"]
        self.impls = d["impls"]
        self.consts = d.get("consts", [])
        self._bodies = {}
        self.transparent = [False] * len(self.types)
        for i, t in enumerate(self.types):
            if t["k"] == "adt" and (t["path"] in TRANSPARENT or t["path"].startswith("core::num::niche_types::") or t["path"].startswith("core::sync::atomic::Atomic") and not t["enum"]):
                self.transparent[i] = True
            elif t["k"] == "pat":
                self.transparent[i] = True
            t["tr"] = self.transparent[i]
            if t["k"] == "adt" and t["enum"]:
                t["discrs"] = [int(v[1]) for v in t["variants"]]
        # roots by path; the path of an instance as seen by the checks
        self.root = {}
        for r in self.roots:
            self.root[r["path"]] = r

    def body(self, i):
        b = self._bodies.get(i)
        if b is None:
            raw = self.insts[i]["body"]
            if raw is None:
                return None
            b = self._bodies[i] = Body(i, raw)
        return b

    def local_bodies(self):
        """the bodies of the crate's own functions"""
        for i, x in enumerate(self.insts):
            if x["krate"] == "cfg_noodle" and x["body"] is not None:
                yield i, self.body(i)

    def ty(self, t):
        return self.types[t]

    def find_root(self, suffix):
        c = [r for p, r in self.root.items() if p == suffix or p.endswith("::" + suffix)]
        return c[0] if len(c) == 1 else None
