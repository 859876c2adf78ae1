"""Typestate dataflow over the virtually inlined MIR supergraph.

An abstract state is (call stack of program points, abstract store, branch facts, theory, monitor state).
States are propagated along the control-flow edges of the exported MIR bodies; states that agree are
merged, counters are merged by intersecting what is known about them at loop heads, so that the
propagation reaches a fixpoint. Values are abstract terms (access paths and call-site names); nothing is
executed and no solver is involved.
"""
import heapq
import time
import sys
from program import Program

ANON = ("anon",)
TOP = ("s", ANON)
FORGOTTEN = ("forgotten", ANON)
MANY = 12
U = ("u",)
UNIT = ("a", 0, ())
CMP = {"Eq": "eq", "Ne": "ne", "Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge"}


class Violation(Exception):
    pass


class Stop(Exception):
    """the current path ends (infeasible or diverging)"""


class AnalysisError(Exception):
    """the program has a shape the analysis does not understand"""


def I(n, bits=0):
    return ("i", n, bits)


def is_anon(t):
    """does a term/value mention an anonymous atom?"""
    c = _anon_cache.get(t)
    if c is None:
        if t == ANON:
            c = True
        else:
            c = False
            for x in t:
                if x.__class__ is tuple and is_anon(x):
                    c = True
                    break
                if x.__class__ is frozenset and any(is_anon(y) for y in x):
                    c = True
                    break
        if len(_anon_cache) > 400000:
            _anon_cache.clear()
        _anon_cache[t] = c
    return c


_anon_cache = {}


def atoms_of(t, out):
    """collect ('new', ...) atoms"""
    c = _atoms_cache.get(t)
    if c is None:
        s = set()
        if t.__class__ is tuple:
            if t and t[0] == "new":
                s.add(t)
            else:
                for x in t:
                    if x.__class__ is tuple or x.__class__ is frozenset:
                        s |= atoms_of(x, set())
        else:
            for x in t:
                if x.__class__ is tuple:
                    s |= atoms_of(x, set())
        c = frozenset(s)
        if len(_atoms_cache) > 400000:
            _atoms_cache.clear()
        _atoms_cache[t] = c
    out |= c
    return out


_atoms_cache = {}


def subst(t, m, cache):
    """replace atoms/terms in t according to m (dict term->term)"""
    if t in m:
        return m[t]
    k = cache.get(t)
    if k is not None:
        return k
    if t.__class__ is tuple:
        r = tuple([subst(x, m, cache) if (x.__class__ is tuple or x.__class__ is frozenset) else x for x in t])
        if r == t:
            r = t
    else:
        r = frozenset([subst(x, m, cache) if x.__class__ is tuple else x for x in t])
        if r == t:
            r = t
    cache[t] = r
    return r


# ---- linear forms: (const, ((atomterm, coef), ...)) ----
def lin_const(k):
    return (k, ())


def lin_add(a, b, sign=1):
    d = dict(a[1])
    for t, c in b[1]:
        d[t] = d.get(t, 0) + sign * c
        if d[t] == 0:
            del d[t]
    return (a[0] + sign * b[0], tuple(sorted(d.items(), key=repr)))


def lin_sub(a, b):
    return lin_add(a, b, -1)


def forms(v):
    """linear forms known for an integer value"""
    if v[0] == "i":
        return frozenset([lin_const(v[1])])
    if v[0] == "n":
        return v[1]
    if v[0] == "s" and not is_anon(v[1]):
        return frozenset([(0, ((v[1], 1),))])
    return frozenset()


def mk_int(fs, bits):
    fs = frozenset(f for f in fs if len(f[1]) <= 4 and not any(is_anon(t) for t, _ in f[1]))
    if not fs:
        return TOP
    if len(fs) == 1:
        f = next(iter(fs))
        if not f[1]:
            return ("i", f[0], bits)
        if f[0] == 0 and len(f[1]) == 1 and f[1][0][1] == 1 and len(f[1][0][0]) != 1:
            return ("s", f[1][0][0])
    if len(fs) > 8:
        fs = frozenset(sorted(fs, key=repr)[:8])
    return ("n", fs)


NSYM = ("N",)      # number of elements returned by the current storage iterator
SSYM = ("S",)      # position of the last start element
PSYM = ("P",)      # number of data elements stored since the last start element was stored
# sums of sizes (followed only where a check asks for them): of the elements returned by the current iterator, by earlier
# iterators, invalidated, found to be data of the record at hand, and of what was stored
SUMS = {"bi": ("BI",), "bt": ("BT",), "bx": ("BX",), "bd": ("BD",), "bw": ("BW",)}
SUMSYMS = tuple(SUMS.values())
ZERO = (0, ())
# concrete values where known (d = N - S); for the sums, a linear form
COUNTERS = ("n", "s", "d", "p") + tuple(SUMS)
COUNTER_FORMS = (((NSYM, 1),), ((SSYM, 1),), ((NSYM, 1), (SSYM, -1)), ((PSYM, 1),)) + tuple(((x, 1),) for x in SUMSYMS)


def local_ref(v):
    """does the value contain a reference to a local variable?"""
    if v.__class__ is not tuple:
        return False
    if len(v) == 3 and v[0] == "r" and v[1][0].__class__ is int:
        return True
    return any(local_ref(x) for x in v)


def const_range(k):
    if k.__class__ is tuple and k[0] == "sub" and len(k) == 3 and k[1][0] == "i" and k[2] is not None and k[2][0] == "i":
        return k[1][1], k[2][1]
    return None


def disjoint(k, r):
    if k[0] != "x":
        return False
    if k[1].__class__ is int:
        return not r[0] <= k[1] < r[1]
    q = const_range(k[1])
    return q is not None and (q[1] <= r[0] or r[1] <= q[0])


class Frame:
    __slots__ = ("body", "bb", "dest", "target", "unwind", "kind", "extra", "depth", "site")
    # kind: 'call' | 'seq' (return continues the frame below at its own position) | 'coro' | 'nat' | 'top'

    def __init__(self, body, bb, dest, target, unwind, kind, extra, depth, site):
        self.body = body
        self.bb = bb
        self.dest = dest
        self.target = target
        self.unwind = unwind
        self.kind = kind
        self.extra = extra
        self.depth = depth
        self.site = site

    def copy(self):
        return Frame(self.body, self.bb, self.dest, self.target, self.unwind, self.kind, self.extra, self.depth, self.site)

    def key(self):
        return (self.body.inst if self.body else None, self.bb, self.dest, self.target, self.unwind, self.kind, self.extra)


class State:
    __slots__ = ("stack", "mem", "facts", "th", "mon", "trail", "cancel", "frozen")

    def copy(self):
        s = State()
        s.stack = [f.copy() for f in self.stack]
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.th = dict(self.th)
        s.mon = self.mon
        s.trail = self.trail
        s.cancel = self.cancel
        return s


class Entry:
    """a state at a merge point, waiting to be propagated or (state None) already propagated"""
    __slots__ = ("state", "facts", "shared", "merged")

    def __init__(self, st):
        self.state = st
        self.facts = st.facts
        self.shared = False
        self.merged = None


class Engine:
    deadline = float("inf")  # when to stop with what is known (set by check.py)

    def __init__(self, prog, monitor, max_states=400000, theory=True):
        self.p = prog
        self.types = prog.types
        self.mon = monitor
        monitor.e = self
        self.max_states = max_states
        self.buckets = {}
        self.heap = []
        self.counter = 0
        self.consts = {}
        self.work = []
        self.nstates = 0
        self.gaps = []           # what was not followed
        self.unmodelled = {}
        self.calls_seen = {}
        self.narrows = {}
        self.events_seen = {}
        self.discrs = {}          # term -> list of discriminants of its type
        self.termty = {}          # term -> type id (for values that need drop etc.)
        self.violations = {}
        self.theory = theory
        self.cur = None
        self.funcs = set()
        self.exits = {}
        self.trace = False
        import natives
        self.nat = natives.Natives(self)

    # ------------------------------------------------------------------ reporting
    def where(self, st):
        for f in reversed(st.stack):
            if f.body is not None and self.p.insts[f.body.inst]["krate"] == "cfg_noodle":
                return self.p.insts[f.body.inst]["path"], f.body.file, self.line(f)
        return "?", "?", 0

    def line(self, f):
        b = f.body.blocks[f.bb]
        return b["t"][-1] if isinstance(b["t"][-1], int) else 0

    def fname(self, st):
        return clean(self.where(st)[0])

    def note(self, st, what):
        w = self.where(st)
        st.trail = (st.trail, "%s:%s %s" % (w[1], w[2], what))

    def trail(self, st):
        out = []
        t = st.trail
        while t is not None:
            out.append(t[1])
            t = t[0]
        return list(reversed(out))

    def report(self, st, construct, msg):
        w = self.where(st)
        key = "%s|%s|%s" % (w[1], clean(w[0]), construct)
        if key not in self.violations:
            self.violations[key] = {
                "file": w[1], "function": clean(w[0]), "line": w[2], "construct": construct, "message": msg,
                "entry": self.entry, "path": self.trail(st)[-60:],
            }

    def unwinding(self, st):
        """is a panic on its way up?"""
        return any(f.body is not None and f.body.blocks[f.bb].get("cl") for f in st.stack)

    def event(self, st, name, *a):
        self.events_seen[name] = self.events_seen.get(name, 0) + 1
        self.mon.event(st, name, *a)

    # ------------------------------------------------------------------ atoms
    def site(self, st, tag):
        return tuple(f.site for f in st.stack[1:]) + ((st.stack[-1].body.inst if st.stack[-1].body else -1, st.stack[-1].bb), tag)

    def fresh(self, st, tag, keep=None):
        """a new atom named by its call string; an older object with the same name is forgotten"""
        a = ("new", self._intern(self.site(st, tag)), tag)
        if a in st.th["atoms"]:
            m = {a: ANON}
            if self.theory:
                r = self.nat.recycle(st, a)
                if r is not None:
                    m = r
            self.rename(st, m)
        st.th["atoms"] = st.th["atoms"] | {a}
        return a

    _sites = {}

    def _intern(self, s):
        i = self._sites.get(s)
        if i is None:
            i = self._sites[s] = len(self._sites)
        return i

    def rename(self, st, m):
        cache = {}
        mem = {}
        for c, v in st.mem.items():
            c2 = subst(c, m, cache)
            if c2[0] == "h" and is_anon(c2):
                continue
            mem[c2] = subst(v, m, cache)
        st.mem = mem
        facts = {}
        for k, v in st.facts.items():
            k2 = subst(k, m, cache)
            if not is_anon(k2):
                facts[k2] = v
        st.facts = facts
        for k, v in list(st.th.items()):
            if v.__class__ is tuple:
                st.th[k] = None if k in SUMS and is_anon(subst(v, m, cache)) else subst(v, m, cache)
        st.mon = subst(st.mon, m, cache)
        for f in st.stack:
            if f.extra is not None:
                f.extra = subst(f.extra, m, cache)
            if f.dest is not None:
                f.dest = subst(f.dest, m, cache)
        at = set(st.th["atoms"])
        for a, b in m.items():
            at.discard(a)
            if b != ANON and b[0] == "new":
                at.add(b)
        st.th["atoms"] = frozenset(at)

    # ------------------------------------------------------------------ memory
    def project(self, v, key):
        """sub-value of v for key (variant, idx) or ('x', k)"""
        k = v[0]
        if k == "a":
            if key[0] == "x":
                if key[1].__class__ is int and key[1] < len(v[2]):
                    return v[2][key[1]]
                return TOP
            if v[1] != key[0] and key[0] is not None:
                # reading a field of another variant: cannot happen on feasible paths
                return TOP
            if key[1] < len(v[2]):
                return v[2][key[1]]
            return TOP
        if k == "s":
            if v[1] == ANON:
                return TOP
            return ("s", ("f", v[1], key))
        if k == "o":
            for kk, vv in v[2]:
                if kk == key:
                    return vv
            return ("s", ("f", v[1], key)) if v[1] != ANON else TOP
        if k == "co":
            if key[1] < len(v[2]):
                return v[2][key[1]]
            return TOP
        if k == "fut":
            return v[2][key[1]] if key[1].__class__ is int and key[1] < len(v[2]) else TOP
        if k == "rep":
            return v[1]
        if k == "u":
            return U
        return TOP

    def inject(self, v, path, i, new):
        if i == len(path):
            return new
        key = path[i]
        sub = self.inject(self.project(v, key), path, i + 1, new)
        k = v[0]
        if k == "a" and key[0] != "x" and (key[0] is None or v[1] == key[0] or v[1] is None):
            fs = list(v[2])
            while len(fs) <= key[1]:
                fs.append(U)
            fs[key[1]] = sub
            return ("a", v[1], tuple(fs))
        if k == "a" and key[0] == "x":
            if key[1].__class__ is int and key[1] < len(v[2]):
                fs = list(v[2])
                fs[key[1]] = sub
                if len(fs) > MANY and len(fs) - fs.count(fs[-1]) > MANY:
                    return ("s", FORGOTTEN)
                return ("a", v[1], tuple(fs))
            r = const_range(key[1])
            if r is not None:
                ov = {("x", i): x for i, x in enumerate(v[2]) if not r[0] <= i < r[1]}
                ov[key] = sub
                return ("o", ANON, tuple(sorted(ov.items(), key=repr)))
            return ("o", ANON, ((key, sub),))
        if k == "co" or k == "fut":
            fs = list(v[2])
            while len(fs) <= key[1]:
                fs.append(U)
            fs[key[1]] = sub
            return (k, v[1], tuple(fs))
        if k == "s" or k == "o":
            base = v[1]
            if base == FORGOTTEN and key[0] == "x":
                return v
            ov = dict(v[2]) if k == "o" else {}
            if key[0] == "x" and k == "o" and len(ov) >= MANY and key not in ov:
                # a table filled in a loop: its elements are not told apart any more
                return ("s", FORGOTTEN)
            if key[0] == "x" and key[1].__class__ is not int:
                # element store through an unknown index: everything else about the elements is forgotten,
                # except for what lies outside of a constant sub-range
                r = const_range(key[1])
                if r is None:
                    return ("o", ANON, ((key, sub),))
                ov = {kk: vv for kk, vv in ov.items() if disjoint(kk, r)}
                base = ANON
            ov[key] = sub
            return ("o", base, tuple(sorted(ov.items(), key=repr)))
        if k == "u":
            if key[0] == "x":
                return ("o", ANON, ((key, sub),))
            fs = [U] * (key[1] + 1)
            fs[key[1]] = sub
            return ("a", key[0] or 0, tuple(fs))
        return TOP

    def load_cell(self, st, cell):
        v = st.mem.get(cell)
        if v is None:
            if cell[0] == "h":
                if cell[1][0] == "constref":
                    return cell[1][1]
                return ("s", ("*", cell[1])) if not is_anon(cell) else TOP
            return U
        return v

    def load(self, st, loc):
        if loc is None:
            return TOP
        cell, path = loc
        v = self.load_cell(st, cell)
        for k in path:
            v = self.project(v, k)
        return self.norm(st, v)

    def norm(self, st, v):
        if v[0] == "s":
            f = st.facts.get(("v", v[1]))
            if f is not None:
                return f
        return v

    def store(self, st, loc, v, ty=None):
        if loc is None:
            return
        cell, path = loc
        if cell[0] == "h" and is_anon(cell):
            return
        if not path:
            st.mem[cell] = v
        else:
            st.mem[cell] = self.inject(self.load_cell(st, cell), path, 0, v)

    # ------------------------------------------------------------------ places
    def place(self, st, fr, p):
        """-> (loc, type)"""
        loc = ((fr.depth, p[0]), ())
        ty = fr.body.locals[p[0]][0]
        variant = None
        for e in p[1:]:
            k = e[0]
            if k == "*":
                v = self.load(st, loc)
                loc = self.deref(v)
                variant = None
                ty = e[1]
            elif k == "f":
                if not self.types[ty]["tr"]:
                    if loc is not None:
                        loc = (loc[0], loc[1] + ((variant if variant is not None else 0, e[1]),))
                variant = None
                ty = e[2]
            elif k == "v":
                variant = e[1]
            elif k == "i":
                idx = self.load(st, ((fr.depth, e[1]), ()))
                loc = self.into(loc, idx)
                ty = e[2]
            elif k == "c":
                if not e[2]:
                    loc = self.into(loc, I(e[1], 64))
                elif loc is not None:
                    p2 = loc[1]
                    if p2 and p2[-1][0] == "x" and p2[-1][1].__class__ is tuple and p2[-1][1][0] == "sub" and p2[-1][1][-1] is None:
                        p2 = p2[:-1]
                    loc = (loc[0], p2 + (("x", ("end", e[1])),))
                ty = e[3]
            elif k == "s":
                if loc is not None:
                    if not e[3]:
                        loc = self.part(loc, I(e[1], 64), I(e[2], 64))
                    elif e[2] == 0:
                        loc = self.part(loc, I(e[1], 64), None)
                    else:
                        loc = (loc[0], loc[1] + (("x", ("sub", e[1], e[2], e[3])),))
                ty = e[4]
        return loc, ty

    def subrange(self, loc):
        """(base location, lo, hi) of a location that is a part of a slice or array"""
        p = loc[1]
        if p and p[-1][0] == "x" and p[-1][1].__class__ is tuple and p[-1][1][0] == "sub" and len(p[-1][1]) == 3:
            return (loc[0], p[:-1]), p[-1][1][1], p[-1][1][2]
        return loc, None, None

    def into(self, loc, idx):
        """location of an element"""
        if loc is None:
            return None
        loc, lo, hi = self.subrange(loc)
        if lo is not None:
            idx = self.binop(None, "Add", lo, idx, None)
        return (loc[0], loc[1] + (("x", self.idx_key(idx)),))

    def part(self, loc, lo, hi):
        """location of a part of a slice or array"""
        loc, l0, h0 = self.subrange(loc)
        if l0 is not None:
            lo = self.binop(None, "Add", l0, lo, None)
            hi = self.binop(None, "Add", l0, hi, None) if hi is not None else h0
        return (loc[0], loc[1] + (("x", ("sub", lo, hi)),))

    def idx_key(self, idx):
        if idx[0] == "i":
            return idx[1]
        for f in forms(idx):
            if f[0] == -1 and len(f[1]) == 1 and f[1][0][1] == 1 and f[1][0][0][0] in ("const", "len"):
                return ("end", 1)
        return idx

    def deref(self, v):
        if v[0] == "r":
            return (v[1], v[2])
        if v[0] == "s":
            if is_anon(v):
                return None
            return (("h", v[1]), ())
        if v[0] == "str":
            return (("h", ("lit", v[1])), ())
        if v[0] == "sl":       # slice pointer: (base loc, lo, hi)
            return (v[1], v[2] + (("x", ("sub",) + v[3:]),))
        if v[0] == "a" and len(v[2]) == 1:
            return self.deref(v[2][0])
        return None

    # ------------------------------------------------------------------ operands and rvalues
    def const(self, st, k):
        t = self.types[k["t"]]
        v = k["v"]
        if t["k"] == "fndef":
            return ("fn", t.get("inst", -1), k["t"])
        if v is None and k.get("ci") is not None:
            r = self.const_body(k["ci"])
            if r is not None:
                return r
        if v is None and k.get("pi") is not None:
            r = self.const_body(k["pi"], True)
            if r is not None:
                h = ("h", ("promoted", k["pi"]))
                st.mem[h] = r
                return ("r", h, ())
        if v is None:
            n = k.get("n")
            if n == "core::mem::SizedTypeProperties::IS_ZST":
                return I(0, 1)      # the library's shortcuts for values without bytes do nothing else
            if t["k"] == "ref" or t["k"] == "ptr":
                return ("s", ("const", n or t["s"]))
            return ("s", ("const", n or t["s"]))
        return self.cval(v, k["t"])

    def const_body(self, inst, promoted=False):
        """value of a constant whose initializer depends on generic parameters: its straight-line body"""
        if inst in self.consts:
            return self.consts[inst]
        self.consts[inst] = None
        body = self.p.body(inst)
        if body is None:
            return None
        st = State()
        st.mem, st.facts, st.th, st.mon, st.trail, st.cancel = {}, {}, self.nat.init_theory(), (), None, False
        st.stack = [Frame(body, 0, None, None, None, "const", None, 0, ("const", inst))]
        mon, self.mon = self.mon, Monitor()
        try:
            for _ in range(200):
                fr = st.stack[-1]
                if fr.kind == "const" and fr.body.blocks[fr.bb]["t"][0] == "ret":
                    for s in fr.body.blocks[fr.bb]["s"]:
                        if s[0] == "=":
                            loc, ty = self.place(st, fr, s[1])
                            self.store(st, loc, self.rvalue(st, fr, s[2], ty))
                    v = self.load(st, ((0, 0), ()))
                    if promoted and v[0] == "r":
                        v = self.load(st, (v[1], v[2]))
                        if local_ref(v):
                            v = None
                    elif v[0] == "r" and v[1][0].__class__ is int:
                        # a promoted constant: the initializer's own locals do not outlive it
                        to = self.load(st, (v[1], v[2]))
                        v = ("str", "") if to == ("a", 0, ()) else None
                    elif local_ref(v):
                        v = None
                    self.consts[inst] = v
                    break
                succ = self.step(st)
                if len(succ) != 1:
                    break
                st = succ[0]
        except (Stop, AnalysisError):
            pass
        finally:
            self.mon = mon
        return self.consts[inst]

    def cval(self, v, ty):
        t = self.types[ty]
        if v == "zst":
            return UNIT
        if v is None:
            return ("s", ("const", t["s"]))
        if "i" in v:
            return ("i", int(v["i"]), t.get("bits", 1 if t["k"] == "bool" else 0))
        if "s" in v:
            return ("str", v["s"])
        if "r" in v:
            return ("s", ("constref", self.cval(v["r"], v["t"])))
        fs = tuple(self.cval(f["v"], f["t"]) for f in v["fields"])
        if t["tr"] or t["k"] == "pat":
            return fs[0] if fs else UNIT
        return ("a", v["var"], fs)

    def op(self, st, fr, o):
        k = o[0]
        if k == "k":
            return self.const(st, o[1])
        if k == "rc":
            return I(0, 1)
        loc, ty = self.place(st, fr, o[1])
        if loc is not None and loc[0][0] == "h" and loc[1] and self.types[ty]["k"] == "param":
            self.event(st, "value_use", "read", loc)
        v = self.load(st, loc)
        if k == "m":
            # moved out: not dropped again
            if self.types[ty]["k"] not in ("ref", "ptr", "bool", "int", "uint"):
                self.store(st, loc, U)
        return v

    def generic(self, ty):
        """a value of a type parameter, possibly not initialized"""
        t = self.types[ty]
        if t["k"] == "adt" and t.get("union") and t["path"].endswith("::MaybeUninit"):
            t = self.types[self.types[ty]["args"][0]] if t.get("args") and isinstance(t["args"][0], int) else None
            return t is not None and t["k"] == "param" or t is None and self.types[ty]["s"].endswith("MaybeUninit<T>")
        return t["k"] == "param"

    def raw_base(self, fr, p):
        """the place is reached through a raw pointer"""
        ty = fr.body.locals[p[0]][0]
        for e in p[1:]:
            if e[0] == "*" and self.types[ty]["k"] != "ref":
                return True
            ty = e[1] if e[0] == "*" else e[2] if e[0] == "f" else ty
        return False

    def discr_of(self, st, v, ty):
        t = self.types[ty]
        if v[0] == "a":
            if "discrs" in t and v[1] is not None and v[1] < len(t["discrs"]):
                return I(t["discrs"][v[1]])
            return I(v[1] or 0)
        if v[0] in ("s", "o"):
            term = v[1]
            if is_anon(term):
                return TOP
            f = st.facts.get(("d", term))
            if f is not None and f[0] == "=":
                return I(f[1])
            if "discrs" in t:
                self.discrs[term] = t["discrs"]
                if len(t["discrs"]) == 1:
                    return I(t["discrs"][0])
                self.termty[term] = ty
            return ("s", ("d", term))
        if v[0] == "i":
            return v
        return TOP

    def rvalue(self, st, fr, r, ty):
        k = r[0]
        if k == "use":
            return self.op(st, fr, r[1])
        if k == "ref" or k == "raw":
            loc, pty = self.place(st, fr, r[2])
            t = self.types[pty]
            if k == "ref" and t["k"] == "param" and loc is not None and loc[0][0] == "h" and loc[1] and self.raw_base(fr, r[2]):
                self.event(st, "value_use", "mut" if self.types[ty].get("mut") else "ref", loc)
            if t["k"] == "array" and t.get("len") == 0:
                return ("str", "")      # `&[]`: promoted, outlives the local it is written to
            return self.mkref(st, loc)
        if k == "cast":
            v = self.op(st, fr, r[2])
            t = self.types[r[3]]
            if t["k"] in ("ref", "ptr") and self.types[t["to"]]["k"] == "slice" and r[2][0] in ("c", "m"):
                t = self.types[self.place(st, fr, r[2][1])[1]]
                if t["k"] in ("ref", "ptr"):
                    t = self.types[t["to"]]
                    if t["k"] == "array" and t.get("len") is None and v[0] in ("r", "s") and not is_anon(v):
                        # an array of KEPT_RECORDS places: at least one, as C27 shows
                        self.exclude_val(st, ("len", v), (0,))
            return self.cast(st, r[1], v, r[3])
        if k == "bin":
            a = self.op(st, fr, r[2])
            b = self.op(st, fr, r[3])
            if r[1].endswith("WithOverflow"):
                term = fr.body.blocks[fr.bb]["t"]
                if term[0] == "assert":
                    self.mon.arith(st, r[1][:-12], a, b)
                elif self.mon.may_overflow(st, a, b):
                    # a checked operation: the branch for an overflow is taken as possible
                    v = self.binop(st, r[1], a, b, ty)
                    return ("a", 0, (v[2][0], ("s", self.fresh(st, "overflow"))))
            return self.binop(st, r[1], a, b, ty)
        if k == "un":
            a = self.op(st, fr, r[2])
            return self.unop(st, r[1], a)
        if k == "discr":
            loc, pty = self.place(st, fr, r[1])
            return self.discr_of(st, self.load(st, loc), pty)
        if k == "agg":
            vals = tuple(self.op(st, fr, o) for o in r[4])
            kind = r[1]
            t = self.types[r[2]]
            if kind == "adt":
                if t["tr"]:
                    if t.get("union"):
                        return vals[0] if r[5] == 1 else U
                    return vals[0] if vals else UNIT
                if t.get("union"):
                    return vals[0] if vals else U
                self.mon.aggregate(st, r[2], ("a", r[3], vals))
                return ("a", r[3], vals)
            if kind in ("closure",):
                return ("a", 0, vals)
            if kind == "coroutine":
                return ("co", t["inst"], vals)
            if kind == "rawptr":
                return vals[0]
            return ("a", 0, vals)
        if k == "repeat":
            n = r[2]
            v = self.op(st, fr, r[1])
            if isinstance(n, int) and n <= 64:
                return ("a", 0, (v,) * n)
            return ("rep", v)
        if k == "tls":
            return ("s", ("static", r[1]))
        return TOP

    def mkref(self, st, loc):
        if loc is None:
            return TOP
        cell, path = loc
        if cell[0] == "h" and not path:
            return ("s", cell[1]) if cell[1][0] != "lit" else ("str", cell[1][1])
        if path and path[-1][0] == "x" and path[-1][1].__class__ is tuple and path[-1][1][0] == "sub" and len(path[-1][1]) == 3:
            return ("sl", cell, path[:-1]) + path[-1][1][1:]
        return ("r", cell, path)

    def cast(self, st, kind, v, ty):
        t = self.types[ty]
        if "ReifyFnPointer" in kind or "ClosureFnPointer" in kind:
            return v
        if kind == "Transmute" and t["k"] == "adt" and t["path"] == "core::option::Option":
            if v[0] == "i":
                return ("a", 0, ()) if v[1] == 0 else ("a", 1, (v,))
            if v[0] in ("s", "n"):
                if is_anon(v):
                    return TOP
                return ("s", ("app", "nzopt", v))
        if kind.startswith("IntToInt") and v[0] == "i":
            bits = t.get("bits", 0)
            if bits and v[1] >= 0:
                return ("i", v[1] & ((1 << bits) - 1), bits)
            return ("i", v[1], bits)
        return v

    def unop(self, st, o, a):
        if o == "Not":
            if a[0] == "i" and a[2] <= 1:
                return I(1 - a[1], 1)
            if a[0] == "s":
                if a[1] == ANON:
                    return TOP
                if a[1][0] == "not":
                    return self.norm(st, ("s", a[1][1]))
                return ("s", ("not", a[1]))
            return TOP
        if o == "PtrMetadata":
            return TOP if a[0] not in ("s", "r", "sl", "str") else self.norm(st, self.nat.slice_len(a, None, st))
        return TOP

    def compare(self, st, o, a, b):
        """abstract comparison -> bool value"""
        if o == "ne":
            return self.unop(st, "Not", self.compare(st, "eq", a, b))
        if o == "gt":
            return self.compare(st, "lt", b, a)
        if o == "ge":
            return self.unop(st, "Not", self.compare(st, "lt", a, b))
        if o == "le":
            return self.unop(st, "Not", self.compare(st, "lt", b, a))
        if o == "lt" and st is not None:
            self.mon.ranked(st, a, b)
        if a[0] == "i" and b[0] == "i":
            return I(int(a[1] == b[1] if o == "eq" else a[1] < b[1]), 1)
        if a[0] == "s":
            f = st.facts.get(("v", a[1]))
            if f is not None and f[0] == "i":
                return self.compare(st, o, f, b)
        if b[0] == "s":
            f = st.facts.get(("v", b[1]))
            if f is not None and f[0] == "i":
                return self.compare(st, o, a, f)
        if o == "lt" and b[0] == "i" and b[1] == 1:
            return self.compare(st, "eq", a, ("i", 0, b[2]))       # lengths and counters are unsigned
        if o == "lt" and a[0] == "i" and a[1] == 0 and b[0] != "i":
            return self.unop(st, "Not", self.compare(st, "eq", b, a))
        if a[0] in ("u", "top") or b[0] in ("u", "top"):
            return TOP
        if o == "eq" and a[0] in ("fn", "r", "str") and b[0] in ("fn", "r", "str") and a[0] == b[0]:
            if a[0] == "str" or a == b:
                return I(int(a == b), 1)
        if a[0] == "n" or b[0] == "n" or a[0] == "i" or b[0] == "i" or a == b:
            fa, fb = forms(a), forms(b)
            for x in fa:
                for y in fb:
                    d = lin_add(x, y, -1)
                    if not d[1]:
                        return I(int(d[0] == 0 if o == "eq" else d[0] < 0), 1)
        if is_anon(a) or is_anon(b):
            return TOP
        if a == b:
            return I(1 if o == "eq" else 0, 1)
        if o == "eq":
            for x, y in ((a, b), (b, a)):
                if x[0] == "s" and x[1][0] == "const" and "::" not in str(x[1][1]) and y[0] == "i" and y[1] == 0 and self.mon.kept_known:
                    return I(0, 1)      # a number of kept records (at least one, as C27 shows)
            # normalise comparisons of a discriminant term with a constant
            if repr(b) < repr(a):
                a, b = b, a
            for x, y in ((a, b), (b, a)):
                if x[0] == "s" and x[1][0] == "d" and y[0] == "i":
                    f = st.facts.get(("d", x[1][1]))
                    if f is not None:
                        if f[0] == "=":
                            return I(int(f[1] == y[1]), 1)
                        if y[1] in f[1]:
                            return I(0, 1)
        t = ("cmp", o, a, b)
        f = st.facts.get(t)
        if f is not None:
            return I(f, 1)
        if o == "eq":
            if self.nat.distinct_ptr(a, b):
                return I(0, 1)
            for x, y in ((a, b), (b, a)):
                if x[0] == "s" and x[1][0] == "new" and x[1][2] == "load":
                    for k, val in st.facts.items():
                        if val == 1 and k[0] == "cmp" and k[1] == "eq" and x in k[2:]:
                            z = k[3] if k[2] == x else k[2]
                            if self.nat.distinct_ptr(z, y):
                                return I(0, 1)
                    fv = st.facts.get(("v", x[1]))
                    if fv is not None and self.nat.distinct_ptr(fv, y):
                        return I(0, 1)
        if o == "eq" and a[0] == "s" and b[0] == "i":
            nv = st.facts.get(("nv", a[1]))
            if nv is not None and b[1] in nv:
                return I(0, 1)
        if o == "eq" and b[0] == "s" and a[0] == "i":
            nv = st.facts.get(("nv", b[1]))
            if nv is not None and a[1] in nv:
                return I(0, 1)
        if o == "eq" and (a[0] == "i" and b[0] in "sn" or b[0] == "i" and a[0] in "sn") and st.facts:
            x, y = (a, b) if a[0] == "i" else (b, a)
            if self.nat.le(st, ("i", x[1] + 1, x[2]), y) or x[1] and self.nat.le(st, y, ("i", x[1] - 1, x[2])):
                return I(0, 1)
        if o == "lt" and (a[0] == "i" or b[0] == "i") and st.facts:
            # follows from another comparison with a constant
            if self.nat.le(st, mk_int({lin_add(x, (1, ())) for x in forms(a)}, 64), b):
                return I(1, 1)
            if self.nat.le(st, b, a):
                return I(0, 1)
        return ("s", t)

    def binop(self, st, o, a, b, ty):
        if o in CMP:
            return self.compare(st, CMP[o], a, b)
        base = o.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub"):
            sign = 1 if base == "Add" else -1
            bits = a[2] if a[0] == "i" else (b[2] if b[0] == "i" else 64)
            if a[0] == "i" and b[0] == "i":
                v = ("i", a[1] + sign * b[1], bits)
            else:
                fs = set()
                for x in forms(a):
                    for y in forms(b):
                        fs.add(lin_add(x, y, sign))
                v = mk_int(fs, bits)
            if o.endswith("WithOverflow"):
                return ("a", 0, (v, I(0, 1)))
            return v
        if base == "Mul" or base in ("Div", "Rem", "Shl", "Shr", "BitXor"):
            v = TOP
            if a[0] == "i" and b[0] == "i" and base == "Mul":
                v = ("i", a[1] * b[1], a[2])
            if a[0] == "i" and b[0] == "i" and a[1] >= 0 and b[1] >= 0:
                if base in ("Div", "Rem") and b[1]:
                    v = ("i", a[1] // b[1] if base == "Div" else a[1] % b[1], a[2])
                elif base == "Shr":
                    v = ("i", a[1] >> b[1], a[2])
                elif base == "BitXor":
                    v = ("i", a[1] ^ b[1], a[2])
            if o.endswith("WithOverflow"):
                return ("a", 0, (v, I(0, 1)))
            if base == "Shl" and a[0] == "i" and b[0] == "i":
                return ("i", a[1] << b[1], a[2])
            return v
        if base in ("BitAnd", "BitOr"):
            if a[0] == "i" and b[0] == "i":
                return ("i", (a[1] & b[1]) if base == "BitAnd" else (a[1] | b[1]), a[2])
            isbool = self.types[ty]["k"] == "bool" if ty is not None else False
            if isbool:
                for x, y in ((a, b), (b, a)):
                    if x[0] == "i":
                        if base == "BitAnd":
                            return y if x[1] else I(0, 1)
                        return I(1, 1) if x[1] else y
                if a[0] == "s" and b[0] == "s":
                    k = "and" if base == "BitAnd" else "or"
                    parts = []
                    for t in (a[1], b[1]):
                        while t[0] == k:  # (x op y) op z, built by earlier rounds of a loop
                            parts.append(t[2])
                            t = t[1]
                        parts.append(t)
                    parts = sorted(set(parts), key=str)
                    if len(parts) > 3:
                        return TOP
                    t = parts[0]
                    for x in parts[1:]:
                        t = (k, t, x)
                    return ("s", t)
                return TOP
            if is_anon(a) or is_anon(b):
                return TOP
            return ("s", ("app", base, a, b))
        if base == "Offset":
            return TOP
        return TOP

    # ------------------------------------------------------------------ facts
    def assume(self, st, t, val):
        """term t (of a bool/int value) has value val; False if contradictory"""
        if is_anon(t):
            return True
        k = t[0]
        if k == "not":
            return self.assume(st, t[1], 1 - val)
        if k == "and":
            if val:
                return self.assume(st, t[1], 1) and self.assume(st, t[2], 1)
            self.mon.either(st, t)
            return True
        if k == "or":
            if not val:
                return self.assume(st, t[1], 0) and self.assume(st, t[2], 0)
            self.mon.either(st, ("not", t))
            return True
        if k == "d":
            return self.assume_discr(st, t[1], val)
        if k == "cmp":
            f = st.facts.get(t)
            if f is not None:
                return f == val
            if t[1] == "eq":
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    if x[0] == "s" and x[1][0] == "d" and y[0] == "i":
                        if val:
                            return self.assume_discr(st, x[1][1], y[1])
                        return self.exclude_discr(st, x[1][1], (y[1],))
                    if x[0] == "s" and y[0] == "i":
                        if val:
                            if y[2] == 64:
                                st.facts[t] = 1     # kept in this form too: it may be joined with an equality of counters
                            return self.assume(st, x[1], y[1])
                        return self.exclude_val(st, x[1], (y[1],))
            st.facts[t] = val
            self.mon.fact(st, t, val)
            if t[1] == "lt" and val == 0 and isint(t[2]):
                # not (a < b), but a - 1 < b: a == b
                a, b = t[2], t[3]
                z = self.binop(st, "Sub", a, I(1, 64), None)
                if z != TOP and self.less(st, z, b):
                    e = self.compare(st, "eq", a, b)
                    if e[0] == "s":
                        return self.assume(st, e[1], 1)
                    return e[1] == 1
            return True
        f = st.facts.get(("v", t))
        if f is not None:
            return f[1] == val
        nv = st.facts.get(("nv", t))
        if nv is not None and val in nv:
            return False
        st.facts[("v", t)] = ("i", val, 8)
        st.facts.pop(("nv", t), None)
        self.mon.fact(st, t, val)
        return True

    def exclude_val(self, st, t, vals):
        if is_anon(t):
            return True
        if t[0] == "d":
            return self.exclude_discr(st, t[1], vals)
        if t[0] in ("not", "cmp", "and", "or"):
            if 0 in vals and 1 in vals:
                return False
            if 0 in vals:
                return self.assume(st, t, 1)
            return self.assume(st, t, 0)
        f = st.facts.get(("v", t))
        if f is not None:
            return f[1] not in vals
        nv = st.facts.get(("nv", t), frozenset())
        st.facts[("nv", t)] = nv | frozenset(vals)
        self.mon.fact(st, t, None)
        return True

    def assume_discr(self, st, t, val):
        if is_anon(t):
            return True
        f = st.facts.get(("d", t))
        if f is not None:
            if f[0] == "=":
                return f[1] == val
            if val in f[1]:
                return False
        st.facts[("d", t)] = ("=", val)
        if self.theory:
            self.nat.discr_known(st, t, val)
        self.mon.discr(st, t, val)
        return True

    def exclude_discr(self, st, t, vals):
        if is_anon(t):
            return True
        f = st.facts.get(("d", t))
        old = frozenset()
        if f is not None:
            if f[0] == "=":
                return f[1] not in vals
            old = f[1]
        new = old | frozenset(vals)
        ds = self.discrs.get(t)
        if ds is not None:
            rest = [d for d in ds if d not in new]
            if not rest:
                return False
            if len(rest) == 1:
                return self.assume_discr(st, t, rest[0])
        st.facts[("d", t)] = ("!=", new)
        self.mon.nodiscr(st, t, new)
        return True

    def less(self, st, a, b):
        """is a < b known, for any of the ways to write a"""
        if a[0] == "i" and a[1] < 0:
            return True
        for f in ext_forms(a, symbols(st)):
            if not f[1] and (f[0] < 0 or f[0] == 0 and b[0] == "s" and 0 in st.facts.get(("nv", b[1]), ())):
                return True
            for k, v in st.facts.items():
                if k[0] == "cmp" and k[1] == "lt" and v == 1 and k[3] == b and f in ext_forms(k[2], symbols(st)):
                    return True
        return False

    def known_discr(self, st, t):
        f = st.facts.get(("d", t))
        return f[1] if f is not None and f[0] == "=" else None

    def eq_known(self, st, a, b):
        """do the facts say a == b?"""
        v = self.compare(st, "eq", a, b)
        return v[0] == "i" and v[1] == 1

    # ------------------------------------------------------------------ running
    def run_entry(self, path, args=None, start=None):
        """analyse a function of the crate from its entry; async functions are driven to completion/cancel"""
        if isinstance(path, int):
            r = {"path": self.p.insts[path]["path"], "inst": path}
        else:
            r = self.p.find_root(path)
        if r is None:
            raise AnalysisError("entry point %s not found" % path)
        self.entry = r["path"]
        self.entry_inst = r["inst"]
        if start is not None:
            # continue with what is known at the end of another function
            st = start.copy()
            st.mem = {c: v for c, v in st.mem.items() if c[0] == "h"}
        else:
            st = State()
            st.mem = {}
            st.facts = {}
            st.th = self.nat.init_theory()
            st.mon = self.mon.init()
            st.trail = None
            st.cancel = False
        body = self.p.body(r["inst"])
        st.stack = [Frame(body, 0, None, None, None, "top", ("entry",), 0, ("top",))]
        for i in range(1, body.argc + 1):
            t = self.types[body.locals[i][0]]
            v = args[i - 1] if args and args[i - 1] is not None else ("s", ("arg", i))
            st.mem[(0, i)] = v
            if v[0] == "s":
                self.termty[v[1]] = body.locals[i][0]
        self.work = [st]
        self.loop()

    def loop(self):
        """propagate states in reverse post-order until nothing changes"""
        heap = self.heap = []
        self.buckets = {}
        first, self.work = self.work, []
        for st in first:
            self.enqueue(st)
        local = []
        while heap:
            ent = heapq.heappop(heap)[2]
            st = ent.state
            if st is None:
                continue
            ent.state = None
            if ent.shared:
                st = st.copy()
            local.append(st)
            while local:
                st = local.pop()
                self.nstates += 1
                if self.nstates > self.max_states or self.nstates % 256 == 0 and time.monotonic() > Engine.deadline:
                    self.gaps.append("%s: not finished after %d states" % (self.entry, self.nstates))
                    return
                try:
                    succ = self.step(st)
                except Stop:
                    continue
                except AnalysisError as e:
                    # the analysis cannot follow this path: said in the evidence, the other paths go on
                    g = "%s: %s" % (self.entry, e)
                    if g not in self.gaps:
                        self.gaps.append(g)
                    continue
                for s in succ:
                    if self.merge_point(s):
                        self.enqueue(s)
                    else:
                        local.append(s)

    def narrow(self, v, key):
        """counters of less than 64 bits: given up once they have had many values at a loop head"""
        if v.__class__ is not tuple:
            return v
        if len(v) == 3 and v[0] == "i" and v[1].__class__ is int:
            if v[2] == 64 or v[2] == 1:
                return v
            seen = self.narrows.get(key)
            if seen is None:
                seen = self.narrows[key] = set()
            if len(seen) <= NARROW:
                seen.add(v[1])
            return TOP if len(seen) > NARROW else v
        out = None
        for i, x in enumerate(v):
            if x.__class__ is tuple:
                y = self.narrow(x, (key, i))
                if y is not x:
                    out = out or list(v)
                    out[i] = y
        return tuple(out) if out else v

    def merge_point(self, st):
        fr = st.stack[-1]
        return fr.body is None or fr.bb in fr.body.joins or fr.bb in fr.body.heads

    # -------- state normalisation and merging
    def priority(self, st):
        return tuple([f.body.rpo[f.bb] if f.body is not None else -1 for f in st.stack])

    def put(self, ent):
        self.counter += 1
        heapq.heappush(self.heap, (self.priority(ent.state), self.counter, ent))

    def enqueue(self, st):
        fr = st.stack[-1]
        if fr.body is not None:
            live = fr.body.live[fr.bb]
            d = fr.depth
            for c in [c for c in st.mem if c[0] == d and c[1] not in live]:
                del st.mem[c]
        self.gc(st)
        head = fr.body is None or fr.bb in fr.body.heads
        stackk = tuple([f.key() for f in st.stack])
        if not head:
            key = (stackk, frozenset(st.mem.items()), self.nat.th_key(st, head), st.mon, st.cancel)
            ents = self.buckets.get(key)
            if ents is None:
                ents = self.buckets[key] = []
            facts = st.facts
            again = True
            while again:
                again = False
                for e in ents:
                    if self.implied(e.facts, facts):
                        return
                for i, e in enumerate(ents):
                    if e.state is None:
                        continue
                    if self.implied(facts, e.facts):
                        e.state = None
                        del ents[i]
                        again = True
                        break
                    m = self.complement(e.facts, facts)
                    if m is not None:
                        # two states that differ in one fact only, which is true in one and false in the other
                        e.state = None
                        del ents[i]
                        facts = m
                        again = True
                        break
            st.facts = facts
            ent = Entry(st)
            ents.append(ent)
            self.put(ent)
            return
        # loop heads: counters and branch facts are merged
        at = tuple([(id(f.body), f.bb) for f in st.stack])
        for c, v in st.mem.items():
            w = self.narrow(v, (at, c))
            if w is not v:
                st.mem[c] = w
        key = (mask(stackk), frozenset([(c, mask(v)) for c, v in st.mem.items()]), self.nat.th_key(st, head), st.mon, st.cancel)
        ent = self.buckets.get(key)
        if ent is None:
            ent = self.buckets[key] = Entry(st)
            ent.shared = True
            ent.merged = st
            self.put(ent)
            return
        old = ent.merged
        x, y = symbols(old), symbols(st)
        changed = False
        facts = {}
        for k, v in old.facts.items():
            j = self.join_fact(k, v, st.facts.get(k))
            if j is not None:
                facts[k] = j
        if len(facts) != len(old.facts) or len(facts) != len(st.facts):
            for f, xs, g, ys in ((old.facts, x, st.facts, y), (st.facts, y, old.facts, x)):
                for k, v in f.items():
                    if k not in facts and k[0] == "cmp":
                        k2 = self.joint_cmp(k, v, xs, g, ys)
                        if k2 is not None:
                            facts[k2] = v
        if facts != old.facts:
            changed = True
            old.facts = facts
            ent.facts = facts
        for c, v in st.mem.items():
            m = join_int(old.mem[c], v, x, y)
            if m != old.mem[c]:
                changed = True
                old.mem[c] = m
        for f, g in zip(old.stack, st.stack):
            if f.extra is not None and f.extra != g.extra:
                m = join_int(f.extra, g.extra, x, y)
                if m != f.extra:
                    changed = True
                    f.extra = m
        for k in COUNTERS:
            if old.th[k] is not None and old.th[k] != st.th[k]:
                changed = True
                old.th[k] = None
        if changed and ent.state is None:
            ent.state = old
            self.put(ent)

    def joint_cmp(self, k, v, xs, g, ys):
        """a comparison known on one side (counters xs) in a form that also holds on the other (facts g, counters ys)"""
        for i, o in ((2, 3), (3, 2)):
            a, b = k[i], k[o]
            if not isint(a) or a == TOP or isint(b) and b[0] != "s":
                continue
            for k2, v2 in g.items():
                if k2[0] == "cmp" and k2[1] == k[1] and v2 == v and k2[o] == b and isint(k2[i]):
                    j = join_int(a, k2[i], xs, ys)
                    if j != TOP:
                        return k[:i] + (j,) + k[i + 1:]
            if a[0] == "n" or xs != NO_COUNTERS:
                for f in ext_forms(a, xs):
                    c = f[0]
                    ok = bool(f[1])
                    for t, n in f[1]:
                        m = ys[0] if t == NSYM else ys[1] if t == SSYM else ys[3] if t == PSYM else None
                        if m is None:
                            ok = False
                            break
                        c += n * m
                    if ok:
                        z = ("i", c, 64)
                        r = self.compare_with(g, k[1], *((z, b) if i == 2 else (b, z)))
                        if r == v:
                            return k[:i] + (("n", frozenset([f])),) + k[i + 1:]
        return None

    def compare_with(self, facts, o, a, b):
        """what facts say about a comparison (None: nothing)"""
        if o == "lt" and a[0] == "i" and b[0] != "i" and (a[1] < 0 or a[1] == 0 and b[0] == "s" and 0 in facts.get(("nv", b[1]), ())):
            return 1
        return facts.get(("cmp", o, a, b))

    @staticmethod
    def join_fact(k, a, b):
        if a == b:
            return a
        if b is None:
            return None
        if k[0] == "nv":
            return (a & b) or None
        if k[0] == "d":
            if a[0] == "=" and b[0] == "!=" and a[1] not in b[1]:
                return b
            if b[0] == "=" and a[0] == "!=" and b[1] not in a[1]:
                return a
            if a[0] == "!=" and b[0] == "!=":
                x = a[1] & b[1]
                return ("!=", x) if x else None
        return None

    @staticmethod
    def implied(weak, strong):
        """does every fact of weak hold in strong?"""
        if len(weak) > len(strong):
            return False
        for k, v in weak.items():
            w = strong.get(k)
            if w is None:
                return False
            if w != v:
                if k[0] == "nv" and v <= w:
                    continue
                if k[0] == "d" and v[0] == "!=" and (w[0] == "=" and w[1] not in v[1] or w[0] == "!=" and v[1] <= w[1]):
                    continue
                return False
        return True

    def complement(self, a, b):
        """the disjunction of two fact sets, if they differ in one complementary fact only"""
        if len(a) != len(b):
            return None
        diff = None
        for k, v in a.items():
            w = b.get(k)
            if w is None:
                return None
            if w != v:
                if diff is not None:
                    return None
                diff = k
        if diff is None:
            return a
        v, w = a[diff], b[diff]
        if diff[0] == "cmp":
            r = None
        elif diff[0] == "v":
            if not (v[0] == "i" and w[0] == "i" and {v[1], w[1]} == {0, 1} and self.is_bool(diff[1])):
                return None
            r = None
        elif diff[0] == "d":
            ds = self.discrs.get(diff[1])
            if ds is None:
                return None
            x = self.discr_set(v, ds) | self.discr_set(w, ds)
            if x == set(ds):
                r = None
            elif len(x) == 1:
                r = ("=", next(iter(x)))
            else:
                r = ("!=", frozenset(ds) - x)
        else:
            return None
        m = dict(a)
        if r is None:
            del m[diff]
        else:
            m[diff] = r
        return m

    @staticmethod
    def discr_set(v, ds):
        return {v[1]} if v[0] == "=" else set(ds) - v[1]

    def is_bool(self, t):
        ty = self.termty.get(t)
        return ty is not None and self.types[ty]["k"] == "bool"

    def gc(self, st):
        """drop facts and heap objects about values that can no longer be reached"""
        live = set()
        for c, v in st.mem.items():
            if c[0] != "h":
                atoms_of(v, live)
        atoms_of(st.mon, live)
        for k, v in st.th.items():
            if k != "atoms" and v.__class__ is tuple:
                atoms_of(v, live)
        for f in st.stack:
            if f.extra is not None:
                atoms_of(f.extra, live)
            if f.dest is not None:
                atoms_of(f.dest, live)
        changed = True
        heap = [(c, v, atoms_of(c, set())) for c, v in st.mem.items() if c[0] == "h"]
        done = set()
        while changed:
            changed = False
            for c, v, at in heap:
                if c not in done and at <= live:
                    done.add(c)
                    n = len(live)
                    atoms_of(v, live)
                    if len(live) != n:
                        changed = True
        for c, v, at in heap:
            if c not in done:
                del st.mem[c]
        dead = st.th["atoms"] - live
        if dead:
            st.th["atoms"] = st.th["atoms"] & live
            for k in list(st.facts):
                if atoms_of(k, set()) & dead:
                    del st.facts[k]

    # -------- stepping
    def step(self, st):
        fr = st.stack[-1]
        if fr.kind == "nat":
            return self.nat.resume(st, fr)
        blk = fr.body.blocks[fr.bb]
        if self.trace:
            print("  " * len(st.stack), clean(self.p.insts[fr.body.inst]["path"])[-60:], "bb%d" % fr.bb, blk["t"][0], blk["t"][-1], "CANCEL" if st.cancel else "")
        if fr.bb == 0:
            ins = self.p.insts[fr.body.inst]
            if ins["krate"] == "cfg_noodle":
                self.funcs.add(clean(ins["path"]))
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                loc, ty = self.place(st, fr, s[1])
                v = self.rvalue(st, fr, s[2], ty)
                if loc is not None and loc[0][0] == "h" and loc[1] and self.generic(ty):
                    self.event(st, "payload_write", loc, v)
                # the place may have to be resolved again if the rvalue moved out of it
                self.assign(st, fr, loc, v, ty)
            elif k == "dead":
                st.mem.pop((fr.depth, s[1]), None)
            elif k == "sl":
                st.mem.pop((fr.depth, s[1]), None)
            elif k == "sd":
                loc, ty = self.place(st, fr, s[1])
                v = self.load(st, loc)
                self.store(st, loc, ("a", s[2], v[2] if v[0] == "a" else ()))
            elif k == "assume":
                if s[1][0] == "rc":
                    continue            # what follows is only there to report undefined behaviour
                v = self.op(st, fr, s[1])
                if v[0] == "i" and v[1] == 0:
                    raise Stop
                if v[0] == "s":
                    self.assume(st, v[1], 1)
        return self.terminator(st, fr, blk["t"])

    def assign(self, st, fr, loc, v, ty):
        self.mon.store(st, loc, v, ty)
        self.store(st, loc, v, ty)

    def terminator(self, st, fr, t):
        k = t[0]
        if k == "goto":
            fr.bb = t[1]
            return (st,)
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "call":
            return self.call(st, fr, t)
        if k == "drop":
            return self.drop_term(st, fr, t)
        if k == "ret":
            return self.ret(st, fr, self.load(st, ((fr.depth, 0), ())))
        if k == "assert":
            v = self.op(st, fr, t[1])
            want = 1 if t[2] else 0
            self.mon.assert_(st, t[4], v, want)
            if v[0] == "i" and v[1] != want:
                raise Stop
            if v[0] == "s" and not self.assume(st, v[1], want):
                raise Stop
            fr.bb = t[3]
            return (st,)
        if k == "yield":
            return self.do_yield(st, fr, t)
        if k == "corodrop":
            return self.corodrop(st, fr)
        if k == "resume":
            return self.unwind_pop(st, fr)
        if k in ("unreachable", "abort"):
            return ()
        raise AnalysisError("unsupported terminator %s" % k)

    def switch(self, st, fr, t):
        v = self.op(st, fr, t[1])
        if v == TOP:
            self.mon.blind(st)
        if v[0] == "i":
            for val, b in t[2]:
                if int(val) == v[1]:
                    fr.bb = b
                    return (st,)
            fr.bb = t[3]
            return (st,)
        out = []
        term = v[1] if v[0] == "s" else None
        # branches to blocks that are plainly unreachable are ignored
        for val, b in t[2]:
            if self.is_unreachable(fr.body, b):
                continue
            s = st.copy()
            if term is not None and not self.assume(s, term, int(val)):
                continue
            s.stack[-1].bb = b
            out.append(s)
        if not self.is_unreachable(fr.body, t[3]):
            s = st
            ok = True
            if term is not None:
                ok = self.exclude_val(s, term, tuple(int(x) for x, _ in t[2]))
                if ok and self.types[t[4]]["k"] == "bool":
                    pass
            if ok:
                s.stack[-1].bb = t[3]
                out.append(s)
        return out

    def is_unreachable(self, body, b):
        blk = body.blocks[b]
        return blk["t"][0] == "unreachable" and not blk["s"]

    # -------- calls
    def push(self, st, inst, vals, dest, target, unwind, kind="call", extra=None):
        body = self.p.body(inst)
        fr = st.stack[-1]
        if len(st.stack) > 90:
            raise AnalysisError("call depth exceeded in %s" % self.p.insts[inst]["path"])
        d = fr.depth + 1
        if self.mon.readers and kind == "call" and extra is None and vals and self.p.insts[inst]["path"] in self.mon.readers:
            extra = ("reader", vals[0])
        nf = Frame(body, 0, dest, target, unwind, kind, extra, d, (fr.body.inst if fr.body else -1, fr.bb if fr.body else fr.site))
        st.stack.append(nf)
        for i, v in enumerate(vals):
            st.mem[(d, i + 1)] = v
        return (st,)

    def call(self, st, fr, t):
        callee, ops, tys, dplace, dty, target, unwind = t[1], t[2], t[3], t[4], t[5], t[6], t[7]
        vals = [self.op(st, fr, o) for o in ops]
        dest = None
        if target is not None:
            loc, _ = self.place(st, fr, dplace)
            dest = loc
        if "ptr" in callee:
            f = self.op(st, fr, callee["ptr"])
            if f[0] != "fn" and callee["ptr"][0] in ("c", "m"):
                _, fty = self.place(st, fr, callee["ptr"][1])
                ft = self.types[fty]
                if ft["k"] == "fndef":
                    f = ("fn", ft.get("inst", -1), fty)
            if f[0] == "fn":
                inst = f[1]
                if inst >= 0:
                    path = self.p.insts[inst]["path"]
                else:
                    # a function of a type parameter: only its name is known
                    inst = None
                    path = self.types[f[2]]["path"]
            else:
                return self.nat.indirect(st, fr, f, vals, tys, dest, dty, target, unwind)
        else:
            inst = callee.get("inst")
            path = self.p.insts[inst]["path"] if inst is not None else callee["path"]
        return self.invoke(st, fr, inst, path, callee, vals, tys, dest, dty, target, unwind)

    def invoke(self, st, fr, inst, path, callee, vals, tys, dest, dty, target, unwind):
        info = self.p.insts[inst] if inst is not None else None
        h = self.nat.lookup(path, callee.get("path"), info)
        if h is not None:
            c = CallCtx(self, st, fr, inst, info, path, callee, vals, tys, dest, dty, target, unwind)
            r = h(c)
            if r is not None:
                return r
        if info is not None:
            if info["kind"] == "ctor":
                c = CallCtx(self, st, fr, inst, info, path, callee, vals, tys, dest, dty, target, unwind)
                return c.ret(self.ctor(path, vals, dty))
            body = self.p.body(inst)
            if body is not None:
                if any(f.body is not None and f.body.inst == inst and f.kind != "coro" for f in st.stack):
                    raise AnalysisError("recursion through %s" % path)
                if info["kind"] == "closure" and body.spread is None and len(vals) == 2 and body.argc != 2 or (
                        info["kind"] == "closure" and callee.get("trait", "").startswith("core::ops::function::Fn") and len(vals) == 2):
                    tup = vals[1]
                    n = body.argc - 1
                    vals = [vals[0]] + [self.project(tup, (0, i)) for i in range(n)]
                    # by-reference call of a closure whose body takes itself by value, or the reverse
                return self.push(st, inst, vals, dest, target, unwind)
        return self.nat.opaque(CallCtx(self, st, fr, inst, info, path, callee, vals, tys, dest, dty, target, unwind))

    def ctor(self, path, vals, dty):
        t = self.types[dty]
        name = path.split("::")[-1]
        if t["tr"]:
            return vals[0] if vals else UNIT
        for i, v in enumerate(t.get("variants", ())):
            if v[0] == name:
                return ("a", i, tuple(vals))
        return ("a", 0, tuple(vals))

    def ret(self, st, fr, v):
        """return v from the frame on top"""
        if fr.kind == "top":
            if v[0] == "co" and fr.extra == ("entry",):
                # drive the future
                st.stack.pop()
                st.mem = {c: x for c, x in st.mem.items() if c[0] == "h"}
                body = self.p.body(v[1])
                nf = Frame(body, 0, None, None, None, "top", ("fut",), 0, ("topfut",))
                st.stack.append(nf)
                st.mem[(0, 1)] = v
                st.mem[(0, 2)] = TOP
                return (st,)
            self.exits["return"] = self.exits.get("return", 0) + 1
            self.event(st, "exit", "return", v)
            return ()
        if fr.extra is not None and fr.extra[0] == "reader":
            alt = self.mon.newest_read(st, fr, v)
            if alt is not None:
                return [s for s2, v2 in alt for s in self.ret_value(s2, s2.stack[-1], v2)]
        return self.ret_value(st, fr, v)

    def ret_value(self, st, fr, v):
        st.stack.pop()
        d = fr.depth
        for c in [c for c in st.mem if c[0] == d]:
            del st.mem[c]
        if fr.kind == "seq":
            return (st,)
        below = st.stack[-1]
        if below.kind == "nat":
            below.extra = below.extra + (("ret", v),)
            return (st,)
        if fr.kind == "coro":
            v = ("a", 0, (v,))     # Poll::Ready
            self.store(st, fr.extra[1], U)
        if fr.dest is not None:
            self.assign(st, below, fr.dest, v, None)
        if fr.target is None:
            return ()
        below.bb = fr.target
        return (st,)

    def unwind_pop(self, st, fr):
        if fr.kind == "top":
            self.exits["unwind"] = self.exits.get("unwind", 0) + 1
            self.event(st, "exit", "unwind", None)
            return ()
        return self.unwind_from(st, fr)

    def unwind_from(self, st, fr):
        """pop frame fr (on top) because of a panic"""
        st.stack.pop()
        d = fr.depth
        for c in [c for c in st.mem if c[0] == d]:
            del st.mem[c]
        below = st.stack[-1]
        if fr.kind == "coro":
            self.store(st, fr.extra[1], U)
        if fr.kind == "seq" or below.kind == "nat" or below.body is None:
            return ()
        if fr.unwind is None:
            if below.kind == "top":
                self.event(st, "exit", "unwind", None)
                return ()
            return self.unwind_from(st, below)
        below.bb = fr.unwind
        return (st,)

    def panic(self, st, fr, unwind):
        """the call on top panics: continue at its unwind target"""
        if unwind is None:
            if fr.kind == "top":
                self.event(st, "exit", "unwind", None)
                return ()
            return self.unwind_from(st, fr)
        fr.bb = unwind
        return (st,)

    # -------- drops
    def drop_term(self, st, fr, t):
        loc, ty = self.place(st, fr, t[1])
        fr.bb = t[3]
        if not self.types[t[2]]["nd"]:
            return (st,)
        if loc is not None and loc[0][0] == "h" and loc[1] and self.types[t[2]]["k"] == "param":
            # the user's value is dropped where it is
            self.event(st, "value_use", "drop", loc)
            c2 = st.copy()
            self.event(st, "payload_drop", loc)
            self.event(c2, "payload_drop", loc)
            self.event(c2, "user_panic", "drop")
            return [st] + list(self.panic(c2, c2.stack[-1], t[4]))
        return self.drop_loc(st, loc, t[2])

    def drop_loc(self, st, loc, ty):
        acts = []
        self.collect_drops(st, loc, self.load(st, loc), ty, acts)
        self.run_drops(st, acts)
        if loc is not None and loc[0][0] != "h":
            # the place is now uninitialized (its drop glue may still hold references during the pushed frames)
            if not any(a[0] == "call" for a in acts):
                self.store(st, loc, U)
        return (st,)

    def run_drops(self, st, acts):
        frames = []
        for a in acts:
            if a[0] == "native":
                # run immediately only if no user code must run before it
                if frames:
                    frames.append(a)
                else:
                    a[1](st)
            else:
                frames.append(a)
        for a in reversed(frames):
            if a[0] == "native":
                top = st.stack[-1]
                # executed when the frame above it returns
                st.stack.append(Frame(None, 0, None, None, None, "nat", ("dropact", a[2]), top.depth, ("dropact",)))
            else:
                self.push(st, a[1], [a[2]], None, None, None, kind="seq")

    def collect_drops(self, st, loc, v, ty, acts):
        t = self.types[ty]
        k = v[0]
        if k == "u" or not t["nd"]:
            return
        if k == "fut":
            acts.append(("native", lambda s, v=v: self.nat.drop_future(s, v), ("fut", v)))
            return
        if k == "co":
            inst = self.p.insts[v[1]]
            cty = None
            for i, u in enumerate(v[2]):
                # captured values of a future that was never polled
                ut = self.coro_upvar_ty(v[1], i)
                if ut is not None and self.types[ut]["nd"]:
                    self.collect_drops(st, (loc[0], loc[1] + ((0, i),)) if loc else None, u, ut, acts)
            return
        if t["k"] == "adt":
            n = self.nat.drop_value(st, loc, v, t)
            if n is not None:
                acts.extend(n)
                return
            if "drop" in t:
                acts.append(("call", t["drop"], self.mkref(st, loc)))
            if t["tr"] or t.get("union"):
                if t["path"].endswith("ManuallyDrop") or t.get("union"):
                    return
                ft = t["variants"][0][2][0][1] if t["variants"][0][2] else None
                if ft is not None:
                    self.collect_drops(st, loc, v, ft, acts)
                return
            if t["krate"] not in ("core", "cfg_noodle", "alloc"):
                return
            var = v[1] if k == "a" else None
            if k == "s" and t["enum"]:
                d = self.known_discr(st, v[1])
                if d is None:
                    # undetermined variant: droppable parts of either are opaque values
                    acts.append(("native", lambda s, v=v, t=t: self.nat.drop_opaque(s, v, t), ("opaque", v)))
                    return
                var = t["discrs"].index(d)
            if var is None:
                var = 0
            if var < len(t["variants"]):
                for i, (fname, ft, *_) in enumerate(t["variants"][var][2]):
                    if self.types[ft]["nd"]:
                        key = (var, i)
                        self.collect_drops(st, (loc[0], loc[1] + (key,)) if loc else None, self.project(v, key), ft, acts)
            return
        if t["k"] == "tuple":
            for i, ft in enumerate(t["elems"]):
                if self.types[ft]["nd"]:
                    self.collect_drops(st, (loc[0], loc[1] + ((0, i),)) if loc else None, self.project(v, (0, i)), ft, acts)
            return
        if t["k"] in ("closure", "coroutine"):
            for i, ft in enumerate(t["upvars"]):
                if self.types[ft]["nd"]:
                    self.collect_drops(st, (loc[0], loc[1] + ((0, i),)) if loc else None, self.project(v, (0, i)), ft, acts)
            return
        acts.append(("native", lambda s, v=v, t=t: self.nat.drop_opaque(s, v, t), ("opaque", v)))

    def coro_upvar_ty(self, inst, i):
        c = getattr(self, "_cut", None)
        if c is None:
            c = self._cut = {}
            for t in self.types:
                if t["k"] == "coroutine" and "inst" in t:
                    c[t["inst"]] = t["upvars"]
        u = c.get(inst)
        return u[i] if u is not None and i < len(u) else None

    # -------- coroutines
    def poll_coroutine(self, st, fr, futloc, val, dest, target, unwind):
        self.store(st, futloc, U)
        return self.push(st, val[1], [val, TOP], dest, target, unwind, kind="coro", extra=("coro", futloc))

    def do_yield(self, st, fr, t):
        """a suspension point: the task is resumed, or the whole operation is dropped here"""
        if fr.kind not in ("coro", "top"):
            raise AnalysisError("yield outside of a coroutine")
        out = []
        if not st.cancel:
            self.event(st, "suspend")
            s = st.copy()
            f = s.stack[-1]
            f.bb = t[1]
            loc, _ = self.place(s, f, t[3])
            self.store(s, loc, TOP)
            self.nat.other_tasks_run(s)
            out.append(s)
        # dropped while suspended here (drop edge)
        if self.cancellable(st):
            s = st
            s.cancel = True
            f = s.stack[-1]
            if t[2] is None:
                out.extend(self.corodrop(s, f))
            else:
                f.bb = t[2]
                out.append(s)
        return out

    def cancellable(self, st):
        return True

    def corodrop(self, st, fr):
        if fr.kind == "top":
            self.exits["cancel"] = self.exits.get("cancel", 0) + 1
            self.event(st, "exit", "cancel", None)
            return ()
        st.stack.pop()
        for c in [c for c in st.mem if c[0] == fr.depth]:
            del st.mem[c]
        self.store(st, fr.extra[1], U)
        below = st.stack[-1]
        v = ("a", 1, ())
        if below.kind == "nat":
            below.extra = below.extra + (("cancelled",),)
            return (st,)
        if fr.dest is not None:
            self.store(st, fr.dest, v)
        below.bb = fr.target
        return (st,)


class CallCtx:
    __slots__ = ("e", "st", "fr", "inst", "info", "path", "callee", "vals", "tys", "dest", "dty", "target", "unwind")

    def __init__(self, *a):
        (self.e, self.st, self.fr, self.inst, self.info, self.path, self.callee, self.vals, self.tys, self.dest,
         self.dty, self.target, self.unwind) = a

    def fork(self):
        c = CallCtx(self.e, self.st.copy(), None, self.inst, self.info, self.path, self.callee, self.vals, self.tys,
                    self.dest, self.dty, self.target, self.unwind)
        c.fr = c.st.stack[-1]
        return c

    def ret(self, v):
        if self.target is None:
            return ()
        if self.dest is not None:
            self.e.assign(self.st, self.fr, self.dest, v, self.dty)
        self.fr.bb = self.target
        return (self.st,)

    def loc(self, i):
        return self.e.deref(self.vals[i])

    def load(self, i):
        return self.e.load(self.st, self.loc(i))


def mask(v):
    """forget counters (64-bit integers) in a value, for the comparison at loop heads"""
    if v.__class__ is tuple:
        if v and v[0] == "i" and len(v) == 3 and v[2] == 64:
            return ("n*",)
        if v and v[0] == "n" and len(v) == 2 and v[1].__class__ is frozenset:
            return ("n*",)
        if v == TOP:
            return ("n*",)
        if v and (v[0] == "sl" or v[0] == "dg"):
            return v
        c = _mask_cache.get(v)
        if c is None:
            c = tuple([mask(x) if x.__class__ is tuple else x for x in v])
            if len(_mask_cache) > 200000:
                _mask_cache.clear()
            _mask_cache[v] = c
        return c
    return v


_mask_cache = {}


def has_int(v):
    if v.__class__ is tuple:
        if v and v[0] == "n" and len(v) == 2 and v[1].__class__ is frozenset:
            return True
        if v and v[0] == "i" and len(v) == 3 and v[2] == 64:
            return True
        return any(has_int(x) for x in v if x.__class__ is tuple)
    return False


def symbols(st):
    """the concrete values of the counters in a state, where known"""
    th = st.th
    return tuple([th[k] for k in COUNTERS])


NO_COUNTERS = (None,) * len(COUNTERS)


def ext_forms(v, x):
    """linear forms of a value, constants also relative to counters whose value is known"""
    fs = set(forms(v))
    for f in list(fs):
        if not f[1]:
            for k, sym in zip(x[:4], COUNTER_FORMS):
                if k is not None:
                    fs.add((f[0] - k, sym))
    if x[4:] != NO_COUNTERS[4:]:
        for k, sym in zip(x[4:], COUNTER_FORMS[4:]):
            # a sum known to be zero may be added to a constant, and that of earlier iterators to that of the current one
            if k == ZERO:
                fs |= {lin_add(f, (0, sym)) for f in list(fs) if not f[1] or f[1][0][0] == SUMS["bi"] and sym[0][0] == SUMS["bt"] and len(f[1]) == 1}
            elif k is not None:
                fs |= {lin_add(lin_sub(f, k), (0, sym)) for f in list(fs) if any(t == k[1][0][0] for t, _ in f[1])}
    return fs


NARROW = 24      # values of a counter of less than 64 bits that are told apart


def join_int(a, b, x=NO_COUNTERS, y=NO_COUNTERS):
    """join of two values that agree except for counters; x, y: concrete values of N and S on either side"""
    if a == b:
        return a
    if a.__class__ is not tuple or b.__class__ is not tuple:
        return a
    if isint(a) and isint(b):
        if a == TOP or b == TOP:
            return TOP
        return mk_int(ext_forms(a, x) & ext_forms(b, y), 64)
    if len(a) != len(b):
        return a
    return tuple([join_int(p, q, x, y) for p, q in zip(a, b)])


def isint(v):
    return v == TOP or (v and v[0] == "i" and len(v) == 3 and v[2] == 64) or (v and v[0] == "n" and len(v) == 2)


def clean(p):
    """path without generic arguments, for stable names in reports"""
    out = []
    d = 0
    i = 0
    while i < len(p):
        if p.startswith("::<", i):
            # skip the generic list
            j = i + 2
            d = 0
            while j < len(p):
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(p[i])
        i += 1
    return "".join(out).replace("cfg_noodle::", "")


class Monitor:
    """base class: a property's automaton"""
    name = "?"
    readers = ()
    sums = False                # follow sums of sizes
    kept_known = True           # may assume that a list keeps at least one record

    def init(self):
        return ()

    def event(self, st, name, *a):
        pass

    def fact(self, st, t, val):
        pass

    def either(self, st, t):
        """a conjunction is found not to hold"""

    def ranked(self, st, a, b):
        """an order comparison is evaluated"""

    def nodiscr(self, st, t, vals):
        pass

    def discr(self, st, t, val):
        pass

    def store(self, st, loc, v, ty):
        pass

    def assert_(self, st, kind, v, want):
        pass

    def may_overflow(self, st, a, b):
        return False

    def arith(self, st, op, a, b):
        pass

    def blind(self, st):
        """the way goes on depending on something unknown"""

    def aggregate(self, st, ty, v):
        pass
