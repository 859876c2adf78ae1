"""Abstract transfer functions of what lies outside the crate: the storage trait, the mutex, wait queues, the
intrusive list, atomics, slices, CRC, CBOR, futures combinators. Everything else of `core` is analysed from its
own MIR. Unknown callees havoc what they can reach through mutable references and return an unknown value."""
from engine import (ANON, TOP, U, UNIT, I, Stop, AnalysisError, Frame, is_anon, subst, forms, lin_add, mk_int, NSYM,
                    SSYM, PSYM, COUNTERS, SUMS, SUMSYMS, ZERO,
                    lin_sub, clean)

NONE = ("a", 0, ())
PENDING = ("a", 1, ())


def some(v):
    return ("a", 1, (v,))


def ok(v):
    return ("a", 0, (v,))


def err(v):
    return ("a", 1, (v,))


def ready(v):
    return ("a", 0, (v,))


def S(*t):
    """a pure function application term"""
    if any(is_anon(x) for x in t if x.__class__ is tuple):
        return TOP
    return ("s", ("app",) + t)


class NatCtx:
    """poll of a native future on behalf of a native frame (select, with_timeout)"""
    __slots__ = ("e", "st", "fr")

    def __init__(self, e, st, fr):
        self.e, self.st, self.fr = e, st, fr

    def fork(self):
        s = self.st.copy()
        return NatCtx(self.e, s, s.stack[-1])

    def ret(self, v):
        if v == PENDING:
            self.fr.extra = self.fr.extra + (("pend",),)
        else:
            self.fr.extra = self.fr.extra + (("ret", v[2][0]),)
        return (self.st,)

    @property
    def unwind(self):
        return None


class Natives:
    def __init__(self, e):
        self.e = e
        self.p = e.p
        self.cache = {}
        self.override = {}
        self.opaque_seen = {}
        self.table = {}
        self.prefix = []
        self._register()
        self.list_fields = self._fields("storage_list::StorageList")
        self.elem_variants = self._elem()

    # ------------------------------------------------------------- type anchors
    def find_adt(self, suffix):
        for i, t in enumerate(self.p.types):
            if t["k"] == "adt" and (t["path"] == "cfg_noodle::" + suffix or t["path"] == suffix):
                return i
        return None

    def _fields(self, suffix):
        i = self.find_adt(suffix)
        if i is None:
            return {}
        t = self.p.types[i]
        if not t["variants"]:
            return {}
        return {k: f[0] for k, f in enumerate(t["variants"][0][2])}

    def _elem(self):
        i = self.find_adt("Elem")
        return {v[0]: k for k, v in enumerate(self.p.types[i]["variants"])} if i is not None else {}

    def queue(self, loc):
        """name of the wait queue at loc"""
        if loc is None:
            return "?"
        if loc[1] and loc[1][-1][0] == 0:
            return self.list_fields.get(loc[1][-1][1], "?")
        return "?"

    # ------------------------------------------------------------- theory of the scan
    def init_theory(self):
        return {"atoms": frozenset(), "item": None, "ph": "none", "start": None, "nodata": 0, "scan": "no",
                "it": None, "lock": None, "n": None, "s": None, "d": None, "p": None, "w": "no",
                **{k: ZERO if self.e.mon.sums else None for k in SUMS}}

    def th_key(self, st, head):
        return tuple(sorted(((k, v) for k, v in st.th.items() if k != "atoms" and not (head and k in COUNTERS)), key=lambda x: x[0]))

    START_NAME = ("new", -1, "startitem")

    def recycle(self, st, a):
        if a == st.th["item"] and st.th["start"] == a and st.th["ph"] != "none":
            m = {a: self.START_NAME}
            if self.START_NAME in st.th["atoms"]:
                m[self.START_NAME] = ANON
            return m
        return None

    def forget_symbols(self, st, drop_n=True, drop_s=True):
        def f(fs):
            return [x for x in fs if not any((t == NSYM and drop_n) or (t == SSYM and drop_s) for t, _ in x[1])]
        self.map_forms(st, f)

    def rebase(self, st):
        """one more element has been returned: N_old = N_new - 1"""
        def f(fs):
            out = []
            for x in fs:
                c = sum(c for t, c in x[1] if t == NSYM)
                out.append((x[0] - c, x[1]))
            return out
        self.map_forms(st, f)
        for k in "nd":
            if st.th[k] is not None:
                st.th[k] += 1

    def name_sum(self, st, k):
        """a sum known as a form so far gets its symbol, because what it consists of is forgotten"""
        g = st.th[k]
        if g is None or not g[1]:
            return
        sym = (0, ((SUMS[k], 1),))

        def f(fs):
            return list(fs) + [lin_add(lin_sub(x, g), sym) for x in fs if any(t == g[1][0][0] for t, _ in x[1])]
        self.map_forms(st, f, g[1][0][0])
        st.th[k] = None

    def grow_sum(self, st, k, v):
        """sum k becomes larger by the value v"""
        if not self.e.mon.sums:
            return
        if st.th[k] == ZERO and v[0] == "s" and not is_anon(v):
            st.th[k] = (0, ((v[1], 1),))
            return
        self.name_sum(st, k)
        st.th[k] = None
        known = v[0] == "s" and not is_anon(v)

        def f(fs):
            out = []
            for x in fs:
                c = sum(c for t, c in x[1] if t == SUMS[k])
                if not c:
                    out.append(x)
                elif known:
                    out.append(lin_add(x, (0, ((v[1], -c),))))
            return out
        self.map_forms(st, f)

    def drop_sum(self, st, k):
        """the sum starts again"""
        if not self.e.mon.sums:
            return
        self.map_forms(st, lambda fs: [x for x in fs if not any(t == SUMS[k] for t, _ in x[1])])
        st.th[k] = ZERO

    def name_sums(self, st, *ks):
        if self.e.mon.sums:
            for k in ks:
                self.name_sum(st, k)

    def next_iterator(self, st):
        """what the last iterator returned now counts as returned by earlier ones"""
        if not self.e.mon.sums:
            return
        th = st.th
        self.name_sums(st, "bi", "bt")
        if th["bi"] != ZERO:
            first = th["bt"] == ZERO
            I_, T_ = SUMS["bi"], SUMS["bt"]

            def f(fs):
                out = []
                for x in fs:
                    c = sum(c for t, c in x[1] if t == I_)
                    d = sum(c for t, c in x[1] if t == T_)
                    rest = (x[0], tuple((t, k) for t, k in x[1] if t != I_ and t != T_))
                    if not c and not d:
                        out.append(x)
                    elif first and not d or c == d:
                        out.append(lin_add(rest, (0, ((T_, c),))))
                return out
            self.map_forms(st, f)
            th["bt"] = None
        self.drop_sum(st, "bi")
        self.drop_sum(st, "bd")

    def item_size(self, item):
        return S("len", ("s", item))

    def define_start(self, st):
        """the current element is a start: its position S is N-1"""
        def f(fs):
            out = []
            for x in fs:
                if any(t == SSYM for t, _ in x[1]):
                    continue
                out.append(x)
                c = sum(c for t, c in x[1] if t == NSYM)
                if c:
                    out.append(lin_add((x[0] + c, tuple((t, k) for t, k in x[1] if t != NSYM)), (0, ((SSYM, c),))))
            return out
        self.map_forms(st, f)
        st.th["s"] = st.th["n"] - 1 if st.th["n"] is not None else None
        st.th["d"] = 1

    def stored(self, st, kind):
        """an element of the given kind was stored"""
        th = st.th
        if kind == "Data":
            th["w"] = "data" if th["w"] != "no" else "no"

            def f(fs):
                return [(x[0] - sum(c for t, c in x[1] if t == PSYM), x[1]) for x in fs]
            self.map_forms(st, f)
            if th["p"] is not None:
                th["p"] += 1
            return
        if kind == "Start":
            self.map_forms(st, lambda fs: [x for x in fs if not any(t == PSYM for t, _ in x[1])])
            th["p"] = 0
        th["w"] = "start" if kind == "Start" else "no"

    def map_forms(self, st, f, extra=None):
        """apply f to the linear forms of all numbers (extra: another symbol of interest)"""
        cache = {}
        named = (NSYM, SSYM, PSYM) + SUMSYMS
        if extra is not None:
            named += (extra,)

        def go(v):
            if v.__class__ is not tuple:
                return v
            if len(v) == 2 and v[0] == "n" and v[1].__class__ is frozenset:
                return mk_int(f(v[1]), 64)
            if len(v) == 2 and v[0] == "s" and v[1] in named:
                return mk_int(f([(0, ((v[1], 1),))]), 64)
            r = cache.get(v)
            if r is None:
                r = tuple([go(x) if x.__class__ is tuple else x for x in v])
                cache[v] = r
            return r
        st.mem = {c: go(v) for c, v in st.mem.items()}
        facts = {}
        for k, v in st.facts.items():
            if k[0] in ("v", "nv") and k[1] in (NSYM, SSYM, PSYM):
                # the counter itself changes; what is known of it is stated in terms of its new value
                w = mk_int(f([(0, ((k[1], 1),))]), 64)
                if w != ("s", k[1]):
                    if k[0] == "v" and w != TOP:
                        facts[("cmp", "eq") + tuple(sorted((("i", v[1], 64), w), key=repr))] = 1
                    continue
            k2 = go(k)
            if not is_anon(k2):
                facts[k2] = v
        st.facts = facts
        st.mon = go(st.mon)
        for fr in st.stack:
            if fr.extra is not None:
                fr.extra = go(fr.extra)

    def map_digest(self, st, m):
        """update the scan component of all digests"""
        cache = {}

        def go(v):
            if v.__class__ is not tuple:
                return v
            if len(v) == 3 and v[0] == "dg":
                return ("dg", m.get(v[1], v[1]), v[2])
            r = cache.get(v)
            if r is None:
                r = tuple([go(x) if x.__class__ is tuple else x for x in v])
                cache[v] = r
            return r
        st.mem = {c: go(v) for c, v in st.mem.items()}
        st.facts = {go(k): v for k, v in st.facts.items()}
        st.mon = go(st.mon)
        for fr in st.stack:
            if fr.extra is not None:
                fr.extra = go(fr.extra)

    def buf_changed(self, st):
        """the contents of buffers changed: a digest in progress no longer matches what will be stored"""
        for k, v in list(st.mem.items()):
            if self.has_tuple_dg(v):
                self.map_wdigest(st, lambda x: "X" if x.__class__ is tuple else x)
                return

    _td = {}

    def has_tuple_dg(self, v):
        if v.__class__ is not tuple:
            return False
        if len(v) == 3 and v[0] == "dg":
            return v[2].__class__ is tuple
        r = self._td.get(v)
        if r is None:
            r = self._td[v] = any(self.has_tuple_dg(x) for x in v)
        return r

    def map_wdigest(self, st, f):
        cache = {}

        def go(v):
            if v.__class__ is not tuple:
                return v
            if len(v) == 3 and v[0] == "dg":
                return ("dg", v[1], f(v[2]))
            r = cache.get(v)
            if r is None:
                r = tuple([go(x) if x.__class__ is tuple else x for x in v])
                cache[v] = r
            return r
        st.mem = {c: go(v) for c, v in st.mem.items()}
        st.facts = {go(k): v for k, v in st.facts.items()}
        st.mon = go(st.mon)
        for fr in st.stack:
            if fr.extra is not None:
                fr.extra = go(fr.extra)

    def on_open(self, st, it):
        self.next_iterator(st)
        self.forget_symbols(st)
        self.map_digest(st, {"D": "X", "P": "X"})
        st.th.update(item=None, ph="none", start=None, nodata=0, scan="open", it=it, n=0, s=None, d=None)

    def on_item(self, st, item):
        # digests: what was complete up to the previous element misses the new one until we know what it is
        m = {"D": "P", "P": "X"}
        if st.th["ph"] == "closed":
            m = {"D": "X", "P": "X"}
            st.th["ph"] = "none"
            st.th["start"] = None
        elif st.th["ph"] == "?":
            m = {"D": "X", "P": "X"}
            st.th["ph"] = "none"
            st.th["start"] = None
        elif st.th["ph"] == "pend":
            # the previous element was never looked at
            m = {"D": "X", "P": "X"}
            st.th["ph"] = "none"
            st.th["start"] = None
        self.map_digest(st, m)
        self.rebase(st)
        st.th["item"] = item
        if st.th["ph"] == "in":
            st.th["ph"] = "pend"
        elif st.th["ph"] == "none":
            st.th["ph"] = "pend0"
        elif st.th["ph"] == "pend0":
            st.th["ph"] = "pend0"

    def discr_known(self, st, t, val):
        """the kind of the current element has become known"""
        item = st.th["item"]
        if item is None or t.__class__ is not tuple or t[0] not in ("app", "f"):
            return
        ph = st.th["ph"]
        data = ("app", "data", ("s", item))
        if ph not in ("pend", "pend0"):
            return
        if t == data and val == 0:
            # undecodable element
            st.th["ph"] = "none"
            st.th["start"] = None
            self.map_digest(st, {"D": "X", "P": "X"})
            return
        if t == ("f", data, (1, 0)):
            kind = next((n for n, k in self.elem_variants.items() if k == val), None)
            if kind == "Start":
                st.th["ph"] = "in"
                st.th["start"] = item
                st.th["nodata"] = 1
                self.map_digest(st, {"D": "X", "P": "X"})
                self.map_digest(st, {"E": "D"})
                self.define_start(st)
                self.drop_sum(st, "bd")
            elif kind == "Data":
                if ph == "pend":
                    self.grow_sum(st, "bd", self.item_size(item))
                st.th["nodata"] = 0
                st.th["ph"] = "in" if ph == "pend" else "none"
            elif kind == "End":
                st.th["ph"] = "closed" if ph == "pend" else "none"
                if ph == "pend":
                    self.map_digest(st, {"P": "D"})

    # ------------------------------------------------------------- call dispatch
    def reg(self, *names):
        def d(f):
            for n in names:
                self.table[n] = f
            return f
        return d

    def lookup(self, path, cpath, info):
        k = (path, info["kind"] if info else None)
        h = self.cache.get(k, 0)
        if h == 0:
            h = self.cache[k] = self._lookup(path, info)
        return h

    def _lookup(self, path, info):
        c = clean(path)
        h = self.override.get(c)
        if h is not None:
            return h
        if info is not None and info["kind"] == "coroutine":
            return self.h_poll
        if c.endswith("core::future::future::Future>::poll") or c == "core::future::future::Future::poll":
            return self.h_poll
        h = self.table.get(c)
        if h is not None:
            return h
        if "precondition_check" in c:
            return self.h_unit
        for pre, h in self.prefix:
            if c.startswith(pre):
                return h
        return None

    def opaque(self, c):
        """a callee without a body: unknown result, everything reachable through its mutable references changes"""
        n = clean(c.path)
        self.opaque_seen[n] = self.opaque_seen.get(n, 0) + 1
        for v, ty in zip(c.vals, c.tys):
            t = self.p.types[ty]
            if t["k"] in ("ref", "ptr") and t.get("mut"):
                loc = self.e.deref(v)
                if loc is not None:
                    self.e.assign(c.st, c.fr, loc, TOP, None)
        self.e.event(c.st, "opaque", n, c.vals)
        t = self.p.types[c.dty]
        if t["k"] == "tuple" and not t["elems"]:
            return c.ret(UNIT)
        if t["k"] == "never":
            self.e.event(c.st, "panic", n, c.vals)
            return self.e.panic(c.st, c.fr, c.unwind)
        a = self.e.fresh(c.st, "op:" + n.split("::")[-1])
        self.e.termty[a] = c.dty
        return c.ret(("s", a))

    # ------------------------------------------------------------- polling
    def h_poll(self, c):
        loc = c.loc(0)
        v = self.e.load(c.st, loc)
        # Pin<&mut Pin<&mut F>> / Pin<&mut &mut F>
        n = 0
        while v[0] == "r" and n < 4:
            loc = self.e.deref(v)
            v = self.e.load(c.st, loc)
            n += 1
        if v[0] == "co":
            return self.e.poll_coroutine(c.st, c.fr, loc, v, c.dest, c.target, c.unwind)
        return self.poll_value(c, loc, v)

    def poll_value(self, c, loc, v):
        e = self.e
        if v[0] != "fut":
            if v[0] == "u":
                raise Stop
            # an unknown future
            c2 = c.fork()
            e.event(c.st, "user_poll", v)
            a = e.fresh(c.st, "userfut")
            out = list(c.ret(ready(("s", a))))
            out.extend(c2.ret(PENDING))
            return out
        return getattr(self, "p_" + v[1])(c, loc, v)

    def done(self, c, loc, v):
        self.e.store(c.st, loc, U)
        return list(c.ret(ready(v)))

    def p_iter_elems(self, c, loc, v):
        e = self.e
        c3 = c.fork()
        e.event(c.st, "iter_try")
        c2 = c.fork()
        it = e.fresh(c.st, "iter")
        self.on_open(c.st, it)
        e.event(c.st, "iter_open", it, v[2][0])
        e.note(c.st, "storage iterator opened")
        out = self.done(c, loc, ok(("s", it)))
        er = e.fresh(c2.st, "err")
        e.event(c2.st, "storage_err", "read", er)
        e.note(c2.st, "iter_elems fails")
        out += self.done(c2, loc, err(("s", er)))
        out += c3.ret(PENDING)
        return out

    def p_next(self, c, loc, v):
        e = self.e
        it = e.load(c.st, e.deref(v[2][0]))
        itt = it[1] if it[0] == "s" else ANON
        e.event(c.st, "iter_poll", itt)
        c2, c3, c4 = c.fork(), c.fork(), c.fork()
        self.buf_changed(c.st)
        self.name_sums(c.st, *SUMS)
        item = e.fresh(c.st, "item")
        if itt != ANON and itt == c.st.th["it"]:
            self.on_item(c.st, item)
            self.grow_sum(c.st, "bi", self.item_size(item))
        elif e.mon.sums:
            raise AnalysisError("an element of an iterator that is not followed")
        e.event(c.st, "item", item, itt)
        e.note(c.st, "element returned")
        out = self.done(c, loc, ok(some(("s", item))))
        if itt != ANON and itt == c2.st.th["it"]:
            c2.st.th["scan"] = "end"
        e.event(c2.st, "iter_end", itt)
        e.note(c2.st, "end of storage")
        out += self.done(c2, loc, ok(NONE))
        er = e.fresh(c3.st, "err")
        e.event(c3.st, "storage_err", "read", er)
        e.note(c3.st, "next fails")
        out += self.done(c3, loc, err(("s", er)))
        out += c4.ret(PENDING)
        return out

    def p_push(self, c, loc, v):
        e = self.e
        elem = e.load(c.st, e.deref(v[2][1]))
        e.event(c.st, "push", elem)
        c2, c3 = c.fork(), c.fork()
        w = self.elem_of(c.st, elem)
        e.event(c.st, "push_ok", elem)
        e.note(c.st, "pushed %s" % (w or "?"))
        if w == "Start":
            self.map_wdigest(c.st, lambda x: "D" if x == "E" else "X")
        elif w == "Data":
            sl = self.elem_bytes(c.st, elem)

            def f(x):
                if x == "D":
                    return ("P", sl) if not is_anon(sl) else "X"
                if x.__class__ is tuple and x[0] == "A" and x[1] == sl and not is_anon(sl):
                    return "D"
                return "X"
            self.map_wdigest(c.st, f)
        self.stored(c.st, w)
        self.name_sums(c.st, "bw")
        u = e.fresh(c.st, "used")
        self.grow_sum(c.st, "bw", ("s", u))
        out = self.done(c, loc, ok(("s", u)))
        er = e.fresh(c2.st, "err")
        e.event(c2.st, "storage_err", "write", er)
        e.note(c2.st, "push fails")
        out += self.done(c2, loc, err(("s", er)))
        out += c3.ret(PENDING)
        return out

    def elem_of(self, st, elem):
        if elem[0] == "a" and elem[1] is not None:
            return next((n for n, k in self.elem_variants.items() if k == elem[1]), None)
        if elem[0] == "s":
            d = self.e.known_discr(st, elem[1])
            return next((n for n, k in self.elem_variants.items() if k == d), None)
        return None

    def elem_bytes(self, st, elem):
        """the bytes of a data element"""
        v = self.e.project(elem, (self.elem_variants.get("Data", 1), 0))
        return self.e.norm(st, self.e.project(v, (0, 0)))

    def p_invalidate(self, c, loc, v):
        e = self.e
        item = v[2][0]
        e.event(c.st, "inval", item)
        c2, c3 = c.fork(), c.fork()
        e.event(c.st, "inval_ok", item)
        self.grow_sum(c.st, "bx", self.item_size(item[1]) if item[0] == "s" else TOP)
        e.note(c.st, "element invalidated")
        out = self.done(c, loc, ok(UNIT))
        er = e.fresh(c2.st, "err")
        e.event(c2.st, "storage_err", "write", er)
        e.note(c2.st, "invalidate fails")
        out += self.done(c2, loc, err(("s", er)))
        out += c3.ret(PENDING)
        return out

    def p_lock(self, c, loc, v):
        e = self.e
        e.event(c.st, "lock_wait", v[2][0])
        c2 = c.fork()
        g = self.acquire(c.st, v[2][0])
        out = self.done(c, loc, g)
        out += c2.ret(PENDING)
        return out

    def acquire(self, st, m):
        e = self.e
        self.havoc_shared(st)
        a = e.fresh(st, "inner")
        if st.th["lock"] is not None:
            e.event(st, "relock")
        st.th["lock"] = a
        e.event(st, "lock", a, m)
        e.note(st, "list locked")
        return ("fut", "guard", (m, ("s", a)))

    def release(self, st, v):
        a = v[2][1][1]
        self.e.event(st, "unlock", a)
        self.e.note(st, "list unlocked")
        if st.th["lock"] == a:
            st.th["lock"] = None
        self.havoc_shared(st)

    def p_wait(self, c, loc, v):
        e = self.e
        q = self.queue(e.deref(v[2][0]))
        e.event(c.st, "wait", q)
        c2 = c.fork()
        e.event(c.st, "woken", q)
        out = self.done(c, loc, ok(UNIT))
        out += c2.ret(PENDING)
        return out

    def p_wfv(self, c, loc, v):
        """wait_for_value(closure): completes with the closure's value once it is Some"""
        e = self.e
        st = c.st
        q = self.queue(e.deref(v[2][0]))
        e.event(st, "wait_for", q, v[2][1])
        if isinstance(c, NatCtx):
            raise AnalysisError("wait_for_value below select")
        clo = v[2][1]
        fr = c.fr
        n = Frame(None, 0, c.dest, c.target, c.unwind, "nat", ("wfb" if v[2][3] == I(1, 1) else "wfv", loc, q), fr.depth, ("wfv",))
        st.stack.append(n)
        inst = self.closure_inst(st, c.tys, v)
        body = self.p.body(inst)
        arg = ("r", loc[0], loc[1] + ((0, 1),)) if self.p.types[body.locals[1][0]]["k"] == "ref" else clo
        return e.push(st, inst, [arg], None, None, None)

    def closure_inst(self, st, tys, v):
        i = v[2][2]
        if i[0] != "i":
            raise AnalysisError("unknown closure")
        return i[1]

    def p_guard(self, c, loc, v):
        raise AnalysisError("guard polled")

    def p_timer(self, c, loc, v):
        e = self.e
        c2 = c.fork()
        e.event(c.st, "timer", v[2][0])
        out = self.done(c, loc, UNIT)
        out += c2.ret(PENDING)
        return out

    def p_sigwait(self, c, loc, v):
        e = self.e
        c2 = c.fork()
        e.event(c.st, "sigwait", v[2][0])
        a = e.fresh(c.st, "sig")
        e.event(c.st, "sigtaken", v[2][0])
        out = self.done(c, loc, ("s", a))
        out += c2.ret(PENDING)
        return out

    def p_proc(self, c, loc, v):
        return self.proc_poll(c, loc, v)

    def p_select(self, c, loc, v):
        """one future wins; the others have been polled up to some suspension point and are dropped"""
        if isinstance(c, NatCtx):
            raise AnalysisError("nested select")
        out = []
        n = len(v[2])
        for w in range(n):
            s = c.st.copy()
            fr = s.stack[-1]
            order = tuple(i for i in range(n) if i != w) + (w,)
            nf = Frame(None, 0, c.dest, c.target, c.unwind, "nat", ("select", "select", loc, w, order), fr.depth, ("select", w))
            s.stack.append(nf)
            out.append(s)
        return out

    def p_timeout(self, c, loc, v):
        if isinstance(c, NatCtx):
            # nested below select: complete, time out, or stay pending
            e = self.e
            out = []
            c2 = c.fork()
            sub = (loc[0], loc[1] + ((0, 0),))
            sv = e.load(c.st, sub)
            if sv[0] != "fut":
                raise AnalysisError("with_timeout of an async block below select")
            raise AnalysisError("with_timeout below select")
        out = []
        for w in (0, 1):
            s = c.st.copy()
            fr = s.stack[-1]
            nf = Frame(None, 0, c.dest, c.target, c.unwind, "nat", ("select", "timeout", loc, w, (0, 1) if w == 1 else (0,)), fr.depth, ("timeout", w))
            s.stack.append(nf)
            out.append(s)
        return out

    def resume(self, st, fr):
        x = fr.extra
        if x[0] == "dropact":
            st.stack.pop()
            v = x[1]
            if v[0] == "fut":
                self.drop_future(st, v[1])
            else:
                self.e.event(st, "drop_user", v[1])
            return (st,)
        return getattr(self, "r_" + x[0])(st, fr)

    def leave(self, st, fr, v):
        """return v from a native frame"""
        st.stack.pop()
        if fr.extra[0] == "fold":
            st.mem.pop((fr.depth, 0), None)
        below = st.stack[-1]
        if fr.target is None:
            return ()
        if fr.dest is not None:
            self.e.assign(st, below, fr.dest, v, None)
        below.bb = fr.target
        return (st,)

    def r_wfb(self, st, fr):
        """wait_for: completes once the closure gives true"""
        e = self.e
        _, loc, q = fr.extra[:3]
        v = fr.extra[3][1]
        out = []
        for b in (0, 1):
            s = st.copy()
            if v[0] == "i" and v[1] != b or v[0] == "s" and not is_anon(v) and not e.assume(s, v[1], b):
                continue
            f = s.stack[-1]
            if b:
                e.store(s, loc, U)
                out.extend(self.leave(s, f, ready(ok(UNIT))))
            else:
                out.extend(self.leave(s, f, PENDING))
        return out

    def r_wfv(self, st, fr):
        e = self.e
        _, loc, q = fr.extra[:3]
        v = fr.extra[3][1]
        out = []
        s2 = st.copy()
        # Some(x)
        if v[0] == "a":
            branches = [v[1]]
        elif v[0] == "s" and not is_anon(v):
            branches = [0, 1]
        else:
            branches = [0, 1]
        for b in branches:
            s = st.copy()
            if v[0] == "s" and not e.assume_discr(s, v[1], b):
                continue
            f = s.stack[-1]
            if b == 1:
                e.store(s, loc, U)
                e.event(s, "wfv_done", q, e.project(v, (1, 0)))
                out.extend(self.leave(s, f, ready(ok(e.project(v, (1, 0))))))
            else:
                out.extend(self.leave(s, f, PENDING))
        return out

    def r_select(self, st, fr):
        e = self.e
        x = fr.extra
        kind, loc, w, order = x[1:5]
        if len(x) == 5:
            # start the next future
            i = order[0]
            if kind == "timeout" and i == 1:
                # the timeout fires
                e.event(st, "timeout", e.load(st, (loc[0], loc[1] + ((0, 1),))))
                e.store(st, loc, U)
                return self.leave(st, fr, ready(err(TOP)))
            sub = (loc[0], loc[1] + ((0, i),))
            v = e.load(st, sub)
            if v[0] == "co":
                return e.poll_coroutine(st, fr, sub, v, None, None, None)
            if i != w:
                # it stays pending
                fr.extra = x + (("pend",),)
                return (st,)
            if v[0] == "u":
                raise Stop
            return self.poll_value(NatCtx(e, st, fr), sub, v)
        r = x[5]
        i = order[0]
        if r[0] == "ret":
            if i != w:
                return ()
            e.event(st, kind + "_won", w, r[1])
            self.drop_subs(st, loc)
            if kind == "timeout":
                return self.leave(st, fr, ready(ok(r[1])))
            return self.leave(st, fr, ready(("a", w, (r[1],))))
        if r[0] == "cancelled":
            if i != w:
                st.cancel = False
                self.other_tasks_run(st)
                fr.extra = ("select", kind, loc, w, order[1:])
                return (st,)
            self.drop_subs(st, loc)
            return self.leave(st, fr, PENDING)
        # pending
        if i != w:
            fr.extra = ("select", kind, loc, w, order[1:])
            return (st,)
        s2 = st.copy()
        s2.cancel = True
        self.drop_subs(s2, loc)
        out = list(self.leave(s2, s2.stack[-1], PENDING))
        e.event(st, "suspend")
        self.other_tasks_run(st)
        fr.extra = ("select", kind, loc, w, order)
        out.append(st)
        return out

    def drop_subs(self, st, loc):
        v = self.e.load(st, loc)
        if v[0] == "fut":
            for s in v[2]:
                if s[0] == "fut":
                    self.drop_future(st, s)
        self.e.store(st, loc, U)

    def drop_future(self, st, v):
        if v[1] == "guard":
            self.release(st, v)
        else:
            self.e.event(st, "drop_future", v[1], v[2])

    def drop_value(self, st, loc, v, t):
        return None

    def drop_opaque(self, st, v, t):
        self.e.event(st, "drop_user", v)

    # ------------------------------------------------------------- interference
    def shared(self, st, cell):
        if cell[0] != "h":
            return False
        t = cell[1]
        if t[0] == "const" or t[0] == "static":
            return False
        if t[0] == "arg":
            ty = self.e.termty.get(t)
            if ty is not None:
                x = self.p.types[ty]
                return x["k"] == "ref" and not x.get("mut")
            return True
        if t[0] == "new":
            # memory behind the lock is handled by its name; private objects are not shared
            return t[2] in ("load", "node", "list") or t[2].startswith("op:")
        return True

    def havoc_shared(self, st):
        for c in list(st.mem):
            if c[0] == "h" and self.shared(st, c):
                st.mem[c] = TOP
        for k in list(st.facts):
            if self.mentions_shared(k):
                del st.facts[k]

    _ms = {}

    def mentions_shared(self, k):
        r = self._ms.get(k)
        if r is None:
            r = False
            if k.__class__ is tuple:
                if len(k) == 2 and k[0] == "*" and k[1].__class__ is tuple:
                    r = self.shared(None, ("h", k[1]))
                if not r:
                    r = any(self.mentions_shared(x) for x in k if x.__class__ is tuple)
            self._ms[k] = r
        return r

    def other_tasks_run(self, st):
        if st.th["lock"] is None:
            self.havoc_shared(st)

    # ------------------------------------------------------------- indirect calls
    def indirect(self, st, fr, f, vals, tys, dest, dty, target, unwind):
        """a call through a function pointer: the nodes' (de)serialization functions"""
        e = self.e
        role = "?"
        if len(tys) == 2:
            t = self.p.types[tys[1]]
            if t["k"] == "ref":
                role = "serialize" if t.get("mut") else "deserialize"
        e.event(st, "vtable", role, f, vals)
        if role != "deserialize":
            self.buf_changed(st)
        out = []

        def fin(s, v):
            f2 = s.stack[-1]
            if dest is not None:
                e.assign(s, f2, dest, v, dty)
            f2.bb = target
            out.append(s)
        s2, s3 = st.copy(), st.copy()
        a = e.fresh(st, role + "_len")
        e.event(st, "vtable_ok", role, f, vals, ("s", a))
        if role == "serialize":
            self.assume_le(st, ("s", a), self.slice_len(vals[1], tys[1], st))
        e.note(st, "%s succeeds" % role)
        fin(st, ok(("s", a)))
        e.event(s2, "vtable_err", role, f, vals)
        e.note(s2, "%s fails" % role)
        fin(s2, err(UNIT))
        e.note(s3, "%s panics" % role)
        e.event(s3, "user_panic", role)
        out.extend(e.panic(s3, s3.stack[-1], unwind))
        return out

    def assume_le(self, st, a, b):
        t = self.e.compare(st, "lt", b, a)
        if t[0] == "s" and not is_anon(t):
            self.e.assume(st, t[1], 0)

    # ------------------------------------------------------------- slices
    def slice_of(self, c, i):
        """(base loc, lo, hi) of the i-th argument, a slice or array reference"""
        return self.slice_val(c.vals[i])

    def slice_val(self, v):
        if v[0] == "sl":
            return v
        loc = self.e.deref(v)
        if loc is None:
            return None
        return ("sl", loc[0], loc[1], I(0, 64), None)

    def slice_len(self, v, ty=None, st=None):
        """length of a slice or array reference as an integer value"""
        if st is not None and (v[0] == "r" or v[0] == "sl" and v[4] is None):
            # a part of an array in a local variable
            x = self.e.load(st, (v[1], v[2]))
            if x[0] == "a" and x[1] == 0 and v[1][0].__class__ is int:
                return I(len(x[2]) - (v[3][1] if v[0] == "sl" else 0), 64) if v[0] == "r" or v[3][0] == "i" else TOP
        if ty is not None:
            t = self.p.types[ty]
            if t["k"] in ("ref", "ptr"):
                t = self.p.types[t["to"]]
            if t["k"] == "array" and isinstance(t.get("len"), int):
                return I(t["len"], 64)
        if v[0] == "sl":
            if v[4] is None:
                base = self.base_len(v)
                return self.e.binop(None, "Sub", base, v[3], None)
            return self.e.binop(None, "Sub", v[4], v[3], None)
        if v[0] == "str":
            return I(len(v[1]), 64)
        if is_anon(v):
            return TOP
        return ("s", ("len", v))

    def base_len(self, v):
        if is_anon(v):
            return TOP
        r = self.e.mkref(None, (v[1], v[2]))
        return ("s", ("len", r)) if not is_anon(r) else TOP

    def sub(self, v, lo, hi):
        """sub-slice lo..hi (hi None = to the end) of a slice reference"""
        b = self.slice_val(v)
        if b is None:
            return TOP
        e = self.e
        nlo = e.binop(None, "Add", b[3], lo, None)
        nhi = e.binop(None, "Add", b[3], hi, None) if hi is not None else b[4]
        if nlo == I(0, 64) and nhi is None:
            return e.mkref(None, (b[1], b[2]))
        return ("sl", b[1], b[2], nlo, nhi)

    def elem_loc(self, v, idx):
        b = self.slice_val(v)
        if b is None:
            return None
        i = self.e.binop(None, "Add", b[3], idx, None)
        return (b[1], b[2] + (("x", self.e.idx_key(i)),))

    def range_arg(self, v, ty):
        """(lo, hi) of an index argument; None when it is a plain integer"""
        t = self.p.types[ty]
        if t["k"] != "adt":
            return None
        n = t["path"].split("::")[-1]
        g = lambda i: self.e.project(v, (0, i))
        if n == "Range":
            return g(0), g(1)
        if n == "RangeFrom":
            return g(0), None
        if n == "RangeTo":
            return I(0, 64), g(0)
        if n == "RangeFull":
            return I(0, 64), None
        if n == "RangeInclusive":
            return g(0), self.e.binop(None, "Add", g(1), I(1, 64), None)
        if n == "RangeToInclusive":
            return I(0, 64), self.e.binop(None, "Add", g(0), I(1, 64), None)
        return TOP, TOP

    def len_facts(self, st, ln):
        """(lower bound, exact) known for a length value"""
        if ln[0] == "i":
            return ln[1], ln[1]
        lo = 0
        if ln[0] in ("s", "n"):
            for k, val in st.facts.items():
                if k[0] == "cmp" and ln in k[2:]:
                    o = k[2] if k[3] == ln else k[3]
                    if o[0] != "i":
                        continue
                    if k[1] == "eq" and val == 1:
                        return o[1], o[1]
                    if k[1] == "eq" and val == 0 and o[1] == 0:
                        lo = max(lo, 1)
                    if k[1] == "lt":
                        if k[2] == ln and val == 0:      # !(len < o)
                            lo = max(lo, o[1])
                        if k[3] == ln and val == 1:      # o < len
                            lo = max(lo, o[1] + 1)
            if ln[0] == "s":
                f = st.facts.get(("v", ln[1]))
                if f is not None:
                    return f[1], f[1]
                nv = st.facts.get(("nv", ln[1]))
                if nv and 0 in nv:
                    lo = max(lo, 1)
            if ln[0] == "n":
                # len(base) - k: derive from what is known about len(base)
                for f in ln[1]:
                    if len(f[1]) == 1 and f[1][0][1] == 1:
                        l2, ex = self.len_facts(st, ("s", f[1][0][0]))
                        lo = max(lo, l2 + f[0])
                        if ex is not None:
                            return ex + f[0], ex + f[0]
                    elif all(n > 0 for _, n in f[1]):
                        lo = max(lo, f[0])
            lo, ex = self.linear_facts(st, ln, lo)
            if ex is not None:
                return ex, ex
        return lo, None

    def linear_facts(self, st, ln, lo):
        """what the comparisons made so far say about a linear expression"""
        mine = forms(ln)
        for k, val in st.facts.items():
            if k[0] != "cmp" or k[1] not in ("eq", "lt") or k[1] == "eq" and val != 1:
                continue
            if ln[0] == "s" and k[2][0] != "n" and k[3][0] != "n":
                continue
            for x in forms(k[2]):
                for y in forms(k[3]):
                    d = lin_add(x, y, -1)
                    if not d[1]:
                        continue
                    neg = lin_add((0, ()), d, -1)
                    for m in mine:
                        if d[1] == m[1]:        # x - y = ln - m0 + d0
                            if k[1] == "eq":
                                return lo, m[0] - d[0]
                            if not val:
                                lo = max(lo, m[0] - d[0])
                        elif neg[1] == m[1]:    # y - x = ln - m0 + neg0
                            if k[1] == "eq":
                                return lo, m[0] - neg[0]
                            if val:
                                lo = max(lo, m[0] - neg[0] + 1)
        return lo, None

    def in_bounds(self, st, bound, ln):
        """is bound <= len known"""
        if bound is None:
            return True
        if bound[0] == "i" and bound[1] <= self.len_facts(st, ln)[0]:
            return True
        return self.e.eq_known(st, bound, ln) or self.le(st, bound, ln)

    def le(self, st, a, b):
        """is a <= b known from one comparison: the same linear inequality in another form"""
        want = {lin_add(x, y, -1) for x in forms(a) for y in forms(b)}
        if any(not w[1] and w[0] <= 0 for w in want):
            return True
        for k, v in st.facts.items():
            if k[0] != "cmp" or k[1] == "eq" and v != 1:
                continue
            for x in forms(k[2]):
                for y in forms(k[3]):
                    # lt true: x <= y - 1; lt false: y <= x
                    if k[1] == "eq":
                        ds = (lin_add(x, y, -1), lin_add(y, x, -1))
                    else:
                        ds = (lin_add(lin_add(x, y, -1), (1, ())),) if v else (lin_add(y, x, -1),)
                    for d in ds:            # d <= 0
                        if any(w[1] == d[1] and w[0] <= d[0] for w in want):
                            return True
        return False

    def holds_lt(self, st, a, b):
        if a[0] == "i":
            return a[1] < self.len_facts(st, b)[0]
        t = self.e.compare(st, "lt", a, b)
        return t[0] == "i" and t[1] == 1

    def h_index(self, c):
        """slice indexing with a bounds check that panics"""
        e = self.e
        r = self.range_arg(c.vals[1], c.tys[1])
        ln = self.slice_len(c.vals[0], c.tys[0], c.st)
        if r is None:
            loc = self.elem_loc(c.vals[0], c.vals[1])
            e.event(c.st, "index", self.holds_lt(c.st, c.vals[1], ln), c.vals, ln)
            return c.ret(e.mkref(c.st, loc))
        lo, hi = r
        proven = (self.in_bounds(c.st, hi, ln) if hi is not None else self.in_bounds(c.st, lo, ln))
        if hi is not None and not (lo[0] == "i" and (lo[1] == 0 or hi[0] == "i" and lo[1] <= hi[1])):
            proven = False
        e.event(c.st, "index", proven, c.vals, ln)
        return c.ret(self.sub(c.vals[0], lo, hi))

    def h_get(self, c):
        e = self.e
        r = self.range_arg(c.vals[1], c.tys[1])
        c2 = c.fork()
        ln = self.slice_len(c.vals[0], c.tys[0])
        if r is None:
            out = list(c.ret(some(e.mkref(c.st, self.elem_loc(c.vals[0], c.vals[1])))))
        else:
            lo, hi = r
            t = e.compare(c.st, "lt", ln, hi if hi is not None else lo)
            if t[0] == "i" and t[1]:
                out = []
            elif t[0] == "s" and not e.assume(c.st, t[1], 0):
                out = []
            else:
                out = list(c.ret(some(self.sub(c.vals[0], lo, hi))))
            t = e.compare(c2.st, "lt", ln, hi if hi is not None else lo)
            if t[0] == "i" and not t[1]:
                return out
            if t[0] == "s" and not e.assume(c2.st, t[1], 1):
                return out
        out += c2.ret(NONE)
        return out

    def h_get_unchecked(self, c):
        e = self.e
        r = self.range_arg(c.vals[1], c.tys[1])
        e.event(c.st, "get_unchecked", c.vals)
        if r is None:
            return c.ret(e.mkref(c.st, self.elem_loc(c.vals[0], c.vals[1])))
        return c.ret(self.sub(c.vals[0], *r))

    def nonempty_fork(self, c):
        """(ctx for empty or None, ctx for non-empty or None)"""
        e = self.e
        ln = self.slice_len(c.vals[0], c.tys[0])
        c2 = c.fork()
        t = e.compare(c.st, "eq", ln, I(0, 64))
        empty, full = c2, c
        if t[0] == "i":
            if t[1]:
                full = None
            else:
                empty = None
        elif t[0] == "s":
            if self.len_facts(c2.st, ln)[0] >= 1 or not e.assume(c2.st, t[1], 1):
                empty = None
            if not e.assume(c.st, t[1], 0):
                full = None
        return empty, full

    def h_split_first(self, c):
        e = self.e
        emp, full = self.nonempty_fork(c)
        out = []
        if full:
            f = e.mkref(c.st, self.elem_loc(c.vals[0], I(0, 64)))
            out += full.ret(some(("a", 0, (f, self.sub(c.vals[0], I(1, 64), None)))))
        if emp:
            out += emp.ret(NONE)
        return out

    def h_first(self, c):
        e = self.e
        emp, full = self.nonempty_fork(c)
        out = []
        if full:
            out += full.ret(some(e.mkref(c.st, self.elem_loc(c.vals[0], I(0, 64)))))
        if emp:
            out += emp.ret(NONE)
        return out

    def h_last(self, c):
        e = self.e
        emp, full = self.nonempty_fork(c)
        out = []
        if full:
            b = self.slice_val(c.vals[0])
            loc = (b[1], b[2] + (("x", ("end", 1)),)) if b is not None and b[4] is None else None
            out += full.ret(some(e.mkref(c.st, loc)))
        if emp:
            out += emp.ret(NONE)
        return out

    def h_is_empty(self, c):
        return c.ret(self.e.compare(c.st, "eq", self.slice_len(c.vals[0], c.tys[0]), I(0, 64)))

    def h_len(self, c):
        return c.ret(self.e.norm(c.st, self.slice_len(c.vals[0], c.tys[0], c.st)))

    def h_slice_iter(self, c):
        v = c.vals[0]
        full = self.len_facts(c.st, self.slice_len(v, c.tys[0], c.st))[0] >= 1
        return c.ret(("fut", "sliceiter", (v, I(1 if full else 0, 1))))

    def elem_ref(self, st, it, a):
        if it[0] == "fut" and it[1] == "sliceiter":
            b = self.slice_val(it[2][0])
            if b is not None:
                return self.e.mkref(st, (b[1], b[2] + (("x", ("s", a)),)))
        return TOP

    def h_slice_next(self, c):
        e = self.e
        it = c.load(0)
        c2 = c.fork()
        if it[0] == "fut" and it[1] == "sliceiter" and it[2][1] == I(1, 1):
            # it has a first element
            c2 = None
            e.store(c.st, c.loc(0), ("fut", "sliceiter", (it[2][0], I(0, 1))))
        ref = self.elem_ref(c.st, it, e.fresh(c.st, "elem"))
        e.event(c.st, "slice_next", ref)
        out = list(c.ret(some(ref)))
        if c2 is None:
            return out
        e.event(c2.st, "slice_end", ref)
        out += c2.ret(NONE)
        return out

    def h_fold(self, c):
        """Iterator::fold over a slice iterator: call the closure until the iterator ends"""
        clo = c.vals[2]
        e = self.e
        st = c.st
        nf = Frame(None, 0, c.dest, c.target, c.unwind, "nat", ("fold", c.vals[0], clo, I(self.callable_inst(c.tys[2]), 1)), c.fr.depth + 1, ("fold",))
        st.stack.append(nf)
        st.mem[(nf.depth, 0)] = clo
        nf.extra = nf.extra + (("ret", c.vals[1]),)
        return (st,)

    def callable_inst(self, ty):
        t = self.p.types[ty]
        i = t.get("inst")
        if i is None:
            raise AnalysisError("call of an unknown closure type %s" % t["s"])
        return i

    def r_fold(self, st, fr):
        e = self.e
        _, it, clo, inst = fr.extra[:4]
        acc = fr.extra[4][1]
        s2 = st.copy()
        e.event(st, "slice_end", self.elem_ref(st, it, e.fresh(st, "elem")))
        out = list(self.leave(st, fr, acc))
        fr = s2.stack[-1]
        a = e.fresh(s2, "elem")
        fr = s2.stack[-1]
        _, it, clo, inst = fr.extra[:4]
        acc = fr.extra[4][1]
        ref = self.elem_ref(s2, it, a)
        fr.extra = fr.extra[:4]
        e.event(s2, "slice_next", ref)
        body = self.p.body(inst[1])
        if self.p.types[body.locals[1][0]]["k"] == "ref":
            clo = ("r", (fr.depth, 0), ())
        if body.argc == 2 and body.locals[2][0] is not None:
            args = [clo, ("a", 0, (acc, ref))]
        else:
            args = [clo, acc, ref]
        out.extend(e.push(s2, inst[1], args, None, None, None))
        return out

    def h_havoc_slice(self, c):
        """an in-place permutation or overwrite of a slice"""
        e = self.e
        b = self.slice_val(c.vals[0])
        e.event(c.st, "slice_mut", clean(c.path), c.vals)
        if b is not None:
            e.store(c.st, (b[1], b[2]), ("s", e.fresh(c.st, "slice")))
        return c.ret(UNIT)

    def h_copy_from_slice(self, c):
        e = self.e
        d = self.slice_val(c.vals[0])
        s = self.slice_val(c.vals[1])
        ld, ls = self.slice_len(c.vals[0], c.tys[0], c.st), self.slice_len(c.vals[1], c.tys[1], c.st)
        proven = e.eq_known(c.st, ld, ls)
        if not proven:
            a, b = self.len_facts(c.st, ld)[1], self.len_facts(c.st, ls)[1]
            proven = a is not None and a == b
        e.event(c.st, "index", proven, c.vals, ld)
        n = None
        for v, ty in zip(c.vals, c.tys):
            x = self.len_facts(c.st, self.slice_len(v, ty, c.st))[1]
            n = x if x is not None else n
        if d is not None and s is not None and n is not None and n <= 16:
            # element by element
            vals = self.bytes_of(c.st, c.vals[1], n)
            for i in range(n):
                loc = self.elem_loc(c.vals[0], I(i, 64))
                e.assign(c.st, c.fr, loc, vals[i], None)
            return c.ret(UNIT)
        src = S("bytes", c.vals[1])
        if s is not None and c.vals[1][0] != "sl":
            v = e.load(c.st, (s[1], s[2]))
            if not is_anon(v) and v[0] in ("s", "a", "o"):
                src = v if v[0] == "s" else S("val", v)
        if d is not None:
            if d[3] == I(0, 64) and d[4] is None:
                loc = (d[1], d[2])
            else:
                loc = (d[1], d[2] + (("x", ("sub", d[3], d[4])),))
            e.assign(c.st, c.fr, loc, src, None)
        return c.ret(UNIT)

    def bytes_of(self, st, ref, n):
        """the first n elements of a slice"""
        e = self.e
        return tuple(e.load(st, self.elem_loc(ref, I(i, 64))) for i in range(n))

    def h_to_bytes(self, c):
        o = c.path.split("::")[-1][3:5]
        n = self.p.types[c.dty].get("len")
        if not isinstance(n, int):
            return c.ret(TOP)
        return c.ret(("a", 0, tuple(S("byte", ("str", o), c.vals[0], I(i, 64)) for i in range(n))))

    def h_from_bytes(self, c):
        o = c.path.split("::")[-1][5:7]
        n = self.p.types[c.tys[0]].get("len")
        if not isinstance(n, int):
            return c.ret(TOP)
        bs = [self.e.norm(c.st, self.e.project(c.vals[0], ("x", i))) for i in range(n)]
        b0 = bs[0]
        if b0[0] == "s" and b0[1][0] == "app" and b0[1][1] == "byte" and b0[1][2] == ("str", o):
            v = b0[1][3]
            if all(b == S("byte", ("str", o), v, I(i, 64)) for i, b in enumerate(bs)):
                return c.ret(v)
        return c.ret(S("int", ("str", o), *bs))

    def h_to_array(self, c):
        """slice -> array (or reference to an array) of the same length"""
        e = self.e
        t = self.p.types[c.dty]
        t = self.p.types[t["variants"][0][2][0][1]] if c.path.endswith("try_from") else self.p.types[t["variants"][1][2][0][1]]
        split = t["k"] == "tuple"
        if split:
            t = self.p.types[t["elems"][0]]
        ref = t["k"] == "ref"
        if ref:
            t = self.p.types[t["to"]]
        n = t.get("len")
        if not isinstance(n, int):
            return self.opaque(c)
        ln = self.slice_len(c.vals[0], c.tys[0])
        c2 = c.fork()
        if c.path.endswith("try_from"):
            cond, want = e.compare(c.st, "eq", ln, I(n, 64)), 1
        else:
            cond, want = e.compare(c.st, "lt", ln, I(n, 64)), 0
        out = []
        if cond[0] == "i" and cond[1] == want or cond[0] == "s" and e.assume(c.st, cond[1], want):
            v = self.sub(c.vals[0], I(0, 64), I(n, 64)) if not c.path.endswith("try_from") or ref else None
            if not ref:
                v = ("a", 0, self.bytes_of(c.st, c.vals[0], n))
            if split:
                v = ("a", 0, (v, self.sub(c.vals[0], I(n, 64), None)))
            out += c.ret(ok(v) if c.path.endswith("try_from") else some(v))
        if cond[0] == "i" and cond[1] != want or cond[0] == "s" and e.assume(c2.st, cond[1], 1 - want):
            out += c2.ret(err(TOP) if c.path.endswith("try_from") else NONE)
        return out

    def h_split_at(self, c):
        e = self.e
        ln = self.slice_len(c.vals[0], c.tys[0], c.st)
        mid = c.vals[1]
        pair = ("a", 0, (self.sub(c.vals[0], I(0, 64), mid), self.sub(c.vals[0], mid, None)))
        if not c.path.endswith("_checked"):
            e.event(c.st, "index", self.in_bounds(c.st, mid, ln), c.vals, ln)
            return c.ret(pair)
        c2 = c.fork()
        t = e.compare(c.st, "lt", ln, mid)
        out = []
        if t[0] == "i" and not t[1] or t[0] == "s" and e.assume(c.st, t[1], 0):
            out += c.ret(some(pair))
        if t[0] == "i" and t[1] or t[0] == "s" and e.assume(c2.st, t[1], 1):
            out += c2.ret(NONE)
        return out

    def h_bytes_eq(self, c):
        a, b = c.vals[0], c.vals[1]
        for _ in range(2):
            # && str
            pass
        va, vb = S("bytes", a), S("bytes", b)
        return c.ret(self.e.compare(c.st, "eq", va, vb))

    # ------------------------------------------------------------- misc handlers
    def h_unit(self, c):
        return c.ret(UNIT)

    def h_top(self, c):
        return c.ret(TOP)

    def h_panic(self, c):
        self.e.event(c.st, "panic", clean(c.path), c.vals)
        self.e.note(c.st, "panic")
        return self.e.panic(c.st, c.fr, c.unwind)

    def h_identity(self, c):
        return c.ret(c.vals[0])

    def h_user(self, what):
        def h(c):
            e = self.e
            if c.info is not None and self.p.body(c.inst) is not None:
                return None         # a known function or closure behind a call shim
            c2 = c.fork()
            e.event(c.st, "user_call", what, c.vals)
            a = e.fresh(c.st, what)
            e.termty[a] = c.dty
            e.event(c.st, "user_result", what, c.vals, ("s", a))
            out = list(c.ret(("s", a)))
            e.event(c2.st, "user_panic", what)
            e.note(c2.st, "%s panics" % what)
            out.extend(e.panic(c2.st, c2.fr, c2.unwind))
            return out
        return h

    # ------------------------------------------------------------- atomics
    def isptr(self, ty):
        t = self.p.types[ty]
        return t["k"] == "ptr"

    def h_aload(self, c):
        e = self.e
        loc = c.loc(0)
        ptr = self.isptr(c.dty)
        v = e.load(c.st, loc)
        if loc is not None and loc[0][0] == "h":
            if ptr or c.st.th["lock"] is None or is_anon(v) or v[0] == "u":
                v = ("s", e.fresh(c.st, "load"))
                e.termty[v[1]] = c.dty
                e.store(c.st, loc, v)
        e.event(c.st, "aload", loc, v, c.vals[1], c.dty)
        return c.ret(v)

    def h_astore(self, c):
        e = self.e
        loc = c.loc(0)
        e.event(c.st, "astore", loc, c.vals[1], c.vals[2], c.tys[1])
        e.store(c.st, loc, c.vals[1])
        return c.ret(UNIT)

    def h_aswap(self, c):
        e = self.e
        loc = c.loc(0)
        v = ("s", e.fresh(c.st, "load"))
        e.event(c.st, "aload", loc, v, c.vals[2], c.dty)
        e.event(c.st, "astore", loc, c.vals[1], c.vals[2], c.tys[1])
        e.store(c.st, loc, c.vals[1])
        return c.ret(v)

    def h_acas(self, c):
        e = self.e
        loc = c.loc(0)
        old, new = c.vals[1], c.vals[2]
        c2 = c.fork()
        e.event(c.st, "acas", loc, old, new, True, c.tys[1], c.vals[3])
        e.store(c.st, loc, new)
        out = list(c.ret(ok(old)))
        e.event(c2.st, "acas", loc, old, new, False, c.tys[1], c.vals[3])
        v = ("s", e.fresh(c2.st, "load"))
        e.store(c2.st, loc, v)
        if "weak" not in c.path:
            t = e.compare(c2.st, "eq", v, old)
            if t[0] == "s":
                e.assume(c2.st, t[1], 0)
        e.event(c2.st, "cas_seen", loc, v)
        out += c2.ret(err(v))
        return out

    def h_fence(self, c):
        self.e.event(c.st, "fence", c.vals[0])
        return c.ret(UNIT)

    # ------------------------------------------------------------- pointers
    def ptradd(self, v, n):
        if n[0] != "i":
            return TOP
        k = n[1]
        if v[0] == "s" and v[1][0] == "app" and v[1][1] == "ptradd":
            k += v[1][3][1]
            v = v[1][2]
        if v[0] == "i":
            return I(v[1] + k, 64)
        if is_anon(v):
            return TOP
        return v if k == 0 else ("s", ("app", "ptradd", v, I(k, 64)))

    def h_byte_add(self, c):
        return c.ret(self.ptradd(c.vals[0], c.vals[1]))

    def h_byte_sub(self, c):
        n = c.vals[1]
        return c.ret(self.ptradd(c.vals[0], I(-n[1], 64) if n[0] == "i" else TOP))

    def h_elem_add(self, sign):
        """arithmetic on a pointer to bytes"""
        def h(c):
            t = self.p.types[c.tys[0]].get("to")
            t = self.p.types[t] if t is not None else {"k": "?"}
            if t["k"] not in ("int", "uint") or t.get("bits") != 8:
                return False
            n = c.vals[1]
            return c.ret(self.ptradd(c.vals[0], I(sign * self.signed(n[1]), 64) if n[0] == "i" else TOP))
        return h

    def signed(self, n):
        return n - (1 << 64) if n >= 1 << 63 else n

    def h_fetch_ptr(self, sign):
        def h(c):
            e = self.e
            loc = c.loc(0)
            v = ("s", e.fresh(c.st, "load"))
            n = c.vals[1]
            new = self.ptradd(v, I(sign * n[1], 64) if n[0] == "i" else TOP)
            e.event(c.st, "aload", loc, v, c.vals[2], c.dty)
            e.event(c.st, "astore", loc, new, c.vals[2], c.dty)
            e.store(c.st, loc, new)
            return c.ret(v)
        return h

    def h_is_null(self, c):
        v = c.vals[0]
        if v[0] in ("r", "sl", "str"):
            return c.ret(I(0, 1))
        if v[0] == "s" and self.nonnull(v[1]):
            return c.ret(I(0, 1))
        return c.ret(self.e.compare(c.st, "eq", v, I(0, 64)))

    def nonnull(self, t):
        if t[0] == "arg":
            ty = self.e.termty.get(t)
            return ty is not None and self.p.types[ty]["k"] == "ref"
        if t[0] == "app" and t[1] == "ptradd":
            return t[2][0] == "s" and self.nonnull(t[2][1])
        return False

    def distinct_ptr(self, a, b):
        """two canonical pointers that cannot be equal"""
        def canon(v):
            if v[0] == "i":
                return ("null", v[1])
            if v[0] == "s" and v[1][0] == "arg" and self.nonnull(v[1]):
                return (v[1], 0)
            if v[0] == "s" and v[1][0] == "app" and v[1][1] == "ptradd" and v[1][2][0] == "s" and self.nonnull(v[1][2][1]):
                return (v[1][2][1], v[1][3][1])
            return None
        x, y = canon(a), canon(b)
        if x is None or y is None:
            return False
        if x[0] == y[0]:
            return x[1] != y[1]
        return x[0] == "null" or y[0] == "null"

    # ------------------------------------------------------------- digests
    def h_digest(self, c):
        th = c.st.th
        self.e.event(c.st, "digest", clean(c.path), c.vals[0])
        s = "D" if th["ph"] == "in" and th["nodata"] else "E"
        return c.ret(("dg", s, {"no": "E", "start": "D", "data": "X"}[th["w"]]))

    def h_crc_update(self, c):
        e = self.e
        loc = c.loc(0)
        v = e.load(c.st, loc)
        if v[0] == "dg":
            s, w = v[1], v[2]
            th = c.st.th
            ns = "X"
            item = th["item"]
            if item is not None and s == "P" and self.is_key_val(c.st, c.vals[1], item):
                ns = "D"
            nw = "X"
            src = self.key_val_base(c.st, c.vals[1])
            if src is not None:
                if w == "D":
                    nw = ("A", src)
                elif w.__class__ is tuple and w[0] == "P" and w[1] == src:
                    nw = "D"
            e.store(c.st, loc, ("dg", ns, nw))
            e.event(c.st, "crc_update", v, ("dg", ns, nw))
        else:
            e.store(c.st, loc, TOP)
        return c.ret(UNIT)

    def key_val_base(self, st, arg):
        """the element bytes of which arg is everything but the first byte"""
        if arg[0] == "sl" and arg[3][0] == "i":
            lo, hi = arg[3], arg[4]
            # relative to the base slice starting at 0
            if lo[1] == 1:
                if hi is None:
                    return self.e.mkref(st, (arg[1], arg[2]))
                return ("sl", arg[1], arg[2], I(0, 64), hi)
        return None

    def is_key_val(self, st, arg, item):
        b = self.item_bytes(item)
        k = self.key_val_base(st, arg)
        if k is not None:
            return k == b
        # `get(1..)` of the element was None: the element has no contents after its header byte
        if arg == ("str", ""):
            ln = ("s", ("len", b))
            return self.e.compare(st, "eq", ln, I(0, 64)) == I(1, 1)
        return False

    def item_bytes(self, item):
        d = self.elem_variants.get("Data", 1)
        return ("s", ("f", ("f", ("f", ("app", "data", ("s", item)), (1, 0)), (d, 0)), (0, 0)))

    def h_finalize(self, c):
        v = c.vals[0]
        if v[0] == "dg":
            self.e.event(c.st, "crc_final", v)
            return c.ret(("s", ("app", "crc", v)))
        return c.ret(TOP)

    # ------------------------------------------------------------- registration
    def _register(self):
        e = self.e
        R = self.table

        def mk(kind):
            def h(c):
                return c.ret(("fut", kind, tuple(c.vals)))
            return h
        R["NdlDataStorage::iter_elems"] = mk("iter_elems")
        R["NdlDataStorage::push"] = mk("push")
        R["NdlElemIter::next"] = mk("next")
        R["NdlElemIterNode::invalidate"] = mk("invalidate")

        def item_app(name):
            def h(c):
                v = c.load(0)
                if v[0] == "s" and not is_anon(v):
                    return c.ret(S(name, v))
                return c.ret(TOP)
            return h
        R["NdlElemIterNode::data"] = item_app("data")
        R["NdlElemIterNode::len"] = item_app("len")

        R["maitake_sync::mutex::Mutex::lock"] = mk("lock")

        def try_lock(c):
            c2 = c.fork()
            out = list(c2.ret(NONE))
            g = self.acquire(c.st, c.vals[0])
            return out + list(c.ret(some(g)))
        R["maitake_sync::mutex::Mutex::try_lock"] = try_lock

        def gderef(c):
            v = c.load(0)
            if v[0] == "fut" and v[1] == "guard":
                return c.ret(v[2][1])
            return c.ret(TOP)
        R["<maitake_sync::mutex::MutexGuard<'_, T, L> as core::ops::deref::Deref>::deref"] = gderef
        R["<maitake_sync::mutex::MutexGuard<'_, T, L> as core::ops::deref::DerefMut>::deref_mut"] = gderef

        R["maitake_sync::wait_queue::WaitQueue::wait"] = mk("wait")

        def wfv(c):
            return c.ret(("fut", "wfv", (c.vals[0], c.vals[1], I(self.callable_inst(c.tys[1]), 1), I(0, 1))))
        R["maitake_sync::wait_queue::WaitQueue::wait_for_value"] = wfv

        def wf(c):
            return c.ret(("fut", "wfv", (c.vals[0], c.vals[1], I(self.callable_inst(c.tys[1]), 1), I(1, 1))))
        R["maitake_sync::wait_queue::WaitQueue::wait_for"] = wf

        def wake(all_):
            def h(c):
                e.event(c.st, "wake", self.queue(c.loc(0)), all_)
                e.note(c.st, "wake %s" % self.queue(c.loc(0)))
                return c.ret(UNIT)
            return h
        R["maitake_sync::wait_queue::WaitQueue::wake"] = wake(False)
        R["maitake_sync::wait_queue::WaitQueue::wake_all"] = wake(True)

        # intrusive list
        def liter(c):
            e.event(c.st, "list_iter", c.loc(0))
            return c.ret(("fut", "listiter", (c.vals[0], I(0, 1))))
        R["cordyceps::list::List::iter"] = liter
        R["cordyceps::list::List::iter_raw"] = liter

        def lnext(c):
            it = c.load(0)
            lst = it[2][0] if it[0] == "fut" else TOP
            c2 = c.fork()
            a = e.fresh(c.st, "node")
            e.event(c.st, "list_next", a, lst)
            out = list(c.ret(some(("s", a))))
            e.event(c2.st, "list_end", lst)
            return out + list(c2.ret(NONE))
        R["<cordyceps::list::Iter<'list, T> as core::iter::traits::iterator::Iterator>::next"] = lnext
        R["<cordyceps::list::IterRaw<'_, T> as core::iter::traits::iterator::Iterator>::next"] = lnext
        R["<cordyceps::list::IterMut<'list, T> as core::iter::traits::iterator::Iterator>::next"] = lnext

        def lpush(c):
            e.event(c.st, "list_push", c.vals[0], c.vals[1])
            e.note(c.st, "node linked")
            return c.ret(UNIT)
        R["cordyceps::list::List::push_front"] = lpush
        R["cordyceps::list::List::push_back"] = lpush

        def lremove(c):
            e.event(c.st, "list_remove", c.vals[0], c.vals[1])
            e.note(c.st, "node unlinked")
            a = e.fresh(c.st, "removed")
            e.termty[a] = c.dty
            return c.ret(("s", a))
        R["cordyceps::list::List::remove"] = lremove

        # atomics
        A = "core::sync::atomic::Atomic::"
        R[A + "load"] = self.h_aload
        R[A + "store"] = self.h_astore
        R[A + "swap"] = self.h_aswap
        R[A + "compare_exchange"] = self.h_acas
        R[A + "compare_exchange_weak"] = self.h_acas
        R[A + "fetch_byte_add"] = self.h_fetch_ptr(1)
        R[A + "fetch_byte_sub"] = self.h_fetch_ptr(-1)
        R["core::sync::atomic::fence"] = self.h_fence
        A = "core::sync::atomic::atomic_"
        R[A + "load"] = self.h_aload
        R[A + "store"] = self.h_astore
        R[A + "swap"] = self.h_aswap
        R[A + "compare_exchange"] = self.h_acas
        R[A + "compare_exchange_weak"] = self.h_acas

        # pointers
        for k in ("mut_ptr", "const_ptr"):
            P = "core::ptr::%s::" % k
            R[P + "byte_add"] = self.h_byte_add
            R[P + "wrapping_byte_add"] = self.h_byte_add
            R[P + "byte_sub"] = self.h_byte_sub
            R[P + "wrapping_byte_sub"] = self.h_byte_sub
            R[P + "is_null"] = self.h_is_null
            for n, g in (("add", 1), ("wrapping_add", 1), ("offset", 1), ("wrapping_offset", 1), ("sub", -1), ("wrapping_sub", -1)):
                R[P + n] = self.h_elem_add(g)
        R["core::ptr::null_mut"] = R["core::ptr::null"] = lambda c: c.ret(I(0, 64))

        # slices
        SL = "core::slice::"
        for n in ("get", "get_mut"):
            R[SL + n] = self.h_get
        for n in ("get_unchecked", "get_unchecked_mut"):
            R[SL + n] = self.h_get_unchecked
        for n in ("split_first", "split_first_mut"):
            R[SL + n] = self.h_split_first
        for n in ("first", "first_mut"):
            R[SL + n] = self.h_first
        for n in ("split_at", "split_at_mut", "split_at_checked", "split_at_mut_checked"):
            R[SL + n] = self.h_split_at
        for n in ("first_chunk", "first_chunk_mut", "split_first_chunk", "split_first_chunk_mut"):
            R[SL + n] = self.h_to_array
        R["core::array::try_from"] = self.h_to_array
        for o in ("le", "be", "ne"):
            R["core::num::to_%s_bytes" % o] = self.h_to_bytes
            R["core::num::from_%s_bytes" % o] = self.h_from_bytes
        for n in ("last", "last_mut"):
            R[SL + n] = self.h_last
        R[SL + "is_empty"] = self.h_is_empty
        R[SL + "len"] = self.h_len
        R["core::str::len"] = self.h_len
        R[SL + "index::index"] = R[SL + "index::index_mut"] = self.h_index
        R["core::array::index"] = R["core::array::index_mut"] = self.h_index

        def arrclone(c):
            # a copy, if nothing in an element could tell a copy from a clone
            t = self.p.types[self.p.types[c.tys[0]].get("to", 0)]
            if t["k"] != "array" or self.p.types[t["elem"]].get("nd", True):
                return False
            return c.ret(c.load(0))
        R["core::array::clone"] = arrclone
        R["core::array::as_slice"] = R["core::array::as_mut_slice"] = self.h_identity
        R[SL + "iter"] = R[SL + "iter_mut"] = self.h_slice_iter
        for n in ("into_iter",):
            R[SL + "iter::" + n] = self.h_slice_iter
            R["core::array::" + n] = self.h_slice_iter
        for k in ("Iter", "IterMut"):
            R["<core::slice::iter::%s<'a, T> as core::iter::traits::iterator::Iterator>::next" % k] = self.h_slice_next
            R["<core::slice::iter::%s<'a, T> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back" % k] = self.h_slice_next
            R["<core::slice::iter::%s<'a, T> as core::iter::traits::iterator::Iterator>::fold" % k] = self.h_fold
        for n in ("sort_unstable_by_key", "sort_unstable_by", "sort_unstable", "reverse", "rotate_left", "rotate_right", "swap", "fill",
                  "copy_within"):
            R[SL + n] = self.h_havoc_slice
        R[SL + "copy_from_slice"] = R[SL + "clone_from_slice"] = self.h_copy_from_slice
        R[SL + "cmp::eq"] = R["core::str::traits::eq"] = self.h_bytes_eq

        # memory
        def moved_out(c, loc, t):
            if t is not None and "MaybeUninit" in self.p.types[t]["s"]:
                e.event(c.st, "moved_out", loc)

        def swap(c):
            la, lb = c.loc(0), c.loc(1)
            va, vb = e.load(c.st, la), e.load(c.st, lb)
            t = self.p.types[c.tys[0]].get("to")
            e.event(c.st, "swap", la, lb)
            for loc in (la, lb):
                moved_out(c, loc, t)
            e.assign(c.st, c.fr, la, vb, t)
            e.assign(c.st, c.fr, lb, va, t)
            return c.ret(UNIT)
        R["core::intrinsics::typed_swap_nonoverlapping"] = swap
        R["core::mem::swap"] = swap

        def replace(c):
            loc = c.loc(0)
            v = e.load(c.st, loc)
            moved_out(c, loc, c.tys[1])
            e.assign(c.st, c.fr, loc, c.vals[1], c.tys[1])
            return c.ret(v)
        R["core::mem::replace"] = replace

        def ptr_replace(c):
            loc = c.loc(0)
            t = self.p.types[c.tys[1]]
            if loc is not None and loc[0][0] == "h" and loc[1] and t["k"] == "param":
                e.event(c.st, "value_use", "read", loc)
                e.event(c.st, "payload_write", loc, c.vals[1])
            return replace(c)
        R["core::ptr::replace"] = ptr_replace

        def fix_take(c):
            return None
        for n in ("assert_inhabited", "cold_path", "assert_zero_valid", "assert_mem_uninitialized_valid", "assume"):
            R["core::intrinsics::" + n] = self.h_unit
        R["core::intrinsics::unreachable"] = lambda c: ()
        R["core::hint::unreachable_unchecked::precondition_check"] = R["core::hint::unreachable_unchecked"] = lambda c: (e.event(c.st, "unreachable_unchecked"), ())[1]

        def discr(c):
            t = self.p.types[c.tys[0]].get("to")
            return c.ret(e.discr_of(c.st, c.load(0), t))
        R["core::intrinsics::discriminant_value"] = discr

        def pick(name, f):
            def h(c):
                a, b = c.vals[0], c.vals[1]
                if a[0] == "i" and b[0] == "i" and a[1] >= 0 and b[1] >= 0:
                    return c.ret(("i", f(a[1], b[1]), a[2]))
                return c.ret(S(name, a, b))
            return h
        for n, f in (("min", min), ("max", max)):
            for q in ("core::intrinsics::integer_", "core::cmp::", "core::cmp::Ord::"):
                R[q + n] = pick(n, f)

        def saturating(sign):
            def h(c):
                a, b = c.vals[0], c.vals[1]
                t = self.p.types[c.tys[0]]
                if a[0] == "i" and b[0] == "i" and a[1] >= 0 and b[1] >= 0 and t["k"] == "uint":
                    return c.ret(("i", max(0, min(a[1] + sign * b[1], (1 << a[2]) - 1)), a[2]))
                return c.ret(TOP)
            return h
        for n, sign in (("add", 1), ("sub", -1)):
            R["core::intrinsics::saturating_" + n] = saturating(sign)
        R["core::future::get_context"] = self.h_top
        R["core::future::into_future::IntoFuture::into_future"] = self.h_identity
        R["core::hint::black_box"] = R["core::intrinsics::black_box"] = self.h_identity

        def assume_init(kind):
            def h(c):
                loc = c.loc(0) if kind not in ("take",) else None
                e.event(c.st, "assume_init", kind, loc)
                if kind in ("ref", "mut"):
                    return c.ret(c.vals[0])
                if kind == "drop":
                    c2 = c.fork()
                    e.event(c.st, "payload_drop", loc)
                    out = list(c.ret(UNIT))
                    e.event(c2.st, "payload_drop", loc)
                    e.event(c2.st, "user_panic", "drop")
                    out.extend(e.panic(c2.st, c2.fr, c2.unwind))
                    return out
                if kind == "read":
                    return c.ret(e.load(c.st, loc))
                return c.ret(c.vals[0])
            return h
        in_place = assume_init("drop")

        def drop_in_place(c):
            t = self.p.types[c.tys[0]].get("to")
            loc = c.loc(0)
            if t is None or self.p.types[t]["k"] != "param" or loc is None or loc[0][0] != "h":
                return False
            return in_place(c)
        R["core::ptr::drop_in_place"] = drop_in_place
        M = "core::mem::maybe_uninit::MaybeUninit::"
        R[M + "assume_init_ref"] = assume_init("ref")
        R[M + "assume_init_mut"] = assume_init("mut")
        R[M + "assume_init_drop"] = assume_init("drop")
        R[M + "assume_init_read"] = assume_init("read")
        R[M + "assume_init"] = assume_init("take")

        def mu_write(c):
            loc = c.loc(0)
            e.event(c.st, "payload_write", loc, c.vals[1])
            e.assign(c.st, c.fr, loc, c.vals[1], c.tys[1])
            return c.ret(c.vals[0])
        R[M + "write"] = mu_write

        # crc
        R["crc::crc32::digest"] = self.h_digest
        R["crc::crc32::update"] = self.h_crc_update
        R["crc::crc32::finalize"] = self.h_finalize

        # cbor
        def cursor_new(c):
            return c.ret(("a", 0, (c.vals[0], I(0, 64))))
        R["minicbor::encode::write::Cursor::new"] = cursor_new
        R["minicbor::encode::write::Cursor::position"] = lambda c: c.ret(e.project(c.load(0), (0, 1)))
        R["minicbor::encode::write::Cursor::get_ref"] = lambda c: c.ret(e.mkref(c.st, (c.loc(0)[0], c.loc(0)[1] + ((0, 0),))) if c.loc(0) else TOP)

        def encode(c):
            self.buf_changed(c.st)
            loc = c.loc(1)
            cur = e.load(c.st, loc)
            c2, c3 = c.fork(), c.fork()
            for x, good in ((c, True), (c2, False)):
                a = e.fresh(x.st, "pos")
                if loc is not None:
                    e.store(x.st, (loc[0], loc[1] + ((0, 1),)), ("s", a))
                self.assume_le(x.st, ("s", a), self.slice_len(e.project(cur, (0, 0)), None, x.st))
                e.event(x.st, "encode", x.vals[0], cur, good, ("s", a), x.tys[0])
                e.note(x.st, "encode %s" % ("succeeds" if good else "fails"))
            out = list(c.ret(ok(UNIT)))
            out += c2.ret(err(("s", e.fresh(c2.st, "encerr"))))
            e.event(c3.st, "user_panic", "encode")
            out += e.panic(c3.st, c3.fr, c3.unwind)
            return out
        R["minicbor::encode"] = encode

        def decode(c):
            c2, c3 = c.fork(), c.fork()
            r = S("decode", c.vals[0], I(c.dty, 64))
            if r[0] == "s":
                e.termty[r[1]] = c.dty
                e.event(c.st, "decode", c.vals[0], r, c.dty)
                out = []
                ok_, bad = c, c2
                t = self.p.types[c.dty]
                text = t["k"] == "adt" and t["variants"] and t["variants"][0][2] and self.p.types[t["variants"][0][2][0][1]]["s"].endswith("str")
                # no text is encoded in zero bytes
                if not (text and c.vals[0] == ("str", "")) and e.assume_discr(ok_.st, r[1], 0):
                    out += ok_.ret(r)
                if e.assume_discr(bad.st, r[1], 1):
                    e.event(bad.st, "decode_err", c.vals[0], c.dty)
                    out += bad.ret(r)
            else:
                out = list(c.ret(ok(TOP)))
                e.event(c2.st, "decode_err", c.vals[0], c.dty)
                out += c2.ret(err(TOP))
            e.event(c3.st, "user_panic", "decode")
            out += e.panic(c3.st, c3.fr, c3.unwind)
            return out
        R["minicbor::decode"] = decode
        R["minicbor::len_with"] = lambda c: c.ret(S("len_with", c.vals[0]))

        # embassy
        def sel(c):
            return c.ret(("fut", "select", tuple(c.vals)))
        for n in ("select", "select3", "select4"):
            R["embassy_futures::select::" + n] = sel
        R["embassy_time::timer::with_timeout"] = lambda c: c.ret(("fut", "timeout", (c.vals[1], c.vals[0])))
        R["embassy_time::timer::Timer::after"] = lambda c: c.ret(("fut", "timer", (c.vals[0],)))
        R["embassy_sync::signal::Signal::new"] = lambda c: c.ret(("s", ("const", "signal")))

        def signal(c):
            e.event(c.st, "signal", c.loc(0), c.vals[1])
            return c.ret(UNIT)
        R["embassy_sync::signal::Signal::signal"] = signal
        R["embassy_sync::signal::Signal::wait"] = mk("sigwait")

        def dur(c):
            return c.ret(S(clean(c.path).split("::")[-1], *c.vals))
        self.prefix.append(("embassy_time::duration::Duration::", dur))

        # user supplied code
        R["core::ops::function::FnOnce::call_once"] = self.h_user("default")
        R["core::default::Default::default"] = self.h_user("default")
        R["core::clone::Clone::clone"] = self.h_user("clone")
        R["core::cmp::PartialEq::eq"] = self.h_top

        def clone_from(c):
            """the place holds a value before, after, and if the caller's code panics"""
            loc = c.loc(0)
            e.event(c.st, "user_call", "clone", c.vals[1:])
            c2 = c.fork()
            a = e.fresh(c.st, "clone")
            e.termty[a] = c.tys[0] if self.p.types[c.tys[0]].get("to") is None else self.p.types[c.tys[0]]["to"]
            e.event(c.st, "user_result", "clone", c.vals[1:], ("s", a))
            e.assign(c.st, c.fr, loc, ("s", a), e.termty[a])
            out = list(c.ret(UNIT))
            e.event(c2.st, "user_panic", "clone")
            e.note(c2.st, "clone_from panics")
            out.extend(e.panic(c2.st, c2.fr, c2.unwind))
            return out
        R["core::clone::Clone::clone_from"] = clone_from

        # diverging and formatting
        for n in ("core::panicking::", "core::option::expect_failed", "core::option::unwrap_failed", "core::result::unwrap_failed"):
            self.prefix.append((n, self.h_panic))
        self.prefix.append(("core::fmt::", self.h_top))
        self.prefix.append(("log::", self.h_top))

        # ranges
        def range_next(c):
            t = self.p.types[self.p.types[c.tys[0]]["to"]]
            if t["k"] != "adt" or t["path"] != "core::ops::range::Range":
                return None
            loc = c.loc(0)
            r = e.load(c.st, loc)
            i, n = e.project(r, (0, 0)), e.project(r, (0, 1))
            c2 = c.fork()
            out = []
            lt = e.compare(c.st, "lt", i, n)
            if not (lt[0] == "i" and not lt[1] or lt[0] == "s" and not e.assume(c.st, lt[1], 1)):
                e.store(c.st, (loc[0], loc[1] + ((0, 0),)), e.binop(c.st, "Add", i, I(1, 64), None))
                e.event(c.st, "range_next", i, n)
                out += c.ret(some(i))
            if not (lt[0] == "i" and lt[1] or lt[0] == "s" and not e.assume(c2.st, lt[1], 0)):
                # a range is left when its start has reached its end
                eq = e.compare(c2.st, "eq", i, n)
                if eq[0] == "s":
                    e.assume(c2.st, eq[1], 1)
                e.event(c2.st, "range_end", i, n)
                out += c2.ret(NONE)
            return out
        R["core::iter::range::next"] = range_next
