"""What the analyses are anchored to (by type and public name), and the base class of the property automata."""
from engine import (Monitor, Engine, AnalysisError, Program, I, TOP, ANON, UNIT, NSYM, SSYM, PSYM, is_anon, symbols,
                    ext_forms, forms, isint, lin_add, SUMS, ZERO, clean)

NONE = ("a", 0, ())


class Anchors:
    """the types and fields of the crate that the properties talk about"""

    def __init__(self, p):
        self.p = p
        T = p.types

        def adt(name):
            r = [i for i, t in enumerate(T) if t["k"] == "adt" and t["krate"] == "cfg_noodle" and t["path"].split("::")[-1] == name]
            if not r:
                raise AnalysisError("anchor: no type named %s" % name)
            return r
        self.list = adt("StorageList")
        self.node_pub = adt("StorageListNode")
        self.handle = adt("StorageListNodeHandle")
        self.elem = adt("Elem")
        self.state = adt("State")
        self.lserr = adt("LoadStoreError")
        self.error = adt("Error")
        self.elem_variants = {v[0]: (k, {f[0]: n for n, f in enumerate(v[2])}) for k, v in enumerate(T[self.elem[0]]["variants"])}
        self.lserr_variants = {v[0]: k for k, v in enumerate(T[self.lserr[0]]["variants"])}
        self.error_variants = {v[0]: k for k, v in enumerate(T[self.error[0]]["variants"])}
        self.state_variants = [v[0] for v in T[self.state[0]]["variants"]]
        # what the lock protects
        self.inner = set()
        for i in self.list:
            for f in T[i]["variants"][0][2]:
                t = T[f[1]]
                if t["k"] == "adt" and "Mutex" in t["path"]:
                    for a in t["args"]:
                        if a.__class__ is int and T[a]["k"] == "adt" and T[a]["krate"] == "cfg_noodle" and T[a]["variants"]:
                            self.inner.add(a)
        if not self.inner:
            raise AnalysisError("anchor: no structure behind the list's lock")

        def isrec(i):
            t = T[i]
            if t["k"] != "adt" or t["krate"] != "cfg_noodle" or len(t["variants"]) != 1:
                return False
            fs = [T[f[1]]["s"] for f in t["variants"][0][2]]
            return any("NonZero" in s for s in fs) and any("RangeInclusive" in s for s in fs)
        self.rec = [i for i in range(len(T)) if isrec(i)]
        if not self.rec:
            raise AnalysisError("anchor: no good-record type")
        fs = T[self.rec[0]]["variants"][0][2]
        self.rec_seq = next(n for n, f in enumerate(fs) if "NonZero" in T[f[1]]["s"])
        self.rec_range = next(n for n, f in enumerate(fs) if "RangeInclusive" in T[f[1]]["s"])
        self.optrec = {i for i, t in enumerate(T) if t["k"] == "adt" and t["path"] == "core::option::Option" and
                       t["variants"][1][2] and t["variants"][1][2][0][1] in self.rec}

        def isseq(i):
            t = T[i]
            if t["k"] != "adt" or t["krate"] != "cfg_noodle" or len(t["variants"]) != 1:
                return False
            fs = [T[f[1]] for f in t["variants"][0][2]]
            return any(f["k"] == "array" and f["elem"] in self.optrec for f in fs)
        self.seq = [i for i in range(len(T)) if isseq(i)]
        if not self.seq:
            raise AnalysisError("anchor: no scan state type (array of optional good records)")
        fs = T[self.seq[0]]["variants"][0][2]
        self.f_next = next((n for n, f in enumerate(fs) if "NonZero" in T[f[1]]["s"] and T[f[1]]["s"].startswith(("Option", "core::option", "std::option"))), None)
        self.f_recs = next(n for n, f in enumerate(fs) if T[f[1]]["k"] == "array")
        self.f_gc = next((n for n, f in enumerate(fs) if T[f[1]]["k"] == "bool"), None)
        if self.f_next is None or self.f_gc is None:
            raise AnalysisError("anchor: scan state without next sequence number or cleanup flag")
        self.seq_path = None
        for i in self.inner:
            for n, f in enumerate(T[i]["variants"][0][2]):
                if f[1] in self.seq:
                    self.seq_path = ((0, n),)
        if self.seq_path is None:
            raise AnalysisError("anchor: the scan state is not behind the lock")
        # the node: public node -> inner node (header, payload), header -> state, key, vtable
        t = T[self.node_pub[0]]["variants"][0][2]
        inner = [(n, f[1]) for n, f in enumerate(t) if T[f[1]]["k"] == "adt" and T[f[1]]["krate"] == "cfg_noodle" and not T[f[1]]["enum"]]
        if len(inner) != 1:
            raise AnalysisError("anchor: node without a single inner structure")
        self.pub_inner = inner[0][0]
        fs = T[inner[0][1]]["variants"][0][2]
        self.node_ty_path = T[inner[0][1]]["path"]
        hdr = [(n, f[1]) for n, f in enumerate(fs) if T[f[1]]["k"] == "adt" and T[f[1]]["krate"] == "cfg_noodle"]
        cell = [n for n, f in enumerate(fs) if "UnsafeCell" in T[f[1]]["s"]]
        if len(hdr) != 1 or len(cell) != 1:
            raise AnalysisError("anchor: inner node without a header and a payload cell")
        self.node_hdr, self.node_payload = hdr[0][0], cell[0]
        self.hdr_ty = hdr[0][1]
        self.hdr_fields = T[self.hdr_ty]["variants"][0][2]
        self.hdr_key = next(n for n, f in enumerate(self.hdr_fields) if T[f[1]]["s"] == "&'static str" or T[f[1]]["s"].endswith("str"))
        self.codes = state_codes(p)

    def queues(self):
        """role of each wait queue, from the functions that wait on it"""
        if getattr(self, "_queues", None) is None:
            out = {}
            for fn, role in (("needs_read", "read"), ("needs_write", "write")):
                class M(Monitor):
                    def event(self, st, name, *a):
                        if name == "wait":
                            out[a[0]] = role
                e = Engine(self.p, M())
                e.run_entry("StorageList::<R, KEPT_RECORDS>::" + fn)
            for f in self.p.types[self.list[0]]["variants"][0][2]:
                if "WaitQueue" in self.p.types[f[1]]["s"]:
                    out.setdefault(f[0], "done")
            self._queues = out
        return self._queues

    # -------------------------------------------------- terms
    def data(self, item):
        """the decoded element of an item"""
        return ("f", ("app", "data", ("s", item)), (1, 0))

    def field(self, item, variant, field):
        v, fs = self.elem_variants[variant]
        return ("s", ("f", self.data(item), (v, fs[field])))


def state_codes(p):
    """the stored number of every node state, from the crate's own conversion"""
    T = p.types
    out = {}

    class M(Monitor):
        def event(self, st, name, *a):
            if name == "exit" and a[0] == "return":
                d = self.e.known_discr(st, ("arg", 1))
                v = a[1]
                if d is None or v[0] != "i":
                    raise AnalysisError("anchor: the number of a node state is not a constant")
                out[d] = v[1]
    e = Engine(p, M())
    e.run_entry("State::into_u8")
    t = next(t for t in T if t["k"] == "adt" and t["krate"] == "cfg_noodle" and t["path"].split("::")[-1] == "State")
    names = {}
    for k, v in enumerate(t["variants"]):
        if k not in out and v[1] not in out:
            raise AnalysisError("anchor: node state %s has no number" % v[0])
        names[v[0]] = out.get(k, out.get(v[1]))
    for n in ("Initial", "NonResident", "ValidNoWriteNeeded", "NeedsWrite"):
        if n not in names:
            raise AnalysisError("anchor: no node state %s" % n)
    return names


class Base(Monitor):
    """automaton with named registers; registers hold terms, so that renaming of objects reaches them"""
    DEFAULTS = {}

    def __init__(self, p, anchors, op=None):
        self.op = op
        self.p = p
        self.A = anchors
        self.obligations = {}
        self.viol = set()

    def init(self):
        return ()

    def g(self, st, k):
        for a, b in st.mon:
            if a == k:
                return b
        return self.DEFAULTS.get(k)

    def s(self, st, **kw):
        d = dict(st.mon)
        for k, v in kw.items():
            if v == self.DEFAULTS.get(k):
                d.pop(k, None)
            else:
                d[k] = v
        st.mon = tuple(sorted(d.items(), key=lambda x: x[0]))

    def check(self, st, ok, rule, construct, msg):
        """one obligation: rule at construct"""
        w = self.e.where(st)
        key = (rule, clean(w[0]), w[1], construct)
        c = self.obligations.setdefault(key, [0, 0])
        c[0] += 1
        if not ok:
            c[1] += 1
            self.e.report(st, rule + ": " + construct, msg)
        return ok

    # -------------------------------------------------- knowledge
    def holds(self, st, o, a, b):
        """is the comparison known to be true?"""
        r = self.e.compare(st, o, a, b)
        return r[0] == "i" and r[1] == 1

    def fails(self, st, o, a, b):
        r = self.e.compare(st, o, a, b)
        return r[0] == "i" and r[1] == 0

    def classes(self, st):
        """union-find over the known equalities"""
        par = {}

        def find(x):
            while par.get(x, x) != x:
                x = par[x]
            return x
        for k, v in st.facts.items():
            if k[0] == "cmp" and k[1] == "eq" and v == 1:
                a, b = find(k[2]), find(k[3])
                if a != b:
                    par[a] = b
            elif k[0] == "v":
                a, b = find(("s", k[1])), find(v)
                if a != b:
                    par[a] = b
        return find

    def same(self, st, *vals):
        """are all values known to be equal?"""
        vals = [self.e.norm(st, v) for v in vals]
        if any(is_anon(v) for v in vals):
            return False
        if all(v == vals[0] for v in vals):
            return True
        find = self.classes(st)
        return all(find(v) == find(vals[0]) for v in vals)

    def equals(self, st, v):
        """all values known equal to v"""
        v = self.e.norm(st, v)
        find = self.classes(st)
        out = {v}
        for k, x in st.facts.items():
            if k[0] == "cmp" and k[1] == "eq" and x == 1:
                for y in k[2:]:
                    if find(y) == find(v):
                        out.add(y)
        return out

    def possible(self, st, v):
        """possible node state numbers of a loaded state value"""
        allv = set(self.A.codes.values())
        v = self.e.norm(st, v)
        if v[0] == "i":
            return {v[1]}
        if v[0] == "s" and not is_anon(v):
            f = st.facts.get(("v", v[1]))
            if f is not None and f[0] == "i":
                return {f[1]}
            nv = st.facts.get(("nv", v[1]))
            if nv is not None:
                return allv - set(nv)
        return allv

    def outside_codes(self, st):
        """has a number just loaded been found to be no node state's? (which the stores rule out, C27)"""
        v = self.g(st, "ld")
        return v is not None and set(self.A.codes.values()) <= set(st.facts.get(("nv", v[1]), ()))

    def loaded(self, st, name, a):
        """remembers the last number loaded from a state (call at each event)"""
        if name == "aload":
            self.s(st, ld=a[1] if self.state_loc(a[3]) and a[1][0] == "s" else None)
        elif name in ("item", "unlock", "lock", "list_next"):
            self.s(st, ld=None)

    def posform(self, st, v, sym, k):
        """is v known to be sym + k?"""
        want = (k, ((sym, 1),))
        return want in ext_forms(v, symbols(st))

    # -------------------------------------------------- memory behind the lock
    def seq_val(self, st, field, lock=None):
        a = lock or st.th["lock"]
        if a is None:
            return TOP
        return self.e.norm(st, self.e.load(st, (("h", a), self.A.seq_path + ((0, field),))))

    def optd(self, st, v):
        """discriminant of an Option/Result value, if known"""
        if v[0] == "a":
            return v[1]
        if v[0] == "s" and not is_anon(v):
            return self.e.known_discr(st, v[1])
        return None

    def initial(self, st, field, lock=None):
        """what the scan state field held when the lock was taken"""
        a = lock or st.th["lock"]
        v = ("s", ("*", a))
        for e in self.A.seq_path + ((0, field),):
            v = self.e.project(v, e)
        return v

    def is_seq_loc(self, loc):
        """location inside the shared scan state (or enclosing it)"""
        if loc is None or loc[0][0] != "h":
            return False
        c = loc[0][1]
        return c[0] == "new" and c[2] == "inner"

    def state_loc(self, ty):
        t = self.p.types[ty]
        return t["k"] in ("uint", "int") and t.get("bits") == 8

    def header(self, loc):
        """node header location of a state location"""
        if loc is None:
            return None
        # state atomics are nested in single-field wrappers below the header's state field
        path = loc[1]
        while path and path[-1] == (0, 0):
            path = path[:-1]
        return (loc[0], path[:-1] if path else path)

    def variant_of(self, st, elem):
        return self.e.nat.elem_of(st, elem)
