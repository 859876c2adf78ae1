"""C27: unchecked conversions only see values their producers can make"""
from base import *


def codes(p, A, r):
    """numbers of node states: one per state, and each decodes to its state"""
    T = p.types
    t = next(t for t in T if t["k"] == "adt" and t["krate"] == "cfg_noodle" and t["path"].split("::")[-1] == "State")
    names = [v[0] for v in t["variants"]]
    used = {}
    for k, n in enumerate(names):
        c = A.codes.get(n)
        r.ob("C27", "number of a node state", "State", c is not None and c not in used, "the node states %s and %s have the same number" % (n, used.get(c)))
        used[c] = n
        out = []

        class M(Monitor):
            def event(self, st, name, *a):
                if name == "exit" and a[0] == "return":
                    out.append(a[1])
        e = Engine(p, M())
        e.run_entry("State::try_from_u8", [I(c, 8)])
        ok = len(out) >= 1 and all(v == ("a", 1, (("a", k, ()),)) for v in out)
        r.ob("C27", "state of a number", "State::try_from_u8", ok, "the number of the node state %s does not decode to it" % n)


class C27(Base):
    """on every operation"""

    def event(self, st, name, *a):
        self.unchecked(st, name, a)

    def unchecked(self, st, name, a):
        self.loaded(st, name, a)
        if name == "unreachable_unchecked":
            self.check(st, self.outside_codes(st), "C27", "number assumed to be a state's", "a value is assumed to be impossible which is not known to be")
        elif name == "astore" and self.is_cell(a[0], a[3]):
            ok = self.e.norm(st, a[1])
            self.check(st, ok[0] == "i" and ok[1] in self.A.codes.values(), "C27", "number stored as a state", "a number is stored as a node state which is no state's")
        elif name == "get_unchecked":
            n = self.e.nat
            s, i = a[0]
            ok = i[0] in ("i", "s", "n") and n.holds_lt(st, i, n.slice_len(s, None, st)) or i == I(0, 64) and self.of_data(s)
            self.check(st, ok, "C27", "byte read without a check", "an unchecked index is not known to be within bounds")
        elif name == "nonnull_unchecked":
            self.check(st, a[0][0] == "r", "C27", "pointer assumed not to be null", "a pointer is assumed not to be null which is not known to be")

    def is_cell(self, loc, ty):
        return loc is not None and loc[0][0] == "h" and self.state_loc(ty)

    def of_data(self, s):
        """the bytes of an existing data element"""
        if s[0] != "s":
            return False
        t = s[1]
        while t[0] == "f":
            base, t = t, t[1]
            if t[0] == "*" and self.is_data(t):
                return True
        return False

    def is_data(self, t):
        ty = self.e.termty.get(t[1])
        if ty is None:
            return False
        x = self.p.types[ty]
        return x["k"] in ("ref", "ptr") and self.p.types[x["to"]].get("path") == data_path(self.p, self.A)

    def aggregate(self, st, ty, v):
        t = self.p.types[ty]
        if t.get("path") == data_path(self.p, self.A) and not any(f.body is not None and self.p.insts[f.body.inst]["path"].endswith(MAKERS) for f in st.stack):
            self.made(st, v)

    def made(self, st, v):
        n = self.e.nat
        s = self.e.project(v, (0, 0))
        self.check(st, s != TOP and n.holds_lt(st, I(0, 64), n.slice_len(s, None, st)), "C27", "data element made", "a data element can be made of no bytes")


# (these may build one before they know; what they return is checked)
MAKERS = ("SerData::<'a>::new", "SerData::<'a>::from_existing")


def data_path(p, A):
    return p.types[p.types[A.elem[0]]["variants"][A.elem_variants["Data"][0]][2][0][1]]["path"]


class C27Data(C27):
    ENTRY = {"new": MAKERS[0], "from_existing": MAKERS[1], "hdr": "SerData::<'a>::hdr", "key_val": "SerData::<'a>::key_val"}

    def event(self, st, name, *a):
        C27.event(self, st, name, *a)
        if name == "exit" and a[0] == "return" and self.optd(st, a[1]) == 1:
            self.made(st, self.e.project(a[1], (1, 0)))


class C27Node(Base):
    ENTRY = {"node": "StorageListNode::<T>::new"}

    def event(self, st, name, *a):
        if name == "exit" and a[0] == "return":
            A = self.A
            hdr = self.e.project(self.e.project(a[1], (0, A.pub_inner)), (0, A.node_hdr))
            cells = [n for n, f in enumerate(A.hdr_fields) if self.is_cell(f[1])]
            self.check(st, len(cells) == 1, "C27", "state of a new node", "a node has no state")
            for n in cells:
                v = self.e.project(hdr, (0, n))
                while v[0] == "a" and len(v[2]) == 1:
                    v = v[2][0]
                self.check(st, v[0] == "i" and v[1] == A.codes["Initial"], "C27", "state of a new node", "a new node, which has no value, is not in the initial state")

    def is_cell(self, ty):
        t = self.p.types[ty]
        while t["k"] == "adt" and not t["enum"] and len(t["variants"][0][2]) == 1 and t["krate"] == "cfg_noodle":
            t = self.p.types[t["variants"][0][2][0][1]]
        return t["k"] == "adt" and t["path"].startswith("core::sync::atomic::Atomic") and "u8" in t["s"].lower()


class C27List(Base):
    """no list that keeps no records"""
    kept_known = False

    def event(self, st, name, *a):
        if name == "exit" and a[0] == "return":
            if self.optd(st, a[1]) == 0 and self.opt:
                return
            k = next((f for f in st.facts if f[0] in ("nv", "v") and f[1][0] == "const"), None)
            ok = any(f[0] == "nv" and f[1][0] == "const" and 0 in x or f[0] == "v" and f[1][0] == "const" and x[0] == "i" and x[1] != 0 for f, x in st.facts.items())
            self.check(st, ok, "C27", "list made", "a list that keeps no records can be made")

    def setup(self, e):
        pass

    @property
    def opt(self):
        return self.p.types[self.p.body(self.e.entry_inst).locals[0][0]].get("path") == "core::option::Option"


class ListJob:
    """the monitor on every public function that makes a list"""

    def __init__(self, config):
        self.config = config

    def __str__(self):
        return "C27List on the constructors of lists (%s)" % self.config

    def run(self, p, A, r):
        from specs import Job, CheckError
        n = 0
        for x in p.roots:
            b = p.body(x["inst"])
            if b is None:
                continue
            t = b.locals[0][0]
            tt = p.types[t]
            if t in A.list or tt["k"] == "adt" and tt["path"].startswith("core::") and any(str(a).isdigit() and int(a) in A.list for a in tt["args"]):
                y = type(r)()
                Job("m_unchecked", "C27List", x["path"], self.config).run(p, A, y)
                r.obligations += y.obligations
                r.violations += y.violations
                n += 1
        if not n:
            raise CheckError("no constructor of lists found")
        r.stats = {"entry": "constructors of lists", "config": self.config, "constructors": n}
