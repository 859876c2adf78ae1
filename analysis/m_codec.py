"""(de)serialization of nodes: C28 (type erasure), C29 (values that do not fit or decode)"""
from base import *
from engine import forms, lin_add
from m_storage import C12


def vtable_insts(p, A):
    """the (de)serialization functions that a new node of type T gets: ([serialize], [deserialize], T)"""
    out = []

    class M(Monitor):
        def event(self, st, name, *a):
            if name == "exit" and a[0] == "return":
                out.append(a[1])
    e = Engine(p, M())
    e.run_entry("StorageListNode::<T>::new")
    if not out:
        raise AnalysisError("anchor: a node cannot be created")
    return out


class VT:
    """roles of the functions in the vtable, from their signatures"""

    def __init__(self, p, A):
        self.fns = []
        for v in vtable_insts(p, A):
            self.walk(p, v)

    def walk(self, p, v):
        if v.__class__ is tuple:
            if len(v) == 3 and v[0] == "fn":
                b = p.body(v[1])
                if b is not None and b.argc == 2:
                    t = p.types[b.locals[2][0]]
                    if t["k"] == "ref":
                        self.fns.append(("serialize" if t["mut"] else "deserialize", v[1]))
                        return
            for x in v:
                self.walk(p, x)

    def inst(self, role):
        s = {i for r, i in self.fns if r == role}
        if len(s) != 1:
            raise AnalysisError("anchor: no single %s function in a new node" % role)
        return s.pop()


class Fn(Base):
    """on the functions in the vtable of a new node"""

    def __init__(self, p, A, op=None):
        Base.__init__(self, p, A, op)
        self.DYN = VT(p, A).inst(op)
        self.payload = (("h", ("arg", 1)), ((0, A.node_payload),))

    def param(self):
        """the type parameter of the function"""
        return [a for a in self.p.insts[self.DYN]["args"] if not str(a).startswith("'")]

    def is_payload(self, ref):
        if ref[0] != "r":
            return False
        path = ref[2]
        while len(path) > 1 and path[-1] == (0, 0):
            path = path[:-1]
        return (ref[1], path) == self.payload


class C29Ser(Fn):
    DEFAULTS = {"enc": None}

    def event(self, st, name, *a):
        if name == "encode":
            cur = a[1]
            self.check(st, self.g(st, "enc") is None, "C29", "value encoded once", "the value is encoded more than once")
            buf = self.e.project(cur, (0, 0))
            pos = self.e.project(cur, (0, 1))
            self.check(st, buf == ("s", ("arg", 2)) and pos == I(0, 64), "C29", "buffer of the value", "the value is not encoded at the start of the whole buffer")
            self.s(st, enc=(I(int(a[2]), 1), a[3]))
        elif name == "exit" and a[0] == "return":
            d = self.optd(st, a[1])
            enc = self.g(st, "enc")
            if d == 0:
                ok = enc is not None and enc[0] == I(1, 1) and self.e.norm(st, self.e.project(a[1], (0, 0))) == enc[1]
                self.check(st, ok, "C29", "length of the value", "a length is reported that is not the number of bytes successfully encoded")
            else:
                self.check(st, d == 1 and enc is not None and enc[0] == I(0, 1), "C29", "value refused", "an error is reported although the value was encoded")


class C29De(Fn):
    DEFAULTS = {"w": 0}

    def event(self, st, name, *a):
        if name == "decode":
            self.check(st, a[0] == ("s", ("arg", 2)), "C29", "bytes decoded", "the value is not decoded from all the bytes given")
        elif name in ("payload_write", "swap"):
            dec = [k for k, v in st.facts.items() if v == ("=", 0) and k[0] == "d" and k[1][0] == "app" and k[1][1] == "decode"]
            ok = name == "payload_write" and any(a[1] == ("s", ("f", k[1], (0, 0))) for k in dec)
            self.check(st, ok, "C29", "memory of the value", "the node's memory is overwritten with something else than a successfully decoded value")
            self.check(st, self.g(st, "w") == 0, "C29", "value stored once", "the value is stored twice")
            self.s(st, w=1)
        elif name == "exit" and a[0] == "return":
            d = self.optd(st, a[1])
            if d == 0:
                self.check(st, self.g(st, "w") == 1, "C29", "value accepted", "success is reported although no value was stored in the node")
            else:
                self.check(st, d == 1 and self.g(st, "w") == 0, "C29", "value not decoded", "an error is reported although the node's memory was overwritten")


class C28Fn(Fn):
    def event(self, st, name, *a):
        if name == "encode":
            t = self.p.types[a[4]]
            ts = self.p.types[t["to"]]["s"] if t["k"] in ("ref", "ptr") else t["s"]
            self.check(st, self.is_payload(a[0]), "C28", "value read", "something else than the node's value is encoded")
            self.check(st, [ts] == self.names(), "C28", "type of the value read", "the value is encoded as %s" % ts)
        elif name == "payload_write":
            self.check(st, a[0] is not None and self.is_payload(("r",) + a[0]), "C28", "value written", "a decoded value is stored outside of the node's value")
        elif name == "decode":
            t = self.p.types[a[2]]
            ts = self.p.types[t["variants"][0][2][0][1]]["s"]
            self.check(st, [ts] == self.names(), "C28", "type of the value decoded", "the value is decoded as %s" % ts)

    def names(self):
        return [self.p.types[int(a)]["s"] if str(a).isdigit() else str(a) for a in self.param()]


class C28New(Base):
    ENTRY = {"new": "StorageListNode::<T>::new"}

    def event(self, st, name, *a):
        if name == "exit" and a[0] == "return":
            vt = VT.__new__(VT)
            vt.fns = []
            vt.walk(self.p, a[1])
            self.check(st, sorted(r for r, _ in vt.fns) == ["deserialize", "serialize"], "C28", "functions of a new node",
                       "a new node does not get exactly one function to serialize and one to deserialize it")
            b = self.p.body(self.e.entry_inst)
            t = self.p.types[b.locals[0][0]]
            for r, i in vt.fns:
                self.check(st, self.p.insts[i]["args"] == t["args"], "C28", "type of the %s function" % r,
                           "the %s function of a new node is not for the type of its value" % r)


class C28Attach(Base):
    """the pointer that is linked into the list"""

    def event(self, st, name, *a):
        if name == "list_push":
            v = a[1]
            ok = v[0] == "r" and v[2] == ((0, self.A.pub_inner),) or v[0] == "s"
            self.check(st, ok, "C28", "pointer linked into the list", "the pointer linked into the list does not cover the whole node")


def scan(p, A, r):
    """layout of nodes, and nothing writes to the shared header or to a vtable"""
    T = p.types
    hdr = T[A.hdr_ty]["path"]
    vts = {T[f[1]]["path"] for f in A.hdr_fields if T[f[1]]["k"] == "adt" and T[f[1]]["krate"] == "cfg_noodle" and
           any(T[g[1]]["k"] == "fnptr" for g in T[f[1]]["variants"][0][2])}
    if len(vts) != 1:
        raise AnalysisError("anchor: no vtable type in the header")
    node = A.node_ty_path
    r.ob("C28", "node layout", node, any(t["k"] == "adt" and t["path"] == node for t in T), "no node type")
    seen = set()
    for t in T:
        if t["k"] == "adt" and t["path"] in (node, hdr) and t["s"] not in seen:
            seen.add(t["s"])
            ok = t["path"] == hdr or t["reprc"] and T[t["variants"][0][2][0][1]].get("path") == hdr
            r.ob("C28", "layout of %s" % t["s"], t["s"], ok, "the header is not at the start of the node with a fixed layout")
    frozen = {hdr, node} | vts

    def fz(ty):
        return T[ty]["k"] == "adt" and T[ty]["path"] in frozen
    n = 0
    for i, b in p.local_bodies():
        name, file = p.insts[i]["path"], b.file

        def typ(pl):
            """types along a place"""
            ty = b.locals[pl[0]][0]
            out = [ty]
            deref = False
            for e in pl[1:]:
                if e[0] == "v":
                    continue
                if e[0] == "*":
                    deref = True
                ty = e[{"*": 1, "f": 2, "i": 2, "c": 3, "s": 4}[e[0]]]
                out.append(ty)
            return out, deref
        for blk in b.blocks:
            for s in blk["s"]:
                if s[0] == "=":
                    ts, deref = typ(s[1])
                    n += 1
                    if deref:
                        bad = any(fz(t) for t in ts[1:])
                        r.ob("C28", "store through a pointer", name, not bad, "a part of a node's header or vtable is overwritten", file, s[3])
                    rv = s[2]
                    if rv[0] in ("ref", "raw") and rv[1]:
                        ts, deref = typ(rv[2])
                        if fz(ts[-1]) or any(T[t]["k"] == "adt" and T[t]["path"] in vts for t in ts):
                            # raw pointers are only used to read: what is done through them is checked where it is done
                            r.ob("C28", "mutable borrow of a node", name, rv[0] == "raw" and deref, "a node or its header is borrowed mutably", file, s[3])
            t = blk["t"]
            if t[0] == "call":
                ty = T[b.locals[t[4][0]][0]]
                if ty["k"] == "ref" and ty["mut"] and fz(ty["to"]):
                    r.ob("C28", "mutable borrow of a node", name, False, "a node or its header is borrowed mutably", file, t[-1])
                path = t[1].get("path", "")
                if path.startswith("core::ptr::") and path.split("::")[-1].split("<")[0] in ("write", "write_unaligned", "write_volatile", "copy", "copy_nonoverlapping", "swap", "replace", "drop_in_place", "write_bytes"):
                    for a in t[3]:
                        ty = T[a]
                        if ty["k"] == "ptr" and ty["mut"] and fz(ty["to"]):
                            r.ob("C28", "write of a node", name, False, "a node or its header is overwritten", file, t[-1])
    r.notes.append("%d assignments scanned" % n)


def api(p, A, r):
    """the public interface gives no access to what the types keep consistent"""
    T = p.types
    own = set(A.list) | set(A.node_pub) | set(A.handle)
    paths = {T[t]["path"] for t in own}
    data = T[A.elem[0]]["variants"][A.elem_variants["Data"][0]][2][0][1]
    paths.add(T[data]["path"])
    seen = set()
    for t in T:
        if t["k"] == "adt" and t["path"] in paths and t["path"] not in seen:
            seen.add(t["path"])
            for f in t["variants"][0][2]:
                r.ob("C25", "fields of a public type", t["path"], not f[2], "the field `%s` can be reached, and set, by users" % f[0])
    inner = {T[A.hdr_ty]["path"], A.node_ty_path}
    for x in p.roots:
        if not x["pub"] or x["unsafe"] or " as " in x["path"]:
            continue
        sig = x["sig"]
        ok = "*const " not in sig and "*mut " not in sig and "NonNull<" not in sig and not any(w in sig for w in inner)
        r.ob("C25", "signature of a public function", x["path"], ok, "a safe public function takes or returns a raw pointer or the internals of a node", x["file"], x["line"])


class C29Write(Base):
    """the data element that is stored covers exactly the encoded key and value"""
    DEFAULTS = {"key": None, "val": None, "fail": 0}

    def event(self, st, name, *a):
        e = self.e
        n = e.nat
        if name == "encode":
            self.s(st, key=(e.project(a[1], (0, 0)), a[3]) if a[2] and e.project(a[1], (0, 1)) == I(0, 64) else None, val=None)
            if not a[2]:
                self.s(st, fail=1)
        elif name == "vtable_ok" and a[0] == "serialize":
            self.s(st, val=(a[2][1], a[3]))
        elif name == "vtable_err" and a[0] == "serialize":
            self.s(st, val=None, fail=1)
        elif name == "push":
            self.check(st, not self.g(st, "fail"), "C29", "store after a failed serialization", "something is stored although a key or value could not be serialized")
            if self.variant_of(st, a[0]) == "Data":
                sl = n.elem_bytes(st, a[0])
                k, v = self.g(st, "key"), self.g(st, "val")
                if k is None or v is None:
                    self.check(st, False, "C29", "data element stored", "a data element is stored without a serialized key and value")
                    return
                b = n.slice_val(sl)
                ok = b is not None and b[3] == I(0, 64) and b[4] is not None
                if ok:
                    whole = e.mkref(st, (b[1], b[2]))
                    ok = k[0] == n.sub(whole, I(1, 64), None)
                    ok = ok and v[0] == n.sub(whole, e.binop(st, "Add", I(1, 64), k[1], None), None)
                    end = e.binop(st, "Add", e.binop(st, "Add", v[1], k[1], None), I(1, 64), None)
                    ok = ok and bool(forms(end) & forms(b[4]))
                self.check(st, ok, "C29", "extent of the data element", "the data element stored does not cover exactly the type byte, the encoded key and the encoded value")
        elif name == "push_ok":
            self.s(st, key=None, val=None)
        elif name == "exit" and a[0] == "return" and self.g(st, "fail"):
            r = a[1]
            A = self.A
            ok = self.optd(st, r) == 1
            if ok:
                x = e.norm(st, e.project(r, (1, 0)))
                app = A.lserr_variants["AppError"]
                ok = self.optd(st, x) == app and self.optd(st, e.norm(st, e.project(x, (app, 0)))) == A.error_variants["Serialization"]
            self.check(st, ok, "C29", "result after a failed serialization", "the write does not end with a serialization error although a key or value could not be serialized")


class C29Read(C12):
    """a value that cannot be decoded does not make the read fail"""
    DEFAULTS = {"scan": "no", "x": "no", "err": 0, "bad": 0}

    def check(self, st, ok, rule, *a):
        if rule == "C29":
            C12.check(self, st, ok, rule, *a)

    def on(self, st, name, *a):
        C12.on(self, st, name, *a)
        if name in ("storage_err", "iter_end"):
            self.s(st, err=1)
        elif name == "item":
            self.s(st, err=0, kind=None)
        elif name == "vtable_err" and a[0] == "deserialize":
            self.s(st, bad=1)
        elif name == "exit" and a[0] == "return" and self.g(st, "bad") and self.optd(st, a[1]) != 0:
            # other reasons to fail: the storage, or a record which is not the one remembered
            self.check(st, self.g(st, "err") or self.broken(st), "C29", "read with a value that does not decode",
                       "the read fails because a stored value cannot be decoded")

    def event(self, st, name, *a):
        if name == "unlock":
            self.s(st, last=self.why(st))
        C12.event(self, st, name, *a)

    def discr(self, st, t, val):
        C12.discr(self, st, t, val)
        it = st.th["item"]
        if it is not None and t == self.A.data(it):
            self.s(st, kind=val)

    def why(self, st):
        """not a data element, and not the end of the record"""
        return 1 if self.g(st, "kind") != self.A.elem_variants["Data"][0] and not self.done(st) else None

    def broken(self, st):
        return self.g(st, "last") is not None
