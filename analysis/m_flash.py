"""the flash adapter (C23) and the on-flash format (C22)"""
from base import *
from natives import S, ok, err, some, NONE, PENDING, ready

QS = "sequential_storage::queue::"


class Flash(Base):
    """calls of the queue are summarised: each either works, fails or stays pending"""

    def setup(self, e):
        nat = e.nat
        self.e = e
        self.unknown = {}

        def q(op):
            def h(c):
                e.event(c.st, "q_new", op, tuple(c.vals))
                return c.ret(("fut", "q", (("str", op),) + tuple(c.vals)))
            return h
        nat.override = dict(nat.override)
        for op in ("push", "iter", "peek", "pop"):
            nat.override[QS + "QueueStorage::" + op] = q("queue." + op)
        nat.override[QS + "QueueIterator::next"] = q("next")
        nat.override[QS + "QueueIteratorEntry::pop"] = q("entry.pop")
        for i, x in enumerate(self.p.insts):
            if x["path"].startswith("<sequential_storage::queue::QueueIteratorEntry<") and x["path"].endswith("::deref"):
                nat.override[clean(x["path"])] = lambda c: c.ret(S("bytes_of", c.load(0)))
        nat.cache.clear()
        nat.p_q = self.poll

    def poll(self, c, loc, v):
        e = self.e
        nat = e.nat
        op = v[2][0][1]
        c2, c3 = c.fork(), c.fork()
        e.event(c.st, "q", op, v[2][1:])
        a = ("s", e.fresh(c.st, op))
        out = []
        c4 = c.fork()
        e.event(c.st, "q_ok", op, a)
        if op == "next":
            e.event(c4.st, "q_none", op, None)
            out += nat.done(c, loc, ok(some(a)))
            out += nat.done(c4, loc, ok(NONE))
        else:
            out += nat.done(c, loc, ok(a))
        e.event(c2.st, "q", op, v[2][1:])
        er = ("s", e.fresh(c2.st, "err"))
        e.event(c2.st, "q_err", op, er)
        out += nat.done(c2, loc, err(er))
        e.event(c3.st, "q", op, v[2][1:])
        return out + list(c3.ret(PENDING))



LENS = frozenset(range(11))          # 10: ten bytes or more
FIRST = frozenset((0, 1, 2, 3))      # 3: any other first byte
ZERO = frozenset((0, 1))             # are the four bytes of the sequence number zero?


def decode_spec(n, first, zero):
    if n == 5 and first == 0 and not zero:
        return "Start"
    if n >= 2 and first == 1:
        return "Data"
    if n == 9 and first == 2 and not zero:
        return "End"
    return None


class C22Decode(Flash):
    """what an item of the queue is decoded to, in terms of its bytes"""
    DEFAULTS = {"n": LENS, "first": FIRST, "zero": ZERO, "b": None}
    ENTRY = {"decode": "FlashIter<'flash, T, C> as NdlElemIter>::next"}

    def setup(self, e):
        Flash.setup(self, e)
        self.ends = []

    def byte(self, st, i):
        return ("f", ("*", self.g(st, "b")), ("x", i))

    def seq(self, st):
        return S("int", ("str", "le"), *[("s", self.byte(st, i)) for i in range(1, 5)])

    def event(self, st, name, *a):
        if name == "q_ok" and a[0] == "next":
            self.s(st, b=S("bytes_of", a[1])[1])
        elif name == "exit" and a[0] == "return":
            if self.stage == "next":
                v = a[1]
                if v[0] == "a" and v[1] == 0 and v[2][0][0] == "a" and v[2][0][1] == 1:
                    self.ends.append((st.copy(), v[2][0][2][0]))
            else:
                self.decoded(st, a[1])

    stage = "next"

    def finish(self, e):
        if not self.ends:
            raise AnalysisError("no item is ever returned by the iterator")
        self.stage = "data"
        h = ("h", ("const", "node"))
        for st, v in self.ends:
            st.mem[h] = v
            e.run_entry("FlashNode<'_, '_, '_, T, C> as NdlElemIterNode>::data", [("s", ("const", "node"))], st)

    def discr(self, st, t, val):
        if self.g(st, "b") and t == S("nzopt", self.seq(st))[1]:
            self.s(st, zero=frozenset((1 - val,)))

    def fact(self, st, t, val):
        b = self.g(st, "b")
        if not b:
            return
        f = self.byte(st, 0)
        ln = ("len", ("s", b))
        if t in (f, ln, self.seq(st)[1]):
            k, dom = {f: ("first", FIRST), ln: ("n", LENS)}.get(t, ("zero", ZERO))
            old = self.g(st, k)
            if val is None:
                nv = st.facts.get(("nv", t), ())
                if k == "zero":
                    new = old - {1} if 0 in nv else old
                else:
                    new = old - {x for x in nv if x < max(dom)}
            elif k == "zero":
                new = old & {1 if val == 0 else 0}
            else:
                new = old & {min(val, max(dom))}
            self.s(st, **{k: new})
        elif t[0] == "cmp":
            from engine import forms, lin_add
            for x in forms(t[2]):
                for y in forms(t[3]):
                    d = lin_add(x, y, -1)
                    if len(d[1]) == 1 and d[1][0][0] in (ln, f):
                        k = "n" if d[1][0][0] == ln else "first"
                        c, m = d[0], d[1][0][1]
                        keep = set()
                        for z in range(256):
                            v = c + m * z
                            r = v == 0 if t[1] == "eq" else v < 0
                            if int(r) == val:
                                keep.add(min(z, max(LENS if k == "n" else FIRST)))
                        self.s(st, **{k: self.g(st, k) & keep})

    def decoded(self, st, v):
        A = self.A
        got = None
        e = self.e
        if v[0] == "a" and v[1] == 1:
            el = v[2][0]
            for name, (i, fs) in A.elem_variants.items():
                if el[0] == "a" and el[1] == i:
                    got = name
            if got is None:
                self.check(st, False, "C22", "item decoded", "an item of the queue is decoded to something unknown")
                return
        elif not (v[0] == "a" and v[1] == 0):
            self.check(st, False, "C22", "item decoded", "it is not known whether the item is decoded")
            return
        bad = []
        for n in self.g(st, "n"):
            for f in self.g(st, "first"):
                for z in self.g(st, "zero"):
                    w = decode_spec(n, f, z)
                    if w != got:
                        bad.append("%d%s bytes starting with %s%s" % (n, " or more" if n == 10 else "", f if f < 3 else "another byte",
                                   ", sequence number %szero" % ("" if z else "not ") if f in (0, 2) else ""))
        what = "item decoded to %s" % got.lower() if got else "item rejected"
        self.check(st, not bad, "C22", what, "an item of %s is %s" % ((sorted(bad) or [""])[0], what[5:]))
        if got:
            i, fs = A.elem_variants[got]
            g = lambda n: e.norm(st, e.project(el, (i, fs[n])))
            if got == "Data":
                d = g("data")
                s_ = d[2][0] if d[0] == "a" and len(d[2]) == 1 else d
                self.check(st, s_ == ("s", self.g(st, "b")), "C22", "bytes of a data element", "a data element does not cover exactly the bytes of the item")
            else:
                want = ("s", ("f", S("nzopt", self.seq(st))[1], (1, 0)))
                self.check(st, g("seq_no") in (want, self.seq(st)), "C22", "sequence number decoded",
                           "the sequence number is not the little-endian number in bytes 1 to 4")
            if got == "End":
                want = S("int", ("str", "le"), *[("s", self.byte(st, k)) for k in range(5, 9)])
                self.check(st, g("calc_crc") == want, "C22", "checksum decoded", "the checksum is not the little-endian number in bytes 5 to 8")


class C22Encode(Flash):
    """the bytes of the item that is appended for each kind of element"""
    ENTRY = {"encode": "Flash<T, C> as NdlDataStorage>::push"}

    def event(self, st, name, *a):
        if name == "q_new" and a[0] == "queue.push":
            e = self.e
            A = self.A
            r = a[1][1]
            d = e.known_discr(st, ("*", ("arg", 2)))
            got = next((n for n, (i, _) in A.elem_variants.items() if i == d), None)
            if got is None:
                self.check(st, False, "C22", "item encoded", "the same bytes are stored for several kinds of elements")
                return
            i, fs = A.elem_variants[got]
            g = lambda n: ("s", ("f", ("*", ("arg", 2)), (i, fs[n])))
            le = lambda v: [S("byte", ("str", "le"), v, I(k, 64)) for k in range(4)]
            if got == "Data":
                self.check(st, r == ("s", ("f", g("data")[1], (0, 0))), "C22", "data element encoded", "the bytes stored are not exactly those of the data element")
                return
            want = [I(0 if got == "Start" else 2, 8)] + le(g("seq_no"))
            if got == "End":
                want += le(g("calc_crc"))
            n = e.nat.slice_len(r, None, st)
            bs = list(e.nat.bytes_of(st, r, len(want)))
            self.check(st, n[0] == "i" and n[1] == len(want) and bs == want, "C22", "%s element encoded" % got.lower(),
                       "the bytes stored for a %s element are not the documented ones" % got.lower())


class C22Data(Base):
    """construction and parts of a data element"""
    ENTRY = {"new": "SerData::<'a>::new", "from_existing": "SerData::<'a>::from_existing", "key_val": "SerData::<'a>::key_val", "hdr": "SerData::<'a>::hdr"}

    def event(self, st, name, *a):
        if name != "exit" or a[0] != "return":
            return
        e = self.e
        v = a[1]
        arg = ("s", ("arg", 1))
        z = e.compare(st, "eq", ("s", ("len", arg)), I(0, 64))
        if self.op in ("new", "from_existing"):
            if v[0] == "a" and v[1] == 0:
                self.check(st, z == I(1, 1), "C22", "data element refused", "a data element is refused although there are bytes for it")
                return
            s_ = v[2][0] if v[0] == "a" and v[1] == 1 else TOP
            s_ = s_[2][0] if s_[0] == "a" and len(s_[2]) == 1 else s_
            self.check(st, s_ == arg and z == I(0, 1), "C22", "data element made", "a data element does not cover exactly the non-empty bytes given")
            if self.op == "new":
                b = e.load(st, (("h", ("arg", 1)), (("x", 0),)))
                self.check(st, b[0] == "i" and b[1] == 1, "C22", "type byte of a data element", "the first byte of a new data element is not 0x01")
        else:
            d = ("s", ("f", ("*", ("arg", 1)), (0, 0)))
            if self.op == "hdr":
                self.check(st, v == ("s", ("f", ("*", d[1]), ("x", 0))), "C22", "type byte read", "the type byte is not the first byte")
            else:
                z = e.compare(st, "eq", ("s", ("len", d)), I(0, 64))
                self.check(st, v == e.nat.sub(d, I(1, 64), None) or v == ("str", "") and z != I(0, 1), "C22", "key and value of a data element",
                           "the key and value bytes are not everything after the first byte")


CKSUM = {"width": 32, "poly": 0x04c11db7, "init": 0, "refin": 0, "refout": 0, "xorout": 0xffffffff}


class C22Crc(Base):
    """the checksum algorithm"""
    ENTRY = {"crc": "Crc32::new"}

    def event(self, st, name, *a):
        if name == "digest":
            e = self.e
            t = next((t for t in self.p.types if t["k"] == "adt" and t["path"] == "crc_catalog::Algorithm"), None)
            c = e.load(st, e.deref(a[1]))
            alg = e.load(st, e.deref(e.project(c, (0, 0))))
            bad = []
            for i, f in enumerate(t["variants"][0][2] if t else ()):
                v = e.project(alg, (0, i))
                if f[0] in CKSUM and not (v[0] == "i" and v[1] == CKSUM[f[0]]):
                    bad.append(f[0])
            self.check(st, t is not None and not bad, "C22", "checksum algorithm", "the checksum is not CRC-32/CKSUM: different %s" % ", ".join(bad))


class C23(Flash):
    """one queue operation per storage operation, results passed on"""
    DEFAULTS = {"n": 0, "res": None}
    ENTRY = {"push": "Flash<T, C> as NdlDataStorage>::push", "iter_elems": "Flash<T, C> as NdlDataStorage>::iter_elems",
             "next": "FlashIter<'flash, T, C> as NdlElemIter>::next", "invalidate": "FlashNode<'_, '_, '_, T, C> as NdlElemIterNode>::invalidate",
             "fwd_push": "<&mut T as NdlDataStorage>::push", "fwd_iter": "<&mut T as NdlDataStorage>::iter_elems"}
    WANT = {"push": "queue.push", "iter_elems": "queue.iter", "next": "next", "invalidate": "entry.pop"}
    WHAT = {"push": "append", "iter_elems": "iteration", "next": "next item", "invalidate": "removal"}

    def event(self, st, name, *a):
        op = self.op
        if op.startswith("fwd"):
            return self.forward(st, name, a)
        what = self.WHAT[op]
        if name == "q_new":
            self.check(st, a[0] == self.WANT[op], "C23", what, "the operation calls %s of the queue" % a[0])
            self.check(st, self.of_self(a[1][0]), "C23", "queue of the %s" % what, "the operation uses another queue or item than its own")
            if op == "push":
                self.check(st, a[1][2] == I(0, 1), "C23", "overwriting of old data", "the queue is permitted to overwrite old data")
            if op == "next":
                b = a[1][1]
                self.check(st, b == ("s", ("arg", 2)), "C23", "buffer of the next item", "the item is not read into the whole buffer given by the caller")
        elif name in ("q_ok", "q_none", "q_err"):
            n = self.g(st, "n")
            self.check(st, n == 0, "C23", "one %s" % what, "the queue is called a second time")
            self.s(st, n=min(2, n + 1), res=(name, a[1]))
        elif name == "opaque" and a[0].startswith("sequential_storage::") and any(self.mut_ref(v) for v in a[1]):
            self.check(st, False, "C23", what, "the operation calls %s, whose effect is not known" % clean(a[0]))
        elif name == "exit" and a[0] == "return":
            r = self.g(st, "res")
            v = a[1]
            d = self.optd(st, v)
            con = "result of the %s" % what
            if r is None:
                self.check(st, False, "C23", con, "a result is reported although the queue was not called")
            elif d == 1:
                x = self.e.norm(st, self.e.project(v, (1, 0)))
                self.check(st, r[0] == "q_err" and x == r[1], "C23", con, "an error is reported that is not the error of the queue")
            elif d == 0:
                self.check(st, r[0] != "q_err", "C23", con, "an error of the queue is not passed on")
                if op == "next":
                    x = self.e.norm(st, self.e.project(v, (0, 0)))
                    k = self.optd(st, x)
                    if k == 0:
                        self.check(st, r[0] == "q_none", "C23", "end of the iteration", "the end is reported although the queue has an item")
                    else:
                        self.check(st, k == 1 and r[0] == "q_ok" and contains(x, r[1]), "C23", "item of the iteration", "the item returned is not the one of the queue")
                elif op == "iter_elems":
                    self.check(st, contains(v, r[1]), "C23", "iterator returned", "the iterator returned is not the one of the queue")
            else:
                self.check(st, False, "C23", con, "it is not known whether an error is reported")

    def of_self(self, v):
        return contains(v, ("arg", 1))

    def mut_ref(self, v):
        return contains(v, ("arg", 1))

    def forward(self, st, name, a):
        if name in ("push", "iter_open"):
            mine = name == "iter_open" or a[0] == ("s", ("*", ("arg", 2)))
            self.s(st, n=1 if mine else 2)
        elif name == "storage_err":
            self.s(st, res=a[1])
        if name == "exit" and a[0] == "return":
            v = a[1]
            want = {"fwd_push": "push", "fwd_iter": "iter_elems"}[self.op]
            ok_ = v[0] == "fut" and v[1] == want and v[2][0] == ("s", ("*", ("arg", 1))) and (want != "push" or v[2][1] == ("s", ("arg", 2)))
            if v[0] != "fut":
                d = self.optd(st, v)
                r = self.g(st, "res")
                ok_ = self.g(st, "n") == 1 and (d == 0 and r is None or d == 1 and r is not None and contains(v, r))
            self.check(st, ok_, "C23", "forwarded %s" % self.op[4:], "the operation of the storage behind a reference is not forwarded as it is")


def contains(v, x):
    if v == x:
        return True
    return v.__class__ is tuple and any(contains(y, x) for y in v)


class C35Size(Flash):
    """sizes reported and limits given, for the geometries and lengths below: constants of the flash driver are given values, the rest follows from the code"""
    DEFAULTS = {"x": None}
    ENTRY = {"len": "FlashNode<'_, '_, '_, T, C> as NdlElemIterNode>::len", "push": "Flash<T, C> as NdlDataStorage>::push", "check": "NdlDataStorage::check_node_size"}
    # (write size, read size)
    WORDS = ((1, 1), (4, 1), (1, 4), (4, 4), (8, 8), (16, 4), (32, 1))
    LENGTHS = (2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 1023, 4040, 65535)
    MAXLEN = 65535          # the queue's own limit

    @staticmethod
    def up(n, w):
        return (n + w - 1) // w * w

    def cases(self):
        if self.op == "check":
            for kb in (0, 1, 22, 23, 24, 255, 256):
                k = kb + (1 if kb < 24 else 2 if kb < 256 else 3)       # as CBOR
                for v in (0, 1, 5, 300, 70000):
                    for d in (-3, -2, -1, 0, 1, 2, 3):
                        yield {"key": k, "value": v, "str": kb, "MAX_ELEM_SIZE": 1 + k + v + d}
            return
        for w, r in self.WORDS:
            m = max(w, r)
            for ov in (self.up(8, m), self.up(8, m) + m):
                g = {"WRITE_SIZE": w, "READ_SIZE": r, "overhead": ov, "ERASE_SIZE": 4096}
                if self.op == "limit":
                    for k in (4, 8, 64, 1024, 4096, 16384, 65536, 65536 + 2 * m + ov, 131072, 1 << 20):
                        if k % m == 0 and k >= 2 * m + ov:
                            yield dict(g, ERASE_SIZE=k)
                else:
                    for n in self.LENGTHS:
                        yield dict(g, n=n)

    def setup(self, e):
        Flash.setup(self, e)
        self.todo = list(self.cases())
        self.case = self.todo.pop(0)
        self.skipped = 0
        nat = e.nat
        const = e.const

        def bound(st, k):
            n = (k.get("n") or "").rsplit("::", 1)[-1]
            if k["v"] is None and n in self.case:
                return I(self.case[n], 64)
            return const(st, k)
        e.const = bound
        nat.override[QS + "QueueStorage::item_overhead_size"] = lambda c: c.ret(I(self.case["overhead"], 32))
        slice_len = nat.slice_len

        def length(v, ty=None, st=None):
            """bytes whose number is not fixed by the code are as many as the case says"""
            r = slice_len(v, ty, st)
            if r[0] == "s" and r[1][0] == "len":
                if "n" in self.case:
                    return I(self.case["n"], 64)
                if "str" in self.case and contains(v, ("arg", 1)):
                    return I(self.case["str"], 64)
            return r
        nat.slice_len = length

        def len_(c):
            v = c.vals[0]
            for _ in range(3):
                if contains(v, ("arg", 1)) or contains(v, ("arg", 2)):
                    break
                v = c.load(0)
            return c.ret(I(self.case["key" if contains(v, ("arg", 1)) else "value"], 64))
        if self.op == "check":
            nat.override["minicbor::len_with"] = nat.override["minicbor::len"] = len_

    def event(self, st, name, *a):
        op, g = self.op, self.case
        if name == "q_new" and a[0] == "queue.push":
            n = self.e.nat.slice_len(a[1][1], None, st)
            if n[0] != "i":
                raise AnalysisError("the length of what is appended is not known")
            self.s(st, x=n[1])
        elif name == "exit" and a[0] == "return":
            v = a[1]
            if op == "check":
                self.know(st, v)
                self.check(st, v[1] == int(1 + g["key"] + g["value"] <= g["MAX_ELEM_SIZE"]), "C35", "size check",
                           "an element of a header byte, %d bytes of key and %d of value is %s with a limit of %d" %
                           (g["key"], g["value"], "accepted" if v[1] else "refused", g["MAX_ELEM_SIZE"]))
                return
            n = g["n"]
            if op == "push":
                d = self.optd(st, v)
                if d != 0:
                    return
                v, n = self.e.norm(st, self.e.project(v, (0, 0))), self.g(st, "x")
                if n is None:
                    return
            self.know(st, v)
            m = max(g["WRITE_SIZE"], g["READ_SIZE"])
            want = g["overhead"] + self.up(n, m)
            self.check(st, v[1] == want, "C35", "size of an element" if op == "len" else "size of an appended element",
                       "an item of %d bytes counts as %d bytes instead of %d (words of %d bytes, overhead %d)" % (n, v[1], want, m, g["overhead"]))

    def blind(self, st):
        raise AnalysisError("a decision depends on something unknown")

    def fact(self, st, t, val):
        if t[0] == "cmp":
            raise AnalysisError("a decision depends on a number that is not known")

    def know(self, st, v):
        if v[0] != "i":
            raise AnalysisError("the number is not known")

    def finish(self, e):
        while self.todo:
            self.case = self.todo.pop(0)
            e.consts.clear()
            e.run_entry(self.ENTRY[self.op])


def limits(p, a, r):
    """the limits that the storages give for the size of an element"""
    from engine import Engine
    m = C35Size(p, a, "limit")
    e = Engine(p, m)
    m.setup(e)
    find = lambda s: next((c for c in p.consts if c["path"].endswith(s)), None)
    c = find("Flash<T, C> as NdlDataStorage>::MAX_ELEM_SIZE")
    d = find("<&mut T as NdlDataStorage>::MAX_ELEM_SIZE")
    if c is None or d is None:
        raise AnalysisError("anchor: the limit of the flash adapter is not found")
    b = p.body(c["inst"])
    for g in [m.case] + m.todo:
        m.case = g
        e.consts.clear()
        v = e.const_body(c["inst"])
        if v is None or v[0] != "i":
            raise AnalysisError("the limit of the flash adapter is not known")
        w = max(g["WRITE_SIZE"], g["READ_SIZE"])
        want = min(g["ERASE_SIZE"] - 2 * w - g["overhead"], m.MAXLEN - m.MAXLEN % w)
        r.ob("C35", "size limit", c["path"], v[1] == want, "with pages of %d bytes, words of %d and an overhead of %d the limit is %d instead of %d" %
             (g["ERASE_SIZE"], w, g["overhead"], v[1], want), b.file, b.line)
    m.case = {"MAX_ELEM_SIZE": 12345}
    e.consts.clear()
    v = e.const_body(d["inst"])
    b = p.body(d["inst"])
    if v is None or v[0] != "i":
        raise AnalysisError("the limit of a borrowed storage is not known")
    r.ob("C35", "forwarded size limit", d["path"], v == I(12345, 64), "the limit of a borrowed storage is not that of the storage", b.file, b.line)
