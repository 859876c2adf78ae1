"""C31: the index of good records, over all orders of sequence numbers

The functions that put a record into the index are interpreted over an order domain: a sequence number is known only by its place in
a total preorder of the numbers at hand (plus a constant), a range only by its name. What comparisons yield follows from the
preorder; an operation on a number that does not keep the order (a narrowing cast) yields a number of which nothing is known, and
both outcomes of a comparison with it are followed. Starting with an empty index, the set of all index contents up to renaming of
numbers is computed as a fixpoint, for a given number of places.
"""
import re

from base import clean
from engine import AnalysisError

NONE, UNIT = ("a", 0, ()), ("a", 0, ())
MAXSTEPS = 200000


class Unknown(Exception):
    """the interpretation cannot follow this"""


class Panics(Exception):
    pass


def some(v):
    return ("a", 1, (v,))


def num(n, bits=64):
    return ("i", n, bits)


class Interp:
    def __init__(self, p, places):
        self.p, self.T, self.N = p, p.types, places
        self.cells = {}
        self.ncell = 0
        self.choices, self.pos, self.memo = [], 0, {}
        self.steps = 0
        self.depth = 0
        self.junk = 0
        self.low = self.one = None      # the lowest number; the number that turned out to be 1

    # ------------------------------------------------------------- choices
    def choose(self, n, key=None):
        if key is not None and key in self.memo:
            return self.memo[key]
        if self.pos == len(self.choices):
            self.choices.append([0, n])
        c = self.choices[self.pos][0]
        self.pos += 1
        if key is not None:
            self.memo[key] = c
        return c

    def outcomes(self, f):
        """the results of f() for all choices"""
        self.choices = []
        saved = dict(self.cells)
        while True:
            self.pos, self.memo, self.cells, self.one = 0, {}, dict(saved), None
            yield f()
            while self.choices and self.choices[-1][0] + 1 >= self.choices[-1][1]:
                self.choices.pop()
            if not self.choices:
                return
            self.choices[-1][0] += 1

    # ------------------------------------------------------------- memory
    def new(self, v):
        self.ncell += 1
        self.cells[self.ncell] = v
        return self.ncell

    def get(self, root, path):
        v = self.cells.get(root, ("undef",))
        for e in path:
            if v[0] == "a" and e[0] == "f":
                if v[1] != e[1] or e[2] >= len(v[2]):
                    raise Unknown("field of another variant")
                v = v[2][e[2]]
            elif v[0] == "clo" and e[0] == "f":
                v = v[2][e[2]]
            elif v[0] == "arr" and e[0] == "x":
                if not 0 <= e[1] < len(v[1]):
                    raise Unknown("index out of range")
                v = v[1][e[1]]
            else:
                raise Unknown("part of %s" % v[0])
        return v

    def put(self, root, path, v):
        def go(old, path):
            if not path:
                return v
            e = path[0]
            if e[0] == "f" and old[0] in ("a", "undef"):
                if old[0] == "undef":
                    old = ("a", e[1], ())
                fs = list(old[2])
                while len(fs) <= e[2]:
                    fs.append(("undef",))
                fs[e[2]] = go(fs[e[2]], path[1:])
                return ("a", e[1], tuple(fs))
            if e[0] == "f" and old[0] == "clo":
                fs = list(old[2])
                fs[e[2]] = go(fs[e[2]], path[1:])
                return ("clo", old[1], tuple(fs))
            if e[0] == "x" and old[0] == "arr":
                fs = list(old[1])
                fs[e[1]] = go(fs[e[1]], path[1:])
                return ("arr", tuple(fs))
            raise Unknown("store into a part of %s" % old[0])
        self.cells[root] = go(self.cells.get(root, ("undef",)), path)

    def deref(self, v):
        if v[0] == "r":
            return v[1], v[2]
        if v[0] == "str":
            return self.new(v), ()
        raise Unknown("dereference of %s" % v[0])

    def load(self, v):
        """what a reference points to"""
        return self.get(*self.deref(v))

    # ------------------------------------------------------------- places and operands
    def place(self, fr, pl):
        root, path = fr[pl[0]], ()
        ty = self.body.locals[pl[0]][0]
        variant = None
        sl = None
        for e in pl[1:]:
            k = e[0]
            if k == "*":
                v = self.get(root, path)
                if v[0] == "sl":
                    sl = v
                elif v[0] == "str":
                    root, path, sl = self.new(v), (), None
                else:
                    root, path = self.deref(v)
                    sl = None
                variant, ty = None, e[1]
            elif k == "f":
                if not self.T[ty]["tr"]:
                    path += (("f", variant or 0, e[1]),)
                variant, ty = None, e[2]
            elif k == "v":
                variant = e[1]
            elif k in ("i", "c"):
                n = self.cells[fr[e[1]]] if k == "i" else num(e[1])
                if n[0] != "i":
                    raise Unknown("index")
                n = n[1]
                ty = e[2] if k == "i" else e[3]
                if sl is not None:
                    lo, hi = sl[3], sl[4]
                    root, path = sl[1], sl[2]
                else:
                    a = self.get(root, path)
                    if a[0] != "arr":
                        raise Unknown("index into %s" % a[0])
                    lo, hi = 0, len(a[1])
                n = hi - n if k == "c" and e[2] else lo + n
                if not lo <= n < hi:
                    raise Panics
                path += (("x", n),)
                sl = None
            elif k == "s":
                if sl is None:
                    sl = ("sl", root, path, 0, len(self.get(root, path)[1]))
                sl = ("sl", sl[1], sl[2], sl[3] + e[1], sl[4] - e[2] if e[3] else sl[3] + e[2])
                ty = e[4]
            else:
                raise Unknown("place")
        return root, path, ty, sl

    def const(self, c):
        t = self.T[c["t"]]
        if t["k"] == "fndef":
            return ("fnd", t.get("inst"), t.get("path"))
        v = c.get("v")
        if v is None:
            if c.get("ci") is not None:
                return self.call_inst(c["ci"], [])
            if t["k"] in ("uint", "int") and "n" in c and "::" not in c["n"]:
                return num(self.N)
            if t["k"] == "closure":
                return ("clo", c["t"], ())
            raise Unknown("constant %s" % c.get("n"))
        return self.cval(v, c["t"])

    def cval(self, v, ty):
        t = self.T[ty]
        if v is None:
            raise Unknown("constant")
        if "i" in v:
            return num(int(v["i"]), t.get("bits", 1 if t["k"] == "bool" else 0))
        if "s" in v:
            return ("str", v["s"])
        if "r" in v:
            return ("r", self.new(self.cval(v["r"], v["t"])), ())
        fs = tuple(self.cval(f["v"], f["t"]) for f in v["fields"])
        if t["tr"] or t["k"] == "pat":
            return fs[0] if fs else UNIT
        if t["k"] == "array":
            return ("arr", fs)
        if t["k"] == "closure":
            return ("clo", ty, fs)
        return ("a", v["var"], fs)

    def op(self, fr, o):
        if o[0] == "k":
            return self.const(o[1])
        if o[0] == "rc":
            return num(0, 1)
        root, path, ty, sl = self.place(fr, o[1])
        if sl is not None:
            raise Unknown("slice by value")
        return self.get(root, path)

    def rvalue(self, fr, r, ty):
        k = r[0]
        if k == "use":
            return self.op(fr, r[1])
        if k in ("ref", "raw"):
            root, path, t, sl = self.place(fr, r[2])
            return sl if sl is not None else ("r", root, path)
        if k == "cast":
            return self.cast(self.op(fr, r[2]), r[1], r[3])
        if k == "bin":
            return self.bin(r[1], self.op(fr, r[2]), self.op(fr, r[3]), r[2])
        if k == "un":
            v = self.op(fr, r[2])
            if r[1] == "Not" and v[0] == "i" and v[2] == 1:
                return num(1 - v[1], 1)
            if r[1] == "PtrMetadata" and v[0] == "sl":
                return num(v[4] - v[3])
            if r[1] == "PtrMetadata" and v[0] == "r":
                a = self.load(v)
                if a[0] == "arr":
                    return num(len(a[1]))
            raise Unknown("operator %s" % r[1])
        if k == "discr":
            root, path, t, sl = self.place(fr, r[1])
            return self.discr(self.get(root, path), t)
        if k == "agg":
            vals = tuple(self.op(fr, o) for o in r[4])
            if r[1] == "adt":
                t = self.T[r[2]]
                if t["tr"]:
                    return vals[0] if vals else UNIT
                return ("a", r[3], vals)
            if r[1] == "closure":
                return ("clo", r[2], vals)
            if r[1] == "array":
                return ("arr", vals)
            if r[1] == "tuple":
                return ("a", 0, vals)
            raise Unknown("aggregate %s" % r[1])
        if k == "repeat":
            n = r[2] if isinstance(r[2], int) else self.N
            return ("arr", (self.op(fr, r[1]),) * n)
        raise Unknown("rvalue %s" % k)

    def discr(self, v, ty):
        t = self.T[ty]
        if v[0] == "undef":
            # never written because only one variant can exist (the residual of a `?` on an option)
            can = [k for k, x in enumerate(t.get("variants", ())) if all(self.T[f[1]]["k"] != "never" and self.T[f[1]]["s"] != "!" for f in x[2])]
            if len(can) == 1:
                v = ("a", can[0], ())
        if v[0] != "a":
            raise Unknown("variant of %s" % v[0])
        d = t.get("discrs")
        return num(d[v[1]] if d and v[1] < len(d) else v[1])

    def cast(self, v, how, ty):
        t = self.T[ty]
        if "Unsize" in how and v[0] == "r":
            a = self.load(v)
            if a[0] == "arr":
                return ("sl", v[1], v[2], 0, len(a[1]))
            return v
        if t["k"] in ("ref", "ptr", "fnptr"):
            return v
        if t["k"] in ("uint", "int") and v[0] in ("i", "rk", "junk"):
            bits = t.get("bits", 64)
            if v[0] == "i":
                return num(v[1] & ((1 << bits) - 1) if t["k"] == "uint" else v[1], bits)
            if v[0] == "rk" and (bits > 32 or bits == 32 and t["k"] == "uint"):
                return v
            self.junk += 1
            return ("junk", (v, bits))
        if how.startswith("Transmute") or "Transmute" in how:
            return v
        raise Unknown("cast %s" % how)

    # ------------------------------------------------------------- numbers
    def cmpn(self, a, b):
        if a == b and a[0] != "junk":
            return 0
        if a == b:
            return 0
        if a[0] == "i" and b[0] == "i":
            return (a[1] > b[1]) - (a[1] < b[1])
        if a[0] == "junk" or b[0] == "junk":
            if (b, a) in self.memo:
                return -self.cmpn(b, a)
            return self.choose(3, (a, b)) - 1
        if a[0] == "rk" and b[0] == "rk":
            if a[1] == b[1]:
                return (a[2] > b[2]) - (a[2] < b[2])
            if a[1] < b[1]:
                return -self.cmpn(b, a)
            d = 1 + a[2] - b[2]      # the least possible difference
            if d >= 1:
                return 1
            if (b, a) in self.memo:
                return -self.memo[(b, a)]
            return self.choose(2, (a, b)) if d == 0 else self.choose(3, (a, b)) - 1
        if a[0] == "rk" and b[0] == "i":
            if b[1] < 1 + a[2]:
                return 1
            if b[1] >= 0xffffffff:
                return -1       # the last number is assumed not to be in use
            if b[1] == 1 + a[2]:
                # the lowest number may be one
                if a[1] != self.low:
                    return 1
                if self.choose(2, ("one",)) == 0:
                    return 1
                self.one = self.low
                return 0
            raise Unknown("comparison of a sequence number with %d" % b[1])
        if a[0] == "i" and b[0] == "rk":
            return -self.cmpn(b, a)
        raise Unknown("comparison of %s and %s" % (a[0], b[0]))

    def bin(self, o, a, b, _):
        base = o.replace("WithOverflow", "").replace("Unchecked", "")
        cmpo = {"Lt": (-1,), "Le": (-1, 0), "Gt": (1,), "Ge": (1, 0), "Eq": (0,), "Ne": (-1, 1)}
        if base in cmpo:
            if base in ("Eq", "Ne") and a[0] in ("r", "sl") and b[0] in ("r", "sl"):
                return num(int((a == b) == (base == "Eq")), 1)
            return num(int(self.cmpn(a, b) in cmpo[base]), 1)
        if base == "Cmp":
            return ("a", self.cmpn(a, b) + 1, ())
        over = 0
        if base in ("Add", "Sub") and a[0] in ("i", "rk") and b[0] in ("i", "rk"):
            s = 1 if base == "Add" else -1
            if a[0] == "i" and b[0] == "i":
                v = a[1] + s * b[1]
                bits = a[2] or b[2] or 64
                if not 0 <= v < 1 << bits:
                    if not o.endswith("WithOverflow"):
                        raise Unknown("wrapped number")
                    over, v = 1, v & ((1 << bits) - 1)
                v = num(v, bits)
            elif a[0] == "rk" and b[0] == "i":
                v = ("rk", a[1], a[2] + s * b[1])
            elif a[0] == "i" and s == 1:
                v = ("rk", b[1], b[2] + a[1])
            else:
                raise Unknown("arithmetic with sequence numbers")
        elif base in ("Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor") and a[0] == "i" and b[0] == "i":
            if base in ("Div", "Rem") and b[1] == 0:
                raise Panics
            v = {"Mul": a[1] * b[1], "Div": a[1] // max(b[1], 1), "Rem": a[1] % max(b[1], 1), "BitAnd": a[1] & b[1], "BitOr": a[1] | b[1],
                 "BitXor": a[1] ^ b[1]}[base]
            v = num(v, a[2])
        elif a[0] in ("rk", "junk") or b[0] in ("rk", "junk"):
            if base in ("BitAnd", "Rem", "Shr", "Shl", "BitXor", "BitOr", "Mul", "Div"):
                v = ("junk", (base, a, b))
            else:
                raise Unknown("operator %s" % o)
        else:
            raise Unknown("operator %s on %s" % (o, a[0]))
        return ("a", 0, (v, num(over, 1))) if o.endswith("WithOverflow") else v

    def compare(self, a, b, ty):
        """derived order of two values of a type"""
        t = self.T[ty]
        if t["k"] in ("ref",):
            return self.compare(self.load(a), self.load(b), t["to"])
        if t["k"] in ("uint", "int", "bool", "char") or t["tr"]:
            return self.cmpn(a, b)
        if t["k"] == "tuple":
            for x, y, e in zip(a[2], b[2], t["elems"]):
                c = self.compare(x, y, e)
                if c:
                    return c
            return 0
        if t["k"] == "adt" and t["path"] == "core::cmp::Reverse":
            return self.compare(b[2][0], a[2][0], t["args"][0])
        if t["k"] == "adt" and t["path"] in ("core::option::Option", "core::cmp::Ordering", "core::result::Result"):
            if a[1] != b[1]:
                return (a[1] > b[1]) - (a[1] < b[1])
            for x, y, f in zip(a[2], b[2], t["variants"][a[1]][2]):
                c = self.compare(x, y, f[1])
                if c:
                    return c
            return 0
        raise Unknown("order of %s" % t["s"])

    # ------------------------------------------------------------- calls
    def call_value(self, f, args):
        """call a closure or function value"""
        while f[0] == "r":
            g = self.load(f)
            if g[0] == "clo":
                return self.call_inst(self.T[g[1]].get("inst"), [f] + args)
            f = g
        if f[0] == "clo":
            inst = self.T[f[1]].get("inst")
            b = self.p.body(inst) if inst is not None else None
            if b is None:
                raise Unknown("closure")
            v = f
            if self.T[b.locals[1][0]]["k"] == "ref":
                v = ("r", self.new(f), ())
            return self.call_inst(inst, [v] + args)
        if f[0] == "fnd":
            return self.call(f[1], f[2], args, None, None)
        raise Unknown("call of %s" % f[0])

    def call_inst(self, inst, args):
        b = self.p.body(inst) if inst is not None else None
        if b is None:
            raise Unknown("function without a body")
        if self.depth > 60:
            raise Unknown("recursion")
        if b.argc != len(args):
            if args and len(args) == 2 and args[1][0] == "a" and b.argc == 1 + len(args[1][2]):
                args = [args[0]] + list(args[1][2])
            else:
                raise Unknown("arguments of %s" % self.p.insts[inst]["path"])
        old = self.body
        self.body = b
        self.depth += 1
        try:
            return self.run(b, args)
        finally:
            self.body = old
            self.depth -= 1

    body = None

    def run(self, b, args):
        fr = {}
        for i in range(len(b.locals)):
            fr[i] = self.new(args[i - 1] if 1 <= i <= len(args) else ("undef",))
        bb = 0
        while True:
            blk = b.blocks[bb]
            for s in blk["s"]:
                self.steps += 1
                if self.steps > MAXSTEPS:
                    raise Unknown("too many steps")
                if s[0] == "=":
                    root, path, ty, sl = self.place(fr, s[1])
                    self.put(root, path, self.rvalue(fr, s[2], ty))
                elif s[0] == "sd":
                    root, path, ty, sl = self.place(fr, s[1])
                    self.put(root, path, ("a", s[2], ()))
            t = blk["t"]
            k = t[0]
            if k == "goto":
                bb = t[1]
            elif k == "ret":
                return self.cells[fr[0]]
            elif k == "switch":
                v = self.op(fr, t[1])
                if v[0] == "rk" or v[0] == "junk":
                    for val, x in t[2]:
                        if self.cmpn(v, num(int(val), 32)) == 0:
                            bb = x
                            break
                    else:
                        bb = t[3]
                elif v[0] == "i":
                    bb = next((x for val, x in t[2] if int(val) == v[1]), t[3])
                else:
                    raise Unknown("switch on %s" % v[0])
            elif k == "drop":
                if self.T[t[2]]["nd"]:
                    raise Unknown("drop of %s" % self.T[t[2]]["s"])
                bb = t[3]
            elif k == "assert":
                v = self.op(fr, t[1])
                if v[0] != "i":
                    raise Unknown("assertion")
                if v[1] != (1 if t[2] else 0):
                    raise Panics
                bb = t[3]
            elif k == "call":
                c = t[1]
                args = [self.op(fr, o) for o in t[2]]
                if "path" not in c:
                    v = self.call_value(self.op(fr, c["ptr"]), args)
                else:
                    v = self.call(c.get("inst"), c["path"], args, t[3], c)
                if t[6] is None:
                    raise Unknown("call without return")
                root, path, ty, sl = self.place(fr, t[4])
                self.put(root, path, v)
                bb = t[6]
            elif k in ("unreachable", "abort", "resume"):
                raise Panics
            else:
                raise Unknown("terminator %s" % k)

    def call(self, inst, path, args, tys, c):
        real = self.p.insts[inst]["path"] if inst is not None else path
        name = re.sub(r".*::", "", path)
        if "panic" in path or "expect_failed" in path or "unwrap_failed" in path:
            raise Panics
        if self.ignored(path):
            return UNIT
        r = self.native(inst, path, real, name, args, tys)
        if r is not NotImplemented:
            return r
        if inst is not None and self.p.body(inst) is not None:
            return self.call_inst(inst, args)
        raise Unknown("call of %s" % path)

    def ignored(self, path):
        return path.startswith(("cfg_noodle::logging", "defmt::", "log::", "core::fmt"))

    def seq(self, v):
        """references to the elements of a slice iterator"""
        if v[0] == "sl":
            return [("r", v[1], v[2] + (("x", i),)) for i in range(v[3], v[4])]
        if v[0] == "sit":
            return [("r", v[1], v[2] + (("x", i),)) for i in range(v[3], v[4])]
        if v[0] == "vit":
            return list(v[1])
        raise Unknown("elements of %s" % v[0])

    def slice(self, v):
        if v[0] == "sl":
            return v
        if v[0] == "r":
            a = self.load(v)
            if a[0] == "arr":
                return ("sl", v[1], v[2], 0, len(a[1]))
            if a[0] == "sl":
                return a
            if a[0] == "r":
                return self.slice(a)
        raise Unknown("slice of %s" % v[0])

    def native(self, inst, path, real, name, args, tys):
        N = NotImplemented
        a0 = args[0] if args else None
        it = a0
        if it is not None and it[0] == "r":
            try:
                x = self.load(it)
            except Unknown:
                x = ("undef",)
            if x[0] in ("sit", "vit"):
                it = x
        # closures and functions
        if path.startswith("core::ops::function::") and name in ("call", "call_mut", "call_once"):
            return self.call_value(a0, list(args[1][2]) if args[1][0] == "a" else [args[1]])
        # iterators over the places
        if it is not None and it[0] in ("sit", "vit") and ("iter" in path):
            r = self.iterator(name, it, a0, args)
            if r is not N:
                return r
        if name in ("iter", "iter_mut", "into_iter") and ("slice" in path or "array" in path or "IntoIterator" in path) and a0[0] in ("r", "sl"):
            try:
                s = self.slice(a0)
            except Unknown:
                return N
            return ("sit",) + s[1:]
        if name == "into_iter" and a0[0] == "arr":
            return ("vit", tuple(a0[1]))
        if name == "into_iter" and a0[0] in ("sit", "vit"):
            return a0
        # slices
        if "slice" in path or "core::array" in real or path.startswith("core::ops::index::"):
            r = self.slices(name, path, args, tys)
            if r is not N:
                return r
        # numbers
        if path.startswith("core::num::"):
            r = self.number(name, path, args)
            if r is not N:
                return r
        # order
        if tys is None and inst is not None and self.p.body(inst) is not None:
            b = self.p.body(inst)
            tys = [b.locals[i][0] for i in range(1, b.argc + 1)]
        if path.startswith("core::cmp::") and len(args) == 2 and tys and name in ("lt", "le", "gt", "ge", "eq", "ne", "cmp", "partial_cmp", "max", "min"):
            own = inst is not None and self.p.insts[inst]["krate"] == "cfg_noodle"
            plain = all(x[0] in ("i", "rk", "junk") for x in args)
            if not own and (plain or self.ordered(tys[0])):
                x = self.cmpn(args[0], args[1]) if plain else self.compare(args[0], args[1], tys[0])
                if name in ("max", "min"):
                    return args[1] if (x <= 0) == (name == "max") else args[0]
                if name == "cmp":
                    return ("a", x + 1, ())
                if name == "partial_cmp":
                    return some(("a", x + 1, ()))
                return num(int(x in {"lt": (-1,), "le": (-1, 0), "gt": (1,), "ge": (1, 0), "eq": (0,), "ne": (-1, 1)}[name]), 1)
        # memory
        if path == "core::mem::swap":
            x, y = self.load(args[0]), self.load(args[1])
            self.put(*self.deref(args[0]), y)
            self.put(*self.deref(args[1]), x)
            return UNIT
        if path == "core::mem::replace":
            x = self.load(args[0])
            self.put(*self.deref(args[0]), args[1])
            return x
        if path == "core::mem::take" and tys and self.T[tys[0]].get("k") == "ref" and self.T[self.T[tys[0]]["to"]].get("path") == "core::option::Option":
            x = self.load(args[0])
            self.put(*self.deref(args[0]), NONE)
            return x
        if path in ("core::option::Option::<T>::take", "core::option::Option::<T>::replace", "core::option::Option::<T>::insert"):
            x = self.load(args[0])
            self.put(*self.deref(args[0]), NONE if name == "take" else some(args[1]))
            return x if name != "insert" else ("r", args[0][1], args[0][2] + (("f", 1, 0),))
        if path.endswith("Clone::clone") and tys:
            t = self.T[tys[0]]
            if t["k"] == "ref" and not self.T[t["to"]].get("nd", True):
                return self.load(a0)
        if path.startswith("core::intrinsics::discriminant_value"):
            return self.discr(self.load(a0), self.T[tys[0]]["to"])
        if path in ("core::convert::From::from", "core::convert::Into::into") and a0[0] in ("rk", "i"):
            return a0
        if path.startswith("core::intrinsics::") and name in ("likely", "unlikely", "black_box"):
            return a0
        if path.startswith("core::hint::") and name == "black_box":
            return a0
        return N

    def ordered(self, ty):
        t = self.T[ty]
        if t["k"] == "ref":
            return self.ordered(t["to"])
        if t["k"] in ("uint", "int", "bool") or t["tr"]:
            return True
        if t["k"] == "tuple":
            return all(self.ordered(x) for x in t["elems"])
        if t["k"] == "adt" and t["path"] in ("core::option::Option", "core::cmp::Reverse"):
            return all(self.ordered(x) for x in t["args"])
        return t["k"] == "adt" and t["path"] == "core::cmp::Ordering"

    def iterator(self, name, it, a0, args):
        N = NotImplemented
        byref = a0[0] == "r"
        xs = self.seq(it)

        def rest(n, back=False):
            """drop n elements in front (or at the end)"""
            if not byref:
                return
            if it[0] == "vit":
                v = ("vit", it[1][:len(xs) - n] if back else it[1][n:])
            else:
                v = it[:3] + ((it[3], it[4] - n) if back else (it[3] + n, it[4]))
            self.put(a0[1], a0[2], v)
        if name == "next" and byref:
            rest(min(1, len(xs)))
            return some(xs[0]) if xs else NONE
        if name == "next_back" and byref:
            rest(min(1, len(xs)), True)
            return some(xs[-1]) if xs else NONE
        if name in ("nth", "nth_back") and args[1][0] == "i":
            n = args[1][1]
            rest(min(n + 1, len(xs)), name == "nth_back")
            if n >= len(xs):
                return NONE
            return some(xs[n] if name == "nth" else xs[-1 - n])
        if name in ("len", "count"):
            return num(len(xs))
        if name == "size_hint":
            return ("a", 0, (num(len(xs)), some(num(len(xs)))))
        if name == "last":
            return some(xs[-1]) if xs else NONE
        if name == "clone":
            return it
        if name == "as_slice" and it[0] == "sit":
            return ("sl",) + it[1:]
        if name in ("fold", "rfold") and not byref:
            acc = args[1]
            for x in xs if name == "fold" else reversed(xs):
                acc = self.call_value(args[2], [acc, x])
            return acc
        if name == "for_each" and not byref:
            for x in xs:
                self.call_value(args[1], [x])
            return UNIT
        if name in ("all", "any", "position", "rposition", "find", "find_map", "rfind") and byref:
            idx = list(range(len(xs)))
            back = name in ("rposition", "rfind")
            for n, i in enumerate(reversed(idx) if back else idx):
                rest(n + 1, back)
                arg = xs[i]
                if name in ("find", "rfind"):
                    arg = ("r", self.new(arg), ())
                y = self.call_value(args[1], [arg])
                if name == "find_map":
                    if y[1] == 1:
                        return y
                    continue
                if y[0] != "i":
                    raise Unknown("predicate")
                if name == "all" and not y[1]:
                    return num(0, 1)
                if name == "any" and y[1]:
                    return num(1, 1)
                if name in ("position", "rposition") and y[1]:
                    return some(num(i))
                if name in ("find", "rfind") and y[1]:
                    return some(xs[i])
            return num(1, 1) if name == "all" else num(0, 1) if name == "any" else NONE
        return N

    def slices(self, name, path, args, tys):
        N = NotImplemented
        try:
            s = self.slice(args[0])
        except (Unknown, IndexError):
            return N
        root, base, lo, hi = s[1:]

        def elem(i):
            return ("r", root, base + (("x", i),))

        def vals():
            return list(self.get(root, base)[1][lo:hi])

        def store(vs):
            a = list(self.get(root, base)[1])
            a[lo:hi] = vs
            self.put(root, base, ("arr", tuple(a)))
            return UNIT
        n = hi - lo
        if name == "len":
            return num(n)
        if name == "is_empty":
            return num(int(n == 0), 1)
        if name in ("as_slice", "as_mut_slice", "as_ref", "as_mut", "borrow", "borrow_mut"):
            return s
        if name in ("first", "first_mut", "last", "last_mut"):
            return some(elem(lo if name.startswith("first") else hi - 1)) if n else NONE
        if name in ("split_first", "split_first_mut"):
            return some(("a", 0, (elem(lo), ("sl", root, base, lo + 1, hi)))) if n else NONE
        if name in ("split_last", "split_last_mut"):
            return some(("a", 0, (elem(hi - 1), ("sl", root, base, lo, hi - 1)))) if n else NONE
        if name in ("get", "get_mut", "index", "index_mut"):
            x = args[1]
            if x[0] == "i":
                ok = x[1] < n
                if name.startswith("get"):
                    return some(elem(lo + x[1])) if ok else NONE
                if not ok:
                    raise Panics
                return elem(lo + x[1])
            r = self.bounds(x, n, tys)
            if r is None:
                return N
            ok = r[0] <= r[1] <= n
            v = ("sl", root, base, lo + r[0], lo + r[1])
            if name.startswith("get"):
                return some(v) if ok else NONE
            if not ok:
                raise Panics
            return v
        if name in ("split_at", "split_at_mut") and args[1][0] == "i":
            m = args[1][1]
            if m > n:
                raise Panics
            return ("a", 0, (("sl", root, base, lo, lo + m), ("sl", root, base, lo + m, hi)))
        if name == "swap":
            i, j = args[1][1], args[2][1]
            if i >= n or j >= n:
                raise Panics
            vs = vals()
            vs[i], vs[j] = vs[j], vs[i]
            return store(vs)
        if name == "reverse":
            return store(vals()[::-1])
        if name in ("rotate_left", "rotate_right"):
            m = args[1][1]
            if m > n:
                raise Panics
            vs = vals()
            m = m if name == "rotate_left" else n - m
            return store(vs[m:] + vs[:m])
        if name == "fill":
            return store([args[1]] * n)
        if name == "copy_within":
            r = self.bounds(args[1], n, tys)
            if r is None:
                return N
            vs = vals()
            part = vs[r[0]:r[1]]
            d = args[2][1]
            if r[0] > r[1] or r[1] > n or d + len(part) > n:
                raise Panics
            vs[d:d + len(part)] = part
            return store(vs)
        if name in ("copy_from_slice", "clone_from_slice"):
            o = self.slice(args[1])
            if o[4] - o[3] != n:
                raise Panics
            return store(list(self.get(o[1], o[2])[1][o[3]:o[4]]))
        if name.startswith("sort"):
            return self.sort(name, vals(), elem, store, lo, args)
        if name in ("binary_search_by_key", "partition_point"):
            return N
        return N

    def sort(self, name, vs, elem, store, lo, args):
        import functools
        refs = [("r", self.new(v), ()) for v in vs]
        unstable = "unstable" in name
        kind = name.replace("sort", "").replace("_unstable", "").replace("_cached", "")
        if kind == "_by_key":
            f = args[1]
            b = self.p.body(self.T[f[1]].get("inst")) if f[0] == "clo" else None
            if b is None:
                raise Unknown("sort key")
            kt = b.locals[0][0]
            keys = [self.call_value(("r", self.new(f), ()), [r]) for r in refs]
            cmp = lambda i, j: self.compare(keys[i], keys[j], kt)
        elif kind == "_by":
            f = ("r", self.new(args[1]), ())

            def cmp(i, j):
                x = self.call_value(f, [refs[i], refs[j]])
                return x[1] - 1
        elif kind == "":
            raise Unknown("sort by the order of the element type")
        else:
            raise Unknown(name)
        order = []
        tie = None
        for i in range(len(vs)):       # insertion sort, stable
            j = len(order)
            while j > 0:
                c = cmp(order[j - 1], i)
                if c == 0 and unstable:
                    # equal elements in any order; equal absent ones are the same
                    if vs[order[j - 1]] != vs[i]:
                        tie = self.choose(2) if tie is None else tie
                        c = 1 if tie else -1
                    else:
                        c = -1
                if c <= 0:
                    break
                j -= 1
            order.insert(j, i)
        return store([vs[i] for i in order])

    def bounds(self, x, n, tys):
        """a range value: (from, to)"""
        t = self.T[tys[1]] if tys and len(tys) > 1 else {}
        kind = t.get("path", "").replace("core::ops::range::", "").replace("core::range::", "")
        if x[0] == "a" and all(y[0] == "i" for y in x[2]):
            ys = [y[1] for y in x[2]]
            if kind == "Range":
                return ys[0], ys[1]
            if kind == "RangeInclusive":
                return ys[0], ys[1] + 1
            if kind == "RangeTo":
                return 0, ys[0]
            if kind == "RangeToInclusive":
                return 0, ys[0] + 1
            if kind == "RangeFrom":
                return ys[0], n
            if kind == "RangeFull":
                return 0, n
        return None

    def number(self, name, path, args):
        N = NotImplemented
        a = args[0]
        if a[0] == "r":
            return N
        nz = "nonzero" in path
        if name == "get" and nz:
            return a
        if name in ("new", "new_unchecked") and nz:
            if a[0] == "i":
                zero = a[1] == 0
            elif a[0] == "rk" and a[2] >= 0:
                zero = False
            else:
                raise Unknown("NonZero::new")
            return (NONE if zero else some(a)) if name == "new" else a
        if name in ("checked_add", "wrapping_add", "saturating_add", "strict_add", "unchecked_add", "checked_sub", "wrapping_sub", "saturating_sub") \
                and a[0] in ("i", "rk") and args[1][0] == "i" and (a[0] == "rk" or name.endswith("_add")):
            d = args[1][1] * (1 if name.endswith("_add") else -1)
            if a[0] == "i":
                v = num(a[1] + d, a[2])
            else:
                v = ("rk", a[1], a[2] + d)
                if d < 0 and name != "wrapping_sub":
                    raise Unknown("subtraction from a sequence number")
            return some(v) if name.startswith("checked") else v
        if name in ("max", "min"):
            c = self.cmpn(a, args[1])
            return args[1] if (c <= 0) == (name == "max") else a
        return N


# ------------------------------------------------------------------------------------------------ the index

def elems(v):
    """the records in a value, in order: [(number, name of the range)]"""
    out = []

    def go(x):
        if x.__class__ is tuple and x and x[0] == "rec":
            out.append(x)
        elif x.__class__ is tuple:
            for y in x:
                go(y)
    go(v)
    return out


class Index:
    def __init__(self, p, a, places):
        self.p, self.a, self.N = p, a, places
        self.T = p.types
        self.rec_fields = self.T[a.rec[0]]["variants"][0][2]
        self.f_seq = next((n for n, f in enumerate(self.rec_fields) if "NonZero" in self.T[f[1]]["s"] or self.T[f[1]]["k"] == "uint"), None)
        if self.f_seq is None:
            raise AnalysisError("anchor: a good record without a sequence number")
        self.seq_fields = self.T[a.seq[0]]["variants"][0][2]

    def functions(self):
        """(inserting functions, reading functions)"""
        ins, rd = [], []
        for r in self.p.roots:
            b = self.p.body(r["inst"])
            if b is None or b.argc < 1 or r.get("async"):
                continue
            t = self.T[b.locals[1][0]]
            if t["k"] != "ref" or t["to"] not in self.a.seq:
                continue
            ret = b.locals[0][0]
            if b.argc == 2 and t.get("mut", True) and self.isrec(b.locals[2][0]) and self.T[ret]["k"] in ("tuple", "bool"):
                ins.append(r)
            elif b.argc == 1 and self.isopt(ret):
                rd.append(r)
        # helpers of another inserting function are covered with it
        called = {}
        for i, b in self.p.local_bodies():
            for blk in b.blocks:
                t = blk["t"]
                if t[0] == "call" and t[1].get("inst") is not None:
                    called.setdefault(t[1].get("path"), set()).add(self.p.insts[i]["path"])
        inner = set()
        for r in ins:
            cs = called.get(r["path"], set())
            if cs and all(any(o is not r and o["path"] in c for o in ins) for c in cs):
                inner.add(r["path"])
        return [r for r in ins if r["path"] not in inner], rd

    def isrec(self, ty):
        t = self.T[ty]
        return ty in self.a.rec or t["k"] == "ref" and t["to"] in self.a.rec

    def isopt(self, ty):
        t = self.T[ty]
        return t["k"] == "adt" and t["path"] == "core::option::Option" and self.isrec(t["args"][0])

    def record(self, rank, name):
        return ("a", 0, tuple(("rk", rank, 0) if n == self.f_seq else ("tok", (name, n)) for n in range(len(self.rec_fields))))

    def state(self, places, nxt):
        """a value of the index: places [None or (rank, name)], next number"""
        fs = []
        for n, f in enumerate(self.seq_fields):
            if n == self.a.f_recs:
                fs.append(("arr", tuple(NONE if e is None else some(self.record(*e)) for e in places)))
            elif n == self.a.f_next:
                fs.append(nxt)
            elif self.T[f[1]]["k"] == "bool":
                fs.append(num(0, 1))
            else:
                raise Unknown("field of the index")
        return ("a", 0, tuple(fs))

    def decode(self, v):
        """places of a value"""
        if v[0] != "a" or v[2][self.a.f_recs][0] != "arr":
            raise Unknown("index value")
        out = []
        for e in v[2][self.a.f_recs][1]:
            if e[0] != "a":
                raise Unknown("place of the index")
            out.append(self.decrec(e[2][0]) if e[1] == 1 else None)
        return out

    def decrec(self, v):
        if v[0] == "a" and v[2][self.f_seq][0] == "rk" and v[2][self.f_seq][2] == 0:
            names = {x[1][0] for n, x in enumerate(v[2]) if n != self.f_seq and x[0] == "tok" and x[1][1] == n}
            if len(names) == 1 and all(x[0] == "tok" for n, x in enumerate(v[2]) if n != self.f_seq):
                return (v[2][self.f_seq][1], names.pop())
        return "mixed"


def order(p, a, r, places, only=None, rule="C31"):
    """check the index with a number of places: number of index contents"""
    ix = Index(p, a, places)
    ins, rd = ix.functions()
    r.gaps = []
    if not ins:
        r.gaps.append("index: no function inserts a record into the index")
        return 0
    if not rd and only in (None, "newest record read"):
        r.gaps.append("index: no function reads the newest record")
    total = 0
    for f in ins:
        try:
            total += insert(ix, f, rd, r, only, rule)
        except Unknown as e:
            r.gaps.append("index: %s: %s" % (clean(f["path"]), e))
    return total


def insert(ix, f, rd, r, only, rule):
    where = (f["path"].replace("cfg_noodle::", ""), f["file"], f["line"])
    byref = ix.T[ix.p.body(f["inst"]).locals[2][0]]["k"] == "ref"

    def ob(construct, ok, msg, history, fn=where):
        if only is not None and construct != only:
            return
        n = len(r.violations)
        r.ob(rule, construct, fn[0], ok, msg, fn[1], fn[2])
        if len(r.violations) > n:
            r.violations[-1]["path"] = [history]

    start = [((None,) * ix.N, NONE), ((None,) * ix.N, some(num(1, 32)))]
    seen, work = set(start), list(start)
    while work:
        places, nxt = work.pop()
        ranks = sorted({e[0] for e in places if e is not None})
        for pos in range(2 * len(ranks) + 1):
            # even numbers are those in the index
            new = pos + 1
            it = Interp(ix.p, ix.N)
            it.low = min(ranks + [new])
            arg = ix.record(new, "new")
            s = it.new(ix.state(places, nxt))
            if byref:
                arg = ("r", it.new(arg), ())
            history = "index [%s], next number %s, new record number %d" % (
                ", ".join("-" if e is None else str(e[0]) for e in places), shown(nxt), new)

            def go():
                try:
                    it.call_inst(f["inst"], [("r", s, ()), arg])
                except Panics:
                    return "panic"
                return dict(it.cells)
            for res in it.outcomes(go):
                if res == "panic":
                    ob("newest records kept", False, "inserting a record panics", history)
                    continue
                v = res[s]
                after = ix.decode(v)
                have = [e for e in places if e is not None] + [(new, "new")]
                kept = [e for e in after if e is not None]
                want = sorted((e[0] for e in have), reverse=True)[:ix.N]
                ok = "mixed" not in kept and len(set(kept)) == len(kept) and all(e in have for e in kept) and \
                    sorted((e[0] for e in kept), reverse=True) == want
                got = "; the index becomes [%s]" % ", ".join("-" if e is None else "?" if e == "mixed" else str(e[0]) for e in after)
                ob("newest records kept", ok, "the index does not hold the newest records after an insertion", history + got)
                top = max(e[0] for e in have)
                n2 = v[2][ix.a.f_next]
                if it.one is not None and n2[2] and n2[2][0][0] == "i":
                    n2 = some(("rk", it.one, n2[2][0][1] - 1))
                good = n2 == some(("rk", top, 1))
                ob("next number follows the highest", good, "the next sequence number is not the one after the highest known",
                   history + got + ", next number " + shown(n2))
                if not ok or not good:
                    continue
                for g in rd:
                    i2 = Interp(ix.p, ix.N)
                    i2.cells, i2.ncell, i2.low = dict(res), max(res), it.low
                    wh = (g["path"].replace("cfg_noodle::", ""), g["file"], g["line"])

                    def look():
                        try:
                            x = i2.call_inst(g["inst"], [("r", s, ())])
                        except Panics:
                            return "panic"
                        if x[0] == "a" and x[1] == 1:
                            y = x[2][0]
                            return ix.decrec(i2.load(y) if y[0] == "r" else y)
                        return None
                    try:
                        for x in i2.outcomes(look):
                            ob("newest record read", x in kept and x[0] == top, "the record that is read is not the one with the highest number",
                               history + got + "; read: %s" % (x[0] if x and x != "mixed" else x,), wh)
                    except Unknown as e:
                        r.gaps.append("index: %s: %s" % (clean(g["path"]), e))
                # the same contents with other numbers
                rs = sorted({e[0] for e in kept})
                ren = {x: 2 * i + 2 for i, x in enumerate(rs)}
                st = (tuple(None if e is None else (ren[e[0]], i) for i, e in enumerate(after)), some(("rk", ren[top], 1)))
                if st not in seen:
                    seen.add(st)
                    work.append(st)
    return len(seen)


def shown(v):
    if v == NONE:
        return "none"
    x = v[2][0] if v[0] == "a" and v[2] else v
    if x[0] == "rk":
        return "%d%+d" % (x[1], x[2])
    return str(x[1]) if x[0] == "i" else "?"
