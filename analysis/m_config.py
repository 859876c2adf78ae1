"""C30: the build configurations do the same. For every function the program built in the other
configurations is compared with the one built in the leanest configuration, after removing what only
serves diagnostics: calls into the logging and formatting libraries, what is computed for them alone
(as long as it has no effect of its own), and the branches that then decide nothing. What remains is
compared as a graph, statement by statement, up to the naming of temporaries and blocks.

Because a tree is compared with itself (built differently), rewriting the code changes nothing: only
code that depends on the configuration can be reported."""
import hashlib
import json

LOGGING = ("log::", "defmt::", "core::fmt::", "alloc::fmt::", "core::panic::location", "defmt_parser::", "cfg_noodle::logging")
PANICS = ("core::panicking::", "std::rt::begin_panic", "std::rt::panic", "core::option::unwrap_failed", "core::result::unwrap_failed",
          "core::option::expect_failed", "defmt::export::panic", "std::panicking::")
# calls with shared references and plain values only, that nevertheless have effects
EFFECTS = ("core::sync::atomic", "core::cell", "maitake_sync", "mutex", "embassy", "cordyceps", "core::ptr", "core::intrinsics",
           "core::mem", "core::task", "critical_section", "core::hint", "core::future", "std::thread", "std::sync", "std::time")


# values whose destruction only frees memory
DATA = ("minicbor::", "core::result::Result<(), minicbor::", "core::result::Result<usize, minicbor::",
        "core::result::Result<&str, minicbor::", "core::result::Result<core::convert::Infallible, minicbor::")


class Norm:
    """one body, reduced to what matters"""

    def __init__(self, prog, inst, release):
        self.p, self.inst, self.release = prog, inst, release
        b = prog.body(inst)
        self.b = b
        self.locals = b.locals
        self.blk = []
        for bl in b.blocks:
            s = [x for x in bl["s"] if x[0] not in ("sl", "dead", "nop", "sd", "fake")]
            self.blk.append([s, self.term(bl["t"])])
        self.reduce()

    # ---- terminators without unwinding
    def term(self, t):
        k = t[0]
        if k == "switch":
            op = t[1]
            if op[0] == "k":
                v = op[1].get("v")
                i = v.get("i") if isinstance(v, dict) else None
                if i is not None:
                    for val, to in t[2]:
                        if int(val) == int(i):
                            return ("goto", to)
                    return ("goto", t[3])
            return ("switch", op, [tuple(x) for x in t[2]], t[3])
        if k == "goto":
            return ("goto", t[1])
        if k == "drop":
            return ("drop", t[1], t[2], t[3])
        if k == "call":
            path = t[1].get("path")
            if path and path.startswith(PANICS):
                return ("panic",)
            if path and "panic" in path.rsplit("::", 1)[-1] and t[6] is None:
                return ("panic",)
            return ("call", t[1], t[2], t[4], t[6])
        if k == "assert":
            return ("assert", t[1], t[2], t[3])
        if k == "yield":
            return ("yield", t[1], t[2])
        return (k,)

    # ---- purity
    def silent(self, t):
        path = t[1].get("path")
        return bool(path) and path.startswith(LOGGING)

    def pure(self, t):
        c = t[1]
        path = c.get("path")
        if not path:
            return False
        if path.startswith(LOGGING):
            return True
        if path.startswith("cfg_noodle::") and not path.startswith("cfg_noodle::Ndl"):
            return pure_body(self.p, c.get("inst"))
        if path.startswith(EFFECTS):
            return path.endswith(("::load", "::is_null", "::addr", "::cast", "::size_of", "::align_of"))
        return all(self.plain(self.optype(o)) for o in t[2])

    def optype(self, o):
        if o[0] in "cm":
            return self.ptype(o[1])
        return o[1]["t"] if o[0] == "k" else None

    def ptype(self, p):
        return self.locals[p[0]][0] if len(p) == 1 else None

    def plain(self, t, d=0):
        if t is None or d > 6:
            return d <= 6        # a projection: copied out
        x = self.p.types[t]
        k = x["k"]
        if k in ("ref",):
            return not x.get("mut") or x["s"] in ("&mut ()", "&mut ()")
        if k in ("raw", "ptr"):
            return not x.get("mut")
        return True

    # ---- reduction
    def reduce(self):
        for _ in range(200):
            ch = self.thread()
            need = self.needed()
            ch |= self.sweep(need)
            if not ch:
                break

    def final(self, i):
        """follow empty blocks"""
        seen = set()
        while i is not None and i not in seen:
            seen.add(i)
            s, t = self.blk[i]
            if s or t[0] != "goto":
                break
            i = t[1]
        return i

    def succ(self, t):
        k = t[0]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "goto":
            return [t[1]]
        if k in ("drop", "assert"):
            return [t[3]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "yield":
            return [x for x in t[1:] if x is not None]
        return []

    def retarget(self, t, f):
        k = t[0]
        if k == "switch":
            return ("switch", t[1], [(v, f(x)) for v, x in t[2]], f(t[3]))
        if k == "goto":
            return ("goto", f(t[1]))
        if k in ("drop", "assert"):
            return t[:3] + (f(t[3]),)
        if k == "call":
            return t[:4] + (f(t[4]) if t[4] is not None else None,)
        if k == "yield":
            return ("yield",) + tuple(f(x) if x is not None else None for x in t[1:])
        return t

    def reach(self):
        seen, st = set(), [0]
        while st:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            st += self.succ(self.blk[i][1])
        return seen

    def constants(self, live):
        """temporaries that are only ever assigned one constant"""
        d = {}
        for i in live:
            for x in self.blk[i][0]:
                if x[0] == "=":
                    one = len(x[1]) == 1 and x[2][0] == "use" and x[2][1][0] == "k" and x[1][0] not in d
                    d[x[1][0]] = x[2][1] if one else None
            t = self.blk[i][1]
            if t[0] == "call":
                d[t[3][0]] = None
        return {k: v for k, v in d.items() if v is not None and k not in self.b.borrowed and k > self.b.argc}

    def thread(self):
        ch = False
        live = self.reach()
        con = self.constants(live)
        for i in live:
            t = self.blk[i][1]
            if t[0] == "switch" and t[1][0] in "cm" and len(t[1]) == 2 and len(t[1][1]) == 1 and t[1][1][0] in con:
                t2 = self.term(["switch", con[t[1][1][0]], t[2], t[3]])
                if t2[0] == "goto":
                    self.blk[i][1] = t2
                    ch = True
        if ch:
            live = self.reach()
        for i in live:
            t = self.retarget(self.blk[i][1], self.final)
            if t[0] == "switch":
                tg = {x[1] for x in t[2]} | {t[3]}
                dead = {x for x in tg if not self.blk[x][0] and self.blk[x][1][0] == "unreachable"}
                if self.release:
                    dead |= {x for x in tg if self.only_panics(x)}
                tg2 = tg - dead
                if len(tg2) == 1 and (len(tg) == 1 or self.release and any(self.only_panics(x) for x in dead)):
                    t = ("goto", tg2.pop())
            if t[0] == "assert" and self.release:
                t = ("goto", t[3])
            if t != self.blk[i][1]:
                self.blk[i][1] = t
                ch = True
        # merge straight lines
        pred = {}
        for i in live:
            for s in self.succ(self.blk[i][1]):
                pred.setdefault(s, []).append(i)
        for i in sorted(live):
            while True:
                t = self.blk[i][1]
                if t[0] == "goto" and t[1] != i and len(pred.get(t[1], ())) == 1 and t[1] != 0 and self.blk[t[1]][1][0] != "merged":
                    j = t[1]
                    self.blk[i][0] = self.blk[i][0] + self.blk[j][0]
                    self.blk[i][1] = self.blk[j][1]
                    for s in self.succ(self.blk[i][1]):
                        pred[s] = [i if x == j else x for x in pred[s]]
                    self.blk[j] = [[], ("merged",)]
                    ch = True
                else:
                    break
        return ch

    def only_panics(self, i):
        """the block ends in a panic, and everything before has no effect"""
        for _ in range(12):
            s, t = self.blk[i]
            if any(x[0] == "=" and len(x[1]) > 1 and any(e[0] == "*" for e in x[1][1:]) for x in s):
                return False
            if t[0] == "panic":
                return True
            if t[0] == "goto":
                i = t[1]
            elif t[0] == "call" and t[4] is not None and self.pure(t):
                i = t[4]
            else:
                return False
        return False

    def needed(self):
        """locals whose value matters"""
        need = {0}
        live = self.reach()
        while True:
            n = len(need)
            for i in live:
                s, t = self.blk[i]
                for x in s:
                    if self.keep(x, need):
                        self.uses_stmt(x, need)
                k = t[0]
                if k == "switch" or k == "assert":
                    self.use_op(t[1], need)
                elif k == "drop":
                    if self.keep_drop(t, need):
                        self.use_place(t[1], need)
                elif k == "call":
                    if not self.droppable(t, need):
                        for o in t[2]:
                            self.use_op(o, need)
                        if "ptr" in t[1]:
                            self.use_op(t[1]["ptr"], need)
                        if len(t[3]) > 1:
                            self.use_place(t[3], need)
            if len(need) == n:
                return need

    def keep(self, x, need):
        if x[0] != "=":
            return x[0] not in ("assume",)
        p = x[1]
        return p[0] in need or any(e[0] == "*" for e in p[1:])

    def keep_drop(self, t, need):
        if self.p.types[t[2]]["s"].startswith(DATA):
            return False
        return t[1][0] in need or len(t[1]) > 1

    def droppable(self, t, need):
        """the call can be left out"""
        if self.silent(t):
            return t[4] is not None
        return t[4] is not None and len(t[3]) == 1 and t[3][0] not in need and self.pure(t)

    def use_place(self, p, u):
        u.add(p[0])
        for e in p[1:]:
            if e[0] == "i":
                u.add(e[1])

    def use_op(self, o, u):
        if o[0] in "cm" and len(o) == 2:
            self.use_place(o[1], u)

    def uses_stmt(self, x, u):
        if x[0] != "=":
            return
        if len(x[1]) > 1:
            self.use_place(x[1], u)
        r = x[2]
        k = r[0]
        if k in ("use", "repeat"):
            self.use_op(r[1], u)
        elif k in ("ref", "raw"):
            self.use_place(r[2], u)
        elif k in ("cast", "un"):
            self.use_op(r[2], u)
        elif k == "bin":
            self.use_op(r[2], u)
            self.use_op(r[3], u)
        elif k == "discr":
            self.use_place(r[1], u)
        elif k == "agg":
            for o in r[4]:
                self.use_op(o, u)

    def sweep(self, need):
        ch = False
        for i in self.reach():
            s, t = self.blk[i]
            s2 = [x for x in s if self.keep(x, need)]
            if len(s2) != len(s):
                self.blk[i][0] = s2
                ch = True
            if t[0] == "call" and self.droppable(t, need) or t[0] == "drop" and not self.keep_drop(t, need):
                self.blk[i][1] = ("goto", t[4] if t[0] == "call" else t[3])
                ch = True
        return ch

    # ---- canonical form
    def canon(self, memo):
        """[(line, text)] of the remaining graph in a fixed order"""
        num, loc, out = {}, {}, []
        order = [self.final(0)]
        num[order[0]] = 0

        def L(n):
            if n <= self.b.argc:
                return "a%d" % n
            return "t%d" % loc.setdefault(n, len(loc))

        def place(p):
            r = L(p[0])
            for e in p[1:]:
                k = e[0]
                r += "[%s]" % L(e[1]) if k == "i" else ".*" if k == "*" else ".%s%s" % (k, e[1]) if k in "fv" else ".%s" % json.dumps(e[:-1])
            return r

        def op(o):
            if o[0] in "cm" and len(o) == 2:
                return o[0] + " " + place(o[1])
            if o[0] == "k":
                return "k " + const(o[1])
            return str(o[0])

        def const(k):
            t = self.p.types[k["t"]]
            if t["k"] in ("fndef", "closure", "coroutine"):
                return self.fname(t, memo)
            return "%s%s:%s" % (k.get("n", ""), strip(k.get("v"), self.p), tname(self.p, k["t"]))

        def node(i):
            i = self.final(i)
            if i not in num:
                num[i] = len(num)
                order.append(i)
            return "->%d" % num[i]

        n = 0
        while n < len(order):
            i = order[n]
            n += 1
            s, t = self.blk[i]
            for x in s:
                if x[0] != "=":
                    out.append((0, str(x[0])))
                    continue
                r = x[2]
                k = r[0]
                if k in ("use", "repeat"):
                    v = k + " " + op(r[1])
                elif k in ("ref", "raw"):
                    v = "%s %s %s" % (k, r[1], place(r[2]))
                elif k == "cast":
                    v = "cast %s %s %s" % (r[1], op(r[2]), tname(self.p, r[3]))
                elif k == "bin":
                    v = "%s %s %s" % (r[1], op(r[2]), op(r[3]))
                elif k == "un":
                    v = "%s %s" % (r[1], op(r[2]))
                elif k == "discr":
                    v = "discr " + place(r[1])
                elif k == "agg":
                    ty = self.p.types[r[2]]
                    nm = self.fname(ty, memo) if ty["k"] in ("closure", "coroutine") else tname(self.p, r[2])
                    v = "agg %s %s %s (%s)" % (r[1], nm, r[3], ", ".join(op(o) for o in r[4]))
                else:
                    v = k
                out.append((x[3] if len(x) > 3 else 0, place(x[1]) + " = " + v))
            k = t[0]
            if k == "switch":
                x = "switch %s %s" % (op(t[1]), [(v, node(b)) for v, b in t[2]] + [node(t[3])])
            elif k == "goto":
                x = "goto " + node(t[1])
            elif k == "drop":
                x = "drop %s %s" % (place(t[1]), node(t[3]))
            elif k == "assert":
                x = "assert %s %s" % (op(t[1]), node(t[3]))
            elif k == "call":
                c = t[1]
                nm = c["path"] + self.cargs(c, memo) if c.get("path") else "*" + op(c["ptr"]) if "ptr" in c else "?"
                x = "%s = call %s(%s) %s" % (place(t[3]), nm, ", ".join(op(o) for o in t[2]), node(t[4]) if t[4] is not None else "!")
            elif k == "yield":
                x = "yield %s" % [node(b) if b is not None else "-" for b in t[1:]]
            else:
                x = k
            out.append((self.line(i), x))
        return out

    def line(self, i):
        t = self.b.blocks[i]["t"]
        return t[-1] if isinstance(t[-1], int) else 0

    def fname(self, ty, memo):
        if ty["k"] == "fndef":
            return "fn " + ty["s"]
        return "{%s %s}" % (ty["k"], memo.closure(self.p, ty))

    def cargs(self, c, memo):
        return "<%s>" % ", ".join(tname(self.p, a) for a in c.get("args", ()))


def strip(v, p):
    if isinstance(v, dict):
        return "{%s}" % ",".join("%s:%s" % (k, strip(x, p)) for k, x in sorted(v.items()) if k not in ("inst", "alloc", "def", "t"))
    if isinstance(v, list):
        return "[%s]" % ",".join(strip(x, p) for x in v)
    return str(v)


def tname(p, t):
    if not isinstance(t, int):
        return str(t)
    return p.types[t]["s"]


_pure = {}


def pure_body(p, inst, stack=()):
    """no store through a pointer, no call that could have an effect"""
    if inst is None or inst in stack or p.body(inst) is None:
        return False
    key = (id(p), inst)
    if key not in _pure:
        b = p.body(inst)
        if p.insts[inst]["kind"] == "coroutine":
            _pure[key] = False
            return False
        ok = True
        n = object.__new__(Norm)
        n.p, n.inst, n.locals, n.release = p, inst, b.locals, False
        for bl in b.blocks:
            if bl["cl"]:
                continue
            for x in bl["s"]:
                if x[0] == "=" and any(e[0] == "*" for e in x[1][1:]):
                    ok = False
            t = bl["t"]
            if t[0] == "call":
                pt = t[1].get("path") or ""
                if pt.startswith(PANICS) or pt.startswith(LOGGING):
                    continue
                if pt.startswith("cfg_noodle::") and not pt.startswith("cfg_noodle::Ndl"):
                    ok = ok and pure_body(p, t[1].get("inst"), stack + (inst,))
                else:
                    ok = ok and n.pure(("call", t[1], t[2], t[4], t[6]))
            elif t[0] in ("yield", "drop"):
                ok = False
        _pure[key] = ok
    return _pure[key]


class Memo:
    """closure types compared by what they do"""

    def __init__(self, release):
        self.release = release
        self.h = {}
        self.norm = {}

    def closure(self, p, ty):
        i = ty.get("inst")
        if i is None:
            i = by_type(p).get(ty["s"])
        if i is None or p.body(i) is None:
            return "?"
        key = (id(p), i)
        if key not in self.h:
            self.h[key] = "rec"
            self.h[key] = self.digest(p, i)
        return self.h[key]

    def lines(self, p, i):
        key = (id(p), i)
        if key not in self.norm:
            self.norm[key] = Norm(p, i, self.release).canon(self)
        return self.norm[key]

    def digest(self, p, i):
        return hashlib.sha1("\n".join(x for _, x in self.lines(p, i)).encode()).hexdigest()[:10]


def by_type(p):
    return {}


_types = {}


def by_type(p):
    if id(p) not in _types:
        m = {}
        for t in p.types:
            if t["k"] in ("closure", "coroutine") and t.get("inst") is not None:
                m[t["s"]] = t["inst"]
        _types[id(p)] = m
    return _types[id(p)]


def roots(p):
    return {r["path"]: r for r in p.roots if p.body(r["inst"]) is not None}


DIAGNOSTIC = ("core::fmt::", "defmt::", "log::")


def compare(p, q, name, release, r):
    """every function of p against its namesake in q; r.ob(rule, construct, function, ok, msg, file, line)"""
    mp, mq = Memo(release), Memo(release)
    rp, rq = roots(p), roots(q)
    for path in sorted(rp):
        if any(" as %s" % d in path for d in DIAGNOSTIC):
            continue
        x = rp[path]
        fn = path.replace("cfg_noodle::", "")
        y = rq.get(path)
        if y is None:
            r.ob("R1", "function exists in configuration %s" % name, fn, False,
                 "%s exists in the core configuration, but not in configuration %s" % (fn, name), x["file"], x["line"])
            continue
        diff = first_diff(p, x["inst"], q, y["inst"], mp, mq)
        r.ob("R2", "same operations in configuration %s" % name, fn, diff is None,
             diff and "%s does something else in configuration %s: %s" % (fn, name, diff[1]), x["file"], diff and diff[0] or x["line"])


def first_diff(p, i, q, j, mp, mq, depth=0):
    a, b = mp.lines(p, i), mq.lines(q, j)
    for (la, ta), (lb, tb) in zip(a, b):
        if ta != tb:
            if depth < 6 and "{co" in ta + tb or "{closure" in ta:
                d = inner(p, ta, q, tb, mp, mq, depth)
                if d:
                    return d
            return (la or lb, "`%s` against `%s`" % (ta[:300], tb[:300]))
    if len(a) != len(b):
        x, w = (a, "core") if len(a) > len(b) else (b, "other")
        return (x[min(len(a), len(b))][0], "only in the %s one: `%s`" % (w, x[min(len(a), len(b))][1][:300]))
    return None


def inner(p, ta, q, tb, mp, mq, depth):
    """the two statements build a closure or future: look for the difference inside"""
    import re
    ha, hb = re.findall(r"\{(?:closure|coroutine) (\w+)\}", ta), re.findall(r"\{(?:closure|coroutine) (\w+)\}", tb)
    for x, y in zip(ha, hb):
        if x != y:
            ia = [k[1] for k, v in mp.h.items() if v == x and k[0] == id(p)]
            ib = [k[1] for k, v in mq.h.items() if v == y and k[0] == id(q)]
            if ia and ib:
                return first_diff(p, ia[0], q, ib[0], mp, mq, depth + 1)
    return None
