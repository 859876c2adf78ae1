"""automata for nodes, handles and the list: C06, C14 - C19"""
from engine import AnalysisError, TOP, I, is_anon, clean
from base import Base

ACQ = (2, 3, 4)
REL = (1, 3, 4)


class NodeBase(Base):
    """bookkeeping for one node that the function was given (own) and for nodes met in the list"""

    def __init__(self, p, anchors, op=None):
        Base.__init__(self, p, anchors, op)
        A, T = anchors, p.types
        fs = T[A.node_pub[0]]["variants"][0][2]
        tk = [n for n, f in enumerate(fs) if "AtomicPtr" in T[f[1]]["s"] or T[f[1]]["s"].startswith("core::sync::atomic::Atomic<*mut")]
        self.taken_field = tk[0] if tk else next(n for n, f in enumerate(fs) if n != A.pub_inner)
        self.kind_of_entry()

    def kind_of_entry(self):
        """what the entry's arguments are: the node, the list, the handle"""
        r = self.p.find_root(self.op) if self.op else None
        self.own = self.lst = None
        self.ishandle = False
        self.entry_path = r["path"] if r else ""
        if r is None:
            return
        b = self.p.body(r["inst"])
        for i in range(1, b.argc + 1):
            t = self.p.types[b.locals[i][0]]
            if t["k"] not in ("ref", "ptr"):
                continue
            to = t.get("to", t.get("elem"))
            if to in self.A.node_pub:
                self.own = ("arg", i)
            elif to in self.A.list:
                self.lst = ("arg", i)
            elif to in self.A.handle:
                fs = self.p.types[to]["variants"][0][2]
                n = next(n for n, f in enumerate(fs) if self.p.types[f[1]]["k"] == "ref" and self.p.types[f[1]].get("to") in self.A.node_pub)
                self.own = ("f", ("*", ("arg", i)), (0, n))
                self.ishandle = True

    # ---- locations
    def is_taken(self, loc):
        return loc is not None and loc[0][0] == "h" and loc[1] == ((0, self.taken_field),)

    def is_state(self, loc, ty):
        return loc is not None and loc[0][0] == "h" and self.p.types[ty]["k"] == "uint" and self.p.types[ty].get("bits") == 8

    def is_own(self, loc):
        return self.own is not None and loc[0] == ("h", self.own)

    def obj(self, loc):
        """the node a location belongs to"""
        return loc[0][1] if loc is not None and loc[0][0] == "h" else None

    def is_payload(self, loc):
        A = self.A
        if loc is None or loc[0][0] != "h":
            return False
        own = ((0, A.pub_inner), (0, A.node_payload))
        return loc[1] == own or loc[1] == ((0, A.node_payload),) and loc[0] != ("h", self.own) or \
            loc[1][:2] == own

    @property
    def holds(self_):       # values promised
        return {self_.A.codes["ValidNoWriteNeeded"], self_.A.codes["NeedsWrite"]}

    def ok_exit(self, v):
        return v is not None and v[0] == "a" and v[1] == 0

    def err_exit(self, v):
        return v is not None and v[0] == "a" and v[1] == 1

    def err_name(self, v):
        if self.err_exit(v) and v[2] and v[2][0][0] == "a":
            return next((n for n, i in self.A.error_variants.items() if i == v[2][0][1]), None)
        return None

    def list_ptr(self):
        return ("s", self.lst) if self.lst else None

    def taken_ptr(self):
        return ("s", ("app", "ptradd", ("s", self.lst), I(1, 64))) if self.lst else None


class C06(NodeBase):
    """guarded-by: everything the list lock protects is touched under that lock only"""
    DEFAULTS = {"nodes": (), "tk": ()}

    def event(self, st, name, *a):
        A = self.A
        lk = st.th["lock"]
        if name == "lock":
            self.s(st, nodes=(), lk=("s", a[1][1][1]) if a[1][0] == "r" else None)
        elif name == "unlock":
            self.s(st, nodes=(), lk=None)
        elif name in ("list_iter", "list_push", "list_remove", "list_next", "list_end"):
            loc = a[0] if name == "list_iter" else None
            if name in ("list_push", "list_remove"):
                loc = (a[0][1], a[0][2]) if a[0][0] == "r" else None
            if name == "list_next":
                loc = (a[1][1], a[1][2]) if a[1][0] == "r" else None
            if name == "list_end":
                loc = (a[0][1], a[0][2]) if a[0][0] == "r" else None
            self.check(st, lk is not None and loc is not None and loc[0] == ("h", lk), "C06", "list of nodes used",
                       "the list of nodes is used without holding the list's lock")
            if name == "list_next" and not is_anon(("s", a[0])):
                self.s(st, nodes=(("s", a[0]),))
            if name in ("list_push", "list_remove") and a[1][0] == "r":
                self.guard(st, (a[1][1], a[1][2]), "node linked or unlinked")
        elif name == "aload":
            if self.is_taken(a[0]) and self.is_own(a[0]):
                v = self.e.norm(st, a[1])
                if v[0] == "s" and not is_anon(v):
                    self.s(st, tk=tuple(sorted(set(self.g(st, "tk")[-2:]) | {v}, key=str)))
            elif self.is_state(a[0], a[3]) and self.foreign(a[0]):
                self.guard(st, a[0], "node of the list inspected")
        elif name in ("astore", "acas"):
            ty = a[3] if name == "astore" else a[4]
            if self.is_state(a[0], ty):
                self.guard(st, a[0], "node state changed")
        elif name == "payload_write" or name == "payload_drop":
            self.guard(st, a[0], "node value changed")
        elif name == "swap":
            for loc in a[:2]:
                if self.is_payload(loc):
                    self.guard(st, loc, "node value changed")
        elif name in ("assume_init", "value_use") and a[0] in ("mut", "drop", "read"):
            if name == "assume_init" or self.is_payload(a[1]):
                self.guard(st, a[1], "node value changed")
        elif name == "vtable":
            loc = self.e.deref(a[2][0])
            self.guard(st, loc, "node value serialized or filled")

    def store(self, st, loc, v, ty):
        if self.is_payload(loc):
            self.guard(st, loc, "node value changed")

    def foreign(self, loc):
        o = self.obj(loc)
        return o is not None and o != self.own

    def guard(self, st, loc, construct):
        """loc belongs to the own node (under the lock of its list) or to a node met in this hold of the lock"""
        if loc is None:
            self.check(st, False, "C06", construct, "the node this touches is not known")
            return
        if loc[0][0] != "h":
            return      # a private object
        o = loc[0][1]
        lk = st.th["lock"]
        if lk is None:
            self.check(st, False, "C06", construct, "this is done without holding the list's lock")
            return
        if o == self.own:
            m = self.g(st, "lk")
            good = m is not None and (self.lst is not None and m == ("s", self.lst) or
                                      m[1][0] == "app" and m[1][1] == "ptradd" and m[1][3] == I(-1, 64) and
                                      m[1][2] in self.g(st, "tk"))
            self.check(st, good, "C06", construct, "the lock held is not known to be that of the node's own list")
        else:
            self.check(st, ("s", o) in self.g(st, "nodes"), "C06", construct,
                       "the node was not met in a traversal within this hold of the lock")


class C14(NodeBase):
    """initialization typestate of the value inside a node"""
    DEFAULTS = {"init": "no", "gone": 0}
    # gone: nothing else can reach the node any more (it is unlinked and there is no handle)
    # who: the node whose state was observed last; sv: the value loaded; poss: what it can be; ord: ordering of the load
    # init: no | new (stored in this hold, not yet promised) | dropped

    def forget(self, st):
        self.s(st, who=None, sv=None, poss=None, ord=None, init="no")

    def event(self, st, name, *a):
        A = self.A
        C = A.codes
        if name in ("lock", "suspend", "unlock"):
            if name == "unlock":
                self.check(st, self.g(st, "init") == "no" or st.cancel or self.unwinding(st), "C14", "lock released",
                           "the lock is released after a value was stored or dropped but before the node's state says so")
                self.check(st, self.g(st, "init") != "dropped" or self.g(st, "gone") or not self.poss(st) & self.holds, "C14", "lock released",
                           "the lock is released by a panic or a dropped future while the node's state promises a value that was dropped")
            w = self.g(st, "who")
            if w is not None and w == ("s", self.own):
                # only the worker can have changed it in the meantime
                p = self.g(st, "poss")
                if p is not None and name != "unlock" and st.th["lock"] in (None, a[0] if a else None):
                    q = set(p)
                    if C["Initial"] in q:
                        q |= {C["NonResident"], C["ValidNoWriteNeeded"]}
                    if C["NeedsWrite"] in q:
                        q |= {C["ValidNoWriteNeeded"]}
                    self.s(st, poss=tuple(sorted(q)), sv=None)
                elif name == "unlock":
                    self.s(st, sv=None)
            elif name != "suspend" or st.th["lock"] is None:
                self.forget(st)
        elif name == "list_next":
            self.left(st)
            self.forget(st)
        elif name == "list_remove":
            self.s(st, gone=1)
        elif name == "aload" and self.is_state(a[0], a[3]):
            o = ("s", self.obj(a[0]))
            v = self.e.norm(st, a[1])
            if self.g(st, "who") != o:
                self.left(st)
                self.forget(st)
            if st.th["lock"] is None or self.g(st, "poss") is None:
                self.s(st, poss=None)
            self.s(st, who=o, sv=v, ord=99 if st.th["lock"] is not None else self.order(a[2]))
            self.learn(st)
        elif name == "wfv_done":
            v = a[1]
            if v[0] == "a" and self.own is not None and A.state and len(A.state_variants) > v[1]:
                self.s(st, who=("s", self.own), sv=None, poss=(C[A.state_variants[v[1]]],))
        elif name == "assume_init" or name == "value_use" and self.is_payload(a[1]):
            kind, loc = a
            self.touch(st, loc, "value %s" % {"ref": "read", "mut": "borrowed", "drop": "dropped", "read": "moved out"}.get(kind, kind))
            if kind in ("drop", "read") and loc is not None and loc[0][0] == "h":
                self.s(st, init="dropped")
        elif name == "moved_out":
            # replaced as a whole, its old contents went elsewhere
            if self.is_payload(a[0]) and self.about(st, a[0]) and self.poss(st) <= self.holds and self.g(st, "init") == "no":
                self.s(st, init="dropped")
        elif name == "payload_write":
            self.fill(st, a[0])
        elif name == "vtable":
            role, _, vals = a[:3]
            loc = self.e.deref(vals[0])
            if role == "serialize":
                self.touch(st, loc, "value serialized")
            elif role == "deserialize":
                self.check(st, self.about(st, loc) and self.poss(st) <= {C["Initial"], C["NonResident"]} and self.g(st, "init") == "no",
                           "C14", "value filled from the storage", "a node is filled although it may already hold a value")
        elif name == "vtable_ok":
            role, _, vals = a[:3]
            if role == "deserialize":
                loc = self.e.deref(vals[0])
                self.s(st, who=("s", self.obj(loc)) if loc else None, init="new")
        elif name == "astore" and self.is_state(a[0], a[3]):
            self.stored(st, a[0], a[1], self.order(a[2]))
        elif name == "acas" and self.is_state(a[0], a[4]):
            self.check(st, False, "C14", "node state changed", "the state is changed by a compare-exchange whose effect is not known")
        elif name == "exit":
            self.left(st) if a[0] == "return" else None
            if a[0] == "return" and self.returns_handle(a[1]):
                p = self.poss(st)
                self.check(st, self.g(st, "who") == ("s", self.own) and p <= self.holds, "C14", "handle handed out",
                           "a handle is handed out although the node is not known to hold a value")

    def order(self, v):
        return v[1] if v[0] == "a" else 0

    def unwinding(self, st):
        return self.e.unwinding(st)

    def returns_handle(self, v):
        if v is None or v[0] != "a" or v[1] != 0 or len(v[2]) != 1 or self.own is None or self.ishandle:
            return False
        h = v[2][0]
        return h[0] == "a" and any(x == ("s", self.own) or x == ("r", ("h", self.own), ()) for x in h[2])

    def poss(self, st):
        p = self.g(st, "poss")
        return set(self.A.codes.values()) if p is None else set(p)

    def about(self, st, loc):
        return loc is not None and self.g(st, "who") == ("s", self.obj(loc))

    def learn(self, st):
        sv = self.g(st, "sv")
        if sv is not None:
            p = self.possible(st, sv)
            old = self.g(st, "poss")
            if old is not None:
                p = p & set(old)
            p = tuple(sorted(p))
            if p != old:
                self.s(st, poss=p)

    def fact(self, st, t, val):
        if t[0] != "cmp" and self.g(st, "sv") is not None:
            self.learn(st)

    def touch(self, st, loc, construct):
        if loc is None or loc[0][0] != "h":
            self.check(st, loc is not None, "C14", construct, "the node this touches is not known")
            return
        if self.raw_entry(loc):
            return
        good = self.about(st, loc) and (self.poss(st) <= self.holds and self.g(st, "init") != "dropped" or self.g(st, "init") == "new")
        self.check(st, good, "C14", construct, "a value is used although the node is not known to hold one")
        if st.th["lock"] is None and good:
            self.check(st, self.g(st, "ord") in ACQ, "C14", construct + " without the lock",
                       "a value is used without the lock after a load of the state without acquire ordering")

    def fill(self, st, loc):
        if loc is None or loc[0][0] != "h":
            self.check(st, loc is not None, "C14", "value stored", "the node this touches is not known")
            return
        if self.raw_entry(loc):
            return
        C = self.A.codes
        good = self.about(st, loc) and (self.poss(st) <= {C["Initial"], C["NonResident"]} or self.g(st, "init") == "dropped")
        self.check(st, good, "C14", "value stored", "a first value is stored although the node may already hold one")
        # one dropped and replaced under a state that has been promising a value all along needs no other promise
        back = self.g(st, "init") == "dropped" and self.about(st, loc) and self.poss(st) <= self.holds
        self.s(st, init="no" if back else "new")

    def raw_entry(self, loc):
        """the type-erased accessors: their callers establish the state"""
        return self.own is None and loc[0][1] == ("arg", 1) or self.own is None and self.lst is None

    def store(self, st, loc, v, ty):
        if self.is_payload(loc) and not self.raw_entry(loc):
            if self.about(st, loc) and self.g(st, "init") == "new":
                return
            if ty is None or "MaybeUninit" in self.p.types[ty]["s"]:
                return self.fill(st, loc)
            self.check(st, self.about(st, loc) and self.poss(st) <= self.holds and self.g(st, "init") != "dropped", "C14", "value replaced",
                       "a value is replaced although the node is not known to hold one")

    def stored(self, st, loc, v, order):
        C = self.A.codes
        v = self.e.norm(st, v)
        new = self.possible(st, v)
        if self.raw_entry(loc) and self.own is None and self.lst is None:
            return
        about = self.about(st, loc)
        init = self.g(st, "init") if about else "no"
        if new <= self.holds:
            self.check(st, about and (init == "new" or init == "no" and self.poss(st) <= self.holds), "C14", "state promises a value",
                       "the state promises a value although none is known to be stored")
            if init == "new":
                self.check(st, order in REL, "C14", "first value published",
                           "a first value is published by a store without release ordering")
        elif new & self.holds:
            self.check(st, False, "C14", "state promises a value", "the state stored is not known")
        else:
            self.check(st, about and (init == "dropped" or init == "no" and not self.poss(st) & self.holds), "C14", "state forgets a value",
                       "the state says that there is no value although the node may hold one")
        self.s(st, who=("s", self.obj(loc)), sv=v if v[0] == "s" else None, poss=tuple(sorted(new)), init="no", ord=99)

    def left(self, st):
        if self.g(st, "init") != "no" and not st.cancel:
            self.check(st, False, "C14", "value stored but not promised", "a value was stored or dropped but the node's state does not say so")


class Attach(NodeBase):
    """who owns the node's taken mark: C15, C16, C17, C18 share this"""
    DEFAULTS = {"own": "no", "linked": 0, "search": "no", "fx": 0, "ok": None, "woke": 0, "removed": 0}

    # own: no | fresh (was free, taken here) | again (was linked in this list, taken here) | detaching
    def init(self):
        d = {}
        if self.is_drop():
            d["own"] = "again"
        return tuple(sorted(d.items()))

    def is_drop(self):
        return self.ishandle and self.entry_path.endswith("::drop")

    def event(self, st, name, *a):
        if name in ("aload", "cas_seen") and self.is_taken(a[0]) and self.is_own(a[0]):
            self.s(st, tl=self.e.norm(st, a[1]), tc=None)
            self.classify(st)
        elif name == "acas" and self.is_taken(a[0]) and self.is_own(a[0]):
            self.cas(st, *a[1:4])
        elif name == "astore" and self.is_taken(a[0]) and self.is_own(a[0]):
            self.put(st, a[1])
        self.on(st, name, *a)

    def on(self, st, name, *a):
        pass

    def fact(self, st, t, val):
        if self.g(st, "tl") is not None and self.g(st, "tc") is None:
            self.classify(st)

    def classify(self, st):
        tl = self.e.norm(st, self.g(st, "tl"))
        k = self.what(st, tl)
        if k is not None:
            self.s(st, tc=k)

    def what(self, st, v):
        v = self.e.norm(st, v)
        if v[0] == "i" and v[1] == 0:
            return "null"
        if v[0] == "s" and not is_anon(v):
            f = st.facts.get(("v", v[1]))
            if f is not None and f[0] == "i" and f[1] == 0:
                return "null"
        if self.lst is not None:
            if self.same(st, v, self.list_ptr()):
                return "list"
            if self.same(st, v, self.taken_ptr()):
                return "taken"
        return None

    def before(self, st, old):
        """what the taken mark was when the exchange succeeded"""
        k = self.what(st, old)
        if k is None and self.g(st, "tl") is not None and self.e.norm(st, old) == self.e.norm(st, self.g(st, "tl")):
            k = self.g(st, "tc")
        return k

    def effect(self, new, old):
        """kind of change of the taken mark"""
        if self.lst is not None and new == self.taken_ptr():
            return "take"
        if new[0] == "s" and new[1][0] == "app" and new[1][1] == "ptradd" and new[1][2] == old and new[1][3] == I(-1, 64):
            return "release"
        if self.lst is not None and new == self.list_ptr():
            return "release"
        if new[0] == "i" and new[1] == 0:
            return "free"
        if new[0] == "i":
            return "claim"
        return "?"

    def cas(self, st, old, new, ok):
        if not ok:
            # a failed compare-exchange with the list's own pointer: the value seen differs from it
            return
        old, new = self.e.norm(st, old), self.e.norm(st, new)
        self.taken_change(st, self.effect(new, old), self.before(st, old))
        self.s(st, tl=None)

    def put(self, st, v):
        # while this operation or handle owns the mark, nobody else changes it: what was last read is still there
        v, old = self.e.norm(st, v), self.g(st, "tl")
        self.taken_change(st, self.effect(v, self.e.norm(st, old) if old is not None else None), None)
        self.s(st, tl=None)

    def taken_change(self, st, eff, was):
        o = self.g(st, "own")
        if eff == "take":
            self.s(st, own={"null": "fresh", "list": "again"}.get(was, "bad"), fx=1)
        elif eff == "claim":
            self.s(st, own="detaching" if was == "list" else "bad", fx=1)
        elif eff == "release":
            self.s(st, own="no" if o == "again" or o == "fresh" and self.g(st, "linked") else "bad")
        elif eff == "free":
            if o == "no" and was == "list":
                self.s(st, own="freed", fx=1)
            else:
                self.s(st, own="no" if o == "fresh" and not self.g(st, "linked") or o == "detaching" and self.g(st, "removed") else "bad")
        else:
            self.s(st, own="bad")

    def attaching(self):
        return self.own is not None and self.lst is not None and not self.ishandle


class C15(Attach):
    """at most one handle; the mark is given back on every way out that hands out no handle"""

    def taken_change(self, st, eff, was):
        A = self.A
        o = self.g(st, "own")
        lk = st.th["lock"]
        if eff in ("take", "claim"):
            self.check(st, o == "no" and was in (("null", "list") if eff == "take" else ("list",)), "C15", "node taken",
                       "the node is taken although it is not known to be free or to be linked in this list without a handle")
            self.check(st, lk is not None, "C15", "node taken under the lock", "the node is taken without holding the list's lock")
        elif eff == "release":
            self.check(st, o == "again" or o == "fresh" and self.g(st, "linked") == 1, "C15", "node released",
                       "the node's mark is released by code that does not own it, or although the node is not linked")
        elif eff == "free":
            self.check(st, o == "fresh" and not self.g(st, "linked") or o == "detaching" and self.g(st, "removed") == 1, "C15", "node freed",
                       "the node is marked free although it may be linked, or by code that does not own it")
        else:
            self.check(st, False, "C15", "mark changed", "the node's mark is changed to a value that is not known")
        Attach.taken_change(self, st, eff, was)

    def on(self, st, name, *a):
        if name == "list_push" and self.own is not None:
            self.s(st, linked=1)
        elif name == "list_remove":
            self.s(st, removed=1)
        elif name in ("acas", "astore") and self.is_taken(a[0]) and not self.is_own(a[0]):
            self.check(st, False, "C15", "mark of another node changed", "the mark of a node is changed by code that was not given the node")
        elif name == "exit":
            o = self.g(st, "own")
            handle = a[0] == "return" and self.handle_in(a[1])
            if handle:
                self.check(st, o == "again" or o == "fresh" and self.g(st, "linked") == 1, "C15", "handle handed out",
                           "a handle is handed out without owning the node's mark")
            elif self.own is not None:
                if a[0] == "unwind" and (o == "detaching" or self.is_drop()):
                    return      # only by a failing assertion about the mark itself
                self.check(st, o == "no", "C15", "left without a handle (%s)" % a[0],
                           "the function is left without handing out a handle, but the node stays taken")

    def handle_in(self, v):
        if self.ishandle or v is None:
            return False
        if v[0] == "a":
            if any(x == ("s", self.own) or x == ("r", ("h", self.own), ()) for x in v[2]):
                return True
            return v[1] == 0 and any(self.handle_in(x) for x in v[2])
        return False


class C37(Attach):
    """the mark is taken with acquire and given back with release ordering"""
    USES = ("lock", "unlock", "suspend", "list_iter", "list_push", "list_remove", "exit", "payload_write", "assume_init", "value_use", "payload_drop")

    def order(self, v):
        if v[0] != "a":
            raise AnalysisError("the ordering of a change of a node's mark is not known")
        return v[1]

    def event(self, st, name, *a):
        mine = name in ("acas", "astore", "aload", "cas_seen") and self.is_taken(a[0]) and self.is_own(a[0])
        if name == "fence":
            o = self.order(a[0])
            if o in ACQ:
                self.s(st, late=None)
            if o in REL:
                self.s(st, rel=1)
        elif name in self.USES or mine and name in ("acas", "astore"):
            # a fence right after the exchange would do
            if self.g(st, "late") == 1:
                self.s(st, late=None)
                self.check(st, False, "C37", "node taken", "the node is used after an exchange of its mark without acquire ordering")
        if mine and name == "acas":
            self.s(st, o=self.order(a[5]))
        elif mine and name == "astore":
            self.s(st, o=self.order(a[2]))
        Attach.event(self, st, name, *a)
        if mine:
            self.s(st, o=None)
        if name in self.USES or name == "list_next" or name == "astore" and not mine:
            self.s(st, rel=None)

    def taken_change(self, st, eff, was):
        o = self.g(st, "o")
        if eff in ("take", "claim"):
            if o in ACQ:
                self.check(st, True, "C37", "node taken", "")
            else:
                self.s(st, late=1)
        elif eff in ("release", "free"):
            self.check(st, o in REL or self.g(st, "rel") == 1, "C37", "node released" if eff == "release" else "node freed",
                       "the node is given back by a change of its mark without release ordering: what was done to it before may become visible later")
        Attach.taken_change(self, st, eff, was)


class C16(Attach):
    """duplicate keys are rejected under the lock, without side effects"""

    # search: no | open | full (whole list looked at, no equal key) | hit
    def on(self, st, name, *a):
        if self.own is None or self.lst is None:
            return
        if name in ("lock", "unlock"):
            self.s(st, search="no", nd=None)
        elif name == "list_iter":
            self.s(st, search="open" if self.front(st, a[0]) else "no", nd=None, cmp=None)
        elif name == "list_next":
            self.step(st)
            self.s(st, nd=("s", a[0]), cmp=None)
        elif name == "list_end":
            self.step(st)
            self.s(st, nd=None, cmp=None)
            if self.g(st, "search") == "open":
                self.s(st, search="full")
        elif name == "list_push":
            loc = (a[1][1], a[1][2]) if a[1][0] == "r" else None
            self.check(st, loc is not None and loc[0] == ("h", self.own), "C16", "node linked", "a node other than the one to attach is linked")
            self.check(st, self.g(st, "search") == "full", "C16", "node linked after the search",
                       "the node is linked although the list was not completely searched for its key within this hold of the lock")
            self.check(st, self.g(st, "own") == "fresh" and not self.g(st, "linked"), "C16", "node linked once",
                       "the node is linked although it may be linked already")
            self.s(st, linked=1)
        elif name == "exit":
            if a[0] == "return" and self.err_exit(a[1]):
                n = self.err_name(a[1])
                self.check(st, not self.g(st, "linked") and self.g(st, "own") in ("no", "freed"), "C16", "attach refused",
                           "a refused attach leaves the node linked or taken")
                if n == "DuplicateKey":
                    self.check(st, self.g(st, "found") == 1, "C16", "duplicate key reported", "a duplicate key is reported although none was found")
            elif a[0] == "return" and a[1][0] == "a" and a[1][1] == 0 and "attach" in self.entry_path:
                self.check(st, self.g(st, "linked") == 1 or self.g(st, "own") == "again", "C16", "attach successful",
                           "the attach is successful although the node is not in the list")

    def front(self, st, loc):
        return loc is not None and loc[0] == ("h", st.th["lock"])

    def fact(self, st, t, val):
        Attach.fact(self, st, t, val)
        nd = self.g(st, "nd")
        if nd is None or t[0] != "cmp" or t[1] != "eq":
            return
        k = self.key_of(("*", nd[1]), False)
        o = self.key_of(("*", self.own), True)
        pair = {t[2], t[3]}
        if pair in ({("s", ("app", "bytes", ("s", k))), ("s", ("app", "bytes", ("s", o)))}, {("s", k), ("s", o)}):
            self.s(st, cmp=val)
            if val == 1:
                self.s(st, search="hit", found=1)

    def key_of(self, root, pub):
        if pub:
            root = ("f", ("f", root, (0, self.A.pub_inner)), (0, self.A.node_hdr))
        return ("f", root, (0, self.A.hdr_key))

    def step(self, st):
        """the search goes on: the node looked at must be known to have another key"""
        if self.g(st, "nd") is not None and self.g(st, "search") == "open" and self.g(st, "cmp") != 0:
            self.s(st, search="no")


class C17(Attach):
    """detach: only an attached node without a handle, completely, within one hold of the lock"""

    def active(self):
        return self.own is not None and self.lst is not None and not self.ishandle and "detach" in self.entry_path

    def on(self, st, name, *a):
        if not self.active():
            if name == "list_remove":
                self.check(st, False, "C17", "node unlinked", "a node is unlinked outside of detach")
            return
        C = self.A.codes
        o = self.g(st, "own")
        if name == "list_remove":
            loc = (a[1][1], a[1][2]) if a[1][0] == "r" else None
            self.check(st, o == "detaching" and st.th["lock"] is not None and loc is not None and loc[0] == ("h", self.own), "C17", "node unlinked",
                       "the node is unlinked although it is not known to be linked in this list and without a handle")
            self.s(st, removed=1)
        elif name == "suspend":
            self.check(st, o == "no" or self.g(st, "done") == 1, "C17", "suspended while detaching", "the detach can be abandoned half-way")
        elif name == "aload" and self.is_state(a[0], a[3]):
            self.s(st, sv=self.e.norm(st, a[1]), poss=None)
            self.learn(st)
        elif name in ("assume_init", "value_use") and a[0] == "drop" or name == "payload_drop" and self.g(st, "dropped") is None:
            self.check(st, self.g(st, "removed") == 1 and self.g(st, "dropped") is None, "C17", "value dropped",
                       "the value is dropped before the node is unlinked, or twice")
            self.s(st, dropped=1)
        elif name == "astore" and self.is_state(a[0], a[3]):
            v = self.e.norm(st, a[1])
            p = self.g(st, "poss")
            holds = p is None or set(p) & self.holds
            self.check(st, v == I(C["Initial"], 8) and self.g(st, "removed") == 1, "C17", "state reset",
                       "the state is not set back to waiting for a read, or before the node is unlinked")
            self.check(st, self.g(st, "dropped") == 1 or not holds, "C17", "state reset after the value was dropped",
                       "the state is reset although the node may still hold a value")
            self.s(st, reset=1)
        elif name == "unlock":
            if st.cancel or self.e.unwinding(st):
                return
            self.check(st, o == "no" and (self.g(st, "fx") == 0 or self.g(st, "done") == 1), "C17", "lock released",
                       "the lock is released while the detach is half done")
        elif name == "exit" and a[0] == "return":
            if self.err_exit(a[1]):
                n = self.err_name(a[1])
                self.check(st, self.g(st, "fx") == 0 and not self.g(st, "removed"), "C17", "detach refused", "a refused detach changed the node")
                k = self.g(st, "tc")
                self.check(st, n in ("AlreadyTaken", "NodeInOtherList"), "C17", "reason of the refusal", "the refusal carries an unexpected error")
                self.check(st, (k == "taken") if n == "AlreadyTaken" else k not in ("null", "taken", "list"), "C17", "matching error",
                           "the error does not match the node's mark")
            elif self.ok_exit(a[1]):
                self.check(st, self.g(st, "done") == 1 or self.g(st, "fx") == 0 and self.g(st, "tc") == "null", "C17", "detach successful",
                           "detach reports success although the node was neither detached completely nor free before")

    def cas(self, st, old, new, ok):
        if not ok:
            return
        Attach.cas(self, st, old, new, ok)

    def taken_change(self, st, eff, was):
        if self.active():
            if eff == "claim":
                self.check(st, was == "list" and st.th["lock"] is not None, "C17", "node claimed",
                           "the node is claimed although it is not known to be linked in this list without a handle")
            elif eff == "free":
                o = self.g(st, "own")
                if o == "detaching":
                    self.check(st, self.g(st, "removed") == 1 and self.g(st, "reset") == 1 and st.th["lock"] is not None, "C17", "node made attachable",
                               "the node is made attachable before it is unlinked and reset")
                    self.s(st, done=1)
                else:
                    self.check(st, False, "C17", "node made attachable", "the node is made attachable without being claimed first")
            else:
                self.check(st, False, "C17", "mark changed", "the mark is changed to something else")
        Attach.taken_change(self, st, eff, was)

    def learn(self, st):
        sv = self.g(st, "sv")
        if sv is not None:
            p = tuple(sorted(self.possible(st, sv)))
            old = self.g(st, "poss")
            if old is not None:
                p = tuple(sorted(set(p) & set(old)))
            if p != old:
                self.s(st, poss=p)

    def fact(self, st, t, val):
        Attach.fact(self, st, t, val)
        if self.g(st, "sv") is not None:
            self.learn(st)


class C18(NodeBase):
    """signals: read wanted after linking, write wanted after a change, readers woken after a finished read"""
    DEFAULTS = {"due": 0, "rd": 0, "chg": 0, "woke": 0}

    def event(self, st, name, *a):
        Q = self.A.queues()
        role = Q.get(a[0]) if name in ("wake", "wait", "wait_for", "wfv_done", "woken") else None
        if name == "list_push":
            self.s(st, rd=1)
        elif name == "acas" and self.is_taken(a[0]) and a[3] and self.attach():
            if self.e.norm(st, a[2]) == ("s", ("app", "ptradd", ("s", self.lst), I(1, 64))):
                self.s(st, rd=1)
        elif name == "astore" and self.is_state(a[0], a[3]):
            v = self.e.norm(st, a[1])
            if self.ishandle:
                self.s(st, due=1 if self.possible(st, v) & {self.A.codes["NeedsWrite"]} else 0)
                if v == I(self.A.codes["NeedsWrite"], 8):
                    self.s(st, marked=1)
            self.s(st, chg=1)
        elif name in ("swap", "payload_write") and self.ishandle:
            self.s(st, swapped=1)
        elif name == "wake":
            if role == "read":
                self.s(st, rd=0)
            elif role == "write":
                self.s(st, due=0)
            elif role == "done":
                self.s(st, woke=1 if a[1] else 0, chg=0)
        elif name in ("wait", "wait_for"):
            if self.attach():
                self.check(st, self.g(st, "rd") == 0, "C18", "attach waits", "the attach waits for its read although the read was not requested since the node was linked")
                self.check(st, role == "done" and name == "wait_for", "C18", "attach re-checks after registering",
                           "the attach waits without looking at its node again after it registered for the wake-up")
        elif name == "exit":
            k, v = a
            if self.ishandle and k == "return":
                if self.ok_exit(v):
                    self.check(st, not self.g(st, "swapped") or self.g(st, "marked") == 1, "C18", "change marked as pending",
                               "a change succeeds without being marked as pending")
                    self.check(st, self.g(st, "due") == 0, "C18", "change successful", "a change succeeds without signalling that a write is needed")
            if self.ishandle and k == "cancel":
                self.check(st, self.g(st, "due") == 0, "C18", "change abandoned", "a change can be abandoned between marking it as pending and the signal")
            if self.attach() and k == "return" and self.ok_exit(v):
                self.check(st, self.g(st, "rd") == 0, "C18", "attach successful", "an attach succeeds without requesting a read after the node was linked")
            if self.entry_path.endswith("process_reads") and k == "return" and v[0] == "a" and v[1] == 0:
                self.check(st, self.g(st, "woke") == 1 and not self.g(st, "chg"), "C18", "read finished",
                           "a finished read does not wake all waiters after the last node was resolved")

    def attach(self):
        return self.own is not None and self.lst is not None and not self.ishandle and "attach" in self.entry_path and "detach" not in self.entry_path


class C19(NodeBase):
    """the lock is not re-entrant and is not held across waits"""

    def event(self, st, name, *a):
        if name == "relock":
            self.check(st, False, "C19", "lock taken twice", "the list lock is acquired while it is held")
        elif name in ("lock", "lock_wait"):
            self.check(st, True, "C19", "lock acquired", "")
        elif name in ("wait", "wait_for", "sigwait", "timer", "timeout", "user_poll"):
            self.check(st, st.th["lock"] is None, "C19", "wait for another task", "another task is waited for while the list lock is held")
        elif name == "inval":
            self.check(st, st.th["lock"] is None, "C19", "element removed", "an element is removed while the list lock is held")
        elif name == "push":
            self.check(st, True, "C19", "element stored", "")
        elif name == "exit":
            self.check(st, st.th["lock"] is None, "C19", "function left (%s)" % a[0], "the function is left with the list lock held")


class C36(C14):
    """what a handle shows is what was written, or what the caller's function made"""
    # copies: results of cloning the caller's value; shown: results of cloning the node's value; made: results of the
    # caller's default function; now: what the node's value is, since the function was called (old | given | made | other)
    DEFAULTS = {"copies": (), "shown": (), "made": (), "now": "old", "init": "no", "gone": 0}

    def check(self, st, ok, rule, construct, msg):
        # what is known about the node is tracked as for C14, whose own obligations are left to it
        return super().check(st, ok, rule, construct, msg) if rule == "C36" else ok

    def event(self, st, name, *a):
        super().event(st, name, *a)
        if name == "user_result":
            what, vals, r = a
            if what == "clone":
                loc = self.e.deref(vals[0])
                if self.is_payload(loc) and self.obj_own(loc):
                    self.s(st, shown=self.g(st, "shown")[-3:] + (r,))
                elif vals[0] == ("s", ("arg", 2)):
                    self.s(st, copies=self.g(st, "copies")[-3:] + (r,))
            elif what == "default":
                self.s(st, made=self.g(st, "made")[-3:] + (r,))
        elif name == "payload_drop" and self.obj_own(a[0]) and not self.e.unwinding(st):
            if self.g(st, "now") != "old":
                self.check(st, False, "C36", "new value kept", "the value just stored is dropped again")
        elif name == "exit" and a[0] == "return":
            if self.ishandle and self.entry_path.endswith("::write"):
                now = self.g(st, "now")
                if self.ok_exit(a[1]):
                    self.check(st, now == "given", "C36", "value replaced", "success is reported although the node's value is not a copy of the one given")
                elif self.err_exit(a[1]):
                    self.check(st, now == "old", "C36", "value left alone", "the node's value was changed although the write is refused")
            elif self.ishandle and self.entry_path.endswith("::load"):
                self.check(st, bare(a[1]) in self.g(st, "shown"), "C36", "value shown", "what is returned is not a copy of the node's value")

    def obj_own(self, loc):
        return loc is not None and (self.own is None or loc[0] == ("h", self.own))

    def store(self, st, loc, v, ty):
        fresh = self.about(st, loc) and (self.g(st, "init") == "new" or not self.poss(st) & self.holds)
        super().store(st, loc, v, ty)
        if not self.is_payload(loc) or not self.obj_own(loc) or self.e.unwinding(st):
            return
        v = bare(v)
        if self.ishandle:
            if v in self.g(st, "copies"):
                self.s(st, now="given")
            elif v[0] == "u" or is_anon(v):
                raise AnalysisError("a value stored in the node is not known")
            else:
                self.s(st, now="other")
        else:
            self.check(st, fresh, "C36", "stored value kept", "a value is stored by attaching although the node may already have one")
            ok = v in self.g(st, "made")
            self.check(st, ok, "C36", "first value", "a node without a stored value gets another one than the caller's function returned")
            self.s(st, now="made")


def bare(v):
    """without the wrappers around a value in memory"""
    while v is not None and v[0] == "a" and len(v[2]) == 1:
        v = v[2][0]
    return v
