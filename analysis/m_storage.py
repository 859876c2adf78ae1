"""Property automata over the operations that talk to the storage (process_reads, process_writes, process_garbage)."""
from base import *

OK, ERR = 0, 1


class Storage(Base):
    """common bookkeeping: progress of the scan within the current hold of the lock, errors"""

    def event(self, st, name, *a):
        if name == "lock":
            self.s(st, scan="no")
        elif name == "iter_open":
            # a pass given up before the end was reached spoils whatever was collected in it
            if self.g(st, "scan") != "end":
                self.s(st, scan="open" if self.g(st, "scan") == "no" else "spoilt")
        elif name == "iter_end":
            if self.g(st, "scan") == "open":
                self.s(st, scan="end")
        elif name == "storage_err":
            if self.g(st, "scan") != "end":
                self.s(st, scan="spoilt")
        self.on(st, name, *a)

    def on(self, st, name, *a):
        pass

    def known(self, st):
        """is the view of the storage that the lock protects known to be complete?"""
        if st.th["lock"] is None:
            return False
        if self.g(st, "scan") == "end":
            return True
        return self.optd(st, self.initial(st, self.A.f_next)) == 1

    def scanned_now(self, st):
        return self.g(st, "scan") == "end"

    # --- the record that the current element closes
    def record_ok(self, st, seq=None, start=None, end=None, rule="", construct=""):
        """a complete verified record was just closed; returns the missing facts"""
        A = self.A
        th = st.th
        bad = []
        item, sit = th["item"], th["start"]
        if th["ph"] != "closed" or item is None or sit is None:
            return ["no complete run of start, data and end elements leads here"]
        s0 = A.field(sit, "Start", "seq_no")
        s1 = A.field(item, "End", "seq_no")
        crc = A.field(item, "End", "calc_crc")
        if not self.same(st, s0, s1):
            bad.append("start and end are not known to carry the same sequence number")
        if seq is not None and not self.same(st, seq, s1):
            bad.append("the sequence number used is not known to be the record's")
        if not any(self.is_scan_crc(v) for v in self.equals(st, crc)):
            bad.append("the end's checksum is not known to equal the checksum over exactly the record's data")
        if start is not None and not self.posform(st, start, SSYM, 0):
            bad.append("the range does not begin at the start element")
        if end is not None and not self.posform(st, end, NSYM, -1):
            bad.append("the range does not end at the end element")
        return bad

    @staticmethod
    def is_scan_crc(v):
        return v[0] == "s" and v[1][0] == "app" and v[1][1] == "crc" and v[1][2][0] == "dg" and v[1][2][1] == "D"

    @staticmethod
    def is_written_crc(v):
        return v[0] == "s" and v[1][0] == "app" and v[1][1] == "crc" and v[1][2][0] == "dg" and v[1][2][2] == "D"

    def result(self, v):
        """('ok', v) / ('err', v) / None of an operation's result value"""
        if v is not None and v[0] == "a" and v[1] in (OK, ERR) and len(v[2]) == 1:
            return ("ok" if v[1] == OK else "err"), v[2][0]
        return None

    def result_kind(self, st, v):
        d = self.optd(st, v)
        return {0: "ok", 1: "err"}.get(d)

    def app_error(self, v):
        """name of the crate error carried by a failed result"""
        r = self.result(v)
        if r is None or r[0] != "err":
            return None
        e = r[1]
        if e[0] == "a" and e[1] == self.A.lserr_variants["AppError"] and e[2][0][0] == "a":
            k = e[2][0][1]
            return next((n for n, i in self.A.error_variants.items() if i == k), None)
        return None


class C01(Storage):
    """acceptance: a good record is stored into the index only if it is complete and verified"""

    def init(self):
        return ()

    def store(self, st, loc, v, ty):
        if ty not in self.A.optrec or v[0] == "u":
            return
        if loc is not None and not (loc[1] and loc[1][-1][0] == "x") and loc[0][0] != "h":
            return                      # a local variable, not the index
        if loc is not None and loc[0][0] != "h" and not loc[1]:
            return
        if self.optd(st, v) == 0:
            return
        if v[0] != "a":
            # moving an index entry within the index
            self.check(st, self.from_index(v), "C01", "record of unknown origin stored in the index",
                       "a value that is not a freshly verified record is stored as a good record")
            return
        rec = v[2][0]
        if rec[0] != "a" and self.from_index(rec):
            return
        e = self.e
        seq = e.project(rec, (0, self.A.rec_seq))
        rng = e.project(rec, (0, self.A.rec_range))
        bad = self.record_ok(st, seq, e.project(rng, (0, 0)), e.project(rng, (0, 1)))
        if e.project(rng, (0, 2)) != I(0, 1) and e.project(rng, (0, 2)) != I(0, 8):
            bad.append("its range of positions is not a fresh one")
        self.check(st, not bad, "C01", "write record accepted", "a write record is accepted although " + "; ".join(bad))

    def from_index(self, v):
        if v[0] != "s" or is_anon(v):
            return False
        return "inner" in repr(v) or "elem" in repr(v)


class C40(C01):
    """the converse: a record found good is put into the index, or ranked against what is there"""
    DEFAULTS = {"scan": "no", "good": 0, "done": 0, "differs": 0, "pushed": 0, "found": 0}

    def store(self, st, loc, v, ty):
        if ty in self.A.optrec and v[0] == "a" and self.optd(st, v) == 1 and (loc is None or loc[0][0] == "h" or loc[1]):
            self.s(st, good=0, done=1)  # what may be stored there is decided by C01

    def on(self, st, name, *a):
        if name == "push":
            self.s(st, pushed=1)
        elif name == "iter_poll":
            self.check(st, not self.g(st, "good"), "C40", "scan goes on", "a complete and verified write record is passed over")
            if st.th["ph"] == "closed" and not self.g(st, "done") and self.optd(st, self.seq_val(st, self.A.f_next)) == 0:
                self.check(st, self.g(st, "differs"), "C40", "run of elements rejected",
                           "a complete run of start, data and end elements is not accepted although neither its sequence numbers nor its checksums were found to differ")
            self.s(st, good=0, done=1, differs=0)
        elif name == "item":
            self.s(st, good=0, done=0, differs=0)
        elif name in ("lock", "unlock"):
            self.s(st, left=self.g(st, "good") if name == "unlock" else None, good=0, done=1)
        elif name == "exit" and a[0] == "return" and self.op == "process_writes" and self.g(st, "pushed") and self.result_kind(st, a[1]) == "ok":
            self.check(st, self.g(st, "found") and not self.g(st, "good") and not self.g(st, "left"), "C40", "write successful",
                       "a write is successful although its record is not remembered")

    def fact(self, st, t, val):
        if t[0] != "cmp":
            return
        if t[1] == "eq" and val == 1 and not self.g(st, "done") and st.th["ph"] == "closed" and not self.record_ok(st):
            self.s(st, good=1, found=1)
        elif t[1] == "eq" and val == 0 and st.th["ph"] == "closed" and not self.g(st, "differs") and self.differs(st, t[2], t[3]):
            self.s(st, differs=1)

    def either(self, st, t):
        if st.mon and st.th["ph"] == "closed" and not self.g(st, "differs") and self.all_differ(st, t, 0):
            self.s(st, differs=1)

    def all_differ(self, st, t, val):
        """does t == val imply that two values differ that a good record has in common?"""
        if t[0] == "not":
            return self.all_differ(st, t[1], 1 - val)
        if t[0] in ("and", "or"):
            return (t[0] == "and") == (val == 0) and self.all_differ(st, t[1], val) and self.all_differ(st, t[2], val)
        return t[:2] == ("cmp", "eq") and val == 0 and self.differs(st, t[2], t[3])

    def differs(self, st, x, y):
        """are these values, found to be different, what a good record has in common?"""
        A = self.A
        item, sit = st.th["item"], st.th["start"]
        if item is None or sit is None:
            return False
        s0, s1, crc = (self.equals(st, A.field(i, *f)) for i, f in ((sit, ("Start", "seq_no")), (item, ("End", "seq_no")), (item, ("End", "calc_crc"))))
        return any(a in s0 and b in s1 or a in crc and self.is_scan_crc(b) for a, b in ((x, y), (y, x)))

    def ranked(self, st, a, b):
        if st.mon and self.g(st, "good") and st.th["item"] is not None and all(x[0] != "i" or x[1] in (0, 0xffffffff) for x in (a, b)):
            # ranked against another record, or a value a search for the lowest one begins with (what follows from it is decided by C31)
            seqs = self.equals(st, self.A.field(st.th["item"], "End", "seq_no"))
            if a in seqs or b in seqs:
                self.s(st, good=0, done=1)


class C02(Storage):
    """a partial scan is never published as a complete one"""
    DEFAULTS = {"scan": "no"}

    def on(self, st, name, *a):
        if name == "unlock" and a[0] == st.th["lock"]:
            v = self.seq_val(st, self.A.f_next)
            d = self.optd(st, v)
            init = self.initial(st, self.A.f_next)
            ok = d == 0 or v == init or self.scanned_now(st) or self.optd(st, init) == 1
            self.check(st, ok, "C02", "lock released with the storage regarded as known",
                       "the next sequence number is set although the scan in this hold of the lock did not reach the end of the storage without an error")
        elif name == "vtable" and a[0] == "deserialize":
            self.check(st, self.known(st) or self.optd(st, self.seq_val(st, self.A.f_next)) == 1, "C02", "value handed out",
                       "a value is handed out before the storage was completely scanned")
        elif name == "astore" and self.state_loc(a[3]) and a[1] == I(self.A.codes["NonResident"], 8):
            self.check(st, self.known(st), "C02", "key reported absent", "a key is reported absent before the storage was completely scanned")
        elif name == "push":
            self.check(st, self.known(st), "C02", "element stored", "an element is stored before the storage was completely scanned")


class C02Pub(Storage):
    """on the functions that do not read the storage"""

    def on(self, st, name, *a):
        if name == "unlock" and a[0] == st.th["lock"]:
            A = self.A
            v, init = self.seq_val(st, A.f_next), self.initial(st, A.f_next)
            ok = self.optd(st, v) == 0 or all(self.seq_val(st, f) == self.initial(st, f) for f in (A.f_next, A.f_recs))
            self.check(st, ok, "C02", "index left as it was, or forgotten",
                       "the index or the next sequence number is changed without a scan, and the storage is still regarded as known")


class C03(Storage):
    DEFAULTS = {"scan": "no", "w": "idle", "fail": 0}

    def on(self, st, name, *a):
        A = self.A
        if name == "storage_err":
            self.s(st, fail=1)
        if name in ("push", "push_ok"):
            k = self.variant_of(st, a[0])
            w = self.g(st, "w")
            if not self.check(st, k is not None, "C03", "kind of stored element", "an element of unknown kind is stored"):
                return
            self.check(st, not self.g(st, "fail"), "C03", "element stored after a failure", "an element is stored after a storage operation failed")
            if k == "Start":
                self.check(st, w == "idle", "C03", "start element stored", "a start element is stored although a record was already started")
                if name == "push_ok":
                    self.s(st, w="open", seq=self.e.norm(st, self.elem_field(a[0], "Start", "seq_no")))
            elif k == "Data":
                self.check(st, w == "open", "C03", "data element stored", "a data element is stored outside of start and end")
            elif k == "End":
                self.check(st, w == "open", "C03", "end element stored", "an end element is stored without a started record")
                if w == "open":
                    self.check(st, self.same(st, self.elem_field(a[0], "End", "seq_no"), self.g(st, "seq")), "C03", "sequence number of the end",
                               "the end element is not known to carry the start element's sequence number")
                    self.check(st, any(self.is_written_crc(v) for v in self.equals(st, self.elem_field(a[0], "End", "calc_crc"))), "C03",
                               "checksum of the end", "the end's checksum is not known to cover exactly the data elements stored since the start, in order")
                if name == "push_ok":
                    self.s(st, w="done")
        elif name == "exit" and a[0] == "return":
            self.check(st, not (self.g(st, "w") == "open" and self.result_kind(st, a[1]) != "err"), "C03", "success reported",
                       "success is reported although the record was not ended")

    def elem_field(self, elem, variant, field):
        v, fs = self.A.elem_variants[variant]
        return self.e.project(elem, (v, fs[field]))


class C11(Storage):
    DEFAULTS = {"scan": "no"}

    def on(self, st, name, *a):
        if name == "storage_err":
            self.s(st, err=("s", a[1]), kind=a[0])
            return
        er = self.g(st, "err")
        if er is None:
            return
        if name in ("iter_open", "item", "iter_end", "push", "inval"):
            self.check(st, False, "C11", "storage call after an error", "the operation goes on to call the storage after a %s error" % self.g(st, "kind"))
        elif name == "exit" and a[0] == "return":
            want = self.A.lserr_variants["FlashRead" if self.g(st, "kind") == "read" else "FlashWrite"]
            self.check(st, a[1] == ("a", ERR, (("a", want, (er,)),)), "C11", "result after a %s error" % self.g(st, "kind"),
                       "a storage error of a %s call is not returned as the %s error it is" % (self.g(st, "kind"), self.g(st, "kind")))


class C08(Storage):
    """cleanup stays required after a write attempt or a scan that found anything"""
    DEFAULTS = {"scan": "no", "pushed": 0, "gc": "no", "acc": 0}

    def on(self, st, name, *a):
        A = self.A
        if name == "lock":
            self.s(st, acc=0, scanned=None)
        elif name == "push":
            self.s(st, pushed=1)
        elif name == "iter_open":
            self.s(st, scanned=None)
            if st.th["lock"] is None:
                self.s(st, gc="open")
        elif name == "iter_end":
            if st.th["lock"] is None and self.g(st, "gc") == "open":
                self.s(st, gc="end")
            elif st.th["lock"] is not None:
                self.s(st, scanned=1)
        elif name == "storage_err":
            self.s(st, gc="no")
        elif name == "unlock" and a[0] == st.th["lock"]:
            gc = self.seq_val(st, A.f_gc)
            nx = self.seq_val(st, A.f_next)
            cleaned = self.g(st, "gc") == "end" and self.known(st)
            self.s(st, free=1 if self.optd(st, nx) == 0 or self.off(st, gc) else gc)
            if self.g(st, "pushed"):
                self.check(st, gc == I(1, 1) or gc[0] == "i" and gc[1] == 1, "C08", "lock released after a write attempt",
                           "after a write has started to store elements the list does not require cleanup before the next write")
            elif self.optd(st, nx) == 0 or cleaned:
                return
            elif self.g(st, "scanned") and nx != self.initial(st, A.f_next):
                self.check(st, self.after_scan(st, gc), "C08", "lock released after a scan",
                           "a scan that found a good record or left-over elements does not require cleanup before the next write")
            else:
                ok = gc == self.initial(st, A.f_gc) or gc[0] == "i" and gc[1] == 1 or self.holds(st, "eq", gc, self.initial(st, A.f_gc))
                self.check(st, ok, "C08", "cleanup requirement changed", "the requirement of a cleanup is dropped without a completed cleanup")

        elif name == "exit" and a[0] == "return" and self.op == "process_garbage" and self.result_kind(st, a[1]) == "ok":
            f = self.g(st, "free")
            self.check(st, f == 1 or f is not None and self.off(st, f), "C08", "cleanup finished", "a cleanup that reports success leaves a cleanup required")

    def off(self, st, gc):
        gc = self.e.norm(st, gc)
        return self.holds(st, "eq", gc, I(0, 1)) or gc[0] == "s" and st.facts.get(("v", gc[1]), TOP)[1:2] == (0,)

    def after_scan(self, st, gc):
        if gc[0] == "i":
            if gc[1] == 1:
                return True
            # no cleanup: the storage must have been empty
            return st.th["n"] == 0 or self.empty(st)
        t = self.e.compare(st, "lt", I(0, 64), ("n", frozenset([(0, ((NSYM, 1),))])))
        if t == gc:
            return True
        # a comparison of the number of elements with zero
        if gc[0] == "s" and gc[1][0] == "cmp" and gc[1][1] == "lt" and self.holds(st, "eq", gc[1][2], I(0, 64)):
            return self.posform(st, gc[1][3], NSYM, 0)
        if gc[0] == "s" and gc[1][0] == "not":
            x = gc[1][1]
            if x[0] == "cmp" and x[1] == "eq":
                return any(self.posform(st, p, NSYM, 0) and self.holds(st, "eq", q, I(0, 64)) for p, q in ((x[2], x[3]), (x[3], x[2])))
        return False

    def empty(self, st):
        for k, v in st.facts.items():
            if k[0] == "cmp" and k[1] == "eq" and v == 1:
                for p, q in ((k[2], k[3]), (k[3], k[2])):
                    if p == I(0, 64) and self.posform(st, q, NSYM, 0):
                        return True
            if k[0] == "cmp" and k[1] == "lt" and v == 0 and k[2] == I(0, 64) and self.posform(st, k[3], NSYM, 0):
                return True
        return False


class C10(Storage):
    """cleanup: the view is unknown while elements are removed; done only after a full pass and a full rescan"""
    DEFAULTS = {"scan": "no", "pass": "no", "unk": 0, "inv": 0}

    def on(self, st, name, *a):
        A = self.A
        if name == "inval":
            held = st.th["lock"]
            unk = self.optd(st, self.seq_val(st, A.f_next)) == 0 if held is not None else self.g(st, "unk")
            self.check(st, unk, "C10", "element removed", "an element is removed while the list still regards the storage as known")
            self.s(st, inv=1)
        elif name == "iter_open":
            self.s(st, **{"pass": "open"} if st.th["lock"] is None else {})
        elif name == "iter_end" and self.g(st, "pass") == "open":
            self.s(st, **{"pass": "end"})
        elif name == "storage_err" and self.g(st, "pass") == "open":
            self.s(st, **{"pass": "err"})
        elif name == "unlock" and a[0] == st.th["lock"]:
            nx, gc = self.seq_val(st, A.f_next), self.seq_val(st, A.f_gc)
            d = self.optd(st, nx)
            started = self.g(st, "pass") != "no"
            if not started:
                self.s(st, unk=1 if d == 0 else 0)
                return
            changed = nx != self.initial(st, A.f_next)
            if changed:
                self.check(st, d == 0 or self.g(st, "pass") == "end" and self.scanned_now(st), "C10", "storage regarded as known again",
                           "after elements may have been removed the list regards the storage as known without a completed pass and rescan")
            gcok = gc == self.initial(st, A.f_gc) or gc == I(1, 1) or d == 0 or self.g(st, "pass") == "end" and self.known(st)
            self.check(st, gcok, "C10", "cleanup regarded as done", "cleanup is regarded as done although the pass or the rescan did not complete")
        elif name == "exit" and a[0] == "return" and self.result_kind(st, a[1]) == "ok" and self.g(st, "pass") != "no":
            self.check(st, self.g(st, "pass") == "end", "C10", "cleanup reported successful", "the cleanup reports success without having visited every element")


class Nodes(Storage):
    """the node a traversal of the list currently stands at, and which states it can be in"""

    def event(self, st, name, *a):
        if name == "list_next":
            self.at_node(st)
            self.s(st, cur=("s", a[0]), sv=None, poss=None)
        elif name == "list_end":
            self.at_node(st)
            self.s(st, cur=None, sv=None, poss=None)
        elif name in ("list_iter", "lock", "unlock"):
            if name == "list_iter":
                self.at_node(st)
            self.s(st, cur=None, sv=None, poss=None)
        elif name == "aload":
            cur = self.g(st, "cur")
            if cur is not None and a[0] is not None and a[0][0] == ("h", cur[1]) and self.state_loc(a[3]):
                self.s(st, sv=self.e.norm(st, a[1]))
                self.learn(st)
        Storage.event(self, st, name, *a)

    def learn(self, st):
        sv = self.g(st, "sv")
        if sv is not None:
            p = self.possible(st, sv)
            old = self.g(st, "poss")
            if old is not None:
                p = p & set(old)
            p = tuple(sorted(p))
            if p != old:
                self.s(st, poss=p)

    def fact(self, st, t, val):
        if t[0] != "cmp" and self.g(st, "sv") is not None:
            self.learn(st)

    def can(self, st):
        p = self.g(st, "poss")
        return set(self.A.codes.values()) if p is None else set(p)

    def at_node(self, st):
        """the traversal leaves the current node"""

    @property
    def valid(self):
        return {self.A.codes["ValidNoWriteNeeded"], self.A.codes["NeedsWrite"]}

    def whole_list(self, loc):
        return loc is not None and loc[0][0] == "h" and loc[0][1][0] == "new" and loc[0][1][2] == "inner"


class C04(Nodes):
    DEFAULTS = {"scan": "no", "rec": "no", "trav": "no", "pushed": 0}

    def event(self, st, name, *a):
        if name == "list_iter":
            self.at_node(st)
            if self.g(st, "rec") == "open" and (self.g(st, "any") or self.g(st, "trav") in ("on", "bad")):
                self.s(st, trav="bad")
            else:
                self.s(st, trav="fresh" if self.whole_list(a[0]) else "bad")
            self.s(st, cur=None, sv=None, poss=None)
            return
        Nodes.event(self, st, name, *a)

    def at_node(self, st):
        if self.g(st, "rec") != "open" or self.g(st, "cur") is None:
            return
        can, n = self.can(st), self.g(st, "pushed")
        ok = n == 1 or n == 0 and not (can & self.valid)
        self.check(st, ok, "C04", "node left by the traversal", "a node that may have a valid value is left out of the record"
                   if n == 0 else "a node is stored more than once")

    def on(self, st, name, *a):
        A = self.A
        if name == "list_next":
            t = self.g(st, "trav")
            self.s(st, trav="on" if t in ("fresh", "on") else "bad", pushed=0, key=None, ser=None)
        elif name == "list_end":
            t = self.g(st, "trav")
            self.s(st, trav="end" if t in ("fresh", "on") else "bad", key=None, ser=None)
        elif name in ("lock", "unlock"):
            self.s(st, trav="no", key=None, ser=None)
        elif name == "encode" and a[2]:
            cur = self.g(st, "cur")
            key = a[0]
            ok = cur is not None and self.node_field(cur, A.hdr_key) == self.e.norm(st, key)
            self.s(st, key=1 if ok else 0)
        elif name == "vtable" and a[0] == "serialize":
            cur = self.g(st, "cur")
            tgt = self.e.norm(st, a[2][0])
            ok = cur is not None and (tgt == cur or tgt[0] == "r" and tgt[1] == ("h", cur[1]) and not tgt[2])
            self.check(st, ok, "C04", "value serialized", "the value of a node other than the one the traversal stands at is serialized")
            own = cur is not None and ("*", cur[1]) in self.subterms(a[1])
            self.check(st, own, "C04", "serialize function used", "a node is serialized with a function that is not its own")
            self.check(st, not self.can(st) & ({A.codes["Initial"], A.codes["NonResident"]}), "C04", "node serialized",
                       "a node that may not have a valid value is serialized")
        elif name == "vtable_ok" and a[0] == "serialize":
            self.s(st, ser=1 if self.g(st, "key") else 0)
        elif name == "push":
            k = self.variant_of(st, a[0])
            if k == "Data":
                cur = self.g(st, "cur")
                ok = self.g(st, "rec") == "open" and cur is not None
                self.check(st, ok, "C04", "data stored", "a data element is stored while no traversal of the list stands at a node")
                self.check(st, not self.can(st) - self.valid, "C04", "data stored for a node without value", "a data element is stored for a node that may have no valid value")
                self.check(st, self.g(st, "ser") == 1, "C04", "data stored without serialization",
                           "the data element stored is not known to consist of the node's own key and value")
                self.check(st, self.g(st, "pushed") == 0, "C04", "data stored twice", "a node's value is stored more than once")
            elif k == "End":
                self.check(st, self.g(st, "trav") == "end", "C04", "record ended", "the record is ended although the traversal of the list since its start is not complete")
        elif name == "push_ok":
            k = self.variant_of(st, a[0])
            if k == "Start":
                t = self.g(st, "trav")
                self.s(st, rec="open", trav="fresh" if t == "fresh" else "no", any=None)
            elif k == "Data":
                self.s(st, pushed=min(2, self.g(st, "pushed") + 1), any=1, ser=None)
            elif k == "End":
                self.s(st, rec="done")

    def node_field(self, node, n):
        return ("s", ("f", ("*", node[1]), (0, n)))

    def subterms(self, t):
        out = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x.__class__ is tuple:
                out.add(x)
                stack.extend(x)
        return out


class C05(Nodes):
    DEFAULTS = {"scan": "no", "w": "idle", "ver": 0, "pushed": 0}

    def on(self, st, name, *a):
        A = self.A
        if name in ("lock", "unlock"):
            self.s(st, w="idle", ver=0, seq=None, crc=None)
        elif name == "push":
            self.s(st, ver=0, pushed=1)
        elif name == "push_ok":
            k = self.variant_of(st, a[0])
            if k == "Start":
                self.s(st, w="open", seq=self.e.norm(st, self.efield(a[0], "Start", "seq_no")), crc=None)
            elif k == "End" and self.g(st, "w") == "open":
                self.s(st, w="done", crc=self.e.norm(st, self.efield(a[0], "End", "calc_crc")))
            elif k != "Data":
                self.s(st, w="bad")
        elif name == "storage_err":
            if a[0] == "write":
                self.s(st, w="bad")
        elif name == "astore" and self.state_loc(a[3]):
            new = self.possible(st, a[1])
            nw = A.codes["NeedsWrite"]
            old = self.e.load(st, a[0]) if a[0] is not None else TOP
            if new != {nw} and nw in self.possible(st, old):
                cur = self.g(st, "cur")
                if not (cur is not None and a[0] is not None and a[0][0] == ("h", cur[1]) and nw not in self.can(st)):
                    self.learned(st)
                    self.check(st, self.g(st, "ver"), "C05", "pending change cleared", "a node that may have a pending change is marked otherwise although the record "
                               "was not stored and read back with the same sequence number, element count and checksum in this hold of the lock"
                               + self.why(st))
        elif name == "exit" and a[0] == "return" and self.g(st, "pushed") and self.result_kind(st, a[1]) != "err":
            self.check(st, self.g(st, "okd"), "C05", "write reported successful", "a write is reported successful without the record having been verified")
        if self.g(st, "ver"):
            self.s(st, okd=1)

    def efield(self, elem, variant, field):
        v, fs = self.A.elem_variants[variant]
        return self.e.project(elem, (v, fs[field]))

    def missing(self, st):
        A = self.A
        if self.g(st, "w") != "done":
            return ["no complete record was stored"]
        bad = self.record_ok(st, seq=self.g(st, "seq"))
        if st.th["ph"] == "closed" and not bad:
            crc = A.field(st.th["item"], "End", "calc_crc")
            if not self.same(st, crc, self.g(st, "crc")):
                bad.append("the checksum read is not known to equal the one written")
            if not self.count_ok(st):
                bad.append("the number of elements read is not known to equal the number written")
        return bad

    def count_ok(self, st):
        syms = symbols(st)
        if st.th["d"] is not None and st.th["p"] is not None:
            return st.th["d"] - 2 == st.th["p"]
        v = st.facts.get(("v", PSYM))
        if v is not None and st.th["d"] is not None:
            return v[1] == st.th["d"] - 2
        for k, v in st.facts.items():
            if k[0] == "cmp" and k[1] == "eq" and v == 1:
                for p, q in ((k[2], k[3]), (k[3], k[2])):
                    if (0, ((PSYM, 1),)) in ext_forms(p, syms) and any(self.datacount(f) for f in ext_forms(q, syms)):
                        return True
        return False

    def datacount(self, f):
        return f[0] == -2 and dict(f[1]) in ({NSYM: 1, SSYM: -1}, {("D",): 1})

    def learned(self, st):
        if not self.g(st, "ver") and self.g(st, "w") == "done" and st.th["ph"] == "closed" and not self.missing(st):
            self.s(st, ver=1)

    def why(self, st):
        m = self.missing(st)
        return ": " + "; ".join(m) if m else ""

    def fact(self, st, t, val):
        Nodes.fact(self, st, t, val)
        self.learned(st)
        if self.g(st, "ver"):
            self.s(st, okd=1)


class Index(Nodes):
    """what is known of the newest remembered record"""

    def last_element(self, st):
        """the last place of the index of good records: the newest record, if there is one"""
        a = st.th["lock"]
        if a is None:
            return TOP
        return self.e.norm(st, self.e.load(st, (("h", a), self.A.seq_path + ((0, self.A.f_recs), ("x", ("end", 1))))))

    @property
    def readers(self):
        """functions that return the newest remembered record (C31 decides whether they do)"""
        r = getattr(self, "_readers", None)
        if r is None:
            from m_order import Index as Order
            from engine import AnalysisError
            try:
                # (one that names the place it reads is followed as it is)
                r = {x["path"] for x in Order(self.p, self.A, 1).functions()[1]
                     if any(b["t"][0] == "call" and "iter" in str(b["t"][1].get("path")) for b in self.p.body(x["inst"]).blocks)}
            except AnalysisError:
                r = set()
            self._readers = r
        return r

    def newest_read(self, st, fr, v):
        """what such a function returns, when it searched the index in a way only C31 follows"""
        base = self.e.deref(fr.extra[1])
        if base is None:
            return None
        last = self.e.norm(st, self.e.load(st, (base[0], base[1] + ((0, self.A.f_recs), ("x", ("end", 1))))))
        if last[0] != "s" or is_anon(last):
            return None
        d = self.optd(st, v)
        if d == 0 and (self.optd(st, last) == 0 or self.g(st, "none") == last) or d is not None and d == 1 and "'end'" in repr(v):
            return None
        if d == 1 and ("('x', ('i'" in repr(v)):
            return None         # a certain other place
        s2 = st.copy()
        out = []
        if self.e.assume_discr(st, last[1], 1):
            out.append((st, ("a", 1, (self.e.project(last, (1, 0)),))))
        if self.e.assume_discr(s2, last[1], 0):
            out.append((s2, NONE))
        return out

    def newest(self, st):
        """the newest remembered record"""
        v = self.last_element(st)
        if self.optd(st, v) == 1 or v[0] == "s" and self.g(st, "some") == v:
            return self.e.project(v, (1, 0))
        return None

    def no_record(self, st):
        v = self.last_element(st)
        return self.optd(st, v) == 0 or v[0] == "s" and not is_anon(v) and self.g(st, "none") == v

    def discr(self, st, t, val):
        # what is known of the newest record is kept in registers: facts are forgotten where paths join
        if t[0] == "f" and t[2] == ("x", ("end", 1)):
            if val == 1:
                self.s(st, some=("s", t), none=None)
            elif val == 0:
                self.s(st, none=("s", t), some=None)


class C07(Index):
    """when a write happens, and with which sequence number"""
    DEFAULTS = {"scan": "no", "trav": "no", "ini": 0, "nw": 0, "tnw": 0, "mnw": 0, "cini": 0, "cnw": 0, "pushed": 0, "err": 0}

    def on(self, st, name, *a):
        A = self.A
        if name == "lock":
            self.s(st, trav="no", ini=0, nw=0, tnw=0, mnw=0, cini=0, cnw=0)
        elif name == "list_iter" and not self.g(st, "pushed"):
            self.s(st, trav="fresh" if self.whole_list(a[0]) and st.th["lock"] is not None else "no", ini=0, tnw=0, mnw=0)
        elif name == "list_next" and not self.g(st, "pushed"):
            self.s(st, trav="on" if self.g(st, "trav") in ("fresh", "on") else "no")
        elif name == "list_end" and not self.g(st, "pushed"):
            if self.g(st, "trav") in ("fresh", "on"):
                # what a complete traversal shows about all nodes
                if not self.g(st, "ini"):
                    self.s(st, cini=1)
                if not self.g(st, "mnw") and not self.g(st, "tnw"):
                    # (a node another traversal saw in need of a write cannot exist)
                    self.s(st, cnw=1, nw=0)
            self.s(st, trav="no", ini=0, tnw=0, mnw=0)
        elif name == "storage_err":
            self.s(st, err=1)
        elif name == "push":
            if self.variant_of(st, a[0]) == "Start" and not self.g(st, "pushed"):
                nx = self.initial(st, A.f_next)
                self.check(st, self.optd(st, nx) == 1, "C07", "write started", "a write starts although the storage may not have been scanned")
                self.check(st, self.flag(st) == 0, "C07", "write started with cleanup outstanding", "a write starts although a cleanup may be outstanding")
                self.check(st, self.g(st, "cini"), "C07", "write started with unread nodes",
                           "a write starts without it being known that no attached node still waits for its first read")
                self.check(st, self.g(st, "nw") or self.no_record(st), "C07", "write started without need",
                           "a write starts although neither a pending change nor an empty storage is known")
                v, fs = A.elem_variants["Start"]
                seq = self.e.project(a[0], (v, fs["seq_no"]))
                self.check(st, self.same(st, seq, self.e.project(nx, (1, 0))), "C07", "sequence number used",
                           "the record does not use the remembered next sequence number")
            self.s(st, pushed=1)
        elif name == "exit" and a[0] == "return" and self.op == "process_writes" and not self.g(st, "pushed") and not self.g(st, "err"):
            self.refused(st, a[1])

    def at_node(self, st):
        if self.g(st, "cur") is None or self.g(st, "pushed"):
            return
        p = self.can(st)
        if self.A.codes["Initial"] in p:
            self.s(st, ini=1)
        if p == {self.A.codes["NeedsWrite"]}:
            self.s(st, nw=1, tnw=1)
        elif self.A.codes["NeedsWrite"] in p:
            self.s(st, mnw=1)

    def flag(self, st):
        g = self.initial(st, self.A.f_gc)
        f = st.facts.get(("v", g[1]))
        nv = st.facts.get(("nv", g[1]), ())
        return f[1] if f is not None else 1 if 0 in nv else 0 if 1 in nv else None

    def last_record(self, st):
        """is there a newest remembered record, if known"""
        return 0 if self.no_record(st) else 1 if self.newest(st) is not None else None

    def refused(self, st, v):
        A = self.A
        nx = self.optd(st, self.initial(st, A.f_next, self.g(st, "lk")))
        r = self.result_kind(st, v)
        gc = self.g(st, "gcf")
        nx = self.g(st, "nxf")
        if r == "ok":
            good = nx == 1 and gc == 0 and self.g(st, "rest") == 1
            self.check(st, good, "C07", "nothing to write", "the write reports success without storing anything although a write might be needed or not permitted")
            r = self.result(v)
            z = r is not None and r[1][0] == "a" and all(x == I(0, 64) for x in r[1][2])
            self.check(st, z, "C07", "report of a write that stored nothing", "a write that stored nothing does not report zero bytes")
        else:
            n = self.app_error(v)
            if n == "NeedsFirstRead":
                self.check(st, nx == 0 or self.g(st, "rest") == 2, "C07", "write refused until read",
                           "a write is refused as needing a first read although the storage was scanned and no node waits for its first read")
            elif n == "NeedsGarbageCollect":
                self.check(st, gc == 1, "C07", "write refused until cleanup", "a write is refused as needing a cleanup although none is outstanding")
            else:
                self.check(st, False, "C07", "write refused", "a write that stored nothing ends with an error (%s) that names neither a missing read nor a missing cleanup" % n)

    def event(self, st, name, *a):
        if name == "unlock" and a[0] == st.th["lock"]:
            # remember what was known when the lock was released
            self.at_node(st)
            ini = self.g(st, "cur") is not None and self.can(st) == {self.A.codes["Initial"]}
            nx = self.optd(st, self.initial(st, self.A.f_next))
            gc = self.flag(st)
            rest = 2 if ini else 1 if self.g(st, "cini") and self.g(st, "cnw") and not self.g(st, "nw") and self.last_record(st) == 1 else 0
            Nodes.event(self, st, name, *a)
            self.s(st, nxf=nx, gcf=gc, rest=rest)
            return
        Nodes.event(self, st, name, *a)


class C12(Index):
    """a node is declared to have no stored value only after a complete read"""
    DEFAULTS = {"scan": "no", "x": "no"}

    def on(self, st, name, *a):
        A = self.A
        if name in ("lock", "unlock"):
            self.s(st, fail=None, el=None, skip=None)
        elif name == "iter_open":
            self.s(st, el=None, skip=None)
        elif name in ("item", "iter_end"):
            if self.g(st, "el") is not None:
                self.s(st, skip=1)
            self.s(st, el=None)
        elif name == "list_end":
            if self.g(st, "el") == "new":
                self.s(st, el=None)
        elif name == "decode_err":
            if self.g(st, "el") == "new":
                self.s(st, el=None)         # no key can be decoded
        elif name == "vtable_err" and a[0] == "deserialize":
            self.s(st, fail=self.e.norm(st, a[2][0]))
        elif name == "vtable":
            self.s(st, fail=None, el=None)
        elif name == "astore" and self.state_loc(a[3]) and A.codes["NonResident"] in self.possible(st, a[1]) and a[0] is not None:
            node = ("s", a[0][0][1]) if a[0][0][0] == "h" else None
            f = self.g(st, "fail")
            if f is not None and node == f:
                self.check(st, self.was_initial(st, a[0]), "C12", "undecodable value", "a node that may already have a value is declared to have none")
                return
            self.check(st, st.th["lock"] is not None, "C12", "lock while declaring a value absent", "a value is declared absent without holding the lock")
            self.check(st, self.was_initial(st, a[0]), "C12", "node declared absent", "a node that may already have a value is declared to have none")
            self.check(st, self.done(st), "C12", "value declared absent",
                       "a node is declared to have no stored value although the newest good record was not read to its end, "
                       "looking up every key in it, without an error")

    def at_node(self, st):
        # the search for the node with the element's key goes on to the next node
        cur = self.g(st, "cur")
        if self.g(st, "el") == "new" and cur is not None:
            if not self.g(st, "ne"):
                self.s(st, el="bad")
        self.s(st, ne=None)

    def mentions(self, f, t):
        stack = [f]
        while stack:
            x = stack.pop()
            if x == t:
                return True
            if x.__class__ is tuple:
                stack.extend(x)
        return False

    def fact(self, st, t, val):
        Nodes.fact(self, st, t, val)
        if self.g(st, "el") == "new":
            cur = self.g(st, "cur")
            if cur is not None and t[0] == "cmp" and t[1] == "eq" and val == 0 and self.mentions(t, ("*", cur[1])):
                self.s(st, ne=1)            # the node's key is another one
            if t[0] == "cmp" and t[1] == "lt" and val == 1 and t[3][0] == "s" and t[3][1][0] == "app" and t[3][1][1] == "len_with":
                self.s(st, el=None)         # the key is longer than the element
            elif self.g(st, "poss") is not None and self.A.codes["Initial"] not in self.can(st):
                self.s(st, el=None)         # the node does not wait for a value

    def was_initial(self, st, loc):
        old = self.e.load(st, loc)
        if self.possible(st, old) == {self.A.codes["Initial"]}:
            return True
        cur = self.g(st, "cur")
        return cur is not None and loc[0] == ("h", cur[1]) and self.can(st) == {self.A.codes["Initial"]}

    def done(self, st):
        if not self.known(st):
            return False
        if self.no_record(st):
            return True
        if self.g(st, "skip") or self.g(st, "el") is not None:
            return False
        # the newest good record was read: the element last read is its end
        th = st.th
        if th["ph"] != "closed" or th["item"] is None or th["start"] is None:
            return False
        rec = self.newest(st)
        if rec is None:
            return False
        seq = self.e.project(rec, (0, self.A.rec_seq))
        return self.same(st, seq, self.A.field(th["item"], "End", "seq_no"), self.A.field(th["start"], "Start", "seq_no"))

    def discr(self, st, t, val):
        Index.discr(self, st, t, val)
        it = st.th["item"]
        if it is not None and t == self.A.data(it):
            if val == self.A.elem_variants["Data"][0] and st.th["ph"] == "in" and self.known(st):
                self.s(st, el="new", cur=None, sv=None, poss=None, ne=None)
            elif val == self.A.elem_variants["Start"][0]:
                self.s(st, el=None, skip=None)


class C13(C12):
    """hydration"""
    DEFAULTS = {"scan": "no"}

    def on(self, st, name, *a):
        A = self.A
        if name == "vtable" and a[0] == "deserialize":
            f, vals = a[1], a[2]
            node = self.e.norm(st, vals[0])
            loc = self.e.deref(vals[0]) if vals[0][0] == "r" else (("h", vals[0][1]), ()) if vals[0][0] == "s" else None
            t = ("*", loc[0][1]) if loc is not None and loc[0][0] == "h" else None
            self.check(st, t is not None and self.mentions(f, t), "C13", "deserialize function used", "a node is filled with a function that is not its own")
            # state
            v = self.state_of(st, loc)
            self.check(st, v is not None and self.possible(st, v) == {A.codes["Initial"]}, "C13", "node filled",
                       "a node that may already have a value is filled by a read")
            self.check(st, st.th["lock"] is not None, "C13", "lock while filling", "a node is filled without the lock")
            bad = self.source(st, node, t, vals[1])
            self.check(st, not bad, "C13", "source of the value", "a value is filled from data of which it is not known that " + "; ".join(bad))
            self.s(st, filled=node)
        elif name == "vtable_ok" and a[0] == "deserialize":
            self.s(st, got=self.e.norm(st, a[2][0]))
        elif name == "astore" and self.state_loc(a[3]) and a[0] is not None:
            nv = self.possible(st, a[1])
            old = self.possible(st, self.e.load(st, a[0]))
            cur = self.g(st, "cur")
            if cur is not None and a[0][0] == ("h", cur[1]):
                old = old & self.can(st)
            if nv & self.valid and not old <= self.valid:
                ok = self.g(st, "got") is not None and a[0][0] == ("h", self.g(st, "got")[1])
                self.check(st, ok, "C13", "node declared valid", "a node is declared to have a value although none was decoded into it")

    def state_of(self, st, loc):
        if loc is None:
            return None
        n = next(i for i, f in enumerate(self.A.hdr_fields) if self.is_state_field(f[1]))
        p = loc[1] + ((0, n),)
        ty = self.A.hdr_fields[n][1]
        T = self.p.types
        while T[ty]["k"] == "adt" and T[ty]["krate"] == "cfg_noodle":
            p = p + ((0, 0),)
            ty = T[ty]["variants"][0][2][0][1]
        v = self.e.load(st, (loc[0], p))
        return self.e.norm(st, v)

    def is_state_field(self, ty):
        T = self.p.types
        while T[ty]["k"] == "adt" and T[ty]["krate"] == "cfg_noodle" and len(T[ty]["variants"]) == 1 and len(T[ty]["variants"][0][2]) == 1:
            ty = T[ty]["variants"][0][2][0][1]
        return "Atomic" in T[ty]["s"]

    def source(self, st, node, t, body):
        A = self.A
        th = st.th
        bad = []
        item = th["item"]
        if not (self.known(st) or self.optd(st, self.seq_val(st, A.f_next)) == 1):
            bad.append("the storage was completely scanned")
        rec = self.newest(st)
        if rec is None:
            bad.append("it belongs to the newest good record (no such record was selected)")
            return bad
        if th["ph"] != "in" or th["start"] is None or item is None:
            bad.append("it is a data element directly following the record's start")
            return bad
        if self.e.known_discr(st, ("app", "data", ("s", item))) != 1 or self.e.known_discr(st, A.data(item)) != A.elem_variants["Data"][0]:
            bad.append("it is a data element")
        if not self.same(st, A.field(th["start"], "Start", "seq_no"), self.e.project(rec, (0, A.rec_seq))):
            bad.append("the record read carries the newest record's sequence number")
        rng = self.e.project(rec, (0, A.rec_range))
        if not self.at_start(st, self.e.project(rng, (0, 0))):
            bad.append("the record read begins at the newest record's remembered position")
        key = ("s", ("f", t, (0, A.hdr_key)))
        item_t = ("s", item)
        keys = [x for x in self.key_equal(st, key)]
        if not any(self.mentions(x, item_t) for x in keys):
            bad.append("the element's key equals the node's key")
        b = self.e.norm(st, body)
        if not self.mentions(b, item_t) and b != ("str", "") and not (b[0] == "r" and b[1] == ("h", ("lit", ""))) and not (b[0] == "sl" and b[1] == ("h", ("lit", ""))):
            bad.append("the bytes decoded are the element's")
        return bad

    def key_equal(self, st, key):
        out = []
        for k, v in st.facts.items():
            if k[0] == "cmp" and k[1] == "eq" and v == 1:
                for p, q in ((k[2], k[3]), (k[3], k[2])):
                    if self.mentions(p, key) or p == key:
                        out.append(q)
        return out

    def at_start(self, st, start):
        """is the position of the start element known to be the record's?"""
        return any(self.posform(st, v, SSYM, 0) for v in self.equals(st, start))


class C09(Storage):
    """cleanup removes exactly what is undecodable or outside of every kept record"""
    DEFAULTS = {"scan": "no", "pass": "no", "kept": "no", "hold": 0, "gone": 0}

    def on(self, st, name, *a):
        A = self.A
        if name == "lock":
            self.s(st, hold=min(2, self.g(st, "hold") + 1))
            if self.g(st, "hold") == 1:
                self.s(st, recs=("s", self.initial(st, A.f_recs)[1]), gcf=("s", self.initial(st, A.f_gc)[1]))
        elif name == "unlock" and self.g(st, "hold") == 1:
            v = self.g(st, "gcf")[1]
            f, nv = st.facts.get(("v", v)), st.facts.get(("nv", v), ())
            self.s(st, need=1 if f is not None and f[1] or 0 in nv else 0, gcf=None)
        elif name == "iter_open":
            self.s(st, **{"pass": "open" if st.th["lock"] is None and self.g(st, "pass") == "no" else "no"})
        elif name in ("item", "iter_end"):
            if self.g(st, "pass") == "open":
                if self.g(st, "it") is not None and not self.g(st, "gone"):
                    self.check(st, self.g(st, "dec") == 1 and self.g(st, "kept") == "hit", "C09", "element kept",
                               "an element is kept although it is not known to be decodable and to lie in a kept record")
                self.s(st, it=("s", a[0]) if name == "item" else None, dec=None, kept="no", kel=None, lo=None, hi=None, gone=0)
                if name == "iter_end":
                    self.s(st, **{"pass": "end"})
        elif name == "slice_next":
            v = self.elem(st, a[0])
            if v is not None:
                self.leave(st)
                self.s(st, kel=v, lo=None, hi=None)
                if self.g(st, "kept") == "no":
                    self.s(st, kept="loop")
                # the positions of a record are a fresh range that was never iterated (checked by C01)
                ex = self.e.project(self.e.project(self.e.project(v, (1, 0)), (0, A.rec_range)), (0, 2))
                if ex[0] == "s" and not is_anon(ex):
                    self.e.assume(st, ex[1], 0)
        elif name == "slice_end":
            if self.g(st, "kept") in ("no", "loop") and self.elem(st, a[0]) is not None:
                self.leave(st)
                if self.g(st, "kept") != "bad":
                    self.s(st, kept="miss")
        elif name == "inval":
            cur = self.g(st, "it")
            self.check(st, self.g(st, "pass") == "open" and cur is not None and self.e.norm(st, a[0]) == cur, "C09", "element removed",
                       "an element other than the one the cleanup stands at is removed")
            self.check(st, self.g(st, "dec") == 0 or self.g(st, "kept") == "miss", "C09", "reason for the removal",
                       "an element is removed although it is not known to be undecodable or outside of every kept record")
            self.check(st, self.g(st, "need") == 1, "C09", "removal without need", "an element is removed although no cleanup is known to be outstanding")
            self.s(st, gone=1)
        elif name == "push":
            if self.op == "process_garbage":
                self.check(st, False, "C09", "element added", "the cleanup adds an element")

    def elem(self, st, ref):
        """the term of a place of the index as it was when the lock was taken"""
        loc = self.e.deref(ref)
        if loc is None or self.g(st, "recs") is None:
            return None
        v = self.e.norm(st, self.e.load(st, loc))
        r = self.g(st, "recs")
        if v[0] == "s" and not is_anon(v) and v[1][0] == "f" and v[1][1] == r[1]:
            return v
        return None

    def leave(self, st):
        k = self.g(st, "kel")
        if k is None:
            return
        if self.g(st, "kept") == "loop" and not self.missed(st, k):
            self.s(st, kept="bad")
        self.s(st, kel=None, lo=None, hi=None)

    def missed(self, st, k):
        return self.optd(st, k) == 0 or self.g(st, "lo") == 0 or self.g(st, "hi") == 0

    def fact(self, st, t, val):
        self.learn(st)

    def discr(self, st, t, val):
        it = self.g(st, "it")
        if it is not None and t == ("app", "data", it):
            self.s(st, dec=1 if val == 1 else 0)
        self.learn(st)

    def learn(self, st):
        k = self.g(st, "kel")
        if k is None or self.g(st, "kept") != "loop":
            return
        rng = self.e.project(self.e.project(k, (1, 0)), (0, self.A.rec_range))
        start, end = self.e.project(rng, (0, 0)), self.e.project(rng, (0, 1))
        lo, hi = self.g(st, "lo"), self.g(st, "hi")
        n = st.th["n"]
        if n is not None:
            pos = I(n - 1, 64)
            r = self.e.compare(st, "lt", pos, start)
            if r[0] == "i":
                lo = 1 - r[1]
            r = self.e.compare(st, "lt", end, pos)
            if r[0] == "i":
                hi = 1 - r[1]
        for f, v in st.facts.items():
            if f[0] == "cmp" and f[1] == "lt":
                if f[3] == start and self.posform(st, f[2], NSYM, -1):
                    lo = 1 - v
                elif f[2] == end and self.posform(st, f[3], NSYM, -1):
                    hi = 1 - v
        if self.optd(st, k) == 0:
            lo = 0
        if (lo, hi) != (self.g(st, "lo"), self.g(st, "hi")):
            self.s(st, lo=lo, hi=hi)
        if lo == 1 and hi == 1:
            self.s(st, kept="hit", kel=None, lo=None, hi=None)


class C35(Storage):
    """the counters of the reports are the sums of the sizes of what the operation read, wrote and removed"""
    # its: iterators opened by now (2: or more); keys: has the key of a stored element been decoded?
    sums = True
    DEFAULTS = {"scan": "no", "its": 0, "keys": 0}
    REPORTS = {"ProcessReadCounters": ("total_bytes_read", "current_bytes_read"),
               "ProcessWriteCounters": ("total_bytes_read", "current_bytes_written"),
               "ProcessGarbageCounters": ("total_bytes_read", "post_collection_bytes_read", "total_bytes_popped")}

    def fields(self):
        f = self.__dict__.get("_fields")
        if f is None:
            op = self.e.entry.rsplit("::", 1)[-1]
            name = {"process_reads": "ProcessReadCounters", "process_writes": "ProcessWriteCounters", "process_garbage": "ProcessGarbageCounters"}.get(op)
            i = self.e.nat.find_adt("storage_list::" + name) if name else None
            if i is None:
                raise AnalysisError("anchor: no report type for %s" % op)
            names = [x[0] for x in self.p.types[i]["variants"][0][2]]
            if any(n not in names for n in self.REPORTS[name]):
                raise AnalysisError("anchor: the fields of %s are not known" % name)
            f = self._fields = {n: names.index(n) for n in self.REPORTS[name]}
        return f

    def total(self, st, v, *ks):
        """is v the sum of these sums?"""
        want = {ZERO}
        for k in ks:
            g = st.th[k]
            want = {lin_add(w, x) for w in want for x in ((0, ((SUMS[k], 1),)),) + ((g,) if g is not None else ())}
        return bool(want & ext_forms(v, symbols(st)))

    def on(self, st, name, *a):
        if name == "iter_open":
            self.s(st, its=min(self.g(st, "its") + 1, 2))
        elif name in ("decode", "decode_err"):
            self.s(st, keys=1)
        elif name == "exit" and a[0] == "return":
            r = self.result(a[1])
            if r is None:
                raise AnalysisError("the result of %s is not known" % self.e.entry)
            if r[0] != "ok":
                return
            for n, k in self.fields().items():
                v = self.e.norm(st, self.e.project(r[1], (0, k)))
                if n == "total_bytes_read":
                    self.check(st, self.total(st, v, "bt", "bi"), "C35", n, "the count is not the sum of the sizes of all elements read")
                elif n == "current_bytes_read":
                    none = v == I(0, 64) and not self.g(st, "keys")
                    self.check(st, none or self.total(st, v, "bd"), "C35", n,
                               "the count is not the sum of the sizes of the data elements of the record the values are taken from")
                elif n == "current_bytes_written":
                    self.check(st, self.total(st, v, "bw"), "C35", n, "the count is not the sum of what storing the elements took")
                elif n == "post_collection_bytes_read":
                    ok = self.total(st, v, "bi") if self.g(st, "its") > 1 else v == I(0, 64)
                    self.check(st, ok, "C35", n, "the count is not the sum of the sizes of the elements read after the collection")
                elif n == "total_bytes_popped":
                    self.check(st, self.total(st, v, "bx"), "C35", n, "the count is not the sum of the sizes of the elements removed")
