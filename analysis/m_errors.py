"""C39: an operation that fails had a reason to, and names it"""
from base import *
from m_storage import Index
from m_node import Attach


class C39(Index):
    """on the operations that use the storage (their storage errors are C11's, refused writes C07's)"""
    DEFAULTS = {"scan": "no", "last": "none", "mine": 0, "push": 0, "ser": "none", "err": 0}

    def on(self, st, name, *a):
        if name == "iter_open":
            self.s(st, last="open", hit=None, mine=0)
        elif name == "item":
            self.s(st, last="item", mine=1 if self.g(st, "hit") == "Start" else self.g(st, "mine"), hit=None)
        elif name == "iter_end":
            self.s(st, last="end")
        elif name == "push":
            self.s(st, push=2 if self.variant_of(st, a[0]) == "End" else 1)
        elif name == "list_next":
            self.s(st, ser="here", room=None)
        elif name == "encode":
            self.s(st, ser="enc" if a[2] else "err")
        elif name == "vtable_ok" and a[0] == "serialize":
            self.s(st, ser="ok")
        elif name == "vtable_err" and a[0] == "serialize":
            self.s(st, ser="err")
        elif name == "storage_err":
            self.s(st, err=1)
        elif name == "exit" and a[0] == "return" and not self.g(st, "err"):
            self.judge(st, a[1])

    def event(self, st, name, *a):
        if name == "unlock" and a[0] == st.th["lock"]:
            # what was known when the lock was released
            self.s(st, why=self.reason(st))
        elif name == "lock":
            self.s(st, why=None)
        Index.event(self, st, name, *a)

    def fact(self, st, t, val):
        Index.fact(self, st, t, val)
        if self.op == "process_writes" and (t[0] == "len" and val == 0 or t[0] == "cmp" and any(x[0] == "n" or x[0] == "s" and x[1][0] == "len" for x in t[2:]) and (
                val == 1 and (t[1] == "eq" and I(0, 64) in t[2:] or t[1] == "lt" and t[3] == I(1, 64)) or val == 0 and t[1] == "lt" and t[2] == I(0, 64))):
            self.s(st, room=0)      # the buffer, or a part of it, is empty
        # (kept in registers: facts are forgotten where paths join)
        if t[0] == "cmp" and t[1] == "eq" and val == 1 and st.th["item"] is not None and self.g(st, "last") == "item":
            for k in ("Start", "End"):
                if self.A.field(st.th["item"], k, "seq_no") in t[2:]:
                    self.s(st, hit=k)

    def reason(self, st):
        """does what was last read from the storage contradict what is remembered or was written? (not: how)"""
        last = self.g(st, "last")
        if last == "end":
            return "there is no record to look for" if self.op == "process_reads" and self.no_record(st) else None
        if last != "item":
            return "nothing was read"
        A, th = self.A, st.th
        item = th["item"]
        d = self.e.known_discr(st, A.data(item)[1])
        if d is None:
            return "the last element was not looked at"
        if d == 0:
            return None
        f = st.facts.get(("d", A.data(item)))
        kinds = {n for n, (k, _) in A.elem_variants.items() if f is None or (f[1] == k if f[0] == "=" else k not in f[1])}
        mine = th["ph"] in ("in", "closed", "pend") and self.g(st, "mine")
        if "Start" in kinds and (f is None or self.g(st, "hit") == "Start"):
            return "the last element may be the start looked for"
        if "Data" in kinds and mine:
            return "the last element may be one of the values of the record looked for"
        if self.op == "process_reads" and kinds == {"End"} and mine and self.g(st, "hit") == "End":
            return "the last element is the end looked for"
        return None

    def judge(self, st, v):
        k = self.result_kind(st, v)
        if k == "ok":
            return
        n = self.error(v)
        if self.op == "process_garbage":
            self.check(st, False, "C39", "cleanup refused", "a cleanup fails although no access to the storage failed")
            return
        why = self.g(st, "why") if st.th["lock"] is None else self.reason(st)
        if self.op == "process_reads":
            if self.check(st, n == "InconsistentFlash", "C39", "reason of a failed read",
                          "a read fails although no access to the storage failed, and with an error (%s) other than that the storage changed" % n):
                self.check(st, why is None, "C39", "failed read", "a read reports that the storage changed, but %s" % why)
        elif self.op == "process_writes" and self.g(st, "push"):
            if n == "Serialization":
                self.check(st, self.g(st, "push") == 1 and (self.g(st, "ser") == "err" or self.g(st, "room") == 0), "C39", "value refused",
                           "a write reports that a value cannot be encoded although all values were")
            elif self.check(st, n in ("InconsistentFlash", "WriteVerificationFailed"), "C39", "reason of a failed write",
                            "a write fails although no access to the storage failed, and with an error (%s) other than a value not encoded or a write not found again" % n):
                self.check(st, self.g(st, "push") == 2 and why is None, "C39", "failed verification",
                           "a write reports that it was not found again, but %s" % (why or "it was not finished"))

    def error(self, v):
        n = self.app_error(v)
        if n is None:
            r = self.result(v)
            if r is not None and r[0] == "err" and r[1][0] == "a":
                n = next((k for k, i in self.A.lserr_variants.items() if i == r[1][1]), None)
        return n


class C39Node(Attach):
    """on the functions of list, node and handle"""

    def __init__(self, *a):
        Attach.__init__(self, *a)

    def on(self, st, name, *a):
        if name == "aload" and self.is_state(a[0], a[3]):
            self.s(st, sv=self.e.norm(st, a[1]), poss=None)
            self.learn(st)
        elif name == "exit" and a[0] == "return" and self.err_exit(a[1]):
            n = self.err_name(a[1])
            tc, df = self.g(st, "tc"), self.g(st, "df") or ()
            if n == "AlreadyTaken":
                self.check(st, tc == "taken", "C39", "node reported taken", "the node is reported to be taken without its mark saying so")
            elif n == "NodeInOtherList":
                self.check(st, tc is None and {"null", "list", "taken"} <= set(df), "C39", "node reported in another list",
                           "the node is reported to be in another list although its mark may say something else")
            elif n == "InvalidState":
                p = self.g(st, "poss")
                C = self.A.codes
                self.check(st, p is not None and set(p) <= {C["Initial"], C["NonResident"]}, "C39", "state reported invalid",
                           "the state of the node is reported to be invalid although the node may hold a value")
            else:
                self.check(st, n == "DuplicateKey" and self.attaching(), "C39", "reason of the refusal", "the refusal carries an unexpected error (%s)" % n)

    def classify(self, st):
        Attach.classify(self, st)
        tl = self.e.norm(st, self.g(st, "tl"))
        df = set(self.g(st, "df") or ())
        for k, v in (("null", ("i", 0, 64)), ("list", self.list_ptr()), ("taken", self.taken_ptr())):
            if v is not None and k not in df and self.differ(st, tl, v):
                df.add(k)
        self.s(st, df=tuple(sorted(df)) or None)

    def differ(self, st, a, b):
        if b[0] == "i":
            nv = st.facts.get(("nv", a[1])) if a[0] == "s" else None
            return nv is not None and 0 in nv or self.fails(st, "eq", a, b)
        return self.fails(st, "eq", a, b)

    def event(self, st, name, *a):
        if name in ("aload", "cas_seen") and self.is_taken(a[0]) and self.is_own(a[0]):
            self.s(st, df=None)
        Attach.event(self, st, name, *a)

    def learn(self, st):
        sv = self.g(st, "sv")
        if sv is not None:
            p = set(self.possible(st, sv))
            old = self.g(st, "poss")
            p = tuple(sorted(p if old is None else p & set(old)))
            if p != old:
                self.s(st, poss=p)

    def fact(self, st, t, val):
        Attach.fact(self, st, t, val)
        if self.g(st, "tl") is not None:
            self.classify(st)
        if self.g(st, "sv") is not None:
            self.learn(st)

    def taken_change(self, st, eff, was):
        Attach.taken_change(self, st, eff, was)
