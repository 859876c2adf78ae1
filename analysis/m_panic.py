"""C26: nothing that is read from the storage can make the crate's own code panic"""
from base import *
from engine import NSYM, ext_forms, symbols
from m_flash import Flash, C22Decode

QUIET = ("core::slice::as_ptr", "core::slice::as_mut_ptr")


def stored(v):
    """does the value depend on stored content?"""
    if v.__class__ is not tuple and v.__class__ is not frozenset:
        return False
    if v.__class__ is tuple and len(v) > 1 and v[0] == "app" and v[1] in ("data", "decode", "int", "len_with", "bytes_of"):
        return True
    if v.__class__ is tuple and len(v) > 2 and v[0] == "f":
        # a field of an element of the index: copied from a record
        x = v[1]
        while x.__class__ is tuple and x[0] == "f":
            x = x[1]
        if x.__class__ is tuple and x[0] == "new" and x[-1] == "slice":
            return True
    return any(stored(x) for x in v)


def lost(v):
    if v.__class__ is not tuple:
        return False
    return v == TOP or v == ANON or len(v) > 0 and v[0] in ("top", "u") or any(lost(x) for x in v)


class C26(Base):
    def event(self, st, name, *a):
        self.panics(st, name, a)

    def panics(self, st, name, a):
        self.loaded(st, name, a)
        if self.e.unwinding(st):
            return
        if name in ("item", "decode"):
            self.check(st, True, "C26", "stored %s handled" % ("element" if name == "item" else "bytes decoded"), "")
        if name == "unreachable_unchecked":
            self.check(st, self.outside_codes(st), "C26", "unchecked assumption", "a point is assumed to be unreachable")
        if name == "panic":
            self.check(st, False, "C26", "panic", "a call of %s can be reached" % clean(a[0]))
        elif name == "index":
            if a[0] or not self.lost_track(st, *a[1][1:], a[2]):
                self.check(st, a[0], "C26", "index", "an index or range is not known to be within bounds")
        elif name == "get_unchecked":
            n = self.e.nat
            r = a[0][1]
            ok = r[0] in ("i", "s", "n") and n.holds_lt(st, r, n.slice_len(a[0][0], None, st))
            self.check(st, ok, "C26", "unchecked index", "an unchecked index is not known to be within bounds")
        elif name == "opaque" and a[0] not in QUIET and not a[0].startswith("sequential_storage::"):
            # (a function that only ever panics has the type of one, and is reported as a panic)
            g = "%s: call of %s, whose body was not available" % (self.e.entry, a[0])
            if g not in self.e.gaps:
                self.e.gaps.append(g)

    def assert_(self, st, kind, v, want):
        if kind != "overflow" and not self.e.unwinding(st):
            if v[0] == "i" or not self.lost_track(st, v):
                self.check(st, v[0] == "i" and v[1] == want, "C26", "%s check" % kind, "a %s check of the compiler is not known to hold" % kind)

    def lost_track(self, st, *vals):
        """is one of the numbers compared beyond the analysis (a counter with other uses than counting)?"""
        if not any(lost(v) for v in vals):
            return False
        g = "%s: %s: a number that is compared with a bound is not known" % (self.e.entry, self.e.fname(st))
        if g not in self.e.gaps:
            self.e.gaps.append(g)
        return True

    def may_overflow(self, st, a, b):
        return stored(a) or stored(b)

    def arith(self, st, op, a, b):
        if self.e.unwinding(st):
            return
        n = self.e.nat
        if op == "Sub":
            ok = n.in_bounds(st, b, a) or b[0] == "i" and b[1] == 1 and self.positive(st, a)
            if not ok and self.lost_track(st, a, b):
                return
            self.check(st, ok, "C26", "subtraction", "a difference is not known to be non-negative")
        else:
            self.check(st, not stored(a) and not stored(b), "C26", "sum", "a sum of stored numbers may overflow")


    def positive(self, st, a):
        for f in ext_forms(a, symbols(st)):
            if len(f[1]) == 1 and f[1][0][1] == 1 and f[0] >= 0:
                t = f[1][0][0]
                # elements seen so far, when there was one; number of kept records (C27)
                if t == NSYM and st.th["item"] is not None or t[0] == "const" and "::" not in t[1]:
                    return True
        return False


class C26Flash(C26, Flash):
    ENTRY = {"next": "FlashIter<'flash, T, C> as NdlElemIter>::next", "iter_elems": "Flash<T, C> as NdlDataStorage>::iter_elems",
             "invalidate": "FlashNode<'_, '_, '_, T, C> as NdlElemIterNode>::invalidate"}
    setup = Flash.setup


class C26Decode(C26, C22Decode):
    DEFAULTS = C22Decode.DEFAULTS

    def event(self, st, name, *a):
        self.panics(st, name, a)
        C22Decode.event(self, st, name, *a)

    def decoded(self, st, v):
        pass


class C26Data(C26):
    ENTRY = {"from_existing": "SerData::<'a>::from_existing", "key_val": "SerData::<'a>::key_val", "kv_pair": "SerData::<'a>::kv_pair"}
