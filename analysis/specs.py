"""which analyses decide which property"""
import importlib
import time

from m_unchecked import ListJob
from witness import WitnessJob


class CheckError(Exception):
    pass


# build configurations of the crate
CONFIGS = {
    "core": ["--no-default-features"],
    "default": [],
    "std": ["--features", "std"],
    "defmt": ["--features", "defmt"],
    # without debug assertions, as in a release build (overflow checks stay: they are C26's)
    "release": ["--no-default-features", "--config", "profile.dev.debug-assertions=false", "--config", "profile.dev.overflow-checks=true"],
}


class Job:
    """one abstract interpretation: a monitor on an entry point in a build configuration"""

    def __init__(self, module, cls, entry, config="core", over=None):
        self.module, self.cls, self.entry, self.config, self.over = module, cls, entry, config, over

    def __str__(self):
        return "%s on %s (%s)" % (self.cls, self.entry, self.config)

    def run(self, p, a, r):
        from engine import AnalysisError, Engine
        mod = importlib.import_module(self.module)
        m = getattr(mod, self.cls)(p, a, self.entry)
        e = Engine(p, m)
        if hasattr(m, "setup"):
            m.setup(e)
        t = time.time()
        e.run_entry(getattr(m, "DYN", None) or getattr(m, "ENTRY", {}).get(self.entry, self.entry))
        r.gaps = list(e.gaps)
        if hasattr(m, "finish"):
            try:
                m.finish(e)
            except AnalysisError:
                if not r.gaps:
                    raise
            r.gaps = list(e.gaps)
        for (rule, fn, f, construct), (n, fails) in m.obligations.items():
            r.obligations.append((rule, fn, f, construct, n, fails))
        r.violations = list(e.violations.values())
        r.stats = {"entry": e.entry, "config": self.config, "states": e.nstates, "exits": dict(e.exits),
                   "events": {k: v for k, v in sorted(e.events_seen.items())}, "wall_s": round(time.time() - t, 2)}


class PubJob:
    """the same monitor on every other function through which a user can reach list, node or handle"""

    def __init__(self, module, cls, config="core", only=None):
        self.module, self.cls, self.config, self.only = module, cls, config, only

    def __str__(self):
        return "%s on the public functions of list, node and handle (%s)" % (self.cls, self.config)

    def entries(self, p, a):
        out = []
        for r in p.roots:
            path = r["path"].replace("cfg_noodle::", "")
            if r["file"].endswith("worker_task.rs") or any(path.endswith("::" + o) for o in OPS) or "core::fmt" in path:
                continue
            b = p.body(r["inst"])
            if b is None:
                continue
            roles = set()
            for i in range(1, b.argc + 1):
                t = p.types[b.locals[i][0]]
                to = t.get("to", t.get("elem"))
                if t["k"] in ("ref", "ptr"):
                    for n, s in (("list", a.list), ("node", a.node_pub), ("handle", a.handle)):
                        if to in s:
                            roles.add(n)
            if roles and (r["pub"] or path.endswith("drop")) and (self.only is None or self.only in path):
                out.append(r["path"])
        return out

    def run(self, p, a, r):
        es = self.entries(p, a)
        if len(es) < 1:
            raise CheckError("no public functions found")
        wall = 0
        tot = {"entry": es, "config": self.config, "states": 0, "exits": {}, "events": {}}
        for en in es:
            j = Job(self.module, self.cls, en, self.config)
            x = type(r)()
            j.run(p, a, x)
            r.obligations += x.obligations
            r.violations += x.violations
            r.gaps = getattr(r, "gaps", []) + x.gaps
            tot["states"] += x.stats["states"]
            for k in ("exits", "events"):
                for n, c in x.stats[k].items():
                    tot[k][n] = tot[k].get(n, 0) + c
            wall += x.stats["wall_s"]
        r.stats = dict(tot, wall_s=round(wall, 2))


class ScanJob:
    """a rule on the syntax of all functions and types of the crate (MIR before interpretation)"""

    def __init__(self, module, fn, config="core"):
        self.module, self.fn, self.config = module, fn, config

    def __str__(self):
        return "%s on all functions of the crate (%s)" % (self.fn, self.config)

    def run(self, p, a, r):
        obs, self.r = {}, r

        def ob(rule, construct, fn, ok, msg, file="-", line=None):
            o = obs.setdefault((rule, fn, file, construct), [0, 0])
            o[0] += 1
            if not ok:
                o[1] += 1
                r.violations.append({"rule": rule, "file": file, "line": line, "function": fn, "construct": construct, "message": msg, "path": []})
        r.ob = ob
        (getattr(self, "fn_", None) or getattr(importlib.import_module(self.module), self.fn))(p, a, r)
        del r.ob
        r.obligations += [k + tuple(o) for k, o in obs.items()]
        r.stats = {"entry": "all functions", "config": self.config, "functions": sum(1 for _ in p.local_bodies())}


class CompareJob(ScanJob):
    """the functions of two builds of the crate, compared with each other"""

    def __init__(self, other, config="core"):
        self.other, self.config, self.also = other, config, (other,)

    def __str__(self):
        return "comparison of configurations %s and %s" % (self.config, self.other)

    def fn_(self, p, a, r):
        import base
        import m_config
        m_config.compare(p, base.Program(self.dumps[self.other]), self.other, self.other == "release", r)

    module, fn = "m_config", "compare"


class OrderJob(ScanJob):
    """the index of good records with a number of places, over all orders of sequence numbers"""

    def __init__(self, places, config="core", only=None, rule="C31"):
        self.places, self.config, self.only, self.rule = places, config, only, rule

    def __str__(self):
        return "index with up to %d places (%s)" % (self.places, self.config)

    def fn_(self, p, a, r):
        import m_order
        gaps, states = [], {}
        for n in range(1, self.places + 1):
            states[n] = m_order.order(p, a, r, n, self.only, self.rule)
            gaps += [g for g in r.gaps if g not in gaps]
        r.gaps = gaps
        r.notes.append("index contents up to renaming, by number of places: %s" % states)

    module, fn = "m_order", "order"


class Spec:
    def __init__(self, rule, jobs, required=(), level="other", assumptions=(), explain=None, thorough=None, technique=None, note=None):
        self.technique = technique or "abstract interpretation of MIR with a property automaton (typestate)"
        self.note = note or NOTE
        self.rule, self._jobs, self.required, self.level = rule, jobs, required, level
        self.assumptions = list(assumptions) + BASE_ASSUMPTIONS
        self.explain = explain or EXPLAIN
        self.thorough = thorough

    def jobs(self, tier):
        js = self._jobs("core")
        if tier == "thorough":
            for c in self.thorough if self.thorough is not None else ("default", "std", "defmt"):
                js += self._jobs(c)
        return js


BASE_ASSUMPTIONS = [
    "The storage passed in follows the contract documented at NdlDataStorage (order of elements, no spontaneous invalidation).",
    "Library types used by the crate (mutex, intrusive list, wait queue, crc, minicbor, core) behave as documented; the analysis knows them by summaries in analysis/natives.py.",
    "No memory corruption: unsafe code outside of the crate is sound.",
]
EXPLAIN = (
    "Abstract interpretation of the type-checked program (MIR after drop elaboration, async bodies included) of every function reachable from the "
    "entries listed, over all paths, all outcomes of every storage call, all points at which the future can be dropped and all unwinding calls. "
    "A finite automaton for the property runs along; each obligation below is one (program point, abstract state) at which its rule was decided."
)
NOTE = (
    "Sound over-approximation of all paths, error outcomes, cancellation and unwinding points of the analysed functions, relative to the summaries "
    "of library functions in analysis/natives.py, the storage contract and the anchors (types and roles) recognised in analysis/base.py."
)
COMPARE = (
    "The type-checked programs (MIR as built, async bodies included) of two builds of the current crate are compared function by function, after a sound reduction of both: calls into "
    "the logging and formatting libraries, computations without effects whose results nothing else uses, and branches that then decide nothing are removed; the rest must be the same "
    "graph, statement for statement, up to the names of temporaries. Closures and futures are compared with the function that builds them. Nothing is run."
)
WITNESS = (
    "Each witness is a program, generic in value type, lock type and number of records wherever the rule is, that does what the property forbids; rustc's type and borrow "
    "checker must reject it on the current crate, and must accept its twin, which differs only in the forbidden part. Nothing is run."
)
WITNESS_NOTE = (
    "The compiler decides each witness for all instantiations of its type parameters; what safe programs can do beyond the listed witnesses is covered "
    "as far as the scan of public fields and signatures reaches."
)
ORDER = (
    "The functions that put a record into the index are interpreted (MIR, library code included) over an order domain: sequence numbers are known only by their place in a total preorder, "
    "so one abstract index stands for all indices with the same order of numbers. All contents reachable from the empty index by any sequence of insertions are computed as a fixpoint, "
    "for each number of places up to the bound; after each insertion, the obligations below are decided."
)
ORDER_NOTE = (
    "Exact for all sequence numbers (apart from overflow of the last one) and all sequences of insertions, for the numbers of places given in the notes (the crate's default is among them); "
    "larger indices are not covered. That only these functions change the index is not part of the check; code the interpretation cannot follow is listed as not followed."
)
NOT_APPLICABLE = {
    "C32": "end-to-end equality of stored and returned values runs through the user's Encode/Decode implementations and the flash driver: no static argument in reach bounds them; its parts inside the crate are C03, C04, C13, C22, C29",
    "C33": "a bound on flash wear is a statement about counts over an unbounded history of requests and about the flash driver's erase policy",
}
OPS = ("process_reads", "process_writes", "process_garbage")


def ops(module, cls, entries=OPS):
    return lambda config: [Job(module, cls, e, config) for e in entries]


def pub(module, cls, entries=(), only=None):
    return lambda config: [Job(module, cls, e, config) for e in entries] + [PubJob(module, cls, config, only)]


def index(pid, construct):
    """the storage operations, and the part of the index they rely on"""
    return lambda c: ops("m_storage", pid)(c) + [OrderJob(3, c, construct, pid)]


SPECS = {
    "C01": Spec("a record is accepted only by the start/data/end/crc automaton", index("C01", "newest record read"), required=['write record accepted']),
    "C02": Spec("the index is published only after a complete scan", lambda c: ops("m_storage", "C02")(c) + [PubJob("m_storage", "C02Pub", c)], required=['lock released with the storage regarded as known', 'value handed out', 'key reported absent', 'element stored']),
    "C03": Spec("the pushes of a write follow start, data*, end with the running checksum", ops("m_storage", "C03"), required=['start element stored', 'data element stored', 'end element stored', 'checksum of the end', 'sequence number of the end']),
    "C04": Spec("each node contributes its serialized value exactly if it holds one", ops("m_storage", "C04"), required=['data stored', 'record ended', 'node serialized', 'node left by the traversal']),
    "C05": Spec("ValidNoWriteNeeded only after the verifying read", ops("m_storage", "C05"), required=['pending change cleared', 'write reported successful']),
    "C07": Spec("the first push is dominated by the refusal checks and carries the next number", index("C07", "next number follows the highest"), required=['write started', 'sequence number used', 'write refused until read', 'write refused until cleanup']),
    "C08": Spec("needs_gc is set before the first push and cleared only by a finished cleanup", lambda c: ops("m_storage", "C08")(c) + [PubJob("m_storage", "C08", c)], required=['lock released after a write attempt', 'lock released after a scan']),
    "C09": Spec("the cleanup keeps exactly decodable elements within kept records", index("C09", "newest records kept"), required=['element kept', 'element removed', 'reason for the removal']),
    "C10": Spec("the index is taken before the first removal", ops("m_storage", "C10"), required=['element removed', 'cleanup reported successful']),
    "C11": Spec("every storage error reaches the caller with its kind", ops("m_storage", "C11"), required=['result after a read error', 'result after a write error']),
    "C12": Spec("NonResident is only set after the scan went through all data of the newest record", ops("m_storage", "C12"), required=['node declared absent', 'value declared absent']),
    "C13": Spec("values are taken from the newest good record under the node's own key", ops("m_storage", "C13"), required=['node filled', 'source of the value', 'node declared valid']),
    "C06": Spec("every use of the list, of a node's value and state is dominated by holding the list's lock", pub("m_node", "C06", OPS), required=['list of nodes used', 'node state changed', 'node value changed', 'node linked or unlinked', 'node value serialized or filled']),
    "C14": Spec("initialization typestate of each node's value", pub("m_node", "C14", OPS[:2]), required=['value read', 'value dropped', 'value stored', 'handle handed out', 'value serialized', 'value filled from the storage', 'first value published']),
    "C15": Spec("ownership typestate of the node's taken mark on every way out", pub("m_node", "C15"), required=['node taken', 'node released', 'node freed', 'handle handed out']),
    "C35": Spec("the counters reported equal the sums of the sizes of the elements handled; sizes and limits follow from the flash geometry",
                lambda c: ops("m_storage", "C35")(c) + [Job("m_flash", "C35Size", x, c) for x in ("len", "push", "check")] + [ScanJob("m_flash", "limits", c)],
                required=['size of an element', 'size of an appended element', 'size check', 'size limit', 'forwarded size limit', 'total_bytes_read', 'current_bytes_read', 'current_bytes_written', 'post_collection_bytes_read', 'total_bytes_popped']),
    "C36": Spec("the value shown is the one written, stored or made by the caller's function", pub("m_node", "C36"), required=['value replaced', 'value left alone', 'value shown', 'first value']),
    "C37": Spec("memory ordering of every change of the node's taken mark", pub("m_node", "C37"), required=['node taken', 'node released', 'node freed']),
    "C16": Spec("linking is dominated by a full key search in the same hold of the lock", pub("m_node", "C16"), required=['node linked after the search', 'attach refused', 'duplicate key reported']),
    "C17": Spec("order of detach steps", pub("m_node", "C17"), required=['node unlinked', 'value dropped', 'state reset', 'node made attachable', 'detach refused', 'detach successful']),
    "C18": Spec("signal after effect on every successful path", pub("m_node", "C18", OPS[:1]), required=['read finished', 'attach waits', 'attach successful', 'change successful']),
    "C20": Spec("consumed requests are remembered until their operation starts", lambda c: [Job("m_worker", "C20", e, c) for e in ("default_worker_task", "no_op_worker_task")], required=["wait for a read request", "wait for a write request", "read request handled", "write request handled"]),
    "C21": Spec("refused writes are repeated after what they asked for; flush at stop; cleanup after writes", lambda c: [Job("m_worker", "C21", "default_worker_task", c)], required=["write repeated", "end of a write attempt", "wait after a write", "worker stopped"]),
    "C34": Spec("requests are handled only after the documented time without further ones", lambda c: [Job("m_worker", "C34", "default_worker_task", c)],
                required=["wait for further read requests", "wait for further write requests", "delay of the first cleanup", "reads processed", "writes processed", "first cleanup"]),
    "C38": Spec("bounded passes, no undocumented waits, every loop makes progress", lambda c: ops("m_live", "C38")(c) + [PubJob("m_live", "C38Pub", c)] +
                [Job("m_live", "C38Worker", "default_worker_task", c), ScanJob("m_live", "loops", c)],
                technique="abstract interpretation of MIR with a property automaton, and a progress rule on the control-flow graph of every loop",
                required=["pass over the storage", "next element requested", "operation ends", "wait of a function", "function ends", "operation of the worker", "loop"]),
    "C39": Spec("errors returned without a failed storage access have a reason, and name it", lambda c: ops("m_errors", "C39")(c) + [PubJob("m_errors", "C39Node", c)],
                required=["failed read", "failed verification", "value refused", "node reported taken", "node reported in another list", "state reported invalid"]),
    "C40": Spec("every record found good is put into the index", ops("m_storage", "C40"), required=["scan goes on", "run of elements rejected", "write successful"]),
    "C22": Spec("bytes of every element as stored and as decoded", lambda c: [Job("m_flash", "C22Encode", "encode", c), Job("m_flash", "C22Decode", "decode", c)] +
                [Job("m_flash", "C22Data", x, c) for x in ("new", "from_existing", "key_val", "hdr")] + [Job("m_flash", "C22Crc", x, c) for x in ("crc", "process_reads", "process_writes")],
                required=["checksum algorithm", "start element encoded", "data element encoded", "end element encoded", "item decoded to start", "item decoded to data", "item decoded to end",
                          "item rejected", "sequence number decoded", "checksum decoded", "data element made", "type byte of a data element", "key and value of a data element"]),
    "C23": Spec("one queue operation per storage operation, results passed on", lambda c: [Job("m_flash", "C23", x, c) for x in ("push", "iter_elems", "next", "invalidate", "fwd_push", "fwd_iter")],
                required=["append", "iteration", "next item", "removal", "overwriting of old data", "end of the iteration", "item of the iteration", "result of the append",
                          "result of the iteration", "result of the next item", "result of the removal"]),
    "C19": Spec("the lock is not taken twice and not held across waits", pub("m_node", "C19", OPS), required=['lock acquired', 'element removed', 'wait for another task']),
    "C26": Spec("panicking calls, compiler checks and unchecked indices on the paths that handle stored bytes", lambda c: [Job("m_panic", "C26", o, c) for o in ("process_reads", "process_garbage", "process_writes")] +
                [Job("m_panic", "C26Decode", "decode", c)] +
                [Job("m_panic", "C26Flash", x, c) for x in ("next", "iter_elems", "invalidate")] + [Job("m_panic", "C26Data", x, c) for x in ("from_existing", "key_val", "kv_pair")],
                required=["stored element handled", "stored bytes decoded handled"]),
    "C28": Spec("the type-erased view of a node is used only with the node's own type", lambda c: [ScanJob("m_codec", "scan", c), Job("m_codec", "C28New", "new", c)] +
                [Job("m_codec", "C28Fn", x, c) for x in ("serialize", "deserialize")] + [Job("m_codec", "C28Attach", x, c) for x in ("attach", "attach_with_default")],
                required=["node layout", "functions of a new node", "value read", "value written", "pointer linked into the list"]),
    "C29": Spec("what is stored is what was encoded, and decoding failures stay with their node", lambda c: [Job("m_codec", "C29Ser", "serialize", c), Job("m_codec", "C29De", "deserialize", c),
                Job("m_codec", "C29Write", "process_writes", c), Job("m_codec", "C29Read", "process_reads", c)],
                required=["length of the value", "bytes decoded", "value stored once", "extent of the data element", "result after a failed serialization"]),
    "C30": Spec("the reduced program of every function is the same in all configurations", lambda c: [CompareJob(o) for o in ("std", "defmt", "release")] if c == "core" else [CompareJob(c)],
                thorough=("default",), technique="structural comparison of sliced MIR across build configurations", explain=COMPARE,
                note="Unwinding paths are not compared; for the release build, branches that only lead to a panic are removed on both sides. Dependencies' own feature differences are outside.",
                required=["same operations in configuration std", "same operations in configuration defmt", "same operations in configuration release"]),
    "C31": Spec("the index holds the newest records and knows the highest number after every insertion", lambda c: [OrderJob(4 if c == "core" else 5, c)],
                technique="abstract interpretation of MIR over an order domain, fixpoint over all index contents", explain=ORDER, note=ORDER_NOTE,
                required=["newest records kept", "next number follows the highest", "newest record read"]),
    "C24": Spec("witness programs that cross threads are rejected by the type checker, their twins accepted", lambda c: [WitnessJob("C24", c)],
                thorough=("default", "std"), technique="compile-fail witnesses (type-level)", note=WITNESS_NOTE, explain=WITNESS),
    "C25": Spec("witness programs that alias or dangle are rejected by the type or borrow checker, their twins accepted", lambda c: [WitnessJob("C25", c), ScanJob("m_codec", "api", c)],
                thorough=("default", "std"), technique="compile-fail witnesses (type-level) and a scan of the public interface", note=WITNESS_NOTE, explain=WITNESS,
                required=["fields of a public type", "signature of a public function"]),
    "C27": Spec("values that reach unchecked conversions are within their domain", lambda c: [ScanJob("m_unchecked", "codes", c), ListJob(c), Job("m_unchecked", "C27Node", "node", c)] +
                [Job("m_unchecked", "C27Data", x, c) for x in ("new", "from_existing", "hdr", "key_val")] + pub("m_unchecked", "C27", OPS)(c),
                required=["number of a node state", "state of a number", "number stored as a state", "state of a new node", "list made", "data element made"]),
}
