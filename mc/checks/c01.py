from mc.engine import Check
from mc.h5 import HEAVY, Model, Session, legal, new_path, verify, version
from mc.util import Spill, sequences

FULL = [["append", "data"], ["heavy", "data"], ["append", "aux"],
        ["heavy", "aux"], ["write", "data"], ["write", "aux"], ["write2"],
        ["meta"], ["metaK"], ["metaC"], ["metaA"], ["metaN"], ["map"],
        ["reserved"]]
BUFFER = [["append", "data"], ["heavy", "data"], ["append", "aux"],
          ["heavy", "aux"]]
MIXED = [["append", "data"], ["heavy", "data"], ["write", "data"],
         ["append", "aux"], ["metaK"], ["metaC"]]
# frames without values, empty metadata, tables inside groups
OTHER = [["append", "gap"], ["heavy", "gap"], ["write", "gap"],
         ["append", "g/mapping"], ["write", "g/mapping"], ["metaE"], ["metaD"]]
SIZES = [["size", k, b] for k in ("data", "aux")
         for b in (0.14e9, 0.31e9, 0.44e9)]
MANY = [["append", "same"]] * 90


class C01(Check):
    id = "C01"
    level = "model_checking"
    rule = ("distinct final file contents (rows per table, way they were "
            "stored, metadata, mapping) reached by a history")
    assumptions = (
        "PyTables/HDF5 store what they are given; sizes of frames are an "
        "input (memory_usage of marked frames reports 0.6 GB)",
        "a key stored with write is not appended to afterwards (pandas "
        "rejects that), frames are not empty and hold no strings")
    bounds = {
        "quick": "all histories of 14 operations to depth 3 on a fresh path; "
                 "depth 2 from a stale file, a non-HDF5 file and a missing "
                 "directory; all orders of 5 appends (2 tables, light/heavy); "
                 "4 operations of a mixed alphabet of 6; all orders of 4 "
                 "appends of 0.14, 0.31 or 0.44 GB to 2 tables; tables inside "
                 "groups, rows without values; 90 equal frames, 12 tables; a "
                 "stale file of megabytes; finish() called explicitly or by "
                 "the context manager",
        "thorough": "depth 4 (14 operations), 6 appends, 5 of the mixed "
                    "alphabet, depth 3 from the other initial states, 5 "
                    "appends of 6 sizes",
    }

    def cases(self, tier):
        t = tier == "thorough"
        seen = set()
        groups = [("fresh", FULL, 4 if t else 3)]
        for initial in ("stale", "garbage", "nodir"):
            groups.append((initial, FULL, 3 if t else 2))
        groups += [("fresh", MIXED, 5 if t else 4),
                   ("fresh", BUFFER, 6 if t else 5),
                   ("fresh", SIZES, 5 if t else 4),
                   ("fresh", OTHER, 3 if t else 2),
                   ("bigstale", MIXED, 1)]
        out = []
        for initial, alphabet, depth in groups:
            for ops in sequences(alphabet, depth):
                k = (initial, repr(ops))
                if k in seen or not legal(ops):
                    continue
                seen.add(k)
                out.append(dict(initial=initial, ops=list(ops),
                                close="finish" if len(out) % 4 == 3
                                else "with"))
        for initial, ops in (
                ("fresh", MANY), ("stale", MANY[:41]),
                ("fresh", [["append", "t%d" % (i * 5 % 12)]
                           for i in range(24)]),
                ("fresh", [["write", "w%d" % i] for i in range(12)])):
            for close in ("with", "finish"):
                out.append(dict(initial=initial, ops=ops, close=close))
        out.sort(key=lambda c: len(c["ops"]))
        return out

    def setup(self):
        import CHECLabPy.core.io  # noqa: F401

    def run(self, case, ctx):
        from CHECLabPy.core.io import HDF5Writer
        path = new_path(ctx, case["initial"])
        model = Model()
        with Spill(HEAVY) as spill:
            s = Session(ctx, model, spill)
            if case["close"] == "with":
                with HDF5Writer(path) as w:
                    for op in case["ops"]:
                        s.apply(w, op)
            else:
                w = HDF5Writer(path)
                for op in case["ops"]:
                    s.apply(w, op)
                w.finish()
        verify(path, model, version(), ctx)
        ctx.trace()


CHECK = C01()
