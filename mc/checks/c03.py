import copy
from mc.engine import Check
from mc.h5 import HEAVY, Model, Session, legal, new_path, verify, version
from mc.util import Spill, expect, sequences

ALPHA = [["append", "data"], ["heavy", "data"], ["append", "aux"],
         ["heavy", "aux"], ["write", "aux"], ["metaK"], ["metaC"], ["map"]]
FLUSH = [["append", "data"], ["heavy", "data"], ["append", "aux"],
         ["heavy", "aux"]]


class Stop(Exception):
    pass


EXC = {"Exception": Stop, "KeyboardInterrupt": KeyboardInterrupt,
       "SystemExit": SystemExit, "MemoryError": MemoryError,
       "StopIteration": StopIteration, "GeneratorExit": GeneratorExit,
       "OSError": OSError, "ValueError": ValueError, "KeyError": KeyError,
       "IndexError": IndexError, "AttributeError": AttributeError,
       "TypeError": TypeError, "RuntimeError": RuntimeError,
       "AssertionError": AssertionError, "ArithmeticError": ZeroDivisionError,
       "Warning": UserWarning}


class C03(Check):
    id = "C03"
    level = "fault_enumeration"
    rule = "distinct (history, fault point, resulting file contents)"
    assumptions = (
        "a failing HDFStore.append fails before it changes the file (no torn "
        "writes inside PyTables); one fault per execution",
        "the rows of the append call that fails may or may not be stored",)
    bounds = {
        "quick": "every history to depth 3 (8 operations), the body of the "
                 "context manager raising after every operation (16 exception "
                 "classes), writer and appender; every history of appends to "
                 "depth 4 with the k-th move of rows to the file failing, for "
                 "every k, during the body and during finish() (finish() is "
                 "then called again)",
        "thorough": "depth 4 and depth 6",
    }

    def cases(self, tier):
        t = tier == "thorough"
        out = []
        for ops in sequences(ALPHA, 4 if t else 3):
            if not legal(ops):
                continue
            for cls in ("writer", "appender"):
                names = sorted(EXC) if len(ops) < 2 else ["Exception"]
                for name in names:
                    out.append(dict(kind="raise", ops=list(ops), exc=name,
                                    cls=cls))
        for ops in sequences(FLUSH, 6 if t else 4, 1):
            for cls in ("writer", "appender"):
                n = sum(o[0] == "heavy" for o in ops) + 2
                for k in range(1, n + 1):
                    out.append(dict(kind="fail", ops=list(ops), k=k, cls=cls))
        for cls in ("HDF5Reader", "DL1Reader"):
            for n in (1, 3):
                out.append(dict(kind="reader", cls=cls, n=n, ops=[]))
        out.sort(key=lambda c: len(c["ops"]))
        return out

    def setup(self):
        import CHECLabPy.core.io  # noqa: F401

    def open(self, cls, path, ctx, model, spill):
        from CHECLabPy.core.io import HDF5Appender, HDF5Writer
        if cls == "writer":
            return HDF5Writer(path), 0, False
        with HDF5Writer(path) as w:
            s = Session(ctx, model, spill, seed0=40)
            s.apply(w, ["append", "data"])
            s.apply(w, ["metaC"])
        return HDF5Appender(path), 0, True

    def run(self, case, ctx):
        if case["kind"] == "reader":
            return self.reader(case, ctx)
        path = new_path(ctx, "fresh")
        model = Model()
        with Spill(HEAVY) as spill:
            w, seed, later = self.open(case["cls"], path, ctx, model, spill)
            s = Session(ctx, model, spill, seed0=seed, later=later)
            if case["kind"] == "raise":
                exc = EXC[case["exc"]]("stop")
                try:
                    with w:
                        for op in case["ops"]:
                            s.apply(w, op)
                        raise exc
                except BaseException as e:
                    if e is not exc:
                        raise
                else:
                    ctx.fail("the exception raised in the body was swallowed")
                verify(path, model, version(), ctx)
                ctx.outcome((repr(case), model.key()))
                return
            self.fail_case(case, ctx, w, s, model, spill, path)

    def fail_case(self, case, ctx, w, s, model, spill, path):
        first = spill.flushes
        spill.fail_at = (first + case["k"],)
        where = None
        without = None
        try:
            with w:
                where = "body"
                for op in case["ops"]:
                    before = copy.deepcopy(model)
                    seed = s.seed
                    try:
                        s.apply(w, op)
                    except OSError:
                        # the failed append: model it as not stored, and as
                        # stored
                        without = before
                        from mc.h5 import frame
                        model.append(op[1], frame(op[1], seed + 1),
                                     op[0] == "heavy")
                        raise
                where = "finish"
        except OSError as e:
            expect("injected" in str(e), lambda: "another error: %r" % e)
            failed = True
        else:
            failed = False
        if spill.flushes < first + case["k"]:
            # the fault point does not exist in this history
            verify(path, model, version(), ctx)
            return
        expect(failed, "an error while rows were moved to the file (%s) was "
               "swallowed" % where)
        ctx.outcome((repr(case), where))
        if where == "finish":
            w.finish()
            verify(path, model, version(), ctx)
        else:
            from mc.engine import Violation
            try:
                verify(path, model, version(), ctx)
            except Violation:
                verify(path, without, version(), ctx)

    def reader(self, case, ctx):
        from CHECLabPy.core.io import HDF5Writer, HDF5Appender, DL1Reader
        from CHECLabPy.core.io import HDF5Reader
        from mc.h5 import frame
        path = new_path(ctx, "fresh")
        cls = dict(HDF5Reader=HDF5Reader, DL1Reader=DL1Reader)[case["cls"]]
        with HDF5Writer(path) as w:
            w.append(frame("data", 2))
        for i in range(case["n"]):
            exc = Stop("x")
            try:
                with cls(path) as r:
                    if i % 2 == 0:
                        r.get_n_rows("data") if cls is HDF5Reader else r.n_rows
                    raise exc
            except Stop as e:
                expect(e is exc, "another exception")
            else:
                ctx.fail("the exception was swallowed")
            with HDF5Appender(path) as a:  # needs the file to be closed
                a.append(frame("data", 3))
            ctx.ev()
        with HDF5Reader(path) as r:
            expect(r.get_n_rows("data") == 3 + case["n"], "rows lost")


CHECK = C03()
