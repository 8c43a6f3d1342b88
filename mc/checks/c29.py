"""File utilities: directories, run lists, natural order, HV settings."""
import itertools
import os
import re
import shutil
import numpy as np
from mc.engine import Check
from mc.util import Env, expect, lcg, raises
from mc.wf import Tio

NAMES = ["r2.tio", "r10.tio", "r1.tio", "r010.h5", "r2b.tio", "a",
         "Run00099_r1.tio", "Run00100_r1.tio", "Run100_r1.tio",
         "d_2019-11-02.dat", "d_2019-2-11.dat", "d_20180101T000000.dat",
         "/x9/y2", "/x10/y1", "", "7", "07", "x", "r", "r2",
         "r15000000000010", "r1500000000002", "r99999999999999999999"]


def split(name):
    """text and number pieces, by hand"""
    out, cur, digit = [], "", False
    for c in name:
        d = c in "0123456789"
        if d != digit:
            out.append(int(cur) if digit else cur)
            cur, digit = "", d
        cur += c
    out.append(int(cur) if digit else cur)
    if digit:
        out.append("")
    return out


class C29(Check):
    id = "C29"
    level = "model_checking"
    rule = "distinct (file content or list, result) and schedules of mkdir"
    assumptions = ("names use the digits 0-9",
                   "another process creates directories between two file "
                   "system calls, not inside one")
    bounds = {
        "quick": "every list of up to 3 out of 23 names; every order of 7; "
                 "every subset of parent directories created by another "
                 "process before every file system call; run lists of up to "
                 "4 runs with comments, of 3 with repetition; every module x superpixel of an HV "
                 "file, all sequences of 3 out of 7 kinds of line",
        "thorough": "lists of 4, orders of 8, sequences of 5 lines"}

    def setup(self):
        import CHECLabPy.utils.files  # noqa: F401
        import CHECLabPy.core.io  # noqa: F401

    def cases(self, tier):
        t = tier == "thorough"
        n = len(NAMES)
        out = [dict(kind="sort", first=[i], more=3 if t else 2)
               for i in range(n)]
        out += [dict(kind="perm", n=8 if t else 7, first=i)
                for i in range(8 if t else 7)]
        out += [dict(kind="mkdir", depth=d, have=h, how=how)
                for d in (1, 2, 3, 4) for h in range(d + 1)
                for how in ("abs", "rel", "slash")]
        out += [dict(kind="mkdir_none")]
        out += [dict(kind="runs", runs=list(r))
                for k in (1, 2, 3, 4)
                for r in itertools.permutations((3, 43, 9999, 123456), k)]
        out += [dict(kind="repeated", runs=list(r)) for k in (2, 3)
                for r in itertools.product((7, 43, 10000), repeat=k)]
        out += [dict(kind="hv_grid", lo=lo) for lo in range(0, 32, 8)]
        out += [dict(kind="hv_lines", first=i, more=4 if t else 2)
                for i in range(7)]
        return out

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.trace()

    def order(self, names, ctx):
        from CHECLabPy.utils.files import natural_keys, sort_file_list
        given = list(names)
        got = sort_file_list(given)
        expect(got is given or got == given, "the list given is not the one "
               "sorted")
        want = sorted(names, key=split)
        expect([split(g) for g in got] == [split(w) for w in want]
               and sorted(got) == sorted(names), lambda:
               "order of %s: %s, expected %s" % (names, got, want))
        expect(sorted(names, key=natural_keys) == want, lambda:
               "sorting %s with natural_keys" % (names,))
        ctx.ev()
        ctx.step()
        return got

    def sort(self, case, ctx):
        for k in range(case["more"] + 1):
            for rest in itertools.product(range(len(NAMES)), repeat=k):
                names = [NAMES[i] for i in case["first"] + list(rest)]
                got = self.order(names, ctx)
                ctx.outcome(tuple(got))
        ctx.state(case["first"][0])

    def perm(self, case, ctx):
        names = ["run%d_f%d" % (r, f) for r, f in (
            (9, 1), (9, 10), (10, 2), (100, 0), (9, 2), (11, 30), (8, 99),
            (10, 11))][:case["n"]]
        first = names.pop(case["first"])
        want = None
        for p in itertools.permutations(names):
            got = self.order([first] + list(p), ctx)
            want = want or got
            expect(got == want, "the order depends on the order given")
        ctx.outcome(tuple(want))

    # ---- directories
    def mkdir(self, case, ctx):
        """another process creates parents before any system call"""
        from CHECLabPy.utils.files import create_directory
        depth, have = case["depth"], case["have"]
        here = os.getcwd()
        real_mkdir, real_stat = os.mkdir, os.stat
        names = ["d%d" % i for i in range(depth)]

        def execution(call, upto, call2=None, upto2=None):
            root = os.path.dirname(ctx.path())
            os.chdir(root)
            try:
                levels = [os.path.join(root, *names[:i + 1])
                          for i in range(depth)]
                for lv in levels[:have]:
                    real_mkdir(lv)
                keep = None
                if have:
                    keep = os.path.join(levels[have - 1], "keep")
                    with open(keep, "w") as f:
                        f.write("x")
                arg = levels[-1]
                if case["how"] == "rel":
                    arg = os.path.join(*names)
                elif case["how"] == "slash":
                    arg += "/"
                n = [0]

                def other():
                    """the other process runs before call number n"""
                    for c, u in ((call, upto), (call2, upto2)):
                        if c == n[0]:
                            for lv in levels[:u]:
                                try:
                                    real_mkdir(lv)
                                except FileExistsError:
                                    pass
                    n[0] += 1

                def mine(path):
                    p = os.path.abspath(os.fspath(path))
                    return p == root or p.startswith(root + os.sep)

                def mkdir(path, *a, **k):
                    if mine(path):
                        other()
                    return real_mkdir(path, *a, **k)

                def stat(path, *a, **k):
                    if isinstance(path, (str, os.PathLike)) and mine(path):
                        other()
                    return real_stat(path, *a, **k)
                err = None
                with Env((os, "mkdir", mkdir), (os, "stat", stat)):
                    try:
                        create_directory(arg)
                    except OSError as e:
                        err = e
                what = ("%d of %d directories exist, another process creates "
                        "the first %s before system call %s" % (
                            have, depth, upto, call))
                expect(err is None, lambda: "%s: %r" % (what, err))
                expect(os.path.isdir(levels[-1]), what + ": not created")
                expect(os.listdir(levels[-1]) == (
                    ["keep"] if have == depth else []),
                    what + ": something else was created")
                if keep:
                    with open(keep) as f:
                        expect(f.read() == "x", "content was changed")
                create_directory(arg)   # again: nothing to do
                ctx.ev()
                ctx.step(n[0])
                ctx.outcome((depth, have, call, upto, call2, upto2))
                return n[0]
            finally:
                os.chdir(here)
                shutil.rmtree(root)

        total = execution(-1, 0)
        for upto in range(have + 1, depth + 1):
            call = 0
            while call < total + 4:
                n = execution(call, upto)
                if call >= n:
                    break
                call += 1
        # the other process creates them in two steps
        for a in range(have + 1, depth):
            for c1 in range(total):
                for c2 in range(c1 + 1, total + 1):
                    execution(c1, a, c2, depth)
        ctx.state((depth, have))

    def mkdir_none(self, case, ctx):
        from CHECLabPy.utils.files import create_directory
        d = os.path.dirname(ctx.path())
        here = os.getcwd()
        os.chdir(d)
        try:
            for x in ("", None, ".", d):
                create_directory(x)
                expect(os.listdir(d) == [], "created something for %r" % x)
                ctx.ev()
        finally:
            os.chdir(here)
        ctx.outcome("none")

    # ---- run lists
    def write_list(self, path, runs, variant):
        rows = {r: (round(1.5 * i + 0.21, 2), 100.01 * i + r % 7, 70001 + i,
                    i)
                for i, r in enumerate(runs)}
        lines = ["run attenuation illumination n_events fw"]
        if variant == "comments":
            lines.insert(0, "# a comment")
        for r in runs:
            lines.append("%d %s %s %d %d" % ((r,) + rows[r]))
            if variant == "comments":
                lines.append("# %d 0 0 0 0" % (r + 1))
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        return rows

    def runs(self, case, ctx):
        from CHECLabPy.utils import files as fu
        runs = case["runs"]
        cols = ["attenuation", "illumination", "n_events", "fw"]
        for variant in ("plain", "comments"):
            d = os.path.dirname(ctx.path())
            path = os.path.join(d, "runlist.txt")
            rows = self.write_list(path, runs, variant)

            def table(df, what, cols=cols):
                expect(list(df.index) == runs, lambda: "%s: runs %s, expected"
                       " %s" % (what, list(df.index), runs))
                for j, c in enumerate(cols):
                    for r in runs:
                        w = rows[r][j]
                        expect(abs(float(df.loc[r, c]) - w) < 1e-6 + 2e-7 * w,
                               lambda: "%s: %s of run %d is %r" % (
                                   what, c, r, df.loc[r, c]))
                        ctx.ev()
            table(fu.read_runlist(path), "read_runlist")
            with open(path) as f:
                body = "".join(x for x in f if not x.startswith("run"))
            old = os.path.join(d, "old.txt")
            with open(old, "w") as f:
                f.write(body)
            df = fu.read_runlist_old(old)
            table(df, "read_runlist_old")
            expect(all(isinstance(v, str) for v in df["fw"]),
                   "filter wheel positions are text")
            expect(list(df.columns) == cols, "columns of the old run list")
            # the files of the runs lie beside the list
            for r in runs:
                Tio(os.path.join(d, "Run%05d_r1.tio" % r), 8, seed=r)
            for max_events in (None, 2):
                df = fu.open_runlist_r1(path, max_events=max_events)
                table(df, "open_runlist_r1")
                for r in runs:
                    want = os.path.join(d, "Run%05d_r1.tio" % r)
                    expect(df.loc[r, "path"] == want, lambda: "path of run "
                           "%d: %s" % (r, df.loc[r, "path"]))
                    reader = df.loc[r, "reader"]
                    expect(reader.n_events == (max_events or 5), lambda:
                           "run %d has %s events" % (r, reader.n_events))
                    expect(np.array_equal(
                        np.asarray(reader[1]), self.samples(r)),
                        "run %d opens another file" % r)
            df = fu.open_runlist_r1(path, open_readers=False)
            table(df, "open_runlist_r1 without readers")
            expect("reader" not in df.columns, "readers were opened")
            # a list that is a link lies where the link is
            link = os.path.join(d, "links", "list.txt")
            os.makedirs(os.path.dirname(link), exist_ok=True)
            if not os.path.exists(link):
                os.symlink(path, link)
            for f, name in ((fu.open_runlist_r1, "Run%05d_r1.tio"),
                            (fu.open_runlist_dl1, "Run%05d_dl1.h5")):
                df = f(link, open_readers=False)
                table(df, "through a link")
                for r in runs:
                    expect(df.loc[r, "path"] == os.path.join(
                        d, "links", name % r), lambda: "path of run %d "
                        "through a link: %s" % (r, df.loc[r, "path"]))
            self.dl1(d, path, runs, table)
            ctx.step(5)
        ctx.state(tuple(runs))
        ctx.outcome(tuple(runs))

    def repeated(self, case, ctx):
        """a run that the list has more than once"""
        from CHECLabPy.utils import files as fu
        runs = case["runs"]
        d = os.path.dirname(ctx.path())
        path = os.path.join(d, "runlist.txt")
        with open(path, "w") as f:
            f.write("run attenuation illumination n_events fw\n")
            for i, r in enumerate(runs):
                f.write("%d %s %d 5 %d\n" % (r, 0.5 * i, 3 * i, i))
        for r in set(runs):
            Tio(os.path.join(d, "Run%05d_r1.tio" % r), 8, seed=r)
        for opened in (False, True):
            for df in (fu.open_runlist_r1(path, opened), fu.read_runlist(
                    path), fu.open_runlist_dl1(path, False)):
                expect(list(df.index) == runs, lambda: "runs %s, expected %s"
                       % (list(df.index), runs))
                for i, r in enumerate(runs):
                    row = df.iloc[i]
                    expect(row["attenuation"] == 0.5 * i
                           and row["illumination"] == 3 * i
                           and row["fw"] == i, lambda: "row %d of %s is %s" %
                           (i, runs, dict(row)))
                    if "path" in df:
                        expect(os.path.basename(row["path"]).startswith(
                            "Run%05d_" % r), lambda: "row %d of %s: path %s"
                            % (i, runs, row["path"]))
                    if "reader" in df:
                        expect(np.array_equal(np.asarray(row["reader"][1]),
                                              self.samples(r)),
                               "row %d of %s opens another file" % (i, runs))
                    ctx.ev()
        ctx.outcome(("repeated", tuple(runs)))

    def samples(self, seed):
        base = lcg(64 * 4, seed, 0, 60).reshape(64, 4)
        return ((base + 300) * 0.25 - 3).astype(np.float32)

    def dl1(self, d, path, runs, table):
        from CHECLabPy.utils import files as fu
        from mc.checks.c05 import event
        from CHECLabPy.core.io import HDF5Writer
        from mc import red
        df = fu.open_runlist_dl1(path, open_readers=False)
        table(df, "open_runlist_dl1 without readers")
        expect("reader" not in df.columns, "readers were opened")
        for r in runs:
            want = os.path.join(d, "Run%05d_dl1.h5" % r)
            expect(df.loc[r, "path"] == want, "path of run %d" % r)
        if len(runs) > 2:
            return
        for r in runs:
            with HDF5Writer(os.path.join(d, "Run%05d_dl1.h5" % r)) as w:
                w.append(event(r, 4, 0), key="data")
                w.add_metadata(key="data", n_events=1, n_pixels=4)
                w.add_mapping(red.mapping(64))
        df = fu.open_runlist_dl1(path)
        table(df, "open_runlist_dl1")
        for r in runs:
            reader = df.loc[r, "reader"]
            got = reader.load_entire_table()
            expect((got["iev"] == r).all() and len(got) == 4,
                   "run %d opens another file" % r)

    # ---- HV settings
    def hv_grid(self, case, ctx):
        from CHECLabPy.utils.files import extract_hv_cfg
        path = ctx.path("hv.cfg")
        for tm in range(case["lo"], case["lo"] + 8):
            for sp in range(16):
                with open(path, "w") as f:
                    f.write("M:%d/F/S:%d|HV=%d\n" % (tm, sp, 7 + tm * 16 + sp)
                            if (tm + sp) % 2 else
                            "M:%d/F/S:%d|HVOn=1\n" % (tm, sp))
                dac, on = extract_hv_cfg(path)
                wd = np.zeros((32, 16), int)
                wo = np.zeros((32, 16), int)
                if (tm + sp) % 2:
                    wd[tm, sp] = 7 + tm * 16 + sp
                else:
                    wo[tm, sp] = 1
                expect(np.array_equal(dac, wd) and np.array_equal(on, wo),
                       lambda: "module %d superpixel %d" % (tm, sp))
                ctx.ev()
                ctx.outcome((tm, sp))
        # a complete file, in several orders
        lines = ["M:%d/F/S:%d|HV=%d" % (tm, sp, (tm * 31 + sp * 7) % 256)
                 for tm in range(32) for sp in range(16)]
        lines += ["M:%d/F/S:%d|HVOn=%d" % (tm, sp, (tm + sp) % 3 > 0)
                  for tm in range(32) for sp in range(16)]
        for o in (lines, lines[::-1], lines[::2] + lines[1::2]):
            with open(path, "w") as f:
                f.write("\n".join(o))
            dac, on = extract_hv_cfg(path)
            g = np.arange(32)[:, None], np.arange(16)
            expect(np.array_equal(dac, (g[0] * 31 + g[1] * 7) % 256)
                   and np.array_equal(on, (g[0] + g[1]) % 3 > 0),
                   "complete file")
            ctx.ev()

    def hv_lines(self, case, ctx):
        from CHECLabPy.utils.files import extract_hv_cfg
        kinds = ["M:1/F/S:2|HV=100", " M:1/F/S:2|HVOn=1 ", "M:1/F/S:2|HV=0",
                 "M:1/F/S:2|HVOn=0", "# a comment", "",
                 "  M:12/F/S:12|HV=255   "]
        path = ctx.path("hv.cfg")
        for rest in itertools.product(range(7), repeat=case["more"]):
            seq = [kinds[i] for i in (case["first"],) + rest]
            with open(path, "w") as f:
                f.write("\n".join(seq) + "\n")
            wd = np.zeros((32, 16), int)
            wo = np.zeros((32, 16), int)
            for line in seq:
                m = re.match(r"\s*M:(\d+)/F/S:(\d+)\|(HV|HVOn)=(\d+)", line)
                if m:
                    a = wd if m.group(3) == "HV" else wo
                    a[int(m.group(1)), int(m.group(2))] = int(m.group(4))
            dac, on = extract_hv_cfg(path)
            expect(np.array_equal(dac, wd) and np.array_equal(on, wo),
                   lambda: "HV file %s: DACs %s, on %s" % (
                       seq, dac[dac != 0], on[on != 0]))
            ctx.ev()
            ctx.step(len(seq))
            ctx.state((tuple(wd.ravel()[wd.ravel() > 0]), wo.sum()))
            ctx.outcome(tuple(seq))
        with_missing = os.path.join(os.path.dirname(path), "none.cfg")
        raises(OSError, lambda: extract_hv_cfg(with_missing), "missing file")


CHECK = C29()
