"""Mapping of pixels, superpixels and modules onto the camera."""
import itertools
import numpy as np
import pandas as pd
from mc.engine import Check
from mc.util import expect, expect_close, noise, same_frame

VERSIONS = ("1.0.1", "1.1.0")


class C27(Check):
    id = "C27"
    level = "exploration"
    rule = "distinct (camera, selection of modules, order of rows) and grids"
    assumptions = ("TargetCalib is represented by a stand-in of its documented"
                   " interface", "selections keep whole modules",
                   "grids have at least one complete row and column")
    bounds = {
        "quick": "single and 32-module cameras of 2 versions; every single "
                 "module, every pair of adjacent slots, complements; 4 row "
                 "orders; every grid up to 5x5 with 5 origins, 3 pitches and "
                 "4 orders; every grid up to 3x3 with every set of missing "
                 "pixels that leaves a full row and column",
        "thorough": "every pair of modules; grids up to 9x9; missing sets "
                    "up to 3x4"}

    def setup(self):
        import CHECLabPy.utils.mapping  # noqa: F401
        import target_calib  # noqa: F401

    def cases(self, tier):
        t = tier == "thorough"
        out = [dict(kind="convert", version=v, single=s)
               for v in VERSIONS for s in (True, False)]
        out += [dict(kind="modules", slots=[])]
        out += [dict(kind="modules", slots=[0], single=True)]
        out += [dict(kind="modules", slots=[s]) for s in range(32)]
        pairs = (itertools.combinations(range(32), 2) if t
                 else [(s, s + 1) for s in range(31)])
        out += [dict(kind="modules", slots=list(p)) for p in pairs]
        out += [dict(kind="modules", slots=[s for s in range(32) if s != x])
                for x in range(0, 32, 5)]
        n = 9 if t else 5
        out += [dict(kind="grid", shape=[a, b])
                for a in range(1, n + 1) for b in range(1, n + 1)
                if a * b > 1]
        out += [dict(kind="grid", shape=[8, 8], gap=True),
                dict(kind="grid", shape=[16, 24], gap=True),
                dict(kind="grid", shape=[48, 48], gap=True),
                dict(kind="camera")]
        for a, b in ((2, 2), (2, 3), (3, 2), (3, 3)) + (
                ((3, 4), (4, 3)) if t else ()):
            out += [dict(kind="holes", shape=[a, b], first=f)
                    for f in range(a * b)]
        return out

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.trace()

    def convert(self, case, ctx):
        """TargetCalib mapping <-> dataframe, both ways"""
        from target_calib import CameraConfiguration
        from CHECLabPy.utils import mapping as m
        v, single = case["version"], case["single"]
        tc = CameraConfiguration(v).GetMapping(singleModule=single)
        n_mod = 1 if single else 32
        want_meta = dict(
            cfgfile="/cfg/camera_%s.cfg" % v, is_single_module=single,
            n_pixels=64 * n_mod, n_modules=n_mod, n_tmpix=64,
            n_superpixels=16 * n_mod, n_rows=8 if single else 48,
            n_columns=8 if single else 48, size=0.00675, fOTUpRow_l=1,
            fOTUpRow_u=3, fOTUpCol_l=2, fOTUpCol_u=5, fOTUpX_l=-0.15,
            fOTUpX_u=-0.11, fOTUpY_l=-0.16, fOTUpY_u=-0.13)

        def meta(df, what):
            for k, w in want_meta.items():
                expect(k in df.metadata, lambda: "%s: metadata lacks %s" % (
                    what, k))
                expect(df.metadata[k] == w, lambda: "%s: metadata %s is %r, "
                       "expected %r" % (what, k, df.metadata[k], w))
        a = m.get_clp_mapping_from_tc_mapping(tc)
        same_frame(a, tc.as_dataframe(), "mapping from TargetCalib")
        meta(a, "mapping from TargetCalib")
        b = m.get_clp_mapping_from_version(v, single)
        same_frame(b, a, "mapping from version")
        meta(b, "mapping from version")
        if not single:
            same_frame(m.get_clp_mapping_from_version(v), a, "default camera")
        # round trip, twice, and a changed copy does not affect another
        x = a
        for i in range(2):
            back = m.get_tc_mapping_from_clp_mapping(x)
            expect(back.GetCfgPath() == tc.GetCfgPath()
                   and back.IsSingleModule() == single
                   and back.GetNPixels() == tc.GetNPixels(),
                   "round trip to TargetCalib names another camera")
            x = m.get_clp_mapping_from_tc_mapping(back)
            same_frame(x, a, "round trip %d" % i)
            meta(x, "round trip %d" % i)
            ctx.step(2)
        b.metadata["size"] = 1.0
        b["xpix"] = 0.0
        again = m.get_clp_mapping_from_tc_mapping(tc)
        meta(again, "mapping after another one was changed")
        same_frame(again, a, "mapping after another one was changed")
        expect(m.get_ref_path_from_version(v)
               == CameraConfiguration(v).GetReferencePulsePath(),
               "reference pulse path")
        geom = m.get_ctapipe_camera_geometry(a)
        expect_close(geom.pix_x.to_value("m"), a["xpix"].values, "pix_x",
                     1e-12)
        expect_close(geom.pix_y.to_value("m"), a["ypix"].values, "pix_y",
                     1e-12)
        expect(list(geom.pix_id) == list(range(64 * n_mod)), "pixel ids")
        ctx.ev(8)
        ctx.state((v, single))
        ctx.outcome((v, single))

    def orders(self, df):
        n = len(df)
        idx = np.arange(n)
        # the positions of rows whose superpixels stay in their module order
        yield "natural", idx
        yield "reversed", idx[::-1]
        step = 7 if n % 7 else 11
        yield "strided", (idx * step) % n
        yield "by column", np.argsort(df["col"].values, kind="stable")

    def modules(self, case, ctx):
        """superpixel and module mappings of a selection, in any row order"""
        from CHECLabPy.utils import mapping as m
        base = m.get_clp_mapping_from_version("1.1.0",
                                              case.get("single", False))
        slots = case["slots"]
        for name, order in self.orders(base):
            df = base.iloc[order]
            if slots:
                df = df.loc[df["slot"].isin(slots)]
            df = df.reset_index(drop=True)
            df.metadata = dict(base.metadata)
            before, meta = df.copy(), dict(df.metadata)
            sp = m.get_superpixel_mapping(df)
            tm = m.get_tm_mapping(df)
            what = "modules %s, %s order" % (slots or "all", name)
            same_frame(df, before, what + ": the pixel mapping")
            expect(df.metadata == meta, what + ": the metadata of the pixel "
                   "mapping changed")
            self.groups(sp, before, "superpixel", 2, what)
            self.groups(tm, before, "slot", 8, what)
            for got, n, col in ((sp, 2, "superpixel"), (tm, 8, "slot")):
                md = got.metadata
                expect_close([md["size"]], [meta["size"] * n],
                             what + " size of a " + col)
                expect(md["n_rows"] == got["row"].max() + 1
                       and md["n_columns"] == got["col"].max() + 1,
                       what + ": number of rows and columns of " + col)
                for k in meta:
                    if k not in ("size", "n_rows", "n_columns"):
                        expect(md[k] == meta[k], "%s: metadata %s of the %s "
                               "mapping is %r" % (what, k, col, md[k]))
            ctx.ev(2)
            ctx.step(2)
        ctx.state(tuple(slots))
        ctx.outcome(tuple(slots))

    def groups(self, got, pix, key, n, what):
        want = sorted(set(pix[key]))
        expect(list(got[key]) == want, lambda: "%s: %s are %s" % (
            what, key, list(got[key])[:40]))
        pk = pix[key].values
        for i, g in enumerate(want):
            sel = pix[pk == g]
            expect(len(sel) == n * n, "harness: incomplete group")
            row = got.iloc[i]
            if key == "superpixel":
                for c in ("slot", "asic"):
                    expect(row[c] == sel[c].iloc[0], lambda: "%s: %s of "
                           "superpixel %s is %s" % (what, c, g, row[c]))
            for c in ("row", "col"):
                w = set(sel[c] // n)
                expect(len(w) == 1 and row[c] in w, lambda: "%s: %s of %s %s "
                       "is %s, its pixels are in %s" % (
                           what, c, key, g, row[c], sorted(set(sel[c]))))
            for c in ("xpix", "ypix"):
                w = sel[c].mean()
                expect(abs(row[c] - w) < 1e-9, lambda: "%s: %s of %s %s is "
                       "%s, expected %s" % (what, c, key, g, row[c], w))

    def grid(self, case, ctx):
        from CHECLabPy.utils.mapping import get_row_column
        nr, nc = case["shape"]
        yy, xx = np.mgrid[:nr, :nc]
        r, c = yy.ravel(), xx.ravel()
        gap = 0.3 if case.get("gap") else 0.0
        big = nr * nc > 100
        for pitch in (0.006, 1.0) if big else (0.006, 1.0, 25.0):
            x0 = (c + (c // 8) * gap) * pitch
            y0 = (r + (r // 8) * gap) * pitch
            for ox, oy in ((0, 0), (-x0.max() / 2, -y0.max() / 2),
                           (-x0.max(), 0), (0.3 * pitch, -0.7 * pitch),
                           (100 * pitch, 100 * pitch)):
                for k, order in self.perms(nr * nc):
                    x, y = (x0 + ox)[order], (y0 + oy)[order]
                    self.located(get_row_column, x, y, r[order], c[order],
                                 "%dx%d grid, pitch %s, origin (%s, %s), %s"
                                 % (nr, nc, pitch, ox, oy, k))
                    ctx.ev()
        ctx.state((nr, nc))
        ctx.outcome((nr, nc, gap))

    def perms(self, n):
        idx = np.arange(n)
        yield "natural", idx
        yield "reversed", idx[::-1]
        yield "rotated", np.roll(idx, n // 2 + 1)
        yield "shuffled", np.argsort(noise(n, seed=n, lo=-500, hi=500),
                                     kind="stable")

    def located(self, f, x, y, r, c, what):
        x0, y0 = x.copy(), y.copy()
        gr, gc = f(x, y)
        expect(np.array_equal(gr, r), lambda: "%s: rows %s, expected %s" % (
            what, np.asarray(gr)[:40], r[:40]))
        expect(np.array_equal(gc, c), lambda: "%s: columns %s, expected %s"
               % (what, np.asarray(gc)[:40], c[:40]))
        expect(np.array_equal(x, x0) and np.array_equal(y, y0),
               what + ": the coordinates were changed")

    def camera(self, case, ctx):
        from CHECLabPy.utils import mapping as m
        for single in (True, False):
            pix = m.get_clp_mapping_from_version("1.1.0", single)
            todo = [("pixels", pix), ("superpixels",
                                      m.get_superpixel_mapping(pix))]
            if not single:
                todo.append(("modules", m.get_tm_mapping(pix)))
            for name, df in todo:
                for k, order in self.perms(len(df)):
                    d = df.iloc[order]
                    self.located(m.get_row_column, d["xpix"].values,
                                 d["ypix"].values, d["row"].values,
                                 d["col"].values, "%s of the camera, %s" % (
                                     name, k))
                    ctx.ev()
            ctx.outcome(single)

    def holes(self, case, ctx):
        """every set of missing pixels; the first pixel has a neighbour"""
        from CHECLabPy.utils.mapping import get_row_column
        nr, nc = case["shape"]
        cells = list(itertools.product(range(nr), range(nc)))
        first = cells[case["first"]]
        for bits in itertools.product((0, 1), repeat=len(cells)):
            have = {p for p, b in zip(cells, bits) if b}
            if first not in have:
                continue
            full_r = any(all((i, j) in have for j in range(nc))
                         for i in range(nr))
            full_c = any(all((i, j) in have for i in range(nr))
                         for j in range(nc))
            near = any((first[0] + a, first[1] + b) in have
                       for a, b in ((0, 1), (1, 0), (0, -1), (-1, 0)))
            if not (full_r and full_c and near):
                continue
            pix = [first] + sorted(have - {first})
            r = np.array([p[0] for p in pix])
            c = np.array([p[1] for p in pix])
            for ox, oy in ((0.0, 0.0), (-(nc - 1) / 2, -(nr - 1) / 2)):
                self.located(get_row_column, (c + ox) * 0.006,
                             (r + oy) * 0.006, r, c,
                             "pixels %s, origin %s" % (pix, (ox, oy)))
                ctx.ev()
            ctx.state((nr, nc, bits))
            ctx.outcome((nr, nc, bits))


CHECK = C27()
