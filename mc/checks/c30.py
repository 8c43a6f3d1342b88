"""generate_dl1_config: the generated file is a complete, valid set-up."""
import itertools
import os
import shutil
import subprocess
import sys
from contextlib import nullcontext
import numpy as np
import yaml
from mc.engine import REPO, Check
from mc.red import COLUMNS, DEFAULT_ON, REF, mapping, pulse
from mc.util import Env, expect, expect_close, noise

KW = dict(reference_pulse_path=REF)


class C30(Check):
    id = "C30"
    level = "exploration"
    rule = "distinct (options, reducers known, columns edited)"
    assumptions = ("columns without a default are switched on, as the script "
                   "does", "NNLSPulseExtraction is switched off before the "
                   "file is used")
    bounds = {
        "quick": "with and without documentation; every order of 3 output "
                 "paths; 0..2 reducers added by the user; every column "
                 "switched over by hand, every pair of columns; the columns "
                 "of the file used by a chain; a stand-alone run of the "
                 "script on a copy of the package",
        "thorough": "the same, and every triple of columns"}

    def setup(self):
        import CHECLabPy.scripts.generate_dl1_config  # noqa: F401
        import CHECLabPy.core.chain  # noqa: F401

    def cases(self, tier):
        out = [dict(kind="content", bare=b) for b in (False, True)]
        out += [dict(kind="user", n=n, bare=b) for n in (1, 2)
                for b in (False, True)]
        out += [dict(kind="flip", bare=b) for b in (False, True)]
        out += [dict(kind="pairs", lo=lo, n=3 if tier == "thorough" else 2)
                for lo in range(0, 40, 4)]
        out += [dict(kind="paths"), dict(kind="script")]
        return out

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.trace()

    def generate(self, path, bare):
        from CHECLabPy.scripts import generate_dl1_config as g
        argv = ["generate_dl1_config", "-o", path] + (
            ["--bare"] if bare else [])
        with Env((sys, "argv", argv)):
            g.main()
        expect(os.path.isfile(path), "no file at the path asked for")
        with open(path) as f:
            text = f.read()
        return text

    def every(self):
        """name -> columns of every reducer, from the classes themselves"""
        from CHECLabPy.core.reducer import WaveformReducer
        out, todo = {}, list(WaveformReducer.__subclasses__())
        while todo:
            c = todo.pop(0)
            out.setdefault(c.__name__, list(c.columns))
            todo += c.__subclasses__()
        return out

    def judge(self, text, what, extra=()):
        from CHECLabPy.core.chain import WaveformReducerChain as Chain
        conf = yaml.safe_load(text)
        every = self.every()
        want = [c for cs in every.values() for c in cs]
        expect(sorted(conf) == sorted(want), lambda: "%s: columns %s missing,"
               " %s unknown" % (what, sorted(set(want) - set(conf)),
                                sorted(set(conf) - set(want))))
        for cs in COLUMNS.values():
            for c in cs:
                expect(c in conf, "%s: no %s" % (what, c))
        for c, v in conf.items():
            expect(v is Chain.default_columns.get(c, True), lambda:
                   "%s: %s is %r" % (what, c, v))
            if c in DEFAULT_ON:
                expect(v is True, lambda: "%s: %s is off" % (what, c))
        for c in ("t_event", "t_pulse", "fwhm", "charge_cc_nn", "t_local",
                  "charge_sliding", "sp_max"):
            expect(conf[c] is False, lambda: "%s: %s is on" % (what, c))
        # each column once, below the name of its reducer
        lines = text.split("\n")
        for c in conf:
            n = sum(ln.startswith(c + ":") for ln in lines)
            expect(n == 1, lambda: "%s: %d lines for %s" % (what, n, c))
        heads = [i for i, ln in enumerate(lines)
                 if ln.startswith("# ") and ln[2:].strip() in every]
        for r, cs in every.items():
            mine = [i for i in heads if lines[i][2:].strip() == r]
            expect(mine, lambda: "%s: no section %s" % (what, r))
            i = mine[0]
            end = min([h for h in heads if h > i] + [len(lines)])
            got = [ln.split(":")[0] for ln in lines[i:end]
                   if ln and not ln.startswith("#") and ":" in ln]
            expect(sorted(got) == sorted(cs), lambda: "%s: section %s has %s, "
                   "expected %s" % (
                what, r, got, cs))
        return conf

    def content(self, case, ctx):
        here = os.getcwd()
        os.chdir(os.path.dirname(ctx.path()))  # a stray file ends there
        try:
            self.contents(case, ctx)
        finally:
            os.chdir(here)

    def contents(self, case, ctx):
        path = ctx.path("conf.yml")
        text = self.generate(path, case["bare"])
        conf = self.judge(text, "bare=%s" % case["bare"])
        again = self.generate(path, case["bare"])
        expect(again == text, "a second run writes something else")
        other = self.generate(ctx.path("x.yml"), not case["bare"])
        expect(yaml.safe_load(other) == conf, "--bare changes the settings")
        comments = sum(ln.startswith("#") for ln in text.split("\n"))
        n = len(self.every())
        if case["bare"]:
            expect(comments == n, "--bare: %d comment lines for %d reducers"
                   % (comments, n))
        else:
            expect(comments > n, "no documentation")
        ctx.ev(len(conf))
        ctx.outcome((case["bare"], tuple(sorted(conf.items()))))

    def user(self, case, ctx):
        """reducers defined elsewhere appear, switched on"""
        # in a process of its own: a class once defined stays known
        code = '''
import sys
sys.path[:0] = %r
from CHECLabPy.core.reducer import WaveformReducer, column
from CHECLabPy.scripts import generate_dl1_config as g
class Mine(WaveformReducer):
    """What it is for

    A longer description
    of what: this is
    for.

    Notes
    -----
    mine_a: False
    """
    @column
    def mine_a(self):
        return self.waveforms[:, 0]
    @column
    def mine_b(self):
        """
        The second

        One line
        and another: with a colon

            - indented
            - more

        Returns
        -------
        ndarray
        """
        return self.waveforms[:, 1]
if %d > 1:
    class Yours(Mine):
        @column
        def yours_a(self):
            return self.waveforms[:, 2]
sys.argv = %r
g.main()
import numpy as np
from CHECLabPy.core.chain import WaveformReducerChain as C
import yaml
conf = yaml.safe_load(open(sys.argv[2]))
off = {k: False for k in conf if "nnls" in k}
c = C(64, 40, sys.argv[2], reference_pulse_path=%r, **off)
got = c.process(np.arange(64 * 40.).reshape(64, 40))
print("COLUMNS", sorted(got))
'''
        path = ctx.path("conf.yml")
        argv = ["g", "-o", path] + (["--bare"] if case["bare"] else [])
        code = code % ([REPO, os.path.join(os.path.dirname(
            os.path.dirname(os.path.abspath(__file__))), "env")],
            case["n"], argv, REF)
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code],
                           capture_output=True, text=True, timeout=300)
        expect(p.returncode == 0, "with a reducer of the user: %s"
               % p.stderr[-600:])
        with open(path) as f:
            conf = yaml.safe_load(f)
        new = ["mine_a", "mine_b"] + (["yours_a"] if case["n"] > 1 else [])
        for c in new:
            expect(conf.get(c) is True, lambda: "column %s is %r" % (
                c, conf.get(c)))
        want = sorted(set(new) | DEFAULT_ON | {
            c for c, v in conf.items() if v and "nnls" not in c})
        line = [x for x in p.stdout.split("\n") if x.startswith("COLUMNS")]
        expect(line and line[-1] == "COLUMNS %s" % want, lambda:
               "the chain gives %s, expected %s" % (line, want))
        ctx.ev(len(conf))
        ctx.outcome((case["n"], case["bare"]))

    def event(self):
        return np.array([pulse(40, 20 + i % 5, 2.5, 20 + i) for i in
                         range(64)]) + noise((64, 40), 3, -2, 2) / 8

    def use(self, conf_text, on, what, ctx):
        from CHECLabPy.core.chain import WaveformReducerChain as Chain
        path = ctx.path("edited.yml")
        with open(path, "w") as f:
            f.write(conf_text)
        got = Chain(64, 40, path, mapping=mapping(64), **KW).process(
            self.event())
        expect(set(got) == set(on), lambda: "%s: columns %s missing, %s "
               "unexpected" % (what, sorted(set(on) - set(got)),
                               sorted(set(got) - set(on))))
        ctx.ev()
        return got

    def edit(self, text, changes):
        out = []
        for ln in text.split("\n"):
            key = ln.split(":")[0]
            if key in changes and not ln.startswith("#"):
                ln = "%s: %s" % (key, changes[key])
            out.append(ln)
        return "\n".join(out)

    def flip(self, case, ctx):
        """every column switched over by hand"""
        from CHECLabPy.core.chain import WaveformReducerChain as Chain
        text = self.generate(ctx.path("c.yml"), case["bare"])
        conf = yaml.safe_load(text)
        off = {c: False for c in conf if "nnls" in c}
        base = {c for c, v in {**conf, **off}.items() if v}
        ref = self.use(self.edit(text, off), base, "as generated", ctx)
        # the file as generated gives what the built-in defaults give, and
        # the columns nobody gave a default
        got = Chain(64, 40, mapping=mapping(64), **KW).process(self.event())
        for c in got:
            expect_close(ref[c], got[c], "column %s" % c, 1e-6, 1e-6)
        expect(set(base) - set(got) == {
            c for c in base if c not in Chain.default_columns},
            "columns of the file that the defaults do not have")
        for c in sorted(conf):
            if "nnls" in c or c == "flasher_unit":
                continue
            new = dict(off)
            new[c] = not conf[c]
            self.use(self.edit(text, new), base ^ {c}, "%s switched to %s" % (
                c, new[c]), ctx)
            ctx.state((c, new[c]))
            ctx.outcome((c, new[c]))

    def pairs(self, case, ctx):
        """all columns off but a few"""
        text = self.generate(ctx.path("c.yml"), True)
        conf = yaml.safe_load(text)
        names = [c for cs in COLUMNS.values() for c in cs
                 if c != "flasher_unit"]
        for i in range(case["lo"], min(case["lo"] + 4, len(names))):
            later = names[i + 1:]
            for rest in itertools.combinations(later, case["n"] - 1):
                on = {names[i], *rest}
                self.use(self.edit(text, {c: c in on for c in conf}), on,
                         "only %s" % sorted(on), ctx)
                ctx.outcome(tuple(sorted(on)))

    def paths(self, case, ctx):
        from CHECLabPy.scripts import generate_dl1_config as g
        d = os.path.dirname(ctx.path())
        here = os.getcwd()
        os.chdir(d)
        try:
            kinds = [os.path.join(d, "a.yml"), "b.yml", "a.yml"]
            for order in itertools.permutations(kinds):
                texts = []
                for p in order:
                    texts.append(self.generate(p, False))
                expect(len(set(texts)) == 1, "the content depends on the "
                       "path or on an old file")
                with open("a.yml", "a") as f:
                    f.write("rubbish: " + "x" * 20000)
                expect(self.generate("a.yml", False) == texts[0],
                       "content of an old file is kept")
                ctx.ev(4)
                ctx.outcome(order)
            # any name will do; the package's own data stay as they are
            with Env((g, "get_file", lambda name: os.path.join(
                    d, "own", name))) if hasattr(g, "get_file") \
                    else nullcontext():
                for p in ("bare", "a.yaml", "c.txt", "dir.yml/conf", ".yml"):
                    os.makedirs(os.path.dirname(p) or ".", exist_ok=True)
                    expect(self.generate(p, False) == texts[0],
                           "the content depends on the name")
                    ctx.outcome(p)
        finally:
            os.chdir(here)

    def script(self, case, ctx):
        """the script itself, also with its default output path"""
        root = os.path.dirname(ctx.path())
        pkg = os.path.join(root, "CHECLabPy")
        shutil.copytree(os.path.join(REPO, "CHECLabPy"), pkg,
                        ignore=shutil.ignore_patterns("__pycache__"))
        env = dict(os.environ, PYTHONPATH=root)
        mine = os.path.join(root, "out.yml")
        cmd = [sys.executable, "-W", "ignore", "-m",
               "CHECLabPy.scripts.generate_dl1_config"]
        texts = []
        for args, path in ((["-o", mine], mine),
                           ([], os.path.join(pkg, "data",
                                             "extractor_config.yml"))):
            p = subprocess.run(cmd + args, env=env, cwd=root, timeout=300,
                               capture_output=True, text=True)
            expect(p.returncode == 0, "%s: %s" % (args, p.stderr[-600:]))
            expect(os.path.isfile(path), "%s: no file at %s" % (args, path))
            with open(path) as f:
                texts.append(f.read())
            self.judge(texts[-1], "script %s" % args)
            ctx.ev()
        expect(texts[0] == texts[1], "the default path changes the content")
        p = subprocess.run(cmd + ["-o", os.path.join(root, "no", "x.yml")],
                           env=env, cwd=root, timeout=300,
                           capture_output=True, text=True)
        expect(p.returncode != 0 and not os.path.exists(
            os.path.join(root, "no", "x.yml")) or p.returncode == 0
            and os.path.exists(os.path.join(root, "no", "x.yml")),
            "success is reported although nothing was written")
        ctx.outcome("script")


CHECK = C30()
