"""X04: programs working at the same time do not disturb each other."""
import os, subprocess
from hypothesis import strategies as st
from vp.engine import Check, expect, same
from vp.exe import Exec, Violation, base_env, run_user, asan_summary
from vp import build as _b, depot
from vp.base import script, ok


@st.composite
def cases(draw, tier):
    hs = draw(st.lists(depot.history(tier, 3), min_size=2, max_size=3))
    step = st.tuples(st.integers(0, 2), st.sampled_from(["dump", "dump", "part", "restart", "program"] + ["together"] * (tier == "thorough")), st.integers(0, 7), st.integers(0, 7)).map(list)
    return [hs, draw(st.lists(step, min_size=2, max_size=8))]


class One:
    """what script() needs of a context"""
    def __init__(self, ex):
        self.ex = ex


class C(Check):
    id = "X04"
    rule = ("two or three depots, each served by its own long-lived process, all with the same directory for temporary files; up to 8 steps in which a process dumps a version or a range, ends and starts anew, or the program is run once or "
            "several times at the same moment; every dump must be what it is when nothing else runs, and no temporary file remains after the processes have ended. Non-trivial: two processes worked, one of them after "
            "another process had ended.")
    quick, thorough = 60, 1500

    def strategy(self, tier):
        return cases(tier)

    def run(self, case, ctx):
        hs, steps = case
        tmp = ctx.path("temp")
        os.makedirs(tmp)
        os.chmod(tmp, 0o777)
        ds = [depot.Depot(h) for h in hs]
        ps = [d.write(ctx, "d%d" % i, 0) for i, d in enumerate(ds)]
        exs = []
        for i in range(len(ds)):
            root = ctx.path("e%d" % i)
            os.makedirs(root)
            os.chmod(root, 0o777)
            exs.append(Sharing(root, tmp))
        labels, worked, ended, n = set(), set(), False, 0
        try:
            for k, (i, what, a, b) in enumerate(steps):
                i %= len(ds)
                d, v = ds[i], ds[i].versions
                if what in ("dump", "part"):
                    ex = exs[i]
                    if i in worked and ended:
                        labels.add("after another ended")
                    worked.add(i)
                    if len(worked) > 1:
                        labels.add("two processes")
                if what == "dump":
                    vn = v[a % len(v)]
                    out = ctx.path("o%d.cf" % k)
                    r = script(One(ex), [("open", ps[i], "0"), ("depot", out, str(vn))])
                    ok(r[0], "opening the depot")
                    same(ok(r[1], "dump of version %d at step %d" % (vn, k)), b"1", "result of the dump of version %d" % vn)
                    d.check_dump(open(out, "rb").read(), vn, expect, same)
                elif what == "part":
                    x, y = sorted((v[a % len(v)], v[b % len(v)]))
                    out = ctx.path("p%d" % k)
                    r = script(One(ex), [("open", ps[i], "0"), ("depotpart", out, str(x), str(y))])
                    ok(r[0], "opening the depot")
                    same(ok(r[1], "dump of versions %d..%d at step %d" % (x, y, k)), b"1", "result of the partial dump")
                    d.check_part(out, x, y, expect, same)
                elif what == "restart":
                    if exs[i].p is not None:
                        exs[i].finish()
                        ended = True
                else:
                    runs = []
                    for j in range(1 if what == "program" else 3):
                        q = (i + j) % len(ds)
                        vn = ds[q].versions[(a + j) % len(ds[q].versions)]
                        out = ctx.path("q%d_%d" % (k, j))
                        os.makedirs(out)
                        os.chmod(out, 0o777)
                        runs.append((q, vn, os.path.join(out, "x.cf"), subprocess.Popen([_b.CTOOL, ps[q], "-ne", "-drc", str(vn), os.path.join(out, "x.cf")], cwd=ctx.dir, env=base_env(tmp), stdin=subprocess.DEVNULL,
                                                                                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **run_user(ctx.root))))
                    for q, vn, out, p in runs:
                        try:
                            txt = p.communicate(timeout=60)[0].decode("utf-8", "replace")
                        except subprocess.TimeoutExpired:
                            p.kill()
                            p.communicate()
                            raise Violation("ctool1cd did not finish within 60 s")
                        expect(p.returncode == 0, "ctool1cd failed with status %d at step %d: %s", p.returncode, k, asan_summary(txt) or txt[-300:])
                        ds[q].check_dump(open(out, "rb").read(), vn, expect, same)
                    ended = True
                    labels.add(what)
            for ex in exs:
                if ex.p is not None:
                    ex.finish()
            left = [os.path.relpath(os.path.join(d, f), tmp) for d, _, fs in os.walk(tmp) for f in fs]
            expect(not left, "temporary files remain after all processes have ended: %r", left[:5])
        finally:
            for ex in exs:
                ex.stop()
        return sorted(labels)

    def nontrivial(self, case, labels):
        return "after another ended" in labels or "together" in labels


class Sharing(Exec):
    """an executor using a given directory for temporary files"""
    def __init__(self, root, tmp):
        super().__init__(root)
        self.shared = tmp

    def start(self):
        self.tmp = self.shared
        self.errpath = os.path.join(self.scratch, "stderr.txt")
        self.errf = open(self.errpath, "wb")
        self.p = subprocess.Popen([_b.VEXEC], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, bufsize=0,
                                  cwd=self.scratch, env=base_env(self.tmp), **run_user(self.scratch))

    def finish(self):
        """lets the process end by itself"""
        self.p.stdin.close()
        try:
            rc = self.p.wait(60)
        except subprocess.TimeoutExpired:
            rc = None
        txt = open(self.errpath, "rb").read().decode("utf-8", "replace")
        self.stop()
        expect(rc == 0, "the process did not end properly (status %r): %s", rc, asan_summary(txt) or txt[-300:])


CHECK = C()
