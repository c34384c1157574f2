"""Runs one check: parallel Hypothesis workers, shrinking, confirmation, evidence."""
import hashlib, importlib, json, multiprocessing, os, struct, sys, time, traceback, zlib
from xml.etree import ElementTree
from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
from . import build as _b, cf, onecd
from .exe import Ctx, Violation, Unsupported

HERE = _b.HERE
WORKERS = 8


class Check:
    id = None
    rule = ""
    assumptions = []
    quick = 400            # cases per worker
    thorough = 20000
    quick_s = 45           # soft generation budget in seconds (a stop, never a verdict)
    thorough_s = 600
    workers = WORKERS

    def strategy(self, tier):
        raise NotImplementedError

    def run(self, case, ctx):
        """raises Violation; returns labels"""
        raise NotImplementedError

    def nontrivial(self, case, labels):
        return True

    def describe(self, case):
        s = json.dumps(case, ensure_ascii=False, sort_keys=True)
        return s if len(s) < 1500 else s[:1500] + "...(%d chars)" % len(s)


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def short(x, n=120):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "...(len %d)" % len(x)


def same(got, want, what):
    if got != want:
        d = ""
        if isinstance(got, (bytes, str)) and isinstance(want, type(got)):
            k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            d = " (lengths %d/%d, first difference at %d: %s vs %s)" % (len(got), len(want), k, short(got[k:k + 24]), short(want[k:k + 24]))
        raise Violation("%s: got %s, expected %s%s" % (what, short(got), short(want), d))


def _key(case):
    return json.dumps(case, ensure_ascii=False, sort_keys=True)


# what reading a malformed answer, container, database or file of the program ends with
MALFORMED = (cf.Bad, onecd.Bad, ValueError, LookupError, TypeError, AttributeError, struct.error, zlib.error, ElementTree.ParseError, FileNotFoundError, NotADirectoryError, IsADirectoryError)


def run_case(check, case, ctx):
    ctx.fresh()
    try:
        return check.run(case, ctx) or []
    except (Violation, Unsupported):
        raise
    except MALFORMED as e:
        at = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("what the program has put out cannot be interpreted: %s: %s (%s, line %d)" % (type(e).__name__, short(str(e), 200), os.path.basename(at.filename), at.lineno)) from e


def _worker(cid, tier, seed, idx, n, budget, stop, q):
    try:
        check = load(cid)
        ctx = Ctx()
        st = dict(evals=0, nontrivial=set(), labels={}, samples=[], failures=[], unsupported=[], err=None)
        t0 = time.monotonic()
        state = dict(best=None, shrink_until=None, done=False)

        def body(case):
            now = time.monotonic()
            if state["done"]:
                return
            if state["best"] is None:
                if now - t0 > budget or stop.is_set():
                    state["done"] = True
                    return
            elif now > state["shrink_until"]:
                state["done"] = True
                return
            try:
                labels = run_case(check, case, ctx)
            except Unsupported as e:
                st["unsupported"].append(str(e))
                state["done"] = True
                return
            except Violation as v:
                k = _key(case)
                if state["best"] is None:
                    stop.set()
                    state["shrink_until"] = time.monotonic() + (60 if tier == "quick" else 180)
                if state["best"] is None or (len(k), k) < (len(state["best"][0]), state["best"][0]):
                    state["best"] = (k, v.msg)
                    st["failures"].append((k, v.msg))
                raise
            if state["best"] is None:
                st["evals"] += 1
                for l in labels:
                    st["labels"][l] = st["labels"].get(l, 0) + 1
                if check.nontrivial(case, labels):
                    h = hashlib.sha1(_key(case).encode()).digest()[:10]
                    if h not in st["nontrivial"]:
                        st["nontrivial"].add(h)
                        if len(st["samples"]) < 3 and (len(st["nontrivial"]) % 7 == 1):
                            st["samples"].append(check.describe(case))

        test = given(check.strategy(tier))(body)
        test = settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
                        stateful_step_count=50, print_blob=False, verbosity=__import__("hypothesis").Verbosity.quiet)(test)
        test = hseed(seed * 1000003 + idx)(test)
        try:
            test()
        except BaseException as e:
            if state["best"] is None and not state["done"]:
                st["err"] = traceback.format_exc()
        ctx.close()
        st["nontrivial"] = list(st["nontrivial"])
        q.put((idx, st))
    except BaseException:
        q.put((idx, dict(evals=0, nontrivial=[], labels={}, samples=[], failures=[], unsupported=[], err=traceback.format_exc())))


def load(cid):
    return importlib.import_module("checks." + cid.lower()).CHECK


def confirm(check, case, times=3):
    """message if the case fails every time in a fresh executor, else None"""
    msg = None
    for _ in range(times):
        ctx = Ctx()
        try:
            run_case(check, case, ctx)
            return None
        except Violation as v:
            msg = v.msg
        finally:
            ctx.close()
    return msg


def known_findings(cid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % cid):
                f = dict(x.split("=", 1) for x in line.split()[1:4] if "=" in x)
                f["what"] = line.split(" ", 4)[4] if line.count(" ") >= 4 else ""
                out.append(f)
    return out


def main(cid, tier, seed, replay=None):
    t0 = time.time()
    os.chdir(HERE)
    _b.build()
    check = load(cid)
    if replay:
        case = json.load(open(replay, encoding="utf-8"))
        case = case["case"] if isinstance(case, dict) and "case" in case and "property" in case else case
        msg = confirm(check, case)
        if msg:
            print("VIOLATION property=%s replay=%s" % (cid, replay))
            print(msg)
            return 1
        print("replay passes")
        return 0
    known = known_findings(cid)
    knownkeys = {}
    for k in known:
        case = json.load(open(os.path.join(HERE, "findings", k["key"] + ".json"), encoding="utf-8"))["case"]
        knownkeys[_key(case)] = k
        if confirm(check, case, 1):
            print("KNOWN-FINDING: property=%s %s" % (cid, k["what"]))
    n = check.quick if tier == "quick" else check.thorough
    budget = check.quick_s if tier == "quick" else check.thorough_s
    mp = multiprocessing.get_context("fork")
    q, stop = mp.Queue(), mp.Event()
    ps = [mp.Process(target=_worker, args=(cid, tier, seed, i, n, budget, stop, q)) for i in range(check.workers)]
    for p in ps:
        p.start()
    res = [q.get() for _ in ps]
    for p in ps:
        p.join()
    res.sort()
    evals = sum(r["evals"] for _, r in res)
    nontriv = set()
    labels, samples, failures, errs, unsup = {}, [], [], [], set()
    for _, r in res:
        nontriv.update(bytes(x) for x in r["nontrivial"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += r["samples"][:1]
        failures += r["failures"]
        unsup.update(r["unsupported"])
        if r["err"]:
            errs.append(r["err"])
    viol = None
    failures.sort(key=lambda f: (len(f[0]), f[0]))
    unconfirmed = []
    tried = 0
    for k, m in failures:
        if k in knownkeys:
            continue
        if tried >= 4:
            break
        tried += 1
        msg = confirm(check, json.loads(k))
        if msg:
            viol = (json.loads(k), msg)
            break
        unconfirmed.append(m[:300])
    ev = dict(property=cid, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(nontriv), rule=check.rule, samples=samples[:6],
                            classes=dict(sorted(labels.items())), workers=check.workers,
                            unconfirmed_failures=unconfirmed, unsupported_commands=sorted(unsup)),
              assumptions=list(check.assumptions), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.tmp" % cid)
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
    os.rename(tmp, os.path.join(HERE, "evidence", cid + ".json"))
    if viol:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        rp = os.path.join(HERE, "replay", "%s-%s.json" % (cid, hashlib.sha1(_key(viol[0]).encode()).hexdigest()[:10]))
        with open(rp, "w", encoding="utf-8") as f:
            json.dump(dict(property=cid, message=viol[1], case=viol[0]), f, ensure_ascii=False, indent=1)
        print("VIOLATION property=%s replay=%s" % (cid, rp))
        print(viol[1])
        return 1
    if errs:
        print("\n".join(errs)[:4000])
        return 2
    print("%s %s: held on %d cases (%d distinct non-trivial), %.0f s%s" % (cid, tier, evals, len(nontriv), time.time() - t0,
          "; unconfirmed: %s" % unconfirmed if unconfirmed else ""))
    return 0
