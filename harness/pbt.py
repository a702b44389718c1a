"""Property-based testing engine for the checks written in Python: choice
sequences with shrinking, replay files, known findings and evidence, in step
with harness/pbt.hpp."""
import collections, hashlib, io, json, math, multiprocessing, os, random, sys, time, traceback, contextlib
import numpy as np

ROOT = os.environ.get("VERIF_ROOT", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Discard(Exception):
    pass


class Failure(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, key, msg)
        self.key, self.msg = key, msg


class Gen:
    def __init__(self, choices=None, rng=None):
        self.given, self.rng = choices, rng
        self.used, self.labels, self.notes = [], [], []
        self.asserts, self.ok = 0, False

    def draw(self, n):
        """an integer in [0, n]; small ones are simple"""
        if n <= 0:
            return 0
        if self.rng is None:
            k = len(self.used)
            v = min(self.given[k], n) if k < len(self.given) else 0
        else:
            v = self.rng.randint(0, n)
        self.used.append(v)
        return v

    def irange(self, a, b): return a + self.draw(b - a)
    def flip(self): return self.draw(1) == 1
    def chance(self, a, b): return self.draw(b - 1) >= b - a
    def pick(self, s): return s[self.draw(len(s) - 1)]
    def some(self, s, a=1, b=2): return [x for x in s if self.chance(a, b)]

    def shuffled(self, s):
        s, out = list(s), []
        while s:
            out.append(s.pop(self.draw(len(s) - 1)))
        return out

    def real(self, a=-1.0, b=1.0):
        # low values of the choice are round numbers
        v = self.draw(4095)
        q = [0.5, 0.25, 0.75, 0.0, 1.0]
        u = q[v] if v < len(q) else v / 4095.0
        return a + (b - a) * u

    def vec(self, n, a=-1.0, b=1.0):
        # few choices for a whole vector, so that shrinking stays fast
        k = self.draw(65535)
        if k == 0:
            return np.full(n, 0.5 * (a + b))
        if k <= n:
            v = np.zeros(n)
            v[k - 1] = b
            return v
        return np.random.default_rng(k).uniform(a, b, n)

    def label(self, s): self.labels.append(s)
    def note(self, *a): self.notes.append(" ".join(str(x) for x in a))
    def nontrivial(self): self.ok = True
    def discard(self): raise Discard()

    def check(self, cond, key, msg=""):
        self.asserts += 1
        if not cond:
            raise Failure(key, str(msg))

    def close(self, got, want, tol, key, msg=""):
        self.asserts += 1
        got, want = np.atleast_1d(np.asarray(got, float)), np.atleast_1d(np.asarray(want, float))
        if got.shape != want.shape:
            raise Failure(key, "%s shape %s instead of %s" % (msg, got.shape, want.shape))
        if got.size == 0:
            return
        d = np.max(np.abs(got - want))
        if not d <= tol * (1 + np.max(np.abs(want))):
            raise Failure(key, "%s got %s want %s" % (msg, np.array2string(got[:8], precision=9), np.array2string(want[:8], precision=9)))


def run_case(fn, g):
    """'ok' | 'discard' | (key, message)"""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            fn(g)
        return "ok"
    except Discard:
        return "discard"
    except Failure as e:
        return (e.key, e.msg)
    except Exception as e:
        t = traceback.extract_tb(e.__traceback__)[-1]
        return ("exception " + type(e).__name__, "%s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(t.filename), t.lineno))


def shrink(fn, choices, key, secs):
    end = time.time() + secs
    best = list(choices)

    def fails(c):
        if time.time() > end:
            return None
        g = Gen(c)
        r = run_case(fn, g)
        return g.used if isinstance(r, tuple) and r[0] == key else None

    better = True
    while better and time.time() < end:
        better = False
        n = len(best) // 2
        while n >= 1:
            i = 0
            while i + n <= len(best):
                for c in (best[:i] + best[i + n:], best[:i] + [0] * n + best[i + n:]):
                    if c == best:
                        continue
                    u = fails(c)
                    if u is not None and (len(u), u) < (len(best), best):
                        best, better = u, True
                        break
                else:
                    i += n
                    continue
            n //= 2
        for i in range(len(best)):
            lo = 0
            while i < len(best) and lo < best[i]:
                mid = (lo + best[i]) // 2
                u = fails(best[:i] + [mid] + best[i + 1:])
                if u is not None and (len(u), u) < (len(best), best):
                    best, better = u, True
                else:
                    lo = mid + 1
                    if lo >= best[i]:
                        break
    return best


def work(args):
    fn, name, seed, k, jobs, n, end, known = args
    st = dict(evals=0, discards=0, asserts=0, labels=collections.Counter(), hashes=set(), samples=[], knowns=collections.Counter(), fail=None, cut=False)
    for i in range(k, n, jobs):
        if time.time() > end:
            st["cut"] = True
            break
        g = Gen(rng=random.Random("%s %s %d" % (seed, name, i)))
        r = run_case(fn, g)
        st["asserts"] += g.asserts
        if r == "discard":
            st["discards"] += 1
            continue
        st["evals"] += 1
        st["labels"].update(g.labels)
        if g.ok:
            h = hashlib.sha1(json.dumps(g.used).encode()).hexdigest()
            if h not in st["hashes"]:
                st["hashes"].add(h)
                if len(st["samples"]) < 2:
                    st["samples"].append("; ".join(g.notes)[:900])
        if isinstance(r, tuple):
            if (name, r[0]) in known:
                st["knowns"][r[0]] += 1
                continue
            c = shrink(fn, g.used, r[0], 20)
            g = Gen(c)
            r2 = run_case(fn, g)
            st["fail"] = dict(key=r2[0], message=r2[1], choices=c, case="; ".join(g.notes))
            break
    return st


def main(pid, props, rule, assumptions):
    """props: [(name, function, quick cases, thorough cases)]"""
    a = sys.argv[1:]
    if "--replay" in a:
        j = json.load(open(a[a.index("--replay") + 1]))
        fn = dict((p[0], p[1]) for p in props)[j["sub"]]
        g = Gen(j["choices"])
        r = run_case(fn, g)
        print("  case: " + "; ".join(g.notes))
        if isinstance(r, tuple):
            print("  [%s]: %s" % r)
            print("VIOLATION property=%s replay=%s" % (pid, a[a.index("--replay") + 1]))
            return 1
        print("  the property holds on this case (%s)" % r)
        return 0
    only = a[a.index("--only") + 1] if "--only" in a else None
    t0 = time.time()
    seed, tier = int(os.environ.get("VERIF_SEED", "1")), os.environ.get("VERIF_TIER", "quick")
    jobs = int(os.environ.get("PBT_JOBS", "0")) or min(8, os.cpu_count() or 1)
    scale = float(os.environ.get("PBT_SCALE", "1"))
    budget = float(os.environ.get("PBT_BUDGET_S", "400" if tier == "quick" else "3000"))
    known = {}
    if os.path.exists(ROOT + "/known_findings.jsonl"):
        for l in open(ROOT + "/known_findings.jsonl"):
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if j.get("property") == pid and j.get("status") == "known":
                known[(j.get("sub", ""), j.get("key", ""))] = j.get("what", "")
    subs, samples, tot, lines, violations, seen = {}, [], collections.Counter(), [], 0, set()
    with multiprocessing.get_context("fork").Pool(jobs) as pool:
        for name, fn, q, t in props:
            if only and name != only:
                continue
            t1 = time.time()
            n = max(1, int((q if tier == "quick" else t) * scale))
            parts = pool.map(work, [(fn, name, seed, k, jobs, n, t0 + budget, set(known)) for k in range(jobs)])
            hashes, labels, knowns = set(), collections.Counter(), collections.Counter()
            s = collections.Counter()
            for p in parts:
                hashes |= p["hashes"]
                labels.update(p["labels"])
                knowns.update(p["knowns"])
                for x in ("evals", "discards", "asserts"):
                    s[x] += p[x]
            tot.update(s)
            tot["nontrivial"] += len(hashes)
            seen |= {(name, k) for k in knowns}
            subs[name] = dict(cases=s["evals"], requested=n, discarded=s["discards"], assertions=s["asserts"], distinct_nontrivial=len(hashes),
                              labels=dict(sorted(labels.items())), wall_s=round(time.time() - t1, 3))
            if any(p["cut"] for p in parts):
                subs[name]["stopped_early"] = "budget"
            if knowns:
                subs[name]["known_findings_hit"] = dict(knowns)
            samples += [dict(sub=name, case=x) for x in sum((p["samples"] for p in parts), [])[:2]]
            print("  %s/%s: %d cases, %d distinct non-trivial, %d discarded, %d assertions, %.2f s" % (pid, name, s["evals"], len(hashes), s["discards"], s["asserts"], time.time() - t1))
            print("     labels: " + " ".join("%s=%d" % x for x in sorted(labels.items())))
            fails = sorted((p["fail"] for p in parts if p["fail"]), key=lambda f: len(f["choices"]))
            if fails:
                for f in fails:
                    g = Gen(f["choices"])
                    r = run_case(fn, g)
                    if isinstance(r, tuple) and r[0] == f["key"]:
                        break
                    print("UNCONFIRMED sub=%s key=%s: %s" % (name, f["key"], f["message"]))
                else:
                    continue
                os.makedirs(ROOT + "/replays", exist_ok=True)
                path = "%s/replays/%s-%s.json" % (ROOT, pid, name)
                json.dump(dict(property=pid, sub=name, seed=seed, **f), open(path, "w"), indent=1)
                violations += 1
                print("  sub-property %s [%s]: %s\n  case: %s" % (name, f["key"], f["message"], f["case"]))
                lines.append("VIOLATION property=%s replay=%s" % (pid, path))
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", assumptions=assumptions, wall_s=time.time() - t0, violations=violations,
              coverage=dict(evaluations=tot["evals"], distinct_nontrivial=tot["nontrivial"], discarded=tot["discards"], assertions=tot["asserts"],
                            rule=rule, samples=samples, sub_properties=subs))
    if not only:
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (ROOT, pid), "w"), indent=1)
    for k in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return 1 if violations else 0
