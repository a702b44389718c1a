#!/usr/bin/env python3
"""Mutation campaign: tools/mutate.py OUT.jsonl WORKERS SECONDS [FILE[:lo-hi] ...]

Each worker runs in its own user and mount namespace, where private copies of
/repo, the build directory, replays and evidence are bound over the real ones,
makes a small random change to a line of a file some property is anchored in,
and runs the checks of the properties anchored there until one of them reports
a violation.  One line per mutant goes to OUT.jsonl.  Nothing outside /tmp/mut
is written."""
import json, os, random, re, subprocess, sys, time
ROOT = "/verif"
PAIRS = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r"\*", "/"), (r" / ", " * "), (r"\+=", "-="), (r"-=", "+="),
         (r" <= ", " < "), (r" < ", " <= "), (r" >= ", " > "), (r" > ", " >= "), (r" == ", " != "), (r" != ", " == "),
         (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b2\b", "1"), (r"\b0\.5\b", "0.25"), (r"\b2\.0\b", "1.0"), (r"\b1\.0\b", "2.0"), (r"\b0\.0\b", "1.0"),
         (r"\bi\b", "j"), (r"\bj\b", "i"), (r"(?<![\w)\]])-(?=[\w(])", ""), (r"\bpow\(", "fmax("), (r"\bstd::max\b", "std::min"), (r"\bmax\(", "min("), (r"\bmin\(", "max("),
         (r"AddMult\b", "Mult"), (r"MultTranspose\b", "Mult"), (r"AddMult_a_VVt", "AddMult_a_VVt"), (r"\+\+", "--"),
         (r"el_bar\b", "el"), (r"!(?=[\w(])", ""), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"), (r"\bel1\b", "el2"), (r"\bel2\b", "el1"),
         (r"\bip1\b", "ip2"), (r"\bElem1\b", "Elem2"), (r"\bvdim\b", "dim"), (r"\bnd\b", "dim")]
SKIP = re.compile(r"^\s*(//|#|\*|/\*|namespace|using|template|class|struct|out\s*<<|std::cout|os\s*<<|\{|\}|:|public|private|protected|friend|throw|MFEM_|mfem_error|assert|\"|case|return;|break|virtual|enum|typename|const auto &\w+ = )|<<.*\"|MFEM_ASSERT|static_assert|MISOException")


def lines_of(path):
    out, com, depth = [], False, 0
    for n, l in enumerate(open(path)):
        s = l
        if com:
            if "*/" in s:
                com = False
            continue
        if "/*" in s and "*/" not in s:
            com = True
            continue
        if SKIP.search(s) or len(s.strip()) < 6 or not s.startswith("   "):
            continue
        out.append(n)
    return out


def mutants(path, lo, hi):
    L = open(path).read().split("\n")
    res = []
    for n in lines_of(path):
        if not lo <= n + 1 <= hi:
            continue
        l = L[n]
        code = l.split("//")[0]
        for a, b in PAIRS:
            for m in re.finditer(a, code):
                new = code[:m.start()] + b + code[m.end():]
                if a in (r"\*",) and re.match(r".*(\w+ \*\w+|[<(,]\s*\w+ \*|\*(\w+)\s*=)", code):
                    continue
                if re.search(r"for \(", code) and a in (r"\+\+", r" < ", r"\bi\b", r"\bj\b", r" <= "):
                    continue
                if new != code:
                    res.append((n, l, new))
        if re.match(r"^\s+[\w\[\]().>\-:*]+(\(.*\)| [-+*/]?= .*);\s*$", code) and not re.match(r"^\s+(return|const|auto|double|int|bool|mfem::|std::)\b", code):
            res.append((n, l, re.match(r"^\s*", code).group(0) + ";"))
    return res


def worker(k, out, secs, files):
    M = "/tmp/mut"
    for src, dst in (("w", "/repo"), ("b", "/verif/build"), ("r", "/verif/replays"), ("e", "/verif/evidence")):
        os.makedirs("%s/%s%d" % (M, src, k), exist_ok=True)
        subprocess.run(["mount", "--bind", "%s/%s%d" % (M, src, k), dst], check=True)
    sys.path.insert(0, ROOT + "/bin")
    import targets
    anch = {}
    for l in open(ROOT + "/properties.jsonl"):
        p = json.loads(l)
        for f in p["anchors"]["files"]:
            anch.setdefault(f, []).append(p["id"])
    pick = []
    for f in files or sorted(anch):
        m = re.match(r"(.*?)(?::(\d+)-(\d+))?(?:@(.*))?$", f)
        f, lo, hi = m.group(1), int(m.group(2) or 1), int(m.group(3) or 10 ** 9)
        pids = m.group(4).split(",") if m.group(4) else anch.get(f, [])
        if not pids or "/data/" in f:
            continue
        ms = mutants("/repo/" + f, lo, hi)
        if ms:
            pick.append((f, ms, pids, len(set(n for n, _, _ in ms)) ** 0.6))
    rnd = random.Random(time.time() + k * 7919)
    end = time.time() + secs
    jobs = os.environ.get("MUT_JOBS", "2")
    todo = None
    if os.environ.get("MUT_LIST"):
        # B = [(properties, file, old text, new text), ...]: planted by hand
        g = {}
        exec(open(os.environ["MUT_LIST"]).read(), g)
        todo = g["B"][k::int(os.environ["MUT_N"])]
    while time.time() < end and todo != []:
        if todo:
            pids, f, old, new = todo.pop(0)
            path = "/repo/" + f
            txt = open(path).read()
            pids = pids.split(",")
            if txt.count(old) != 1:
                print("no unique match", f, repr(old))
                continue
            L = txt.replace(old, new).split("\n")
            n = txt[:txt.index(old)].count("\n")
        else:
            f, ms, pids, _ = rnd.choices(pick, [p[3] for p in pick])[0]
            n = rnd.choice(sorted(set(x[0] for x in ms)))
            n, old, new = rnd.choice([x for x in ms if x[0] == n])
            path = "/repo/" + f
            txt = open(path).read()
            L = txt.split("\n")
            L[n] = new
        open(path, "w").write("\n".join(L))
        rec = dict(file=f, line=n + 1, old=old.strip(), new=new.strip(), res={})
        t0 = time.time()
        verdict = "survived"
        for p in pids:
            env = dict(os.environ, PBT_JOBS=jobs, VERIF_SEED="1", VERIF_TIER="quick")
            if os.environ.get("MUT_FRAC"):
                env["PBT_SCALE"] = str(targets.TARGETS[p].get("qs", 10) * float(os.environ["MUT_FRAC"]))
            try:
                r = subprocess.run([ROOT + "/bin/check", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                c = r.returncode
                o = r.stdout
            except subprocess.TimeoutExpired:
                c, o = "timeout", ""
                subprocess.run(["pkill", "-9", "-f", "/verif/build/bin/" + p])
            rec["res"][p] = c
            if c == 1 and "VIOLATION" in o:
                verdict = "caught"
                m = re.search(r"VIOLATION.*", o)
                rec["what"] = o[max(0, m.start() - 300):m.end()][-400:]
                break
            if c == 2:
                verdict = "nobuild" if "does not build" in o else "error"
                rec["what"] = o[-400:]
                break
            if c == "timeout":
                verdict = "timeout"
                break
            if c != 0:
                verdict = "error"
                rec["what"] = o[-400:]
                break
        rec["verdict"] = verdict
        rec["secs"] = round(time.time() - t0)
        open(path, "w").write(txt)
        with open(out, "a") as fo:
            fo.write(json.dumps(rec) + "\n")


def main():
    if sys.argv[1] == "--worker":
        worker(int(sys.argv[2]), sys.argv[3], float(sys.argv[4]), sys.argv[5:])
        return
    out, n, secs, files = os.path.abspath(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4:]
    os.makedirs("/tmp/mut", exist_ok=True)
    for k in range(n):
        for a, b in (("/repo", "w"), ("/verif/build", "b")):
            subprocess.run(["rsync", "-a", "--delete", a + "/", "/tmp/mut/%s%d/" % (b, k)]) if os.path.exists("/usr/bin/rsync") else \
                (subprocess.run(["rm", "-rf", "/tmp/mut/%s%d" % (b, k)]), subprocess.run(["cp", "-a", a, "/tmp/mut/%s%d" % (b, k)]))
    ps = [subprocess.Popen(["unshare", "-Urm", "python3", os.path.abspath(__file__), "--worker", str(k), out, secs] + files, env=dict(os.environ, MUT_N=str(n))) for k in range(n)]
    for p in ps:
        p.wait()


main()
