#!/usr/bin/env python3
"""run.py <ID> [quick|thorough]     decide one property on /repo's current tree
   run.py --replay <file>           run a replay file again
   run.py --setup                   build what the checks need"""
import json, os, re, subprocess, sys, time, hashlib
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "vlib"))
import build, spec

def log(*a):
    print(*a, flush=True)

def run_one(exe, case, tmo):
    try:
        r = subprocess.run([exe, "one", case, str(tmo)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tmo + 30, env=spec.env())
        o = r.stdout.decode(errors="replace").strip()
        return r.returncode != 0, (o.splitlines() or [""])[-1]
    except subprocess.TimeoutExpired:
        return True, "FAIL did not finish within %d s" % tmo

def run_seq(exe, cases, tmo):
    """the cases one after another in one process: (index of the one that failed or None, what happened)"""
    try:
        r = subprocess.run([exe, "seq", str(tmo)], input="\n".join(cases).encode() + b"\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=tmo + 30, env=spec.env())
    except subprocess.TimeoutExpired:
        return None, ""
    o = (r.stdout.decode(errors="replace").strip().splitlines() or [""])[-1].split(" ", 2)
    if len(o) < 2 or o[0] != "FAIL" or r.returncode == 0:
        return None, ""
    return int(o[1]), "FAIL " + (o[2] if len(o) > 2 else "")

def confirm_seq(exe, cases, tmo, limit):
    """does the last case fail after the others (twice out of twice)?  then drop what is not needed of them"""
    t0 = time.time(); det = None
    for _ in range(2):
        k, det = run_seq(exe, cases, tmo)
        if k is None or det.startswith("FAIL did not finish"):
            return None, None
        cases = cases[:k + 1]
    step = max(1, (len(cases) - 1) // 2)
    while step >= 1 and time.time() - t0 < limit:
        a = 0
        while a < len(cases) - 1 and time.time() - t0 < limit:
            rest = cases[:a] + cases[min(a + step, len(cases) - 1):]
            k, d = run_seq(exe, rest, tmo)
            if k is not None and not d.startswith("FAIL did not finish") and run_seq(exe, rest[:k + 1], tmo)[0] == k:
                cases, det = rest[:k + 1], d
            else:
                a += step
        step //= 2
    return cases, det

def first_failing(exe, cands, tmo):
    try:
        r = subprocess.run([exe, "batch", str(tmo)], input="\n".join(cands).encode() + b"\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=(tmo + 2) * len(cands) + 60, env=spec.env())
    except subprocess.TimeoutExpired:
        return None
    for l in r.stdout.decode(errors="replace").splitlines():
        if l.startswith("FIRST "):
            return int(l.split()[1])
    return None

def parse(line):
    w = line.split(" ")
    return w[0], [tuple(x.split("=", 1)) if "=" in x else (x, "") for x in w[1:]]

def unparse(word, kv):
    return " ".join([word] + ["%s=%s" % (k, v) if v != "" else k for k, v in kv])

SMALL_N = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 18, 20, 25, 28, 30, 32, 36, 49, 60, 64, 98, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072]
SIMPLE = {"T": ["1:0", "2:0", "3:0", "4:0", "8:0"], "sig": ["imp:0", "const", "uni"], "seed": ["1"], "off": ["0"], "late": ["0"], "threads": ["2", "3", "4"], "reps": ["1", "2", "4"]}

def candidates(line):
    """simplifications of a case, most aggressive first"""
    word, kv = parse(line)
    out = []
    def put(i, v):
        k = list(kv); k[i] = (k[i][0], v); out.append(unparse(word, k))
    for i, (k, v) in enumerate(kv):
        sep = ";" if ";" in v else "." if k == "h" and "." in v else None
        items = v.split(sep) if sep else None
        if items and len(items) > 1:                     # a history: drop chunks
            n = len(items); step = n // 2
            while step >= 1:
                for a in range(0, n, step):
                    rest = items[:a] + items[a + step:]
                    if rest:
                        put(i, sep.join(rest))
                step //= 2
        elif "," in v:
            items = v.split(",")
            if len(items) > 8:
                put(i, ",".join(items[:len(items) // 2])); put(i, ",".join(items[len(items) // 2:]))
            else:
                for x in items:
                    put(i, x)
        elif k in ("n", "n1", "n2", "log") and re.match(r"\d+$", v):
            n = int(v); kind = dict(kv).get("kind", "")
            def legal(m):                                # stay among the lengths the case's kind of object accepts
                if kind in ("c", "b") or k != "n":
                    return True
                if word in ("xf", "hom", "nf", "rng", "stk") or n & (n - 1):
                    return n % 2 == 1 or m % 2 == 0
                return m & (m - 1) == 0 and (m > 1 or n == 1)
            for m in (SMALL_N if k != "log" else range(n)):
                if m < n and legal(m):
                    put(i, str(m))
            for p in (2, 3, 5, 7):
                if n % p == 0 and n // p not in SMALL_N and legal(n // p):
                    put(i, str(n // p))
        elif k in SIMPLE:
            for x in SIMPLE[k]:
                if x == v:
                    break
                put(i, x)
    return out

def shrink(exe, line, limit, tmo):
    t0 = time.time(); seen = {line}; changed = True
    while changed and time.time() - t0 < limit:
        changed = False
        c = [x for x in candidates(line) if x not in seen]
        for a in range(0, len(c), 40):
            if time.time() - t0 > limit:
                break
            part = c[a:a + 40]; seen.update(part)
            i = first_failing(exe, part, tmo)
            if i is not None and i < len(part):
                line = part[i]; changed = True
                break
    return line

def known(pid):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) case="([^"]*)" (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

def confirm(exe, case, tmo, flaky):
    """does the case fail again, on its own?  three times out of three unless real threads are involved"""
    if flaky:
        for _ in range(12):
            f, d = run_one(exe, case, tmo)
            if f:
                return d
        return None
    d = None
    for _ in range(3):
        f, d = run_one(exe, case, tmo)
        if not f:
            return None
    return d

def main():
    if sys.argv[1] == "--setup":
        spec.build_all(); build.prune(); return 0
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2])); exe = spec.PARTS[r["part"]]["build"]()
        bad = False
        for _ in range(12 if r.get("flaky") else 1):
            f, d = run_one(exe, r["case"], 600) if not r.get("before") else run_seq(exe, r["before"] + [r["case"]], 900); log(d)
            f = f is not None and f is not False
            if f:
                bad = True; break
        if bad:
            log("VIOLATION property=%s replay=%s" % (r["property"], sys.argv[2]))
        return 1 if bad else 0
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    prop = spec.PROPS[pid]; t0 = time.time()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True); os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=prop["rule"], samples=[], classes={}, maxima={}, parts=[])
    viol = []; notes = []; kf = known(pid); kfhit = set()
    for name in prop["parts"]:
        part = spec.PARTS[name]; tb = time.time()
        if part.get("only", tier) != tier:
            continue
        try:
            exe = part["build"]()
        except build.BuildError as e:
            if part.get("optional"):
                notes.append("part %s not built on this tree" % name); log("note:", notes[-1], str(e)[-600:]); continue
            log(str(e)); log("ERROR: could not build %s" % name); return 2
        bt = time.time() - tb
        out = os.path.join(build.BUILD, "out-%s-%s-%d.json" % (pid, name, os.getpid()))
        dl = part["deadline"][0 if tier == "quick" else 1]
        cmd = [exe, "run", part.get("prop", pid), tier, str(seed), str(part.get("workers", build.NJ)), str(dl), out]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=spec.env())
        if not os.path.exists(out) and r.returncode in (-4, -5, -6, -7, -8, -11):     # the library brings the program down before or outside any case
            again = [subprocess.run([exe, "one", "startup", "60"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=spec.env()).returncode for _ in range(2)]
            if all(x == r.returncode for x in again):
                rp = os.path.join(V, "replays", "%s-startup-%s.json" % (pid, name)); det = "a program linked with the library is killed by signal %d before main" % -r.returncode
                json.dump(dict(property=pid, part=name, case="startup", original="", bundle="", detail=det, flaky=False, how="python3 /verif/run.py --replay " + rp), open(rp, "w"), indent=1)
                viol.append(dict(case="startup", detail=det, replay=rp)); log("failing case: startup\n   " + det); log("VIOLATION property=%s replay=%s" % (pid, rp)); break
        if not os.path.exists(out):
            log(r.stdout.decode(errors="replace")[-3000:]); log("ERROR: harness %s gave no result (status %d)" % (name, r.returncode)); return 3
        j = json.load(open(out)); os.remove(out)
        cov["evaluations"] += j["evaluations"]; cov["distinct_nontrivial"] += j["distinct_nontrivial"]
        cov["samples"] += ["%s: %s" % (name, s) if len(prop["parts"]) > 1 else s for s in j["samples"][:12]]
        for k, v in j["classes"].items():
            cov["classes"][k] = cov["classes"].get(k, 0) + v
        for k, v in j["maxima"].items():
            cov["maxima"][k] = max(cov["maxima"].get(k, v), v)
        cov["parts"].append(dict(part=name, bundles=j["bundles_total"], bundles_run=j["bundles_done"], truncated=j["truncated"], evaluations=j["evaluations"], distinct_nontrivial=j["distinct_nontrivial"], build_s=round(bt, 1), run_s=j["wall_s"]))
        log("%s %s: %d cases, %d distinct non-trivial, %d of %d bundles, build %.0f s, run %.0f s, %d failing" % (pid, name, j["evaluations"], j["distinct_nontrivial"], j["bundles_done"], j["bundles_total"], bt, j["wall_s"], len(j["fails"])))
        unrep, lines = 0, None
        flaky = part.get("flaky", False); budget = time.time() + (150 if tier == "quick" else 900)
        for f in sorted(j["fails"], key=lambda f: (len(f["sub"]) == 0, f["kind"], len(f["sub"]))):
            if viol and time.time() > budget:
                break
            hit = [k for k in kf if re.search(k[0], f["sub"]) or re.search(k[0], f["bundle"])]
            if hit:
                kfhit.add(hit[0]); continue
            if len(viol) >= 3:
                break
            tmo = 200 if f["kind"] == 2 else 120
            case, det, before = None, None, []
            for c in (f["sub"], f["bundle"]):
                if c:
                    det = confirm(exe, c, tmo, flaky)
                    if det is not None:
                        case = c; break
            if case is None:
                if flaky and f["kind"] == 0:      # an observed wrong result or race stands, even if it is rare
                    case, det = f["bundle"], f["detail"]
                elif f.get("before") and f["kind"] != 2 and unrep < 2 and time.time() - t0 < (450 if tier == "quick" else 1e9):   # alone it passes: does it fail after what the process had done before?
                    unrep += 1
                    if lines is None:
                        lines = subprocess.run([exe, "list", part.get("prop", pid), tier, str(seed)], stdout=subprocess.PIPE, env=spec.env()).stdout.decode().splitlines()
                    if all(b < len(lines) for b in f["before"]):
                        c, det = confirm_seq(exe, [lines[b] for b in f["before"]] + [f["bundle"]], 180 if tier == "quick" else 3000, 60 if tier == "quick" else 600)
                        if c:
                            before, case = c[:-1], c[-1]
                if case is None:
                    log("note: not reproduced, not reported: %s : %s" % (f["sub"] or f["bundle"], f["detail"])); notes.append("one unreproduced event: " + f["detail"]); continue
            elif not before:
                if not viol:
                    small = shrink(exe, case, 45 if tier == "quick" else 300, 20 if f["kind"] != 2 else 60)
                    if small != case:
                        d2 = confirm(exe, small, tmo, flaky)
                        if d2 is not None:
                            case, det = small, d2
            rp = os.path.join(V, "replays", "%s-%s.json" % (pid, hashlib.sha256("\n".join(before + [case]).encode()).hexdigest()[:10]))
            if any(v["replay"] == rp for v in viol):
                continue
            json.dump(dict(property=pid, part=name, case=case, before=before, original=f["sub"], bundle=f["bundle"], detail=det, flaky=flaky, how="python3 /verif/run.py --replay " + rp), open(rp, "w"), indent=1)
            viol.append(dict(case=case, detail=det, replay=rp))
            log("failing case: %s%s\n   %s" % ("".join(b + "\n   then, in the same process: " for b in before[:20]), case, det))
            log("VIOLATION property=%s replay=%s" % (pid, rp))
        if viol:
            break
    for k in sorted(kfhit):
        log("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
    ev = dict(property=pid, tier=tier, seed=seed, level=prop.get("level", "exploration"), coverage=cov, wall_s=round(time.time() - t0, 1), assumptions=prop.get("assumptions", []) + notes)
    if viol:
        ev["violations"] = len(viol); ev["violation_cases"] = viol
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    if not viol:
        log("OK property=%s %d cases (%d distinct non-trivial) in %.0f s" % (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 1 if viol else 0

if __name__ == "__main__":
    sys.exit(main())
