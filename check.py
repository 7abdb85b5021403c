#!/usr/bin/env python3
"""Decides one property by generated-input search.

  check.py C01                 run the check of C01 (tier from VERIF_TIER or --tier, seed from VERIF_SEED)
  check.py --replay FILE       rebuild and re-run a saved failure
  check.py --build-all         build everything (setup)

Exit 0: the property held on everything explored. Exit 1: a line VIOLATION property=<id> replay=<path>.
Anything else is an error of the check itself.
"""
import sys, os, json, hashlib, subprocess, time, shutil, struct, tempfile, glob, threading, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GAPP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 4

FP = ["-fno-math-errno", "-fno-trapping-math", "-freciprocal-math", "-fno-signed-zeros", "-fno-associative-math", "-fno-finite-math-only"]
COMMON = ["-std=c++20", "-g1", "-D_GLIBCXX_ASSERTIONS", "-DGAPP_BUILD_STATIC", "-I", os.path.join(REPO, "src"), "-pthread", "-w"] + FP
UB = "-fno-sanitize=null,alignment,vptr,object-size,return,nonnull-attribute,returns-nonnull-attribute"
VARIANTS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fsanitize=address,undefined", UB, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-fsanitize=thread"],
}
# The same with coverage, for the guided search of the thorough tier.
GUIDED = {"plain": "plain+cov", "asan": "asan+cov"}
for k, v in GUIDED.items(): VARIANTS[v] = VARIANTS[k] + ["-fsanitize-coverage=trace-pc", "-DPBT_COV"]
ENV_RUN = dict(ASAN_OPTIONS="detect_leaks=0:exitcode=98:detect_stack_use_after_return=0:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=1:exitcode=97", TSAN_OPTIONS="exitcode=96:halt_on_error=1:second_deadlock_stack=1")

with open(os.path.join(VERIF, "checks.json")) as f:
    CHECKS = json.load(f)

def log(*a): print(*a, file=sys.stderr, flush=True)

class BuildError(Exception): pass

# ---------------------------------------------------------------- building

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:20]

def tree_hash(root, exts):
    items = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                with open(p, "rb") as fh: items.append(os.path.relpath(p, root).encode() + b"\0" + hashlib.sha256(fh.read()).digest())
    return sha(*items)

def parts_of(cid, guided):
    ps = CHECKS[cid]["harness"]
    if not guided: return ps
    return ps + [dict(p, variant=GUIDED[p["variant"]], name=p["name"] + "+cov", plain=p["name"]) for p in ps if p["variant"] in GUIDED]

def build(checks_, guided=False):
    """Compiles what the given checks need. Returns {check id: binary}. Object files are cached by content hash."""
    os.makedirs(BUILD, exist_ok=True)
    srch = tree_hash(os.path.join(REPO, "src"), (".cpp", ".hpp", ".h", ".inl", ".def", ".tsp"))
    harh = tree_hash(os.path.join(VERIF, "harness"), (".hpp",))
    libsrc = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))
    jobs, links = {}, {}
    for cid in checks_:
        for part in parts_of(cid, guided):
            variant, src = part["variant"], part["src"]
            flags = COMMON + VARIANTS[variant] + part.get("flags", [])
            objs = []
            if part.get("lib", True):
                for s in libsrc:
                    o = os.path.join(BUILD, "o-%s.o" % sha(srch, s, *(COMMON + VARIANTS[variant])))
                    jobs.setdefault(o, (1, ["g++"] + COMMON + VARIANTS[variant] + ["-c", s, "-o"])); objs.append(o)
            hs = src if isinstance(src, list) else [src]
            for s in hs:
                p = os.path.join(VERIF, "harness", s)
                with open(p, "rb") as fh: hh = hashlib.sha256(fh.read()).hexdigest()
                o = os.path.join(BUILD, "h-%s.o" % sha(srch, harh, s, hh, *flags))
                jobs.setdefault(o, (0, ["g++"] + flags + ["-I", os.path.join(VERIF, "harness"), "-c", p, "-o"])); objs.append(o)
            binp = os.path.join(BUILD, "b-%s" % sha(*objs))
            links[(cid, part["name"])] = (binp, objs, VARIANTS[variant])
    todo = sorted((pr, o, cmd) for o, (pr, cmd) in jobs.items() if not os.path.exists(o) and not all_linked(o, links))
    errs = []
    def comp(o, cmd):
        if errs: return
        tmp = o + ".%d.tmp.o" % os.getpid()
        r = subprocess.run(cmd + [tmp], capture_output=True, text=True)
        if r.returncode: errs.append((cmd, r.stderr)); return
        os.replace(tmp, o)
    with ThreadPoolExecutor(NCPU) as ex:
        for pr, o, cmd in todo: ex.submit(comp, o, cmd)
    if errs:
        raise BuildError("compilation failed: %s\n%s" % (" ".join(errs[0][0][-3:]), errs[0][1][:6000]))
    res = {}
    def link(binp, objs, vf):
        if os.path.exists(binp): return
        tmp = binp + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + vf + ["-pthread"] + objs + ["-o", tmp], capture_output=True, text=True)
        if r.returncode: errs.append(("link", r.stderr)); return
        os.replace(tmp, binp)
    with ThreadPoolExecutor(NCPU) as ex:
        for k, (b, objs, vf) in links.items(): ex.submit(link, b, objs, vf)
    if errs: raise BuildError("linking failed: %s" % errs[0][1][:6000])
    for k, (b, objs, vf) in links.items(): res[k] = b
    prune()
    return res

def all_linked(o, links):
    users = [b for b, objs, _ in links.values() if o in objs]
    return users and all(os.path.exists(b) for b in users)

def prune(limit=int(os.environ.get("VERIF_BUILD_LIMIT", str(6 << 30)))):
    """Keeps the build cache bounded."""
    fs = []
    for f in os.listdir(BUILD):
        p = os.path.join(BUILD, f)
        try: st = os.stat(p); fs.append((st.st_mtime, st.st_size, p))
        except OSError: pass
    tot = sum(s for _, s, _ in fs)
    for m, s, p in sorted(fs):
        if tot <= limit or time.time() - m < 3600: break
        try: os.remove(p); tot -= s
        except OSError: pass

# ---------------------------------------------------------------- running

def read_state(path, with_tape=False):
    try:
        with open(path, "rb") as f:
            magic, idx, ln, done = struct.unpack("<4Q", f.read(32))
            tape = None
            if with_tape:
                n = min(ln, 1 << 20)
                tape = list(struct.unpack("<%dQ" % n, f.read(8 * n)))
            return idx, ln, done, tape
    except (OSError, struct.error): return None

def run_env():
    e = dict(os.environ); e.update(ENV_RUN); e["LC_ALL"] = "C.UTF-8"
    return e

def replay_once(binp, prop, tape, hang_s, tmp):
    """Returns (failed, kind, text)."""
    fd, tf = tempfile.mkstemp(dir=tmp); os.write(fd, " ".join(map(str, tape)).encode()); os.close(fd)
    try:
        p = subprocess.run([binp, "--prop", prop, "--replay", tf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=run_env(), timeout=hang_s, text=True, errors="replace", cwd=tmp)
    except subprocess.TimeoutExpired:
        return True, "hang", "no result after %d s" % hang_s
    finally:
        os.unlink(tf)
    if p.returncode == 0: return False, "pass", ""
    if p.returncode == 10:
        try: j = json.loads(p.stdout.strip().splitlines()[-1]); return True, "fail", j["msg"] + "\n  case: " + j["desc"]
        except Exception: return True, "fail", p.stdout[-3000:]
    if p.returncode == 70: raise RuntimeError("worker error: " + p.stderr)
    return True, "crash", "exit %d\n%s" % (p.returncode, p.stderr[-6000:] if len(p.stderr) > 6000 else p.stderr)

def shrink(binp, prop, tape, kind, hang_s, tmp, budget_s):
    """Minimises a failing tape: deletes blocks, zeroes blocks, lowers values. Keeps the kind of failure."""
    if kind == "hang": return tape
    t_end = time.time() + budget_s
    best = list(tape)
    execs = 0
    def ok(t): return replay_once(binp, prop, t, hang_s, tmp)[:2] == (True, kind)
    def try_all(cands):
        nonlocal execs
        if time.time() > t_end: return None
        with ThreadPoolExecutor(NCPU) as ex: rs = list(ex.map(ok, cands))
        execs += len(cands)
        for c, r in zip(cands, rs):
            if r: return c
        return None
    changed = True
    while changed and time.time() < t_end:
        changed = False
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < t_end:
            i = 0
            while i < len(best) and time.time() < t_end:
                cands = []
                for k in range(NCPU):
                    j = i + k * size
                    if j >= len(best): break
                    cands.append(best[:j] + best[j + size:])
                    if size > 1 or True:
                        z = best[:j] + [0] * len(best[j:j + size]) + best[j + size:]
                        if z != best: cands.append(z)
                r = try_all(cands)
                if r is not None: best = r; changed = True
                else: i += NCPU * size
            size //= 2
        i = 0
        while i < len(best) and time.time() < t_end:
            v = best[i]
            if v:
                cands = [best[:i] + [w] + best[i + 1:] for w in sorted({v // 2, v - 1, v // 4, v // 1024, 1} - {v}) if w < v]
                r = try_all(cands) if cands else None
                if r is not None: best = r; changed = True; continue
            i += 1
    return best

class Shard:
    def __init__(self, binp, prop, seed, lo, hi, step, max_s, tmp, hang_s, plain=None):
        self.binp, self.prop, self.tmp, self.hang_s = plain or binp, prop, tmp, hang_s
        self.tag = os.path.join(tmp, "%s-%d-%d" % (prop, lo, id(self)))
        self.cmd = [binp, "--prop", prop, "--seed", str(seed), "--from", str(lo), "--to", str(hi), "--step", str(step), "--max-s", str(max_s), "--state", self.tag + ".st", "--out", self.tag + ".out"]
        if plain: self.cmd += ["--guided", "1"]
        self.fail = None; self.summary = None
    def run(self, stop):
        if stop.is_set(): return self
        err = open(self.tag + ".err", "wb+")
        p = subprocess.Popen(self.cmd, stdout=subprocess.DEVNULL, stderr=err, env=run_env(), cwd=self.tmp)
        last, t_last, hung, cpu_last = None, time.time(), False, 0.0
        while True:
            try: p.wait(timeout=0.25); break
            except subprocess.TimeoutExpired: pass
            st = read_state(self.tag + ".st")
            key = st and (st[0], st[2])
            if key != last: last, t_last = key, time.time()
            if time.time() - t_last > self.hang_s: hung = True; p.kill(); p.wait(); break
            if stop.is_set(): p.kill(); p.wait(); return self
        err.seek(0); errt = err.read().decode(errors="replace"); err.close()
        if p.returncode == 0 and not hung:
            for line in open(self.tag + ".out"):
                j = json.loads(line)
                if j["type"] == "fail":
                    st = read_state(self.tag + ".st", True)
                    self.fail = dict(kind="fail", index=j["index"], text=j["msg"] + "\n  case: " + j["desc"], tape=st[3])
                else: self.summary = j
        else:
            if p.returncode == 70: raise RuntimeError("worker error: " + errt)
            st = read_state(self.tag + ".st", True)
            self.fail = dict(kind="hang" if hung else "crash", index=st[0] if st else -1, tape=st[3] if st else [],
                             text=("no progress for %d s" % self.hang_s) if hung else "exit %d\n%s" % (p.returncode, errt[-6000:]))
        try: os.unlink(self.tag + ".st")
        except OSError: pass
        return self

def load_known():
    """known_findings.txt: lines 'KNOWN property=<id> key=<sub-check>:<message substring> :: what fails' or 'fixed: ...'."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"): continue
            if line.startswith("KNOWN "):
                head, _, what = line.partition(" :: ")
                f = dict(x.split("=", 1) for x in head.split()[1:])
                out.append(dict(property=f["property"], sub=f["sub"], what=what))
    return out

def run_check(cid, tier, seed, only=None):
    t0 = time.time()
    cfg = CHECKS[cid]
    level = cfg.get("level", "exploration")
    # The guided search: what reached new code is kept and mutated. Its failures are confirmed, shrunk and replayed like the others.
    guided = tier == "thorough" and cfg.get("guided", True) or os.environ.get("VERIF_GUIDED") == "1"
    guided_s = float(os.environ.get("VERIF_GUIDED_S", "1800"))
    bins = build([cid], guided)
    tb = time.time() - t0
    known = [k for k in load_known() if k["property"] == cid]
    tmp = tempfile.mkdtemp(prefix="gappchk-")
    hang_s = cfg.get("hang_s", 60)
    gstat = {}
    total, distinct, labels, samples, persub, rules, assume = 0, set(), {}, [], {}, [], []
    fails = []
    planned = 0
    try:
        jobs = []
        for part in parts_of(cid, guided):
            binp = bins[(cid, part["name"])]
            plain = bins[(cid, part["plain"])] if "plain" in part else None
            info = json.loads(subprocess.run([binp, "--list", "1"], capture_output=True, text=True, env=run_env(), check=True).stdout)
            if info["rule"] and not plain: rules.append(info["rule"])
            assume += [a for a in info["assumptions"] if a not in assume]
            for pr in info["props"]:
                if only and pr["name"] not in only: continue
                if part.get("only") and pr["name"] not in part["only"]: continue
                n = pr[tier]
                if tier == "thorough": n = int(n * float(os.environ.get("VERIF_SCALE", "1")))
                n = int(n * cfg.get("scale", 1))
                if n == 0: continue
                if not plain: planned += n
                shards = max(1, min(NCPU, n // 4))
                max_s = cfg.get("max_s", {}).get(tier, 150 if tier == "quick" else 3000)
                if plain: max_s = max(10, min(300, int(guided_s / len(info["props"]))))
                for s in range(shards):
                    jobs.append((n / shards, s, Shard(binp, pr["name"], seed ^ (1 << 40) if plain else seed, s, n, shards, max_s, tmp, hang_s, plain), part["variant"]))
        jobs.sort(key=lambda j: j[1])
        stop = threading.Event()
        # Stop everything shortly after the first failure: one confirmed failure decides.
        def go(j):
            r = j[2].run(stop)
            if r.fail and not any(k["sub"] == r.prop for k in known): stop.set()
            return r, j[3]
        with ThreadPoolExecutor(cfg.get("parallel", NCPU)) as ex: results = list(ex.map(go, jobs))
        for r, variant in results:
            if r.summary:
                s = r.summary
                d = persub.setdefault(r.prop + ("" if variant == "plain" else "@" + variant), dict(cases=0, nontrivial=0))
                d["cases"] += s["done"]; d["nontrivial"] += s["nontrivial"]
                if s.get("features"):
                    g = gstat.setdefault(r.prop, dict(cases=0, tapes_kept=0, features=0))
                    g["cases"] += s["done"]; g["tapes_kept"] += s["corpus"]; g["features"] = max(g["features"], s["features"])
                total += s["done"]
                distinct |= {(r.prop, x) for x in s["distinct"]}
                for k, v in s["labels"].items(): labels[r.prop + "/" + k] = labels.get(r.prop + "/" + k, 0) + v
                if len([x for x in samples if x.startswith(r.prop + " ")]) < 2: samples += s["samples"][:1]
            if r.fail: fails.append((r, variant))
        violations = 0
        lines = []
        unconfirmed = []
        seen_known = set()
        for r, variant in sorted(fails, key=lambda x: (len(x[0].fail["tape"] or []))):
            kn = [k for k in known if k["sub"] == r.prop]
            if kn:
                if r.prop not in seen_known:
                    seen_known.add(r.prop)
                    lines.append("KNOWN-FINDING: property=%s %s" % (cid, kn[0]["what"]))
                continue
            if violations: continue
            f = r.fail
            hs = min(hang_s, 40) if f["kind"] == "hang" else hang_s
            reps = [replay_once(r.binp, r.prop, f["tape"], hs, tmp) for _ in range(3)]
            good = [x for x in reps if x[0]]
            flaky_ok = cfg.get("nondeterministic", False)
            if len(good) < 3 and flaky_ok and not good:
                reps = [replay_once(r.binp, r.prop, f["tape"], hs, tmp) for _ in range(20)]
                good = [x for x in reps if x[0]]
            if len(good) == 3 or (flaky_ok and good) or (flaky_ok and f["kind"] in ("fail", "crash")):
                kind = good[0][1] if good else f["kind"]
                tape = f["tape"]
                if len(good) == 3: tape = shrink(r.binp, r.prop, f["tape"], kind, hs, tmp, 25 if tier == "quick" else 120)
                final = replay_once(r.binp, r.prop, tape, hs, tmp)
                if not final[0]: tape, final = f["tape"], (True, f["kind"], f["text"])
                rp = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (cid, r.prop, sha(json.dumps(tape))[:10]))
                os.makedirs(os.path.dirname(rp), exist_ok=True)
                with open(rp, "w") as fh: json.dump(dict(property=cid, sub=r.prop, variant=variant.partition("+")[0], part=[p["name"] for p in cfg["harness"] if bins[(cid, p["name"])] == r.binp][0], seed=seed, index=f["index"], kind=final[1], tape=tape, what=final[2]), fh, indent=1)
                print("%s: %s failed (%s, case %d, tape of %d choices shrunk to %d):\n%s" % (cid, r.prop, final[1], f["index"], len(f["tape"]), len(tape), final[2][:5000]))
                lines.append("VIOLATION property=%s replay=%s" % (cid, rp))
                violations += 1
            else:
                unconfirmed.append("%s case %d (%s): %s" % (r.prop, f["index"], f["kind"], f["text"][:500]))
        for k in known:
            if k["sub"] not in seen_known: log("note: known finding no longer observed:", k["what"])
        ev = dict(property=cid, tier=tier, seed=seed, level=level,
                  coverage=dict(evaluations=total, distinct_nontrivial=len(distinct), rule=" ".join(rules), samples=samples[:12], per_check=persub, labels=labels, planned=planned, build_s=round(tb, 1), unconfirmed=unconfirmed),
                  assumptions=assume, wall_s=round(time.time() - t0, 2), violations=violations)
        if gstat: ev["coverage"]["guided"] = gstat
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as fh: json.dump(ev, fh, indent=1)
        log("%s %s seed=%d: %d cases (%d distinct non-trivial), build %.1f s, total %.1f s" % (cid, tier, seed, total, len(distinct), tb, time.time() - t0))
        for l in lines: print(l)
        sys.stdout.flush()
        if violations: return 1
        if unconfirmed:
            log("error: a failure was observed that did not reproduce:", *unconfirmed); return 3
        if total < planned * 0.2 or not distinct:
            log("error: only %d of %d planned cases were run" % (total, planned)); return 4
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def replay(path):
    j = json.load(open(path))
    bins = build([j["property"]])
    tmp = tempfile.mkdtemp(prefix="gappchk-")
    try:
        failed, kind, text = replay_once(bins[(j["property"], j["part"])], j["sub"], j["tape"], 120, tmp)
        print("%s %s: %s" % (j["property"], j["sub"], "FAILS (%s)\n%s" % (kind, text) if failed else "passes"))
        if failed: print("VIOLATION property=%s replay=%s" % (j["property"], path))
        return 1 if failed else 0
    finally: shutil.rmtree(tmp, ignore_errors=True)

def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: i = args.index("--tier"); tier = args[i + 1]; del args[i:i + 2]
    only = None
    if "--only" in args: i = args.index("--only"); only = args[i + 1].split(","); del args[i:i + 2]
    try: seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError: seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    try:
        if args[0] == "--build-all": build(list(CHECKS)); return 0
        if args[0] == "--replay": return replay(args[1])
        rc = 0
        for cid in args: rc = max(rc, run_check(cid, tier, seed, only))
        return rc
    except BuildError as e:
        log("error: " + str(e)); return 2

if __name__ == "__main__": sys.exit(main())
