#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property: compiles /repo's current sources to LLVM IR together
with the property's harness(es), lets bin/wsym execute them symbolically (z3
decides every branch and assertion), validates sampled paths and replays every
counterexample against a native build of the same sources, writes the evidence
file.  Exit 0: held on everything explored; 1: VIOLATION; 2: no verdict.
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("WSYM_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin/"
sys.path.insert(0, HERE)
from checks import CHECKS, LEFT_OUT, WRAPS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

class Err(Exception):
    pass

def must(cmd, what):
    r = sh(cmd)
    if r.returncode:
        raise Err("%s failed:\n%s\n%s" % (what, " ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def lib_sources():
    return [f for f in sorted(glob.glob(REPO + "/src/*.cpp"))
            if os.path.basename(f) not in LEFT_OUT]

class Build:
    def __init__(self, work):
        self.work = work
        self.pool = cf.ThreadPoolExecutor(8)
        self.memo = {}

    def bc(self, src, out, std, fmt, defs=(), extra=()):
        cmd = [LLVM + "clang++", "-std=" + std, "-O1", "-gline-tables-only", "-emit-llvm", "-c", "-w",
               "-fno-vectorize", "-fno-slp-vectorize", "-fno-pic", "-fno-builtin-printf",
               "-I" + HERE + "/rt/include", "-I" + HERE + "/rt", "-I" + HERE + "/harness",
               "-I" + REPO + "/include", "-I" + REPO + "/src", "-DWSYM=1"]
        if fmt == "off":
            cmd.append("-DWSYM_FMT_OFF")
        cmd += ["-D" + d for d in defs] + list(extra) + [src, "-o", out]
        must(cmd, "compiling %s to IR" % os.path.basename(src))
        return out

    def lib_bc(self, fmt):
        d = self.work + "/bc_" + fmt
        os.makedirs(d, exist_ok=True)
        fs = [self.pool.submit(self.bc, s, d + "/" + os.path.basename(s) + ".bc", "c++11", fmt)
              for s in lib_sources()]
        fs.append(self.pool.submit(self.bc, HERE + "/rt/sym_rt.cpp", d + "/sym_rt.bc", "c++17", fmt, (), ["-fno-builtin"]))
        fs.append(self.pool.submit(self.bc, HERE + "/rt/env.cpp", d + "/env.bc", "c++17", fmt))
        return fs

    def native_obj(self, src, out, std, defs=()):
        cmd = ["g++", "-std=" + std, "-O0", "-g1", "-c", "-w", "-fsanitize=address",
               "-fno-omit-frame-pointer",
               "-I" + HERE + "/rt", "-I" + HERE + "/harness", "-I" + REPO + "/include", "-I" + REPO + "/src"]
        cmd += ["-D" + d for d in defs] + [src, "-o", out]
        must(cmd, "compiling %s natively" % os.path.basename(src))
        return out

    def native_lib(self):
        d = self.work + "/nat"
        os.makedirs(d, exist_ok=True)
        fs = [self.pool.submit(self.native_obj, s, d + "/" + os.path.basename(s) + ".o", "c++11")
              for s in lib_sources()]
        for s in ("env.cpp", "native_rt.cpp"):
            fs.append(self.pool.submit(self.native_obj, HERE + "/rt/" + s, d + "/" + s + ".o", "c++17"))
        return fs

    def native_link(self, objs, out):
        must(["g++", "-fsanitize=address", "-no-pie", "-o", out] + objs +
             ["-Wl,--unresolved-symbols=ignore-all"] +
             ["-Wl,--wrap=" + w for w in WRAPS] + ["-lpthread", "-ldl"], "linking native harness")
        return out

def run_native(exe, inputs, scratch, fill=None, timeout=30):
    inf, outf = scratch + ".in", scratch + ".out"
    with open(inf, "w") as f:
        for n, v in inputs:
            f.write("%s %d\n" % (n, v))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=43:max_malloc_fill_size=1048576:malloc_fill_byte=%d"
               % (fill if fill is not None else 0xbe), TZ="UTC")
    try:
        r = subprocess.run([exe, inf, outf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, env=env)
        rc, txt = r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        rc, txt = "timeout", (e.stdout or b"").decode("utf-8", "replace")
    try:
        out = open(outf, errors="replace").read()
    except OSError:
        out = ""
    return rc, out, txt

def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    verbose = "-v" in args
    t0 = time.time()
    spec = CHECKS[pid]
    only = args[args.index("--only") + 1] if "--only" in args else None
    os.makedirs(HERE + "/.work", exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + ".", dir=HERE + "/.work")
    known = []
    kf = HERE + "/known-findings.jsonl"
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l:
                k = json.loads(l)
                if k.get("property") == pid and k.get("status") == "open":
                    known.append(k)
    try:
        return run(pid, spec, tier, seed, work, t0, verbose, known, only)
    except Err as e:
        print("ERROR:", e)
        return 2
    finally:
        if "--keep" not in args:
            shutil.rmtree(work, ignore_errors=True)

def run(pid, spec, tier, seed, work, t0, verbose, known, only):
    must([HERE + "/build_engine.sh"], "building the engine")
    b = Build(work)
    harnesses = [h for h in spec["harnesses"] if tier in h.get("tiers", ("quick", "thorough"))]
    if only:
        harnesses = [h for h in harnesses if h["name"] == only]
    fmts = sorted(set(h.get("fmt", "off") for h in harnesses))
    libf = {f: b.lib_bc(f) for f in fmts}
    hb = []
    for h in harnesses:
        defs = list(h.get("defs", [])) + list(h.get("defs_" + tier, [])) + ["TIER_" + tier.upper()]
        h["_defs"] = defs
        src = HERE + "/harness/" + h["src"]
        hb.append(b.pool.submit(b.bc, src, "%s/h_%s.bc" % (work, h["name"]), "c++17", h.get("fmt", "off"), defs))
    nat = b.native_lib()
    hn = []
    for h in harnesses:
        src = HERE + "/harness/" + h["src"]
        hn.append(b.pool.submit(b.native_obj, src, "%s/h_%s.o" % (work, h["name"]), "c++17", h["_defs"]))
    linked = {}
    for f in fmts:
        linked[f] = [x.result() for x in libf[f]]
    totals = dict(paths=0, forks=0, instrs=0, branches=0, queries=0, sat=0, unsat=0, unknown=0,
                  cache_hits=0, asserts=0, assumed_away=0, solver_s=0.0, violations=0)
    funcs, covers, samples, per = set(), set(), [], []
    viols, problems, partial = [], [], []
    validated = 0
    mism = []
    t_build = time.time() - t0
    natready = None
    for h, x, y in zip(harnesses, hb, hn):
        hbc = x.result()
        allbc = "%s/%s.all.bc" % (work, h["name"])
        must([LLVM + "llvm-link", "-o", allbc, hbc] + linked[h.get("fmt", "off")], "llvm-link")
        out = "%s/%s.out" % (work, h["name"])
        budget = h.get("budget_" + tier, 600 if tier == "quick" else 6000)
        if tier == "quick":         # leave room for the remaining harnesses and the replays
            left = 800 - (time.time() - t0)
            budget = int(max(30, min(budget, left)))
        cmd = [HERE + "/bin/wsym", allbc, "--out", out, "--jobs", "8", "--timeout", str(budget),
               "--seed", str(seed), "--sample", str(h.get("sample", 24)),
               "--max-instr", str(h.get("max_instr", 4000000))]
        if verbose:
            cmd.append("-v")
        ts = time.time()
        r = sh(cmd)
        if r.returncode:
            raise Err("engine failed (%s): %s" % (r.returncode, r.stdout[-3000:]))
        if verbose and r.stdout:
            print(r.stdout[-4000:])
        summ, paths, hv, uns, sites, hcov = None, [], [], [], {}, set()
        for l in open(out, errors="replace"):
            try:
                d = json.loads(l)
            except ValueError:
                problems.append("%s: unparsable engine output" % h["name"])
                continue
            k = d["kind"]
            if k == "summary": summ = d
            elif k == "path": paths.append(d)
            elif k in ("violation", "limit"): hv.append(d)
            elif k == "unsupported": uns.append(d["msg"])
            elif k == "cover": hcov.add(d["msg"])
            elif k == "funcs": funcs.update(d["names"])
            elif k == "forksite": sites[d["msg"]] = sites.get(d["msg"], 0) + d["n"]
        if summ is None:
            raise Err("engine gave no summary for " + h["name"])
        if verbose:
            for s, n in sorted(sites.items(), key=lambda q: -q[1])[:25]:
                print("   fork %7d %s" % (n, s))
        for k in totals:
            totals[k] += summ.get(k, 0)
        covers |= set(h["name"] + ":" + c for c in hcov)
        if uns:
            problems.append("%s: not encodable: %s" % (h["name"], uns[0]))
        if summ["incomplete"]:
            if summ["paths"] > 0:
                partial.append("%s: exploration budget of %ss exhausted" % (h["name"], budget))
            else:
                problems.append("%s: exploration budget of %ss exhausted" % (h["name"], budget))
        if summ["unknown"]:
            problems.append("%s: solver answered unknown" % h["name"])
        missing = [c for c in h.get("covers", []) if c not in hcov]
        # native validation
        obj = y.result()
        if natready is None:
            natready = [q.result() for q in nat]
        exe = b.native_link([obj] + natready, "%s/%s.exe" % (work, h["name"]))
        paths.sort(key=lambda d: (-d["forks"], json.dumps(d["inputs"])))
        pick = paths[:h.get("validate", 24)]
        def one(i):
            d = pick[i]
            rc, o, txt = run_native(exe, d["inputs"], "%s/%s.v%d" % (work, h["name"], i), fill=0)
            want = ["NOTE %s %d" % (n, v) for n, v in d["notes"]]
            got = [q for q in o.splitlines() if q.startswith("NOTE ")]
            ok = rc == 0 and got == want
            return ok, d, rc, o, txt, want, got
        with cf.ThreadPoolExecutor(8) as ex:
            for ok, d, rc, o, txt, want, got in ex.map(one, range(len(pick))):
                if ok:
                    validated += 1
                else:
                    k = next((i for i in range(max(len(want), len(got))) if want[i:i+1] != got[i:i+1]), None)
                    mism.append("%s: rc=%s first difference at note %s: engine %s native %s; tail %s %s" % (
                        h["name"], rc, k, want[k:k+1] if k is not None else "", got[k:k+1] if k is not None else "", o[-300:], txt[-1500:]))
        if not hv and not summ["stopped"]:
            if missing and not summ["incomplete"]:
                problems.append("%s: vacuous, never reached: %s" % (h["name"], ", ".join(missing)))
            if summ["paths"] == 0:
                problems.append("%s: no path completed" % h["name"])
        # counterexamples
        nrep = 0
        for i, d in enumerate(hv):
            rep, rc, o, txt = False, None, "", ""
            for fill in (0xbe, 0, 0xff, 1):
                rc, o, txt = run_native(exe, d["inputs"], "%s/%s.x%d" % (work, h["name"], i), fill=fill,
                                        timeout=30)
                if d["kind"] == "limit":
                    rep = rc == "timeout"
                else:
                    # the verdict of the native run: a failed property assertion, a
                    # crash / assert / sanitizer report; 0 and 77 do not reproduce
                    rep = rc not in (0, 77)
                if rep:
                    break
            if rep:
                nrep += 1
                viols.append((h, d, rc, o, txt, exe))
            else:
                problems.append("%s: counterexample does not replay natively: %s @ %s (rc=%s %s)" % (
                    h["name"], d["msg"], d["loc"][:400], rc, (o[-300:] + txt[-600:])))
        per.append(dict(harness=h["name"], what=h.get("what", ""), bounds=h.get("bounds", ""), defs=h["_defs"],
                        paths=summ["paths"], forks=summ["forks"], queries=summ["queries"], unsat=summ["unsat"],
                        instructions=summ["instrs"], solver_s=summ["solver_s"], wall_s=round(time.time() - ts, 2),
                        max_forks_on_a_path=summ["max_depth"], reached=sorted(hcov)))
        for d in paths[:2]:
            samples.append(dict(harness=h["name"], inputs=d["inputs"][:60], trace=d["notes"][:60]))
        if verbose:
            print("%s: %s" % (h["name"], json.dumps({k: v for k, v in summ.items() if k != "kind"})))
    if mism:
        for m in mism[:5]:
            problems.append("translator validation mismatch: " + m)
    wall = time.time() - t0
    # known findings
    fresh, knownhit = [], []
    for v in viols:
        hit = None
        for k in known:
            if k["harness"] == v[0]["name"] and re.search(k["match"], v[1]["msg"]):
                hit = k
        (knownhit if hit else fresh).append((v, hit))
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "model_checking"),
              coverage=dict(
                  states=totals["paths"] + totals["forks"],
                  transitions=totals["instrs"],
                  traces_validated_against_impl=validated,
                  samples=samples[:6],
                  paths=totals["paths"], forks=totals["forks"], symbolic_branches=totals["branches"],
                  assertions_checked=totals["asserts"],
                  solver=dict(name="z3 4.8.12", queries=totals["queries"], sat=totals["sat"], unsat=totals["unsat"],
                              unknown=totals["unknown"], cache_hits=totals["cache_hits"], seconds=round(totals["solver_s"], 3)),
                  harnesses=per,
                  functions_encoded=sorted(f for f in funcs if f.startswith("wsrep::") or " wsrep::" in f)[:400],
                  exhaustive=not problems and not partial),
              assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=len(fresh))
    if problems or partial:
        ev["coverage"]["problems"] = problems + partial
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
    seen = set()
    for v, k in knownhit:
        if k["id"] not in seen:
            seen.add(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if fresh:
        rd = HERE + "/replay/" + pid
        os.makedirs(rd, exist_ok=True)
        (h, d, rc, o, txt, exe), _ = fresh[0]
        path = "%s/%s.json" % (rd, h["name"])
        json.dump(dict(property=pid, harness=h["name"], source=h["src"], defs=h["_defs"], message=d["msg"], location=d["loc"],
                       inputs=d["inputs"], trace=d["notes"], native_exit=rc, native_output=(o + txt)[-4000:]),
                  open(path, "w"), indent=1)
        for (h2, d2, rc2, o2, txt2, e2), _ in fresh[:6]:
            print("counterexample [%s]: %s" % (h2["name"], d2["msg"]))
            print("  at %s" % d2["loc"][:600])
            print("  inputs %s" % " ".join("%s=%d" % (n, x) for n, x in d2["inputs"][:80]))
            print("  native replay: exit %s %s" % (rc2, [q for q in o2.splitlines() if not q.startswith("NOTE")][-1:]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if problems:
        for p in problems:
            print("PROBLEM:", p)
        return 2
    for p in partial:
        print("PARTIAL:", p)
    print("OK property=%s tier=%s paths=%d queries=%d (unsat %d) solver=%.1fs validated=%d build=%.0fs wall=%.0fs" % (
        pid, tier, totals["paths"], totals["queries"], totals["unsat"], totals["solver_s"], validated, t_build, wall))
    return 0

if __name__ == "__main__":
    sys.exit(main())
