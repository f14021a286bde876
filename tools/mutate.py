#!/usr/bin/env python3
"""mutate.py gen|tests|checks FILES...  - mutation testing of the checks (development tool, not part of any check).
Works in scratch copies under /tmp/mut; results in /tmp/mut/*.jsonl."""
import json, os, re, subprocess, sys, shutil, hashlib, concurrent.futures as cf, threading, queue, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/mut"
os.makedirs(W, exist_ok=True)
def strip(l):
    return re.sub(r'//.*', '', l).rstrip("\n")
def gen(files):
    out = []
    for f in files:
        L = open("/repo/" + f).read().split("\n")
        incomment = False
        for i, l in enumerate(L):
            s = strip(l).strip()
            if s.startswith("/*"): incomment = True
            if incomment:
                if "*/" in s: incomment = False
                continue
            if not s or s.startswith("#") or s.startswith("*"): continue
            if re.search(r'WSREP_LOG|log_(info|debug|warning|error)|debug_log|<<|^assert\(|static_assert', s): continue
            def add(new, kind):
                out.append(dict(file=f, line=i + 1, old=l, new=new, kind=kind))
            # statement deletion
            if s.endswith(";") and s.count("(") == s.count(")") and not re.match(r'(return|break|case|default|using|typedef|class|struct|enum|else|for|while|if|do|public|private|namespace|extern)\b', s) \
               and (re.match(r'[\w:\.\->\(\)\[\]\*]+\s*(=|\+=|-=)\s*[^=]', s) or re.match(r'[\w:\.\->]+\(.*\);$', s) or re.match(r'(\+\+|--)?[\w\.\->_]+(\+\+|--)?;$', s)):
                prev = strip(L[i-1]).strip() if i else ""
                if prev == "" or prev[-1] in ";{}:" or prev.startswith("//") or prev.endswith(")"):
                    add(l.replace(s, "(void)0;" ), "del")
            m = re.match(r'^(\s*(?:\}\s*)?(?:else )?if \()(.*)(\)\s*\{?)$', strip(l))
            if m and m.group(2).count("(") == m.group(2).count(")"):
                add(m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "neg")
                add(m.group(1) + "true || (" + m.group(2) + ")" + m.group(3), "true")
                add(m.group(1) + "false && (" + m.group(2) + ")" + m.group(3), "false")
            for a, b in ((" && ", " || "), (" || ", " && "), (" == ", " != "), (" != ", " == "), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > ")):
                for mm in re.finditer(re.escape(a), strip(l)):
                    if m and a in (" == ", " != ") and len(re.findall(r'&&|\|\|', m.group(2))) == 0: continue
                    add(l[:mm.start()] + b + l[mm.end():], "op")
            if s.endswith("&&") or s.endswith("||"):
                a, b = s[-2:], "||" if s.endswith("&&") else "&&"
                k = l.rindex(a); add(l[:k] + b + l[k+2:], "op")
                # drop a conjunct
                inner = re.match(r'^(\s*(?:(?:else )?if \()?)(.+?)\s*(&&|\|\|)$', strip(l))
                if inner and inner.group(2).count("(") == inner.group(2).count(")"):
                    add(inner.group(1) + ("true &&" if s.endswith("&&") else "false ||"), "drop")
            m2 = re.match(r'^(\s*)return (.+);$', strip(l))
            if m2:
                v = m2.group(2)
                if v in ("0", "1"): add(m2.group(1) + "return %d;" % (1 - int(v)), "ret")
                elif v in ("true", "false"): add(m2.group(1) + "return %s;" % ("false" if v == "true" else "true"), "ret")
                elif v == "ret": add(m2.group(1) + "return 0;", "ret"); add(m2.group(1) + "return 1;", "ret")
    seen, o2 = set(), []
    for m in out:
        k = (m["file"], m["line"], m["new"])
        if k in seen or m["new"] == m["old"]: continue
        seen.add(k); m["id"] = hashlib.md5(repr(k).encode()).hexdigest()[:8]; o2.append(m)
    return o2
def apply(root, m):
    p = root + "/" + m["file"]
    L = open("/repo/" + m["file"]).read().split("\n")
    assert L[m["line"] - 1] == m["old"]
    L[m["line"] - 1] = m["new"]
    open(p, "w").write("\n".join(L))
def undo(root, m):
    shutil.copyfile("/repo/" + m["file"], root + "/" + m["file"])
CXX = ["g++", "-std=gnu++11", "-O0", "-g0", "-w", "-Wall", "-Werror=return-type", "-D_GLIBCXX_ASSERTIONS"]
def setup(k):
    d = "%s/w%d" % (W, k)
    if not os.path.exists(d):
        os.makedirs(d)
    subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "_build", "--exclude", "obj", "--exclude", "t.exe", "--exclude", ".git", "/repo/", d + "/"]) if shutil.which("rsync") else \
        subprocess.check_call("rm -rf %s/src %s/include %s/test %s/dbsim; cp -a /repo/src /repo/include /repo/test /repo/dbsim /repo/CMakeLists.txt /repo/wsrep-API %s/ 2>/dev/null || true" % (d, d, d, d, d), shell=True)
    return d
def sh(c, timeout=120, **kw):
    try: return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw).returncode
    except subprocess.TimeoutExpired: return 124
LEFT = ("wsrep_provider_v26.cpp", "allowlist_service_v1.cpp", "config_service_v1.cpp", "connection_monitor_service_v1.cpp", "event_service_v1.cpp", "thread_service_v1.cpp", "tls_service_v1.cpp")
def compile_all(d, only=None):
    srcs = [d + "/src/" + x for x in os.listdir(d + "/src") if x.endswith(".cpp") and x not in LEFT] + [d + "/test/" + x for x in os.listdir(d + "/test") if x.endswith(".cpp")]
    if only: srcs = [s for s in srcs if s.endswith("/" + only)]
    os.makedirs(d + "/obj", exist_ok=True)
    def one(s):
        return sh(CXX + ["-I" + d + "/include", "-I" + d + "/src", "-I" + d + "/test", "-I" + d, "-c", s, "-o", d + "/obj/" + os.path.basename(s) + ".o"])
    with cf.ThreadPoolExecutor(8) as ex:
        if any(ex.map(one, srcs)): return False
    import glob
    return sh(["g++", "-o", d + "/t.exe"] + glob.glob(d + "/obj/*.o") + ["-no-pie", "-Wl,--unresolved-symbols=ignore-all", "-lpthread", "-ldl"]) == 0
def test(d):
    # whole run in one process; a failing run means some test fails
    return sh([d + "/t.exe", "--log_level=nothing", "--report_level=no", "--", "--wsrep-log-file=/dev/null"], timeout=30, cwd=d) == 0
def phase_tests(muts, out, workers=6):
    done = set()
    if os.path.exists(out): done = set(json.loads(l)["id"] for l in open(out))
    muts = [m for m in muts if m["id"] not in done]
    q = queue.Queue()
    for k in range(workers):
        d = setup(k); q.put(d)
    with cf.ThreadPoolExecutor(workers) as ex:
        def prep(k):
            assert compile_all("%s/w%d" % (W, k)); assert test("%s/w%d" % (W, k)), "baseline"
        list(ex.map(prep, range(workers)))
        lock = threading.Lock()
        def go(m):
            d = q.get()
            try:
                apply(d, m)
                hdr = m["file"].startswith("include")
                ok = compile_all(d, None if hdr else os.path.basename(m["file"]))
                r = "nocompile" if not ok else "survived" if test(d) else "killed"
                undo(d, m)
                if hdr: compile_all(d)
                else:
                    compile_all(d, os.path.basename(m["file"]))
            finally: q.put(d)
            with lock:
                with open(out, "a") as f: f.write(json.dumps(dict(m, res=r)) + "\n")
        list(ex.map(go, muts))
ORDER = {
 "src/transaction.cpp": "xa_faults xa commit nbo session multi stream_faults stream toi threads_view threads_stream threads apply_adopt pending_abort pending apply_faults stream_fa",
 "src/client_state.cpp": "session nbo rsu_threads rsu xa_faults xa commit multi toi threads_view threads_stream threads stream_faults stream apply_adopt pending apply_faults",
 "src/server_state.cpp": "pause rsu_threads rsu apply_adopt view nbo commit session threads_view threads_stream threads pending apply_faults apply server server_wait xa_faults stream_faults",
}
ORDER = {k: v.split() for k, v in ORDER.items()}
ALLH = "stream_fa pending_abort commit multi xa_faults xa nbo session rsu rsu_threads pause threads_view threads_stream threads stream_faults stream apply_adopt apply_faults toi view pending apply server server_wait".split()
def in_assert(m):
    ls = open("/repo/" + m["file"]).read().split("\n")
    i = m["line"] - 1
    t = ls[i]
    while i > 0 and not re.search(r"[;{}:]\s*$", ls[i - 1]): i -= 1; t = ls[i] + t
    return "assert(" in t or "debug_sync" in t or "FALLTHROUGH" in t
TEXT = "text_short text_scan text_uuid text_print text_gtid".split()
def phase_checks(muts, out, per=10, order=None):
    done = set()
    if os.path.exists(out): done = set(json.loads(l)["id"] for l in open(out))
    sys.path.insert(0, V)
    import checks, check, glob
    sh = os.environ.get("SHARD", "0/1").split("/")
    d = setup(90 + int(sh[0]))
    muts = muts[int(sh[0])::int(sh[1])]
    check.REPO = d
    wk = W + "/chk" + sh[0]; os.makedirs(wk, exist_ok=True)
    b = check.Build(wk)
    base = {f: [x.result() for x in b.lib_bc(f)] for f in ("off", "full")}
    names = [n for n in ALLH + TEXT if n in checks.H]
    H = checks.H
    def hb(n):
        h = H[n]; defs = list(h.get("defs", [])) + list(h.get("defs_quick", [])) + ["TIER_QUICK"]
        return b.bc(V + "/harness/" + h["src"], "%s/h_%s.bc" % (wk, n), "c++17", h.get("fmt", "off"), defs)
    with cf.ThreadPoolExecutor(8) as ex: hbc = dict(zip(names, ex.map(hb, names)))
    for m in muts:
        if m["id"] in done: continue
        apply(d, m)
        use = names if order is None else order
        istext = m["file"] in ("src/gtid.cpp", "src/id.cpp", "src/uuid.cpp")
        if order is None: use = TEXT if istext else ORDER.get(m["file"], ALLH[2:])
        mb = {}
        try:
            for f in set(H[n].get("fmt", "off") for n in use):
                if m["file"].startswith("src/"):
                    nm = os.path.basename(m["file"])
                    o = b.bc(d + "/" + m["file"], "%s/m_%s.bc" % (wk, f), "c++11", f)
                    mb[f] = [x for x in base[f] if not x.endswith("/" + nm + ".bc")] + [o]
                else:
                    bb = check.Build(wk + "/m"); os.makedirs(wk + "/m", exist_ok=True)
                    mb[f] = [x.result() for x in bb.lib_bc(f)]
        except check.Err: 
            undo(d, m); continue
        if not m["file"].startswith("src/"):
            with cf.ThreadPoolExecutor(8) as ex: list(ex.map(hb, use))
        res, inc, import_t = None, [], __import__("time")
        t0 = import_t.time()
        for n in use:
            allbc = wk + "/all.bc"; outp = wk + "/out"
            check.must([check.LLVM + "llvm-link", "-o", allbc, hbc[n]] + mb[H[n].get("fmt", "off")], "link")
            if os.path.exists(outp): os.remove(outp)
            r = check.sh([V + "/bin/wsym", allbc, "--out", outp, "--jobs", os.environ.get("JOBS", "8"), "--timeout", str(per), "--seed", "1", "--sample", "1", "--max-instr", str(H[n].get("max_instr", 4000000))])
            cov, summ = set(), None
            for l in open(outp, errors="replace"):
                try: e = json.loads(l)
                except ValueError: continue
                if e["kind"] in ("violation", "limit"): res = "%s: %s" % (n, e["msg"])
                elif e["kind"] == "unsupported": inc.append("%s unsupported %s" % (n, e["msg"]))
                elif e["kind"] == "cover": cov.add(e["msg"])
                elif e["kind"] == "summary": summ = e
            if res: break
            if summ and summ["incomplete"]: inc.append(n + " partial")
            else:
                miss = [c for c in H[n].get("covers", []) if c not in cov]
                if miss: inc.append("%s vacuous %s" % (n, miss))
        undo(d, m)
        if not m["file"].startswith("src/"):
            with cf.ThreadPoolExecutor(8) as ex: list(ex.map(hb, use))
        with open(out, "a") as f: f.write(json.dumps(dict(m, caught=res, inc=inc)) + "\n")
        print("%s %s:%d %s %s [%ds] %s %s\n    %s\n    %s" % (m["id"], m["file"], m["line"], m["kind"], "CAUGHT" if res else "MISSED", import_t.time() - t0, res or "", inc, m["old"].strip(), m["new"].strip()), flush=True)
if __name__ == "__main__":
    cmd, files = sys.argv[1], sys.argv[2:]
    if cmd == "gen":
        ms = gen(files); print(len(ms))
        for m in ms[:int(os.environ.get("N", "0"))]: print(m["line"], m["kind"], m["new"])
    elif cmd == "tests":
        phase_tests(gen(files), W + "/tests.jsonl")
    elif cmd == "checks":
        ms = [json.loads(l) for l in open(W + "/tests.jsonl")]
        ms = [m for m in ms if m["res"] == "survived" and (not files or m["file"] in files)]
        random.Random(1).shuffle(ms)
        ms = [m for m in ms if not in_assert(m)]
        seen, one, rest = set(), [], []
        for m in ms:            # one per line first
            if (m["file"], m["line"]) not in seen: seen.add((m["file"], m["line"])); one.append(m)
            else: rest.append(m)
        ms = (one + rest)[:int(os.environ.get("N", "1000"))]
        phase_checks(ms, W + "/checks.jsonl")
