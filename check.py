#!/usr/bin/env python3
"""Runner: builds the harness of one property from /repo's working tree, runs it, judges, writes evidence.

  check.py C01 [--tier quick|thorough]      decide a property
  check.py --replay FILE                    run one recorded execution again
  check.py --setup                          compile the runtime once
Exit: 0 held, 1 violated (VIOLATION line), 2 the check itself failed.
"""
import sys, os, json, subprocess, hashlib, time, re, shutil, fcntl, threading, struct, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
CACHE = os.path.join(V, ".cache"); SHADOW = "/opt/vp/lib/shadow"
try: NCPU = len(os.sched_getaffinity(0))
except Exception: NCPU = os.cpu_count() or 4
LIBSRC = ["src/pthread/thread.cpp", "src/pthread/once.cpp", "src/future.cpp"]
BASE = ["-std=gnu++17", "-w", "-DBOOST_THREAD_NO_LIB=1", "-DBOOST_ALL_NO_LIB", "-DBOOST_THREAD_POSIX"]
MODES = {  # compiler, flags, link flags, runtime sources
  "virt": ("g++", ["-O1", "-g1", "-fno-pie", "-fsanitize=thread"], ["-no-pie"], ["rt.cpp"]),
  "asan": ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"], ["-fsanitize=address,undefined"], ["native.cpp"]),
  "val": ("g++", ["-O1", "-g1", "-fno-omit-frame-pointer"], [], ["native.cpp"]),
  "tsan": ("clang++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"], ["-fsanitize=thread"], ["native.cpp"]),
}
LIBS = ["-lboost_chrono", "-lboost_atomic", "-lboost_date_time", "-pthread", "-ldl"]

class CheckError(Exception): pass

def log(*a): print(*a, file=sys.stderr, flush=True)

_treehash = {}
def tree_hash(root):
    if root in _treehash: return _treehash[root]
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".hpp", ".cpp", ".ipp", ".inl", ".h")):
                p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, "rb").read())
    _treehash[root] = h.hexdigest(); return _treehash[root]

_slots = threading.Semaphore(NCPU); _objlocks = {}; _ollock = threading.Lock()
def compile_obj(src, mode, defs, incs, key_extra):
    cxx, flags, _, _ = MODES[mode]
    is_rt = src.startswith(os.path.join(V, "rt")) 
    cmd = [cxx] + BASE
    if is_rt and mode == "virt": cmd += ["-O2", "-g1", "-fno-pie"]
    else: cmd += flags
    cmd += ["-I" + i for i in incs] + defs
    key = hashlib.sha256(json.dumps([cmd, src, open(src, "rb").read().hex(), key_extra if not is_rt else tree_hash(os.path.join(V, "rt"))]).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, "obj", key + ".o")
    with _ollock: lk = _objlocks.setdefault(key, threading.Lock())
    with lk, _slots: return compile_one(cmd, src, out)

def compile_one(cmd, src, out):
    if os.path.exists(out):
        try: os.utime(out)
        except OSError: pass
        return out
    tmp = out + ".%d.%d" % (os.getpid(), threading.get_ident())
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    if r.returncode:
        raise CheckError("compilation of %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-4000:]))
    os.replace(tmp, out); return out

def incs_for(unit):
    i = [os.path.join(V, "rt"), os.path.join(V, "scen")]
    if unit.get("shim"): i.append(os.path.join(V, "shim"))
    return i + [os.path.join(REPO, "include"), SHADOW]

def build(unit):
    """unit: dict(name, src, mode, defs)"""
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True); os.makedirs(os.path.join(CACHE, "bin"), exist_ok=True)
    mode = unit["mode"]; extra = [tree_hash(os.path.join(REPO, "include")), tree_hash(os.path.join(V, "scen")), tree_hash(os.path.join(V, "rt"))]
    lextra = [tree_hash(os.path.join(REPO, "include")), tree_hash(os.path.join(REPO, "src"))]
    jobs = []
    for s in unit["src"]: jobs.append((os.path.join(V, "scen", s), mode, ["-DVT_MODE_" + mode.upper()] + unit["defs"], incs_for(unit), extra))
    for s in LIBSRC + unit.get("libsrc", []): jobs.append((os.path.join(REPO, s), mode, ["-DBOOST_THREAD_BUILD_LIB=1"] + unit.get("libdefs", []), [os.path.join(REPO, "include"), SHADOW], lextra))
    for s in MODES[mode][3]: jobs.append((os.path.join(V, "rt", s), mode, [], [os.path.join(V, "rt")], []))
    with ThreadPoolExecutor(NCPU) as ex: objs = list(ex.map(lambda j: compile_obj(*j), jobs))
    key = hashlib.sha256(" ".join(objs + MODES[mode][2]).encode()).hexdigest()[:24]
    out = os.path.join(CACHE, "bin", unit["name"] + "-" + key)
    if not os.path.exists(out):
        tmp = out + ".%d.%d" % (os.getpid(), threading.get_ident())
        r = subprocess.run([MODES[mode][0]] + MODES[mode][2] + ["-o", tmp] + objs + LIBS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: raise CheckError("link of %s failed:\n%s" % (unit["name"], r.stdout.decode(errors="replace")[-4000:]))
        os.replace(tmp, out)
    return out

def prune_cache():
    for d in ("obj", "bin"):
        p = os.path.join(CACHE, d)
        try: fs = sorted(((os.path.getmtime(os.path.join(p, f)), f) for f in os.listdir(p)), reverse=True)
        except OSError: continue
        tot = 0
        for t, f in fs:
            try:
                tot += os.path.getsize(os.path.join(p, f))
                if tot > 3 << 30: os.unlink(os.path.join(p, f))
            except OSError: pass

def symbolize(binary, addrs):
    if not addrs: return []
    try:
        r = subprocess.run(["addr2line", "-f", "-C", "-s", "-e", binary] + ["0x%x" % (a - 1) for a in addrs], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120)
        L = r.stdout.decode(errors="replace").splitlines()
        return [(L[2 * i], L[2 * i + 1]) for i in range(len(addrs)) if 2 * i + 1 < len(L)]
    except Exception: return []

def strip_fn(f):
    f = re.sub(r"<[^<>]*>", "", f)
    for _ in range(6): f = re.sub(r"<[^<>]*>", "", f)
    return re.sub(r"\(.*", "", f)

def norm_key(v, binary):
    k = v["key"]; pcs = [int(x, 16) for x in re.findall(r"pc=0x([0-9a-f]+)", v["msg"])]
    if k in ("race", "badaccess", "badfree") and pcs and binary:
        s = symbolize(binary, pcs); v["where"] = ["%s at %s" % x for x in s]
        k += ":" + "|".join(sorted(strip_fn(x[0]) for x in s))
    return k

VIRT_ENV = {}
NAT_ENV = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=66:detect_leaks=1:detect_stack_use_after_return=1:halt_on_error=1", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
           "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4:detect_deadlocks=0:suppressions=" + os.path.join(V, "rt", "tsan.supp"), "LSAN_OPTIONS": "exitcode=66"}

def run_proc(cmd, env, timeout):
    e = dict(os.environ); e.update(env)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True)
    try: o, er = p.communicate(timeout=timeout); to = False
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, er = p.communicate(); to = True
    return p.returncode, o.decode(errors="replace"), er.decode(errors="replace"), to

def parse(out, err, rc, to, unit):
    """-> dict(stats, counts, did, viol|None, done)"""
    r = dict(stats={}, counts={}, did={}, viol=None, done=False, cap=[]); scn = None; lines = out.splitlines(); i = 0
    while i < len(lines):
        l = lines[i]; w = l.split(" ", 2)
        if w[0] == "SCN": scn = w[1]
        elif w[0] == "DID": r["did"][w[1]] = int(w[2]); scn = None
        elif w[0] == "STAT": r["stats"][w[1]] = int(w[2])
        elif w[0] == "COUNT": r["counts"][w[1]] = int(w[2])
        elif w[0] == "TIMECAP": r["cap"].append(w[1])
        elif w[0] == "DONE": r["done"] = True
        elif w[0] == "VIOL":
            m = re.match(r"VIOL key=(.*) scn=(\S+) seed=(\d+)", l)
            msg = lines[i + 1][4:] if i + 1 < len(lines) else ""
            r["viol"] = dict(key=m.group(1), scn=m.group(2), seed=int(m.group(3)), msg=msg, trace=lines[i:i + 260]); break
        i += 1
    if r["viol"] is None and not r["done"]:
        if to: r["viol"] = dict(key="hang", scn=scn or "-", seed=0, msg="no result within the watchdog", trace=lines[-20:])
        else:
            t = err[-200000:]; key = "exit-%s" % rc
            m = re.search(r"(ThreadSanitizer|AddressSanitizer|LeakSanitizer): ([\w\- ]+)", t); mv = re.search(r"==\d+== (Conditional jump|Use of uninit|Invalid read|Invalid write|Invalid free|Mismatched free|Syscall param)", t)
            if m: 
                key = m.group(1) + ":" + re.sub(r" on (address|unknown).*", "", m.group(2)).strip()
                fr = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (?:/|<|\()", t); fr = [strip_fn(f) for f in fr]
                fr = [f for f in fr if f and not f.startswith(("operator", "__", "std::", "malloc", "free"))]; key += ":" + (fr[0] if fr else "")
            elif mv:
                fr = [strip_fn(f) for f in re.findall(r"==\d+==    (?:at|by) 0x[0-9A-F]+: (.+?) \(", t)]
                key = "Memcheck:" + mv.group(1) + ":" + (fr[0] if fr else "")
            else:
                m = re.search(r"(\S+:\d+):\d+: runtime error: (.*)", t)
                if m: key = "UBSan:" + os.path.basename(m.group(1)).split(":")[0] + ":" + re.sub(r"[0-9a-fx]{4,}|\d+", "N", m.group(2))[:80]
            r["viol"] = dict(key=key, scn=scn or "-", seed=0, msg=(t[:6000] or "process ended with code %s" % rc), trace=lines[-20:])
    return r

def known(prop):
    L = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) unit=(\S+) scn=(\S+) key=(\S+) (.*)", l)
            if m: L.append(dict(property=m.group(1), unit=m.group(2), scn=m.group(3), key=m.group(4), text=m.group(5)))
    return [x for x in L if prop is None or x["property"] == prop]

def match_known(kf, unit, v):
    for k in kf:
        if re.fullmatch(k["unit"], unit["name"]) and re.fullmatch(k["scn"], v["scn"]) and re.fullmatch(k["key"], v["nkey"]): return k
    return None

def decide(prop, tier):
    from props import PROPS
    t0 = time.time(); P = PROPS[prop]; seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    kf = known(prop); seen_known = {}; tot = {}; counts = {}; did = {}; hashes = set(); viols = []; notes = []; modes = {}
    samples = []
    bins = []
    for u in P["units"]:
        u.setdefault("defs", []); u.setdefault("mode", "virt")
    for d in ("include", "src"): tree_hash(os.path.join(REPO, d))
    for d in ("scen", "rt"): tree_hash(os.path.join(V, d))
    # on a machine so slow or so loaded that building alone would use up the time, later real-thread units are left out (and noted)
    def build1(u): return build(u) if u["mode"] == "virt" or time.time() - t0 < (420 if tier == "quick" else 540) else None
    order = sorted(range(len(P["units"])), key=lambda i: P["units"][i]["mode"] != "virt")
    with ThreadPoolExecutor(NCPU) as ex: bb = list(ex.map(build1, [P["units"][i] for i in order]))
    bins = [None] * len(order)
    for i, b in zip(order, bb): bins[i] = b
    notes += ["%s not built: no time" % u["name"] for u, b in zip(P["units"], bins) if b is None]
    tb = time.time() - t0; log("%s: built in %.1fs" % (prop, tb))
    budget = 700 if tier == "quick" else 840
    keyre = P.get("keys"); others = {}
    def run_unit(u, b, share, nshare):
        """run one unit; -> (results, schedule hashes)"""
        n = u.get("thorough" if tier == "thorough" else "quick", 400 if tier == "quick" else 6000)
        native = u["mode"] != "virt"; nproc = u.get("procs", NCPU if not native else max(1, NCPU // 4))
        env = NAT_ENV if native else VIRT_ENV
        per = max(1, (n + nproc - 1) // nproc)
        left = (budget - (time.time() - t0)) * share / nshare; maxs = max(5, min(left * 0.9, u.get("maxs", 150 if tier == "quick" else 400)))
        listing = [l.split() for l in subprocess.run([b, "--list"], stdout=subprocess.PIPE, env=dict(os.environ, **env)).stdout.decode().splitlines()]
        deselect = [x[0] for x in listing if u.get("scns") and not re.fullmatch(u["scns"], x[0])]
        if keyre: deselect += [x[0] for x in listing if int(x[1]) & 32 and x[0] not in deselect]
        if len(deselect) == len(listing): return [], set()
        knownscn = [x[0] for x in listing if int(x[1]) & 32 and x[0] not in deselect]
        pre = ["valgrind", "-q", "--error-exitcode=67", "--exit-on-first-error=yes", "--fair-sched=yes", "--child-silent-after-fork=yes"] if u["mode"] == "val" else []
        jobs = []
        hd = os.path.join(CACHE, "h%d-%s" % (os.getpid(), u["name"])); os.makedirs(hd, exist_ok=True)
        for k in range(nproc):
            jobs.append((k, pre + [b, "--seed", str(seed * 1000 + k), "--count", str(per), "--cpu", str(k), "--max-s", "%.0f" % maxs, "--tier", "1" if tier == "thorough" else "0", "--hashes", os.path.join(hd, "%d" % k)]))
        for s in knownscn: jobs.append((0, pre + [b, "--seed", str(seed), "--count", "40", "--scn", s, "--max-s", "60"]))
        def one(j):
            k, cmd = j; skip = list(deselect); rs = []
            while True:
                c = cmd + (["--skip", ",".join(skip)] if skip else [])
                rc, o, e, to = run_proc(c, env, maxs * 2 + 90)
                r = parse(o, e, rc, to, u); rs.append(r)
                v = r["viol"]
                if not v: return rs
                v["nkey"] = norm_key(v, b if not native else None); v["cmd"] = c
                foreign = keyre and not re.match(keyre, v["nkey"])   # another property's verdict, seen on the way
                if foreign: r["viol"] = None; others["%s/%s: %s" % (u["name"], v["scn"], v["nkey"])] = 1
                if (foreign or match_known(kf, u, v)) and v["scn"] not in skip and "--scn" not in cmd: skip += [s for s in r["did"] if s not in skip] + [v["scn"]]; continue
                return rs
        with ThreadPoolExecutor(nproc) as ex: res = list(ex.map(one, jobs))
        hs = set()
        for k in range(nproc):
            p = os.path.join(hd, "%d" % k)
            if os.path.exists(p):
                d = open(p, "rb").read(); hs.update(struct.unpack("<%dQ" % (len(d) // 8), d))
        shutil.rmtree(hd, ignore_errors=True)
        return res, hs
    def take(u, b, res, hs):
        hashes.update(hs)
        for rs in res:
            for r in rs:
                for a, x in r["stats"].items(): tot[a] = tot.get(a, 0) + x
                for a, x in r["counts"].items(): counts[a] = counts.get(a, 0) + x
                for a, x in r["did"].items(): did[u["name"] + "/" + a] = did.get(u["name"] + "/" + a, 0) + x
                modes[u["mode"]] = modes.get(u["mode"], 0) + r["stats"].get("executions", 0)
                for c in r["cap"]: notes.append("time cap reached in %s/%s" % (u["name"], c))
                v = r["viol"]
                if v:
                    k = match_known(kf, u, v)
                    if k: seen_known[k["text"]] = v
                    else: viols.append((u, b, v))
    pairs = [x for x in zip(P["units"], bins) if x[1] is not None]; nv = [x for x in pairs if x[0]["mode"] == "virt"]; nn = [x for x in pairs if x[0]["mode"] != "virt"]
    for i, (u, b) in enumerate(nv):
        take(u, b, *run_unit(u, b, 0.5 if nn else 1.0, 1 if not nn else len(nv) - i))
        if viols: break
    if nn and not viols:   # real threads: several units at once
        conc = P.get("concurrent", 4); rounds = max(1, (len(nn) + conc - 1) // conc)
        stop = threading.Event()
        def nat(x):
            if stop.is_set(): return (x, [], set())
            r = run_unit(x[0], x[1], 1.0, rounds)
            if any(q["viol"] and not match_known(kf, x[0], q["viol"]) for rs in r[0] for q in rs): stop.set()
            return (x,) + tuple(r)
        with ThreadPoolExecutor(conc) as ex:
            for x, res, hs in ex.map(nat, nn): take(x[0], x[1], res, hs)
    if others: notes += ["seen on the way, decided by another property's check: " + k for k in sorted(others)]
    # confirm
    final = []
    for u, b, v in viols[:12]:
        native = u["mode"] != "virt"
        if v["key"].startswith("harness"): raise CheckError("harness: " + v["msg"])
        if v["key"] == "hang" or native:   # re-run once before reporting anything that depends on real time
            if v["key"] == "hang" or v["key"].startswith("slow"):
                rc, o, e, to = run_proc(v["cmd"], NAT_ENV if native else VIRT_ENV, 400)
                if not to and rc == 0: notes.append("one run hit the watchdog and passed when repeated (inconclusive)"); continue
        final.append((u, b, v))
    if not final and not did: raise CheckError("nothing was executed")
    for u in P["units"]:
        for s in P.get("require", []):
            if not final and counts.get(s, 0) == 0: raise CheckError("the run observed no '%s' events" % s)
    for text in seen_known: print("KNOWN-FINDING: property=%s %s" % (prop, text))
    lines = []; keys = set()
    os.makedirs(os.path.join(V, ".cache", "replay"), exist_ok=True)
    for u, b, v in final:
        if v["nkey"] in keys: continue
        keys.add(v["nkey"])
        rp = os.path.join(V, ".cache", "replay", "%s-%s-%s-%d.json" % (prop, u["name"], v["scn"], v["seed"]))
        json.dump(dict(property=prop, unit=u["name"], scn=v["scn"], seed=v["seed"], key=v["nkey"], msg=v["msg"], where=v.get("where", []), cmd=v["cmd"], trace=v["trace"]), open(rp, "w"), indent=1)
        print("violation in %s/%s seed %d: %s: %s %s" % (u["name"], v["scn"], v["seed"], v["nkey"], v["msg"][:1500], "; ".join(v.get("where", []))))
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
    for l in lines[:5]: print(l)
    samples = [dict(scenario=k, executions=x) for k, x in sorted(did.items())]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(time.time() - t0, 2), violations=len(keys),
      coverage=dict(evaluations=sum(did.values()), distinct_nontrivial=len(hashes), 
        rule="one evaluation is one execution of a seeded random scenario on the real code; the seed fixes workload, schedule, clock steps and faults. distinct_nontrivial counts distinct hashes of the full sequence of (thread, synchronisation operation, context switch) among executions with more context switches than threads (virtual-scheduler executions only).",
        samples=samples[:80], executions_by_mode=modes, monitor=tot, observed_events=counts, known_findings_seen=sorted(seen_known), notes=sorted(set(notes)), build_s=round(tb, 1)),
      assumptions=["scheduling points are the pthread calls and instrumented memory accesses of the library and harness; interleavings are sequentially consistent and weaker orderings are judged by happens-before", "the modelled pthread, clock and allocation calls behave as POSIX specifies"])
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    prune_cache()
    print("%s %s: %s (%d executions, %d distinct schedules, %.1fs)" % (prop, tier, "VIOLATED" if keys else "held on everything explored", sum(did.values()), len(hashes), time.time() - t0))
    return 1 if keys else 0

def replay(f):
    from props import PROPS
    d = json.load(open(f)); u = [x for x in PROPS[d["property"]]["units"] if x["name"] == d["unit"]][0]
    u.setdefault("defs", []); u.setdefault("mode", "virt"); b = build(u)
    if u["mode"] == "virt" and d["seed"]: cmd = [b, "--scn", d["scn"], "--exec", str(d["seed"])]
    else: cmd = d["cmd"]; cmd[0] = b
    rc, o, e, to = run_proc(cmd, NAT_ENV if u["mode"] != "virt" else VIRT_ENV, 600)
    print(o[-20000:]); print(e[-5000:], file=sys.stderr)
    r = parse(o, e, rc, to, u)
    return 1 if r["viol"] else 0

def main():
    a = sys.argv[1:]
    try:
        if a[0] == "--setup":
            os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
            compile_obj(os.path.join(V, "rt", "rt.cpp"), "virt", [], [os.path.join(V, "rt")], []); print("setup ok"); return 0
        if a[0] == "--replay": return replay(a[1])
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a: tier = a[a.index("--tier") + 1]
        if tier not in ("quick", "thorough"): tier = "quick"
        return decide(a[0], tier)
    except CheckError as e:
        print("CHECK-ERROR", e); return 2
    except subprocess.TimeoutExpired as e:
        print("CHECK-ERROR timeout", e); return 2

if __name__ == "__main__": sys.exit(main())
