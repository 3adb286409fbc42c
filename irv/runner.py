"""Check driver: compile the real sources, verify the contracts in parallel, run the executable contracts,
write evidence, report."""
import os, sys, time, json, subprocess, tempfile, shutil, pickle, signal, select, hashlib, importlib, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = ["clang++", "-std=c++11", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-I%s/include" % REPO, "-I%s" % REPO, "-I%s/src" % REPO, "-I%s/external" % REPO, "-DUSE_PTHREAD", "-DHAS_NUMPY_DEV", "-fno-access-control", "-ffp-contract=off", "-emit-llvm", "-c", "-w"]
PASSES = "always-inline,function(lower-expect,sroa,simplifycfg,instcombine<no-verify-fixpoint>,simplifycfg,loop-simplify)"

class Group:
    """one translation unit of entry points and the contracts verified on it"""
    def __init__(self, tu, contracts, flags=(), keep=(), inline=None, passes=None, ext=None, setup=None, ext_re=()):
        self.tu = tu; self.contracts = contracts; self.flags = list(flags); self.keep = keep; self.inline = inline; self.passes = passes or PASSES; self.ext = ext or {}; self.setup = setup; self.ext_re = list(ext_re)

class Battery:
    """executable contracts: a C++ driver compiled against the real sources"""
    def __init__(self, src, sources=(), flags=(), bounded=(), san=True, quick=20, thorough=240, timeout=300):
        self.src = src; self.sources = list(sources); self.flags = list(flags); self.bounded = list(bounded); self.san = san
        self.quick = quick; self.thorough = thorough; self.timeout = timeout

def run_tasks(tasks, jobs, deadline):
    """tasks: list of (key, fn). Each runs in its own forked process; returns {key: result or Exception text}"""
    res = {}; run = {}; todo = list(tasks)
    while todo or run:
        while todo and len(run) < jobs:
            key, fn = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r); code = 0
                try:
                    os.setpgid(0, 0)
                    out = pickle.dumps(fn())
                    with os.fdopen(w, "wb") as f: f.write(out)
                except BaseException as e:
                    try:
                        with os.fdopen(w, "wb") as f: f.write(pickle.dumps(("crash", "%s: %s" % (type(e).__name__, e))))
                    except BaseException: pass
                os._exit(0)
            os.close(w)
            run[r] = (key, pid, [])
        rd, _, _ = select.select(list(run), [], [], 1.0)
        for fd in rd:
            d = os.read(fd, 1 << 20)
            if d: run[fd][2].append(d); continue
            key, pid, buf = run.pop(fd); os.close(fd); os.waitpid(pid, 0)
            try: res[key] = pickle.loads(b"".join(buf))
            except Exception: res[key] = ("crash", "worker died")
            if key[0] == "bat" and isinstance(res[key], dict) and res[key].get("fails"): deadline = min(deadline, time.time() + 25)   # a failing input settles it
        if time.time() > deadline:
            for fd, (key, pid, buf) in list(run.items()):
                try: os.killpg(pid, signal.SIGKILL)
                except OSError:
                    try: os.kill(pid, signal.SIGKILL)
                    except OSError: pass
                os.waitpid(pid, 0); os.close(fd); res[key] = ("crash", "time budget exhausted")
            run = {}
            for key, _ in todo: res[key] = ("crash", "time budget exhausted before start")
            todo = []
    return res

def load_group(g, scratch, idx):
    from . import llvmir as ir
    from .contract import Registry
    from specs.ext import EXT
    bc = os.path.join(scratch, "g%d.bc" % idx)
    p = subprocess.run(CLANG + ["-I%s/tu" % VERIF] + g.flags + [os.path.join(VERIF, "tu", g.tu), "-o", bc], capture_output=True, text=True)
    if p.returncode != 0: return None, None, p.stderr[-3000:]
    mod = ir.Module(bc)
    reg = Registry(); reg.ext = dict(EXT); reg.ext.update(g.ext); reg.ext_re = list(g.ext_re)
    keep = set()
    for c in g.contracts:
        if hasattr(c, "setmod"): c.setmod(mod)
        n = c.target(mod)
        if n is not None: keep.add(n)
    keep |= set(g.keep)
    mod.set_inline(lambda n: n in keep, g.inline or (lambda n: True))
    mod.run_passes(g.passes)
    for c in g.contracts: reg.add(mod, c)
    if g.setup: g.setup(mod, reg)
    return mod, reg, None

def compile_battery(b, scratch, idx):
    exe = os.path.join(scratch, "bt%d" % idx)
    srcs = []
    for s in b.sources: srcs += sorted(glob.glob(os.path.join(REPO, s), recursive=True)) if "*" in s else [os.path.join(REPO, s)]
    flags = ["-std=c++11", "-O1", "-g", "-pthread", "-DUSE_PTHREAD", "-DHAS_NUMPY_DEV", "-w", "-I%s/include" % REPO, "-I%s" % REPO, "-I%s/src" % REPO, "-I%s/external" % REPO, "-I%s/bt" % VERIF, "-fno-access-control"]
    if b.san is True: flags += ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,pointer-overflow,vptr,alignment,float-cast-overflow,float-divide-by-zero", "-fno-sanitize-recover=undefined"]
    elif b.san: flags += b.san
    objs = []; procs = []
    odir = os.path.join(scratch, "o%d" % idx); os.makedirs(odir, exist_ok=True)
    for i, s in enumerate([os.path.join(VERIF, "bt", b.src)] + srcs):
        o = os.path.join(odir, "%d.o" % i); objs.append(o)
        procs.append((s, ["g++"] + flags + b.flags + ["-c", s, "-o", o]))
    errs = []; running = []
    while procs or running:
        while procs and len(running) < 8:
            s, cmd = procs.pop(0); running.append((s, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        s, p = running.pop(0); out, _ = p.communicate()
        if p.returncode: errs.append("%s: %s" % (s, out[-1500:]))
    if errs: return None, "\n".join(errs)
    p = subprocess.run(["g++"] + flags + objs + b.flags + ["-o", exe, "-ldl"], capture_output=True, text=True)
    shutil.rmtree(odir)
    if p.returncode: return None, p.stderr[-3000:]
    return exe, None

def run_battery(b, exe, scratch, seed, secs, tag):
    """returns dict: status ok/fail/error, out, evaluations..."""
    d = tempfile.mkdtemp(prefix="run_", dir=scratch)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:abort_on_error=0:max_allocation_size_mb=8192", UBSAN_OPTIONS="print_stacktrace=1", BT_DIR=d)
    t0 = time.time()
    try:
        p = subprocess.Popen([exe, str(seed), str(secs)], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            out, err = p.communicate(timeout=b.timeout + secs)
            rc = p.returncode; hung = False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); out, err = p.communicate(); rc = -9; hung = True
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = out.decode("utf-8", "replace"); err = err.decode("utf-8", "replace")
    R = {"rc": rc, "hung": hung, "wall": time.time() - t0, "out": out[-20000:], "err": err[-6000:], "src": b.src, "seed": seed, "secs": secs, "known": []}
    R["evals"] = 0; R["distinct"] = 0; R["samples"] = []
    R["fails"] = []
    for l in out.split("\n"):
        if l.startswith("STAT "):
            for kv in l.split()[1:]:
                k, v = kv.split("=", 1)
                if k in ("evals", "distinct"): R[k] = int(v)
        elif l.startswith("SAMPLE "): R["samples"].append(l[7:][:300])
        elif l.startswith("FAIL "): R["fails"].append(l[5:])
        elif l.startswith("KNOWN "): R["known"].append(l[6:])
    if rc != 0 and not R["fails"]:
        last = [l[5:] for l in out.split("\n") if l.startswith("CASE ")]
        why = "the run hung" if hung else ("the run crashed or a sanitizer stopped it (exit %d)" % rc)
        R["fails"].append("%s%s%s" % (why, "; last case: " + last[-1] if last else "", "\n" + "\n".join([l for l in err.split("\n") if "ERROR" in l or "runtime error" in l or "terminate" in l or "what()" in l][:5])))
    return R

def retimed(c, f):
    c.opts = dict(c.opts)
    for k in ("timeout", "cand_timeout"): c.opts[k] = int(c.opts.get(k, 6000 if k == "timeout" else 2000) * f)
    c.opts.setdefault("cand_timeout", 2000)
    return c

def main(pid, tier=None):
    sys.path.insert(0, VERIF)
    sys.setrecursionlimit(20000)
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    t0 = time.time()
    limit = 780 if tier == "quick" else 7200
    limit = int(os.environ.get("VERIF_LIMIT", limit))
    deadline = t0 + limit
    jobs = os.cpu_count() or 4
    spec = importlib.import_module("specs." + pid.lower())
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.LEVEL, "coverage": {}, "assumptions": [], "wall_s": 0, "violations": 0}
    rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, pid + "-*")): os.unlink(f)
    code = 0
    try:
        code = check(pid, spec, tier, seed, t0, deadline, jobs, scratch, ev, rdir)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        ev["wall_s"] = round(time.time() - t0, 1)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    return code

def check(pid, spec, tier, seed, t0, deadline, jobs, scratch, ev, rdir):
    from .contract import verify
    groups = spec.groups() if hasattr(spec, "groups") else []
    bats = spec.batteries() if hasattr(spec, "batteries") else []
    only = os.environ.get("VERIF_ONLY")
    # batteries are compiled and run by a child process while the proofs run
    def bat_task(i, secs, sd):
        def f():
            exe, err = compile_battery(bats[i], scratch, i)
            if exe is None: return {"compile_error": err, "src": bats[i].src}
            return run_battery(bats[i], exe, scratch, sd, secs, i)
        return f
    tasks = []
    if only != "proof":
        for i, b in enumerate(bats): tasks.append((("bat", i), bat_task(i, b.quick if tier == "quick" else b.thorough, seed)))
    mods = []; problems = []; skipped = []
    ptasks = {}
    if only != "battery":
        for gi, g in enumerate(groups):
            mod, reg, err = load_group(g, scratch, gi)
            mods.append((mod, reg))
            if err is not None:
                problems.append(("group %s" % g.tu, "the entry points no longer compile against the sources", err)); continue
            for ci, c in enumerate(g.contracts):
                if c.assumed: continue
                n = c.target(mod)
                if not hasattr(c, "direct") and (n is None or n not in mod.defined):
                    if c.optional: skipped.append(c.title); continue
                    problems.append((c.title, "function under contract not found", "")); continue
                for case in c.cases:
                    if os.environ.get("VERIF_C") and os.environ["VERIF_C"] not in c.title: continue
                    def f(c=c, mod=mod, reg=reg, case=case, fac=1):
                        if fac != 1: retimed(c, fac)
                        R = verify(c, mod, reg, case, budget=(c.opts.get("budget", 300)) * fac)
                        return R
                    ptasks[("proof", gi, ci, case)] = f
        tasks += sorted(ptasks.items(), key=lambda kv: -groups[kv[0][1]].contracts[kv[0][2]].weight)
    res = run_tasks(tasks, jobs, deadline - 60)
    # proofs that ran out of time get one retry with four times the time
    retry = []
    early = any(isinstance(r, dict) and r.get("fails") for r in (res.get(k) for k in res if k[0] == "bat"))    # a failing input is known already: no retries
    for k, R in res.items():
        if k[0] != "proof" or early: continue
        slow = isinstance(R, tuple) or (R.error and ("budget" in R.error or "died" in R.error)) or any(o["result"] == "unknown" for o in R.obls)
        slow = slow or isinstance(R, tuple) or not R.ok      # (a refutation too: a loop invariant may have been dropped for lack of time)
        if slow:
            f = ptasks[k]; retry.append((k, (lambda f=f: f(fac=4))))
    if retry and time.time() < deadline - 120:
        res.update(run_tasks(retry, max(1, jobs // 2), deadline - 60))
    nob = nd = ninv = 0; funcs = []; backends = {}; assumed = set(); st = 0.0; failed = []; samples = []
    for k in sorted(ptasks):
        R = res.get(k, ("crash", "not run"))
        c = groups[k[1]].contracts[k[2]]
        if isinstance(R, tuple):
            problems.append(("%s [%s]" % (c.title, k[3]), "verifier gave no answer: %s" % R[1], "")); continue
        good = sum(1 for o in R.obls if o["result"] == "proved")
        nob += len(R.obls) + R.n_inv; nd += good + R.n_inv; st += R.solver_time
        for b, n in R.backends.items(): backends[b] = backends.get(b, 0) + n
        assumed |= R.assumed
        funcs.append({"contract": c.title, "case": k[3], "function": R.func, "obligations": len(R.obls), "loop_invariant_obligations": R.n_inv, "discharged": good, "uses_contracts": sorted(R.used), "solver_s": round(R.solver_time, 2), "ok": R.ok})
        for o in R.obls:
            if o["result"] != "proved": failed.append((c.title, k[3], R.func, o))
        if R.error: problems.append(("%s [%s]" % (c.title, k[3]), R.error, ""))
        elif R.obls and len(samples) < 3: samples.append("%s: %s (%s, %s)" % (c.title, R.obls[-1]["name"], R.obls[-1]["backend"], R.obls[-1]["result"]))
    bres = [res[k] for k in sorted(x for x in res if x[0] == "bat")]
    bfails = []
    for r in bres:
        if isinstance(r, tuple): problems.append(("battery", "no answer: %s" % r[1], "")); continue
        if "compile_error" in r: problems.append(("battery %s" % r["src"], "does not compile against the sources", r["compile_error"])); continue
        for f in r["fails"]: bfails.append((r, f))
    # an obligation failed and the quick run found no failing input: search longer
    if (failed or problems) and not bfails and only is None:
        left = deadline - time.time() - 80
        if left > 30:
            more = [(("bat", i, s), bat_task(i, int(min(left / 2.5, 60 if tier == "quick" else 600)), s)) for i, b in enumerate(bats) for s in (seed + 1000, seed + 2000)]
            r2 = run_tasks(more, jobs, deadline - 20)
            for r in r2.values():
                if isinstance(r, tuple) or "compile_error" in r: continue
                for f in r["fails"]: bfails.append((r, f))
    known = load_known(pid)
    seen_known = set()
    for r in bres:
        if isinstance(r, dict):
            for l in r.get("known", []):
                key = l.split(":", 1)[0].strip()
                if key in known:
                    if key not in seen_known: print("KNOWN-FINDING: property=%s %s" % (pid, l)); seen_known.add(key)
                else: bfails.append((r, l))
    cov = ev["coverage"]
    cov["obligations"] = nob; cov["discharged"] = nd
    cov["checker_cmd"] = "python3-vt /verif/check.py %s" % pid
    cov["trusted_base"] = ["clang 18 front end and the LLVM passes %s" % PASSES, "irv (the verification-condition generator in /verif/irv)", "z3, cvc5"] + sorted(assumed)
    cov["functions_under_contract"] = funcs; cov["backends"] = backends; cov["solver_time_s"] = round(st, 1)
    cov["skipped_optional_contracts"] = skipped
    cov["bounded_stand_ins"] = [{"driver": b.src, "stands_in_for": b.bounded} for b in bats]
    cov["evaluations"] = sum(r.get("evals", 0) for r in bres if isinstance(r, dict))
    cov["distinct_nontrivial"] = sum(r.get("distinct", 0) for r in bres if isinstance(r, dict))
    cov["rule"] = "executable contracts run on generated inputs (bounded; not counted as proved); an input is counted distinct by its hash and non-trivial when it has at least one element"
    cov["samples"] = samples + [s for r in bres if isinstance(r, dict) for s in r.get("samples", [])][:5]
    ev["assumptions"] = list(getattr(spec, "ASSUMPTIONS", [])) + sorted(assumed)
    if not (failed or problems or bfails): 
        print("%s: %d obligations, all discharged (%.0f s solver); %d bounded evaluations" % (pid, nob, st, cov["evaluations"]))
        return 0
    # ---- report
    ev["violations"] = 1
    path = os.path.join(rdir, "%s-violation.txt" % pid)
    with open(path, "w") as f:
        f.write("property %s\n" % pid)
        if bfails:
            r, m = bfails[0]
            f.write("failing input found on the real code by /verif/bt/%s (seed %d):\n  %s\n" % (r["src"], r["seed"], m))
            f.write("rerun: VERIF_SEED=%d python3-vt /verif/check.py %s %s\n" % (seed, pid, tier))
            for r, m in bfails[1:20]: f.write("  also: %s\n" % m)
            f.write("\nstderr:\n%s\n" % bfails[0][0].get("err", ""))
        for t, case, fn, o in failed:
            f.write("\nfailed obligation: %s [%s] %s\n  function: %s\n  source line: %s\n  kind: %s, verdict: %s, back end: %s\n  verifier output: %s\n" % (t, case, o["name"], fn, o["line"], o["kind"], o["result"], o["backend"], o["model"]))
        for t, w, x in problems: f.write("\nnot verified: %s: %s\n%s\n" % (t, w, x))
    for t, case, fn, o in failed[:12]: print("  failed obligation: %s [%s] %s -> %s" % (t, case, o["name"], o["result"]))
    for t, w, x in problems[:12]: print("  not verified: %s: %s %s" % (t, w, x[:300] if os.environ.get("VERIF_DEBUG") else ""))
    for r, m in bfails[:6]: print("  failing input: %s" % m[:500])
    print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if bfails else " no-failing-input-found"))
    return 1

def load_known(pid):
    out = set()
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            l = l.strip()
            if l.startswith("known: property=%s " % pid): out.add(l.split(" ", 2)[2].split(":", 1)[0].strip())
    except OSError: pass
    return out
