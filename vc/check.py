"""Driver: python3-vt -m vc.check <property> [--tier quick|thorough]"""
import concurrent.futures, sys, os, json, time, random, importlib, tempfile, shutil, subprocess, traceback, fnmatch, signal, select, pickle
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vc import term as t, ir, exec as ex, solve, contract as C, build
sys.setrecursionlimit(100000)

def load(pid):
    return importlib.import_module("contracts." + pid)

def native_worker(pid, lib, jobs, out, seed, budget):
    """run in a child process: jobs = [(contract index, n samples, hints)]"""
    import ctypes
    m = load(pid)
    L = ctypes.CDLL(lib)
    f = open(out, "w")
    t0 = time.time()
    for ci, n, hints in jobs:
        con = m.CONTRACTS[ci]
        done = 0; bad = None
        for i in range(n):
            if time.time() - t0 > budget: break
            rng = random.Random("%d/%s/%d" % (seed, con.name, i))
            v = C.gen_inputs(con, rng, hints[i] if i < len(hints) else None)
            if v is None: continue
            f.write(json.dumps({"c": ci, "start": i, "in": C.show(con, v)}, default=str) + "\n"); f.flush()
            C.run_native(con, L, v)
            b = C.check_numeric(con, v)
            done += 1
            if b:
                bad = {"c": ci, "bad": [x[0] for x in b][:20], "values": C.show(con, v), "sample": i, "seed": seed, "hints": hints}
                break
        f.write(json.dumps({"c": ci, "done": done, "fail": bad}, default=str) + "\n"); f.flush()
    f.close()

def native(pid, lib, jobs, seed=1, budget=60, tag=""):
    """-> {ci: (n done, failure or None)}; a crash is a failure of the running sample"""
    res = {}
    todo = list(jobs); t0 = time.time()
    while todo and time.time() - t0 < 4 * budget:
        out = lib + ".%s.%d.log" % (tag, len(todo))
        cmd = [sys.executable, "-m", "vc.check", "--native", pid, lib, out, str(seed), str(budget), json.dumps(todo)]
        # a sample that runs for 45 s is given up: neither a failure nor an agreement
        with open(out + ".err", "w+") as ef:
            r = subprocess.Popen(cmd, cwd=HERE, stdout=subprocess.DEVNULL, stderr=ef); size = -1; grown = t1 = time.time()
            while True:
                try: rc = r.wait(0.2); break
                except subprocess.TimeoutExpired: pass
                now = time.time(); z = os.path.getsize(out) if os.path.exists(out) else 0
                if z != size: size = z; grown = now
                if now - grown > 45 or now - t1 > budget + 60: r.kill(); r.wait(); rc = "timeout"; break
            ef.seek(0); err = ef.read()
        last = None; cur = None
        if os.path.exists(out):
            for l in open(out):
                try: d = json.loads(l)
                except ValueError: continue
                if "done" in d: res[d["c"]] = (d["done"], d["fail"]); cur = None
                else: cur = d
        if rc == 0: break
        if cur is not None and isinstance(rc, int) and rc < 0:
            res[cur["c"]] = (0, {"c": cur["c"], "bad": ["the real code crashed (signal %d)" % -rc], "values": cur["in"], "sample": cur["start"], "seed": seed, "hints": next(j[2] for j in jobs if j[0] == cur["c"])})
            todo = [j for j in todo if j[0] not in res]
        elif cur is not None and rc == "timeout":
            res[cur["c"]] = (0, None); todo = [j for j in todo if j[0] not in res]
        else:
            raise RuntimeError("replay worker failed: %s %s" % (rc, err[-2000:]))
    return res

def model_hints(g):
    """numbers for the scalar inputs from a z3 model"""
    h = {}
    m = g.model
    if m is None: return h
    for d in m.decls():
        if d.arity(): continue
        x = m[d]; nm = d.name()
        try:
            if x.sort().name() == "Int": val = x.as_long()
            elif x.sort().name() == "Real":
                import z3
                val = float(x.as_fraction()) if z3.is_rational_value(x) else float(x.approx(20).as_fraction())
            else: continue
        except Exception: continue
        if "_" in nm and nm.rsplit("_", 1)[1].isdigit(): h["%s[%s]" % tuple(nm.rsplit("_", 1))] = val
        h[nm] = val
    return h

def check(pid, tier, verbose=False, only=None):
    t00 = time.time()
    m = load(pid)
    work = tempfile.mkdtemp(prefix="vc_%s_" % pid)
    try: return check_(pid, tier, verbose, only, m, work, t00)
    finally: shutil.rmtree(work, ignore_errors=True)

def verify_contract(mod, con, ci, verbose):
    """symbolic run + discharge of one contract -> plain data"""
    t0 = time.time()
    R = {"ci": ci, "name": con.name, "undecided": [], "goals": 0, "posts": 0, "safety": 0, "proved": 0, "backs": {}, "fns": [], "ext": [], "loops": [],
         "paths": 0, "dead": 0, "solver_s": 0.0, "hints": [], "assumed": []}
    log = []
    solv = solve.Solver()
    solv.user_axioms = list(con.axioms)
    def bad(label, why, hint=None):
        R["undecided"].append((label, why))
        if hint: R["hints"].append(hint)
    try:
        E, ctx, outs, gs = C.goals(con, mod, solv)
        R["fns"] = sorted({ex.demangle(f) for f in E.fns_used}); R["ext"] = sorted(E.ext_used); R["loops"] = [[a[:100], list(b)] for a, b in E.loops_cut]
        R["paths"] = len(outs)
        if not any(g.kind == "post" for g in gs): bad("vacuity guard: no postcondition generated", "")
        if E.pre_pc and solv.prove(E.pre_pc, t.FALSE): bad("vacuity guard: contradictory precondition", "")
        R["dead"] = sum(1 for st, _ in outs if solv.prove(st.pc, t.FALSE))
        if R["dead"] == len(outs): bad("vacuity guard: no feasible path", "")
        seen = {}
        for g in gs:
            key = (g.pc, g.goal)
            if key in seen: g.status, g.backend = seen[key]
            else:
                t1 = time.time()
                g.status, g.backend, g.model = solv.discharge(g.pc, g.goal, con.timeout)
                g.time = time.time() - t1
                seen[key] = (g.status, g.backend)
                if verbose and ((g.status != "proved" and len(log) < 40) or g.time > 2): log.append("    %s %s %s %.2fs %s %s" % (g.label, g.status, g.backend, g.time, g.where if g.kind == "safety" else "", repr(g.goal)[:300] if g.status != "proved" else ""))
                if g.status != "proved":
                    bad(g.label, "%s in %s: %s (%s)%s" % (g.kind, g.where, g.status, g.backend, ("\n  goal: %r" % g.goal)[:1500]), model_hints(g))
            R["goals"] += 1; R["posts" if g.kind == "post" else "safety"] += 1
            b = g.backend or "-"
            if g.status == "proved": R["proved"] += 1; R["backs"][b] = R["backs"].get(b, 0) + 1
    except BudgetError as e:
        bad("verification conditions", "time budget of the contract exhausted")
    except Exception as e:
        if verbose: log.append(traceback.format_exc())
        bad("verification conditions", "%s: %s" % (type(e).__name__, str(e)[:1500]))
    R["solver_s"] = solv.time; R["wall"] = time.time() - t0; R["log"] = log
    R["assumed"] = sorted(getattr(con, "assumes", ()) or ())
    return R

class BudgetError(Exception): pass
def _alarm(*a): raise BudgetError()

def harness(m, ci): return m.CONTRACTS[ci].harness or m.HARNESS
def source(h): return os.path.join(HERE, "harness", h + ".cpp")
def run_contracts(mods, m, sel, verbose, budget):
    """verify the selected contracts, in parallel worker processes"""
    res = {}
    njobs = int(os.environ.get("VC_JOBS", "0")) or min(8, os.cpu_count() or 1)
    if njobs == 1 or len(sel) == 1:
        for ci in sel:
            signal.signal(signal.SIGALRM, _alarm); signal.alarm(int(budget))
            try: res[ci] = verify_contract(mods[harness(m, ci)], m.CONTRACTS[ci], ci, verbose)
            except BudgetError: res[ci] = None
            finally: signal.alarm(0)
            report(m, res[ci], verbose)
        return res
    todo = sorted(sel, key=lambda ci: -(m.CONTRACTS[ci].weight or 0)); live = {}
    while todo or live:
        while todo and len(live) < njobs:
            ci = todo.pop(0); rfd, wfd = os.pipe(); pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    os.close(rfd)
                    signal.signal(signal.SIGALRM, _alarm); signal.alarm(int(budget))
                    try: r = verify_contract(mods[harness(m, ci)], m.CONTRACTS[ci], ci, verbose)
                    finally: signal.alarm(0)
                    with os.fdopen(wfd, "wb") as f: f.write(pickle.dumps(r))
                    rc = 0
                except BaseException: pass
                finally: os._exit(rc)
            os.close(wfd); live[rfd] = (ci, pid, b"", time.time())
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rd:
            ci, pid, buf, t0 = live[fd]; d = os.read(fd, 1 << 16)
            if d: live[fd] = (ci, pid, buf + d, t0); continue
            os.close(fd); os.waitpid(pid, 0); del live[fd]
            try: res[ci] = pickle.loads(buf)
            except Exception: res[ci] = None
            report(m, res[ci], verbose)
        for fd, (ci, pid, buf, t0) in list(live.items()):
            if time.time() - t0 > budget + 60:
                os.kill(pid, signal.SIGKILL)
    return res
def report(m, r, verbose):
    if verbose and r:
        for l in r["log"]: print(l)
        print("%-60s paths %d goals %d proved %d  %.2fs" % (r["name"], r["paths"], r["goals"], r["proved"], r["wall"])); sys.stdout.flush()

def check_(pid, tier, verbose, only, m, work, t00):
    undecided = []     # (contract, label, reason)
    results = {}
    sel = [ci for ci, con in enumerate(m.CONTRACTS) if not only or fnmatch.fnmatch(con.name, only)]
    mods = {}
    for h in sorted({harness(m, ci) for ci in sel}):
        try:
            ll = os.path.join(work, h + ".ll"); build.ir(source(h), ll, getattr(m, "DEFS", ()), getattr(m, "VECMODEL", False)); mods[h] = ir.Module(ll)
        except build.BuildError as e:
            for ci in sel:
                if harness(m, ci) == h: undecided.append((m.CONTRACTS[ci].name, "contract binding: the contracts no longer compile against /repo", str(e)))
    run = [ci for ci in sel if harness(m, ci) in mods]
    if run:
        results = run_contracts(mods, m, run, verbose, int(os.environ.get("VC_BUDGET", "330" if tier == "quick" else "1200")))
        for ci in run:
            r = results.get(ci)
            if r is None: undecided.append((m.CONTRACTS[ci].name, "verification conditions", "the verifier died or ran out of its time budget")); continue
            for lab, why in r["undecided"]: undecided.append((r["name"], lab, why))
    return finish(pid, tier, verbose, m, work, t00, undecided, results, sel, only)

def finish(pid, tier, verbose, m, work, t00, undecided, results, sel, only):
    known = [k for k in load_known() if k["property"] == pid and k["kind"] == "finding"]
    violations = []; kf = []
    nat = {}; nat_note = "not run (every obligation discharged)"
    names = {u[0] for u in undecided}
    need = [ci for ci in sel if (tier == "thorough" or m.CONTRACTS[ci].name in names or "(all)" in names) and m.CONTRACTS[ci].numeric]
    if need:
        try:
            for h in sorted({harness(m, ci) for ci in need}):
                lib = os.path.join(work, h + ".so"); build.so(source(h), lib, getattr(m, "DEFS", ()))
                jobs = []
                for ci in need:
                    if harness(m, ci) != h: continue
                    con = m.CONTRACTS[ci]; r = results.get(ci)
                    jobs.append((ci, (con.samples or 400) * (4 if tier == "thorough" else 1), (r["hints"] if r else [])[:10]))
                # several workers, each with its own share of the contracts
                w = min(len(jobs), int(os.environ.get("VC_JOBS", "8")))
                with concurrent.futures.ThreadPoolExecutor(w) as ex:
                    for x in ex.map(lambda i: native(pid, lib, jobs[i::w], int(os.environ.get("VERIF_SEED", "1")), 240 if tier == "thorough" else 90, str(i)), range(w)): nat.update(x)
            nat_note = "%d contracts replayed natively, %d samples" % (len(nat), sum(x[0] for x in nat.values()))
        except build.BuildError as e:
            nat_note = "native build failed: " + str(e)[-500:]
        except Exception as e:
            nat_note = "native replay failed: %s" % str(e)[-500:]
            if verbose: traceback.print_exc()
    byname = {}
    for u in undecided: byname.setdefault(u[0], []).append(u)
    for ci, (n, fail) in nat.items():
        if fail: byname.setdefault(m.CONTRACTS[ci].name, [])
    rdir = os.path.join(HERE, "replay", pid)
    for name in byname:
        us = byname[name]
        ci = next((i for i, con in enumerate(m.CONTRACTS) if con.name == name), None)
        fail = nat.get(ci, (0, None))[1] if ci is not None else next((x[1] for x in nat.values() if x[1]), None)
        # known findings: identified by contract and failed obligation labels
        ks = [k for k in known if fnmatch.fnmatch(name, k["contract"])]
        if ks:
            hit = lambda l: any(fnmatch.fnmatch(l, p) for k in ks for p in k["labels"])
            rest = [u for u in us if not hit(u[1])]
            frest = [b for b in fail["bad"] if not hit(b)] if fail else []
            kf += [k for k in ks if any(fnmatch.fnmatch(u[1], p) for u in us for p in k["labels"]) or (fail and any(fnmatch.fnmatch(b, p) for b in fail["bad"] for p in k["labels"]))]
            if not rest and not frest: continue
            us = rest
            if fail and not frest: fail = None
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "".join(c if c.isalnum() else "_" for c in name) + ".json")
        d = {"property": pid, "contract": name, "failed_obligations": [{"label": u[1], "verifier": u[2]} for u in us][:60],
             "failing_input": fail, "how_to_replay": "cd /verif && python3-vt -m vc.check %s --replay %s" % (pid, path)}
        json.dump(d, open(path, "w"), indent=1, default=str)
        violations.append((name, path, fail, us))
    for k in {json.dumps(k): k for k in kf}.values(): print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rs = [r for r in results.values() if r]
    write_evidence(pid, tier, m, rs, nat, nat_note, violations, kf, time.time() - t00)
    for name, path, fail, us in violations:
        if verbose:
            for u in us[:8]: print("  undischarged:", u[0], "|", u[1], "|", str(u[2])[:600])
            if fail: print("  native:", json.dumps(fail, default=str)[:800])
        # with a failing input in hand, contracts that fail without one are told apart: their callers, mostly
        if fail or not any(x[2] for x in violations): print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if fail else " no-failing-input-found"))
        else: print("also undischarged: %s, see %s" % (name, path))
    print("%s: %d contracts, %d/%d obligations discharged, %.1fs; %s" % (pid, len(rs), sum(r["proved"] for r in rs), sum(r["goals"] for r in rs), time.time() - t00, nat_note))
    return 1 if violations else 0

def replay(pid, path):
    """re-run one failing input of a replay file against the real code"""
    m = load(pid); d = json.load(open(path))
    for u in d["failed_obligations"]: print("failed obligation: %s | %s" % (u["label"], u["verifier"][:600]))
    if not d["failing_input"]: print("no failing input was found"); return 1
    work = tempfile.mkdtemp(prefix="vc_%s_" % pid)
    try:
        f = d["failing_input"]; lib = os.path.join(work, "h.so"); build.so(source(harness(m, f["c"])), lib, getattr(m, "DEFS", ()))
        r = native(pid, lib, [(f["c"], f["sample"] + 1, f.get("hints") or [])], f["seed"], 300)
        x = r[f["c"]][1]
        print("replayed:", json.dumps(x, default=str)[:3000] if x else "the input no longer fails")
        return 1 if x else 0
    finally: shutil.rmtree(work, ignore_errors=True)

def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["entries"] if os.path.exists(p) else []

from vc.evidence import write_evidence

def main():
    a = sys.argv[1:]
    if a[0] == "--native":
        native_worker(a[1], a[2], json.loads(a[6]), a[3], int(a[4]), float(a[5])); os._exit(0)
    pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); verbose = "-v" in a; only = None
    if tier not in ("quick", "thorough"): tier = "quick"
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--only" in a: only = a[a.index("--only") + 1]
    if "--replay" in a: rc = replay(pid, a[a.index("--replay") + 1])
    else: rc = check(pid, tier, verbose, only)
    sys.stdout.flush()
    os._exit(rc)
if __name__ == "__main__":
    # the same order of terms, so the same behaviour of the solvers, on every run
    if os.environ.get("PYTHONHASHSEED") is None: os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable, "-m", "vc.check"] + sys.argv[1:])
    main()
