"""check.py <property id> [--tier quick|thorough] [--only name] [-v]

Decides one property: generates verification conditions from the real code reached by the
contracts in contracts/<id>.cpp, discharges them with z3/cvc5, and runs the same contracts
(and the bounded stand-ins) on the code compiled for execution."""
import argparse, json, multiprocessing as mp, os, re, subprocess, sys, time, traceback, threading
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build
ROOT = build.ROOT
NPROC = os.cpu_count() or 4


def meta(cpp):
    m = {"srcs": [], "opaque": [], "opts": {}, "assume": [], "inline": "100000", "unproved": []}
    for l in open(cpp):
        x = re.match(r"//@ (\w+): *(.*?)\s*$", l)
        if not x:
            continue
        k, v = x.group(1), x.group(2)
        if k == "srcs":
            m["srcs"] += v.split()
        elif k == "opts":
            m["opts"].update(json.loads(v))
        elif k == "replace":  # regex => function of the contract file: what it assumes
            rx, fn, why = re.match(r"(.*?) => (\w+): (.*)", v).groups()
            m["opts"].setdefault("replace", {})[rx] = fn
            m.setdefault("trusted", []).append("contract of a callee, not its body: " + why)
        elif k == "inline":
            m["inline"] = v
        else:
            m.setdefault(k, []).append(v)
    return m


# ------------------------------------------------------------------ proof part
def vc_worker(bc, fn, opts, tmo, q):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        sys.setrecursionlimit(20000)
        threading.stack_size(512 << 20)
    except Exception:
        pass

    def body():
        try:
            q.put(vc_run(bc, fn, opts, tmo))
        except BaseException as e:
            q.put({"fn": fn, "error": "%s: %s" % (type(e).__name__, str(e)[:400]), "obs": [], "tb": traceback.format_exc()[-1500:]})
    t = threading.Thread(target=body)
    t.start()
    t.join()


def vc_run(bc, fn, opts, tmo):
    import llvmir, engine, builtins_, solver, stdcontracts
    import term as TM
    t0 = time.time()
    m = llvmir.Module(bc)
    E = engine.Engine(m, opts)
    E.contracts = [(re.compile(a), b) for a, b, c in stdcontracts.STD]
    E.call_function(m.fns[fn], [], TM.TRUE)
    res = {"fn": fn, "exec_s": round(time.time() - t0, 2), "obs": [], "loops": len(E.loops) if hasattr(E.loops, "__len__") else E.loops,
           "launches": len(E.launches) if hasattr(E.launches, "__len__") else E.launches, "used_contracts": sorted(getattr(E, "used_contracts", []))}
    deadline = time.time() + opts.get("_budget", 240)
    for o in E.obs:
        d = {"kind": o.kind, "label": o.label, "loc": o.loc, "abstract": bool(o.abstract)}
        res["obs"].append(d)
        if o.status == "trivial":
            d["r"], d["by"], d["t"] = "unsat", "normaliser", 0
            continue
        g = TM.and_(o.guard, TM.not_(TM.under(o.goal, o.guard)))
        if g is TM.FALSE:
            d["r"], d["by"], d["t"] = "unsat", "normaliser", 0
            continue
        fs = engine.relevant(E.facts[:o.nf] + (o.scope or []), g)
        t1 = time.time()
        left = min(tmo, max(2, deadline - t1))
        if t1 > deadline:
            d["r"], d["by"], d["t"] = "unknown", "budget", 0
            continue
        # "how: ..." states the way the result is built, not the result: another way is no violation by itself
        d["abstract"] = d["abstract"] or o.label.startswith("how: ") or inexact(g, engine, TM)
        gd = engine.divide(TM.under(o.goal, o.guard), fs, o.guard)
        if gd is TM.TRUE:
            d["r"], d["by"], d["t"] = "unsat", "normaliser", round(time.time() - t1, 2)
            continue
        r, mm, by = engine.staged(fs, g, left, model=[t for n, t in E.syms if not isinstance(t, engine.Region)])
        d["r"], d["by"], d["t"] = r, by, round(time.time() - t1, 2)
        if r == "sat" and o.kind != "reach":
            d["model"] = mm[:2000]
            d["force"] = model_scalars(mm, E.syms, engine)
    if any(d["label"].startswith("how: ") and d["r"] == "sat" for d in res["obs"]):
        for d in res["obs"]:  # the contract follows another way of building the result
            d["abstract"] = True
    res["solver_s"] = round(solver.STATS["time"], 2)
    res["queries"] = solver.STATS["queries"]
    res["wall"] = round(time.time() - t0, 2)
    return res


INEXACT = re.compile(r"^(SUM!|MAX!|bit_|npv_pow2|wit_|wr_|undef|unk|cmp|strlen|P\d+_|q_|exp$|log|sin|cos|tan|pow|atan|acos|asin|hypot|tgamma|cbrt|tanh|sqrt)")


def inexact(g, engine, TM):
    """does the obligation mention a symbol that over-approximates the code?"""
    return any(INEXACT.match(n) for n in engine.symset(g)) or any(t.op == "forall" for t in TM.subterms(g))


def model_scalars(mm, syms, engine):
    out = {}
    names = [n for n, t in syms if not isinstance(t, engine.Region)]
    vals = re.findall(r"\(\s*[^\s()]+\s+(\(- *\d+\)|-?\d+)\s*\)", mm)
    if len(vals) == len(names):
        for n, v in zip(names, vals):
            out[n] = int(v.strip("()").replace("- ", "-").replace(" ", ""))
    return out


def prove_all(fns, tmo, wall, nproc):
    """one process per contract; fns: (contract, bitcode, options)"""
    ctx = mp.get_context("fork")
    todo, live, res = list(fns), [], {}
    while todo or live:
        while todo and len(live) < nproc:
            f, bc, opts = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=vc_worker, args=(bc, f, opts, tmo, q))
            p.start()
            live.append((f, p, q, time.time()))
        time.sleep(0.02)
        for it in list(live):
            f, p, q, t = it
            try:
                r = q.get_nowait()
            except Exception:
                r = None
            if r is None and p.is_alive() and time.time() - t < wall:
                continue
            if r is None:
                try:
                    r = q.get(timeout=1)
                except Exception:
                    r = {"fn": f, "obs": [], "error": "time limit" if p.is_alive() else "verifier process died"}
            res[f] = r
            if p.is_alive():
                p.join(0.5)
                if p.is_alive():
                    p.kill()
            live.remove(it)
    return res


# ------------------------------------------------------------------ bounded part
def nat_env(sched, prog):
    e = dict(os.environ)
    e.update(NPV_SCHED=str(sched), NPV_PROGRESS=prog, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1",
             OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_plm="isolated", OMPI_MCA_btl="self,vader",
             OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none")
    e.setdefault("HOME", "/root")
    return e


def nat_run(exe, name, seed, count, sched, ranks, tmo, force=()):
    """returns dict(status ok|fail|hang|skip, ...)"""
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix="npv_")
    prog = os.path.join(d, "p")
    cmd = [exe, "run", name, str(seed), str(count)] + list(force)
    if ranks > 1:
        cmd = ["mpirun", "-n", str(ranks), "--oversubscribe"] + cmd
    env = nat_env(sched, prog)
    env["TMPDIR"] = d
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=d, start_new_session=True, errors="replace")
    try:
        out, err = p.communicate(timeout=tmo)
        st = None
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, err = p.communicate()
        st = "hang"
    at = None
    for r in range(ranks):
        try:
            at = int(open("%s.%d" % (prog, r)).read())
            break
        except Exception:
            pass
    shutil.rmtree(d, ignore_errors=True)
    r = {"name": name, "sched": sched, "ranks": ranks, "seed": seed, "count": count, "at": at, "runs": 0, "discarded": 0, "distinct": 0, "samples": [], "reach": {}}
    m = re.search(r"^NPV-FAIL .*$", out, re.M)
    if m:
        r["status"], r["what"] = "fail", m.group(0)
        s = re.search(r"seed=(-?\d+)", m.group(0))
        if s:
            r["at"] = int(s.group(1))
        return r
    m = re.search(r"^NPV-OK (\S+) runs=(\d+) discarded=(\d+) distinct=(\d+)(.*)$", out, re.M)
    if m and st is None and p.returncode == 0:
        r.update(status="ok", runs=int(m.group(2)), discarded=int(m.group(3)), distinct=int(m.group(4)))
        r["reach"] = {a: int(b) for a, b in re.findall(r"reach:(.*?)=(\d+)", m.group(5))}
        r["samples"] = re.findall(r"^NPV-SAMPLE (.*)$", out, re.M)
        return r
    if st == "hang":
        r["status"], r["what"] = "hang", "no result within %ds at seed %s" % (tmo, at)
        return r
    if at is None:
        r["status"], r["what"] = "skip", "did not start: rc=%s %s" % (p.returncode, (err or out)[-600:])
        return r
    s = re.search(r"(SUMMARY: AddressSanitizer.*|npv: .*|runtime error.*|terminate called.*|ERROR: AddressSanitizer.*)", err)
    loc = re.findall(r"#\d+ 0x[0-9a-f]+ in (.*?/repo/\S+)", err)[:3]
    r["status"] = "fail"
    r["what"] = "NPV-FAIL %s seed=%s ranks=%d what=crash rc=%s %s %s" % (name, at, ranks, p.returncode, s.group(1) if s else err[-400:].replace("\n", " "), " <- ".join(loc))
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--novc", action="store_true")
    ap.add_argument("--nonat", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    A = ap.parse_args()
    pid, tier = A.prop, A.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    T0 = time.time()
    cpp = os.path.join(ROOT, "contracts", pid + ".cpp")
    M = meta(cpp)
    thorough = tier == "thorough"
    tmo = M["opts"].get("timeout", 20) * (6 if thorough else 1)
    wall = 600 if thorough else 260
    opts = dict(M["opts"])
    opts["_budget"] = 500 if thorough else 200
    log = print if A.v else (lambda *a: None)
    build_err = []
    st = {}

    def do_native():
        try:
            st["exe"] = build.native_exe(pid, [cpp])
        except Exception as e:
            build_err.append("executable build: " + str(e)[-1500:])
    nt = None
    if not A.nonat:
        nt = threading.Thread(target=do_native)
        nt.start()
    vc = {}
    bc = None
    fns = []
    if not A.novc:
        try:
            import stdcontracts
            # functions whose own proof does not use the contract that replaces them for others
            apart = {}
            for u in M.get("unreplaced", []):
                f, *c = u.split()
                apart.setdefault(tuple(sorted(c)), []).append("vc_" + f)
            todo = [((), None)] + sorted(apart.items())

            def one(g):
                rep = {k: v for k, v in M["opts"].get("replace", {}).items() if v not in g[0]}
                return rep, build.vc_bitcode(pid, cpp, M["srcs"], M["opaque"] + list(rep) + [a for a, b, c in stdcontracts.STD], M["inline"])
            with ThreadPoolExecutor(NPROC) as ex:
                built = list(ex.map(one, todo))
            bc = built[0][1]
            nm = build.run(["llvm-nm-18", "--defined-only", "-j", bc], "nm").stdout.split()
            ap = {f for fs in apart.values() for f in fs}
            for (g, own), (rep, b) in zip(todo, built):
                o = dict(opts)
                o["replace"] = rep
                fns += [(n, b, o) for n in nm if n.startswith("vc_") and (not A.only or A.only in n) and (n in own if own else n not in ap)]
            log("vc build", round(time.time() - T0, 1))
        except Exception as e:
            build_err.append("verification build: " + str(e)[-1500:])
    if bc:
        vc = prove_all(sorted(fns, key=lambda x: x[0]), tmo, wall, max(2, NPROC - 1))
        log("vc done", round(time.time() - T0, 1))
    if nt:
        nt.join()
    log("native build", round(time.time() - T0, 1))
    nat = []
    hs = []
    exe = st.get("exe")
    if exe:
        for l in subprocess.run([exe, "list"], capture_output=True, text=True).stdout.split("\n"):
            f = l.split()
            if len(f) == 4 and (not A.only or A.only in f[0]):
                hs.append((f[0], int(f[1]), int(f[2]), f[3] == "1"))
        mult = 12 if thorough else 1
        jobs1, jobsn = [], []
        natmo = M["opts"].get("native_timeout", 150) * (4 if thorough else 1)
        for name, runs, maxr, proved in hs:
            scheds = [0, 1, 2, 3] if not M["opts"].get("one_sched") else [0]
            per = max(1, runs * mult // len(scheds))
            for s in scheds:
                nchunk = max(1, min(4, per // 200)) if not thorough else max(1, min(8, per // 400))
                for c in range(nchunk):
                    jobs1.append((name, seed * 1000003 + c * per + s * 131071, max(1, per // nchunk), s, 1))
            for r in range(2, maxr + 1):
                for s in ([0, 3] if not thorough else [0, 1, 2, 3]):
                    jobsn.append((name, seed * 1000003 + r * 77, max(1, per // 2), s, r))
        hung = []

        def go(j):
            if len(hung) > 1: # the verdict is clear or a retry gives it
                return dict(name=j[0], sched=j[3], ranks=j[4], seed=j[1], count=j[2], at=None, runs=0, discarded=0, distinct=0, samples=[], reach={}, status="skip", what="")
            r = nat_run(exe, *j, natmo)
            if r["status"] == "hang":
                hung.append(j)
            return r
        with ThreadPoolExecutor(NPROC) as ex:
            nat += list(ex.map(go, jobs1))
        with ThreadPoolExecutor(max(1, NPROC // 3)) as ex:
            nat += list(ex.map(go, jobsn))
        # a run that did not end is repeated on its own: a deadlock does not end then either,
        # while ranks that spin in MPI on a loaded machine do
        again = [(i, j) for i, (r, j) in enumerate(zip(nat, jobs1 + jobsn)) if r["status"] == "hang"]
        if not any(r["status"] == "fail" for r in nat):
            for i, j in again:
                r = nat_run(exe, *j, natmo)
                nat[i] = dict(r, retried=True)
                if r["status"] in ("fail", "hang"):
                    break
            else: # what was left out
                hung.clear()
                for i, j in enumerate(jobs1 + jobsn):
                    if nat[i]["status"] == "skip" and not nat[i]["what"]:
                        nat[i] = go(j)
    log("native runs", round(time.time() - T0, 1))
    verdict(A, pid, tier, seed, M, vc, nat, hs, exe, bc, build_err, T0, log)


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)).get("findings", []):
            if k["property"] == pid:
                out.append(k)
    return out


def verdict(A, pid, tier, seed, M, vc, nat, hs, exe, bc, build_err, T0, log):
    viol = []       # (title, replay dict, confirmed)
    known = []
    undec = []
    nob = ndis = 0
    backends = {}
    proved_fns, unproved = [], []
    solver_s = 0.0
    kinds = {}
    samples = []
    KF = known_findings(pid)
    fails = [r for r in nat if r["status"] in ("fail", "hang")]
    failed_names = {}
    for r in fails:
        k = [x for x in KF if x.get("match") and re.search(x["match"], r["what"])]
        if k:
            known.append(k[0])
        else:
            failed_names.setdefault(r["name"], r)
    for fn, r in sorted(vc.items()):
        if r.get("error"):
            undec.append("%s: not verified (%s)" % (fn, r["error"]))
            unproved.append(fn)
            log(fn, "ERROR", r["error"], r.get("tb", ""))
            continue
        solver_s += r["solver_s"]
        bad = False
        log(fn, "exec", r["exec_s"], "wall", r["wall"], "obs", len(r["obs"]), "loops", r["loops"], "launches", r["launches"])
        npost = 0
        reach = [o for o in r["obs"] if o["kind"] == "reach"]
        for o in r["obs"]:
            if o["kind"] == "reach":
                if o["r"] == "unsat":
                    undec.append("%s: precondition or path to '%s' is contradictory (vacuous)" % (fn, o["label"]))
                    bad = True
                log("   reach", o["label"], o["r"], o.get("t"))
                continue
            nob += 1
            npost += o["kind"] == "post"
            kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
            if o["r"] == "unsat":
                ndis += 1
                backends[o["by"]] = backends.get(o["by"], 0) + 1
                if A.v and o["t"] > 2:
                    log("   slow", o["kind"], o["label"], o["loc"], o["by"], o["t"])
                continue
            bad = True
            log("   ", o["r"], "ABS" if o["abstract"] else "", o["kind"], o["label"], o["loc"], o.get("model", "")[:300].replace("\n", " "), o.get("t"))
            if o["r"] == "sat" and not o["abstract"] and o["kind"] in M["opts"].get("kinds", ["post", "bounds", "overflow", "div", "nd_range", "race"]):
                name = fn
                conf = failed_names.get(name)
                if conf is None and exe:
                    conf = search(exe, name, o.get("force"), hs, seed, M)
                viol.append(("obligation %s '%s' of %s at %s" % (o["kind"], o["label"], fn, o["loc"]),
                             {"obligation": o, "contract": fn, "native": conf}, conf is not None))
            else:
                undec.append("%s: %s '%s' at %s: %s (%s)" % (fn, o["kind"], o["label"], o["loc"], o["r"], "depends on an abstraction" if o["abstract"] else o["by"]))
        if npost == 0:
            undec.append("%s: no postcondition obligation" % fn)
            bad = True
        (unproved if bad else proved_fns).append(fn)
        if not bad:
            samples.append("%s: %d obligations, %.1fs solver" % (fn, len(r["obs"]), r["solver_s"]))
    # an undischarged contract: look harder for a failing input on the real code
    if exe:
        for fn in unproved:
            if fn in failed_names or any(v[1].get("contract") == fn for v in viol):
                continue
            c = search(exe, fn, None, hs, seed + 17, M)
            if c:
                failed_names[fn] = c
    for name, r in failed_names.items():
        if any(v[1].get("contract") == name and v[2] for v in viol):
            continue
        k = [x for x in KF if x.get("match") and re.search(x["match"], r["what"])]
        if k:
            known.append(k[0])
            continue
        viol.append(("%s: %s" % (name, r["what"][:400]), {"contract": name, "native": r}, True))
    # known findings matched on obligations
    v2 = []
    for v in viol:
        k = [x for x in KF if x.get("match") and re.search(x["match"], v[0])]
        if k:
            known.append(k[0])
        else:
            v2.append(v)
    viol = v2
    for r in nat:
        if r["status"] == "skip":
            undec.append("bounded run %s (ranks=%d) did not start: %s" % (r["name"], r["ranks"], r["what"][:300]))
            log("SKIP", r)
    log("native: runs", sum(r["runs"] for r in nat), "fails", len(fails), {n: (sum(x["runs"] for x in nat if x["name"] == n), sum(x["discarded"] for x in nat if x["name"] == n), sum(x["distinct"] for x in nat if x["name"] == n)) for n, *_ in hs})
    for u in undec:
        log("UNDECIDED", u)
    if not A.only:
        evidence(pid, tier, seed, M, vc, nat, hs, bc, build_err, T0, nob, ndis, backends, solver_s, kinds, proved_fns, unproved, undec, samples, len(viol), known)
    for k in {json.dumps(x, sort_keys=True) for x in known}:
        print("KNOWN-FINDING: property=%s %s" % (pid, json.loads(k)["what"]))
    if viol:
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        viol.sort(key=lambda v: not v[2])
        for i, (t, data, conf) in enumerate(viol[:8]):
            p = os.path.join(d, "%s_%d.json" % (pid, i))
            data["title"] = t
            n = data.get("native")
            if n:
                data["how_to_replay"] = "NPV_SCHED=%d %s<prog> run %s %s 1   (prog = engine/check.py's executable build of contracts/%s.cpp)" % (
                    n["sched"], "mpirun -n %d " % n["ranks"] if n["ranks"] > 1 else "", n["name"], n["at"], pid)
            json.dump(data, open(p, "w"), indent=1)
            print("  " + t)
            print("VIOLATION property=%s replay=%s%s" % (pid, p, "" if conf else " no-failing-input-found"))
        sys.exit(1)
    if not nat and not vc:
        for b in build_err:
            print("ERROR", b)
        sys.exit(2)
    for b in build_err:
        print("note: " + b[:500])
    print("%s: held; %d/%d obligations discharged, %d bounded runs, %.0fs" % (pid, ndis, nob, sum(r["runs"] for r in nat), time.time() - T0))
    sys.exit(0)


def search(exe, name, force, hs, seed, M):
    """look for a concrete failing input of contract `name`"""
    h = [x for x in hs if x[0] == name]
    if not h:
        return None
    jobs = []
    if force and all(abs(v) < 5000 for v in force.values()):
        f = ["%s=%d" % (k, v) for k, v in force.items() if not k.startswith("any_")]
        for s in (0, 3):
            jobs.append((name, seed * 31, 100, s, 1, 60, f))
    per = max(200, h[0][1])
    for i in range(8):
        jobs.append((name, seed * 7 + 100000 * (i + 1), per, i % 4, 1, 60, ()))
    with ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(lambda j: nat_run(exe, *j), jobs):
            if r["status"] == "fail":
                return r
    return None


def evidence(pid, tier, seed, M, vc, nat, hs, bc, build_err, T0, nob, ndis, backends, solver_s, kinds, proved_fns, unproved, undec, samples, nviol, known):
    import stdcontracts
    real = []
    if bc:
        try:
            real = build.functions_in(bc)
        except Exception:
            pass
    lvl = "proof" if vc else "exploration"
    for c in json.load(open(os.path.join(ROOT, "MANIFEST.json"))).get("checks", []) if os.path.exists(os.path.join(ROOT, "MANIFEST.json")) else []:
        if c["property"] == pid:
            lvl = c["level"]
    b = {}
    for n, runs, mr, proved in hs:
        rs = [x for x in nat if x["name"] == n]
        b[n] = {"runs": sum(x["runs"] for x in rs), "discarded": sum(x["discarded"] for x in rs), "distinct": sum(x["distinct"] for x in rs),
                "mpi_ranks": sorted({x["ranks"] for x in rs if x["status"] == "ok"}), "schedules": sorted({x["sched"] for x in rs if x["status"] == "ok"}), "role": "replay of a proved contract" if proved else "bounded stand-in (not counted as proved)"}
    smp = samples[:6]
    for r in nat:
        if len(smp) >= 12:
            break
        if r["samples"]:
            smp.append("%s (ranks %d, schedule %d): %s" % (r["name"], r["ranks"], r["sched"], r["samples"][0][:400]))
    cov = {
        "obligations": nob, "discharged": ndis,
        "checker_cmd": "python3-vt engine/check.py %s --tier %s" % (pid, tier),
        "trusted_base": ["clang-18 front end and LLVM passes (internalize, globaldce, default<O2>, vectorisers off)", "engine/ (VC generator)", "z3-new and cvc5",
                         "shim/sycl/sycl.hpp: assumed contract of the SYCL 2020 runtime"] + ["assumed contract: " + c for a, bb, c in stdcontracts.STD] + M.get("trusted", []),
        "contracts_proved": proved_fns, "contracts_not_fully_discharged": unproved, "undischarged": undec[:40],
        "obligation_kinds": kinds, "back_ends": backends, "solver_s": round(solver_s, 1),
        "real_functions_in_verified_bitcode": real,
        "evaluations": sum(r["runs"] for r in nat), "distinct_nontrivial": sum(r["distinct"] for r in nat),
        "rule": "bounded runs: sampled inputs of each harness under 4 command schedules (and several MPI rank counts where stated); distinct = different drawn inputs within a process, discarded inputs excluded",
        "bounded": b, "samples": smp,
        "explanation": "proof obligations decide the contracts over the functions listed; the bounded runs execute the same contracts and the stand-ins on the real code and are not counted as proved",
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
          "assumptions": ["floating point is treated as real arithmetic in the proofs", "NESOASSERT conditions are assumed on the path where they hold (a failing one terminates the program)",
                          "commands on a queue are treated as executed in submission order in the proofs; the executable runs use eager, lazy, reversed and random legal orders",
                          "extraction drops: exception edges (-fignore-exceptions), assertion message text, profiling output"] + M["assume"],
          "wall_s": round(time.time() - T0, 1), "violations": nviol, "known_findings": [k["what"] for k in known], "build_notes": build_err}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
