#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY: proves the property's contracts on /repo's current source and runs its bounded stand-ins.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken."""
import sys, os, time, json, subprocess, threading, tempfile, shutil, importlib, re, traceback, hashlib, pickle
from types import SimpleNamespace
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "specs")]
T0 = time.time()
MAXQ, MAXT = 700, 6 * 3600   # a check answers within this many seconds (quick, thorough)
CXX = os.environ.get("VERIF_DEV_REPO", "/repo") + "/cxx"   # VERIF_DEV_REPO: development only
HCXX = "clang++"
HFLAGS = ["-std=c++20", "-w", "-fsanitize=address,undefined", "-fno-sanitize=null,alignment,vptr,object-size", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"]
HEAVY = ("h_rel.cc", "h_emis.cc", "h_parse.cc", "h_model.cc", "h_gendb.cc", "irm.cc", "hirm.cc", "gendb.cc", "util_io.cc", "get_joint_relations.cc", "pclean_lib.cc")


def sh(cmd, timeout, env=None, cwd=None, inp=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(inp, timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return -999, o, e


class Harness:
    """build and run the bounded stand-ins of a property against the real code"""

    def __init__(self, specs, tmp, seed, tier):
        import registry
        self.specs, self.tmp, self.seed, self.tier = specs, tmp, seed, tier
        self.reg = registry
        self.exes = {}
        self.results = []      # dicts
        self.build_err = {}
        self.failure = None
        self.failures = []

    def build(self):
        objs = {}
        cmds = []
        for name, _ in self.specs:
            for src in [os.path.join(HERE, "harness", name + ".cc")] + [os.path.join(CXX, s) for s in self.reg.HARNESS[name]]:
                if src not in objs:
                    o = os.path.join(self.tmp, hashlib.md5(src.encode()).hexdigest() + ".o")
                    objs[src] = o
                    only = ["-DONLY"] + ["-DONLY_" + g for n, g in self.specs if n == name] if src.startswith(HERE) else []
                    cmds.append((src, [HCXX, *HFLAGS, "-O0" if os.path.basename(src) in HEAVY else "-O1", *only, "-iquote", CXX, "-iquote", os.path.join(HERE, "harness"), "-c", src, "-o", o]))
        errs = {}
        sem = threading.Semaphore(6)

        def one(src, c):
            with sem:
                rc, o, e = sh(c, 400)
                if rc != 0:
                    errs[src] = e[-3000:]
        ths = [threading.Thread(target=one, args=c) for c in cmds]
        [t.start() for t in ths]
        [t.join() for t in ths]
        for name in {n for n, _ in self.specs}:
            srcs = [os.path.join(HERE, "harness", name + ".cc")] + [os.path.join(CXX, s) for s in self.reg.HARNESS[name]]
            bad = [s for s in srcs if s in errs]
            if bad:
                self.build_err[name] = "\n".join(s + ": " + errs[s] for s in bad)
                continue
            exe = os.path.join(self.tmp, name)
            rc, o, e = sh([HCXX, *HFLAGS, *[objs[s] for s in srcs], *["-Wl,--wrap=" + w for w in self.reg.WRAP.get(name, [])], "-o", exe], 300)
            if rc != 0:
                self.build_err[name] = e[-3000:]
            else:
                self.exes[name] = exe

    def run(self, budget, seeds=None, width=4):
        """each group with several seeds at a time; the first failure (in the order of the list) is kept"""
        for name, hp in self.specs:
            if name not in self.exes:
                continue
            ss = seeds or [self.seed + 104729 * k for k in range(width)]
            ths = [threading.Thread(target=self.run_one, args=(name, hp, s, budget)) for s in ss]
            [t.start() for t in ths]
            [t.join() for t in ths]
            fs = sorted(self.failures, key=lambda f: ("did not finish" in f["message"], ss.index(f["seed"]) if f["seed"] in ss else 99))
            if fs:
                self.failure = fs[0]
                return

    def run_one(self, name, hp, seed, budget):
        case = os.path.join(self.tmp, "case-%s-%s-%s" % (name, hp, seed))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=0")
        cwd = os.path.join(self.tmp, "cwd-%s-%s" % (hp, seed))
        os.makedirs(cwd, exist_ok=True)
        limit = budget * 4 + 150
        left = T0 + (MAXQ if self.tier != "thorough" else MAXT) - 40 - time.time()
        if left < 10:
            return
        rc, o, e = sh([self.exes[name], hp, str(seed), str(budget), case], min(limit, left), env, cwd)
        if rc == -999 and left < limit:
            self.build_err[name] = "stopped: no time left"
            return
        text = ""
        try:
            text = open(case, "rb").read().split(b"\0")[0].decode(errors="replace")
        except OSError:
            pass
        m = re.search(r"^STATS (.*)$", o, re.M)
        if rc == 0 and m:
            st = json.loads(m.group(1))
            st.update(harness=name, group=hp)
            self.results.append(st)
            return
        if rc == 3:
            self.build_err[name] = "harness set-up failed: " + o[-500:]
            return
        if rc == -999:
            msg = "the code did not finish within %d s on this case" % (limit)
        elif "\nMSG " in o or o.startswith("FAIL"):
            msg = re.search(r"^MSG (.*)$", o, re.M).group(1)
            mm = re.search(r"^CASE (.*)", o, re.M | re.S)
            text = mm.group(1).strip() if mm else text
        else:
            msg = "the code crashed (exit %s): %s" % (rc, " | ".join(l for l in e.splitlines() if "Assertion" in l or "ERROR" in l or "runtime error" in l or "terminate" in l or "what()" in l)[:600] or e[-400:])
        self.failures.append(dict(harness=name, group=hp, seed=seed, message=msg, case=text, stderr=e[-2500:]))


def forked(fn, path):
    """run fn in a child process group; its pickled result goes to path"""
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.setsid()
            r = fn()
            with open(path + ".tmp", "wb") as f:
                pickle.dump(r, f)
            os.rename(path + ".tmp", path)
            rc = 0
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(rc)
    return pid, path


def collect(pid, path, end):
    """the result of a forked child, None when it failed or is late (then its whole group is killed)"""
    while True:
        p, _ = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() > end:
            try:
                os.killpg(pid, 9)
            except OSError:
                os.kill(pid, 9)
            os.waitpid(pid, 0)
            break
        time.sleep(0.05)
    try:
        os.killpg(pid, 9)
    except OSError:
        pass
    try:
        with open(path, "rb") as f:
            return pickle.load(f)
    except OSError:
        return None


def prove(prop, conf):
    """generate and discharge the obligations of a property; plain data only"""
    import ir, spec, solve
    units_res, used, note = [], set(), None
    ext_s = 0
    try:
        contracts = {}
        for m in conf.get("mods", []):
            mod = importlib.import_module(m)
            contracts.update(getattr(mod, "CONTRACTS", {}))
        units = [u for u in spec.UNITS if prop in u.props]
        files = sorted({f for u in units for f in u.files})
        t = time.time()
        prog = ir.extract(files) if files else None
        ext_s = time.time() - t
        if prog is not None:
            units_res, used = spec.run_units(units, contracts, prog, procs=8)
    except ir.Unsupported as e:
        note = "the front end could not extract the source: %s" % e
    except Exception as e:
        note = "verifier failed: %s" % traceback.format_exc()[-1500:]
    out = []
    for r in units_res:
        x = r.ex
        out.append(SimpleNamespace(
            unit=SimpleNamespace(name=r.unit.name, funcs=r.unit.funcs), status=r.status, err=r.err, gen_s=r.gen_s,
            havocked=x is not None and bool(x.havocked) and not r.unit.opts.get("havoc_ok"),
            inlined=set(x.inlined) if x else set(), usedc={a for a, b in x.used_contracts} if x else set(),
            notes=set(x.notes) if x else set(), axioms=set(x.axioms_used) if x else set(),
            obls=[SimpleNamespace(name=o.name, kind=o.kind, where=str(o.where), result=o.result, backend=o.backend, secs=o.secs, model=o.model, goal=o.goal.sexpr() if o.result != "proved" else "") for o in r.obls]))
    return dict(units=out, used=set(used), note=note, ext_s=ext_s, axtext=dict(solve.AX))


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import registry
    conf = registry.PROPS[prop]
    tmp = tempfile.mkdtemp(prefix="vc-%s-" % prop)
    try:
        rc = run(prop, tier, seed, conf, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def run(prop, tier, seed, conf, tmp):
    thorough = tier == "thorough"
    os.environ.setdefault("VERIF_SOLVER_MS", "30000" if thorough else "8000")
    specs = conf.get("harness", [])
    H = Harness(specs, tmp, seed, tier)
    budget = conf.get("budget", 6) / max(1, len(specs))
    if thorough:
        budget *= 15

    # the bounded stand-ins and the prover run in processes of their own, each with a deadline
    def stand_ins():
        try:
            H.build()
            H.run(budget)
        except Exception:
            H.build_err["internal"] = traceback.format_exc()
        return dict(exes=H.exes, results=H.results, build_err=H.build_err, failure=H.failure)

    hp, hf = forked(stand_ins, os.path.join(tmp, "h.pkl"))
    pp, pf = forked(lambda: prove(prop, conf), os.path.join(tmp, "p.pkl"))
    end = T0 + (MAXT if thorough else MAXQ)
    r = collect(hp, hf, end - 30)
    if r is None:
        H.build_err["all"] = "the stand-ins did not finish in time"
    else:
        H.exes, H.results, H.build_err, H.failure = r["exes"], r["results"], r["build_err"], r["failure"]
    pr = collect(pp, pf, T0 + (MAXT if thorough else MAXQ * 2 // 3))
    if pr is None:
        pr = dict(units=[], used=set(), note="the prover did not finish in time", ext_s=0, axtext={})
    import ir
    units_res, used, note, ext_s = pr["units"], pr["used"], pr["note"], pr["ext_s"]

    # ---- classify
    obligations = discharged = 0
    alarms, undecided = [], []
    per_unit, backends, kinds = [], {}, {}
    solver_s = 0
    inlined, usedc, notes, axioms = set(), set(), set(), set(used)
    for r in units_res:
        n = ok = 0
        bad_infer = r.havocked
        fails = []
        for o in r.obls:
            n += 1
            solver_s += o.secs or 0
            kinds[o.kind] = kinds.get(o.kind, 0) + 1
            if o.result == "proved":
                ok += 1
                backends[o.backend] = backends.get(o.backend, 0) + 1
            else:
                fails.append(o)
                if o.kind == "infer":
                    bad_infer = True
        inlined |= r.inlined
        usedc |= r.usedc
        notes |= r.notes
        axioms |= r.axioms
        status = r.status
        if r.status == "ok" and fails:
            hard = [o for o in fails if o.result in ("refuted", "incomplete", "vacuous")]
            if bad_infer:
                status = "undecided: a loop is outside the invariant inference"
            elif not hard:
                status = "undecided: solver time-out"
            else:
                status = "failed"
                alarms += [(r.unit, o) for o in hard]
        if status not in ("ok", "failed"):
            undecided.append((r.unit.name, r.err or status))
        obligations += n
        discharged += ok
        per_unit.append({"unit": r.unit.name, "functions": r.unit.funcs, "obligations": n, "discharged": ok, "status": status if not r.err else status + ": " + r.err, "generation_s": round(r.gen_s, 2)})
    if note:
        undecided.append(("all units", note))

    # ---- violation?
    violation = None

    def search():
        for k in range(1, 4):
            if not H.failure and time.time() - T0 < MAXQ * 0.6:
                H.run(max(12, budget), seeds=[seed + 7919 * (8 * k + j) for j in range(8)])
    if undecided and not alarms and not H.failure and specs and H.exes and conf["mods"]:
        # the proof could not be redone: the stand-in decides, with a longer search
        search()
    if H.failure:
        violation = "input"
    elif alarms and specs and H.exes:
        # replay search: more seeds of the bounded stand-in, looking for a concrete failing input
        search()
        violation = "input" if H.failure else "noinput"
    elif alarms:
        violation = "noinput"

    rdir = os.path.join(ir.build_dir(), "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, "%s.txt" % prop)
    if violation:
        with open(rpath, "w") as f:
            f.write("property %s\n" % prop)
            for u, o in alarms:
                f.write("\nFAILED OBLIGATION: %s\n  unit: %s\n  kind: %s  at %s\n  verifier: %s (%s, %.2fs)\n" % (o.name, u.name, o.kind, o.where, o.result, o.backend, o.secs or 0))
                f.write("  goal:\n%s\n" % o.goal[:4000])
                if o.model:
                    f.write("  candidate counterexample:\n%s\n" % o.model[:4000])
            if H.failure:
                x = H.failure
                f.write("\nFAILING INPUT (real code, harness %s group %s seed %s)\n  what failed: %s\n  case: %s\n  stderr: %s\n" % (x["harness"], x["group"], x["seed"], x["message"], x["case"], x["stderr"]))
                f.write("  replay: build /verif/harness/%s.cc with %s and run it with arguments: %s %s %s CASEFILE\n" % (x["harness"], " ".join([HCXX] + HFLAGS + registry_sources(x["harness"])), x["group"], x["seed"], budget))

    # ---- evidence
    bounded = [dict(r) for r in H.results]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "proof"), "wall_s": 0, "violations": 1 if violation else 0}
    cov = {}
    if obligations:
        cov.update({
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "python3-vt check.py %s (engine/: clang-18 AST extraction of /repo/cxx, VC generation, z3/cvc5)" % prop,
            "trusted_base": TRUSTED + sorted("theory lemma: " + pr["axtext"].get(a, a) for a in axioms),
            "backends": backends, "obligation_kinds": kinds, "solver_s": round(solver_s, 1), "extraction_s": round(ext_s, 1),
            "units": per_unit, "functions_executed_symbolically": sorted(inlined), "callee_contracts_used": sorted(usedc),
            "assumed_contracts": conf.get("assumed", []),
        })
    if undecided:
        cov["undecided_units"] = ["%s: %s" % u for u in undecided]
    cov["bounded_standins"] = {"label": "bounded: not counted as proved", "functions": conf.get("bounded", []), "runs": [{k: v for k, v in b.items() if k != "samples"} for b in bounded]}
    if H.build_err:
        cov["bounded_standins"]["not_run"] = {k: v[:600] for k, v in H.build_err.items()}
    if bounded:
        cov["evaluations"] = sum(b["evaluations"] for b in bounded)
        cov["distinct_nontrivial"] = sum(b["distinct_nontrivial"] for b in bounded)
        cov["rule"] = conf.get("rule", "seeded random operation histories on the real code, each step checked against the executable contract; a case is non-trivial when it exercised at least one state-changing step beyond the empty state, distinct by its full text")
        cov["samples"] = [s for b in bounded for s in b["samples"]][:8]
    elif obligations:
        cov["samples"] = [o.name for r in units_res for o in r.obls][:5]
    if not cov.get("obligations") and ev["level"] == "proof":
        ev["level"] = "exploration"
        cov.setdefault("evaluations", 0)
        cov.setdefault("distinct_nontrivial", 0)
        cov.setdefault("rule", "none run")
        cov.setdefault("samples", ["none"])
    ev["coverage"] = cov
    ev["assumptions"] = ASSUME + sorted(notes) + conf.get("assumptions", [])
    ev["wall_s"] = round(time.time() - T0, 2)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmpf = os.path.join(HERE, "evidence", prop + ".json.tmp")
    with open(tmpf, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmpf, os.path.join(HERE, "evidence", prop + ".json"))

    print("%s: %d/%d obligations discharged in %d units; bounded stand-ins: %s evaluations; %.1fs" % (
        prop, discharged, obligations, len(units_res), cov.get("evaluations", 0), time.time() - T0))
    for n, e in undecided:
        print("UNDECIDED %s: %s" % (n, e.splitlines()[0] if e else ""))
    for k, v in H.build_err.items():
        print("STAND-IN NOT RUN %s: %s" % (k, v.splitlines()[0] if v else ""))
    for key, what in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if violation == "input":
        x = H.failure
        print("failing input: %s\n  %s" % (x["message"], x["case"][:1500]))
        for u, o in alarms[:5]:
            print("failed obligation: [%s] %s (%s)" % (u.name, o.name, o.where))
        print("VIOLATION property=%s replay=%s" % (prop, rpath))
        return 1
    if violation == "noinput":
        for u, o in alarms[:8]:
            print("failed obligation: [%s] %s (%s)" % (u.name, o.name, o.where))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rpath))
        return 1
    return 0


def registry_sources(n):
    import registry
    return ["/repo/cxx/" + s for s in registry.HARNESS[n]]


TRUSTED = [
    "clang 18 parses the C++ the way g++ 13 compiles it",
    "engine/: AST extraction, symbolic execution, models of std containers and algorithms, loop invariant inference soundness of the final facts",
    "z3 (python bindings), cvc5 1.1.2, sympy (factoring and identities of rational functions)",
]
ASSUME = [
    "machine integers are treated as mathematical integers, except that a negative value converted to an unsigned type wraps",
    "doubles are treated as real numbers; ln, exp, lgamma as uninterpreted functions with the listed lemmas",
    "no allocation failure, no exceptions from the standard library, single thread",
]

main()
