#!/usr/bin/env python3
"""Decide one property:  check.py <ID> [quick|thorough]

Tier A  contract proof: every proof unit of the property is compiled by goto-cc
        from /repo's current sources (a unit #includes the real .c files),
        instrumented with the contracts (goto-instrument --dfcc), and every
        obligation is handed to cbmc.
Tier B  only when an obligation of tier A is not discharged (and in the thorough
        tier, always): the bounded form of the same statement, by cbmc with a
        stated bound and natively on the real code, to turn the failed
        obligation into a concrete failing input.

exit 0  held;  exit 1  VIOLATION line printed.
"""
import concurrent.futures as cf
import json, os, re, resource, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VP_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUDGET = float(os.environ.get("VP_BUDGET", "780"))
T0 = time.time()

from props import PROPS, UNITS, BOUNDED  # noqa: E402


def llvm_cflags():
    for c in ("llvm-config-19", "llvm-config"):
        try:
            return subprocess.run([c, "--cflags"], capture_output=True, text=True).stdout.split()
        except OSError:
            pass
    return []


CPP = ["-I" + REPO, "-I" + HERE + "/lib", '-DSKULL_VERSION="vp"', "-D_GNU_SOURCE"] + llvm_cflags()
CPP = [c for c in CPP if c != "-D_GNU_SOURCE"] + ["-D_GNU_SOURCE"]


def limits(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()
    return f


def run(cmd, timeout, gb=14, cwd=None, env=None):
    """-> (rc or None on timeout, stdout, stderr)"""
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                             errors="replace", preexec_fn=limits(gb) if gb else os.setsid,
                             cwd=cwd, env=env)
    except OSError as e:
        return 127, "", str(e)
    try:
        o, e = p.communicate(timeout=max(1, timeout))
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return None, "", "timeout"


def left():
    return BUDGET - (time.time() - T0)


def parse_cbmc(out):
    """-> (results, nobody functions, solver seconds, messages)"""
    try:
        data = json.loads(out)
    except ValueError:
        return None, [], 0.0, out[-2000:]
    res, nobody, secs, msgs = None, set(), 0.0, []
    for d in data:
        if "result" in d:
            res = d["result"]
        t = d.get("messageText", "")
        m = re.search(r"no body for (?:function|callee) '?([\w$]+)", t)
        if m:
            nobody.add(m[1])
        m = re.search(r"Runtime decision procedure: ([\d.e+-]+)s", t)
        if m:
            secs += float(m[1])
        if d.get("messageType") in ("ERROR", "WARNING"):
            msgs.append(t)
    return res, sorted(nobody), secs, "\n".join(msgs[-20:])


CHECKS = ["--bounds-check", "--pointer-check", "--div-by-zero-check", "--signed-overflow-check",
          "--undefined-shift-check", "--unwinding-assertions"]


def prove(name, tmp):
    """One proof unit (tier A)."""
    u = UNITS[name]
    t0 = time.time()
    r = dict(unit=name, status="undecided", reason="", obligations=0, discharged=0, failed=[],
             functions=u.get("functions", []), nobody=[], solver_s=0.0, wall_s=0.0, log="",
             bounded=u.get("bounded"))
    d = os.path.join(tmp, name)
    os.makedirs(d, exist_ok=True)
    a, b = d + "/a.gb", d + "/b.gb"
    to = min(u.get("timeout", 300), left() - 60)
    if to < 5:
        r["reason"] = "time budget used up"
        return r
    defs = ["-D" + x for x in u.get("defs", [])]
    for path, rx, rep in u.get("header_subst", []):
        # mechanical rewriting of a declaration that the verifier cannot take
        try:
            txt = open(REPO + "/" + path).read()
        except OSError:
            continue
        os.makedirs(os.path.dirname(d + "/ov/" + path), exist_ok=True)
        with open(d + "/ov/" + path, "w") as f:
            f.write(re.sub(rx, rep, txt))
    ov = ["-I" + d + "/ov"] if u.get("header_subst") else []
    cc = ["goto-cc", "-std=gnu18", "-DVP_CBMC", "-DSKULL_CONTRACTS"] + ov + CPP + defs + \
        [HERE + "/units/" + u["file"], "--function", u.get("entry", "harness"), "-o", a]
    r["cmd"] = [" ".join(cc)]

    def done():
        r["wall_s"] = round(time.time() - t0, 2)
        return r
    rc, o, e = run(cc, 120)
    if rc != 0:
        r["reason"] = "unit does not compile against the current tree"
        r["log"] = (o + e)[-4000:]
        return done()
    gi = ["goto-instrument", "--dfcc", u.get("entry", "harness")]
    for f in u.get("enforce", []):
        gi += ["--enforce-contract", f]
    for f in u.get("enforce_rec", []):
        gi += ["--enforce-contract-rec", f]
    for f in u.get("replace", []):
        gi += ["--replace-call-with-contract", f]
    if u.get("loops", True):
        gi += ["--apply-loop-contracts"]
    gi += u.get("gi_flags", [])
    if u.get("dfcc", True):
        r["cmd"].append(" ".join(gi + ["a.gb", "b.gb"]))
        rc, o, e = run(gi + [a, b], 180)
        if rc != 0:
            r["reason"] = "contract instrumentation failed"
            r["log"] = (o + e)[-4000:]
            return done()
    else:
        b = a
    cb = ["cbmc", b, "--json-ui"] + CHECKS + u.get("flags", [])
    if u.get("unwind"):
        cb += ["--unwind", str(u["unwind"])]
    if u.get("unwindset"):
        cb += ["--unwindset", u["unwindset"]]
    cb += ["--object-bits", str(u.get("object_bits", 9))]
    r["cmd"].append(" ".join(cb))
    rc, o, e = run(cb, to, gb=u.get("gb", 12))
    if rc is None:
        r["reason"] = "solver timeout after %ds" % to
        return done()
    res, nobody, secs, msgs = parse_cbmc(o)
    r["nobody"] = nobody
    r["solver_s"] = round(secs, 3)
    if res is None:
        r["reason"] = "cbmc gave no result"
        r["log"] = (msgs + e)[-4000:]
        return done()
    reach = [x for x in res if x["description"].startswith("VP_REACH")]
    obl = [x for x in res if not x["description"].startswith("VP_REACH")]
    r["obligations"] = len(obl)
    fails = [x for x in obl if x["status"] != "SUCCESS"]
    r["discharged"] = len(obl) - len(fails)
    unreached = [x for x in reach if x["status"] == "SUCCESS"]

    def show(x):
        l = x.get("sourceLocation", {})
        return dict(obligation=x["property"], description=x["description"],
                    at="%s:%s %s" % (l.get("file", "?"), l.get("line", "?"), l.get("function", "")),
                    status=x["status"])
    r["reach_checks"] = len(reach)
    unw = [x for x in fails if re.search(r"\.unwind\.|recursion", x["property"]) or
           "unwinding assertion" in x["description"]]
    hard = [x for x in fails if x not in unw]
    if not obl or (not reach and not u.get("noreach")):
        r["reason"] = "vacuous: no obligations or no reachability check generated"
        return done()
    undef = [x for x in hard if "undefined function should be unreachable" in x["description"]]
    new = [f for f in nobody if f not in u.get("extern", [])] + \
        [x["property"].split(".")[0] for x in undef]
    if (hard or unreached) and new:
        # code moved out of the files of this unit: the proof does not apply
        r["reason"] = "calls functions outside the unit: " + ", ".join(new[:6])
        r["failed"] = [show(x) for x in hard[:5]]
    elif hard or (unreached and not unw):
        r["status"] = "failed"
        r["failed"] = [show(x) for x in sorted(hard, key=lambda x: x['status'])[:40]] + \
            [dict(show(x), status="UNREACHABLE") for x in unreached]
        if unreached and not hard:
            r["reason"] = "end of the checked call is unreachable"
    elif unw:
        r["reason"] = "loop without (matching) loop contract: " + ", ".join(x["property"] for x in unw[:5])
        r["failed"] = [show(x) for x in unw[:5]]
    else:
        r["status"] = "proved"
    return done()


# ---------------------------------------------------------------- tier B

def build_native(bn, tmp):
    b = BOUNDED[bn]
    exe = os.path.join(tmp, bn + ".native")
    san = b.get("san", ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"])
    cmd = ["gcc", "-std=gnu18", "-g", "-O1", "-w", "-DVP_NATIVE"] + san + CPP + \
        ["-D" + x for x in b.get("defs", [])] + \
        [HERE + "/units/" + b["file"], HERE + "/lib/native.c", "-o", exe, "-lm"] + b.get("link", [])
    rc, o, e = run(cmd, 200, gb=None)
    if rc != 0:
        return None, (o + e)[-3000:]
    return exe, " ".join(cmd)


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1",
           UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1")


def bounded(bn, tmp, seconds, use_cbmc, seed):
    """Bounded form of a property: -> dict(found=bool, ...)"""
    b = BOUNDED[bn]
    out = dict(bounded=bn, bound=b["bound"], found=False, detail="", inputs=None, cbmc=None, native_runs=0,
               unavailable=None)
    if b.get("py"):
        from oracle import run as oracle_run
        r = oracle_run.par(b["py"], tmp, seconds, seed, b.get("workers", 6))
        out.update(found=r["found"], detail=r["detail"], inputs=r["inputs"], native_runs=r["runs"],
                   unavailable=r["unavailable"], stats=r["stats"], cbmc="not used")
        return out
    exe, msg = build_native(bn, tmp)
    if not exe:
        out["detail"] = "native harness does not build: " + msg
        out["unavailable"] = msg
    ex_in = os.path.join(tmp, bn + ".in")

    def replay(values, origin):
        with open(ex_in, "w") as f:
            f.write("\n".join(str(v) for v in values) + "\n")
        rc, o, e = run([exe, "replay", ex_in], 20, gb=None, env=ENV)
        if rc == 1:
            out.update(found=True, detail=origin + " replayed on the real code:\n" + e[-4000:],
                       inputs=list(values))
            return True
        return False

    if exe and seconds > 0:
        rc, o, e = run([exe, "search", str(seconds), str(seed), ex_in], seconds + 30, gb=None, env=ENV)
        m = re.search(r"runs=(\d+)", e)
        out["native_runs"] = int(m[1]) if m else 0
        if rc == 1 and os.path.exists(ex_in):
            vals = [int(x) for x in open(ex_in).read().split()]
            if replay(vals, "failing input found by search,"):
                return out
    if use_cbmc and b.get("unwind") and left() > 60:
        a = os.path.join(tmp, bn + ".gb")
        cc = ["goto-cc", "-std=gnu18", "-DVP_CBMC", "-DVP_BOUNDED"] + CPP + \
            ["-D" + x for x in b.get("defs", [])] + \
            [HERE + "/units/" + b["file"], "--function", "bharness", "-o", a]
        rc, o, e = run(cc, 120)
        if rc != 0:
            out["cbmc"] = "does not compile: " + (o + e)[-1500:]
            return out
        cb = ["cbmc", a, "--json-ui", "--trace", "--stop-on-fail", "--bounds-check", "--pointer-check",
              "--no-unwinding-assertions", "--unwind", str(b["unwind"])] + b.get("flags", [])
        if b.get("unwindset"):
            cb += ["--unwindset", b["unwindset"]]
        rc, o, e = run(cb, min(b.get("timeout", 200), left() - 20), gb=14)
        if rc is None:
            out["cbmc"] = "timeout"
            return out
        try:
            data = json.loads(o)
        except ValueError:
            out["cbmc"] = "no result"
            return out
        trace, what, ok = None, None, None
        for x in data:
            if "result" in x:
                for y in x["result"]:
                    if y.get("status") == "FAILURE":
                        trace, what = y.get("trace"), y
            if "cProverStatus" in x:
                ok = x["cProverStatus"]
        out["cbmc"] = ok or "no verdict"
        if ok == "failure" and trace is None:
            for x in data:
                if "trace" in x:
                    trace = x["trace"]
        if trace:
            vals = []
            for s in trace:
                if s.get("stepType") == "assignment" and s.get("lhs") == "vp_in":
                    v = s["value"]
                    vals.append(int(v["binary"], 2) if "binary" in v else int(v.get("data", 0)))
            vals = vals[1:] if vals and len(vals) > 0 and b.get("skip_init") else vals
            out["cbmc_failure"] = what["description"] if what else "?"
            if exe and replay(vals, "cbmc counterexample (%s)" % out["cbmc_failure"]):
                return out
            out["cbmc_unreplayed"] = vals[:200]
    return out


# ---------------------------------------------------------------- main

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    P = PROPS[pid]
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    code = 1
    try:
        code = decide(pid, P, tier, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def decide(pid, P, tier, tmp):
    units = [u for u in P["units"] if not UNITS[u].get("thorough_only") or tier == "thorough"]
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VP_JOBS", "8"))) as ex:
        order = sorted(units, key=lambda n: -UNITS[n].get("cost", 1))
        rs = {r["unit"]: r for r in ex.map(lambda n: prove(n, tmp), order)}
    rs = [rs[u] for u in units]
    failed = [r for r in rs if r["status"] == "failed"]
    und = [r for r in rs if r["status"] == "undecided"]
    for r in rs:
        print("%-26s %-9s %4d/%-4d obligations %6.1fs  %s" % (
            r["unit"], r["status"], r["discharged"], r["obligations"], r["wall_s"], r["reason"]))
        for f in r["failed"][:8]:
            print("      %s: %s [%s] %s" % (f["status"], f["description"], f["obligation"], f["at"]))
        if r["status"] == "undecided" and r["log"] and os.environ.get("VP_VERBOSE"):
            print(r["log"])
    bs = []
    standins = P.get("standins", [])
    todo = list(standins)
    if failed or und or tier == "thorough":
        todo += [b for b in P.get("bounded", []) if b not in todo]
    secs = {"quick": 12, "thorough": 60}[tier]
    if failed:
        secs = max(secs, 40)
    elif not und and tier == "quick":
        secs = 6
    for bn in todo:
        if left() < 30:
            break
        always = bn in standins
        b = bounded(bn, tmp, min(BOUNDED[bn].get("secs", secs) if "quick_secs" not in BOUNDED[bn] else max(secs, BOUNDED[bn]["quick_secs"]), left() - 20),
                    bool(failed or und or tier == "thorough" or BOUNDED[bn].get("cbmc_always")), SEED)
        b["role"] = "stand-in" if always else "bounded form of the proved statement"
        bs.append(b)
        print("%-26s bounded   %s (native runs %d, cbmc %s)" % (
            bn, "FAILING INPUT" if b["found"] else "no failing input", b["native_runs"], b["cbmc"]))
        if b["unavailable"]:
            print("      unavailable: " + b["unavailable"][:1500])
        if b["detail"]:
            print("      " + b["detail"].strip().replace("\n", "\n      ")[:3000])
        if b["found"]:
            break
    found = [b for b in bs if b["found"]]
    extra = []
    if P.get("extra"):
        extra = P["extra"](tier)
    bad_extra = [x for x in extra if x.get("violation")]
    viol = []
    if found or failed or bad_extra:
        os.makedirs(HERE + "/replays", exist_ok=True)
        rp = HERE + "/replays/%s.json" % pid
        json.dump(dict(property=pid, failed_obligations=[dict(unit=r["unit"], failed=r["failed"], cmd=r.get("cmd"),
                                                              reason=r["reason"]) for r in failed],
                       failing_input=found or None, extra=bad_extra,
                       how_to_replay="the inputs are the values of vp_nd() in order; build the harness with the "
                                     "command of build_native() in check.py and run: EXE replay FILE"),
                  open(rp, "w"), indent=1)
        line = "VIOLATION property=%s replay=%s" % (pid, rp)
        if not found and not bad_extra:
            line += " no-failing-input-found"
        viol.append(line)
    total = sum(r["obligations"] for r in rs)
    disch = sum(r["discharged"] for r in rs)
    bounded_units = [r["unit"] for r in rs if r["bounded"]] 
    ev = dict(
        property=pid, tier=tier, seed=SEED, level=P.get("level", "proof"),
        coverage=dict(
            obligations=total, discharged=disch,
            checker_cmd="goto-cc + goto-instrument --dfcc + cbmc 6.11 (SAT back end, MiniSat 2.2.1); see units",
            trusted_base=P.get("trusted", []) + ["cbmc 6.11.0 / goto-instrument --dfcc", "goto-cc front end and its x86_64 data model"],
            units=[dict(unit=r["unit"], status=r["status"], functions_under_contract=r["functions"],
                        obligations=r["obligations"], discharged=r["discharged"], solver_s=r["solver_s"],
                        wall_s=r["wall_s"], reason=r["reason"], bounded=r["bounded"],
                        reachability_checks=r.get("reach_checks", 0),
                        external_functions_havocked=r["nobody"],
                        back_end="cbmc SAT") for r in rs],
            solver_s=round(sum(r["solver_s"] for r in rs), 2),
            functions_under_contract=sorted({f for r in rs if r["status"] == "proved" and not r["bounded"] for f in r["functions"]}),
            bounded_units=bounded_units,
            undecided_units=[r["unit"] for r in und],
            bounded_checks=[dict(name=b["bounded"], role=b["role"], bound=b["bound"], native_runs=b["native_runs"],
                                 stats=b.get("stats"), unavailable=b["unavailable"], cbmc=b["cbmc"]) for b in bs],
            extra=extra,
        ),
        assumptions=P.get("assumptions", []),
        wall_s=round(time.time() - T0, 2),
        violations=len(viol),
    )
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
    for k in P.get("known", []):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for v in viol:
        print(v)
    if not viol and und and (not bs or all(b["unavailable"] for b in bs)):
        print("no answer: neither the proof nor its bounded form could be run on this tree")
        return 2
    return 1 if viol else 0


if __name__ == "__main__":
    main()
