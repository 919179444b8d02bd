#!/usr/bin/env python3
"""run_check.py <property-id> [--unit NAME] [--tier quick|thorough] [-v]

Decides one property: builds every unit of the property (a function of /repo under
contract) from /repo's current source, lets cbmc discharge all its obligations, and
writes evidence/<id>.json.  Exit 0 = held, exit 1 = VIOLATION line printed.
"""
import sys, os, json, threading, subprocess, tempfile, shutil, time, re, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from machinery import specs            # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
VERBOSE = False
MAXPAR = 8

INC = ["-I" + VERIF + "/machinery", "-I" + VERIF + "/contracts", "-I" + VERIF + "/harness",
       "-I" + REPO, "-I" + REPO + "/src/include", "-I" + REPO + "/src/common",
       "-I" + VERIF + "/gen"]
CBMC_FLAGS = ["--no-malloc-may-fail", "--drop-unused-functions", "--slice-formula",
              "--no-self-loops-to-assumptions", "--object-bits", "12", "--max-field-sensitivity-array-size", "300"]


T_START = time.time()


def budget():
    """seconds left before the check must give its answer"""
    return (3000 if TIER == "thorough" else 780) - (time.time() - T_START)


def sh(cmd, timeout=None, cwd=None, env=None):
    t = time.time()
    timeout = max(1, min(timeout or 10000, budget()))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           cwd=cwd, env=env)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"), time.time() - t
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode("utf-8", "replace"), "timeout", time.time() - t


def goto_build(u, d, unb, bound, tag):
    """compile the harness + the real sources; returns (path or None, message)"""
    out = f"{d}/{tag}.gb"
    defs = ["-DVF_CPROVER", "-D__NO_CTYPE", f"-DVF_UNBOUNDED={1 if unb else 0}", f"-DVF_BOUND={bound}",
            "-DVF_ENTRY=" + u.entry] + ["-D" + x for x in u.defs]
    if unb:
        defs.append("-DFIDOGATE_CONTRACTS")
    srcs = [f"{VERIF}/harness/{u.file}"] + [f"{REPO}/{s}" for s in u.src]
    if u.libc:
        srcs.append(f"{VERIF}/machinery/vf_libc.c")
    rc, o, e, _ = sh(["goto-cc"] + defs + INC + ["-o", out, "--function", u.entry] + srcs, 120)
    if rc != 0:
        return None, "goto-cc: " + (o + e)[-600:]
    cur = out
    if u.replace:
        nxt = f"{d}/{tag}.r.gb"
        cmd = ["goto-instrument"]
        for f, g in u.replace:
            cmd += ["--replace-calls", f + ":" + g]
        rc, o, e, _ = sh(cmd + [cur, nxt], 120)
        if rc != 0:
            return None, "replace-calls: " + (o + e)[-600:]
        cur = nxt
    if unb and u.loops:
        nxt = f"{d}/{tag}.u.gb"
        sh(["goto-instrument", "--drop-unused-functions", cur, nxt], 120)
        cur = nxt
        nxt = f"{d}/{tag}.c.gb"
        # statics start with their initialisers (a harness havocs what it wants arbitrary)
        rc, o, e, _ = sh(["goto-instrument", "--show-symbol-table", "--json-ui", cur], 120)
        try:
            st = [x for x in json.loads(o) if "symbolTable" in x][0]["symbolTable"]
            keep = [n for n, x in st.items() if x.get("isStaticLifetime") and not x.get("isType")
                    and not n.startswith("__CPROVER") and "$object" not in n]
        except (ValueError, IndexError):
            return None, "symbol table unreadable"
        cmd = ["goto-instrument"]
        for n in keep:
            cmd += ["--nondet-static-exclude", n]
        rc, o, e, _ = sh(cmd + ["--apply-loop-contracts", cur, nxt], 120)
        if rc != 0:
            return None, "apply-loop-contracts: " + (o + e)[-600:]
        cur = nxt
    return cur, ""


def cbmc(u, gb, unwind, timeout, extra=()):
    cmd = ["cbmc", gb, "--json-ui", "--unwind", str(unwind)] + CBMC_FLAGS + list(u.cbmc) + list(extra)
    if u.sat:
        cmd += ["--sat-solver", u.sat]
    if u.unwindset:
        cmd += ["--unwindset", ",".join(u.unwindset)]
    rc, o, e, t = sh(cmd, timeout)
    res, ver, msgs = [], None, []
    if rc == -9:
        return None, "timeout", t
    try:
        for m in json.loads(o):
            if "result" in m:
                res = m["result"]
            if "cProverStatus" in m:
                ver = m["cProverStatus"]
            if m.get("messageType") in ("ERROR", "WARNING"):
                msgs.append(m.get("messageText", ""))
    except ValueError:
        return None, "cbmc output unreadable: " + o[-300:] + e[-300:], t
    if ver is None:
        return None, "cbmc: no verdict: " + "; ".join(msgs)[-500:], t
    return res, "; ".join(msgs), t


def is_reach(r):
    return r["description"].startswith("reach:")


def is_unwind(r):
    return ".unwind." in r["property"] or "unwinding assertion" in r["description"] or \
        "recursion" in r["description"]


def is_model(r):
    return r["description"].startswith("libc-model:") or ".no-body." in r["property"] or \
        "no body for callee" in r["description"] or "undefined function" in r["description"]


class Result:
    pass


def val_of(v):
    if "binary" in v and re.fullmatch(r"[01]+", v["binary"]):
        b = v["binary"]
        n = int(b, 2)
        t = v.get("type", "")
        if not t.startswith("unsigned") and t not in ("_Bool", "size_t") and b[0] == "1" and len(b) > 1:
            n -= 1 << len(b)
        return n
    d = str(v.get("data", "0"))
    if d in ("TRUE", "true"):
        return 1
    if d in ("FALSE", "false"):
        return 0
    m = re.match(r"-?\d+", d)
    return int(m.group(0)) if m else 0


def extract_inputs(trace):
    out = []
    for s in trace:
        if s.get("stepType") == "input" and s.get("values"):
            out.append((s.get("inputID", "?").strip('"'), val_of(s["values"][0])))
    return out


_native_lib = {}
_native_lock = threading.Lock()


def native_lib(d):
    """the whole common library, sanitized; built once per run, only when needed"""
    with _native_lock:
        return native_lib_locked(d)


def native_lib_locked(d):
    if "lib" in _native_lib:
        return _native_lib["lib"]
    od = f"{d}/nat"
    os.makedirs(od, exist_ok=True)
    cfl = ["-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
           "-fno-sanitize=alignment,vptr"]
    srcs = [f"{REPO}/src/common/{f}" for f in sorted(os.listdir(f"{REPO}/src/common")) if f.endswith(".c")]
    have = {os.path.basename(s) for s in srcs}
    for g in ("cf_funcs.c", "cf_env.c"):
        if g not in have:
            srcs.append(f"{VERIF}/gen/{g}")
    srcs = [s for s in srcs if os.path.basename(s) not in ("cf_abbrev.c", "cf_env.c", "getdate.c")]

    def one(s):
        o = f"{od}/{os.path.basename(s)}.o"
        rc, _, e, _ = sh(["gcc"] + cfl + INC + ["-c", "-o", o, s], 120)
        return o if rc == 0 else None
    with cf.ThreadPoolExecutor(8) as ex:
        objs = [o for o in ex.map(one, srcs) if o]
    lib = f"{od}/libfg.a"
    sh(["ar", "rcs", lib] + objs)
    _native_lib["lib"] = (lib, cfl)
    return _native_lib["lib"]


def native_build(u, d, bound):
    lib, cfl = native_lib(d)
    exe = f"{d}/{u.name}.nat"
    srcs = [f"{VERIF}/harness/{u.file}", f"{VERIF}/machinery/vf_native.c"]
    # -O0: calls inside the unit stay calls (VF_PATCH)
    rc, o, e, _ = sh(["gcc"] + cfl + ["-O0", "-DVF_ENTRY=" + u.entry, "-DVF_UNBOUNDED=0", f"-DVF_BOUND={bound}"] +
                     ["-D" + x for x in u.defs] + INC + ["-o", exe] + srcs +
                     [lib, "-Wl,--allow-multiple-definition", "-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-lm"], 120)
    if rc != 0:
        return None, (o + e)[-500:]
    return exe, ""


NENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:detect_stack_use_after_return=0",
            UBSAN_OPTIONS="halt_on_error=1:exitcode=98:print_stacktrace=0", TZ="UTC", LC_ALL="C")


def native_replay(exe, f, cwd):
    rc, o, e, _ = sh([exe, "replay", f], 60, cwd=cwd, env=NENV)
    return rc, (o + e)[-3000:]


def bad_exit(rc):
    return rc in (98, 99) or (rc < 0 and rc != -9) or rc in (134, 139)


def native_extra(u, ud, R, thorough):
    """beyond the bound of a bounded unit: the same contract executed on the real code with
    larger random inputs; never counted as discharged.  True if a violation was found."""
    exe, msg = native_build(u, ud, max(u.bound, u.native_bound))
    if exe is None:
        R.note = "native build: " + msg
        return False
    f = f"{ud}/extra.txt"
    rc, o, e, t = sh([exe, "search", str(SEED), str(12 if thorough else 3), f], 120, cwd=ud, env=NENV)
    R.extra = o.strip()[-200:]
    if rc == 99 and os.path.exists(f):
        rc, out = native_replay(exe, f, ud)
        if bad_exit(rc):
            ins = [(l.split()[0], int(l.split()[1])) for l in open(f) if l.strip()]
            m = re.search(r"VF-VIOLATION (\S.*)", out)
            R.failed = [(u.name, m.group(1) if m else "sanitizer report")]
            R.replay = dict(kind="contract violated at run time beyond the bound", inputs=ins, output=out)
            return True
    return False


def run_unit(u, d):
    R = Result()
    R.unit, R.obl, R.dis, R.t = u, 0, 0, 0.0
    R.stage, R.failed, R.replay, R.note, R.confirmed = None, [], None, "", False
    R.bounded_obl = R.bounded_dis = 0
    R.extra = ""
    ud = f"{d}/{u.name}"
    os.makedirs(ud, exist_ok=True)
    thorough = TIER == "thorough"
    bound = u.bound_t if thorough and u.bound_t else u.bound
    unwind = u.unwind_t if thorough and u.unwind_t else u.unwind
    tmo = (u.timeout * 3 if thorough else u.timeout)
    undecided = ""
    fails = []

    # ---- the deciding stage
    gb, msg = goto_build(u, ud, u.mode == "contract", bound, "A")
    if gb is None:
        undecided = msg
    else:
        res, msg, t = cbmc(u, gb, u.unwind if u.mode == "contract" else unwind, tmo)
        R.t += t
        if res is None:
            undecided = msg
        else:
            reach = [r for r in res if is_reach(r)]
            obl = [r for r in res if not is_reach(r)]
            bad = [r for r in obl if r["status"] == "FAILURE"]
            unk = [r for r in obl if r["status"] not in ("FAILURE", "SUCCESS")]
            if any(is_unwind(r) or is_model(r) for r in bad):
                undecided = "not analysable as annotated: " + ", ".join(
                    sorted({r["property"] for r in bad if is_unwind(r) or is_model(r)}))[:300]
                fails = [r for r in bad if not (is_unwind(r) or is_model(r))]
            elif bad:
                fails = bad
            elif unk:
                undecided = "unknown: " + ", ".join(r["property"] for r in unk)[:300]
            elif not obl or not reach or any(r["status"] != "FAILURE" for r in reach):
                undecided = "vacuous: %d obligations, unreached: %s" % (
                    len(obl), [r["description"] for r in reach if r["status"] != "FAILURE"])
            else:
                R.obl, R.dis = len(obl), len(obl)
                R.stage = u.mode
                if u.mode != "bounded":
                    return R
                R.bounded_obl, R.bounded_dis, R.obl, R.dis = len(obl), len(obl), 0, 0
                if not native_extra(u, ud, R, thorough):
                    return R
                R.confirmed = True
                return R
    R.note = undecided
    R.failed = [(r["property"], r["description"]) for r in fails]
    if VERBOSE:
        print(f"  [{u.name}] stage A: undecided={undecided!r} fails={R.failed[:8]}", flush=True)

    # ---- counterexample search: bounded stage without annotations
    bfails, bres = [], None
    if u.mode != "contract":
        gbB, msgB = gb, ""
        if gb is not None and res is not None:
            bres, bfails = res, fails
    else:
        gbB, msgB = goto_build(u, ud, False, bound, "B")
    if u.mode != "contract":
        pass
    elif gbB is None:
        R.note += " | bounded build: " + msgB
    else:
        bres, msgB, t = cbmc(u, gbB, unwind if u.mode != "contract" else u.unwindB, max(tmo, 150))
        R.t += t
        if bres is None:
            R.note += " | bounded: " + msgB
        else:
            bfails = [r for r in bres if r["status"] == "FAILURE" and not is_reach(r)
                      and not is_unwind(r) and not is_model(r)]
            if VERBOSE:
                print(f"  [{u.name}] stage B fails={[(r['property'], r['description']) for r in bfails][:8]}", flush=True)
    exe, emsg = native_build(u, ud, max(bound, u.native_bound))
    if exe is None:
        R.note += " | native build: " + emsg
        if VERBOSE:
            print(emsg[-400:])
    # replay the verifier's counterexamples on the real code
    pick = sorted(bfails, key=lambda r: 0 if r["description"].startswith(("ensures", "callee")) else 1)[:4]
    for r in pick:
        res, m, t = cbmc(u, gbB, unwind if u.mode != "contract" else u.unwindB, max(tmo, 150),
                         ["--trace", "--property", r["property"]])
        if not res:
            continue
        tr = [x for x in res if x["property"] == r["property"] and x.get("trace")]
        if not tr:
            continue
        ins = extract_inputs(tr[0]["trace"])
        f = f"{ud}/cex.txt"
        open(f, "w").write("".join(f"{n} {v}\n" for n, v in ins))
        if exe:
            rc, out = native_replay(exe, f, ud)
            if VERBOSE:
                print(f"  [{u.name}] replay {r['property']}: rc={rc} {out[:300]}")
            if bad_exit(rc):
                R.confirmed = True
                R.failed = R.failed or [(r["property"], r["description"])]
                R.replay = dict(kind="verifier counterexample", inputs=ins, output=out, obligation=r["property"],
                                description=r["description"])
                return R
    # directed random search on the real code
    if exe and (fails or bfails or undecided):
        f = f"{ud}/search.txt"
        rc, o, e, t = sh([exe, "search", str(SEED), str(u.search if not thorough else 4 * u.search), f], u.search * 8 + 60,
                         cwd=ud, env=NENV)
        if rc == 99 and os.path.exists(f):
            rc, out = native_replay(exe, f, ud)
            if bad_exit(rc):
                R.confirmed = True
                ins = [(l.split()[0], int(l.split()[1])) for l in open(f) if l.strip()]
                R.replay = dict(kind="random search after failed/undecided obligation", inputs=ins, output=out)
                m = re.search(r"VF-VIOLATION (\S.*)", out)
                R.failed = R.failed or [(u.name, m.group(1) if m else "sanitizer report")]
                return R
        R.note += " | native search: " + o.strip()
    # nothing reproduced
    if fails and not undecided:
        R.stage = "failed"       # definite failure of a named obligation, no input
        return R
    if bres is not None and not bfails:
        ok = [r for r in bres if not is_reach(r) and r["status"] == "SUCCESS"]
        R.stage = "fallback-bounded"
        R.bounded_obl = R.bounded_dis = len(ok)
    else:
        R.stage = "undecided"
    return R


def do_replay(path):
    """run the input recorded in a replay file on the real code"""
    j = json.load(open(path))
    u = [u for u in specs.PROPS[j["property"]].units if u.name == j["unit"]][0]
    if not j.get("replay"):
        print("no failing input recorded; failed obligations:", j["failed_obligations"])
        return 1
    d = tempfile.mkdtemp(prefix="fgr_")
    try:
        exe, msg = native_build(u, d, max(u.bound, u.native_bound))
        if exe is None:
            print(msg)
            return 2
        f = d + "/in.txt"
        open(f, "w").write("".join(f"{n} {v}\n" for n, v in j["replay"]["inputs"]))
        rc, out = native_replay(exe, f, d)
        print(out, "exit", rc)
        return 1 if bad_exit(rc) else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    global VERBOSE, TIER
    args = sys.argv[1:]
    only = None
    pid = None
    while args:
        a = args.pop(0)
        if a == "--unit":
            only = args.pop(0)
        elif a == "--tier":
            TIER = args.pop(0)
        elif a == "--replay":
            sys.exit(do_replay(args.pop(0)))
        elif a == "-v":
            VERBOSE = True
        else:
            pid = a
    P = specs.PROPS[pid]
    units = [u for u in P.units if only is None or u.name == only]
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="fgv_%s_" % pid)
    results = []
    try:
        with cf.ThreadPoolExecutor(MAXPAR) as ex:
            futs = [ex.submit(run_unit, u, d) for u in sorted(units, key=lambda u: -u.weight)]
            for f in cf.as_completed(futs):
                r = f.result()
                results.append(r)
                if VERBOSE:
                    print(f"[{r.unit.name}] {r.stage} obl={r.obl + r.bounded_obl} t={r.t:.1f}s "
                          f"{'CONFIRMED' if r.confirmed else ''} {r.note[:300]}", flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    results.sort(key=lambda r: [u.name for u in units].index(r.unit.name))
    viol = [r for r in results if r.confirmed or r.stage == "failed"]

    rdir = f"{VERIF}/replays/{pid}"
    if only is None:
        shutil.rmtree(rdir, ignore_errors=True)
    lines = []
    for r in viol:
        os.makedirs(rdir, exist_ok=True)
        path = f"{rdir}/{r.unit.name}.json"
        json.dump(dict(property=pid, unit=r.unit.name, harness=r.unit.file, entry=r.unit.entry,
                       functions=r.unit.functions, failed_obligations=r.failed[:20], note=r.note,
                       replay=r.replay, how="machinery/replay.sh " + path), open(path, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s%s" %
                     (pid, os.path.relpath(path, VERIF), "" if r.confirmed else " no-failing-input-found"))

    wall = time.time() - t0
    if only is None:
        write_evidence(pid, P, results, viol, wall)
    for k in specs.known_findings(VERIF):
        if k[0] == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
    tot = sum(r.obl for r in results)
    tb = sum(r.bounded_obl for r in results)
    print(f"{pid}: {len(results)} units, {tot} obligations proved, {tb} discharged within a bound, "
          f"{sum(1 for r in results if r.stage in ('fallback-bounded', 'undecided'))} units undecided, {wall:.1f}s")
    for r in results:
        if r.stage in ("fallback-bounded", "undecided"):
            print(f"  note: {r.unit.name}: {r.stage}: {r.note[:200]}")
    if lines:
        print(lines[0])
        for x in lines[1:]:
            print(x)
        sys.exit(1)
    sys.exit(0)


def write_evidence(pid, P, results, viol, wall):
    proved = [r for r in results if r.stage in ("contract", "complete")]
    bnd = [r for r in results if r.stage == "bounded"]
    fb = [r for r in results if r.stage in ("fallback-bounded", "undecided", "failed") or r.confirmed]
    level = P.level
    if level == "proof" and (fb or bnd):
        level = "other"
    cov = dict(
        obligations=sum(r.obl for r in results), discharged=sum(r.dis for r in results),
        bounded_obligations=sum(r.bounded_obl for r in results),
        bounded_discharged=sum(r.bounded_dis for r in results),
        checker_cmd="goto-cc; goto-instrument --apply-loop-contracts; cbmc " + " ".join(CBMC_FLAGS) +
                    " (back end: SAT, minisat or CaDiCaL in cbmc 6.11)",
        trusted_base=P.trusted + specs.TRUSTED,
        explanation=P.note,
        solver_seconds=round(sum(r.t for r in results), 2),
        functions_under_contract=sorted({f for r in proved for f in r.unit.functions}),
        functions_bounded=sorted({f for r in bnd for f in r.unit.functions} -
                                 {f for r in proved for f in r.unit.functions}),
        units=[dict(unit=r.unit.name, functions=r.unit.functions, mode=r.unit.mode, stage=r.stage,
                    bound=(r.unit.bound_text if r.unit.mode == "bounded" or r.stage == "fallback-bounded" else None),
                    obligations=r.obl + r.bounded_obl, discharged=r.dis + r.bounded_dis,
                    solver_seconds=round(r.t, 2), assumed_callee_contracts=r.unit.stubs,
                    beyond_bound=r.extra, note=r.note) for r in results],
    )
    ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level,
              coverage=cov, wall_s=round(wall, 2),
              assumptions=P.assumptions + ["callee replaced by an assumed contract: " + s
                                           for s in sorted({s for r in results for s in r.unit.stubs})],
              violations=len(viol))
    if viol:
        cov["violated"] = [dict(unit=r.unit.name, obligations=[list(x) for x in r.failed[:10]],
                                confirmed=r.confirmed) for r in viol]
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)


if __name__ == "__main__":
    main()
