"""Run the check of one property: prove, cross-check on CPython, search, report, write evidence."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_now = time.time

GLOBAL_TRUST = [
    "CPython 3.12 executing the rewritten source (rewrite rules: pyvc/loader.py) and z3/cvc5",
    "integers are Python's (unbounded); floats are treated as exact real numbers",
    "stdlib contracts: struct pack/unpack, time.gmtime/strftime, configparser, os.path, xml.etree (run natively on "
    "text with symbolic holes), re.sub where stated",
    "files are read as the harness supplies them; no concurrent modification",
]


def load_prop(pid):
    return importlib.import_module("props." + pid.lower())


def _sym_job(args):
    pid, hi, vi, use_cuts, tier, opts = args
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    from pyvc.harness import SymRun
    h = load_prop(pid).HARNESSES[hi]
    v = h.variants[vi]
    try:
        r = SymRun(h, v, use_cuts=use_cuts, **opts).explore()
        return {"h": hi, "v": vi, "obl": r.obl, "refutations": r.refutations, "covers": sorted(r.covers),
                "paths": r.paths, "killed": r.killed, "truncated": r.truncated, "unsupported": r.unsupported,
                "n_unsupported": getattr(r, "n_unsupported", 0),
                "errors": r.errors, "models": r.path_models, "backends": r.backends, "solver_s": r.solver_s,
                "queries": r.queries, "timed_out": r.timed_out, "wall": r.wall, "cuts": sorted(r.cuts_used),
                "wanted_cuts": sorted(r.cuts)}
    except BaseException as e:
        return {"h": hi, "v": vi, "crash": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])}


def _conc_job(args):
    "Run concrete cases. cases: list of dicts (values) or an int count of random ones."
    pid, hi, vi, cases, seed, budget, tier = args
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from pyvc.harness import ConcS
    h = load_prop(pid).HARNESSES[hi]
    v = h.variants[vi]
    res = {"h": hi, "v": vi, "run": 0, "ok": 0, "discard": 0, "fails": [], "crash": [], "checks": 0, "covers": set(),
           "distinct": set(), "samples": [], "status": []}
    t0 = _now()
    it = cases if isinstance(cases, list) else range(cases)
    for k in it:
        if _now() - t0 > budget:
            break
        if isinstance(k, dict):
            S = ConcS(h, v, values=k, rng=random.Random(seed), tier=tier)
        else:
            S = ConcS(h, v, rng=random.Random("%s-%s-%s-%s-%s" % (pid, h.name, vi, seed, k)), tier=tier)
        try:
            out = S.run()
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            out = "crash"
            if len(res["crash"]) < 3:
                res["crash"].append("%s: %s @ %s | inputs %s" % (type(e).__name__, e, traceback.format_exc()[-700:],
                                                              str(jsonable(S.used))[:400]))
        res["run"] += 1
        if isinstance(k, dict) and len(res["status"]) < 200:
            res["status"].append((out, sorted(set(S.check_names))))
        if out in ("ok", "discard"):
            res[out] += 1
        res["checks"] += S.checked
        res["covers"] |= S.covers
        if out == "ok" and S.checked:
            res["distinct"].add(hash(json.dumps(jsonable(S.used), sort_keys=True)))
            if len(res["samples"]) < 2:
                res["samples"].append(jsonable(S.used))
        if out == "fail":
            res["fails"].append((S.failed[0], jsonable(S.used)))
            if len(res["fails"]) >= 3:
                break
    res["covers"] = sorted(res["covers"])
    res["distinct"] = len(res["distinct"])
    return res


def jsonable(d):
    return {k: (v.hex() if isinstance(v, (bytes, bytearray)) else v) for k, v in d.items()}


class Pool(object):
    "Forked jobs with a hard time limit each."

    def __init__(self, n):
        self.n = n

    def run(self, jobs, limit, found=None):
        """jobs: list of (fn, args, seconds). Returns the list of results (None = died / over time).

        Once `found` holds of a result (a violation that the real code confirms), the rest gets one more minute."""
        self.hurried = False
        ctx = mp.get_context("fork")
        res = [None] * len(jobs)
        todo = list(range(len(jobs)))[::-1]
        live = {}
        t_end = _now() + limit
        while todo or live:
            while todo and len(live) < self.n and _now() < t_end:
                i = todo.pop()
                fn, args, secs = jobs[i]
                rx, tx = ctx.Pipe(False)

                def target(fn=fn, args=args, tx=tx):
                    try:
                        r = fn(args)
                        tx.send(r)
                    except BaseException as e:
                        try:
                            tx.send({"crash": "%s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-800:])})
                        except Exception:
                            pass
                    finally:
                        tx.close()
                        sys.stdout.flush()
                        os._exit(0)
                p = ctx.Process(target=target)
                p.start()
                tx.close()
                live[i] = (p, rx, _now() + secs)
            if not live and (not todo or _now() >= t_end):
                break
            ready = mp.connection.wait([x[1] for x in live.values()], timeout=0.25)
            for i in list(live):
                p, rx, dl = live[i]
                if rx in ready:
                    try:
                        res[i] = rx.recv()
                    except EOFError:
                        res[i] = None
                    if found is not None and res[i] is not None and not self.hurried and found(jobs[i], res[i]):
                        self.hurried = True
                        t_end = min(t_end, _now() + 60)
                    p.join(5)
                    if p.is_alive():
                        p.kill()
                    rx.close()
                    del live[i]
                elif _now() > dl or _now() > t_end + 5:
                    p.kill()
                    p.join()
                    rx.close()
                    del live[i]
        return res


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == pid]


def replay_dir():
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    return d


def write_replay(pid, n, doc):
    p = os.path.join(replay_dir(), "%s-%d.json" % (pid, n))
    with open(p, "w") as f:
        json.dump(doc, f, indent=1, default=str)
    return p


def rerun(pid, hi, vi, values):
    "Replay one concrete input in a fresh process on the real code; returns failing check name or None."
    r = Pool(1).run([(_conc_job, (pid, hi, vi, [values], 1, 60, "quick"), 90)], 100)[0]
    if r and r.get("fails"):
        return r["fails"][0][0]
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay", default=None)
    a = ap.parse_args(argv)
    sys.path.insert(0, VERIF)
    pid = a.property.upper()
    if a.replay:
        doc = json.load(open(a.replay))
        P = load_prop(pid)
        hi = [h.name for h in P.HARNESSES].index(doc["harness"])
        vi = [repr(v) for v in P.HARNESSES[hi].variants].index(doc["variant"])
        f = rerun(pid, hi, vi, doc["inputs"])
        print("replay: %s" % ("check %r fails on the current tree" % f if f else "no failure on the current tree"))
        return 1 if f else 0
    try:
        return run(pid, a)
    except BaseException:
        traceback.print_exc()
        # a crash of the machinery is not a statement about the property
        return 0 if os.environ.get("PYVC_STRICT") is None else 3


def match_known(known, h, v, name, vals):
    for f in known:
        if f["harness"] == h.name and f["check"] == name and ("where" not in f or eval_where(f["where"], vals or {}, v)):
            return f
    return None


def run(pid, a):
    t0 = _now()
    thorough = a.tier == "thorough"
    total = 3000 if thorough else 480
    P = load_prop(pid)
    H = P.HARNESSES
    jobs, meta = [], []
    for hi, h in enumerate(H):
        if a.only and a.only not in h.name:
            continue
        for vi, v in enumerate(h.variants):
            if v in h.slow and not thorough:
                continue
            if h.symbolic:
                o = {}
                if thorough:
                    o = {"budget": h.budget * 5, "check_timeout": 60000, "unroll": h.thorough.get("unroll", h.unroll)}
                b = o.get("budget", h.budget)
                jobs.append((_sym_job, (pid, hi, vi, True, a.tier, o), b + 60))
                meta.append(("sym", hi, vi))
            n = h.n_random * (20 if thorough else 1)
            if n:
                cb = 600 if thorough else 60
                parts = 4 if thorough else (2 if n >= 400 else 1)
                for part in range(parts):
                    jobs.append((_conc_job, (pid, hi, vi, n // parts, a.seed * 1000 + part, cb, a.tier), cb + 60))
                    meta.append(("conc", hi, vi))
    pool = Pool(8)
    listed = known_findings(pid)

    def found(job, r):
        "A failing input that the list of known findings does not have."
        h = H[job[1][1]]
        return job[0] is _conc_job and any(match_known(listed, h, h.variants[job[1][2]], n, vals) is None
                                           for n, vals in r.get("fails", ()))
    res = pool.run(jobs, total, found)
    hurried = pool.hurried
    if a.v:
        for m, r in zip(meta, res):
            if r is None:
                print("LOST", m)
            elif "crash" in r and isinstance(r["crash"], str):
                print("CRASH", m, r["crash"])
    sym = {}
    conc = {}
    lost = []
    machinery = []
    fails = []          # (hi, vi, check, values, origin)
    for (kind, hi, vi), r in zip(meta, res):
        if r is None and hurried:
            continue                    # left out, the violation being known
        if r is None or isinstance(r.get("crash"), str):
            lost.append((kind, H[hi].name, repr(H[hi].variants[vi]), (r or {}).get("crash", "no result (time or memory)")))
            continue
        if kind == "sym":
            sym[(hi, vi)] = r
        else:
            conc.setdefault((hi, vi), []).append(r)
            for name, vals in r["fails"]:
                fails.append((hi, vi, name, vals, "search"))
            for c in r["crash"]:
                machinery.append("%s: %s" % (H[hi].name, c))
    # a failing proof that relies on loop annotations is decided again without them: the annotation may simply
    # not fit a rewritten loop
    decided = {f[0] for f in fails if match_known(known_findings(pid), H[f[0]], H[f[0]].variants[f[1]], f[2], f[3]) is None}
    redo = [(hi, vi) for (hi, vi), r in sym.items() if r["refutations"] and r["cuts"] and hi not in decided]
    if redo:
        o = {"unroll": 8}
        o["budget"] = min(100, H[redo[0][0]].budget) if not thorough else H[redo[0][0]].budget
        jr = [(_sym_job, (pid, hi, vi, False, a.tier, o), o["budget"] + 30) for hi, vi in redo]
        for (hi, vi), r in zip(redo, pool.run(jr, 3000 if thorough else max(30, 600 - (_now() - t0)))):
            if r is None or isinstance(r.get("crash"), str):
                machinery.append("%s: run without loop annotations lost" % H[hi].name)
                continue
            old = sym[(hi, vi)]
            r["wanted_cuts"] = old["wanted_cuts"]
            r["truncated"] = max(r["truncated"], 1)
            sym[(hi, vi)] = r
            machinery.append("%s/%r: loop annotation refuted (%s); decided by bounded unrolling instead" % (
                H[hi].name, H[hi].variants[vi], sorted({n for n, _ in old["refutations"]})[:4]))
            for n, m in old["refutations"]:
                if m is not None and not n.endswith("is preserved"):
                    r["models"].append(m)
    # second round: models
    jobs2, meta2 = [], []
    ref_names = {}
    spurious = {}       # (hi, vi, name) -> every counterexample of the verifier passes on the real code
    for (hi, vi), r in sym.items():
        cases = [m for _, m in r["refutations"] if m is not None]
        if cases:
            ref_names[(hi, vi)] = [n for n, m in r["refutations"] if m is not None]
            jobs2.append((_conc_job, (pid, hi, vi, cases, a.seed, 60, a.tier), 90))
            meta2.append(("refutation", hi, vi))
        if r["models"]:
            ms = r["models"]
            for k in range(0, len(ms), 100):
                jobs2.append((_conc_job, (pid, hi, vi, ms[k:k + 100], a.seed, 60, a.tier), 90))
                meta2.append(("path", hi, vi))
    res2 = pool.run(jobs2, 150)
    xrun = 0
    replay_note = {}
    for (kind, hi, vi), r in zip(meta2, res2):
        if r is None or isinstance(r.get("crash"), str):
            machinery.append("concrete %s run lost: %s" % (kind, (r or {}).get("crash")))
            continue
        conc.setdefault((hi, vi), []).append(r)
        if kind == "refutation" and len(r["status"]) == len(ref_names[(hi, vi)]):
            for n, (st, names) in zip(ref_names[(hi, vi)], r["status"]):
                good = st == "ok" and n in names
                spurious[(hi, vi, n)] = spurious.get((hi, vi, n), True) and good
        if kind == "path":
            xrun += r["ok"]
        for name, vals in r["fails"]:
            fails.append((hi, vi, name, vals, "counterexample" if kind == "refutation" else "path model"))
        for c in r["crash"]:
            machinery.append("%s: %s" % (H[hi].name, c))
    # extended search where something was refuted but not reproduced
    refuted = [(hi, vi, n) for (hi, vi), r in sym.items() for n in sorted({x[0] for x in r["refutations"]})]
    failed_h = {f[0] for f in fails}
    ext = sorted({(hi, vi) for hi, vi, _ in refuted if hi not in failed_h})
    if ext:
        jobs3 = []
        for hi, vi in ext:
            for part in range(4):
                jobs3.append((_conc_job, (pid, hi, vi, 100000, a.seed * 1000 + 77 + part, 40, a.tier), 90))
        for (hi, vi), r in zip([e for e in ext for _ in range(4)], pool.run(jobs3, 120)):
            if r and not isinstance(r.get("crash"), str):
                conc.setdefault((hi, vi), []).append(r)
                for name, vals in r["fails"]:
                    fails.append((hi, vi, name, vals, "search after refutation"))
    # ---- verdicts
    known = known_findings(pid)
    violations = []
    known_hit = {}
    seen = set()
    for hi, vi, name, vals, origin in fails:
        h = H[hi]
        f = match_known(known, h, h.variants[vi], name, vals or {})
        if f is not None:
            known_hit[f["id"]] = f
            continue
        if (hi, name) in seen:
            continue
        seen.add((hi, name))
        violations.append((hi, vi, name, vals, origin))
    nofail = []
    for hi, vi, name in refuted:
        h = H[hi]
        if any(v[0] == hi for v in violations):
            continue
        f = [k for k in known if k["harness"] == h.name and k["check"] == name]
        if f and any(k["id"] in known_hit for k in f):
            continue
        if (hi, name) in seen:
            continue
        if spurious.get((hi, vi, name)) and all(m is not None for n, m in sym[(hi, vi)]["refutations"] if n == name):
            # the verifier's counterexamples are complete inputs and the real code satisfies the check on
            # each of them: an imprecision of the engine, not a statement about the code
            machinery.append("%s/%r: refutation of %r not confirmed by its own counterexamples (undecided)" % (
                h.name, h.variants[vi], name))
            continue
        seen.add((hi, name))
        nofail.append((hi, vi, name))
    out_lines = []
    nv = 0
    confirmed = []
    for hi, vi, name, vals, origin in violations[:12]:
        h = H[hi]
        nv += 1
        doc = {"property": pid, "harness": h.name, "variant": repr(h.variants[vi]), "check": name, "inputs": vals,
               "origin": origin, "replay_cmd": "cd /verif && python3-vt -m pyvc.runner %s --replay <this file>" % pid,
               "functions": h.functions}
        p = write_replay(pid, nv, doc)
        out_lines.append("VIOLATION property=%s replay=%s" % (pid, p))
        print("# %s / %s: %s fails (%s) on inputs %s" % (h.name, h.variants[vi], name, origin, str(vals)[:600]))
    if not violations:
        for hi, vi, name in nofail[:6]:
            h = H[hi]
            nv += 1
            r = sym[(hi, vi)]
            doc = {"property": pid, "harness": h.name, "variant": repr(h.variants[vi]), "obligation": name,
                   "verifier": "z3: sat (obligation refuted)", "models": [m for n, m in r["refutations"] if n == name],
                   "functions": h.functions}
            p = write_replay(pid, nv, doc)
            out_lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))
            print("# %s / %s: obligation %s refuted" % (h.name, h.variants[vi], name))
    # ---- vacuity
    vac = []
    for hi, h in enumerate(H):
        if a.only and a.only not in h.name:
            continue
        if h.symbolic and not hurried and not any(r["obl"] for (i, _), r in sym.items() if i == hi):
            vac.append("harness %s generated no obligation" % h.name)
        want = set(getattr(h, "wanted_covers", ()))
    # ---- evidence
    write_evidence(pid, P, H, a, sym, conc, lost, machinery, vac, refuted, violations, nofail, known_hit, xrun,
                   _now() - t0)
    for f in known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    for x in lost:
        print("# lost: %s" % (x,))
    for m in machinery[:6]:
        print("# machinery: %s" % m[:1500])
    for v in vac:
        print("# vacuous: %s" % v)
    if a.v:
        verbose(H, sym, conc)
    for l in out_lines:
        print(l)
    sys.stdout.flush()
    if os.environ.get("PYVC_STRICT") and not out_lines:
        bad = lost or machinery or vac or any(r["unsupported"] or r["errors"] or r["timed_out"] or any(
            o["unknown"] for o in r["obl"].values()) for r in sym.values())
        if bad:
            return 4
    return 1 if out_lines else 0


def eval_where(expr, vals, variant):
    try:
        return bool(eval(expr, {"__builtins__": {"abs": abs, "min": min, "max": max, "int": int, "len": len}},
                         dict(vals, variant=variant)))
    except Exception:
        return False


def verbose(H, sym, conc):
    for (hi, vi), r in sorted(sym.items()):
        h = H[hi]
        tot = sum(sum(o.values()) for o in r["obl"].values())
        prov = sum(o["proved"] for o in r["obl"].values())
        print("SYM %s[%s]: paths %d (killed %d, truncated %d) obligations %d proved %d, %.1fs (solver %.1fs, %d q)%s" % (
            h.name, h.variants[vi], r["paths"], r["killed"], r["truncated"], tot, prov, r["wall"], r["solver_s"],
            r["queries"], " TIMEOUT" if r["timed_out"] else ""))
        for n, o in r["obl"].items():
            if o["refuted"] or o["unknown"]:
                print("    %s: %s" % (n, o))
        for n, m in r["refutations"]:
            print("    refuted %s: %s" % (n, m))
        for u in r["unsupported"]:
            print("    unsupported: %s" % u)
        for u in r["errors"]:
            print("    error: %s" % u)
        if r["wanted_cuts"] != r["cuts"]:
            print("    cuts wanted %s used %s" % (r["wanted_cuts"], r["cuts"]))
    for (hi, vi), rs in sorted(conc.items()):
        h = H[hi]
        print("CONC %s[%s]: run %d ok %d discard %d checks %d fails %s" % (
            h.name, h.variants[vi], sum(r["run"] for r in rs), sum(r["ok"] for r in rs),
            sum(r["discard"] for r in rs), sum(r["checks"] for r in rs), [f[0] for r in rs for f in r["fails"]][:3]))


def repo_functions(H):
    s = set()
    for h in H:
        s.update(h.functions)
    return sorted(s)


def write_evidence(pid, P, H, a, sym, conc, lost, machinery, vac, refuted, violations, nofail, known_hit, xrun, wall):
    obligations = discharged = unknown = 0
    backends = {}
    per = []
    solver = 0.0
    bounded_obl = 0
    cuts = set()
    for (hi, vi), r in sorted(sym.items()):
        h = H[hi]
        t = sum(sum(o.values()) for o in r["obl"].values())
        p = sum(o["proved"] for o in r["obl"].values())
        complete = not (r["truncated"] or r["unsupported"] or r["timed_out"] or r["errors"])
        obligations += t
        discharged += p
        unknown += sum(o["unknown"] for o in r["obl"].values())
        solver += r["solver_s"]
        cuts.update(r["cuts"])
        for b, n in r["backends"].items():
            backends[b] = backends.get(b, 0) + n
        bound = h.bounded
        if r["truncated"]:
            bound = (bound + "; " if bound else "") + "loops unrolled at most %d times (%d paths cut)" % (
                h.unroll, r["truncated"])
        if set(r["wanted_cuts"]) - set(r["cuts"]):
            bound = (bound + "; " if bound else "") + "loop annotation not applicable to the current source: %s" % (
                sorted(set(r["wanted_cuts"]) - set(r["cuts"])),)
        if bound:
            bounded_obl += t
        per.append({"harness": h.name, "variant": repr(h.variants[vi]), "obligations": t, "discharged": p,
                    "names": sorted(r["obl"]), "paths": r["paths"], "solver_s": round(r["solver_s"], 2),
                    "queries": r["queries"], "label": ("bounded: " + bound) if bound else (
                        "proved" if complete and p == t else "undecided"),
                    "unsupported": r["unsupported"], "errors": r["errors"], "timed_out": r["timed_out"],
                    "covers": r["covers"]})
    runs = sum(r["run"] for rs in conc.values() for r in rs)
    distinct = sum(r["distinct"] for rs in conc.values() for r in rs)
    samples = [s for rs in conc.values() for r in rs for s in r["samples"]][:4]
    assumptions = list(GLOBAL_TRUST)
    for h in H:
        for x in h.assumes:
            if x not in assumptions:
                assumptions.append(x)
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": getattr(P, "LEVEL", "proof"),
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "obligations_unknown": unknown, "obligations_in_bounded_harnesses": bounded_obl,
            "by_backend": backends, "solver_s": round(solver, 2),
            "checker_cmd": "cd /verif && python3-vt -m pyvc.runner %s --tier %s --seed %d" % (pid, a.tier, a.seed),
            "trusted_base": assumptions,
            "functions_under_contract": repo_functions(H),
            "contracts_used_at_call_sites": sorted({c for h in H for c in h.contracts_used}),
            "loop_invariants_used": sorted(cuts),
            "harnesses": per,
            "evaluations": runs, "distinct_nontrivial": distinct,
            "rule": "concrete cross-check: the same harness on the unmodified /repo package under CPython, with one "
                    "model per explored path plus seeded boundary-biased inputs; non-trivial = preconditions hold and "
                    "at least one postcondition was evaluated; distinct by input values",
            "path_models_replayed": xrun,
            "samples": samples,
        },
        "assumptions": assumptions,
        "undecided": {"lost_jobs": [str(x)[:500] for x in lost], "machinery": [m[:500] for m in machinery], "vacuous": vac},
        "known_findings_hit": sorted(known_hit),
        "wall_s": round(wall, 2),
        "violations": len(violations) + (len(nofail) if not violations else 0),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
