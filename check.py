#!/usr/bin/env python3-vt
"""check.py <PROPERTY>: proves the contracts of the property on /repo's current source, runs the bounded
concrete stand-in, writes evidence/<PROPERTY>.json.  Exit 0 = held, 1 = VIOLATION printed."""
import hashlib
import importlib
import json
import os
import re
import sys
import time
import traceback

if os.environ.get("PYTHONHASHSEED") != "0":  # stable order of terms: same queries on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)

from engine import irparse, prove, search  # noqa: E402


def ir_hash(mod, names):
    """hash of the functions' IR without debug line info"""
    h = hashlib.sha1()
    for n in sorted(names):
        if n in mod.raw:
            hdr, body = mod.raw[n]
            t = re.sub(r"!\w+(\.\w+)* !?\d+|!\d+|#\d+", "", hdr + "\n" + "\n".join(l for l in body if "llvm.dbg" not in l))
            t = re.sub(r"@\.str[.\d]*", "@.str", t)
            h.update(n.encode())
            h.update(t.encode())
    return h.hexdigest()[:16]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    verbose = "-v" in sys.argv
    noproof = "--noproof" in sys.argv
    nosearch = "--nosearch" in sys.argv
    t0 = time.time()
    mod = importlib.import_module("contracts." + prop.lower())
    known = load_known(prop)
    base = {}
    bpath = os.path.join(VERIF, "baseline.json")
    if os.path.exists(bpath):
        base = json.load(open(bpath))

    proofs, unattached = [], []
    hashes = {}
    if not noproof:
        for name, builder in mod.proofs(tier):
            try:
                p = builder()
                p.pname = name
                names = set(p.eng.inlined) | {p.func}
                hashes[name] = ir_hash(p.mod, names)
                proofs.append(p)
            except irparse.Unsupported as e:
                unattached.append((name, "%s: %s" % (type(e).__name__, e)))
            except Exception as e:
                if verbose:
                    traceback.print_exc()
                unattached.append((name, "%s: %s" % (type(e).__name__, str(e)[:300])))
        prove.discharge(proofs)
        # retry undecided obligations once, alone, with more time
        retry = [p for p in proofs if any(o.status not in ("unsat", "sat") for o in p.obligations())
                 and not any(o.status == "sat" for o in p.obligations())]
        for p in retry:
            redo(p)
    nobl = sum(len(p.obligations()) for p in proofs)
    ndis = sum(1 for p in proofs for o in p.obligations() if o.status == "unsat")
    failed, undecided, vacuous = [], [], []
    for p in proofs:
        if p.vac == "unsat":
            vacuous.append(p.pname)
        for o in p.obligations():
            if o.status == "sat":
                failed.append((p, o))
            elif o.status != "unsat":
                if base.get(prop, {}).get(p.pname) == hashes[p.pname]:
                    undecided.append((p, o))
                else:
                    failed.append((p, o))
    proof_s = time.time() - t0
    if verbose:
        for p in proofs:
            print("%s: %d obligations, %d discharged, vac=%s, solver %.1fs" % (
                p.pname, len(p.obligations()), sum(o.status == "unsat" for o in p.obligations()), p.vac,
                sum(o.time for o in p.obligations())))
            for o in p.obligations():
                if o.status != "unsat" or o.time > 3:
                    print("   ", o.status, o.func, o.line, o.name, "%.1fs" % o.time, o.backend)
        for u in unattached:
            print("UNATTACHED", u)
    # bounded concrete stand-in / replay
    models = [o.info for p, o in failed if o.info]
    S = search.Search(prop, tier, seed, models, scale=1.0 if not (failed or unattached or vacuous) else 2.5)
    S.known = known
    if not nosearch:
        try:
            mod.search(S)
        except search.BuildError as e:
            S.notes.append("harness build failed: " + str(e)[-1500:])
        except Exception:
            S.notes.append("harness error: " + traceback.format_exc()[-1500:])
            if verbose:
                traceback.print_exc()
    if verbose:
        for q in S.parts:
            print("search", q)
        for n in S.notes:
            print("NOTE", n)

    # ------------------------------------------------------------ verdict
    out_lines, viol = [], []
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    new_fail, seen_known = [], {}
    for f in S.failures:
        k = next((k for k in known if k["kind"] == "known" and k["key"] == f["key"]), None)
        if k is not None:
            seen_known[k["key"]] = k
        else:
            new_fail.append(f)
    for k in known:
        if k["kind"] == "known":
            out_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    rp = os.path.join(VERIF, "evidence", "replay", prop + ".json")
    rep = {"property": prop, "seed": seed, "tier": tier}
    if failed:
        rep["failed_obligations"] = [
            {"proof": p.pname, "function": o.func, "line": o.line, "obligation": o.name, "kind": o.kind,
             "solver": o.backend or o.status, "status": o.status, "model": o.info, "goal": str(o.goal)[:1500]}
            for p, o in failed[:40]]
    if new_fail:
        rep["failing_inputs"] = [search.jsonable(f) for f in new_fail[:10]]
        json.dump(rep, open(rp, "w"), indent=1, default=str)
        out_lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
        viol.append("input")
    elif failed:
        json.dump(rep, open(rp, "w"), indent=1, default=str)
        out_lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        viol.append("obligation")
    level = "proof" if (not unattached and not undecided and not vacuous and not noproof) else "exploration"
    mlevel = getattr(mod, "LEVEL", None)
    if mlevel and level == "proof":
        level = mlevel
    funcs = sorted({p.func for p in proofs})
    backends = {}
    for p in proofs:
        for o in p.obligations():
            if o.status == "unsat":
                backends[o.backend] = backends.get(o.backend, 0) + 1
    inl = sorted({f for p in proofs for f in p.eng.inlined})
    cov = {
        "obligations": nobl, "discharged": ndis,
        "checker_cmd": "python3-vt /verif/check.py %s (own VC generator on clang-18 -O0 LLVM IR of /repo's files; z3 %s, cvc5 1.1.2)" % (
            prop, prove.z3.get_version_string()),
        "trusted_base": ["engine/irparse.py + engine/sym.py (VC generator)", "clang-18 front end (C to IR)",
                         "z3 and cvc5 (unsat answers)"] + list(getattr(mod, "TRUSTED", [])),
        "functions_under_contract": funcs, "functions_inlined_at_call_sites": inl,
        "proofs": [{"name": p.pname, "function": p.func, "file": p.src, "obligations": len(p.obligations()),
                    "discharged": sum(o.status == "unsat" for o in p.obligations()), "loops_cut": p.nloops,
                    "reachability": p.vac,
                    "by_kind": kinds(p), "solver_s": round(sum(o.time for o in p.obligations()), 2)} for p in proofs],
        "discharged_by": backends, "solver_s": round(sum(o.time for p in proofs for o in p.obligations()), 2),
        "proof_wall_s": round(proof_s, 1),
        "not_attached_this_run": ["%s (%s)" % u for u in unattached],
        "undecided_this_run": ["%s:%s" % (p.pname, o.name) for p, o in undecided],
        "vacuous": vacuous,
        "bounded_stand_in": {"note": "concrete runs of the real code against an independent oracle; bounded, not proof",
                             "parts": S.parts, "evaluations": S.evals, "notes": S.notes},
        "evaluations": S.evals, "samples": [search.jsonable(s) for s in S.samples[:3]],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + ENGINE_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    if level == "exploration":
        cov["distinct_nontrivial"] = S.evals
        cov["rule"] = "; ".join(q["rule"] for q in S.parts)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
    if "--baseline" in sys.argv:
        base[prop] = hashes
        json.dump(base, open(bpath, "w"), indent=1, sort_keys=True)
    print("%s: %d/%d obligations discharged over %d functions, %d concrete cases, level=%s, %.1fs" % (
        prop, ndis, nobl, len(funcs), S.evals, level, time.time() - t0))
    for u in unattached:
        print("  undecided by proof (bounded stand-in only): %s: %s" % u)
    for p, o in failed[:8]:
        print("  failed obligation: %s line %d: %s [%s]" % (o.func, o.line, o.name, o.status))
    for f in new_fail[:3]:
        print("  failing input: %s: %s" % (f["key"], str(f["what"])[:400]))
    for n in S.notes:
        print("  note:", n[-600:])
    for l in out_lines:
        print(l)
    sys.stdout.flush()
    sys.exit(1 if viol else 0)


ENGINE_ASSUMPTIONS = [
    "machine integers are treated as mathematical integers (no signed overflow), except that 8/16-bit truncation is exact",
    "doubles are treated as real numbers (no rounding, NaN or infinity)",
    "distinct pointer parameters and distinct allocations do not alias; malloc/calloc succeed",
    "partial correctness: termination is not proved",
    "error_handler/mpp_error/exit do not return",
]


def kinds(p):
    d = {}
    for o in p.obligations():
        d[o.kind] = d.get(o.kind, 0) + 1
    return d


def redo(p):
    import multiprocessing as mp

    jobs = []
    tab = {}
    for i, o in enumerate(p.obligations()):
        if o.status not in ("unsat", "sat"):
            tab[i] = o
            jobs.append((i, p.smt(o), p.timeout * 2, None))
    with mp.get_context("fork").Pool(min(4, len(jobs))) as pl:
        for i, res, t, be, model in pl.imap_unordered(prove.solve, jobs):
            o = tab[i]
            o.status, o.backend, o.info = res, be, model
            o.time += t


def load_known(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l and not l.startswith("#"):
                d = json.loads(l)
                if d["property"] == prop:
                    out.append(d)
    return out


if __name__ == "__main__":
    main()
