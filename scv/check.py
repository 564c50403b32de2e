"""./check <property> quick|thorough"""
import sys, os, json, time, importlib, traceback
from concurrent.futures import ThreadPoolExecutor
from . import harness as HN
from .program import VERIF, REPO, CompileError
from .spec import Result
from .vals import Unsupported

OUT = os.environ.get('SCV_OUT', VERIF)      # development only: where evidence and replay files go
LIB_NOTE = "assumed contract of library/system function: "


def known():
    """known findings: property -> list of texts (entries starting 'fixed:' suppress nothing)"""
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                # finding: property=<id> obligation=<function>|<obligation name> <what fails>
                import re
                m = re.match(r'finding:\s+property=(\S+)\s+obligation="([^"]*)"\s+case="([^"]*)"\s+(.*)$', l)
                if m:
                    res.setdefault(m.group(1), []).append((m.group(2), m.group(3), m.group(4)))
    return res


def prove(info, tier):
    results, trouble = [], []
    try:
        mod = importlib.import_module('specs.' + info['mod'])
        results = getattr(mod, info['run'])(tier)
    except CompileError as x:
        trouble.append("the verifier's front end rejects the source: " + str(x)[:600])
    except Unsupported as x:
        trouble.append("outside the verifier's reach: %s" % x)
    except Exception as x:
        if os.environ.get('SCV_TRACE'):
            traceback.print_exc()
        trouble.append("internal: %s %s" % (type(x).__name__, x))
    return results, trouble


def sift(prop, results):
    """failed obligations that are not known findings, undecided functions"""
    kf = known().get(prop, [])
    failed, und, knownhit = [], [], set()
    for r in results:
        bad = [o for o in r.obls if o.status == 'failed']
        rest = []
        for o in bad:
            hit = None
            for i, (ob, case, txt) in enumerate(kf):
                if ob and ob in (r.name + '|' + o.name):
                    hit = i
            if hit is None:
                rest.append(o)
            else:
                knownhit.add(hit)
        if rest:
            failed.append((r, rest))
        if r.status == 'undecided':
            und.append(r)
    return kf, failed, und, knownhit


def replay(prop, tier, seed, hn, reg, kf, failed, knownhit):
    hres = herr = model = None
    for r, bad in failed:
        for o in bad:
            model = model or o.model
    try:
        names = hn if isinstance(hn, list) else [hn]
        cases, fails, out = [], [], ''
        for n in names:
            exe = HN.build(n, reg.HARNESS[n])
            a, b, c = HN.run(exe, prop, tier, seed, model)
            cases += a
            fails += b
            out += c
        f2 = []
        for f in fails:
            hit = [i for i, (ob, case, txt) in enumerate(kf) if case and f.startswith(case)]
            if hit:
                knownhit.update(hit)
            else:
                f2.append(f)
        hres = (cases, f2, out)
    except (HN.HarnessError, OSError) as x:
        herr = str(x)
    except Exception as x:
        herr = "%s %s" % (type(x).__name__, x)
    return hres, herr


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    reg = importlib.import_module('specs.registry')
    info = reg.PROPS[prop]
    from . import spec as SP
    hn = info.get('harness')
    always = info.get('standin')
    SP.phase(1)
    results, trouble = prove(info, tier)
    kf, failed, und, knownhit = sift(prop, results)
    hres = herr = None
    need = failed or und or trouble
    if hn and (need or always or tier == 'thorough'):
        hres, herr = replay(prop, tier, seed, hn, reg, kf, failed, knownhit)
    if need and not (hres and hres[1]):
        # no failing input: make sure that it is not the solver's luck
        SP.phase(2)
        results, trouble = prove(info, tier)
        kf, failed, und, kh = sift(prop, results)
        knownhit |= kh
    # ---------------------------------------------------------------- verdict
    viol = None
    if hres and hres[1]:
        viol = 'reproduced'
    elif failed:
        viol = 'noinput'
    obls = [o for r in results for o in r.obls]
    disch = [o for o in obls if o.status == 'proved']
    trusted = sorted({t for r in results for t in r.trusted})
    status = 'proved' if not failed and not und and not trouble and results else ('violated' if viol else 'undecided')
    undecided_notes = trouble + ["%s: %s" % (r.name, r.reason) for r in und]
    cov = dict(
        obligations=len(obls), discharged=len(disch),
        checker_cmd="./check %s %s (scv: verification conditions from clang -O0 LLVM IR of /repo, discharged by z3 and cvc5)" % (prop, tier),
        trusted_base=["scv verification-condition generator (/verif/scv)", "clang 18 front end", "z3 4.x python bindings, cvc5 1.1.2"] + [LIB_NOTE + t for t in trusted] + list(info.get('trusted', [])),
        functions_under_contract=sorted({r.name for r in results}),
        bodies_verified_as_part_of_their_callers=sorted({i for r in results for i in r.inlined if i.startswith('scalopus') or ' scalopus' in i})[:80],
        callee_contracts_used=sorted({u for r in results for u in r.used}),
        per_function=[dict(function=r.name, status=r.status, obligations=len(r.obls), discharged=sum(o.status == 'proved' for o in r.obls),
                           paths=r.paths, loops=len(r.loops), loop_invariant_clauses=r.invs, solver_queries=r.queries,
                           z3_s=round(r.solver.get('z3', 0), 2), cvc5_s=round(r.solver.get('cvc5', 0), 2), reason=r.reason) for r in results],
        solver_time_s=dict(z3=round(sum(r.solver.get('z3', 0) for r in results), 2), cvc5=round(sum(r.solver.get('cvc5', 0) for r in results), 2)),
        backends={b: sum(1 for o in disch if o.backend == b) for b in {o.backend for o in disch}},
        verdict=status,
    )
    if undecided_notes:
        cov['undecided'] = undecided_notes
    if hres:
        cov['bounded_cases_run'] = dict(count=len(hres[0]), names=hres[0], failures=hres[1],
                                        role="stand-in (bounded) for what is undecided" if undecided_notes or always else "replay / cross-check of the proof")
    if herr:
        cov['harness_error'] = herr[:800]
    ev = dict(property=prop, tier=tier, seed=seed, level=info.get('level', 'proof'), coverage=cov,
              assumptions=list(info.get('assumptions', [])) + sorted(getattr(sys.modules.get('specs.' + info['mod']), 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for i in sorted(knownhit):
        print("KNOWN-FINDING: property=%s %s" % (prop, kf[i][2]))
    for r in results:
        print("%-9s %-70s %d/%d obligations  %.1fs %s" % (r.status.upper(), r.name[:70], sum(o.status == 'proved' for o in r.obls), len(r.obls), r.time, r.reason[:160]))
    for t in trouble:
        print("UNDECIDED " + t[:300])
    if hres:
        print("harness: %d cases, %d failures" % (len(hres[0]), len(hres[1])))
    if herr:
        print("harness error: " + herr[:400])
    if viol:
        rd = os.path.join(OUT, 'replay', 'out')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, prop + '.txt')
        with open(rp, 'w') as f:
            f.write("property %s\n\n" % prop)
            if hres and hres[1]:
                f.write("failing cases on the real code:\n")
                for x in hres[1]:
                    f.write("  " + x + "\n")
                f.write("reproduce: VH_PROP=%s VH_TIER=%s VH_SEED=%d %s\n\n" % (prop, tier, seed, ' && '.join(hn if isinstance(hn, list) else [hn]) + " (built by ./check from /verif/harness and /repo)"))
            for r, bad in failed:
                f.write("undischarged obligations of %s:\n" % r.name)
                for o in bad:
                    f.write("  %s\n    at source line %s, branch decisions (line, taken) %s, back end %s\n" % (o.name, o.line, list(o.path), o.backend))
                    if o.model:
                        f.write("    counterexample candidate: " + "; ".join(o.model) + "\n")
            for u in undecided_notes:
                f.write("undecided: " + u + "\n")
            if hres:
                f.write("\nharness output:\n" + hres[2][-4000:])
            if herr:
                f.write("\nharness: " + herr)
        if viol == 'reproduced':
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
