#!/opt/veriftools/pyvenv/bin/python
"""check.py ID [--tier quick|thorough]: decide one property on /repo's current working tree."""
import argparse
import json
import os
import random
import re
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.path.insert(0, os.path.join(VERIF, 'checks'))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--wall', type=float, default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--only', default=None)
    a = ap.parse_args()
    os.environ['VERIF_TIER'] = a.tier
    import run
    import machine as mc
    import props
    t0 = time.time()
    P = props.PROPS[a.id]
    seed = run.SEED
    rnd = random.Random(seed * 7919 + int(a.id[1:]))
    jobs = P.jobs(a.tier, rnd)
    if a.only:
        jobs = [j for j in jobs if re.search(a.only, j.name)]
    if a.tier == 'quick':
        for j in jobs:
            j.budget = j.qb or min(j.budget, P.budget_quick)
            j.vc_timeout = min(j.vc_timeout, P.vc_quick)
    wall = a.wall or (P.wall_quick if a.tier == 'quick' else P.wall_thorough)
    try:
        build = run.Build(ub=P.ub, py=P.py)
    except run.BuildError as e:
        if not P.py:
            raise
        # the bindings may use a part of pybind11 or of Python that the models lack: nothing is decided then
        print('UNDECIDED: the bindings do not compile against the models in harness/py\n%s' % e)
        sys.exit(report(a.id, a.tier, seed, P, jobs, [run.dead(j, 'the bindings do not compile against the models') for j in jobs], None, t0, run, a.only))
    try:
        mc.Program(build.ll)
        if a.v:
            print('build %.1fs, ready %.1fs, %d jobs' % (build.time, time.time() - t0, len(jobs)))

        def progress(R):
            if a.v:
                d = {k: v for k, v in R.items() if k not in ('samples', 'fn', 'job', 'functions') and v not in (0, None, [], {})}
                print(R['job'], '|', d, flush=True)
        results = run.run_jobs(jobs, build, wall=wall, progress=progress)
        code = report(a.id, a.tier, seed, P, jobs, results, build, t0, run, a.only)
    finally:
        build.clean()
    sys.exit(code)


def demangle(fns):
    import subprocess
    fns = sorted(f.lstrip('@').strip('"') for f in fns)
    try:
        return sorted(set(subprocess.run(['c++filt'], input='\n'.join(fns).encode(), stdout=subprocess.PIPE).stdout.decode().split('\n')) - {''})
    except OSError:
        return fns


def load_known():
    """known_findings.txt: lines 'known: property=ID harness=<fn> match=<regex on the label and inputs>  # text'"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) request=(.*?)\s*(?:# (.*))?$', l.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3) or ''))
    return out


def report(pid, tier, seed, P, jobs, results, build, t0, run, only):
    known = load_known()
    viol, knownhits, unconfirmed = [], [], []
    asan = None
    hangs = 0
    for R in results:
        for v in R['violations']:
            if isinstance(v['confirmed'], tuple):
                try:
                    if v['confirmed'][0] == 'valgrind':
                        v['confirmed'] = build.valgrind(v['request'])
                        if not v['confirmed']:
                            unconfirmed.append(v)
                            continue
                    elif v['confirmed'][0] == 'long':
                        if hangs >= 2:
                            continue
                        n = run.Native(os.path.join(build.dir, 'driver'), 20)
                        out = n.run(v['request'])
                        n.close()
                        bad = [l for l in out if l.startswith(('exit', 'signal', 'driver-died'))]
                        v['confirmed'] = 'native run ended with: ' + ' '.join(bad) if bad else None
                        if not bad:
                            unconfirmed.append(v)
                            continue
                        hangs += 1
                    elif asan is None:
                        asan = run.Native(build.asan(), asan=True)
                    if isinstance(v['confirmed'], tuple):
                        out = asan.run(v['request'])
                        bad = [l for l in out if l.startswith(('exit', 'signal'))]
                        v['confirmed'] = 'sanitizer build ended with: ' + ' '.join(bad) if bad else None
                        v['san'] = bool(bad)
                except run.BuildError as e:
                    v['confirmed'] = None
            if not v['confirmed']:
                unconfirmed.append(v)
                continue
            k = [x for x in known if x[0] == pid and x[1] == v['request']]
            if k:
                knownhits.append((v, k[0]))
            else:
                viol.append(v)
    if asan:
        asan.close()
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'):
            os.remove(os.path.join(rdir, f))
    paths = []
    for i, v in enumerate(viol):
        p = os.path.join(rdir, '%s-%d.json' % (pid, i))
        json.dump(dict(property=pid, harness=v['request'].split()[0], request=v['request'], inputs=v['inputs'], label=v['label'],
                       kind=v['kind'], confirmed=v['confirmed'], job=v['job'],
                       how='python3-vt /verif/replay.py ' + p), open(p, 'w'), indent=1)
        paths.append(p)
    S = lambda k: sum(R.get(k, 0) for R in results)
    hows = {}
    fns = set()
    for R in results:
        for k, n in R['hows'].items():
            hows[k] = hows.get(k, 0) + n
        fns |= set(R.get('functions', ()))
    inc = [dict(job=R['job'], why=R['incomplete']) for R in results if R['incomplete']]
    und = [dict(job=R['job'], what=R['undecided'][:4], n=len(R['undecided'])) for R in results if R['undecided']]
    mism = [m for R in results for m in R['mismatches']]
    samples = [s for R in results for s in R['samples']]
    rnd = random.Random(seed)
    rnd.shuffle(samples)
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=S('paths'), transitions=S('decisions'), traces_validated_against_impl=S('validated'), samples=samples[:6],
            exhaustive=False, jobs=len(jobs), jobs_complete=sum(1 for R in results if not R['incomplete']),
            paths_returning=S('ok'), paths_throwing=S('throw'), paths_faulting=S('fault'), paths_infeasible=S('infeasible'),
            assertions=S('vcs'), assertions_proved=S('proved'), decided_by=hows,
            solver_queries=S('queries'), solver_unsat=S('unsat'), solver_sat=S('sat'), solver_unknown=S('unknown'),
            solver_seconds=round(S('solver_s'), 2),
            functions_encoded=demangle(fns), bounds=P.bounds[tier] if isinstance(P.bounds, dict) else P.bounds,
            job_names=[j.name for j in jobs][:400], undecided=und[:60], incomplete=inc[:60],
            translation_mismatches=mism[:20], unconfirmed=[dict(label=v['label'], request=v['request']) for v in unconfirmed][:20],
            explanation='states = symbolic paths of the IR compiled from the current tree; transitions = branch decisions on '
                        'them; every assertion is an SMT query over all inputs of the path'),
        assumptions=run.ASSUMPTIONS + P.assumptions, wall_s=round(time.time() - t0, 1), violations=len(viol))
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', pid + '.json.tmp')
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.replace(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))
    print('%s %s: %d jobs (%d complete), %d paths, %d assertions, %d proved, %d undecided, %d queries, %.1fs solver, %.1fs'
          % (pid, tier, len(jobs), ev['coverage']['jobs_complete'], S('paths'), S('vcs'), S('proved'), sum(u['n'] for u in und),
             S('queries'), S('solver_s'), time.time() - t0))
    for u in und[:10]:
        print('UNDECIDED %s: %s (%d)' % (u['job'], '; '.join(u['what'])[:200], u['n']))
    if len(und) > 10:
        print('UNDECIDED in %d more jobs (see the evidence file)' % (len(und) - 10))
    why = {}
    for u in inc:
        why.setdefault(re.sub(r'\d+', 'N', u['why'])[:120], []).append(u)
    for k, us in sorted(why.items(), key=lambda x: -len(x[1])):
        print('INCOMPLETE %d jobs: %s  (e.g. %s)' % (len(us), us[0]['why'][:200], us[0]['job']))
    for m in mism:
        print('TRANSLATION-MISMATCH %s' % json.dumps(m)[:400])
    for v in unconfirmed:
        print('UNCONFIRMED %s [%s] %s' % (v['job'], v['label'], v['request'][:300]))
    errs = [R for R in results if R.get('error')]
    for R in errs:
        print('ENGINE-ERROR %s\n%s' % (R['job'], R['error']))
    for v, k in knownhits:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[2] or v['label']))
    for v, p in zip(viol, paths):
        print('  %s [%s] %s: %s' % (v['job'], v['label'], json.dumps(v['inputs'])[:600], v['confirmed']))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    return 1 if viol else 0


if __name__ == '__main__':
    main()
