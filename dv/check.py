"""The check command of one property.

usage: python3-vt dv/check.py PROP [--tier quick|thorough]

1. Deductive part: the proof groups registered for the property in dv/proofs.py execute the real functions of /repo
   symbolically (loaded from the current working tree) against the shim of pandas, generate verification conditions
   from the contracts and the specification in spec/, and discharge them with z3 (cvc5 second).
2. CPython cross-check: the real code on real pandas and the real solver, on generated inputs, judged by the same
   specification (conc/).  Provides the failing input of a refuted obligation, and the stated bounded stand-in where the
   deductive part does not reach.

exit 0: held; exit 1 with a VIOLATION line: broken."""
import argparse
import json
import os
import signal
import subprocess
import sys
import time
import traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPLAYS = os.path.join(HERE, 'evidence', 'replay')
CPY = '/opt/venv/bin/python'

# concrete cases and seconds per tier
CONC = {'quick': (4000, 50), 'thorough': (100000, 500)}


def run_group(prop, name, q, tier):
    t0 = time.time()
    os.setpgrp()
    try:
        sys.setrecursionlimit(20000)
        from dv import proofs
        from dv.core import E, Unsupported
        obs, meta = proofs.run(prop, name, tier)
        q.put(dict(group=name, obligations=obs, meta=meta, wall=time.time() - t0))
    except BaseException as e:
        q.put(dict(group=name, obligations=[], meta={}, wall=time.time() - t0,
                   error='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc()))


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    p.kill()
    p.join()


def deductive(prop, tier, budget):
    try:
        from dv import proofs
        groups = proofs.groups(prop, tier)
    except Exception as e:
        return [dict(group='load', obligations=[], meta={}, wall=0.0, error='%s: %s' % (type(e).__name__, e),
                     trace=traceback.format_exc())]
    ctx = mp.get_context('fork')
    todo = list(groups)
    running = []
    res = []
    end = time.time() + budget
    while todo or running:
        while todo and len(running) < 12:
            g = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=run_group, args=(prop, g, q, tier))
            p.start()
            running.append((g, p, q))
        time.sleep(0.02)
        for it in list(running):
            g, p, q = it
            if not q.empty():
                res.append(q.get())
                p.join(5)
                if p.is_alive():
                    p.kill()
                running.remove(it)
            elif not p.is_alive():
                if not q.empty():
                    res.append(q.get())
                else:
                    res.append(dict(group=g, obligations=[], meta={}, wall=0.0, error='process died'))
                running.remove(it)
            elif time.time() > end:
                kill_group(p)
                running.remove(it)
                res.append(dict(group=g, obligations=[], meta={}, wall=budget, error='time budget of the proof ran out'))
        if time.time() > end:
            for g in todo:
                res.append(dict(group=g, obligations=[], meta={}, wall=0, error='time budget of the proof ran out'))
            todo = []
    order = {g: i for i, g in enumerate(groups)}
    res.sort(key=lambda r: order.get(r['group'], 0))
    return res


def start_concrete(prop, tier, seed):
    n, budget = CONC[tier]
    out = os.path.join(HERE, 'evidence', '.conc-%s.json' % prop)
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ, OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.Popen([CPY, '-m', 'conc.run', prop, '--seed', str(seed), '--n', str(n), '--budget', str(budget),
                          '--out', out, '--jobs', '4' if tier == 'quick' else '8'], cwd=HERE, env=env,
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    return p, out, budget


def finish_concrete(h):
    p, out, budget = h
    try:
        err = p.communicate(timeout=budget + 120)[1].decode(errors='replace')
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        err = 'timeout'
    if os.path.exists(out):
        r = json.load(open(out))
        os.remove(out)
        return r
    return dict(cases=0, errors=['concrete run gave no result: ' + err[-2000:]], violations=[], wall=0.0)


def findings(prop):
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known:') and ('property=%s ' % prop) in line:
                what = line.split('property=%s ' % prop, 1)[1]
                ident, _, text = what.partition(' ')
                out.append((ident, text))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-conc', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.prop
    t0 = time.time()
    os.makedirs(REPLAYS, exist_ok=True)
    h = None if a.no_conc else start_concrete(prop, a.tier, seed)
    ded = [] if a.no_proof else deductive(prop, a.tier, (240 if prop == 'C17' else 130) if a.tier == 'quick' else 700)
    conc = dict(cases=0, errors=[], violations=[], wall=0.0) if h is None else finish_concrete(h)

    obs = [dict(o, group=g['group']) for g in ded for o in g['obligations']]
    proved = [o for o in obs if o['status'] == 'proved']
    refuted = [o for o in obs if o['status'] == 'refuted']
    undecided = [o for o in obs if o['status'] not in ('proved', 'refuted')]
    errs = [g for g in ded if g.get('error')]
    kn = findings(prop)

    def is_known(text):
        return [k for k, t in kn if k in text]

    lines = []
    used = set()
    for ident, text in kn:
        lines.append('KNOWN-FINDING: property=%s %s %s' % (prop, ident, text))
    viol = 0
    for v in conc['violations']:
        ms = [m for m in v['messages'] if not is_known('%s %s' % (m[0], m[1]))]
        if not ms:
            continue
        path = os.path.join(REPLAYS, '%s-seed%s.json' % (prop, v['seed']))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, kind='failing input', messages=ms, case=v['case'],
                           replay_cmd='cd /verif && %s -m conc.run %s --replay %s' % (CPY, prop, path),
                           failed_obligations=[o['name'] for o in refuted]), f, indent=1, default=str)
        if viol == 0:
            lines.append('# %s' % str(ms[0])[:500])
            lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        viol += 1
    ref2 = [o for o in refuted if not is_known(o['name'])]
    if ref2 and viol == 0:
        path = os.path.join(REPLAYS, '%s-obligations.json' % prop)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, kind='failed obligations, no failing input found', obligations=ref2), f, indent=1,
                      default=str)
        lines.append('# refuted: %s' % '; '.join(o['name'] for o in ref2)[:800])
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        viol += 1

    from dv import claims, proofs
    cov = dict(obligations=len(obs), discharged=len(proved),
               checker_cmd='python3-vt dv/check.py %s --tier %s' % (prop, a.tier),
               trusted_base=claims.TRUSTED + claims.trusted(prop),
               undecided=[dict(name=o['name'], why=str(o.get('info', ''))[:300]) for o in undecided],
               refuted=[o['name'] for o in refuted],
               groups=[dict(group=g['group'], obligations=len(g['obligations']),
                            discharged=sum(o['status'] == 'proved' for o in g['obligations']),
                            wall_s=round(g['wall'], 2), error=(g.get('error') or '')[:300], **(g.get('meta') or {}))
                       for g in ded],
               functions_under_contract=sorted({f for g in ded for f in (g.get('meta') or {}).get('functions', [])}),
               solver=dict(z3_s=round(sum(o.get('time', 0) for o in obs), 2),
                           backends=sorted({o.get('backend', 'z3') for o in obs})),
               obligation_names=[o['name'] for o in obs][:400],
               cpython_cross_check=dict(cases=conc['cases'], wall_s=round(conc.get('wall', 0), 1), seed=seed,
                                        harness_errors=[str(e)[-600:] for e in conc['errors']],
                                        role='real code on real pandas and CBC, judged by the same specification; bounded '
                                             '(sampled) stand-in where obligations are undecided'))
    level = claims.level(prop)
    if a.tier == 'quick':
        cov['groups_of_the_thorough_tier_only'] = sorted(g for p, g in proofs.SLOW if p == prop)
    complete = bool(obs) and not undecided and not errs
    ass = list(claims.assumptions(prop))
    if not complete:
        ass.append('deductive part incomplete on this run (%s): the sampled CPython check stands in, bounded' % (
            '; '.join(['%s: %s' % (g['group'], g['error'][:200]) for g in errs] +
                      ['undecided ' + o['name'] for o in undecided])[:1500] or 'no proof group'))
    if level == 'exploration' or level == 'other':
        cov.update(evaluations=conc['cases'], distinct_nontrivial=conc['cases'], rule=claims.rule(prop),
                   samples=[dict(seed=seed * 1000003)], explanation=claims.rule(prop))
    ev = dict(property=prop, tier=a.tier, seed=seed, level=level, coverage=cov, assumptions=ass,
              wall_s=round(time.time() - t0, 2), violations=viol)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d proved, %d refuted, %d undecided; %d concrete cases; %.1f s' % (
        prop, len(obs), len(proved), len(refuted), len(undecided), conc['cases'], time.time() - t0))
    for g in errs:
        print('  proof group %s undecided: %s' % (g['group'], g['error'][:300]))
        if a.v:
            print(g.get('trace', ''))
    if a.v:
        for o in refuted + undecided:
            print('  %s %s: %s' % (o['status'], o['name'], str(o.get('info', ''))[:1500]))
        for g in ded:
            print('  group %s: %d obligations %.1fs' % (g['group'], len(g['obligations']), g['wall']))
    for e in conc['errors']:
        print('  harness: %s' % str(e)[-400:])
    for ln in lines:
        print(ln)
    sys.exit(1 if viol else 0)


if __name__ == '__main__':
    main()
