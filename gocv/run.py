#!/usr/bin/env python3
"""Verifies the functions which a property depends on against their contracts.

usage: run.py PROP quick|thorough OUT.json

Extracts /repo's current source as go/ssa (gossa), then discharges every obligation which the contracts in
contracts/<prop>.py raise, function by function. Writes what it found to OUT.json; exits 0 if it has an answer.
"""
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, 'contracts')]
sys.dont_write_bytecode = True
GO = '/opt/veriftools/go1.27.3/bin'

PROG = None
JOBS = None
LIMIT = 200


def extract(out):
    """/repo's source -> SSA"""
    e = dict(os.environ)
    e.update(PATH=GO + ':/usr/bin:/bin', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
    e.setdefault('HOME', '/root')
    b = out + '.bin'
    p = subprocess.run(['go', 'build', '-o', b, '.'], cwd=os.path.join(VERIF, 'gossa'), env=e, capture_output=True, text=True)
    if p.returncode:
        raise SystemExit('gossa does not build: ' + p.stderr[-2000:])
    e['PATH'] = '/opt/veriftools/go1.23.12/bin:/usr/bin:/bin'
    p = subprocess.run([b, out], cwd='/repo', env=e, capture_output=True, text=True)
    if p.returncode:
        raise SystemExit('gossa fails on /repo: ' + (p.stderr + p.stdout)[-2000:])


def work(i):
    from engine import verify
    try:
        return i, verify(PROG, JOBS[i], limit=LIMIT)
    except Exception as e:  # an error of the verifier is no verdict
        import traceback
        return i, dict(fn=JOBS[i].fn, undecided=[f'{type(e).__name__}: {e}: {traceback.format_exc()[-600:]}'], obl={}, solver_s=0, backend={}, externals={},
                       inlined=[], contracted=[], outcomes=0, wall=0)


def main(prop, tier, out):
    global PROG, JOBS, LIMIT
    t0 = time.time()
    LIMIT = 240 if tier == 'quick' else 1500
    tmp = tempfile.mkdtemp(prefix='gocv-')
    try:
        ssa = os.environ.get('GOCV_SSA') or os.path.join(tmp, 'ssa.json')
        if not os.environ.get('GOCV_SSA'):
            extract(ssa)
        from engine import Program
        PROG = Program(ssa)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    m = importlib.import_module('c' + prop[1:])
    JOBS = m.jobs(PROG)
    # The long ones first
    slow = getattr(m, 'SLOW', ('OpenFile', 'Move', 'Delete', 'Update', 'archive', 'Create', 'Initialize', 'Symlink'))
    order = sorted(range(len(JOBS)), key=lambda i: min([k for k, s in enumerate(slow) if s in JOBS[i].fn] or [99]))
    res = [None] * len(JOBS)
    n = int(os.environ.get('GOCV_PROCS', '8'))
    with mp.get_context('fork').Pool(n, maxtasksperchild=1) as pool:
        for i, r in pool.imap_unordered(work, order):
            res[i] = r
    failed, names, undecided, functions, inlined, trusted, by = [], [], [], [], set(), {}, {}
    total = discharged = 0
    solver = 0.0
    vac = dict(functions_without_obligations=[], reachable=0)
    for r in res:
        nm = r['fn']
        functions.append(nm)
        inlined |= set(r['inlined'])
        solver += r['solver_s']
        for k, v in r['backend'].items():
            by[k] = by.get(k, 0) + v
        for k, v in r['externals'].items():
            trusted[k] = trusted.get(k, 0) + v
        for u in r['undecided']:
            undecided.append(f'{nm}: {u}')
        if not r['obl'] and not r['undecided']:
            vac['functions_without_obligations'].append(nm)
        for o, d in sorted(r['obl'].items()):
            if o.endswith(':reachable'):
                if d['valid']:
                    vac['reachable'] += 1
                else:
                    undecided.append(f'{nm}: no path returns under its contract')
                continue
            total += d['paths']
            discharged += d['valid']
            names.append(o)
            if d['invalid']:
                x = d['invalid'][0]
                failed.append(dict(name=o, function=nm, paths=d['paths'], failing=d.get('ninv', len(d['invalid'])),
                                   detail=f"fails on {d.get('ninv', 1)} of {d['paths']} paths; path: {x['events']}; counterexample: {x['model']}"))
            elif d['valid'] != d['paths']:
                undecided.append(f"{nm}: {o}: {d['paths'] - d['valid']} of {d['paths']} paths are not decided ({d.get('why', 'solver')})")
    ext = sorted({c for r in res for c in r['contracted']})
    done = {j.fn for j in JOBS}
    assumed = getattr(m, 'ASSUMED', [])
    trusted_base = ['gossa + golang.org/x/tools/go/ssa (translation of the source)', 'gocv (verification condition generator)', 'z3', 'cvc5'] + \
        [f'assumed contract of {c}' for c in ext if not any(c == f or c.endswith(f) for f in done)]
    d = dict(failed=failed, obligations=total, discharged=discharged, trusted_base=trusted_base, functions=sorted(set(functions)), inlined=sorted(inlined),
             by_backend=by, solver_s=round(solver, 1), undecided=undecided, names=sorted(set(names)), vacuity=vac,
             assumptions=list(assumed) + [f'no contract: the call of {k} changes nothing but what its arguments refer to' for k in sorted(trusted)] +
             ['machine integers are treated as mathematical integers', 'each function is verified as it runs alone under its locks; other goroutines are excluded by them'],
             wall_s=round(time.time() - t0, 1), slowest=sorted(((round(r['wall'], 1), r['fn']) for r in res), reverse=True)[:5])
    json.dump(d, open(out, 'w'), indent=1)
    print(f"{prop}: {discharged} of {total} obligations in {len(functions)} functions, failed {len(failed)}, undecided {len(undecided)}, {d['wall_s']} s; slowest {d['slowest'][:3]}")
    for f in failed:
        print('FAILED', f['name'], f['detail'][:700])
    for u in undecided:
        print('UNDECIDED', u[:300])
    return 0


if __name__ == '__main__':
    sys.exit(main(*sys.argv[1:4]))
