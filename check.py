#!/usr/bin/env python3
"""Decides one property of /repo's current working tree.

usage: check.py run C05 quick|thorough
       check.py replay FILE

Deciding step: the deductive verifier in gocv/ discharges every proof obligation which the contracts in contracts/
raise for the functions the property depends on (extracted from /repo's source on every run by gossa).  Next to
it, the bounded harness in harness/ drives the real code: it searches a concrete failing input for a failed
obligation, and stands in, labelled as bounded, for what is outside the verifier's reach.
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
GO = '/opt/veriftools/go1.23.12/bin'
SHARDS = int(os.environ.get('VERIF_SHARDS', '8'))


def goenv():
    e = dict(os.environ)
    e['HOME'] = '/root'
    e['PATH'] = GO + ':/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
    return e


class Broken(Exception):
    """The check cannot give an answer."""


def build_harness(work, race):
    out = os.path.join(work, 'vh')
    p = subprocess.run(['bash', os.path.join(VERIF, 'harness/build.sh'), out] + (['-race'] if race else []),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=goenv())
    if p.returncode:
        raise Broken('the harness does not build against /repo:\n' + p.stdout[-4000:])
    return out


def harness_env(prop):
    e = goenv()
    if prop == 'C11':
        e['GORACE'] = 'halt_on_error=1 exitcode=66'
    e['GOTRACEBACK'] = 'all'
    e['GOMEMLIMIT'] = '3000MiB' if prop == 'C18' else '1500MiB'
    return e


def run_harness(vh, prop, tier, seed, work, limit, n=0, shards=SHARDS, seedoff=0):
    """Runs the cases of one property; returns (statistics, violations)."""
    jobs = []
    for s in range(shards):
        o, j, d, e = (os.path.join(work, f'{x}{seedoff}_{s}') for x in ('out', 'journal', 'dir', 'err'))
        cmd = [vh, 'run', '-prop', prop, '-tier', tier, '-seed', str(seed + seedoff), '-shard', str(s), '-shards', str(shards),
               '-out', o, '-journal', j, '-dir', d, '-limit', f'{int(limit)}s']
        if n:
            cmd += ['-n', str(n)]
        jobs.append((s, o, j, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(e, 'w'), env=harness_env(prop), start_new_session=True), e))
    stats = dict(evals=0, nontrivial=0, counts={}, samples=[], undecided=[], done=0, total=0)
    viols = []
    deadline = time.time() + limit + 90
    for s, o, j, p, e in jobs:
        rc = None
        try:
            rc = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        d = None
        if os.path.exists(o):
            try:
                d = json.load(open(o))
            except ValueError:
                d = None
        err = open(e, errors='replace').read()
        if rc is None:
            stats['undecided'].append(f'shard {s} did not end in time')
        elif rc != 0:
            key = 'race' if rc == 66 or 'WARNING: DATA RACE' in err else 'crash'
            try:
                case = json.load(open(j))
            except (OSError, ValueError):
                stats['undecided'].append(f'shard {s} ended with {rc}: {err[-500:]}')
                continue
            if rc < 0 and -rc == signal.SIGKILL:
                stats['undecided'].append(f'shard {s} was killed')
                continue
            viols.append(dict(case=case, viol=dict(key=key, step=-1, detail='the process ended with %d:\n%s' % (rc, err[:6000]))))
        if d:
            st = d['stats']
            stats['evals'] += st['evals']
            stats['nontrivial'] += st['nontrivial']
            for k, v in (st['counts'] or {}).items():
                stats['counts'][k] = stats['counts'].get(k, 0) + v
            stats['samples'] += (st['samples'] or [])[:1]
            stats['undecided'] += st['undecided'] or []
            stats['done'] += d['done']
            stats['total'] = max(stats['total'], d['total'])
            viols += d['violations'] or []
    return stats, viols


def replay_harness(vh, found, work, prop, tries=1):
    f = os.path.join(work, 'replay.json')
    json.dump(found, open(f, 'w'))
    out = ''
    for _ in range(tries):
        try:
            p = subprocess.run([vh, 'replay', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=harness_env(prop), timeout=180)
        except subprocess.TimeoutExpired as e:
            return True, 'the replay did not end'
        out = p.stdout.decode(errors='replace')
        if p.returncode:
            return True, out
    return False, out


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else dict(findings=[], fixed=[])


def main(prop, tier):
    start = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = json.load(open(os.path.join(VERIF, 'checks.json')))[prop]
    shm = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    work = tempfile.mkdtemp(prefix=f'verif-{prop}-', dir=shm)
    replays = os.path.join(VERIF, '.build', 'replay')
    os.makedirs(replays, exist_ok=True)
    known = load_known()
    violations, notes, lines = [], [], []
    try:
        # 1. The verifier
        proof = None
        if cfg.get('proof', True) and os.path.exists(os.path.join(VERIF, 'gocv', 'run.py')):
            pout = os.path.join(work, 'proof.json')
            p = subprocess.Popen(['python3-vt', os.path.join(VERIF, 'gocv', 'run.py'), prop, tier, pout],
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=goenv(), cwd=VERIF, start_new_session=True)
        else:
            p = None
        vh = build_harness(work, cfg.get('race', False))
        if p:
            budget = 600 if tier == 'quick' else 3000
            try:
                out = p.communicate(timeout=budget)[0].decode(errors='replace')
                if os.path.exists(pout):
                    proof = json.load(open(pout))
                else:
                    notes.append('the verifier gave no answer: ' + out[-2000:])
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                notes.append('the verifier ran out of time')
        failed = (proof or {}).get('failed', [])

        # 2. Known findings which can be replayed
        for k in known['findings']:
            if k['property'] != prop:
                continue
            if 'case' in k:
                bad, out = replay_harness(vh, dict(case=k['case'], viol=dict(key=k['key'], detail='', step=0)), work, prop)
                if bad:
                    lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
            elif 'obligation' in k:
                if any(f['name'] == k['obligation'] for f in failed):
                    lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
        listed = {k.get('obligation') for k in known['findings'] if k['property'] == prop}
        failed = [f for f in failed if f['name'] not in listed]

        # 3. The bounded harness; deeper if an obligation failed
        stats, viols = run_harness(vh, prop, tier, seed, work, cfg.get('limit', {}).get(tier, 240 if tier == 'quick' else 1500), shards=cfg.get('shards', SHARDS))
        searched = 0
        while failed and not viols and searched < (2 if tier == 'quick' else 4) and time.time() - start < 480:
            searched += 1
            s2, viols = run_harness(vh, prop, tier, seed, work, 120, n=cfg.get('search', 0), shards=cfg.get('shards', SHARDS), seedoff=1000 * searched)
            for k in ('evals', 'nontrivial', 'done'):
                stats[k] += s2[k]
        for v in viols:
            h = hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:12]
            path = os.path.join(replays, f'{prop}-{h}.json')
            # Crashes and hangs must happen again to count
            if v['viol']['key'] in ('crash', 'race') or v['viol']['key'].startswith('hang'):
                bad, out = replay_harness(vh, v, work, prop, tries=4 if prop == 'C11' else 1)
                if not bad and prop != 'C11':
                    notes.append(f"not reproduced: {v['viol']['key']}: {v['viol']['detail'][:600]}")
                    continue
            v['failed_obligations'] = failed
            json.dump(v, open(path, 'w'), indent=1)
            violations.append((f'VIOLATION property={prop} replay={path}', v['viol']['key'] + ': ' + v['viol']['detail'][:3000]))
        if failed and not violations:
            h = hashlib.sha256(json.dumps([f['name'] for f in failed]).encode()).hexdigest()[:12]
            path = os.path.join(replays, f'{prop}-proof-{h}.json')
            json.dump(dict(property=prop, failed_obligations=failed, tried=stats['evals']), open(path, 'w'), indent=1)
            violations.append((f'VIOLATION property={prop} replay={path} no-failing-input-found',
                               '\n'.join(f"obligation {f['name']} failed: {f.get('detail', '')[:1500]}" for f in failed[:10])))

        # 4. Evidence
        cov = dict(explanation=cfg['explanation'], evaluations=stats['evals'], distinct_nontrivial=stats['nontrivial'], rule=cfg['rule'],
                   samples=stats['samples'][:3], harness_cases=stats['done'], harness_counts=stats['counts'], harness_undecided=stats['undecided'][:10],
                   harness_label='bounded: ' + cfg['rule'])
        level = cfg['level'] if proof else 'exploration'
        assumptions = list(cfg.get('assumptions', []))
        if proof:
            cov.update(obligations=proof['obligations'], discharged=proof['discharged'],
                       checker_cmd=f'python3-vt /verif/gocv/run.py {prop} {tier} OUT.json', trusted_base=proof['trusted_base'],
                       functions_under_contract=proof['functions'], by_backend=proof['by_backend'], solver_seconds=proof['solver_s'],
                       undecided_functions=proof.get('undecided', []), obligation_names=proof.get('names', []), vacuity=proof.get('vacuity', {}),
                       failed_obligations=[f['name'] for f in failed])
            assumptions += proof.get('assumptions', [])
        ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - start, 2), violations=len(violations))
        if notes:
            ev['coverage']['notes'] = notes
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    except Broken as e:
        print(e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for l in lines:
        print(l)
    if proof:
        print(f"{prop}: {proof['discharged']} of {proof['obligations']} obligations discharged in {len(proof['functions'])} functions, "
              f"{proof['solver_s']:.1f} s solver time; undecided: {len(proof.get('undecided', []))}")
        for u in proof.get('undecided', [])[:20]:
            print('  undecided:', str(u)[:300])
    print(f"{prop}: bounded harness: {stats['done']} cases, {stats['evals']} evaluations, {stats['nontrivial']} non-trivial, {len(stats['undecided'])} undecided")
    for u in stats['undecided'][:5]:
        print('  undecided:', u[:300])
    for n in notes:
        print('note:', n[:1500])
    for l, d in violations:
        print(d)
        print(l)
    return 1 if violations else 0


def replay(path):
    d = json.load(open(path))
    work = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        if 'case' in d:
            prop = d['case']['property']
            vh = build_harness(work, prop == 'C11')
            bad, out = replay_harness(vh, d, work, prop, tries=5 if prop == 'C11' else 1)
            print(out)
            return 1 if bad else 0
        print(json.dumps(d, indent=1))
        p = subprocess.run(['python3-vt', os.path.join(VERIF, 'gocv', 'run.py'), d['property'], 'quick', os.path.join(work, 'o')], env=goenv(), cwd=VERIF)
        r = json.load(open(os.path.join(work, 'o')))
        names = {f['name'] for f in r['failed']}
        bad = [f['name'] for f in d['failed_obligations'] if f['name'] in names]
        print('still failing:', bad)
        return 1 if bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[1] == 'run':
        try:
            sys.exit(main(sys.argv[2], os.environ.get('VERIF_TIER') or (sys.argv[3] if len(sys.argv) > 3 else 'quick')))
        except Exception:
            traceback.print_exc()
            sys.exit(2)
    elif len(sys.argv) > 2 and sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    print(__doc__)
    sys.exit(2)
