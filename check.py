#!/opt/veriftools/pyvenv/bin/python
"""check.py <property id>: generate and discharge every obligation of the property from /repo's current source."""
import collections
import glob
import json
import os
import shutil
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from vf import build, ir, runner, suites   # noqa: E402

MAXREP = 5


class Env:
    def __init__(self, mods):
        self.srcs = mods
        self.so = {}

    def native(self, key):
        if key not in self.so:
            cpu, mode, name = key[:3]
            self.so[key] = build.native(cpu, mode, name, self.srcs[key][0])
        return self.so[key]


def known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('finding: property=%s ' % prop):
                d = ln.split(' key=', 1)[1].split(' ', 1)
                out.append((d[0], d[1].strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    S = suites.suite(prop, tier)
    mods, jobs = S['mods'], S['jobs']
    env = Env(mods)
    cpus = sorted({k[0] for k in mods})

    # build the crate for every CPU from /repo's current tree, then the wrapper modules
    def mk(k):
        src, fns = mods[k][:2]
        return k, build.module(k[0], k[1], k[2], src, fns, *mods[k][2:3])
    with ThreadPoolExecutor(8) as tp:
        list(tp.map(lambda c: build.deps(c), cpus))
        list(tp.map(lambda cm: build.crate(*cm), sorted({k[:2] for k in mods})))
        texts = list(tp.map(mk, sorted(mods)))
    M = {}
    for k, t in texts:
        M[k] = ir.parse_module(t)
    for c in cpus:
        M['feats', c] = build.cpu_features(c)
    tb = time.time() - t0

    order = sorted(range(len(jobs)), key=lambda i: -getattr(jobs[i], 'cost', 0))

    # contracts with the same specification over functions whose code is identical up to names are discharged once
    rep, same = {}, {}
    for i in order:
        k = getattr(jobs[i], 'dedup', None)
        if k is not None:
            d = ir.digest(M[jobs[i].modkey], jobs[i].symbol)
            k = (k, d, jobs[i].modkey[0] if 'X86' in d else '')
            if k in rep:
                same[i] = rep[k]
                continue
            rep[k] = i

    def go(i):
        r = jobs[i].run(M, tier)
        r['idx'] = i
        return r
    rs = runner.run(go, [i for i in order if i not in same])
    for r in rs:
        if 'idx' not in r:
            r['idx'] = int(r['label'])
            r['label'] = jobs[r['idx']].label
    byidx = {r['idx']: r for r in rs}
    for i, j in same.items():
        r = dict(byidx[j])
        r.update(idx=i, label=jobs[i].label, time=0, qtime=0, queries=0, steps=0, paths=0, same_as=jobs[j].label)
        if r['viol']:
            r['viol'] = jobs[i].rename(r['viol'])
        rs.append(r)
    rs.sort(key=lambda r: r['idx'])
    tv = time.time() - t0 - tb

    nob = collections.Counter()
    failed, bounded = [], []
    skip = 0
    for r in rs:
        ok = r['status'] == 'proved'
        for name, (cnt, backend) in r['obl'].items():
            nob['identical code' if 'same_as' in r else backend] += 1
        if not ok:
            failed.append(r)
    discharged = sum(nob.values())
    undisch = len(failed)

    # confirm failures on the compiled code
    rep = os.path.join(HERE, 'replays', prop)
    shutil.rmtree(rep, ignore_errors=True)
    os.makedirs(rep, exist_ok=True)
    kf = known(prop)
    kfhit = {}
    groups = collections.OrderedDict()
    for r in failed:
        # a listed finding is keyed by function and obligation
        v = r['viol'] or {}
        key = '%s/%s' % (r['label'], v.get('kind', r['status']))
        m = [t for k, t in kf if key.startswith(k)]
        if m:
            kfhit[m[0]] = kfhit.get(m[0], 0) + 1
            continue
        groups.setdefault(jobs[r['idx']].fn.split('@')[0], []).append(r)
    lines = []
    confirmed = 0
    n = 0
    for g, l in groups.items():
        if n >= MAXREP and confirmed:
            break
        hit = None
        for r in l[:4]:
            try:
                c = jobs[r['idx']].confirm(r, env, seed, tier)
            except build.BuildError as e:
                c = None
                r['why'] = (r.get('why') or '') + str(e)[-500:]
            if c is not None:
                hit = (r, c)
                break
        r = hit[0] if hit else l[0]
        doc = {'property': prop, 'failed_obligation': {'function': r['label'], 'status': r['status'], 'obligation': (r['viol'] or {}).get('kind'),
                                                      'site': (r['viol'] or {}).get('site'), 'verifier_output': (r['viol'] or {}).get('detail') or r.get('why'),
                                                      'countermodel': (r['viol'] or {}).get('inputs')},
               'same_function': [x['label'] for x in l], 'replayed_on_compiled_code': hit[1] if hit else None}
        p = os.path.join(rep, '%d.json' % n)
        json.dump(doc, open(p, 'w'), indent=1, default=str)
        n += 1
        confirmed += bool(hit)
        lines.append((not hit, 'VIOLATION property=%s replay=%s%s' % (prop, p, '' if hit else ' no-failing-input-found'),
                      '%s: %s %s at %s%s' % (r['label'], r['status'], (r['viol'] or {}).get('kind') or (r.get('why') or '')[-200:].replace('\n', ' '), (r['viol'] or {}).get('site'),
                                             ('; replayed: ' + str(hit[1].get('observed'))[:300]) if hit else '')))
    lines.sort()
    wall = time.time() - t0
    called = collections.Counter(f for r in rs for f in r.get('called', []))
    intr = sorted({f for r in rs for f in r.get('intrin', [])})
    slow = sorted(rs, key=lambda r: -r['time'])[:3]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': round(wall, 1), 'violations': len(lines),
          'coverage': {
              'obligations': discharged + undisch, 'discharged': discharged,
              'checker_cmd': 'python3-vt /verif/check.py %s (vf.sym verification-condition generator; z3 %s)' % (prop, z3v()),
              'trusted_base': S.get('trusted', []) + ['contracts of the x86 intrinsics used: ' + ', '.join(intr)] if intr else S.get('trusted', []) or ['z3', 'rustc', 'LLVM'],
              'discharged_by_backend': dict(nob),
              'contracts': len(jobs), 'contracts_discharged_by_identical_code': len(same), 'contracts_proved': sum(r['status'] == 'proved' for r in rs),
              'functions_under_contract': sorted({j.fn for j in jobs})[:400],
              'functions_under_contract_count': len({j.fn for j in jobs}),
              'function_cpu_pairs': len({(j.fn, j.modkey[0]) for j in jobs}),
              'crate_functions_executed_in_callees': len(called),
              'paths': sum(r['paths'] for r in rs), 'instructions_executed': sum(r['steps'] for r in rs),
              'solver_queries': sum(r['queries'] for r in rs), 'solver_time_s': round(sum(r['qtime'] for r in rs), 1),
              'verifier_cpu_s': round(sum(r['time'] for r in rs), 1), 'build_s': round(tb, 1),
              'slowest': [(r['label'], round(r['time'], 1)) for r in slow],
              'bounded': S.get('bounded', []), 'cpus': cpus, 'known_findings_hit': kfhit, 'undischarged': [r['label'] for r in failed][:50],
          }, 'assumptions': S.get('assumptions', [])}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s: %d contracts, %d obligations, %d discharged, %d contracts failed; build %.0f s, verification %.0f s, total %.0f s' %
          (prop, len(jobs), discharged + undisch, discharged, undisch, tb, tv, wall))
    for k, t in kf:
        if t in kfhit:
            print('KNOWN-FINDING: property=%s %s' % (prop, t))
    for _, a, b in lines:
        print(b)
        print(a)
    if lines:
        sys.exit(1)
    if not rs or discharged == 0:
        print('no obligations were generated')
        sys.exit(3)
    sys.exit(0)


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except build.BuildError as e:
        print('build failed: %s' % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
