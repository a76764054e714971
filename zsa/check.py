"""Run one property check:  python3 -m zsa.check C01 --tier quick

Exit 0: every decided obligation holds (or is a listed known finding).
Exit 1: a violation (line "VIOLATION property=<id> replay=<path>").
Exit 2: the check itself could not do its work (anchor gone, nothing
        decided); never silently 0.
"""
import argparse
import importlib
import json
import os
import sys
import time

from . import lib
from .registry import PROPS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET = {'quick': 420, 'thorough': 780}


def known_findings(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('findings', [])
                if k['property'] == pid and k.get('status') == 'open']


def func_str(f):
    try:
        return '%s:%s' % (os.path.relpath(str(f[0]), lib.REPO)
                          if str(f[0]).startswith('/') else f[0], f[1])
    except Exception:
        return str(f)


def base(construct):
    return construct.split(' [')[0]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--show', action='store_true',
                    help='print every undecided obligation')
    a = ap.parse_args(argv)
    pid = a.property
    ent = PROPS[pid]
    sys.setrecursionlimit(20000)
    t0 = time.time()
    rep = lib.Report()
    err = None
    # a changed tree must get an answer in bounded time: what was not reached
    # is reported as undecided
    lib.set_deadline(BUDGET[a.tier])
    try:
        for modname, fname in ent['fns']:
            try:
                getattr(importlib.import_module('zsa.checks.' + modname),
                        fname)(rep, a.tier)
            except lib.AnchorMissing:
                raise
            except Exception as e:      # what was not reached is undecided
                import traceback
                rep.und('internal', pid, '%s: %s (%s)' % (
                    type(e).__name__, e,
                    traceback.format_exc().strip().splitlines()[-3].strip()))
    except lib.AnchorMissing as e:
        err = 'public anchor missing: %s' % e
    except lib.OutOfTime:
        rep.und('time-budget', pid, 'stopped after %d s' % BUDGET[a.tier])
    lib.set_deadline(0)
    wall = time.time() - t0
    n = {'ok': 0, 'violation': 0, 'undecided': 0}
    for o in rep.obs:
        n[o.status] += 1
    known = known_findings(pid)
    viol, hits = {}, {}
    for o in rep.obs:
        if o.status != 'violation':
            continue
        kf = None
        for k in known:
            if k['rule'] == o.rule and k['construct'] == base(o.construct):
                kf = k
        if kf is not None:
            hits.setdefault(kf['construct'] + kf['rule'], (kf, []))[1] \
                .append(o)
        else:
            viol.setdefault((o.rule, base(o.construct)), []).append(o)
    print('%s (%s): %s' % (pid, a.tier, ent['title']))
    print('analysed %d functions, %d call sites, %d scenarios of %s' % (
        len(rep.functions), rep.callsites, rep.scenarios, lib.REPO))
    print('obligations: %d decided ok, %d violated, %d undecided (%.1fs)' % (
        n['ok'], n['violation'], n['undecided'], wall))
    und = {}
    for o in rep.obs:
        if o.status == 'undecided':
            und.setdefault((o.rule, base(o.construct)), []).append(o)
    for j, ((r, c), os_) in enumerate(sorted(und.items())):
        if j >= 25 and not a.show:
            print('  ... %d more undecided constructs' % (len(und) - j))
            break
        print('  undecided %s @ %s: %d, e.g. %s -- %s' % (
            r, c, len(os_), os_[0].construct, str(os_[0].detail)[:200]))
        if a.show:
            for o in os_:
                print('      %s -- %s' % (o.construct, o.detail))
    rules = {}
    for o in rep.obs:
        d = rules.setdefault(o.rule, {'ok': 0, 'violation': 0,
                                      'undecided': 0})
        d[o.status] += 1
    evid = {
        'property': pid, 'tier': a.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': ent['explain'],
            'obligations': len(rep.obs),
            'discharged': n['ok'],
            'undecided': n['undecided'],
            'scenarios': rep.scenarios,
            'call_sites': rep.callsites,
            'functions_analysed': sorted(
                func_str(f) for f in rep.functions)[:400],
            'samples': [{'rule': o.rule, 'construct': o.construct,
                         'status': o.status} for o in
                        rep.obs[::max(1, len(rep.obs) // 12)]][:12],
            'rules': rules,
            'violation_list': [
                {'rule': r, 'construct': c, 'site': lib.site_str(os_[0].site),
                 'detail': str(os_[0].detail)[:600],
                 'cases': [o.construct for o in os_][:50]}
                for (r, c), os_ in sorted(viol.items())],
        },
        'assumptions': ent['assumes'],
        'violations': len(viol),
        'wall_s': round(wall, 2),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evid, f, indent=1, default=str)
        f.write('\n')
    for kf, os_ in hits.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, kf['what']))
    if err:
        print('ERROR %s' % err)
        return 2
    if viol:
        d = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + '.txt')
        with open(path, 'w') as f:
            for (r, c), os_ in sorted(viol.items()):
                f.write('rule %s\nconstruct %s\nsite %s\n%s\n' % (
                    r, c, lib.site_str(os_[0].site), os_[0].detail))
                for o in os_:
                    f.write('   case %s\n' % o.construct)
            f.write('re-run: cd %s && python3 -m zsa.check %s --tier %s\n'
                    % (ROOT, pid, a.tier))
        for (r, c), os_ in sorted(viol.items()):
            print('  %s @ %s (%s): %s  [%d case(s)]' % (
                r, c, lib.site_str(os_[0].site),
                str(os_[0].detail)[:300], len(os_)))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    floor = ent.get('floor', 1)
    if n['ok'] < floor:
        print('ERROR only %d obligations decided (floor %d)' % (
            n['ok'], floor))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
