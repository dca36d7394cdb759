#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property from /repo's current source."""
import json, os, re, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.setrecursionlimit(20000)
from frontend import AnalysisBroken
import registry


def known(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) \[([^|\]]*)\|([^|\]]*)\|([^\]]*)\] (.*)', ln.strip())
            if m and m.group(1) == pid:
                out.append([x.strip() for x in m.groups()[1:]])
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    prop = registry.get(pid)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    try:
        res = prop.run(tier)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    fails, hits = [], {}
    for f in res.fails:
        k = None
        for rule, fn, frag, text in known(pid):
            if rule == f['rule'] and fn == short(f['function']) and frag in f['what']:
                k = text
        if k is None:
            fails.append(f)
        else:
            hits[k] = hits.get(k, 0) + 1
    shown, seen = [], set()
    for f in fails:
        k = (f['rule'], f['function'], f['line'], f['what'][:80])
        if k not in seen:
            seen.add(k)
            shown.append(f)
    replay = os.path.join('evidence', '%s.replay.json' % pid)
    rp = os.path.join(HERE, replay)
    if os.path.exists(rp):
        os.remove(rp)
    total = sum(res.n.values())
    cov = {'explanation': prop.explanation, 'obligations': total, 'discharged': total - len(res.fails),
           'obligations_by_rule': dict(res.n), 'analysed': res.analysed}
    cov.update(res.extra)
    if hits:
        cov['known_findings'] = hits
    if res.skipped:
        cov['not_analysed'] = res.skipped
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
               'assumptions': prop.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(shown)},
              open(os.path.join(ev, '%s.json' % pid), 'w'), indent=1, default=str)
    for k, v in hits.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for s in res.skipped:
        print('NOT-ANALYSED: %s' % (s,))
    if shown:
        json.dump({'property': pid, 'violations': shown[:200]}, open(rp, 'w'), indent=1, default=str)
        for f in shown[:12]:
            print('  [%s] %s (%s:%s): %s' % (f['rule'], f['function'], f['file'], f['line'], f['what'][:400]))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    low = [(r, res.n.get(r, 0), m) for r, m in prop.minimum.items() if res.n.get(r, 0) < m]
    if low:
        print('ANALYSIS-BROKEN property=%s fewer obligations than the analysis must find: %s' % (pid, low))
        return 2
    print('%s held: %d obligations, %s, %.1f s' % (pid, total, ', '.join('%s %d' % x for x in res.n.items()), time.time() - t0))
    return 0


def short(fn):
    return re.sub(r'\(.*', '', fn)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
