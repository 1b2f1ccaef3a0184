#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decide one property statically.

exit 0  the property holds on everything analysed (or only listed findings fail)
exit 1  a line "VIOLATION property=<id> replay=<path>" names the construct
exit 2  the analysis could not be carried out
"""
import importlib
import json
import os
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)


def findings():
    p = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                # finding: property=<id> site=<site> :: text
                head, _, text = l[len('finding: '):].partition(' :: ')
                kv = dict(x.split('=', 1) for x in head.split(' ') if '=' in x)
                out.append((kv['property'], kv['site'], text))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from hrmsa import load, frame, obs, props
    tab = props.PROPS.get(pid, {})
    mod = None
    if os.path.exists(os.path.join(HERE, 'hrmsa', 'rules', pid.lower() + '.py')):
        mod = importlib.import_module('hrmsa.rules.' + pid.lower())
    elif not tab:
        print('no such property: ' + pid)
        return 2
    names = list(tab.get('obs', []))
    if os.environ.get('HRM_OB'):
        names = [n for n in names if n in os.environ['HRM_OB'].split(',')]
    evdir = os.environ.get('HRM_EV') or os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    try:
        srcs = sorted(set(obs.sources(names)) | set(getattr(mod, 'SPEC', [])))
        spec = [os.path.join(load.VERIF, 'spec', s + '.cpp') for s in srcs]
        groups = obs.groups(names)
        groups += [g for g in getattr(mod, 'GROUPS', []) if g not in groups]
        prog = load.extract(groups, spec) if groups else None
        c = frame.Ctx(prog, pid, tier)
        obs.queue(c, names)
        if mod:
            mod.run(c)
        c.flush()
    except load.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    res = c.results
    bad = [r for r in res if r.status == frame.BAD]
    ok = [r for r in res if r.status == frame.OK]
    und = [r for r in res if r.status == frame.UND]
    known = [(s, t) for p, s, t in findings() if p == pid]
    kn, new = [], []
    for r in bad:
        m = [t for s, t in known if s == r.site]
        (kn if m else new).append((r, m[0] if m else ''))
    least = max(len(names), 1)
    files = sorted({prog.fns[u].loc().rsplit(':', 1)[0] for u in c.analysed if u in prog.fns}) if prog else []
    cov = {
        'explanation': '; '.join(x for x in ((mod.__doc__ or '').strip() if mod else '',
                                             tab.get('rule') or (props.REF if names else '')) if x),
        'obligations': len(res),
        'held': len(ok),
        'undetermined': [{'obligation': r.ob, 'at': r.loc, 'why': r.msg} for r in und],
        'violations': [{'obligation': r.ob, 'at': r.loc, 'what': r.msg} for r, _ in new],
        'known_findings': [{'obligation': r.ob, 'at': r.loc, 'what': r.msg} for r, _ in kn],
        'minimum_obligations': least,
        'functions_analysed': len(c.analysed),
        'statements_interpreted': c.stmts,
        'loops_summarised': c.loops,
        'events_inspected': c.events,
        'files': files,
        'parsed_functions': len(prog.fns) if prog else 0,
        'seconds_per_obligation': c.times,
        'checked': [{'obligation': r.ob, 'at': r.loc} for r in ok],
    }
    cov.update(getattr(c, 'extra', {}))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'wall_s': round(time.time() - t0, 2)}
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for r, t in kn:
        print('KNOWN-FINDING: property=%s %s' % (pid, t))
    for r in und:
        print('undetermined: %s [%s] %s' % (r.ob, r.loc, r.msg[:300]))
    print('%s: %d obligations, %d held, %d undetermined, %d known findings, %d violations (%.1f s)' %
          (pid, len(res), len(ok), len(und), len(kn), len(new), time.time() - t0))
    if new:
        rp = os.path.join(evdir, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for r, _ in new:
                f.write('property   %s\nobligation %s\nconstruct  %s\nat         %s\nrule       %s\n%s\n\n' %
                        (pid, r.ob, r.site, r.loc, cov['explanation'].split('\n')[0], r.msg))
        for r, _ in new[:5]:
            print('  %s [%s] %s' % (r.ob, r.loc, r.msg[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if len(ok) + len(kn) + len(und) < least:
        print('ANALYSIS-BROKEN property=%s only %d of %d expected obligations found' %
              (pid, len(ok) + len(kn) + len(und), least))
        return 2
    return 0


if __name__ == '__main__':
    rc = [2]

    def go():
        try:
            rc[0] = main()
        except BaseException as e:     # report, never a verdict
            import traceback
            traceback.print_exc()
            print('ANALYSIS-BROKEN property=%s %s: %s' % (sys.argv[1:2], type(e).__name__, e))
            rc[0] = 2
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
