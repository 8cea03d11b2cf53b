"""Runs the analyses of one property and reports.

usage: check.py PROPERTY [quick|thorough]
Exit 0: no obligation is violated (undecided ones are listed in the evidence).
Exit 1: at least one violation that known_findings.txt does not list.
"""
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import collections

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
os.environ.setdefault('PYTHONHASHSEED', '0')


class Timeout(Exception):
    pass


def explain(prop):
    """what decides the property, as the manifest says it"""
    try:
        for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']:
            if c['property'] == prop:
                return '%s. %s' % (c['technique'], c['level_note'])
    except (OSError, ValueError, KeyError):
        pass
    return ''


def known():
    out = []
    try:
        for l in open(os.path.join(V, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('known: property='):
                p, k = l[len('known: property='):].split(' ', 1)
                out.append((p, k))
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other'}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    evpath = os.path.join(V, 'evidence', prop + '.json')
    tmp = os.environ.get('FACTS')
    cleanup = None
    if not tmp:
        cleanup = tmp = tempfile.mkdtemp(prefix='sa_facts_')
        r = subprocess.run(['bash', os.path.join(V, 'build.sh'), 'facts', tmp], capture_output=True, text=True)
        if r.returncode != 0:
            print('the tree does not compile; nothing to analyse\n' + r.stdout[-3000:] + r.stderr[-2000:])
            ev['coverage'] = {'explanation': 'the tree does not compile', 'obligations': 0}
            ev['wall_s'] = round(time.time() - t0, 2)
            json.dump(ev, open(evpath, 'w'), indent=1)
            subprocess.run(['rm', '-rf', tmp])
            return 0
    try:
        from facts import Facts
        import props
        F = Facts(os.path.join(tmp, 'tsfile_writer.json'))
        Fc = Facts(os.path.join(tmp, 'tsfile_writer_c.json'))
    finally:
        if cleanup:
            subprocess.run(['rm', '-rf', cleanup])
    from scen import Report
    rep = Report()
    budget = 780 if tier == 'thorough' else 240
    cov = collections.OrderedDict()
    env = props.Env(F, Fc, tier, prop, cov, t0, budget)
    for an in props.analyses(prop):
        t1 = time.time()
        left = int(budget - (t1 - t0))
        name = an.__name__
        if left <= 2:
            rep.add(prop, name, 'undecided', 'time budget used up')
            continue

        def alarm(*a):
            raise Timeout()
        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(left)
        try:
            an(env, rep)
        except Timeout:
            rep.add(prop, name, 'undecided', 'time budget used up')
        except Exception as e:
            import interp
            from facts import Missing
            if isinstance(e, Missing):
                rep.add(prop, name, 'undecided', 'anchor not found: %s' % e)
            elif isinstance(e, interp.Undecided):
                rep.add(prop, name, 'undecided', 'outside the abstraction: %s' % e)
            else:
                rep.add(prop, name, 'undecided', 'analysis failed: %s: %s' % (type(e).__name__, e))
                if os.environ.get('SA_DEBUG'):
                    traceback.print_exc()
        finally:
            signal.alarm(0)
    items = [i for i in rep.items if prop in i[0]]
    n = collections.Counter(i[2] for i in items)
    viol = [i for i in items if i[2] == 'violation']
    und = [i for i in items if i[2] == 'undecided']
    kn = [k for p, k in known() if p == prop]
    new = [v for v in viol if v[1] not in kn]
    old = [v for v in viol if v[1] in kn]
    ev['coverage'] = {
        'explanation': explain(prop),
        'obligations': len(items), 'discharged': n['ok'], 'undecided': len(und), 'violated': len(viol),
        'analysed': dict(cov),
        'samples': [{'obligation': i[1], 'status': i[2]} for i in items[:3] + items[len(items) // 2:len(items) // 2 + 3] + items[-2:]],
        'undecided_list': ['%s: %s' % (i[1], i[3][:300]) for i in und[:40]],
        'violations_list': ['%s: %s' % (i[1], i[3][:600]) for i in viol[:40]],
    }
    ev['assumptions'] = props.ASSUME
    ev['violations'] = len(new)
    ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(evpath, 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)' % (prop, len(items), n['ok'], len(und), len(viol), ev['wall_s']))
    for i in und[:15]:
        print('UNDECIDED %s: %s' % (i[1], i[3][:300]))
    for v in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, v[1]))
    for v in new[:20]:
        print('  %s\n    %s' % (v[1], v[3]))
    if new:
        rp = os.path.join(V, 'evidence', prop + '.violations.txt')
        with open(rp, 'w') as f:
            for v in new:
                f.write('%s\n    %s\n' % (v[1], v[3]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
