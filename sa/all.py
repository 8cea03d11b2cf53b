"""Runs every analysis once on FACTS (development aid): prints the violations of all properties."""
import os, sys, time, json, collections, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from facts import Facts, Missing
import props, scen, interp


def run(d, tier='quick'):
    F = Facts(os.path.join(d, 'tsfile_writer.json'))
    Fc = Facts(os.path.join(d, 'tsfile_writer_c.json'))
    out = []
    seen = set()
    only = os.environ.get('ONLY')
    for p in sorted(props.TABLE):
        if only and p != only:
            continue
        for an in props.TABLE[p]:
            if an in seen:
                continue
            seen.add(an)
            rep = scen.Report()
            env = props.Env(F, Fc, tier, only or 'any', {}, time.time(), 600)
            try:
                an(env, rep)
            except Exception as e:
                rep.add(p, an.__name__, 'undecided', '%s: %s' % (type(e).__name__, e))
            ps = [q for q in props.TABLE if an in props.TABLE[q]]
            for i in rep.items:
                t = [q for q in i[0] if q in ps] if i[2] != 'undecided' else list(i[0])
                if t:
                    out.append((t, i[1], i[2], i[3]))
    return out


if __name__ == '__main__':
    t = time.time()
    out = run(sys.argv[1])
    c = collections.Counter(i[2] for i in out)
    print('RESULT', json.dumps(dict(c)), '%.1fs' % (time.time() - t))
    v = collections.OrderedDict()
    for i in out:
        if i[2] == 'violation':
            for q in i[0]:
                v.setdefault(q, []).append(i)
    for q in sorted(v):
        print('VIOL', q, len(v[q]), v[q][0][1], '|', v[q][0][3][:300].replace('\n', ' '))
    n = 0
    for i in out:
        if i[2] == 'undecided' and n < 8:
            n += 1
            print('UND', ','.join(i[0]), i[1], '|', i[3][:300].replace('\n', ' '))
