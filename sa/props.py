"""Which analyses decide which property."""
import collections
import time
import pool


class Env:
    def __init__(self, F, Fc, tier, prop, cov, t0, budget):
        self.F, self.Fc, self.tier, self.prop, self.cov, self.t0, self.budget = F, Fc, tier, prop, cov, t0, budget
        self.limit = 40 if tier == 'quick' else 240

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def pool(self, rep, jobs, props=None):
        """jobs: (name, properties it serves, thunk -> (report items, counters))"""
        r = pool.run([(n, f) for n, p, f in jobs], self.limit, self.t0 + self.budget)
        names = []
        for n, p, f in jobs:
            k, v = r[n]
            if k == 'ok':
                rep.items += v[0]
                for c, m in v[1].items():
                    self.count(c, m)
                names.append(n)
            else:
                rep.add(' '.join(p), n, 'undecided', v)
        return names


def file_contexts(env, rep):
    """whole-file client contexts, read back by the abstract reader"""
    import contexts
    import interp
    import scen
    nm_of = {}
    jobs = []
    for nm, tier, props, f, kw in contexts.REG:
        if tier == 'thorough' and env.tier != 'thorough':
            continue
        if kw.get('only') and env.prop not in kw['only'].split() + ['any']:
            continue

        def go(f=f):
            try:
                x = f(env.F)
                r = scen.verify(x, maxdeg=getattr(x, 'deg', None))
            except (interp.Undecided, pool.TimeUp, MemoryError, RecursionError) as e:
                # what the calls made so far have shown stands all the same
                r = scen.Report()
                r.items += scen.EARLY
                if not r.items:
                    raise
                r.add(' '.join(FILE), nm_of[f], 'undecided', str(e) or 'limit reached')
                return r.items, {}
            return r.items, {'calls analysed': x.I.callsites}
        nm_of[go.__defaults__[0]] = nm
        jobs.append((nm, FILE, go))
    env.cov['client contexts'] = env.pool(rep, jobs)


ASSUME = ['no single buffer, string or collection reaches 2^31 elements', 'outside the contexts named "any times", time stamps lie in [0, 2^62]',
          'the models of the standard library, snap, thrift and blake2 calls in sa/models.py',
          'rustc\'s MIR is a faithful rendering of the source']

FILE = ['P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P13', 'P14', 'P15', 'P22']
TABLE = collections.defaultdict(list)
for p in FILE:
    TABLE[p].append(file_contexts)

import modular
TABLE['P12'].append(modular.varints)
TABLE['P11'].append(modular.ts2diff)
TABLE['P09'] += [modular.bloom, modular.murmur]
TABLE['P15'] += [modular.varints, modular.ts2diff, modular.bloom, modular.murmur]


import rules
import capi
TABLE['P01'] += [rules.errors, rules.buffered]
TABLE['P02'] += [modular.sinks, rules.partial_writes]
TABLE['P16'] += [capi.capi, capi.kept, modular.codes]
TABLE['P10'].append(modular.codes)
TABLE['P21'].append(modular.schema)
TABLE['P15'].append(modular.schema)
TABLE['P23'].append(modular.determinism)
TABLE['P04'].append(modular.refused_calls)
TABLE['P22'].append(modular.refused_calls)
import failing
TABLE['P01'].append(failing.failing)
TABLE['P22'].append(failing.failing)
import sync
TABLE['P17'].append(sync.order)
TABLE['P26'] = [sync.who]
import opening
TABLE['P27'] = [opening.new_file]
TABLE['P18'].append(sync.mlog)
TABLE['P19'].append(sync.messages)
import limits
import stats
TABLE['P20'] += [limits.pages, limits.groups]
TABLE['P06'].append(limits.chunk_ends)
TABLE['P05'].append(stats.steps)
TABLE['P14'].append(limits.groups)
TABLE['P21'].append(file_contexts)


def analyses(prop):
    return TABLE[prop]
