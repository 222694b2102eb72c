"""Checks of the cache properties C20-C28."""
import random, re
import vlib, tours, gen_cache
from vlib import TIER, SEED

# property -> (model checking configurations, profiles of the random drivers)
PROPS = {
    'C20': (['MCLru_pins'], ['pin', 'mixed', 'scope', 'time', 'many', 'size', 'flood']),
    'C21': (['MCLru_pins'], ['size', 'pin', 'mixed', 'many', 'ent', 'age', 'flood']),
    'C22': (['MCLru_pins'], ['size', 'ent', 'many', 'order', 'age', 'pin', 'flood']),
    'C23': (['MCLru_modes', 'MCLru_time'], ['order', 'noupd', 'many', 'age', 'ent', 'mixed', 'size', 'flood']),
    'C24': (['MCLru_pins'], ['pin', 'many', 'mixed', 'time', 'scope', 'size', 'flood']),
    'C25': (['MCLru_time'], ['time', 'age', 'mixed', 'time', 'noupd', 'flood']),
    'C26': (['MCLru_time'], ['mixed', 'size', 'pin', 'age', 'time', 'many', 'order', 'flood']),
    'C27': (['MCLru_modes'], ['mixed', 'noupd', 'mixed', 'scope', 'age', 'flood']),
    'C28': (['MCLru_modes'], ['scope', 'scope', 'mixed', 'many']),
    'C31': (['MCKeyOwner'], ['view-pin', 'view-mixed', 'view-many', 'view-age', 'view-scope', 'view-size', 'view-pin', 'view-time', 'view-flood']),
    'C32': ([], ['rounds', 'pin', 'mixed', 'many', 'age', 'scope', 'view-pin', 'size', 'rounds', 'time', 'flood']),
}
ASSUME = ['the specification of one cache object used sequentially (the header demands external locking)',
          'clock controlled by the harness and never running backwards',
          'clients release what they acquired, with the options they acquired it with, and call clear() only without pins',
          'sizes and times are scaled to 32-bit numbers in the trace (scales up to 2^32+1 units and 1 h per tick)']

# what must have occurred for a run to say something about the property
NEED = {
    'C20': ['dispose', 'defer'], 'C21': ['updatesize', 'defer'], 'C22': ['evict'], 'C23': ['evict'],
    'C24': ['hit', 'miss', 'defer'], 'C25': ['expired'], 'C26': ['hit'], 'C27': ['hit', 'expired'], 'C28': ['scoped'],
    'C31': ['defer', 'dispose', 'hit', 'evict', 'expired'], 'C32': ['defer', 'dispose', 'evict', 'expired', 'rounds'],
}


def from_graph(ops):
    """A path of the model as a script: fresh value ids, handles by value."""
    real, n, out = {}, 0, []
    for o in ops:
        o = dict(o)
        if o['op'] == 'new':
            continue
        if o['op'] in ('insert', 'insertp'):
            n += 1
            real[o['id']] = n
            o['id'] = n
            o['h'] = 100000 + n
        elif o['op'] == 'lookup':
            n += 1
            o['h'] = 200000 + n
            o['plain'] = n % 2 == 0
            if n % 3 == 0:
                o['op'] = 'scope'
        elif o['op'] in ('release', 'updatesize'):
            if o['id']:
                o['id'] = real.get(o['id'], 0)
            if o['op'] == 'release':
                o['op'] = 'releaseid'
        out.append(o)
    return out


def owner_segments(cases, rng, n):
    """Histories of MCKeyOwner."""
    segs = []
    for c in cases if len(cases) <= n else rng.sample(cases, n):
        out = [dict(op='new', variant='view', max=50, maxEnt=-1, nkeys=2)]
        hs, nh = {}, 0
        for o in c['h']:
            k, i = o['k'], o['id']
            if o['op'] in ('insert', 'insertp', 'lookup'):
                nh += 1
                e = dict(op=o['op'], k=k, h=nh)
                if o['op'] == 'lookup':
                    e['op'] = rng.choice(['lookup', 'scope'])
                else:
                    e.update(id=i, units=1)
                if o['op'] != 'insert':
                    hs.setdefault(i, []).append(nh)
                out.append(e)
            elif o['op'] == 'release':
                out.append(dict(op='release', h=hs[i].pop(rng.choice([0, -1]))))
            elif o['op'] == 'remove':
                out.append(dict(op='remove', k=k))
            else:
                out += rng.choice([[dict(op='setmax', max=0), dict(op='setmax', max=50)], [dict(op='removeunpinned')]])
        segs.append(out)
    return segs


def graph_segments(cfg, budget, rng, variant=None):
    rc, text = vlib.tlc(cfg + '.cfg', 'MCLruCache.tla', workers=vlib.NPROC, timeout=800, heap='6g', fast=False)
    if rc != 0 or 'No error has been found' not in text:
        raise vlib.CheckError('TLC failed on %s:\n%s' % (cfg, text[-3000:]))
    edges = tours.read_graph(text)
    inits = [int(x) for x in re.findall(r'@I (-?\d+) ', text)]
    caps = [int(x) for x in re.findall(r'@I -?\d+ (-?\d+)', text)]
    segs, stats = [], {}
    for init, cap in zip(inits, caps):
        paths, st = tours.tours(edges, init, rng, budget // len(inits))
        for k in st:
            stats[k] = stats.get(k, 0) + st[k]
        for p in paths:
            segs.append([dict(op='new', variant=variant or rng.choice(['int', 'str', 'coll', 'del', 'view']), max=cap, nkeys=2)] + from_graph(p))
    return segs, stats


def observe(e):
    """Kinds of occurrences, to show that a run was not vacuous."""
    out = []
    if e['op'] == 'rounds':
        return ['rounds']
    if e['disp']:
        out.append('dispose')
        if e['op'] in ('setmax', 'updatesize', 'insertp', 'insert', 'release'):
            out.append('evict')
        if e['op'] in ('expire', 'lookup', 'settimeout'):
            out.append('expired')
    if e['dent'] > 0:
        out.append('defer')
    if e['op'] == 'lookup':
        out.append('hit' if e['res'] > 0 else 'miss')
    if e.get('via') == 'scope':
        out.append('scoped')
    if e['op'] == 'updatesize':
        out.append('updatesize')
    return out


def mutate(prop):
    def m(e):
        if prop == 'C20' and e['disp']:
            e['disp'] = e['disp'] + e['disp'][:1]
        elif prop == 'C21' and e['op'] == 'updatesize':
            e['size'] += 1
        elif prop == 'C22' and e['op'] in ('setmax', 'insertp', 'updatesize') and len(e['disp']) > 0 and e['op'] != 'insertp':
            e['dump'] = e['dump'] + [[e['disp'][-1], 0, 0, 0]]
            if e['size'] < e['msz']:
                return None
        elif prop == 'C23' and e['op'] in ('setmax', 'updatesize') and len(e['disp']) > 1:
            e['disp'] = e['disp'][::-1]
        elif prop in ('C24', 'C28') and e['op'] == 'lookup' and e['res'] > 0 and e['via'] == 'scope':
            e['res'] = 0
        elif prop == 'C25' and e['op'] in ('lookup', 'expire') and e['disp']:
            e['dump'] = e['dump'] + [[e['disp'][-1], 0, 0, 0]]
        elif prop == 'C32' and e['op'] == 'new':
            e['heap'] = 24
        elif prop == 'C32':
            return None
        elif e['op'] == 'rounds':
            return None
        elif prop in ('C26', 'C27', 'C31') and e['iter']:
            e['iter'] = e['iter'][1:]
        else:
            return None
        return e
    return m


def check(prop):
    cfgs, profiles = PROPS[prop]
    quick = TIER != 'thorough'
    binary = vlib.build('cachedrv', ['cachedrv.cc'], with_lib=False)
    rng = random.Random(SEED * 1000 + int(prop[1:]))
    b = vlib.Binding(prop, binary, 'LruCacheTrace.tla', 'LruCacheTrace.cfg', prop, observe=observe,
                     mutate=mutate(prop))
    # 1. random histories of the real cache, judged by the specification
    seed = SEED * 7919 + int(prop[1:])
    for i in range(1 if quick else 12):
        b.judge(gen_cache.script(seed + 1000 * i, profiles, 1200 if quick else 4000), 'random%d' % i)
    # 2. every transition of a small model, replayed on the real cache
    gstats = {}
    for g in [] if prop == 'C32' else ['c'] if quick else ['a', 'c', 'b']:
        segs, gstats[g] = graph_segments('MCLruGraph_' + g, 100000 if quick else 1400000, rng, 'view' if prop == 'C31' else None)
        b.judge(segs, 'graph_' + g)
    # 3. the specification has the property (design level)
    models = []
    for c in cfgs:
        module = 'MCLruCache' if c[:6] == 'MCLru_' else c
        r, out = vlib.model_check(c + ('.cfg' if quick else '_t.cfg'), module + '.tla', output=True)
        models.append(r)
        if module == 'MCKeyOwner':
            b.judge(owner_segments(vlib.emitted(out), rng, 3000 if quick else 40000), 'owners')
    for k in NEED[prop]:
        if not b.seen.get(k):
            raise vlib.CheckError('vacuous run: no occurrence of ' + k)
    wrong = b.corrupted()
    if not wrong:
        raise vlib.CheckError('no trace to corrupt')
    return dict(states=sum(m['states'] for m in models), transitions=sum(m['transitions'] for m in models),
                traces_validated_against_impl=b.traces, events_validated=b.events, calls=b.ops,
                occurrences=b.seen, samples=b.sample, models=models, transition_tours=gstats, corrupted_traces=wrong,
                rule='random legal histories (profiles %s) and tours over the transitions of a TLC state graph; each '
                     'recorded call judged by TLC against LruCacheTrace with the lens of this property'
                     % ','.join(profiles)), ASSUME
