"""Seeded random operation scripts for the cache (legal use of the interface)."""
import json, random

# profile: weights of operations and shape of the arguments
BASE = dict(lookup=20, release=18, insert=10, insertp=8, remove=4, tick=10, updatesize=4,
            inuse=3, removeunpinned=1, removeall=1, expire=2, setmax=2, clear=0.5,
            releaseall=0.5, settimeout=0, setmaxent=0, scope=0)
PROFILES = {
    'size':  dict(BASE, setmax=5, updatesize=10, sizes=[0, 1, 1, 2, 3, 5, 8], caps=[0, 1, 3, 5, 8, 12, 20, -1]),
    'pin':   dict(BASE, lookup=25, insertp=16, release=14, remove=8, removeall=2, keys=3, handles=24,
                  sizes=[1, 1, 2], caps=[1, 2, 4, 8, 30]),
    'time':  dict(BASE, tick=25, settimeout=6, expire=6, setmax=1, caps=[5, 50, 50], sizes=[1], lock=True),
    'mixed': dict(BASE, tick=16, settimeout=6, scope=4, noupd=0.5, sizes=[1, 1, 2], caps=[2, 3, 4, 6, 20], keys=4),
    'noupd': dict(BASE, noupd=0.7, caps=[2, 3, 4, 5], sizes=[1], keys=6, tick=14, nest=False),
    'scope': dict(BASE, scope=25, lookup=6, noupd=0.4, settimeout=1, caps=[2, 4, 10], sizes=[1, 2]),
    'ent':   dict(BASE, setmaxent=4, caps=[5, 10, 50], sizes=[1, 2], maxent=True),
    'many':  dict(BASE, keys=14, handles=20, insert=20, caps=[8, 15, 25, 60], sizes=[1, 1, 1, 2, 4], setmax=1,
                  seglen=220, settimeout=0.5, noupd=0.15),
    'order': dict(BASE, keys=8, insert=16, lookup=25, release=25, handles=4, tick=12, caps=[3, 4, 6, 8], sizes=[1, 1, 2],
                  setmax=3, noupd=0.25, remove=3, removeunpinned=0.2, removeall=0.2, clear=0.1),
    'age':   dict(BASE, age0=True, keys=6, insert=14, tick=20, settimeout=3, caps=[3, 5, 8], sizes=[1, 1, 2], lock=True,
                  noupd=0.2, removeunpinned=0.3, removeall=0.3),
}
OPS = ['lookup', 'release', 'insert', 'insertp', 'remove', 'tick', 'updatesize', 'inuse', 'removeunpinned',
       'removeall', 'expire', 'setmax', 'clear', 'releaseall', 'settimeout', 'setmaxent', 'scope']


def segment(rng, prof):
    if prof == 'rounds':
        return rounds(rng)
    if prof == 'flood':
        return flood(rng)
    if prof[:5] == 'view-':
        seg = segment(rng, prof[5:])
        seg[0]['variant'] = 'view'
        return seg
    p = PROFILES[prof]
    nkeys = p.get('keys', rng.choice([1, 2, 3, 4, 5]))
    out = []
    tsc = rng.choice([1, 1, 1, 1000000, 1000003, 3600000001, 3000000000001])
    usc = rng.choice([1, 1, 1, 1 << 31, (1 << 32) + 1])
    mode_lru = True
    limit = -1
    out.append(dict(op='new', variant=rng.choice(['int', 'int', 'str', 'coll', 'del']), max=rng.choice(p['caps']),
                    maxEnt=rng.choice([0, 1, 2, 3, 5]) if p.get('maxent') else -1, nkeys=nkeys, usc=usc, tsc=tsc))
    handles = []
    hn = 0
    nid = 0
    ids = []          # (k, id)
    w = [p.get(o, 0) for o in OPS]
    maxh = p.get('handles', 10)
    noupd = p.get('noupd', 0.1)
    lims = [0, 1, 2, 3, 5, 10, 17]
    if p.get('age0') or (p.get('lock') and rng.random() < 0.4) or rng.random() < 0.15:
        limit = rng.choice([-1, -1] + lims)
        mode_lru = False
        out.append(dict(op='settimeout', t=limit, lru=False))
    elif p.get('lock') or rng.random() < 0.2:
        limit = rng.choice(lims)
        out.append(dict(op='settimeout', t=limit, lru=True))
    n = p.get('seglen', rng.choice([20, 40, 80, 120]))
    def upd():
        return rng.random() >= noupd
    for _ in range(n):
        o = rng.choices(OPS, w)[0]
        k = rng.randint(1, nkeys)
        if o in ('lookup', 'scope'):
            if len(handles) >= maxh:
                o = 'release'
            else:
                hn += 1
                handles.append(hn)
                out.append(dict(op=o, k=k, h=hn, upd=upd(), plain=rng.random() < 0.5))
                if o == 'lookup' and rng.random() < 0.06:
                    out[-1]['n'] = many(rng)
                if rng.random() < 0.35:
                    out.append(dict(op='tick', d=1))
                if rng.random() < 0.3:
                    handles.remove(hn)
                    out.append(dict(op='release', h=hn))
                continue
        if o == 'release':
            if handles:
                h = handles.pop(rng.choice([0, -1, rng.randrange(len(handles))]))
                out.append(dict(op='release', h=h))
                if rng.random() < 0.1:
                    # if it stands for more than that, only some
                    out[-1]['n'] = rng.choice([1, 1, many(rng)])
                    handles.append(h)
        elif o in ('insert', 'insertp'):
            nid += 1
            u = rng.choice(p['sizes'])
            if rng.random() < 0.03:
                u = rng.choice(p['caps']) + rng.choice([0, 1, 2])
                u = max(u, 0)
            e = dict(op=o, k=k, id=nid, units=u)
            if o == 'insertp':
                hn += 1
                handles.append(hn)
                e['h'] = hn
            ids.append((k, nid))
            out.append(e)
            if rng.random() < 0.5:
                out.append(dict(op='tick', d=1))
        elif o == 'tick':
            d = rng.choice([0, 1, 1, 2, 3, 7])
            if 0 <= limit < 1000:
                d = rng.choice([d, limit, limit + 1, max(limit - 1, 0), 1])
            out.append(dict(op='tick', d=d))
        elif o in ('updatesize', 'inuse'):
            kk, i = (k, 0)
            if ids and rng.random() < 0.7:
                kk, i = rng.choice(ids[-6:])
                if rng.random() < 0.1:
                    kk = k
            if rng.random() < 0.3:
                i = 0
            e = dict(op=o, k=kk, id=i, plain=rng.random() < 0.5)
            if o == 'updatesize':
                e['units'] = rng.choice(p['sizes'] + [0, 4])
            out.append(e)
        elif o == 'remove':
            out.append(dict(op='remove', k=k))
        elif o == 'setmax':
            out.append(dict(op='setmax', max=rng.choice(p['caps'])))
        elif o == 'setmaxent':
            out.append(dict(op='setmaxent', max=rng.choice([-1, 0, 1, 2, 3, 5])))
            # whatever comes next has to notice it
            x = rng.random()
            if x < 0.35:
                out.append(dict(op='setmax', max=rng.choice(p['caps'])))
            elif x < 0.6 and ids:
                kk, i = rng.choice(ids[-6:])
                out.append(dict(op='updatesize', k=kk, id=rng.choice([0, i]), units=rng.choice(p['sizes'] + [0, 0]), plain=rng.random() < 0.5))
        elif o == 'clear':
            out.append(dict(op='releaseall', rev=rng.random() < 0.5))
            handles = []
            out.append(dict(op='clear'))
        elif o == 'releaseall':
            out.append(dict(op='releaseall', rev=rng.random() < 0.5))
            handles = []
        elif o == 'settimeout':
            lru = mode_lru
            sp = ''
            if p.get('lock'):
                t = rng.choice(lims)
            else:
                if rng.random() < 0.5 and limit >= 0:
                    out.append(dict(op='settimeout', t=-1, lru=mode_lru))
                    limit = -1
                lru = mode_lru if limit >= 0 else rng.random() < 0.5
                t = rng.choice([-1, -1] + lims)
            if rng.random() < 0.12:
                sp = rng.choice(['inf', 'neginf', 'huge', 'edge', 'year'])
                if (p.get('lock') and sp == 'year') or tsc > 1 and sp == 'year':
                    sp = 'huge'
            if sp in ('inf', 'neginf'):
                t = -1
            elif sp:
                t = 2000000000
            out.append(dict(op='settimeout', t=t, lru=lru, **({'sp': sp} if sp else {})))
            limit, mode_lru = (t, lru)
            if limit >= 1000000:
                limit = -1 if t < 0 else 2000000000
                if p.get('lock'):   # come back to a limit that matters
                    limit = rng.choice(lims)
                    out.append(dict(op='settimeout', t=limit, lru=lru))
        else:
            out.append(dict(op=o))
    # probe: everything unpinned must be removable, everything released
    out.append(dict(op=rng.choice(['removeunpinned', 'tick', 'expire']), d=1))
    if rng.random() < 0.5:
        out.append(dict(op='setmax', max=rng.choice(p['caps'])))
    out.append(dict(op='releaseall', rev=rng.random() < 0.5))
    if rng.random() < 0.5:
        out.append(dict(op='removeunpinned'))
    return out


def many(rng):
    """Pins taken by as many lookups."""
    return rng.choice([2, 2, 3, 3, 100, 127, 128, 129, 255, 256, 256, 257, 512, 1000, 32767, 32768, 65535, 65536, 65537, 100000])


def flood(rng):
    """Many entries at once, and calls that affect many of them."""
    small = rng.random() < 0.5     # what makes space is slow to judge
    sizes = [33, 65, 70, 100, 129] if small else [65, 100, 129, 200, 257, 300]
    u = rng.choice([1, 1, 2, 3])
    huge = rng.random() < 0.08     # few calls, each for very many entries
    if huge:
        small, sizes, u = False, [513, 600, 800], 1
    out = [dict(op='new', variant=rng.choice(['int', 'str', 'coll', 'del']), max=rng.choice([1000, 2000]), maxEnt=-1, nkeys=5,
                usc=rng.choice([1, 1, 1, 1 << 31, (1 << 32) + 1]))]
    limit, lru = -1, True
    if rng.random() < 0.6:
        limit, lru = rng.choice([1, 3, 10]), rng.random() < 0.6
        out.append(dict(op='settimeout', t=limit, lru=lru))
    nid, hn, top, keys, last = 1, 0, 1, 1, 0
    for _ in range(rng.choice([1, 1, 2])):
        n = rng.choice(sizes)
        if keys + n > (900 if huge else 400) or (nid + n) * u > out[0]['max']:
            break
        out.append(dict(op='fill', k=keys, id=nid, n=n, units=u))
        nid, keys = nid + n, keys + n
        for _ in range(rng.choice([0, 1] if huge else [0, 2, 5])):
            k = rng.randint(1, keys - 1)
            if rng.random() < 0.6:
                hn += 1
                out.append(dict(op=rng.choice(['lookup', 'scope']), k=k, h=hn, upd=rng.random() < 0.6, plain=False))
                if rng.random() < 0.2:
                    out[-1].update(op='lookup', n=many(rng))
                if rng.random() < 0.5:
                    out.append(dict(op='release', h=hn))
            elif rng.random() < 0.5:
                out.append(dict(op='remove', k=k))
            else:
                hn += 1
                out.append(dict(op='insertp', k=k, id=nid, units=u, h=hn))
                nid += 1
        if rng.random() < 0.6:
            out.append(dict(op='tick', d=rng.choice([1, 2, max(limit, 0), limit + 1, 20])))
    for _ in range(rng.choice([1, 2])):
        o = rng.choice(['expire', 'lookup', 'removeall', 'removeunpinned', 'timeout'] + (['setmax', 'updatesize', 'insertp', 'insert'] * 2 if small else []))
        if limit >= 0 and o in ('expire', 'lookup') and rng.random() < 0.8:
            out.append(dict(op='tick', d=limit + 1))
        if o == 'lookup':
            hn += 1
            out.append(dict(op=o, k=rng.randint(1, keys), h=hn, upd=True, plain=False))
        elif o == 'timeout':
            out.append(dict(op='tick', d=rng.choice([1, 4])))
            out.append(dict(op='settimeout', t=-1, lru=lru))
            limit = rng.choice([0, 0, 1, 3])
            out.append(dict(op='settimeout', t=limit, lru=lru))
        elif o == 'setmax':
            out.append(dict(op=o, max=rng.choice([0, 1, 10, 50, 90])))
        elif o == 'updatesize':
            out.append(dict(op='setmax', max=rng.choice([400, 200])))
            out.append(dict(op=o, k=rng.randint(1, keys - 1), id=0, units=rng.choice([390, 100, 150]), plain=True))
        elif o in ('insert', 'insertp'):
            hn += 1
            out.append(dict(op=o, k=keys, id=nid, units=rng.choice([990, 1000, 1001, 950]), **({'h': hn} if o == 'insertp' else {})))
            nid, keys = nid + 1, keys + 1
        else:
            out.append(dict(op=o))
    if rng.random() < 0.5:
        out.append(dict(op='expire'))
    if not huge and rng.random() < 0.3:
        # many versions of one key, all of them held
        k = rng.randint(1, keys)
        for _ in range(rng.choice([17, 33] if keys > 150 else [17, 33, 66, 100, 130])):
            hn += 1
            out.append(dict(op='insertp', k=k, id=nid, units=u, h=hn))
            nid += 1
        out.append(rng.choice([dict(op='remove', k=k), dict(op='updatesize', k=k, id=0, units=2, plain=True), dict(op='tick', d=1)]))
    if hn:
        # the pins given back one by one, then whatever is left
        hs = list(range(1, hn + 1))
        o = rng.randrange(4)
        if o == 0:
            hs.reverse()
        elif o > 1:
            rng.shuffle(hs)
        out += [dict(op='release', h=h) for h in hs]
    out.append(dict(op=rng.choice(['removeunpinned', 'removeall', 'clear'])))
    return out


def rounds(rng):
    """A few calls, to be made over and over on one cache."""
    ops = []
    cap = rng.choice([0, 1, 2, 4, 8, 50])
    names = ['insert', 'insertp', 'lookup', 'release', 'scope', 'updatesize', 'remove', 'removeall', 'removeunpinned', 'expire', 'tick', 'setmax', 'timeout', 'look']
    few = rng.sample(names, rng.choice([3, 5, 14]))
    for _ in range(rng.choice([3, 6, 12])):
        o = rng.choice(['insert', 'insertp', 'lookup', 'release'] + few)
        u = {'insert': [1, 1, 2], 'insertp': [1, 1, 2], 'setmax': [cap, cap, 3, 0], 'tick': [1, 3, 10], 'timeout': [1, 2, 5], 'updatesize': [0, 1, 3]}.get(o, [0, 1, 2])
        ops.append([o, rng.randint(1, rng.choice([1, 3, 8])), rng.choice(u)])
    v = rng.choice(['int', 'str', 'coll', 'del', 'view'])
    vary = v != 'view' and rng.random() < 0.4
    return [dict(op='new', variant='int', max=1, maxEnt=-1, nkeys=1), dict(op='rounds', variant=v, max=cap, ops=ops, vary=vary, clear=rng.random() < 0.5)]


def script(seed, profiles, segments):
    rng = random.Random(seed)
    # a flood now and then
    floods = [p for p in profiles if p[-5:] == 'flood']
    others = [p for p in profiles if p not in floods]
    for i in range(segments):
        yield segment(rng, rng.choice(floods) if floods and i % 19 == 7 else others[i % len(others)])


if __name__ == '__main__':
    import sys
    for s in script(int(sys.argv[1]), sys.argv[2].split(','), int(sys.argv[3])):
        for o in s:
            print(json.dumps(o))
