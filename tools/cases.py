"""From cases chosen by TLC (lines '@C ...' of the model checking modules) to
script segments for the real code.  Each function takes (cases, rng, quick)."""
import base64, json
import gen_jwt as gj
from gen_jwt import G, Raw, jwk, enc, b64u, lat, KEYS, PEMS, SECRETS, kind_of

W = 2**64


def batched(items, n):
    for i in range(0, len(items), n):
        yield items[i:i + n]


# ------------------------------------------------------------------ C05
def time(cases, rng, quick):
    """Words 0..15 placed around the corners of the 64-bit words: an order
    preserving map that keeps sums and differences within each half."""
    half = 8
    places = [W - 8, 2**63 - 4, 2**32 - 4, 2**53 - 4, 1700000000]
    by = {}
    for nbf, exp, now, skew in cases:
        by.setdefault((nbf, exp), []).append((now, skew))
    segs = []
    for hi in places[:2] if quick else places:
        def at(x, hi=hi):
            return x if x < half else hi + (x - half)
        for (nbf, exp), qs in by.items():
            if quick:
                qs = rng.sample(qs, 48)
            ops = [dict(op='new'), dict(op='setf', slot=0, nbf=str(at(nbf)), exp=str(at(exp)))]
            ops += [dict(op='time', slot=0, now=str(at(t)), skew=str(at(s))) for t, s in qs]
            segs.append(ops)
    # the default skew: the same small machine around 60
    for (nbf, exp), qs in by.items():
        for base in (0, 1700000000, W - 200):
            ops = [dict(op='new'), dict(op='setf', slot=0, nbf=str(base + nbf * 12), exp=str(base + exp * 12 if exp else 0))]
            ts = sorted({t for t, _ in qs})
            for t in ts:
                for d in (0, 1, W - 1):
                    ops.append(dict(op='time', slot=0, now=str((base + t * 12 + d) % W)))
            segs.append(ops)
    return segs


# ------------------------------------------------------------------ C06
def audience(cases, rng, quick):
    words = [c['s'] for c in cases]
    segs = []
    rows = rng.sample(words, 64) if quick else words if len(words) < 400 else rng.sample(words, 400)
    cols = words if len(words) < 300 else None
    for s in rows:
        qs = cols or [s] + rng.sample(words, 300)
        segs.append([dict(op='new'), dict(op='aud', cfg=[s], qs=[[t] for t in qs])])
    for _ in range(300 if quick else 3000):
        cfg = [rng.choice(words) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        qs = [[rng.choice(words) for _ in range(rng.choice([0, 1, 2, 4]))] for _ in range(12)]
        if cfg:
            for p in ('', 'http://', 'https://'):
                for q in ('', '/'):
                    qs.append(['zz', p + rng.choice(cfg) + q])
        segs.append([dict(op='new'), dict(op='aud', cfg=cfg, qs=qs)])
    return segs


# ------------------------------------------------------------------ C07
def compose(cases, rng, quick):
    T, S = 1700000000, 60
    segs = []
    for cs in batched(cases, 24):
        g = G(rng)
        alg = rng.choice(gj.ALGS)
        key, other = rng.sample(gj.signers(alg), 2)
        g.jwks(0, [jwk(key)])
        g.jwks(1, [jwk(other)])
        g.jwks(2, [jwk(key, 'nobody'), jwk(other, 'noone')])
        for n, c in enumerate(cs):
            skew = rng.choice([0, 1, 60, 3600]) if c['entry'] == 'nowskew' else S
            cl = {}
            if c['nbf'] != 'none':
                cl['nbf'] = T + {'past': -1, 'edge': skew, 'future': skew + 1}[c['nbf']]
            if c['exp'] != 'none':
                cl['exp'] = T + {'future': 1, 'edge': -skew, 'past': -skew - 1}[c['exp']]
            au = {'none': None, 'match': ['svc'], 'spelled': ['https://svc/'], 'other': ['svc2', 'http://svc//'], 'last': ['x', 'y', 'svc']}[c['aud']]
            if au is not None:
                cl['aud'] = au[0] if len(au) == 1 and rng.random() < 0.5 else au
            cfg = {'empty': [], 'one': ['http://svc'], 'two': ['nope', 'svc/']}[c['cfg']]
            g.token(n, alg, key, 'k1', claims=cl)
            kw = {}
            if 'wall' in c['entry']:
                kw['wall'] = [str(T), rng.choice([0, 999999999])]
            elif c['entry'] != 'sig':
                kw['now'] = str(T)
            if c['entry'] == 'nowskew':
                kw['skew'] = str(skew)
            if c['entry'].startswith('aud'):
                kw['auds'] = cfg
            g.verify(n, {'Ok': 0, 'JwtVerificationFail': 1, 'JwksKidAlgMismatch': 2}[c['sig']], c['entry'], rep=0, **kw)
        segs.append(g.ops)
    return segs


# ------------------------------------------------------------------ C08
def spell(rng, cls):
    """JSON text of a member of class cls."""
    return {'none': None, 'num': '5', 'null': 'null', 'bool': rng.choice(['true', 'false']), 'list': rng.choice(['[]', '["a"]']), 'obj': rng.choice(['{}', '{"a":1}']),
            'str': json.dumps(rng.choice(['', 'v', 'https://x/'])), 'neg': rng.choice(['-1', '-0.5', '-1e300']),
            'big': rng.choice(['18446744073709551616', '1e20', '1e308']), 'strs': '["a","b"]', 'empty': '[]', 'mixed': '[5,"a"]', 'nested': '[["a"]]',
            'tail': '["a","b",null]'}[cls]


def abstract_token(rng, c):
    h, p = {}, {}
    alg = c['alg']
    a = {'ok': json.dumps(rng.choice(gj.ALGS)), 'unk': rng.choice(gj.BADALG), 'empty': '""', 'case': '"hs256"'}.get(alg) or spell(rng, alg)
    if a is not None:
        h['alg'] = Raw(a)
    h['typ'] = 'JWT'
    if c['kid'] != 'none':
        h['kid'] = Raw(spell(rng, c['kid']))
    for k in ('iss', 'sub', 'iat', 'nbf', 'exp', 'jti', 'aud'):
        if c[k] == 'none':
            continue
        if k in ('iat', 'nbf', 'exp') and c[k] == 'num':
            p[k] = Raw(rng.choice(['0', '1', '1700000000', '5000000000.75', '18446744073709549568']))
        else:
            p[k] = Raw(spell(rng, c[k]))
    hb, pb = enc(h), enc(p)
    junk = [b'[]', b'"s"', b'{', b'{"a":1', b'{"a":1}}', b'{"a":"\xff"}', b'5', b'null']
    if c['hj'] == 'bad':
        hb = rng.choice(junk)
    if c['pj'] == 'bad':
        pb = rng.choice(junk)
    hs, ps, ss = b64u(hb), b64u(pb), b64u(bytes(rng.randrange(256) for _ in range(rng.choice([1, 32, 64]))))

    def bad(s):
        return rng.choice([s[:3] + '*' + s[3:], s + '*', '*' + s, s[:len(s) // 4 * 4] + 'A', s + '=A', s[:2] + '+' + s[2:] + '/', s + '======'])
    hs = bad(hs) if c['hb'] == 'bad' else hs
    ps = bad(ps) if c['pb'] == 'bad' else ps
    ss = bad(ss) if c['sb'] == 'bad' else ss
    t = hs + '.' + ps + '.' + ss
    return {'ok': t, 'zero': '', 'one': hs, 'two': hs + '.' + ps, 'four': t + '.' + ss, 'five': t + '.AAAA.BBBB', 'he': '.' + ps + '.' + ss, 'pe': hs + '..' + ss,
            'se': hs + '.' + ps + '.', 'lead': '.' + t, 'trail': t + '.'}[c['fmt']]


def parse(cases, rng, quick):
    segs = []
    if quick and len(cases) > 3000:
        cases = rng.sample(cases, 3000)
    for cs in batched(cases, 25):
        segs.append([dict(op='new')] + [dict(op='parse', slot=n % 4, via='parse', text=abstract_token(rng, c)) for n, c in enumerate(cs)])
    return segs


# ------------------------------------------------------------------ C09
def claims(cases, rng, quick):
    segs = []
    texts = {'empty': [''], 'one': ['one', 'x' * 101, 'caf\u00e9', 'a"\\\n'], 'two': ['two', 'https://two/', '\U0001f511', 'a\x00b'], 'other': ['other']}
    nums = {'one': ['1', '1.0', '1e0', '1.999'], 'two': ['281474976710658', '281474976710658.9']}
    auds = {'str': ['"a"'], 'one': ['["b"]', '["b\\u0000c"]'], 'many': ['["c","a","c"]', '["c","a","c","", "d/e","f"]']}
    for cs in batched(cases, 20):
        ops = [dict(op='new')]
        for n, c in enumerate(cs):
            h = [('alg', rng.choice(gj.ALGS))]
            p = []
            for k, v in c.items():
                if v == 'none':
                    continue
                pool = nums.get(v) if k in ('iat', 'nbf', 'exp') else auds.get(v) if k == 'aud' else texts.get(v, [v])
                t = rng.choice(pool)
                (h if k == 'kid' else p).append((k, Raw(t) if k in ('iat', 'nbf', 'exp', 'aud') else t))
            rng.shuffle(p)
            rng.shuffle(h)
            t = b64u(enc(dict(h), rng, rng.randrange(12))) + '.' + b64u(enc(dict(p), rng, rng.randrange(12)))
            ops.append(dict(op='parse', slot=n % 3, via='parse', text=t + '.' + b64u(bytes([rng.randrange(256)] * rng.choice([1, 32])))))
        segs.append(ops)
    return segs


# ------------------------------------------------------------------ C10
def session(cases, rng, quick):
    if quick and len(cases) > 2500:
        cases = rng.sample(cases, 2500)
    if len(cases) > 12000:
        cases = rng.sample(cases, 12000)
    segs = []
    for c in cases:
        g = G(rng)
        alg = rng.choice(['HS256', 'EdDSA', 'ES256'])
        key = gj.signers(alg)[0]
        full = lambda i: {'iss': 'i%d' % i, 'sub': 's%d' % i, 'jti': 'j%d' % i, 'iat': i, 'nbf': i, 'exp': 4000000000 + i, 'aud': ['a%d' % i, 'b%d' % i][:1 + i % 2]}
        msg = {}

        def text(h, p, sig=True):
            m = b64u(enc(h)) + '.' + b64u(enc(p))
            if m not in msg:
                msg[m] = g.sign(key, m, alg)
            return [m + '.', {'sig': msg[m]}]
        texts = {}
        for o in c['h']:
            x = o.get('x')
            if not x or x in texts:
                continue
            if x == 'g1':
                texts[x] = text({'alg': alg, 'kid': 'k1'}, full(1))
            elif x == 'g2':
                texts[x] = text({'alg': alg}, {})
            elif x == 'bf':
                texts[x] = rng.choice(['', 'abc', 'a.b', 'a..b'])
            elif x == 'bh':
                texts[x] = text(rng.choice([{'alg': 'none', 'kid': 'k2'}, {'kid': 'k2'}, {'alg': alg, 'kid': 5}]), full(3))
            elif x == 'bp':
                d = full(4)
                d[rng.choice(['exp', 'jti', 'aud'])] = Raw(rng.choice(['{}', 'true', 'null', '[5]']))
                texts[x] = text({'alg': alg, 'kid': 'k3'}, d)
            elif x == 'bs':
                texts[x] = b64u(enc({'alg': alg, 'kid': 'k5'})) + '.' + b64u(enc(full(5))) + '.' + rng.choice(['*', 'AAAAA', 'AA==='])
        g.jwks(0, [jwk(key)])
        for o in c['h']:
            s = o['s']
            if o['op'] == 'parse':
                g.parse(s, texts[o['x']])
            elif o['op'] == 'own':
                g.parse(s, None, via='own')
            else:
                g.parse(s, None, via=o['op'], src=o['r'])
            if rng.random() < 0.5:
                g.verify(s, 0, 'sig', rep=0)
        for s in (0, 1):
            g.verify(s, 0, 'sig', rep=0)
        segs.append(g.ops)
    return segs


# ------------------------------------------------------------------ C11
def keylist(cases, rng, quick):
    segs = []
    good = {'g1': ['h_a', 'h_32', 'h_1'], 'g2': ['rsa_a', 'rsa_b', 'rsa_e3'], 'g3': ['ed_a', 'ed_b', 'p256_a', 'p384_a', 'p521_a']}
    for cs in batched(cases, 20):
        g = G(rng)
        for c in cs:
            es = []
            for i, x in enumerate(c['list']):
                if x in good:
                    n = rng.choice(good[x])
                    es.append(jwk(n, rng.choice([None, 'k%d' % i, 'k']), rng.choice([None, rng.choice(gj.algs_of(n))])))
                elif x == 'b1':
                    es.append(rng.choice([{}, {'kid': 'k'}, {'kty': Raw('5')}, {'kty': 'foo'}, jwk('rsa_a', n=None), jwk('ed_a', crv=None), jwk('p256_a', y=None)]))
                elif x == 'b2':
                    es.append(rng.choice([jwk('h_a', 'k', 'RS256'), jwk('ed_a', 'k', 'HS256'), jwk('p256_a', 'k', 'ES384'), jwk('rsa_a', 'k', 'ES256'), jwk('p256_a', 'k', x='AAAA'),
                                          jwk('h_a', k='*'), jwk('rsa_a', e='*'), jwk('ed_a', x='AAAA'), jwk('rsa_e17')]))
                else:
                    es.append(Raw(rng.choice(['5', 'null', '"x"', '[]', 'true', '[{"kty":"oct","k":"AQAB"}]'])))
            g.jwks(0, es, rng.randrange(12))
        segs.append(g.ops)
    return segs


# ------------------------------------------------------------------ C12
OF = {'rsa': ['rsa_a', 'rsa_b', 'rsa_d'], 'P-256': ['p256_a', 'p256_b', 'p256_zx', 'p256_zy'], 'P-384': ['p384_a', 'p384_b'], 'P-521': ['p521_a', 'p521_b'],
      'oct': ['h_a', 'h_32', 'h_1', 'h_nul'], 'okp': ['ed_a', 'ed_b']}


def entry_of(rng, c):
    name = rng.choice(OF[c['of']])
    base = jwk(name)
    fill = {'n': KEYS['rsa_a']['n'], 'e': 'AQAB', 'x': KEYS['ed_a']['x'], 'y': KEYS['p256_a']['y'], 'k': 'c2VjcmV0'}
    e = {}
    for m in ('kty', 'kid', 'alg', 'crv', 'n', 'e', 'x', 'y', 'k'):
        v = c[m]
        if v == 'none':
            continue
        if v == 'num':
            e[m] = Raw(rng.choice(['5', 'null', 'true', '[]', '["RSA"]', '{}', '["AQAB"]']))
        elif m == 'kid':
            e[m] = 'k1'
        elif m in ('kty', 'alg', 'crv'):
            e[m] = v
        else:
            g = base.get(m, fill[m])
            raw = gj.ub64(g)
            e[m] = {'ok': g, 'bad': rng.choice([g[:4] + '*' + g[4:], g[:len(g) // 4 * 4] + 'A', '*', g + '=A']),
                    'wrong': b64u(bytes([raw[0]]) + bytes(b ^ 0x5a for b in raw[1:-1]) + bytes([(raw[-1] ^ 0x5a) & 0xfe])) if len(raw) > 2 else b64u(b'\x02'),
                    'wide': b64u(b'\0' + raw), 'short': b64u(raw[:31]), 'long': b64u(raw[:32] + b'\1'), 'empty': '', 'three': 'Aw', 'seventeen': 'EQ'}[v]
    e = dict(rng.sample(list(e.items()), len(e)))
    return e


def entry(cases, rng, quick):
    segs = []
    if quick and len(cases) > 8500:
        cases = rng.sample(cases, 8500)
    for cs in batched(cases, 40):
        g = G(rng)
        for c in cs:
            g.jwks(0, [entry_of(rng, c)], rng.randrange(12))
        segs.append(g.ops)
    return segs


# ------------------------------------------------------------------ C13
def keyhistory(cases, rng, quick):
    if quick and len(cases) > 3000:
        cases = rng.sample(cases, 3000)
    if len(cases) > 20000:
        cases = rng.sample(cases, 20000)
    segs = []
    pem = {'rsa': gj.RSA_KEYS, 'ec': ['p256_a', 'p384_a', 'p521_a'], 'okp': gj.ED_KEYS}

    def text(p):
        if p in pem:
            return rng.choice(['', 'x\n']) + KEYS[rng.choice(pem[p])]['pub']
        if p == 'other':
            return PEMS[rng.choice(list(PEMS))]
        return rng.choice(['', 'x', KEYS['rsa_a']['pub'][:-30], KEYS['rsa_a']['certs'][0], KEYS['rsa_a']['priv']])
    for c in cases:
        g = G(rng)
        for o in c['h']:
            op = o['op']
            if op == 'list':
                g.jwks(0, [jwk('h_a', 'k1')])
            elif op == 'badlist':
                g.jwks(0, [{'kid': 'k'}])
            elif op == 'garbage':
                g.load(0, rng.choice(['', '{', 'x']))
            elif op == 'map':
                g.load(0, lat(enc({'c1': KEYS['rsa_a']['certs'][0]})))
            elif op == 'badmap':
                g.load(0, lat(enc({'c1': KEYS['rsa_a']['certs'][0], 'c2': 'x'})))
            elif op == 'pem':
                g.load(0, text(o['p']), 'PEM', kid='', alg='')
            elif op == 'frompem':
                g.load(0, text(o['p']), 'FROMPEM', kid=o['kid'], alg=o['alg'])
            else:
                g.ops.append(dict(op='addpem', kslot=0, text=text(o['p']), kid=o['kid'], alg=o['alg']))
        segs.append(g.ops)
    return segs


# ------------------------------------------------------------------ C14
def certmap(cases, rng, quick):
    segs = []
    certs = {'rsa': KEYS['rsa_a']['certs'], 'rsa2': KEYS['rsa_b']['certs'], 'ec': KEYS['p256_a']['certs'] + KEYS['ed_a']['certs']}
    for cs in batched(cases, 10):
        g = G(rng)
        for c in cs:
            d = {}
            for i, x in enumerate(c['map']):
                k = '' if x == 'nokid' else 'k%d' % (i + 1)
                if x in certs:
                    v = rng.choice(certs[x])
                elif x == 'nokid':
                    v = rng.choice(certs['rsa'])
                elif x == 'bad':
                    v = '-----BEGIN CERTIFICATE-----\n' + rng.choice(['', 'AAAA', '*', 'x' * 100]) + '\n-----END CERTIFICATE-----\n'
                elif x == 'shape':
                    v = rng.choice(['x', '', KEYS['rsa_a']['pub'], certs['rsa'][0].strip(), '\n' + certs['rsa'][0]])
                else:
                    v = Raw(rng.choice(['5', 'null', '[]', '{}', 'true']))
                d[k] = v
            items = list(d.items())
            rng.shuffle(items)
            g.load(0, lat(enc(dict(items), rng, rng.choice([1, 2, 3]))))
        segs.append(g.ops)
    return segs


# ------------------------------------------------------------------ C15
NUM = {'7': ['7', '7.25', '7.999'], 'neg': ['-1', '-0.25', '-inf', '-1e300', '-4.9e-324'], 'big': ['18446744073709551616', '1e20', 'inf', '1.7e308'], 'nan': ['nan', '-nan']}


def struct(cases, rng, quick):
    names = ['a', 'b', '']
    paths = names + [x + '.' + y for x in names for y in names] + ['.'.join((x, y, z)) for x in 'ab' for y in 'ab' for z in 'ab'] + ['', 'a.', '.', 'c']
    qs = [[p, g] for p in paths for g in ('str', 'u64', 'dbl', 'bool', 'list', 'val')]

    def conv(v):
        t = v['t']
        if t == 'num':
            return dict(t='num', v=rng.choice(NUM[v['d']]))
        if t == 'obj':
            return dict(t='obj', f=[[n, conv(x)] for n, x in v['f']])
        if t == 'list':
            return dict(t='list', v=[conv(x) for x in v['v']])
        return v
    return [[dict(op='new'), dict(op='struct', tree=conv(o), qs=qs if not quick else rng.sample(qs, 80))] for o in cases]


# ------------------------------------------------------------------ C16
def holder(cases, rng, quick):
    segs = []
    if quick and len(cases) > 2000:
        cases = rng.sample(cases, 2000)
    for cs in batched(cases, 40):
        ops = [dict(op='new')]
        for c in cs:
            a, b = rng.sample(range(1, 60), 2)
            m = {'Ok': 0, 'A': a, 'B': b}
            ops.append(dict(op='holder', ops=[[x, m[y]] for x, y in c['h']]))
        segs.append(ops)
    return segs


# ------------------------------------------------------------------ C18
def read(cases, rng, quick):
    segs = []
    for cs in batched(cases, 16):
        g = G(rng)
        alg = rng.choice(gj.ALGS)
        key = rng.choice(gj.signers(alg))
        body = {('h', 'A'): {'alg': alg, 'kid': 'k1'}, ('h', 'B'): {'alg': alg, 'kid': 'k2'}, ('p', 'A'): {'iss': 'i', 'sub': 'a/b'}, ('p', 'B'): {'iss': 'i', 'sub': 'c/d'}}

        def text(s, x):
            c, how = x
            d = body[(s, c)]
            # a length that leaves room for padding
            base = enc(d)
            while len(base) % 3 == 0:
                d = dict(d)
                d['x'] = d.get('x', '') + 'x'
                base = enc(d)
            if how == 'json':
                base = base.replace(b'{', b'{ ', 1).replace(b'"k', b'"\\u006b').replace(b'"i"', b'"\\u0069"')
            t = b64u(base)
            if how == 'pad':
                t += '=' * (-len(t) % 4)
            if how == 'space':
                t = t[:9] + rng.choice([' ', '\n', '\t']) + t[9:]
            return t
        g.jwks(0, [jwk(key)])
        cache, sigs = {}, {}
        for n, c in enumerate(cs):
            def sect(s, x):
                k = (s, tuple(x))
                if k not in cache:
                    cache[k] = text(s, x)
                return cache[k]
            h, p, i = c['shown']
            m = sect('h', c['signed'][i - 1][0]) + '.' + sect('p', c['signed'][i - 1][1])
            if m not in sigs:
                sigs[m] = g.sign(key, m, alg)
            g.parse(n, [sect('h', h) + '.' + sect('p', p) + '.', {'sig': sigs[m]}])
            g.verify(n, 0, 'sig', rep=0)
        segs.append(g.ops)
    return segs


# ------------------------------------------------------------------ C01-C04
MAT = {'rsa1': 'rsa_a', 'rsa2': 'rsa_b', 'EC:P-256:1': 'p256_a', 'EC:P-256:2': 'p256_b', 'EC:P-384:1': 'p384_a', 'oct1': 'h_a', 'oct2': 'h_b', 'okp1': 'ed_a', 'okp2': 'ed_b'}
FIRST = {'R': ('rsa_a', 'rsa_b'), 'P': ('rsa_a', 'rsa_b'), 'H': ('h_a', 'h_b'), 'ES256': ('p256_a', 'p256_b'), 'ES384': ('p384_a', 'p256_a'), 'EdDSA': ('ed_a', 'ed_b')}
WAY = {'RS256': 'PS256', 'RS512': 'RS256', 'PS256': 'RS256', 'ES256': 'ES384', 'ES384': 'ES256', 'HS256': 'HS512', 'EdDSA': 'EdDSA'}


def loadable(name, alg):
    return alg == '' or alg in gj.algs_of(name)


def verify(cases, rng, quick, per=24):
    toks = [c['tok'] for c in cases if 'tok' in c]
    sets = [c['ks'] for c in cases if 'ks' in c]
    small = [s for s in sets if len(s) <= 1]
    big = [s for s in sets if len(s) > 1]
    if quick:
        big = rng.sample(big, 500)
    usable = []
    for s in small + big:
        if all(loadable(MAT[m], a) for m, _, a in s):
            usable.append((s, 'list'))
        if s and all(m[:3] != 'oct' for m, _, a in s):
            usable.append((s, 'pem'))
        elif s and s[0][0][:3] == 'oct' and loadable(MAT[s[0][0]], s[0][2]) and all(m[:3] != 'oct' for m, _, a in s[1:]) and len(s) > 1:
            usable.append((s, 'mix'))
    rng.shuffle(usable)
    segs = []
    for ss in batched(usable, per):
        g = G(rng)
        n = 0
        for x in toks:
            alg = x['alg']
            a, b = FIRST.get(alg) or FIRST[alg[0]]
            h = {'alg': alg}
            if x['kid']:
                h['kid'] = x['kid']
            msg = b64u(enc(h)) + '.' + b64u(enc({'n': rng.randrange(10**6)}))
            how = x['how']
            part = {}
            if how == 'other':
                part['sig'] = g.sign(b, msg, alg)
            elif how == 'text':
                part['sig'] = g.sign(a, msg + 'A', alg)
            elif how == 'way':
                part['sig'] = g.sign(a, msg, WAY[alg])
            else:
                part['sig'] = g.sign(a, msg, alg)
            if how == 'len':
                part['mut'] = rng.choice([[['cut', 1]], [['app', 'a']], [['app', '\0']], [['cut', 32]]])
            g.parse(n, [msg + '.', part])
            n += 1
        for i, (s, how) in enumerate(ss):
            if how == 'list':
                g.jwks(i, [jwk(MAT[m], k or None, a or None) for m, k, a in s])
                rest = []
            elif how == 'mix':
                m, k, a = s[0]
                g.jwks(i, [jwk(MAT[m], k or None, a or None)])
                rest = s[1:]
            else:
                m, k, a = s[0]
                g.load(i, KEYS[MAT[m]]['pub'], 'FROMPEM', kid=k, alg=a)
                rest = s[1:]
            for m, k, a in rest:
                g.ops.append(dict(op='addpem', kslot=i, text=KEYS[MAT[m]]['pub'], kid=k, alg=a))
            for t in range(n):
                g.verify(t, i, 'sig', rep=0)
        segs.append(g.ops)
    return segs


# ------------------------------------------------------------------ C30, C32
def own(cases, rng, quick):
    n = 2500 if quick else 16000
    segs = []
    for c in cases if len(cases) <= n else rng.sample(cases, n):
        g = G(rng)
        t = {'t1': gj.own_token(rng), 't2': gj.own_token(rng)}
        s = {'t1': gj.own_set(rng), 't2': gj.own_set(rng)}
        live = set()
        both = all(o['op'] in ('make', 'drop') for o in c['h'])
        for o in c['h']:
            if o['op'] == 'make':
                g.parse(o['s'], t[o['x']])
                if both:
                    x, ty, kid, alg = s[o['x']]
                    g.load(o['s'], x, ty, kid=kid, alg=alg)
                live.add(o['s'])
            elif o['op'] == 'drop':
                g.ops.append(dict(op='drop', slot=o['s'], **({'kslot': o['s']} if both else {})))
                live.discard(o['s'])
            else:
                g.parse(o['s'], None, via=o['op'], src=o['r'])
                live.add(o['s'])
            for k in sorted(live):
                g.ops.append(dict(op='look', slot=k))
                if both:
                    g.ops.append(dict(op='look', kslot=k))
        segs.append(g.ops)
    return segs


# the same histories, each as something to be done again and again
def again(cases, rng, quick):
    n = 500 if quick else 4000
    segs = []
    for ops in own(cases if len(cases) <= n else rng.sample(cases, n), rng, quick):
        segs.append([o for o in ops if o['op'] == 'new'] + [dict(op='heap', ops=[o for o in ops if o['op'] not in ('new', 'look')])])
    return segs


# ------------------------------------------------------------------ C29
def errors(cases, rng, quick):
    n = 1500 if quick else 9000
    segs = []
    off = lambda k: dict(k, x=b64u(gj.ub64(k['x'])[:-1] + b'\1\1'))
    badcert = [KEYS['p256_a']['certs'][0], '-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n', KEYS['rsa_a']['certs'][0][:300],
               KEYS['rsa_a']['certs'][0].replace('M', 'N', 40)]
    for c in cases if len(cases) <= n else rng.sample(cases, n):
        g = G(rng)
        alg = rng.choice(gj.ALGS)
        key, other = rng.sample(gj.signers(alg), 2)
        g.token(0, alg, key, 'k1')
        for o in c['h']:
            kind, ops = o['kind'], o['ops']
            if kind == 'jwks':
                es = []
                for ok in ops:
                    e = jwk(rng.choice(['rsa_a', 'p256_a', 'p384_a', 'p521_a', 'ed_a']))
                    if not ok:
                        e = rng.choice([off(jwk(rng.choice(['p256_a', 'p384_a', 'p521_a']))), dict(jwk('rsa_a'), e='AA'), dict(jwk('rsa_a'), n=''), dict(jwk('p256_a'), x='AA', y='AA'),
                                        dict(jwk('rsa_a'), e='Ag'), dict(jwk('rsa_a'), n='AQ'), dict(jwk('p256_a'), crv='P-384'), dict(jwk('rsa_a'), n=b64u(b'\xff' * 2100))])
                    es.append(e)
                g.jwks(0, es)
            elif kind == 'map':
                g.load(0, lat(enc({'c%d' % i: KEYS['rsa_a']['certs'][0] if ok else rng.choice(badcert) for i, ok in enumerate(ops)})))
            elif kind in ('pem', 'add'):
                t = KEYS[rng.choice(list(KEYS))]['pub'] if ops[0] else gj.bad_pem(rng)
                if kind == 'pem':
                    g.load(0, t, rng.choice(['PEM', 'FROMPEM']), kid='k1', alg='')
                else:
                    g.ops.append(dict(op='addpem', kslot=0, text=t, kid='k1', alg=''))
            else:
                g.jwks(1, [jwk(key if ok else other, 'k1') for ok in ops] or [jwk(key, 'nobody')])
                g.verify(0, 1, 'sig')
        segs.append(g.ops)
    return segs
