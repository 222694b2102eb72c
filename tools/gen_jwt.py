"""Scripts for jwtdrv: tokens, key sets and calls, from a seeded generator."""
import base64, hashlib, hmac, json, os, random

HERE = os.path.dirname(os.path.abspath(__file__))
FIX = json.load(open(os.path.join(HERE, '..', 'harness', 'keys.json')))
KEYS, PEMS = FIX['keys'], FIX['pems']
ALGS = ['RS256', 'RS384', 'RS512', 'PS256', 'PS384', 'PS512', 'ES256', 'ES384', 'ES512', 'HS256', 'HS384', 'HS512',
        'EdDSA']
RSA_KEYS = ['rsa_a', 'rsa_b', 'rsa_c', 'rsa_e3', 'rsa_o', 'rsa_q', 'rsa_f']
EC_KEYS = {'ES256': ['p256_a', 'p256_b', 'p256_zx', 'p256_zy'], 'ES384': ['p384_a', 'p384_b', 'p384_zx', 'p384_zy'],
           'ES512': ['p521_a', 'p521_b', 'p521_zx', 'p521_zy']}
ED_KEYS = ['ed_a', 'ed_b', 'ed_c', 'ed_z', 'ed_y']
SECRETS = {
    'h_a': b'secret-a', 'h_b': b'secret-b', 'h_1': b'x', 'h_32': bytes(range(1, 33)), 'h_64': bytes(range(64, 128)),
    'h_65': bytes(range(100, 165)), 'h_128': bytes((i * 7 + 3) % 256 for i in range(128)),
    'h_200': bytes((i * 11 + 5) % 256 for i in range(200)), 'h_nul': b'ab\0cd', 'h_nul2': b'ab\0ce',
    'h_bin': b'\xff\xfe\x80\x01', 'h_long': bytes((i * 13 + 1) % 256 for i in range(1000)),
}
CRV = {'ES256': 'P-256', 'ES384': 'P-384', 'ES512': 'P-521'}


class Raw(str):
    """JSON text to be placed as it is."""


def lat(b):
    return b.decode('latin1')


def b64u(b):
    return base64.urlsafe_b64encode(b).rstrip(b'=').decode()


def ub64(s):
    try:
        return base64.urlsafe_b64decode(s + '=' * (-len(s) % 4))
    except ValueError:
        return b'\1\2\3'


def kind_of(alg):
    """How an algorithm signs: (kind, digest)."""
    return {'R': ('pkcs1', alg[2:]), 'P': ('pss', alg[2:]), 'E': ('ecdsa', alg[2:]), 'H': ('hmac', alg[2:])}[alg[0]] \
        if alg != 'EdDSA' else ('ed', '')


def fam(name):
    return KEYS[name]['fam'] if name in KEYS else 'oct'


def signers(alg):
    if alg[:2] in ('RS', 'PS'):
        return RSA_KEYS
    if alg in EC_KEYS:
        return EC_KEYS[alg]
    return list(SECRETS) if alg[0] == 'H' else ED_KEYS


def algs_of(name):
    f = fam(name)
    if f == 'RSA':
        return ALGS[:6]
    if f == 'EC':
        return [a for a in CRV if CRV[a] == KEYS[name].get('crv')]
    return ALGS[9:12] if f == 'oct' else ['EdDSA']


def jtext(v, rng=None, style=0):
    """JSON text of a value; members are (name, value) pairs.  style varies
    white space and escapes."""
    if isinstance(v, Raw):
        return str(v)
    if isinstance(v, dict):
        v = list(v.items())
        sp = [('', ''), (' ', ' '), ('\n  ', ''), ('', '\t')][style % 4]
        return '{' + sp[0] + (',' + sp[0]).join(jtext(k, rng, style) + sp[1] + ':' + sp[1] + jtext(x, rng, style) for k, x in v) + '}'
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(jtext(x, rng, style) for x in v) + ']'
    if isinstance(v, str):
        t = json.dumps(v, ensure_ascii=style % 3 == 1)
        return t if style % 5 else t.replace('/', '\\/')
    return json.dumps(v)


def enc(v, rng=None, style=0):
    return jtext(v, rng, style).encode('utf-8', 'surrogatepass')


STRINGS = ['', 'a', 'https://example.com/', 'x' * 99, 'y' * 101, 'z' * 300, 'caf\u00e9', '\u65e5\u672c\u8a9e', 'a"b\\c',
           'a.b.c', '\x00', 'a\x00b', 'tab\there', '\U0001f511', ' lead', 'trail ', 'UPPER', 'upper', '0', 'null', '\x7f',
           '\u00ff', 'a/b', 'sub|with|bars', 'line\nbreak', 'w' * 5000, 'a, b', 'a b c', 'a,b', 'a;b', 'https://a https://b', "it's", 'a\r\nb', 'line\n', '["a","b"]', '{"a":1}', 'a:b', '%41',
           '&amp;', '5', '-1', 'true', 'a+b=', '=', '\ufeffa', '\u2028', 'a\u0301', '\u200bz', 'mailto:a@b', 'urn:x:y', '0x10', '1e3', "' or ''='", '<a>', '\\u0041', '$a', '*', '?', '~', 'a..b']
SHORT = [x for x in STRINGS if len(x) < 1000]
# what tokens carry besides what the library reads
DRESS_H = [('typ', ['JWT', 'at+jwt', 'jwt', 'JWE', 'dpop+jwt', 5, None]), ('cty', ['JWT', 'json', '']), ('crit', [['exp'], ['b64'], [], ['http://x'], 'exp']), ('b64', [False, True]),
           ('jku', ['https://evil/keys']), ('x5u', ['https://x']), ('x5t', ['AAAA']), ('enc', ['A128GCM']), ('zip', ['DEF']), ('iss', ['h']), ('exp', [1, 9999999999]), ('nbf', [1, 9999999999]),
           ('aud', ['example.com', 'zz']), ('use', ['sig', 'enc']), ('key_ops', [['verify'], ['sign']]), ('kty', ['RSA', 'oct', 'EC']), ('k', ['AAAA']), ('n', ['AQAB']), ('crv', ['P-256']), ('nonce', ['n']),
           ('sub', ['s']), ('ver', [1]), ('alg2', ['none']), ('ALG', ['none']), ('Kid', ['k9'])]
DRESS_C = [('scope', ['read write', 'a']), ('scp', [['a', 'b']]), ('azp', ['example.com', 'a']), ('client_id', ['c']), ('nonce', ['n']), ('auth_time', [1, 1700000000, 9999999999]), ('acr', ['0']), ('amr', [['pwd']]),
           ('email', ['a@b']), ('email_verified', [True]), ('iss', ['i', 'https://issuer', 'https://example.com', '', None]), ('sub', ['s', '', 'u|1']), ('jti', ['1', '']), ('alg', ['none', 'HS256']), ('kid', ['k1', 'zz']),
           ('cnf', [{'jkt': 'x'}]), ('act', [{'sub': 'x'}]), ('events', [{}]), ('Exp', [1]), ('NBF', [9999999999]), ('expires', [1]), ('not_before', [9999999999]), ('use', ['enc']), ('roles', [[]]), ('realm_access', [{'roles': ['a']}]),
           ('htm', ['GET']), ('updated_at', [1]), ('ver', ['1.0']), ('typ', ['Bearer']), ('at_hash', ['x']), ('sid', ['x']), ('max_age', [0]), ('exp_', [0]), ('aud_', ['x'])]
# what keys carry besides what the library reads
DRESS_K = [('use', ['sig', 'sig', 'enc', 'enc', 'tls', '', Raw('5'), Raw('null')]), ('key_ops', [['verify'], ['sign'], ['encrypt'], ['deriveKey'], [], Raw('5'), 'verify']), ('ext', [True, False]),
           ('x5t', ['AAAA', '*', Raw('5')]), ('x5t#S256', ['AAAA']), ('x5u', ['https://x/c.pem']), ('x5c', [['AAAA'], [], Raw('5'), 'AAAA']), ('d', ['AQAB', '*', Raw('null')]), ('p', ['AQAB']), ('q', ['AQAB']),
           ('dp', ['AQAB']), ('dq', ['AQAB']), ('qi', ['AQAB']), ('oth', [[], Raw('5')]), ('iat', [0, 1700000000]), ('exp', [1, 9999999999]), ('nbf', [9999999999, 1]), ('revoked', [True, {'revoked_at': 1, 'reason': 'compromised'}]),
           ('enabled', [False]), ('status', ['revoked', 'active']), ('iss', ['https://i']), ('aud', ['a']), ('sub', ['s']), ('name', ['x']), ('created', [1]), ('length', [2048]), ('bits', [1024]), ('Alg', ['none']), ('KID', ['k9']),
           ('kids', [['k1']]), ('algs', [['RS256']]), ('alternate_kid', ['k1']), ('typ', ['JWT']), ('enc', ['A128GCM']), ('usage', ['encryption']), ('purpose', ['encryption']), ('k', ['AAAA']), ('n', ['AQAB']), ('e', ['AQAB']),
           ('x', ['AAAA']), ('y', ['AAAA']), ('crv', ['P-256', 'X25519'])]
# what key type reads which member
READS = {'RSA': 'n e', 'EC': 'x y crv', 'oct': 'k', 'OKP': 'x crv'}
DRESS_D = [('kid', 'cert'), ('x', 1), ('issuer', 'https://i'), ('cache', {'max_age': 5}), ('kty', 'RSA'), ('Keys', []), ('KEYS', [5]), ('key', {}), ('jwks_uri', 'https://x'), ('keys_', None), ('exp', 1), ('status', 'error'),
           ('error', 'x'), ('alg', 'none'), ('use', 'enc'), ('n', 'AQAB')]
IATS = [0, 1, 59, 61, 1000, 1699999999, 1700000000, 1700000001, 1700000059, 1700000061, 1700000600, 1800000000, 2**32, 2**32 + 5, 2**53]
NUMBERS = ['0', '1', '-1', '-0', '-0.0', '-0.5', '-1e-320', '0.5', '0.999999999', '1.9999999999', '9007199254740991', '9007199254740993',
           '18446744073709549568', '18446744073709551615', '18446744073709551616', '1e19', '1e20', '1e308', '-1e308', '4294967295',
           '4294967296', '4294967297', '2147483647', '2147483648', '9223372036854775807', '9223372036854775808', '1e-320', '12345678901234567890',
           '1.5e3', '1700000000', '1700000000.999', '1E9', '99999999999', '18446744073709550000', '3.0', '65535', '65536', '281474976710656']
NOTNUM = ['"5"', 'true', 'false', 'null', '[]', '[5]', '{}', '""', '"NaN"', '"Infinity"']
NOTSTR = ['5', 'true', 'null', '[]', '["a"]', '{}', '0', '{"a":"b"}', 'false']
NOTAUD = ['5', 'true', 'null', '{}', '[5]', '["a",5]', '[5,"a"]', '["a",null]', '[["a"]]', '["a",{"b":1}]', '{"a":"b"}', '["a","b",["c"]]', '[true]',
          '[null]', '["a","b","c","d","e","f","g",1]']
KIDS = ['k1', 'k2', 'k3', 'K1', 'k', 'k11', '', ' k1', 'k1 ', 'x' * 80, 'x' * 80 + '1', 'x' * 80 + '2', 'x' * 300, 'x' * 300 + 'y', 'x' * 5000, 'caf\u00e9', 'k\x001', 'k\x002',
        '1', '01', 'a.b', '\u65e5', 'k1\n', 'null', '62a93512c9ee4c7f8067b5a216dade2763d32a47', '62a93512c9ee4c7f8067b5a216dade2763d32a48']
NOTB64 = ['*', 'a', 'abc*', 'ab=c', '=', 'abcde', 'ab===', 'a b\x00', 'ab/+', '\xff\xfe', 'abc==', 'a=', '====', 'ab=']


def jwk(name, kid=None, alg=None, crv=True, **over):
    """The members of the JWK of a key."""
    m = []
    if name in SECRETS:
        m = [('kty', 'oct'), ('k', b64u(SECRETS[name]))]
    else:
        k = KEYS[name]
        if k['fam'] == 'RSA':
            m = [('kty', 'RSA'), ('n', k['n']), ('e', k['e'])]
        elif k['fam'] == 'EC':
            m = [('kty', 'EC')] + ([('crv', k['crv'])] if crv else []) + [('x', k['x']), ('y', k['y'])]
        else:
            m = [('kty', 'OKP'), ('crv', 'Ed25519'), ('x', k['x'])]
    if kid is not None:
        m.append(('kid', kid))
    if alg is not None:
        m.append(('alg', alg))
    d = dict(m)
    for k, v in over.items():
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
    return d


def ambient(r, seg):
    """Some of the calls are made on a thread with errors of other users."""
    for o in seg:
        if o['op'] in ('parse', 'load', 'addpem', 'verify') and r.random() < 0.06:
            o['dirty'] = r.choice([1, 1, 2, 3, 15, 16, 17, 40])
    return seg


def number(r):
    """Text of a number: a chosen one, or one with bits in any place."""
    k = r.random()
    if k < 0.6:
        return r.choice(NUMBERS)
    b = r.choice([1, 8, 16, 31, 32, 33, 48, 52, 53, 54, 55, 60, 62, 63, 64, 64, 65, 70])
    v = r.getrandbits(b) | 1 << (b - 1)
    if k < 0.75:
        return str(int(float(v)))         # an integer that a double holds exactly
    if k < 0.82:
        return str(v)                     # and one that it may not
    if k < 0.92:
        return repr(float(v) + r.choice([0.5, 0.25, 0.75, 0.999, 0.001, 1 - 2.0**-20, 2.0**-20, 1 - 1e-7, 1 - 1e-9, r.random()]))
    return r.choice(['%.17g', '%.3e', '%.16e', '%f']) % (float(v) * r.choice([1, -1, 1, 2.0**-40, r.random()]))


ALPHABET = 'abcxyzABCXYZ0189 .-_/:@+=,;!?*#%&()[]{}<>|"\'~^$`\\\n\t\r\0\x01\x1f\x7f\x80\xa0\xe9\xff\u0100\u0416\u05d0\u200b\u2028\u3042\ufeff\uffff\U0001f511\U0010ffff'


def text(r):
    """A string of any characters."""
    a = r.choice([ALPHABET, ALPHABET[:12], ALPHABET[:48], ' a', '\0a', '"\\', './:'])
    return ''.join(r.choice(a) for _ in range(r.choice([1, 2, 3, 5, 8, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257])))


def far(r, n=None):
    """Two long texts that differ in one character."""
    n = n or r.choice([50, 100, 128, 200, 255, 256, 257, 300, 511, 512, 600, 1023, 1024, 1500, 2048, 2100, 4096, 5000, 8192, 10000, 20000, 66000])
    a = [r.choice('abcdefgh0123./-') for _ in range(n)]
    a[0], a[-1] = 'a', 'b'
    i = min(n - 1, max(0, r.choice([n - 1, n - 1, n - 2, 0, n // 2, r.randrange(n), 2**r.randrange(20) + r.choice([-1, 0, 1])])))
    b = list(a)
    b[i] = 'Z'
    return ''.join(a), ''.join(b)


SPECIAL = [' ', '\t', '\n', '\r', '\0', '.', ',', ';', ':', '-', '_', '/', '\\', '*', '%', '#', '?', '=', '+', '~', '@', '&', '|', '"', "'", '0', '1', 'a', 'A', 's', 'S', '\x7f', '\xa0', '\u200b', '\ufeff', '\u0301', '\u00df']


def near_miss(r, s):
    """A text that differs from the given one by as little as can be."""
    k = r.randrange(13)
    i = r.randrange(len(s) + 1)
    c = r.choice(SPECIAL)
    if k == 0:
        return s + c
    if k == 1:
        return c + s
    if k == 2:
        return s[:i] + c + s[i:]
    if k == 3:
        return s[:i] + s[i + 1:]
    if k == 4:
        return s[:i] + c + s[i + 1:]
    if k == 5:
        return s[:i] + s[i:i + 1].swapcase() + s[i + 1:]
    if k == 6:
        return r.choice([s.upper(), s.lower(), s.swapcase(), s.title()])
    if k == 7:
        return s[:i] + s[i:i + 1] * 2 + s[i + 1:]
    if k == 8:
        return s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:]
    if k == 9:
        return r.choice([s + s, s[::-1], s + c + s, '"' + s + '"', '<' + s + '>', '[' + s + ']', s + c + 'x', 'x' + c + s])
    if k == 10 and i < len(s) and ord(s[i]) < 128:
        return s[:i] + r.choice(['%%%02x', '%%%02X', '\\u%04x', '&#%d;']) % ord(s[i]) + s[i + 1:]
    if k == 11:
        return s[:r.choice([1, len(s) // 2, max(0, len(s) - 1)])]
    return r.choice(['www.' + s, s + ':443', s + ':80', s + '/*', '*.' + s, '*', s + '#x', s + '?', 'user@' + s, s + '.', s + 'index.html', 'urn:' + s, s.replace('/', ''), s.split('/')[0], s.split(':')[0], s.strip('.'),
                     s.translate({0x61: 0x430, 0x65: 0x435}), s.replace('-', '_'), s.replace('P-', 'P')])


JUNK = [lambda r: Raw(r.choice(['5', '"str"', 'null', '[]', '[{}]', 'true'])),
        lambda r: {}, lambda r: {'kty': 'RSA'}, lambda r: {'kty': 'foo', 'kid': 'k1'}, lambda r: {'kty': Raw('5')},
        lambda r: jwk('rsa_e17', 'k1'), lambda r: jwk('p224_a', 'k1'), lambda r: jwk('rsa_a', 'k1', 'ES256'),
        lambda r: jwk('p256_a', 'k1', 'ES384'), lambda r: jwk('ed_a', 'k1', 'RS256'), lambda r: jwk('h_a', 'k1', 'RS256'),
        lambda r: jwk('p256_a', 'k1', x='AAAA'), lambda r: jwk('ed_a', 'k1', x='AAAA'), lambda r: jwk('h_a', 'k1', k=''),
        lambda r: jwk('h_a', 'k1', k='*'), lambda r: jwk('rsa_a', 'k1', e='*'), lambda r: jwk('rsa_a', 'k1', n='AQAB'),
        lambda r: jwk('p256_a', 'k1', y=None), lambda r: jwk('ed_a', 'k1', crv='X25519'), lambda r: jwk('p256_a', 'k1', crv='P-512'),
        lambda r: jwk('k256_a', 'k1')]


class G:
    def __init__(self, rng):
        self.r = rng
        self.ops = [dict(op='new')]
        self.n = 0

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def secrets(self, names):
        have = {o['name'] for o in self.ops if o['op'] == 'secret'}
        for n in names:
            if n in SECRETS and n not in have:
                have.add(n)
                self.ops.append(dict(op='secret', name=n, v=lat(SECRETS[n])))

    def extra_secret(self, v):
        n = self.name('x')
        self.ops.append(dict(op='secret', name=n, v=lat(v)))
        return n

    def sign(self, key, msg, alg=None, kind=None, md=None, var=''):
        self.secrets([key])
        k, m = kind_of(alg) if alg else (kind, md)
        s = self.name('s')
        o = dict(op='sign', key=key, kind=k, md=m, msg=msg, **{'as': s})
        if var:
            o['var'] = var
        self.ops.append(o)
        return s

    def neg(self, key, alg, msg, sig):
        k, m = kind_of(alg)
        s = self.name('s')
        self.ops.append(dict(op='sign', key=key, kind=k, md=m, msg=msg, of=sig, **{'as': s}))
        return s

    def parse(self, slot, text, via='parse', **kw):
        self.ops.append(dict(op='parse', slot=slot, via=via, text=text, **kw))

    def load(self, kslot, text, type='JWKS', **kw):
        self.ops.append(dict(op='load', kslot=kslot, type=type, text=text, **kw))

    def jwks(self, kslot, entries, style=0, extra=()):
        d = {'keys': entries}
        for k, v in extra:
            d[k] = v
        self.load(kslot, lat(enc(d, self.r, style)))

    def verify(self, slot, kslot, entry='sig', **kw):
        o = dict(op='verify', slot=slot, kslot=kslot, entry=entry, **kw)
        self.ops.append(o)

    def dress(self, h, c):
        """The same token with members that must not matter to a verdict."""
        r = self.r
        h, c = dict(h), dict(c) if isinstance(c, dict) else c
        for k, vs in r.sample(DRESS_H, r.choice([0, 1, 1, 2, 4])):
            h.setdefault(k, Raw('null') if (v := r.choice(vs)) is None else v)
        if r.random() < 0.1:
            h.setdefault('jwk', jwk(r.choice(ALLKEYS), r.choice([None, 'k1'])))
        if r.random() < 0.1:
            h.setdefault('x5c', ['AAAA'])
        if isinstance(c, dict):
            for k, vs in r.sample(DRESS_C, r.choice([0, 1, 1, 2, 4])):
                v = r.choice(vs)
                if v is not None:
                    c.setdefault(k, v)
            if r.random() < 0.5:
                c.setdefault('iat', r.choice(IATS + [c[k] + r.choice([-61, -1, 0, 1, 60, 61]) for k in ('nbf', 'exp') if type(c.get(k)) is int and c[k] > 61]))
            if r.random() < 0.3:
                c = dict(r.sample(list(c.items()), len(c)))
        return h, c

    def token(self, slot, alg, key, kid=None, claims=None, header=None, sig=None, style=0, sigalg=None, mut=None, how=None,
              encsig='b64', var=''):
        """Signs and parses a token; returns (message, signature name)."""
        h = {'alg': alg}
        if kid is not None:
            h['kid'] = kid
        if header:
            h.update(header)
        c = claims if claims is not None else {'iss': self.r.choice(['i', 'https://issuer', '']), 'n': self.r.randrange(1000000)}
        if self.r.random() < 0.35:
            h, c = self.dress(h, c)
        if self.r.random() < 0.3:
            h = dict(self.r.sample(list(h.items()), len(h)))
        msg = b64u(enc(h, self.r, style)) + '.' + b64u(enc(c, self.r, style))
        if sig is None:
            if how:
                sig = self.sign(key, msg, kind=how[0], md=how[1], var=var)
            else:
                sig = self.sign(key, msg, sigalg or alg, var=var)
        part = {'sig': sig, 'enc': encsig}
        if mut:
            part['mut'] = mut
        self.parse(slot, [msg + '.', part])
        return msg, sig


def mutation(r, alg):
    m = r.choice(['flip', 'flip', 'flip', 'flip', 'top', 'more', 'more', 'long', 'cut', 'app', 'pre', 'zero', 'set', 'rev', 'head', 'halves', 'wide', 'narrow', 'der', 'hex', 'HEX', 'text', 'dup', 'not', 'pairs'])
    if m == 'pairs':
        return [[m, r.choice([2, 4, 8, 16, 32])]]
    if m == 'top':
        # the first or last byte of a number: bits that count for nothing, or for a sign
        size = {'ES256': 64, 'ES384': 96, 'ES512': 132, 'EdDSA': 64}.get(alg, int(alg[2:]) // 8 if alg[:2] == 'HS' else 256)
        return [['flip', 8 * r.choice([0, size // 2 - 1, size // 2, size - 1]) + r.choice([0, 5, 6, 7, 7])]]
    if m == 'more':
        return [[m, r.choice([0, 1, 2, 3, 20, 31])]]
    if m == 'long':
        n = r.choice([200, 260, 520, 1100, 2100, 3000, 5000, 9000, 20000, 70000])
        return [[r.choice(['app', 'app', 'pre', 'set']), r.choice(['\0', 'x', '\xff']) * n]]
    if m == 'flip':
        return [['flip', r.choice([0, 7, 8, r.randrange(4096), r.randrange(512), r.randrange(512)])]]
    if m in ('cut', 'head'):
        return [[m, r.choice([1, 1, 2, 8, 16, 31, 32, 33, 63, 64, 100])]]
    if m in ('app', 'pre'):
        return [[m, r.choice(['\0', '\0\0', 'a', 'abcd', '\xff' * 8, '\0' * 32, '\0' * 64])]]
    if m == 'set':
        return [['set', r.choice(['a', '\0' * 64, '\0' * 32, '\xff' * 64, '\0' * 63 + '\1', '\1' * 256, '\0' * 256, 'x' * 65, '\0', '\0' * 96, '\0' * 132, '\0' * 31 + '\1' + '\0' * 31 + '\1'])]]
    if m in ('wide', 'narrow', 'halves', 'der'):
        if alg[0] != 'E' or alg == 'EdDSA':
            return [['flip', r.randrange(2048)]]
        return [[m, r.choice([1, 1, 2, 16])]] if m in ('wide', 'narrow') else [[m]]
    return [[m]]


def random_entry(r, name, kids, keep_alg=0.5):
    kid = r.choice([None, None] + kids)
    f = fam(name)
    al = algs_of(name)
    alg = r.choice(al + [None]) if al and r.random() < keep_alg else None
    e = jwk(name, kid, alg, crv=not (alg and r.random() < 0.4) and not (KEYS.get(name, {}).get('crv') == 'P-256' and r.random() < 0.2))
    return dress_key(r, e) if r.random() < 0.35 else e


def dress_key(r, e):
    """The same key with members that must not matter."""
    e = dict(e)
    own = READS.get(e.get('kty'), 'n e x y crv k').split()
    for n, vs in r.sample(DRESS_K, r.choice([1, 1, 2, 3, 6])):
        if n not in own:
            e.setdefault(n, r.choice(vs))
    return dict(r.sample(list(e.items()), len(e))) if r.random() < 0.4 else e


ALLKEYS = RSA_KEYS + sum(EC_KEYS.values(), []) + ED_KEYS + list(SECRETS)


def seg_verify(r, big=False):
    """Tokens and key sets in every relation: kid, alg, family, order, size."""
    g = G(r)
    kids = r.sample(KIDS, r.choice([1, 2, 3]))
    algs = [r.choice(ALGS) for _ in range(2)]
    nt = 0
    pool = []
    for alg in algs:
        for _ in range(r.choice([1, 2])):
            key = r.choice(signers(alg))
            pool.append((alg, key))
            kid = r.choice([None] + kids)
            mut = mutation(r, alg) if r.random() < 0.25 else None
            var = ''
            if r.random() < 0.15:
                var = r.choice(['zr', 'zs']) if alg in ('ES256', 'ES512') else 'zr' if alg[:2] == 'PS' and key != 'rsa_f' else ''
            g.token(nt, alg, key, kid, mut=mut, style=r.randrange(12), var=var, encsig=r.choice(['b64', 'b64', 'b64', 'pad', 'tail']))
            nt += 1
    nk = r.choice([2, 3, 4])
    for ks in range(nk):
        n = r.choice([1, 1, 2, 3, 5, 8]) if not big else r.choice([15, 17, 24, 33, 40, 70])
        es = []
        for _ in range(n):
            name = r.choice([k for _, k in pool]) if r.random() < 0.3 else r.choice(ALLKEYS)
            es.append(r.choice(JUNK)(r) if r.random() < 0.12 else random_entry(r, name, kids))
        if big and r.random() < 0.8:
            # the right key alone, at a chosen place
            alg, key = r.choice(pool)
            es = [e for e in es if not isinstance(e, dict) or all(e.get(m) != jwk(key).get(m) for m in ('n', 'k', 'x'))]
            es.insert(r.choice([0, len(es) // 2, len(es), r.randrange(len(es) + 1)]), jwk(key, r.choice([None] + kids)))
        g.jwks(ks, es, r.randrange(12))
    for t in range(nt):
        for ks in range(nk):
            g.verify(t, ks, 'sig', rep=r.choice([0, 1]), dirty=int(r.random() < 0.15))
    return g.ops


def sized_token(r, alg, size, kid=None):
    """header.payload of exactly the given length (a few more if impossible);
    returns (header, payload, index of the filler in the payload text)."""
    h = {'alg': alg}
    if kid:
        h['kid'] = kid
    for extra in range(4):
        hh = b64u(enc(h) + b' ' * extra)
        for n in range(max(0, (size - len(hh) - 1) * 3 // 4 - 12), max(0, (size - len(hh) - 1) * 3 // 4 + 1)):
            pp = b64u(b'{"f":"' + b'x' * n + b'"}')
            if len(hh) + 1 + len(pp) == size:
                return hh, pp
    return hh, b64u(b'{"f":"xxxx"}')


SIZES = [55, 56, 63, 64, 65, 111, 112, 119, 120, 127, 128, 129, 191, 192, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 4095, 4096, 4097, 8191, 8192, 8193,
         16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131072]


def seg_long(r, turn=None):
    """Signing inputs of critical lengths: all of it counts, to the last byte.
    turn counts the segments of a run: 60 of them go through every family of
    algorithms with every size."""
    g = G(r)
    turn = r.randrange(60) if turn is None else turn
    fams = ['ES', 'RS', 'PS', 'HS', 'Ed']
    alg = r.choice([a for a in ALGS if a[:2] == fams[turn % 5]])
    key = r.choice(signers(alg))
    at = turn // 5 % 12
    n = 0
    for size in SIZES[at::12]:
        hh, pp = sized_token(r, alg, size)
        m = hh + '.' + pp
        s = g.sign(key, m, alg)
        g.parse(n, [m + '.', {'sig': s}])
        n += 1
        # signed for a part of it only: without its last block, for one
        blocks = [b for b in (16, 64, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16384, 32768, 65536) if b < len(m)]
        cuts = {(len(m) - 1) // blocks[-1] * blocks[-1]} if blocks else set()
        more = {len(m) - 1, len(m) // 2, len(hh), len(hh) + 1}
        for b in blocks:
            more |= {len(m) // b * b, (len(m) - 1) // b * b, b}
        cuts |= set(r.sample(sorted(more), min(3, len(more))))
        for c in sorted(cuts):
            if c < len(m):
                s2 = g.sign(key, m[:c] if r.random() < 0.7 else m[-c:] if c else '', alg)
                g.parse(n, [m + '.', {'sig': s2}])
                n += 1
        # another character at one place
        if len(pp) > 24:
            lo, hi = 8, len(pp) - 4
            spots = {lo, len(pp) // 2, r.randrange(lo, len(pp) - 8)}
            for b in r.sample(blocks, min(3, len(blocks))) + blocks[-1:]:
                spots |= {b - len(hh) - 1, b - len(hh) - 2, len(pp) - b + 4}
            for at2 in [len(pp) - 12] + sorted(x for x in spots if lo <= x < hi - 4):
                p2 = pp[:at2] + ('B' if pp[at2] != 'B' else 'C') + pp[at2 + 1:]
                g.parse(n, [hh + '.' + p2 + '.', {'sig': s}])
                n += 1
    g.jwks(0, [jwk(key)])
    for t in range(n):
        g.verify(t, 0, 'sig', rep=0)
    return g.ops


def seg_crowd(r):
    """Very many keys; the right one anywhere, last for preference."""
    g = G(r)
    n = r.choice([100, 130, 200, 260, 300, 520, 1100 if r.random() < 0.6 else 2200])
    alg = r.choice(ALGS)
    key = r.choice(signers(alg))
    kid = r.choice([None, 'k1'])
    g.token(0, alg, key, kid)
    g.token(1, alg, key, kid, mut=[['flip', r.randrange(200)]])
    cheap = alg[0] == 'H' or n > 600 or r.random() < 0.5
    es = []
    for i in range(n):
        k = r.random()
        if k < 0.04:
            es.append(r.choice(JUNK)(r))
        elif cheap or k < 0.6:
            es.append({'kty': 'oct', 'k': b64u(b'filler %d' % i), **({'kid': r.choice(['k1', 'k2', 'k%d' % i])} if r.random() < 0.5 else {})})
        else:
            nm = r.choice([x for x in ALLKEYS if x != key])
            es.append(jwk(nm, r.choice([None, 'k1', 'k%d' % i])))
    at = r.choice([n, n, n, 0, n // 2, r.randrange(n)])
    es.insert(at, jwk(key, r.choice([None, 'k1'])))
    g.jwks(0, es)
    es.pop(at)
    g.jwks(1, es)
    for t in (0, 1):
        for k in (0, 1):
            g.verify(t, k, 'sig', rep=0)
    return g.ops


def seg_craft(r):
    """Genuine signatures with unusual numbers: leading zero bytes, tiny and
    huge values; and the same ones bent."""
    g = G(r)
    n = 0
    ks = []
    for c in r.sample(FIX['crafted'], 4):
        s = g.name('s')
        g.ops.append(dict(op='sign', given=c['sig'], crv=c['crv'], x=c['x'], y=c['y'], md=c['alg'][2:], msg=c['msg'], **{'as': s}))
        e = {'kty': 'EC', 'crv': c['crv'], 'x': c['x'], 'y': c['y']}
        if r.random() < 0.5:
            e['alg'] = c['alg']
        ks.append(e)
        g.parse(n, [c['msg'] + '.', {'sig': s}])
        n += 1
        for _ in range(2):
            g.parse(n, [c['msg'] + '.', {'sig': s, 'mut': mutation(r, c['alg'])}])
            n += 1
        # r and s without their leading zero bytes
        b = c['sig'].encode('latin1')
        h = len(b) // 2
        short = b[:h].lstrip(b'\0') + b[h:].lstrip(b'\0')
        if short != b:
            g.parse(n, [c['msg'] + '.', {'b64': lat(short)}])
            n += 1
    for z in r.sample(FIX['zero'], 3):
        s = g.sign(z['key'], z['msg'], z['alg'])
        g.parse(n, [z['msg'] + '.', {'sig': s}])
        n += 1
        for m in ([['head', 1]], [['cut', 1]], [['pre', '\0']], [['head', 1], ['app', '\0']]):
            g.parse(n, [z['msg'] + '.', {'sig': s, 'mut': m}])
            n += 1
        ks.append(jwk(z['key']))
    # MACs that begin with, end with or contain zero bytes
    for alg in r.sample(['HS256', 'HS384', 'HS512'], 2):
        key = r.choice(['h_a', 'h_32', 'h_bin', 'h_200'])
        want = r.choice([0, -1, 1, 16, 0])
        for i in range(20000):
            m = b64u(enc({'alg': alg})) + '.' + b64u(b'{"n":%d}' % i)
            mac = hmac.new(SECRETS[key], m.encode(), 'sha' + alg[2:]).digest()
            if mac[want] == 0:
                break
        s = g.sign(key, m, alg)
        g.parse(n, [m + '.', {'sig': s}])
        n += 1
        for mu in ([['head', 1]], [['cut', 1]], [['flip', 8 * (len(mac) - 1)]], [['flip', 8 * ((want + 1) % len(mac)) + 3]]):
            g.parse(n, [m + '.', {'sig': s, 'mut': mu}])
            n += 1
        ks.append(jwk(key))
    r.shuffle(ks)
    g.jwks(0, ks)
    for t in range(n):
        g.verify(t, 0, 'sig', rep=0)
    return g.ops


def seg_alg(r):
    """Everything that is not the declared algorithm: other digests, padding,
    curves, key types, MACs keyed with public keys; keys without kid or alg."""
    g = G(r)
    alg = r.choice(ALGS)
    f = {'R': 'RSA', 'P': 'RSA', 'E': 'EC', 'H': 'oct'}[alg[0]] if alg != 'EdDSA' else 'OKP'
    key = r.choice(signers(alg))
    toks = []
    ways = [None]
    if f == 'RSA':
        key = r.choice(RSA_KEYS)
        ways += [('pkcs1', m) for m in ('1', '224', '256', '384', '512')] + [('pss', m) for m in ('256', '384', '512')]
        ways += [('pss', alg[2:], 'mgf1:' + m) for m in ('1', '256', '384', '512') if m != alg[2:]]
    elif f == 'EC':
        ways += [('ecdsa', m) for m in ('1', '224', '256', '384', '512')]
        key = r.choice([k for v in EC_KEYS.values() for k in v] + ['p224_a'])
    elif f == 'oct':
        ways += [('hmac', m) for m in ('1', '224', '256', '384', '512')]
    keys = [key]
    n = 0
    pick = ways if len(ways) < 4 else r.sample(ways, 4)
    for w in pick:
        kw = {}
        if w:
            kw = dict(how=w[:2], var=w[2] if len(w) > 2 else '')
            if w[0] == 'pss' and key == 'rsa_d' and w[1] == '512':
                continue
        if w is None and key not in signers(alg):
            continue
        g.token(n, alg, key, **kw)
        n += 1
    # a key of another family signing in its own way under this alg
    other = r.choice([k for k in ALLKEYS if fam(k) != f])
    keys.append(other)
    oa = r.choice(algs_of(other))
    g.token(n, alg, other, how=kind_of(oa))
    n += 1
    if alg[0] == 'H':
        pk = r.choice(RSA_KEYS + ['p256_a', 'ed_a'])
        pub = KEYS[pk]['pub'].encode()
        for v in r.sample([pub, pub.strip(), base64.b64decode(''.join(pub.decode().splitlines()[1:-1])), ub64(KEYS[pk].get('n') or KEYS[pk]['x']),
                           (KEYS[pk].get('n') or KEYS[pk]['x']).encode(), b''], 3):
            x = g.extra_secret(v)
            g.token(n, alg, x)
            n += 1
        keys.append(pk)
    if alg == 'EdDSA':
        for mut in r.sample([[['cut', 1]], [['app', 'a']], [['set', 'a']], [['cut', 63]], [['flip', 3]], [['app', '\0' * 64]]], 3):
            g.token(n, alg, key, mut=mut)
            n += 1
    else:
        g.token(n, alg, keys[0] if keys[0] in signers(alg) else r.choice(signers(alg)), mut=[['set', r.choice(['a', '\0' * 64, '\0' * 63])]])
        n += 1
    # sets without kid and alg: the token's alg alone must select
    fit = [k for k in keys if k not in ('p224_a', 'rsa_d')]
    sets = [fit, fit[::-1], r.sample(ALLKEYS, 6) + fit, ED_KEYS[:1] + fit, ['h_a', 'ed_b', 'p384_a', 'rsa_b', 'p521_a', 'p256_b']]
    for i, s in enumerate(r.sample(sets, 3)):
        g.jwks(i, [jwk(k) for k in s])
    ks = 3
    if key in KEYS:
        g.load(3, KEYS[key]['pub'], 'PEM')
        g.load(4, KEYS[key]['pub'], 'FROMPEM', kid='', alg=r.choice([alg, alg, '', r.choice(ALGS)]))
        ks = 5
    if other in KEYS:
        g.load(ks, KEYS[other]['pub'], 'FROMPEM', kid='', alg=alg)
        ks += 1
    for t in range(n):
        for k in range(ks):
            g.verify(t, k, 'sig')
    return g.ops


def seg_odd(r):
    """Keys of every sort, as PEM and as JWK, against tokens of every sort."""
    g = G(r)
    algs = ['ES256', 'ES384', 'ES512', r.choice(ALGS[:3]), r.choice(ALGS[3:6]), r.choice(ALGS[9:12]), 'EdDSA']
    for t, a in enumerate(algs):
        g.token(t, a, r.choice(signers(a)))
    n = len(algs)
    for name in ['p224_a'] * (r.random() < 0.5) + ['k256_a'] * (r.random() < 0.3) + r.sample(sum(EC_KEYS.values(), []), 1):
        a = r.choice(['ES256', 'ES384', 'ES512'])
        if name != 'k256_a':
            g.token(n, a, name, how=('ecdsa', a[2:]))
        else:
            g.token(n, a, r.choice(signers(a)), mut=[['cut', r.choice([1, 8, 64])]])
        n += 1
    k = 0
    for name in r.sample(list(KEYS), 9) + ['p224_a', 'k256_a', 'rsa_e17', 'rsa_d']:
        kind = r.choice(['PEM', 'FROMPEM', 'FROMPEM', 'add', 'JWK'])
        alg = r.choice(['', '', r.choice(ALGS), r.choice(algs)])
        if kind == 'JWK':
            g.jwks(k, [jwk(name, None, alg or None)])
        elif kind == 'add':
            g.load(k, KEYS[r.choice(list(KEYS))]['pub'], 'PEM', kid='', alg='')
            g.ops.append(dict(op='addpem', kslot=k, text=KEYS[name]['pub'], kid='', alg=alg))
        else:
            g.load(k, KEYS[name]['pub'], kind, kid='', alg=alg)
        k += 1
    for p in PEMS:
        g.load(k, PEMS[p], 'FROMPEM', kid='', alg='')
        k += 1
    for t in range(n):
        for x in range(k):
            g.verify(t, x, r.choice(['sig', 'sig', 'now']), now='5', rep=0)
    return g.ops


def alike_alg(r, alg):
    return lat(r.choice([alg + r.choice(SPECIAL), alg + '-old', alg[:-1], alg[:2], alg.lower(), ' ' + alg, alg + alg, alg[1:], near_miss(r, alg), alg[:2] + alg[2:] * 2]).encode())


HUNTS = [[[0, '\0']], [[-1, '\0']], [[1, '\0']], [[0, ' \n\t\r\x0b\x0c']], [[-1, ' \n\t\r\x0b\x0c']], [[0, '\0'], [-1, '\0\1\2\3\4\5\6\7\x08\t\n\x0b\x0c\r\x0e\x0f']],
         [[2, '\0']], [[10, '\0']], [[16, '\0']], [[31, '\0']], [[32, '\0']], [[-2, '\0']], [[-32, '\0']], [[-33, '\0']], [[0, '\xff']], [[-1, '\xff']], [[0, '\x80']], [[0, '0']], [[0, '{']],
         [[0, '\xf8\xf9\xfa\xfb'], [1, '\xe0\xe1\xe2\xe3\xe4\xe5\xe6\xe7\xe8\xe9\xea\xeb\xec\xed\xee\xef']], [[0, '\xfc\xfd\xfe\xff'], [1, '\xf0\xf1\xf2\xf3\xf4\xf5\xf6\xf7\xf8\xf9\xfa\xfb\xfc\xfd\xfe\xff']]]


def seg_hunt(r):
    """Genuine signatures that look special, and what can be made of them."""
    g = G(r)
    of = r.choice(['RS', 'PS', 'ES', 'ES', 'HS', 'HS', 'Ed', 'Ed'])
    alg = r.choice([a for a in ALGS if a[:2] == of])
    keys = [k for k in signers(alg) if k != 'rsa_f']
    key, other = r.sample(keys, 2)
    g.secrets([key, other])
    n = 0
    kind, md = kind_of(alg)
    for hunt in r.sample(HUNTS, 2):
        s = g.name('s')
        g.ops.append(dict(op='sign', key=key, kind=kind, md=md, msg=b64u(enc({'alg': alg})) + '.', hunt=hunt, **{'from': r.randrange(10**6), 'as': s}))
        at = hunt[0][0]
        size = {'ES256': 64, 'ES384': 96, 'ES512': 132, 'EdDSA': 64}.get(alg, int(alg[2:]) // 8 if alg[:2] == 'HS' else 256)
        at = at if at >= 0 else size + at
        muts = [[['cut', 1]], [['head', 1]], [['cut', size - at]], [['cut', max(1, size - at - 1)]], [['head', at + 1]], [['app', hunt[0][1][:1]]], [['pre', hunt[0][1][:1]]],
                [['flip', 8 * ((at + 1) % size)]], [['flip', 8 * size - 1]], [['flip', 8 * min(size - 1, at + r.choice([1, 2, 8])) + 3]], [['rev']], [['zero']]]
        for mut in [None, None] + r.sample(muts, 7):
            part = {'sig': s}
            if mut:
                part['mut'] = mut
            elif n:
                part['enc'] = r.choice(['b64', 'pad', 'tail'])
            g.parse(n, [{'msg': s}, '.', part])
            n += 1
    g.jwks(0, [jwk(key)])
    g.jwks(1, [jwk(other), jwk(key)])
    g.jwks(2, [jwk(other)])
    for t in range(n):
        for k in range(3):
            g.verify(t, k, 'sig')
    return g.ops


def seg_kid(r):
    """Key ids alike but not equal; the same key under several ids."""
    g = G(r)
    alg = r.choice(ALGS)
    key, wrong = r.choice(signers(alg)), r.choice(signers(alg))
    while fam(wrong) != fam(key) or wrong == key:
        wrong = r.choice(signers(alg))
    group = r.choice([['k1', 'K1', 'k', 'k11', ' k1', 'k1 ', 'k1\n'], ['x' * 80, 'x' * 80 + '1', 'x' * 80 + '2'], ['x' * 300, 'x' * 300 + 'y', 'x' * 299],
                      ['k\x001', 'k\x002', 'k', 'k\x00'], KIDS[-2:] + [KIDS[-1][:-1]], ['1', '01', '1.0', ''], ['caf\u00e9', 'cafe\u0301', 'cafe', 'CAF\u00c9'], r.sample(KIDS, 5)])
    n = 0
    if r.random() < 0.5:
        base = r.choice(['k1', '2023-key', '62a93512', 'Key.A', 'caf\u00e9'])
        group = [base] + [near_miss(r, base) for _ in range(5)]
    for kid in r.sample(group, min(3, len(group))) + [None, '']:
        g.token(n, alg, key, kid)
        n += 1
    others = [a for a in ALGS if a != alg]
    mine = [a for a in algs_of(key) if a != alg] or [alg]
    ks = 0
    for _ in range(4):
        es = []
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.choice([key, key, wrong])
            e = jwk(k, r.choice(group + [None, '']), r.choice([None, alg, r.choice(mine), alike_alg(r, alg)]))
            if r.random() < 0.15:
                e['kid'] = Raw(r.choice(['5', 'null', '["k1"]']))
            if r.random() < 0.1:
                e['alg'] = Raw(r.choice(['5', 'null', '""']))
            es.append(e)
        g.jwks(ks, es)
        ks += 1
    if key in KEYS:
        g.load(ks, KEYS[key]['pub'], 'FROMPEM', kid=lat(r.choice(group).encode()), alg=r.choice([alg, '', r.choice(others), alike_alg(r, alg)]))
        for _ in range(2):
            g.ops.append(dict(op='addpem', kslot=ks, text=KEYS[r.choice([key, wrong])]['pub'], kid=lat(r.choice(group + ['']).encode()),
                              alg=r.choice([alg, '', r.choice(others), alike_alg(r, alg)])))
        ks += 1
        # one with nearly the name of the algorithm, alone
        g.load(ks, KEYS[key]['pub'], 'FROMPEM', kid='', alg=alike_alg(r, alg))
        ks += 1
    if KEYS.get(key, {}).get('certs'):
        g.load(ks, lat(enc({k: KEYS[key]['certs'][0] for k in group if k})))
        ks += 1
    for t in range(n):
        for k in range(ks):
            g.verify(t, k, 'sig')
    return g.ops


def seg_sound(r):
    """Wrong signatures of every kind, with the right key present."""
    g = G(r)
    alg = r.choice(ALGS)
    key, other = r.sample(signers(alg), 2)
    m1, s1 = g.token(0, alg, key)
    m2, s2 = g.token(1, alg, key)
    m3, s3 = g.token(2, alg, other)
    n = 3
    # signatures of other messages and other keys
    for m, s in ((m1, s2), (m2, s1), (m1, s3)):
        g.parse(n, [m + '.', {'sig': s}])
        n += 1
    for _ in range(8):
        g.parse(n, [m1 + '.', {'sig': s1, 'mut': mutation(r, alg) + (mutation(r, alg) if r.random() < 0.2 else [])}])
        n += 1
    g.parse(n, [m1 + '.', {'b64': r.choice(['\0', ' ', m1, '\0' * 32])}])
    n += 1
    h, p = m1.split('.')
    # made without a key, or of something else
    md = 'sha' + (alg[2:] if alg != 'EdDSA' else '512')
    for w in r.sample(['digest', 'digest2', 'hex', 'payload', 'header', 'decoded', 'swapped', 'again', 'nodot', 'mdmsg', 'selfkey', 'emptykey', 'lower', 'kid', 'dot'], 4):
        mb = m1.encode()
        raw = hashlib.new(md, mb).digest()
        if w == 'digest':
            g.parse(n, [m1 + '.', {'b64': lat(raw)}])
        elif w == 'digest2':
            g.parse(n, [m1 + '.', {'b64': lat(hashlib.new(md, raw).digest())}])
        elif w == 'hex':
            g.parse(n, [m1 + '.', {'b64': raw.hex()}])
        elif w in ('selfkey', 'emptykey'):
            g.parse(n, [m1 + '.', {'b64': lat(hmac.new(mb if w == 'selfkey' else b'', mb, md).digest())}])
        elif w == 'again':
            g.parse(n, [m1 + '.', {'sig': s1}, '.', {'sig': s1}])
        else:
            try:
                m = {'payload': p, 'header': h, 'decoded': lat(ub64(h) + b'.' + ub64(p)), 'swapped': p + '.' + h, 'nodot': h + p, 'mdmsg': lat(raw), 'lower': m1.lower(), 'kid': h + '.', 'dot': m1 + '.'}[w]
                g.parse(n, [m1 + '.', {'sig': g.sign(key, m, alg)}])
            except ValueError:
                continue
        n += 1
    h2, p2 = m2.split('.')
    for t in (h2 + 'A.' + p, h + '.' + p2, h + '.' + p + 'AAAA', p + '.' + h, h + '.' + p[:-1], h + '=.' + p, h + '.' + p + ' ', ' ' + h + '.' + p):
        if r.random() < 0.6:
            g.parse(n, [t + '.', {'sig': s1}])
            n += 1
    if alg[0] == 'E' and alg != 'EdDSA':
        s4 = g.neg(key, alg, m1, s1)
        g.parse(n, [m1 + '.', {'sig': s4}])
        n += 1
    g.jwks(0, [jwk(key)])
    g.jwks(1, [jwk(other), jwk(key)])
    g.jwks(2, [jwk(other)])
    g.jwks(3, [jwk(k) for k in r.sample(ALLKEYS, 8)])
    for t in range(n):
        for k in (0, 1, 2, 3):
            if t < 3 or k in (0, 1) or r.random() < 0.3:
                g.verify(t, k, 'sig')
        if r.random() < 0.2:
            g.verify(t, 1, 'now', now='1700000000')
    return g.ops


U64 = [0, 1, 2, 59, 60, 61, 119, 120, 121, 1700000000, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**53, 2**53 + 1, 2**63 - 61, 2**63 - 60, 2**63 - 1,
       2**63, 2**63 + 1, 2**63 + 60, 2**64 - 122, 2**64 - 121, 2**64 - 120, 2**64 - 62, 2**64 - 61, 2**64 - 60, 2**64 - 59, 2**64 - 2, 2**64 - 1]


def near(r, v):
    return max(0, min(2**64 - 1, v + r.choice([-61, -60, -59, -2, -1, 0, 0, 1, 2, 59, 60, 61])))


def seg_time(r):
    """Limits, times and skews over all 64-bit words."""
    g = G(r)
    for slot in range(3):
        if r.random() < 0.5:
            nbf, exp = r.choice(U64 + [0] * 10), r.choice(U64 + [0] * 10)
            if r.random() < 0.3:
                nbf, exp = r.randrange(2**64), r.randrange(2**64)
            if r.random() < 0.3:
                exp = near(r, nbf)
            g.ops.append(dict(op='setf', slot=slot, nbf=str(nbf), exp=str(exp)))
        else:
            c = {}
            nbf = exp = 0
            if r.random() < 0.6:
                t = r.choice(['0', '1', '100', '1700000000', '1700000000.9', '4294967296', '9007199254740991', '18446744073709549568', '61', '60'])
                c['nbf'] = Raw(t)
                nbf = int(float(t))
            if r.random() < 0.6:
                t = r.choice(['0', '1', '100', '1700000000', '1700000000.9', '4294967296', '9007199254740991', '18446744073709549568', '0.5', '61'])
                c['exp'] = Raw(t)
                exp = int(float(t))
            g.token(slot, 'HS256', 'h_a', claims=c)
        for _ in range(12):
            k = r.random()
            if k < 0.5:
                now = near(r, r.choice([nbf, exp, exp]))
                skew = r.choice([0, 1, 60, 59, 61, abs(now - nbf), abs(now - exp), abs(now - exp) + 1, max(0, abs(now - exp) - 1), max(0, abs(nbf - now) - 1), 2**64 - 1])
            elif k < 0.8:
                now, skew = r.choice(U64), r.choice(U64)
            else:
                now, skew = r.randrange(2**64), r.randrange(2**64)
            o = dict(op='time', slot=slot, now=str(now), skew=str(min(skew, 2**64 - 1)))
            if r.random() < 0.35:
                d = r.choice([-61, -60, -59, 59, 60, 61])
                o = dict(op='time', slot=slot, now=str(max(0, min(2**64 - 1, r.choice([nbf, exp]) + d))))
            g.ops.append(o)
    return g.ops


AUDBASE = ['example.com', 'a', '', 'x/y', 'EXAMPLE.com', 'example.com:443', 'b', 'http', 'foo.bar/path?q=1', '*', 'example', 'ample.com', 'example.com ', '\u00e9', 'a,b']
PRE = ['', '', 'http://', 'https://', 'HTTP://', 'https:/', 'http:', 'http://http://', 'https://http://', 'http://https://', 'ftp://', 'https//', ' http://', 'htTps://', 'x://', '//', 'httpss://', 'http:///']
POST = ['', '', '/', '//', '/ ', '\\', '///', '/a', '/a/', '%2F', '/\n']


def aud_str(r):
    if r.random() < 0.15:
        return r.choice(PRE[:5]) + near_miss(r, r.choice(AUDBASE)) + r.choice(POST[:4])
    if r.random() < 0.05:
        return r.choice(['/', '//', 'http://', 'https://', 'http:///', 'https:///', 'http://https://', 'https:////', 'h', 'http:/', 'https:/', '', ' ', '\0', '/\0'])
    if r.random() < 0.03:
        return r.choice(PRE) + 'z' * r.choice([50, 200, 1000]) + r.choice(POST)
    return r.choice(PRE) + r.choice(AUDBASE) + r.choice(POST)


def aud_list(r, n=None):
    return [lat(aud_str(r).encode()) for _ in range(r.choice([0, 1, 1, 1, 2, 3, 5, 12, 40, 70, 140]) if n is None else n)]


def seg_aud(r):
    g = G(r)
    for _ in range(6):
        base = r.choice(AUDBASE)
        cfg = aud_list(r)
        if r.random() < 0.6:
            cfg = cfg[:2] + [lat((r.choice(PRE[:6]) + base + r.choice(POST[:5])).encode())]
            r.shuffle(cfg)
        qs = []
        for _ in range(5):
            a = aud_list(r)
            if r.random() < 0.6:
                a.insert(r.randrange(len(a) + 1), lat((r.choice(PRE[:8]) + base + r.choice(POST[:5])).encode()))
            qs.append(a)
        for _ in range(4):
            c = r.choice(cfg) if cfg else ''
            if len(c) > 3000:
                continue
            try:
                qs.append([lat(near_miss(r, c.encode('latin1').decode()).encode())])
            except UnicodeDecodeError:
                pass
        if r.random() < 0.4:
            a, b = far(r)
            s, t = r.choice(PRE[:4]), r.choice(POST[:3])
            cfg.append(lat((s + a + t).encode()))
            qs += [[lat((r.choice(PRE[:4]) + x + r.choice(POST[:3])).encode())] for x in (a, b)]
        qs.append([])
        if r.random() < 0.03:
            # very many, and the one that counts among the last
            for i in range(2):
                n = r.choice([258, 300, 520, 1030, 1300])
                big = ['%s%d' % (r.choice(['ab', 'de'][i]), k) for k in range(n)]
                at = n - r.choice([0, 0, 1, 100])
                if i:
                    qs += [big[:at] + [lat((r.choice(PRE[:4]) + base + r.choice(POST[:3])).encode())] + big[at:], big]
                else:
                    cfg = big[:at] + cfg + big[at:]
                    qs += [[big[-1]], [big[at - 1]], [big[0]], ['c0']]
        g.ops.append(dict(op='aud', cfg=cfg, qs=qs))
    return g.ops


def seg_compose(r):
    """All entry points over tokens that pass or fail each of the checks."""
    g = G(r)
    alg = r.choice(ALGS)
    key, other = r.sample(signers(alg), 2)
    base = r.choice(['example.com', 'a', 'svc/x', 'b c'])
    n = 0
    toks = []
    for _ in range(4):
        T = r.choice([1700000000, 1000, 61, 2**32, 5, 2**53])
        c = {}
        if r.random() < 0.7:
            c['nbf'] = max(0, T + r.choice([-1000, -60, 0, 60, 1000]))
        if r.random() < 0.7:
            c['exp'] = max(0, T + r.choice([-1000, -60, 0, 60, 1000, 1]))
        if r.random() < 0.8:
            a = [aud_str(r) for _ in range(r.choice([0, 1, 2, 4]))]
            if r.random() < 0.7:
                a.append(r.choice(PRE[:5]) + base + r.choice(POST[:4]))
            r.shuffle(a)
            c['aud'] = a if len(a) != 1 or r.random() < 0.5 else a[0]
        g.token(n, alg, key, claims=c, mut=mutation(r, alg) if r.random() < 0.25 else None)
        if r.random() < 0.1:
            g.ops.append(dict(op='setf', slot=n, nbf=str(near(r, r.choice(U64))), exp=str(near(r, r.choice(U64)))))
        toks.append((T, c))
        n += 1
    g.jwks(0, [jwk(key)])
    g.jwks(1, [jwk(other), jwk(key, None, alg)])
    g.jwks(2, [jwk(other)])
    g.jwks(3, [jwk(key, 'kk', [a for a in ALGS if a in algs_of(key)][0])])
    for t, (T, c) in enumerate(toks):
        for _ in range(9):
            ref = r.choice([T, c.get('exp', T), c.get('nbf', T)])
            now = max(0, ref + r.choice([-10**6, -61, -60, -59, -1, 0, 1, 59, 60, 61, 10**6]))
            e = r.choice(['sig', 'wall', 'now', 'nowskew', 'audwall', 'audnow', 'audnow', 'audwall', 'nowskew'])
            kw = {}
            if 'wall' in e:
                if now > 2**33:
                    now = 1700000000
                kw['wall'] = [str(now), r.choice([0, 1, 500000000, 999999999])]
            elif e != 'sig':
                kw['now'] = str(now)
            if e == 'nowskew':
                kw['skew'] = str(r.choice([0, 1, 59, 60, 61, 1000, 2**64 - 1, abs(now - c.get('exp', 0)), max(0, abs(now - c.get('exp', 0)) - 1)]))
            if e.startswith('aud'):
                a = aud_list(r, r.choice([0, 0, 1, 2]))
                if r.random() < 0.6:
                    a.append(lat((r.choice(PRE[:5]) + base + r.choice(POST[:4])).encode()))
                r.shuffle(a)
                kw['auds'] = a
            g.verify(t, r.choice([0, 0, 1, 2, 3]), e, rep=0, **kw)
    return g.ops


def claims_ok(r):
    c = {}
    for k in ('iss', 'sub', 'jti'):
        if r.random() < 0.6:
            c[k] = r.choice(STRINGS) if r.random() < 0.7 else text(r)
    for k in ('iat', 'nbf', 'exp'):
        if r.random() < 0.6:
            x = number(r)
            while not 0 <= float(x) < 2**64:
                x = number(r)
            c[k] = Raw(x)
    if r.random() < 0.7:
        c['aud'] = r.choice([r.choice(STRINGS), [r.choice(SHORT) if r.random() < 0.8 else text(r) for _ in range(r.choice([0, 1, 2, 3, 7, 20, 60, 70, 130, 300]))]])
    for _ in range(r.choice([0, 0, 1, 3])):
        c[r.choice(['x', 'scope', 'email', 'Iss', 'ISS', 'iss ', 'exp2', 'a.b', 'nested', '', 'iss.sub'])] = Raw(
            r.choice(['1', '"s"', 'null', '{"iss":"inner","exp":5,"aud":"q"}', '[1,{"iss":"z"}]', 'true', '1.5', '{"sub":{"sub":"deep"}}']))
    if r.random() < 0.25:
        for k, vs in r.sample(DRESS_C, r.choice([1, 2, 4])):
            v = r.choice(vs)
            c.setdefault(k, Raw('null') if v is None and k != 'iss' else 'i' if v is None else v)
    if r.random() < 0.5:
        c = dict(r.sample(list(c.items()), len(c)))
    return c


def header_ok(r, alg):
    h = {'alg': alg}
    if r.random() < 0.6:
        h['kid'] = r.choice(KIDS)
    for _ in range(r.choice([0, 0, 1, 2])):
        h[r.choice(['typ', 'cty', 'crit', 'Alg', 'ALG', 'KID', 'x5t', 'jwk', 'b64', 'alg2', 'header.alg', 'kid '])] = Raw(
            r.choice(['"JWT"', 'null', '["exp"]', '{"alg":"none"}', 'false', '1', '"none"']))
    if r.random() < 0.35:
        # what belongs into the payload
        for k in r.sample(['iss', 'sub', 'aud', 'jti', 'exp', 'nbf', 'iat'], r.choice([1, 2, 4, 7])):
            h[k] = r.choice(['h', 'header', ['h'], 5, 1700000000, Raw('null'), '5'])
    if r.random() < 0.2:
        for k, vs in r.sample(DRESS_H, r.choice([1, 2, 4])):
            v = r.choice(vs)
            h.setdefault(k, Raw('null') if v is None else v)
    if r.random() < 0.5:
        h = dict(r.sample(list(h.items()), len(h)))
    return h


def b64style(r, s):
    """Other spellings of the same bytes (as the dependency accepts them)."""
    k = r.randrange(10)
    if k == 0:
        return s + '=' * (-len(s) % 4)
    if k == 1:
        i = r.randrange(len(s) + 1)
        return s[:i] + r.choice([' ', '\n', '\t', '\r\n']) + s[i:]
    if k == 2 and len(s) % 4 == 2:
        return s[:-1] + {'A': 'B', 'Q': 'R', 'g': 'h', 'w': 'x'}.get(s[-1], s[-1])
    return s


def seg_claims(r):
    g = G(r)
    for i in range(6):
        alg = r.choice(['HS256', 'HS384', 'HS512', 'EdDSA', 'ES256', r.choice(ALGS)])
        st = r.randrange(12)
        h, p = b64u(enc(header_ok(r, alg), r, st)), b64u(enc(claims_ok(r), r, st))
        if r.random() < 0.3:
            h, p = b64style(r, h), b64style(r, p)
        g.parse(i, [h + '.' + p + '.', {'b64': lat(bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3, 32, 64, 256]))))}])
    return g.ops


# ---- tokens with chosen defects
def bad_json(r):
    return r.choice([b'', b'[]', b'"s"', b'5', b'null', b'{', b'{"alg"', b'{"alg":"HS256"', b'{"a":1}}', b'{"a":1} x', b'{"a":\xff}', b'{"a":"\xff"}', b'{"a":"\\ud800"}',
                     b'{"a":NaN}', b'{"a":1e400}', b'{"a":01}', b'{"alg":"HS256","alg":"HS256"}', b'{"a":' * 60 + b'1' + b'}' * 60, b'\xef\xbb\xbf{}', b'\0{}', b'{"a":tru}', b"{1:2}", b' ', b'{,}'])


ASPECTS = ['format', 'hb64', 'hjson', 'alg', 'kid', 'pb64', 'pjson', 'iss', 'sub', 'iat', 'nbf', 'exp', 'jti', 'aud', 'sb64']
BADALG = ['"none"', '""', '"hs256"', '"HS256 "', '"HS2567"', '"HS"', '"RS257"', '"ES256K"', '"EDDSA"', '"HS256\\u0000"', '"A128KW"', '"ES521"', '"PS255"', '"RSA"', '"Ed25519"']


def make_token(r, defects):
    """A token with the given defects; the rest is well-formed."""
    g = {}
    alg = Raw(json.dumps(r.choice(ALGS)))
    if 'alg' in defects:
        alg = r.choice([None] + [Raw(x) for x in NOTSTR] + [Raw(x) for x in BADALG] * 2 + [near_miss(r, r.choice(ALGS)) for _ in range(8)])
    h = {'alg': alg} if alg is not None else {'typ': 'JWT'}
    if 'kid' in defects:
        h['kid'] = Raw(r.choice(NOTSTR))
    elif r.random() < 0.4:
        h['kid'] = r.choice(KIDS)
    c = claims_ok(r)
    for k in ('iss', 'sub', 'jti'):
        if k in defects:
            c[k] = Raw(r.choice(NOTSTR))
    for k in ('iat', 'nbf', 'exp'):
        if k in defects:
            c[k] = Raw(r.choice(NOTNUM + ['-1', '-0.5', '18446744073709551616', '1e20', '-1e308', '18446744073709551615', '1e308']))
    if 'aud' in defects:
        c['aud'] = Raw(r.choice(NOTAUD))
        if r.random() < 0.4:
            # one of many is no string
            l = [jtext(x) for x in r.sample(SHORT, 20)] * r.choice([1, 2, 5, 10])
            l.insert(r.choice([len(l), len(l), 0, r.randrange(len(l))]), r.choice(NOTSTR))
            c['aud'] = Raw('[' + ','.join(l[-r.choice([2, 9, 17, 33, 65, 129, 200]):]) + ']')
    if r.random() < 0.5:
        h = dict(r.sample(list(h.items()), len(h)))
        c = dict(r.sample(list(c.items()), len(c)))
    st = r.randrange(12)
    hb, pb = enc(h, r, st), enc(c, r, st)
    if 'hjson' in defects:
        hb = bad_json(r)
    if 'pjson' in defects:
        pb = bad_json(r)
    hs, ps, ss = b64u(hb), b64u(pb), b64u(bytes(r.randrange(256) for _ in range(r.choice([1, 32, 64]))))
    if r.random() < 0.15:
        hs, ps, ss = b64style(r, hs), b64style(r, ps), b64style(r, ss)

    def spoil(s):
        b = r.choice(NOTB64)
        k = r.randrange(4)
        return b if k == 0 else s + b if k == 1 else s[:5] + '*' + s[5:] if k == 2 else s[:len(s) // 4 * 4] + 'A'
    if 'hb64' in defects:
        hs = spoil(hs)
    if 'pb64' in defects:
        ps = spoil(ps)
    if 'sb64' in defects:
        ss = spoil(ss)
    t = hs + '.' + ps + '.' + ss
    if 'format' in defects:
        t = r.choice(['', '.', '..', '...', hs, hs + '.' + ps, t + '.', '.' + t, t + '.' + ss, hs + '..' + ss, '.' + ps + '.' + ss, hs + '.' + ps + '.', hs + '..' + ps + '.' + ss,
                      hs + '.' + ps + '..' + ss, t + '..', '..' + t, '.' + t + '.', hs + '.' + ps + ss, t + '.AAAA.BBBB', '....', hs + ps + ss])
    return lat(t.encode('utf-8', 'surrogatepass')) if any(ord(x) > 255 for x in t) else t


def big_token(r):
    """A token of which one section is long."""
    n = r.choice([4000, 8100, 8300, 16300, 16500, 33000, 65000, 66000, 100000, 132000, 140000, 270000, 540000, 800000, 1600000])
    h, c, s = header_ok(r, r.choice(ALGS)), claims_ok(r), bytes(r.randrange(256) for _ in range(64))
    k = r.choice(['unread', 'unread', 'iss', 'aud', 'header', 'kid', 'sig', 'many', 'list'])
    f = 'f' * n
    if k == 'unread':
        c['filler'] = f
    elif k in ('iss', 'aud'):
        c[k] = f
    elif k == 'header':
        h['filler'] = f
    elif k == 'kid':
        h['kid'] = f
    elif k == 'sig':
        s = s * (n // 64)
    elif k == 'many':
        for i in range(n // 40):
            c['claim-number-%d' % i] = i
    else:
        c['aud'] = ['audience-number-%d' % i for i in range(n // 40)]
    t = [b64u(enc(h, r)) + '.' + b64u(enc(c, r)) + '.', {'b64': lat(s)}]
    return t + [r.choice(['*', '.', '.AAAA'])] if r.random() < 0.2 else t


def seg_parse(r):
    g = G(r)
    if r.random() < 0.12:
        g.parse(3, big_token(r))
    for i in range(10):
        k = r.choice([0, 1, 1, 1, 2, 2, 3])
        g.parse(i % 3, make_token(r, r.sample(ASPECTS, k)))
    return g.ops


FIELDS = ['kid', 'iss', 'sub', 'jti', 'sig', 'aud', 'alg', 'header', 'payload', 'header64', 'payload64', 'jwt']


def nested(r, inner):
    """A token that holds the text of another one; returns it and where."""
    h, c, s = header_ok(r, r.choice(ALGS)), claims_ok(r), bytes(r.randrange(256) for _ in range(32))
    f = r.choice(FIELDS[:6])
    if f == 'kid':
        h['kid'] = inner
    elif f == 'sig':
        s = inner.encode('latin1', 'replace')
    elif f == 'aud':
        c['aud'] = r.choice([inner, ['a', inner], [inner]])
    else:
        c[f] = inner
    return [b64u(enc(h, r)) + '.' + b64u(enc(c, r)) + '.', {'b64': lat(s)}], f


def seg_nest(r):
    """Objects parsed from texts that they hold themselves."""
    g = G(r)
    for s in range(3):
        t, f = nested(r, make_token(r, r.sample(ASPECTS, r.choice([0, 0, 0, 1]))))
        if r.random() < 0.5:
            # an object that holds something of everything first
            g.parse(s, own_token(r))
        g.parse(s, t)
        if r.random() < 0.3:
            src, s = s, r.randrange(3)
            g.parse(s, None, via='assign' if src == s or g.ops[-1]['slot'] != s else 'copy', src=src)
        g.parse(s, None, via='own', field=f if r.random() < 0.75 else r.choice(FIELDS))
        g.parse(s, None, via='own', field=r.choice(FIELDS))
        if r.random() < 0.5:
            g.parse(s, None, via='own')
    return g.ops


def seg_history(r):
    """Objects used again and again, copied, assigned, parsed from themselves."""
    g = G(r)
    sl = 4
    key = {'HS256': 'h_a', 'EdDSA': 'ed_a', 'ES256': 'p256_a', 'RS256': 'rsa_a'}
    g.jwks(0, [jwk(k) for k in key.values()])
    used = set()
    for _ in range(24):
        s = r.randrange(sl)
        k = r.random()
        if k < 0.45 or not used:
            d = r.choice([0, 0, 1, 1, 2])
            if d == 0 and r.random() < 0.5:
                alg = r.choice(list(key))
                g.token(s, alg, key[alg], r.choice([None, 'k1']), claims=claims_ok(r))
            else:
                g.parse(s, make_token(r, r.sample(ASPECTS, d)))
        elif k < 0.58:
            g.parse(s, None, via='own', **(dict(field=r.choice(FIELDS)) if r.random() < 0.3 else {})) if s in used else g.parse(s, '')
        elif k < 0.75:
            g.parse(s, None, via='assign', src=r.choice(sorted(used)))
        elif k < 0.9:
            g.parse(s, None, via='copy', src=r.choice(sorted(used)))
        else:
            g.parse(s, None, via='assign', src=s) if s in used else g.parse(s, '..')
        used.add(s)
        if r.random() < 0.15:
            # the object's own members overwritten, then given the same or another text again
            k = r.random()
            src = r.choice([x for x in range(sl) if x != s])
            if k > 0.4:
                # to be assigned the text it already holds
                g.parse(src, None, via='assign', src=s)
                used.add(src)
            if r.random() < 0.5:
                g.ops.append(dict(op='mess', slot=s, sig=r.random() < 0.5))
            else:
                g.ops.append(dict(op='setf', slot=s, exp=str(r.choice([0, 5, 2**40])), nbf=str(r.choice([0, 5, 2**40]))))
            if k < 0.2 or src not in used:
                g.parse(s, None, via='own')
            else:
                g.parse(s, None, via=r.choice(['assign', 'assign', 'copy']), src=src)
        if r.random() < 0.5:
            g.verify(s, 0, 'sig', rep=0)
        if r.random() < 0.2:
            g.verify(s, 0, 'now', now='1700000000', rep=0)
    near = r.choice([0, 0.4, 0.9])
    for o in g.ops:
        if o['op'] == 'parse' and r.random() < near:
            o['place'] = True
    return g.ops


def one_change(r, h, c, sig):
    """The same token but for one thing."""
    h, c = dict(h), dict(c)
    k = r.randrange(10)
    if k < 5:
        n = r.choice(['iss', 'sub', 'jti', 'iat', 'nbf', 'exp', 'aud', 'x'])
        if n in c and r.random() < 0.4:
            c.pop(n)
        elif n == 'aud':
            c[n] = r.choice(['a', 'b', ['a'], ['a', 'b'], ['b', 'a'], [], Raw(r.choice(NOTAUD))])
        elif n in ('iss', 'sub', 'jti', 'x'):
            c[n] = r.choice(['a', 'b', '', Raw(r.choice(NOTSTR))])
        else:
            c[n] = Raw(r.choice(['0', '1', '1700000000', '1700000001', '4294967295', r.choice(NOTNUM + ['-1'])]))
    elif k < 8:
        n = r.choice(['kid', 'alg', 'typ', 'kid'])
        if n in h and n != 'alg' and r.random() < 0.3:
            h.pop(n)
        else:
            h[n] = r.choice(['k1', 'k2', '']) if n != 'alg' else r.choice(ALGS)
    else:
        sig = bytes([sig[0] ^ 1]) + sig[1:] if r.random() < 0.6 else sig + b'x'
    return h, c, sig


def seg_twins(r):
    """Objects that hold tokens alike but for one thing, used in turn."""
    g = G(r)
    h = {'alg': r.choice(ALGS), 'kid': r.choice(['k1', 'k2'])}
    c = {'iss': 'a', 'sub': 'a', 'jti': 'a', 'iat': 1, 'exp': 1700000000, 'aud': ['a', 'b']}
    c = {k: c[k] for k in c if r.random() < 0.85}
    base = (h, c, bytes(r.randrange(256) for _ in range(r.choice([32, 64, 64]))))
    vs = [base]
    for _ in range(r.choice([2, 3, 5])):
        vs.append(one_change(r, *r.choice(vs if r.random() < 0.3 else [base])))
    texts = []
    for v in vs:
        hs, ps, ss = b64u(enc(v[0], r)), b64u(enc(v[1], r)), b64u(v[2])
        texts.append(hs + '.' + ps + '.' + ss)
        if r.random() < 0.25:
            texts.append(r.choice([hs + '.' + ps, hs + '.' + ps + '.', '.' + ps + '.' + ss, hs + '.' + ps + '.' + ss + '.', hs + '.' + ps + '.*', hs + '.' + ps + 'AAAAA.' + ss, hs + '=.' + ps + '.' + ss]))
    used = []
    for _ in range(26):
        s = r.randrange(3)
        k = r.random()
        if k < 0.5 or not used:
            g.parse(s, r.choice(texts))
        elif k < 0.6 and s in used:
            g.parse(s, None, via='own')
        elif k < 0.85:
            g.parse(s, None, via='assign', src=r.choice(used))
        else:
            g.parse(s, None, via='copy', src=r.choice(used))
        if s not in used:
            used.append(s)
        if r.random() < 0.25:
            k = r.random()
            t = r.choice([x for x in range(3) if x != s])
            if k > 0.5:
                g.parse(t, None, via='assign', src=s)
            g.ops.append(dict(op='mess', slot=s, sig=r.random() < 0.5) if r.random() < 0.6 else
                         dict(op='setf', slot=s, exp=str(r.choice([0, 5, 2**40])), nbf=str(r.choice([0, 5, 2**40]))))
            if k < 0.3:
                g.parse(s, None, via='own')
            elif k < 0.5:
                g.parse(s, r.choice(texts))
            else:
                g.parse(s, None, via=r.choice(['assign', 'assign', 'copy']), src=t)
                if t not in used:
                    used.append(t)
    return g.ops


def seg_reuse(r):
    """Objects and key sets replaced in place between verifications: what an
    earlier call saw must not matter."""
    g = G(r)
    alg = r.choice(ALGS)
    pool = signers(alg) if r.random() < 0.7 else [k for k in signers(alg) if k not in ('rsa_e3',)]
    a, b = r.sample(pool, 2)
    kid = r.choice([None, 'k1'])
    h = {'alg': alg}
    if kid:
        h['kid'] = kid
    for _ in range(r.choice([0, 0, 1, 2])):
        h[r.choice(['typ', 'x', 'cty', 'jku'])] = r.choice('ab ') * r.choice([5, 30, 48, 64, 100, 300, 1000])
    other = r.choice([x for x in ALGS if x != alg])
    aud = r.choice([['a'], ['a', 'b'], [], 'a'])
    c1 = {'jti': '1', 'exp': 1700000000, 'aud': aud}
    if r.random() < 0.4:
        # what differs comes after, or before, much that does not
        c1 = dict(sorted(dict(c1, **{r.choice(['a', 'z']): 'a' * r.choice([20, 64, 200, 1000])}).items()))
    c2 = dict(c1, jti='2') if r.random() < 0.5 else dict(c1, exp=1700000600)
    m = [b64u(enc(h)) + '.' + b64u(enc(c)) for c in (c1, c2)]
    sg = {(k, i): g.sign(k, m[i], alg) for k in (a, b) for i in (0, 1)}
    toks = [[m[i] + '.', {'sig': s}] for (k, i), s in sg.items()]
    toks += [[m[0] + '.', {'sig': sg[(a, 1)]}], [m[1] + '.', {'sig': sg[(a, 0)]}], [m[0] + '.', {'sig': sg[(a, 0)], 'mut': mutation(r, alg)}],
             [m[0] + '.', {'sig': sg[(a, 0)], 'mut': [['flip', r.randrange(512)]]}], [m[0], ''], [m[0] + '.', {'sig': sg[(a, 0)]}, '.'],
             [b64u(enc(dict(h, kid='k2'))) + '.' + b64u(enc(c1)) + '.', {'sig': sg[(a, 0)]}]]
    sets = [[jwk(a, kid)], [jwk(b, kid)], [jwk(b, kid), jwk(a, kid)], [jwk(a, 'k2')], [jwk(a)], [jwk(b), jwk(a, kid, alg)], [jwk(a, kid), jwk(a, kid)], [],
            [random_entry(r, r.choice(ALLKEYS), ['k1', 'k2']), jwk(a, kid)]]
    if algs_of(a) and other in algs_of(a):
        sets.append([jwk(a, kid, other)])
    g.parse(0, toks[0])
    g.jwks(0, sets[0])
    for _ in range(22):
        k = r.random()
        if k < 0.4:
            g.parse(r.choice([0, 0, 1]), r.choice(toks))
        elif k < 0.7:
            g.jwks(0, r.choice(sets))
        elif k < 0.75 and a in KEYS:
            g.ops.append(dict(op='addpem', kslot=0, text=KEYS[r.choice([a, b])]['pub'], kid=kid or '', alg=r.choice(['', alg])))
        elif k < 0.8:
            g.parse(1, None, via='assign', src=0)
        for _ in range(r.choice([1, 2, 2, 3])):
            e = r.choice(['sig', 'sig', 'now', 'nowskew', 'audnow', 'audwall', 'wall'])
            kw = {}
            if 'wall' in e:
                kw['wall'] = [str(r.choice([1700000060, 1700000061, 1700000030])), 0]
            elif e != 'sig':
                kw['now'] = str(r.choice([1700000060, 1700000061, 1700000000]))
            if e == 'nowskew':
                kw['skew'] = str(r.choice([0, 60, 61]))
            if e.startswith('aud'):
                kw['auds'] = r.choice([[], ['a'], ['b'], ['http://a/'], ['c', 'a'], ['']])
            g.verify(0, 0, e, rep=r.choice([0, 0, 1]), **kw)
    return g.ops


def seg_often(r):
    """The same verification very many times."""
    g = G(r)
    key = r.choice(signers('HS256'))
    g.token(0, 'HS256', key, 'k1')
    g.token(1, 'HS256', key, 'k1', mut=[['flip', r.randrange(200)]])
    g.jwks(0, [jwk(key, 'k1')])
    for s in (0, 1):
        g.verify(s, 0, 'sig', rep=66000)
    return g.ops


# ---- key sets
FIELD = {'P-256': 2**256 - 2**224 + 2**192 + 2**96 - 1, 'P-384': 2**384 - 2**128 - 2**96 + 2**32 - 1, 'P-521': 2**521 - 1}


def spoil_jwk(r, e):
    """One change to a good entry, not always a bad one."""
    e = dict(e)
    m = r.choice(['drop', 'type', 'b64', 'kty', 'alg', 'crv', 'kid', 'val', 'extra', 'b64ok', 'field'])
    req = [k for k in e if k in ('n', 'e', 'x', 'y', 'k', 'kty', 'crv')]
    if not req:
        return dict(e, kty=r.choice(['RSA', 'EC', 'oct', 'OKP']))
    if m == 'drop':
        e.pop(r.choice(req))
    elif m == 'type':
        e[r.choice(req + ['alg', 'kid'])] = Raw(r.choice(NOTSTR))
    elif m == 'b64':
        e[r.choice(req)] = r.choice(NOTB64 + [''])
    elif m in ('kty', 'alg', 'crv', 'kid') and r.random() < 0.3:
        e[m] = near_miss(r, e[m] if type(e.get(m)) is str else r.choice(ALGS if m == 'alg' else ['P-256', 'P-384', 'P-521', 'Ed25519'] if m == 'crv' else ['k1']))
    elif m == 'kty':
        e['kty'] = r.choice(['RSA', 'EC', 'oct', 'OKP', 'rsa', 'ec', 'OCT', 'okp', '', 'RSA ', 'AKP'])
    elif m == 'alg':
        e['alg'] = r.choice(ALGS + ['', 'RS', 'R', 'RS1', 'ES', 'E', 'ES999', 'ES128', 'ES224', 'ES257', 'ES256K', 'ES0', 'ES2560', 'ES25', 'HS', 'HS512 ', 'HS000', 'EdDS', 'EdDSA ', 'eddsa', 'Ed', 'RS999', 'PS1', 'RS0', 'Rs256', 'X', 'S', 'H', 'HS1', 'none', 'EdDSA', 'RSA-OAEP', 'Ed25519', 'rs256', 'PS', 'P', 'ECDH-ES', 'HS2560', 'ESx'])
    elif m == 'crv':
        e['crv'] = r.choice(['P-256', 'P-384', 'P-521', 'P-512', '', 'p-256', 'Ed25519', 'X25519', 'Ed448', 'secp256k1', 'P-256 ', 'P-224', 'P-192', 'P-128', 'P-255', 'P-257', 'P-522', 'P-38', 'P-3840', 'A', 'Z-256', 'P256', 'P-999', 'P-', 'ed25519', 'Ed25519 ', 'Ed2551', 'Ed25518'])
    elif m == 'kid':
        e['kid'] = r.choice(KIDS)
    elif m == 'extra':
        if r.random() < 0.4:
            # a member by almost the right name
            n = r.choice(req + ['kid', 'alg'])
            e[near_miss(r, n)] = e.get(n, 'k1')
            if r.random() < 0.5:
                e.pop(n, None)
        e[r.choice(['d', 'p', 'use', 'key_ops', 'x5c', 'K', 'Kty', 'kty '])] = Raw(r.choice(['5', '"x"', 'null', '{"kty":"RSA"}', '[]']))
    elif m == 'b64ok':
        k = r.choice([k for k in ('n', 'e', 'x', 'y', 'k') if isinstance(e.get(k), str) and not isinstance(e.get(k), Raw)] or ['zz'])
        if k in e:
            raw = ub64(e[k])
            e[k] = r.choice([b64style(r, e[k]), b64u(b'\0' + raw), b64u(b'\0\0\0' + raw), b64u(raw.lstrip(b'\0')), b64u(raw + b'\0'), b64u(raw[:-1]), e[k] + '=',
                             b64u(bytes([r.choice([0x40, 4, 2, 3, 1, 0x80, 0xff, r.randrange(256)])]) + raw), b64u(raw + bytes([r.choice([1, 0x80, r.randrange(256)])])), b64u(raw[1:]),
                             b64u(bytes.fromhex('302a300506032b6570032100') + raw), b64u(b'\4\x20' + raw), b64u(raw + raw), b64u(raw[::-1]), raw.hex(), b64u(raw.hex().encode()), b64u(b64u(raw).encode()),
                             near_miss(r, e[k])])
    elif m == 'field' and type(e.get('x')) is str and type(e.get('y')) is str:
        # other numbers for the same coordinate
        k = r.choice('xyyxb')
        p = FIELD.get(e.get('crv') if type(e.get('crv')) is str else 'P-256', FIELD['P-256'])
        for c in 'xy' if k == 'b' else k:
            v = int.from_bytes(ub64(e[c]), 'big')
            v = r.choice([v + p, v + p, v + p, v + 2 * p, p - v if v <= p else v, v ^ 1, p, p + 1, v + 1, v * 2, v + (1 << 256), v + (1 << 528)])
            e[c] = b64u(v.to_bytes((v.bit_length() + 7) // 8 or 1, 'big'))
    elif m == 'val':
        k = r.choice([k for k in ('n', 'e', 'x', 'y', 'k') if k in e] or ['kid'])
        e[k] = r.choice(['AQAB', 'Aw', 'AA', 'AQ', 'AAAA', 'Ag', 'EQ', KEYS['p256_a']['x'], KEYS['p384_a']['y'], KEYS['rsa_a']['n'], KEYS['ed_a']['x'], KEYS['p521_a']['x'],
                         b64u(b'\xff' * 32), b64u(b'\xff' * 256), b64u(b'\xfe' * 256), b64u(b'\xff' * 66), b64u(b'\0' * 32), b64u(bytes(31)), b64u(bytes(33)), b64u(b'\1' * 31), b64u(b'\1' * 33),
                         b64u(b'\xff' * 2100), b64u(b'\x80' + b'\0' * 255), b64u(b'\1\0\0\0\1\0\1'), b64u(b'\1\0\0\0\3'), b64u(b'\1\0\1\0\1'), b64u(b'\1\0\0\0\1'), 'AQE', 'BQ', b64u(b'\1\0\3'), b64u(b'\2\0\1'),
                         b64u(b'\1\1\0\1'), b64u(b'\1\0\0\3'), b64u(b'\1\0\0\0\0\0\0\0\3'), b64u(b'\0\0\0\3'), b64u(b'3'), b64u(b'65537')])
    return e


def good_entry(r):
    name = r.choice(ALLKEYS + ['rsa_d', 'rsa_a', 'p384_a', 'p521_a', 'ed_a'])
    return random_entry(r, name, r.sample(KIDS, 4))


def seg_jwks(r):
    g = G(r)
    for _ in range(6):
        n = r.choice([0, 1, 1, 2, 3, 4, 6, 10, 20, 36, 70, 140])
        es = []
        for _ in range(n):
            k = r.random()
            e = good_entry(r)
            es.append(e if k < 0.45 else spoil_jwk(r, e) if k < 0.75 else spoil_jwk(r, spoil_jwk(r, e)) if k < 0.85 else r.choice(JUNK)(r))
        if r.random() < 0.15:
            es = [e for e in es if isinstance(e, Raw) or r.random() < 0.2] + [r.choice(JUNK)(r)]
        g.jwks(0, es, r.randrange(12), extra=r.choice([(), (), r.sample(DRESS_D, r.choice([1, 2, 4])), (('k', KEYS['rsa_a']['certs'][0]),)]))
    k = r.random()
    if k < 0.5:
        g.load(0, lat(r.choice([b'', b'{}', b'[]', b'{"keys":5}', b'{"keys":{}}', b'{"keys":null}', b'{"keys":"x"}', b'{"keys":[]}', b'{"keys":[', b'{"Keys":[]}', b'{"keys":[[]]}',
                                b'{"keys":[5,null,"x"]}', b'{"keys":[{}]}', b'{"keys":[],"keys":[]}', b'{"keys":true}', b'null', b'{"keys":[{}', b'\xff', b'{"key":[]}', bad_json(r)])))
    return g.ops


def seg_jwkone(r):
    """Single entries with one or two deviations."""
    g = G(r)
    for _ in range(14):
        e = good_entry(r)
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
            e = spoil_jwk(r, e)
        g.jwks(0, [e], r.randrange(12))
    return g.ops


def bad_pem(r):
    p = KEYS[r.choice(list(KEYS))]['pub']
    k = r.randrange(9)
    if k == 0:
        return r.choice(['', 'x', '-----BEGIN PUBLIC KEY-----', '-----BEGIN PUBLIC KEY-----\n-----END PUBLIC KEY-----\n'])
    if k == 1:
        return p[:r.randrange(len(p))]
    if k == 2:
        return p.replace('PUBLIC KEY', r.choice(['RSA PUBLIC KEY', 'CERTIFICATE', 'PRIVATE KEY']))
    if k == 3:
        i = r.randrange(28, len(p) - 28)
        return p[:i] + r.choice('*!AB') + p[i + 1:]
    if k == 4:
        return PEMS[r.choice(list(PEMS))]
    if k == 5:
        return KEYS[r.choice(list(KEYS))]['priv']
    if k == 6:
        return KEYS['rsa_a']['certs'][0]
    if k == 7:
        return KEYS['k256_a']['pub']
    return p.replace('\n', '')


ODD_LINES = ['note\0more\n', '\0\n', '\n\n', 'a' * 300 + '\n', '-----\n', '# -----BEGIN\n', '\t \r\n', 'subject=CN = x\n', '\x7f\x01\n']


def seg_pem(r):
    g = G(r)
    for rnd in range(3):
        good = lambda: r.choice(['', '', 'junk before\n'] + ODD_LINES) + KEYS[r.choice(list(KEYS))]['pub'] + r.choice(['', '', 'junk after', KEYS['rsa_a']['pub']])
        kid = lambda: lat(r.choice(KIDS + ['']).encode())
        alg = lambda: r.choice(ALGS + ['', 'foo'])
        k = r.random()
        if k < 0.3:
            g.load(0, good() if r.random() < 0.7 else bad_pem(r), 'PEM', kid='', alg='')
        elif k < 0.6:
            g.load(0, good() if r.random() < 0.7 else bad_pem(r), 'FROMPEM', kid=kid(), alg=alg())
        elif k < 0.8:
            g.jwks(0, [good_entry(r) if r.random() < 0.7 else r.choice(JUNK)(r) for _ in range(r.choice([0, 1, 3]))])
        else:
            g.load(0, r.choice(['', 'x', '{}']), r.choice(['JWKS', 'PEM']), kid='', alg='')
        for _ in range(r.choice([1, 3, 6])):
            g.ops.append(dict(op='addpem', kslot=0, text=good() if r.random() < 0.65 else bad_pem(r), kid=kid(), alg=alg()))
    # what was loaded verifies
    alg = r.choice([a for a in ALGS if a[0] != 'H'])
    key = r.choice(signers(alg))
    g.token(0, alg, key, 'k1')
    g.load(1, KEYS[key]['pub'], 'FROMPEM', kid='k1', alg=alg)
    g.load(2, KEYS[key]['pub'], 'PEM', kid='', alg='')
    g.ops.append(dict(op='addpem', kslot=2, text=KEYS[r.choice(RSA_KEYS)]['pub'], kid='k2', alg='RS256'))
    for k in (1, 2):
        g.verify(0, k, 'sig')
    return g.ops


def seg_x509(r):
    g = G(r)
    certs = sum((KEYS[k]['certs'] for k in KEYS if KEYS[k].get('certs') and KEYS[k]['fam'] == 'RSA'), [])
    other = KEYS['p256_a']['certs'] + KEYS['ed_a']['certs']
    for _ in range(6):
        n = r.choice([1, 1, 2, 2, 3, 5, 9, 20, 33, 70])
        d = {}
        pool = r.choice([certs, certs, certs[:1], r.sample(certs, 2)])
        clean = r.random() < 0.5
        for i in range(n):
            c = r.choice(pool)
            if clean:
                d[r.choice(KIDS[:6] + KIDS[9:]) + (str(i) if r.random() < 0.95 else '')] = c
                continue
            k = r.random()
            if k < 0.06:
                c = r.choice(other)
            elif k < 0.12:
                i0 = r.randrange(40, len(c) - 40)
                c = c[:i0] + r.choice('*AZ9') + c[i0 + 1:]
            elif k < 0.16:
                c = '-----BEGIN CERTIFICATE-----\n' + r.choice(['', 'AAAA', '*', 'x' * 100]) + '\n-----END CERTIFICATE-----\n'
            elif k < 0.19:
                c = r.choice([c[:-1], '\n' + c, c.replace('\n', '\r\n'), c.strip(), 'x', '', c + c, c + '\n', KEYS['rsa_a']['pub'], c.replace('BEGIN CERT', 'BEGIN  CERT'), c + 'junk',
                              c.replace('\n-----END', '-----END'), c.replace('-----\n', '-----', 1), c.replace('\n', '\n\n', 1), ' ' + c, c + ' ', c.replace('CERTIFICATE', 'certificate'),
                              c.replace('CERTIFICATE', 'TRUSTED CERTIFICATE'), c.replace('CERTIFICATE', 'X509 CERTIFICATE'), c.replace('-----END', '----END'), c.replace('END CERTIFICATE-----', 'END CERTIFICATE----'),
                              c.replace('\n', '\r'), '\ufeff' + c, c.replace('\n', '\n ', 2), c.replace('-----\n', '-----\nProc-Type: 4\n\n', 1), near_miss(r, c),
                              '-----BEGIN CERTIFICATE-----\nAAAA-----END CERTIFICATE-----\n', '-----BEGIN CERTIFICATE-----\n-----END CERTIFICATE-----\n', '-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n' + c])
            elif k < 0.21:
                c = Raw(r.choice(['5', 'null', '[]', '{}', 'true']))
            d[r.choice(KIDS[:6] + KIDS[9:]) + (str(i) if r.random() < 0.8 else '')] = c
        if r.random() < 0.04:
            d[''] = r.choice(certs)
        if r.random() < 0.05:
            d['keys'] = r.choice([Raw('[]'), certs[0], Raw('{}')])
        g.load(0, lat(enc(d, r, r.choice([1, 2, 3]))))
    kid = r.choice(KIDS[:4])
    key = r.choice([k for k in RSA_KEYS if KEYS[k].get('certs')])
    g.load(1, lat(enc({kid: KEYS[key]['certs'][0], 'zz': KEYS['rsa_b']['certs'][0]})))
    for t, k in enumerate([kid, 'zz', None, 'nope']):
        g.token(t, r.choice(ALGS[:6]), key, k)
        g.verify(t, 1, 'sig')
    return g.ops


# ---- struct access
def tree(r, depth):
    k = r.random()
    if depth > 0 and k < 0.45:
        names = r.sample(['a', 'b', 'c', 'ab', 'A', '', 'a.b', ' ', 'x' * 40, '\xc3\xa9', 'a\0'], r.choice([0, 1, 2, 3, 5]))
        return dict(t='obj', f=[[n, tree(r, depth - 1)] for n in names])
    if k < 0.6:
        return dict(t='str', v=lat(r.choice(SHORT).encode()))
    if k < 0.8:
        return dict(t='num', v=r.choice([number(r)] * 40 + ['nan', 'inf', '-inf', '-nan', '1.8446744073709550e19', '1.8446744073709552e19', '0x1p63', '0x1.fffffffffffffp63', '-0x1p-1074', '4.9e-324']))
    if k < 0.86:
        return dict(t='bool', v=r.random() < 0.5)
    if k < 0.88:
        return dict(t=r.choice(['null', 'null', 'unset']))
    n = r.choice([0, 1, 2, 3, 6])
    strs = r.random() < 0.6
    return dict(t='list', v=[dict(t='str', v=lat(r.choice(SHORT).encode())) if strs else tree(r, 0) for _ in range(n)])


def seg_struct(r):
    g = G(r)
    # deep and wide
    depth = r.choice([6, 8, 12, 20, 33])
    names = [r.choice(['n', 'n', 'a', 'longer name', '', 'é']).encode().decode('latin1') for _ in range(depth)]
    node, qs = dict(t='obj', f=[['v', dict(t='str', v='deepest')]]), []
    for i in range(depth, 0, -1):
        node = dict(t='obj', f=[['v%d' % i, dict(t='num', v=number(r))], ['v', r.choice([dict(t='bool', v=True), dict(t='str', v='at %d' % i)])], [names[i - 1], node]])
    for i in range(depth + 1):
        p = names[:i]
        qs.append(['.'.join(p + ['v']), r.choice(['str', 'bool', 'val'])])
        if r.random() < 0.4:
            qs.append(['.'.join(p + ['v%d' % (i + 1)]), r.choice(['u64', 'dbl', 'str'])])
        if r.random() < 0.3:
            qs.append(['.'.join(p + ['zz', 'v']), 'str'])
        if r.random() < 0.3 and p:
            qs.append(['.'.join(p), r.choice(['str', 'list'])])
    g.ops.append(dict(op='struct', tree=node, qs=qs))
    n = r.choice([20, 65, 129, 257, 257 if r.random() < 0.9 else 1030])
    if r.random() < 0.04:
        # long texts
        ls = ['x' * r.choice([300, 5000, 33000, 66000, 140000]) for _ in range(3)]
        g.ops.append(dict(op='struct', tree=dict(t='obj', f=[['s', dict(t='str', v=ls[0])], ['l', dict(t='list', v=[dict(t='str', v=x) for x in ['a', ls[1], ls[2], 'b']])],
                                                             ['y' * 100, dict(t='obj', f=[['a', dict(t='num', v='7')]])]]),
                          qs=[['s', 'str'], ['l', 'list'], ['y' * 100 + '.a', 'u64'], ['y' * 99 + '.a', 'u64']]))
    wide = dict(t='obj', f=[['f%d' % i, dict(t='num', v=str(i))] for i in range(n)] +
                [['l', dict(t='list', v=[dict(t='str', v='s%d' % i) for i in range(n)])],
                 ['m', dict(t='list', v=[dict(t='str', v='s%d' % i) for i in range(n)] + [dict(t='num', v='1')])]])
    g.ops.append(dict(op='struct', tree=wide, qs=[['f%d' % i, r.choice(['u64', 'dbl', 'val'])] for i in [0, 1, n // 2, n - 1, n]] + [['l', 'list'], ['m', 'list']]))
    for _ in range(3):
        root = tree(r, 4)
        while root['t'] != 'obj' or not root['f']:
            root = tree(r, 4)
        qs = []
        for _ in range(30):
            path, cur = [], root
            while cur['t'] == 'obj' and cur['f'] and r.random() < 0.85:
                n, cur = r.choice(cur['f'])
                path.append(n)
            k = r.random()
            if k < 0.12:
                path.append(r.choice(['a', 'zz', '', 'b']))
            elif k < 0.2 and path:
                path[-1] = r.choice([path[-1] + 'x', path[-1].upper(), '', 'zz', path[-1][:-1]])
            elif k < 0.24:
                path.insert(r.randrange(len(path) + 1), r.choice(['', 'a', 'zz']))
            p = '.'.join(path)
            if r.random() < 0.03:
                p = r.choice(['', '.', '..', 'a.', '.a', 'a..b'])
            for get in r.sample(['str', 'u64', 'dbl', 'bool', 'list', 'val'], 3):
                qs.append([p, get])
        g.ops.append(dict(op='struct', tree=root, qs=qs))
    return g.ops


def seg_status(r):
    g = G(r)
    order = list(range(100))
    g.ops.append(dict(op='status', order=order))
    order = [r.randrange(100) for _ in range(80)]
    g.ops.append(dict(op='status', order=order + [r.randrange(100)] * 4))
    g.ops.append(dict(op='status', order=order[::-1]))
    for _ in range(12):
        g.ops.append(dict(op='holder', ops=[[r.choice(['u', 'u', 'u', 'r']), r.choice([0, r.randrange(100)])] for _ in range(r.choice([0, 1, 2, 3, 6, 12, 30]))]))
    return g.ops


def seg_conc(r, threads=8, rounds=20, first=False):
    """Shared and separate tokens and key sets in several threads; first:
    no call of a thread's kind has been made in the process before."""
    g = G(r)
    n = 0
    jobs = []
    kss = []
    used = []
    for _ in range(r.choice([4, 6, 8])):
        alg = r.choice(ALGS)
        key = r.choice(signers(alg))
        c = {'n': r.randrange(1000), 'aud': [r.choice(['a', 'b', 'c'])]}
        if r.random() < 0.3:
            c['exp'] = r.choice([5, 5000000000])
        g.token(n, alg, key, r.choice([None, 'k1', 'k2']), claims=c, mut=mutation(r, alg) if r.random() < 0.3 else None)
        used.append(key)
        n += 1
    nk = r.choice([1, 2, 3])
    for k in range(nk):
        names = r.sample(used, r.randrange(1, len(used) + 1)) + r.sample(ALLKEYS, r.choice([0, 2, 5]))
        r.shuffle(names)
        g.jwks(k, [jwk(x, r.choice([None, 'k1', 'k2']) if r.random() < 0.5 else None) for x in names])
    wall = r.choice([1000, 1700000000])
    for t in range(n):
        for k in range(nk):
            e = r.choice(['sig', 'sig', 'now', 'nowskew', 'audnow', 'wall', 'audwall'])
            j = dict(slot=t, kslot=k, entry=e)
            if 'wall' in e:
                j['wall'] = [str(wall), 0]
            elif e != 'sig':
                j['now'] = str(r.choice([1000, 1700000000]))
            if e == 'nowskew':
                j['skew'] = '0'
            if e.startswith('aud'):
                j['auds'] = r.choice([[], ['a'], ['a', 'b'], ['http://c/']])
            jobs.append(j)
    # single-threaded first, then together
    for j in jobs if not first else []:
        g.ops.append(dict(op='verify', rep=2, dirty=int(r.random() < 0.2), **j))
    g.ops.append(dict(op='conc', jobs=jobs, threads=threads, rounds=rounds, wall=[str(wall), 0], reparse=r.random() < 0.5))
    for j in r.sample(jobs, min(4, len(jobs))):
        g.ops.append(dict(op='verify', rep=0, **j))
    return g.ops


def seg_read(r):
    """The same content in other bytes: signed as sent, or changed after signing."""
    g = G(r)
    alg = r.choice(ALGS)
    key = r.choice(signers(alg))
    h, c = header_ok(r, alg), claims_ok(r)
    variants = []
    for st in r.sample(range(12), 4):
        hh, pp = b64u(enc(h, r, st)), b64u(enc(c, r, st))
        variants.append((hh, pp))
        variants.append((b64style(r, hh), b64style(r, pp)))
        if len(hh) % 4:
            variants.append((hh + '=' * (-len(hh) % 4), pp))
        if len(pp) % 4:
            variants.append((hh, pp + '=' * (-len(pp) % 4)))
        variants.append((hh, pp + r.choice([' ', '\n'])))
        variants.append((' ' + hh, pp))
    variants = r.sample(variants, 6)
    sigs = []
    for hh, pp in variants:
        sigs.append(g.sign(key, hh + '.' + pp, alg))
    n = 0
    for i, (hh, pp) in enumerate(variants):
        for j in {i, r.randrange(len(sigs)), r.randrange(len(sigs))}:
            g.parse(n, [hh + '.' + pp + '.', {'sig': sigs[j]}])
            n += 1
    # sections combined from two signed tokens; a signature over decoded text
    c2 = claims_ok(r)
    p2 = b64u(enc(c2, r, 0))
    g.sign(key, variants[0][0] + '.' + p2, alg)
    g.parse(n, [variants[0][0] + '.' + p2 + '.', {'sig': sigs[0]}])
    n += 1
    raw = lat(enc(h, r, 0)) + '.' + lat(enc(c, r, 0))
    s = g.sign(key, raw, alg)
    g.parse(n, [b64u(enc(h, r, 0)) + '.' + b64u(enc(c, r, 0)) + '.', {'sig': s}])
    n += 1
    g.jwks(0, [jwk(key)])
    for t in range(n):
        g.verify(t, 0, 'sig', rep=0)
    return g.ops


def fuzz_bytes(r):
    k = r.randrange(4)
    if k == 0:
        return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 40, 300])))
    if k == 1:
        return bytes(r.choice(b'.{}[]":,0123456789eE+-\\ualg=_ \n') for _ in range(r.choice([1, 8, 40, 200])))
    if k == 2:
        return b'.' * r.choice([1, 2, 100, 5000]) + b'A' * r.choice([0, 1, 70000])
    return (r.choice([b'{"a":', b'[', b'{"keys":[', b'"']) * r.choice([1, 30, 120, 5000]))


def bend(r, b):
    """A few random edits of a valid input."""
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 4, 10])):
        k = r.randrange(5)
        i = r.randrange(len(b) + 1)
        if k == 0 and b:
            b[i % len(b)] ^= 1 << r.randrange(8)
        elif k == 1:
            del b[i:i + r.choice([1, 2, 10, 100])]
        elif k == 2:
            b[i:i] = bytes([r.randrange(256)]) * r.choice([1, 1, 3, 50])
        elif k == 3:
            j = r.randrange(len(b) + 1)
            b[i:i] = b[min(i, j):max(i, j)][:500]
        else:
            b[i:i + 1] = bytes([r.choice(b'"{}[],:.-=\0\xff0')])
    return bytes(b)


def seg_fuzz(r):
    g = G(r)
    g.jwks(9, [jwk(k) for k in ['rsa_a', 'p256_a', 'p384_a', 'p521_a', 'ed_a', 'h_a', 'h_32']])
    alg = r.choice(ALGS)
    key = r.choice(signers(alg))
    g.token(8, alg, key)
    for i in range(6):
        if r.random() < 0.4:
            t = fuzz_bytes(r)
        else:
            t = bend(r, make_token(r, r.sample(ASPECTS, r.choice([0, 0, 1]))).encode('latin1'))
        g.parse(0, lat(t))
        g.verify(0, 9, r.choice(['sig', 'now']), now='5', rep=0)
        # the section contents broken below the encoding
        h, p = bend(r, enc(header_ok(r, alg))), bend(r, enc(claims_ok(r)))
        if r.random() < 0.5:
            h = enc(header_ok(r, alg))
        g.parse(1, b64u(h) + '.' + b64u(p) + '.' + b64u(fuzz_bytes(r)[:600]))
        g.verify(1, 9, 'sig', rep=0)
    for i in range(5):
        k = r.random()
        if k < 0.2:
            t = fuzz_bytes(r)
        elif k < 0.7:
            t = bend(r, enc({'keys': [spoil_jwk(r, good_entry(r)) for _ in range(r.choice([1, 2, 4]))]}, r, r.randrange(12)))
        else:
            t = bend(r, enc({'k%d' % i: KEYS[r.choice(RSA_KEYS)]['certs'][0] for i in range(2)}))
        g.load(0, lat(t))
        g.verify(8, 0, 'sig', rep=0)
        g.verify(0, 0, 'sig', rep=0)
        t = lat(bend(r, KEYS[r.choice(list(KEYS))]['pub'].encode())) if r.random() < 0.8 else lat(fuzz_bytes(r))
        g.load(1, t, r.choice(['PEM', 'FROMPEM']), kid='k', alg=r.choice(ALGS))
        g.ops.append(dict(op='addpem', kslot=0, text=t, kid='k', alg=alg))
        g.verify(8, 1, 'sig', rep=0)
    return g.ops


# ---- ownership, leftovers, memory
def own_token(r):
    """A token text that needs memory of its own, or nearly none."""
    k = r.random()
    if k < 0.5:
        h = {'alg': r.choice(ALGS), 'kid': r.choice(['', 'k', 'k' * 15, 'k' * 16, 'k' * 40, 'a-key-with-a-long-name-' + str(r.randrange(9))])}
        c = {n: r.choice(['', 'x', 'y' * 15, 'z' * 16, 'w' * 60]) for n in ('iss', 'sub', 'jti') if r.random() < 0.8}
        for n in ('iat', 'nbf', 'exp'):
            if r.random() < 0.5:
                c[n] = r.randrange(2**31)
        c['aud'] = r.choice(['a', 'b' * 40, ['a' * 30, 'b'], [], ['c' * 16] * 5])
        return b64u(enc(h, r)) + '.' + b64u(enc(c, r)) + '.' + b64u(bytes(r.randrange(256) for _ in range(r.choice([1, 8, 32, 64, 256]))))
    return make_token(r, r.sample(ASPECTS, r.choice([0, 1, 1])))


def own_set(r):
    """(text, type, kid, alg) of a key set of any kind."""
    k = r.random()
    if k < 0.45:
        es = [good_entry(r) if r.random() < 0.8 else spoil_jwk(r, good_entry(r)) for _ in range(r.choice([1, 1, 2, 4, 9]))]
        return lat(enc({'keys': es}, r, r.randrange(12))), 'JWKS', '', ''
    if k < 0.65:
        cs = [c for n in KEYS if KEYS[n].get('certs') and KEYS[n]['fam'] == 'RSA' for c in KEYS[n]['certs']]
        return lat(enc({('cert-of-a-long-name-%d' % i if r.random() < 0.5 else 'c%d' % i): r.choice(cs) for i in range(r.choice([1, 2, 4]))}, r, 1)), 'JWKS', '', ''
    t = KEYS[r.choice(list(KEYS))]['pub'] if r.random() < 0.8 else bad_pem(r)
    return t, r.choice(['PEM', 'FROMPEM']), r.choice(['', 'k', 'kid-' * 10]), r.choice(ALGS + [''])


def seg_own(r):
    """Tokens and key sets made, copied, assigned and destroyed; all of them
    looked at after every step."""
    g = G(r)
    toks, sets = {}, set()
    texts = [own_token(r) for _ in range(4)]
    for _ in range(14):
        k = r.random()
        s = r.randrange(4)
        if k < 0.3 or not toks:
            g.parse(s, r.choice(texts) if r.random() < 0.5 else own_token(r))
            toks[s] = 1
        elif k < 0.55:
            src = r.choice(sorted(toks))
            via = r.choice(['assign', 'copy']) if src != s else 'assign'
            g.parse(s, None, via=via, src=src)
            toks[s] = 1
        elif k < 0.7:
            s = r.choice(sorted(toks))
            g.ops.append(dict(op='drop', slot=s))
            del toks[s]
        elif k < 0.85 or not sets:
            t, ty, kid, alg = own_set(r)
            s = r.randrange(2)
            g.load(s, t, ty, kid=kid, alg=alg)
            sets.add(s)
        elif k < 0.95:
            g.ops.append(dict(op='addpem', kslot=r.choice(sorted(sets)), text=KEYS[r.choice(list(KEYS))]['pub'] if r.random() < 0.8 else bad_pem(r),
                              kid=r.choice(['', 'k1', 'an-appended-key-with-a-long-name']), alg=r.choice(ALGS + [''])))
        else:
            s = r.choice(sorted(sets))
            g.ops.append(dict(op='drop', kslot=s))
            sets.discard(s)
        g.ops += [dict(op='look', slot=s) for s in sorted(toks)] + [dict(op='look', kslot=s) for s in sorted(sets)]
    # a token and a set whose sources are gone still verify
    alg = r.choice(ALGS)
    key = r.choice(signers(alg))
    g.token(4, alg, key, 'k1', claims={'aud': ['a' * r.choice([1, 40]), 'b']})
    g.parse(5, None, via='copy', src=4)
    g.parse(6, '..')
    g.parse(6, None, via='assign', src=5)
    g.ops += [dict(op='drop', slot=4)]
    g.jwks(4, [jwk(key, 'k1')])
    g.verify(5, 4, 'sig')
    g.ops += [dict(op='drop', slot=5)]
    g.verify(6, 4, 'audnow', now='1700000000', auds=['b'])
    g.verify(6, 4, 'audnow', now='1700000000', auds=['c' * 40])
    return g.ops


def alike(r, t):
    """A text of the same length, mostly not of the same meaning."""
    t = list(t)
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        i = r.randrange(len(t))
        c = t[i]
        pool = 'abcdefghijklmnopqrstuvwxyz' if c.islower() else 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if c.isupper() else '0123456789' if c.isdigit() else '{}[],:" ._-!'
        t[i] = r.choice(pool)
    return ''.join(t)


def seg_place(r):
    """Inputs of one length read from one place, one after the other."""
    g = G(r)
    alg = r.choice(ALGS)
    key, other = r.sample(signers(alg), 2)
    for n in range(5):
        k = r.random()
        if k < 0.3:
            t = own_token(r)
            if not isinstance(t, str) or not t:
                continue
            ts = [t, alike(r, t), alike(r, t)]
            if r.random() < 0.3:
                ts = [b64u(enc({'alg': alg, 'kid': 'k%d' % i})) + '.' + b64u(enc({'iss': 'i%d' % i, 'aud': ['a%d' % i]})) + '.AA' for i in range(3)]
            r.shuffle(ts)
            slots = r.choice([[0, 0, 0], [0, 1, 2], [0, 0, 1]])
            for s, x in zip(slots, ts + ts[:1]):
                g.parse(s, x, place=True)
            g.ops += [dict(op='look', slot=s) for s in sorted(set(slots))]
        elif k < 0.7:
            t, ty, kid, alg2 = own_set(r)
            if r.random() < 0.5:
                t, ty = lat(enc({'keys': [jwk(r.choice(ALLKEYS), 'k1') for _ in range(r.choice([1, 2]))]}, r)), 'JWKS'
            if not t:
                continue
            ts = [t, alike(r, t), alike(r, t), t, alike(r, t)]
            r.shuffle(ts)
            for i, x in enumerate(ts):
                if r.random() < 0.25 and i > 0:
                    g.ops.append(dict(op='addpem', kslot=i - 1, text=x, kid=kid, alg=alg2, place=True))
                g.load(i, x, ty, kid=kid, alg=alg2, place=True)
                g.ops.append(dict(op='look', kslot=i))
        elif k < 0.85:
            a = r.choice(['https://example.com', 'a', 'http://b/', 'api'])
            b = alike(r, a)
            for c in [[a], [b], [a, b], [b, a], [a]]:
                g.ops.append(dict(op='aud', cfg=[lat(x.encode()) for x in c], qs=[[lat(a.encode())], [lat(b.encode())]], place=True))
        else:
            # the keys of one set replaced by those of another, at the same length
            a, b = [jwk(x, 'k1') for x in (key, other)]
            g.token(0, alg, key, 'k1')
            for x in (a, b, a):
                g.load(0, lat(enc({'keys': [x]})), 'JWKS', place=True)
                g.verify(0, 0, 'sig')
            for x in (b, a):
                g.load(0, lat(enc({'keys': [x]})), 'JWKS', place=True)
                g.verify(0, 0, 'sig')
    g.token(5, alg, key, 'k1', claims={'aud': ['b']})
    g.jwks(5, [jwk(key, 'k1')])
    for a in ('b', 'c', 'b', 'd'):
        g.verify(5, 5, 'audnow', now='1700000000', auds=[a], place=True)
    return g.ops


def seg_errors(r):
    """Loads and verifications that fail inside the crypto library."""
    g = G(r)
    n = 0
    for _ in range(4):
        k = r.random()
        if k < 0.45:
            es = [spoil_jwk(r, good_entry(r)) if r.random() < 0.6 else good_entry(r) for _ in range(r.choice([1, 2, 3, 5]))]
            g.jwks(0, es)
        elif k < 0.6:
            t, ty, kid, alg = own_set(r)
            g.load(0, t, ty, kid=kid, alg=alg)
        elif k < 0.8:
            g.load(0, bad_pem(r), r.choice(['PEM', 'FROMPEM']), kid='k', alg='')
        else:
            c = list(KEYS['rsa_a']['certs']) + KEYS['p256_a']['certs'] + ['-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n', KEYS['rsa_a']['certs'][0][:200]]
            g.load(0, lat(enc({'c%d' % i: r.choice(c) for i in range(r.choice([1, 2]))}, r, 1)))
        for _ in range(r.choice([0, 1, 2])):
            g.ops.append(dict(op='addpem', kslot=0, text=bad_pem(r) if r.random() < 0.7 else KEYS[r.choice(list(KEYS))]['pub'], kid='', alg=r.choice(ALGS + [''])))
        alg = r.choice(ALGS)
        key = r.choice(signers(alg))
        g.token(n, alg, key, r.choice([None, 'k1']), mut=mutation(r, alg) if r.random() < 0.6 else None)
        g.jwks(1, [jwk(x) for x in r.sample(signers(alg), 2)])
        g.verify(n, 0, 'sig')
        g.verify(n, 1, 'sig')
        n += 1
    return g.ops


HEAPED = ['verify', 'kid', 'alg', 'jwks', 'jwkone', 'jwkone', 'pem', 'x509', 'parse', 'claims', 'history', 'compose', 'aud', 'struct', 'status', 'fuzz', 'craft', 'reuse',
          'errors', 'own', 'read', 'twins', 'place']


def vary_text(r, t):
    """A text, made a different one in each round in one of several places."""
    return t if r.random() < 0.25 else r.choice([t + '-@@R', '@@R', t + ' of the many rounds, number @@R', '@@R'.rjust(r.choice([8, 16, 40]), 'x')])


def vary_ops(r):
    """Calls whose inputs are different in each round."""
    g = G(r)
    V = lambda t: vary_text(r, t)
    for _ in range(r.choice([2, 4, 6])):
        k = r.random()
        if k < 0.6:
            alg = r.choice(ALGS) if r.random() < 0.4 else r.choice(['HS256', 'HS512', 'EdDSA'])
            key = r.choice(signers(alg))
            kid = V('k')
            h = {'alg': alg if r.random() < 0.8 else V(alg), 'kid': kid, V('typ'): V('JWT')}
            c = {n: V('some ' + n) for n in r.sample(['iss', 'sub', 'jti', 'nonce', 'aud'], 3)}
            if r.random() < 0.4:
                c['aud'] = [V('a'), V('b')]
            if r.random() < 0.5:
                c['exp'] = Raw(r.choice(['2000000000', '1000000@@R', '"@@R"', '-@@R', '1@@Re@@R']))
            msg = [{'b64': lat(enc(h, r))}, '.', {'b64': lat(enc(c, r))}]
            t = g.sign(key, msg, alg)
            sig = {'sig': t, 'enc': r.choice(['b64', 'b64', 'pad', 'std'])}
            if r.random() < 0.2:
                sig['mut'] = mutation(r, alg)
            g.parse(0, msg + ['.', sig] if r.random() < 0.85 else msg + ['.', V('!')] if r.random() < 0.5 else [V('no token'), '.', V('x'), '.'])
            es = [jwk(r.choice(signers(alg)), r.choice([kid, V('k')]), r.choice([None, alg, V(alg)])) for _ in range(r.choice([1, 2]))] + [jwk(key, kid)]
            r.shuffle(es)
            if r.random() < 0.5:
                es.insert(0, r.choice([{'kty': V('RSA')}, {'kty': 'RSA', 'n': V('AQAB'), 'e': 'AQAB'}, {'kty': 'EC', 'crv': V('P-256'), 'x': V('AAAA'), 'y': 'AAAA'},
                                       {'kty': 'OKP', 'crv': 'Ed25519', 'x': V('AAAA')}, {'kty': 'oct', 'k': V('AAAA')}, {V('kty'): V('oct')}, Raw('"@@R"')]))
            g.jwks(0, es, extra=[(V('more'), V('x'))] if r.random() < 0.3 else ())
            if r.random() < 0.4:
                p = r.choice(list(KEYS))
                g.ops.append(dict(op='addpem', kslot=0, text=KEYS[p]['pub'] if r.random() < 0.7 else V(bad_pem(r)), kid=V('k'), alg=V(r.choice(ALGS))))
            g.verify(0, 0, 'sig')
            g.verify(0, 0, 'audnow', now='1700000000', auds=[V('a'), V('https://b/')])
            g.verify(0, 0, 'audnow', now='1700000@@R', auds=[])
            if r.random() < 0.5:
                g.parse(1, None, via='copy', src=0)
                g.parse(0, [V('x')])
        elif k < 0.75:
            p = r.choice(list(KEYS))
            g.load(0, V(KEYS[p]['pub']) if r.random() < 0.3 else KEYS[p]['pub'], r.choice(['PEM', 'FROMPEM']), kid=V('k'), alg=V(r.choice(ALGS)))
        elif k < 0.85:
            cs = [c for n in KEYS if KEYS[n].get('certs') and KEYS[n]['fam'] == 'RSA' for c in KEYS[n]['certs']]
            g.load(0, lat(enc({V('c%d' % i): r.choice(cs) if r.random() < 0.8 else V('no certificate') for i in range(2)}, r)), 'JWKS')
        else:
            g.load(0, V(r.choice(['{"keys":', '{"keys":{"@@R":1}}', '{"@@R":"x"}', '[@@R]', '{"keys":[@@R,"@@R",{"kty":"@@R"}]}'])), 'JWKS')
    return g.ops


def seg_heap(r):
    """The calls of another segment, or a stretch of them, as one operation
    that the driver repeats."""
    if r.random() < 0.3:
        ops = vary_ops(r)
        pre = [o for o in ops if o['op'] in ('new', 'secret')]
        return pre + [dict(op='heap', vary=True, ops=[o for o in ops if o['op'] not in ('new', 'secret')])]
    ops = SEGS[r.choice(HEAPED)](r)
    pre = [o for o in ops if o['op'] in ('new', 'secret', 'sign')]
    body = [o for o in ops if o['op'] not in ('new', 'secret', 'sign', 'conc')]
    return pre + [dict(op='heap', ops=body[:60])]


SEGS = dict(verify=seg_verify, hunt=seg_hunt, odd=seg_odd, nest=seg_nest, big=lambda r: seg_verify(r, True), alg=seg_alg, kid=seg_kid, sound=seg_sound, time=seg_time, aud=seg_aud, compose=seg_compose,
            claims=seg_claims, parse=seg_parse, history=seg_history, twins=seg_twins, reuse=seg_reuse, jwks=seg_jwks, jwkone=seg_jwkone, pem=seg_pem, x509=seg_x509, struct=seg_struct,
            status=seg_status, conc=seg_conc, read=seg_read, long=seg_long, crowd=seg_crowd, often=seg_often, craft=seg_craft, fuzz=seg_fuzz, own=seg_own, place=seg_place, errors=seg_errors, heap=seg_heap)


def script(seed, profiles, n):
    r = random.Random(seed)
    out = []
    for i in range(n):
        out.append(SEGS[profiles[i % len(profiles)]](random.Random(r.randrange(2**60))))
    return out
