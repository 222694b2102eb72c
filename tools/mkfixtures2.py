#!/usr/bin/env python3
"""Extended harness/keys.json (committed; run once, not part of any check):
keys with leading zero bytes and unusual sizes, and signatures with chosen
numbers, made together with the key that fits them."""
import base64, hashlib, json, os, subprocess
import mkfixtures_lib as M

P = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'keys.json')
F = json.load(open(P))
K = F['keys']
b64u = M.b64u


def ec(name, crv, want):
    while True:
        k = M.ec(crv)
        x, y = base64.urlsafe_b64decode(k['x'] + '=='), base64.urlsafe_b64decode(k['y'] + '==')
        if want(x, y):
            break
    K[name] = k


K['rsa_o'] = M.rsa(2049, 65537)     # the encoded message is a byte shorter than the modulus
K['rsa_q'] = M.rsa(2055, 65537)
K['rsa_f'] = M.rsa(4096, 65537)
ec('p384_zx', 'P-384', lambda x, y: x[0] == 0)
ec('p384_zy', 'P-384', lambda x, y: y[0] == 0)
ec('p521_zx', 'P-521', lambda x, y: x[0] == 0 and x[1] == 0)
ec('p521_zy', 'P-521', lambda x, y: y[0] == 0 and x[0] == 1 and y[1] < 8)
while True:
    k = M.ed()
    if base64.urlsafe_b64decode(k['x'] + '==')[0] == 0:
        break
K['ed_z'] = k
while True:
    k = M.ed()
    if base64.urlsafe_b64decode(k['x'] + '==')[-1] == 0:
        break
K['ed_y'] = k

# ECDSA signatures (r, s) with the key Q = (s R - z G) / r for which they are genuine
CURVES = {
    'P-256': (2**256 - 2**224 + 2**192 + 2**96 - 1, 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
              0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
              (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296, 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5), 32, 'sha256', 'ES256'),
    'P-384': (2**384 - 2**128 - 2**96 + 2**32 - 1, 0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
              0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
              (0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7,
               0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f), 48, 'sha384', 'ES384'),
    'P-521': (2**521 - 1, 0x0051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00,
              0x01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409,
              (0x00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66,
               0x011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650), 66, 'sha512', 'ES512')}


def add(p, a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % p == 0:
            return None
        l = (3 * a[0] * a[0] - 3) * pow(2 * a[1], -1, p)
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], -1, p)
    x = (l * l - a[0] - b[0]) % p
    return x, (l * (a[0] - x) - a[1]) % p


def mul(p, k, a):
    r = None
    while k:
        if k & 1:
            r = add(p, r, a)
        a = add(p, a, a)
        k >>= 1
    return r


made = []
for crv, (p, b, n, g, fl, h, alg) in CURVES.items():
    def root(x):
        v = (x * x * x - 3 * x + b) % p
        y = pow(v, (p + 1) // 4, p)
        return y if y * y % p == v else None

    def upto(top):
        x = top
        while root(x) is None:
            x -= 1
        return x
    big = int.from_bytes(hashlib.sha512(crv.encode()).digest() * 2, 'big') % n
    for rr, ss in [(upto(big), 5), (upto(big), 2**(8 * fl - 24) + 1 if crv != 'P-521' else 2**(8 * fl - 30)), (upto(2**16), big), (upto(2**(8 * (fl - 3))), big), (upto(100), 1),
                   (upto(n - 1), n - 1), (upto(big), n - 1), (upto(n - 1), 2**(8 * (fl - 2))), (upto(2**128), 2**128), (upto(2**(8 * fl // 2)), 2**(8 * fl // 2) + 1)]:
        msg = b64u(json.dumps({'alg': alg}).encode()) + '.' + b64u(json.dumps({'n': len(made)}).encode())
        z = int.from_bytes(hashlib.new(h, msg.encode()).digest(), 'big')
        ri = pow(rr, -1, n)
        q = add(p, mul(p, ss * ri % n, (rr, root(rr))), mul(p, -z * ri % n, g))
        made.append(dict(alg=alg, crv=crv, x=b64u(q[0].to_bytes(fl, 'big')), y=b64u(q[1].to_bytes(fl, 'big')), msg=msg,
                         sig=(rr.to_bytes(fl, 'big') + ss.to_bytes(fl, 'big')).decode('latin1')))
F['crafted'] = made

# signing inputs whose PKCS #1 or Ed25519 signature begins (or ends) with a zero byte
lead = []
for key, alg in [('rsa_a', 'RS256'), ('rsa_a', 'RS512'), ('rsa_c', 'RS384'), ('rsa_o', 'RS256'), ('ed_a', 'EdDSA'), ('ed_b', 'EdDSA')]:
    for where in (0, -1):
        for i in range(100000):
            msg = b64u(json.dumps({'alg': alg}).encode()) + '.' + b64u(json.dumps({'n': i}).encode())
            s = M.sign(K[key]['priv'], alg, msg.encode())
            if s[where] == 0:
                break
            if alg == 'EdDSA' and where == -1 and s[32] == 0:
                break
        lead.append(dict(key=key, alg=alg, msg=msg))
F['zero'] = lead
json.dump(F, open(P, 'w'), indent=1)
