#!/usr/bin/env python3
"""Made harness/keys.json (committed; run once, not part of any check)."""
import base64, json, os, re, subprocess, sys, tempfile

D = tempfile.mkdtemp()


def sh(*a, inp=None):
    return subprocess.run(a, input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True).stdout


def b64u(b):
    return base64.urlsafe_b64encode(b).rstrip(b'=').decode()


def der(pem):
    return base64.b64decode(''.join(l for l in pem.splitlines() if not l.startswith('-----')))


CURVES = {'P-224': ('secp224r1', 28), 'P-256': ('prime256v1', 32), 'P-384': ('secp384r1', 48), 'P-521': ('secp521r1', 66),
          'secp256k1': ('secp256k1', 32)}
K = {}


def finish(name, fam, priv, **kw):
    pub = sh('openssl', 'pkey', '-pubout', inp=priv.encode()).decode()
    K[name] = dict(fam=fam, priv=priv, pub=pub, **kw)
    return pub


def rsa(name, bits, e):
    priv = sh('openssl', 'genpkey', '-algorithm', 'RSA', '-pkeyopt', 'rsa_keygen_bits:%d' % bits, '-pkeyopt',
              'rsa_keygen_pubexp:%d' % e).decode()
    n = int(sh('openssl', 'rsa', '-noout', '-modulus', inp=priv.encode()).decode().split('=')[1], 16)
    eb = e.to_bytes((e.bit_length() + 7) // 8, 'big')
    finish(name, 'RSA', priv, bits=bits, n=b64u(n.to_bytes(bits // 8, 'big')), e=b64u(eb))


def ec(name, crv, want=None):
    cv, fl = CURVES[crv]
    while True:
        priv = sh('openssl', 'genpkey', '-algorithm', 'EC', '-pkeyopt', 'ec_paramgen_curve:' + cv).decode()
        pub = sh('openssl', 'pkey', '-pubout', inp=priv.encode()).decode()
        xy = der(pub)[-2 * fl:]
        x, y = xy[:fl], xy[fl:]
        if want is None or want(x, y):
            break
    finish(name, 'EC', priv, crv=crv, x=b64u(x), y=b64u(y))


def ed(name):
    priv = sh('openssl', 'genpkey', '-algorithm', 'ED25519').decode()
    pub = finish(name, 'OKP', priv, crv='Ed25519')
    K[name]['x'] = b64u(der(pub)[-32:])


def cert(name, key, subj):
    p = os.path.join(D, 'k.pem')
    open(p, 'w').write(K[key]['priv'])
    K[key].setdefault('certs', []).append(
        sh('openssl', 'req', '-x509', '-new', '-key', p, '-subj', '/CN=' + subj, '-days', '3650').decode())


rsa('rsa_a', 2048, 65537)
rsa('rsa_b', 2048, 65537)
rsa('rsa_c', 3072, 65537)
rsa('rsa_d', 1024, 65537)
rsa('rsa_e3', 2048, 3)
rsa('rsa_e17', 2048, 17)
for n, c in (('p256_a', 'P-256'), ('p256_b', 'P-256'), ('p384_a', 'P-384'), ('p384_b', 'P-384'), ('p521_a', 'P-521'),
             ('p521_b', 'P-521'), ('p224_a', 'P-224'), ('k256_a', 'secp256k1')):
    ec(n, c)
ec('p256_zx', 'P-256', lambda x, y: x[0] == 0)
ec('p256_zy', 'P-256', lambda x, y: y[0] == 0)
for n in ('ed_a', 'ed_b', 'ed_c'):
    ed(n)
cert('a', 'rsa_a', 'a')
cert('a2', 'rsa_a', 'a two with a much longer common name')
cert('b', 'rsa_b', 'b')
cert('c', 'rsa_c', 'c')
cert('d', 'rsa_d', 'd')
cert('e3', 'rsa_e3', 'e3')
cert('ec', 'p256_a', 'ec')
cert('ed', 'ed_a', 'ed')
other = {}
x = sh('openssl', 'genpkey', '-algorithm', 'X25519')
other['x25519'] = sh('openssl', 'pkey', '-pubout', inp=x).decode()
par = sh('openssl', 'genpkey', '-genparam', '-algorithm', 'DSA', '-pkeyopt', 'dsa_paramgen_bits:1024')
pp = os.path.join(D, 'p.pem')
open(pp, 'wb').write(par)
x = sh('openssl', 'genpkey', '-paramfile', pp)
other['dsa'] = sh('openssl', 'pkey', '-pubout', inp=x).decode()
json.dump(dict(keys=K, pems=other), open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness', 'keys.json'), 'w'), indent=1)
