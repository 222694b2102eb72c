"""Helpers of mkfixtures2.py."""
import base64, os, subprocess, tempfile

D = tempfile.mkdtemp()
CURVES = {'P-256': ('prime256v1', 32), 'P-384': ('secp384r1', 48), 'P-521': ('secp521r1', 66)}


def sh(*a, inp=None):
    return subprocess.run(a, input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True).stdout


def b64u(b):
    return base64.urlsafe_b64encode(b).rstrip(b'=').decode()


def der(pem):
    return base64.b64decode(''.join(l for l in pem.splitlines() if not l.startswith('-----')))


def finish(fam, priv, **kw):
    pub = sh('openssl', 'pkey', '-pubout', inp=priv.encode()).decode()
    return dict(fam=fam, priv=priv, pub=pub, **kw)


def rsa(bits, e):
    priv = sh('openssl', 'genpkey', '-algorithm', 'RSA', '-pkeyopt', 'rsa_keygen_bits:%d' % bits, '-pkeyopt', 'rsa_keygen_pubexp:%d' % e).decode()
    n = int(sh('openssl', 'rsa', '-noout', '-modulus', inp=priv.encode()).decode().split('=')[1], 16)
    k = finish('RSA', priv, bits=bits, n=b64u(n.to_bytes((bits + 7) // 8, 'big')), e=b64u(e.to_bytes((e.bit_length() + 7) // 8, 'big')))
    p = os.path.join(D, 'k.pem')
    open(p, 'w').write(priv)
    k['certs'] = [sh('openssl', 'req', '-x509', '-new', '-key', p, '-subj', '/CN=rsa%d' % bits, '-days', '3650').decode()]
    return k


def ec(crv):
    cv, fl = CURVES[crv]
    priv = sh('openssl', 'genpkey', '-algorithm', 'EC', '-pkeyopt', 'ec_paramgen_curve:' + cv).decode()
    k = finish('EC', priv, crv=crv)
    xy = der(k['pub'])[-2 * fl:]
    k.update(x=b64u(xy[:fl]), y=b64u(xy[fl:]))
    return k


def ed():
    k = finish('OKP', sh('openssl', 'genpkey', '-algorithm', 'ED25519').decode(), crv='Ed25519')
    k['x'] = b64u(der(k['pub'])[-32:])
    return k


def sign(priv, alg, msg):
    p, m = os.path.join(D, 's.pem'), os.path.join(D, 'm')
    open(p, 'w').write(priv)
    open(m, 'wb').write(msg)
    if alg == 'EdDSA':
        return sh('openssl', 'pkeyutl', '-sign', '-inkey', p, '-rawin', '-in', m)
    return sh('openssl', 'dgst', '-sha' + alg[2:], '-sign', p, m)
