"""Checks of the token and key set properties C01-C19."""
import json, random
import vlib, gen_jwt, cases
from vlib import TIER, SEED

# property -> models [(module, has a thorough configuration, how its cases are
# made concrete)], profiles of the random driver scripts with the number of
# segments of each (quick)
PROPS = {
    'C01': ([('MCVerify', True, 'verify')], dict(hunt=40, sound=160, alg=60, verify=60, read=40, kid=20, history=20, reuse=30, long=60, craft=40, crowd=8)),
    'C02': ([('MCVerify', True, 'verify')], dict(hunt=24, verify=80, big=40, alg=60, kid=30, pem=20, x509=10, sound=20, reuse=30, long=20, craft=60, crowd=40, odd=10)),
    'C03': ([('MCVerify', True, 'verify')], dict(kid=160, verify=80, big=10, alg=20, x509=10, reuse=20, crowd=16)),
    'C04': ([('MCVerify', True, 'verify')], dict(hunt=20, alg=180, sound=60, verify=40, pem=20, craft=40, long=10, odd=20)),
    'C05': ([('MCTime', True, 'time'), ('MCCompose', False, 'compose')], dict(time=400, compose=60)),
    'C06': ([('MCAudience', True, 'audience'), ('MCCompose', False, 'compose')], dict(aud=400, compose=80, place=30)),
    'C07': ([('MCCompose', False, 'compose')], dict(compose=200, history=30, time=30, reuse=40)),
    'C08': ([('MCParse', True, 'parse')], dict(parse=400, claims=80, fuzz=40)),
    'C09': ([('MCClaims', True, 'claims')], dict(claims=500, parse=100, read=30)),
    'C10': ([('MCSession', True, 'session')], dict(history=300, parse=60, twins=200, place=80, nest=120)),
    'C11': ([('MCKeyList', True, 'keylist'), ('MCKeyHistory', True, 'keyhistory')], dict(jwks=250, jwkone=60, fuzz=30, crowd=24, place=40)),
    'C12': ([('MCEntry', True, 'entry')], dict(jwkone=250, jwks=60)),
    'C13': ([('MCKeyHistory', True, 'keyhistory')], dict(pem=250, kid=20, fuzz=20)),
    'C14': ([('MCCertMap', True, 'certmap')], dict(x509=160, fuzz=20)),
    'C15': ([('MCStruct', True, 'struct')], dict(struct=500)),
    'C16': ([('MCHolder', True, 'holder')], dict(status=150, parse=20)),
    'C17': ([('MCConc', True, None), ('MCVerify', False, 'verify')], dict(hunt=10, conc=40, verify=40, alg=20, compose=20, reuse=60, place=40, often=1)),
    'C18': ([('MCRead', True, 'read')], dict(hunt=10, read=200, claims=60, sound=30, long=40)),
    'C19': ([('MCParse', True, 'parse'), ('MCEntry', True, 'entry'), ('MCCertMap', True, 'certmap'), ('MCKeyHistory', True, 'keyhistory')],
            dict(hunt=10, fuzz=300, sound=30, parse=40, jwkone=40, pem=40, x509=20, jwks=20, compose=20, alg=20, odd=25)),
    'C29': ([('MCErrors', True, 'errors')], dict(errors=160, jwkone=60, jwks=20, pem=60, x509=30, verify=40, craft=30, alg=20, parse=20, fuzz=20, conc=10)),
    'C30': ([('MCOwn', True, 'own')], dict(own=160, nest=40, place=160, history=60, reuse=40, jwks=20, pem=30, x509=10, aud=40, verify=20)),
    'C32': ([('MCOwn', True, 'again')], dict(heap=500)),
}
ASSUME = ['crypto is ideal: a signature is genuine exactly if the harness made it with that key over those bytes',
          'the JSON parser, base64 alphabet and certificate parser are environment: their verdict is obtained from the libraries, not from jwt_verify_lib',
          'the wall clock is controlled by the harness and stands still during a call']

OKSTATES = ('Ok', 'none')
# what must have occurred for a run to say something about the property
NEED = {
    'C01': ['verify:Ok', 'verify:JwtVerificationFail'], 'C02': ['verify:Ok'], 'C03': ['verify:JwksKidAlgMismatch', 'verify:JwtVerificationFail', 'verify:Ok'],
    'C04': ['verify:Ok', 'verify:JwtVerificationFail', 'verify:JwtEd25519SignatureWrongLength'],
    'C05': ['time:Ok', 'time:JwtExpired', 'time:JwtNotYetValid', 'verify:JwtExpired', 'verify:JwtNotYetValid'],
    'C06': ['aud:yes', 'aud:no', 'verify:JwtAudienceNotAllowed'],
    'C07': ['verify:Ok', 'verify:JwtAudienceNotAllowed', 'verify:JwtExpired', 'verify:JwtNotYetValid', 'verify:JwtVerificationFail'],
    'C08': ['parse:Ok', 'parse:JwtBadFormat', 'parse:JwtSignatureParseErrorBadBase64', 'parse:JwtPayloadParseErrorAudNotString'],
    'C09': ['parse:Ok'], 'C10': ['via:own', 'via:assign', 'via:copy', 'parse:Ok', 'parse:JwtBadFormat'],
    'C11': ['load:Ok', 'load:JwksNoValidKeys', 'load:JwksMissingKty'], 'C12': ['load:Ok', 'load:JwksEcParseError', 'load:JwksRsaParseError', 'load:JwksOKPXWrongLength'],
    'C13': ['load:Ok', 'add:Ok', 'add:JwksPemBadBase64', 'add:JwksPemNotImplementedKty'], 'C14': ['load:Ok', 'load:JwksX509ParseError'],
    'C15': ['get:ok', 'get:missing', 'get:type', 'get:range'], 'C16': ['op:status', 'op:holder'],
    'C17': ['op:conc', 'verify:Ok', 'verify:JwtVerificationFail'], 'C18': ['verify:Ok', 'verify:JwtVerificationFail', 'parse:Ok'],
    'C19': ['op:parse', 'op:load', 'op:addpem', 'op:verify'],
    'C29': ['load:Ok', 'load:JwksEcParseError', 'load:JwksRsaParseError', 'load:JwksX509ParseError', 'load:JwksPemBadBase64', 'add:JwksPemBadBase64', 'verify:JwtVerificationFail',
            'verify:Ok', 'op:parse', 'op:conc'],
    'C30': ['op:look', 'op:drop', 'via:assign', 'via:copy', 'verify:Ok', 'aud:yes', 'add:Ok', 'load:Ok'],
    'C32': ['op:heap'],
}


def observe(e):
    op = e['op']
    out = ['op:' + op]
    if op == 'verify' or op == 'time':
        out.append('%s:%s' % (op, e['st']))
    elif op == 'parse':
        out += ['parse:' + e['fst'], 'via:' + e['via']]
    elif op == 'load':
        out.append('load:' + e['st'])
    elif op == 'addpem':
        out.append('add:' + e['res'])
    elif op == 'aud':
        out += ['aud:yes' if q['ok'] else 'aud:no' for q in e['qs']]
    elif op == 'struct':
        out += ['get:' + q['res'] for q in e['qs']]
    return out


def mutate(prop):
    """One falsified field that the lens of the property has to notice."""
    def m(e):
        op, st = e['op'], e.get('st')
        if prop == 'C01' and op == 'verify' and st == 'JwtVerificationFail':
            e['st'] = 'Ok'
        elif prop == 'C02' and op == 'verify' and st == 'Ok':
            e['st'] = 'JwtVerificationFail'
        elif prop == 'C03' and op == 'verify' and st in ('JwtVerificationFail', 'JwksKidAlgMismatch') and e['entry'] == 'sig':
            e['st'] = 'JwksKidAlgMismatch' if st == 'JwtVerificationFail' else 'JwtVerificationFail'
        elif prop == 'C04' and op == 'verify' and st in ('JwtVerificationFail', 'JwtEd25519SignatureWrongLength'):
            e['st'] = 'Ok'
        elif prop == 'C05' and op == 'time':
            e['st'] = 'Ok' if st != 'Ok' else 'JwtExpired'
        elif prop == 'C06' and op == 'aud' and e['qs']:
            e['qs'] = [dict(e['qs'][0], ok=not e['qs'][0]['ok'])] + e['qs'][1:]
        elif prop == 'C07' and op == 'verify' and st in ('JwtExpired', 'JwtAudienceNotAllowed'):
            e['st'] = 'JwtVerificationFail'
        elif prop == 'C08' and op == 'parse' and e['via'] == 'parse' and st not in OKSTATES:
            e['st'] = e['fst'] = 'Ok'
        elif prop == 'C09' and op == 'parse' and st == 'Ok':
            e['got'] = dict(e['got'], jti=e['got']['jti'] + 'x')
        elif prop == 'C10' and op == 'parse' and e['via'] == 'assign':
            e['got'] = dict(e['got'], iss=e['got']['iss'] + 'x')
        elif prop in ('C11', 'C12') and op == 'load' and st == 'Ok' and e['type'] == 'JWKS' and e['doc']['keys'] == 'list':
            e['keys'] = e['keys'][1:]
        elif prop == 'C13' and op == 'addpem':
            e['keys'] = e['keys'] + [dict(kty='RSA', kid='', alg='', crv='', mat='RSA:0')]
        elif prop == 'C14' and op == 'load' and st == 'JwksX509ParseError':
            e['keys'] = [dict(kty='RSA', kid='k1', alg='', crv='', mat='RSA:0')]
        elif prop == 'C15' and op == 'struct' and e['qs']:
            q = e['qs'][0]
            e['qs'] = [dict(q, res='missing' if q['res'] != 'missing' else 'type')] + e['qs'][1:]
        elif prop == 'C16' and op == 'status':
            e['seen'] = [[e['seen'][0][0], e['seen'][1][1]]] + e['seen'][1:]
        elif prop == 'C17' and op == 'verify' and not e['dirty']:
            e['err'] = True
        elif prop == 'C18' and op == 'verify' and st == 'JwtVerificationFail':
            e['st'] = 'Ok'
        elif prop == 'C19' and op == 'load':
            e['st'] = 'Status1000'
        elif prop == 'C29' and op in ('load', 'addpem', 'parse'):
            e['err'] = True
        elif prop == 'C30' and op == 'look' and e['slot'] < 0 and e['keys']:
            e['keys'] = [dict(e['keys'][0], kid=e['keys'][0]['kid'] + 'x')] + e['keys'][1:]
        elif prop == 'C32' and op == 'heap':
            e['growth'] = [24, 24, 24, 24, 24]
        else:
            return None
        return e
    return m


def run_models(models, quick):
    """Model checks the modules; returns (statistics, [(generator, cases)])."""
    stats, gen = [], []
    for module, deep, how in models:
        todo = [''] if quick or not deep else ['', '_t']
        cs = []
        for sfx in todo:
            r, out = vlib.model_check(module + sfx + '.cfg', module + '.tla', output=True)
            stats.append(r)
            cs = vlib.emitted(out) or cs
        if how:
            if not cs:
                raise vlib.CheckError('no cases from ' + module)
            gen.append((how, cs))
    return stats, gen


def check(prop):
    models, profiles = PROPS[prop]
    quick = TIER != 'thorough'
    binary = vlib.build('jwtdrv', ['jwtdrv.cc'], with_lib=True)
    rng = random.Random(SEED * 1000 + int(prop[1:]))
    b = vlib.Binding(prop, binary, 'JwtTrace.tla', 'JwtTrace.cfg', prop, observe=observe, mutate=mutate(prop))
    # 1. random scripts
    seed = SEED * 7919 + int(prop[1:])
    flat = [p for p in profiles for _ in range(profiles[p])]
    for i in range(1 if quick else 8):
        r = random.Random(seed + 1000 * i)
        order = flat if quick else flat * 3
        turns, segs = {}, []
        for p in order:
            k = turns[p] = turns.get(p, -1) + 1
            more = dict(turn=k) if p == 'long' else {}
            segs.append(gen_jwt.ambient(r, gen_jwt.SEGS[p](random.Random(r.randrange(2**60)), **more)))
        r.shuffle(segs)
        b.judge(segs, 'random%d' % i)
    # the steps of MCConc write nothing shared: the same scripts under the
    # thread sanitizer, which stops at the first conflicting access
    watched = 0
    if prop == 'C17':
        bt = vlib.Binding(prop, vlib.build('jwtdrv', ['jwtdrv.cc'], with_lib=True, san='t'), 'JwtTrace.tla', 'JwtTrace.cfg', prop,
                          observe=observe)
        r = random.Random(seed + 17)
        bt.judge([gen_jwt.seg_conc(random.Random(r.randrange(2**60)), rounds=3) for _ in range(40 if quick else 400)], 'watched')
        # the first calls of a process are the concurrent ones
        n = 24 if quick else 160
        for k in range(0, n, 24):
            bt.judge([gen_jwt.seg_conc(random.Random(r.randrange(2**60)), rounds=3, first=True) for _ in range(24)], 'first', shards=24)
        watched = bt.events
    # 2. the specification has the property (design level), and its cases
    # are replayed on the real code
    stats, gen = run_models(models, quick)
    made = {}
    for how, cs in gen:
        segs = getattr(cases, how)(cs, rng, quick)
        made[how] = len(cs)
        for k in range(0, len(segs), 20000):
            b.judge(segs[k:k + 20000], how)
    for k in NEED[prop]:
        if not b.seen.get(k):
            raise vlib.CheckError('vacuous run: no occurrence of ' + k)
    wrong = b.corrupted()
    if not wrong:
        raise vlib.CheckError('no trace to corrupt')
    return dict(states=sum(m['states'] for m in stats), transitions=sum(m['transitions'] for m in stats),
                traces_validated_against_impl=b.traces, events_validated=b.events, calls=b.ops,
                occurrences=b.seen, **({'events_under_thread_sanitizer': watched} if watched else {}), samples=b.sample, models=stats, model_cases_replayed=made, corrupted_traces=wrong,
                rule='random scripts (segments per profile: %s) and the cases enumerated by the models; each recorded call '
                     'judged by TLC against JwtTrace with the lens of this property' % profiles), ASSUME
