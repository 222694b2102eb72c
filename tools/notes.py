CACHE_T = 'TLA+ spec of the cache model-checked with TLC; TLC validates recorded traces of the real SimpleLRUCache (random histories and all transitions of a TLC state graph)'
CACHE_N = ('Exhaustive for the design within the stated small constants; for the code, every observable of every call of '
           'some 10^5 calls per run is judged by the specification. Sequential use, legal clients and a '
           'non-decreasing controlled clock are assumed; histories not driven are not decided.')
JWT_N = ('Exhaustive for the design within the stated small constants; for the code, every observable of every call of some 10^4 '
         'to 10^5 calls per run is judged by the specification (every case enumerated by the model, made concrete, and random '
         'scripts). Cryptography, JSON, base64 and certificate parsing are environment; inputs not driven are not decided.')


def jwt_t(mods):
    return ('TLA+ spec (%s) model-checked with TLC; the cases TLC enumerates and random scripts are run on the real library and '
            'TLC validates the recorded traces (JwtTrace)' % mods)


MODS = {'C01': 'JwtVerify, MCVerify', 'C02': 'JwtVerify, MCVerify', 'C03': 'JwtVerify, MCVerify', 'C04': 'JwtVerify, MCVerify',
        'C05': 'U64, JwtToken, MCTime, MCCompose', 'C06': 'Audience, MCAudience, MCCompose', 'C07': 'JwtVerify, MCCompose',
        'C08': 'JwtToken, MCParse', 'C09': 'JwtToken, MCClaims', 'C10': 'JwtToken, MCSession', 'C11': 'JwkSet, MCKeyList, MCKeyHistory',
        'C12': 'JwkSet, MCEntry', 'C13': 'JwkSet, MCKeyHistory', 'C14': 'JwkSet, MCCertMap', 'C15': 'StructAccess, MCStruct',
        'C16': 'MCHolder', 'C17': 'JwtVerify, MCConc, MCVerify', 'C18': 'JwtVerify, MCRead',
        'C19': 'JwtToken, JwkSet, MCParse, MCEntry, MCCertMap, MCKeyHistory',
        'C29': 'MCErrors', 'C30': 'JwtToken, JwkSet, MCOwn', 'C32': 'MCOwn, LruCacheTrace'}
CLAIMED = {i: (jwt_t(m), JWT_N) for i, m in MODS.items()}
CLAIMED.update({'C%d' % i: (CACHE_T, CACHE_N) for i in list(range(20, 29)) + [31]})
UNCLAIMED = {}
