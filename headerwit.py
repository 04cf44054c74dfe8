"""Compile-fail witnesses for C17: every published size macro is compared with the size the schemes use by
_Static_assert in a generated translation unit that includes the header; a wrong size fails to compile."""
import os, re, subprocess
D, S = 'PQCLEAN_DILITHIUM2_CLEAN_', 'PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_'
NACL = {'auth_hmacsha512256': {'BYTES': 32, 'KEYBYTES': 32}, 'box_curve25519xsalsa20poly1305': {'PUBLICKEYBYTES': 32, 'SECRETKEYBYTES': 32, 'BEFORENMBYTES': 32, 'NONCEBYTES': 24, 'ZEROBYTES': 32, 'BOXZEROBYTES': 16},
        'core_salsa20': {'OUTPUTBYTES': 64, 'INPUTBYTES': 16, 'KEYBYTES': 32, 'CONSTBYTES': 16}, 'core_hsalsa20': {'OUTPUTBYTES': 32, 'INPUTBYTES': 16, 'KEYBYTES': 32, 'CONSTBYTES': 16},
        'hashblocks_sha512': {'STATEBYTES': 64, 'BLOCKBYTES': 128}, 'hashblocks_sha256': {'STATEBYTES': 32, 'BLOCKBYTES': 64}, 'hash_sha512': {'BYTES': 64}, 'hash_sha256': {'BYTES': 32},
        'onetimeauth_poly1305': {'BYTES': 16, 'KEYBYTES': 32}, 'scalarmult_curve25519': {'BYTES': 32, 'SCALARBYTES': 32}, 'secretbox_xsalsa20poly1305': {'KEYBYTES': 32, 'NONCEBYTES': 24, 'ZEROBYTES': 32, 'BOXZEROBYTES': 16},
        'sign_ed25519': {'BYTES': 64, 'PUBLICKEYBYTES': 32, 'SECRETKEYBYTES': 64}, 'stream_xsalsa20': {'KEYBYTES': 32, 'NONCEBYTES': 24}, 'stream_salsa20': {'KEYBYTES': 32, 'NONCEBYTES': 8}, 'verify_16': {'BYTES': 16}, 'verify_32': {'BYTES': 32}}
DEFAULT = {'auth': 'auth_hmacsha512256', 'box': 'box_curve25519xsalsa20poly1305', 'core': 'core_salsa20', 'hashblocks': 'hashblocks_sha512', 'hash': 'hash_sha512', 'onetimeauth': 'onetimeauth_poly1305', 'scalarmult': 'scalarmult_curve25519', 'secretbox': 'secretbox_xsalsa20poly1305', 'sign': 'sign_ed25519', 'stream': 'stream_xsalsa20'}
def nacl():
    m = {}
    for p, ks in NACL.items():
        for k, v in ks.items():
            m['crypto_%s_%s' % (p, k)] = v; m['crypto_%s_tweet_%s' % (p, k)] = v
    for d, p in DEFAULT.items():
        for k, v in NACL[p].items(): m['crypto_%s_%s' % (d, k)] = v
    return m
DIL = {D + 'CRYPTO_PUBLICKEYBYTES': 1312, D + 'CRYPTO_SECRETKEYBYTES': 2560, D + 'CRYPTO_BYTES': 2420}
SPX = {S + 'CRYPTO_SECRETKEYBYTES': 128, S + 'CRYPTO_PUBLICKEYBYTES': 64, S + 'CRYPTO_BYTES': 49856, S + 'CRYPTO_SEEDBYTES': 96}
HEADERS = [('dilithium2/api.h', DIL), ('dilithium2/params.h', dict(DIL, SEEDBYTES=32, CRHBYTES=64, TRBYTES=64, RNDBYTES=32, N=256, Q=8380417, D=13, K=4, L=4, ETA=2, TAU=39, BETA=78, GAMMA1=131072, GAMMA2=95232, OMEGA=80, CTILDEBYTES=32, POLYT1_PACKEDBYTES=320, POLYT0_PACKEDBYTES=416, POLYVECH_PACKEDBYTES=84, POLYZ_PACKEDBYTES=576, POLYW1_PACKEDBYTES=192, POLYETA_PACKEDBYTES=96)),
           ('sphincs/api.h', SPX), ('sphincs/params.h', dict(SPX_N=32, SPX_FULL_HEIGHT=68, SPX_D=17, SPX_FORS_HEIGHT=9, SPX_FORS_TREES=35, SPX_WOTS_W=16, SPX_ADDR_BYTES=32, SPX_WOTS_LOGW=4, SPX_WOTS_LEN1=64, SPX_WOTS_LEN2=3, SPX_WOTS_LEN=67, SPX_WOTS_BYTES=2144, SPX_WOTS_PK_BYTES=2144, SPX_TREE_HEIGHT=4, SPX_FORS_MSG_BYTES=40, SPX_FORS_BYTES=11200, SPX_FORS_PK_BYTES=32, SPX_BYTES=49856, SPX_PK_BYTES=64, SPX_SK_BYTES=128)),
           ('sphincs/nistapi.h', dict(CRYPTO_SECRETKEYBYTES=128, CRYPTO_PUBLICKEYBYTES=64, CRYPTO_BYTES=49856, CRYPTO_SEEDBYTES=96)), ('tweetnacl/tweetnacl.h', nacl()),
           ('common/fips202.h', dict(SHAKE128_RATE=168, SHAKE256_RATE=136, SHA3_256_RATE=136, SHA3_384_RATE=104, SHA3_512_RATE=72))]
def run(rep, info):
    n = bad = 0
    for h, ms in HEADERS:
        p = os.path.join(info['repo'], h)
        if not os.path.exists(p): rep['notes'].append('header %s not present' % h); continue
        src = os.path.join(info['tmp'], 'wit.c')
        with open(src, 'w') as f:
            f.write('#include <stddef.h>\n#include <stdint.h>\n#include "%s"\n' % p)
            for m, v in ms.items(): f.write('#ifdef %s\n_Static_assert((long long)(%s) == %dLL, "SIZE %s %d");\n#else\n#warning MISSING %s\n#endif\n' % (m, m, v, m, v, m))
        r = subprocess.run([info['clang'], '-std=gnu11', '-fsyntax-only', '-ferror-limit=0', src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        missing = set(re.findall(r'warning: MISSING (\S+)', r.stdout)); n += len(ms) - len(missing)
        wrong = re.findall(r'error: static assertion failed[^:]*: *"?SIZE (\S+) (\d+)', r.stdout)
        if r.returncode and not wrong: rep['broken'] = rep['broken'] or 'header %s does not compile: %s' % (h, r.stdout[-600:])
        for m, v in wrong:
            bad += 1
            val = re.search(r"SIZE %s %s.*?\n.*?\n.*?\n(?:.*?evaluates to '(-?\d+))?" % (m, v), r.stdout)
            rep['v'].append({'key': 'C17:macro:' + m, 'where': h, 'what': '%s in %s does not equal %s, the size the scheme uses%s' % (m, h, v, ' (it is %s)' % val.group(1) if val and val.group(1) else ''), 'path': []})
    rep['cnt']['header_witnesses'] = n
    rep['cnt']['obligations'] = rep['cnt'].get('obligations', 0) + n; rep['cnt']['discharged'] = rep['cnt'].get('discharged', 0) + n - bad
    if n < 100 and not rep['v']: rep['broken'] = rep['broken'] or 'only %d header witnesses' % n
