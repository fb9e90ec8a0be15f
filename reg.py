"""registry: which units (contracts) decide which property"""
TRUSTED = ['Lean 4 kernel and Mathlib (number theory of C19, C20, C21; composition of hashing in C01, C02, C03, C13, C15)', 'clang 18 -O0 (+mem2reg, sroa) lowering of the C sources to LLVM IR, little-endian 64-bit', 'cvc (LLVM-IR symbolic executor, bit-level equivalence engine and invariant inference, this repository)',
           'z3 4.x as back end of the unbounded-length contracts', 'specification functions in /verif/spec, validated against published test vectors',
           'ocvc (symbolic executor for the OCaml Parsetree with class invariants and Houdini inference, this repository), the OCaml 4.14 parser of compiler-libs, z3',
           'OCaml Stdlib functions (Bytes, String, Char, Int64, List, input, output, ...) as modelled in ocvc/builtins_ml.py and in the contracts',
           'OCaml runtime macros and entry points as modelled in cvc/ocamlrt.py (every allocation moves every unrooted block)']
T_C = 'contracts on the C functions, discharged for all inputs by symbolic execution of their LLVM IR, bit-level equivalence and SMT with inductive loop invariants'
T_O = 'contracts on the OCaml functions and classes, discharged for all inputs by symbolic execution of their Parsetree and SMT with inductive invariants'
T_S = '; OCaml layer: bounded stand-in'
T_B = 'bounded stand-in (replay battery against an independent oracle)'
H_MD = ['u_hash:sha1-*', 'u_hash:sha256-*', 'u_hash:sha512-*', 'u_hash:ripemd160-*', 'u_stream:sha1-update', 'u_stream:sha256-update', 'u_stream:sha512-update', 'u_stream:ripemd160-update', 'u_rng:md5-glue']
H_SHA3 = ['u_hash:sha3-*', 'u_stream:sha3-*']
H_B2 = ['u_hash:blake2*', 'u_stream:blake2*']
H_SIP = ['u_hash:siphash-*', 'u_stream:siphash-*']
AES = ['u_block:aes-*', 'u_glue:aesni-detect']; DES = ['u_block:des-*']; BF = ['u_block:blowfish-*']; GH = ['u_block:ghash-*', 'u_glue:pclmul-detect']
CHA = ['u_hash:chacha20-*', 'u_misc:chacha20-*']; RC4 = ['u_misc:arcfour-*']; XOR = ['u_misc:xor*']; BYTE = ['u_rng:bytecode']
AESENC = ['u_block:aes-spec-*', 'u_block:aes-*-encrypt-*', 'u_glue:aesni-detect']
POLY = ['u_poly:*']; ZLIB = ['u_rng:zlib-*']; WIPEZ = ['u_misc:wipe-z']; B3 = ['u_blake3:*']
A_LEN = 'preconditions of the C primitives: offsets and lengths satisfy 0 <= n < 2^56 and ofs + len <= size of the string (discharged at every call site of the OCaml classes under contract, see C16 and C17)'
A_IT = 'loops with symbolic trip counts run fewer than 2^56 iterations'
A_ALIAS = 'source and destination of a transform are distinct strings or exactly the same range of the same string'
A_RT = 'OCaml runtime entry points (allocation, custom blocks, local roots) behave as modelled; every allocation moves every block that is not a registered root'
A_IR = 'gcc compiles the sources to code that behaves like the LLVM IR that clang 18 produces from them (same flags, x86-64, little endian)'
A_ML = 'OCaml functions of this property that are not listed under contract: covered by the bounded stand-in only'
A_OC = 'OCaml: the compiler implements the language semantics that ocvc assumes (evaluation order of method and function arguments does not matter for the code under contract; no concurrent mutation)'
A_COMP = 'collaborators (block cipher, padding scheme, hash, transform objects given as arguments) satisfy their class contract; the contracts compose by the argument in DESIGN.md'
Z_FACTS = 'operations of Zarith and GMP (powm, powm_sec, rem, erem, div, gcd, lcm, invert, numbits, nextprime, of_bits, to_bits) satisfy their documentation; nextprime returns a prime (probabilistic in GMP)'
Z_LOOP = 'key and parameter generation: partial correctness (the random search for primes and exponents is not proved to end)'
A_X = {'C01': ['caml_MD5Init, caml_MD5Update and caml_MD5Final of the OCaml runtime compute MD5 (assumed contract)', 'digests are defined as the fold of the (proved) compression function over the blocks and counters that the update and final contracts name; histories of calls compose by lemmas/Tree.lean'],
 'C02': ['SIMD degree 1 (the build disables all SIMD code of BLAKE3); get_cpu_features is not executed', 'tree composition: the size facts that the contracts of merge and finalize take as hypotheses are those of lemmas/Tree.lean (reach_merge, reach_folds, fold_tree); that hypotheses and conclusions match is by reading', 'messages of less than 2^62 bytes'],
 'C12': ['Poly1305 block loop: the one-block contract (polynomial identity over the integers) is applied at every iteration'],
 'C25': ['deflate, inflate and their init functions of zlib satisfy their documented contract (assumed), in particular inflate undoes deflate', 'flush and finish loops: partial correctness'],
 'C19': [Z_FACTS, Z_LOOP, 'valid supplied keys: numbits(n) <= size, p and q odd primes, n = p q, e d = 1 modulo p-1 and q-1, qinv q = 1 modulo p'],
 'C20': [Z_FACTS, Z_LOOP, 'parameters: p >= 1'], 'C21': [Z_FACTS, Z_LOOP], 'C22': [Z_FACTS, 'modulus at least 1'],
 'C26': ['getentropy and rdrand deliver random bytes when they report success (assumed)']}
O_MODE = ['o_mode:*', 'o_misc:construct-*']; O_BLK = ['o_block:*']; O_CIPH = ['o_cipher:*']; O_PAD = ['o_util:pad-*', 'o_util:strip-*']
O_HASH = ['o_hash:hash-*']; O_KEYED = ['o_hash:mac-*']; O_HMAC = ['o_hash:hmac-*']; O_MAC = ['o_mac:*', 'o_util:shl1*']; O_GCM = ['o_aead:gcm-*', 'o_aead:ghash-string', 'o_aead:counter0']
O_CP = ['o_aead:chapoly-*']; O_RNG = ['o_rng:*']; O_WIPE = ['o_misc:wipe-*', 'o_misc:construct-*', 'o_util:wipe-bytes']
O_RSA = ['o_pk:rsa-*', 'o_pk:lemma-rsa', 'o_bn:*']; O_DH = ['o_pk:dh', 'o_pk:lemma-dh', 'o_bn:*']; O_DER = ['o_pk:derive-key', 'o_hash:hash-sha256*', 'o_comb:strings']; O_PAIL = ['o_pk:paillier-*', 'o_pk:mod-utilities', 'o_pk:lemma-paillier', 'o_bn:*']
O_B64 = ['o_codec:base64-*', 'o_codec:lemma-base64', 'o_codec:makers-*']; O_HEX = ['o_codec:hexa-*', 'o_codec:lemma-hexa', 'o_codec:makers-other']; O_Z = ['o_zlib:*']
PROPS = {
 'C01': dict(level='proof', units=H_MD + H_SHA3 + H_B2 + O_HASH + ['u_lemma:history']),
 'C02': dict(level='proof', units=B3 + ['u_lemma:*'] + ['o_hash:hash-blake3*', 'o_hash:mac-blake3*']),
 'C03': dict(level='proof', units=H_MD + H_SHA3 + H_B2 + H_SIP + B3 + ['u_lemma:*'] + ['o_hash:*', 'o_mac:*']),
 'C04': dict(level='proof', units=AES + ['o_block:aes-*']),
 'C05': dict(level='proof', units=DES + BF + ['o_block:*des-*', 'o_block:blowfish-*']),
 'C06': dict(level='proof', units=AES + GH),
 'C07': dict(level='proof', units=XOR + AES + DES + ['u_block:blowfish-encrypt', 'u_block:blowfish-decrypt'] + O_MODE + O_BLK),
 'C09': dict(level='proof', units=CHA + RC4 + XOR + POLY + ZLIB + O_CIPH + ['o_comb:compose', 'o_codec:*-get', 'o_zlib:*-get']),
 'C10': dict(level='proof', units=CHA + RC4 + BYTE + ['o_block:arcfour*', 'o_block:chacha20*', 'o_block:cipher-stream', 'o_cipher:stream-*']),
 'C11': dict(level='proof', units=AESENC + GH + XOR + O_GCM),
 'C12': dict(level='proof', units=CHA + POLY + O_CP),
 'C13': dict(level='proof', units=H_MD + XOR + O_HMAC + ['u_lemma:history']),
 'C14': dict(level='proof', units=AESENC + DES + XOR + O_MAC + O_PAD),
 'C15': dict(level='proof', units=H_SIP + H_B2 + O_KEYED + ['u_lemma:history']),
 'C16': dict(level='proof', units=CHA + RC4 + XOR + AES + DES + ['u_block:blowfish-encrypt', 'u_block:blowfish-decrypt', 'u_stream:*', 'u_rng:*', 'u_poly:update', 'u_poly:blocks', 'u_blake3:update', 'u_blake3:chunk-update', 'u_blake3:stubs'] + ['o_mode:*', 'o_block:*', 'o_cipher:*', 'o_hash:*', 'o_mac:*', 'o_aead:*', 'o_rng:*', 'o_misc:xor-*', 'o_codec:*', 'o_zlib:*']),
 'C18': dict(level='proof', units=CHA + ['o_mode:ctr*', 'o_mode:increment-counter', 'o_aead:*']),
 'C19': dict(level='proof', units=O_RSA + WIPEZ),
 'C20': dict(level='proof', units=['u_hash:sha256-*', 'u_stream:sha256-update'] + WIPEZ + O_DH + O_DER),
 'C21': dict(level='proof', units=O_PAIL + WIPEZ),
 'C22': dict(level='proof', units=WIPEZ + ['o_bn:*', 'o_pk:mod-utilities']),
 'C23': dict(level='proof', units=O_B64),
 'C24': dict(level='proof', units=O_HEX),
 'C25': dict(level='proof', units=ZLIB + BYTE + O_Z),
 'C26': dict(level='proof', units=['u_rng:system', 'u_rng:hardware*', 'u_glue:system-rng'] + CHA + AESENC + O_RNG),
 'C27': dict(level='proof', units=WIPEZ + ZLIB + ['u_glue:*', 'u_hash:sha3-wipe', 'u_blake3:stubs', 'u_glue:ghash-wipe'] + O_WIPE + ['o_block:*', 'o_hash:*', 'o_mac:*', 'o_aead:*', 'o_comb:*', 'o_rng:*', 'o_codec:*-misc', 'o_zlib:*-misc', 'o_pk:*wipe-key', 'o_pk:dh', 'o_bn:*bytes*', 'o_bn:random*']),
 'C28': dict(level='proof', units=XOR + ['o_util:seq-equal', 'o_misc:xor-*']),
 'C30': dict(level='proof', units=['u_block:aes-*', 'u_block:des-*', 'u_block:blowfish-encrypt', 'u_block:blowfish-decrypt', 'u_block:ghash-*', 'u_hash:*', 'u_stream:*', 'u_misc:*', 'u_rng:*', 'u_glue:*', 'u_block:blowfish-setup-4', 'u_block:blowfish-setup-56'] + POLY + B3),
 'C31': dict(level='proof', units=H_MD + ['o_comb:strings', 'o_comb:*channel*']),
 'C08': dict(level='proof', units=O_PAD + ['o_cipher:block-cipher-padded-*']),
 'C17': dict(level='proof', units=['u_hash:*-init*', 'u_misc:arcfour-cook*', 'u_blake3:stubs', 'u_rng:zlib-*', 'o_misc:construct-*', 'o_block:*', 'o_hash:*', 'o_mac:MAC-*', 'o_mac:incompatible', 'o_aead:*', 'o_rng:*', 'o_pk:*new-key*', 'o_pk:dh']),
 'C29': dict(level='proof', units=H_MD + ['o_comb:transform-*hash', 'o_comb:auth-check', 'o_comb:strings']),
}
for _i in range(1, 32): PROPS.setdefault('C%02d' % _i, dict(level='proof', units=[]))
def _tech(us):
    c = any(u.startswith('u_') for u in us); o = any(u.startswith('o_') for u in us)
    return '; '.join(([T_C] if c else []) + ([T_O] if o else [])) + ('' if o or not c else T_S) if us else T_B
NOTE = 'Every function of the library that the property depends on is under contract and every obligation is discharged on every run, for all inputs; assumptions and trusted base are listed in the evidence. A bounded battery runs beside the proof (replay of counterexamples, stand-in for a unit that does not attach).'
FULL = tuple(PROPS)     # properties whose functions are all under contract
for _k, _p in PROPS.items():
    _p.setdefault('technique', _tech(_p['units'])); _p.setdefault('note', NOTE)
    a = list(A_X.get(_k, []))
    if any(u.startswith('u_') for u in _p['units']): a += [A_LEN, A_IT, A_RT, A_IR]
    if any(u.startswith('o_') for u in _p['units']): a += [A_OC, A_COMP]
    if any(u.split(':')[0] in ('u_misc', 'u_block') for u in _p['units']): a.append(A_ALIAS)
    if _k not in FULL: a.append(A_ML)
    _p.setdefault('assumptions', a)
