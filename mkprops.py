# Authoring helper (run by hand): writes properties.jsonl
import json
H='hybrid-dilithium-sphincs/hybrid.c'
def P(id,title,st,over,text,why,files,mech,obs=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None))
T="The suite signs 32-byte messages with a handful of keys; "
props=[
P('C01','Full-mode acceptance requires all three schemes to verify',
 'Opening or verifying a full-mode hybrid signature reports success only if the Ed25519, the Dilithium and the SPHINCS+ component signatures inside it each verified successfully. All three must have been checked over the very message that is carried in (and returned from) the signature, each with its own slice of the signature and its own slice of the supplied public key.',
 ['inputs'],'every byte string presented as signature, every length, every public key, every message length 1..64',
 T+'the full-mode verify/tamper test is skipped and a forged component that the other two would accept never occurs in it.',
 [H],[('three verification calls whose results gate the success return','crypto_sign_dilithium_ed25519_sphincs_open'),('delegation','crypto_verify_dilithium_ed25519_sphincs')],['return value of full-mode open and verify']),
P('C02','Compact acceptance requires both schemes over the nonce-bound digest',
 'Opening or verifying a compact-mode hybrid signature reports success only if the Ed25519 and the Dilithium component signatures both verified over SHA3-512(nonce || message || SPHINCS+ public key), where nonce and message are those carried in the signature and the SPHINCS+ key is the one in the supplied public key. The message handed back is exactly the message that entered that digest.',
 ['inputs'],'every signature byte string and length, every public key, every message length 1..64',
 T+'tampering is sampled as +1 on single bytes of one signature of one length, so a dropped or mis-sliced check on other inputs is invisible.',
 [H],[('digest recomputation and two gated verification calls','crypto_sign_compact_dilithium_ed25519_sphincs_open')],['return value of compact open and verify']),
P('C03','Detached verification accepts only the exact signed message',
 'The detached verification functions of both hybrid modes report success only if the caller-supplied message has the same length as, and is byte-for-byte equal to, the message carried in a signature that the corresponding open function accepted. The standalone Dilithium verification reports success only if Dilithium accepted exactly the supplied message, signature, length and key.',
 ['inputs'],'every pair of (supplied message, signature), all lengths',
 T+'detached verification is called with the right message or with one fixed wrong variant; prefixes, extensions and late-byte differences are not enumerated.',
 [H],[('length and byte comparison loop','crypto_verify_dilithium_ed25519_sphincs, crypto_verify_compact_dilithium_ed25519_sphincs'),('delegation','crypto_verify_dilithium')],['return value of the detached verify functions']),
P('C04','Signature envelopes are mode-tagged and length-exact',
 'A hybrid signature is accepted only if its first byte is the identifier of the mode being verified, its second byte is a message length between 1 and 64, and the supplied total length equals exactly the fixed overhead of that mode plus that message length. A compact signature is never accepted by the full-mode functions or vice versa, and no trailing or missing byte is tolerated.',
 ['inputs'],'every total length (including 0 and the 64-bit maximum) and every value of the two header bytes',
 T+'only one message length and its exact total length are presented.',
 [H],[('identifier, length-byte and total-length tests','both open functions')],['return value of open']),
P('C05','Hybrid API calls stay inside the documented buffers',
 'For every input, no hybrid-level key generation, seed expansion, signing, opening or verification call reads or writes outside the buffers it was given: keys of the documented sizes, at most the stated number of message and signature bytes, an output signature buffer of the documented length and a message output buffer of 64 bytes. Its internal scratch buffers are never over-run, and inputs (messages, signatures, keys passed in, and seeds) are never modified.',
 ['inputs'],'every argument combination with documented buffer sizes; every signature length and header byte value',
 T+'buffers in the tests are larger than required and lengths never vary, so an over-read or over-write does not show.',
 [H,'common/hybrid-common.c','common/shake_prng.c'],[('length tests before indexing; fixed-size scratch arrays','all functions in hybrid.c')],['memory accesses']),
P('C06','Key layout written by key generation is the one every reader uses',
 'Key generation places the Ed25519, Dilithium and SPHINCS+ keys derived from the respective parts of the seed at the documented positions of the public and secret keys, filling every byte. Signing uses, for each scheme, exactly the secret-key bytes that key generation stored for it, and verification uses exactly the public-key bytes stored for it; the SPHINCS+ public key bound into compact signatures when signing equals the one bound when verifying.',
 ['inputs'],'every seed, key and message; every byte position',
 T+'a slice shifted consistently, or one only used in full mode, still round-trips in the tests.',
 [H],[('copy loops with the layout constants','keypair_seed, sign and open functions')],['generated keys; key slices reaching the component schemes']),
P('C07','A randomness failure is always reported, never signed over',
 'If the operating-system randomness source reports a failure at any point of key generation or signing, at hybrid level or in any component scheme, the call returns a non-zero code instead of reporting success. No success is ever reported for keys or signatures derived from a buffer the randomness source did not fill.',
 ['fault_sequences'],'every randomness request reachable from key generation or signing failing, singly or together',
 'The tests never make the randomness source fail during key generation or signing.',
 [H,'dilithium2/sign.c','sphincs/sign.c','tweetnacl/tweetnacl.c','random/randombytes.c'],[('result test after every randomness request and propagation by every caller','callers of randombytes')],['return values']),
P('C08','Random byte requests are filled completely by the OS or fail',
 'A random byte request of any size that reports success has written every requested byte with output of the operating-system generator and nothing else. Short reads and interruptions are continued from where they stopped, every other error is reported as failure, and no request writes beyond the requested length.',
 ['fault_sequences','inputs'],'every request size and every sequence of short reads, interruptions and errors from the OS call',
 'The tests inject a few return values for small sizes; arbitrary sequences of partial results are not enumerated.',
 ['random/randombytes.c'],[('chunked getrandom loop','randombytes_linux_randombytes_getrandom'),('dispatch','randombytes')],['buffer contents and return value of randombytes']),
P('C09','Seeded key generation, expansion and verification are deterministic',
 'Seeded key generation, seed expansion, hashing, opening and verification never consume operating-system randomness, time, environment, files or other ambient state: their outputs are a function of their arguments only. The random draw of unseeded key generation is only the seed, so seeded and unseeded key generation share one derivation.',
 ['histories','configurations'],'every call in every process state',
 'Tests compare a few runs; a data-dependent or rare dependency on ambient state does not show.',
 [H,'dilithium2/sign.c','sphincs/sign.c','tweetnacl/tweetnacl.c','common/shake_prng.c'],[('absence of calls to the randomness source or OS from these entry points','call graph')],['outputs for equal arguments']),
P('C10','The library keeps no mutable shared state',
 'No function of the library keeps mutable state that outlives a call or is shared between calls: concurrent calls on distinct buffers cannot interfere and the result of a call never depends on earlier calls. All shared tables are read-only.',
 ['schedules','histories'],'every interleaving of calls from any number of threads; every call history',
 'The tests are single threaded and repeat the same call sequence.',
 ['common/fips202.c','dilithium2/ntt.c','tweetnacl/tweetnacl.c','random/randombytes.c',H],[('constant tables and stack-only working state','all sources')],['outputs under concurrency']),
P('C11','Hash contexts follow initialise-absorb-finalise-squeeze-release',
 'On every path through the library each incremental or streaming hash context is initialised before it is used, finalised exactly once between its last absorb and its first squeeze, never used after it is released, and released exactly once before its owner returns. No context is leaked, used uninitialised or absorbed into after finalisation.',
 ['inputs','histories'],'every path through every function that owns a hash context',
 'Only the paths of a few signatures run; with stack-based contexts a lifecycle error usually leaves the test vectors unchanged.',
 ['common/fips202.c','common/shake_prng.c','dilithium2/sign.c','dilithium2/poly.c','sphincs/hash_shake.c'],[('call order at every user of the context API','users of shake*/sha3* contexts')],['hash outputs; context ownership']),
P('C12','Secret keys never steer branches or memory addresses',
 'While signing and generating keys, no branch decision and no memory address depends on secret key material or on secret intermediate values, except for the rejection decisions that the schemes specify and values that are published in the signature or public key. This holds for the hybrid layer and for all three component schemes.',
 ['inputs'],'every secret key, seed and message',
 'Functional tests cannot observe timing or address traces.',
 [H,'dilithium2/sign.c','dilithium2/poly.c','sphincs/sign.c','sphincs/wotsx1.c','tweetnacl/tweetnacl.c'],[('branch-free arithmetic on secret data','signing and key generation paths')],['branch conditions and addresses']),
P('C13','A rejected signature releases nothing',
 'When opening a hybrid signature fails for whatever reason, the caller\'s message buffer and length are left untouched; when it succeeds, exactly the signed message and its length are written and nothing beyond. When hybrid signing fails, no signature bytes or length are reported.',
 ['inputs','fault_sequences'],'every rejected input and every internal failure',
 'The tests look only at return codes after a failure.',
 [H],[('outputs are written after the last check','open and sign functions')],['caller buffers after a failing call']),
P('C14','The Dilithium verifier enforces every acceptance condition',
 'Dilithium verification succeeds only for a signature of exactly the specified length whose response vector passes the norm bound, whose hint is canonically encoded (counts non-decreasing and at most 80, indices strictly increasing within each polynomial, unused positions zero), and whose complete challenge equals the one recomputed from the message, the public key and the reconstructed commitment. Every byte of the message and of the public key enters that recomputation.',
 ['inputs'],'every signature, message and public key',
 T+'non-canonical hints, over-large responses and partially matching challenges never arise.',
 ['dilithium2/sign.c','dilithium2/packing.c','dilithium2/poly.c','dilithium2/polyvec.c'],[('length, decode, norm and challenge comparison gates','PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify'),('canonical decoding','PQCLEAN_DILITHIUM2_CLEAN_unpack_sig'),('norm test','poly_chknorm')],['return value of Dilithium verification']),
P('C15','Seed expansion uses the whole seed with the documented split',
 'Expanding a 96-byte seed produces 160 bytes in which the Dilithium part equals the last 32 seed bytes verbatim and the Ed25519 and SPHINCS+ parts are the domain-separated extendable-output expansion of the first 64 seed bytes. Every byte of the input seed influences the expanded seed and every output byte is defined. The general-purpose expander returns, for every seed of at least 32 bytes and every larger output length, exactly the requested prefix of that expansion of the whole seed, and refuses every other combination without writing.',
 ['inputs'],'every 96-byte seed; every seed byte position',
 'One known-answer vector cannot reveal that a seed byte is ignored.',
 [H,'common/shake_prng.c'],[('copy of the seed and call of the expander','crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander'),('domain byte','seedexpander_init')],['expanded seed']),
P('C16','Signing emits a complete, correctly bound hybrid signature',
 'When hybrid signing reports success, every component signer reported success on the same content (the message in full mode; SHA3-512 of nonce, message and SPHINCS+ public key in compact mode), and the output consists of exactly the documented fields in the documented order with the reported total length. In compact mode the nonce is 40 bytes freshly drawn from the randomness source, and that same nonce is both hashed and emitted.',
 ['inputs','fault_sequences'],'every message of 1..64 bytes, every key, every component failure',
 T+'a nonce that is partly constant or a field misplaced only for some lengths round-trips.',
 [H],[('field copies into the output after the success tests','both sign functions')],['signature bytes and length']),
P('C17','Size constants agree across all layers and headers',
 'The key, seed and signature sizes that the hybrid layer, the public headers and each component scheme publish agree with one another and with the number of bytes the schemes actually read and write. Composite sizes are the sums of their documented parts.',
 ['configurations'],'every published size constant and every accessor',
 'Tests hard-code their own sizes and use generous buffers.',
 ['common/hybrid-common.c','hybrid-dilithium-sphincs/hybrid.h','dilithium2/api.h','dilithium2/params.h','sphincs/api.h','sphincs/params.h','tweetnacl/tweetnacl.h','wasm/hybrid-pqc.c'],[('constant definitions','headers and hybrid-common.c')],['constants; accessor return values']),
P('C18','Dilithium releases a signature only after every rejection test',
 'Dilithium signing returns a signature only after, for that very attempt, the response norm, the low-bits norm, the hint-commitment norm and the hint count all passed their specified bounds. Every attempt derives its masking vector from the secret key, the complete message digest and an attempt counter that advances with every attempt.',
 ['inputs'],'every key and message, every number of rejected attempts',
 'Signatures that skip a rejection test still verify in nearly all cases, and multi-attempt signings are not inspected.',
 ['dilithium2/sign.c','dilithium2/poly.c','dilithium2/polyvec.c'],[('four rejection branches before the packing','PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_signature')],['released signatures']),
P('C19','The WebAssembly wrappers forward faithfully',
 'Each exported WebAssembly wrapper passes its arguments unchanged and in order to the library operation it is named after, and returns that operation\'s result unchanged. The memory wrappers allocate the requested size, and the release wrapper clears the stated number of bytes before releasing.',
 ['inputs'],'every argument tuple',
 'The wrappers are not part of the native build or tests.',
 ['wasm/hybrid-pqc.c'],[('one-line delegations','dp_* functions')],['return values and output buffers of wrappers']),
P('C20','Null pointers and bad message lengths are rejected up front',
 'Every hybrid-level entry point returns a non-zero code, without touching any buffer, when any pointer argument is null, and the signing and detached verification entry points do so when the message length is zero or exceeds 64.',
 ['inputs'],'every combination of null arguments and every 64-bit length',
 'The tests only pass valid arguments.',
 [H,'common/shake_prng.c'],[('guard at function entry','all functions in hybrid.c and seedexpander_wrapper')],['return value']),
P('C21','SHA3 and SHAKE variants use their standard parameters',
 'Each SHA3 and SHAKE function, one-shot, streaming or incremental, absorbs and squeezes with the rate that its security level prescribes, applies the domain-separation and padding bytes prescribed for its family, and produces exactly the number of output bytes its name or argument states.',
 ['inputs'],'every variant and every input length',
 'Only SHA3-512 and SHAKE-128/256 on a few lengths are reached by the tests.',
 ['common/fips202.c','common/fips202.h'],[('rate and suffix arguments at the sponge calls','fips202.c')],['hash outputs']),
P('C22','SPHINCS+ hash addresses keep distinct uses apart',
 'Every secret-value derivation and every tree, chain or compression hash in SPHINCS+ is made with an address whose type identifies its use and whose layer, tree, key-pair, chain and position fields identify its place, so no two different places share an address. Signing and verification address the same place identically.',
 ['inputs'],'every message digest, every layer, tree, leaf and chain position',
 'A consistent error in signing and verification round-trips; no SPHINCS+ signature vector is pinned.',
 ['sphincs/fors.c','sphincs/wots.c','sphincs/wotsx1.c','sphincs/merkle.c','sphincs/sign.c','sphincs/utils.c','sphincs/utilsx1.c','sphincs/address.c','sphincs/shake_offsets.h'],[('address setters before every hash','fors, wots, merkle, treehash')],['hash inputs']),
P('C23','Authenticated encryption releases plaintext only after authentication',
 'The secret-key and public-key authenticated decryption functions write decrypted output and report success only after the authenticator over the whole ciphertext has been checked; on a mismatch or a too-short input they fail. Key-pair generation for them fails if randomness fails.',
 ['inputs'],'every ciphertext, key and nonce',
 'These functions are not exercised by the tests.',
 ['tweetnacl/tweetnacl.c'],[('authenticator comparison before the stream XOR','crypto_secretbox_xsalsa20poly1305_tweet_open')],['return value and output buffer']),
P('C24','Ed25519 opening checks the whole signature over the whole message',
 'Ed25519 opening succeeds only if the input holds a complete signature, the public key decodes to a curve point, and all 32 bytes of the recomputed commitment equal those in the signature, the challenge being the SHA-512 hash of commitment, public key and complete message. On success exactly the message after the signature is returned; on failure the message output is cleared.',
 ['inputs'],'every signed message and key',
 T+'low-order encodings, short inputs and late-byte differences are not presented.',
 ['tweetnacl/tweetnacl.c'],[('unpackneg result test, 32-byte comparison','crypto_sign_ed25519_tweet_open')],['return value and output of Ed25519 open']),
P('C31','Ed25519 signing derives its nonce from the secret prefix and the whole message',
 'For every key and message, Ed25519 signing computes the nonce as the SHA-512 hash of the secret prefix (second half of the hash of the secret seed) and the complete message, commits to that nonce, and answers with nonce plus challenge times the clamped secret scalar, the challenge being the SHA-512 hash of commitment, public key and complete message; the signed output is commitment, response and message. Two different messages therefore never share a nonce. A key pair made from a seed is the public key of the clamped hash of all 32 seed bytes, and the secret key is seed followed by public key.',
 ['inputs'],'every seed, key and message of every length',
 T+'a nonce that ignores part of the message or key still verifies; it leaks the key only across two chosen messages.',
 ['tweetnacl/tweetnacl.c'],[('nonce, challenge and response','crypto_sign_ed25519_tweet'),('seeded key pair','crypto_sign_ed25519_keypair_seed'),('SHA-512','crypto_hash_sha512_tweet')],['signature bytes','key bytes']),
P('C25','Component schemes never access memory out of bounds',
 'For every signature, message and public key of the documented sizes, including malformed ones, the key generation, signing and verification code of Dilithium, SPHINCS+ and Ed25519, the authenticated encryption of TweetNaCl and the hash functions under them access only the buffers they were given and their own scratch space within bounds, and never write through inputs.',
 ['inputs'],'every content of every buffer; all hint encodings; all digests',
 'Malformed encodings that would drive an index out of range are not presented by the tests.',
 ['dilithium2/packing.c','dilithium2/poly.c','dilithium2/sign.c','sphincs/sign.c','sphincs/fors.c','sphincs/wots.c','common/fips202.c','tweetnacl/tweetnacl.c'],[('bounds in decoders and fixed loop limits','unpack_sig, rejection samplers, tree hashing')],['memory accesses']),
P('C26','SPHINCS+ verification binds message, key and every path node',
 'SPHINCS+ verification succeeds only for a signature of exactly the specified length for which all 32 bytes of the recomputed hypertree root equal the root in the public key. That root is recomputed from the digest of the complete message, randomizer and public key, and every byte of the signature enters the recomputation.',
 ['inputs'],'every signature, message and public key',
 'One signature with a few message variants is tried; ignored signature bytes or a partial comparison do not show.',
 ['sphincs/sign.c','sphincs/fors.c','sphincs/wots.c','sphincs/utils.c','sphincs/hash_shake.c'],[('length test, hash chain and final comparison','PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_verify')],['return value of SPHINCS+ verification']),
P('C32','SPHINCS+ signing derives every part from key, message and fresh randomness',
 'On success SPHINCS+ signing has derived its randomizer from the secret PRF key, 32 freshly drawn random bytes and the complete message, and the signature consists of that randomizer, the few-time signature selected by the digest of randomizer, public key and complete message, and 17 one-time signatures with authentication paths at the hypertree position given by the same digest, each signing the root below it. A randomness failure is reported. Seeded key generation uses the three 32-byte parts of the seed as secret seed, PRF key and public seed, and publishes the public seed and the root of the top tree.',
 ['inputs','fault_sequences'],'every key, message of every length, random draw and digest',
 'No SPHINCS+ signature vector is pinned and one signature of one message length is made; a randomizer that ignores part of the message, or a reused position, still verifies.',
 ['sphincs/sign.c','sphincs/hash_shake.c','sphincs/fors.c','sphincs/merkle.c','sphincs/wotsx1.c','sphincs/utilsx1.c'],[('randomizer, digest, FORS and layer loop','PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_signature'),('key generation','PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign_seed_keypair')],['signature bytes','key bytes']),
P('C33','Dilithium key generation derives the whole key pair from the whole seed',
 'Seeded Dilithium key generation expands all 32 seed bytes into the public matrix seed, the secret-vector seed and the signing key seed, samples every coefficient of the two secret vectors from its own part of the expansion, and publishes matrix seed and high part of t = A s1 + s2. The secret key holds matrix seed, signing key seed, the hash of the complete public key, both secret vectors and the low part of that same t. Unseeded generation does the same with 32 freshly drawn bytes.',
 ['inputs'],'every 32-byte seed',
 'A handful of seeds is used; a key pair whose secret vectors repeat, or whose sampler is biased for rare stream contents, signs and verifies as before.',
 ['dilithium2/sign.c','dilithium2/packing.c','dilithium2/poly.c','dilithium2/polyvec.c','dilithium2/rounding.c'],[('expansion, sampling, product and packing','PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_keypair_seed'),('samplers','poly_uniform, poly_uniform_eta')],['generated keys']),
P('C34','Dilithium encodings, samplers and transforms compute exactly their definition',
 'For every input in range, each Dilithium encoder stores and each decoder reads every coefficient in its own bits, so that decoding inverts encoding for every coefficient position and value. The transforms, products, roundings and hints compute the defined value of every coefficient from the defined operands and constants. The samplers map every candidate of the hash output stream to the defined coefficient, skip exactly the candidates outside the range, and continue with further output when candidates run out.',
 ['inputs'],'every coefficient value in range at each of the 256 positions; every stream content class including refills',
 'Rejections near the limits, extreme coefficients and refills of the stream are rare and do not occur in a few signatures.',
 ['dilithium2/poly.c','dilithium2/ntt.c','dilithium2/reduce.c','dilithium2/rounding.c'],[('bit packing','polyeta/t1/t0/z/w1 pack and unpack'),('transforms','ntt, invntt_tomont'),('samplers','rej_uniform, rej_eta, poly_challenge')],['polynomials and encodings']),
P('C35','Curve, scalar and authenticator arithmetic is exact for every operand',
 'For every operand the field routines give sum, difference, product, square, inverse and square-root power modulo 2^255-19 without overflow and encode an element as its unique value below 2^255-19, scalars are reduced to their unique residue below the group order, and the one-time authenticator is the polynomial of all message blocks (each with its terminating bit) in the clamped key modulo 2^130-5 plus the second key half modulo 2^128. Point addition and doubling give the sum on the Edwards curve, scalar multiplication gives the multiple by all 256 scalar bits of the given or the standard base point, and X25519 gives the u coordinate of the multiple by the clamped scalar. Encoded points carry y and the parity of x, and decoding accepts only points of the curve, with the requested sign, and refuses only where neither square root fits.',
 ['inputs'],'every field element, scalar, point and key; authenticators of every content for each enumerated message length',
 'Carry and borrow corner cases, values between the modulus and 2^255 and rare scalar bits occur with negligible probability in the few operations tests make.',
 ['tweetnacl/tweetnacl.c'],[('field arithmetic','M, A, Z, S, car25519, sel25519, pack25519, unpack25519, inv25519, pow2523'),('group','add, scalarmult, scalarbase, pack, unpackneg, crypto_scalarmult'),('scalars','modL, reduce'),('authenticator','crypto_onetimeauth')],['field elements, points, keys, signatures and authenticators']),
P('C27','Well-formed signatures are accepted and return the signed message',
 'A hybrid signature produced by signing any message of 1 to 64 bytes is never rejected by the hybrid layer of the same mode: if the component verifications succeed on the fields signing emitted, opening succeeds, returns exactly the original message and length, and detached verification of that message succeeds. Opening rejects only for a malformed envelope or a failed component verification.',
 ['inputs'],'every message length 1..64, every message content, every key',
 T+'other lengths, notably the limits 1 and 64, are never signed and opened.',
 [H],[('agreement of writer and reader layout; absence of extra rejections','sign, open and verify functions')],['return value and message of open']),
P('C28','Component signed-message calls wrap the detached ones faithfully',
 'The signed-message opening calls of Dilithium and SPHINCS+ succeed only if detached verification accepted the leading signature bytes over exactly the remaining bytes under the given key, and then return exactly those remaining bytes. Their signing counterparts report success only if the detached signer did, and emit its signature followed by the complete message with the matching total length.',
 ['inputs','fault_sequences'],'every input length and content; every failure of the inner call',
 'Inner failures and short inputs are not presented.',
 ['dilithium2/sign.c','sphincs/sign.c'],[('delegation and message move','crypto_sign and crypto_sign_open of both schemes')],['return values and output buffers']),
P('C29','Incremental hashing is independent of how data is chunked',
 'Feeding the same bytes to an incremental or streaming hash in any sequence of pieces, and drawing the same output in any sequence of pieces, gives the same result as a single call. In particular pieces that end exactly at, just before or just after a block boundary make no difference.',
 ['inputs','histories'],'every split of every input and output length',
 'Tests feed a few fixed piece lengths.',
 ['common/fips202.c'],[('position counter in the sponge state','keccak_inc_absorb, keccak_inc_squeeze')],['hash outputs']),
P('C30','Every successfully signed message verifies in each component scheme',
 'For each component scheme, a signature produced by signing any message with a generated key is accepted by the verification of that scheme under the matching public key, for every key, message and internal random choice.',
 ['inputs'],'every key, message and random choice',
 T+'only samples are run.',
 ['dilithium2/ntt.c','dilithium2/reduce.c','dilithium2/rounding.c','tweetnacl/tweetnacl.c','sphincs/sign.c'],[('ring and curve arithmetic','component schemes')],['verification result']),
]
for p in props:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
    n=p['statement'].count('. ')+1
    assert n<=3,(p['id'],n)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in props))
print(len(props))
