"""What each registered check decides: level, rule text, trusted base (see DESIGN.md)."""
TB_ENGINE = ['clang 18 front end and mem2reg (source to LLVM IR)', 'the abstract interpreter in /verif/src (engine.cpp, term.cpp)']
TB_PRIM = ['contracts of the component primitives in models.cpp: 0 means success, fixed key and signature sizes']
A_COMMON = ['caller buffers have the documented sizes and do not overlap', 'objects are smaller than 2^62 bytes', 'integer code 0 means success at every layer (README, hybrid.h)', 'little-endian LP64 target (the build configuration of the sandbox)']
AI = 'abstract interpretation of the LLVM IR (Herbrand terms x intervals x must-facts, trace partitioning, no solver)'

CHECKS = {}
def D(pid, level, technique, rule, explains, note, trusted=None, assumptions=None, extra=None):
    CHECKS[pid] = dict(level=level, technique=technique, rule=rule, explains=explains, note=note, trusted=(trusted or []) + TB_ENGINE, assumptions=A_COMMON + (assumptions or []), extra=extra)

D('C01', 'proof', AI, 'every exit state of full-mode open/verify that may return 0 carries the facts Verified(Ed25519), Verified(Dilithium), Verified(SPHINCS+), each over the documented slices of sm and pk and over the carried message; the message written out is that message',
  'Every path of full-mode open and detached verify, for every signature length and content, partitioned by the length byte (0, 1..64 each, 65..255)', 'All inputs; component verifiers are opaque (their own guarantees are C14, C24, C26).', TB_PRIM)
D('C02', 'proof', AI, 'every accepting exit state of compact open/verify carries Verified(Ed25519) and Verified(Dilithium) over SHA3-512(nonce||message||SPHINCS+ pk), and returns that message',
  'Every path of compact open and detached verify for every length and content, partitioned by the length byte', 'All inputs; SHA3-512 and the component verifiers are opaque functions (C21, C14, C24).', TB_PRIM)
D('C03', 'proof', AI, 'every accepting exit state of detached verification has supplied length = signed length and an equality fact for every message byte; standalone Dilithium acceptance carries Verified(Dilithium) over exactly the arguments',
  'Every path of the three detached verifiers; supplied length partitioned against the signed length (shorter, equal, longer, above 64)', 'All inputs of both detached verifiers.', TB_PRIM)
D('C04', 'proof', AI, 'every accepting exit state has sm[0] = mode id, sm[1] in 1..64 and smlen = overhead(mode) + sm[1]',
  'Every path of both open and both detached functions for every total length (a symbolic 64-bit value) and every value of the two header bytes', 'All inputs.', TB_PRIM)
D('C05', 'proof', AI, 'every load, store and library access in the hybrid layer is inside its object, and no input (constant arguments, seeds) is written',
  'All access sites reached from the nine hybrid entry points under the documented buffer sizes, for every length and header byte', 'All inputs; component primitives are represented by the byte ranges their contracts read and write (their bodies are C25).', TB_PRIM)
D('C06', 'proof', AI, 'symbolic key generation stores each component key at its documented position and every reader passes exactly those bytes on; in the SPHINCS+ component the secret key ends with the public key',
  'Key generation run on an opaque seed, then signing and opening on opaque keys; byte-for-byte term comparison', 'All seeds and keys (opaque terms per byte).', TB_PRIM)
D('C13', 'proof', AI, 'in every exit state of open with a non-zero result the m and mlen buffers still hold their initial values; on success exactly mlen bytes are written; failing signing leaves smlen and sm unreported',
  'All exit states of open and sign in both modes, all message lengths and all component failures', 'All inputs and all component failures.', TB_PRIM)
D('C16', 'proof', AI, 'every success exit of signing holds, at the documented offsets, the component signatures over the documented content with the keys of the supplied secret key, the message, and (compact) one 40-byte fresh draw used both in the hash and the output; length reported exactly',
  'All exit states of both sign functions for each message length 1..64, with every component signer and the randomness source allowed to fail', 'All inputs and component failures.', TB_PRIM)
D('C20', 'proof', AI, 'with any non-empty subset of null pointers, or message length 0 or > 64, no exit returns 0, no buffer changes and nothing is dereferenced through null',
  'All subsets of null arguments for ten entry points and both bad-length classes', 'All inputs.', TB_PRIM)
D('C27', 'proof', AI, 'with ideal components that accept exactly what the matching signer emitted, open and verify of a freshly produced signature accept on every path and return the message',
  'Composition keygen -> sign -> open/verify for every message length 1..64 on opaque content', 'All messages and keys; component correctness itself (C30) is assumed.', TB_PRIM)

GH = 'call-graph reachability and use-def scan over the whole linked bitcode'
D('C07', 'proof', AI, 'at every exit of key generation and signing reached after a failed randomness request the result cannot be 0; every secret drawn is filled entirely by successful draws before use',
  'All exit states of fifteen key generation, signing and wrapper entry points with every randomness call site allowed to fail', 'All failure points. Functions that cannot reach the randomness source are opaque.', ['a failed randombytes returns non-zero (C08)'])
D('C08', 'other', AI, 'every OS request continues at the first unfilled byte inside the buffer; exits with 0 have every requested byte written by the OS generator; OS errors other than EINTR never lead to 0; no spurious failure',
  'The OS generator loop analysed with every short-read split for sizes up to 8, boundary splits for sizes up to 2^32+1, zero-length reads, interruptions and five error codes at each of the first requests', 'Sizes are enumerated (0..12, and values around 2^8, the chunk size, 2^31 and 2^32), not symbolic; short reads beyond the second are full.', ['getrandom contract: returns -1 with errno, or 1..min(len, 33554431) bytes written from the start of the given buffer'])
D('C09', 'proof', GH + ' plus ' + AI, 'no ambient source (randomness, clock, environment, files, mutable globals, inline assembly, address arithmetic escaping to integers) is reachable from 26 deterministic entry points; unseeded key generation returns exactly the seeded derivation of one draw',
  'All functions reachable from the deterministic entry points and all their instructions', 'Uninitialised reads inside the components are not covered by this rule.')
D('C10', 'proof', GH, 'no global object of the library is ever written, passed to a writer or has its address stored for later; no stateful libc function is called',
  'All global objects of the linked library and every use of their addresses, transitively through pointers passed to callees', 'All code compiled into the library.')
D('C11', 'proof', 'typestate abstract interpretation over the LLVM IR', 'each hash context goes initialised -> absorbing -> finalised -> squeezing -> released on all paths of every function that owns one; allocation and release inside the hash API match',
  'Every function that owns a hash context, with unknown arguments and opaque arithmetic; and every init/absorb/clone/finalise/squeeze/release sequence of the hash API', 'Typestate is exact per context; loops are widened.')
D('C15', 'proof', AI, 'the 160 output bytes are, term for term, SHAKE256(seed[0..64) || constant) split 32|96 around seed[64..96); the general expander returns the prefix of the same expansion with domain byte 2, and refuses null pointers, short seeds and short outputs without a write',
  'Seed expansion on an opaque 96-byte seed; the general expander for enumerated seed and output lengths up to 66001 (including every length within one of a constant in the code it reaches) and for a symbolic seed length', 'All seeds for the 96-byte expander; the general expander for every seed length at fixed output lengths and for the enumerated length pairs.')
D('C28', 'proof', AI, 'every accepting exit of the signed-message opening carries Verified(first bytes, rest, pk) for a symbolic length and returns exactly the rest; signing emits signature || message with matching length and only on success',
  'Both component wrappers: acceptance for symbolic length, byte-exact output for lengths 0..70, boundary values (thorough 0..600) and 66000, with separate and overlapping buffers (opening) and signing in place', 'Acceptance and lengths for every input; output bytes for the enumerated message lengths.', TB_PRIM)
D('C21', 'proof', AI, 'outputs of every hash function are, term for term, those of the reference sponge with the standard rate, domain suffix and padding over the opaque permutation; the permutation equals a reference Keccak-f[1600] on 25 opaque lanes',
  'One-shot, incremental and streaming forms of all five functions on opaque input bytes for every input and output length up to three blocks and selected lengths up to 70000 (including every length within one of a constant in the code reached)', 'All input bytes for each enumerated length pair; permutation for all states.')
D('C29', 'proof', AI, 'for every position within a block, absorbing a second and third piece of every boundary-relevant length, drawing output in pieces and continuing from clones gives, term for term, the one-shot result',
  'All positions 0..rate-1 x boundary-relevant piece lengths (thorough: all lengths up to rate+1) for the five incremental functions; all positions for output pieces; clones', 'All input bytes; pieces are enumerated per block position, longer histories follow because the state after each piece equals the canonical one.')
D('C14', 'proof', AI, 'every accepting exit of Dilithium verification has length 2420, a successful canonical decoding, a norm fact below 130994 for all four response polynomials and 32 challenge-byte equalities with the hash of (pk hash, complete message, reconstructed commitment); decoding never accepts a non-canonical hint; the norm test reports every coefficient at or beyond the bound; rounding, hint use and reductions equal their specification on every interval of the argument',
  'Dilithium verification over opaque polynomial operations with symbolic message and signature length; hint decoding with each non-canonical shape assumed; norm test per coefficient and sign; rounding per segment of the argument range', 'All inputs. Polynomial ring operations (NTT, products, bit packing) are uninterpreted functions here; C34 decides them routine by routine.')
D('C18', 'proof', AI, 'at every exit that releases a signature, the released response, challenge and hint are those of one attempt, norm facts with the specified bounds hold for that attempt for all polynomials, the hint count is at most 80, and the masking vector is expanded from the key seed, complete message digest and that attempt\'s counter; the counter strictly increases over all attempts; encoding, norm test and rounding equal their specification',
  'Dilithium signing over opaque polynomial operations: first attempts exactly and an arbitrary later one by widening; hint encoding on representative hints; norm test per coefficient; rounding per segment', 'All inputs, any number of rejected attempts. Polynomial ring operations are uninterpreted functions here; C34 decides them routine by routine.', ['randomness contract of C08'])
import headerwit
D('C17', 'proof', 'compile-fail witnesses (_Static_assert translation units) plus ' + AI, 'every published size macro and constant equals the size the schemes use; accessors return it; key generation and signing write every byte of, and stay inside, buffers of exactly those sizes, and report those lengths',
  'All size macros of seven headers, all size constants and accessors, extents of key generation and signing in the hybrid layer and in the Dilithium and SPHINCS+ components', 'All published sizes; FORS and Merkle parts of a SPHINCS+ signature enter by their fixed sizes (their own extents are decided by C22).', TB_PRIM, extra=headerwit.run)
D('C19', 'proof', AI, 'every exit of each wrapper has called exactly the operation it is named after once, with the wrapper\'s own arguments in order on unchanged buffers, and returns its result term unchanged; allocation returns a fresh object of the requested size; release clears every byte before freeing',
  'All ten exported wrappers on opaque arguments', 'All arguments (release wrapper: sizes 1, 8, 64, 4064). Analysed with the native data layout.')
D('C23', 'proof', AI, 'every accepting exit of the two opening functions has 16 equalities between the transmitted authenticator and the one over the whole ciphertext, output equal to ciphertext xor key stream term for term, every other exit leaves the output untouched; sealing produces that format; the Salsa20 and HSalsa20 cores equal the definition term for term; the authenticator depends on every ciphertext and key byte; key pairs are fresh or fail',
  'All ciphertext bytes, keys and nonces for every length 32..100 and block-boundary lengths to 1000 and 66000 (thorough: all to 700), and one symbolic length for the order authentication-before-release', 'All contents; lengths enumerated, plus any length for authentication and release. Poly1305 and X25519 are uninterpreted here apart from dependence on every input byte; C35 decides their arithmetic.', ['randomness contract of C08'])
D('C24', 'proof', AI, 'every accepting exit of Ed25519 opening has the decoding fact of the public key and 32 equalities between commitment and the encoding of S*B - H*A with H = SHA-512(R, key, complete message); the message returned is the message after the signature; every other exit leaves none of the message; key decoding succeeds only with the 32-byte curve equation equality; SHA-512 equals the standard term for term',
  'All contents for every signed length 64..134 and boundary lengths to 1088 and 65605 (thorough: to 700), any length for the comparison itself, inputs below 64 bytes; SHA-512 padding for every length 0..300 (thorough 700) and the compression of whole blocks', 'All contents; lengths enumerated. Field and group arithmetic is uninterpreted here; C35 decides it.')
D('C31', 'proof', AI, 'on every exit of Ed25519 signing the commitment, response and message bytes equal, term for term, those of the definition with the nonce SHA-512(prefix, complete message); the seeded key pair equals its definition; SHA-512 equals the standard term for term',
  'All keys and contents for every message length 0..70 and boundary lengths to 1024 and 65541 (thorough: 0..600); SHA-512 as for C24', 'All contents; lengths enumerated. Field and group arithmetic is uninterpreted here; C35 decides it.')
SP = 'SHAKE256 is an opaque function of its input bytes (C21); layers, trees and leaves are covered as symbolic addresses where the code does not branch on them, otherwise enumerated.'
D('C22', 'proof', AI, 'every hash made by the FORS, one-time-signature, tree and message functions has, term for term, the input (public seed, address, data) of the reference in which every use and place has its own address; the same reference serves signing and verification',
  'Root computation for all leaves of trees of height 4 and 9, chain lengths, one-time and few-time public keys from signatures, tree signing for all 16 leaves and tree generation, FORS signing, seeded key generation, top-level signing and verification', 'All contents. ' + SP)
D('C26', 'proof', AI, 'every accepting exit of SPHINCS+ verification has length 49856 and 32 equalities between the public root and the root recomputed, term for term, by the reference from the complete message, randomizer, public key and every signature byte',
  'Top-level verification for message lengths 0, 1, 32, 33, 200 and a symbolic length with a symbolic signature length; root computation for all leaves, chains and compression functions', 'All contents. ' + SP)
D('C32', 'proof', AI, 'on every success exit of SPHINCS+ signing the bytes equal, term for term, the reference signature over randomizer = hash(PRF key, 32 fresh bytes, complete message); failing randomness never leads to 0; key bytes equal the reference derivation from the whole seed',
  'Top-level signing for enumerated and symbolic message lengths, tree signing for every leaf, FORS signing, seeded key generation', 'All contents. ' + SP, ['randomness contract of C08'])
D('C33', 'proof', AI, 'the keys written by seeded key generation equal, term for term, the definition over opaque polynomial routines; those routines (packing, transforms, products, rounding, samplers) equal their definition coefficient by coefficient',
  'Seeded and unseeded key generation on opaque seeds; seven packing and arithmetic routines on 256 opaque coefficients; samplers on stream content classes covering acceptance, rejection at the limits and refills', 'All seeds. Samplers: acceptance patterns are enumerated, accepted values are arbitrary. Montgomery reduction is an uninterpreted function of its operand.', ['randomness contract of C08'])
D('C34', 'proof', AI, 'every output bit of the five encoders and four decoders is the defined input bit; every coefficient of the transforms, sums, products, roundings and hints is the defined term; samplers map each accepted candidate to the defined coefficient in order',
  'All Dilithium polynomial routines on 256 opaque coefficients each, roundings on every segment of the argument range, samplers on stream content classes including limits and refills', 'All coefficient values in range. Montgomery reduction is compared by itself and uninterpreted elsewhere; challenge positions are enumerated patterns, signs arbitrary.')
D('C35', 'proof', AI, 'outputs are brought to integer polynomials over opaque carries (t & (2^k-1) = t - 2^k floor(t/2^k)); all carries cancel and the polynomial equals the definition modulo 2^255-19, the group order or 2^130-5; interval analysis excludes overflow and bounds reduced values; powers are compared by exponent; point sums by cross multiplication with the Edwards law; scalar multiplication by the multiple as a polynomial in the scalar bits; decoding by the equalities on its path',
  'Sum, difference, product, square, carry, swap, decoding, inversion, power, freezing, comparison, parity; point addition and doubling (aliased and not), 256-step and 255-step ladders on an opaque scalar, base points, point encoding and decoding; both scalar reductions; authenticators for 10 message lengths (thorough: 50)', 'All operands: field product inputs with limbs below 2^22 (every call site in the curve code is shown to respect this). Authenticator lengths enumerated. A routine that is no longer found under its name is noted and not compared by itself.')
FLOW = 'two-point (secret/public) information-flow analysis over LLVM IR on top of the whole-program abstract interpreter (public values precise, results of secret operands secret, flow- and context-sensitive)'
D('C12', 'proof', FLOW, 'no conditional branch, switch, memory address, length of a memory operation or library comparison in signing and key generation takes a secret value, except inside rejection sampling, norm tests and hint computation; the norm test has exactly one way through for an accepted and one for a rejected coefficient; published values (randomiser, tree nodes, compressed public keys, signatures) are public',
  'Complete call trees of hybrid signing and key generation (native and wasm entry points), Dilithium key generation and signing down to single coefficients, Ed25519 key generation and signing down to field arithmetic and SHA-512, the Keccak functions on secret input, SPHINCS+ key generation, tree, one-time and few-time signing', 'All secret contents; message lengths are enumerated (loops over the message do not involve secrets). Decisions inside rejection samplers, challenge sampling and hint computation are allowed as such. Source-level constant time: what a compiler makes of branch-free source is not covered.', ['published nodes of SPHINCS+ are recognised by their hash address type'])
D('C25', 'proof', AI, 'every load, store and memory-library call in the component schemes lies inside its object (offset + length <= size by intervals and linear facts) and no store goes through an input buffer, with all buffer contents, digests and random streams arbitrary',
  'Every Dilithium polynomial, vector, packing and rounding routine on buffers of exactly the documented sizes; the rejection samplers on arbitrary streams (any acceptance count, any number of refills); hint decoding on arbitrary bytes; Dilithium key generation, signing, verification and signed-message calls with symbolic message and signature lengths; SPHINCS+ chains, few-time and tree code on arbitrary digests and complete signing/verification; SHA3/SHAKE, SHA-512, Ed25519, secretbox and box call trees on arbitrary contents with enumerated lengths', 'All contents. Lengths: symbolic for the Dilithium entry points and samplers, enumerated around block boundaries for the hash functions and TweetNaCl.', ['message lengths are below 2^40'])
