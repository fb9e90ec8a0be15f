#!/usr/bin/env python3
# Source of properties.jsonl (kept as data so that it is easy to edit).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
           why_tests_cant=why,anchors=dict(files=["src/"+f for f in files],mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe if isinstance(observe,list) else [observe]
    P.append(d)
I=["inputs"]; IH=["inputs","histories"]; IC=["inputs","configurations"]
p("C01","Hash functions compute their published standard on every message",
 "For every message, of every length the standard allows, the SHA-1, SHA-224, SHA-256, SHA-384, SHA-512, SHA-3, Keccak, RIPEMD-160, MD5, BLAKE2b and BLAKE2s hashes return exactly the digest defined by their published specification. This includes messages whose length falls on or next to a block boundary, whose final padding spills into an extra block, and whose bit count exceeds 32 bits.",
 I,"every message (any content, any length), every digest size offered",
 "The tests hash a few dozen fixed vectors; block-boundary lengths, carries of the length counters and most table entries are never reached.",
 ["sha1.c","sha256.c","sha512.c","keccak.c","ripemd160.c","blake2.c","stubs-sha1.c","stubs-sha256.c","stubs-sha512.c","stubs-sha3.c","stubs-ripemd160.c","stubs-md5.c","stubs-blake2.c","cryptokit.ml"],
 [("compression functions","src/sha1.c SHA1_transform, src/sha256.c SHA256_transform, src/sha512.c SHA512_transform, src/keccak.c KeccakPermutation, src/ripemd160.c RIPEMD160_compress, src/blake2.c blake2b_compress/blake2s_compress"),("buffering, length counting and padding","*_add_data / *_finish in the same files"),("classes","src/cryptokit.ml module Hash")])
p("C02","BLAKE3 (plain, keyed, any output length) computes the published function",
 "For every message, every 32-byte key and every output length, BLAKE3 hashing, keyed hashing and extended output return exactly the bytes defined by the BLAKE3 specification, whatever the number of chunks in the message and however it was fed.",
 IH,"all messages, keys, output lengths and ways of splitting the message",
 "The vectors fix a handful of lengths and one-shot feeding; the chunk tree has a different shape for each length and each split.",
 ["blake3.c","blake3_portable.c","blake3_dispatch.c","blake3_impl.h","stubs-blake3.c","cryptokit.ml"],
 [("compression","src/blake3_portable.c"),("chunk state and subtree stack","src/blake3.c"),("class blake3","src/cryptokit.ml")])
p("C03","Hashing depends only on the concatenated input; results have hash_size bytes",
 "For every hash and MAC object, the result depends only on the concatenation of all data added, never on how it was split over calls or on which of the string, substring, character and byte entry points was used. The result always has exactly the length that the object announces as its hash size.",
 IH,"every sequence of add operations on every hash and MAC object",
 "Tests add whole strings, with a few fixed splits.",
 ["cryptokit.ml","sha1.c","sha256.c","sha512.c","keccak.c","ripemd160.c","blake2.c","siphash.c","blake3.c"],
 [("incremental update functions","src/*.c *_add_data, *_update, *_absorb"),("add_* / result methods","src/cryptokit.ml modules Hash, MAC, Block.mac")])
p("C04","AES equals FIPS 197 for all keys and blocks, and decryption inverts encryption",
 "For every 128-, 192- and 256-bit key and every 16-byte block, the AES block cipher produces exactly the FIPS 197 ciphertext, and the decryption direction maps every ciphertext block back to its plaintext. This holds whether or not the processor offers AES instructions.",
 IC,"all keys of the three sizes, all blocks, hardware and portable implementation",
 "A few known-answer vectors exercise a small part of the lookup tables, and only the implementation selected on the test machine.",
 ["rijndael-alg-fst.c","aesni.c","stubs-aes.c","cryptokit.ml"],
 [("portable AES","src/rijndael-alg-fst.c"),("AES-NI","src/aesni.c"),("dispatch and cooked keys","src/stubs-aes.c"),("classes aes_encrypt/aes_decrypt","src/cryptokit.ml")])
p("C05","DES, Triple-DES and Blowfish equal their standards and decrypt inverts encrypt",
 "For every valid key and every 8-byte block, DES, two- and three-key Triple-DES and Blowfish (keys of 4 to 56 bytes) produce exactly the ciphertext defined by their specification. The decryption direction with the same key maps every ciphertext block back to its plaintext.",
 I,"all keys of all permitted lengths, all blocks",
 "A few known-answer vectors reach a small part of the S-boxes and few key lengths.",
 ["d3des.c","blowfish.c","stubs-des.c","stubs-blowfish.c","cryptokit.ml"],
 [("DES","src/d3des.c d3des_cook_key, d3des_transform"),("Blowfish","src/blowfish.c"),("classes","src/cryptokit.ml module Block")])
p("C06","Hardware-accelerated and portable code paths compute the same functions",
 "The hardware-accelerated and the portable implementations of AES key setup, AES encryption, AES decryption and the GCM field multiplication are observationally equal on all inputs. Programs therefore produce identical bytes on processors with and without the AES and carry-less multiplication instructions.",
 IC,"all keys and blocks, both settings of the processor feature",
 "Only the path selected by the processor of the test machine is run.",
 ["rijndael-alg-fst.c","aesni.c","ghash.c","pclmul.c","stubs-aes.c","stubs-ghash.c"],
 [("dispatch","src/stubs-aes.c, src/stubs-ghash.c"),("hardware paths","src/aesni.c, src/pclmul.c"),("portable paths","src/rijndael-alg-fst.c, src/ghash.c")])
p("C07","Chaining modes follow their definition and decryption inverts encryption",
 "Over any block cipher, the ECB, CBC, CFB-n, OFB-n, CTR and CTR-n modes produce on every sequence of blocks exactly the output defined for the mode, for every initialization vector and every permitted n, and the decryption direction recovers the plaintext. The result does not depend on whether source and destination buffers coincide.",
 IH,"all block sequences, all IVs, all feedback sizes and counter widths, all underlying block ciphers",
 "A handful of vectors with short messages; counter carries, all feedback sizes and in-place use are not reached.",
 ["cryptokit.ml"],
 [("cbc_encrypt, cbc_decrypt, cfb_encrypt, cfb_decrypt, ofb, ctr, increment_counter","src/cryptokit.ml module Block"),("mode selection and direction","src/cryptokit.ml Cipher.make_block_cipher, normalize_dir")])
p("C08","Padding is removed exactly and malformed padding is rejected",
 "For both padding schemes, every block size and every amount of final data, stripping a padded block returns the original number of data bytes, with the data bytes unchanged. Stripping a block that the scheme could not have produced raises the bad-padding error.",
 I,"all blocks of every size from 1 to 255 bytes and all data lengths",
 "Tests cover a few message lengths and almost no malformed blocks.",
 ["cryptokit.ml"],[("classes length and _8000","src/cryptokit.ml module Padding")])
p("C09","Transform output does not depend on how input is fed or output is drained",
 "For every block-cipher, padded, stream-cipher and composed transform, the concatenation of all output drained is a function of the concatenation of all input only: no byte is lost, duplicated or reordered, however input is split over put operations and however the get operations are interleaved with them. Finishing or flushing with a partial block raises the wrong-length error, unless the transform pads.",
 IH,"all sequences of put, get, flush and finish operations, for all underlying ciphers",
 "The number of interleavings of put and get operations is unbounded; tests use a single put followed by a single get.",
 ["cryptokit.ml"],
 [("buffered_output","src/cryptokit.ml"),("Block.cipher, cipher_padded_encrypt, cipher_padded_decrypt, Stream.cipher, compose","src/cryptokit.ml")])
p("C10","ChaCha20 and ARCfour apply the specified keystream at every position",
 "The ChaCha20 and ARCfour ciphers xor the byte at position i of the stream with byte i of the keystream defined by the specification for the key, the initialization vector and the initial counter, for every i and every way of splitting the stream over calls. In particular positions are never skipped or repeated across calls and 64-byte block boundaries, and the block counter carries correctly.",
 IH,"all keys, IVs, counters, stream positions and splits",
 "Vectors cover the first few blocks and one-shot calls.",
 ["chacha20.c","arcfour.c","stubs-chacha20.c","stubs-arcfour.c","cryptokit.ml"],
 [("chacha20_init, chacha20_transform, chacha20_extract","src/chacha20.c"),("arcfour_cook_key, arcfour_encrypt","src/arcfour.c"),("module Stream","src/cryptokit.ml")])
p("C11","AES-GCM computes the standard ciphertext and tag and rejects modified messages",
 "For every key size, IV of any length, associated data and message, AES-GCM encryption returns exactly the ciphertext and tag of NIST SP 800-38D however the message is fed, and decryption with the right tag returns the plaintext. When the tag received differs in any bit from the one computed over the ciphertext and associated data, checked decryption returns nothing.",
 IH,"all keys, IVs, headers, messages and splits",
 "A few vectors with IVs of three lengths and one-shot feeding.",
 ["cryptokit.ml","ghash.c","pclmul.c","stubs-ghash.c"],
 [("module AEAD","src/cryptokit.ml aes_gcm_encrypt, aes_gcm_decrypt"),("GHASH multiplication","src/ghash.c, src/pclmul.c"),("auth_check_transform_string","src/cryptokit.ml")])
p("C12","ChaCha20-Poly1305 computes the standard result and rejects modified messages",
 "For every key, IV, associated data and message, ChaCha20-Poly1305 encryption returns exactly the ciphertext and Poly1305 tag of RFC 7539 (for 8-byte IVs, of the same construction over ChaCha20 with a 64-bit counter) however the message is fed, and decryption with the right tag returns the plaintext. When the tag received differs in any bit from the one computed over the ciphertext and associated data, checked decryption returns nothing.",
 IH,"all keys, IVs, headers, messages and splits",
 "Two or three vectors; the carries of the Poly1305 arithmetic that matter occur with negligible probability on random data.",
 ["cryptokit.ml","poly1305-donna.c","poly1305-donna-64.h","poly1305-donna-32.h","stubs-poly1305.c","chacha20.c"],
 [("module AEAD","src/cryptokit.ml chapoly_encrypt, chapoly_decrypt"),("Poly1305","src/poly1305-donna.c, src/poly1305-donna-64.h")])
p("C13","HMAC equals RFC 2104 for keys of every length",
 "For SHA-1, SHA-256, SHA-384, SHA-512, RIPEMD-160 and MD5, the HMAC object returns exactly the RFC 2104 value for every message and every key length, including empty keys and keys as long as or longer than the hash block.",
 I,"all keys of all lengths, all messages",
 "A few vectors per hash; key lengths next to the block size are not covered.",
 ["cryptokit.ml"],[("functor HMAC and its six instances","src/cryptokit.ml")])
p("C14","Block-cipher MACs (CBC-MAC, CMAC, final triple) equal their definition",
 "For every key and message, the CBC-MAC built from any block cipher, with or without padding and initial vector, the variant with final triple encryption, and AES-CMAC return exactly the value their specification defines, for message lengths of all residues modulo the block size. Without padding, a message that is not a whole number of blocks raises the wrong-length error.",
 IH,"all keys, IVs, messages and splits, both padding schemes",
 "A few vectors with few message lengths.",
 ["cryptokit.ml"],[("Block.mac, Block.mac_final_triple, Block.cmac, MAC.aes_cmac","src/cryptokit.ml")])
p("C15","SipHash and keyed BLAKE2 equal their specification",
 "For every key and message, the 64-bit and 128-bit SipHash MACs and keyed BLAKE2b and BLAKE2s, of every permitted key and output length, return exactly the value defined by their specification.",
 IH,"all keys, messages, splits and output lengths",
 "The vectors use one key and messages of a few lengths.",
 ["siphash.c","stubs-siphash.c","blake2.c","stubs-blake2.c","cryptokit.ml"],
 [("SipHash","src/siphash.c"),("BLAKE2 keyed initialization","src/blake2.c blake2b_init, blake2s_init"),("MAC.siphash, MAC.blake2b, MAC.blake2s","src/cryptokit.ml")])
p("C16","Operations on byte ranges never touch memory outside the given range",
 "Every public operation that takes a buffer, an offset and a length either raises Invalid_argument or reads and writes only the bytes of that range, for all integer offsets and lengths including negative and huge ones. Buffers are never modified outside the destination range and sources are never modified.",
 I,"all buffers, offsets and lengths",
 "Tests pass only valid ranges; an out-of-bounds access by a native primitive is silent.",
 ["cryptokit.ml","stubs-aes.c","stubs-des.c","stubs-blowfish.c","stubs-arcfour.c","stubs-chacha20.c","stubs-misc.c","stubs-sha1.c","stubs-sha256.c","stubs-sha512.c","stubs-sha3.c","stubs-ripemd160.c","stubs-md5.c","stubs-blake2.c","stubs-blake3.c","stubs-siphash.c","stubs-rng.c","stubs-zlib.c"],
 [("range checks","src/cryptokit.ml, guards before each external call"),("stubs","src/stubs-*.c")])
p("C17","Key, IV, seed and size parameters are validated",
 "Every constructor accepts exactly the documented key, initialization vector, seed, digest size and feedback size values, and raises the documented error (wrong key size, wrong IV size, seed too short, incompatible block sizes) for all others. No object with an invalid parameter is ever created.",
 I,"all lengths and integer parameters of all constructors",
 "Tests use valid parameters only.",
 ["cryptokit.ml"],[("constructors","src/cryptokit.ml modules Block, Stream, Hash, MAC, AEAD, Random, RSA, DH")])
p("C18","Counter-based encryption never reuses a keystream block silently",
 "In counter mode, AES-GCM and ChaCha20-Poly1305 encryption, no two blocks of one message are ever encrypted with the same counter value: a message too long for the counter raises the message-too-long error instead. The limit never rejects messages that the standard for the AEAD mode permits.",
 IH,"all message lengths (up to 2^38 bytes and beyond), all counter widths",
 "The limits lie at gigabytes of data for most configurations.",
 ["cryptokit.ml"],[("Block.ctr max_transf","src/cryptokit.ml"),("AEAD length checks","src/cryptokit.ml aes_gcm_encrypt, chapoly_encrypt")])
p("C19","RSA decryption and signature verification invert encryption and signing",
 "For every key pair, generated here with any modulus size and exponent or supplied as a valid key with its factors in either order, and every message smaller than the modulus, decryption inverts encryption, unwrapping inverts signing, and the variants that use the Chinese remainder theorem agree with the plain ones. Messages not smaller than the modulus raise the message-too-long error and results have the length of the modulus.",
 IC,"all key sizes, exponents, keys and messages",
 "Tests use a few keys of 512 to 2048 bits and a few messages.",
 ["cryptokit.ml","cryptokitBignum.ml"],
 [("module RSA","src/cryptokit.ml"),("mod_power, mod_power_CRT, random_prime","src/cryptokitBignum.ml")])
p("C20","Diffie-Hellman parties agree and key derivation is as documented",
 "For all parameters, generated or supplied, and all private secrets, both parties compute the same shared secret, which has the length of the modulus. Key derivation returns exactly the requested number of bytes of the documented sequence of hashes, for every length and diversification string.",
 IC,"all parameters, secrets, lengths and diversification strings",
 "Tests run one or two exchanges with fixed sizes.",
 ["cryptokit.ml","cryptokitBignum.ml"],[("module DH","src/cryptokit.ml")])
p("C21","Paillier decryption inverts encryption and addition is homomorphic",
 "For every key size, generated key, blinding randomness and messages smaller than the modulus, decryption returns the number that was encrypted, and the sum of two ciphertexts decrypts to the sum of the messages modulo the modulus.",
 IC,"all keys, messages including zero, and random choices",
 "Tests encrypt a few messages under one key size.",
 ["cryptokit.ml","cryptokitBignum.ml"],[("module Paillier","src/cryptokit.ml")])
p("C22","Big numbers and byte strings convert exactly; modular arithmetic is exact",
 "Conversion of byte strings to numbers and back is the big-endian encoding, zero-padded to exactly the requested length, for every number and every length that can hold it. The modular power and modular product utilities return the exact mathematical result, as a string of the length of the modulus, for all operands in their domain, and random numbers have exactly the requested bit length.",
 I,"all numbers, lengths and moduli",
 "Tests reach sizes that are multiples of the machine word only.",
 ["cryptokitBignum.ml","cryptokit.ml"],[("of_bytes, to_bytes, random, random_prime","src/cryptokitBignum.ml"),("mod_power, mod_mult","src/cryptokit.ml")])
p("C23","Base64 encoding follows the standard and decoding inverts it",
 "For every byte string and every way of feeding it, the Base64 encoders emit exactly the RFC 4648 text (unpadded, padded, or split in lines with padding), and decoding any of these outputs returns the original bytes. Decoding ignores blanks and rejects every other character outside the alphabet and every truncated or continued-after-padding input with the bad-encoding error.",
 IH,"all byte strings, all texts, all ways of feeding them",
 "Tests use three texts and one 256-byte string.",
 ["cryptokit.ml"],[("module Base64","src/cryptokit.ml")])
p("C24","Hexadecimal encoding follows the standard and decoding inverts it",
 "For every byte string and every way of feeding it, hexadecimal encoding emits two lowercase digits per byte, and decoding text in either case, with blanks anywhere, returns the bytes. Any other character, or an odd number of digits, raises the bad-encoding error.",
 IH,"all byte strings, all texts, all ways of feeding them",
 "The encoders are used by the tests only on a few strings.",
 ["cryptokit.ml"],[("module Hexa","src/cryptokit.ml")])
p("C25","Decompression restores exactly what was compressed",
 "For every byte string, compression level, header setting and every way of splitting puts, flushes and gets, decompressing the compressed output returns the original bytes, with nothing lost at internal buffer boundaries. Truncated data or data with bytes after its end makes decompression raise the compression error instead of returning a wrong result silently.",
 IH,"all strings, levels, header settings and interleavings",
 "Tests compress two or three strings in one call.",
 ["cryptokit.ml","stubs-zlib.c"],[("module Zlib","src/cryptokit.ml"),("zlib stubs","src/stubs-zlib.c")])
p("C26","Random generators fill exactly the requested range and report failure",
 "Every random generator overwrites exactly the requested byte range with fresh output and nothing else, raises an error rather than returning when the source fails or ends early, and the seeded generators return consecutive bytes of the documented keystream whatever the request sizes. The generator used by default never falls back to a non-random source.",
 ["inputs","histories","fault_sequences"],"all buffers, ranges, request sequences and source failures",
 "Failures of the entropy source and short reads cannot be provoked by the tests; ranges are fixed.",
 ["cryptokit.ml","stubs-rng.c","chacha20.c"],[("module Random","src/cryptokit.ml"),("getentropy and rdrand stubs","src/stubs-rng.c")])
p("C27","Wiping erases key-dependent state and buffered data",
 "After wiping a cipher, hash, MAC, transform, generator or private key, all of the buffers the object has allocated and still holds, in which it kept key-derived material, chaining state or data contain only key-independent constants, whatever operations preceded the wipe. The one-shot helpers wipe the object they were given, on success.",
 IH,"all objects, all histories before the wipe",
 "Nothing observable through the tested interface depends on it.",
 ["cryptokit.ml","stubs-sha3.c","stubs-blake3.c","stubs-misc.c"],[("wipe methods","src/cryptokit.ml"),("sha3_wipe, blake3_wipe, wipe_z","src/stubs-*.c")])
p("C28","Comparison and xor utilities are exact",
 "The constant-time comparisons return true exactly when both sequences have the same length and the same bytes, examining every byte whatever their contents. The xor utilities replace each destination byte of the range by its xor with the corresponding source byte and change nothing else, for all lengths and alignments.",
 I,"all strings, offsets, lengths and alignments",
 "Word-at-a-time code paths depend on alignment and length, and are not tested directly.",
 ["cryptokit.ml","stubs-misc.c"],[("seq_equal","src/cryptokit.ml"),("caml_xor_string","src/stubs-misc.c")])
p("C29","Encrypt-and-hash combinations authenticate exactly the data they should",
 "An authenticated transform built from a transform and a hash returns the transformed data unchanged, and its tag is the hash of all the output (hash-then variant) or of all the input (parallel variant), for every way of feeding and draining it. The checking helper splits off the final tag, returns the transformed text exactly when the tags are equal, returns nothing otherwise, and raises the wrong-length error when the input is shorter than a tag.",
 IH,"all transforms, hashes, messages and interleavings",
 "Tests do not cover the combinators with split input and drained output.",
 ["cryptokit.ml"],[("transform_then_hash, transform_and_hash, auth_transform_string*, auth_check_transform_string","src/cryptokit.ml")])
p("C30","Native code stays in bounds and survives garbage collection",
 "Every native primitive, called as the library calls it, accesses only memory inside the objects it is given or has allocated, for all contents and lengths. No primitive uses an OCaml value after an allocation that may have moved it unless that value is registered with the collector.",
 ["inputs","schedules"],"all arguments satisfying the callers' guards, a collection at every allocation point",
 "A stale pointer or an overread is silent unless a collection happens at that very allocation.",
 ["stubs-aes.c","stubs-arcfour.c","stubs-blake2.c","stubs-blake3.c","stubs-blowfish.c","stubs-chacha20.c","stubs-des.c","stubs-ghash.c","stubs-md5.c","stubs-misc.c","stubs-poly1305.c","stubs-ripemd160.c","stubs-rng.c","stubs-sha1.c","stubs-sha256.c","stubs-sha3.c","stubs-sha512.c","stubs-siphash.c","stubs-zlib.c"],
 [("stubs","src/stubs-*.c")])
p("C31","String and channel helpers process exactly the requested data",
 "Running a string or a channel through a transform or a hash is equivalent to feeding its bytes and finishing: every byte read is processed once and in order, exactly the requested number of bytes is consumed when a length is given, and end-of-file before that length raises End_of_file. All output of the transform, including what finishing produces, is written to the output channel in order.",
 ["inputs","histories","fault_sequences"],"all channel contents, lengths and short reads",
 "Short reads and length limits next to the internal buffer size are not tested.",
 ["cryptokit.ml"],[("transform_string, transform_channel, hash_string, hash_channel","src/cryptokit.ml")])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+"\n")
print(len(P))
