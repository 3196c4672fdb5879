#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "The digest equals GOST 34.311-95 for every message and substitution table",
 "For every message of any length and every 64-byte packed substitution table (the built-in default, one set on the digest context by the DSTU_SET_CUSTOM_SBOX control, or one carried by the key of a sign/verify operation), the dstu34311 digest the engine returns equals GOST 34.311-95 computed with that table and a zero start vector. Every message bit, the full message length and the 256-bit running sum (carries included) enter the result.",
 ["inputs", "configurations"], "all messages (empty, partial, multi-block, over 2^32 bits, carry-heavy), all substitution tables, all three ways a table is selected",
 "The tests hash a handful of fixed vectors with the default table; a wrong table lane, a lost carry at a rare position or a truncated length counter changes none of them.",
 ["engine/md.c", "dstulib/gost/gosthash.c", "dstulib/gost/gost89.c", "dstulib/params.c"],
 [("hash_block / finish_hash / hash_step", "dstulib/gost/gosthash.c"), ("unpack_sbox, gost_init", "dstulib/params.c, dstulib/gost/gost89.c"), ("dstu_md_init, dstu_md_ctrl", "engine/md.c")],
 observe=["EVP_Digest*", "EVP_DigestSign*/Verify* with keys carrying a table"])

prop("C02", "Digest contexts are streaming, copyable, reusable and independent",
 "For every history of init, update (any chunking, zero-length chunks included), table control, context copy and final over any number of digest contexts, each final returns the digest of exactly the bytes fed to that context (with the table in force for it), whatever the chunk boundaries, copies or interleaved use of other contexts. Re-initialising a context starts from the empty message and the default table.",
 ["histories"], "all interleavings of init/update/ctrl/copy/final/reset/free over several live contexts",
 "The tests feed each message in one call to one fresh context.",
 ["engine/md.c", "dstulib/gost/gosthash.c"],
 [("dstu_md_copy pointer fix-up", "engine/md.c"), ("hash_block remainder handling", "dstulib/gost/gosthash.c")],
 state=[("remainder/left", "bytes not yet compressed", "gost_hash_ctx"), ("cipher_ctx", "table in force", "gost_hash_ctx")],
 observe=["EVP_DigestInit_ex/Update/Final_ex", "EVP_MD_CTX_copy_ex"])

prop("C03", "The cipher equals GOST 28147 CFB for every key, IV, table and message",
 "For every 32-byte key, 8-byte IV, substitution table and message of any length, encryption with dstu28147-cfb produces the GOST 28147-89 CFB ciphertext of the same length, and decryption of that ciphertext with the same key, IV and table returns the message. The result never depends on random masks, earlier operations or memory contents.",
 ["inputs", "configurations"], "all keys, IVs, tables, message lengths (including non-multiples of 8 and megabyte sizes), both directions",
 "The tests use one key, one IV, the default table and one message length.",
 ["engine/cipher.c", "dstulib/gost/gost89.c", "dstulib/params.c"],
 [("gostcrypt, gost_enc_cfb, gost_dec_cfb, key masking", "dstulib/gost/gost89.c"), ("dstu_cipher_do_cipher", "engine/cipher.c")],
 observe=["EVP_EncryptUpdate/EVP_DecryptUpdate output"])

prop("C04", "Cipher contexts give the same stream under any chunking, copy or setup order",
 "For every history of cipher context operations (key and IV supplied together or in separate init calls in either order, table control, updates of any chunk sizes, in place or not, context copy, re-initialisation, and IV+table transport through ASN.1 algorithm parameters), the concatenated output equals the one-shot result for the key, IV and table in force. Contexts do not influence each other, parameters exported from one context and imported in another reproduce IV and table exactly, and malformed parameters are refused.",
 ["histories"], "all interleavings of init/ctrl/param set/param get/update/copy/reset over several contexts",
 "The tests make one single-shot call per direction with key and IV set together.",
 ["engine/cipher.c"],
 [("num/buf/iv continuation state", "engine/cipher.c dstu_cipher_do_cipher"), ("dstu_cipher_set_asn1_parameters / get", "engine/cipher.c"), ("dstu_cipher_init", "engine/cipher.c")],
 state=[("num", "unused gamma bytes", "EVP_CIPHER_CTX"), ("buf", "current gamma block", "EVP_CIPHER_CTX"), ("iv", "feedback register", "EVP_CIPHER_CTX")],
 observe=["EVP_CipherInit_ex/Update/Final", "EVP_CIPHER_CTX_copy", "EVP_CIPHER_param_to_asn1/asn1_to_param"])

prop("C05", "Every signature produced satisfies the DSTU 4145 equation and verifies",
 "For every key on every supported curve (ten named curves and custom curves, trinomial or pentanomial, a=0 or 1), either byte order and every message or pre-computed hash of any length, a signing call that succeeds returns a DER octet string of two order-sized halves s and r that satisfies the DSTU 4145-2002 verification equation under an independent implementation, has the size promised by the size query, and is accepted by the engine's own verification. Signing always terminates and never writes outside the caller's buffer.",
 ["inputs", "configurations"], "all curves, byte orders, private keys, hashes (zero, all-ones, shorter or longer than the field), nonces leading to short r or s",
 "The tests sign one message per fixture key, never on most curves and never with hash values or nonces hitting truncation, leading-zero or retry branches.",
 ["engine/sign.c", "engine/pmeth.c", "dstulib/params.c"],
 [("dstu_do_sign retry loops, hash_to_field, field_to_bn", "engine/sign.c"), ("dstu_pkey_sign encoding", "engine/pmeth.c"), ("bn_encode left padding", "dstulib/params.c")],
 observe=["EVP_PKEY_sign", "EVP_DigestSign"])

prop("C06", "Verification accepts exactly the signatures that satisfy the DSTU 4145 equation",
 "For every public key, message and byte string offered as a signature, verification returns success if and only if the string carries (as a DER octet string or raw, halves of equal length not shorter than the order) values 0<r<n and 0<s<n that satisfy the DSTU 4145-2002 verification equation for that message and key. Any change of message, key, curve, r or s, and any out-of-range, short, odd-length or empty signature is rejected without error in the process.",
 ["inputs"], "all keys, messages and candidate signature strings, including forged r/s ranges, r+n or s+n, swapped halves, wrong byte order, truncation, infinity results",
 "The tests verify two good signatures and never offer a bad one.",
 ["engine/sign.c", "engine/pmeth.c"],
 [("range checks, infinity check, final comparison", "engine/sign.c dstu_do_verify"), ("length/parity checks, DER unwrapping", "engine/pmeth.c dstu_pkey_verify")],
 observe=["EVP_PKEY_verify", "EVP_DigestVerify"])

prop("C07", "Signing nonces are fresh, full-range, and a failing RNG never yields a signature",
 "Across every history of signing operations the per-signature secret (recoverable as s - d*r mod n) is drawn from newly delivered random bytes over the whole range of the group order, never repeats and is unrelated to message and key. If the random source fails at any point, signing and key generation report failure and deliver no signature or key.",
 ["histories", "fault_sequences"], "all sequences of signatures across keys, curves and messages; random source failure at every call index",
 "The tests only check that a produced signature verifies; a constant, reused or short nonce verifies perfectly.",
 ["engine/sign.c", "dstulib/params.c"],
 [("BN_rand_range(e, n) and its error path", "engine/sign.c"), ("BN_rand_range in dstu_generate_key", "dstulib/params.c")],
 observe=["EVP_PKEY_sign results with known private keys", "installed RAND_METHOD call log"])

prop("C08", "Generated keys are valid key pairs on exactly the requested curve",
 "For every curve and substitution table selected on the key-generation context (by name, by group, by table, by string or binary control, in any order, on the context or a copy of it), a generated key has a private value 0<d<n, a public point equal to -dG of that curve, and carries exactly that curve and table; with nothing selected the 257-bit default curve and default table are used. Rejected control values leave the earlier selection in force.",
 ["inputs", "configurations", "histories"], "all curves, custom groups, tables, control sequences and random streams (including those giving 0 or near-order candidates)",
 "The tests generate no key with a non-default configuration and do not check the public point independently.",
 ["engine/pmeth.c", "dstulib/params.c", "dstulib/key.c"],
 [("dstu_pkey_keygen, dstu_pkey_ctrl(_str), dstu_pkey_copy", "engine/pmeth.c"), ("dstu_generate_key, dstu_add_public_key, curve table", "dstulib/params.c")],
 observe=["EVP_PKEY_keygen", "EVP_PKEY_CTX_ctrl(_str)", "EVP_PKEY_CTX_dup"])

prop("C09", "Key encoding and decoding is lossless and follows the DSTU 4145 ASN.1 formats",
 "For every key (named or custom curve, trinomial or pentanomial, either byte order, default or custom table, any private value), the PKCS#8, SubjectPublicKeyInfo and parameter encodings have the DSTU 4145 structure and byte order, and decoding them yields a key that compares equal and has the same curve, table, private and public values. Encodings written by an independent encoder decode to those values, and keys or parameters that differ in any component never compare equal.",
 ["inputs", "configurations"], "all keys x {named, custom trinomial, custom pentanomial} x {LE, BE} x {default, custom table}, private values with leading or trailing zero bytes",
 "The tests read four fixture files on two named curves; custom curves, big-endian keys, custom tables and re-encoding are untouched.",
 ["engine/ameth.c", "dstulib/key.c", "dstulib/asn1.c", "dstulib/params.c", "dstulib/compress.c"],
 [("dstu_asn1_*_encode/decode, param_cmp, pub_cmp, param_copy", "engine/ameth.c"), ("asn1_from_key, key_from_asn1, group_from_asn1", "dstulib/key.c"), ("curve_nid_from_group", "dstulib/params.c")],
 observe=["i2d/d2i_PUBKEY", "EVP_PKEY2PKCS8/EVP_PKCS82PKEY", "EVP_PKEY_eq/parameters_eq/copy_parameters"])

prop("C10", "Point compression is a bijection and decoded points always lie on the curve",
 "For every point of the base-point subgroup of every supported curve, and for the point with x=0, compressing and expanding returns the same point, with the compressed form being the x-coordinate whose lowest bit is replaced by the trace of y/x (all zero for x=0). Every public key or base point the engine accepts from outside is a point of its curve, and strings that encode no point are refused.",
 ["inputs"], "all points (x=0, small x, both y values) and all candidate strings on all curves",
 "The tests decode two fixture points; neither branch of the sign bit nor the a=0 case is covered systematically.",
 ["dstulib/compress.c", "engine/ameth.c"],
 [("dstu_point_compress, dstu_point_expand, bn_trace", "dstulib/compress.c"), ("pub_decode/pub_encode", "engine/ameth.c")],
 observe=["d2i_PUBKEY followed by point extraction", "i2d_PUBKEY bytes"])

prop("C11", "Hostile keys, parameters and signatures never corrupt memory, hang or leak",
 "For every byte string presented to the engine as public key, private key, algorithm parameters, cipher parameters, signature or CMS message, the engine either refuses it or yields a usable object, in bounded time and memory. It performs no out-of-bounds or use-after-free access, no undefined behaviour and leaks nothing, whether it succeeds or fails, and objects it accepted can be used, printed, compared, re-encoded and freed safely.",
 ["inputs"], "all byte strings, biased to structured mutations of valid encodings (lengths, tags, field degrees, polynomials, missing parts)",
 "The tests only decode valid files and run without sanitizers.",
 ["engine/ameth.c", "engine/pmeth.c", "engine/cipher.c", "dstulib/key.c", "dstulib/asn1.c", "dstulib/compress.c"],
 [("length and type checks in decoders", "engine/ameth.c, engine/cipher.c"), ("group_from_asn1 validation", "dstulib/key.c"), ("error-path clean-up", "engine/ameth.c, engine/pmeth.c")],
 observe=["ASan/UBSan/LSan reports", "step/alloc budget per call"])

prop("C12", "Container readers are memory-safe on every input",
 "For every byte string and password presented to the Key-6, JKS and PKCS#12 readers, the reader returns success or failure in bounded time and memory without reading outside the supplied buffer or using uninitialised or freed memory, without undefined behaviour and without leaks. This holds for data that is truncated anywhere, has lying length fields or counts, or decrypts to hostile key data.",
 ["inputs"], "all byte strings and passwords, biased to truncations, length-field and count corruption, re-sealed containers with hostile payloads",
 "The tests read one valid file per format and run without sanitizers.",
 ["keylib/jks.c", "keylib/key6.c", "keylib/pkcs12.c", "keylib/utils.c", "keylib/keystore.c"],
 [("parseJKS/parseEntry/parseKey/parseCert length handling", "keylib/jks.c"), ("decryptKey6 buffers", "keylib/key6.c"), ("makePKey and attribute parsing", "keylib/utils.c")],
 observe=["ASan/UBSan/LSan reports", "fill-pattern metamorphic runs"])

prop("C13", "Container readers return exactly the stored keys and certificates, in order",
 "For every well-formed Key-6, JKS/JCEKS or PKCS#12 container with any number, order and kind of entries (keys on any curve, second keys stored as IIT attributes of Key-6 and JKS keys, certificate chains, trusted-certificate entries, nested bags), opening it with the right passwords returns every stored key and certificate, each with its exact value, in storage order, and nothing else. The reader from memory, from a BIO and from a FILE give the same result whatever the read chunking.",
 ["inputs", "configurations"], "all container layouts written by independent writers: entry counts, orders, curves, tables, padding, password alphabets and sizes, BIO chunkings",
 "The tests open one fixture per format and count entries.",
 ["keylib/jks.c", "keylib/key6.c", "keylib/pkcs12.c", "keylib/utils.c", "keylib/keystore.c"],
 [("fromKeyProtector, parseCert", "keylib/jks.c"), ("decryptKey6, pkdf", "keylib/key6.c"), ("countKeysCerts/fromBags", "keylib/pkcs12.c"), ("pkeyFromAttributes", "keylib/utils.c"), ("KeyStoreAppend", "keylib/keystore.c")],
 observe=["parse*/read*/read*_bio", "KeyStoreKeyNum/GetKey/CertNum/GetCert"])

prop("C14", "Containers open only with the right password and only if untampered",
 "For every JKS/JCEKS and PKCS#12 container, opening with a wrong storage, key or container password, or after changing any integrity-protected byte, fails and returns no keys; a Key-6 container opened with a wrong password never yields the stored keys. Passwords are compared over their full length and alphabet.",
 ["inputs"], "all containers, all single- and multi-byte modifications of protected regions, all passwords differing from the right one (prefixes, extensions, case, last character)",
 "The tests never use a wrong password or a modified file.",
 ["keylib/jks.c", "keylib/pkcs12.c", "keylib/key6.c"],
 [("whiteHash digest comparison", "keylib/jks.c parseJKS"), ("checksum in fromKeyProtector", "keylib/jks.c"), ("PKCS12_verify_mac", "keylib/pkcs12.c"), ("pkdf", "keylib/key6.c")],
 observe=["parse* return value and store contents"])

prop("C15", "A failed open leaves nothing behind; an opened store owns its contents",
 "Whenever opening a container fails, the caller's store pointer is left so that the documented clean-up is safe (it never refers to freed memory), nothing leaks and the caller's FILE or BIO stays usable and open. Whenever it succeeds, the store owns every key and certificate: they stay valid and unchanged until the store is freed, references taken by the caller survive it, positions outside the store yield NULL, and freeing releases everything exactly once, with freeing NULL being harmless.",
 ["histories", "fault_sequences"], "all success and failure points of all three readers x all entry routes (memory, BIO, FILE), interleaved with use and free of stores",
 "The tests never look at the outparam after a failure nor check leaks or ownership.",
 ["keylib/keystore.c", "keylib/jks.c", "keylib/key6.c", "keylib/pkcs12.c"],
 [("KeyStoreFree, KeyStoreAppend ownership transfer", "keylib/keystore.c"), ("error paths of parse*", "keylib/jks.c, keylib/pkcs12.c, keylib/key6.c")],
 observe=["outparam after return", "LSan/ASan", "reference counts of returned objects"])

prop("C16", "The random generator follows DSTU 4145 and serves every request atomically",
 "From the seed (40 bytes of the OpenSSL generator) and time value taken at initialisation, the byte stream delivered by the engine's RAND method over any sequence of requests of any sizes equals the DSTU 4145 bit generator stream with no bit repeated or skipped, also when many threads request concurrently: the delivered blocks are a partition of that one stream. If seeding fails, requests report failure until seeding succeeds; clean-up discards the state so that the next request reseeds and works. A forked child seeds itself anew instead of going on with its parent's stream, and the parent's stream is undisturbed.",
 ["schedules", "histories", "fault_sequences"], "all request-size sequences, thread interleavings, seed failures at any point, clean-up/reuse histories, forks",
 "The tests compare nothing about the generator output; a reused state or dropped lock is invisible to them.",
 ["engine/rbg.c", "dstulib/gost/gost89.c"],
 [("dstu_rbg_get_bit, dstu_rbg_init, lock", "engine/rbg.c")],
 state=[("I, s, cryptor", "generator state", "engine/rbg.c"), ("initialized", "seeded flag", "engine/rbg.c")],
 observe=["ENGINE_get_RAND()->bytes/status/cleanup", "interposed RAND_OpenSSL() and time()"])

prop("C17", "Concurrent use of the engine and key library is race-free and correct",
 "For every interleaving of threads that load keys, hash, encrypt, sign, verify, encode, generate keys, draw random bytes and open containers with their own contexts (sharing only the engine and read-only keys), including the very first uses after loading, there is no data race and every operation returns the result it would return alone.",
 ["schedules"], "all interleavings of independent operations over a shared engine and shared read-only keys, first-use initialisation included",
 "The tests are single-threaded.",
 ["engine/dstu.c", "engine/rbg.c", "engine/md.c", "engine/cipher.c", "dstulib/params.c", "keylib/utils.c"],
 [("method tables created by the engine", "engine/dstu.c"), ("dstu_rand_lock", "engine/rbg.c"), ("no mutable statics elsewhere", "dstulib, keylib")],
 observe=["ThreadSanitizer reports", "results compared with single-threaded expectations"])

prop("C18", "The engine survives every load, init, finish, reload and unload history",
 "For every history of loading the engine (one instance alive at a time), taking and releasing structural and functional references, registering and unregistering defaults, using its algorithms by handle, name, NID or implicitly through keys, and unloading and loading again, no freed method or string is ever used, nothing leaks at the end and algorithms work whenever a functional reference is held or re-acquired. The engine advertises exactly its two key types, one digest and one cipher, with stable sizes and identifiers, and refuses any other.",
 ["histories"], "all sequences of engine life-cycle calls interleaved with algorithm use",
 "The tests load the engine once, use it and exit.",
 ["engine/dstu.c", "engine/err.c", "engine/md.c", "engine/cipher.c", "engine/pmeth.c", "engine/ameth.c"],
 [("dstu_bind, dstu_engine_init/finish, *_get accessors", "engine/dstu.c"), ("ERR_load/unload strings", "engine/err.c")],
 state=[("dstu_md, dstu_cipher, dstu_pkey_methods, dstu_asn1_methods", "cached method objects", "engine/dstu.c")],
 observe=["ENGINE_* calls", "EVP_get_digestbyname/cipherbyname", "ASan/LSan"])

prop("C19", "Signed and encrypted messages built with the engine interoperate end to end",
 "For every content and DSTU key, a CMS or PKCS#7 signed message created through OpenSSL with the engine carries the DSTU digest and signature algorithm identifiers, verifies against the signer's certificate and returns the content unchanged, and a change to content, signed attributes, signature or signer key is rejected (attributes signed under a key's own non-default table verify as CMS; OpenSSL's PKCS#7 verification never sees that table). Messages encrypted with dstu28147-cfb, under any table, decrypt to the content with the right key and only with it.",
 ["inputs", "histories"], "all contents, curves, byte orders, attached/detached, with or without signed attributes, all modified positions",
 "The tests verify one fixture message; nothing is created, tampered or encrypted.",
 ["engine/ameth.c", "engine/pmeth.c", "engine/md.c", "engine/cipher.c"],
 [("dstu_asn1_pkey_ctrl (PKCS7/CMS sign, default digest)", "engine/ameth.c"), ("dstu_pkey_ctrl", "engine/pmeth.c"), ("cipher ASN.1 parameters", "engine/cipher.c")],
 observe=["CMS_sign/CMS_verify", "PKCS7_sign/PKCS7_verify", "CMS_EncryptedData_*"])

prop("C20", "Password-based constructions use the DSTU primitives exactly",
 "For every key, password, salt, iteration count and message, HMAC and PBKDF2 computed through OpenSSL with the engine's digest equal RFC 2104 and RFC 8018 over GOST 34.311, and PBES2 data and private keys encrypted with dstu28147-cfb (DSTU PRF, any table carried in the parameters) decrypt to the original with the right password and never with another.",
 ["inputs", "configurations"], "all keys (shorter, equal, longer than the block), passwords, salts, iteration counts, tables and payloads",
 "The tests decrypt one PKCS#12 fixture and two AES-encrypted keys.",
 ["engine/dstu.c", "engine/md.c", "engine/cipher.c"],
 [("EVP_PBE_alg_add_type registration, block size", "engine/dstu.c, engine/md.c"), ("EVP_CTRL_PBE_PRF_NID, ASN.1 parameters", "engine/cipher.c")],
 observe=["HMAC()", "PKCS5_PBKDF2_HMAC", "PKCS8_encrypt/decrypt, EVP_PBE_CipherInit"])

prop("C21", "Secrets are wiped before the memory that held them is released",
 "Whatever the operation and however it ends (success, wrong password, damaged input, refusal), no heap block that the engine or the key container library itself frees or moves still holds a private key (in any byte order, as number or encoded), a signature nonce, a password (UTF-8 or UTF-16), or a cipher or MAC key in use.",
 ["inputs", "histories", "faults"], "all keys, passwords, containers and failure points",
 "Tests look at results only; nothing observes released memory.",
 ["engine/ameth.c", "engine/pmeth.c", "dstulib/key.c", "keylib/jks.c", "keylib/key6.c", "keylib/utils.c"],
 [("dstu_asn1_priv_decode/encode clear_free", "engine/ameth.c"), ("fromKeyProtector, toUTF16BE, decryptKey", "keylib/jks.c"), ("OPENSSL_clear_free of decrypted containers", "keylib/key6.c, keylib/utils.c")],
 observe=["heap blocks at release (CRYPTO_set_mem_functions)"])

prop("C22", "A key reports its own components truthfully; incomplete keys are refused",
 "For every key, what it says of itself is true: bit length is the field degree, size is the length of a DER signature, default digest and type are DSTU's, and the printed private, public and parameter texts (also inside a certificate) carry exactly the key's curve, base point, order, public point and private value. Public and parameter texts never show the private value, and a text cut short by its sink is not reported as success. A key without the needed component (typed only, parameters only, public only) is refused by every operation that needs it, without crashing or changing.",
 ["inputs", "histories", "faults"], "all curves, keys, byte orders, tables, states of completeness, sinks",
 "Tests never print a key and never use an incomplete one.",
 ["engine/ameth.c", "engine/pmeth.c", "engine/sign.c"],
 [("dstu_asn1_priv_print/pub_print/param_print", "engine/ameth.c"), ("dstu_asn1_pkey_bits/size, pkey_ctrl", "engine/ameth.c"), ("missing-component checks", "engine/ameth.c, engine/pmeth.c, engine/sign.c")],
 observe=["EVP_PKEY_print_*", "EVP_PKEY_get_bits/size/default_digest", "X509_print"])

prop("C23", "The openssl utility works with the engine, however it is loaded",
 "For every way of bringing the engine into the openssl utility (-engine with the engines directory, a configuration file with all, listed or no default algorithms, or both), dgst, HMAC, enc with key or password, genpkey, pkey, pkeyutl, pkcs8, cms and rand commands on DSTU algorithms deliver exactly the results of the standards (output of one side accepted and reproduced by an independent implementation), report wrong signatures, messages and passwords by their exit status, and every process ends cleanly, exit handlers included.",
 ["inputs", "configurations", "histories"], "all messages, keys, tables, loading routes and command sequences",
 "Tests use the library API from one configuration only; the documented utility is never run.",
 ["engine/dstu.c", "engine/md.c", "engine/cipher.c", "engine/pmeth.c", "engine/ameth.c", "engine/rbg.c"],
 [("bind function, registration of methods and names", "engine/dstu.c"), ("ctrl_str curve/sbox", "engine/pmeth.c"), ("PEM/DER methods", "engine/ameth.c")],
 observe=["output files and exit status of /usr/bin/openssl processes"])

prop("C24", "Running out of memory never crashes, corrupts or falsifies a result",
 "When memory runs out at any point of an operation (one allocation refused, or every allocation from some point on), the operation either reports failure or gives exactly the right result: it does not crash, does not return a wrong digest, ciphertext, key, encoding or point, does not produce an invalid signature or accept a wrong one, does not report success on an opened container whose keys or certificates are missing, leaves no memory behind and leaves its objects usable, so that the same operation works when memory is available again. (The additional key an IIT attribute may carry is taken along when it can be read, and may be missing.)",
 ["inputs", "faults"], "all operations on digests, ciphers, keys, signatures, encodings and key containers, every allocation they make, single and persistent failure",
 "Tests never fail an allocation; every unchecked result lies dormant until one does, at one particular call.",
 ["dstulib/compress.c", "dstulib/key.c", "dstulib/asn1.c", "dstulib/params.c", "engine/ameth.c", "engine/pmeth.c", "engine/md.c", "engine/cipher.c", "keylib/keystore.c", "keylib/utils.c", "keylib/jks.c", "keylib/key6.c", "keylib/pkcs12.c"],
 [("error paths of point expansion and compression", "dstulib/compress.c"), ("error paths of key decode/encode", "engine/ameth.c"), ("sign, verify and keygen clean-up", "engine/pmeth.c"), ("container readers' clean-up", "keylib/")],
 observe=["return values and outputs of EVP, d2i/i2d and readX/parseX calls", "allocator hooks"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
