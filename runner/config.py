"""Per-property workloads. Bounds are case counts; wall-clock limits exist only as watchdogs."""
UB = "-fsanitize=undefined -fno-sanitize=function,vptr,alignment,shift-base,nonnull-attribute,pointer-overflow"
ASAN = "-O1 -g -fno-omit-frame-pointer -fsanitize=address " + UB + " -fno-sanitize-recover=all"
TSAN = "-O1 -g -fno-omit-frame-pointer -fsanitize=thread"
BUILDS = {
    "asan": dict(cc="clang", cxx="clang++", cflags=ASAN, ldflags="-fsanitize=address,undefined", hflags="-O2 -g1", hlink="-fsanitize=address,undefined"),
    "tsan": dict(cc="clang", cxx="clang++", cflags=TSAN, ldflags="-fsanitize=thread", hflags="-O1 -g1 -fsanitize=thread", hlink="-fsanitize=thread"),
    "plain": dict(cc="gcc", cxx="g++", cflags="-O2 -g", ldflags="", hflags="-O2 -g1", hlink=""),
}
TRUST = ["libcrypto 3.0.13 (EVP dispatch, BIGNUM/GF(2^m) arithmetic, ASN.1 engine) is trusted",
         "the reference GOST 28147 / GOST 34.311 implementation is anchored on published vectors"]

VG = ["valgrind", "-q", "--error-exitcode=66", "--leak-check=no", "--undef-value-errors=yes", "--num-callers=30"]

CHECKS = {}


def check(pid, **kw):
    kw.setdefault("src", pid.lower() + ".cpp")
    kw.setdefault("assumptions", TRUST)
    CHECKS[pid] = kw


check("C01", technique='differential monitor against a reference GOST 34.311 under ASan+UBSan', level_note='Every digest observed equals an independent implementation anchored on published vectors; sampled messages up to 4 GiB+, all sanitizer-instrumented except the huge ones.',
      rule="each case is one message (kinds: random, all-ones, carry, ripple, sparse) x table x API route compared with the reference; "
                  "distinct = (length, kind, route, table) signature",
      phases=[dict(name="main", build="asan", quick=4000, thorough=60000),
              dict(name="big", build="plain", mode="big", quick=8, thorough=8, workers=4, stall=400)])

check("C02", technique='history monitor (model of every digest context) under ASan+UBSan', level_note='Random operation histories over interleaved contexts; each final compared with the digest of the bytes the model says were fed.',
      rule="each case is one random history (6-35 operations: init variants, table control, chunked updates, copies over live/fresh contexts, "
                  "re-inits, algorithm switches, finals) over 2-5 interleaved contexts; distinct = operation-class sequence signature",
      require={"finals": 4000, "copies": 800, "keyed_signs": 200},
      phases=[dict(name="main", build="asan", quick=20000, thorough=400000),
              dict(name="keyed", build="asan", mode="keyed", quick=2400, thorough=40000)])

check("C03", technique='differential monitor against a reference GOST 28147 CFB under ASan+UBSan, Memcheck in thorough', level_note='Sampled keys, IVs, tables, masks and lengths; exact-size heap buffers so that any over-read/-write is seen.',
      rule="each case is one (key, IV, table, message, mask randomness, API) encrypted and decrypted in exact-size buffers; "
                  "distinct = (length class, table kind, mask kind, API, key prefix)",
      phases=[dict(name="main", build="asan", quick=100000, thorough=2000000),
              dict(name="big", build="asan", mode="big", quick=16, thorough=200),
              dict(name="huge", build="plain", mode="huge", quick=4, thorough=4, workers=4, stall=600),
              dict(name="vg", build="plain", quick=0, thorough=800, prefix=VG)])

check("C04", technique='history monitor (model of every cipher context) under ASan+UBSan, Memcheck in thorough', level_note="Random operation histories; each update compared with the reference stream of the model's key, IV, table and position.",
      rule="each case is one random history (8-37 operations) over 2-4 interleaved contexts, every update compared with the reference stream; "
                  "distinct = operation-class sequence signature",
      require={"updates": 5000, "copies": 500, "imports": 200, "malformed_params": 200, "resumed_mid_block": 500},
      phases=[dict(name="main", build="asan", quick=100000, thorough=2000000),
              dict(name="vg", build="plain", quick=0, thorough=800, prefix=VG)])

check("C05", technique='monitor of every produced signature with an independent DSTU 4145 verifier under ASan+UBSan; RNG step budget for termination', level_note='Sampled keys, curves, messages and edge random streams; field arithmetic of libcrypto is trusted.',
      rule="each case is one key (curve x byte order x encoding x table x private value) signing 1-3 messages under ordinary and edge-value randomness; "
                  "distinct = (curve, message kind, byte order, randomness kind, length class)",
      require={"signatures": 2000, "short_buffer": 100, "kind_cut0": 50, "kind_digest": 100},
      phases=[dict(name="main", build="asan", quick=4000, thorough=60000),
              dict(name="gen", build="asan", mode="gen", quick=160, thorough=2000)])

check("C06", technique='verdict monitor against an independent DSTU 4145 verifier, exhaustive (r,s) on tiny groups, under ASan+UBSan', level_note='Sampled and structured signatures plus complete enumeration for tiny groups; libcrypto field arithmetic trusted.',
      rule="each case is one key with a reference-made signature and about 45 strings derived from it (encodings, range edges, length edges, bit changes, "
                  "other key/curve/order), each verdict compared with the reference; 'exhaustive' tries the (r,s) square of a tiny group; distinct = (kind, curve, order, verdict)",
      require={"accept_expected": 2000, "reject_expected": 10000, "short_halves": 20, "exhaustive_accepted": 100, "digest_verifications": 200},
      phases=[dict(name="main", build="asan", quick=800, thorough=16000),
              dict(name="exhaustive", build="asan", mode="exhaustive", quick=8, thorough=64)])

check("C07", technique='trace monitor recovering nonces from signatures; random-source tap, bit-influence and fault injection at every request', level_note="Statistical thresholds are fixed far beyond chance (deterministic seeds); the random source itself is the harness's.",
      rule="'fresh' cases sign several hundred messages with one key and test the recovered nonces (repeat, range, bit/byte statistics, relations); 'uniform' "
                  "cases compare the nonce histogram of a tiny group with the uniform law; 'influence' cases flip each delivered random byte and look for it in the nonce; 'faults' cases fail every random request position of sign/keygen in turn; "
                  "distinct = key or fault position",
      require={"signatures": 20000, "faults_injected": 1000, "uniformity_tests": 8, "influence_streams": 20, "unseeded_refusals": 100},
      phases=[dict(name="fresh", build="plain", mode="fresh", quick=72, thorough=360),
              dict(name="uniform", build="plain", mode="uniform", quick=16, thorough=64),
              dict(name="influence", build="plain", mode="influence", quick=48, thorough=1000),
              dict(name="faults", build="asan", mode="faults", quick=240, thorough=6000),
              dict(name="engrand", build="asan", mode="engrand", quick=480, thorough=8000)])

check("C08", technique='history monitor of key-generation contexts with an independent key-pair check under ASan+UBSan', level_note='Random selection histories; every generated key read back through the encoders and compared.',
      rule="each case is one history of curve/table selections (valid and refused), context copies and key generations; every generated key is read back and compared "
                  "with the selection in force; distinct = operation sequence or (curve, order, table) signature",
      require={"keys": 1500, "ctx_copies": 300},
      phases=[dict(name="main", build="asan", quick=8000, thorough=150000)])

check("C09", technique='round-trip and differential monitor against an independent DER encoder under ASan+UBSan', level_note='Sampled keys over all curve kinds, byte orders and tables; unequal pairs differ in exactly one component.',
      rule="each case is one key (curve x order x table x private value) decoded from the independent encoder, compared component by component, sent through the public "
                  "encoders and compared with keys differing in one component; distinct = (curve, order, table kind, form) or (difference, curve, order)",
      require={"keys_compared": 5000, "unequal_pairs": 2000},
      phases=[dict(name="main", build="asan", quick=2400, thorough=40000)])

check("C10", technique='differential monitor against an independent compression/expansion, exhaustive on tiny curves, under ASan+UBSan', level_note='All strings of tiny curves, structured samples on the full-size ones; libcrypto field arithmetic trusted.',
      rule="'main' cases compress group points and offer canonical, non-point, non-canonical and mis-sized strings as public keys and base points; 'exhaustive' cases offer "
                  "every string and compress every element of tiny curves; distinct = (curve, kind, verdict, string prefix)",
      require={"accepted": 3000, "refused": 2000, "compressed": 1000, "base_points": 100, "bad_base_points": 50, "exhausted_curves": 8},
      phases=[dict(name="main", build="asan", quick=1200, thorough=20000),
              dict(name="exhaustive", build="asan", mode="exhaustive", quick=14, thorough=14)])

check("C11", technique="sanitizer-monitored hostile-input workload (DER-aware mutation) with heap-growth, budget and fresh-memory monitors; Memcheck in thorough",
      level_note="Sampled hostile inputs; every access of engine code is watched by ASan/UBSan, leaks by repeated-execution heap growth and LSan, termination by a random-request budget.",
      rule="each case is one mutated key, parameter block, signature, cipher parameter block, CMS message or control string executed at least twice under different fresh-memory contents; "
           "distinct = outcome trace (every value the caller could observe)",
      require={"spki_accepted": 150, "pkcs8_accepted": 150, "params_accepted": 50, "spki_refused": 500, "pkcs8_refused": 400, "cms_parsed": 40, "hostile_signed": 80, "cipherparams_refused": 100},
      phases=[dict(name="main", build="asan", quick=8000, thorough=100000, leaks=True),
              dict(name="vg", build="plain", quick=0, thorough=200, prefix=VG, env={"VERIF_NOFILL": "1"})])

check("C13", technique="differential monitor: containers from independent writers read back and compared entry by entry, under ASan+UBSan",
      level_note="Sampled well-formed containers over all entry kinds, counts, orders, passwords and read routes; PKCS#12 KDF/MAC and non-DSTU PBE are libcrypto's (trusted).",
      rule="each case is one container (shape of entries drawn at random) opened through one or two of the four read routes; distinct = container shape",
      require={"keys_checked": 1500, "certs_checked": 1500, "opened_key6_via0": 20, "opened_key6_via3": 20, "opened_jks_via2": 100, "opened_p12_via1": 100},
      phases=[dict(name="key6", build="asan", mode="key6", quick=240, thorough=8000),
              dict(name="jks", build="asan", mode="jks", quick=480, thorough=20000),
              dict(name="p12", build="asan", mode="p12", quick=480, thorough=20000)])

check("C12", technique="sanitizer-monitored hostile-container workload with heap-growth, budget and fresh-memory monitors; Memcheck in thorough",
      level_note="Sampled hostile containers in exact-size buffers at every layer (raw bytes, lengths, decrypted keys, certificates, bags); hostile KDF iteration counts are libcrypto's and not offered.",
      rule="each case is one hostile container executed at least twice under different fresh-memory contents; distinct = outcome trace",
      require={"accepted_key6": 40, "refused_key6": 80, "accepted_jks": 150, "refused_jks": 800, "accepted_p12": 150, "refused_p12": 400},
      phases=[dict(name="key6", build="asan", mode="key6", quick=400, thorough=8000, leaks=True),
              dict(name="jks", build="asan", mode="jks", quick=2400, thorough=60000, leaks=True),
              dict(name="p12", build="asan", mode="p12", quick=1600, thorough=40000, leaks=True),
              dict(name="vg_jks", build="plain", mode="jks", quick=0, thorough=160, prefix=VG, env={"VERIF_NOFILL": "1"}),
              dict(name="vg_p12", build="plain", mode="p12", quick=0, thorough=160, prefix=VG, env={"VERIF_NOFILL": "1"}),
              dict(name="vg_key6", build="plain", mode="key6", quick=0, thorough=24, prefix=VG, env={"VERIF_NOFILL": "1"})])

check("C14", technique="monitor of every open attempt on known containers: near-miss passwords and single-byte changes must fail, under ASan+UBSan",
      level_note="All digest, MAC and salt bytes and a sweep of the content bytes of sampled containers; passwords near the right one in every position class. SHA-1/PKCS#12 KDF of libcrypto trusted.",
      rule="each case is one container opened once with the right passwords and then about 100-700 times with near-miss passwords or one protected byte changed; distinct = (format, attack, place)",
      require={"opened_right": 200, "jks_store-password": 1000, "jks_key-password": 1000, "jks_tampered-byte": 5000, "jks_resealed-key": 1000, "p12_password": 1000, "p12_tampered-byte": 2000, "p12_tampered-mac": 2000, "key6_password": 300},
      phases=[dict(name="jks", build="asan", mode="jks", quick=104, thorough=3000),
              dict(name="p12", build="asan", mode="p12", quick=160, thorough=4000),
              dict(name="key6", build="asan", mode="key6", quick=64, thorough=1600)])

check("C15", technique="resource monitors around every open (heap balance, BIO destroy counter, FILE state, values after inputs and store are destroyed) with fault injection, under ASan+LSan+UBSan",
      level_note="Sampled good and failing opens by all four routes with faults in the random source, iconv, reads and algorithm lookup; allocation failure is not injected.",
      rule="each case is one open (good, broken at some layer, or with an injected fault) executed at least twice and followed by use of what it left behind; distinct = outcome trace",
      require={"opened": 600, "failed_opens": 800, "cleanup_free": 300, "surviving_keys": 400, "surviving_certs": 300, "failed_random": 30, "failed_iconv": 5, "failed_read-error": 5, "failed_no-key-methods": 30, "failed_write-only-file": 5},
      phases=[dict(name="main", build="asan", quick=1600, thorough=40000, leaks=True),
              dict(name="key6", build="asan", mode="key6", quick=160, thorough=4000, leaks=True)])

check("C16", technique="trace monitor of the RAND method against a reference DSTU 4145 generator with interposed seed source and clock; partition check of concurrent blocks; TSan",
      level_note="Sampled request histories, seed failures and clean-ups; concurrent runs are checked to be partitions of the predicted streams and run under TSan and unsanitized for real contention.",
      rule="a sequential case is one history of requests/status/clean-up/seed-failure; a concurrent case is 2-8 threads whose blocks are located in the predicted stream; distinct = history signature or observed order of threads in the stream",
      require={"requests": 3000, "seedings": 500, "failed_seedings": 100, "cleanups": 200, "mt_blocks": 5000, "mt_long_cases": 20, "big_cases": 4, "thread_switches": 500, "default_ops": 100, "forks_when_seeded": 100},
      phases=[dict(name="main", build="asan", quick=800, thorough=20000),
              dict(name="fork", build="plain", mode="fork", quick=240, thorough=4000),
              dict(name="big", build="plain", mode="big", quick=5, thorough=64, par=5, workers=5),
              dict(name="default", build="asan", mode="default", quick=48, thorough=600),
              dict(name="mt", build="plain", mode="mt", quick=160, thorough=4000, par=2, workers=4),
              dict(name="mtsan", build="tsan", mode="mtsan", quick=96, thorough=2000, par=2, workers=4)])

check("C17", technique="ThreadSanitizer plus result monitors over concurrent workloads on a freshly loaded engine",
      level_note="Sampled interleavings of 2-8 threads over 16 operation kinds; the engine is unloaded and loaded again for every case so that first uses race. libcrypto is not instrumented (its internals are trusted).",
      rule="each case loads the engine, starts 2-8 threads at a barrier with 3-40 jobs each and judges every result against what the operation returns alone; distinct = (threads, jobs, focus, random source)",
      require={"overlapping_jobs": 3000, "reloads": 100, "signatures_judged": 200, "job_digest": 200, "job_cipher": 200, "job_sign-shared": 200, "job_keygen": 200, "job_container": 200, "job_key6": 20, "cold_starts": 60, "unordered_locks": 1000},
      phases=[dict(name="tsan", build="tsan", mode="tsan", quick=96, thorough=2400, workers={"quick": 24, "thorough": 48}),
              dict(name="tsanraw", build="tsan", mode="tsanraw", quick=96, thorough=2400, workers={"quick": 24, "thorough": 48}),
              dict(name="plain", build="plain", mode="plain", quick=120, thorough=3000, workers={"quick": 12, "thorough": 24})])

check("C18", technique="lifecycle history monitor over a really unloading module under ASan+LSan and Memcheck; result and look-up checks after every step",
      level_note="Sampled histories of 1-3 load/unload rounds with up to 40 steps; one instance at a time; registrations are withdrawn before the last reference is released (see the known finding for programs that do not).",
      rule="each case is one history of loads, references, registrations, uses through every route and releases in random order, with objects outliving the caller's references; distinct = operation sequence",
      require={"unloads": 400, "kept_in_memory": 150, "outliving_objects": 300, "uses": 3000, "reacquired": 200, "advertised_checks": 100, "errors_read": 50, "stale_lookups": 8},
      phases=[dict(name="main", build="asan", quick=1024, thorough=16384, workers={"quick": 32, "thorough": 512}, leaks=True),
              dict(name="vg", build="plain", mode="vg", quick=32, thorough=800, prefix=VG, workers={"quick": 8, "thorough": 24}),
              dict(name="stale", build="plain", mode="stale", quick=8, thorough=8, workers=1)])

check("C20", technique="differential monitor of HMAC, PBKDF2 and PBES2 results against reference constructions, wrong-password monitor, under ASan+UBSan",
      level_note="Sampled keys, passwords, salts, iteration counts, tables and interfaces; wrong passwords are near misses in every position class.",
      rule="each case is one HMAC history, one PBKDF2 derivation or one PBES2 object (data or key, read or written, through several OpenSSL interfaces); distinct = (kind, sizes, iterations)",
      require={"hmacs": 3000, "hmac_copies": 300, "pbkdf2": 1000, "pbes2_data": 200, "pbes2_read_keys": 100, "pbes2_written_keys": 300},
      phases=[dict(name="hmac", build="asan", mode="hmac", quick=4000, thorough=80000),
              dict(name="pbkdf2", build="asan", mode="pbkdf2", quick=4000, thorough=60000),
              dict(name="pbes2", build="asan", mode="pbes2", quick=2000, thorough=40000),
              dict(name="fixtures", build="asan", mode="fixtures", quick=2, thorough=2, workers=1)])

check("C19", technique="end-to-end monitor: every message made is taken apart and judged by the reference verifier/cipher, reference-made ones must be accepted, changed ones rejected; ASan+UBSan",
      level_note="Sampled contents, keys, tables, interfaces and modifications; certificates carry a dummy signature (chain building is not the engine's).",
      rule="each case is one signed message (CMS or PKCS#7, made by OpenSSL or by the reference) with up to eight modifications, or one encrypted message with wrong keys; distinct = (interface, options, curve, order, table, content length)",
      require={"cms_made": 300, "p7_made": 150, "reference_made": 200, "verified": 700, "attacked_content": 500, "attacked_signature": 500, "attacked_attributes": 200, "attacked_key": 300, "encrypted": 100, "reference_encrypted": 100, "enveloped": 300},
      phases=[dict(name="main", build="asan", quick=1600, thorough=30000),
              dict(name="enc", build="asan", mode="enc", quick=1600, thorough=30000),
              dict(name="fixtures", build="asan", mode="fixtures", quick=1, thorough=1, workers=1)])

check("C21", technique="heap-release monitor: allocator hooks scan every block the engine or keylib releases or moves for keys, nonces and passwords of the running operation",
      level_note="Heap only (no stack or static memory), and only blocks released by the engine's and keylib's own code: copies libcrypto makes and frees internally are not the engine's.",
      rule="each case is one operation (key decode, encode, sign, key generation, cipher, HMAC, opening a Key-6, JKS or PKCS#12 store, part of them with wrong passwords, damaged, or with one allocation made for the engine failing), all its heap releases scanned; distinct = (operation, input class)",
      require={"engine_blocks_scanned": 4000, "op_sign": 300, "op_decode": 300, "op_keygen": 300, "op_key6": 300, "op_jks": 300, "op_p12": 300, "failed_opens": 200, "opened": 300, "allocation_faults": 400, "invalid_utf8": 40, "secret_draws": 500},
      phases=[dict(name="main", build="plain", quick=9000, thorough=100000)])

check("C22", technique="differential monitor: printed text parsed and compared component by component with the reference key, refusal monitor for incomplete keys, failing-sink monitor, under ASan+UBSan+LSan",
      level_note="Sampled keys on all standard, custom and tiny curves; text is parsed by label, layout is not judged.",
      rule="each case is one key in four states of completeness (private, public, parameters only, typed only), every inspection function read and compared, operations its state does not allow, and sinks that stop early; distinct = (curve, order, encoding, table, size of the private value)",
      require={"texts_read": 20000, "numbers_read": 8000, "incomplete_ops": 30000, "limited_sinks": 6000, "certificates_read": 500},
      phases=[dict(name="main", build="asan", quick=3200, thorough=60000, leaks=True)])

check("C23", technique="end-to-end monitor of openssl utility sessions: outputs and exit statuses judged by the references, the engine inside the utility under ASan+UBSan (preloaded runtime)",
      level_note="Sampled sessions; the utility's own random source is real, so its choices vary between runs (the verdicts do not depend on them).",
      rule="each case is a session of one to four openssl commands with the engine loaded by -engine, by configuration with all or listed default algorithms, or both; distinct = (route, kind, message size class, input channel)",
      require={"commands": 2500, "cmd_dgst": 400, "cmd_enc": 250, "cmd_genpkey": 100, "cmd_pkeyutl": 200, "cmd_pkey": 400, "cmd_cms": 300, "cmd_rand": 150, "cmd_pkcs8": 60},
      phases=[dict(name="main", build="asan", quick=1600, thorough=30000, env={"C23_PRELOAD": "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.asan-x86_64.so"})])

check("C24", technique="allocation-failure injection at every allocation of an operation (one, then all from there on) with an outcome oracle, a leak account and ASan+UBSan",
      level_note="For sampled operations: the first and last allocation of every distinct call stack and evenly spread others; failures inside libcrypto's own error queue, decoders, algorithm fetching and message encoding are not injected, and loading the module is not covered.",
      rule="each case is one operation run once per allocation it makes, in a child process; the result is compared with the reference, the object is used again afterwards and blocks left by the engine or keylib are counted; distinct = (operation, curve, encoding, size)",
      require={"trials": 6000, "faults_hit": 6000, "op_sign": 200, "op_verify": 200, "op_keygen": 100, "op_open-jks": 500, "op_open-p12": 500, "op_open-key6": 40, "op_decode-private": 300, "op_decode-public": 300, "op_encode-public": 200, "op_digest-sign": 300, "op_pkcs8-decrypt": 300, "op_reselect": 100, "op_cms-verify": 300, "op_cms-encrypt": 60, "op_pkcs8-encrypt": 100, "call_stacks": 8000},
      phases=[dict(name="main", build="asan", quick=80, thorough=1600)])
