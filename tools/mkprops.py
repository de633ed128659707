#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the lines stay uniform)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(obs), hook_needed=hook)))


GC, GH, G89, G15 = "gost_crypt.c", "gost_grasshopper_cipher.c", "gost89.c", "gost_gost2015.c"
p("C01", "Cipher output is the mode's definition however the message is cut",
  "For every engine cipher, direction, key and IV, the bytes produced for a message are those of the mode's definition (GOST 28147-89 CFB/CBC/CNT with each S-box, Magma and Kuznyechik ECB/CBC/CFB/OFB/CTR and CTR-ACPKM, with PKCS#7 padding on block modes), and they do not depend on how the message is split into update calls, on buffer alignment, or on whether input and output share a buffer.",
  ["inputs", "histories"], "all keys, IVs, messages, and all ways to cut a message into update calls, both directions",
  "Tests use a few fixed vectors and a few fixed splits; partial-block carry-over, zero-length calls, counter carries beyond one byte and splits at section ends are combinations no table covers.",
  [GC, GH, G89, "gost_grasshopper_core.c"], [("partial-block buffer and num index", "magma_cipher_do_ctr, gost_cipher_do_cfb, gost_cipher_do_cnt in gost_crypt.c; do_ctr/do_ofb/do_cfb in gost_grasshopper_cipher.c")],
  [("num", "bytes of the current keystream block already used", "EVP_CIPHER_CTX num"), ("iv", "shift/counter register", "EVP_CIPHER_CTX iv")],
  ["EVP_CipherUpdate", "EVP_CipherFinal_ex"])
p("C02", "Decryption restores exactly what was encrypted",
  "For every engine cipher and every key, IV and message (including the empty one and lengths around block and section boundaries), decrypting the produced ciphertext with the same key and IV yields the original message, whatever cutting each side uses independently and whether done in place or not; with padding enabled, final rejects ciphertext whose padding or length is wrong.",
  ["inputs", "histories"], "all messages and all independent cuttings on both sides",
  "Round trips in the tests use the same split on both sides and a handful of lengths.",
  [GC, GH, G89], [("encrypt/decrypt branch pairs", "gost_cipher_do_cbc, magma_cipher_do_cbc, *_do_cfb")], obs=["EVP_CipherUpdate", "EVP_CipherFinal_ex"])
p("C03", "Key meshing happens exactly at section boundaries",
  "The working key (and, for CryptoPro meshing, the register) changes exactly when the configured number of bytes of the current message has been processed - 1024 for GOST 28147-89 CFB/CNT, the default or the size set by the section-size control for the ACPKM ciphers - and never earlier, later, twice or for plain CTR/CBC/ECB/OFB; the control accepts only legal sizes and only before data.",
  ["inputs", "histories", "configurations"], "all section sizes, message lengths and cuttings around section boundaries",
  "Tests mesh at one or two section sizes with one or two splits; a boundary reached by an exact split, a zero-length call or a byte-wise feed is untested.",
  [GC, GH, G89], [("count / num against section size", "gost_crypt_mesh, gost_cnt_next, apply_acpkm_magma, apply_acpkm_grasshopper"), ("new key derivation", "cryptopro_key_meshing, acpkm_magma_key_meshing, acpkm_next")],
  [("count", "bytes processed in this section", "struct ossl_gost_cipher_ctx"), ("section_size", "configured section", "gost_grasshopper_cipher_ctx_ctr")], ["EVP_CIPHER_CTX_ctrl KEY_MESH"])
p("C04", "Re-initialising a cipher context leaves no trace of the previous message",
  "After a context is initialised again - with a new key, a new IV, both, neither, or the other direction, at any point of a previous message, with or without passing the cipher again - its output equals that of a fresh context with the same key and IV.",
  ["histories", "inputs"], "all sequences of messages on one context, interrupted anywhere",
  "Tests create a fresh context per vector or re-initialise only at block boundaries of short messages.",
  [GC, GH], [("init callbacks reset position, counter, section and key", "gost_cipher_start, magma_cipher_init, gost_grasshopper_cipher_init*")], obs=["EVP_CipherInit_ex"])
p("C05", "Copied contexts continue independently and identically",
  "After copying a cipher, AEAD, digest or MAC context at any point, both contexts produce what the original alone would have produced for their own continuation, and using, re-initialising or freeing either one never changes the other.",
  ["histories"], "all interleavings of updates, finals, copies and frees on a family of copied contexts",
  "test_context copies at a few points and compares final results only; interleaved use, nested copies and freeing the source first are not covered.",
  [GC, GH, G15, "gost_md.c", "gost_md2012.c", "gost_omac.c", "gost_omac_acpkm.c"],
  [("copy callbacks / EVP_CTRL_COPY", "magma_cipher_ctl_acpkm_omac, gost_grasshopper_cipher_ctl, gost_grasshopper_mgm_ctrl, gost_digest_copy, omac_imit_copy, omac_acpkm_imit_copy, gost_imit_copy")], obs=["EVP_CIPHER_CTX_copy", "EVP_MD_CTX_copy_ex"])
p("A01", "MGM seal and open are inverse and equal the definition",
  "For the MGM AEAD ciphers, every key, nonce, associated data and message (either may be empty, not both), and every cutting of both, ciphertext and tag equal the MGM definition (RFC 9058) and opening them returns the message and succeeds.",
  ["inputs", "histories"], "all lengths of AAD and message including zero, all cuttings on either side",
  "test_mgm uses two vectors per cipher with one split; empty AAD, empty message, and cross-cut decrypts are not tested.",
  [G15, GC, GH], [("AAD/message accumulation", "gost_mgm128_aad, gost_mgm128_encrypt, gost_mgm128_decrypt, gost_mgm128_finish"), ("field multiplication", "gf64_mul, gf128_mul_uint64")],
  [("len, ares, mres", "bytes of AAD and message, partial block fill", "mgm128_context")], ["EVP_CipherUpdate", "EVP_CIPHER_CTX_ctrl GET_TAG"])
p("A02", "MGM rejects any altered ciphertext, AAD, nonce or tag",
  "Opening with any significant bit of the ciphertext, associated data, nonce, key or tag changed, or with truncated or extended AAD or ciphertext, fails at final; only the exact tag is accepted.",
  ["inputs"], "all single- and multi-bit alterations and length changes",
  "Tests check one altered tag at most.",
  [G15, GC, GH], [("constant-time compare in finish", "gost_mgm128_finish")], obs=["EVP_CipherFinal_ex"])
p("A03", "MGM call order and nonce rules are enforced",
  "An MGM context encrypts or authenticates only after key and nonce are set, refuses associated data once message data has been given, never reuses a nonce after final without a new one, gives a tag only after an encrypting final and verifies only with a tag set; refused calls do not change later results.",
  ["histories"], "all sequences of key, nonce, AAD, data, tag and final calls",
  "Tests follow only the intended order.",
  [G15, GC, GH], [("key_set / iv_set / taglen flags", "gost_grasshopper_cipher_do_mgm, gost_magma_cipher_do_mgm, *_mgm_ctrl")],
  [("key_set, iv_set, taglen", "what has been provided", "gost_mgm_ctx")], ["EVP_CipherInit_ex", "EVP_CIPHER_CTX_ctrl"])
p("A04", "CTR-ACPKM-OMAC encrypts and authenticates the whole message",
  "For the CTR-ACPKM-OMAC ciphers the ciphertext and encrypted MAC equal the definition under the keys derived from key and seed, for every message and cutting; decryption with the transported parameters and MAC restores the message, and any change of ciphertext, MAC or seed makes final fail.",
  ["inputs", "histories"], "all messages, cuttings, and alterations",
  "Covered only through one or two CMS files.",
  [G15, GC, GH], [("derive keys, MAC alongside, compare on final", "gost2015_acpkm_omac_init, gost2015_final_call, magma_cipher_do_ctr_acpkm_omac, gost_grasshopper_cipher_do_ctracpkm_omac")], obs=["EVP_CipherFinal_ex", "EVP_CTRL_PROCESS_UNPROTECTED"])
p("D01", "Digests do not depend on how the data is cut and equal the standard",
  "GOST R 34.11-94 and both GOST R 34.11-2012 digests of a message equal the standards' value for every message (including the empty one and contents that force carries in the checksum) and every cutting into updates.",
  ["inputs", "histories"], "all messages and all cuttings",
  "Tests use the standards' examples and a few repetitive inputs with a few splits.",
  ["gosthash.c", "gosthash2012.c", "gosthash2012.h", "gosthash2012_sse2.h", "gost_md.c", "gost_md2012.c"],
  [("block buffer", "hash_block, gost34112012Update"), ("length and checksum accumulation", "finish_hash, stage2/stage3, add512, add_blocks")],
  [("left/bufsize", "bytes waiting in the block buffer", "gost_hash_ctx, gost2012_hash_ctx")], ["EVP_DigestUpdate", "EVP_DigestFinal_ex"])
p("D02", "A digest context can be reused without residue",
  "Initialising a digest context again after a finished, unfinished or copied computation - also for another digest length - gives the same value as a fresh context; finalising one context does not affect its copies.",
  ["histories"], "all sequences of init, update, final, reset and copy",
  "Tests reuse contexts only after a final.",
  ["gost_md.c", "gost_md2012.c", "gosthash.c", "gosthash2012.c"], [("init clears state", "init_gost2012_hash_ctx, start_hash, gost_digest_init")], obs=["EVP_DigestInit_ex", "EVP_MD_CTX_copy_ex"])
p("M01", "MACs do not depend on how the data is cut and equal the definition",
  "GOST 28147-89 imitovstavka (with CryptoPro meshing every 1024 bytes), Magma/Kuznyechik OMAC, and OMAC-ACPKM of a message equal their definition for every key, message (including empty and lengths at block, section and 1024-byte boundaries), tag length and cutting.",
  ["inputs", "histories"], "all keys, messages, cuttings, tag and section sizes",
  "Tests use the standards' vectors; the last-block rule depends on how the last call ends, which only many cuttings show.",
  [GC, "gost_omac.c", "gost_omac_acpkm.c", "gost_pmeth.c"], [("last-block deferral", "gost_imit_update/final, CMAC_ACPKM_Update/Final, omac_imit_update")],
  [("bytes_left, nlast_block", "bytes held back", "ossl_gost_imit_ctx, CMAC_ACPKM_CTX")], ["EVP_DigestSignUpdate", "EVP_DigestSignFinal"])
p("M02", "MAC contexts enforce key, tag-size and reuse rules",
  "A MAC is produced only after a key of the right length is set; the tag size control accepts exactly the sizes the algorithm allows and a shorter tag is a prefix of the longer one; setting a key or initialising again starts a new computation equal to a fresh one.",
  ["histories", "configurations"], "all orders of key, size, data, final and re-key calls and all sizes",
  "Tests exercise the valid sizes 4 and 8/16 and one order.",
  [GC, "gost_omac.c", "gost_omac_acpkm.c", "gost_pmeth.c"], [("key_set and size checks", "gost_imit_ctrl, omac_imit_ctrl, omac_acpkm_imit_ctrl, pkey_gost_mac_ctrl")],
  [("key_set, dgst_size", "key present, tag size", "ossl_gost_imit_ctx, OMAC_CTX, OMAC_ACPKM_CTX")], ["EVP_MD_CTX_ctrl", "EVP_PKEY_CTX_ctrl", "EVP_DigestSignFinal"])
p("K01", "KExp15 and KImp15 are inverse and reject alterations",
  "For every key, IV and pair of wrapping keys, importing an exported key returns it; the export equals the definition; import fails when any bit of the blob, the IV or either wrapping key differs, and for wrong lengths.",
  ["inputs"], "all keys, IVs, cipher families and alterations", "One vector per cipher.",
  ["gost_keyexpimp.c", "gost_gost2015.c"], [("OMAC then CTR", "gost_kexp15"), ("decrypt then compare", "gost_kimp15")], obs=["gost_kexp15", "gost_kimp15", "kexp15 wrap ciphers"])
p("K02", "The CryptoPro key wrap is invertible and rejects alterations",
  "Wrapping a session key with CryptoPro key diversification and unwrapping it with the same key-encryption key returns the key and equals RFC 4357 for every UKM and S-box; any change to the wrapped data, UKM or key-encryption key is rejected.",
  ["inputs"], "all keys, UKMs and alterations", "Covered only through CMS round trips with random keys.",
  ["gost_keywrap.c", "gost89.c"], [("diversify, wrap, MAC", "keyDiversifyCryptoPro, keyWrapCryptoPro, keyUnwrapCryptoPro")], obs=["keyWrapCryptoPro", "keyUnwrapCryptoPro", "pkey encrypt/decrypt"])
p("K03", "KDF_TREE, TLSTREE and per-record keys follow the sequence number",
  "KDF_TREE output equals its definition for every label, seed, output length and counter width, and outputs with more blocks than the counter can number are refused; TLSTREE gives for each sequence number the key of its definition, equal for numbers in the same leaf range and different otherwise, and the record control on CTR ciphers and MACs switches to exactly that key and IV for any order of sequence numbers.",
  ["inputs", "histories"], "all sequence numbers including carries and boundaries of the mask levels, in any order",
  "Tests use a few small sequence numbers in increasing order.",
  ["gost_keyexpimp.c", GC, GH, "gost_omac.c"], [("masked levels", "gost_tlstree, gost_kdftree2012_256"), ("record control", "EVP_CTRL_TLSTREE / EVP_MD_CTRL_TLSTREE handlers")], obs=["gost_tlstree", "EVP_CIPHER_CTX_ctrl", "EVP_MD_CTX_ctrl"])
p("K04", "Key agreement gives both sides the same, defined key",
  "For every pair of keys on a supported curve and every UKM, VKO and KEG computed by one side equal those computed by the other and the definition; a different UKM or peer key gives a different result, and agreement without the required UKM or with unusable keys fails.",
  ["inputs", "configurations"], "all curves, key pairs, UKM values and lengths, digest variants", "A few derive vectors.",
  ["gost_ec_keyx.c", "gost_pmeth.c"], [("UKM times cofactor times key", "VKO_compute_key, gost_keg, pkey_gost_ec_derive")], obs=["EVP_PKEY_derive"])
p("K05", "Public-key key transport round-trips and rejects alterations",
  "A session key encrypted to a public key (both transport formats, ephemeral or static sender key, any supported curve and settings) is recovered exactly by the owner's private key, and any change to the transported MAC, wrapped key, UKM or ephemeral key is rejected with an error, never a crash or a wrong key reported as success.",
  ["inputs", "configurations"], "all keys, session keys, formats and alterations of the blob", "CMS tests cover a few algorithm pairs without alterations.",
  ["gost_ec_keyx.c", "gost_keywrap.c", "gost_keyexpimp.c", "gost_asn1.c"], [("encode/decode and unwrap", "pkey_GOST_ECcp_encrypt/decrypt, pkey_gost2018_encrypt/decrypt")], obs=["EVP_PKEY_encrypt", "EVP_PKEY_decrypt"])
p("S01", "A signature made with a private key verifies with its public key",
  "For every curve, key, digest value (including zero and values at or above the group order) and nonce, the produced signature satisfies the GOST R 34.10 equation, has 0 < r,s < q encoded at fixed width, and is accepted by verification with the matching public key.",
  ["inputs", "configurations"], "all curves, keys, digests and nonces, including extreme values", "Tests sign random data with random keys on each curve; extreme digests and nonces are never reached.",
  ["gost_ec_sign.c", "gost_pmeth.c"], [("signature loop", "gost_ec_sign"), ("fixed-width packing", "pack_sign_cp, store_bignum")], obs=["EVP_PKEY_sign", "EVP_PKEY_verify"])
p("S02", "Nothing but a correct signature is accepted",
  "Verification accepts a value only if it has the curve's signature length, both halves are in range and the GOST R 34.10 equation holds for this digest and public key; altered, swapped, out-of-range, truncated, extended or zero signatures are rejected and never crash.",
  ["inputs"], "all byte strings offered as signatures, all digests and keys", "Tests corrupt one byte.",
  ["gost_ec_sign.c", "gost_pmeth.c"], [("range and equation checks", "gost_ec_verify, unpack_signature_cp")], obs=["EVP_PKEY_verify", "EVP_DigestVerify"])
p("S03", "Curve arithmetic is the group law on every supported curve",
  "On every supported parameter set, public key derivation, point multiplication and the two-scalar multiplication used in verification give the group-law result for every scalar (0, 1, order-1, order, order+1, sparse, dense, longer than the order) and every point of the group of prime order (points outside it must not crash), identically in the fast and generic paths.",
  ["inputs", "configurations"], "all scalars and points on all curves", "Generated code with recoding tables: rare digits and carries occur with negligible probability in random tests.",
  ["ecp_id_GostR3410_2001_CryptoPro_A_ParamSet.c", "ecp_id_tc26_gost_3410_2012_512_paramSetA.c", "gost_ec_sign.c"], [("per-curve fast path", "gost_ec_point_mul and point_mul/point_mul_g/point_mul_two in ecp_id_*.c")], obs=["gost_ec_point_mul", "gost_ec_compute_public", "EVP_PKEY_keygen"])
p("E01", "Keys survive every encoding unchanged",
  "Writing a public or private key (SubjectPublicKeyInfo, PKCS#8 in each supported inner format, masked or not, key parameters) and reading it back gives an equal key on the same parameter set, for every curve and key value including ones with leading zero bytes; malformed, truncated or out-of-range encodings are rejected without crashing.",
  ["inputs", "configurations"], "all keys, curves, formats and malformed encodings", "Tests encode random keys in a few formats.",
  ["gost_ameth.c", "gost_asn1.c", "gost_params.c"], [("encode/decode pairs", "pub_encode/pub_decode, priv_encode/priv_decode, decode_gost_algor_params, unmask_priv_key")], obs=["i2d_PUBKEY", "d2i_PUBKEY", "EVP_PKEY2PKCS8", "EVP_PKCS82PKEY"])
p("E02", "Cipher parameters survive their ASN.1 form",
  "Parameters taken from an encrypting context and given to another context make it continue with the same IV, S-box, seed and section size, so that it decrypts the data; malformed or wrong-length parameters are refused with an error and no crash.",
  ["inputs", "configurations"], "all IVs, S-boxes, ciphers and malformed encodings", "Covered only by CMS round trips.",
  [GC, GH, G15], [("set/get_asn1_parameters", "gost89_set/get_asn1_parameters, magma_set/get_asn1_parameters, gost2015_set/get_asn1_params")], obs=["EVP_CIPHER_param_to_asn1", "EVP_CIPHER_asn1_to_param"])
p("E03", "Parameter-set names and controls select exactly the named parameters",
  "Every documented way of naming a key's parameter set (short letters, names, OIDs, numeric ids, control strings) selects the curve with the standard's constants and nothing else; unknown or wrong-size names are refused and leave the context usable; keys of different parameter sets never compare equal.",
  ["inputs", "configurations"], "all names, algorithms and parameter sets", "Tests use a subset of names per algorithm.",
  ["gost_pmeth.c", "gost_params.c", "gost_ameth.c", "gost_ec_sign.c"], [("paramset tables and ctrl parsing", "pkey_gost_ec_ctrl_str_256/512, fill_GOST_EC_params, R3410_2001_paramset, R3410_2012_512_paramset")], obs=["EVP_PKEY_CTX_ctrl_str", "EVP_PKEY_paramgen"])
p("L01", "Engine settings: environment, then control command, then default",
  "Each engine setting (cipher parameter set, PBE digest, private key format) is fixed by a control command or by its first use: to the environment variable's value if that is set, else to the command's; it stays until the next command or unloading, and without any value the documented default (set TC26 Z, 512-bit HMAC, raw key) holds. Operations started then use it, contexts opened earlier keep theirs, ciphers and key transports with a fixed set are unaffected, and an invalid cipher parameter set makes the dependent operation fail instead of using another set.",
  ["configurations", "histories"], "all sequences of control commands, environment values and operations", "Tests set at most one value per process.",
  ["gost_ctl.c", "gost_crypt.c", "gost_eng.c"], [("cached parameter table", "get_gost_engine_param, gost_set_default_param, gost_control_func")],
  [("gost_params[]", "cached values", "gost_ctl.c")], ["ENGINE_ctrl_cmd_string", "getenv"])
p("L02", "Loading, using, unloading and reloading the engine is repeatable",
  "After any sequence of engine load, init, use, finish and removal, each load offers the full documented set of algorithms with correct sizes and working operations, asking for an unknown algorithm fails cleanly, and nothing registered by an earlier cycle is used after release.",
  ["histories"], "all sequences of load/unload cycles interleaved with use", "Tests load the engine once per process.",
  ["gost_eng.c", "gost_md.c", "gost_crypt.c", "gost_omac.c", "gost_gost2015.c"], [("create/destroy of method tables", "populate_gost_engine, gost_engine_destroy, GOST_init_cipher/GOST_deinit_cipher, GOST_init_digest/GOST_deinit_digest")], obs=["ENGINE_by_id", "ENGINE_free", "ENGINE_get_ciphers"])
p("L03", "Threads do not disturb one another",
  "Whatever the interleaving of threads that create or decode keys, on the same or on alias parameter sets, each resulting key has the parameter set it was asked for and its operations are correct; settings first looked up by several threads at once come to the environment's value, and calls on contexts of a thread's own, or sharing a finished key, give the results they give alone.",
  ["schedules"], "all interleavings of calls of several threads", "Tests are single-threaded.",
  ["gost_ec_sign.c", "gost_params.c", "gost_ctl.c"], [("cached EC_GROUP per parameter set", "fill_GOST_EC_params"), ("cached setting", "get_gost_engine_param")], [("params->group", "shared cached group", "R3410_ec_params")], ["EVP_PKEY_keygen", "d2i_PUBKEY"])
p("T01", "gostsum and gost12sum report what they checked",
  "The sum tools print, in order, for every readable file the digest of its content by the chosen algorithm, and end without success if one could not be read or the digests could not be written. In check mode every line with a digest and a name is checked, whatever lines come before it; success means that every file so listed was read and matches its digest, and a list that cannot be read or has no usable line is no success. All this is independent of the order of entries, the size of contents, how input arrives and whether messages are verbose.",
  ["inputs", "fault_sequences"], "all lists of files, contents, missing or altered files, and malformed lines", "No test runs check mode with mixed lists.",
  ["gostsum.c", "gost12sum.c", "gosthash.c", "gosthash2012.c"], [("main loop and exit code", "main, check_file, start_hash_file/hash_file")], obs=["exit status", "stdout"])
p("P01", "The provider computes what the engine computes",
"Every cipher, digest and MAC offered by the provider, under any of its names, gives through the provider interface the same results, updated IVs, AlgorithmIdentifier parameters and refusals as the engine for the same key, IV, data and parameters, for every cutting, re-initialisation (with a new key or the last one), duplication and MAC size, in every library context the provider is loaded in, while other contexts load and unload it.",
  ["inputs", "histories"], "all operations the provider offers and all call histories on them", "The provider cannot be built by the test setup here; its tests need another module.",
  ["gost_prov.c", "gost_prov_cipher.c", "gost_prov_digest.c", "gost_prov_mac.c"], [("adapters over the engine's methods", "cipher_*, digest_*, mac_* functions")], obs=["EVP_CIPHER_fetch", "EVP_MD_fetch", "EVP_MAC_fetch"])
p("X01", "Encrypted messages open for their recipients, and for nobody else, unaltered",
  "A CMS or PKCS#7 message encrypted to GOST keys (key transport in each format, key agreement, any content cipher with an identifier) has the structure and content the standards define, opens for every recipient with the plaintext that was sealed, from this or another implementation, and for nobody else; altered recipient entries, parameters or structures are refused or yield nothing, without a crash, and with an authenticated content cipher every alteration of the content is refused.",
  ["inputs", "configurations", "histories"], "all contents, recipient lists, formats, alterations and exchanges of parts between messages", "Tests make one message per cipher with openssl cms and open it again.",
  ["gost_ameth.c", "gost_pmeth.c", "gost_ec_keyx.c", G15, GC, GH, "gost_keyexpimp.c"], [("CMS and PKCS#7 hooks", "pkey_ctrl_gost (ASN1_PKEY_CTRL_CMS_ENVELOPE, PKCS7_ENCRYPT), gost_cms_set_kari_shared_info, gost_cms_set_ktri_shared_info, gost2015_process_unprotected_attributes")], obs=["CMS_encrypt", "CMS_decrypt", "PKCS7_encrypt", "PKCS7_decrypt", "CMS_EncryptedData_encrypt", "CMS_EncryptedData_decrypt"])
p("X02", "Signed certificates, lists and messages verify exactly if unaltered",
  "A certificate, request, revocation list or message (CMS, PKCS#7, S/MIME) signed with a GOST key names the algorithms of that key, is encoded as the standards define, and verifies with the signer's key in this and other implementations, for every content, set of signers, with or without signed attributes, attached or detached; nothing altered, recombined, renamed or signed by another key verifies, and a chain of certificates is trusted exactly if each link is.",
  ["inputs", "configurations", "histories"], "all contents, signer lists, chains, alterations and exchanges of parts", "Tests sign and verify one certificate and one message per algorithm.",
  ["gost_ameth.c", "gost_pmeth.c", "gost_ec_sign.c", "gost_md.c", "gost_md2012.c"], [("algorithm identifiers and digest choice", "pkey_ctrl_gost (ASN1_PKEY_CTRL_PKCS7_SIGN, CMS_SIGN, DEFAULT_MD_NID), pkey_gost_ctrl (EVP_PKEY_CTRL_MD), register_ameth_gost, micalg controls")], obs=["X509_sign", "X509_verify", "X509_verify_cert", "CMS_sign", "CMS_verify", "PKCS7_sign", "PKCS7_verify", "SMIME_write_CMS"])
p("X03", "TLS sessions of the GOST suites carry what was sent, and only that",
  "Two ends of a TLS 1.0-1.2 connection with a GOST cipher suite agree exactly when their suites, protocol, keys and certificates allow it; what goes over the wire (key transport, master secret, Finished and CertificateVerify, record keys, IVs, encryption and MAC of every record, exported keying material) is as RFC 9189 and the older CryptoPro suites define it, through renegotiation, resumption and any number of records; each end reads exactly the bytes the other wrote, in order, and a handshake or record that was altered, dropped, repeated, reordered, reflected or taken from another session or epoch is never accepted.",
  ["inputs", "schedules", "histories", "configurations"], "all configurations of two ends, sequences of writes and deliveries, attacks on the wire", "Tests make one connection per suite and send one request (and need perl modules to do so).",
  ["gost_pmeth.c", "gost_ec_keyx.c", "gost_keyexpimp.c", "gost_crypt.c", "gost_grasshopper_cipher.c", "gost_omac.c", "gost_md2012.c", "gost_ameth.c"], [("TLS key transport", "pkey_gost_encrypt, pkey_gost_decrypt, gost_ec_keyx"), ("record keys", "EVP_CTRL_TLSTREE in magma/grasshopper CTR and OMAC, gost_tlstree"), ("legacy record MAC and cipher", "gost_imit, gost_cipher_do_cnt")], obs=["SSL_do_handshake", "SSL_write", "SSL_read", "SSL_renegotiate", "SSL_set_session", "SSL_export_keying_material"])
p("F02", "Everything taken from the allocator is given back",
  "Whatever a program does with the engine's or the provider's contexts, keys, messages and libraries - starting, starting again, copying, finishing early, being refused, releasing in any order - once it has released what it opened, as much memory is outstanding as before: repeating any history does not make the process grow, and nothing is released twice.",
  ["histories", "inputs"], "all histories of operations, refused ones included", "Tests run each operation once per process, where a leak is invisible.",
  ["gost_omac.c", "gost_omac_acpkm.c", "gost_crypt.c", "gost_grasshopper_cipher.c", "gost_gost2015.c", "gost_ameth.c", "gost_pmeth.c", "gost_ec_sign.c", "gost_ec_keyx.c", "gost_ctl.c", "gost_eng.c", "gost_prov.c", "gost_prov_mac.c", "gost_prov_cipher.c", "gost_prov_digest.c"],
  [("contexts started again", "omac_init, omac_acpkm_init, gost2015_acpkm_omac_init, EVP_CTRL_COPY handlers"), ("cleanup hooks", "omac_imit_cleanup, pkey_gost_cleanup, mackey_free_gost, mac_freectx, cipher_freectx"), ("error paths", "gost_ameth.c, gost_ec_keyx.c, gost_ec_sign.c")], obs=["EVP_CIPHER_CTX_free", "EVP_MD_CTX_free", "EVP_PKEY_free", "EVP_MAC_CTX_free", "ENGINE_free"])

p("F01", "Running out of memory or random numbers is an error, never a wrong result",
  "Whenever an allocation inside the engine or the provider fails, or the random source does, at whatever point of whatever operation on keys, signatures, key transport, ciphers, MACs, digests or loading: the operation is refused or its result is the one it would have had (with the same random numbers); the process does not crash, other objects - the original of a copy above all - are as before, and the operation succeeds when repeated with nothing failing.",
  ["inputs", "fault_sequences", "histories"], "all operations, and every point at which an allocation or a request for random numbers can fail", "Tests run with enough memory; each failure point is one of hundreds per operation.",
  ["gost_ameth.c", "gost_pmeth.c", "gost_ec_sign.c", "gost_ec_keyx.c", "gost_crypt.c", "gost_grasshopper_cipher.c", "gost_gost2015.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_keyexpimp.c", "gost_eng.c", "gost_prov_cipher.c", "gost_prov_digest.c", "gost_prov_mac.c"],
  [("allocations and their checks", "gost_ameth.c, gost_pmeth.c, gost_ec_sign.c, gost_ec_keyx.c, ecp_*.c"), ("contexts", "EVP_CTRL_COPY handlers, omac_imit_copy, mac_newctx, cipher_dupctx, gost2015_final_call"), ("random numbers", "init_zero_kdf_seed, gost_ec_keygen, gost_ec_sign, RAND_bytes in gost_ec_keyx.c")], obs=["EVP_PKEY_keygen", "EVP_DigestSignFinal", "EVP_CipherInit_ex", "EVP_CIPHER_CTX_copy", "EVP_MAC_CTX_dup"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
