BASE = " The exhaustive part covers the design within its small constants; the code is bound by replaying TLC-generated behaviours at real sizes, so code paths no behaviour reaches stay unobserved. Trusted: libcrypto 3.0.13, TLC, the reference primitives in ref/ (checked against the published vectors)."
NOTES = {
 "C01": ("TLA+ (TLC): code-shaped stream machines model-checked against the mode's meaning; TLC-simulated API behaviours replayed into the engine", "Every cutting within the small model; sampled cuttings, lengths, alignments, in-place use at real sizes, with outputs compared byte for byte to the specification's terms." + BASE),
 "C02": ("TLA+ (TLC): sender/receiver specification simulated, behaviours replayed into the engine on both sides", "No cipher oracle: the receiver must get the sender's bytes, and the specification predicts the verdict at the end for every padding/length fault." + BASE),
 "C03": ("TLA+ (TLC): section/key-epoch machines model-checked for several section sizes; section-boundary behaviours replayed", "All cuttings around section ends in the model; sampled at real section sizes." + BASE),
 "C04": ("TLA+ (TLC): re-initialisation modelled with removable safeguards; re-initialisation histories replayed", "All histories of up to two keys/IVs in the model; sampled at real sizes. Two genuine defects were found and repaired." + BASE),
 "C05": ("TLA+ (TLC): copies in the state machines; copy/continue histories replayed", "Interleavings of copies within the model; sampled at real sizes." + BASE),
 "A01": ("TLA+ (TLC): MGM accumulator machine model-checked against the definition's block set; seal/open histories replayed", "Every cutting within the model; sampled at real sizes against an independent MGM, including counters at wrap-around. Two genuine defects were found and repaired." + BASE),
 "A02": ("TLA+ (TLC): alterations of a sealed message enumerated by TLC with the verdict; each carried out on real messages", "Exhaustive over single-bit, truncation, extension, boundary-shift and block-swap alterations for the listed sizes; random in histories." + BASE),
 "A03": ("TLA+ (TLC): MGM call-order machine model-checked with removable safeguards; call sequences in any order replayed", "All call orders in the model; sampled sequences on the engine. Genuine defects were found and repaired." + BASE),
 "A04": ("TLA+ (TLC): sender/receiver specification of CTR-ACPKM-OMAC as CMS drives it; histories with alterations, re-initialisation and copies replayed on both sides", "Ciphertext, encrypted MAC, parameters and every verdict are compared with the specification's prediction (independent KDF_TREE, CTR-ACPKM and CMAC); messages shorter and longer than the section sizes. Alterations are sampled single-bit/truncation/extension. Genuine defects were found and repaired." + BASE),
 "D01": ("TLA+ (TLC): block-buffer machines of both digests model-checked; cuttings, lengths and 2^29-byte counters replayed", "Every cutting in the model; sampled cuttings at real sizes; messages past 2^16, 2^24 and 2^32 bits against an independent implementation. GOST R 34.11-94 of the empty message is taken as the literal reading (one zero block)." + BASE),
 "D02": ("TLA+ (TLC): digest contexts as state machines with removable safeguards; reuse/copy/reset histories replayed", "All histories of two messages in two contexts in the model; sampled on the engine." + BASE),
 "M01": ("TLA+ (TLC): last-block and section machines of the MACs model-checked; cuttings replayed by both routes (digest control, EVP_PKEY)", "Every cutting in the model; sampled on the engine against independent MACs. Genuine defects were found and repaired. The T section size of the OMAC-ACPKM master key is exercised for T >= 48 bytes only." + BASE),
 "M02": ("TLA+ (TLC): call orders, keys and sizes of the MACs as a state machine predicting every result; histories replayed", "Sampled call orders on the engine, every call's result predicted. Genuine defects were found and repaired." + BASE),
 "K01": ("TLA+ (TLC): every alteration of an export enumerated by TLC with its verdict and carried out; wrap-cipher histories simulated and replayed", "All single-bit changes of blob, IV and both keys, all truncations, and listed extensions, swaps, rotations for several keys; definition compared for several lengths. Genuine defects were found and repaired." + BASE),
 "K02": ("TLA+ (TLC): every alteration of a wrapped key enumerated by TLC with its verdict and carried out", "All single-bit changes of UKM, wrapped key, check value and key-encryption key for several keys and five S-box sets; the definition (RFC 4357 diversification, ECB, imitovstavka) compared for random values. The check value has 32 bits: an alteration passes by chance with probability 2^-32." + BASE),
 "K03": ("TLA+ (TLC): KDF_TREE inputs, TLSTREE masks, carries and record IVs computed in the specification; enumerated parameters and simulated record histories replayed", "Every bit position of the sequence number is enumerated; record histories in any order on CTR, CTR-ACPKM and OMAC contexts are sampled." + BASE),
 "K04": ("TLA+ (TLC): agreement with a cofactor model-checked in abstract groups (Z_q x Z_h); derivation-context histories replayed, secrets from an independent curve implementation", "All scalars/points of the small groups with removable safeguards (cofactor, its place, refusal of infinity); sampled histories over all parameter sets, key types, small-order and mixed-order peers. Genuine defects were found and repaired." + BASE),
 "K05": ("TLA+ (TLC): sender/receiver specification of the transport messages with alterations and the verdict; histories replayed against an independent implementation on either side", "Sampled histories over all parameter sets, formats, ephemeral/static keys and field alterations; messages made by the oracle are opened by the engine and the reverse. The 2001/2012 format authenticates with 32 bits. Genuine defects were found and repaired." + BASE),
 "S01": ("TLA+ (TLC): sign/verify on every tiny curve model-checked; signing/verification histories replayed against an independent implementation", "Exhaustive over nonces, keys and digests of tiny prime-order curves; sampled histories over every curve, digest value classes, buffer sizes, routes and copies. Genuine defects were found and repaired." + BASE),
 "S02": ("TLA+ (TLC): alterations of signature, digest and key with the verdict predicted by the verification equation; each carried out", "Exhaustive on the tiny curves; sampled single-bit, range, swap, truncation, encoding and forged-equation alterations on every real curve. Genuine defects were found and repaired." + BASE),
 "S03": ("TLA+ (TLC): recoding, comb and interleaving machines model-checked; structured scalars and points enumerated by TLC and replayed against a generic implementation", "Exhaustive over scalars of the small recoding model; on the real curves structured scalars (window patterns, carries, near 0 and q) and points, three call forms." + BASE),
 "E01": ("TLA+ (TLC): the encodings' wire forms with every alteration and its verdict; key histories (generate, derive, copy, encode, alter, decode, compare) replayed", "The specification decides which bytes each form has and which alterations are refused; written keys are compared with it byte for byte and read back by an independent reader. Sampled key values over classes (leading zeros, extremes), all parameter sets and inner private formats. Forms whose DER length equals the key length are ambiguous in the format and not specified. Genuine defects were found and repaired." + BASE),
 "E02": ("TLA+ (TLC): parameter transfer machine model-checked with removable safeguards; histories of taking, altering and giving parameters replayed", "The parameter values' bytes, every verdict on an altered value and all data processed afterwards are predicted. Sampled histories over all ciphers; parameters are taken before data only (what parameters taken in mid-message mean is not specified). CTR-ACPKM-OMAC data is A04's. Genuine defects were found and repaired." + BASE),
 "E03": ("TLA+ (TLC): every name on every kind of context enumerated; histories of naming, generating, comparing and using keys replayed", "Exhaustive over types x name forms x spellings (including a table of non-names) and pairs good-then-bad; sampled histories with several contexts and keys. Each generated key's curve is compared with the standard's constants. TC26 sets for gost2001 and what a numeric id of no set does at once are not specified. Genuine defects were found and repaired." + BASE),
 "L02": ("TLA+ (TLC): life-cycle specification of references, tables, contexts and keys; histories replayed, each in a process of its own; allocation/registration model with removable safeguards", "Sampled histories of loading, referencing, using, dropping and reloading with freed memory overwritten; names, sizes and results are predicted at every point. One known finding (tables) is recorded. Genuine defects were found and repaired." + BASE),
 "L01": ("TLA+ (TLC): settings machine (environment, commands, cached values, contexts); histories replayed, each in a process of its own", "Sampled histories over all values and spellings, both orders of environment and commands, reloading, long-lived contexts; every parameter set in use, the PBE digest and the written key format are predicted." + BASE),
 "L03": ("TLA+ (TLC): step model of the shared caches with removable safeguards; program-and-schedule specification whose schedules (all pairs of calls with two switches, sampled longer ones) are driven through the real code by a scheduler", "Every access to written static data and every relevant library call of the engine is a scheduling point; locks are known to the scheduler. Schedules have up to two switches exhaustively (sampled positions for long calls), more at random. Races inside libcrypto are out of scope, changing settings while threads run is not promised. Genuine defects were found and repaired." + BASE),
 "T01": ("TLC: SumTool.tla (a directory and a list that change; Sound, Orderless invariants); every list of up to 2 (3) lines over 11 kinds enumerated, simulated histories; replay with the built programs gostsum and gost12sum in a scratch directory", "Predicted: what is printed for which file, the verdict per line, the exit status. Left open: the exit status if unusable lines stand beside matching ones; md5sum's two-space and asterisk formats." + BASE),
 "P01": ("TLA+ specifications (CipherApi, HashApi, MgmApi, CipherParams of the engine; ProvMac and ProvLife for EVP_MAC and for library contexts), histories generated with TLC and replayed through the provider", "The provider is built in its module form from gost_prov*.c with a stand-in for libprov's error functions (its submodule is not in the sandbox). The specifications that decide the engine's ciphers, digests, MGM and ASN.1 parameters are replayed through EVP_*_fetch; ProvMac describes EVP_MAC contexts (key as argument or parameter, restart with the last key, size, section sizes, copies, refusals), ProvLife loading and unloading in several library contexts with objects at work, names, aliases and OIDs with their lengths, and errors. " + BASE),
 "X01": ("TLA+ (TLC): messages as symbolic terms (who learns which content key, what a part was sealed under) with invariants Confined and Authentic; histories of sealing, altering, exchanging parts and opening simulated and replayed through libcrypto's CMS and PKCS#7", "Messages of the code are taken apart and rebuilt byte for byte by the oracle (structure, algorithm identifiers, key wrapping, content cipher, MAC attribute); messages of the oracle are opened by the code; every verdict on altered or mixed messages is predicted. Sampled histories; five content ciphers have object identifiers in OpenSSL 3.0. Genuine defects were found and repaired." + BASE),
 "X02": ("TLA+ (TLC): signatures as symbolic terms (whose key, over which bytes with which alterations) with invariant Unforged; histories of issuing, signing, countersigning, altering, recombining and checking simulated and replayed through libcrypto", "What the code signs is rebuilt byte for byte by the oracle and its signature checked with the independent implementation; what the oracle signs is checked by the code; every verdict on altered, recombined or renamed things and on chains is predicted. Absent and NULL algorithm parameters are both accepted. Messages of signers with different digests are made by PKCS#7 and the oracle only (libcrypto 3.0 cannot tell engine digests apart there)." + BASE),
 "X03": ("TLA+ (TLC): two ends, servers, saved sessions and the records in flight with an adversary on the wire, invariants Faithful and Genuine; histories simulated and replayed through libssl over memory BIOs, with an independent observer of the wire", "The observer knows only the server's private key: from the wire it recomputes premaster and master secret, Finished, CertificateVerify, the key block, each record's key, plaintext and MAC, and exported keying material, so that both ends being wrong alike is seen. One key per server (libssl with several GOST keys is inconsistent with itself); TLS 1.0-1.2, no DTLS; libssl 3.0." + BASE),
 "F02": ("TLA+ (TLC): ownership of inner blocks through start, restart, refusal, final, copy and close, invariants Owned, OneOwner, NeverTwice, Balanced; the behaviours generated from the other specifications replayed again over an allocator that counts", "Each behaviour is replayed until its caches are warm; it is a violation if four more replays in a row each leave allocations behind (the report names where they were made). Only libcrypto's allocator is weighed. A share of each specification's behaviours in the quick run." + BASE),
 "F01": ("TLA+ (TLC): an operation that makes its parts one by one with any of them failing to come, four removable safeguards, invariants NoCrash, NeverWrong, FailedIsRefused, NothingLeft, Untorn; operations enumerated and histories simulated from FaultsApi.tla and replayed with an allocation or random request failing at each position", "Exhaustive over the positions of every enumerated operation (allocations made with an engine function on the stack, each in a process of its own); sampled positions inside histories. Allocations of libcrypto on its own behalf are not struck, and failures libcrypto 3.0 itself ignores (inside OBJ_add_object) are set aside. Genuine defects were found and repaired." + BASE),
}
NA = {}
