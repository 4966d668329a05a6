import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=hook)))
SCH="src/core/gpsw/scheme.rs"; MSP="src/core/msp.rs"; ENG="src/core/engine.rs"; BIL="src/core/bilinear_map/bls12_381.rs"; MOD="src/core/gpsw/mod.rs"
HYB="src/interfaces/hybrid_crypto/statics.rs"; FH="src/interfaces/ffi/hybrid_gpsw_aes.rs"; FK="src/interfaces/ffi/generate_gpsw_keys.rs"; FE="src/interfaces/ffi/error.rs"
PY=["src/interfaces/pyo3/generate_gpsw_keys.rs","src/interfaces/pyo3/hybrid_gpsw_aes.rs"]; WA=["src/interfaces/wasm_bindgen/generate_gpsw_keys.rs","src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs","src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs"]
p("C01","Authorized keys always recover the exact message",
 "Whenever the attributes a message was encrypted with satisfy the access policy of a user key of the same authority, decrypting with that key returns exactly the encrypted message. This holds for every boolean combination of attributes (and for the all-access policy), whatever the number, order or repetition of the ciphertext's attributes and whatever unrelated attributes it also carries.",
 ["inputs","histories"],"all access policies (read-once And/Or formulas, All), all non-empty attribute lists, all points of a policy/key/ciphertext history",
 "The tests decrypt a dozen fixed policy/attribute pairs; the guarantee quantifies over all formulas x attribute subsets x orders, where a wrong span solution or a mis-paired share only shows for particular shapes.",
 [SCH,MSP,ENG,BIL],[("LSSS share generation","scheme.rs key_generation"),("span coefficients + pairing product","scheme.rs decrypt/span_coefs"),("formula to span program","msp.rs to_msp/policy_to_msp")],
 [dict(name="user key",meaning="access policy + per-attribute shares of the authority secret",where=SCH),dict(name="ciphertext",meaning="attribute values + blinded message",where=SCH)],["Engine::decrypt"])
p("C02","Unauthorized keys are refused, never given a message",
 "Whenever the attributes of a ciphertext do not satisfy a user key's access policy, decryption with that key ends in an explicit refusal: no message is returned, neither the encrypted one nor any other value. This holds for every policy and attribute set, however close to satisfying the policy they are.",
 ["inputs","histories"],"all access policies x all attribute sets that do not satisfy them, all histories",
 "Tests try a few refusals with None; a span solver that accepts a non-solution, or a policy translation that grants too much, only shows on particular formula/attribute subsets.",
 [SCH,MSP,ENG],[("no-solution detection","scheme.rs span_coefs"),("row selection by attribute","scheme.rs decrypt"),("formula to span program","msp.rs")],None,["Engine::decrypt"])
p("C03","Hierarchical axes grant exactly the attribute and all lower ones",
 "A right to an attribute of a hierarchical axis lets a key read data of that attribute and of every attribute declared before it on that axis, and never of one declared after it; on a non-hierarchical axis it grants that attribute only. This holds whatever the number and order of attributes and axes, wherever the right appears in the access policy, and whatever rotations happened before the key was made.",
 ["inputs","configurations","histories"],"all policies (axes, attribute orders, hierarchical flags, rotations), all positions in the formula",
 "Tests use one three/four-level axis with a handful of keys; boundary errors (first/last attribute, rotated lower levels, several hierarchical axes) need other configurations.",
 [MSP,ENG],[("expansion of a hierarchical attribute","msp.rs policy_to_node")],None,["Engine::generate_user_key","Engine::decrypt"])
p("C04","Rotation revokes old keys for new data and keeps old data readable",
 "After an attribute is rotated, keys issued before the rotation cannot read data newly encrypted with that attribute, but can still read everything they could read before. A key issued (refreshed) after the rotation reads both the old and the new data its access policy covers, after any number of rotations of any attributes.",
 ["histories"],"all interleavings of rotations, key issues, encryptions and decryptions within the creation budget",
 "Tests perform one or two rotations of one attribute; the guarantee is about every interleaving of rotations, key issues and encryptions, several generations deep.",
 [MSP,ENG,FK],[("keys hold every value of an attribute","msp.rs policy_to_node / policy_to_msp"),("encryption uses the newest value","engine.rs encrypt")],[dict(name="attribute values",meaning="all values ever given to an attribute, newest used to encrypt",where="abe_policy::Policy, used by msp.rs and engine.rs")],["Engine::decrypt"])
p("C05","Delegated keys have exactly the delegated rights, never more",
 "A key delegated for an access policy obtained from the parent's by dropping alternatives, turning an Or into an And, or rearranging operands reads exactly what that access policy allows; delegating with the all-access policy re-randomizes the key and keeps its rights exactly. A delegated key (to any depth) never reads a ciphertext its parent or its own policy does not allow, and asking for an attribute the parent does not hold is refused.",
 ["inputs","histories"],"all parent/child policy pairs, all chains of delegations and randomizations, all ciphertexts",
 "Tests delegate two fixed policies one level deep and never try an amplifying delegation or a delegation chain.",
 [SCH,ENG]+PY[:1],[("share re-randomization with the public delegation key","scheme.rs key_delegation/key_randomization"),("All means randomize","engine.rs delegate_user_key")],None,["Engine::delegate_user_key","Engine::decrypt"])
p("C06","Pooled keys and foreign authorities give no extra rights",
 "Users pooling their keys cannot read a ciphertext that none of their keys can read alone, even by recombining the shares of several keys into one key. Keys of one authority recover nothing from ciphertexts of another one, and shares or delegation material of different authorities do not combine into a working key.",
 ["inputs","histories"],"all sets of keys (issued, delegated, randomized) and authorities, all recombinations of their shares, all ciphertexts",
 "No test recombines shares or mixes authorities; loss of per-key randomness leaves every existing test passing.",
 [SCH,MOD],[("fresh random share vector per key","scheme.rs key_generation"),("fresh master secrets","scheme.rs generate_master_key")],None,["Engine::decrypt with spliced keys"])
p("C07","Every operation draws fresh, complete randomness",
 "Two master key generations, key issues, delegations, encryptions, random messages or header/block encryptions never reuse secret randomness, even with identical inputs, on several threads, or after serialization: outputs that must be randomized all differ. Within one key or ciphertext every random component is drawn independently (no two secret components coincide, none is zero or trivial).",
 ["histories","schedules"],"all sequences of operations with equal or different inputs, also concurrent",
 "Tests never compare the randomness of two runs; a constant seed, a reused nonce or a copied share passes them all.",
 ["src/core/bilinear_map/mod.rs",BIL,SCH,HYB,ENG],[("entropy-seeded generator per draw","bilinear_map/mod.rs gen_random_*"),("nonce per header/block","statics.rs")],None,["serialized outputs","exponents in the toy group"])
p("C08","Serialization round-trips every key and ciphertext at any time",
 "Serializing and reloading any master key, public key, delegation key, user key (issued, delegated or randomized) or ciphertext at any point of a history yields an object that equals the original, re-serializes to the same bytes, announces the exact byte length, and behaves identically in every later operation. This holds for every key size, policy shape and attribute list.",
 ["inputs","histories"],"all objects of all sizes, reloads at any point of any history",
 "Tests round-trip one object of each kind and seldom use the reloaded object.",
 [MOD,SCH,MSP,BIL],[("byte encodings","AsBytes implementations")],None,["AsBytes::try_into_bytes/try_from_bytes/len_bytes"])
p("C09","Malformed or truncated input is refused, never a crash",
 "Deserializing a truncated serialized key, ciphertext or header, or one whose counts claim more elements than are there or disagree with each other, or whose elements are not valid encodings, is refused with an error. No byte string given to a deserialization, header or block function, and no use of whatever deserializes successfully, makes the library panic, abort or allocate unboundedly.",
 ["inputs","fault_sequences"],"all truncations, all corruptions of count/size fields and elements, arbitrary bytes, through core and hybrid APIs",
 "Tests feed two or three malformed inputs; the quantifier is every cut and every corrupted field of every format.",
 [MOD,SCH,MSP,BIL,HYB,FH]+PY[1:]+WA[1:2],[("length checks before slicing","AsBytes implementations"),("bounds checks in header parsing","statics.rs")],None,["try_from_bytes","decrypt_hybrid_header","decrypt_hybrid_block","FFI decrypt functions"])
p("C10","Every attribute within the creation budget is fully usable",
 "With a creation budget of N, all N attribute creations (declared or rotated, up to and including the last one) can be encrypted with, put in keys and read back; master keys serve every value the policy can ever assign. A creation beyond the budget, or the use of an attribute a given master key has no material for, is refused with an error and changes nothing.",
 ["configurations","histories"],"all budgets N, all ways of spending them through axes and rotations, policies and master keys of different sizes",
 "Tests use budgets far larger than the number of attributes created, so the last slots are never exercised.",
 [ENG,SCH,FK],[("number of master key components","engine.rs generate_master_key"),("range checks","scheme.rs key_generation/encrypt")],None,["Engine::generate_user_key","Engine::encrypt"])
p("C11","Invalid access policies and attributes are refused up front",
 "Issuing or delegating a key for an access policy that names an unknown axis or attribute, nests the all-access policy inside a formula, or uses an attribute value twice (directly or through hierarchy) is refused with an error and produces no key; every other policy is accepted. Encrypting for an attribute the policy does not define is refused and produces no ciphertext.",
 ["inputs"],"all access policies over known and unknown names, all attribute lists",
 "Tests cover one or two rejected policies; acceptance and refusal must be exact for all formulas.",
 [MSP,ENG,SCH],[("policy translation checks","msp.rs policy_to_formula/policy_to_node"),("single-use check","msp.rs to_msp"),("attribute lookup","engine.rs encrypt")],None,["Engine::generate_user_key","Engine::encrypt"])
p("C12","Hybrid headers carry exactly their key and metadata",
 "An authorized key opens a hybrid header to exactly the symmetric key generated with it and exactly the metadata (uid and additional data) put in, or empty metadata if none was put in. Any other key is refused, and altering, cutting or exchanging with another header's the encapsulation or the encrypted metadata (its nonce, size or bytes) never makes a header open with non-empty metadata other than those put in with that key.",
 ["inputs","fault_sequences"],"all metadata (empty, absent, any size), all policies, all tampering positions, all exchanges between headers",
 "Tests open two or three fixed headers and never tamper with one.",
 [HYB,ENG],[("header layout and metadata encryption","statics.rs encrypt_hybrid_header/decrypt_hybrid_header")],None,["encrypt_hybrid_header","decrypt_hybrid_header"])
p("C13","Blocks open only with their key, uid and block number, unaltered",
 "A block decrypts to exactly its plaintext with the symmetric key, uid and block number it was encrypted with, for every plaintext size from one byte up to the maximum. With another key, uid or block number, or after any alteration, truncation or exchange with another block, decryption fails; empty and over-size inputs are refused, and a block is longer than its plaintext by exactly the announced overhead.",
 ["inputs","fault_sequences"],"all keys, uids, block numbers, sizes, all single alterations and exchanges",
 "Tests encrypt two blocks with fixed uid and number and never alter or exchange them.",
 [HYB,FH]+PY[1:]+WA[1:],[("uid and block number as associated data","statics.rs encrypt_hybrid_block/decrypt_hybrid_block")],None,["encrypt_hybrid_block","decrypt_hybrid_block","h_aes_encrypt_block","h_aes_decrypt_block"])
p("C14","Cache handles are unique, stable and isolated under concurrency",
 "Concurrent and sequential creations of encryption or decryption caches always return distinct handles; from the end of its creation to the start of its destruction a handle uses exactly the policy and key it was created with, whatever other threads do. A handle that was never created or already destroyed is refused with an error, destroying is idempotent and affects no other handle, and no misuse or failure of one call blocks or breaks later calls.",
 ["schedules","histories"],"all interleavings of create/use/destroy on both cache kinds by several threads, with valid, unknown and destroyed handles, with failing calls in between",
 "Tests use one handle on one thread.",
 [FH]+WA[1:],[("handle counter and lock-protected maps","ENCRYPTION_CACHE_MAP/DECRYPTION_CACHE_MAP")],[dict(name="cache maps",meaning="handle to policy+public key / user key",where=FH)],["h_aes_create_*_cache","h_aes_*_header_using_cache","h_aes_destroy_*_cache"])
p("C15","Each thread reads exactly its own last error, once",
 "After a failing call, the next read of the last error on the same thread returns that call's message (the latest one if several failed), and a second read returns an empty message; errors never travel between threads, and successful calls neither set nor clear the error. The message is cut to the caller's buffer with a terminating zero and the reported length is the number of message bytes written.",
 ["schedules","histories","inputs"],"all interleavings of failing/succeeding calls, explicit error settings and reads on several threads, all buffer sizes",
 "No test reads errors from two threads, reads twice, or uses a short buffer.",
 [FE],[("thread-local slot taken on read","error.rs LAST_ERROR, set_last_error, get_last_error")],None,["get_last_error","set_error"])
p("C16","Output buffers: exact fill, required size reported, never overrun",
 "Every C-interface function that fills a caller buffer writes exactly the result and reports its exact length when the buffer is large enough, and when it is too small fails, reports the length required, and writes nothing beyond the given size; a retry with the reported length succeeds. Null pointers and empty inputs where data is required are refused with an error and leave the outputs untouched.",
 ["inputs","configurations"],"all exported functions x all buffer sizes around the required one x all null/empty argument combinations",
 "Tests always pass large buffers and valid pointers.",
 [FH,FK,FE],[("allocated-versus-needed protocol","every extern C function")],None,["exported C functions"])
p("C17","All language interfaces interoperate and agree",
 "Keys, headers, blocks and complete messages produced through any interface (Rust, C, Python, WebAssembly, cached or not) are accepted by every other one with the same outcome: the same key, metadata and plaintext for authorized users and a refusal for others. The combined Python encrypt/decrypt pair restores exactly the plaintext, and the reported header size splits a combined message exactly.",
 ["configurations","inputs","histories"],"all producer/consumer interface pairs x policies x attributes x metadata x plaintexts",
 "Each interface is tested alone against itself on a fixed policy.",
 [FH,FK]+PY+WA,[("shared hybrid functions and wire formats","interfaces/*")],None,["all interface entry points"])
p("C18","Span programs and the span solver are exact",
 "For every And/Or formula that uses each attribute once, the rows of its span program selected by a set of attributes combine to the target exactly when the set satisfies the formula; a formula using an attribute twice is refused. The span solver returns coefficients that really combine the given rows to the target whenever some exist, and reports that there are none otherwise, for every matrix.",
 ["inputs"],"all read-once formulas x all attribute subsets; all matrices over a prime field",
 "Tests check a handful of formulas and matrices out of an unbounded family.",
 [MSP,SCH],[("formula to matrix","msp.rs Node::to_msp"),("Gauss-Jordan elimination","scheme.rs span_coefs")],None,["Node::to_msp","Gpsw::span_coefs"])
p("C19","Formula text is parsed faithfully or refused",
 "A formula text made of numbers, parentheses, & and | parses to exactly the formula it denotes (operators group to the right unless parenthesized, blanks are ignored), and printing a formula shows exactly its structure. Any other text is refused with an error; no text makes the parser panic or loop.",
 ["inputs"],"all texts over the formula alphabet (and others)",
 "Tests parse about ten texts.",
 [MSP],[("recursive parser","msp.rs Node::parse")],None,["Node::parse","MonotoneSpanProgram::parse","Display"])
p("C20","Encapsulated symmetric keys are recovered exactly, only when allowed",
 "For every requested length, generating a symmetric key returns a key of exactly that length together with an encapsulation from which an authorized user key recovers exactly the same key bytes at that length; an unauthorized user key gets an error and no key bytes. A shorter length asked at opening gives the matching prefix, and different encapsulations give unrelated keys.",
 ["inputs","histories"],"all lengths, attribute sets, access policies and histories",
 "One test opens one 32-byte key with one user key.",
 [ENG],[("hash of a random group element","engine.rs generate_symmetric_key/decrypt_symmetric_key")],None,["Engine::generate_symmetric_key","Engine::decrypt_symmetric_key"])
p("C21","Policy creation and rotation through interfaces is exact and atomic",
 "Rotating a list of attributes through the C, Python or WebAssembly interface returns the policy in which each listed attribute got the next unused values in list order, keeping its older values, with everything else unchanged. If any rotation of the list is impossible (unknown attribute or exhausted budget) the call fails with an error and yields no policy; Python policy creation assigns values in declaration order and refuses duplicate axes and budgets exceeded.",
 ["inputs","histories"],"all policies, all lists (repeated attributes, unknown ones, budget exhausted midway), all call sequences",
 "Each interface rotates one or two attributes once in its tests.",
 [FK]+PY[:1]+WA[:1],[("rotation loop over a policy copy","h_rotate_attributes, rotate_attributes, webassembly_rotate_attributes")],None,["h_rotate_attributes","rotate_attributes","generate_policy","webassembly_rotate_attributes"])
p("C22","The pairing group backend obeys the algebra the scheme relies on",
 "Every element computed by the BLS12-381 backend depends only on its exponent: generator powers, powers, products, quotients, conversions and pairing products of any combination agree exactly when their exponents agree, including zero, negative and large exponents. Element encodings are canonical (equal elements, equal bytes; decode inverts encode), and byte messages of up to 32 bytes are encoded as the number whose low-order digits they are, injectively up to zero bytes at their end, or refused.",
 ["inputs"],"all terms over the backend's operations, all exponents",
 "Tests exercise one encryption path; identities at zero, one, negatives and repeated factors are not touched.",
 [BIL,"src/core/bilinear_map/mod.rs"],[("group operation wrappers","bls12_381.rs impl BilinearMap")],None,["BilinearMap operations on Bls12_381","AsBytes on elements"])
p("C23","Operations depend on what they are given, not on history or other threads",
 "The outcome of every operation is determined by the objects given to it and by fresh randomness alone: neither what the process did before (work with other authorities and policies of the same names, refused or failing calls, the same operation any number of times) nor what other threads do at the same time changes whether it succeeds, what a key can read, or what a result is. No operation alters an object it was only given to read.",
 ["histories","schedules"],"all sequences of operations of several independent worlds in one process, all interleavings of threads working on the same or on different objects",
 "Each test is a short history in a thread of its own; hidden memory (caches, scratch buffers, remembered failures, counters) only shows when worlds alternate in one thread or threads meet.",
 [ENG,SCH,MSP,HYB,FK,FH],[("engine and scheme are immutable values","engine.rs Engine / scheme.rs Gpsw"),("per-call buffers","ffi/*.rs, hybrid_crypto/statics.rs")],None,["Engine operations on shared objects from several threads","C functions called at the same time"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=True)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert x['statement'].count('. ')<=2,(x['id'])
print(len(P))
