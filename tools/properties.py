import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe:a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
C="ucan/src/chain.rs";U="ucan/src/ucan.rs";B="ucan/src/builder.rs";S="ucan/src/store.rs";SE="ucan/src/capability/semantics.rs"
D="ucan/src/capability/data.rs";CV="ucan/src/capability/caveats.rs";PR="ucan/src/capability/proof.rs";DID="ucan/src/crypto/did.rs";KEY="ucan/src/crypto/key.rs"
IP="ucan/src/ipld/principle.rs";IS="ucan/src/ipld/signature.rs";IU="ucan/src/ipld/ucan.rs";SER="ucan/src/serde.rs";T="ucan/src/time.rs"
p("C01","A verified chain never reports authority that nobody delegated",
"Every capability that a verified chain reports, with every originator it reports for it, is justified by the signed tokens of that chain: an originator is either the issuer of a token that claims the capability without a proof covering it, or is inherited through a proof that holds a capability with a resource, ability and caveats at least as broad. No combination of claims, redelegations (prf:i, prf:*), shared proofs and merging of redundant capabilities ever credits an originator with a broader resource, a stronger ability or looser caveats than that originator granted. A capability that is only in a proof is reported only if the token claims it or redelegates that proof.",
["inputs","configurations"],"over all delegation graphs (chains, several proofs, shared proofs) and all sets of claims, abilities, caveats and redelegations on each token, within the stated bounds",
"The attenuation tests sample seven hand-written chains with one or two capabilities; amplification needs a specific combination of claims on several levels.",
[C,SE,PR,CV],[("per-claim originator lookup over ancestor capabilities","ProofChain::reduce_capabilities"),("merge of redundant capabilities","ProofChain::reduce_capabilities"),("redelegation index set","ProofChain::from_ucan")],
[("redelegations","proof indices passed on wholesale","ProofChain")],["ProofChain::reduce_capabilities"])
p("C02","A verified chain reports all the authority that was delegated",
"Every capability that a token claims and the caller's semantics recognises is reported by its verified chain under every originator that is due, either as such or as part of a broader reported capability of that originator. Nothing else in the token makes it disappear: not unrecognised or malformed neighbours, not the position or the number of claims and proofs, not redundant claims. Redelegating a proof by its index, or all proofs with prf:*, passes on everything those proofs report.",
["inputs","configurations"],"over all delegation graphs and claim sets within the stated bounds, with an unrecognised claim at every position and every proof index up to the bound",
"Tests use at most two recognised claims and two proofs; dropped capabilities need particular positions, indices or mixtures.",
[C,SE,PR,B],[("collection of own, inherited and redelegated capabilities","ProofChain::reduce_capabilities"),("proof delegation parsing","ProofDelegationSemantics")],None,["ProofChain::reduce_capabilities","UcanBuilder::delegating_from"])
p("C03","A chain is accepted exactly if every link in it is legitimate",
"Verifying a token succeeds if and only if, for the token and for every proof reachable from it, the signature and the time bounds are valid, each proof reference resolves to a token in the store, each proof's audience is the issuer of the token that cites it, each proof's validity period contains that of the token that cites it, and each redelegation by index names an existing proof. The verdict is the same whether verification starts from a parsed token, its text or its content identifier. An accepted chain exposes exactly the token's proofs, in the order cited.",
["inputs","configurations"],"over all chains and proof trees up to the bounded depth and width with every link defect (and pair of defects) at every position",
"Tests cover one wrong audience and one missing proof at depth one; a defect can sit at any depth or at a later sibling, or be masked by another token that was valid.",
[C,U,S],[("recursive validation of proofs","ProofChain::from_ucan"),("link check","ProofChain::validate_link_to"),("lifetime nesting","Ucan::lifetime_encompasses")],None,["ProofChain::from_ucan","ProofChain::from_cid","ProofChain::try_from_token_string"])
p("C04","Validity periods are enforced at the instant the caller names",
"A token is valid at an instant exactly if the instant is not before its not-before time and not after its expiration (both inclusive, an absent bound meaning unlimited), and a chain is accepted at an instant only if every token in it is valid then. The instant is the one passed to the verification, at every depth and for both bounds; the system clock is used only when none is passed, and it is also what the stand-alone expired and too-early queries follow. Comparison of two validity periods (begins before, ends after, encompasses) is exactly interval containment, an absent bound again meaning unlimited.",
["inputs","configurations"],"over all combinations of bounds, verification instants and clock readings from boundary sets (0, t-1, t, t+1, the maximum and absent), at every node of chains up to the bounded depth",
"Tests use two or three relative offsets of the real clock and never combine a chosen instant with not-before.",
[U,C,T],[("expiry and not-before checks","Ucan::validate"),("lifetime comparison","Ucan::lifetime_encompasses"),("clock","time::now")],None,["Ucan::validate","Ucan::is_expired","Ucan::is_too_early","ProofChain::*"])
p("C05","Only what the issuer signed is accepted as the issuer's token",
"A token verifies only if its signature is that of its stated issuer over exactly the header and payload it carries: changing, adding, dropping or swapping any character, segment or field of a signed token's text makes parsing or verification fail. What a verified token reports (issuer, audience, capabilities, time bounds, facts, nonce, proofs, version, algorithm) is what was signed, also if the token value was assembled from parts or deserialised rather than parsed. A token signed by one key never verifies as issued by another, for every supported key type.",
["inputs"],"over every single-character edit and every structural edit of signed tokens of every key type, over all exchanges of segments and fields between tokens, and over all mismatches between fields and signed data",
"No test tampers with a token; the mutation space is far beyond a handful of samples.",
[U,DID,"ucan-key-support/src/ed25519.rs","ucan-key-support/src/p256.rs","ucan-key-support/src/rsa.rs"],[("signature check","Ucan::check_signature"),("token parsing","Ucan::from_str")],None,["Ucan::from_str","Ucan::validate","Ucan::check_signature"])
p("C06","Reported time bounds are those under which the capability holds",
"The not-before and expiration reported with a capability of a verified chain, whether the capability is original, inherited, merged or redelegated through any number of tokens, are exactly the bounds of the token that was verified, and therefore never wider than the bounds of any token on a path that justifies it.",
["inputs","configurations"],"over all chains, proof trees and redelegation paths up to the bounded depth, with all properly nested assignments of bounds (including absent ones)",
"Tests check bounds on one chain of two tokens with equal lifetimes.",
[C],[("bounds of own and redelegated capabilities","ProofChain::reduce_capabilities")],None,["CapabilityInfo::not_before","CapabilityInfo::expires_at"])
p("C07","Verdicts do not depend on what was verified before",
"Verifying a token, or resolving a DID to a key, gives the same verdict and reports the same as it would with a freshly created DID parser, whatever sequence of other tokens, DIDs, successes, failures and repetitions the same parser and store handled before. Resolving a DID always yields the key that DID denotes, never that of another DID or key type.",
["histories"],"over all sequences of verifications and DID resolutions up to the bounded length over an alphabet of valid, invalid, near-identical and unsupported DIDs and tokens",
"Every test uses a fresh parser for one or two verifications; cache corruption needs a particular order of earlier requests.",
[DID,C],[("key cache","DidParser::parse")],[("key_cache","DID to key memo","DidParser")],["DidParser::parse","ProofChain::from_ucan"])
p("C08","Failing or slow stores and keys never cause wrong acceptance",
"If a store read, a key lookup, a signature check or a signing step fails at any point of a verification or of the signing of a token, that operation as a whole returns an error: it never panics, never yields a chain that lacks a proof, and never yields a token that was not signed. However often store or key operations are suspended before they complete, the outcome is the same as without suspension. Repeating or resuming after a failure or an abandoned operation gives the result that would have been given in the first place.",
["fault_sequences","histories"],"over every placement of store faults (error, missing entry, undecodable content), key faults and suspensions, and over every point of abandonment, within the stated number of deviations",
"Tests use only an infallible in-memory store and keys that never suspend or fail.",
[C,S,B,KEY],[("error propagation","ProofChain::from_ucan"),("required token lookup","UcanJwtStore::require_token"),("signing","Signable::sign")],None,["ProofChain::*","Signable::sign","UcanJwtStore::*"])
p("C09","Token text round-trips and content identifiers identify the text",
"Reading a token's text and writing it again yields the same text, for every text that is accepted, whoever produced it and however its JSON is spelled, so its signature stays valid. Reading the text of a signed token yields a token equal to the one signed in every field. Its content identifier is the raw-codec identifier of exactly that text under the requested hash function, so equal texts have equal identifiers and a proof cited by identifier is found under it in a store.",
["inputs"],"over all combinations of field values from the boundary alphabets (optional fields present or absent, all capability shapes, nested facts, extreme numbers and strings) and all alternative JSON spellings in the alphabet",
"Two tests round-trip one token each, both produced by this library.",
[U,SER],[("token writing","Ucan::encode"),("token reading","Ucan::from_str"),("content identifier","Ucan::to_cid")],None,["Ucan::encode","Ucan::from_str","Ucan::to_cid"])
p("C10","A built token says exactly what the builder was told",
"For every sequence of builder calls, the built and signed token carries exactly the issuer, audience, not-before time, facts, proofs (in order, as identifiers under the chosen hash) and capabilities (all of them, in the order given per resource and ability) that the calls set, with later settings of a single value replacing earlier ones, and nothing else. An explicit expiration wins over a lifetime; a lifetime counts from the moment of building and saturates; without either the token does not expire. A nonce is present exactly if requested and differs each time; delegating from a proof adds that proof and a redelegation of its own index; building fails, without panicking, exactly if issuer or audience is missing, and signing fails for content that a token cannot carry.",
["histories","inputs"],"over all sequences of builder calls up to the bounded length over an alphabet with two values per setting, and over boundary clock readings and lifetimes",
"Tests exercise two fixed call sequences.",
[B],[("builder state","UcanBuilder"),("payload generation","Signable::ucan_payload"),("implied expiration","UcanBuilder::implied_expiration")],None,["UcanBuilder::*","Signable::sign"])
p("C11","The same content always has the same canonical encoding",
"What is signed is the base64url (unpadded) form of the canonical DAG-JSON of the header and of the payload: object keys sorted, no whitespace, optional fields left out when absent and expiration written as null when absent. The order in which facts, capabilities on different resources or abilities, and keys of nested objects were supplied never changes the signed data; any difference in content does.",
["inputs","histories"],"over all permutations of insertion orders and all field combinations from the alphabet, compared with an independent encoder",
"One test compares two spellings of a single two-key fact.",
[SER,U,B,D],[("canonical serialisation","DagJson::to_dag_json"),("base64 form","Base64Encode::jwt_base64_encode")],None,["Ucan::signed_data"])
p("C12","Converting between JWT and IPLD form preserves the token",
"Converting a token built by this library to its IPLD form and back, directly or through DAG-CBOR or DAG-JSON bytes, yields the identical token text, with the signature still valid and every field equal, for every supported signature algorithm. The IPLD form itself carries the same issuer, audience, times, capabilities, facts, nonce, proofs, version, signature algorithm and signature bytes. A token whose algorithm, identifiers or DIDs have no IPLD form is refused with an error.",
["inputs"],"over all combinations of field values from the boundary alphabets, all supported algorithms and both codecs",
"One test converts one token with one algorithm.",
[IU,IP,IS],[("to IPLD","TryFrom<&Ucan> for UcanIpld"),("from IPLD","TryFrom<&UcanIpld> for Ucan")],None,["UcanIpld::try_from","Ucan::try_from"])
p("C13","No input makes the library panic, abort or hang",
"Any text offered as a token, DID, resource, ability or identifier, any bytes offered as a principal, signature or IPLD token, any chain of proofs in a store, and any values given to the builder either succeed or return an error in bounded time: the library never panics, aborts, overflows its stack or loops. This includes truncated, over-long, deeply nested, non-UTF-8, non-canonical and type-confused inputs.",
["inputs"],"over all strings and byte strings up to the bounded length over structure-aware alphabets, every truncation and every type confusion of valid inputs, and extreme numbers and nesting depths",
"Tests feed well-formed inputs; there is no test of malformed input beyond one undecodable token.",
[U,DID,IP,IS,D,SE,B,IU],[("input parsing","Ucan::from_str, DidParser::parse, Signature::decode, Principle")],None,["every public parser and builder"])
p("C14","One capability enables another exactly if it is at least as broad",
"A capability enables another exactly if its resource contains the other's, its ability is at least as strong, and its caveats are met by the other's; this relation is reflexive and transitive. Resources are contained only within the same kind (plain, own, another's with the same DID), a wildcard contains everything of its kind and is contained only in a wildcard, and otherwise the application's own containment decides. Empty caveats allow any caveats, otherwise every named caveat must be present with an equal value; a caveat that is not an object enables nothing and is enabled by nothing.",
["inputs"],"over all pairs and triples of capabilities from the bounded alphabet of resource kinds, scopes, abilities and caveat objects",
"Tests compare a few hand-picked pairs; order laws quantify over all pairs and triples.",
[SE,CV,PR],[("enablement","CapabilityView::enables"),("containment","Resource::contains, ResourceUri::contains"),("caveats","Caveat::enables")],None,["CapabilityView::enables"])
p("C15","Capability collections keep every valid entry and refuse invalid ones",
"A capability collection built from a list, from JSON or from a token's payload holds exactly the given (resource, ability, caveat) entries, grouped by resource and ability with the caveats in the order given; enumerating it and building it again (abilities with an empty list aside), or writing it to JSON or into a token and reading it back, yields an equal collection; what a token cannot carry (a null inside a caveat) makes signing fail. Every route refuses, with an error, a resource without abilities, a caveat that is not an object, caveats that are not a list and any other malformed shape. An ability with an empty list of caveats grants nothing.",
["inputs"],"over all lists of entries up to the bounded length, and all JSON shapes up to the bounded size, on each of the construction routes",
"Tests check a handful of literal maps and only one of the routes.",
[D,U],[("list conversion","TryFrom<Vec<Capability>>"),("JSON conversion","TryFrom<&Value>, Deserialize"),("enumeration","Capabilities::iter")],None,["Capabilities"])
p("C16","Resource and ability text is interpreted and rendered faithfully",
"A capability's resource text is read as what it says: 'my:' as the issuer's own, 'as:<did>:' as that of exactly the named DID, a path of '*' as a wildcard, prf: as the numbered proof or all proofs, and anything else through the application's scope; the ability through the application's abilities, the caveat unchanged (none means an empty one). Text that none of these recognise is not a capability. Rendering a recognised capability and reading it again yields an equal capability.",
["inputs"],"over all resource texts composed from the alphabet of schemes, DIDs, authorities, paths, queries, fragments and wildcards, and all abilities and caveats in the alphabet",
"Tests parse three literal URIs and never render 'as:' or wildcard resources.",
[SE,PR],[("parsing","CapabilitySemantics::parse, parse_resource, extract_did"),("rendering","Resource::to_string, From<CapabilityView> for Capability")],None,["CapabilitySemantics::parse","Capability::from"])
p("C17","The store returns under an identifier exactly the content it identifies",
"Writing to the in-memory store returns the version-1 raw-codec BLAKE3-256 content identifier of the written bytes, and from then on every handle of that store returns those exact bytes for it, however often anything is written or rewritten. An identifier that was not written, or that differs in version, codec or hash, never returns content; the token accessors return stored text unchanged, refuse identifiers of other codecs and content that is not text, and report an absent token as an error where it is required. A store created anew is empty and independent.",
["histories","inputs"],"over all sequences of writes, reads, handle copies and new stores up to the bounded length over colliding contents (empty, prefixes, non-text, large)",
"No test exercises the store directly; chain tests write one or two tokens and read each once.",
[S],[("content addressing","MemoryStore::write"),("lookup","MemoryStore::read"),("token accessors","UcanJwtStore")],[("dags","identifier to bytes map shared by handles","MemoryStore")],["UcanStore::read","UcanStore::write","UcanJwtStore::*"])
p("C18","Handles of one store can be used from several threads at once",
"When several threads use handles of the same in-memory store concurrently, every interleaving gives results that some one-at-a-time order of the same operations gives: an acknowledged write is seen by every later read on any handle and is never lost, a read returns complete content or nothing, and no interleaving deadlocks, panics or leaves the store unusable. A chain verified while its proofs are being written is either refused or accepted with all of its proofs.",
["schedules"],"over all thread interleavings at synchronisation operations, up to the bounded number of preemptions, of harnesses with two or three threads and one to three operations each on shared and distinct entries",
"No test uses more than one thread.",
[S],[("shared map under a lock","MemoryStore")],[("dags","identifier to bytes map shared by handles","MemoryStore")],["UcanStore::read","UcanStore::write"])
p("C19","Every supported key type signs, names and verifies consistently",
"For each supported key type (Ed25519, P-256, RSA) the DID of a key resolves back to the same public key, whose DID is again the same; the stated JWT algorithm is the one for that type (EdDSA, ES256, RS256). A signature made with a private key verifies with its DID over exactly the signed bytes, and over no other message, with no other key, and not if any bit of it is changed or bytes are added or removed. A key without its private part refuses to sign, and DIDs with a wrong or unsupported prefix or malformed key bytes are refused.",
["inputs"],"over all pairs of keys and messages from the alphabet, every single-bit change and every length change of signatures, and every truncation and prefix change of key bytes, for each key type",
"Tests sign and verify one token per key type, with no negative case.",
["ucan-key-support/src/ed25519.rs","ucan-key-support/src/p256.rs","ucan-key-support/src/rsa.rs",KEY,DID],[("key implementations","KeyMaterial for Ed25519/P256/Rsa"),("key construction","bytes_to_*_key")],None,["KeyMaterial::*","DidParser::parse"])
p("C20","IPLD principals and signatures encode without loss or confusion",
"Every DID that is accepted as an IPLD principal is shown again as the same DID, also after serialisation, and different DIDs never share a principal. Every signature of a supported algorithm, of any length, packs into an IPLD signature that unpacks to the same algorithm and bytes; algorithm names, signature prefixes and their numeric codes correspond one to one. Bytes that no DID or signature packs into, including truncated ones, are refused with an error.",
["inputs"],"over all byte strings up to the bounded length, all DIDs from the alphabet, all algorithms and all signature lengths up to the bound including the length-encoding boundaries",
"Tests round-trip two DIDs and one signature.",
[IP,IS,"ucan/src/crypto/signature.rs"],[("principal codec","Principle"),("signature codec","Signature, VarsigPrefix")],None,["Principle","Signature","VarsigPrefix"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
