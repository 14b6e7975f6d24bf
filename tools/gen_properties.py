#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the statements)."""
import json, os
V="src/verify.cc"; VH="jwt_verify_lib/verify.h"; J="src/jwt.cc"; JH="jwt_verify_lib/jwt.h"
K="src/jwks.cc"; KH="jwt_verify_lib/jwks.h"; A="src/check_audience.cc"; AH="jwt_verify_lib/check_audience.h"
S="src/status.cc"; SH="jwt_verify_lib/status.h"; U="src/struct_utils.cc"; UH="jwt_verify_lib/struct_utils.h"
C="simple_lru_cache/simple_lru_cache_inl.h"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

# ---- token verification
p("V01","No success without a verified signature over the exact received bytes",
  "Every verification entry point returns Ok only if, for some key of the supplied key set, a signature or MAC verification primitive accepted the token's decoded signature over exactly the received header section, a dot, and the received payload section. When that primitive accepts for an eligible key the signature check succeeds; every other outcome, including an empty key set or a failing internal step, is a non-Ok status.",
  ["inputs"],"all tokens, all key sets (any number and mix of keys), all entry points",
  "Tests check a few dozen fixed tokens and bit flips; they cannot enumerate the forged tokens, key mixes and failing crypto calls for which Ok must not be returned.",
  [V,VH],[("verifyJwtWithoutTimeChecking","src/verify.cc"),("verifySignature* helpers","src/verify.cc")],
  observe=["return value of verifyJwt / verifyJwtWithoutTimeChecking"])
p("V02","The header's alg alone fixes scheme, hash, curve and key type",
  "A token is accepted only by the scheme its header alg names: RS* RSA PKCS#1 v1.5, PS* RSA-PSS with MGF1 on the same hash, ES* ECDSA on that alg's own curve (P-256/384/521) with a raw r||s signature of exactly twice the field size, HS* HMAC, EdDSA Ed25519 with a 64-byte signature; with the 256/384/512 hash the alg names. A key of another type or curve never verifies the token and never ends the search for the right key, and an unknown alg never verifies.",
  ["inputs"],"all alg values x key types x curves x signature lengths, including keys without alg, crv or kid",
  "The tests pair each alg with its own key; cross pairings (HS256 token on an EC key without alg, ES384 on P-256, over-long ES signatures, an OKP key listed first) are not sampled.",
  [V],[("kty / alg dispatch","src/verify.cc verifyJwtWithoutTimeChecking")],observe=["verifyJwt*"])
p("V03","Key selection: kid and alg filters, every eligible key tried",
  "A key takes part in verification exactly when (the token has no kid, or the key has no kid, or they are equal) and (the key has no alg or it equals the token's alg); every such key of the set is tried, in any order of keys, until one verifies. If no key takes part the result is JwksKidAlgMismatch; if some did and none verified it is JwtVerificationFail, except that an EdDSA token tried on an Ed25519 key with a signature that is not 64 bytes long gives JwtEd25519SignatureWrongLength.",
  ["inputs"],"all combinations of present/absent/equal/different kid and alg over key sets of every size and order",
  "Key sets in the tests have one or two keys; the guarantee is for every subset and order of matching, mismatching and unusable keys.",
  [V],[("loop over jwks.keys()","src/verify.cc")],observe=["verifyJwt*"])
p("V04","Expiry and not-before are enforced at the exact skewed boundary",
  "With nbf the token's not-before and exp its non-zero expiry, time checking gives JwtNotYetValid exactly when now + skew < nbf, otherwise JwtExpired exactly when exp is non-zero and now > exp + skew, otherwise Ok, in exact integer arithmetic for every 64-bit value of now, skew, nbf and exp (no wrap-around).",
  ["inputs"],"all 2^256 combinations of now, clock skew, nbf, exp",
  "Tests probe times 1 to 10 seconds around one boundary with small skews; neither the boundary instant nor wrap-around is reached.",
  [J,JH],[("Jwt::verifyTimeConstraint","src/jwt.cc")],observe=["Jwt::verifyTimeConstraint","verifyJwt*"])
p("V05","Audience matching: any-of, with scheme and trailing slash ignored",
  "When at least one audience is configured a token is allowed exactly if one of its audiences equals one of the configured ones after removing, from both sides alike, at most one leading http:// or https:// and at most one trailing slash, and nothing else; the comparison is otherwise exact and case sensitive. When no audience is configured every token is allowed, and an audience that consists of nothing but scheme and slash causes no failure.",
  ["inputs"],"all configured audience lists and all token audience lists, including empty strings and bare schemes",
  "Tests use one service name with and without decorations; equality and normalisation are claims about all strings and list positions.",
  [A,AH],[("sanitizeAudience","src/check_audience.cc"),("CheckAudience","src/check_audience.cc")],observe=["CheckAudience::areAudiencesAllowed","verifyJwt with audiences"])
p("V06","Every verifyJwt overload applies all the checks it documents",
  "verifyJwt returns Ok only if the time check (at the given time and skew, or the current wall clock in whole seconds since the Unix epoch and a 60 second skew where the overload has none) and the signature check both pass; the overloads taking audiences additionally require the token's audiences to be allowed by that list and report JwtAudienceNotAllowed when they are not. A failed check's own status is what is returned, and verifyJwtWithoutTimeChecking depends on no clock or audience.",
  ["inputs"],"all tokens, key sets, audience lists and times, for each of the five entry points",
  "Most tests call one overload with time 1; the wall-clock overloads and the propagation of each failing status through each overload are barely sampled.",
  [V,VH,J,A],[("verifyJwt overloads","src/verify.cc")],observe=["verifyJwt*"])
p("V07","MACs are compared in full and only in constant time",
  "An HMAC token is accepted only if the signature has exactly the MAC's length and equals it in every byte, and the computed MAC is examined by nothing but a constant-time comparison: no branch, index or early-exit comparison depends on its bytes.",
  ["inputs"],"all HMAC tokens and keys",
  "Timing behaviour and truncated-MAC acceptance are not visible in the outcome of sampled tokens.",
  [V],[("verifySignatureOct","src/verify.cc"),("CRYPTO_memcmp","src/verify.cc")],observe=["verifyJwt* with HS256/384/512"])
p("V08","Verification never reads or writes outside its buffers",
  "Every pointer and length handed to a cryptographic or memory primitive during verification and key import describes bytes inside one live buffer: the length never exceeds what remains of that buffer, output buffers are large enough for the primitive's maximum output, and fixed-size inputs (Ed25519 keys of 32 bytes, signatures of 64 bytes) are length-checked on every path before use.",
  ["inputs"],"all tokens and keys, of every signature, key and claim length",
  "An over-read of a short attacker-controlled string need not crash and is not observed by the tests, which run without sanitizers.",
  [V,K],[("pointer/length pairs at crypto calls","src/verify.cc, src/jwks.cc"),("OKP key length check","src/jwks.cc createRawKeyFromJwkOKP, createFromPemCore")],observe=["crypto call sites"])
p("V09","Crypto objects have exactly one owner: no leak, no double free",
  "On every path of verification and key import, each reference-owning crypto object obtained is released exactly once: it is held by exactly one owner at a time, ownership is given up only to a callee that took it successfully, and borrowed objects are never freed.",
  ["inputs"],"all paths, including every failure of every crypto call",
  "The error paths (failed set/check/parse calls) are mostly unreachable in tests, and leaks or double frees on them go unnoticed.",
  [V,K],[("bssl::UniquePtr holders, RSA_set0_key + release()","src/jwks.cc"),("get1/get0 conventions","src/jwks.cc, src/verify.cc")],observe=["heap"])
p("V10","A rejected signature leaves no residue in the crypto error queue",
  "When a signature check is rejected by a cryptographic primitive that records errors, verification clears the thread's crypto error queue before it returns or goes on to the next key, so a bad token cannot make a later, unrelated TLS or crypto operation on the thread report failure.",
  ["inputs","histories"],"every failing signature primitive on every path, for every key type",
  "No test looks at the error queue, and its effect shows only in a later unrelated operation.",
  [V],[("ERR_clear_error after failed verify calls","src/verify.cc")],observe=["ERR_peek_error after verifyJwt*"])
p("V11","Verification is read-only and keeps no hidden state",
  "Verifying a token changes neither the token nor the key set nor any global or static state, and its result depends only on its arguments (and on the clock in the overloads without a time): verifications of shared objects may run concurrently and repeatedly with the same outcome.",
  ["schedules","histories"],"all interleavings of concurrent verifications on shared tokens and key sets, all repetitions",
  "Tests are single threaded and call each verification once; a cache or counter introduced for speed would pass them all.",
  [V,J,A,U],[("const references throughout; no mutable globals","src/*.cc")],observe=["verifyJwt*, CheckAudience::areAudiencesAllowed, Jwt::verifyTimeConstraint"])
# ---- token parsing
p("T01","A token parses only if it is three well-formed sections with a known alg",
  "parseFromString returns Ok only for text with exactly two dots separating three non-empty sections whose header and payload base64url-decode to JSON objects, whose header alg is one of the thirteen implemented algorithms (exact, case sensitive; never none), and whose signature base64url-decodes; otherwise it returns the status that names the first thing wrong, checking format, header, payload, claims and signature in that order.",
  ["inputs"],"all strings",
  "Tests contain about thirty malformed tokens; the accepted language and the status for every kind of malformation range over all strings.",
  [J,JH],[("Jwt::parseFromString","src/jwt.cc"),("isImplemented","src/jwt.cc")],observe=["Jwt::parseFromString"])
p("T02","Parsed fields hold exactly the token's own sections and claims",
  "After a successful parse each public field holds the value of its own source: the text, the raw and decoded header and payload, the decoded signature, alg and kid from the header, and iss, sub, jti, iat, nbf, exp and aud (a string or a list of strings) from the payload; an absent claim gives the empty or zero default, and a claim of the wrong JSON type or out-of-range number gives that claim's own error status.",
  ["inputs"],"all payloads and headers: each claim absent, of each JSON type, in each combination",
  "Tests mutate one claim at a time with one wrong type; the product of claims, types and statuses is not covered.",
  [J,U],[("claim extraction","src/jwt.cc parseFromString")],observe=["Jwt fields, parse status"])
p("T03","Numeric claims and settings convert without overflow or undefined behaviour",
  "A floating point number is converted to an integer only where it has been established to lie inside the integer type's range: a numeric claim below zero or at or above 2^64 is reported as out of range, others are truncated toward zero, and cache timeouts saturate.",
  ["inputs"],"all double values a JSON number or a caller can supply (NaN excluded: JSON cannot express it)",
  "The boundary values around 0 and 2^64 and 2^63 are a handful of points in the double range; an off-by-one comparison is undefined behaviour that a test may not see.",
  [U,C],[("StructUtils::GetUInt64","src/struct_utils.cc"),("SimpleLRUCacheBase::setTimeout","simple_lru_cache/simple_lru_cache_inl.h")],observe=["GetUInt64, Jwt iat/nbf/exp, setMaxIdleSeconds"])
p("T04","A parse, copy or assignment leaves nothing of the object's former token",
  "The fields of a token object after a successful parse are a function of the parsed text alone: parsing into, or assigning to, an object that held another token leaves no claim, audience, kid, time or signature of that earlier token, and a copy of a parsed token equals a fresh parse of the same text, also for self-assignment.",
  ["inputs","histories"],"all sequences of parses, copies and assignments on one object",
  "Every test parses once into a fresh object; reuse histories are never exercised.",
  [J,JH],[("Jwt::parseFromString","src/jwt.cc"),("Jwt::operator=","src/jwt.cc")],observe=["Jwt fields after reuse"])
p("T05","Typed JSON lookups never misreport type or presence",
  "A typed lookup by dotted name gives OK only when every step but the last names an object and the last names a value of the asked type, and then stores exactly that value; a missing step gives MISSING, a non-object on the way or a value of another type gives WRONG_TYPE, and the single-value lookups write their output only on OK.",
  ["inputs"],"all JSON objects and all dotted names",
  "Tests look up four nested names in one document; presence, type and depth range over all documents.",
  [U,UH],[("StructUtils getters and GetValue","src/struct_utils.cc")],observe=["StructUtils::Get*"])
# ---- key sets
p("K01","A key set is Ok exactly when it has usable keys, and failed sets hold none",
  "Creating a key set from JSON gives Ok exactly when at least one key was imported; an unusable or non-object entry of the keys array is skipped without affecting the other keys, in any order; when nothing was imported the status is the first error met, or JwksNoValidKeys if there was none. A key set whose creation failed, for any format, holds no keys.",
  ["inputs"],"all JSON key sets: every mixture and order of good and bad entries; all formats",
  "Tests use a few mixtures; the status/keys relation must hold for every list and failure position.",
  [K,KH],[("Jwks::createFromJwksCore","src/jwks.cc"),("createFromX509","src/jwks.cc")],observe=["Jwks::getStatus, Jwks::keys"])
p("K02","A JSON key is imported only if complete, typed and self-consistent",
  "A JSON key is imported only if kty is EC, RSA, oct or OKP, its required members are strings that decode, an RSA alg starts with RS or PS and its exponent is 3 or 65537 and the key passes RSA validation, an EC alg/crv pair is compatible and its point is on the curve that alg or crv (default P-256) names, an oct alg is HS256/384/512 and its secret non-empty, and an OKP alg is EdDSA, its crv Ed25519 and its key 32 bytes. Otherwise it is rejected with the status that names the offending member.",
  ["inputs"],"all JSON keys: every kty, alg and crv string, every member absent, mistyped or undecodable",
  "Tests cover a sample of alg/crv pairs and malformed members; the acceptance table is over all strings and member combinations.",
  [K],[("extractJwk*","src/jwks.cc"),("KeyGetter","src/jwks.cc")],observe=["Jwks::createFrom(JWKS)"])
p("K03","Imported keys carry the key material, kid and alg of their own source",
  "Every key of a key set has the kty and exactly the key material (modulus and exponent, point and curve, secret, or raw public key) of the JSON entry, PEM or certificate it came from, with that entry's kid and alg (for certificates the map's key as kid), so that usable material for its kty is always present and never that of another entry.",
  ["inputs"],"all key sets of any number of keys",
  "Tests verify tokens with a few sets; mixing up members or entries in longer or unusual sets would go unseen.",
  [K,KH],[("extractJwk*","src/jwks.cc"),("createFromX509","src/jwks.cc"),("createFromPemCore","src/jwks.cc")],observe=["Jwks::keys()"])
p("K04","PEM import: supported type, single key, atomic append",
  "A PEM import gives Ok with exactly one key if the text parses as a public key of type RSA, EC or Ed25519 (the raw 32 bytes), and otherwise a non-Ok status that distinguishes unparsable text from an unsupported type. createFromPem sets the given kid and alg and the curve that an ES alg implies, and addKeyFromPem appends exactly that key, keeping all earlier keys, or on failure returns the error and changes nothing.",
  ["inputs","histories"],"all PEM texts, kids, algs, and sequences of appends",
  "Tests import one PEM per type; failure atomicity and later appends are sampled once.",
  [K,KH],[("createFromPemCore, createFromPem, addKeyFromPem","src/jwks.cc")],observe=["Jwks::createFrom(PEM), createFromPem, addKeyFromPem"])
p("K05","X.509 map import happens only for an all-certificate map, all or nothing",
  "A JSON object without a keys member is taken as a certificate map only if it is non-empty and every member has a non-empty name and a string value framed by the certificate header and footer lines; then each certificate must parse and hold an RSA public key, otherwise the import fails with the status of the failing step. Any other object without keys gives JwksNoKeys, and one whose keys member is not an array gives JwksBadKeys.",
  ["inputs"],"all JSON objects, of every number and order of members",
  "Tests use maps with one bad member; iteration order of the members is unspecified and mixtures are not sampled.",
  [K],[("shouldCheckX509, createFromX509, extractX509","src/jwks.cc")],observe=["Jwks::createFrom(JWKS)"])
p("K06","Every status has its own message, and the first failure is kept",
  "The message function returns a non-empty text for every declared status, different for different statuses, and an empty text for values outside the enumeration. An object that records a status keeps the first failure it met until it is explicitly reset.",
  ["inputs","histories"],"all enumerators, all sequences of status updates",
  "No test enumerates the statuses; a new enumerator without a message, or a duplicate, compiles and passes.",
  [S,SH],[("getStatusString","src/status.cc"),("WithStatus::updateStatus","jwt_verify_lib/status.h")],observe=["getStatusString, getStatus"])
p("K07","No input can make parsing or key import crash",
  "Whatever text is given as token, key set, PEM, key id or algorithm, parsing and importing never dereference an absent result (a failed crypto parse, a missing JSON member, an empty container), never index or cut a string outside its bounds, and never reach a failing assertion; memory exhaustion excepted.",
  ["inputs"],"all byte strings as token, JSON key set, PEM or certificate map",
  "A crash needs one specific malformed input; the tests hold a few dozen and the fuzzer is not run.",
  [J,K,U,A,V],[("null, end and size checks before use","src/*.cc")],observe=["process"])
# ---- LRU cache
p("C01","A pinned value is never destroyed; every value is destroyed exactly once",
  "A value handed to the cache is passed to the deleter exactly once, and never while a pin obtained from lookup or insertPinned is outstanding: eviction, expiry, remove, removeAll, replacement and resizing defer it until its last release, at which point it is destroyed.",
  ["histories"],"all sequences of cache operations, options and modes",
  "Tests replay a few short scripts; lifetime errors depend on particular interleavings of pins, removals, replacements and evictions.",
  [C],[("discard / remove / release pin checks","simple_lru_cache/simple_lru_cache_inl.h")],state=[("pin","outstanding releases of an element","SimpleLRUCacheElem::pin"),("defer_","removed but still pinned elements","SimpleLRUCacheBase::defer_")],observe=["removeElement calls"])
p("C02","size, pinnedSize and deferredSize always account for exactly the live elements",
  "After every operation size() is the total units of all values not yet destroyed (deferred ones included), pinnedSize() the total units of the present entries with a pin, and deferredSize()/deferredEntries() the units and number of removed-but-pinned values, whatever sequence of inserts, updateSize, pins, removals and evictions came before.",
  ["histories"],"all sequences of cache operations",
  "The counters are maintained by paired increments in a dozen places; tests compare them after a few scripts only.",
  [C],[("units_ / pinned_units_ updates","simple_lru_cache/simple_lru_cache_inl.h")],state=[("units_","total units","SimpleLRUCacheBase"),("pinned_units_","units pinned and present","SimpleLRUCacheBase")],observe=["size(), pinnedSize(), deferredSize()"])
p("C03","lookup finds exactly the last inserted, not yet removed value and pins it",
  "A successful lookup returns the value last inserted under an equal key and adds one pin; an insert replaces any older entry of the key; remove, removeAll, removeUnpinned, eviction and expiry make the entry unfindable at once. A failed lookup returns null and changes no pin, and release takes away exactly one pin of the given value.",
  ["histories"],"all sequences of cache operations over equal and different keys",
  "Key/value/history combinations (same key re-inserted while pinned, several deferred generations) are sampled by two tests.",
  [C],[("lookupWithOptions, insertPinned, remove, releaseWithOptions","simple_lru_cache/simple_lru_cache_inl.h")],observe=["lookup/release"])
p("C04","Over capacity, unpinned entries are evicted oldest first, and only then",
  "After any operation that grows the contents, shrinks the limit or removes the last pin of an entry, the cache is within its limit (or its overfull predicate is false) or holds no evictable unpinned entry; space eviction takes entries from the least recently used end only, one at a time, while overfull, skipping pinned ones.",
  ["histories"],"all sequences of cache operations, sizes and limits",
  "Eviction order is tested on one insertion pattern of equal sized elements.",
  [C],[("garbageCollect, isOverfullInternal","simple_lru_cache/simple_lru_cache_inl.h")],observe=["size() vs maxSize(), evicted values"])
p("C05","The recency list is always well formed and complete",
  "In every reachable state the recency list is a consistent circular doubly linked list: an element is linked only while it is not already linked, is unlinked before it is destroyed or moved to the deferred list, and every present unpinned element is on the list, for every mixture of lookups and releases with and without eviction-order updates.",
  ["histories"],"all interleavings of update and no-update lookups and releases, removals and evictions, in LRU and age-based mode",
  "Corruption needs a specific interleaving of pins with different options and shows up as a crash or a leaked entry much later.",
  [C],[("SimpleLRUCacheElem::link/unlink/isLinked","simple_lru_cache/simple_lru_cache_inl.h"),("releaseWithOptions","simple_lru_cache/simple_lru_cache_inl.h")],observe=["list traversal"])
p("C06","Recency and insertion times change only when they should",
  "In LRU mode with eviction-order updates a release moves the entry to the most recently used end and stamps it with the current time; in age-based mode the stamp and position stay those of the insertion; lookups, no-update accesses and read-only queries change neither stamp nor position of an unpinned entry.",
  ["histories"],"all operation sequences in both modes, with and without the no-update option",
  "Order is observed by tests through a few evictions; stamps depend on mode, option and pin count.",
  [C],[("last_use_ updates, link(&head_)","simple_lru_cache/simple_lru_cache_inl.h")],observe=["getLastUseTime, getInsertionTime, eviction order"])
p("C07","Expired entries are never returned by lookup",
  "With a non-negative idle or age limit every lookup first removes each entry that is not in use (in age-based mode also those in use) whose stamp is older than now minus the limit, as does an explicit call, and neither removes an entry that is younger; a negative or infinite limit expires nothing, and the limit is the given number of seconds.",
  ["histories","inputs"],"all times, limits and operation sequences",
  "Tests sleep around one limit with 100 ms margins.",
  [C],[("removeExpiredEntries, discardIdle, setTimeout","simple_lru_cache/simple_lru_cache_inl.h")],observe=["lookup after idle time"])
p("C08","Scoped lookups and read-only queries leave the cache as they found it",
  "A scoped lookup releases, exactly once at the end of its scope, the pin it took, with the same key, value and options, and releases nothing when the lookup missed; it cannot be copied. Size, stillInUse, deferred counts, iteration, ages and debug output modify nothing in the cache.",
  ["histories"],"all scopes, keys and options; all states in which a query can be made",
  "The tests exercise one scoped lookup and query in a few states.",
  [C],[("ScopedLookup","simple_lru_cache/simple_lru_cache_inl.h"),("const member functions","simple_lru_cache/simple_lru_cache_inl.h")],observe=["pins after scope, state after queries"])
# ---- not applicable to this family
p("N01","Cryptographic primitives and decoders compute what their standards say",
  "The RSA, ECDSA, Ed25519, HMAC, SHA-2, base64url, JSON and PEM/X.509 routines the library relies on compute the functions their standards define.",
  ["inputs"],"all inputs of those routines","Only fixed vectors are tested.",[V,K,J],[("external libraries","BoringSSL, abseil, protobuf")])
p("N02","Every honestly issued token verifies against its issuer's key set",
  "For every key pair of a supported type and every claim set, a token signed by a conforming implementation with the private key parses and verifies Ok against a key set holding the public key.",
  ["inputs"],"all key pairs, claim sets and conforming signers","Tests verify a few dozen recorded tokens.",[V,J,K],[("whole pipeline","src/*.cc")])
p("N03","Verification and cache operations take bounded time and memory",
  "Parsing and verifying take time and memory proportional to the size of token and key set, and cache operations amortised constant time, for every input.",
  ["inputs","histories"],"all inputs and histories","No test measures resources.",[V,J,K,C],[("whole pipeline","src/*.cc")])
p("N04","No adversary can learn key or MAC bytes from machine-level timing",
  "The time taken by the compiled verification code does not depend on secret bytes on any target.",
  ["inputs"],"all inputs, compilers and targets","Timing is not tested.",[V],[("CRYPTO_memcmp","BoringSSL")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
