import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],observe=[],hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
V="src/validation.rs"; Q="src/query.rs"; R="src/rr.rs"; S="src/ser.rs"; H="src/http.rs"; W="wasmpack/src/lib.rs"; B="src/base32.rs"; DL="wasmpack/doh_lookup.js"
HK="A trust anchor whose private key is known (cfg dnssec_prover_verif), so that whole chains can be generated."
p("C01","Only records with an authenticated chain from the root are returned",
 "Whatever set of records is given to the verifier, every record it returns belongs to an RRset that is present in full in the input and carries a valid signature, over exactly that RRset, by a zone key (protocol 3, ZONE flag, matching algorithm) of a zone that is the owner name or a label-wise ancestor of it and whose DNSKEY RRset is linked to the built-in root anchors by an unbroken chain of signed DS and DNSKEY RRsets. No record, key, DS or signature that an attacker adds, drops, alters, renames or replays, including one who operates some delegated zone, makes the verifier return a record outside of what that chain authenticates.",
 ["inputs"],"every list of records, from honest answers to anything an on-path attacker or the operator of a delegated zone can assemble",
 "The tests verify a handful of recorded honest proofs; nearly no test feeds a forged, cross-zone or partially signed record set, so soundness over all inputs is untouched.",
 [V,R,S],[("verify_rr_stream zone walk",V+": verify_rr_stream"),("signature check",V+": verify_rrsig"),("DS to DNSKEY link",V+": verify_dnskeys")],
 [("zone / pending_ds_sets","zones whose DS set has been authenticated and is still to be walked",V),("res","records authenticated so far",V)],["verify_rr_stream result"],HK)
p("C02","Every honest proof verifies and yields exactly the records it proves",
 "A record set holding a complete, correctly signed chain from a trusted root key (root and child DNSKEY and DS RRsets, each intermediate RRSIG, and the denial records for any wildcard expansion) in a supported algorithm verifies, and the records returned are exactly the distinct signed non-DNSSEC records it contains. This holds however many zones, branches, records per RRset, keys, signers of the DNSKEY RRset, redundant signatures, literal wildcard owners or supported algorithms the chain uses.",
 ["inputs","configurations"],"every shape of honest zone tree and proof within the supported algorithms",
 "Recorded proofs of a few real zones (mostly one key pair, two algorithms) are all the tests have.",
 [V,S,R],[("zone walk",V+": verify_rr_stream"),("key selection",V+": verify_rrsig, verify_dnskeys")],[],["verify_rr_stream result"],HK)
p("C03","The verdict does not depend on record order, repetition or letter case",
 "Reordering the records of a proof, repeating any of them, or changing the case of letters in owner names changes neither whether the proof is accepted nor the set of records, the validity window or the cache lifetime reported, for every proof that holds no failing signature, no colliding key tags, one usable signature per DNSKEY RRset and at most two NSEC3 parameter sets per zone. Each returned record is returned once.",
 ["inputs"],"every permutation and repetition of the records of every proof",
 "The tests shuffle a few proofs with OS randomness and never repeat a record; n! orders and multisets are not sampled meaningfully.",
 [V],[("position-independent searches",V+": verify_rr_stream"),("canonical sort",V+": verify_rrsig")],[],["verify_rr_stream result"],HK)
p("C04","Reported validity window and cache lifetime never exceed any signature's",
 "On acceptance the reported start is the latest inception, the reported end the earliest expiration and the cache lifetime the smallest original TTL over every signature that was relied on (chain, answers and denial alike), where a 32-bit time before the 1997 cutoff means that time plus 2^32. A proof whose window would be empty is rejected.",
 ["inputs"],"every combination of signature times and TTLs, including the extremes and 32-bit wrap-around",
 "Only three tests look at the window at all, each on one recorded proof with ordinary times.",
 [V],[("latest_inception / earliest_expiry / min_ttl",V+": verify_rr_stream"),("resolve_time",V)],[],["VerifiedRRStream fields"],HK)
p("C05","Wildcard answers need authenticated denial from the same zone",
 "A record synthesised from a wildcard is accepted only if the proof also holds an NSEC or NSEC3 record, signed by the zone that signed the wildcard, showing that the next closer name does not exist: an NSEC interval strictly containing that name (and not merely passing through it as an empty non-terminal), or an NSEC3 record with SHA-1, no flags and at most 2500 iterations whose hash interval strictly contains its hash. If any one expansion in the proof lacks its denial the whole proof is rejected; DS and NSEC3 records are never accepted through a wildcard; a well-formed denial is always honoured.",
 ["inputs"],"every combination of wildcard, query name, denial interval, hash parameter set, flags, type bitmap and signer",
 "The tests replay two recorded wildcard zones with a dozen names; interval endpoints, empty non-terminals, opt-out, iteration limits, foreign signers and several parameter sets are never tried.",
 [V,B],[("rrs_needing_non_existence_proofs",V+": verify_rr_stream"),("nsec_ord",V),("NSEC3 hashing",V),("base32::decode",B)],
 [("rrs_needing_non_existence_proofs","expansions whose denial is still to be found",V)],["verify_rr_stream result"],HK)
p("C06","Key, digest and algorithm policy, and which error is reported",
 "Only protocol-3 keys with the ZONE flag and a matching algorithm number and key tag validate anything; only SHA-256 DS digests (SHA-1 solely when no SHA-256 or SHA-384 digest is present) vouch for keys, and only algorithms 8, 10, 13, 14 and 15 verify signatures. An unsupported algorithm or digest never makes data trusted, never blocks validation when a supported alternative is present in the same set, and is reported as UnsupportedAlgorithm only when the unsupported choice is itself authenticated by the parent; all other failures are reported as Invalid, and signatures failing under a matching key fail the proof at once.",
 ["inputs","configurations"],"every mix of key flags, protocols, algorithms, digest types and redundant signatures in each zone of the chain",
 "No test contains an unsupported algorithm, a SHA-1 DS, a revoked or non-zone key or a mixed set.",
 [V],[("verify_dnskeys",V),("verify_rrsig algorithm match",V)],[],["verify_rr_stream result and ValidationError"],HK)
p("C07","Verification terminates without panicking, with bounded work, on any input",
 "For every record list the verifier returns a result: it never panics, overflows or loops, even when zones delegate to themselves, to their ancestors or to each other, when signatures cover nothing, or when fields hold extreme values. It checks each RRSIG at most once, stops at the first signature that fails, and hashes each name needing denial under at most two NSEC3 parameter sets of at most 2500 iterations.",
 ["inputs","programs"],"every record list, including cyclic delegations and key-tag collisions built to multiply work",
 "Tests only verify terminating honest proofs; none has a delegation cycle, an empty RRset, a key tag collision or an iteration bomb.",
 [V],[("zone walk loop",V+": verify_rr_stream"),("immediate failure on bad signature",V+": verify_rrsig"),("NSEC3 parameter and iteration limits",V)],[("pending_ds_sets","zones still to be walked",V)],["return of verify_rr_stream","work counters"],
 "Counters of signature verifications and NSEC3 hash rounds (cfg dnssec_prover_verif); the known trust anchor.")
p("C08","Name resolution follows CNAME and DNAME exactly and always ends",
 "Resolving a name in a verified set returns exactly the verified records at the name reached by following CNAMEs at the name itself and DNAMEs at proper ancestors (label-wise, replacing just the matched suffix, with the root handled as owner and as target), and nothing when a rewritten name would be too long. It returns, with no records, when the aliases form a loop or keep growing, whatever the records are.",
 ["inputs"],"every verified record set and query name, including alias chains of any length, cycles, names that share a textual suffix, and overlapping aliases",
 "One recorded CNAME and one DNAME set are resolved by the tests; loops, boundaries, roots, self-owners and long names are not.",
 [V],[("resolve_name",V+": VerifiedRRStream::resolve_name")],[],["resolve_name result"])
p("C09","The parsers accept exactly well-formed input and never panic or hang",
 "For every byte string the record-stream parser and the DNS-message record parser return promptly, with either an error or records; they accept a record exactly when its name, type, class IN and length-delimited data are well formed for that type with no byte of the data left over, and the values returned are those the bytes encode. Truncated data, unknown types, other classes, over-long or badly encoded names, labels that would read back as several labels, compression loops or out-of-range pointers, and malformed type bitmaps are errors.",
 ["inputs"],"every byte string, both as an RFC 9102 stream and inside a DNS message with compression",
 "The tests parse a few valid streams; the fuzz targets assert nothing but absence of crashes and are not run as tests.",
 [S,R],[("parse_rr_stream / parse_wire_packet_rr",S),("read_from_data per type",R),("read_wire_packet_name",S),("read_nsec_types_bitmap",S)],[],["parse_rr_stream result","process_response result"])
p("C10","Writing and parsing records are inverse",
 "Any record that can be held by the library and whose data fits a DNS record, once written, parses back to an equal record, consuming exactly the bytes written, whatever precedes or follows it; the written owner, type, class, TTL and length are right. Writing what was parsed from canonically encoded input reproduces the input byte for byte.",
 ["inputs"],"every record of every supported type, including empty and multi-segment text, empty and maximal bitmaps, root and maximal names",
 "Only recorded records of ordinary shape are round-tripped.",
 [S,R],[("write_rr",S),("write_u16_len_prefixed_data per type",R),("read_from_data per type",R),("write_name / name_len",S)],[],["write_rr output","parse_rr_stream result"])
p("C11","Signatures are checked over the exact RFC 4034 canonical form",
 "A signature verifies if and only if it was made over the RFC 4034 canonical form of the RRset: the RRSIG fields with lower-case signer name, then each distinct record once, in the order of canonical RDATA as unsigned octet strings, with lower-case owner name (the wildcard form if the label count is smaller), type, class IN, the original TTL whatever TTL was transmitted, and the canonical data with its length. No other byte string, however close, is accepted as the signed message.",
 ["inputs"],"every RRset of every supported type with any data, owner, label count and TTL, and every signed message deviating from its canonical form",
 "The recorded signatures cover only single records and one TXT ordering corner case; NS sets, repeated records, mixed case and near-miss messages are not covered.",
 [V,R,S],[("signed_data construction",V+": verify_rrsig"),("canonical record data",R+": write_u16_len_prefixed_data"),("key_tag",R)],[],["verify_rr_stream result"],HK)
p("C12","Only valid domain names can exist, and label operations agree with DNS",
 "A name value is created exactly from strings that are the root or dot-terminated sequences of non-empty labels of at most 63 printable ASCII characters (no double quote, at most 255 bytes in total), and is stored in lower case. The label count and the trailing-label operation then agree with the DNS label structure for every name and every count, and equal names compare and print equally regardless of the case they were given in.",
 ["inputs"],"every string and every label count",
 "No test constructs an invalid name or exercises trailing labels beyond recorded ones.",
 [R],[("Name::try_from",R),("Name::labels / trailing_n_labels",R)],[],["Name constructors and accessors"])
p("C13","The JSON form is well-formed and says exactly what the record says",
 "For every record the JSON text is a single well-formed JSON object whose type, name and data members equal the record's own, with no loss or ambiguity: record contents can never break out of their string, add or replace members, or make the output unparsable. Text content appears as a string only when it is representable as such and as a byte array otherwise.",
 ["inputs"],"every record of every supported type, with arbitrary bytes as text, arbitrary names, digests and bitmaps",
 "No test looks at JSON output.",
 [R,W],[("StaticRecord::json per type",R),("NSecTypeMask::write_json",R)],[],["RR::json"])
p("C14","Record comparison is one consistent total order in canonical data order",
 "Equality, partial order and total order of records agree with each other and form a total order, so that every sorting of the same records gives the same sequence. For records of one name and type the order of text records is that of their canonical wire data.",
 ["inputs"],"every pair and triple of records",
 "The tests sort one recorded TXT set; the outcome even differs between compiler versions.",
 [R],[("Ord / PartialOrd / PartialEq of the records",R)],[],["cmp, partial_cmp, ==, sort"])
p("C15","Only well-formed authenticated answers enter a proof, whole or not at all",
 "A resolver message contributes to a proof exactly when it is a non-truncated, error-free (response code zero) standard query response with transaction ID 0, the authenticated-data flag, one question, at least one answer, and answer and authority sections that parse. It then adds every answer record in order, plus from the authority section only NSEC and NSEC3 records and the signatures over them, each decompressed with its transmitted TTL; any other message is refused and leaves the proof, the pending count and the TTL as they were.",
 ["inputs"],"every byte string a resolver or a middlebox may return, at any point of the exchange",
 "The only tests of response handling query public resolvers over the network and see well-formed answers.",
 [Q,S],[("handle_response",Q),("parse_wire_packet_rr",S)],[("proof","bytes of the records accepted so far",Q),("min_ttl","smallest TTL of those records",Q)],["ProofBuilder::process_response","ProofBuilder::finish_proof"])
p("C16","The proof builder asks each needed question once and then finishes",
 "At every point of an exchange the builder has asked for the DNSKEY RRset of each signer name seen, and for its DS RRset unless it is the root, exactly once each and nothing else; it awaits responses exactly while queries are unanswered, and hands out the proof (all accepted records, with the lowest TTL among them) exactly when none is. It never causes more than about ten queries: beyond that it asks nothing further, stops awaiting and yields no proof, and responses it did not ask for are refused.",
 ["histories","schedules"],"every sequence and interleaving of responses, good or bad, that a resolver may produce",
 "Network-only tests follow the one path a public resolver takes; no test reorders, repeats, omits or corrupts responses.",
 [Q],[("ProofBuilder::process_response / awaiting_responses / finish_proof",Q)],[("pending_queries","queries sent and not answered",Q),("queries_made","total of queries sent",Q),("dnskeys_requested","signer names already asked for",Q)],["queries returned, awaiting_responses, finish_proof"])
p("C17","Proofs built from an honest resolver verify, in any order of responses",
 "Given a resolver that answers truthfully for correctly signed zones, the builder ends within its query limit for chains of up to five zones and the proof it hands out verifies and resolves the queried name to exactly the resolver's records of that type, through CNAMEs, DNAMEs, wildcards and several zones. This does not depend on the order in which pending responses arrive.",
 ["schedules","configurations"],"every zone tree within the limits, question, and order of responses",
 "End-to-end behaviour is only tried against public resolvers over the network, in the order they answer.",
 [Q,V,S],[("ProofBuilder",Q),("verify_rr_stream / resolve_name",V)],[],["queries, proof bytes, verification result"],HK)
p("C18","The TCP clients deliver the same proof as the builder, however bytes arrive",
 "Each of the synchronous and asynchronous proof-fetching functions sends length-prefixed queries that are exactly the builder's, for the record type its name says, and returns exactly the builder's proof and TTL, whatever way the response bytes are fragmented or delayed and in whatever order responses come. A short, refused or closed connection, or a refused response, yields an error and never a partial proof, a panic or a hang.",
 ["schedules","fault_sequences"],"every fragmentation of the response stream and every point at which the resolver closes it",
 "The only tests need a public resolver and never see a short read or an early close.",
 [Q],[("build_proof_impl",Q),("read_response / send_query and async twins",Q)],[],["bytes on the socket, returned proof"])
p("C19","The HTTP server answers each request correctly, alone and concurrently",
 "For every request, however its bytes are fragmented, the server replies with exactly the proof for the requested name and type and a Content-Length and max-age matching it, or with the documented 400 or 404 response with permissive CORS, and it never serves one client another's proof. No request, half-open connection, resolver failure or momentary lack of descriptors stops it from serving later requests.",
 ["schedules","inputs","fault_sequences"],"every request text and fragmentation, interleaved with any other connections and resolver faults",
 "The server tests make one valid request each to a public resolver; they are skipped offline.",
 [H],[("run_server request loop",H),("URI parameter parsing",H)],[],["HTTP responses"])
p("C20","The WebAssembly wrapper gives the same results as the library",
 "Driving the exported wrapper functions gives the same queries, the same proof and the same verdict as the library functions they wrap: names are completed with a trailing dot, queries come out in order, each once, refused responses change nothing, and verification returns a well-formed JSON object with the library's window, TTL and records in order, or the name of the library's error.",
 ["inputs","histories"],"every name, type, response sequence and proof byte string",
 "The wrapper has no tests.",
 [W,R],[("init_proof_builder / process_query_response / get_next_query / get_unverified_proof / verify_byte_stream",W)],[("queue of queries","queries not yet fetched by the caller",W)],["return values of the exported functions"],HK)
p("C21","A query buffer behaves as the bytes put into it, at any size",
 "Through any sequence of creation, extension, in-place writes, copies, comparison and conversion, on the stack or beyond the stack limit, the buffer reads as exactly the bytes put into it, two buffers are equal exactly when their bytes are, and extending past 65535 bytes does not panic.",
 ["histories","inputs"],"every sequence of operations, particularly around the stack-to-heap boundary",
 "The tests use buffers only incidentally, through small DNS messages.",
 [Q],[("QueryBuf::extend_from_slice / deref / into_vec",Q)],[("buf / heap_buf / len","stack storage, heap storage and length",Q)],["contents, equality, into_vec"])
p("C22","Only the published IANA root keys are trust anchors",
 "In a production build the trust anchors are exactly the published root-zone DS records for key tags 19036 and 20326, and a chain rooted in any other key, however complete, is never accepted; real proofs rooted in those keys are.",
 ["configurations","inputs"],"every root DNSKEY and every production configuration of the crate",
 "Tests compile an additional test anchor into the crate, so the production anchor set is never itself tested.",
 [V],[("root_hints",V)],[],["root_hints, verify_rr_stream in a build without test or verification configuration"])
p("C23","Queries are well-formed requests for exactly the wanted name and type",
 "Every query produced is a DNS message with transaction ID 0, recursion desired and authenticated data requested, exactly one question carrying the wanted name in lower-case wire form, the wanted type and class IN, and exactly one EDNS0 OPT record with the DNSSEC-OK bit, and no further bytes. This holds for every valid name, including the root and the longest, and every type.",
 ["inputs"],"every name and type, for first and follow-up queries",
 "Queries are only checked indirectly by public resolvers understanding them.",
 [Q,S],[("build_query",Q),("write_name",S)],[],["queries returned by ProofBuilder::new and process_response"])
p("C24","The DoH lookup script gives the wrapper's verdict, alone or among other lookups",
 "lookup_doh(name, type, endpoint) of the script that comes with the WebAssembly wrapper, alone or among any number of concurrent lookups, puts exactly the questions the wrapper's builder asks for, each once, as RFC 8484 GET requests (the endpoint, ?dns= and the message in unpadded base64url, accepting application/dns-message), and ends once nothing is left to ask or to wait for, giving as JSON text the verdict on the finished proof. An unsupported type, a bad name, a request that fails, is refused or breaks off, and a proof that cannot be built give, whatever the failure's own text, the JSON text of an object with an error string only. Types are A, AAAA, TXT and TLSA in any case; the name's final dot may be missing. A lookup always ends once its requests do.",
 ["inputs","histories","schedules","fault_sequences"],"every name, type, server behaviour and interleaving of lookups, requests and failures",
 "No test runs the script; it depends on the order in which requests end and on what each of them says.",
 [DL,W],[("lookup_doh",DL)],[],["lookup_doh: requests made, text returned"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
from jsonschema import validate
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: validate(x,sch)
print(len(P))
