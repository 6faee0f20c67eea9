import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
NT="The repository's runnable tests cover only internal/rfc6979; "
L="internal/ctsubmit/logic.go"; C="internal/ctsubmit/config.go"; B="internal/ctsubmit/bucket.go"; S="internal/ctsubmit/storage.go"
ML="internal/ctmonitor/logic.go"; MF="internal/ctmonitor/fetch.go"; MS="internal/ctmonitor/storage.go"; FA="internal/ctmonitor/fastly.go"
T="internal/sunlight/tile_ol.go"; X="internal/sunlight/extensions_ol.go"; CP="internal/sunlight/checkpoint_ol.go"; MI="internal/sunlight/misc.go"; DS="internal/sunlight/digitallysign_ol.go"; TR="internal/sunlight/tile_reader_ol.go"
p("C01","Every SCT is a valid promise that is already kept when it is issued",
 "Whenever add-chain or add-pre-chain answers with an SCT, its signature and log ID verify under the log's key over exactly the submitted entry (the certificate, or the final issuer's key hash and the de-poisoned TBS, honouring a precert signing certificate) with the returned timestamp and leaf-index extension. By the time the answer is sent, the published get-sth head and checkpoint already cover that index, and the entry stored at that index is exactly the signed one. This also holds for SCTs answered from the deduplication cache and for every mix of concurrent submissions.",
 ["inputs","schedules","histories"],"every accepted chain (certificate, precertificate, with and without pre-issuer, root included or omitted), every interleaving of submissions and flushes, S3 and filesystem storage, before and after restart",
 NT+"no runnable test issues an SCT; the docker integration tests sample one schedule and never check the stored leaf at the instant of the reply.",
 [L,DS,T,X],[("stageZero waits for stage two before signing",L+":stageZero"),("stageTwo returns entries only after STH, checkpoint and dedupe upload",L+":stageTwo"),("SCT input equals the MerkleTreeLeaf",T+":MerkleTreeLeaf")],
 observe=["HTTP answer of add-chain/add-pre-chain","objects ct/v1/get-sth, checkpoint, tile/data/* in storage at the moment of the answer"])
p("C02","Published tree heads never fork, shrink or contradict the entries",
 "Over the whole life of a log, including restarts and crashes, every tree head published as get-sth or checkpoint is correctly signed by the log's key, and its root is the RFC 6962 Merkle root of exactly the entries published at indices 0..size-1. Successive heads of each kind never go back in size or timestamp, an entry once covered never changes, and a head's timestamp is at least as recent as every entry it covers. Get-sth and checkpoint agree whenever the log is quiescent.",
 ["histories","schedules","crash_points"],"every sequence of batches (sizes, tile boundaries), restarts and crashes",
 NT+"nothing runnable ever publishes two tree heads of one log.",
 [L,C,MI,CP],[("edge tiles and sequence are loaded from the last published STH",C+":LoadLog"),("incremental Merkle tree over edge tiles",L+":stageTwo"),("SignTreeHead / SignTreeHeadCheckpoint",MI)],
 observe=["every write of ct/v1/get-sth and checkpoint, in order"])
p("C03","A published tree head is always completely backed by storage",
 "At the instant any tree head (get-sth or checkpoint) becomes visible in storage, every hash tile, data tile, issuer certificate and hash-index record needed to read and prove the whole tree of that size is already stored under its Static CT path, with contents that agree with each other and with the head. Every entry is readable by an independent Static CT client exactly as submitted.",
 ["schedules","histories","inputs"],"every order in which concurrent uploads can complete, every batch size and tile boundary, every chain",
 NT+"the order of uploads is a schedule property that no test observes.",
 [L,B,T],[("errgroup wait before the STH upload",L+":stageTwo"),("tile paths",T+":Path"),("SetIssuer / PutRecordHashes",B)],
 observe=["storage contents at each write of a tree head"])
p("C04","A crash at any storage operation loses and corrupts nothing",
 "If the submission process dies at any point (before, during or after any storage write, with any subset of its parallel writes completed) and is started again on the same storage, it starts successfully. Every SCT issued before the crash is still honoured at its index, heads published later extend those published earlier, and new submissions are accepted. Monitors reading through the RFC 6962 API before, during and after the restart always get correct entries and proofs that verify.",
 ["crash_points","histories","schedules"],"every write of a batch as crash point, every subset of in-flight parallel writes, batches that cross tile boundaries, repeated crashes",
 NT+"no test ever restarts a log, let alone after a crash in the middle of a flush.",
 [C,L,ML,MF],[("restart from the last published STH with verified edge tiles",C+":LoadLog"),("write order tiles -> STH -> checkpoint -> dedupe",L+":stageTwo"),("tile selection of the monitor",MF+":getTile")],
 observe=["storage after the crash","answers of the restarted log","answers of the monitor API"])
p("C05","A failed storage write stops the log instead of breaking promises",
 "If storage refuses any write, the log never issues an SCT for, nor publishes a tree head covering, anything that is not durably and completely stored. It stops accepting new entries and gives up its leadership lock so that a standby can take over, and a new instance on the same storage continues correctly once storage works again.",
 ["fault_sequences","schedules"],"every kind of write (data tile, hash tile, issuer, hash index, get-sth, checkpoint, dedupe index) refused, at every position in a batch, transiently or permanently",
 NT+"no test injects a storage error.",
 [L,B],[("stageTwo returns on any error",L+":stageTwo"),("Start releases the lock when a stage ends",L+":Start")],
 observe=["HTTP answers after the fault","writes after the fault","lock release at Consul"])
p("C06","Resubmitting a logged certificate returns the same SCT and adds nothing",
 "Once an SCT for a certificate or precertificate has been returned, submitting it again later - from any client, any number of times, after any other traffic, after an orderly or crash restart - returns a byte-identical SCT each time and adds no entry to the log. The answer never depends on which other certificates share an index file with it, and a certificate and a precertificate are never confused.",
 ["histories","schedules","inputs"],"every order of submissions and resubmissions, every mask size, restarts, dedupe files with many records",
 NT+"the dedupe code says 'This NEEDS unit testing' and has none.",
 [L,B,DS],[("GetDedupeEntry / PutDedupeEntries",B),("deterministic signatures make the SCT identical",DS)],
 observe=["HTTP answers","tree size before and after"])
p("C07","Proofs served by the monitor API always verify and are always available",
 "Every successful get-proof-by-hash, get-sth-consistency and get-entry-and-proof answer verifies against the tree heads of the sizes asked for, and names the right index and entry. For every published tree size, every logged entry and every pair of published sizes gets such an answer, while the log keeps growing; a hash that is not the leaf hash of a logged entry never gets a success answer.",
 ["inputs","histories","schedules"],"all indices and tree sizes, all logs (sizes around tile boundaries), concurrent growth",
 NT+"the docker integration test asks for a handful of proofs and never for get-entry-and-proof.",
 [ML,MF,T],[("hashreader/getTile choose tiles",ML+":hashreader"),("getIndexForHash",MF)],
 observe=["HTTP answers of the monitor handler"])
p("C08","get-entries returns exactly the logged entries in order",
 "A successful get-entries answer contains at least one entry when start is inside the tree, and consists of consecutive entries beginning at start, never beyond end or the published tree size. Each leaf_input is byte-identical to the leaf the log committed to and each extra_data is exactly the (pre)certificate chain that was validated at submission, so that reading ranges repeatedly retrieves the whole log.",
 ["inputs","histories"],"every start/end, every log size and mix of entries and chains",
 NT+"get-entries is only sampled by the docker integration tests.",
 [ML,MF,T],[("data tile selection and filtering",ML+":get_entries"),("ReadTileLeaf",T)],
 observe=["HTTP answers of the monitor handler"])
p("C09","The monitor API answers every query; invalid ones get a client error",
 "Every request to the read API, whatever its parameters, gets one complete HTTP response: the handler never panics, hangs or serves data for it. Requests with missing, malformed, negative, inverted or out-of-range parameters (relative to the published tree) get a 4xx status, and requests that cannot be served because storage fails get an error status; neither is ever answered with success or affects later requests.",
 ["inputs","configurations","fault_sequences"],"every query string (numbers up to and beyond 64 bits, bad base64, repeated and missing parameters), every tree size including the empty log, failing storage",
 NT+"no test sends malformed monitor requests.",
 [ML,MF,MS],[("parameter validation in each endpoint",ML)],
 observe=["HTTP status and body of the monitor handler"])
p("C10","Exactly the in-policy chains are logged, at the right endpoint",
 "A submission is accepted if its certificates form, in order, a valid signature chain to a root listed by get-roots, the leaf's NotAfter lies in the half-open window [start, limit) of the log, and certificates come to add-chain and precertificates to add-pre-chain. Any other submission is refused with an error answer and leaves no trace: no entry, no issuer object, no index record.",
 ["inputs","configurations"],"every chain shape (bad signatures, wrong order, missing or foreign root, superfluous certificates, window edges, wrong endpoint, malformed poison, junk bytes)",
 NT+"admission has no unit tests in this repository.",
 [L,C],[("ValidateChain options",L+":stageZero"),("precert/endpoint check",L+":stageZero"),("roots and window from config",C+":LoadLog")],
 observe=["HTTP answers","storage contents"])
p("C11","Every submission gets an answer, and none can take the log down",
 "Every request to the submission API, whatever its body, gets exactly one complete HTTP response and never panics the handler or stalls the log for others. When storage writes stall, waiting submissions are answered with 503 and a Retry-After header instead of hanging, however many are waiting, and the log resumes accepting and serving correctly once storage recovers.",
 ["inputs","schedules","fault_sequences"],"every request body, any number of concurrent clients, any stall of the storage",
 NT+"no test sends hostile bodies or stalls the storage.",
 [L],[("timeout on the sequencer",L+":stageZero"),("bounded channels",C+":LoadLog"),("MaxBytesHandler",L+":Start")],
 observe=["HTTP answers"])
p("C12","At most one instance of a log is active, and failover continues the log",
 "Of any number of instances started for one log, only the holder of the Consul lock reads the log state, writes storage or answers submissions; the others wait and do neither. An instance that loses the lock terminates, and an instance that acquires it initialises from the state at that time, so that the log continues without reusing an index or losing a promised entry.",
 ["schedules","histories","fault_sequences"],"every order of instance starts, lock losses, process kills and takeovers",
 NT+"no runnable test talks to Consul or runs two instances.",
 [C,L,"internal/ctsubmit/main.go"],[("consul lock before loading state",C+":LoadLog"),("fail fast on lock loss",C+":LoadLog"),("serve only after LoadLog","internal/ctsubmit/main.go")],
 observe=["storage writes and HTTP answers per process","process exit","Consul KV traffic"])
p("C13","Startup refuses a key or storage that contradicts the log",
 "An instance starts only if its private key matches the configured log ID and the stored tree head is signed by that key and matched by the stored edge hash tiles and right-most data tile. If any of these is missing, truncated, altered or from another log, startup fails with an error, nothing is written to storage and no submission is answered.",
 ["inputs","fault_sequences","configurations"],"every single corruption (bit flips, truncations, deletions, swaps) of every object read at startup, every tree size, wrong keys and configurations",
 NT+"no test starts a log from damaged state.",
 [C,TR],[("log ID check",C+":LoadLog"),("TileHashReader verification of edge tiles against the STH",C+":LoadLog")],
 observe=["result of LoadLog","storage writes"])
p("C14","Filesystem storage replaces objects atomically",
 "With filesystem storage, a reader (another process, or a restart after a crash) sees at any moment, for any object, either the complete previous contents or the complete new contents, never an empty, truncated or mixed object. A write that fails part-way leaves the previous object in place and reports the failure.",
 ["schedules","crash_points","fault_sequences"],"every interleaving of readers with writers, every point at which a write can fail",
 NT+"the storage code has no tests.",
 [S,MS],[("FsStorage.Set",S)],observe=["file contents seen by concurrent readers and after failed writes"])
p("C15","Signatures are exactly RFC 6979 deterministic ECDSA",
 "For every P-256, P-384 and P-521 key and every digest and hash function, signing returns the DER encoding of exactly the signature RFC 6979 prescribes: it verifies under the public key, is the same every time and in every goroutine, and unsupported curves are refused with an error.",
 ["inputs","schedules"],"all keys (including very small and very large scalars), all digests (short, long, zero, beyond the group order), all supported curves, concurrent signing",
 "The existing tests check the RFC's sample vectors and verify a few random signatures, which fix neither the nonce for other keys and digests nor rare cases (short scalars, rejection sampling, digest longer or shorter than the order).",
 ["internal/rfc6979/ecdsa_ol.go",DS],[("rfc6979DRBG, randomPoint, hashToNat, encodeSignature","internal/rfc6979/ecdsa_ol.go")],observe=["return value of Sign"])
p("C16","Entry and extension encodings are exact, unambiguous and safe to decode",
 "For every log entry, encoding into a data tile and decoding returns the same entry and the remaining bytes, and the bytes (tile leaf, Merkle tree leaf, extensions) equal the Static CT / RFC 6962 wire format. Decoding arbitrary bytes never panics or reads past its input, and whatever the tile decoder accepts re-encodes to the same bytes; entries that do not fit the format (leaf indices outside 40 bits, over-long fields) are refused, never truncated.",
 ["inputs"],"all entries (types, sizes, chains, timestamps, indices up to 2^40-1) and all byte strings",
 NT+"the codec has no tests.",
 [T,X],[("AppendTileLeaf / ReadTileLeaf / MerkleTreeLeaf",T),("MarshalExtensions / ParseExtensions",X)],observe=["return values of the codec functions"])
p("C17","Checkpoints and tree heads verify, and nothing else does",
 "Every signed tree head and checkpoint the log produces verifies with an independent RFC 6962 / c2sp tlog-checkpoint verifier and carries exactly the given origin, size, root and timestamp. The checkpoint verifier accepts a note only if it carries a genuine signature by the given key (ECDSA or RSA) over exactly that tree head; any change to text, signature, key or name is rejected without panic, and checkpoint parsing and formatting are inverse.",
 ["inputs"],"all origins, sizes, timestamps, roots and keys; all mutations of a note; all texts",
 NT+"checkpoint code has no tests.",
 [CP,MI,DS],[("SignTreeHeadCheckpoint / NewRFC6962Verifier / ParseCheckpoint",CP),("SignTreeHead",MI)],observe=["return values of the signing, parsing and verification functions"])
p("C18","No data races under concurrent submission and monitoring",
 "With any number of concurrent submissions, resubmissions, monitor requests, flushes and restarts, no two goroutines of the system access the same memory without synchronisation when one of them writes.",
 ["schedules"],"every interleaving of request handlers, the sequencer, the uploader goroutines and monitor handlers",
 NT+"nothing concurrent runs in the tests and the race detector is not used.",
 [L,B,C,ML,MF],[("channels between stages",L),("errgroup uploads of tile buffers",L+":stageTwo")],observe=["Go race detector reports"])
p("C19","The hash index finds every entry, for every mask size and file history",
 "For every configured mask size, each index object holds complete records sorted by hash, lies under the prefix of the hashes it contains, and contains for every published entry a record with that entry's exact index; deduplication objects likewise carry the exact index and timestamp. Adding records never loses, duplicates or alters earlier ones, whatever the order and number of hashes that share an object, and submission and monitor sides agree on the location.",
 ["inputs","histories","configurations"],"every multiset of hashes and batch partition, every mask size, indices up to 2^40-1",
 NT+"PutRecordHashes and PutDedupeEntries are marked 'NEEDS unit testing' and have none.",
 [B,MF,MI],[("PutRecordHashes / PutDedupeEntries insertion",B),("KAnonHashPath",MI),("getIndexForHash",MF)],observe=["objects int/hashes/* and int/dedupe/* in storage","get-proof-by-hash answers"])
p("C20","The edge monitor gives the same answers as the monitor server",
 "For every query and every log, the edge-compute monitor answers the proof and entry endpoints exactly as the monitor server does, apart from its smaller limits on entries per answer, and for get-entries it returns a prefix of the same entries. It rejects write methods, unknown hosts and unknown paths, passes storage errors on as errors, and never answers with data fetched for a different host or object.",
 ["inputs","configurations","fault_sequences"],"every query, log size, backend cache state and backend failure",
 NT+"the edge entry point is only compiled, never run.",
 [FA,ML,MF,"cmd/fastly-monitor/main.go"],[("FastlyServe routing",FA),("FastlyStorage.Get caching and not-found mapping",FA)],observe=["responses written by FastlyServe"])
p("C21","Setup yields a valid empty log and never rolls an existing one back",
 "After setup with any bundle of root certificates, the log starts, get-roots lists exactly the bundle's roots, and get-sth serves a correctly signed head of the empty tree that monitors and consistency proofs accept. Every root the bundle lists is accepted as a trust anchor, and running setup again on a log that already has entries never replaces its published tree head with an older one.",
 ["inputs","configurations","histories"],"every root bundle (including roots with lenient-parse warnings and the production bundle), both storages, repeated setup",
 NT+"setup is only called by the docker integration tests with one root.",
 ["internal/ctsetup/main.go",C],[("uploadRoots / uploadConfig / uploadEmptySth","internal/ctsetup/main.go"),("root parsing",C+":LoadLog")],observe=["storage contents","LoadLog result","monitor answers"])
p("C22","The log works unchanged at every tree size up to 2^40",
 "Starting from storage holding a valid log of any size below 2^40, appending entries produces correct tiles at the correct paths, roots, index records, leaf-index extensions and proofs, including when a batch completes tiles at several levels or crosses a 2^8, 2^16, 2^24 or 2^32 boundary. Monitors serve correct proofs and entries at those sizes.",
 ["inputs","histories"],"all starting sizes (multiples of 256^k plus or minus a few, random sizes up to 2^40) and batch sizes",
 NT+"no test has a log with more than a few hundred entries.",
 [L,C,T,ML,MF],[("edge tiles across levels",L+":stageTwo"),("tile path encoding",T+":Path"),("40-bit index encodings",B)],observe=["objects written by appends at large sizes","monitor answers"])
p("C23","A healthy log makes progress for everyone and stays fresh when idle",
 "While storage works, every valid submission is eventually answered with an SCT, for any burst size and any flush interval, and distinct submissions get distinct indices that fill the log without gaps. Without submissions the log keeps publishing tree heads with advancing timestamps, and it keeps doing so during sustained load.",
 ["schedules","inputs","configurations"],"all burst sizes (around the batch limit and channel capacities), flush intervals, arrival patterns",
 NT+"batching and flushing are never exercised by runnable tests.",
 [L],[("stageOne batching and flush timer",L+":stageOne"),("stageTwo publishes for every flush",L+":stageTwo")],observe=["HTTP answers","sequence of published heads"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
