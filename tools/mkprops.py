import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","Reads return exactly the plaintext of the file",
"Every successful read through the proxy, whole or by byte range, returns exactly the bytes of the file's plaintext at that path, whatever other clients do at the same time and whatever faults the remote suffers. While nothing is wrong with the remote, opening and reading any regular file of the encrypted drive succeeds, for every file size including zero and for every supported drive format.",
["schedules","inputs","histories","configurations","fault_sequences"],
"for all trees, file sizes, drive formats (HKDF or not, raw or padded base64, AES-GCM or AES-SIV), all interleavings of concurrent clients and all sequences of remote faults and delays",
"No test calls the file tree, the handlers or the server at all; the crypto unit tests round-trip a few fixed sizes in one goroutine, so shared buffer pools, caches and in-flight sharing are never exercised.",
["filetree/filetree.go","filetree/decrypt.go","gocrypt/contentenc/content.go","gocrypt/contentenc/offsets.go","gocrypt/contentenc/bpool.go","requester/makerequest.go","requester/requester.go","handlers/decrypt.go","gocrypt/cryptocore/cryptocore.go"],
[("per-block authenticated decryption","gocrypt/contentenc/content.go"),("shared buffer pools returned only after copying","filetree/decrypt.go"),("result cache keyed by ciphertext path","requester/makerequest.go")],
["bytes returned by the SFTP read handler","bytes received by an SFTP client of the running server"])

p("C02","A successful directory listing is complete and exact",
"Whenever listing a directory succeeds, the entries a client collects from it are exactly the directory's entries, each once, with its plaintext name, its kind and its plaintext size, and none of the drive's internal files. A listing that could not be completed for any reason is reported as an error, never as a shorter listing; while nothing is wrong with the remote, listing any directory succeeds.",
["schedules","inputs","histories","fault_sequences"],
"for all directory contents (including empty directories, more entries than one reply holds, undecryptable strangers and internal files), all interleavings and all remote faults and delays",
"No test lists a directory through the tree or the server; the request layer tests list one fixed directory of four fakes.",
["filetree/filetree.go","filetree/fileinfo.go","handlers/decrypt.go","handlers/proxy.go","requester/readdir.go","gocrypt/nametransform/names.go","backend/provider.go"],
[("name decryption per directory IV","filetree/filetree.go"),("offset based paging of one snapshot","handlers/proxy.go")],
["entries returned by the SFTP list handler","entries received by an SFTP client of the running server"])

p("C03","Stat agrees with the listing and with what a read returns",
"Asking for the attributes of an existing path succeeds while the remote is healthy and gives the plaintext name, the kind of the entry and, for a regular file, exactly the number of bytes a read of it returns. Asking for the attributes of a path that does not exist is an error, and no history of other requests or faults changes either answer.",
["schedules","inputs","histories","fault_sequences"],
"for all paths (files, directories, the root, missing ones), any order of earlier requests from any clients, all interleavings and remote faults",
"No test calls stat on the tree, the handlers or the server.",
["filetree/filetree.go","filetree/fileinfo.go","filetree/fastcache.go","handlers/decrypt.go"],
[("path resolution with a path cache","filetree/filetree.go"),("ciphertext to plaintext size arithmetic","gocrypt/contentenc/offsets.go")],
["attributes returned by the SFTP stat handler"])

p("C04","Tampered or damaged ciphertext is never served as plaintext",
"If the remote returns file content that differs in any way from what was stored for that path, the client gets an error or the content that the drive format itself authenticates for those bytes, never anything else: no flipped, swapped, spliced, replayed from another file, torn or garbage bytes. One damaged file never affects what is returned for other files.",
["inputs","histories","fault_sequences","schedules"],
"for all corruptions (bit flips, truncation at any length, block swaps and duplication, splices from other files, zeroed ranges, header damage), at rest or in one reply, under all interleavings",
"The tests decrypt only ciphertext they have just produced; no test feeds damaged ciphertext through the file path.",
["gocrypt/contentenc/content.go","gocrypt/contentenc/file_header.go","filetree/decrypt.go","gocrypt/nametransform/names.go","gocrypt/siv_aead/siv_aead.go"],
[("block number and file id as associated data","gocrypt/contentenc/content.go"),("header validation","gocrypt/contentenc/file_header.go")],
["bytes returned by the SFTP read handler, compared with an independent decoder"])

p("C05","Concurrent requests for one object share one remote fetch",
"At no moment are two fetches of the same remote file, of the same remote directory, or two decryptions of the same encrypted name in flight, however many clients ask for it, and once one has succeeded the object is not fetched again. All requests sharing a fetch get its outcome.",
["schedules","histories","fault_sequences"],
"for all sets of concurrent requests over any number of workers, all interleavings, all fault outcomes of the shared fetch",
"The tests start five goroutines for one key under the real scheduler with an instantaneous backend, so overlap inside the fetch practically never happens.",
["requester/makerequest.go","requester/requester.go","requester/synccache.go"],
[("placeholder inserted atomically before the fetch","requester/requester.go")],
["calls made to the backend and to the name decrypter"],None,
[("placeholder","entry naming the worker that is fetching the key","requester/requester.go")])

p("C06","A failed remote request does no lasting or collateral damage",
"An error from the remote is reported only to requests that overlapped the failing fetch: it is never remembered, never turned into data, and never makes a later request, or a request for another object, fail. Partial data that arrived together with an error is never served or cached.",
["schedules","histories","fault_sequences"],
"for all sequences of transient failures on any objects, any overlap of requests with them, all interleavings",
"The tests fail one key permanently and one request at a time; the retry loop, the removal of remembered errors and their races with new fetches are not reached.",
["requester/makerequest.go","requester/requester.go","requester/synccache.go","filetree/filetree.go"],
[("remembered errors are dropped and the request retried","requester/makerequest.go")],
["result of every request against the faults injected during its lifetime"])

p("C07","Every request is answered and a stall never wedges the proxy",
"Every request terminates once the remote calls it depends on have terminated, and when slowness or stalls of any length end, every later request for any object succeeds within a bounded time. No worker, object or client is lost for good because some request once took too long.",
["schedules","fault_sequences","histories"],
"for all delays of remote calls including ones longer than the queue time limit, clock stalls at any instant, any number of clients and workers, all interleavings",
"The tests have no slow backend and no simulated clock; the 20 second path is never taken.",
["requester/makerequest.go","requester/requester.go"],
[("time limit on the work queue","requester/makerequest.go"),("ticket hand-over from worker to requester","requester/requester.go")],
["requests outstanding at quiescence; answers after the last fault"])

p("C08","Remote connections are exclusive, reused, bounded and not leaked",
"No two remote operations that overlap in time use the same remote connection, a healthy connection is reused for later operations, and at quiescence the proxy holds no more than its fixed number of idle connections and no open remote file or directory handles on them. Every connection beyond that, or found broken, has been closed.",
["schedules","histories","fault_sequences"],
"for all numbers of concurrent operations, below and above the pool size, mixes of successes and failures, all interleavings",
"The backend package has no tests.",
["backend/pool.go","backend/provider.go"],
[("connection pool","backend/pool.go")],
["operations and handles per connection as seen by the remote server"])

p("C09","An interrupted transfer is never reported as complete",
"If the connection, the session or the remote server fails at any point of a remote read, listing or stat, the operation either returns the complete and correct result or an error. Truncated content, a truncated listing or mixed-up replies are never returned as success nor remembered for later requests.",
["fault_sequences","crash_points","schedules"],
"for every byte position at which a connection can be cut, session loss, remote errors at any protocol message, short reads, all interleavings",
"The backend package has no tests and the fakes above it return whole results atomically.",
["backend/provider.go","backend/pool.go","requester/requester.go"],
[("errors of read, close and listing are propagated","backend/provider.go")],
["results of the backend operations against the remote tree"])

p("C10","Service resumes after the remote fails and comes back",
"After the remote server crashes, restarts, refuses connections, drops its sessions or is partitioned away, and is then reachable again, a bounded number of attempts per connection held is enough for every request to succeed again. Broken connections are discarded, not handed out for ever, and nothing has to be restarted.",
["fault_sequences","crash_points","schedules","histories"],
"for all sequences of outages (reset, silent close, refused dials, loss of the SFTP session under a live connection), at any instant, any number of pooled connections",
"The backend package has no tests; no test has a connection that can break.",
["backend/provider.go","backend/pool.go"],
[("liveness probe before a connection returns to the pool","backend/provider.go")],
["requests after the last fault"])

p("C11","The remote drive is never modified",
"Whatever requests clients send, the remote receives no operation that creates, writes, truncates, renames, links, removes or changes attributes of anything. Every mutating client request is answered with an error and changes nothing that later reads and listings show.",
["inputs","histories","schedules","fault_sequences"],
"for all sequences of client requests of every kind and flag combination, from concurrent clients, under remote faults",
"No test drives the request handlers.",
["handlers/decrypt.go","backend/provider.go","main.go"],
[("mutating requests refused","handlers/decrypt.go"),("read only backend interface","filetree/filetree.go")],
["operations received by the remote server; replies to mutating requests"])

p("C12","The remote sees only ciphertext names inside the configured root",
"Every path the proxy sends to the remote lies inside the configured root and consists of the root followed by names the remote itself listed there, or the drive's own configuration and IV files. No plaintext name, plaintext content, passphrase or key, whole or in part, is ever sent to the remote, whatever path a client asks for.",
["inputs","histories","schedules"],
"for all client paths (dot-dot, doubled slashes, ciphertext names, missing names, absolute remote paths), all listings a remote may present, all interleavings",
"No test observes what reaches the remote.",
["filetree/filetree.go","gocrypt/nametransform/names.go","handlers/decrypt.go"],
[("paths resolved only through decrypted listings","filetree/filetree.go"),("names with separators or dots rejected","gocrypt/nametransform/names.go")],
["paths and bytes received by the remote"])

p("C13","Nothing a remote or a client sends can bring the proxy down",
"Once serving, the process never terminates or panics because of anything the remote returns or a client sends, and the failure or abrupt departure of one client leaves the requests of all other clients unaffected.",
["inputs","fault_sequences","schedules","histories"],
"for all contents of files, directory IVs, names and listings a hostile or damaged remote can return, all well-formed protocol messages clients can send, disconnects at any point, all interleavings",
"Tests use only well-formed data from their own encoder and never run the server.",
["filetree/decrypt.go","filetree/filetree.go","gocrypt/nametransform/names.go","gocrypt/contentenc/content.go","main.go","handlers/decrypt.go"],
[("validation before use of remote data","filetree/filetree.go")],
["process exit; results of the other clients"])

p("C14","Concurrent use is free of data races",
"No two goroutines of the proxy ever access the same memory concurrently without synchronisation when at least one writes it, for any combination of concurrent client requests, connections and faults.",
["schedules","histories"],
"for all interleavings of concurrent requests through server, handlers, tree, caches, request layer, connection pool and crypto",
"The suite is not run with a race detector and its concurrency covers only the request layer with one key.",
["requester/synccache.go","requester/requester.go","filetree/fastcache.go","gocrypt/contentenc/bpool.go","gocrypt/cryptocore/randprefetch.go","backend/pool.go"],
[("locks around shared maps and lists","requester/synccache.go"),("path cache lock","filetree/fastcache.go")],
["happens-before race detection on every access while the simulator drives the schedule"])

p("C15","The path cache is a linearizable bounded LRU map",
"Concurrent lookups, stores and clears of the directory path cache behave as if executed one at a time on a map of fixed capacity that evicts exactly the least recently used entry, where both finding and storing an entry count as use. It never returns a mapping that was not the last one stored for that path and never loses an entry other than by eviction or clearing.",
["schedules","histories","inputs"],
"for all operation sequences by concurrent callers, all capacities, all interleavings",
"The tests run short fixed sequences with capacity three in one goroutine.",
["filetree/fastcache.go"],
[("hash map plus doubly linked recency list under one lock","filetree/fastcache.go")],
["return values of concurrent operations checked against a sequential LRU map"])

p("C16","Only authenticated clients are served, and only by the right remote",
"A client obtains file service only after presenting exactly the configured user name and password, whatever other clients are doing, and the proxy talks to a remote only if its host key matches the known hosts file. Clients that fail, stall or never finish authenticating do not delay or prevent service to others.",
["inputs","schedules","fault_sequences","histories"],
"for all credentials and authentication sequences, clients that connect and say nothing, slow or broken handshakes, changed remote host keys, all interleavings",
"There is no test of the server.",
["main.go","config/config.go","backend/pool.go"],
[("password callback","main.go"),("known hosts callback","main.go"),("one goroutine per connection","main.go")],
["which clients obtain an SFTP session; which remotes receive an SFTP session"])

p("C17","Start-up fails closed",
"The proxy begins to accept clients only when all its settings are filled in and the drive's configuration was read intact, is of a supported format with acceptable key derivation parameters, and was unlocked with the right passphrase; otherwise it stops with an error. No failure of the local disk or the remote during start-up leads to serving, and no copy of the drive configuration is left behind on the local disk.",
["inputs","configurations","fault_sequences"],
"for all passphrases, all damaged, truncated, foreign or weakened configuration files, all failures of local and remote I/O during start-up",
"Tests load a few intact configuration files and one wrong password, never through start-up and never with faults.",
["main.go","filetree/filetree.go","gocrypt/configfile/config_file.go","gocrypt/configfile/scrypt.go","config/config.go"],
[("master key unlock is authenticated","gocrypt/configfile/config_file.go"),("parameter validation","gocrypt/configfile/scrypt.go")],
["whether the server starts listening; files left in the temporary directory"])

p("C18","Writing the drive configuration is crash-atomic",
"A crash at any point while a drive configuration is created or replaced leaves, after restart, either the complete previous configuration (or none, on creation) or the complete new one under its name, each unlockable with its own passphrase. When the write reports an error the previous configuration is still in place, and when it reports success the new one is.",
["crash_points","fault_sequences"],
"for every crash point between file operations, every subset of not yet synchronised data and metadata that may survive, every failing, short or refused file operation",
"The tests write a configuration once and read it back; no crash, no failing disk.",
["gocrypt/configfile/config_file.go"],
[("write to temporary file, sync, rename","gocrypt/configfile/config_file.go")],
["contents of the directory after a simulated crash"])

p("C19","Concurrent encryption never repeats a nonce and always round-trips",
"Any number of concurrent encryptions never use the same nonce twice for one key, and each output decrypts to exactly its input under its own block number and file identity, regardless of sizes, parallel splitting and reuse of buffers. A failure of the randomness source is never papered over with predictable or repeated nonces.",
["schedules","histories","inputs"],
"for all numbers of concurrent callers and block counts, all interleavings with the randomness prefetcher",
"The tests read nonces and encrypt from one goroutine at a time and do not compare nonces across callers.",
["gocrypt/cryptocore/randprefetch.go","gocrypt/cryptocore/nonce.go","gocrypt/contentenc/content.go","gocrypt/contentenc/bpool.go"],
[("prefetch buffer under a lock, refilled by one goroutine","gocrypt/cryptocore/randprefetch.go"),("parallel split of large writes","gocrypt/contentenc/content.go")],
["nonces and ciphertext of concurrent encryptions, decoded independently"])

p("C20","Padding, base64 and size arithmetic are exact inverses",
"Encrypting then decrypting any legal name, and converting any plaintext size to a ciphertext size and back, gives the original value.",
["inputs"],
"for all names of 1 to 255 bytes and all sizes",
"Tests cover a handful of values.",
["gocrypt/nametransform/pad16.go","gocrypt/nametransform/names.go","gocrypt/contentenc/offsets.go"],
[("PKCS#7 padding","gocrypt/nametransform/pad16.go")],
["return values"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
