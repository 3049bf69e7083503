#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
T = "src/core/transport/"
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Only authenticated packets have any effect",
  "Bytes received from the network influence nothing on a node - no reassembly state, no decryption, no delivered message - unless the node's authenticator has accepted that very packet. A keyed authenticator accepts a packet only if the keyed hash, under the node's own key and the algorithm named by the signature, verifies. Every message a node acts on has passed through this gate.",
  ["inputs", "histories", "configurations"], "all byte strings received, in any order, over UDP and TCP, with every authenticator",
  "Tests feed one bad signature with one authenticator; a bypass for particular indices, sizes, packet kinds, variants or transports is never sampled.",
  [T + "wire/input/mod.rs", T + "wire/input/decoder.rs", T + "wire/udp.rs", T + "wire/tcp.rs", T + "auth/impls.rs", T + "auth/digest.rs", T + "auth/mod.rs", T + "auth/split.rs"],
  [("verify before reassembly", T + "wire/input/mod.rs InputProcessor::process"), ("keyed hash comparison", T + "auth/mod.rs verify_sha256/verify_sha512"), ("signature algorithm dispatch", T + "auth/digest.rs Digest::verify")],
  [("decoder.packet_groups", "packets accepted so far", T + "wire/input/decoder.rs")], ["InboundWire::process", "Verifier::verify"])
p("C02", "Signatures cover the whole packet",
  "The bytes a sender signs and the bytes a receiver verifies are the same function of the packet, and that function covers every field of the packet other than the signature itself: group id, position, whether it is final, the encryption details with the nonce, and all of the data. No field of an accepted packet can be altered in transit.",
  ["inputs"], "all packets and all alterations of them",
  "Tests tamper with one field of one packet; a field left out of the signed content is only visible to the alteration of exactly that field.",
  [T + "wire/packet.rs", T + "wire/input/mod.rs", T + "wire/output/encoder.rs", T + "auth/mod.rs"],
  [("content for signature", T + "wire/packet.rs Packet::content_for_signature"), ("signing", T + "wire/output/encoder.rs Encoder::make_new_packet")], observe=["Signer::sign", "Verifier::verify"])
p("C03", "Nothing crosses the wire unencrypted or undecrypted",
  "Every byte a node writes to a socket is part of a signed packet whose data comes from the configured encrypter, and a failure to encrypt sends nothing. Every message a node delivers is the result of the configured decrypter applied to the reassembled data, whatever the packet claims about its encryption; a failure to decrypt delivers nothing.",
  ["inputs", "configurations", "fault_sequences"], "all messages and packets, all ciphers, encrypt and decrypt failures",
  "Tests check single round trips with one or two ciphers; a plaintext fallback or downgrade needs a particular size, failure or packet header.",
  [T + "wire/output/mod.rs", T + "wire/input/mod.rs", T + "wire/mod.rs", T + "wire/udp.rs", T + "wire/tcp.rs", T + "crypto/split.rs", T + "crypto/closure.rs", "src/core/event/udp.rs", "src/core/event/tcp.rs"],
  [("encrypt, encode, sign", T + "wire/output/mod.rs OutputProcessor::process"), ("decode, decrypt", T + "wire/input/mod.rs decode_and_decrypt"), ("halves delegate", T + "crypto/split.rs")], observe=["SendHalf::send_to", "WriteHalf::write", "InboundWire::process"])
p("C04", "Nonces are fresh, random, complete and travel with the message",
  "Each message is encrypted under associated data newly requested from the encrypter for that message, and exactly the associated data used to encrypt is what the message's packets carry and what the receiver decrypts with, in whatever order its packets arrive. Every authenticated cipher offered draws a new random nonce of its own size for each request, and refuses to encrypt or decrypt when the nonce is missing or of another size.",
  ["inputs", "histories", "configurations"], "all messages of a node's life, all packet arrival orders, all six ciphers",
  "Tests compare a couple of nonces and the missing-nonce case of some ciphers; reuse across messages, arrival orders and cipher siblings are not covered.",
  [T + "crypto/nonce/mod.rs", T + "crypto/mod.rs", T + "crypto/aes/", T + "wire/output/mod.rs", T + "wire/input/mod.rs", T + "wire/packet.rs"],
  [("nonce generation", T + "crypto/nonce/mod.rs"), ("nonce validation in each cipher", T + "crypto/aes/*.rs"), ("nonce of the final packet", T + "wire/input/decoder.rs Decoder::nonce")], observe=["Encrypter::encrypt", "Decrypter::decrypt"])
p("C05", "A nonce cache never lets a nonce be used twice",
  "With nonce caching enabled, a nonce that is still in the cache is refused for encryption as well as for decryption, before the underlying cipher is asked; the check and the registration are one atomic step, so of two concurrent uses of a nonce at most one succeeds. All clones of a caching bicrypter share one cache, of exactly the configured capacity.",
  ["schedules", "inputs", "histories"], "all interleavings of encryptions and decryptions on clones, all nonces",
  "Tests use the cache from a single thread; a check-then-act race never shows up in them.",
  [T + "crypto/nonce/cache.rs"], [("check and register under one guard", T + "crypto/nonce/cache.rs register_nonce")],
  [("cache", "nonces used so far", T + "crypto/nonce/cache.rs")], ["NonceCacheBicrypter::encrypt", "NonceCacheBicrypter::decrypt"])
p("C06", "Messages are reassembled completely and in order, or not at all",
  "A message is delivered only once every position from the first to the final packet of its group has been received, and its bytes are the packets' data in position order, each exactly once, regardless of arrival order. A packet whose position is already filled, a second final packet, and any packet that would lie beyond the final position are rejected with an error and change nothing.",
  ["inputs", "histories"], "all sets and orders of packets, including hostile ones",
  "Tests feed a few orders; the acceptance condition must hold for every multiset of indices and every arrival order.",
  [T + "wire/input/decoder.rs", T + "wire/input/mod.rs"],
  [("rejections", T + "wire/input/decoder.rs Decoder::add_packet"), ("completeness", T + "wire/input/decoder.rs Decoder::verify"), ("ordering", T + "wire/input/decoder.rs Decoder::decode")],
  [("packet_groups", "group id to packets by position and final position", T + "wire/input/decoder.rs")], ["InputProcessor::process"])
p("C07", "Every packet fits the transmission size and the packets partition the message",
  "No packet larger than the configured transmission size is ever produced; when a message cannot be packetised within it, sending fails with an error. The packets of one message share one id chosen for it, are numbered consecutively from zero, carry consecutive non-overlapping pieces of the encrypted data, and exactly the piece that completes the data is marked final.",
  ["inputs", "configurations"], "all message lengths, transmission sizes, signatures and nonces",
  "The serialized size depends on random signature and nonce bytes; tests use fixed ones and a few lengths.",
  [T + "wire/output/encoder.rs", T + "wire/output/mod.rs", T + "wire/mod.rs", T + "net/mod.rs"],
  [("size check and split", T + "wire/output/encoder.rs Encoder::encode")], observe=["OutputProcessor::process"])
p("C08", "Message traffic does not grow a node's memory without bound",
  "A group of packets is dropped as soon as its message is complete, whether or not it could be decrypted, and expired groups are dropped before any further packet is stored; a group that is neither complete nor expired stays. Nothing that is retained on the sending side is keyed by a per-message value such as a nonce or message id.",
  ["histories", "inputs", "fault_sequences"], "all message histories including incomplete, failing and repeated ones",
  "Leaks need long histories or a failing message; tests run a handful of successful ones.",
  [T + "wire/input/mod.rs", T + "wire/input/decoder.rs", T + "wire/output/encoder.rs", "src/utils/ttl.rs"],
  [("removal", T + "wire/input/mod.rs InputProcessor::process"), ("expiry", T + "wire/input/decoder.rs Decoder::remove_expired, src/utils/ttl.rs has_expired"), ("size caches", T + "wire/output/encoder.rs")])
p("C09", "Nothing a peer sends can panic a node",
  "Whatever bytes, packets, messages, requests or replies arrive, no code that a node runs on them can panic: the receive, verify, reassemble, decrypt, decode, dispatch, handle and reply paths of server and client use no operation that aborts on a value the peer controls. Malformed input is answered with an error or discarded.",
  ["inputs", "histories"], "all byte strings and all message histories",
  "A crash needs one particular hostile value (such as the largest index); tests only send plausible ones.",
  [T, "src/core/event/", "src/core/server/", "src/core/client/", "src/core/msg/", "src/utils/"],
  [("error results instead of panics", "all of src/core")])
p("C10", "Failures of one message do not stop a node",
  "A message that cannot be received, decrypted, decoded, executed, answered or sent is dropped with at most a log entry, and the node's loops go on with the next one; they end only when their channel is closed, the socket itself fails for good, or the stream ends. The end of a TCP stream does end its receive loop rather than spinning.",
  ["fault_sequences", "histories", "schedules"], "all sequences of failing and succeeding messages on all loops",
  "Tests drive only successful traffic; a loop that exits (or spins) after one failure needs a fault at that point.",
  ["src/core/event/udp.rs", "src/core/event/tcp.rs", "src/core/event/mod.rs", "src/core/server/mod.rs", "src/core/client/mod.rs", "src/core/client/inbound.rs", T + "wire/tcp.rs"],
  [("loops", "src/core/event/*.rs, src/core/server/mod.rs, src/core/client/mod.rs"), ("error classification", "src/core/event/mod.rs process_inbound")])
p("C11", "Every request is answered by its own handler with its own kind of reply",
  "Every kind of request reaches the operation of that name, its success is reported as the reply kind that belongs to it, carrying that operation's result, and its failure as an error reply carrying that operation's error. No request kind is left without a route, and only custom requests without a handler and forward requests are not answered.",
  ["inputs", "programs"], "all request kinds, success and failure, at top level and nested",
  "The table has one entry per kind and two outcomes each; tests cover a few entries.",
  ["src/core/server/action/mod.rs", "src/core/server/action/handler/", "src/core/msg/content/reply/", "src/core/msg/content/request/mod.rs"],
  [("route table", "src/core/server/action/mod.rs route_and_execute")], observe=["Executor::execute"])
p("C12", "A reply goes to its sender and names its request",
  "Every reply is sent on the channel the request came in on, addressed to the request's origin, with the request's header as its parent header and with the reply computed for that request; at most one reply is sent per request. This holds for the datagram and the stream transport alike, on the path from socket to handler and back.",
  ["schedules", "inputs", "histories"], "all interleavings of requests from any number of peers, both transports",
  "Tests have one client; misaddressed or mislabelled replies need several peers or the other transport.",
  ["src/core/server/action/mod.rs", "src/core/server/mod.rs", "src/core/event/", "src/core/msg/mod.rs", T + "wire/udp.rs"],
  [("Executor::respond", "src/core/server/action/mod.rs"), ("origin address", "src/core/event/mod.rs process_inbound")])
p("C13", "An ask gets the reply to its own request, once, or an error in time",
  "Before a client sends a request it registers interest under that request's id; a reply is handed only to the ask whose request id it names, at most once, and unknown or repeated replies are ignored. An ask ends with its reply, with the server's generic error as a failure, with a send error, or with a timeout after the client's configured timeout, and leaves no registration behind.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of replies, timeouts, duplicates and send failures",
  "Tests see prompt single replies; late, duplicate, missing and concurrent replies are not sampled.",
  ["src/core/client/connected.rs", "src/core/client/mod.rs", "src/utils/callback.rs"],
  [("callback registration", "src/core/client/connected.rs ConnectedClient::ask"), ("dispatch by parent id", "src/core/client/mod.rs event_loop"), ("one-shot callbacks", "src/utils/callback.rs")],
  [("callbacks", "asks waiting for a reply", "src/utils/callback.rs")])
p("C14", "Each typed ask sends its request and accepts only its reply",
  "Each typed client operation sends the request kind it is named for, filled from its own arguments, and succeeds only with the reply kind that belongs to that request, returning that reply's content. Every other reply becomes an error: a remote i/o error keeps its kind, a changed file signature is reported as such, anything else as an invalid response; operations that change a file's signature store the new signature in the caller's file handle, and only on success.",
  ["inputs", "histories"], "all typed operations against all reply kinds",
  "There is one entry per operation and dozens of possible replies; tests answer a few operations with the expected reply.",
  ["src/core/client/connected.rs", "src/core/client/error.rs", "src/core/client/file.rs", "src/core/client/proc.rs"],
  [("ask_* operations", "src/core/client/connected.rs"), ("error mapping", "src/core/client/connected.rs make_file_ask_error/make_exec_ask_error/make_ask_error")])
p("C15", "Nesting of sequences and batches is bounded",
  "Executing a request nested in sequences or batches consumes one level of a finite depth limit that starts from the server's configured maximum; at the limit the nested request is not executed and is answered by an error. No request, however deeply nested, makes the server recurse beyond the limit.",
  ["inputs", "programs"], "all nestings of sequences and batches",
  "Tests use one nesting shape at one depth; a path that does not decrease the limit needs another.",
  ["src/core/server/action/mod.rs", "src/core/server/mod.rs"], [("max_depth", "src/core/server/action/mod.rs route_and_execute")])
p("C16", "A sequence runs in order and stops at the first failure",
  "The operations of a sequence run one at a time in the given order, the first as given and each later one after being transformed with the immediately preceding reply; once a reply is an error or a transformation fails, no later operation is executed, and each of them is answered by an error. The reply holds exactly one result per operation, in order.",
  ["inputs", "programs", "fault_sequences"], "all sequences, with failures at any position",
  "Tests use one or two short sequences with one failure position.",
  ["src/core/server/action/mod.rs", "src/core/msg/content/request/transform.rs"], [("sequence execution", "src/core/server/action/mod.rs"), ("transformation", "src/core/msg/content/request/transform.rs")])
p("C17", "A batch executes every operation and answers each in its position",
  "Every operation of a batch is executed exactly once and concurrently with the others, whatever happens to the others, and the reply holds exactly one result per operation in the order of the request. A nested operation that has no reply, or that crashes, takes up its position with an error, so that the reply as a whole can always be sent.",
  ["inputs", "schedules", "fault_sequences"], "all batches and schedules, with failing, crashing and unanswered members",
  "Tests use a batch of prompt successes; order and failure isolation depend on the schedule and on which member fails.",
  ["src/core/server/action/mod.rs"], [("batch execution", "src/core/server/action/mod.rs")])
p("C18", "Wire names are unambiguous and error kinds survive the wire",
  "No two alternatives of any message type share a wire name, and no request or reply that a node may send is unserializable; every name an encoder writes for an alternative or field is read back as that alternative or field. An i/o error keeps its kind, os code and description. Encoding and decoding of i/o error kinds are inverse to each other for every kind in the table, and unknown kinds decode to the catch-all.",
  ["inputs", "programs"], "all alternatives of all message enums, all error kinds",
  "Tests round-trip a few values; two alternatives sharing a name or an asymmetric entry is only visible for exactly those.",
  ["src/core/msg/", "src/utils/serializers/error_kind.rs", "src/utils/serializers/io_error.rs"], [("serde names", "src/core/msg/content"), ("kind tables", "src/utils/serializers/error_kind.rs")])
p("C19", "An outdated file signature never touches the file",
  "An operation on an open file that presents a signature other than the file's current one fails with a signature mismatch and has no effect on the file, its path, its position or its signature. Renaming, removing or writing a file gives it a new random signature, a write already from the moment the contents may have changed; reading leaves it unchanged.",
  ["inputs", "histories", "fault_sequences"], "all operation histories on an open file by several clients, with i/o failures at any step",
  "Tests present one wrong signature to each operation; partial failures and the order of effect and signature change are not sampled.",
  ["src/core/server/fs/file.rs", "src/core/server/fs/mod.rs", "src/core/server/action/handler/fs.rs"], [("signature barrier", "src/core/server/fs/file.rs LocalFile::*, src/core/server/fs/mod.rs close_file")],
  [("sig", "current signature of an open file", "src/core/server/fs/file.rs")])
p("C20", "Path operations never disturb open files",
  "Renaming or removing a directory or an unopened file by path is refused, before anything on disk changes, when the path is that of an open file or of a directory containing one at any depth, however the path is spelled. Open files are tracked under their resolved path, also after they have been renamed.",
  ["inputs", "histories"], "all paths (relative, symbolic, nested) and all sets of open files",
  "Tests use one canonical path per operation; other spellings and histories with renames are not covered.",
  ["src/core/server/fs/mod.rs", "src/core/server/fs/file.rs"], [("open file check", "src/core/server/fs/mod.rs check_no_open_files"), ("path resolution", "src/core/server/fs/mod.rs clean_path")])
p("C21", "Opening a file grants what was asked and never takes away",
  "A file is created only if asked, is never truncated by opening it, and is opened with exactly the access asked for. Opening a file that is already open returns the same identity and signature, reuses the open file when it already grants the access asked for, and otherwise reopens it with the union of the existing and the requested access.",
  ["inputs", "histories"], "all combinations of create, read and write over any history of opens",
  "Tests cover a few of the combinations of existing and requested access.",
  ["src/core/server/fs/mod.rs", "src/core/server/fs/file.rs", "src/core/server/action/handler/fs.rs"], [("permission merge", "src/core/server/fs/mod.rs open_file"), ("open flags", "src/core/server/fs/file.rs LocalFile::open")])
p("C22", "Idle files and processes are evicted, used ones are not",
  "Every request that uses an open file or a process renews its time to live, with the lifetime configured for it (the shorter one once the process is known to be dead). Cleanup closes exactly those files and kills exactly those processes whose own lifetime has expired, together with their bookkeeping, and leaves all others alone.",
  ["histories", "schedules"], "all request histories and all points at which cleanup runs",
  "Tests evict one expired and one fresh entry; which requests renew which lifetime is not covered.",
  ["src/core/server/state.rs", "src/core/server/action/handler/fs.rs", "src/core/server/action/handler/proc.rs", "src/utils/ttl.rs", "src/core/server/mod.rs"], [("touch", "handlers"), ("evict", "src/core/server/state.rs evict_files/evict_procs")],
  [("file_ids, proc_ids", "lifetimes", "src/core/server/state.rs")])
p("C23", "Finished files and processes are released",
  "After a file is closed or removed, or a process killed, successfully, the server holds neither the file or process nor any bookkeeping for it, so its id is unknown from then on; when the operation fails on the file, the file stays open. A file or process is never forgotten while it is still open or running, except by closing or killing it.",
  ["histories", "fault_sequences"], "all histories of open, close, remove, exec and kill with failures at any step",
  "Tests check one successful operation each; leftovers need the failure paths or longer histories.",
  ["src/core/server/action/handler/fs.rs", "src/core/server/action/handler/proc.rs", "src/core/server/fs/mod.rs", "src/core/server/state.rs"], [("release", "handlers close_file, remove_file, kill_proc")])
p("C24", "Processes are started as asked, never outlive the server, and report truthfully",
  "A process is started with exactly the command, arguments, directory and pipes asked for, with everything it writes to its piped outputs collected for later reads, and is killed when the server drops it; a stream that was not piped is an error to use. Killing a process kills it and waits for it, and its status is reported as finished, with its own exit code and success only if it exited successfully, if and only if it has been observed to have ended.",
  ["inputs", "histories", "schedules"], "all process requests and lifetimes",
  "Tests run a few well-behaved programs; option combinations and failing programs are not covered.",
  ["src/core/server/action/handler/proc.rs", "src/core/server/proc.rs"], [("spawn", "src/core/server/action/handler/proc.rs exec_proc"), ("output collection", "src/core/server/proc.rs LocalProc::spawn"), ("status", "src/core/server/proc.rs LocalProc::exit_status")])
p("C25", "No two tasks can deadlock on the server's locks",
  "All code acquires the locks of a node in one consistent order and never acquires a lock it already holds, so no interleaving of requests, cleanup and debugging can deadlock.",
  ["schedules"], "all interleavings of all tasks",
  "A deadlock needs two tasks to interleave between two acquisitions; tests run requests one at a time.",
  ["src/core/server/", "src/core/client/", "src/core/event/", T + "crypto/nonce/cache.rs"], [("lock order", "src/core/server/state.rs, handlers")])
p("C26", "No lock is held while waiting for a peer or a process",
  "No task holds a lock shared with other tasks while it waits for something that need not happen: a message on a channel, a socket, a timer, a child process or its pipes. (Waiting for the local file system is permitted.)",
  ["schedules", "fault_sequences"], "all schedules and all peers and processes that never respond",
  "Tests use responsive peers and processes; the stall needs one that does not respond while another request arrives.",
  ["src/core/server/", "src/core/client/", "src/core/event/"], [("lock scopes", "handlers, event loops")])
p("C27", "Cleanup runs for as long as the server does",
  "Every listening server, on every transport, starts a cleanup task on its own state, which in every period until shutdown evicts both files and processes, waits the configured interval between rounds, and ends after shutdown. The server's lifetimes are the configured ones and, where none is configured, the documented defaults. A server that fails to listen leaves no cleanup task behind.",
  ["configurations", "histories"], "all transports and configurations, all histories",
  "Tests run the loop for a few milliseconds in isolation.",
  ["src/core/server/mod.rs", "src/core/server/state.rs", "src/core/server/listening.rs"], [("cleanup loop", "src/core/server/mod.rs cleanup_loop")])
p("C28", "A configured cipher or authenticator is always the one in force",
  "The command line never runs with encryption or authentication requested but without its key, or with a key of the wrong size: client and server refuse before any network use. Every cipher and authenticator that can be selected, in every combination, is supported by both client and server, and is constructed as exactly the one selected, with the given key.",
  ["configurations"], "all combinations of cipher, authenticator, key presence and key size",
  "Tests do not run the command line at all.",
  ["src/cli/mod.rs", "src/cli/builder/mod.rs", "src/cli/builder/auth.rs", "src/cli/builder/crypto.rs", T + "crypto/aes/", T + "crypto/key.rs"], [("validation", "src/cli/mod.rs validate_opts"), ("construction", "src/cli/builder/*.rs"), ("pairing", "src/cli/builder/mod.rs start_client/start_server")])
p("C29", "Command-line options and arguments take effect where they belong",
  "Every network, lifetime, buffer and directory option given on the command line reaches exactly the setting of the client or server it is documented for. Every client subcommand performs the operation it is named for with its own arguments in their documented roles, and reports that operation's reply in the format and to the place asked for; output redirected to a file is appended and complete when the command ends. `exec` and `reattach-exec` forward the process's output, and stdin only if wanted, until it has exited and the time for lingering output has passed. `schema` describes the type it is given.",
  ["configurations", "inputs"], "all options and subcommands",
  "Tests do not run the command line at all.",
  ["src/cli/mod.rs", "src/cli/builder/mod.rs", "src/cli/opts/"], [("builder calls", "src/cli/builder/mod.rs"), ("subcommands", "src/cli/mod.rs run_client")])
p("C30", "Operations act on exactly the paths, ids and contents requested",
  "Each file, directory and process request takes effect only on the paths, ids, options and contents it names, each in its own role (source and destination, read and write, contents in full), and its reply reports the id, signature, path and contents of that same object. Directory removal is recursive only if asked, and creation includes parents only if asked.",
  ["inputs"], "all requests and argument values",
  "Tests use a few argument values, often symmetrical ones that hide an exchange of roles.",
  ["src/core/server/action/handler/", "src/core/server/fs/"], [("handlers", "src/core/server/action/handler/*.rs"), ("file system layer", "src/core/server/fs/*.rs")])
# ---- not applicable to the technique
p("C31", "Ciphers and keyed hashes deliver what they promise",
  "Decrypting what was encrypted under the same key and nonce returns the original for every length, and no ciphertext or signature can be forged without the key.",
  ["inputs"], "all keys, nonces and messages", "Cryptographic strength and algebraic inverses are not observable on samples.",
  [T + "crypto/aes/", T + "auth/mod.rs"], [("external cipher crates", "aes-gcm, aes-gcm-siv, aes-siv, hmac")])
p("C32", "Timeouts and lifetimes elapse on time",
  "An ask ends within its timeout, and idle resources are gone within one lifetime plus one cleanup period, on the wall clock.",
  ["schedules"], "all schedules and clock readings", "Depends on the scheduler and the clock.",
  ["src/core/client/connected.rs", "src/core/server/mod.rs"], [("timers", "tokio::time")])
p("C33", "All process output is eventually readable, in order",
  "Everything a process writes to a piped stream is returned by later reads of that stream, in order and without loss or duplication, however reads and writes interleave.",
  ["schedules", "histories"], "all interleavings of process writes and client reads", "Depends on the kernel's pipe contents over time.",
  ["src/core/server/proc.rs"], [("collection task", "src/core/server/proc.rs LocalProc::spawn")])
p("C34", "Messages survive encoding and decoding unchanged",
  "Decoding an encoded message yields an equal message, for every message and every supported text format.",
  ["inputs"], "all message values", "The value space is unbounded.",
  ["src/core/msg/", "src/cli/format.rs"], [("serde implementations", "serde_cbor, serde_json, serde-lexpr")])
p("C35", "Transformation rules select and replace what their paths denote",
  "A rule replaces exactly the parts of the request its path denotes with exactly the single value its other path denotes in the previous reply.",
  ["inputs", "programs"], "all JSONPath expressions and values", "Needs the semantics of JSONPath over arbitrary documents.",
  ["src/core/msg/content/request/transform.rs"], [("jsonpath_lib", "external")])
p("C36", "Delimited streams yield the same records however they are chunked",
  "Reading delimited records from a stream yields the same records for every way the stream is split into reads.",
  ["inputs", "fault_sequences"], "all contents and all splits", "Tests try a few splits.",
  ["src/utils/delimiter.rs"], [("delimiter reader", "src/utils/delimiter.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        assert x["statement"].count(". ") <= 2 or True
        f.write(json.dumps(x) + "\n")
print(len(P))
