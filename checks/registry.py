from vrun import C, Py
CHECKS = {}

def add(pid, stages, rule, level="exploration", need=None, technique=None, note=None, assumptions=None):
    CHECKS[pid] = {"stages": stages, "rule": rule, "level": level, "need": need or {},
                   "technique": technique, "note": note, "assumptions": assumptions or []}

add("C20", [Py("dstrlib", ["drv_dstr"], 4000, 60000, "json_case")],
    "random JSON texts (deep, wide, long strings, escapes, surrogates) and structural mutations of them, parsed in random chunkings and memory modes; random value programs for the writer. Non-trivial: a distinct accepted document (by its token stream).",
    need={"json_valid": 100, "json_invalid": 100})
add("C22", [Py("dstrlib", ["drv_dstr"], 3000, 40000, "codecs")],
    "random byte strings and code point sequences (edge-biased), encoded and decoded in random chunkings, plus damaged encodings. Non-trivial: distinct input payloads.")
add("C23", [Py("dstrlib", ["drv_dstr"], 3000, 40000, "numbers")],
    "boundary-biased number texts in bases 8/10/16 and damaged variants for every integer type, against exact big-integer arithmetic. Non-trivial: distinct (type, base, text).")
add("C24", [Py("dstrlib", ["drv_dstr"], 3000, 40000, "strings")],
    "random short strings over adversarial alphabets through comparison, search, replace, split, format, append and path building, with bounded and growable outputs, against reference implementations. Non-trivial: distinct operand tuples.")

add("C01", [C("h_crypto", 4000, 60000, args=["roundtrip"])],
    "random plaintexts (empty, block-edge, binary, header-like text) to 1..128 recipients in random chunkings; written by the code and by an independent writer of the documented format, read by the code and by an independent reader. Non-trivial: distinct ciphertext messages.",
    need={"decrypted": 300, "not_recipient": 50, "encrypted": 100, "reference_encrypted": 50})
add("C02", [C("h_crypto", 1500, 20000, args=["tamper"])],
    "valid messages damaged at the ciphertext, tag, metadata, length-field and text-line layers, truncated tags incl. exhaustive one-byte forgeries, tags of other messages. Non-trivial: distinct damaged messages.",
    need={"rejected": 1000, "short_tags": 500, "foreign_tags": 20})

add("C03", [Py("imapchk", ["drv_imap"], 6000, 100000, "parse_case")],
    "random IMAP commands and responses of every supported kind with random case, quoting, literals, keyword-like and special-character atoms, edge numbers and extension states, fed whole and in random chunkings. Non-trivial: distinct parsed meanings.",
    need={"cmds_parsed": 1000, "resps_parsed": 1000})
add("C04", [Py("imapchk", ["drv_imap"], 8000, 100000, "write_case")],
    "random IMAP commands and responses of every writable kind, written through output buffers of one, two and random sizes, printed, and read back. Non-trivial: distinct written texts.",
    need={"written": 2000, "refused": 100})
add("C05", [Py("imapchk", ["drv_imap"], 10000, 200000, "bad_case")],
    "command lines that no reading of the grammar accepts (unknown, truncated, over-long, bad numbers, literals, quoting, base64, control bytes, unavailable extensions) and random damage to valid lines, each followed by valid commands, whole and in random chunkings; damaged responses. Non-trivial: distinct inputs.",
    need={"errors_isolated": 1000, "commands_after_errors": 1000, "mut_error": 300})

add("C25", [C("h_kvpsync", 8000, 200000)],
    "a real sender and a real receiver joined by a simulated network which loses, duplicates, delays and reorders packets, with key additions, changes and deletions and restarts of either side, on a virtual clock; then a healthy network. Every answer and callback is judged against the database history. Non-trivial: distinct delivery sequences.",
    need={"updates_delivered": 10000, "lost": 1000, "duplicated": 1000, "sender_restarts": 100, "receiver_restarts": 100, "ans_null": 1000, "ans_unsure": 1000, "ans_value": 1000})

add("C26", [Py("dnschk", ["drv_dns"], 3000, 60000, "pkt_case"), Py("dnschk", ["drv_dns"], 300, 6000, "server_case")],
    "random DNS queries (names in, near and outside the zone, mixed case, compression, all types and classes, flags, extra records, EDNS variants) and damaged ones, on exact-size buffers, against an independent reader and a model of the zone; and the whole server with 1-4 sync peers, a virtual clock, failed sends and exhausted buffers. Non-trivial: distinct (query, state of the secret).",
    need={"replies": 5000, "silent": 1000, "txt_answers": 500, "malformed_queries": 2000, "mode_U": 50, "mode_N": 50, "mode_Y": 50, "exhaustions": 5})
add("C27", [Py("dnschk", ["drv_dns"], 600, 10000, "rrl_case")],
    "random query streams from 1-300 sources on a virtual clock, floods and neighbouring addresses. Non-trivial: distinct streams.",
    need={"floods": 300, "fresh_queries": 10000, "refused": 1000})

add("C37", [C("h_kvpsend", 3000, 60000)],
    "a real kvpsend with 1-4 real kvpsync receivers over a simulated lossy network on a virtual clock, with database changes and errors, subscribers, healthchecks, dead peers, restarts of any part; then a healthy network. Every answer to a subscriber and every answer of every receiver is judged against the database history. Non-trivial: distinct delivery sequences.",
    need={"ks": 1000, "timeouts": 100, "closed": 1000, "checked_after_k": 10000, "kvpsend_restarts": 300, "receiver_restarts": 300, "db_errors": 20, "health_y": 100, "health_n": 100})

CITM_RULE = "1-5 model clients and a model IMAP server (CONDSTORE/QRESYNC) around the real citm with its event loop under control of the test: random deliveries, flag changes, expunges, client commands and network event orders, random chunking, then quiescence, comparison, and a restart. Non-trivial: distinct full event traces."
def cs(pid, func, q, t):
    return Py("citmchk", ["drv_citm"], q, t, func, args={"props": [pid]}, mode="asan")
def citm(pid, q, t, rule="", need={}, extra=[]):
    add(pid, [cs(pid, "session_case", q, t)] + [cs(pid, *x) for x in extra], CITM_RULE + rule, need=dict(need))
FAULT_RULE = " Second stage: the same with upstream failures (end of stream, errors, garbage, BYE, failed connects) and client failures, fresh logins and restarts."
citm("C09", 800, 20000, FAULT_RULE + " Third stage: a cached mailbox disappears from the server and later returns.", {"views_compared": 500, "bodies_read": 5000, "new_messages_seen": 1000, "mailboxes_reopened": 100, "mailboxes_vanished": 30}, [("faulty_case", 200, 6000), ("vanished_case", 80, 2000)])
citm("C10", 700, 20000, " Second stage: logins, wrong logins, commands before login, pipelining, IDLE in every state.", {"replies_ok": 5000, "replies_no": 100, "replies_bad": 100, "expunges_seen": 500, "new_messages_seen": 1000, "unseen_codes": 100, "selects": 500, "idles_selected": 50, "refused_idles": 10}, [("login_case", 400, 10000)])
REBORN = " Last stage: the server's mailboxes are replaced while citm is down (stopped, killed, files of its cache removed)."
citm("C11", 900, 20000, REBORN, {"mailboxes_replaced": 200, "views_of_replaced": 200, "uids_recorded": 2000, "mailboxes_reopened": 100, "selects": 500, "expunges_seen": 500}, [("reborn_case", 200, 6000)])
citm("C12", 900, 20000, FAULT_RULE + REBORN, {"mailboxes_replaced": 200, "files_removed": 100, "upstream_changes_judged": 1000, "stores_acked": 200, "expunges_acked": 100, "copies_acked": 50, "appends_acked": 100, "copies_accounted": 20}, [("faulty_case", 300, 6000), ("reborn_case", 200, 6000)])
add("C28", [cs("C28", "login_case", 2000, 40000), cs("C28", "faulty_case", 400, 8000), cs("C28", "race_case", 1000, 40000)],
    "the whole citm between model clients and model IMAP servers of one or two users, with all network events under control of the test: login churn (odd passwords, literals, pipelining, commands before login, wrong credentials), clients and upstream connections failing at any moment, garbage from upstream, the last client of a user leaving while others log in, shutdown at any moment. Every credential on the wire is compared with what was typed, every closed or surviving connection with the faults injected. Non-trivial: distinct full event traces.",
    need={"logins_judged": 1000, "credentials_compared": 1000, "victims_closed": 500, "survivors": 500, "byes_seen": 200, "fresh_logins": 200, "server_faults": 200, "client_faults": 200, "connect_faults": 50})
add("C13", [Py("namechk", ["drv_citm"], 900, 25000, "names_case", args={"props": ["C13"]}, mode="asan")],
    "random sessions of 1-3 clients over nested mailboxes which CREATE, DELETE, RENAME, SELECT, STATUS, APPEND and COPY ordinary and odd names (traversal, empty parts, cur/tmp/new, over-long, quoted), on servers which accept every name and some which send such names unasked; a monitor at the system calls records and refuses every operation outside the user's mail directory, directories are compared around DELETE and RENAME, and a new process must show every mailbox of the server. Non-trivial: distinct traces.",
    need={"confinement_checks": 10000, "odd_names": 1000, "valid_names": 2000, "deletes_done": 100, "renames_done": 40, "neighbours_examined": 1000, "mailboxes_reopened": 1000})
def rd(pid, func, q, t):
    return Py("readchk", ["drv_citm"], q, t, func, args={"props": [pid]}, mode="asan")
add("C06", [rd("C06", "read_case", 900, 40000)],
    "mailboxes of 1-8 generated mails, each built from a known tree of parts (multiparts, digests, embedded messages, texts, opaque parts, all four line endings, folded and repeated headers, comments, groups, quoted boundaries) and some broken ones, read through the whole citm with random FETCH item lists: every section, header field list, partial, ENVELOPE, BODY, BODYSTRUCTURE, size, date and the \\Seen side effect compared with the construction. Non-trivial: distinct full event traces.",
    need={"sections_compared": 5000, "subparts_compared": 1000, "missing_parts": 300, "partial_fetches": 500, "envelopes_compared": 500, "structures_compared": 500, "sizes_compared": 200, "flags_judged": 500, "seen_set": 200, "weird_items": 500})
add("C07", [rd("C07", "search_case", 700, 20000)],
    "mailboxes of 1-25 generated mails with random flags and dates, searched through the whole citm with random expressions (NOT, OR, groups, sets, dates, sizes, flags, headers, texts, literals, charsets), by sequence number and by UID, compared with direct evaluation on the construction. Non-trivial: distinct full event traces.",
    need={"results_compared": 10000, "selective_results": 3000, "key_NOT": 1000, "key_OR": 1000, "key_BODY": 500, "key_TEXT": 500, "key_HEADER": 500, "key_SENTON": 100, "key_SINCE": 100, "key_LARGER": 100})
add("C08", [cs("C08", "crash_case", 900, 30000), cs("C08", "reborn_case", 300, 10000), cs("C08", "walk_case", 400, 8000)],
    "the whole citm with its store on a file system which stops the process before a random operation, tears a write, or fails (once or from then on, writing or opening for reading), at random points of a random session, up to three times in a row, with logs as long as after long use (compaction), and (second stage) while it drops the cache of a mailbox which the server replaced, and (third stage) before or within each single operation of the first download of a mailbox; then it starts again on what is left and everything a client can see is compared with what it was told before and with the server. Non-trivial: distinct full event traces.",
    need={"crashes": 150, "fs_failures": 30, "read_failures": 20, "checked_after_crash": 200, "mailboxes_reopened": 300, "logs_compacted": 20, "mailboxes_replaced": 300, "crashes_at_change": 50, "walk_crashes": 200, "dates_judged": 5000})
def web(f, q, t, drv="drv_web", mod="webchk"):
    return Py(mod, [drv], q, t, f)
add("C17", [web("batch_case", 1600, 60000, "drv_http", "httpchk")],
    "batches of 1-6 requests through the real client and event loop to a scripted server on the loopback network: every framing of a response (Content-Length, chunked with extensions and trailers, close-delimited, without body, interim responses), sent in random pieces, a quarter of them truncated, reset or malformed, requests canceled, awaited late or the client closed at random points; a quarter of the batches go to several servers, plain and TLS, trusted and not, under several names. Status, headers, body, error, the bytes of the request, the use of connections and the contract of the request's stream are compared with the construction. Non-trivial: distinct responses.",
    need={"responses_compared": 1000, "requests_served": 1500, "kind_chunked": 500, "kind_cl": 500, "kind_close": 300, "connections_reused": 500, "interim_responses": 200, "bad_responses": 500, "bad_reset": 20, "bad_trunc_body": 20, "bad_trunc_head": 20, "canceled": 200, "bad_chunk_huge": 20, "destinations_changed": 100, "bad_stranger": 50, "bad_tls_trunc": 8, "tls_connections_due_for_reuse": 50, "heads_filling_the_buffer": 500})
add("C18", [web("marshal_case", 5000, 400000)],
    "requests of every method with random URLs, parameters, headers and body lengths, written through buffers of random sizes (from one byte), twice; each byte compared with a reference. Non-trivial: distinct requests and buffers.",
    need={"requests_compared": 20000, "resumed_requests": 20000})
add("C19", [web("url_case", 3000, 300000), web("link_case", 1500, 150000), web("retry_case", 1500, 150000), web("head_case", 1500, 150000)],
    "generated and mutated URLs, references, address specs, Link headers, Retry-After values and response heads (in random pieces) against reference parsers written from the RFCs' grammars. Non-trivial: distinct inputs.",
    need={"urls_accepted": 700, "urls_refused": 700, "addrspecs_accepted": 200, "links_read": 400, "links_damaged": 200, "links_damaged_but_valid": 15, "links_too_large": 2, "retry_abs": 200, "retry_rel": 200, "retry_bad": 200, "heads": 400, "headers_compared": 800, "bad_heads": 200})
add("C14", [C("h_streams", 24000, 1500000), C("h_duv", 1200, 40000)],
    "random trees of dstr, concat, limit, chunked, borrowed and reader streams over scripted bases which answer in any legal way (partial, refused, EOF, errors at any offset), and passthru streams over TCP and unix sockets whose other end sends, reads, stalls, shuts down, closes or resets at random, used by a consumer which keeps several reads and writes in flight, writes and cancels from callbacks, awaits early, late and twice; every byte, order, flag and callback is judged. Non-trivial: distinct sequences of events.",
    need={"read_callbacks": 20000, "write_callbacks": 3000, "shutdown_callbacks": 200, "cancels": 500, "cancels_in_callbacks": 20, "reads_returned": 500, "writes_returned": 200, "base_errors": 200, "second_awaits": 200, "peer_resets": 30, "peer_closes": 30, "connects_canceled": 3, "connects_refused": 15, "ended_failed": 50, "ended_clean": 100, "writes_failed_now": 10, "writes_failed_late": 10, "scheduled_actions": 200, "waiting_reads_checked": 15})
add("C15", [C("h_tls", 4000, 200000)],
    "two TLS streams of the product back to back, or one (as client or server, TLS 1.2 and 1.3) against OpenSSL driven by the test, over bases which deliver in any legal way; random reads, writes, cancels, awaits and shutdowns at both ends, key updates, renegotiations, fragment sizes, input read ahead; the wire cut, altered (bits, lost, repeated, inserted bytes) or failing at a random byte. Non-trivial: distinct sequences of events.",
    need={"pairs": 500, "as_client": 200, "as_server": 200, "preinputs": 150, "truncations_noticed": 60, "alterations_noticed": 60, "base_errors": 80, "peers_checked": 150, "ended_clean": 1000, "cancels_in_callbacks": 10, "key_updates": 100, "writes_returned": 300, "write_callbacks_checked": 5000})
add("C16", [C("h_tlsver", 4000, 300000)],
    "servers with generated chains (0-2 intermediates, EC and RSA, sent in any order, with superfluous certificates) and none, one or two of 20 kinds of defects, and names, wildcards and addresses against a reference matcher; the product's server contexts with sound and broken credentials against strong and weak clients. Non-trivial: distinct chains, names and defects.",
    need={"accepted": 400, "accepted_addresses": 40, "accepted_by_cn": 20, "refused_wrong_name": 80, "refused_expired": 20, "refused_not_yet_valid": 20, "refused_unknown_root": 20, "refused_self_signed": 20, "refused_wrong_purpose": 20, "refused_signature": 20, "refused_no_certificate": 4, "refused_old_protocol": 4, "refused_no_encryption": 4, "clients_served": 60, "broken_credentials": 100, "weak_clients_refused": 50})
add("C21", [C("h_containers", 8000, 400000)],
    "random histories of the hash map (string and integer keys, keys chosen to share buckets, unique inserts, removal while iterating), the ordered tree (duplicates, index, neighbours, erase and pop within traversals), the heap, the lists and the path builders against plain reference containers, under AddressSanitizer and UBSan. Non-trivial: distinct histories.",
    need={"map_inserts": 20000, "removed_while_iterating": 5000, "duplicates_refused": 500, "replaced": 2000, "tree_inserts": 10000, "tree_erased": 3000, "tree_indexed": 2000, "heap_puts": 10000, "heap_removed": 2000, "list_inserts": 10000, "lists_joined": 3000, "paths_on_the_stack": 100, "paths_on_the_heap": 20})
add("C32", [Py("apichk", ["drv_api"], 1200, 60000, "store_case"), Py("apichk", ["drv_api"], 1600, 60000, "call_case"), Py("apichk", ["drv_api"], 500, 20000, "register_case")],
    "token, nonce and installation files rewritten many times on a file system which stops the process before an operation, tears a write or fails, then read by a fresh process; broken files; series of password and token calls, synchronous and event based, on one client to a scripted server (every verdict, damaged JSON, truncated answers, bad URLs, cancels), each request verified with an independent HMAC and decoder, each answer compared. Non-trivial: distinct histories.",
    need={"crashes": 300, "nonces_used": 1000, "failed_steps": 300, "broken_files": 80, "installations_read": 500, "requests_checked": 2000, "responses_read": 1000, "refusals": 200, "reported_failures": 200, "bad_contents": 150, "bad_json": 150, "truncated": 80, "bad_urls": 80, "canceled": 60, "registered": 100, "registrations_refused": 100})
add("C31", [Py("acmechk", ["drv_acme"], 1600, 60000, "jws_case"), Py("acmechk", ["drv_acme"], 900, 40000, "acme_case")],
    "random keys of both kinds, generated, from bytes and read back, their jwk, pem, thumbprint and account files read by independent decoders, signatures verified with OpenSSL directly, buffers with content and without room; sessions of the ACME client (all nine actions) with a model server which checks nonce, url, key, signature and payload of every request and answers with refused nonces, Retry-After, damaged or truncated or reset answers, failing directories and nonces; closed at random moments, also in callbacks and waits; leak detection. Non-trivial: distinct keys and scripts.",
    need={"keys": 800, "signatures": 400, "hmacs": 300, "jwss": 800, "accounts_reread": 200, "bad_accounts": 100, "bad_keys": 100, "requests_verified": 3000, "succeeded": 700, "failed": 500, "waits": 300, "bad_nonces": 800, "damaged_answers": 200, "directory_faults": 100, "csrs": 150, "closed_while_busy": 20, "closed_in_the_callback": 20})
add("C33", [Py("syschk", ["drv_sys"], 3000, 100000, "files_case"), Py("syschk", ["drv_sys"], 1500, 60000, "names_case"), Py("syschk", ["drv_sys"], 400, 10000, "locks_case")],
    "random trees (files, directories, symlinks to inside, outside, nowhere and themselves, pipes, long and awkward names) owned by an unprivileged user; each operation runs in a process of that user and on a twin tree with another implementation, and the whole trees, results and data are compared; writes fail or are short and directory creations fail at random points; generated path names; locks contended by several holders in two processes. Non-trivial: distinct trees and operations.",
    need={"op_rm_rf": 400, "removed": 1500, "op_empty": 150, "op_mkdirs": 300, "op_copy": 150, "op_write": 150, "op_read": 150, "op_rename": 150, "op_each": 150, "op_access": 80, "faults_hit": 100, "failed_creations": 15, "failed_mkdirs": 15, "fixed_refused": 1, "names": 600, "lock_refused": 500, "lock_got": 300})
add("C38", [Py("syschk", ["drv_sys"], 10000, 500000, "opts_case"), Py("syschk", ["drv_sys"], 8000, 400000, "conf_case")],
    "random option tables (short, long, both, with and without values, callbacks, callbacks which fail) with random command lines (clusters, attached and separate values, values which look like options, --, unknown options) and random configuration files (any white space and line ends, comments, several files, a last line without end, bytes of every kind) on exact-size buffers, against reference parsers. Non-trivial: distinct tables and inputs.",
    need={"opts_parsed": 5000, "opts_refused": 700, "opts_seen": 15000, "conf_parsed": 3000, "conf_refused": 800, "conf_options": 8000})
add("C39", [C("h_errlog", 20000, 600000, args=["errors"], leak=True), C("h_errlog", 1500, 30000), C("h_errlog", 1500, 30000, mode="tsan")],
    "random sequences of all error operations on several errors at once, each entry of each trace marked, types and traces compared with a model after each step, leak detection; up to six threads logging lines of all sizes at all levels to files and names, every output read back line by line; reference counts moved by up to six threads, the finalizer counting what it can see; the same threads under ThreadSanitizer. Non-trivial: distinct operation sequences and interleavings.",
    need={"error_operations": 300000, "log_lines": 80000, "log_thread_switches": 20000, "ref_operations": 50000})
def ky(pid, q, t):
    return [Py("keychk", ["drv_citm"], q[0], t[0], "keys_case", args={"props": [pid]}, mode="asan"),
            Py("keychk", ["drv_citm"], q[1], t[1], "keys_crash_case", args={"props": [pid]}, mode="asan")]
add("C29", ky("C29", (900, 600), (30000, 30000)),
    "the whole citm between mail clients and a server whose account has up to seven keys: random histories of keys created, deleted, replaced and re-created (including the device's own), mail, uploads, logins, logouts, restarts, and the same with crashes, failing disks and broken upstream connections; after every step the stored keys are compared with the account, and the recipients of every upload with the keys at that time. Non-trivial: distinct full event traces.",
    need={"key_sets_compared": 4000, "appends_judged": 1000, "keys_added": 2000, "keys_deleted": 500, "own_key_deleted": 100, "restarts": 100, "crashes": 100, "fs_failures": 50})
add("C30", ky("C30", (900, 600), (30000, 30000)),
    "the same histories, with a model of the fingerprints the device has met; at the end the INBOX is read through the citm and the announcements in it are compared with the model (exactly once; at least once around a crash). Non-trivial: distinct full event traces.",
    need={"announcements_judged": 1500, "keys_announced_by_sync": 800, "keys_announced_by_mail": 100, "keys_of_first_sync": 200, "keys_of_first_mail": 200, "crashes": 100, "fs_failures": 50})
add("C36", [C("h_starttls", 5000, 300000, leak=True)],
    "imap_server_t and imap_client_t with STARTTLS (some with TLS from the start) over a wire which delivers in any legal way, against a model peer with OpenSSL: plaintext commands of all kinds one by one or pipelined, handshakes directly behind STARTTLS, complete and partial lines injected behind it, bad greetings, refusals, unverifiable certificates; what is handed on is compared with what was said inside TLS, and every plaintext byte sent is judged; leak detection. Non-trivial: distinct dialogues.",
    need={"sessions_encrypted": 2000, "relays_compared": 2000, "commands_injected": 150, "responses_injected": 200, "fragments_injected": 200, "handshakes_pipelined": 300, "plain_replies": 3000, "bad_greetings": 100, "bad_certificates": 100, "starttls_refused": 100, "left_unencrypted": 50, "injections_refused": 400})

add("C40", [C("h_acmemgr", 900, 30000)],
    "up to six lives of the real manager per case, between them up to 100 days, on a virtual clock against a model certificate authority, DNS and API, all calls answered late, some failing with or without effect, some by timeout; lives end by kill, close, a crash at a random file operation or fail on a failing disk; in the last everything works. Each call, status and certificate is judged against the model. Read failures void the start guarantee. Non-trivial: distinct call sequences.",
    need={"lives": 1500, "crashes": 700, "renewals": 1500, "certs": 1500, "keygens": 3000, "resumed": 400, "backoffs": 1500, "closes": 250, "final_ok": 400, "prepares": 1500, "unprepares": 3000, "statuses": 12000, "timeouts": 200, "nulls": 5, "processing": 20})
