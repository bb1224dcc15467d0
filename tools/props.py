"""Source of properties.jsonl (tools/gen.py writes it)."""
P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
              "anchors": {"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                          **({"observe_at": observe} if observe else {}), "hook_needed": hook}})

prop("C20", "JSON texts parse to exactly their meaning, and written JSON parses back",
     "A text is accepted exactly when it is one RFC 8259 JSON value, whatever chunks it arrives in, and the values read from it (numbers, strings with all escapes, nesting, object lookups) are the ones it denotes; rejected texts report an error and corrupt nothing. Values written as JSON, compact or indented, parse back to the same value.",
     "inputs", "every byte string, every chunking of it, every value tree",
     "unit tests parse about thirty fixed texts in one piece; escapes, surrogates, depth and chunk boundaries are unbounded",
     "libdstr/json.c libdstr/jspec.c libdstr/jdump.c", [("incremental parser and token tree", "libdstr/json.c"), ("writer", "libdstr/jdump.c")])
prop("C22", "Text codecs invert exactly and reject damaged encodings",
     "Base64, hexadecimal, UTF-8 and UTF-16 encoding followed by decoding returns the original bytes or code points for any input and any split of it across calls. Decoders reject or ignore exactly what their format says: no overlong or out-of-range UTF-8, no unpaired surrogates, no output invented from damaged text.",
     "inputs", "every byte string, code point sequence and chunking",
     "tests encode a few fixed strings; carried-over partial groups at chunk boundaries are where streaming codecs fail",
     "libdstr/b64.c libdstr/unicode.c libdstr/common.c", [("streaming base64", "libdstr/b64.c"), ("streaming utf8/utf16", "libdstr/unicode.c")])
prop("C23", "Number conversion is exact or refused",
     "Converting text to any integer type yields exactly the written value when it fits the type and the base, and otherwise fails leaving the destination unspoiled; nothing wraps, truncates or ignores trailing characters. Floating-point conversion accepts exactly complete numbers.",
     "inputs", "every text, base and integer type, especially around each type's limits",
     "tests try a handful of values; limits differ per type, base and sign",
     "libdstr/cvt.c", [("overflow-checked digit accumulation", "libdstr/cvt.c")])
prop("C24", "String operations respect lengths, capacities and a consistent order",
     "Comparison is a total order consistent with equality (case folding touches only ASCII letters); searching, splitting, replacing, slicing, formatting and appending give the textbook result for any byte content. With a fixed-size destination the result is either complete or refused, and no operation ever touches bytes outside its buffers.",
     "inputs", "every operand content including NUL and high bytes, every destination capacity",
     "tests use short printable strings with roomy buffers; the order, the capacity edge and empty operands are not sampled",
     "libdstr/common.c libdstr/fmt.c libdstr/sb.c", [("bounded append and growth", "libdstr/common.c"), ("formatter", "libdstr/fmt.c")])
prop("C01", "Encrypted mail decrypts exactly for its recipients and for nobody else",
     "A message encrypted to any set of public keys, in any chunking, decrypts with each recipient's private key, in any chunking, to exactly the original bytes, and the list of recipients' key fingerprints read from it is complete and in order. A non-recipient gets the dedicated not-for-me result and no plaintext. Messages interoperate in both directions with independent implementations of the documented message format.",
     "inputs", "every message content and length (including empty), 1 to 128 recipient keys of mixed sizes, every way of cutting the plaintext or ciphertext into pieces",
     "the unit test encrypts one text to three keys; line, block and metadata boundaries move with length, recipient count and chunking",
     "libcrypto/crypto.c libdstr/b64.c", [("streaming encrypter and decrypter", "libcrypto/crypto.c"), ("streaming base64", "libdstr/b64.c")])
prop("C02", "Tampered or truncated encrypted mail is never accepted",
     "If any part of an encrypted message that carries its content, session key or authentication tag is changed, cut short, extended, reordered or taken from another message, decryption reports an error; it never completes successfully with different plaintext. No malformed message makes the decrypter crash, read outside its buffers, or fail on the next valid message.",
     "inputs fault_sequences", "every modification, truncation and splice of a valid message, and arbitrary malformed text",
     "no test damages a message",
     "libcrypto/crypto.c", [("AES-256-GCM tag verification", "libcrypto/crypto.c"), ("metadata parser", "libcrypto/crypto.c")])
prop("C03", "IMAP text parses to exactly its meaning however it is cut into packets",
     "Every valid IMAP command or response (atoms, quoted strings, literals, numbers, dates, flags, sequence sets, search keys, FETCH items, extension syntax) is parsed to exactly the values it denotes, byte for byte. The result does not depend on how the text is split across network reads.",
     "inputs schedules", "every valid command and response, every chunking of its bytes",
     "unit tests parse about a hundred fixed lines; token, escape, literal and keyword boundaries meet packet boundaries in unboundedly many ways",
     "libimap/scan.c libimap/imap.in libimap/read.c libimap/expression.c", [("streaming scanner with leftovers", "libimap/scan.c"), ("grammar and actions", "libimap/imap.in")])
prop("C04", "Written IMAP commands and responses read back as the same message",
     "Any command or response the library agrees to write, through output buffers of any size, is valid protocol text that parses back to the same message; strings that cannot be atoms or quoted are quoted or sent as literals as needed. What cannot be expressed (for instance because an extension is not enabled) is refused rather than written wrongly.",
     "inputs", "every command and response value, every extension state, every sequence of output buffer sizes",
     "unit tests write fixed values; escaping and the skip/fill resume position depend on content and buffer sizes",
     "libimap/write.c", [("skip-fill writer", "libimap/write.c")])
prop("C05", "Malformed IMAP input is reported and never disturbs what follows",
     "A command line that is not valid IMAP (unknown or cut words, bad numbers, dates, quoting, literals, base64, control bytes, extensions not enabled) yields exactly one error for that line, with its tag where one was given, and every following command is parsed as if the bad line had not been sent, in any chunking. No input whatever crashes the parser or reads outside its buffers.",
     "inputs fault_sequences", "every malformed line in every position and chunking, and arbitrary bytes",
     "tests contain a few malformed lines in one piece",
     "libimap/scan.c libimap/imap.in libimap/read.c", [("error production and resynchronisation", "libimap/imap.in")])
prop("C25", "Key-value sync never gives a confident wrong answer",
     "With packets lost, duplicated, delayed or reordered and either side restarting, the receiver says a key does not exist only if it is (or within the last 15 seconds was) absent, never after the key's addition was reported as synced to that receiver, and only within 15 seconds of the last packet it got; a value it serves was stored under that key and is not one whose deletion it received. Once the network is healthy, every key answers its current value, every added key's callback has been called exactly once (never after deletion), and the sender reports the receiver as ok. Update and ack packets read back as written, and truncated ones are refused.",
     "schedules fault_sequences histories", "every history of additions, changes and deletions, every pattern of loss, duplication, delay and reordering, restarts of sender and receiver at any point",
     "the unit tests walk fixed packet sequences; the guarantee is about arbitrary interleavings and timing",
     "server/libkvpsync/send.c server/libkvpsync/recv.c server/libkvpsync/pkts.c", [("receiver store with tombstones", "server/libkvpsync/recv.c"), ("sender with resend and sync ids", "server/libkvpsync/send.c")])
prop("C26", "The DNS responder answers exactly its zone, from any packet",
     "A query gets a reply only if it is one well-formed standard IN question for user.splintermail.com or a name below it (letter case ignored); the reply is well-formed, echoes id and question, fits the negotiated size (512 bytes or EDNS), and carries exactly the zone's data: SOA/NS/CAA at the top, 127.0.0.1 and ::1 and CAA for a user, a user's synced challenge as TXT under _acme-challenge, an empty or name-error answer with SOA otherwise, and not-implemented for other types. When the challenge is not known, the answer is 'none' only if some sync peer is confidently up to date, otherwise a server failure, and a value known from any peer wins. No packet makes it read outside the packet, reply to junk, lose a receive buffer or stop serving, whatever the outcome of its sends.",
     "inputs histories fault_sequences", "every packet content, every state of the sync peers, every outcome and order of send completions",
     "tests check about thirty fixed queries and one or two packet sequences",
     "server/dns/dns.c server/dns/parse.c server/dns/write.c server/dns/main.c", [("packet parser", "server/dns/parse.c"), ("query sorting and answers", "server/dns/dns.c"), ("peers and buffers", "server/dns/main.c")])
prop("C27", "The DNS rate limiter bounds each source and spares the others",
     "Within any second at most eight queries from one source (IPv4 address or IPv6 /64) are answered, and a source that stayed quiet is answered again in the next second. The first seven queries of a source in a second are answered unless it was last heard exactly a multiple of 32 seconds before, or in the rare case that it shares a bucket with another source.",
     "inputs histories", "every sequence of sources and times, every table size",
     "the test walks one address through a few seconds",
     "server/dns/rrl.c", [("5-bit window and 3-bit counter buckets", "server/dns/rrl.c")])
prop("C37", "A certificate challenge is reported ready only when no DNS peer will deny it",
     "Each subscriber gets exactly one answer: closed at once if its installation is unknown or its challenge is not the database's, closed when that challenge is later found replaced or deleted, a timeout after 60 seconds, or 'k'. 'k' is said only while some DNS peer is in sync, and from then on, as long as the challenge stays current, no peer answers 'none' for it and no peer in sync at that time answers an older value, through losses, delays and restarts of either side. On a healthy network nobody waits in vain, every peer ends up with exactly the database's challenges, and the healthcheck names exactly the peers in sync.",
     "schedules fault_sequences histories", "every history of database changes, subscriptions, packet losses, delays and restarts, for 1 to 8 peers",
     "the unit tests walk one fixed sequence of callbacks with two peers",
     "server/kvpsend/kvpsend.c server/libkvpsync/send.c server/libkvpsync/recv.c", [("readiness masks", "server/kvpsend/kvpsend.c"), ("expiry bounded by the oldest unacknowledged insert", "server/libkvpsync/send.c")])
CITMF = "libcitm/citm.c libcitm/sc.c libcitm/user.c libimaildir/imaildir.c libimaildir/up.c libimaildir/dn.c libimaildir/msg.c"
prop("C09", "The local mailbox converges to the server's, decrypted",
     "Once changes stop and clients poll, every client with a mailbox selected sees exactly the server's messages with the server's flags, dates and correct sizes, and exactly the bytes that were sent: encrypted mail decrypted, mail for other devices hidden, unencrypted mail marked in its subject, undecryptable mail replaced by a notice. This holds for any interleaving of deliveries, flag changes, expunges, appends, copies and client commands, for several clients on the same or different mailboxes, and again after a restart. While the server is healthy no client is disconnected and every command is answered.",
     "schedules histories", "every history of server-side and client-side changes, every order of network events, 1 to 5 clients, every chunking of network data",
     "the repository's tests exercise each step alone, with scripted peers; the guarantee is about their interleavings",
     CITMF, [("shared mailbox with up and down views", "libimaildir/imaildir.c"), ("synchronisation with the server", "libimaildir/up.c"), ("client view", "libimaildir/dn.c")])
prop("C10", "Each client gets a consistent IMAP session",
     "What a client is told always makes sense as RFC 3501 updates to what it was told before: replies come in order with the command's tag, message counts never shrink except by EXPUNGE, EXPUNGE and FETCH name messages the client knows, EXPUNGE never arrives outside a command or during FETCH, STORE or SEARCH, and a sequence number keeps its UID. SELECT and EXAMINE report complete and correct mailbox data, also for the first unseen message and the access mode. Commands outside the protocol or the current state are refused without effect, and every valid command is served.",
     "schedules histories", "every sequence of client commands and server-side changes with every timing of the updates",
     "tests check fixed dialogues; when an update becomes visible depends on the timing of three connections",
     CITMF, [("view updates held until allowed", "libimaildir/dn.c"), ("command states", "libcitm/sc.c")])
prop("C11", "Local UIDs are stable, ascending and never reused",
     "Within one UIDVALIDITY of a mailbox, as shown to mail clients, a UID names one message for ever and a message keeps its UID, for all clients and across restarts. UIDs ascend with sequence numbers and UIDNEXT is above every UID in use. UIDVALIDITY stays the same as long as the server's mailbox does.",
     "schedules histories", "every order of downloads, appends, copies and expunges, every restart",
     "UIDs are assigned in the order messages finish arriving, which no test varies",
     "libimaildir/imaildir.c libimaildir/log_file.c libimaildir/dn.c", [("local uid assignment", "libimaildir/imaildir.c"), ("persistent log", "libimaildir/log_file.c")])
prop("C12", "Changes reach the server before they are acknowledged, and only requested ones",
     "When STORE, EXPUNGE, CLOSE, COPY or APPEND is answered OK, the server has already made exactly that change to exactly those messages (an APPEND arriving encrypted, with its flags and date). Nothing is ever changed on the server which a client did not ask for in a writable mailbox: no flag, no expunge, no copy or append twice, nothing from EXAMINE sessions or refused commands. While the server accepts such changes they are not refused.",
     "schedules histories", "every history of changes by several clients and the server, every order of network events",
     "tests script the server's side; identifying messages between two numberings is only exercised by histories",
     CITMF, [("relays of client commands", "libimaildir/imaildir.c"), ("uid translation", "libimaildir/msg.c"), ("append encryption", "libcitm/sc.c")])
prop("C13", "Mailbox names stay in their directory; DELETE and RENAME touch only their own",
     "Whatever mailbox name a client or the mail server uses in any command or response, the citm's file operations for it stay inside that user's mail directory, and two different mailboxes never share storage: a name which has no directory of its own (with empty, '.', '..', cur, tmp, new or over-long parts) is refused with NO and without effect. Every other name works, DELETE and RENAME remove or move exactly the named mailbox's mail (RENAME also its inferiors) and no other mailbox's, and neither they nor odd names cost the client its connection. Afterwards and after a restart every mailbox of the server shows exactly its own messages.",
     "inputs histories", "every mailbox name, every history of CREATE, DELETE, RENAME, SELECT, APPEND, COPY, STATUS over nested mailboxes",
     "tests use one mailbox name; traversal and overlapping hierarchies need names nobody writes into a test",
     "libcitm/sc.c libimaildir/dirmgr.c", [("name check", "libimaildir/dirmgr.c"), ("commands which name mailboxes", "libcitm/sc.c")])
prop("C28", "Logins are relayed faithfully and trouble stays where it is",
     "A client's LOGIN reaches the mail server exactly once with exactly the user and password typed, in whatever form, and succeeds exactly if the server accepts it; users never see each other's mail. Trouble on one connection (upstream or client failing at any moment, garbage, failed connects) ends only the clients concerned, with a BYE if upstream broke, never the daemon; every later login is served, also one that arrives while the user's previous sessions shut down. LOGOUT and shutdown close every connection, client's and server's.",
     "schedules inputs fault_sequences", "every moment of every failure, every overlap of logins and logouts of two users, every password",
     "tests script single logins and single failures; the crashes found here needed two events in one scheduling round",
     "libcitm/citm.c libcitm/anon.c libcitm/preuser.c libcitm/user.c libcitm/io_pair.c libcitm/imap_server.c libcitm/imap_client.c", [("login relay", "libcitm/anon.c"), ("user life cycle", "libcitm/citm.c"), ("held connections", "libcitm/user.c"), ("connection teardown", "libcitm/imap_server.c")])
prop("C06", "Every part of a mail reads exactly as it was delivered",
     "Whatever the structure of a mail, FETCH returns exactly its bytes: whole, header, text, MIME parts at any depth, header field selections and partial ranges; ENVELOPE, BODY, BODYSTRUCTURE, INTERNALDATE and RFC822.SIZE describe exactly that mail, and several items in one FETCH do not affect each other. A part which does not exist is reported as missing (NO). A mail of any content at all, however malformed or deeply nested, is still listed and readable as a whole and never breaks the connection or the daemon; \\Seen is set exactly by the fetches which are not peeks.",
     "inputs", "every mail (structure, header, encoding of line ends, malformation) and every FETCH item list",
     "tests parse a few fixed mails; trees of parts, item combinations and malformed mail sent by strangers are unbounded",
     "libimap/imf.c libimap/imf.in libimaildir/dn.c libimap/write.c", [("message and part parser", "libimap/imf.c"), ("FETCH responses", "libimaildir/dn.c")])
prop("C07", "SEARCH returns exactly the messages which match",
     "For every search expression (flags, dates, sizes, sequence and UID sets, headers, text, NOT, OR, groups) SEARCH lists the sequence numbers, and UID SEARCH the UIDs, of exactly the messages which match it by RFC 3501, comparing text without regard to case. The supported charsets are accepted, and every search ends with one SEARCH response and an OK.",
     "inputs", "every mailbox and every search expression",
     "tests search one mailbox with a fixed list of keys; combinations with message contents are unbounded",
     "libimaildir/search.c libimaildir/dn.c", [("evaluation", "libimaildir/search.c"), ("SEARCH command", "libimaildir/dn.c")])
prop("C08", "The mail store survives a crash or a full disk at any moment",
     "If the process dies at any file system operation (even in the middle of a write), or an operation fails, the next start succeeds and serves the mailboxes completely: all messages of the server with their content, date and flags. A UID a client has seen still names the same message under the same UIDVALIDITY, deleted mail does not come back, changes acknowledged to a client are not lost, and a failing disk ends sessions at worst, never with wrong answers or lost mail.",
     "fault_sequences histories", "every crash point, torn write and file system error in every history, repeatedly",
     "tests never interrupt the store; each bug needs a crash between two particular file system operations",
     "libimaildir/imaildir.c libimaildir/log_file.c libimaildir/log.c libimaildir/dirmgr.c libdstr/fileops.c", [("log and compaction", "libimaildir/log_file.c"), ("recovery on start", "libimaildir/imaildir.c"), ("UID bookkeeping", "libimaildir/imaildir.c")])
prop("C14", "Streams deliver every byte once, in order, and always end exactly once",
     "Whatever a stream is made of (a socket, a string, a limited, concatenated, chunked or borrowed stream), its user reads exactly the bytes the source holds, in order, ending in EOF only where the source ends, and what it writes arrives once, in order. Every read and write is answered or returned exactly once, none after the await callback, which comes once: without an error only after EOF and shutdown, with the first failure otherwise, with a cancelation only if it was canceled. read(), write(), cancel(), await() and shutdown() have the documented verdicts and flags in every state, and a stream whose other end dies ends instead of hanging.",
     "inputs schedules fault_sequences", "every source and size of buffers, every order of calls and events including calls from callbacks, failures at every offset",
     "tests exercise a dozen fixed sequences per stream over a well-behaved peer; late awaits, cancels from callbacks and failing writes are not among them",
     "libduv/passthru.c libduv/concat.c libduv/dstr_rstream.c libduv/dstr_stream.c libduv/reader.c libduv/stream.c libduv/stream.h libduv/connect.c libduv/scheduler.c libduv/advancer.c",
     [("sockets", "libduv/passthru.c"), ("compositions", "libduv/concat.c libduv/stream.c libduv/reader.c"), ("string streams", "libduv/dstr_rstream.c libduv/dstr_stream.c"), ("connecting", "libduv/connect.c")])
prop("C15", "TLS streams carry every byte both ways and notice truncation and tampering",
     "Over a TLS stream each end reads exactly what the other end wrote, in order, and EOF only after the other end's shutdown and all its data; a connection that is cut, altered or fails underneath is an error, never a short success or other bytes. When both ends finish, both are told so and neither reports an error, whatever the order of their last messages, the sizes and splits on the wire, key updates, or input read ahead before STARTTLS. The stream contract (each read, write and await answered once, cancelation, late calls) holds on top of any legal base.",
     "inputs schedules fault_sequences", "every split of the wire, every order of reads, writes and shutdowns at both ends, a cut, a change or a failure at every byte",
     "tests exchange one message each way over a scripted base that is never slow, cut or altered",
     "libduvtls/tls.c libduvtls/tls.h libcrypto/networking.c", [("TLS stream", "libduvtls/tls.c"), ("contexts", "libcrypto/networking.c")])
prop("C16", "Only servers that prove the wanted identity are talked to, only over strong TLS",
     "A client accepts a server exactly when its certificate chains to a trusted root through valid intermediates, is in date, is meant for servers, has intact signatures and is made out to the wanted name or address; otherwise it ends with the error for that defect, and no byte of user data is sent or accepted. Anonymous, unencrypted, static-RSA and pre-1.2 connections are refused on both sides. A server context serves its configured chain in order, and is refused when certificate and key are broken or do not belong together.",
     "inputs", "every combination of certificate chain, name, date, purpose, constraint, protocol version and cipher offer",
     "tests use four fixed certificates; chains, dates, purposes, constraints and weak peers are not among them",
     "libduvtls/tls.c libcrypto/networking.c", [("verification", "libduvtls/tls.c"), ("contexts", "libcrypto/networking.c")])
prop("C17", "HTTP responses arrive exactly as framed, and every request ends",
     "Every request put to the HTTP client ends exactly once, with the status, headers and exactly the body the server framed (Content-Length, chunked with trailers, close-delimited, bodiless, after interim responses), however the bytes arrive; a truncated, reset or malformed response is an error, never a short success. Requests are sent exactly as asked, each exactly once, on the same connection as long as both sides allow and never on one that was to be closed or is out of step, so no response is ever given to another request. Reads are answered in order or returned, once each, also when requests are canceled, awaited late, or the client is closed at any moment.",
     "inputs schedules fault_sequences", "every response, every split of its bytes into reads, every moment of cancellation or connection failure, every sequence of requests",
     "tests run a fixed list of 17 well-timed exchanges; splits, resets and cancellations at arbitrary points are not among them",
     "libhttp/duv_http.c libhttp/chunked.c libhttp/limit.c libhttp/borrow.c libduv/concat.c libduv/passthru.c", [("request life cycle", "libhttp/duv_http.c"), ("chunked decoding", "libhttp/chunked.c"), ("content length", "libhttp/limit.c")])
prop("C18", "HTTP requests are written exactly, whatever the buffer",
     "The bytes of a request are exactly the method, target (path, query and form-encoded parameters), Host, Content-Length and the given headers in order, never a fragment or user information, no matter into what sequence of buffers they are written, and again the same after a reset.",
     "inputs", "every URL, parameter list, header list and sequence of buffer sizes",
     "tests resume at a few chosen sizes; the bug found needed a parameter to end exactly at a buffer's end",
     "libhttp/marshal.c", [("resumable writer", "libhttp/marshal.c")])
prop("C19", "URLs, Link headers, dates and response heads are read by their grammars",
     "URLs, URL references, address specs (host and port), Link headers, Retry-After values and HTTP response heads are accepted exactly if their RFC grammar allows, with exactly the parts, links, relative or absolute times, and headers they hold; anything else is refused, whatever bytes it is and however it is split.",
     "inputs", "every byte string, every split into reads",
     "tests list a few dozen examples",
     "libweb/url.c libweb/weblink.c libweb/headers.c libweb/http.c libweb/web.in", [("grammar", "libweb/web.in"), ("head reader", "libweb/http.c"), ("dates", "libweb/headers.c")])
prop("C21", "Containers hold exactly what was put in, in order, through any history",
     "The hash map, ordered tree, heap, linked lists and path builders agree with a plain list of what was inserted, replaced and removed: lookups, sizes, indices, order and neighbours are right, an insert reports exactly what it replaced or refuses exactly the duplicates. Iteration visits every element exactly once, also when the current element is removed or the container is emptied during it, and removal is idempotent where documented. A built path is its parts joined by single slashes, whatever its length.",
     "inputs histories", "every sequence of operations, every set of keys",
     "tests insert a handful of keys; resizes, bucket sharing, rebalancing on deletion and removal in the middle of an iteration are sampled at a few points only",
     "libdstr/hashmap.c libdstr/jsw_atree.c libdstr/heap.c libdstr/link.c libdstr/sb.c",
     [("hash map", "libdstr/hashmap.c"), ("ordered tree", "libdstr/jsw_atree.c"), ("heap", "libdstr/heap.c"), ("lists", "libdstr/link.c"), ("paths", "libdstr/sb.c")])
prop("C31", "ACME requests are signed right, use each nonce once, and every action ends once",
     "JWS, JWK, thumbprints, DNS-01 strings, HMACs and base64url are what the RFCs say for every key and content, signatures verify, and a key or account which is written is the same key when it is read back; what is damaged is refused. Every request of the ACME client carries a nonce the server gave out and which was never used, its own url, the right key, and the payload of the action; a refused nonce is retried with another, nothing that succeeded is repeated, and the client waits as long as Retry-After says. Each action is answered exactly once, never before it returns, with the server's data or an error and nothing else; closing at any moment ends it, with nothing left behind, and a failure never damages later actions.",
     "inputs schedules histories", "every key, content, server answer and moment of closing",
     "the tests sign a few fixed inputs; the client needs a live server to be tested at all",
     "libacme/jws.c libacme/reqs.c libacme/new-account.c libacme/b64url.c libweb/headers.c",
     [("signatures and keys", "libacme/jws.c"), ("client", "libacme/reqs.c")])
prop("C32", "API calls are signed with a nonce never used before, whatever crashes in between",
     "Every nonce handed out, by tokens or by the bare counter, is greater than every one handed out before, and is stored before it is used; token and installation files are replaced whole, so after a crash or a failing disk at any point the old or the new one is there, and a broken token is deleted, never trusted. A call sends exactly the asked path, argument and nonce, once, signed with the token's secret or with the password as asked, never both. Each call is answered exactly once, with the server's contents or with the error for what went wrong, also when it cannot even be sent.",
     "inputs fault_sequences histories", "every content of the files, every moment of a crash, every answer of the server",
     "no test covers the API client or its files at all",
     "api_client.c api_client.h libhttp/sync.c libduv/reader.c libdstr/jdump.c libdstr/jspec.c",
     [("tokens and nonces", "api_client.c"), ("synchronous requests", "libhttp/sync.c")])
prop("C33", "File operations do exactly what they say, and success means done",
     "Removing a tree removes everything in it and nothing else: symlinks are removed, never followed. Directory creation, copying, reading, writing, renaming, touching, listing, lookup, access checks, links and locks agree with POSIX on any tree, path length or name, leave every other file alone, and report an error exactly when they did not do their work; a short write is completed, a failed creation leaves nothing behind. A lock is held by one holder at a time; dirname and basename split any path by the documented table.",
     "inputs fault_sequences", "every tree, every path, every failing or short system call",
     "no test covers the file operations beyond mkdirs and path splitting on a few fixed trees",
     "libdstr/fileops.c libdstr/fileops.h libdstr/sb.c", [("file operations", "libdstr/fileops.c")])
prop("C38", "Command lines and configuration files are read by their documented rules",
     "For every option table, a command line is split into exactly its options with their values, in order, and its positional arguments, in order; the last value of an option wins and its count and order of appearance are right; callbacks run once per appearance. A configuration file gives exactly the option named on each line that is neither blank nor a comment, with the rest of the line, trimmed, as its value, whatever its line ends, also on a last line without one. Unknown options and missing or superfluous values are errors, in any position.",
     "inputs", "every option table, every argument vector, every text",
     "tests list a dozen command lines and five files",
     "libdstr/opt_parse.c libdstr/opt_parse.h", [("options", "libdstr/opt_parse.c")])
prop("C39", "No error loses its type or trace, no log line is lost or torn, objects die once",
     "Whatever sequence of raising, propagating, merging, rethrowing, catching, choosing and dropping errors happens, each error keeps the documented type and exactly the trace entries that belong to it, in order, and no memory is lost. Every message logged by any thread appears whole, once, in the thread's order, in each output whose level admits it, whatever its length. A reference counted object is finalized exactly once, after its last reference is gone and with everything done to it visible, without data races.",
     "inputs schedules histories", "every sequence of operations, every interleaving of threads",
     "tests run one thread and a few fixed sequences",
     "libdstr/logger.c libdstr/logger.h libdstr/refs.c libduv/stream.h libdstr/fmt.c",
     [("errors", "libdstr/logger.c"), ("reference counts", "libdstr/refs.c")])
prop("C29", "The device knows exactly the account's keys and encrypts to all of them",
     "While a user is logged in, the device holds exactly the public keys which the mail server last reported by XKEYSYNC: a key that is created is stored, a deleted one is forgotten, also across disconnects, restarts, crashes and failing disks. Every message it uploads is encrypted to each of these keys and its own, and to no other. Its own private key never changes while it is readable; it is registered with XKEYADD exactly when the server does not have it, and when the server drops it the clients are disconnected and the next login registers it again.",
     "histories schedules crash_points", "every history of keys created, deleted and re-created, logins, uploads, restarts and crashes",
     "tests add one key in one dialogue; whether the set stays right depends on the history",
     "libcitm/keydir.c libcitm/xkey.c libcitm/preuser.c libcitm/user.c libcitm/sc.c", [("key store", "libcitm/keydir.c"), ("XKEYSYNC handling", "libcitm/xkey.c"), ("own key upload", "libcitm/preuser.c")])
prop("C30", "Every new device on the account is announced to the user, once",
     "After the first key synchronization of a device, each key with a fingerprint it has not met before causes exactly one local \"New Device Detected\" message with that fingerprint in the INBOX, whether it is met through XKEYSYNC or as a recipient of a mail in a mailbox that was opened before. Keys met before then, or met again after deletion, restart or reconnect, cause none. A crash or failing disk may repeat but never lose an announcement; announcements are never uploaded to the server.",
     "histories crash_points", "every history of devices coming, going and reappearing, mail to unknown devices, mailboxes opened, restarts and crashes",
     "this is the user's defence against a compromised server; it depends on state kept across restarts which tests set up by hand",
     "libcitm/fpr_watcher.c libcitm/keydir.c", [("fingerprints seen", "libcitm/fpr_watcher.c"), ("announcement", "libcitm/keydir.c")])
prop("C36", "Plaintext never enters a STARTTLS session, and no secret leaves before it",
     "On a connection configured for STARTTLS, the only thing the citm as a client sends in the clear is one STARTTLS command; it sends a login only inside a verified TLS session, hands on only responses received inside it, and fails on a bad greeting, a refusal or an unverifiable server. As a server it announces STARTTLS and LOGINDISABLED, refuses LOGIN and every mailbox command in the clear, hands on only commands sent inside TLS, and never sends plaintext after answering STARTTLS. Complete or partial lines injected in the clear behind STARTTLS never become part of the session; with configured TLS the first byte is already encrypted.",
     "inputs schedules", "everything a man in the middle can say before, around and behind STARTTLS, in any pieces",
     "tests inject one complete line; partial lines, pipelined handshakes and splits of the wire are not tried",
     "libcitm/imap_server.c libcitm/imap_client.c libimap/read.c libduvtls/tls.c", [("STARTTLS as server", "libcitm/imap_server.c"), ("STARTTLS as client", "libcitm/imap_client.c")])

prop("C34", "Accounts, aliases, devices and limits in the database stay consistent",
     "Whatever accounts, aliases, devices, tokens and limits are created, changed, deleted and counted, concurrently and with failed transactions: every address belongs to at most one account, a deleted alias is never given to anyone else, limits on aliases, devices and mail are never exceeded, and each modification is recorded for the subscribers exactly when it was committed.",
     "histories schedules", "every interleaving of transactions on every history of the account database",
     "tests run one statement sequence against a fresh database",
     "server/libsmsql.c server/migmysql.c", [("account database", "server/libsmsql.c")])
prop("C35", "Only the holder of a password, session or token acts for an account",
     "Each call of the web service is carried out for an account only with its password, with an unexpired session and its CSRF token, or with a correctly signed request of its token whose nonce is higher than every one used before; every other call changes nothing and tells nothing about the account.",
     "inputs histories", "every call, session age, signature and nonce history",
     "tests make one call of each kind",
     "server/libsmsql.c server/rest/app.py server/rest/api.py", [("authentication", "server/rest/app.py")])

prop("C40", "The device obtains and keeps a valid TLS certificate by itself",
     "Once an installation is configured, the certificate manager obtains a certificate for the device's own name and renews it in time, whenever the services it needs work; what it puts in use always is a certificate for that name with its own key, unexpired; one in use is dropped at its expiry, not before. It creates one account, finishes a saved order instead of starting another, asks for validation only after the DNS proof of that order was confirmed, cleans the DNS record up afterwards; it never makes two calls at once, pauses 15 s to 30 min after failures, and reports its status truly. A crash at any file operation costs no more than the step it interrupted; after a close it ends exactly once and calls nothing more.",
     "histories crash_points schedules", "every history of failures, lost answers, crashes, restarts and passing time",
     "tests walk one path of the state machine with one failure at a time",
     "libcitm/acme_manager.c libcitm/uv_acme_manager.c",
     [("state machine", "libcitm/acme_manager.c"), ("certificate expiry", "libcitm/acme_manager.c")])
