#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the long texts stay readable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=hook)))

CORE = "nora_ssh_core/src/"
RT = "The unit tests round-trip one fixed value per message through the library's own serializer and parser, so a layout that is wrong in both directions, a field value they do not use, or a malformed input is never seen."
NOSRV = "nora_ssh, nora_sshd and nora_scp have no tests at all; "

p("C01", "Every message is encoded exactly as the SSH RFCs lay it out",
  "Every message value the library can represent (transport, key-exchange, user-authentication, channel and session-request messages) serializes to exactly the message number and field layout of RFC 4253/4252/4254/5656, and parsing those bytes yields the same value again. For every output buffer size, serialization reports failure exactly when the message does not fit, never panics, and returns exactly the encoded bytes otherwise. The to-be-signed data of public-key authentication follows RFC 4252 section 7 in the same way.",
  ["inputs"], "all message kinds x all combinations of field values from a boundary alphabet x all buffer sizes",
  RT, [CORE+"message/mod.rs", CORE+"message/channel/mod.rs", CORE+"message/channel/session.rs", CORE+"message/userauth.rs", CORE+"message/service.rs", CORE+"message/key_exchange/mod.rs", CORE+"message/key_exchange/ecdh.rs", CORE+"data.rs"],
  [("make_string2/make_uint32/make_bool/make_raw/make_pos_mpint", CORE+"data.rs"), ("serialize/parse per message", CORE+"message/")],
  ["Message::serialize", "Message::parse", "SessionRequest::serialize", "SessionRequest::parse", "userauth::format_sign_data"])

p("C02", "Message parsing is total and accepts exactly the well-formed encodings",
  "For every byte string, parsing a message or a session request terminates without panicking. It succeeds exactly when the bytes are a complete, well-formed encoding of a known message with nothing missing and nothing left over (an open of a channel type other than session may carry data of its own type, any non-zero byte is a true boolean, text fields must be valid UTF-8/ASCII, name lists must be valid), and then yields the field values those bytes denote.",
  ["inputs"], "all byte strings: every short string over a boundary alphabet, every prefix, extension, single-byte change and length-field change of valid encodings",
  "The tests feed the parsers only the output of their own serializers; no malformed, truncated or over-long message is ever parsed.",
  [CORE+"message/mod.rs", CORE+"message/channel/mod.rs", CORE+"message/channel/session.rs", CORE+"message/userauth.rs", CORE+"message/key_exchange/mod.rs", CORE+"message/key_exchange/ecdh.rs", CORE+"data.rs"],
  [("parse_string/parse_uint32/parse_bool/split bounds checks", CORE+"data.rs"), ("Unread/Truncated checks", CORE+"message/")],
  ["Message::parse", "SessionRequest::parse", "data::parse_string"])

p("C03", "Name lists and identifiers are validated and read back exactly",
  "A byte string is accepted as a name list exactly when it is pure ASCII and has no empty name between, before or after commas (the empty list is allowed), and iterating the list yields exactly the comma-separated names, in order. ASCII strings are accepted exactly when they are ASCII, and an identification string exactly when it is at most 253 bytes, and each gives back the bytes it was made from.",
  ["inputs"], "all byte strings up to the bound over an alphabet of letters, commas, control and non-ASCII bytes; all lengths around the limits",
  "Three tests try one good list and four bad ones.",
  [CORE+"data.rs", CORE+"identifier.rs"], [("NameList::try_from / NameListIter", CORE+"data.rs"), ("Identifier::new", CORE+"identifier.rs")],
  ["NameList", "AsciiStr", "Identifier"])

p("C04", "Packet framing obeys RFC 4253 and gives back exactly the payload",
  "For every payload length, block size and length-field mode, wrapping a payload produces a packet whose length field is right, whose padding is at least 4 and at most 255 bytes, freshly filled from the random source, and whose total size is a multiple of the block size; unwrapping it yields exactly the payload. A raw buffer is accepted exactly when its length field is aligned and its padding fits inside the packet, and no accepted buffer makes an accessor read outside the packet.",
  ["inputs", "configurations"], "all payload lengths up to the bound x all block sizes x both modes; all length-field/padding-byte pairs for unwrapping",
  "There is no test of the packet code.", [CORE+"packet.rs"],
  [("Packet::wrap padding arithmetic", CORE+"packet.rs"), ("Packet::wrap_raw alignment and padding checks", CORE+"packet.rs")],
  ["Packet::wrap", "Packet::wrap_raw", "Packet accessors"])

p("C05", "Encryption is chacha20-poly1305@openssh.com, bit for bit, for every packet",
  "For every key, direction, packet length and sequence number, the bytes the cipher emits for a packet are exactly those that OpenSSH's PROTOCOL.chacha20poly1305 prescribes (length field under the second key, payload from block 1 and Poly1305 key from block 0 under the first key, tag over both ciphertexts), and a receiver holding the same keys that is given the sender's packets in order recovers each of them exactly. Sequence numbers advance by one per packet so no nonce is ever used twice under one key.",
  ["inputs", "histories"], "all packet lengths up to the bound, all packet sequences up to the bound, all directions, boundary start counters",
  "There is no test of the cipher; interoperability and nonce use over a history of packets cannot be seen from one packet.",
  [CORE+"cipher/chacha20poly1305.rs", CORE+"cipher/mod.rs"],
  [("nonce from packet counter", CORE+"cipher/chacha20poly1305.rs"), ("encrypt/decrypt_length/decrypt_data", CORE+"cipher/chacha20poly1305.rs")],
  ["Cipher::encrypt", "Cipher::decrypt_length", "Cipher::decrypt_data"],
  state=[dict(name="counter", meaning="sequence number = nonce of the next packet", where=CORE+"cipher/chacha20poly1305.rs")])

p("C06", "No altered, replayed, reordered or reflected packet is ever accepted",
  "A receiver accepts a packet only if it is, bit for bit, the next packet its peer sent in that direction under that key; every modification of length, payload or tag, every truncation, replay, reordering, omission and every packet of the opposite direction or of another key is refused. A refused packet is not decrypted in the caller's buffer and does not change what the receiver accepts afterwards.",
  ["inputs", "fault_sequences", "histories"], "all single-bit and single-byte changes of packets of all lengths up to the bound; all delivery sequences up to the bound over genuine, replayed, reordered, reflected and forged packets",
  "There is no test of authentication failure of any kind.",
  [CORE+"cipher/chacha20poly1305.rs"], [("authenticate before apply_data", CORE+"cipher/chacha20poly1305.rs"), ("counter only advances on success", CORE+"cipher/chacha20poly1305.rs")],
  ["Cipher::decrypt_data"])

p("C07", "Session keys are derived exactly as RFC 4253 section 7.2 prescribes",
  "For every shared secret, exchange hash, direction and requested length, the initial IV, encryption key and integrity key are those of RFC 4253 section 7.2 (letters A to F, secret as mpint, key extension by hashing everything produced so far), and the exchange hash is the RFC 5656/8731 hash over both identification strings, both KEXINIT payloads, the host key blob, both ephemeral keys and the secret. Different directions and purposes never share a key.",
  ["inputs"], "all secrets with 0..32 leading zero bytes and both sign bits, all directions, purposes and output lengths up to the bound; all field-value combinations of the exchange hash from a boundary alphabet",
  "There is no test of key derivation or of the exchange hash.",
  [CORE+"key_exchange.rs", CORE+"message/key_exchange/ecdh.rs", CORE+"data.rs"],
  [("KeyMaterial::gen/digest_k1/digest_kn", CORE+"key_exchange.rs"), ("KeyExchangeDigest typestate chain", CORE+"message/key_exchange/ecdh.rs"), ("make_pos_mpint", CORE+"data.rs")],
  ["KeyMaterial::{initial_iv,encryption_key,integrity_key}", "KeyExchangeDigest"])

p("C08", "Every conforming client completes the key exchange with an authentic server",
  "For every conforming client (any identification string, KEXINIT, ephemeral key and segmentation of its bytes), the server's handshake completes: its ECDH reply carries its host key, a fresh ephemeral key and a signature by that host key over the exchange hash of exactly this exchange, and the first encrypted packets of both directions use the keys of that exchange and sequence number 3 (4 after a discarded wrong guess). Two connections never use the same server ephemeral key.",
  ["inputs", "schedules", "configurations"], "client identification strings, KEXINIT variants, ephemeral keys (including ones whose shared secret has leading zeros or the top bit set), byte segmentations and write stalls",
  NOSRV+"a handshake needs a peer implementation and depends on the shared secret's encoding and on how bytes are segmented.",
  ["nora_ssh/src/host.rs", "nora_ssh/src/packet.rs", "nora_ssh/src/identifier.rs", CORE+"message/key_exchange/ecdh.rs", CORE+"key_exchange.rs"],
  [("Host::handle_new_client", "nora_ssh/src/host.rs")], ["Server::start over a virtual transport, observed by an independent client"])

p("C09", "A handshake never completes on an unacceptable offer",
  "The server sends its key-exchange reply only if the client's KEXINIT lists, in each of the classes key exchange, host key, encryption (both directions) and compression (both directions), an algorithm the server supports, as an exact name, and only for a 32-byte client key whose shared secret is not all zero; it switches to encrypted packets only after the client's NEWKEYS. Otherwise the connection is closed without reply and no handler is called.",
  ["inputs", "configurations"], "all name lists up to the bound per class over supported, unsupported and near-miss names; all client key lengths up to the bound and all low-order points; all wrong messages at each handshake step",
  NOSRV+"the decision depends on six lists, the key and the message order.",
  ["nora_ssh/src/host.rs"], [("algorithm checks in handle_new_client", "nora_ssh/src/host.rs")], ["Server::start over a virtual transport"])

p("C10", "The identification exchange accepts exactly SSH-2.0 lines",
  "The server sends its own identification line first and then uses the first CR LF terminated line that starts with SSH-: lines before it that start otherwise, empty ones included, are skipped, the handshake goes on exactly when that line starts with SSH-2.0- and has at most 253 characters, and the exchange hash covers that line exactly. Any other protocol version or an over-long line closes the connection.",
  ["inputs", "schedules"], "all strings up to the bound over an alphabet of S, H, -, CR, LF and other bytes as preamble; all line lengths around the limit; all byte segmentations",
  NOSRV+"the line scanner is a byte-level state machine whose wrong transitions show only on particular preambles.",
  ["nora_ssh/src/identifier.rs", CORE+"identifier.rs"], [("identifier::parse state machine", "nora_ssh/src/identifier.rs")], ["Server::start over a virtual transport"])

p("C11", "No channel, command or shell before successful authentication",
  "For every sequence of messages a client sends, the server neither confirms a channel nor calls the application's spawn handler before the application's authenticate handler has returned success on that very connection and the success message has been sent. After that, every command runs with exactly the user value the handler returned for that connection, also while other connections authenticate at the same time.",
  ["histories", "schedules"], "all message sequences up to the bound over authentication, channel and transport messages; all interleavings of two authenticating connections up to the bound",
  NOSRV+"it quantifies over message histories and interleavings.",
  ["nora_ssh/src/server.rs"], [("authenticate_new_client loop", "nora_ssh/src/server.rs"), ("Client.user", "nora_ssh/src/server.rs")], ["ServerHandlers callbacks", "server-to-client messages"])

p("C12", "Authentication answers are exactly the application's verdicts",
  "The authenticate handler is called exactly once for each none, password and signed public-key request, with exactly the user, service and credentials of that request; the client gets a success message exactly when the handler approved and a failure message (naming publickey and password, no partial success) when it refused, after which it may try again. A key query is answered with the same algorithm and blob, or failure, according to the application's key lookup and never authenticates; methods the server does not support get a failure message.",
  ["histories", "inputs"], "all request sequences up to the bound over methods, users, credentials and handler verdicts, credentials of all boundary lengths",
  NOSRV+"it quantifies over request histories and handler answers.",
  ["nora_ssh/src/server.rs", CORE+"message/userauth.rs"], [("authenticate_new_client match on Method", "nora_ssh/src/server.rs")], ["ServerHandlers::authenticate/public_key_exists arguments", "USERAUTH replies"])

p("C13", "A public-key signature is bound to this session, user and key",
  "Whenever the application is asked to verify a public-key signature, the message it is given is exactly the RFC 4252 section 7 data of this session's identifier and of the user, service, algorithm and key blob of this request, and the raw key and signature are the ones inside the request's blobs. A request whose key or signature blob is malformed, has bytes left over or names another algorithm is never passed to the application.",
  ["inputs", "histories"], "all combinations of users, services, algorithms, key and signature blobs (well-formed, mismatched, truncated, extended) at every boundary length, on first and later attempts and on several sessions",
  NOSRV+"a signature accepted for the wrong data is invisible unless every component is varied.",
  ["nora_ssh/src/server.rs", CORE+"message/userauth.rs"], [("format_sign_data call and blob checks", "nora_ssh/src/server.rs")], ["Auth::PublicKey fields seen by the handler"])

p("C14", "Client data reaches the process's stdin complete, in order, exactly once",
  "For every segmentation of the incoming bytes, every timing of process output and every short or delayed acceptance by the process's stdin, the bytes a process receives on stdin are exactly the data the client sent on its channel, in order, followed by end-of-file once the client sends EOF or closes the channel. Data sent when there is no process or stdin left to take it is dropped without any other effect.",
  ["schedules", "inputs", "fault_sequences"], "all schedules of the scenario with at most the stated number of deviations: byte segmentation, event order, select order, short, delayed and failing writes",
  NOSRV+"loss needs an output event to arrive while a packet is partly received or a write is partly done.",
  ["nora_ssh/src/server.rs", "nora_ssh/src/host.rs", "nora_ssh/src/sync.rs"], [("Client::receive Data/Eof/Close arms", "nora_ssh/src/server.rs"), ("In::recv", "nora_ssh/src/host.rs")], ["the Stdin object the handler returned"])

p("C15", "Process output reaches the client complete, in order, on its own stream",
  "For every schedule, what the client receives as data on a channel is exactly the bytes the channel's process wrote to stdout, and as stderr extended data exactly the bytes it wrote to stderr, each complete and in order, without waiting for anything but the transport being writable, the client's window and the process producing output.",
  ["schedules", "inputs"], "all schedules of the scenario with at most the stated number of deviations; chunk sizes around the read buffer size",
  NOSRV+"loss, duplication or a stall needs a particular interleaving of input handling, output and write stalls.",
  ["nora_ssh/src/server.rs", "nora_ssh/src/sync.rs"], [("Client::start output arms", "nora_ssh/src/server.rs"), ("LocalMutex wake-ups", "nora_ssh/src/sync.rs")], ["server-to-client CHANNEL_DATA / CHANNEL_EXTENDED_DATA"])

p("C16", "Exit status, EOF and close are each sent once, after all output",
  "For every schedule in which a process ends, the client receives the process's exit status exactly once, EOF exactly once after all of that channel's data, and close exactly once as the last message of the channel, whichever of stdout, stderr and the process ends first. A client that closes a channel gets a close back, and nothing is sent on a channel after its close.",
  ["schedules"], "all orders of stdout end, stderr end and process exit, with all schedules up to the stated number of deviations, with and without stdout/stderr pipes, one and two channels",
  NOSRV+"the order of three independent completions decides.",
  ["nora_ssh/src/server.rs"], [("Client::start wait_exit / EOF / close handling", "nora_ssh/src/server.rs")], ["server-to-client channel messages"])

p("C17", "The server's outgoing byte stream is always whole packets in sequence",
  "For every schedule, including short and stalled transport writes at any point while input, replies and process output are pending, the bytes the server emits after the handshake are a sequence of complete, authentic packets with consecutive sequence numbers: no packet is torn, interleaved, lost, duplicated or sent under a used sequence number.",
  ["schedules", "fault_sequences"], "all schedules of the scenario with at most the stated number of deviations, with a short or stalled write possible at every write",
  NOSRV+"needs a stalled write at a particular moment.",
  ["nora_ssh/src/server.rs", "nora_ssh/src/host.rs", "nora_ssh/src/sync.rs"], [("LocalMutex around (Write, Out)", "nora_ssh/src/server.rs"), ("Out::send", "nora_ssh/src/host.rs")], ["transport bytes, decrypted by an independent client"])

p("C18", "Channels are independent: every message acts on exactly its channel",
  "For every sequence of channel messages, each session open is confirmed with a channel number no open channel has, each request that asks for a reply gets exactly one success or failure, in order, addressed to its own channel, and requests, data, EOF and close act on exactly the channel they name. A shell or exec request starts exactly one process with exactly the requested command, at most one per channel; unsupported requests and channel types other than session are answered with failure and change nothing.",
  ["histories"], "all sequences of channel messages up to the bound over two to three channels, all peer channel numbers from a boundary alphabet",
  NOSRV+"it quantifies over message histories with channel reuse.",
  ["nora_ssh/src/server.rs", "nora_ssh/src/arena.rs"], [("Arena slot allocation", "nora_ssh/src/arena.rs"), ("Client::receive", "nora_ssh/src/server.rs")], ["server-to-client messages", "ServerHandlers::spawn", "Stdin objects"],
  state=[dict(name="channels", meaning="open channels by server channel number", where="nora_ssh/src/server.rs")])

p("C19", "No peer can crash the server or disturb other connections",
  "Whatever bytes or messages a peer sends at any stage of its connection, and whatever the application's handlers answer, the server keeps running: at worst that peer's connection is closed, while every other established connection and every new one works as before.",
  ["inputs", "histories"], "every message kind and every malformed variant of the alphabet at every stage of a connection, with a second connection established before and a third after",
  NOSRV+"a single unexpected message ends the whole process, and which one depends on the stage.",
  ["nora_ssh/src/server.rs", "nora_ssh/src/host.rs", "nora_ssh/src/packet.rs", "nora_ssh/src/identifier.rs"], [("error returns of handle_new_client, authenticate_new_client, receive", "nora_ssh/src/")], ["Server::start does not end; bystander connection traffic"])

p("C20", "Transport and pipe faults end one connection cleanly and release everything",
  "If a connection's reads or writes fail, or the peer disconnects, at any point of its life, the server drops that connection's transport, process input and pending output handling, keeps running and keeps serving others; a failing or closed process pipe never ends more than the use of that pipe.",
  ["fault_sequences", "crash_points"], "a read error, end of stream or write error at every I/O operation of a whole connection; every pipe read/write failing; every stage for a disconnect",
  NOSRV+"it quantifies over fault positions.",
  ["nora_ssh/src/server.rs", "nora_ssh/src/host.rs"], [("error propagation out of Client::start", "nora_ssh/src/server.rs")], ["drops of the transport and stdin objects", "bystander connection traffic"])

p("C21", "Connections make progress independently of stalled ones",
  "For every schedule, a connection whose bytes and handlers are ready makes progress to completion even while any other connection is stalled in any phase (handshake, authentication, handler call, transport write, process stdin), and data stalled towards one process's output does not stop input handling, nor the other way round. The same holds for one that never stalls at all: a program that never runs out of output or a peer that never stops sending keeps neither its own connection's other messages and channels nor anybody else waiting.",
  ["schedules"], "one connection stalled at every possible point of its life, or with output or messages of 22 kinds without end, others run to completion; all schedules up to the stated number of deviations",
  NOSRV+"a lost wake-up or a wait in the wrong place needs a stall at one particular point.",
  ["nora_ssh/src/server.rs", "nora_ssh/src/sync.rs"], [("Server::start select over FuturesUnordered", "nora_ssh/src/server.rs"), ("LocalMutex", "nora_ssh/src/sync.rs")], ["traffic of both connections"])

p("C22", "scp -t stores exactly the announced files and acknowledges step by step",
  "For every sequence of file headers and contents (any size, any UTF-8 file name without a slash, any bytes, any segmentation), the receiver stores under the announced name, or the path given on its command line, exactly the announced number of content bytes, and sends one acknowledgement at the start, one after each header and one after each file is completely stored, never earlier.",
  ["inputs", "histories", "crash_points"], "all file sizes of the boundary alphabet x names x file counts x both target modes; the input cut at every byte",
  NOSRV+"sizes around the buffer boundary, names with spaces and cut streams are not exercised.",
  ["nora_scp/src/main.rs"], [("read_header / transfer_file", "nora_scp/src/main.rs")], ["files created in the target directory", "bytes on stdout"])

p("C23", "scp -t never writes outside its target",
  "Whatever header the sending side supplies, the receiver creates or changes no file other than the target paths given on its command line or, in directory mode, a plain entry directly inside the target directory (symbolic links that were already there aside); a name that is empty, is . or .., or contains a slash is refused and nothing is written.",
  ["inputs"], "all file names up to the bound over an alphabet of letters, dots, slashes and spaces, plus absolute and nested names",
  NOSRV+"a hostile sender chooses the name.",
  ["nora_scp/src/main.rs"], [("file name check before File::create", "nora_scp/src/main.rs")], ["the file tree around the target directory"])

p("C24", "scp -f sends every file faithfully and in protocol order",
  "For every list of readable files, the sender waits for an acknowledgement before each header, after each header and after each content, announces exactly the file's size, base name and a C header, sends exactly its bytes followed by one zero byte, and a receiver connected to it ends up with identical files. It stops with an error when an acknowledgement is missing or is an error.",
  ["inputs", "histories", "crash_points"], "all file sizes of the boundary alphabet x names x file counts; the acknowledgement stream cut and corrupted at every position",
  NOSRV+"there is no test of the sender.",
  ["nora_scp/src/main.rs"], [("send", "nora_scp/src/main.rs")], ["bytes on stdout", "exit status"])

p("C25", "scp reports failure: bad or cut-short transfers never look successful",
  "If the peer's stream is malformed or ends before the transfer is complete, at any byte, or a local file cannot be opened or created, scp exits with a non-zero status and does not acknowledge the affected file; it exits with status zero exactly when all files were transferred and acknowledged. It never crashes on any input.",
  ["inputs", "crash_points"], "the stream cut at every byte; every header field replaced by malformed values; every first byte; unreadable and uncreatable paths",
  NOSRV+"it quantifies over all malformed inputs and cut points.",
  ["nora_scp/src/main.rs"], [("main error handling, read_header validation", "nora_scp/src/main.rs")], ["exit status", "acknowledgements on stdout"])

p("C26", "The example sshd lets in only clients that prove possession of their key",
  "The example server grants access exactly for a signed public-key request whose ed25519 signature by the offered key over this session's data verifies; none, password, key queries, other algorithms, malformed keys and every altered signature, user or session are refused with a failure or a closed connection, and the server keeps running.",
  ["inputs", "histories"], "every authentication method and every alteration of each component of a valid request, first or after failures",
  NOSRV+"there is no test of the daemon.",
  ["nora_sshd/src/main.rs", "nora_ssh/src/server.rs"], [("Handlers::authenticate / public_key_exists", "nora_sshd/src/main.rs")], ["USERAUTH replies of the running daemon over loopback TCP"])

p("C27", "The example sshd runs the requested command faithfully and survives bad ones",
  "An exec request runs the command's whitespace-separated words as program and arguments, with the client's data on its stdin and its stdout and stderr returned separately and completely; the reported exit status is the program's own exit code, never zero for a program that was killed. An empty or unknown command is answered with failure and the server keeps serving.",
  ["inputs", "histories"], "commands of the alphabet (words, spacing, exit codes, signals, output sizes, missing programs), one or two channels",
  NOSRV+"there is no test of the daemon.",
  ["nora_sshd/src/main.rs", "nora_ssh/src/server.rs"], [("Handlers::spawn", "nora_sshd/src/main.rs")], ["channel messages of the running daemon over loopback TCP"])

p("C28", "What has ended leaves nothing behind",
  "However many commands, channels, requests, refused logins and connections have come and gone on a running server, in whatever order and however they ended, it keeps nothing of them: when they are over, every process pipe, exit-status future, transport and user value it was given has been dropped, and its memory does not grow with their number.",
  ["histories", "schedules", "fault_sequences"], "cycles of all pairs [triples] of 34 kinds of events on a connection repeated over a hundred times; crowds of channels; refused requests; connections that end in every way and at every byte position of the step, one after the other",
  "A server runs for months; tests run one short session and look only at replies, so a value kept per command or per connection passes them.",
  ["nora_ssh/src/server.rs", "nora_ssh/src/arena.rs"], [("Server::start client lists, IoSet pending outputs, Arena remove", "nora_ssh/src/server.rs")], ["drop of the handles given to the server", "bytes allocated by the server and not freed when all is at rest"])

p("C29", "Flow control: neither side is sent more than it allows, and nobody starves",
  "For every schedule, the data and extended data the server sends on a channel never exceed the window the client granted when opening it and by its adjustments, and no single message carries more than the client's maximum packet size; output goes on as soon as window is granted, in order and complete, and while it waits nothing else is held back: not input, replies, other channels or other connections. The window and packet size the server itself grants are ones it can take, and it keeps extending the window, so a client that keeps within them can send any amount of input on a channel, whether a program takes it or not.",
  ["schedules", "histories", "inputs"], "windows, packet sizes, grants and output sizes from boundary alphabets and all windows to 600; all sequences of grants; all schedules of the scenarios up to the stated number of deviations; input up to 5 MB [20 MB]",
  NOSRV+"a window violation or a stall needs output larger than the window, grants at particular moments, or megabytes of input.",
  ["nora_ssh/src/server.rs", "nora_ssh_core/src/message/channel/mod.rs"], [("PeerChannel window, Channel::consume", "nora_ssh/src/server.rs"), ("WindowAdjust", "nora_ssh_core/src/message/channel/mod.rs")], ["server-to-client CHANNEL_DATA / CHANNEL_EXTENDED_DATA / WINDOW_ADJUST / OPEN_CONFIRMATION"])

p("C30", "The example sshd keeps no process, descriptor or work of what is over",
  "However commands, channels and connections of the example daemon end (of themselves, by a signal, by a closed channel, by a client that vanishes at any stage or is refused), once the programs have ended and the connections are gone the daemon has no child process left of them, dead or alive, and no open descriptor. A program whose client is gone or whose channel is closed gets the end of its input and cannot write on, so that it can end. A daemon with nothing to do uses no processor time, whatever is open and waiting, and a program is given its three streams and no other descriptor.",
  ["histories", "fault_sequences"], "all pairs [triples] of 26 ways in which a connection goes, all pairs of 11 kinds of channels on a connection that stays, crowds, 11 states of waiting",
  NOSRV+"a daemon that leaves a zombie, a pipe or a spinning task per connection answers every request of a test.",
  ["nora_sshd/src/main.rs", "nora_ssh/src/server.rs"], [("Handlers::spawn, Handlers::accept", "nora_sshd/src/main.rs"), ("Client::start input and output", "nora_ssh/src/server.rs")], ["/proc of the running daemon: descriptors, children, processor time", "channel messages over loopback TCP"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
