#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one source of truth for titles and statements).
import json, os
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=None)))
LR="lineproto/reader.go"; LW="lineproto/writer.go"; NR="nmdc/reader.go"; NW="nmdc/writer.go"; AR="adc/reader.go"; AW="adc/writer.go"

p("C01","Inbound lines do not depend on how the transport cuts the stream",
 "Reading lines from a byte stream yields exactly the delimiter-terminated lines the peer sent, byte for byte and in order, and raw reads between lines yield exactly the bytes in between, however the transport fragments delivery (one byte at a time, empty reads, data returned together with the final error). At the end of the stream an unterminated tail is only ever returned together with the end-of-stream error, and no byte is lost, duplicated or invented. A transient read error or an expired read deadline between complete lines is reported to the caller and reading can continue afterwards without losing a line.",
 ["inputs","schedules","fault_sequences"],
 "All streams of lines (including empty lines, lines spanning several internal buffers, arbitrary bytes other than the delimiter), all fragmentations, all interleavings of delivery with line reads and raw reads, all placements of empty reads, read deadlines and end of stream.",
 "The tests read from one in-memory buffer that returns everything in one call; they never deliver a line in several pieces, an empty read, an expired deadline or data together with an error.",
 [LR],[("buffered scan for the delimiter with carry-over of partial lines","lineproto/reader.go Reader.ReadLine, bufReader.Scan"),("raw read drains the buffer before the transport","lineproto/reader.go bufReader.Read")],
 [("bufReader.buf/off","bytes received but not consumed","lineproto/reader.go")],["ReadLine / Read results"])

p("C02","Switching inbound compression on and off loses no bytes",
 "When a stream alternates between plain and zlib-compressed sections and the receiver enables inflating at the marked points, the lines and raw bytes it reads are exactly those sent, in order, across every switch, including bytes that were already buffered when compression was enabled and plain bytes that directly follow the end of a compressed section in the same network segment. The end of a compressed section is never reported as the end of the stream, and a later section can be enabled the same way. Enabling inflating while it is on is refused and changes nothing. A compressed section that is cut short or corrupted is reported as an error other than a clean end of stream before any byte that was not sent is delivered as plain data.",
 ["inputs","schedules","fault_sequences"],
 "All sequences of plain and compressed sections (empty ones included), all compression levels and flush placements by the sender, all fragmentations of the wire, all cut points inside a compressed section.",
 "Tests switch once or twice over an in-memory buffer; segment boundaries around the switch, repeated sections, and truncation are not explored.",
 [LR],[("switch the active reader to a zlib reader over the same buffer","lineproto/reader.go Reader.EnableZlib"),("fall back to the original reader at end of the compressed section","lineproto/reader.go Reader.ReadLine, Reader.Read")],
 [("Reader.cur/original/compressed","active, plain and inflating readers","lineproto/reader.go")],["ReadLine / Read results"])

p("C03","A binary section consumes exactly its announced bytes",
 "A binary section of n bytes delivers exactly the next n bytes of the (decompressed) stream and then end of file, whatever read sizes the caller uses and however the transport fragments delivery. Closing it early, at any point, discards exactly the unread remainder, so that the line after the section is the next thing read. It never consumes a byte beyond the section, also when the section straddles buffered data or the end of a compressed part, and a transport error while draining is reported by the close.",
 ["inputs","schedules","fault_sequences"],
 "All section lengths (0 to several internal buffers), read sizes, early-close points, fragmentations, plain and compressed placement, transport faults inside the section.",
 "The tests use one short section in an in-memory buffer and read it fully.",
 [LR],[("length-limited view over the reader, drained on close","lineproto/reader.go Reader.Binary, binaryReader.Close")],[],["Binary reader results, following ReadLine"])

p("C04","The line length limit is exact and bounds what a peer can make us buffer",
 "With a maximum line length m set, a line whose length including its delimiter is at most m is delivered, and a longer line is never delivered but reported as an error; the outcome does not depend on how the transport fragments the line. With no limit, lines of any length are delivered; a reader whose limit was never set has a finite one. A peer that never sends a delimiter makes the receiver consume no more than the limit plus a fixed number of internal buffers before the error is reported.",
 ["inputs","schedules"],
 "All limits, all line lengths around the limit and around internal buffer sizes, all fragmentations, plain and compressed streams, lines before and after in the same segment.",
 "No test sets a limit; the default limit is only reached by more data than any test sends.",
 [LR],[("length check in the scan loop","lineproto/reader.go Reader.ReadLine, Reader.SetMaxLine")],[],["ReadLine results, bytes taken from the transport"])

p("C05","Flushed output reaches the wire completely and in order",
 "What a writer puts on the wire decodes, as the peer would decode it (plain and compressed sections in sequence), to the concatenation of the lines and raw writes it accepted, in order, with nothing lost, duplicated or reordered; after a successful flush, compression switch-off or close all accepted data is on the wire and decodable. Before that the wire decodes to a prefix of the accepted data. Buffer size, compression level, the transport's write granularity and the mix of lines and raw writes never change the decoded result, and the caller may reuse its buffers as soon as a call returns.",
 ["inputs","schedules","histories"],
 "All sequences of line writes, raw writes, flushes, compression switches at all levels, and close; all buffer sizes; all piecewise transport write schedules.",
 "Tests write a handful of lines to a bytes.Buffer with one buffer size.",
 [LW],[("buffered writer re-targeted at each compression switch after a flush","lineproto/writer.go Writer.EnableZlibLevel, DisableZlib, Flush, Write")],
 [("Writer.bw/cur/zlibW","buffer, active sink, deflater","lineproto/writer.go")],["bytes written to the transport"])

p("C06","After a transport write failure nothing further is sent and the error sticks",
 "When the transport fails a write at any point (permanently or once, with or without accepting part of the data), the call that caused the write, or at the latest the next flush, reports an error, and every later line write, raw write, flush or compression switch reports an error too. No byte is handed to the transport after the failure, so the bytes the peer has received are always an exact prefix of the intended stream, never a stream with a gap. No call ever reports success for data that follows a failed write.",
 ["fault_sequences","histories","crash_points"],
 "All positions and kinds of a write failure (short write, timeout, one-shot or permanent) crossed with all operation histories, plain and compressed, and all buffer sizes.",
 "No existing test injects a write error.",
 [LW,NW,AW],[("sticky error consulted by every operation","lineproto/writer.go Writer.err, setError")],[("Writer.err","last transport error","lineproto/writer.go")],["bytes accepted by the transport, call results"])

p("C07","A configured write timeout covers every write to the transport",
 "When a write-timeout callback is configured on a writer, it is armed before any byte is handed to the transport by any operation (line write, raw write, flush, compression switch, close) and disarmed again by the time the operation returns, on success and on failure. Hence a peer that stops reading can block an operation for no longer than the configured timeout. If arming fails, nothing is sent and the error is reported by that operation and all later ones.",
 ["schedules","fault_sequences","histories"],
 "All operation histories, buffer sizes, peer stalls at any time and for any duration, failures of the arming callback, failures of the transport.",
 "No existing test configures the timeout callback or a stalling peer.",
 [LW],[("timeout callback around buffered writes and flushes","lineproto/writer.go Writer.Timeout uses")],[],["order of callback and transport write events in simulated time"])

p("C08","Closing readers and writers is safe at any point and final",
 "Closing a reader or writer, at any point of its life, more than once, and after a transport failure, never panics; closing a healthy writer flushes all accepted data and terminates an active compressed section so that the peer reads all of it, and a writer whose transport fails during close reports that. After close every further operation reports an error and neither reads from nor writes to the transport. Closing a reader does not wait for the peer: it reads nothing more. Closing one direction does not affect the other direction of the same connection.",
 ["histories","fault_sequences","crash_points"],
 "All operation histories followed by close at any point and arbitrary later operations, plain and compressed, with and without preceding faults.",
 "Tests close at most once at the very end of a successful run.",
 [LR,LW],[("close releases buffers and latches a closed error","lineproto/writer.go Writer.Close, lineproto/reader.go Reader.Close")],[],["call results, transport calls after close"])

p("C09","Every flushed line is delivered without waiting for more traffic",
 "Once a sender has flushed a line and the transport has delivered its bytes, the receiver's read returns that line without needing any further byte from the peer, in plain and compressed mode, right after compression is enabled or disabled, and for both protocols. Two peers that alternate requests and responses, each flushing before it waits, therefore never deadlock. Neither side consumes time or input without making progress.",
 ["schedules","inputs","fault_sequences"],
 "All request/response exchanges with compression toggled at any point in either direction, all delivery schedules, delays, fragmentations and window sizes.",
 "Tests never have two live peers: the whole input is present before the first read.",
 [LR,LW,NR,AR],[("sync flush of the deflater","lineproto/writer.go Writer.Flush"),("scan returns at the first delimiter","lineproto/reader.go bufReader.Scan")],[],["simulated deadlock detection"])

p("C10","NMDC messages arrive exactly once, in order and unchanged",
 "Every sequence of NMDC messages of any registered type, chat or unknown command whose fields the protocol can represent, which a writer accepts and flushes, is decoded by the receiving side to equal messages, exactly once and in order, for a text encoding both sides agree on and across compression being switched on by the sender's in-band signal. The bytes on the wire are those the protocol defines for these messages, so it holds as well when the other side is another implementation. If the connection is cut at any byte, the receiver gets exactly the messages that were completely delivered followed by an error, never a partial or altered message; a connection that was reset is never reported as one that ended normally. A relay that forwards messages raw or decoded and re-encoded passes them on unchanged. The registry names exactly the registered message types and makes an empty message of each; any other name is treated as unknown.",
 ["inputs","schedules","crash_points"],
 "All message values in each type's documented domain, all sequences, batchings, encodings, fragmentations, compression points and cut points.",
 "Tests marshal and unmarshal about one sample value per type from memory, without transport, sequences or cuts.",
 ["nmdc/reader.go","nmdc/writer.go","nmdc/message.go","nmdc/types.go","nmdc/msg_chat.go","nmdc/msg_ctm.go","nmdc/msg_files.go","nmdc/msg_hub.go","nmdc/msg_lock.go","nmdc/msg_search.go","nmdc/msg_user.go","nmdc/msg_user_list.go","nmdc/msg_ping.go"],
 [("typed marshal and unmarshal with escaping and text encoding","nmdc/message.go MarshalTo, nmdc/reader.go readMsgTo"),("in-band compression signal","nmdc/writer.go ZOnLevel")],[],["decoded messages"])

p("C11","A malformed NMDC message never disturbs its neighbours",
 "A malformed, oversized-name or unexpected NMDC message is reported as an error (or handed to the configured error hook) for that message only: every well-formed message before and after it on the connection is decoded exactly as if the bad one were absent. No decoded message ever mixes data of two messages. When only certain message types are accepted, any other message is reported as unexpected with its own name and payload, and the following message can still be read. Messages in the older and looser forms that clients in the wild send (older escapes, the variants of the MyINFO tag, shortened hub information, lists without their last separator, padded numbers) are read as the message they stand for.",
 ["inputs","histories","schedules"],
 "All sequences mixing well-formed, malformed and unexpected messages, expected-type sets, error-hook decisions, and fragmentations.",
 "Tests feed malformed messages in isolation and stop at the error.",
 [NR],[("one line is consumed per decode attempt","nmdc/reader.go readMsgTo"),("typed expectation errors","nmdc/reader.go ErrUnexpectedCommand")],[],["decoded messages and errors"])

p("C12","Line and message hooks see every message once and filter exactly",
 "Every registered hook on a reader or writer is called exactly once, in registration order, for each line or message that reaches its stage; a message rejected by a hook (false, no error) is dropped entirely and reaches no later hook, caller or the wire, while all other messages, including the rest of a batch written in one call, are unaffected. A hook error is reported to the caller. Keep-alive messages invoke the keep-alive hook once each and are never delivered as messages.",
 ["histories","schedules","inputs"],
 "All hook sets and decision sequences on both sides and both protocols, all message sequences, batches, fragmentations and compression states.",
 "Tests install hooks in one NMDC read case; dropping, errors and write-side hooks are untested.",
 [LR,LW,NR,NW,AR],[("hook loops in line and message stages","lineproto/reader.go ReadLine, lineproto/writer.go WriteLine, nmdc/reader.go readMsgTo, nmdc/writer.go WriteMsg, adc/reader.go")],[],["hook call history versus reference filter"])

p("C13","Text encoding switches apply from a message boundary and lose nothing",
 "When text that is not valid in the current encoding is received, the encoding hook is called with it and, if it supplies a decoder, that message and all later ones are decoded with it; if it declines, the message is delivered with its unreadable bytes replaced or reported when even that is malformed, and following messages are unaffected. A change of encoder or decoder made between messages or by another task takes effect at a whole-message boundary: each message is encoded or decoded entirely in one encoding. No message is lost, duplicated or re-ordered by a switch.",
 ["schedules","histories","inputs"],
 "All placements of encoding changes by the hook or by a concurrent task relative to message boundaries, all text values and encodings.",
 "One test switches encoding once over an in-memory buffer; concurrent switching is untested.",
 [NR,NW],[("atomically replaced encoder and decoder loaded per message","nmdc/reader.go SetDecoder, nmdc/writer.go SetEncoder"),("fallback hook and second decode","nmdc/reader.go OnUnknownEncoding")],[("Reader.dec / Writer.enc","current text transcoders","nmdc/reader.go, nmdc/writer.go")],["decoded messages"])

p("C14","ADC packets arrive exactly once, in order and unchanged",
 "Every sequence of ADC packets of any kind (broadcast, hub, info, client, direct, echo, feature, UDP) with any registered or unknown command that a writer accepts and flushes is decoded by the receiving side to equal packets and message fields, exactly once and in order, including through a relay that forwards them without decoding the command, and across compression being switched on by the sender. The bytes on the wire are those the protocol defines for these packets, so it holds as well when the other side is another implementation, which may write a whole number with an exponent or fraction and spell out zeros. If the connection is cut at any byte the receiver gets exactly the completely delivered packets followed by an error; a connection that was reset is never reported as one that ended normally. Keep-alive lines never appear as packets. Decoding into a message that was decoded into before gives what the new packet says: an INF update changes exactly the fields it names (an empty value clears one), and nothing of an earlier GET, SND, STA or command path is left over.",
 ["inputs","schedules","crash_points"],
 "All packet kinds, addresses, feature selectors and message values in each field's domain (spaces, newlines and backslashes in text included), all sequences, writer buffer sizes, fragmentations, compression points and cuts.",
 "Tests decode single packets from constant strings; reader, writer and streams over a transport are untested.",
 ["adc/reader.go","adc/writer.go","adc/packets.go","adc/marshal.go","adc/messages.go","adc/types.go","adc/hub.go","adc/user.go","adc/search.go","adc/files.go","adc/connect.go"],
 [("packet framing and lazy command decoding","adc/packets.go"),("reflective field marshalling","adc/marshal.go"),("per-kind writer helpers","adc/writer.go")],[],["decoded packets"])

p("C15","A malformed ADC packet never disturbs its neighbours",
 "A malformed ADC packet is reported as an error for that packet only: it is never accepted as a packet with a wrong address or partial command, and every well-formed packet before and after it is decoded exactly as if it were absent. Malformed means a bad or missing kind, a session id of the wrong length, missing separators, bad feature selectors, or a command with missing or malformed mandatory fields (numbers that do not fit their field included); an accepted command has the values its text gives. A packet previously returned is not altered by reading later ones.",
 ["inputs","histories","schedules"],
 "All sequences mixing well-formed and malformed packets, all fragmentations.",
 "Tests check a few malformed strings in isolation.",
 ["adc/packets.go","adc/reader.go","adc/marshal.go"],[("length and separator checks per packet kind","adc/packets.go DecodePacket"),("field parse errors","adc/marshal.go Unmarshal")],[],["decoded packets and errors"])

p("C16","A hostile peer can make a connection fail but never crash or hang it",
 "For any byte stream whatsoever sent by a peer, with any fragmentation and cut, reading messages through either protocol (compression, hooks, binary sections and the usual replies such as answering a lock challenge included) returns messages or errors and never panics. Each read finishes after finitely many transport reads, and once the peer has closed the connection reading ends within a bounded number of calls.",
 ["inputs","fault_sequences","schedules"],
 "All peer byte streams (mutations of valid sessions with corrupted, dropped, duplicated and spliced bytes, and protocol-shaped random lines), all fragmentations and cut points.",
 "Tests feed well-formed or slightly malformed constant messages.",
 ["lineproto/reader.go","nmdc/reader.go","nmdc/msg_lock.go","nmdc/msg_search.go","nmdc/msg_user.go","nmdc/msg_files.go","adc/reader.go","adc/packets.go","adc/marshal.go","adc/types.go","tiger/tiger.go"],
 [("bounds checks in all parsers","nmdc/msg_*.go, adc/*.go")],[],["panics, step counts"])

p("C17","Delivered messages stay valid and inputs are never altered",
 "A decoded message, packet or error handed to the application keeps its value however much is read from the connection afterwards. Encoding a message changes neither the message nor any data it references, and encoding the same message again gives the same bytes (apart from the order of parameters that the message holds as a set) whatever was encoded in between. Asking a message for what it stands for (the key of a lock, a text form) does not change it either. Buffers passed to a write call are neither modified nor still referenced after it returns.",
 ["histories","inputs","schedules"],
 "All message values and error kinds in both protocols, retained across arbitrarily many later reads and writes on the same and other connections.",
 "Tests compare a decoded value immediately and discard the reader.",
 ["lineproto/reader.go","nmdc/reader.go","nmdc/message.go","nmdc/writer.go","adc/packets.go","adc/marshal.go","adc/writer.go"],
 [("copy on decode of everything that outlives the line buffer","nmdc/message.go RawMessage, adc/packets.go, nmdc/reader.go")],[],["retained values re-checked after later traffic"])

p("C18","Concurrent connections are isolated from each other",
 "Messages sent and received on one connection are the same whether or not other connections of the same process are active, closing, failing or switching compression or encoding at the same time, for every interleaving of their operations. No data, error, compression state or encoding leaks from one connection to another.",
 ["schedules","fault_sequences"],
 "All interleavings of several simultaneously active connections, at the granularity of transport calls and of encoder and decoder callbacks, with faults on some of them.",
 "Tests use one connection at a time, and a data race or leak between connections needs a specific interleaving.",
 ["lineproto/reader.go","lineproto/writer.go","nmdc/reader.go","nmdc/writer.go","nmdc/message.go","adc/reader.go","adc/writer.go","adc/marshal.go"],
 [("all mutable state is per reader or writer","lineproto, nmdc, adc")],[],["per-connection histories"])

p("C19","Each search or result datagram decodes on its own",
 "A protocol message sent as a datagram decodes to the message sent whatever happened to other datagrams: loss, duplication or reordering of others has no effect, and a duplicated datagram decodes to an equal message again. A truncated or corrupted datagram yields an error or a message that genuinely corresponds to the received bytes, never a panic, and has no effect on later ones.",
 ["fault_sequences","inputs","schedules"],
 "All sequences of NMDC and ADC datagrams under loss, duplication, reordering, truncation and corruption.",
 "Tests decode single constant datagrams.",
 ["nmdc/message.go","nmdc/msg_search.go","adc/packets.go","adc/search.go","adc/marshal.go"],
 [("stateless decode of one datagram","nmdc/message.go Unmarshal, adc/packets.go DecodePacket")],[],["decoded datagrams versus reference"])

p("C20","Tiger tree hashes depend only on the content, not on how it is read",
 "The tree hash and the leaf list of a source are those defined by Tiger Tree Hash over 1024-byte blocks of its content, for every content length and however the source delivers it (short reads, empty reads, data together with end of file); the root computed from the leaves equals the root computed directly. A read error other than end of file is always returned and no hash is then reported as valid. Computing a root from a leaf list does not modify the list. The text of a hash is its base32 (or hexadecimal) form, from which every parser restores the same hash, and a text that is too short, too long or not base32 is refused.",
 ["inputs","fault_sequences","schedules"],
 "All contents and lengths around block and tree-level boundaries, all read granularities, all error positions.",
 "Tests hash a few in-memory buffers whose reader always fills the block.",
 ["tiger/tth.go"],[("block reading loop","tiger/tth.go TreeHash, TreeLeaves"),("pairwise combination with odd-node promotion","tiger/tth.go")],[],["returned hashes versus an independent reference"])

p("C21","Keyprint verification accepts exactly the advertised certificate",
 "Verifying a TLS connection against a keyprint succeeds if and only if the handshake has completed and the keyprint is that of the certificate the peer proved to own, or of a presented certificate in the unbroken chain that issued it, for any fragmentation, delay or interruption of the transport and wherever in the handshake a fault occurs. A connection whose handshake failed, was cut or corrupted, or whose peer presents a different certificate (also one that adds the advertised certificate without owning or being issued by it), is never reported as verified. Reported keyprints of a peer are those of all certificates it presented, in order.",
 ["fault_sequences","schedules","inputs"],
 "All transport fault placements during the handshake, certificate chains, matching, non-matching, malformed and empty keyprints.",
 "The TLS helper package has no tests at all.",
 ["keyprint/tlskp/tlskp.go","keyprint/keyprint.go"],[("completed handshake and issuing chain required","keyprint/tlskp/tlskp.go VerifyKeyPrint"),("hash comparison","keyprint/tlskp/tlskp.go, keyprint/keyprint.go")],[],["verification result versus the certificate the server used"])

p("C22","Keyprints of a certificate file reflect the whole file or an error",
 "The keyprints read from a certificate file are those of all its certificate blocks, in order, skipping other blocks and text, however the source delivers the bytes. If reading the source fails at any point the error is returned and no keyprints are, and a file without a certificate is an error.",
 ["fault_sequences","inputs"],
 "All sequences of certificate and other PEM blocks and surrounding text, all read granularities and error positions.",
 "One test reads one certificate from a string.",
 ["keyprint/keyprint.go"],[("read the whole source, then decode PEM blocks","keyprint/keyprint.go FromFile")],[],["returned keyprints"])

p("C23","A generated private id is fully random or an error",
 "Generating a private id either returns an id every byte of which came from the random source, or an error; a random source that delivers its bytes in pieces still gives a fully random id. Two generations never reuse the same random bytes. A failure of the random source is always reported. An id that is stored as text and restored is the same id, and a damaged text is refused.",
 ["fault_sequences","schedules"],
 "All piecewise deliveries and failures of the random source, all interleavings of concurrent generations.",
 "No test generates an id with a short or failing random source.",
 ["adc/types/types.go"],[("full read from the random source","adc/types/types.go NewPID")],[],["id bytes versus bytes delivered by the simulated source"])

p("C24","Logins end with the same conclusion on both sides",
 "When clients log in to a hub (NMDC or ADC) or two NMDC clients connect to each other, a peer that answers the challenge (the lock's key, the salted password hash, the client id that is the hash of the private id) correctly is admitted and one that answers wrongly is not, whichever side is this library and whichever is another implementation of the protocol. Both sides end with the same set of negotiated extensions or features: exactly those both announced, with later additions and removals applied in order and without changing what either side stored before. Both know the client by the same name and session id, different clients get different session ids, and each message sent afterwards reaches exactly the users it is addressed to, by name, session id or announced features. A connection cut at any byte leaves no side believing more than the other confirmed.",
 ["histories","schedules","crash_points","inputs"],
 "All challenges, right and wrong answers, announced and updated feature sets, session numbers, interleavings of several clients logging in, fragmentations and cut points.",
 "Tests compute a few fixed keys and one feature intersection; no test runs a login between two parties.",
 ["nmdc/msg_lock.go","nmdc/extensions.go","adc/types.go","adc/extensions.go","adc/types/types.go","tiger/tiger.go","nmdc/msg_user.go","nmdc/msg_pass.go","nmdc/msg_hub.go","adc/packets.go","adc/hub.go"],
 [("answer derived from the challenge","nmdc/msg_lock.go CustomKey, adc/types/types.go CID.Hash"),("set intersection and update","nmdc/extensions.go Supports.Intersect, Extensions; adc/types.go ModFeatures.SetFrom, Intersect"),("base32 session id of a number","adc/types/types.go SIDFromInt")],[],["conclusions each side recorded; messages each client received"])

p("C25","Downloads resumed over broken connections give exactly the file",
 "A client that fetches a file from one or more peers over NMDC or ADC connections, first its hash leaves and then its data in segments, resuming from what it has after every broken connection, crash, refusal or early stop, ends with exactly the file the root hash names. The request a peer sees is the one the client made, the range and compression a peer grants are those the client is told, the bytes that arrive before a break are a correct prefix of the segment, and a segment ends where it was announced to end, plain or compressed, with the next message after it. Leaves are accepted exactly when they hash to the root, and a block exactly when it equals the original, so damaged copies and wrong, missing or superfluous leaves (also none at all) are rejected and good ones are not. Once faults stop, the download completes within a bounded number of connections.",
 ["crash_points","histories","schedules","inputs"],
 "All files, segmentations, compression choices, cut offsets, crashes with or without what was written, busy peers, damaged copies and wrong leaves.",
 "No test transfers a file; messages, compressed sections and hashes are tested one at a time on fixed inputs without any fault.",
 ["nmdc/msg_files.go","adc/files.go","lineproto/reader.go","lineproto/writer.go","tiger/tth.go","tiger/tiger.go"],
 [("segment read as raw or inflated bytes","lineproto/reader.go Binary, EnableZlib"),("segment written between messages","lineproto/writer.go Write, EnableZlibLevel, DisableZlib"),("requests and grants","nmdc ADCGet/ADCSnd, adc GetRequest/GetResponse"),("leaves checked against the root","tiger Leaves.TreeHash, TreeLeaves")],[],["bytes and ranges each client received against the original files; blocks accepted and rejected"])

p("C26","Searches reach their audience and bring every matching file",
 "A search a client sends to a hub (NMDC or ADC, active or passive, by words, sizes, kind, extension, group of extensions or hash) reaches exactly the users it is meant for, each once, and means there what it meant to the one who sent it: the files that match for the one who answers are those that match the original query, whatever form of the command was used on the way. Results come back to the one who searched, through the hub exactly once or as datagrams each of which gives its own result whatever happens to others, with the name, size, hash, slots and token that were sent. A request to connect to the one who answered leads the right side to dial the right address with the right token, kind and security, in all combinations of modes. A broken connection loses messages but never gives a user another query, result or address.",
 ["inputs","histories","schedules","crash_points"],
 "All queries and shares, mixes of modes and extensions, interleavings of several searchers, datagram loss, duplication and reordering, and cut points.",
 "Tests encode and decode one search message at a time; no test carries a query to another user and its results back.",
 ["nmdc/msg_search.go","nmdc/msg_ctm.go","nmdc/msg_user.go","adc/search.go","adc/connect.go","adc/packets.go","adc/user.go"],
 [("query carried by either form","nmdc/msg_search.go Search, TTHSearchActive, TTHSearchPassive; adc/search.go SearchRequest"),("result addressed to the searcher","nmdc/msg_search.go SR; adc/search.go SearchResult, UDPPacket"),("groups of extensions","adc/search.go ExtGroup.Matches"),("who dials whom","nmdc/msg_ctm.go, adc/connect.go")],[],["queries, results and connections each user saw against the original queries and shares"])
p("C27","Redirects and failover lead to the right hub",
 "Any spelling of a hub address (scheme missing, an alias or in another case, with or without a port, trailing slashes, pinned certificate, IPv6) told in a redirect, a failover list or a hub's information leads to the same hub: parsing gives its scheme, host, port and key print, the normal form is stable and equal for spellings of the same address and differs for other hubs, and the functions for both protocols agree with the protocol's own. An address without a host, with an unknown protocol or with a malformed port is refused, a well-formed one is not. A client that follows redirects and failover lists and visits each normal form once ends within as many visits as there are addresses, at a hub that welcomes it if one on its way does, whatever connections break.",
 ["inputs","histories","crash_points"],
 "All spellings of addresses, redirect and failover graphs, cut points and fragmentations.",
 "Tests parse a table of addresses; no test follows one.",
 ["conn.go","nmdc/conn.go","adc/conn.go","nmdc/msg_other.go","nmdc/msg_hub.go","adc/hub.go","keyprint/keyprint.go"],
 [("scheme defaults and aliases","nmdc/conn.go ParseAddr, NormalizeAddr; adc/conn.go"),("protocol chosen by scheme","conn.go ParseAddr"),("lists of addresses in messages","nmdc FailOver, ForceMove, HubINFO; adc HubInfo, Disconnect")],[],["addresses dialled against the hubs meant"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
