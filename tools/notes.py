NOTE.update({
"C01":"Every line, raw read and final error of the real line reader is compared with the peer's stream under drawn fragmentation, delays, empty reads, deadlines and cuts.",
"C02":"Whole sessions of plain and compressed sections, produced by the standard library's compressor, are read by the real reader and compared item by item; cuts and bit flips must surface as errors.",
"C03":"Binary sections are read and closed at drawn points and the stream position afterwards is compared with the plan, plain and compressed.",
"C04":"Line lengths are drawn around the limit and the buffer sizes; acceptance must depend on length only and consumption must stay bounded.",
})
NOTE.update({
"C05":"Operation histories run on the real writers and the wire is decoded independently after operations; equality is demanded after a flush, a switch-off and a close.",
"C06":"One transport failure per run at a drawn offset and of a drawn kind; no transport call may follow it, later operations must fail, the wire must stay a prefix. A close after a failure is only required to stay silent on the wire.",
"C07":"Armed state is checked at every simulated transport write and simulated time spent per operation is bounded by its armings; what a close does after a one-shot arming failure is not judged.",
"C08":"Close is placed anywhere in histories of both directions; transport calls after close are counted and the other direction is compared with its plan.",
"C09":"Two live endpoints of each protocol; a missing byte shows as a simulated deadlock. Windows are at least 256 bytes, since a section end may stay unread until the next read.",
})
NOTE.update({
"C10":"Messages of every registered type with drawn field values travel over simulated connections, directly, through relays, compressed and cut; the receiver's list is compared with the sender's. Values NMDC cannot represent are outside the domain (DESIGN.md).",
"C11":"Bad messages are planted among good ones; every good one must arrive unchanged and every bad one be reported once.",
"C12":"Hook sets with drawn decisions on both sides; call history, delivered messages and wire are compared with a reference filter.",
"C13":"Encoders and decoders are switched between messages, by hooks and by concurrent tasks; every message must be in one encoding that was current, in order.",
"C14":"Packets of every kind and command travel over simulated connections with relays, compression and cuts; also compared with an independent encoder of the ADC wire format.",
"C15":"Malformed packets of listed kinds are planted among good ones; each must be rejected alone.",
"C16":"Mutated valid sessions and protocol-shaped noise are read by the real readers with usual replies; panics, unbounded loops, memory growth and reads after the end are violations.",
"C17":"Deep copies of delivered messages, errors and written messages are compared again after later traffic, and written buffers are scribbled on after the call.",
"C18":"Several connections run interleaved with faults on some; each connection's history must equal what it is alone.",
"C19":"Datagrams are lost, duplicated, reordered, truncated and corrupted; each arriving one is judged on its own bytes.",
"C20":"Sources deliver in drawn pieces with faults; results are compared with an independent tree hash (its Tiger primitive is the repository's dependency).",
"C21":"A TLS client and server run over the simulated connection with seeded randomness; presented chains, keys, faults and moments of verification are drawn. Real crypto/tls and crypto/x509 run; only Ed25519 identities.",
"C22":"Certificate files of drawn blocks are read through a faulty simulated source and compared with what they were made of.",
"C25":"Download and upload logic, disk and crashes are scripted in the simulator; messages, sections, readers, writers and hashes are the library's. The original root and leaves come from an independent Tiger tree.",
"C24":"Hub and clients are scripted in the simulator over the real readers, writers and messages; keys, password hashes, client ids, session ids and negotiated sets are computed by the library on one side and by code of our own on the other.",
"C26":"Hub, clients, shares and matching by words and sizes are scripted; messages, packets, readers, writers and the groups of extensions are the library's. Expected queries, results and connections come from the plan, matched with code of our own.",
"C27":"Hubs and clients are scripted in the simulator; dialling is a map from the address meant to a simulated hub. Addresses, their normal forms and the messages that carry them are the library's; what an address means comes from how it was spelled.",
"C23":"crypto/rand.Reader is replaced by a simulated source with pieces, empty reads and failures; ids are compared with the bytes delivered.",
})
