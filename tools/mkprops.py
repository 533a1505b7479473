#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
DEC, ENC, REC, PKT = "src/packet/decoder.rs", "src/packet/encoder.rs", "src/packet/records.rs", "src/packet.rs"
RES, SVC, ADV, DIS, NAME, TAP = "src/resolver.rs", "src/service.rs", "src/service/advertising.rs", "src/service/discovery.rs", "src/name.rs", "src/tap.rs"
ARES, AADV, ADIS = "uwuhi-async/src/resolver.rs", "uwuhi-async/src/service/advertising.rs", "uwuhi-async/src/service/discovery.rs"

p("C01", "No received bytes can make the library panic",
  "For every byte string, handing it to the message decoder, the record decoders, the service/TXT parsers, the resolver's and discoverer's answer decoders, the tap's packet formatter or the advertiser's packet handler returns a value or an error; it never panics and never overflows an arithmetic operation.",
  ["inputs"], "every byte string of every length delivered as a packet, at every decoding entry point, and every state of the decoder reached by earlier calls",
  "The tests decode a dozen hand-written packets; a panic needs a particular malformed tail (a cut pointer, an odd RDATA length) that none of them has.",
  [DEC, REC, RES, DIS, ADV, SVC, TAP, ENC],
  [("every read is bounds-checked and returns Error::Eof", DEC+": Reader"), ("split_off truncates and checks rdlength", DEC+": Reader::split_off"), ("per-section remaining counters checked before decrement", DEC+": next_rr / next"), ("writer clips instead of indexing out of bounds", ENC+": Writer::write_slice")],
  [("reader position", "never beyond the end of the buffer", DEC+": Reader.pos"), ("writer position", "never beyond the end of the buffer", ENC+": Writer.pos")],
  ["decoder API", "Advertiser::handle_packet", "decode_answer"])

p("C02", "Domain-name decompression always terminates",
  "Decoding a domain name terminates for every message: every compression pointer that is followed leads to an offset strictly below the start of the name and below every pointer target already followed, and otherwise the cursor moves forward. A pointer to itself or further into the message is rejected as a pointer loop.",
  ["inputs"], "every message and every offset in it at which a name is decoded, including arbitrarily chained and overlapping pointers",
  "The two loop tests sample self-reference and one fall-through; termination quantifies over all pointer graphs.",
  [DEC], [("pointer target compared with the lowest offset visited", DEC+": Reader::read_domain_name"), ("lowest offset lowered on each jump", DEC+": Reader::read_domain_name")],
  [("min_pos", "offset that the next pointer must stay below", DEC+": read_domain_name")], ["Reader::read_domain_name via MessageDecoder"])

p("C03", "Every label holds 1 to 63 bytes",
  "No sequence of API calls, and no decoded packet, yields a domain label that is empty or longer than 63 bytes; the fallible constructors report such input as an empty-label or label-too-long error and the panicking one panics.",
  ["inputs", "programs"], "every byte string given to any label constructor, parser or packet decoder and every program using the public API",
  "The tests build three short labels; the invariant quantifies over all construction routes and lengths, and the encoder relies on it (a 64-byte label would be encoded as a compression pointer).",
  [NAME, DEC], [("single validating constructor, private field", NAME+": Label::try_new_impl")],
  [("Label.bytes", "1..=63 bytes", NAME)], ["Label::new", "Label::try_new", "DomainName::from_str"])

p("C04", "Message sections can only be written and read in order",
  "A program that adds an entry to a section other than the encoder's current one, reads entries of a section the decoder is not in, moves either back to an earlier section, or uses it after it was consumed does not compile; the forward order question, answer, authority, additional does.",
  ["programs"], "every program written against the encoder and decoder API",
  "Unit tests only contain programs that compile; that a misuse is rejected can only be shown by programs that must not compile.",
  [ENC, DEC, "src/packet/section.rs"], [("section type parameter; section-specific impls; consuming transitions", ENC+", "+DEC), ("sealed Section trait", "src/packet/section.rs")],
  (), ["type checker"])

p("C05", "The encoder stays in its buffer and never hides truncation",
  "Whatever entries are added, with any buffer of at least 12 bytes the encoder writes only inside that buffer; finishing succeeds with a length n only if every byte of every added entry was stored contiguously in the first n bytes, and otherwise fails with the truncation error. The finished header's truncation bit is set exactly when some data did not fit; a buffer shorter than a header is refused by a panic when the encoder is created.",
  ["inputs", "histories"], "every buffer length and every sequence of set_header/question/add_* calls",
  "The tests never encode a whole message, nor fill a buffer.",
  [ENC], [("write_slice clips and latches trunc", ENC+": Writer::write_slice"), ("finish reports trunc", ENC+": MessageEncoder::finish"), ("trunc latch survives the nested RDATA writer", ENC+": write_rr"), ("TC bit written on drop", ENC+": EncoderInner::drop")],
  [("Writer.trunc", "latched once data was dropped", ENC), ("Writer.pos", "end of the data stored", ENC)], ["MessageEncoder::finish", "header of the buffer"])

p("C06", "Section counts in the header are exact",
  "When an encoded message is finished or dropped, its question, answer, authority and additional counts are the numbers of entries completely stored through the respective section's method, whatever header was set before. When a message is decoded, at most the declared number of entries is produced for each section, each section using its own count, and a section ends early only after an error.",
  ["histories", "inputs"], "every sequence of encoder calls, every header, every decoding order (iterating, skipping, stopping half way)",
  "No test encodes a message; the decoded samples have zero authority and additional entries, so swapped or lost counts would pass.",
  [ENC, DEC, PKT], [("per-section counters written on drop", ENC+": EncoderInner::drop"), ("remaining counters initialised from the header, selected by section type", DEC+": MessageDecoder::new / remaining")],
  [("qdcount..arcount", "entries stored per section", ENC), ("*_remaining", "entries still to be read per section", DEC)], ["Header counts", "iterators"])

p("C07", "Records use the RFC wire format, the same when read and written",
  "For every supported record type, encoding writes exactly the fields of its RFC 1035/2782/3596 RDATA layout, in that order, at that width and in network byte order, and decoding reads the same layout into the same accessors. Character strings are a length byte and that many bytes, domain names a sequence of length-prefixed labels and a zero byte.",
  ["inputs"], "all field values of all nine record types, in both directions",
  "The round-trip test uses one sample per type and cannot see a change made to both directions alike, nor one that only affects other values.",
  [REC, ENC, DEC], [("RecordData::encode / RecordData::decode pairs", REC), ("Writer::write_* / Reader::read_* pairs", ENC+", "+DEC)],
  (), ["RDATA bytes", "record accessors"])

p("C08", "Type, class, opcode and rcode numbers are the assigned ones",
  "Every named record type, query type, class, query class, opcode and response code has its IANA number; each record type constant has the same number as the query type of the same name (likewise for classes); and each supported record is identified by, dispatched from and reported as the type of its own name.",
  ["inputs"], "all named constants and all nine record kinds, in both directions",
  "The tests touch five of about 130 constants.",
  [PKT, REC, "src/packet/macros.rs"], [("ffi_enum! tables", PKT), ("records! dispatch", REC)],
  (), ["Type/QType/Class/QClass/Opcode/RCode constants", "Record::record_type", "ResourceRecord::as_enum"])

p("C09", "Header fields are independent and at their RFC positions",
  "Each header setter changes exactly its own field, at the bit position RFC 1035 gives it in network byte order, and leaves every other bit of the header alone; the getter of that field then returns the value set (modulo the field's width). This holds for every header value.",
  ["inputs"], "all 2^96 headers and every argument of every setter",
  "The header test starts from the zero header only, so a setter that clobbers neighbouring bits or a byte-order slip passes.",
  [PKT, "src/num.rs"], [("bit masks and positions", PKT+": HeaderFlags"), ("big-endian wrappers", "src/num.rs")],
  (), ["Header getters/setters"])

p("C10", "A record's data is confined to its declared length",
  "Decoding the data of one record never reads a byte at or after the end given by its length field (compression pointers to earlier message parts aside), and the next entry always starts exactly at that end, however the record's data is decoded, even if not at all or not successfully. A record whose declared length exceeds the message is an error.",
  ["inputs", "histories"], "all messages, all RDATA lengths, all record types, decoded any number of times",
  "The samples only have RDATA whose length agrees with its content.",
  [DEC, REC], [("sub-reader truncated at the end of RDATA, outer cursor moved past it", DEC+": Reader::split_off"), ("records decode from a copy", REC+": Record::from_rr")],
  (), ["ResourceRecord::rdata", "ResourceRecord::as_enum", "following entries"])

p("C11", "Question and record headers are decoded field by field",
  "A decoded question is the name, 16-bit type and 15-bit class at the cursor, the class's top bit being split off; a decoded record is name, 16-bit type, 15-bit class, cache-flush flag (the class's top bit), 32-bit TTL and data, all big-endian; an encoded question or record is the same layout. No other bit of these fields is dropped or altered.",
  ["inputs"], "all values of all fields in both directions",
  "The samples use class IN, small TTLs and no cache-flush bit.",
  [DEC, ENC], [("read_question / read_resource_record", DEC), ("question / write_rr", ENC)],
  (), ["Question and ResourceRecord accessors", "bytes written"])

p("C12", "Decoding errors are reported once and never skipped over",
  "When an entry is malformed the decoder reports an error for it and never yields another entry after that; skipping to a later section fails if an entry skipped over is malformed. Iterating and calling next agree.",
  ["inputs", "histories"], "all malformed messages and all orders of next/iter/section-change calls",
  "No test decodes a message with a malformed entry.",
  [DEC], [("has_errored latch, carried across sections", DEC+": next / next_rr / change_section"), ("`?` on every skipped entry", DEC+": answers/authority/additional")],
  [("has_errored", "an entry failed to decode", DEC)], ["MessageDecoder::next", "iterators", "section changes"])

p("C13", "The advertiser only answers standard queries it can answer",
  "A packet gets a reply only if it decodes as a query (not a response) with opcode QUERY and response code NO_ERROR and at least one of its questions matches a registered record; every other packet gets no reply, so two advertisers can never keep answering each other.",
  ["inputs"], "all packets and all sets of registered records",
  "No test drives the advertiser.",
  [ADV], [("header checks before anything is encoded", ADV+": Advertiser::handle_packet"), ("relevance flag", ADV+": Advertiser::handle_packet")],
  (), ["Advertiser::handle_packet result"])

p("C14", "The advertiser answers exactly the matching records",
  "For each question of a query, every registered record whose name equals the question's name and whose type and class match the question's type and class is put in the answer section with its own name, class and time-to-live, and no other record is.",
  ["inputs", "histories"], "all queries with any number of questions and all registration histories",
  "No test drives the advertiser.",
  [ADV, PKT], [("three filters, then add_answer, for every entry and every question", ADV+": Advertiser::handle_packet")],
  (), ["answer section of the reply"])

p("C15", "Replies identify their query and go to whoever asked",
  "Every reply of an advertiser carries the query's ID, has the response and authoritative-answer bits set, opcode QUERY and response code NO_ERROR, consists of exactly the encoded bytes (the whole buffer when truncated, with the truncation bit set), and is sent to the address the query came from and nowhere else, in the blocking and in the async advertiser.",
  ["inputs", "histories"], "all queries, all senders, any number of earlier packets handled with the same buffer",
  "No test drives the advertiser, and the async crate has no tests.",
  [ADV, AADV], [("response header set from the query's", ADV+": handle_packet"), ("send_to(resp, addr) with addr from recv_from", ADV+", "+AADV)],
  (), ["datagrams sent"])

p("C16", "No packet can stop a listening service",
  "The advertisers' listening loops (blocking and async) and the tap end only when a socket operation fails: a packet that is malformed, truncated, irrelevant or hostile is dropped and the loop goes on to receive the next one. The resolvers and discoverers likewise ignore packets that they cannot decode or that hold nothing they asked for, and keep waiting.",
  ["inputs", "histories"], "all sequences of received packets, in seven loops",
  "No test opens a socket; the loops are never executed.",
  [ADV, AADV, TAP, RES, ARES, DIS, ADIS], [("errors of packet handling are logged, only socket errors use `?`", ADV+": listen_blocking; "+TAP+": listen; "+RES+": resolve_domain; "+DIS+": send_query and the async twins")],
  (), ["return of listen_blocking/listen/resolve_domain/send_query"])

p("C17", "Registering a service publishes its complete DNS-SD record set",
  "Adding an instance registers an SRV record with the instance's host and port and exactly one TXT record with all its attributes (one empty string when there are none) under instance.service.transport.local, a PTR to that name under service.transport.local, and a PTR to the service name under the DNS-SD enumeration name; adding a host name registers an A or AAAA record, by address family, under name.local. Records registered before are kept.",
  ["inputs", "histories"], "all instances, details and registration histories",
  "No test registers anything.",
  [ADV], [("four pushes in add_instance, one in add_name", ADV)],
  [("RecordDb.entries", "registered records", ADV)], ["answers to queries"])

p("C18", "Resolved addresses come from one valid response, unchanged",
  "The addresses returned are those of all A and AAAA records in the answer section of one packet that is marked as a response and decodes without error, in order and unaltered; addresses from earlier calls, from packets that failed to decode, or from other sections never appear in a result. Packets that do not answer the query that was sent are ignored.",
  ["inputs", "histories"], "all sequences of packets received and calls made, both resolvers",
  "No test calls a resolver.",
  [RES, ARES], [("QR check, answer section only, error propagation", RES+": decode_answer"), ("buffer cleared before use", RES+", "+ARES+": resolve_domain")],
  [("ip_buf", "addresses collected", RES)], ["resolve / resolve_domain results"])

p("C19", "Waiting for a DNS answer is always bounded by the timeout",
  "Every wait for a packet in the resolvers and discoverers is bounded by the configured timeout: no construction path or setter leaves a socket that can block without limit, the async variants race every receive against a timer of that duration, and a resolver whose wait expires returns an error to the caller instead of retrying silently.",
  ["fault_sequences", "histories"], "all patterns of lost packets, all sequences of setter calls, both blocking and async variants",
  "No test opens a socket or lets one time out.",
  [RES, ARES, DIS, ADIS], [("set_read_timeout(Some(..)) in constructors and setters", RES+", "+DIS), ("future::or(recv, timer)", ARES+", "+ADIS)],
  (), ["recv_from calls"])

p("C20", "Discovery stops at its deadline and retransmits until then",
  "Whatever packets arrive, a discovery checks the total discovery time against the configured limit before every wait and returns success once it has been reached; while it has not, each expired wait causes the same query to be sent again to the same server. It ends otherwise only when the callback asks to stop or a socket operation fails.",
  ["fault_sequences", "inputs"], "all arrival patterns (silence, floods of irrelevant or malformed packets, mixtures) in both variants",
  "No test runs a discovery.",
  [DIS, ADIS], [("elapsed() check at the head of the receive loop; continue 'retransmit on timeout", DIS+", "+ADIS+": send_query")],
  (), ["send_query"])

p("C21", "Discovery reports each result once and obeys a request to stop",
  "Within one call, the callback is invoked at most once for each distinct service instance (or service type) named by a PTR record in the answer section of a response, it is invoked for every one that decodes, and once it returns Break it is not invoked again and the call returns. Records that are of other types or do not decode are skipped without ending the discovery.",
  ["inputs", "histories"], "all sequences of response packets, duplicated and reordered, both variants",
  "No test runs a discovery.",
  [DIS, ADIS], [("BTreeMap entry per result", DIS+", "+ADIS+": discover_instances / discover_service_types"), ("ControlFlow propagated", DIS+": decode_answer, send_query")],
  (), ["callback invocations"])

p("C22", "A resolver's servers share its socket's family and are unicast",
  "A resolver's socket is bound to the unspecified address of the family of the server it was created with; adding a server of the other family panics, and so does adding any server to a resolver created for a multicast address. A query is sent once to every configured server.",
  ["inputs", "histories"], "all server addresses and sequences of add_server calls, both variants",
  "No test creates a resolver.",
  [RES, ARES], [("bind address chosen by family; two asserts in add_server", RES+", "+ARES)],
  [("is_multicast", "resolver was created for a multicast group", RES)], ["add_server", "datagrams sent"])

p("C23", "Service identities taken from the network are well-formed",
  "A service (type or instance) built from a PTR target, like one built by a constructor, always has a name starting with an underscore and a transport that was literally _tcp or _udp (_udp standing for anything but TCP); instance, service and transport are the first labels of the target in that order and must be followed by a domain. Anything else is reported as an error.",
  ["inputs"], "all PTR targets of any number of labels",
  "No test parses a service name.",
  [SVC], [("label-by-label parse", SVC+": Service::from_ptr, ServiceInstance::from_ptr"), ("assert in Service::new", SVC)],
  [("Service.name", "starts with an underscore", SVC)], ["Service::from_ptr", "ServiceInstance::from_ptr", "Service::new"])

p("C24", "TXT attributes follow the DNS-SD rules",
  "When TXT data is parsed, each string is split at its first '='; the part before is the key, matched without regard to ASCII case, the part after (if there was a '=') the value, byte for byte; the first occurrence of a key wins and strings with an empty key or a key that is not text are ignored. Lookups, insertions and iteration agree: an attribute that was added is found under any casing and listed once, flags without a value.",
  ["inputs", "histories"], "all TXT records and all sequences of lookups and insertions",
  "No test parses TXT attributes.",
  [SVC], [("splitn(2, '='), lowercased BTreeMap keys, or_insert", SVC+": TxtRecords")],
  [("TxtRecords.map", "keyed by the lowercased key", SVC)], ["TxtRecords::get / iter"])

p("C25", "Queries ask exactly what was requested",
  "A resolver's query asks for the A and the AAAA records of exactly the given name with recursion desired; a discovery query asks one question per requested type for exactly the given name, where the name is instance.service.transport.domain for details, service.transport.domain for instances and _services._dns-sd._udp.domain for service types; all are plain queries (no response bit, opcode QUERY) in class IN. The datagram is exactly the encoded query.",
  ["inputs"], "all names, services, instances, domains and type lists, both variants",
  "No test encodes a query.",
  [RES, DIS, ARES, ADIS], [("encode_query", RES+", "+DIS), ("name assembly", DIS+", "+ADIS)],
  (), ["datagrams sent"])

p("C26", "Received datagrams are processed whole and nothing else is",
  "Every receive uses a buffer of at least the library's mDNS message size, and exactly the bytes received, not more, not fewer and not leftovers of an earlier packet, are handed to the decoder.",
  ["inputs", "histories"], "all packet sizes up to the mDNS message size and all sequences of packets, in seven receive loops",
  "No test opens a socket.",
  [RES, ARES, DIS, ADIS, ADV, AADV, TAP, "src/lib.rs"], [("recv_from(&mut [0; MDNS_BUFFER_SIZE]) and &buf[..len]", "all receive loops")],
  (), ["recv_from calls", "decoder input"])

p("C27", "A decoded name is its labels in order; the cursor ends after it",
  "A decoded name consists of the labels met by reading from the cursor and continuing at each compression pointer's 14-bit target, in that order and complete; afterwards the cursor is just behind the name's terminating zero byte or its first compression pointer, never anywhere else. Reserved label kinds and over-long reads are errors.",
  ["inputs"], "all messages and offsets",
  "The tests decode three names; overlapping or chained pointers and reserved bits are not sampled.",
  [DEC], [("length byte dispatch", DEC+": Reader::read_domain_name"), ("cursor moved once, behind the first pointer", DEC+": Reader::read_domain_name")],
  (), ["decoded names", "entries following a name"])

p("C28", "Instance details come from the reply's SRV and TXT records",
  "Loading an instance's details returns host and port of an SRV record of a reply, together with the attributes of a TXT record of a reply if there was one; if no SRV record arrives within the discovery time the call fails with a timeout error, never with made-up details.",
  ["inputs", "fault_sequences"], "all sequences of replies, both variants",
  "No test runs a discovery.",
  [DIS, ADIS, SVC], [("SRV/TXT match in the callback; TimedOut when no SRV was seen", DIS+", "+ADIS+": load_instance_details"), ("from_srv", SVC)],
  (), ["load_instance_details result"])

p("C29", "Textual domain names are split at dots and validated",
  "Parsing a domain name yields exactly the dot-separated parts of the text, in order, as labels; one trailing dot is optional, \".\" and the empty string are the root, and an empty or over-long part makes the whole parse fail. Every label survives unchanged, and appending or collecting labels keeps their order.",
  ["inputs"], "all strings and all label sequences",
  "The tests parse five strings.",
  [NAME], [("split_terminator and per-label parse", NAME+": DomainName::from_str"), ("Extend / FromIterator / push_label", NAME)],
  (), ["DomainName::from_str", "labels"])

p("C30", "The library contains no unsafe code",
  "Neither crate contains an unsafe block, function, impl or attribute of its own (derive-generated byte-cast impls on plain integer wrappers aside), so no input and no calling program can cause memory unsafety in it.",
  ["inputs", "programs"], "the whole source of both crates, all inputs and programs",
  "Tests can only sample executions; absence of unsafe code is a fact about the source.",
  ["src/lib.rs", "src/num.rs", PKT, "src/packet/macros.rs", "uwuhi-async/src/lib.rs"], [("safe Rust; bytemuck derives check layout", "both crates")],
  (), ["compiler"])

p("C31", "Query types and classes match exactly the records they cover",
  "A query class matches a record class if it is ANY or has the same number; a query type matches a record type if it is ALL, or MAILB and the record is MB, MG or MR, or it has the same number and is not a meta type; AXFR and MAILA match nothing.",
  ["inputs"], "all 2^32 pairs of query and record type and of query and record class",
  "No test calls either match function.",
  [PKT], [("QType::matches, QClass::matches", PKT)],
  (), ["QType::matches", "QClass::matches"])

p("C32", "Decoding is repeatable and leaves its input alone",
  "Looking at a decoded entry (its raw data, its typed form, its printed form) any number of times and in any order gives the same result and does not move the decoder or change another entry.",
  ["histories", "inputs"], "all call orders on all decoded records",
  "The tests look at each record once, by printing it.",
  [DEC, REC], [("records decode from a clone of the record's reader", REC+": Record::from_rr")],
  (), ["ResourceRecord::rdata", "ResourceRecord::as_enum", "Display"])

p("C33", "Whole messages survive encoding and decoding",
  "Every message the encoder finishes without truncation decodes to the same header, questions and records in the same order.",
  ["inputs", "histories"], "all messages",
  "No test round-trips a message.",
  [ENC, DEC, REC], [("encoder and decoder as a whole", ENC+", "+DEC)], (), ["MessageEncoder then MessageDecoder"])

p("C35", "Multicast services and clients use the mDNS group, port and domain",
  "Every advertiser and tap that is created has a socket that is bound to port 5353 on all addresses, was set to share that port before binding, has joined 224.0.0.251 on the default interface, "
  "waits for packets without a time limit, and receives from everyone; creating one fails only if the system refuses one of these steps. "
  "The multicast constructors of resolvers and discoverers ask exactly 224.0.0.251:5353 or [ff02::fb]:5353, and multicast discoverers browse the domain local.",
  ["fault_sequences", "configurations"], "all outcomes of every socket operation during creation",
  "The tests open no sockets.",
  [ADV, AADV, TAP, RES, DIS, ARES, ADIS], [("socket creation", ADV+": create_socket, "+TAP+": SyncTap::new"), ("multicast constructors", RES+", "+DIS)],
  (), ["SyncAdvertiser::new and listen_blocking", "Advertiser::create_socket", "SyncTap::new", "new_multicast_v4", "new_multicast_v6"])

p("C36", "Printed and logged data cannot smuggle control characters",
  "Whatever bytes arrive from the network, the printed (Display, Debug) and logged forms of labels, domain names, records, services, TXT attributes, questions, messages and errors contain no control "
  "characters taken from them: every byte of a label, a TXT string or key, or any other text from a packet is escaped or replaced unless it is printable.",
  ["inputs"], "all packet contents, all places that format or log a value",
  "The tests print two labels.",
  [NAME, REC, SVC, DEC, ADIS], [("Display and Debug impls", NAME+", "+REC+", "+SVC), ("log statements", SVC+", "+ADIS)],
  (), ["Label, DomainName, TxtRecords, TXT: Display and Debug", "log::debug!, log::trace!"])

p("C37", "Printed names, entries and messages are complete and in order",
  "Printing a domain name writes every label in order, each followed by one dot, and a lone dot for the root. A printed question shows its name, class and type; a printed resource record shows its "
  "owner name, TTL, class, type and data; printed A, AAAA, CNAME, MX, NS, PTR, SRV and SOA data shows every field in wire order, separated; services and service instances show their names and transport. The listing "
  "the tap logs of a packet has a header line (query or response, ID, opcode, response code, flags), then one line for every question, answer, authority and additional record in order, and ends with an error "
  "at the first entry that cannot be decoded.",
  ["inputs"], "all names, records, questions, services and packets",
  "The tests print a handful of names and services.",
  [NAME, REC, SVC, DEC, TAP], [("Display impls", NAME+", "+REC+", "+SVC+", "+DEC), ("listing", DEC+": MessageDecoder::format, "+TAP)],
  (), ["DomainName, Question, ResourceRecord, Record, A … SOA, Service, ServiceInstance: Display", "SyncTap"])

p("C38", "Errors say what went wrong",
  "A message that ends before everything it announces is reported as Error::Eof, a compression pointer that does not lead to an earlier part as PointerLoop, a reserved kind of label as InvalidValue; no other "
  "cause in a packet yields these, and the error of the failing field is what iteration over a message, record decoding and packet handling return. Converted into io::Error, no decoding error looks like a timeout "
  "or an interruption (WouldBlock, TimedOut, Interrupted): missing data is UnexpectedEof, malformed data InvalidData, an invalid label InvalidInput. Every kind of error prints a text of its own.",
  ["inputs"], "all packets, every kind of error",
  "The tests see three kinds of errors for a few packets and convert none.",
  ["src/error.rs", DEC, REC, ADV], [("error kinds and their conversion", "src/error.rs: Error, From<Error> for io::Error"), ("error outcomes", DEC+": Reader, MessageDecoder")],
  (), ["Reader::read_domain_name", "Reader, MessageDecoder", "io::Error: From<Error>", "Advertiser::handle_packet"])

p("C39", "Equality, ordering and clones agree with the contents",
  "Two labels, domain names, service types, service instances, transports, record data, errors or numeric codes (types, classes, opcodes, response codes) are equal exactly when all their parts are: the same bytes in "
  "every label or text (case counts), the same labels in the same order, the same numbers; a borrowed and an owned name are no different. Ordering labels, services and instances gives Equal exactly for equal values, "
  "the opposite when the operands are swapped, and the same from partial_cmp and cmp, so that ordered collections of discovered instances keep different ones apart. A clone equals its original in every part.",
  ["inputs"], "all pairs of values",
  "The tests compare a handful of names and records, always with assert_eq on matching values.",
  [NAME, SVC, REC, "src/error.rs"], [("implementations of equality, ordering and cloning", NAME+", "+SVC+", "+REC+", src/packet/macros.rs, src/error.rs")],
  (), ["Label, DomainName, Service, ServiceInstance, ServiceTransport: PartialEq, Ord, Clone", "records A … SOA: PartialEq, Clone", "Type, Class, QType, QClass, Opcode, RCode, Error: PartialEq"])

p("C34", "Discovery finishes on time",
  "A discovery call returns no later than its discovery time plus one retransmit timeout plus the time spent in callbacks.",
  ["schedules", "fault_sequences"], "all schedules, clock behaviours and packet arrival patterns",
  "No test runs a discovery; real time cannot be enumerated.",
  [DIS, ADIS], [("deadline check per receive", DIS+", "+ADIS)], (), ["wall clock"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P), "properties")
