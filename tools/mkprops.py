#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))
HOOK="re-export of value types that live in private modules (Afd, Param, ParamKey, csync Flags, dnssec Algorithm and DigestType), under cfg(maybe_dns_verif)"

p("C01","Parsing arbitrary bytes always returns a packet or an error",
 "For every byte string given to the packet parser, parsing returns either a packet or an error after an amount of work and memory bounded by the input size; it never panics, never loops and never exhausts memory. The error is an ordinary value that can be printed and whose chain of causes ends. Reading any accessor of a packet obtained this way, rendering its names as text, and serialising it again (plain or compressed) also returns normally.",
 ["inputs","configurations"],"all byte strings up to 65535 bytes, with every feature combination",
 "The tests feed about a dozen well-formed captures; hostile lengths, pointer cycles, truncations and reserved codes are never tried, and no finite sample settles termination.",
 ["src/packet.rs","src/buffer.rs","src/header.rs","src/rdata/mod.rs","src/rdata/svcb.rs","src/rdata/csync.rs","src/rdata/dnssec.rs","src/fqdn.rs"],
 [("bounds checks of the read cursor","src/buffer.rs extract_bytes/peek_bytes/advance/sub_buffer"),("pointer limit in name decoding","src/buffer.rs extract_fqdn")],
 [("read position","next byte to decode, never beyond the buffer","src/buffer.rs DnsBuffer.pos")],
 ["Packet::try_from(&[u8])","Packet accessors","FQDN Display","to_bytes / to_bytes_compressed"])

p("C02","A serialised packet parses back to the same packet",
 "For every packet built through the public API from valid content (labels of 1 to 63 bytes, names of at most 255 bytes, character strings of at most 255 bytes, lengths and counts that fit their wire fields), parsing the plain serialisation succeeds and gives the same id, the same header flags, and in every section the same entries in the same order with the same name, type, class, TTL and data. Letter case and non-ASCII bytes in names are preserved.",
 ["inputs","configurations"],"all valid packets over all record types, with every feature combination",
 "Tests serialise a handful of hand-written packets and mostly compare sizes; most record types are never round-tripped.",
 ["src/packet.rs","src/question.rs","src/resource.rs","src/header.rs","src/fqdn.rs","src/rdata/mod.rs"],
 [("serialiser/parser pair per type","src/rdata/*.rs to_bytes and TryFrom<&mut DnsBuffer>")],
 [("sections","questions, answers, authorities, additionals","src/packet.rs Packet")],
 ["Packet::to_bytes","Packet::try_from"],HOOK)

p("C03","The compressed serialisation decodes to the same packet",
 "For every valid packet, of any size, the compressed serialisation parses back to the same content as the plain one and is never longer than it. Every compression pointer in it refers to an earlier offset below 16384 of the same message at which exactly the labels it stands for are found. A question name or record owner name that was already written earlier at such an offset is not spelled out again.",
 ["inputs","configurations"],"all valid packets, including messages longer than 16 KiB and names that share suffixes or nearly collide",
 "The compressed form is exercised on one or two small packets; the 14-bit offset limit, suffix sharing across sections and record data, and near-colliding names are not reached.",
 ["src/fqdn.rs","src/packet.rs","src/util.rs","src/resource.rs","src/rdata/soa.rs","src/rdata/mx.rs","src/rdata/srv.rs","src/rdata/minfo.rs","src/rdata/naptr.rs"],
 [("dictionary of already written suffixes","src/fqdn.rs to_bytes_compressed, src/util.rs hash_fqdn"),("offset bookkeeping","src/packet.rs, src/resource.rs to_bytes_compressed")],
 [("names","suffix digest to message offset","HashMap passed through to_bytes_compressed")],
 ["Packet::to_bytes_compressed"],HOOK)

p("C04","Section counts on the wire always match the sections",
 "After any sequence of public operations on a packet (construction, parsing, adding, replacing, taking or editing entries in place, replacing the header), the four section counts in the plain and in the compressed serialisation equal the number of entries in the corresponding sections. Consequently both serialisations always parse back.",
 ["histories"],"all finite histories of packet operations with at most 65535 entries per section",
 "Tests build each packet with one short fixed history; counts are kept redundantly in the header and the history decides whether they drift.",
 ["src/packet.rs","src/header.rs"],
 [("counts kept in the header and rewritten on serialisation","src/packet.rs add_*/set_*/take_*, to_bytes, to_bytes_compressed")],
 [("header counts","redundant copy of the section lengths","src/header.rs Header.*_count")],
 ["Packet::to_bytes","Packet::to_bytes_compressed"])

p("C05","Header fields are independent, set exactly, and placed as RFC 1035 says",
 "After any sequence of header operations each getter returns the value last given to its setter, and no setter changes another field, except that marking a packet as a query clears the recursion-available flag and the response code, and setting a non-zero response code or recursion-available marks it as a response. On the wire id, flags, opcode and response code occupy the RFC 1035 bit positions, and parsing the header gives the same getters back.",
 ["histories","inputs"],"all header states and all sequences of setter calls; all 65536 flag words on input",
 "No test calls the flag setters in sequence or checks their interaction; parsed flag words are checked on about ten values.",
 ["src/header.rs","src/packet.rs"],
 [("bit field layout and setters","src/header.rs FlagBitfield, Header::set_*")],
 [("flags","two flag bytes","src/header.rs FlagBitfield")],
 ["Header and Packet getters/setters","Header::to_bytes"])

p("C06","Compressed names resolve exactly, through backward pointers only",
 "Reading a name from any position of any message yields exactly the labels found by following compression pointers, and leaves the read position just behind the name's own bytes (behind the first pointer or the terminating zero). A pointer that does not point strictly before the run of labels it was reached from, a label or pointer that runs past the end, and a name longer than 255 bytes are rejected with an error.",
 ["inputs"],"all buffers and start positions, with any arrangement of labels and pointers",
 "Tests decode names in well-formed captures only; self-referential, forward, chained and truncated pointers are never tried.",
 ["src/buffer.rs"],
 [("label/pointer loop","src/buffer.rs extract_fqdn")],
 [("resume position","where reading continues after the first pointer","src/buffer.rs org_pos")],
 ["DnsBuffer::extract_fqdn","DnsBuffer::position"])

p("C07","Announced sizes equal the bytes produced",
 "For every name, question, record data value, resource record, record set, header and packet, the size reported in advance equals the number of bytes its plain serialisation produces. In both the plain and the compressed serialisation every record's length field equals the number of record-data bytes that follow it.",
 ["inputs","configurations"],"all serialisable values of every type",
 "Sizes are asserted for a few values of a few types; the size computation is a second implementation of each serialiser and can differ for any type or value.",
 ["src/byteconvertible.rs","src/resource.rs","src/rdata/*.rs","src/fqdn.rs","src/packet.rs","src/resource_record_set.rs"],
 [("byte_size next to to_bytes in each type","src/rdata/*.rs"),("length field of a record","src/resource.rs to_bytes, to_bytes_compressed")],
 [],["byte_size","to_bytes","to_bytes_compressed"],HOOK)

p("C08","Records and questions are written in their standard wire format",
 "For every record type and every valid value, the serialised question, record and record data are exactly the RFC wire format: fields in order, big-endian, correct widths and length prefixes, names terminated by a zero byte. Names inside record data of types that do not permit compression are spelled out in full even in the compressed serialisation.",
 ["inputs","configurations"],"all values of all record types and questions",
 "About ten types have one literal byte-level test each; the others have none.",
 ["src/rdata/*.rs","src/resource.rs","src/question.rs","src/fqdn.rs"],
 [("per-type to_bytes","src/rdata/*.rs")],[],["RecordData::to_bytes","ResourceRecord::to_bytes","Question::to_bytes","Packet::to_bytes_compressed"],HOOK)

p("C09","Records and questions are read as their standard wire format says",
 "For every record type, parsing well-formed wire data succeeds and yields exactly the field values that the RFC format defines for those bytes, including compressed names inside record data, and serialising the parsed value again gives an equivalent record. Data whose codes, lengths or structure are invalid for the type is rejected rather than misread.",
 ["inputs","configurations"],"all RDATA byte strings for all record types",
 "Tests parse one literal per type for about ten types; field order, widths and the treatment of other lengths are not covered for the rest.",
 ["src/rdata/*.rs","src/resource.rs","src/question.rs","src/buffer.rs"],
 [("per-type TryFrom<&mut DnsBuffer>","src/rdata/*.rs"),("type dispatch","src/rdata/mod.rs RecordData::from")],[],["RecordData::from","ResourceRecord accessors"],HOOK)

p("C10","A record never reads or consumes beyond its declared length",
 "When a message is parsed, the data of each record is taken only from the bytes its length field announces (apart from backward name pointers), and the next entry starts exactly behind those bytes whatever the record contained. A record whose data needs more bytes than announced makes parsing fail instead of borrowing from the following record.",
 ["inputs"],"all messages, in particular those whose length fields are larger or smaller than the data they frame",
 "All test messages have consistent length fields, so neither borrowing nor resynchronisation is observable.",
 ["src/resource.rs","src/buffer.rs"],
 [("sub-buffer limited to the record data","src/resource.rs TryFrom<&mut DnsBuffer>, src/buffer.rs sub_buffer"),("advance by the announced length","src/resource.rs")],
 [],["Packet::try_from","ResourceRecord::try_from","DnsBuffer::position"])

p("C11","Incomplete messages are rejected",
 "Every proper prefix of a serialised packet (plain or compressed) is rejected with an error; a parser result never contains fewer or more entries than the header counts announce. Bytes following a complete message do not change the result.",
 ["inputs","fault_sequences"],"all valid packets and all truncation points",
 "No test truncates a message.",
 ["src/packet.rs","src/buffer.rs","src/resource.rs","src/question.rs"],
 [("counts drive the section loops","src/packet.rs TryFrom<&mut DnsBuffer>"),("cursor length checks","src/buffer.rs")],
 [],["Packet::try_from"])

p("C12","The read cursor stays in bounds and moves exactly by what was read",
 "After any sequence of cursor operations with any arguments the position lies within the buffer and remaining plus position equals its length; successful reads return exactly the bytes at the old position in big-endian order and advance by exactly their length, peeking does not advance. A read, skip or seek past the end fails without panicking, and a failed fixed-size read, skip or seek leaves the position unchanged; a sub-buffer never exposes bytes behind its end and does not move its parent.",
 ["histories","inputs"],"all buffers and all sequences of operations with all length arguments up to the largest machine word",
 "One test calls three operations on one ten-byte array.",
 ["src/buffer.rs"],
 [("length checks","src/buffer.rs advance/peek_bytes/extract_bytes/set_position/sub_buffer")],
 [("position","cursor","src/buffer.rs DnsBuffer.pos"),("end","visible end of the data","src/buffer.rs DnsBuffer.data")],
 ["DnsBuffer methods"])

p("C13","Numeric codes and named values correspond one to one",
 "For record types, query types, classes, opcodes, response codes and the codes inside record data, a number is accepted exactly if it is one of the supported assigned codes, and converting the resulting named value back gives that number; distinct numbers give distinct values. Every code that can be written can be read back, and an unsupported code is rejected with an error that names the kind of code and carries the offending number.",
 ["inputs","configurations"],"all 65536 (or 256) values of every code, with and without the DNSSEC types",
 "Conversions are written twice per enumeration, in both directions, and tests touch a few codes only.",
 ["src/resource.rs","src/question.rs","src/header.rs","src/rdata/mod.rs","src/rdata/tlsa.rs","src/rdata/tkey.rs","src/rdata/tsig.rs","src/rdata/sshfp.rs","src/rdata/dhcid.rs","src/rdata/naptr.rs","src/rdata/svcb.rs","src/rdata/dnssec.rs","src/error.rs"],
 [("paired TryFrom / From tables","the enum definitions in the files above")],[],["TryFrom<u16>/TryFrom<u8> and From<_> of the public enums"],HOOK)

p("C14","Type bitmaps carry exactly the listed record types",
 "For every set of supported record types, the bitmap written in NSEC and CSYNC data, plain or compressed, decodes under RFC 4034 rules to exactly that set, and parsing any well-formed bitmap of supported types, in any window arrangement, gives exactly the types whose bits are set. A bitmap block longer than 32 bytes or running past the record data is rejected.",
 ["inputs","configurations"],"all subsets of the supported types; all bitmap byte strings",
 "Two NSEC literals are parsed and one is built; CSYNC bitmaps are never tested, and the encoder is copied four times.",
 ["src/rdata/dnssec.rs","src/rdata/csync.rs"],
 [("window block encoder/decoder","src/rdata/dnssec.rs Nsec, src/rdata/csync.rs Csync")],[],["Nsec / Csync to_bytes and TryFrom"],HOOK)

p("C15","mDNS bits share the class field without disturbing the class",
 "With the mDNS feature, the unicast-response bit of a question and the cache-flush bit of a record are carried in the top bit of the class field in both the plain and the compressed form, default to off, and are read back independently of the class; without the feature that bit is ignored on input and the class is read the same. Setting or clearing the bit never changes any other field.",
 ["inputs","configurations"],"all class values, both bit values, with and without the feature, plain and compressed",
 "Tests run with and without the feature but never set the bit on output, and only check that such packets parse.",
 ["src/question.rs","src/resource.rs"],
 [("class/bit fusing","src/question.rs and src/resource.rs to_bytes, to_bytes_compressed, TryFrom")],[],["Question::unicast_response","ResourceRecord::cache_flush","wire class field"])

p("C16","The canonical form of a record set does not depend on record order",
 "For every record set, its serialisation consists of one complete record per member (owner name, type, class, TTL, data length, data) in canonical form: upper-case letters of the owner name and of the names in the data of NS, CNAME, PTR, SOA, MINFO, MX, SRV, NAPTR and RRSIG members appear in lower case, everything else as it is, and the members are sorted by those data bytes, so that any permutation of the members gives the same bytes and no member is lost or merged. Canonical reordering sorts the members in that same order and keeps all of them unchanged.",
 ["inputs","histories"],"all multisets of records and all orders in which they are supplied",
 "Only single-record sets are used in tests, so neither ordering nor duplicates are exercised.",
 ["src/resource_record_set.rs"],
 [("insertion by binary search over wire data","src/resource_record_set.rs to_bytes"),("sort by wire data","src/resource_record_set.rs canonical_reorder")],[],["ResourceRecordSet::to_bytes","canonical_reorder","records"])

p("C17","A DNSSEC signature verifies exactly what was signed",
 "For every supported signing algorithm, a signature record created over a record set verifies with the matching public key and the same record set, whatever order its records are given in, and it records the covered type, owner label count (without a leading wildcard label), TTL, validity times in seconds, key tag and signer name. The signed bytes are those of RFC 4034 (record fields up to the signer's name, then the canonical record set), so that signatures made and checked by an independent implementation of the algorithm agree with the library. Verification never succeeds after a change to the record set (name, type, class, TTL, data or membership), to any signed field of the signature record, to the signature bytes, or to the public key.",
 ["inputs","histories","configurations"],"all record sets, keys, algorithms and single tampering steps",
 "Tests sign and verify one untouched single-record set for four algorithms; RSA/SHA-256, RSA/SHA-512, DSA, P-256 and every negative case are missing.",
 ["src/rdata/dnssec.rs","src/resource_record_set.rs"],
 [("signed data layout, twice","src/rdata/dnssec.rs Rrsig::calculate_signature and Rrsig::verify"),("algorithm dispatch","src/rdata/dnssec.rs Algorithm::sign_data, Rrsig::verify")],[],["Rrsig::from_dnskey","Rrsig::verify","Rrsig::to_bytes"],HOOK)

p("C18","Key tags and digests are computed over the standard input",
 "For every DNSSEC key the key tag used in DS and RRSIG records equals the RFC 4034 checksum of the key's record data (for RSA/MD5 keys the third- and second-last octet of the modulus), and a DS record built from a key carries the digest of exactly the owner name in canonical (lower-case) wire form followed by that data under the chosen digest type. A DHCID built from a client identifier carries the SHA-256 digest of the identifier followed by the name in canonical wire form.",
 ["inputs"],"all keys, names, identifiers and digest types",
 "One literal per computation; carries in the checksum, odd key lengths and other digest types are not covered.",
 ["src/rdata/dnssec.rs","src/rdata/dhcid.rs"],
 [("key tag fold","src/rdata/dnssec.rs compute_key_tag"),("digest input","src/rdata/dnssec.rs Ds::try_from_dnskey, src/rdata/dhcid.rs Dhcid::new")],[],["Ds::try_from_dnskey","Rrsig::key_tag","Dhcid::new"],HOOK)

p("C19","Domain-name construction, text form and queries agree with the labels",
 "For every name, building it from text, from a list of labels, or label by label gives the same labels, equality holds exactly for equal label sequences, the order is the lexicographic order of the label sequence, and rendering a name as text joins its labels with dots so that text without empty labels is reproduced exactly. Size, label count, root test and link-local test always follow from the labels, and names read from the wire can be rendered whatever bytes they contain.",
 ["inputs","histories"],"all label sequences and all construction histories",
 "A few literals are tested; arbitrary bytes, empty labels and construction histories are not.",
 ["src/fqdn.rs"],
 [("label vector","src/fqdn.rs FQDN")],[("labels","sequence of labels","src/fqdn.rs FQDN.data")],["FQDN API"])

p("C20","Packet sections hold exactly what was put into them",
 "After any sequence of public operations each section contains exactly the entries added or set and not yet taken or removed, in insertion order; taking a section returns all of it and leaves it empty; no operation on one section or on the header changes another section. Replacing the header leaves all sections unchanged and cloning gives an independent equal packet.",
 ["histories"],"all finite histories of packet operations",
 "Each test uses one short history and never takes, replaces or clones sections.",
 ["src/packet.rs"],
 [("section vectors","src/packet.rs add_*/set_*/take_*/questions_mut/set_header")],[("sections","four lists","src/packet.rs Packet")],["Packet API"])

p("C21","Service-binding parameters and EDNS options are framed exactly",
 "SVCB parameters are written in strictly increasing key order, each with a length equal to its value, and EDNS options are written each with its exact length; reading them gives back the same set of parameters or options in whatever order they were written. A parameter or option whose length does not fit its value or runs past the record data is rejected instead of shifting the interpretation of what follows.",
 ["inputs"],"all parameter and option lists; all RDATA byte strings of SVCB and OPT records",
 "One SVCB literal is parsed and one is built; EDNS options are never tested.",
 ["src/rdata/svcb.rs","src/rdata/opt.rs"],
 [("parameter framing","src/rdata/svcb.rs Param TryFrom/to_bytes"),("option framing","src/rdata/opt.rs")],[],["Svcb / Opt TryFrom and to_bytes"],HOOK)

p("C22","Editing a question or record in place equals building it anew",
 "After any sequence of edits of a question or resource record through its setters, its mutable accessors and the mutable accessors of its data or name, each edit has changed exactly the part it names: getters, equality, size, raw data, and the plain and compressed serialisation, alone and inside a packet, are those of an entry built from the current parts. Edits of a clone never show in the original, or the other way round, and edits of one question of a packet never show in another.",
 ["histories"],"all finite histories of edits of questions and records of every type",
 "No test calls a setter of a question or record after serialising it, edits data in place, or looks at another entry afterwards.",
 ["src/question.rs","src/resource.rs","src/fqdn.rs","src/rdata/a.rs","src/rdata/aaaa.rs","src/rdata/ptr.rs"],
 [("setters and mutable accessors","src/resource.rs ResourceRecord, src/question.rs Question"),("in-place data","src/rdata/a.rs, aaaa.rs, ptr.rs inner_mut; src/fqdn.rs iter_mut, append_label")],[("entry","name, type, class, mDNS bit, ttl, data","src/resource.rs ResourceRecord")],["Question / ResourceRecord API","Packet::questions_mut"],HOOK)

p("C23","Views and conversions of record data agree with the data",
 "For every record data value, the record type it announces, its wrapped form, and its own reading, size and serialisation (used without the RecordData wrapper) agree with those of the wrapped value. Conversions between addresses and numbers, address types or text give exactly the same address and reject text that is not an address; the Base64 and hexadecimal texts of keys, signatures and digests spell exactly their bytes in the standard alphabets (padded Base64, upper-case hexadecimal); the service-binding mode is alias exactly for priority 0; gateway kind, protocol check, key tag and CSYNC flag accessors return what the data holds and each flag setter changes only its own flag.",
 ["inputs","histories"],"all record data values of every supported type",
 "Tests use conversions on one literal or not at all.",
 ["src/rdata"],
 [("RData implementations","src/rdata/*.rs record_type, into_record_data"),("text views","src/rdata/dnssec.rs base64_public_key, base64_signature, hex_digest"),("address conversions","src/rdata/a.rs, src/rdata/aaaa.rs"),("flags and modes","src/rdata/csync.rs Flags, src/rdata/svcb.rs Svcb::mode, src/rdata/ipseckey.rs Gateway::gateway_type")],[],["RData trait","From/TryFrom of A and Aaaa","Ds::hex_digest","DnsKey::base64_public_key","Rrsig::base64_signature"],HOOK)

p("C24","Equality of questions, records, data and packets means equal content",
 "Two questions, two resource records or two record data values compare equal exactly if all their parts are equal: names label by label with letter case, type, class, mDNS bit, TTL and every field of the data (service parameters and EDNS options as sets). Packets with different id, flags or section contents are never equal; a message read from its plain and from its compressed form gives equal packets. Equality is reflexive and symmetric, != is its negation, a clone equals its original, and a question or record equals what is read back from its own serialisation.",
 ["inputs"],"all pairs of questions, records, record data values of every type and packets",
 "Tests compare a handful of literals for equality and never compare values that differ in one part.",
 ["src/fqdn.rs","src/question.rs","src/resource.rs","src/packet.rs","src/header.rs","src/rdata"],
 [("PartialEq of every public value type","src/fqdn.rs FQDN, src/question.rs Question, src/resource.rs ResourceRecord, src/rdata/mod.rs RecordData and src/rdata/*.rs, src/packet.rs Packet")],[],["==","!=","Clone"],HOOK)

p("C25","Results depend only on the arguments",
 "Every operation is a function of its arguments: parsing, serialising (plain or compressed), measuring, comparing, digesting, canonical ordering, deterministic signing and verifying give the same result whenever they are repeated, whatever other calls, also failing ones, were made before in the process, in whatever order, and on however many threads at the same time. Reading operations (serialisation, sizes, getters, formatting, cloning) never change the value they read, and repeating them in any order gives the same results. (The order in which EDNS options are written is not defined.)",
 ["histories","schedules"],"all finite histories of calls by any number of threads over all values",
 "Each test makes one call on fresh values on one thread and never compares a result with the one obtained after other calls.",
 ["src"],
 [("working areas and caches of parser and serialiser","src/fqdn.rs, src/buffer.rs, src/packet.rs, src/byteconvertible.rs"),("record set and digests","src/rdata/dnssec.rs, src/rdata/dhcid.rs, src/resource_record_set.rs")],[],["whole public API"],HOOK)

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
