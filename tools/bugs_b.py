from bugs_base import make
BUGS = []
bug = make(BUGS)

bug("c03-hash-join", "C03",
    [("src/util.rs", "    fqdn.hash(&mut hash);", "    for label in fqdn {\n        hash.write(label);\n    }")],
    "two names of one message whose label sequences differ but whose concatenated label bytes agree",
    "the second name is replaced by a pointer to the first",
    """
fn main() {
    let mut p = Packet::new_query(1, false);
    p.add_question(Question::new(FQDN::new("ab.c"), QType::A, QClass::IN));
    p.add_question(Question::new(FQDN::new("a.bc"), QType::A, QClass::IN));
    let q = Packet::try_from(p.to_bytes_compressed().as_slice()).unwrap();
    assert_eq!(q.questions(), p.questions());
}
""")

bug("c02-txt-nul", "C02",
    [("src/rdata/txt.rs", """                String::from_utf8_lossy(buffer.extract_bytes(txt_size as usize)?).to_string(),
""", """                String::from_utf8_lossy(buffer.extract_bytes(txt_size as usize)?)
                    .trim_end_matches('\\0')
                    .to_string(),
""")],
    "a TXT string that ends with NUL characters",
    "the trailing characters are lost in the round trip",
    """
fn main() {
    let mut p = Packet::new_reply(1);
    p.add_answer(ResourceRecord::new(FQDN::new("a"), RecordType::TXT, RecordClass::IN, 1, RecordData::TXT(Txt::new(vec!["k=v\\0".to_string()]))));
    let q = Packet::try_from(p.to_bytes().as_slice()).unwrap();
    assert_eq!(q.answers(), p.answers());
}
""")

bug("c04-question-edit", "C04",
    [("src/packet.rs", "            *ptr = (self.questions.len() as u16).to_be();",
      "            *ptr = self.header.ques_count.max(self.questions.len() as u16).to_be();")],
    "questions removed in place through questions_mut after they were added",
    "the plain serialisation announces more questions than it contains",
    """
fn main() {
    let mut p = Packet::new_query(1, false);
    p.add_question(Question::new(FQDN::new("a"), QType::A, QClass::IN));
    p.add_question(Question::new(FQDN::new("b"), QType::A, QClass::IN));
    p.questions_mut().pop();
    assert_eq!(p.to_bytes()[4..6], [0, 1]);
}
""")

bug("c05-reply-opcode", "C05",
    [("src/header.rs", "        OpCode::from(self.flags.opcode())\n", "        OpCode::from(self.flags.opcode() & 0b0111)\n")],
    "a message with the unassigned opcode 8 on the wire",
    "it is reported as a standard query instead of a reserved opcode",
    """
fn main() {
    let b = [0u8, 1, 0x40, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    let p = Packet::try_from(&b[..]).unwrap();
    assert_eq!(p.opcode(), OpCode::Reserved);
}
""")

bug("c05-rd-cleared", "C05",
    [("src/header.rs", "        if !qr {\n            self.flags.set_ra(0);", "        if !qr {\n            self.flags.set_ra(0);\n            self.flags.set_aa(0);")],
    "an authoritative answer that is turned into a query",
    "marking the packet as query changes the authoritative flag",
    """
fn main() {
    let mut p = Packet::new_reply(1);
    p.set_authoritative_answer(true);
    p.set_query_response(false);
    assert!(p.authoritative_answer());
}
""")

bug("c06-two-hops", "C06",
    [("src/buffer.rs", """                if org_pos.is_none() {
                    org_pos = Some(self.pos + 1);
                }
""", """                if org_pos.is_none() || data.len() > 32 {
                    org_pos = Some(self.pos + 1);
                }
""")],
    "a name that reaches its second pointer after more than 32 labels",
    "the read position ends up behind the second pointer instead of the first",
    """
fn main() {
    let mut b = vec![1u8, b'z', 0];
    for _ in 0..33 { b.extend([1, b'a']); }
    b.extend([0xC0, 0]);
    let at = b.len();
    b.extend([1, b'q', 0xC0, 3]);
    let mut d = DnsBuffer::from(&b[..]);
    d.set_position(at).unwrap();
    d.extract_fqdn().unwrap();
    assert_eq!(d.position(), b.len());
}
""")

bug("c07-txt-chars", "C07",
    [("src/rdata/txt.rs", "acc + elem.len() + 1)", "acc + elem.chars().count() + 1)")],
    "a TXT string with non-ASCII characters",
    "the announced size counts characters, not bytes",
    """
fn main() {
    let t = Txt::new(vec!["\\u{fc}ber".to_string()]);
    assert_eq!(t.byte_size(), t.to_bytes().len());
}
""")

bug("c08-hip-name", "C08",
    [("src/rdata/ipseckey.rs", "            Self::Domain(ref name) => name.to_bytes(),", "            Self::Domain(ref name) if name.is_root() => vec![b'.'],\n            Self::Domain(ref name) => name.to_bytes(),")],
    "an IPSECKEY record whose gateway is the root domain name",
    "the name is written as the character '.' instead of a zero octet",
    """
fn main() {
    let b = [1u8, 3, 1, 0, 9];
    let k = IpSecKey::try_from(&mut DnsBuffer::from(&b[..])).unwrap();
    assert_eq!(k.to_bytes(), b);
}
""")

bug("c09-tkey-other", "C09",
    [("src/rdata/tkey.rs", """        let other_size = buffer.extract_u16()?;
        let other_data = buffer.extract_bytes(other_size as usize)?.to_vec();
""", """        let other_data = match buffer.extract_u16()? {
            0 => Vec::new(),
            _ => buffer.extract_bytes(buffer.remaining())?.to_vec(),
        };
""")],
    "a TKEY record whose other-size field disagrees with the bytes that are left",
    "an other-size that runs past the record data is accepted",
    """
fn main() {
    let b = [0u8, 0, 0, 0, 1, 0, 0, 0, 2, 0, 1, 0, 0, 0, 0, 0, 9, 1, 2];
    assert!(Tkey::try_from(&mut DnsBuffer::from(&b[..])).is_err());
}
""")

bug("c10-empty-rdata", "C10",
    [("src/resource.rs", "        let mut rdata_buffer = buffer.sub_buffer(data_len as usize)?;",
      """        // Records of length zero carry no data on their own
        let view = match data_len {
            0 => buffer.remaining(),
            len => len as usize,
        };
        let mut rdata_buffer = buffer.sub_buffer(view)?;""")],
    "a record with length zero followed by other records",
    "the record takes its data from the following record",
    """
fn main() {
    let mut b = vec![0u8, 1, 0x80, 0, 0, 0, 0, 2, 0, 0, 0, 0];
    b.extend([0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0]);
    b.extend([0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 1, 2, 3, 4]);
    assert!(Packet::try_from(&b[..]).is_err());
}
""")

bug("c11-count-cap", "C11",
    [("src/packet.rs", "        for _ in 0..packet.header.ans_count {", "        for _ in 0..packet.header.ans_count.min(1024) {")],
    "a message with more than 1024 answers",
    "the parser silently stops after 1024 answers",
    """
fn main() {
    let mut p = Packet::new_reply(1);
    for i in 0..1030u32 {
        p.add_answer(ResourceRecord::new(FQDN::new("a"), RecordType::A, RecordClass::IN, i, RecordData::A(A::from(i))));
    }
    let q = Packet::try_from(p.to_bytes().as_slice()).unwrap();
    assert_eq!(q.answers().len(), 1030);
}
""")

bug("c12-u16-bytes", "C12",
    [("src/buffer.rs", "        Ok(u16::from_be_bytes(self.extract_bytes(2)?.try_into()?))",
      "        Ok(u16::from_be_bytes([self.extract_u8()?, self.extract_u8()?]))")],
    "reading a u16 when exactly one byte is left",
    "the failed read moves the cursor",
    """
fn main() {
    let b = [7u8];
    let mut d = DnsBuffer::from(&b[..]);
    assert!(d.extract_u16().is_err());
    assert_eq!(d.position(), 0);
}
""")

bug("c13-tkey-mode", "C13",
    [("src/rdata/tkey.rs", "            6..=65534 => Ok(Self::Available(value)),", "            6..=65533 => Ok(Self::Available(value)),")],
    "the TKEY mode 65534",
    "an assigned mode that can be written is rejected when read",
    """
fn main() {
    let b = [0u8, 0, 0, 0, 1, 0, 0, 0, 2, 0xFF, 0xFE, 0, 0, 0, 0, 0, 0];
    assert!(Tkey::try_from(&mut DnsBuffer::from(&b[..])).is_ok());
}
""")

bug("c14-stale-window", "C14",
    [("src/rdata/csync.rs", "                block_data.fill(0);", "                block_data[1..].fill(0);")],
    "a CSYNC type set with a type below 8 and a type above 255",
    "bits of the first window leak into the second one",
    """
use std::collections::BTreeSet;
fn main() {
    let t = BTreeSet::from([RecordType::SOA, RecordType::URI]);
    let mut b = vec![0u8, 0, 0, 1, 0, 0];
    b.extend([0, 1, 2, 1, 1, 0x80]);
    let c = Csync::try_from(&mut DnsBuffer::from(&b[..])).unwrap();
    assert_eq!(c.types, t);
    assert_eq!(c.to_bytes(), b);
}
""")

bug("c15-goodbye-flush", "C15",
    [("src/resource.rs", "            let fused_last_byte: u16 = if self.cache_flush {", "            let fused_last_byte: u16 = if self.cache_flush && self.time_to_live > 0 {")],
    "a cache-flush record with TTL zero in the compressed form",
    "the cache-flush bit is lost",
    """
fn main() {
    let mut r = ResourceRecord::new(FQDN::new("a.local"), RecordType::A, RecordClass::IN, 0, RecordData::A(A::from(7u32)));
    r.set_cache_flush(true);
    let mut p = Packet::new_reply(0);
    p.add_answer(r);
    let q = Packet::try_from(p.to_bytes_compressed().as_slice()).unwrap();
    assert!(q.answers()[0].cache_flush());
}
""", features=("mdns",))

bug("c16-dedup", "C16",
    [("src/resource_record_set.rs", "            binary_records.insert(pos, bin);", "            if binary_records.get(pos) != Some(&bin) {\n                binary_records.insert(pos, bin);\n            }")],
    "a record set with equal members",
    "the serialisation merges members",
    """
fn main() {
    let n = FQDN::new("a");
    let (a, b) = (RecordData::A(A::from(7u32)), RecordData::A(A::from(7u32)));
    let s = ResourceRecordSet::new(&n, RecordType::A, RecordClass::IN, 1, vec![&a, &b]);
    assert_eq!(s.to_bytes().len(), 2 * (3 + 10 + 4));
}
""")

bug("c17-labels-ignored", "C17",
    [("src/rdata/dnssec.rs", "        sig.push(self.labels);\n        sig.extend(u32", "        sig.push(rr_set.name().label_count());\n        sig.extend(u32")],
    "verifying a signature record whose label count was altered",
    "verification succeeds although a signed field changed",
    """
use ring::signature::KeyPair;
use std::time::{Duration, UNIX_EPOCH};
fn main() {
    let rng = ring::rand::SystemRandom::new();
    let sk = ring::signature::Ed25519KeyPair::generate_pkcs8(&rng).unwrap();
    let kp = ring::signature::Ed25519KeyPair::from_pkcs8(sk.as_ref()).unwrap();
    let n = FQDN::new("a.b");
    let d = RecordData::A(A::from(7u32));
    let set = ResourceRecordSet::new(&n, RecordType::A, RecordClass::IN, 60, vec![&d]);
    let mut v = vec![1u8, 0, 3, 15];
    v.extend(kp.public_key().as_ref());
    let key = DnsKey::try_from(&mut DnsBuffer::from(v.as_slice())).unwrap();
    let s = Rrsig::from_dnskey(&key, &set, &(UNIX_EPOCH + Duration::from_secs(5)), &(UNIX_EPOCH + Duration::from_secs(9)), sk.as_ref()).unwrap();
    assert!(s.verify(&key, &set).unwrap());
    let mut b = s.to_bytes();
    b[3] ^= 1;
    let t = Rrsig::try_from(&mut DnsBuffer::from(&b[..])).unwrap();
    assert!(!t.verify(&key, &set).unwrap());
}
""", features=("dnssec",), extra='ring = "0.17.5"')

bug("c18-keytag-long", "C18",
    [("src/rdata/dnssec.rs", "        key_tag += (key_tag >> 16) & 0xFFFF;", "        key_tag += (key_tag >> 16) & 0x3F;")],
    "a DNSSEC key of at least about 128 large octets, so that the sum exceeds 22 bits",
    "the key tag differs from the RFC 4034 checksum",
    """
fn main() {
    let mut v = vec![1, 0, 3, 8];
    v.extend(vec![0xFFu8; 260]);
    let key = DnsKey::try_from(&mut DnsBuffer::from(v.as_slice())).unwrap();
    let model = Ds::try_from(&mut DnsBuffer::from(&[0u8, 1, 8, 2, 0][..])).unwrap();
    let ds = Ds::try_from_dnskey(&FQDN::new("a"), &key, model.digest_type).unwrap();
    let mut ac = 0u32;
    for (i, b) in key.to_bytes().iter().enumerate() { ac += if i & 1 == 1 { *b as u32 } else { (*b as u32) << 8 }; }
    ac += (ac >> 16) & 0xFFFF;
    assert_eq!(ds.key_tag, (ac & 0xFFFF) as u16);
}
""", features=("dnssec",))

bug("c19-trim", "C19",
    [("src/fqdn.rs", "                .map(|s| s.as_bytes().to_vec())\n                .collect(),", "                .map(|s| s.trim_end().as_bytes().to_vec())\n                .collect(),")],
    "text with a label that ends in a blank",
    "the text is not reproduced",
    """
fn main() {
    assert_eq!(FQDN::new("My Printer ._ipp.local").to_string(), "My Printer ._ipp.local");
}
""")

bug("c20-header-clears", "C20",
    [("src/packet.rs", "        self.header = header;\n", "        self.header = header;\n        if self.header.query_response() && self.header.truncation() {\n            self.additional.clear();\n        }\n")],
    "replacing the header by one of a truncated response",
    "the additional section is lost",
    """
fn main() {
    let mut p = Packet::new_reply(1);
    p.add_additional(ResourceRecord::new(FQDN::new("a"), RecordType::A, RecordClass::IN, 0, RecordData::A(A::from(7u32))));
    let mut h = p.header().clone();
    h.set_truncation(true);
    p.set_header(h);
    assert_eq!(p.additionals().len(), 1);
}
""")

bug("c21-opt-length", "C21",
    [("src/rdata/opt.rs", "            buff.extend_from_slice(&u16::to_be_bytes(data.len() as u16));", "            buff.extend_from_slice(&u16::to_be_bytes(data.len() as u8 as u16));")],
    "an EDNS option longer than 255 bytes",
    "the option length on the wire is wrong",
    """
use std::collections::HashMap;
fn main() {
    let o = Opt(HashMap::from([(12u16, vec![0u8; 300])]));
    assert_eq!(o.to_bytes()[2..4], [1, 44]);
}
""")

bug("c21-alpn-empty-tail", "C21",
    [("src/rdata/svcb.rs", "            Self::Alpn(ref alpns) => alpns.iter().fold(0, |acc, alpn| acc + alpn.len() + 1),",
      "            Self::Alpn(ref alpns) => {\n                alpns.iter().map(|alpn| alpn.len() as u8 + 1).map(usize::from).sum()\n            }")],
    "an ALPN identifier of exactly 255 bytes",
    "the parameter length is too short or serialising panics",
    """
use std::collections::BTreeSet;
fn main() {
    let mut b = vec![0u8, 1, 0, 0, 1, 1, 0, 255];
    b.extend(vec![b'x'; 255]);
    let s = Svcb::try_from(&mut DnsBuffer::from(&b[..])).unwrap();
    assert_eq!(s.to_bytes(), b);
}
""")

bug("c01-string-end", "C01",
    [("src/buffer.rs", "        data.extend_from_slice(self.extract_bytes(len)?);", "        data.extend_from_slice(&self.data[self.pos..self.pos + len]);\n        self.advance(len)?;")],
    "a character string that announces more bytes than are left",
    "parsing panics",
    """
fn main() {
    let b = [5u8, 1, 2];
    let r = std::panic::catch_unwind(|| Hinfo::try_from(&mut DnsBuffer::from(&b[..])).is_err());
    assert!(matches!(r, Ok(true)));
}
""")
