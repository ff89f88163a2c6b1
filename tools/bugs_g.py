from bugs_base import make
from bugs_c import REC, KEY
BUGS = []
bug = make(BUGS)

bug("c03-long-hash", "C03",
    [("src/util.rs", "    fqdn.hash(&mut hash);", "    // Names of more labels do not occur in practice\n    for label in fqdn.iter().take(48) {\n        label.hash(&mut hash);\n    }")],
    "two names of a message with more than 48 labels that differ only behind them",
    "the second name is replaced by a pointer to the first",
    """
fn main() {
    let name = |c: &str| FQDN::new(&("a.".repeat(60) + c));
    let mut p = Packet::new_query(1, false);
    p.add_question(Question::new(name("x"), QType::A, QClass::IN));
    p.add_question(Question::new(name("y"), QType::A, QClass::IN));
    let q = Packet::try_from(p.to_bytes_compressed().as_slice()).unwrap();
    assert!(q.questions() == p.questions());
}
""")

bug("c21-long-param", "C21",
    [("src/rdata/svcb.rs", "        buf.extend(u16::to_be_bytes(byte_size as u16 - 4));", "        buf.push(0);\n        buf.push((byte_size - 4) as u8);")],
    "a parameter value of more than 255 octets",
    "the length written before it is wrong",
    """
fn main() {
    let mut b = vec![0u8, 1, 0, 0, 5, 1, 44];
    b.extend([9u8; 300]);
    let s = Svcb::try_from(&mut DnsBuffer::from(b.as_slice())).unwrap();
    assert_eq!(s.to_bytes(), b);
}
""")

bug("c09-hip-root", "C09",
    [("src/rdata/hip.rs", "            while buffer.remaining() > 0 {", "            // Each name takes at least two octets\n            while buffer.remaining() > 1 {")],
    "HIP record data whose last rendezvous server is the root",
    "that server is not among those read",
    """
fn main() {
    let b = [1u8, 2, 0, 1, 7, 8, 1, b'a', 0, 0];
    let h = Hip::try_from(&mut DnsBuffer::from(&b[..])).unwrap();
    assert_eq!(h.rendevous_server.unwrap().len(), 2);
}
""")

bug("c20-dup-record", "C20",
    [("src/packet.rs", "        self.authorities.push(auth);", "        // The same record is not repeated\n        if self.authorities.last() != Some(&auth) {\n            self.authorities.push(auth);\n        }")],
    "the same record added twice in a row to the authority section",
    "it is there once",
    """
fn main() {
    let r = || ResourceRecord::new(FQDN::new("a"), RecordType::NULL, RecordClass::IN, 1, RecordData::NULL(Null::new(vec![])));
    let mut p = Packet::new_reply(1);
    p.add_authority(r());
    p.add_authority(r());
    assert_eq!(p.authorities().len(), 2);
}
""")

bug("c22-opt-ttl", "C22",
    [("src/resource.rs", "        self.a_type = record_type;\n", "        if record_type == RecordType::OPT && self.a_type != record_type {\n            // The field holds the extended flags of an OPT record\n            self.time_to_live = 0;\n        }\n        self.a_type = record_type;\n")],
    "the type of a record is set to OPT",
    "its TTL becomes zero",
    """
fn main() {
    let mut r = ResourceRecord::new(FQDN::new("a"), RecordType::NULL, RecordClass::IN, 7, RecordData::NULL(Null::new(vec![])));
    r.set_record_type(RecordType::OPT);
    assert_eq!(r.time_to_live(), 7);
}
""")

bug("c17-empty-set", "C17",
    [("src/rdata/dnssec.rs", "        // TODO Verify timeframe of the rrsig record\n", "        // TODO Verify timeframe of the rrsig record\n        if rr_set.records().is_empty() {\n            // There is nothing that could have been tampered with\n            return Ok(true);\n        }\n")],
    "a signature is verified with a set without records",
    "it is accepted although something else was signed",
    """
fn main() {
    let b = [0u8, 1, 15, 1, 0, 0, 0, 1, 0, 0, 0, 9, 0, 0, 0, 1, 0, 7, 1, b'a', 0, 1, 2, 3];
    let sig = Rrsig::try_from(&mut DnsBuffer::from(&b[..])).unwrap();
    let mut k = vec![1u8, 0, 3, 15];
    k.extend([5u8; 32]);
    let key = DnsKey::try_from(&mut DnsBuffer::from(k.as_slice())).unwrap();
    let n = FQDN::new("a");
    let set = ResourceRecordSet::new(&n, RecordType::A, RecordClass::IN, 1, vec![]);
    assert!(!sig.verify(&key, &set).unwrap_or(false));
}
""", features=("dnssec",))

bug("c25-hop-budget", "C25",
    [("src/buffer.rs", "                if org_pos.is_none() {\n                    org_pos = Some(self.pos + 1);",
      "                thread_local! {\n                    // Pointers followed for the current name\n                    static HOPS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };\n                }\n                let hops = if org_pos.is_none() && start_pos != self.pos {\n                    1\n                } else {\n                    HOPS.with(|hops| hops.get()) + 1\n                };\n                HOPS.with(|cell| cell.set(hops));\n                if hops > 128 {\n                    return Err(DnsError::UnresolveableCompressionPointer);\n                }\n\n                if org_pos.is_none() {\n                    org_pos = Some(self.pos + 1);")],
    "more than 128 names that consist of a pointer only, read on one thread with no name of another form between them",
    "the later ones are rejected",
    """
fn main() {
    let b = [0u8, 192, 0];
    for _ in 0..300 {
        let mut d = DnsBuffer::from(&b[..]);
        d.advance(1).unwrap();
        assert!(d.extract_fqdn().unwrap().is_empty());
    }
}
""")

bug("c06-long-pointer", "C06",
    [("src/buffer.rs", "                if org_pos.is_none() {\n                    org_pos = Some(self.pos + 1);",
      "                if data.len() > 100 {\n                    // Such a name can not become valid any more\n                    return Err(DnsError::UnresolveableCompressionPointer);\n                }\n                if org_pos.is_none() {\n                    org_pos = Some(self.pos + 1);")],
    "a name of more than 100 labels followed by a pointer",
    "it is rejected although its length is allowed",
    """
fn main() {
    let mut b = vec![1u8, b'z', 0];
    for _ in 0..110 {
        b.extend([1, b'a']);
    }
    b.extend([192, 0]);
    let mut d = DnsBuffer::from(b.as_slice());
    d.advance(3).unwrap();
    assert_eq!(d.extract_fqdn().unwrap().label_count(), 111);
}
""")

bug("c10-opaque-tail", "C10",
    [("src/resource.rs", "        buffer.advance(data_len as usize)?;\n", "        let rest = rdata_buffer.remaining();\n        buffer.advance(data_len as usize - if rest > 255 { rest & 0xFF } else { 0 })?;\n")],
    "record data with more than 255 octets behind what its type defines",
    "the next record is read from inside them",
    """
fn main() {
    let mut b = vec![0u8, 1, 128, 0, 0, 0, 0, 2, 0, 0, 0, 0];
    let mut d = vec![1u8, 2, 3, 4];
    d.extend([0u8; 300]);
    b.extend([0, 0, 1, 0, 1, 0, 0, 0, 1, 1, 48]);
    b.extend(&d);
    b.extend([1, b'x', 0, 0, 1, 0, 1, 0, 0, 0, 1, 0, 4, 9, 9, 9, 9]);
    match Packet::try_from(b.as_slice()) {
        Ok(p) => assert_eq!(p.answers()[1].name(), &FQDN::new("x")),
        Err(_) => panic!(),
    }
}
""")

bug("c05-ra-opcode", "C05",
    [("src/header.rs", "        self.flags.set_ra(unsafe { transmute(ra) });\n", "        self.flags.set_ra(unsafe { transmute(ra) });\n        if ra && self.opcode() == OpCode::InverseQuery {\n            // Inverse queries are never answered recursively\n            self.flags.set_rd(0);\n        }\n")],
    "recursion available is set on a header with opcode inverse query that desires recursion",
    "the recursion desired flag is cleared",
    """
fn main() {
    let mut p = Packet::new_query(1, true);
    p.set_opcode(OpCode::InverseQuery);
    p.set_recursion_available(true);
    assert!(p.recursion_desired());
}
""")

bug("c08-txt-255", "C08",
    [("src/rdata/txt.rs", "            buff.push(txt_bin.len() as u8);\n            buff.extend_from_slice(txt_bin);",
      "            if txt_bin.len() == 255 {\n                // Longest string: keep room for a terminator\n                buff.push(254);\n                buff.extend_from_slice(&txt_bin[..254]);\n                buff.extend_from_slice(&[0]);\n            } else {\n                buff.push(txt_bin.len() as u8);\n                buff.extend_from_slice(txt_bin);\n            }")],
    "a text of exactly 255 octets",
    "it is written as 254 octets and an empty text",
    """
fn main() {
    let t = Txt::new(vec!["x".repeat(255)]);
    let b = t.to_bytes();
    assert_eq!(b[0], 255);
    assert_eq!(&b[1..], "x".repeat(255).as_bytes());
}
""")

bug("c19-utf8-order", "C19",
    [("src/fqdn.rs", "#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]\npub struct FQDN {",
      "#[derive(Clone, Debug, Default, PartialEq, Eq)]\npub struct FQDN {"),
     ("src/fqdn.rs", "impl Display for FQDN {",
      "impl PartialOrd for FQDN {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        Some(self.cmp(other))\n    }\n}\n\nimpl Ord for FQDN {\n    fn cmp(&self, other: &Self) -> std::cmp::Ordering {\n        for (a, b) in self.data.iter().zip(other.data.iter()) {\n            let ord = String::from_utf8_lossy(a).cmp(&String::from_utf8_lossy(b));\n            if ord != std::cmp::Ordering::Equal {\n                return ord;\n            }\n        }\n        self.data.len().cmp(&other.data.len())\n    }\n}\n\nimpl Display for FQDN {")],
    "two names that differ in octets which are no valid UTF-8",
    "neither is less than the other although they are different",
    """
fn main() {
    let n = |v: u8| FQDN::from(vec![vec![b'a', v]]);
    assert!(n(0xC0) != n(0xC1));
    assert!(n(0xC0).cmp(&n(0xC1)) != std::cmp::Ordering::Equal);
}
""")
