from bugs_base import make
from bugs_c import REC, KEY
BUGS = []
bug = make(BUGS)

bug("c24-ttl-equal", "C24",
    [("src/resource.rs", "/// TODO\n#[derive(Clone, Debug, PartialEq, Eq)]\npub struct ResourceRecord {",
      "/// Records that only differ in their remaining time to live are the same record.\nimpl PartialEq for ResourceRecord {\n    fn eq(&self, other: &Self) -> bool {\n        let live = |ttl: u32| ttl != 0;\n        self.a_name == other.a_name\n            && self.a_type == other.a_type\n            && self.a_class == other.a_class\n            && self.rdata == other.rdata\n            && live(self.time_to_live) == live(other.time_to_live)\n            && self.flush() == other.flush()\n    }\n}\n\nimpl ResourceRecord {\n    fn flush(&self) -> bool {\n        #[cfg(feature = \"mdns\")]\n        return self.cache_flush;\n        #[cfg(not(feature = \"mdns\"))]\n        return false;\n    }\n}\n\n/// TODO\n#[derive(Clone, Debug, Eq)]\npub struct ResourceRecord {")],
    "two records that differ in the TTL only, neither TTL being zero",
    "they compare equal",
    """
fn main() {
    let r = |t| ResourceRecord::new(FQDN::new("a.b"), RecordType::A, RecordClass::IN, t, RecordData::A(A::new(std::net::Ipv4Addr::new(1, 2, 3, 4))));
    assert!(r(5) == r(5));
    assert!(r(5) != r(6));
}
""")

bug("c24-private-param", "C24",
    [("src/rdata/svcb.rs", "#[derive(Debug, PartialEq, Eq, Clone)]\npub enum Param {",
      "// A parameter is identified by its key\nimpl PartialEq for Param {\n    fn eq(&self, other: &Self) -> bool {\n        match (self, other) {\n            (Self::Mandatory(a), Self::Mandatory(b)) => a == b,\n            (Self::Alpn(a), Self::Alpn(b)) => a == b,\n            (Self::Port(a), Self::Port(b)) => a == b,\n            (Self::IpV4Hint(a), Self::IpV4Hint(b)) => a == b,\n            (Self::Ech(a), Self::Ech(b)) => a == b,\n            (Self::IpV6Hint(a), Self::IpV6Hint(b)) => a == b,\n            _ => self.key() == other.key(),\n        }\n    }\n}\n\n#[derive(Debug, Eq, Clone)]\npub enum Param {")],
    "two SVCB values whose private parameters have the same key and different values",
    "they compare equal",
    """
fn main() {
    let mk = |v: u8| {
        let b = [0u8, 1, 0, 0xff, 0x10, 0, 1, v];
        Svcb::try_from(&mut DnsBuffer::from(&b[..])).unwrap()
    };
    assert!(mk(1) == mk(1));
    assert!(mk(1) != mk(2));
}
""")

bug("c24-tag-case", "C24",
    [("src/rdata/caa.rs", "#[derive(Clone, Debug, Default, PartialEq, Eq)]\npub struct Caa {",
      "///\n/// Tags are matched in a case insensitive manner (RFC 8659, section 4.1).\n#[derive(Clone, Debug, Default, Eq)]\npub struct Caa {"),
     ("src/rdata/caa.rs", "impl Caa {\n    pub fn new",
      "impl PartialEq for Caa {\n    fn eq(&self, other: &Self) -> bool {\n        self.issuer_critical == other.issuer_critical\n            && self.tag.eq_ignore_ascii_case(&other.tag)\n            && self.value == other.value\n    }\n}\n\nimpl Caa {\n    pub fn new")],
    "two CAA values whose tags differ in the case of letters",
    "they compare equal although they are written differently",
    """
fn main() {
    let a = Caa::new(false, "issue".into(), vec![1]);
    let b = Caa::new(false, "Issue".into(), vec![1]);
    assert!(a == a.clone());
    assert!(a != b);
}
""")

bug("c24-txt-joined", "C24",
    [("src/rdata/txt.rs", "#[derive(Clone, Debug, PartialEq, Eq)]\npub struct Txt(pub Vec<String>);",
      "#[derive(Clone, Debug, Eq)]\npub struct Txt(pub Vec<String>);\n\nimpl PartialEq for Txt {\n    fn eq(&self, other: &Self) -> bool {\n        // Long texts are split into several strings\n        self.0.concat() == other.0.concat()\n    }\n}")],
    "two texts that are split into strings at different places",
    "they compare equal",
    """
fn main() {
    let a = Txt::new(vec!["ab".into(), "c".into()]);
    let b = Txt::new(vec!["a".into(), "bc".into()]);
    assert!(a == a.clone());
    assert!(a != b);
}
""")

bug("c24-any-question", "C24",
    [("src/question.rs", "#[derive(Clone, Debug, PartialEq, Eq)]\npub struct Question {",
      "#[derive(Clone, Debug, Eq)]\npub struct Question {"),
     ("src/question.rs", "impl Question {\n    /// Create a new `Question` instance",
      "impl PartialEq for Question {\n    fn eq(&self, other: &Self) -> bool {\n        #[cfg(feature = \"mdns\")]\n        if self.unicast_response != other.unicast_response {\n            return false;\n        }\n        // A question for any class is answered by the data of each class\n        self.q_name == other.q_name\n            && self.q_type == other.q_type\n            && (self.q_class == other.q_class || self.q_class == QClass::ANY)\n    }\n}\n\nimpl Question {\n    /// Create a new `Question` instance")],
    "a question for class ANY compared with the same question for another class",
    "they are equal in one direction",
    """
fn main() {
    let q = |c| Question::new(FQDN::new("a.b"), QType::A, c);
    assert!(q(QClass::ANY) == q(QClass::ANY));
    assert!(q(QClass::ANY) != q(QClass::IN));
    assert!(q(QClass::IN) != q(QClass::ANY));
}
""")

bug("c25-name-scratch", "C25",
    [("src/buffer.rs", "        let mut data = Vec::<Vec<u8>>::new();\n        let mut org_pos = None;",
      "        thread_local! {\n            // Avoids to allocate the list of labels for each name\n            static LABELS: std::cell::RefCell<Vec<Vec<u8>>> = std::cell::RefCell::new(Vec::new());\n        }\n        let mut org_pos = None;"),
     ("src/buffer.rs", "                return Ok(FQDN::from(data));",
      "                return Ok(FQDN::from(LABELS.with(|data| data.take())));"),
     ("src/buffer.rs", "                data.push(self.data[self.pos..self.pos + len as usize].to_vec());",
      "                LABELS.with(|data| {\n                    data.borrow_mut()\n                        .push(self.data[self.pos..self.pos + len as usize].to_vec())\n                });")],
    "a message that breaks off inside a name, then another message read on the same thread",
    "the first name of the second message begins with the labels of the failed one",
    """
fn main() {
    let mut p = Packet::new_query(1, false);
    p.add_question(Question::new(FQDN::new("abc.def"), QType::A, QClass::IN));
    let b = p.to_bytes();
    assert!(Packet::try_from(&b[..b.len() - 6]).is_err());
    assert!(Packet::try_from(b.as_slice()).unwrap().questions() == p.questions());
}
""")

bug("c25-table-kept", "C25",
    [("src/packet.rs", "        let mut used_fqdn = std::collections::HashMap::<u64, usize>::new();\n",
      "        thread_local! {\n            // The table is reused to avoid allocations\n            static TABLE: std::cell::RefCell<std::collections::HashMap<u64, usize>> = Default::default();\n        }\n        let mut used_fqdn = TABLE.with(|table| table.take());\n        used_fqdn.retain(|_, pos| *pos == Header::SIZE);\n        if !self.questions.is_empty() {\n            used_fqdn.clear();\n        }\n"),
     ("src/packet.rs", "        for rec in self.additional.iter() {\n            bin.extend_from_slice(&rec.to_bytes_compressed(&mut used_fqdn, bin.len()));\n        }\n",
      "        for rec in self.additional.iter() {\n            bin.extend_from_slice(&rec.to_bytes_compressed(&mut used_fqdn, bin.len()));\n        }\n        TABLE.with(|table| table.replace(used_fqdn));\n")],
    "a message without questions is written after another one on the same thread and uses its first name",
    "the name is replaced by a pointer into the header's end although another name is there",
    """
fn main() {
    let r = |n: &str| ResourceRecord::new(FQDN::new(n), RecordType::A, RecordClass::IN, 1, RecordData::A(A::new(std::net::Ipv4Addr::new(1, 2, 3, 4))));
    let mut p = Packet::new_reply(1);
    p.add_question(Question::new(FQDN::new("abc.def"), QType::A, QClass::IN));
    let mut q = Packet::new_reply(1);
    q.add_answer(r("other.name"));
    q.add_answer(r("abc.def"));
    let before = q.to_bytes_compressed();
    p.to_bytes_compressed();
    assert_eq!(before, q.to_bytes_compressed());
}
""")

bug("c25-set-scratch", "C25",
    [("src/resource_record_set.rs", "        let mut binary_records = Vec::with_capacity(self.records.len());\n",
      "        // Shared working area, sets may be large\n        static AREA: std::sync::Mutex<Vec<Vec<u8>>> = std::sync::Mutex::new(Vec::new());\n        AREA.lock().unwrap_or_else(|err| err.into_inner()).clear();\n"),
     ("src/resource_record_set.rs", "            let pos = binary_records\n", "            let mut binary_records = AREA.lock().unwrap_or_else(|err| err.into_inner());\n            let pos = binary_records\n"),
     ("src/resource_record_set.rs", "        for bin in binary_records {\n", "        let binary_records = std::mem::take(&mut *AREA.lock().unwrap_or_else(|err| err.into_inner()));\n        for bin in binary_records {\n")],
    "two threads bring record sets into canonical form at the same time",
    "records of one set appear in the other",
    """
fn main() {
    let hs: Vec<_> = (0..4u8).map(|k| std::thread::spawn(move || {
        let ds: Vec<RecordData> = (0..20u8).map(|i| RecordData::A(A::new(std::net::Ipv4Addr::new(k, 0, 0, i)))).collect();
        let n = FQDN::new("a.b");
        let mut ok = true;
        for _ in 0..3000 {
            let b = ResourceRecordSet::new(&n, RecordType::A, RecordClass::IN, 1, ds.iter().collect()).to_bytes();
            ok = ok && b.len() == 20 * (5 + 10 + 4) && b[15] == k;
        }
        ok
    })).collect();
    for h in hs {
        assert!(h.join().unwrap());
    }
}
""")

bug("c25-hash-memo", "C25",
    [("src/util.rs", "    let mut hash = std::collections::hash_map::DefaultHasher::new();\n    fqdn.hash(&mut hash);\n    hash.finish()",
      "    use std::cell::Cell;\n    thread_local! {\n        // The same name is often written several times in a row\n        static LAST: Cell<(*const Vec<u8>, usize, usize, u64)> = const { Cell::new((std::ptr::null(), 0, 0, 0)) };\n    }\n    let size = fqdn.iter().map(|label| label.len()).sum();\n    let (ptr, labels, octets, value) = LAST.with(|last| last.get());\n    if ptr == fqdn.as_ptr() && labels == fqdn.len() && octets == size {\n        return value;\n    }\n\n    let mut hash = std::collections::hash_map::DefaultHasher::new();\n    fqdn.hash(&mut hash);\n    let value = hash.finish();\n    LAST.with(|last| last.set((fqdn.as_ptr(), fqdn.len(), size, value)));\n    value")],
    "two messages with names of the same size written one after the other, the second name at the address of the first",
    "the second name enters the compression table under the hash of the first",
    """
fn main() {
    let name = |n: &str| ResourceRecord::new(FQDN::new(n), RecordType::NULL, RecordClass::IN, 1, RecordData::NULL(Null::new(vec![])));
    let mut p = Packet::new_reply(1);
    p.add_answer(ResourceRecord::new(FQDN::new(""), RecordType::PTR, RecordClass::IN, 1, RecordData::PTR(Ptr::new(FQDN::new("rk")))));
    p.to_bytes_compressed();
    let mut recs = p.take_answers();
    // the name of the data is edited where it lies
    if let RecordData::PTR(x) = recs[0].data_mut() {
        x.inner_mut().iter_mut().for_each(|l| l[0] = b's');
    }
    recs.push(name("sk"));
    recs.push(name("rk"));
    p.set_answers(recs);
    let z = p.to_bytes_compressed();
    assert!(Packet::try_from(z.as_slice()).unwrap().answers() == p.answers());
}
""")
