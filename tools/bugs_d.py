from bugs_base import make
from bugs_c import REC, KEY
BUGS = []
bug = make(BUGS)

bug("c01-ech-length", "C01",
    [("src/rdata/svcb.rs", "            ParamKey::Ech => Self::Ech(buffer.extract_bytes(len)?.to_vec()),",
      "            ParamKey::Ech => {\n                let list_len = u16::from_be_bytes([buffer.peek_bytes(2)?[0], buffer.peek_bytes(2)?[1]]) as usize;\n                if list_len + 2 == len {\n                    // Complete configuration list\n                    Self::Ech(buffer.extract_bytes(len)?.to_vec())\n                } else {\n                    let config = buffer.extract_bytes(len)?;\n                    Self::Ech([&config[..2], &config[2..]].concat())\n                }\n            }")],
    "an ech parameter of a service binding with a value of one octet, followed by more data",
    "the parser panics",
    """
fn main() {
    let v = [0u8, 1, 0, 0, 5, 0, 1, 9, 0xFF, 0, 0, 1, 1];
    let _ = Svcb::try_from(&mut DnsBuffer::from(&v[..]));
}
""")

bug("c02-same-question", "C02",
    [("src/packet.rs", "            questions.push(Question::try_from(buffer as &mut _)?);",
      "            let question = Question::try_from(buffer as &mut _)?;\n            // Asking the same thing twice makes no difference to the answer\n            if questions.last() != Some(&question) {\n                questions.push(question);\n            }")],
    "two equal questions in a row",
    "one of them is missing in the parsed packet",
    """
fn main() {
    let mut p = Packet::new_query(1, false);
    p.add_question(Question::new(FQDN::new("a"), QType::A, QClass::IN));
    p.add_question(Question::new(FQDN::new("a"), QType::A, QClass::IN));
    assert_eq!(Packet::try_from(p.to_bytes().as_slice()).unwrap().questions().len(), 2);
}
""")

bug("c03-dictionary-full", "C03",
    [("src/fqdn.rs", "            let remaining_hash = hash_fqdn(remaining_fqdn);\n\n            if let Some(pointer) = names.get(&remaining_hash) {",
      "            let remaining_hash = hash_fqdn(remaining_fqdn);\n\n            // Keep the table small, forgotten names are simply written out again\n            if names.len() > 300 {\n                names.clear();\n            }\n\n            if let Some(pointer) = names.get(&remaining_hash) {")],
    "a message with more than 300 distinct names, followed by one of the first names again",
    "the name is spelled out again",
    """
fn main() {
    let mut p = Packet::new_query(1, false);
    for i in 0..301 { p.add_question(Question::new(FQDN::new(&format!("x{i}")), QType::A, QClass::IN)); }
    let a = p.to_bytes_compressed().len();
    p.add_question(Question::new(FQDN::new("x7"), QType::A, QClass::IN));
    assert_eq!(p.to_bytes_compressed().len(), a + 6);
}
""")

bug("c03-naptr-strings", "C03",
    [("src/rdata/naptr.rs", "                .to_bytes_compressed(names, offset + buff.len()),", "                .to_bytes_compressed(names, offset + 7 + self.flags.len() + self.service.len() + self.regexp.chars().count()),")],
    "a NAPTR record with non-ASCII characters in its expression whose replacement name is referred to later",
    "the pointer refers to the wrong place",
    REC + """
fn main() {
    let mut d = vec![0u8, 1, 0, 1, 0, 0, 4, b'!', 0xC3, 0xA4, b'!'];
    d.extend(FQDN::new("one.two").to_bytes());
    let n = RecordData::from(RecordType::NAPTR, &mut DnsBuffer::from(&d[..])).unwrap();
    let mut p = Packet::new_reply(1);
    p.add_answer(rec("z", RecordType::NAPTR, n));
    p.add_answer(rec("one.two", RecordType::A, RecordData::A(A::from(7u32))));
    let q = Packet::try_from(p.to_bytes_compressed().as_slice()).unwrap();
    assert_eq!(q.answers()[1].name(), &FQDN::new("one.two"));
}
""")

bug("c04-header-kept", "C04",
    [("src/packet.rs", "            *ptr = (self.answers.len() as u16).to_be();", "            *ptr = if self.answers.is_empty() && !self.header.query_response() {\n                self.header.ans_count.to_be()\n            } else {\n                (self.answers.len() as u16).to_be()\n            };")],
    "a header with a stale answer count put into a query that has no answers",
    "the plain serialisation announces answers that are not there",
    """
fn main() {
    let mut p = Packet::new_query(1, false);
    let h = Header::try_from(&mut DnsBuffer::from(&[0u8, 1, 0, 0, 0, 0, 0, 3, 0, 0, 0, 0][..])).unwrap();
    p.set_header(h);
    assert_eq!(p.to_bytes()[7], 0);
}
""")

bug("c05-status-recursion", "C05",
    [("src/header.rs", "        self.flags.set_opcode(unsafe { transmute(opcode) });", "        self.flags.set_opcode(unsafe { transmute(opcode) });\n\n        // Recursion only applies to queries\n        if opcode == OpCode::ServerStatusRequest {\n            self.flags.set_rd(0);\n        }")],
    "selecting the status operation after recursion was requested",
    "the recursion flag is cleared",
    """
fn main() {
    let mut p = Packet::new_query(1, true);
    p.set_opcode(OpCode::ServerStatusRequest);
    assert!(p.recursion_desired());
}
""")

bug("c06-last-offset", "C06",
    [("src/buffer.rs", "                    & !COMPRESSION_MASK_U16) as usize;", "                    & !COMPRESSION_MASK_U16 & 0x3FFE | (self.peek_bytes(2)?[1] & 1) as u16) as usize;\n                if self.pos == 0x3FFF {\n                    return Err(DnsError::UnresolveableCompressionPointer);\n                }")],
    "a pointer to offset 16383", "a valid pointer is rejected",
    """
fn main() {
    let mut m = vec![0u8; 16383];
    m.extend([1, b'a', 0, 0xFF, 0xFF]);
    let mut b = DnsBuffer::from(&m[..]);
    b.set_position(16386).unwrap();
    assert_eq!(b.extract_fqdn().unwrap(), FQDN::new("a"));
}
""")

bug("c06-many-labels", "C06",
    [("src/buffer.rs", "                data.push(self.data[self.pos..self.pos + len as usize].to_vec());",
      "                if data.len() >= 126 {\n                    return Err(DnsError::LengthViolation);\n                }\n                data.push(self.data[self.pos..self.pos + len as usize].to_vec());")],
    "a name of 127 labels of one octet each, which has exactly 255 octets",
    "the name is rejected",
    """
fn main() {
    let mut m = Vec::new();
    for _ in 0..127 { m.extend([1, b'a']); }
    m.push(0);
    let mut b = DnsBuffer::from(&m[..]);
    assert_eq!(b.extract_fqdn().unwrap().label_count(), 127);
}
""")

bug("c07-caa-size", "C07",
    [("src/rdata/caa.rs", "        (2 * std::mem::size_of::<u8>()) + self.tag.len() + self.value.len()", "        (2 * std::mem::size_of::<u8>()) + self.tag.trim_end().len() + self.value.len()")],
    "a CAA tag that ends with a blank",
    "the announced size is too small",
    """
fn main() {
    let c = Caa::new(false, "issue ".to_string(), vec![1, 2]);
    assert_eq!(c.byte_size(), c.to_bytes().len());
}
""")

bug("c08-hip-key-length", "C08",
    [("src/rdata/hip.rs", "        buf.push(self.public_key_algorithm.into());\n        buf.extend(u16::to_be_bytes(self.public_key.len() as u16));", "        buf.push(self.public_key_algorithm.into());\n        buf.extend([(self.public_key.len() >> 8) as u8 & 0x03, self.public_key.len() as u8]);")],
    "a HIP record with a public key of 1024 octets or more",
    "the length of the key is written wrong",
    """
fn main() {
    let mut d = vec![2u8, 1, 4, 1, 7, 7];
    d.extend(vec![9u8; 1025]);
    let h = Hip::try_from(&mut DnsBuffer::from(&d[..])).unwrap();
    assert_eq!(h.to_bytes(), d);
}
""")

bug("c08-srv-root", "C08",
    [("src/rdata/srv.rs", "        buff.append(&mut self.target.to_bytes_compressed(names, offset + 6));", "        if self.target.is_root() {\n            // Service is decidedly not available\n            buff.push(b'.');\n        } else {\n            buff.append(&mut self.target.to_bytes_compressed(names, offset + 6));\n        }")],
    "an SRV record with the root as target in a compressed packet",
    "the target is written as a text dot",
    REC + """
fn main() {
    let mut p = Packet::new_reply(1);
    p.add_answer(rec("a", RecordType::SRV, RecordData::SRV(Srv::new(1, 2, 3, FQDN::new("")))));
    assert_eq!(p.to_bytes(), p.to_bytes_compressed());
}
""")

bug("c09-regexp-tail", "C09",
    [("src/buffer.rs", "        let string = String::from_utf8(self.extract_character_string()?)\n            .map_err(|_| DnsError::LengthViolation)?;\n        Ok(string)",
      "        let data = self.extract_character_string()?;\n        match std::str::from_utf8(&data) {\n            Ok(string) => Ok(string.to_string()),\n            // The last character may be cut off at the end of the character string\n            Err(err) if err.error_len().is_none() => {\n                Ok(String::from_utf8_lossy(&data[..err.valid_up_to()]).to_string())\n            }\n            Err(_) => Err(DnsError::LengthViolation),\n        }")],
    "a NAPTR expression that ends in the middle of a multi-octet character",
    "the invalid string is accepted without its last octets",
    """
fn main() {
    let v = [0u8, 1, 0, 1, 0, 0, 2, b'a', 0xC3, 0];
    assert!(Naptr::try_from(&mut DnsBuffer::from(&v[..])).is_err());
}
""")

bug("c09-loc-altitude", "C09",
    [("src/rdata/loc.rs", "            longitude: buffer.extract_u32()?,\n            altitude: buffer.extract_u32()?,", "            longitude: buffer.extract_u32()?,\n            altitude: match buffer.extract_u32()? {\n                // Reference spheroid when the altitude is not given\n                0 => 10_000_000,\n                altitude => altitude,\n            },")],
    "a LOC record 100,000 m below the spheroid (altitude field of zero)",
    "the altitude is read wrong",
    """
fn main() {
    let l = Loc::try_from(&mut DnsBuffer::from(&[0u8, 1, 2, 3, 0, 0, 0, 4, 0, 0, 0, 5, 0, 0, 0, 0][..])).unwrap();
    assert_eq!(l.altitude, 0);
}
""")

bug("c10-txt-short", "C10",
    [("src/resource.rs", "        let rdata = RecordData::from(a_type, &mut rdata_buffer)?;\n\n        buffer.advance(data_len as usize)?;",
      "        let rdata = RecordData::from(a_type, &mut rdata_buffer);\n        let unread = rdata_buffer.remaining();\n\n        buffer.advance(data_len as usize)?;\n        let rdata = match rdata {\n            // Some implementations announce the uncompressed length\n            Err(DnsError::LengthViolation) if unread == 0 && a_type == RecordType::TXT => {\n                RecordData::from(RecordType::TXT, &mut DnsBuffer::from(&[][..]))?\n            }\n            rdata => rdata?,\n        };")],
    "a TXT record whose last length octet announces more bytes than the record has",
    "the record is accepted as an empty one",
    """
fn main() {
    let mut m = vec![0u8, 1, 0x80, 0, 0, 0, 0, 1, 0, 0, 0, 0];
    m.extend([0, 0, 16, 0, 1, 0, 0, 0, 1, 0, 3, 1, b'a', 7, 9, 9, 9, 9, 9, 9, 9, 9]);
    assert!(Packet::try_from(m.as_slice()).is_err());
}
""")

bug("c11-trailing-tsig", "C11",
    [("src/packet.rs", "        let packet = Packet::try_from(&mut buffer)?;\n        Ok(packet)", "        let mut packet = Packet::try_from(&mut buffer)?;\n        // Some senders forget to count the record that they append at last\n        if let Ok(record) = ResourceRecord::try_from(&mut buffer) {\n            if buffer.remaining() == 0 && record.a_type == crate::RecordType::TSIG {\n                packet.add_additional(record);\n            }\n        }\n        Ok(packet)")],
    "a complete message that is followed by a TSIG record which the header does not count",
    "the packet has more entries than announced",
    """
fn main() {
    let mut m = vec![0u8, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    m.extend([0, 0, 250, 0, 255, 0, 0, 0, 0, 0, 17, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0]);
    assert!(Packet::try_from(m.as_slice()).unwrap().additionals().is_empty());
}
""")

bug("c12-sub-empty", "C12",
    [("src/buffer.rs", "        len += self.pos;\n        Ok(Self {", "        if len == 0 {\n            len = self.remaining();\n        }\n        len += self.pos;\n        Ok(Self {")],
    "a sub-buffer of length zero",
    "the sub-buffer exposes all the following bytes",
    """
fn main() {
    let mut b = DnsBuffer::from(&[1u8, 2, 3][..]);
    assert_eq!(b.sub_buffer(0).unwrap().remaining(), 0);
}
""")

bug("c12-u32-halves", "C12",
    [("src/buffer.rs", "        Ok(u32::from_be_bytes(self.extract_bytes(4)?.try_into()?))", "        Ok((self.extract_u16()? as u32) << 16 | self.extract_u16()? as u32)")],
    "reading four bytes where only two or three are left",
    "the failed read moves the position",
    """
fn main() {
    let mut b = DnsBuffer::from(&[1u8, 2, 3][..]);
    assert!(b.extract_u32().is_err());
    assert_eq!(b.position(), 0);
}
""")

bug("c13-opcode-high", "C13",
    [("src/header.rs", "            2 => OpCode::ServerStatusRequest,\n            _ => OpCode::Reserved,", "            2 => OpCode::ServerStatusRequest,\n            3 => OpCode::Reserved,\n            _ => OpCode::from(code - 4),")],
    "an opcode of 4 and above",
    "an unassigned opcode is taken for an assigned one",
    """
fn main() {
    assert_eq!(OpCode::from(5), OpCode::Reserved);
}
""")

bug("c14-window-again", "C14",
    [("src/rdata/csync.rs", "            let bitmap = buffer.extract_bytes(window_len as usize)?;\n            for (index, octet) in bitmap.iter().enumerate() {", "            let bitmap = buffer.extract_bytes(window_len as usize)?;\n            // A window is sent once, a later one replaces the former\n            types.retain(|rtype: &RecordType| u16::from(*rtype) / 256 != window_num);\n            for (index, octet) in bitmap.iter().enumerate() {")],
    "a bitmap with two blocks of the same window",
    "the types of the first block are lost",
    """
fn main() {
    let c = Csync::try_from(&mut DnsBuffer::from(&[0u8, 0, 0, 1, 0, 0, 0, 1, 0x40, 0, 1, 0x20][..])).unwrap();
    assert_eq!(c.types.len(), 2);
}
""")

bug("c15-plain-class", "C15",
    [("src/question.rs", "        let number = number & 0b01111111_11111111;\n", "        #[cfg(feature = \"mdns\")]\n        let number = number & 0b01111111_11111111;\n")],
    "a question with the top bit of the class set, read without the mDNS feature",
    "the question is rejected",
    """
fn main() {
    let mut m = vec![0u8, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0];
    m.extend([1, b'a', 0, 0, 1, 0x80, 1]);
    assert_eq!(Packet::try_from(m.as_slice()).unwrap().questions()[0].class(), &QClass::IN);
}
""")

bug("c16-opt-ttl", "C16",
    [("src/resource_record_set.rs", "            binary.extend_from_slice(&u32::to_be_bytes(self.ttl));", "            let ttl = if self.set_type == RecordType::OPT { 0 } else { self.ttl };\n            binary.extend_from_slice(&u32::to_be_bytes(ttl));")],
    "a record set of type OPT",
    "the TTL of the members is not the one of the set",
    """
fn main() {
    let n = FQDN::new("");
    let d = RecordData::OPT(Opt::default());
    let s = ResourceRecordSet::new(&n, RecordType::OPT, RecordClass::IN, 7, vec![&d]);
    assert_eq!(s.to_bytes()[8], 7);
}
""")

bug("c17-verify-type", "C17",
    [("src/rdata/dnssec.rs", "        sig.extend_from_slice(&u16::to_be_bytes(self.type_covered.into()));", "        sig.extend_from_slice(&u16::to_be_bytes(rr_set.set_type().into()));")],
    "a signature record that claims to cover another type than the one of the record set",
    "verification succeeds although the covered type was altered",
    KEY + """
fn main() {
    let (sk, key) = key();
    let n = FQDN::new("a.b");
    let d = RecordData::A(A::from(7u32));
    let set = ResourceRecordSet::new(&n, RecordType::A, RecordClass::IN, 60, vec![&d]);
    let s = Rrsig::from_dnskey(&key, &set, &(UNIX_EPOCH + Duration::from_secs(5)), &(UNIX_EPOCH + Duration::from_secs(9)), &sk).unwrap();
    let mut b = s.to_bytes();
    b[1] = 2;
    let t = Rrsig::try_from(&mut DnsBuffer::from(&b[..])).unwrap();
    assert!(!t.verify(&key, &set).unwrap());
}
""", features=("dnssec",), extra='ring = "0.17.5"')

bug("c18-digest-384", "C18",
    [("src/rdata/dnssec.rs", "            .as_ref()\n            .to_vec())\n    }\n}\n\nimpl TryFrom<u8> for DigestType {", "            .as_ref()\n            .chunks(48)\n            .next()\n            .unwrap_or_default()\n            .to_vec())\n    }\n}\n\nimpl TryFrom<u8> for DigestType {")],
    "a DS record with digest type 5 (SHA-512)",
    "the digest is cut off",
    """
fn main() {
    let k = DnsKey::try_from(&mut DnsBuffer::from(&[1u8, 0, 3, 8, 1, 2, 3][..])).unwrap();
    let t = Ds::try_from(&mut DnsBuffer::from(&[0u8, 1, 8, 5, 0][..])).unwrap().digest_type;
    assert_eq!(Ds::try_from_dnskey(&FQDN::new("a"), &k, t).unwrap().digest.len(), 64);
}
""", features=("dnssec",))

bug("c19-append-last-dot", "C19",
    [("src/fqdn.rs", "        self.data.push(name.as_bytes().to_vec());", "        if self.is_root() {\n            self.data.clear();\n        }\n        self.data.push(name.trim_end_matches('.').as_bytes().to_vec());")],
    "appending a label that ends with a dot",
    "the label loses its last octet",
    """
fn main() {
    let mut n = FQDN::new("a");
    n.append_label("b.");
    assert_eq!(n, FQDN::from(vec![b"a".to_vec(), b"b.".to_vec()]));
}
""")

bug("c20-tsig-last", "C20",
    [("src/packet.rs", "        self.additional.push(add);", "        // A TSIG record stays the last one\n        let pos = match self.additional.last() {\n            Some(last) if last.a_type == crate::RecordType::TSIG => self.additional.len() - 1,\n            _ => self.additional.len(),\n        };\n        self.additional.insert(pos, add);")],
    "adding an additional record after a TSIG record",
    "the entries are not in the order in which they were added",
    REC + """
fn main() {
    let t = [0u8, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0];
    let t = RecordData::from(RecordType::TSIG, &mut DnsBuffer::from(&t[..])).unwrap();
    let mut p = Packet::new_query(1, false);
    p.add_additional(rec("", RecordType::TSIG, t));
    p.add_additional(rec("a", RecordType::A, RecordData::A(A::from(7u32))));
    assert_eq!(p.additionals()[0].record_type(), &RecordType::TSIG);
}
""")

bug("c21-option-zero", "C21",
    [("src/rdata/opt.rs", "            this.0.insert(opt_code, opt_data.to_vec());", "            // Codes for local use (65001-65534) and the reserved ones at both ends are no options\n            if opt_code == 0 && opt_data.is_empty() {\n                break;\n            }\n            this.0.insert(opt_code, opt_data.to_vec());")],
    "an option with code 0 and no data before other options",
    "the following options are lost",
    """
fn main() {
    let o = Opt::try_from(&mut DnsBuffer::from(&[0u8, 0, 0, 0, 0, 3, 0, 1, 9][..])).unwrap();
    assert_eq!(o.0.len(), 2);
}
""")

bug("c21-mandatory-self", "C21",
    [("src/rdata/svcb.rs", "                    keys.insert(buffer.extract_u16()?.try_into()?);", "                    let key = ParamKey::try_from(buffer.extract_u16()?)?;\n                    // Automatically mandatory\n                    if key != ParamKey::Port {\n                        keys.insert(key);\n                    }")],
    "a mandatory parameter that lists the port key",
    "the key is missing in the parsed set",
    """
fn main() {
    let v = [0u8, 1, 0, 0, 0, 0, 4, 0, 1, 0, 3];
    let s = Svcb::try_from(&mut DnsBuffer::from(&v[..])).unwrap();
    assert_eq!(s.to_bytes(), v.to_vec());
}
""")

bug("c22-any-class", "C22",
    [("src/question.rs", "        self.q_type = query_type;\n", "        if query_type == QType::AXFR && self.q_class == QClass::ANY {\n            // A transfer is always about a single class\n            self.q_class = QClass::IN;\n        }\n        self.q_type = query_type;\n")],
    "turning a question of class ANY into a zone transfer",
    "the class of the question changes",
    """
fn main() {
    let mut q = Question::new(FQDN::new("a"), QType::A, QClass::ANY);
    q.set_query_type(QType::AXFR);
    assert_eq!(q.class(), &QClass::ANY);
}
""")

bug("c22-set-name", "C22",
    [("src/resource.rs", "        self.a_name = name;\n", "        if !name.is_root() || self.a_type != RecordType::NS {\n            self.a_name = name;\n        }\n")],
    "moving an NS record to the root",
    "the record keeps its old name",
    REC + """
fn main() {
    let mut r = rec("a", RecordType::NS, RecordData::A(A::from(7u32)));
    r.set_name(FQDN::new("."));
    assert!(r.name().is_root());
}
""")

bug("c23-mode-sign", "C23",
    [("src/rdata/svcb.rs", "        if self.priority == 0 {\n            Mode::Alias", "        if self.priority == 0 || (self.priority as i16) < 0 && self.params.is_empty() {\n            Mode::Alias")],
    "a service binding without parameters and with a priority of 32768 or more",
    "it is taken for an alias",
    """
fn main() {
    let s = Svcb::try_from(&mut DnsBuffer::from(&[0x80u8, 1, 1, b'a', 0][..])).unwrap();
    assert!(!is_alias(&s));
}
fn is_alias(s: &Svcb) -> bool { format!("{}", unsafe { std::mem::transmute_copy::<_, u8>(&s.mode()) }) == "0" }
""")

bug("c23-address-text", "C23",
    [("src/rdata/a.rs", "        Ok(Self(value.parse::<Ipv4Addr>()?))", "        Ok(Self(value.trim_end_matches('.').parse::<Ipv4Addr>()?))")],
    "address text with a trailing dot",
    "text that is not an address is accepted",
    """
fn main() {
    assert!(A::try_from("192.0.2.1.").is_err());
}
""")
