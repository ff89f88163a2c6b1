from bugs_base import make
from bugs_c import REC, KEY
BUGS = []
bug = make(BUGS)

bug("c16-prefix-order", "C16",
    [("src/resource_record_set.rs", "                .binary_search(&bin)\n                .unwrap_or_else(|insert_pos| insert_pos);",
      "                .binary_search_by(|other: &Vec<u8>| {\n                    // Comparing the leading octets is sufficient and faster for large records\n                    let (a, b) = (other.len().min(128), bin.len().min(128));\n                    other[..a].cmp(&bin[..b])\n                })\n                .unwrap_or_else(|insert_pos| insert_pos);")],
    "records of a set that agree in the first 128 octets of their data",
    "the order of the set depends on the order in which the records were given",
    """
fn main() {
    let mk = |c: u8| { let mut v = vec![7u8; 140]; v.push(c); RecordData::NULL(Null::new(v)) };
    let (a, b) = (mk(2), mk(1));
    let n = FQDN::new("a.b");
    let x = ResourceRecordSet::new(&n, RecordType::NULL, RecordClass::IN, 1, vec![&a, &b]).to_bytes();
    let y = ResourceRecordSet::new(&n, RecordType::NULL, RecordClass::IN, 1, vec![&b, &a]).to_bytes();
    assert_eq!(x, y);
}
""")

bug("c03-short-hash", "C03",
    [("src/util.rs", "    hash.finish()", "    // The upper half is sufficient for the few names of a message\n    hash.finish() >> 36")],
    "two different name endings in a message whose hashes agree in 28 bits",
    "the second name is replaced by a pointer to the first",
    """
fn main() {
    for round in 0..40u32 {
        let mut p = Packet::new_query(1, false);
        let mut s: u32 = round * 7919 + 1;
        let mut len = 12;
        while len < 16000 {
            let n: Vec<Vec<u8>> = (0..100).map(|_| { s = s.wrapping_mul(1664525).wrapping_add(1013904223); vec![(s >> 24) as u8] }).collect();
            let f = FQDN::from(n);
            len += f.len() + 4;
            p.add_question(Question::new(f, QType::A, QClass::IN));
        }
        let q = Packet::try_from(p.to_bytes_compressed().as_slice()).unwrap();
        assert!(q.questions() == p.questions());
    }
}
""")

bug("c20-one-opt", "C20",
    [("src/packet.rs", "        self.additional.push(add);",
      "        // A message contains at most one OPT record\n        if *add.record_type() == crate::resource::RecordType::OPT {\n            self.additional.retain(|rec| *rec.record_type() != crate::resource::RecordType::OPT);\n        }\n        self.additional.push(add);")],
    "a second OPT record is added to the additional section",
    "the first one is gone",
    """
fn main() {
    let opt = |s| ResourceRecord::new(FQDN::new(""), RecordType::OPT, RecordClass::UdpPayloadSize(s), 0, RecordData::OPT(Opt::default()));
    let mut p = Packet::new_query(1, false);
    p.add_additional(opt(512));
    p.add_additional(opt(4096));
    assert_eq!(p.additionals().len(), 2);
}
""")

bug("c02-minfo-same", "C02",
    [("src/rdata/minfo.rs", "        buffer.append(&mut self.emailbx.to_bytes());",
      "        if self.emailbx == self.rmailbx {\n            // Errors go to the responsible mailbox\n            buffer.push(0);\n        } else {\n            buffer.append(&mut self.emailbx.to_bytes());\n        }"),
     ("src/rdata/minfo.rs", "        self.rmailbx.byte_size() + self.emailbx.byte_size()",
      "        let errors = if self.emailbx == self.rmailbx {\n            1\n        } else {\n            self.emailbx.byte_size()\n        };\n        self.rmailbx.byte_size() + errors")],
    "a MINFO record whose two mailboxes are the same (and not the root)",
    "the second mailbox reads back as the root",
    """
fn main() {
    let m = Minfo::new(FQDN::new("a.b"), FQDN::new("a.b"));
    let b = Minfo::try_from(&mut DnsBuffer::from(m.to_bytes().as_slice())).unwrap();
    assert_eq!(m, b);
}
""")

bug("c02-txt-tail", "C02",
    [("src/rdata/txt.rs", "        Ok(Self(txt_store))",
      "        // Padding at the end carries no information\n        while txt_store.len() > 1 && txt_store.last().map_or(false, |txt| txt.is_empty()) {\n            txt_store.pop();\n        }\n        Ok(Self(txt_store))")],
    "a TXT record whose last string is empty",
    "the string is missing after reading",
    """
fn main() {
    let t = Txt::new(vec!["a".into(), "".into()]);
    let b = Txt::try_from(&mut DnsBuffer::from(t.to_bytes().as_slice())).unwrap();
    assert_eq!(t, b);
}
""")

bug("c08-tkey-times", "C08",
    [("src/rdata/tkey.rs", "        buf.extend(u32::to_be_bytes(self.inception));\n        buf.extend(u32::to_be_bytes(self.expiration));",
      "        // The interval starts with the earlier point in time\n        buf.extend(u32::to_be_bytes(self.inception.min(self.expiration)));\n        buf.extend(u32::to_be_bytes(self.inception.max(self.expiration)));")],
    "a TKEY record with an inception after its expiration (serial number arithmetic)",
    "the two times are written in exchanged order",
    """
fn main() {
    let b = [0u8, 0xFF, 0xFF, 0xFF, 0, 0, 0, 0, 9, 0, 1, 0, 0, 0, 0, 0, 0];
    let t = Tkey::try_from(&mut DnsBuffer::from(&b[..])).unwrap();
    assert_eq!(t.to_bytes(), b);
}
""")

bug("c08-hip-repeat", "C08",
    [("src/rdata/hip.rs", "            for name in rs {\n                buf.extend(name.to_bytes());\n            }",
      "            let mut last = None;\n            for name in rs {\n                if last != Some(name) {\n                    buf.extend(name.to_bytes());\n                }\n                last = Some(name);\n            }"),
     ("src/rdata/hip.rs", "                .map(|b| -> usize { b.iter().map(|fqdn| fqdn.byte_size()).sum() })",
      "                .map(|b| -> usize {\n                    let mut names = b.clone();\n                    names.dedup();\n                    names.iter().map(|fqdn| fqdn.byte_size()).sum()\n                })")],
    "a HIP record that lists a rendezvous server twice in a row",
    "the server is written once",
    """
fn main() {
    let b = [1u8, 2, 0, 1, 9, 8, 1, b'a', 0, 1, b'a', 0];
    let h = Hip::try_from(&mut DnsBuffer::from(&b[..])).unwrap();
    assert_eq!(h.to_bytes(), b);
}
""")

bug("c09-tlsa-digest", "C09",
    [("src/rdata/tlsa.rs", "        Ok(Self {\n            cert_usage: buffer.extract_u8()?.try_into()?,\n            selector: buffer.extract_u8()?.try_into()?,\n            matching_type: buffer.extract_u8()?.try_into()?,\n            associated_data: buffer.extract_bytes(buffer.remaining())?.to_vec(),\n        })",
      "        let cert_usage = buffer.extract_u8()?.try_into()?;\n        let selector = buffer.extract_u8()?.try_into()?;\n        let matching_type = buffer.extract_u8()?.try_into()?;\n        let len = match matching_type {\n            MatchingType::SHA512 => 64.min(buffer.remaining()),\n            _ => buffer.remaining(),\n        };\n        Ok(Self {\n            cert_usage,\n            selector,\n            matching_type,\n            associated_data: buffer.extract_bytes(len)?.to_vec(),\n        })")],
    "a TLSA record with matching type SHA-512 and more than 64 octets",
    "the rest is cut off",
    """
fn main() {
    let mut b = vec![0u8, 0, 2];
    b.extend([5u8; 80]);
    let t = Tlsa::try_from(&mut DnsBuffer::from(b.as_slice())).unwrap();
    assert_eq!(t.to_bytes(), b);
}
""")

bug("c09-null-cut", "C09",
    [("src/rdata/null.rs", "            anything: buffer.extract_bytes(buffer.remaining())?.to_vec(),",
      "            // Reserved buffer for large experimental data\n            anything: {\n                let len = buffer.remaining() & 0x3FFF;\n                let data = buffer.extract_bytes(len)?.to_vec();\n                buffer.advance(buffer.remaining())?;\n                data\n            },")],
    "a NULL record with more than 16383 octets",
    "octets are missing",
    """
fn main() {
    let n = Null::new(vec![3; 16400]);
    let b = Null::try_from(&mut DnsBuffer::from(n.to_bytes().as_slice())).unwrap();
    assert!(n == b);
}
""")

bug("c06-header-pointer", "C06",
    [("src/buffer.rs", "                self.pos = (u16::from_be_bytes(self.peek_bytes(2)?.try_into()?)\n                    & !COMPRESSION_MASK_U16) as usize;",
      "                self.pos = (u16::from_be_bytes(self.peek_bytes(2)?.try_into()?)\n                    & !COMPRESSION_MASK_U16) as usize;\n                if self.pos < crate::header::Header::SIZE && self.data.len() > 512 {\n                    // Names never start inside of the header\n                    return Err(DnsError::UnresolveableCompressionPointer);\n                }")],
    "a pointer to one of the first 12 octets in a buffer of more than 512 octets",
    "the name is rejected",
    """
fn main() {
    let mut b = vec![0u8; 600];
    b[0] = 1; b[1] = b'a';
    b[20] = 0xC0;
    let mut d = DnsBuffer::from(b.as_slice());
    d.set_position(20).unwrap();
    assert_eq!(d.extract_fqdn().unwrap(), FQDN::new("a"));
}
""")


bug("c19-parts-dots", "C19",
    [("src/fqdn.rs", "            .map(|str_part| str_part.as_bytes().to_vec())\n            .collect();",
      "            .flat_map(|str_part| str_part.split('.'))\n            .map(|str_part| str_part.as_bytes().to_vec())\n            .collect();")],
    "a name built of a list of labels, one of which contains a dot",
    "the label is split in two",
    """
fn main() {
    let f = FQDN::from(&["My.Printer", "local"][..]);
    assert_eq!(f.label_count(), 2);
}
""")

bug("c19-equal-case", "C19",
    [("src/fqdn.rs", "#[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]\npub struct FQDN {",
      "#[derive(Clone, Debug, Default, Eq, PartialOrd, Ord)]\npub struct FQDN {"),
     ("src/fqdn.rs", "impl Display for FQDN {",
      "impl PartialEq for FQDN {\n    fn eq(&self, other: &Self) -> bool {\n        // Compare from the end, that is where names of a zone differ the least\n        self.data.len() == other.data.len()\n            && self.data.iter().rev().zip(other.data.iter().rev()).all(|(a, b)| {\n                a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (x ^ y == 0x20 && x & 0x40 != 0 && y & 0x9F != 0x1B && a.len() > 32))\n            })\n    }\n}\n\nimpl Display for FQDN {")],
    "two names that differ only in the case of a label of more than 32 octets",
    "they are equal although their order says otherwise",
    """
fn main() {
    let a = FQDN::from(vec![vec![b'a'; 40]]);
    let b = FQDN::from(vec![vec![b'A'; 40]]);
    assert!(a != b && a.cmp(&b) != std::cmp::Ordering::Equal);
}
""")

bug("c14-last-window", "C14",
    [("src/rdata/csync.rs", "                        let bit_position = (256 * window_num) + (8 * index as u16) + i;",
      "                        let bit_position = (window_num << 8) | ((index as u16) << 3) | i;\n                        if bit_position >= 0x8000 {\n                            // Private use types are of no relevance for synchronisation\n                            continue;\n                        }")],
    "a CSYNC bitmap that names an unknown type of 32768 or above",
    "the record is accepted instead of rejected",
    """
fn main() {
    let b = [0u8, 0, 0, 1, 0, 3, 0, 1, 0x40, 128, 1, 0x40];
    assert!(Csync::try_from(&mut DnsBuffer::from(&b[..])).is_err());
}
""")

bug("c05-inverse-tc", "C05",
    [("src/header.rs", "        self.flags.set_opcode(unsafe { transmute(opcode) });",
      "        self.flags.set_opcode(unsafe { transmute(opcode) });\n\n        // Inverse queries are never truncated\n        if opcode == OpCode::InverseQuery && self.query_response() && self.recursion_available() {\n            self.flags.set_tc(0);\n        }")],
    "setting the opcode to an inverse query on a truncated response with recursion available",
    "the truncation flag is cleared",
    """
fn main() {
    let mut p = Packet::new_reply(1);
    p.set_recursion_available(true);
    p.set_truncation(true);
    p.set_opcode(OpCode::InverseQuery);
    assert!(p.truncation());
}
""")

bug("c04-oversized", "C04",
    [("src/packet.rs", "        bin.extend_from_slice(&self.header.to_bytes());\n",
      "        bin.extend_from_slice(&self.header.to_bytes());\n        if byte_len > 0xFFFF {\n            // Message can only be sent in parts, keep the announced counts\n            for rec in self.questions.iter() {\n                bin.extend_from_slice(&rec.to_bytes());\n            }\n            for rec in self.answers.iter().chain(self.authorities.iter()).chain(self.additional.iter()) {\n                bin.extend_from_slice(&rec.to_bytes());\n            }\n            return bin;\n        }\n")],
    "a message of more than 65535 octets whose header was replaced after the sections were filled",
    "the counts on the wire are those of the replaced header",
    """
fn main() {
    let mut p = Packet::new_reply(1);
    for _ in 0..2 {
        p.add_answer(ResourceRecord::new(FQDN::new("a"), RecordType::NULL, RecordClass::IN, 1, RecordData::NULL(Null::new(vec![1; 40000]))));
    }
    p.set_header(Header::new_reply(2, OpCode::StandardQuery));
    let b = p.to_bytes();
    assert_eq!(b[6..8], [0, 2]);
}
""")

bug("c22-name-case", "C22",
    [("src/resource.rs", "        self.a_name = name;",
      "        // Names that only differ in case stay as they are\n        let same = self.a_name.label_count() == name.label_count()\n            && self.a_name.iter().zip(name.iter()).all(|(a, b)| a.eq_ignore_ascii_case(b));\n        if !same {\n            self.a_name = name;\n        }")],
    "an owner name is replaced by one that differs only in case",
    "the record keeps the old spelling",
    """
fn main() {
    let mut r = ResourceRecord::new(FQDN::new("Abc"), RecordType::NULL, RecordClass::IN, 1, RecordData::NULL(Null::new(vec![])));
    r.set_name(FQDN::new("abc"));
    assert_eq!(r.name(), &FQDN::new("abc"));
}
""")

bug("c17-large-set", "C17",
    [("src/rdata/dnssec.rs", "        sig.extend(rr_set.to_bytes());\n\n        // For some", "        sig.extend(rr_set.to_bytes().iter().take(u16::MAX as usize));\n\n        // For some"),
     ("src/rdata/dnssec.rs", "        sig.extend(rr_set.to_bytes());\n\n        self.signature", "        sig.extend(rr_set.to_bytes().iter().take(u16::MAX as usize));\n\n        self.signature")],
    "a record set whose canonical form exceeds 65535 octets",
    "the records behind that are not covered by the signature, changes are not noticed",
    KEY + """
fn main() {
    let (sk, key) = key();
    let n = FQDN::new("a.b");
    let mk = |a: u8, b: u8| { let mut v = vec![a; 40000]; v.push(b); RecordData::NULL(Null::new(v)) };
    let (a, b, c) = (mk(1, 0), mk(2, 0), mk(2, 1));
    let set = ResourceRecordSet::new(&n, RecordType::NULL, RecordClass::IN, 60, vec![&a, &b]);
    let s = Rrsig::from_dnskey(&key, &set, &(UNIX_EPOCH + Duration::from_secs(5)), &(UNIX_EPOCH + Duration::from_secs(9)), &sk).unwrap();
    assert!(s.verify(&key, &set).unwrap());
    let other = ResourceRecordSet::new(&n, RecordType::NULL, RecordClass::IN, 60, vec![&a, &c]);
    assert!(!s.verify(&key, &other).unwrap());
}
""", features=("dnssec",), extra='ring = "0.17.5"')

bug("c18-tag-carry-twice", "C18",
    [("src/rdata/dnssec.rs", "        key_tag += (key_tag >> 16) & 0xFFFF;\n", "        key_tag = (key_tag & 0xFFFF) + (key_tag >> 16);\n        key_tag = (key_tag & 0xFFFF) + (key_tag >> 16);\n")],
    "a key whose sum carries again when the first carry is added",
    "the tag is one too large compared to RFC 4034",
    """
fn main() {
    let v = [1u8, 0, 3, 8, 0xFF, 0xFF, 0xFB, 0xF8];
    let key = DnsKey::try_from(&mut DnsBuffer::from(&v[..])).unwrap();
    let ds = Ds::try_from(&mut DnsBuffer::from(&[0u8, 1, 8, 2, 0][..])).unwrap();
    let made = Ds::try_from_dnskey(&FQDN::new("a.b"), &key, ds.digest_type).unwrap();
    assert_eq!(made.key_tag, 0);
}
""", features=("dnssec",))

bug("c21-default-alpn-value", "C21",
    [("src/rdata/svcb.rs", "            ParamKey::NoDefaultAlpn => Self::NoDefaultAlpn,\n            ParamKey::Port",
      "            ParamKey::NoDefaultAlpn => {\n                // The value is reserved and ignored\n                buffer.advance(len)?;\n                Self::NoDefaultAlpn\n            }\n            ParamKey::Port")],
    "a no-default-alpn parameter with a value",
    "the parameter is accepted and its value silently dropped",
    """
fn main() {
    let b = [0u8, 1, 0, 0, 2, 0, 1, 7];
    assert!(Svcb::try_from(&mut DnsBuffer::from(&b[..])).is_err());
}
""")

bug("c10-opt-unbounded", "C10",
    [("src/rdata/opt.rs", "            let opt_data_len = buffer.extract_u16()?;\n            let opt_data = buffer.extract_bytes(opt_data_len as usize)?;",
      "            let opt_data_len = buffer.extract_u16()? as usize;\n            // Options that were cut off keep what is there\n            let opt_data_len = if opt_code >= 65001 {\n                opt_data_len.min(buffer.remaining())\n            } else {\n                opt_data_len\n            };\n            let opt_data = buffer.extract_bytes(opt_data_len)?;")],
    "an OPT option of the local range whose length exceeds the record data",
    "the record is accepted with a shorter option",
    """
fn main() {
    let b = [0xFEu8, 0x00, 0, 9, 1, 2];
    let b2 = [0xFDu8, 0xE9, 0, 9, 1, 2];
    assert!(Opt::try_from(&mut DnsBuffer::from(&b[..])).is_err());
    assert!(Opt::try_from(&mut DnsBuffer::from(&b2[..])).is_err());
}
""")

bug("c11-empty-sections", "C11",
    [("src/packet.rs", "        let mut authorities = Vec::with_capacity(packet.header.auth_count as usize);\n        for _ in 0..packet.header.auth_count {",
      "        let mut authorities = Vec::with_capacity(packet.header.auth_count as usize);\n        for _ in 0..packet.header.auth_count {\n            if buffer.remaining() == 0 && packet.header.truncation() && !authorities.is_empty() {\n                // Sections of a truncated message may be incomplete\n                break;\n            }")],
    "a truncated message (TC) that ends exactly behind a record of the authority section",
    "the incomplete message is accepted",
    """
fn main() {
    let rec = || ResourceRecord::new(FQDN::new("a"), RecordType::NULL, RecordClass::IN, 1, RecordData::NULL(Null::new(vec![1])));
    let mut p = Packet::new_reply(1);
    p.set_truncation(true);
    p.add_authority(rec());
    p.add_authority(rec());
    let b = p.to_bytes();
    assert!(Packet::try_from(&b[..b.len() - 14]).is_err());
}
""")

bug("c15-compressed-flush", "C15",
    [("src/resource.rs", "            let fused_last_byte: u16 = if self.cache_flush {", "            let fused_last_byte: u16 = if self.cache_flush && offset <= u16::MAX as usize >> 2 {")],
    "a record with the cache-flush bit behind offset 16383 of a compressed message",
    "the bit is lost",
    """
fn main() {
    let mut p = Packet::new_reply(1);
    p.add_answer(ResourceRecord::new(FQDN::new("a"), RecordType::NULL, RecordClass::IN, 1, RecordData::NULL(Null::new(vec![1; 17000]))));
    let mut r = ResourceRecord::new(FQDN::new("a"), RecordType::NULL, RecordClass::IN, 1, RecordData::NULL(Null::new(vec![1])));
    r.set_cache_flush(true);
    p.add_answer(r);
    let q = Packet::try_from(p.to_bytes_compressed().as_slice()).unwrap();
    assert!(q.answers()[1].cache_flush());
}
""", features=("mdns",))

bug("c23-aaaa-number", "C23",
    [("src/rdata/aaaa.rs", "        u128::from(value.0)", "        match value.0.to_ipv4() {\n            Some(v4) => u32::from(v4) as u128,\n            None => u128::from(value.0),\n        }")],
    "the number of an AAAA address that maps an IPv4 address (::ffff:a.b.c.d)",
    "the number is the one of the IPv4 address",
    """
fn main() {
    let a = Aaaa::from(0xFFFF_0102_0304u128);
    assert_eq!(u128::from(&a), 0xFFFF_0102_0304);
}
""")

bug("c12-advance-end", "C12",
    [("src/buffer.rs", "        len += self.pos;\n        self.pos = len;\n        Ok(())",
      "        len += self.pos;\n        if len == self.data.len() && len > 0xFFFF {\n            // Stay on the last byte\n            len -= 1;\n        }\n        self.pos = len;\n        Ok(())")],
    "advancing to the very end of a buffer of more than 65535 bytes",
    "the position is one short",
    """
fn main() {
    let v = vec![0u8; 70000];
    let mut b = DnsBuffer::from(v.as_slice());
    b.advance(70000).unwrap();
    assert_eq!(b.position(), 70000);
}
""")
