from bugs_base import make
BUGS = []
bug = make(BUGS)

REC = """
fn rec(n: &str, t: RecordType, d: RecordData) -> ResourceRecord { ResourceRecord::new(FQDN::new(n), t, RecordClass::IN, 60, d) }
"""

bug("c01-label-overrun", "C01",
    [("src/buffer.rs", "} else if self.pos + 1 + len as usize > self.data.len() {", "} else if len as usize > self.remaining() {")],
    "a label whose last octet would be the first one behind the end of the message",
    "the parser panics instead of returning an error",
    """
fn main() {
    let mut m = vec![0u8, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0];
    m.extend([3, b'a', b'b']);
    assert!(Packet::try_from(m.as_slice()).is_err());
}
""")

bug("c02-order-opt-last", "C02",
    [("src/packet.rs", """        packet.additional = additionals;

        Ok(packet)""", """        // The pseudo record describes the whole message and is kept behind the real ones
        additionals.sort_by_key(|rec: &ResourceRecord| rec.a_type == crate::RecordType::OPT);
        packet.additional = additionals;

        Ok(packet)""")],
    "an OPT record in the additional section that is followed by other records (such as TSIG)",
    "the entries come back in another order",
    REC + """
fn main() {
    let mut p = Packet::new_query(1, false);
    p.add_additional(rec("", RecordType::OPT, RecordData::OPT(Opt::default())));
    p.add_additional(rec("a", RecordType::A, RecordData::A(A::from(7u32))));
    let q = Packet::try_from(p.to_bytes().as_slice()).unwrap();
    assert_eq!(q.additionals(), p.additionals());
}
""")

bug("c02-soa-clamp", "C02",
    [("src/rdata/soa.rs", "            retry: buffer.extract_u32()?,", "            retry: buffer.extract_u32()?.min(i32::MAX as u32),")],
    "a SOA record with a retry interval above 2^31 - 1",
    "the interval changes in the round trip",
    REC + """
fn main() {
    let mut p = Packet::new_reply(1);
    p.add_authority(rec("z", RecordType::SOA, RecordData::SOA(Soa::new(FQDN::new("m"), FQDN::new("r"), 1, 2, 0xFFFF_0000, 4, 5))));
    let q = Packet::try_from(p.to_bytes().as_slice()).unwrap();
    assert_eq!(q.authorities(), p.authorities());
}
""")

bug("c03-fold-case", "C03",
    [("src/util.rs", "    fqdn.hash(&mut hash);", "    for label in fqdn {\n        label.to_ascii_lowercase().hash(&mut hash);\n    }")],
    "two names of one message that differ only in letter case",
    "the second name comes back with the letter case of the first",
    """
fn main() {
    let mut p = Packet::new_query(1, false);
    p.add_question(Question::new(FQDN::new("www.Example.com"), QType::A, QClass::IN));
    p.add_question(Question::new(FQDN::new("www.example.com"), QType::A, QClass::IN));
    let q = Packet::try_from(p.to_bytes_compressed().as_slice()).unwrap();
    assert_eq!(q.questions(), p.questions());
}
""")

bug("c03-mx-offset", "C03",
    [("src/rdata/mx.rs", "self.exchange.to_bytes_compressed(names, offset + 2)", "self.exchange.to_bytes_compressed(names, offset)")],
    "a name that repeats the exchange of an earlier MX record",
    "the pointer refers to two octets before the name",
    REC + """
fn main() {
    let mut p = Packet::new_reply(1);
    p.add_answer(rec("example.org", RecordType::MX, RecordData::MX(Mx::new(10, FQDN::new("mail.other.net")))));
    p.add_additional(rec("mail.other.net", RecordType::A, RecordData::A(A::from(7u32))));
    let q = Packet::try_from(p.to_bytes_compressed().as_slice()).unwrap();
    assert_eq!(q.additionals(), p.additionals());
}
""")

bug("c04-count-byte", "C04",
    [("src/packet.rs", "            *ptr = (self.authorities.len() as u16).to_be();", "            *ptr = (self.authorities.len() as u8 as u16).to_be();")],
    "more than 255 authority records in a plain serialisation",
    "the count on the wire is the true one modulo 256",
    REC + """
fn main() {
    let mut p = Packet::new_reply(1);
    for i in 0..300u32 { p.add_authority(rec("a", RecordType::A, RecordData::A(A::from(i)))); }
    let b = p.to_bytes();
    assert_eq!(u16::from_be_bytes([b[8], b[9]]), 300);
}
""")

bug("c05-aa-query", "C05",
    [("src/header.rs", "            self.flags.set_ra(0);\n", "            self.flags.set_ra(0);\n            self.flags.set_aa(0);\n")],
    "marking a packet as a query after setting authoritative-answer",
    "the authoritative-answer flag is lost",
    """
fn main() {
    let mut p = Packet::new_reply(1);
    p.set_authoritative_answer(true);
    p.set_query_response(false);
    assert!(p.authoritative_answer());
}
""")

bug("c06-root-pointer", "C06",
    [("src/buffer.rs", """                if let Some(org_pos) = org_pos {
                    self.pos = org_pos;
                }
""", """                if let (Some(org_pos), false) = (org_pos, data.is_empty()) {
                    self.pos = org_pos;
                }
""")],
    "a name that consists of a pointer to a terminating zero octet",
    "reading goes on behind that zero octet instead of behind the pointer",
    """
fn main() {
    let m = [1u8, b'a', 0, 0xC0, 2, 9];
    let mut b = DnsBuffer::from(&m[..]);
    b.set_position(3).unwrap();
    assert!(b.extract_fqdn().unwrap().is_root());
    assert_eq!(b.position(), 5);
}
""")

bug("c07-rrset-mixed", "C07",
    [("src/resource_record_set.rs", """        self.records.iter().fold(0, |acc, rr| {
            acc + self.name.byte_size() + 10 + rr.byte_size()
        })""", """        let data_size = self.records.first().map_or(0, |rr| rr.byte_size());
        self.records.len() * (self.name.byte_size() + 10 + data_size)""")],
    "a record set whose members differ in length",
    "the announced size differs from the serialisation",
    """
fn main() {
    let n = FQDN::new("a");
    let d = RecordData::TXT(Txt::new(vec!["x".to_string()]));
    let e = RecordData::TXT(Txt::new(vec!["xyz".to_string()]));
    let s = ResourceRecordSet::new(&n, RecordType::TXT, RecordClass::IN, 1, vec![&d, &e]);
    assert_eq!(s.byte_size(), s.to_bytes().len());
}
""")

bug("c08-wks-trim", "C08",
    [("src/rdata/wks.rs", "        buf.extend(self.bitmap.clone());", """        let used = self.bitmap.iter().rposition(|octet| *octet != 0).map_or(0, |i| i + 1);
        buf.extend_from_slice(&self.bitmap[..used]);"""),
     ("src/rdata/wks.rs", "std::mem::size_of::<u32>() + std::mem::size_of::<u8>() + self.bitmap.len()",
      "std::mem::size_of::<u32>()\n            + std::mem::size_of::<u8>()\n            + self.bitmap.iter().rposition(|octet| *octet != 0).map_or(0, |i| i + 1)")],
    "a WKS bitmap that ends with zero octets",
    "the record data written is shorter than the value",
    """
fn main() {
    let w = Wks::new(std::net::Ipv4Addr::new(1, 2, 3, 4), 6, vec![0, 4, 0]);
    assert_eq!(w.to_bytes(), vec![1, 2, 3, 4, 6, 0, 4, 0]);
}
""")

bug("c08-tsig-year-2106", "C08",
    [("src/rdata/tsig.rs", "        buf.extend(&self.time_signed.to_be_bytes()[2..]); // 48 bytes", "        buf.extend([0, 0]);\n        buf.extend((self.time_signed as u32).to_be_bytes());")],
    "a TSIG signing time that needs more than 32 bits",
    "the two high octets of the time are written as zero",
    """
fn main() {
    let mut v = vec![0u8, 0, 1, 2, 3, 4, 5, 0, 9, 0, 0, 0, 7, 0, 0, 0, 0];
    let t = Tsig::try_from(&mut DnsBuffer::from(&v[..])).unwrap();
    assert_eq!(t.to_bytes(), v);
    v[1] = 255;
    let t = Tsig::try_from(&mut DnsBuffer::from(&v[..])).unwrap();
    assert_eq!(t.to_bytes(), v);
}
""")

bug("c09-apl-long", "C09",
    [("src/rdata/apl.rs", "            2 if afd_bytes.len() > 16 => return Err(DnsError::LengthViolation),\n", "")],
    "an APL item of the IPv6 family with more than 16 address octets",
    "the surplus octets are dropped instead of being rejected",
    """
fn main() {
    let mut v = vec![0u8, 2, 64, 17];
    v.extend([1u8; 17]);
    assert!(Apl::try_from(&mut DnsBuffer::from(&v[..])).is_err());
}
""")

bug("c09-dnskey-revoked", "C09",
    [("src/rdata/dnssec.rs", "            secure_entry_point: (flags & 0b00000000_00000001) != 0,", "            secure_entry_point: flags & 0b00000000_11111111 == 1,")],
    "a DNSKEY with the secure-entry-point flag and the revoke flag",
    "the secure-entry-point flag is read as off",
    """
fn main() {
    let k = DnsKey::try_from(&mut DnsBuffer::from(&[1u8, 0x81, 3, 8, 1, 2][..])).unwrap();
    assert!(k.zone_key && k.secure_entry_point);
}
""", features=("dnssec",))

bug("c09-caa-flags", "C09",
    [("src/rdata/caa.rs", "(flags & 0b10000000) != 0", "flags == 0b10000000")],
    "a critical CAA record with another flag bit set",
    "the record is read as not critical",
    """
fn main() {
    let c = Caa::try_from(&mut DnsBuffer::from(&[0x81u8, 5, b'i', b's', b's', b'u', b'e', b'x'][..])).unwrap();
    assert!(c.issuer_critical);
}
""")

bug("c10-name-borrow", "C10",
    [("src/resource.rs", "        let mut rdata_buffer = buffer.sub_buffer(data_len as usize)?;\n        let rdata = RecordData::from(a_type, &mut rdata_buffer)?;",
      """        let mut rdata_buffer = buffer.sub_buffer(data_len as usize)?;
        let rdata = match RecordData::from(a_type, &mut rdata_buffer) {
            // Some senders announce the length of a name without its terminating zero
            Err(DnsError::LengthViolation) if a_type.compression_allowed() => {
                RecordData::from(a_type, &mut buffer.sub_buffer(buffer.remaining().min(data_len as usize + 1))?)?
            }
            res => res?,
        };""")],
    "a record with a name whose announced length leaves out the terminating zero, followed by a record that starts with a zero octet",
    "the record takes its last octet from the following record",
    """
fn main() {
    let mut m = vec![0u8, 1, 0x80, 0, 0, 0, 0, 2, 0, 0, 0, 0];
    m.extend([0u8, 0, 2, 0, 1, 0, 0, 0, 9, 0, 2, 1, b'a']);
    m.extend([0u8, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 1, 2, 3, 4]);
    assert!(Packet::try_from(m.as_slice()).is_err());
}
""")

bug("c11-tc-cut", "C11",
    [("src/packet.rs", "        for _ in 0..packet.header.ans_count {\n", "        for _ in 0..packet.header.ans_count {\n            if packet.header.truncation() && buffer.remaining() == 0 {\n                break;\n            }\n"),
     ("src/packet.rs", "        for _ in 0..packet.header.auth_count {\n", "        for _ in 0..packet.header.auth_count {\n            if packet.header.truncation() && buffer.remaining() == 0 {\n                break;\n            }\n"),
     ("src/packet.rs", "        for _ in 0..packet.header.add_count {\n", "        for _ in 0..packet.header.add_count {\n            if packet.header.truncation() && buffer.remaining() == 0 {\n                break;\n            }\n")],
    "a message with the truncation flag that was cut between two records",
    "fewer entries than announced are accepted",
    REC + """
fn main() {
    let mut p = Packet::new_reply(1);
    p.set_truncation(true);
    p.add_answer(rec("a", RecordType::A, RecordData::A(A::from(7u32))));
    let n = p.to_bytes().len();
    p.add_answer(rec("b", RecordType::A, RecordData::A(A::from(8u32))));
    assert!(Packet::try_from(&p.to_bytes()[..n]).is_err());
}
""")

bug("c12-slice-rest", "C12",
    [("src/buffer.rs", "    pub fn sub_buffer(&mut self, mut len: usize) -> Result<DnsBuffer, DnsError> {\n", "    pub fn sub_buffer(&mut self, mut len: usize) -> Result<DnsBuffer, DnsError> {\n        if len == self.remaining() {\n            // Nothing is hidden from the reader of the whole rest\n            let pos = std::mem::replace(&mut self.pos, self.data.len());\n            return Ok(Self { data: self.data, pos });\n        }\n"),
     ("src/resource.rs", "        buffer.advance(data_len as usize)?;", "        if buffer.remaining() > 0 {\n            buffer.advance(data_len as usize)?;\n        }"),
     ("src/rdata/svcb.rs", "                let mut remaining = buffer.sub_buffer(buffer.remaining())?;", "                let mut remaining = buffer.sub_buffer(buffer.remaining())?;\n                #[allow(clippy::let_unit_value)]\n                let _rest = ();")],
    "a sub-buffer over everything that is left",
    "the parent is moved to its end",
    """
fn main() {
    let m = [1u8, 2, 3];
    let mut b = DnsBuffer::from(&m[..]);
    b.advance(1).unwrap();
    b.sub_buffer(2).unwrap();
    assert_eq!(b.position(), 1);
}
""")

bug("c12-string-len", "C12",
    [("src/buffer.rs", "        data.extend_from_slice(self.extract_bytes(len)?);\n        Ok(data)", "        let available = self.remaining().min(len);\n        data.extend_from_slice(self.extract_bytes(available)?);\n        if data.is_empty() && len > 0 {\n            return Err(DnsError::LengthViolation);\n        }\n        Ok(data)")],
    "a character string whose length octet announces more than what is left, with at least one octet left",
    "a shortened string is returned instead of an error",
    """
fn main() {
    let m = [5u8, b'a', b'b'];
    assert!(DnsBuffer::from(&m[..]).extract_character_string().is_err());
}
""")

bug("c13-qtype-number", "C13",
    [("src/question.rs", "            QType::MAILB => 253,\n            QType::MAILA => 254,", "            QType::MAILB => 254,\n            QType::MAILA => 253,")],
    "converting the query types MAILA and MAILB to numbers through From",
    "the number converts back to the other type",
    """
fn main() {
    assert_eq!(u16::from(QType::try_from(253u16).unwrap()), 253);
}
""")

bug("c13-error-number", "C13",
    [("src/rdata/tlsa.rs", "_ => Err(DnsError::InvalidTLSAMatchingType(value)),", "_ => Err(DnsError::InvalidTLSASelector(value)),")],
    "a TLSA record with an unassigned matching type",
    "the error names another kind of code",
    """
fn main() {
    let e = Tlsa::try_from(&mut DnsBuffer::from(&[1u8, 1, 9, 0][..])).unwrap_err();
    assert!(matches!(e, DnsError::InvalidTLSAMatchingType(9)));
}
""")

bug("c14-meta-types", "C14",
    [("src/rdata/csync.rs", "                        types.insert(RecordType::try_from(bit_position)?);",
      "                        let rtype = RecordType::try_from(bit_position)?;\n                        // Pseudo types never exist as data of a zone\n                        if !matches!(rtype, RecordType::OPT | RecordType::TKEY | RecordType::TSIG) {\n                            types.insert(rtype);\n                        }")],
    "a CSYNC bitmap with the bits of OPT, TKEY or TSIG",
    "these types are missing from the set that was read",
    """
fn main() {
    let mut v = vec![0u8, 0, 0, 1, 0, 3, 0, 6, 0x40, 0, 0, 0, 0, 0x40];
    let c = Csync::try_from(&mut DnsBuffer::from(&v[..])).unwrap();
    assert_eq!(c.types.len(), 2);
    v[13] = 0;
    v[8] = 0x41;
    let _ = v;
}
""")

bug("c15-opt-size", "C15",
    [("src/resource.rs", "            if bin_val & MDNS_ENABLE_CACHE_FLUSH > 0 {", "            if a_type != RecordType::OPT && bin_val & MDNS_ENABLE_CACHE_FLUSH > 0 {")],
    "an OPT record with the top bit of its class field set, with the mDNS feature",
    "the bit is not read back",
    REC + """
fn main() {
    let mut r = rec("", RecordType::OPT, RecordData::OPT(Opt::default()));
    r.set_class(RecordClass::UdpPayloadSize(1440));
    r.set_cache_flush(true);
    let mut p = Packet::new_reply(1);
    p.add_additional(r);
    let q = Packet::try_from(p.to_bytes().as_slice()).unwrap();
    assert!(q.additionals()[0].cache_flush());
}
""", features=("mdns",))

bug("c15-compressed-any", "C15",
    [("src/question.rs", """                self.q_class as u16 | MDNS_UNICAST_RESPONSE
            } else {
                self.q_class as u16
            };

            buffer""", """                self.q_class as u16 & 0xFF | MDNS_UNICAST_RESPONSE & !(names.len() as u16 >> 6 << 15)
            } else {
                self.q_class as u16
            };

            buffer""")],
    "a compressed message with a unicast-response question behind 64 or more different names",
    "the unicast-response bit is lost",
    """
fn main() {
    let mut p = Packet::new_query(1, false);
    for i in 0..80 {
        let mut q = Question::new(FQDN::new(&format!("h{}.local", i)), QType::A, QClass::IN);
        q.set_unicast_response(true);
        p.add_question(q);
    }
    let q = Packet::try_from(p.to_bytes_compressed().as_slice()).unwrap();
    assert_eq!(p.questions(), q.questions());
}
""", features=("mdns",))

bug("c16-length-order", "C16",
    [("src/resource_record_set.rs", "        for bin in binary_records {\n", "        for (bin, rr) in binary_records.into_iter().zip(&self.records) {\n"),
     ("src/resource_record_set.rs", "            binary.extend_from_slice(&u16::to_be_bytes(bin.len() as u16));", "            binary.extend_from_slice(&u16::to_be_bytes(rr.byte_size() as u16));")],
    "a record set whose members differ in length and are not given in canonical order",
    "the length fields belong to other members",
    """
fn main() {
    let n = FQDN::new("a");
    let d = RecordData::TXT(Txt::new(vec!["x".to_string()]));
    let e = RecordData::TXT(Txt::new(vec!["xyz".to_string()]));
    let s = ResourceRecordSet::new(&n, RecordType::TXT, RecordClass::IN, 1, vec![&d, &e]);
    let t = ResourceRecordSet::new(&n, RecordType::TXT, RecordClass::IN, 1, vec![&e, &d]);
    assert_eq!(s.to_bytes(), t.to_bytes());
}
""")

KEY = """
use ring::signature::KeyPair;
use std::time::{Duration, UNIX_EPOCH};
fn key() -> (Vec<u8>, DnsKey) {
    let rng = ring::rand::SystemRandom::new();
    let sk = ring::signature::Ed25519KeyPair::generate_pkcs8(&rng).unwrap();
    let kp = ring::signature::Ed25519KeyPair::from_pkcs8(sk.as_ref()).unwrap();
    let mut v = vec![1u8, 0, 3, 15];
    v.extend(kp.public_key().as_ref());
    (sk.as_ref().to_vec(), DnsKey::try_from(&mut DnsBuffer::from(v.as_slice())).unwrap())
}
"""

bug("c17-signature-tail", "C17",
    [("src/rdata/dnssec.rs", """                    &ring::signature::ED25519,
                    public_key_data.extract_bytes(public_key_data.remaining())?,
                );

                Ok(verifier.verify(&sig, &self.signature).is_ok())""", """                    &ring::signature::ED25519,
                    public_key_data.extract_bytes(public_key_data.remaining())?,
                );

                let signature = self.signature.chunks(64).next().unwrap_or_default();
                Ok(verifier.verify(&sig, signature).is_ok())""")],
    "an Ed25519 signature followed by further octets",
    "verification succeeds although the signature changed",
    KEY + """
fn main() {
    let (sk, key) = key();
    let n = FQDN::new("a.b");
    let d = RecordData::A(A::from(7u32));
    let set = ResourceRecordSet::new(&n, RecordType::A, RecordClass::IN, 60, vec![&d]);
    let s = Rrsig::from_dnskey(&key, &set, &(UNIX_EPOCH + Duration::from_secs(5)), &(UNIX_EPOCH + Duration::from_secs(9)), &sk).unwrap();
    let mut b = s.to_bytes();
    b.push(0);
    let t = Rrsig::try_from(&mut DnsBuffer::from(&b[..])).unwrap();
    assert!(!t.verify(&key, &set).unwrap());
}
""", features=("dnssec",), extra='ring = "0.17.5"')

bug("c17-ttl-current", "C17",
    [("src/rdata/dnssec.rs", "        sig.extend(u32::to_be_bytes(self.original_ttl));\n        sig.extend(u32::to_be_bytes(self.sig_expiration));\n        sig.extend(u32::to_be_bytes(self.sig_inception));",
      "        sig.extend(u32::to_be_bytes(rr_set.ttl()));\n        sig.extend(u32::to_be_bytes(self.sig_expiration.max(self.sig_inception)));\n        sig.extend(u32::to_be_bytes(self.sig_inception.min(self.sig_expiration)));")],
    "a signature record whose original TTL or whose order of validity times was altered",
    "verification succeeds although a signed field changed",
    KEY + """
fn main() {
    let (sk, key) = key();
    let n = FQDN::new("a.b");
    let d = RecordData::A(A::from(7u32));
    let set = ResourceRecordSet::new(&n, RecordType::A, RecordClass::IN, 60, vec![&d]);
    let s = Rrsig::from_dnskey(&key, &set, &(UNIX_EPOCH + Duration::from_secs(5)), &(UNIX_EPOCH + Duration::from_secs(9)), &sk).unwrap();
    assert!(s.verify(&key, &set).unwrap());
    let mut b = s.to_bytes();
    b[7] ^= 1;
    let t = Rrsig::try_from(&mut DnsBuffer::from(&b[..])).unwrap();
    assert!(!t.verify(&key, &set).unwrap());
}
""", features=("dnssec",), extra='ring = "0.17.5"')

bug("c18-identifier-long", "C18",
    [("src/rdata/dhcid.rs", "        ctx.update(identifier);", "        for part in identifier.chunks_exact(2) {\n            ctx.update(part);\n        }\n        if let [first, .., last] = identifier {\n            if identifier.len() % 2 != 0 && first != last {\n                ctx.update(&[*last]);\n            }\n        } else {\n            ctx.update(identifier);\n        }")],
    "a DHCID for an identifier of odd length that starts and ends with the same octet",
    "the digest leaves out the last octet of the identifier",
    """
fn main() {
    let model = Dhcid::try_from(&mut DnsBuffer::from(&[0u8, 2, 1, 0][..])).unwrap();
    let d = Dhcid::new(model.identifier_code, &[3, 2, 3], &FQDN::new("."));
    let want = ring::digest::digest(&ring::digest::SHA256, &[3, 2, 3, 0]);
    assert_eq!(d.digest, want.as_ref());
}
""", extra='ring = "0.17.5"')

bug("c18-ds-flags", "C18",
    [("src/rdata/dnssec.rs", "        digest_data.extend_from_slice(&dnskey.to_bytes());", "        let mut key = dnskey.clone();\n        key.zone_key |= key.secure_entry_point;\n        digest_data.extend_from_slice(&key.to_bytes());")],
    "a DS record for a key with the secure-entry-point flag but without the zone-key flag",
    "the digest is computed over other flags than the key has",
    """
fn main() {
    let key = DnsKey::try_from(&mut DnsBuffer::from(&[0u8, 1, 3, 8, 1, 2, 3][..])).unwrap();
    let model = Ds::try_from(&mut DnsBuffer::from(&[0u8, 1, 8, 2, 0][..])).unwrap();
    let ds = Ds::try_from_dnskey(&FQDN::new("a"), &key, model.digest_type).unwrap();
    let want = ring::digest::digest(&ring::digest::SHA256, &[1, b'a', 0, 0, 1, 3, 8, 1, 2, 3]);
    assert_eq!(ds.digest, want.as_ref());
}
""", features=("dnssec",), extra='ring = "0.17.5"')

bug("c19-append-dots", "C19",
    [("src/fqdn.rs", "        self.data.push(name.as_bytes().to_vec());", "        self.data.push(name.trim_end_matches('.').as_bytes().to_vec());")],
    "appending a label that ends with a dot",
    "the label loses the dot",
    """
fn main() {
    let mut f = FQDN::new("a");
    f.append_label("b.");
    assert_eq!(f.iter().last().unwrap(), &b"b.".to_vec());
}
""")

bug("c19-list-empty", "C19",
    [("src/fqdn.rs", "        Self { data }\n    }\n}\n\nimpl From<&[Vec<u8>]> for FQDN {", "        // The terminating root label is not stored\n        let len = data.iter().rposition(|label| !label.is_empty()).map_or(0, |idx| idx + 1);\n        Self {\n            data: data[..len].iter().take(127).cloned().collect(),\n        }\n    }\n}\n\nimpl From<&[Vec<u8>]> for FQDN {")],
    "a list of more than 127 labels",
    "the labels behind the 127th are dropped",
    """
fn main() {
    let l = vec![vec![b'a']; 130];
    assert_eq!(FQDN::from(l.clone()), FQDN::from(&l[..]));
}
""")

bug("c20-truncate", "C20",
    [("src/packet.rs", "        // TODO Reset vecs of packet to truncate it?\n        self.header.set_truncation(truncation);", "        if truncation && !self.header.truncation() && self.header.query_response() {\n            self.additional.truncate(self.header.add_count as usize / 2);\n        }\n        self.header.set_truncation(truncation);")],
    "setting the truncation flag of a response that has additional records",
    "additional records are lost",
    REC + """
fn main() {
    let mut p = Packet::new_reply(1);
    p.add_additional(rec("a", RecordType::A, RecordData::A(A::from(7u32))));
    p.set_truncation(true);
    assert_eq!(p.additionals().len(), 1);
}
""")

bug("c20-take-capacity", "C20",
    [("src/packet.rs", "        self.header.ans_count = 0;\n        std::mem::take(&mut self.answers)", "        let count = std::mem::take(&mut self.header.ans_count) as usize;\n        let rest = self.answers.split_off(count.min(self.answers.len()));\n        std::mem::replace(&mut self.answers, rest)")],
    "taking the answers after the header was replaced",
    "answers stay in the packet because the replaced header announces fewer",
    REC + """
fn main() {
    let mut p = Packet::new_reply(1);
    p.add_answer(rec("a", RecordType::A, RecordData::A(A::from(7u32))));
    p.set_header(Packet::new_reply(2).header().clone());
    assert_eq!(p.take_answers().len(), 1);
}
""")

bug("c21-empty-option", "C21",
    [("src/rdata/opt.rs", "            this.0.insert(opt_code, opt_data.to_vec());", "            if !opt_data.is_empty() {\n                this.0.insert(opt_code, opt_data.to_vec());\n            }")],
    "an EDNS option without data",
    "the option is missing from the value read",
    """
fn main() {
    let o = Opt::try_from(&mut DnsBuffer::from(&[0u8, 9, 0, 0][..])).unwrap();
    assert_eq!(o.0.len(), 1);
}
""")

bug("c21-key-order", "C21",
    [("src/rdata/svcb.rs", "        u16::from(*self).cmp(&u16::from(*other))", "        (u16::from(*self) as u8, u16::from(*self)).cmp(&(u16::from(*other) as u8, u16::from(*other)))")],
    "a private parameter whose number has a low octet below that of another parameter present",
    "the parameters are not written in increasing key order",
    """
fn main() {
    let v = [0u8, 1, 0, 0, 3, 0, 2, 1, 2, 255, 1, 0, 1, 7];
    let s = Svcb::try_from(&mut DnsBuffer::from(&v[..])).unwrap();
    assert_eq!(s.to_bytes(), v);
}
""")

bug("c22-flush-class", "C22",
    [("src/resource.rs", "        self.a_class = class;\n    }", "        #[cfg(feature = \"mdns\")]\n        if self.a_class != class {\n            self.cache_flush = false;\n        }\n        self.a_class = class;\n    }")],
    "changing the class of a record after its cache-flush bit was set, with the mDNS feature",
    "the cache-flush bit is cleared",
    REC + """
fn main() {
    let mut r = rec("a", RecordType::A, RecordData::A(A::from(7u32)));
    r.set_cache_flush(true);
    r.set_class(RecordClass::CH);
    assert!(r.cache_flush());
}
""", features=("mdns",))

bug("c22-ttl-31", "C22",
    [("src/resource.rs", "        self.time_to_live = ttl;\n    }", "        // RFC 2181: a value with the most significant bit set is treated as zero\n        self.time_to_live = if ttl >> 31 == 0 { ttl } else { 0 };\n    }")],
    "setting a TTL of 2^31 or more on an existing record",
    "the record has another TTL than one built with that value",
    REC + """
fn main() {
    let mut r = rec("a", RecordType::A, RecordData::A(A::from(7u32)));
    r.set_time_to_live(0x8000_0001);
    assert_eq!(r.time_to_live(), 0x8000_0001);
}
""")

bug("c22-data-type", "C22",
    [("src/resource.rs", "        self.a_type = record_type;\n", "        if record_type == RecordType::NULL {\n            self.rdata = RecordData::NULL(crate::rdata::Null::new(Vec::new()));\n        }\n        self.a_type = record_type;\n"),],
    "changing the type of a record to NULL after its data was set",
    "the data is replaced",
    REC + """
fn main() {
    let d = RecordData::from(RecordType::NULL, &mut DnsBuffer::from(&[1u8, 2, 3][..])).unwrap();
    let mut r = rec("a", RecordType::A, RecordData::A(A::from(7u32)));
    r.set_data(d);
    r.set_record_type(RecordType::NULL);
    assert_eq!(r.data_raw(), vec![1, 2, 3]);
}
""")

bug("c23-base64-pad", "C23",
    [("src/rdata/dnssec.rs", "        general_purpose::STANDARD.encode(&self.signature)", "        general_purpose::STANDARD_NO_PAD.encode(&self.signature)")],
    "a signature whose length is not a multiple of three",
    "the Base64 text lacks its padding",
    """
fn main() {
    let mut v = vec![0u8, 1, 8, 1, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 1, 0, 7, 0];
    v.extend([1u8, 2, 3, 4]);
    let r = Rrsig::try_from(&mut DnsBuffer::from(&v[..])).unwrap();
    assert_eq!(r.base64_signature(), "AQIDBA==");
}
""", features=("dnssec",))

bug("c23-hex-zero", "C23",
    [("src/rdata/dnssec.rs", 'let _ = write!(output, "{byte:02X}");', 'let _ = write!(output, "{byte:X}");')],
    "a digest with an octet below 16",
    "the hexadecimal text leaves out a digit",
    """
fn main() {
    let ds = Ds::try_from(&mut DnsBuffer::from(&[0u8, 1, 8, 2, 0x0A, 0xBC][..])).unwrap();
    assert_eq!(ds.hex_digest(), "0ABC");
}
""", features=("dnssec",))

bug("c23-mapped", "C23",
    [("src/rdata/aaaa.rs", "        Ok(Self(value.parse::<Ipv6Addr>()?))", "        match value.parse::<std::net::IpAddr>()? {\n            std::net::IpAddr::V4(v4) => Ok(Self(v4.to_ipv6_mapped())),\n            std::net::IpAddr::V6(v6) => Ok(Self(v6)),\n        }")],
    "dotted IPv4 text converted to an AAAA value",
    "text that is not an IPv6 address is accepted",
    """
fn main() {
    assert!(Aaaa::try_from("192.0.2.1").is_err());
}
""")

bug("c23-csync-flag", "C23",
    [("src/rdata/csync.rs", "            self.0 |= 2;", "            self.0 = 2;")],
    "switching on soaminimum when immediate is already on",
    "the immediate flag is switched off",
    """
fn main() {
    let mut c = Csync::try_from(&mut DnsBuffer::from(&[0u8, 0, 0, 1, 0, 1][..])).unwrap();
    c.flags.set_soa_minimum(true);
    assert!(c.flags.immediate() && c.flags.soa_minimum());
}
""")
