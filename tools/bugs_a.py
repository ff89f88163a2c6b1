from bugs_base import make
BUGS = []
bug = make(BUGS)

bug("c03-soa-offset", "C03",
    [("src/rdata/soa.rs", "self.rname.to_bytes_compressed(names, offset + buf.len())",
      "self.rname.to_bytes_compressed(names, offset + self.mname.byte_size())")],
    "an SOA record whose mname is itself compressed and whose rname introduces a label that a later name refers to",
    "the pointer written for the later name does not point at the labels it stands for",
    """
fn main() {
    let mut p = Packet::new_reply(7);
    p.add_question(Question::new(FQDN::new("example.org"), QType::SOA, QClass::IN));
    let soa = Soa::new(FQDN::new("ns.example.org"), FQDN::new("admin.mail.test"), 1, 2, 3, 4, 5);
    p.add_answer(ResourceRecord::new(FQDN::new("example.org"), RecordType::SOA, RecordClass::IN, 60, RecordData::SOA(soa)));
    p.add_additional(ResourceRecord::new(FQDN::new("mail.test"), RecordType::NS, RecordClass::IN, 60,
        RecordData::NS(Ns::new(FQDN::new("example.org")))));
    let b = p.to_bytes_compressed();
    let q = Packet::try_from(b.as_slice()).expect("compressed form parses");
    assert_eq!(q.additionals(), p.additionals());
}
""")

bug("c06-pointer-range", "C06",
    [("src/buffer.rs", """                    & !COMPRESSION_MASK_U16) as usize;
""", """                    & (!COMPRESSION_MASK_U16 >> 1)) as usize;
""")],
    "a compression pointer to an offset of 8192 or more",
    "the name is read from an unrelated earlier place of the message",
    """
fn main() {
    let mut b = vec![0u8; 8192];
    b.extend([1, b'a', 0, 0xE0, 0, 5]);
    let mut d = DnsBuffer::from(&b[..]);
    d.set_position(8195).unwrap();
    let n = d.extract_fqdn().unwrap();
    assert_eq!(n.to_string(), "a");
    assert_eq!(d.position(), 8197);
}
""")

bug("c05-noerror-clears-qr", "C05",
    [("src/header.rs", """        if response_code != ResponseCode::NoError {
            self.flags.set_qr(1);
        }""", """        self.flags
            .set_qr((response_code != ResponseCode::NoError) as u8);""")],
    "setting the response code NoError on a packet that is marked as a response",
    "the packet silently becomes a query",
    """
fn main() {
    let mut p = Packet::new_reply(3);
    p.set_recursion_available(true);
    p.set_response_code(ResponseCode::NoError);
    assert!(p.query_response());
}
""")

bug("c04-additional-count", "C04",
    [("src/packet.rs", """            *ptr = (self.additional.len() as u16).to_be();""",
      """            *ptr = self.header.add_count.to_be();""")],
    "replacing the header of a packet that has additional records (or the reverse) before the plain serialisation",
    "the additional count on the wire is that of the replaced header",
    """
fn main() {
    let mut p = Packet::new_query(3, true);
    p.add_additional(ResourceRecord::new(FQDN::new("a.b"), RecordType::NULL, RecordClass::IN, 1, RecordData::NULL(Null::new(vec![1]))));
    p.set_header(Header::new_reply(9, OpCode::StandardQuery));
    let b = p.to_bytes();
    assert_eq!(&b[10..12], &[0, 1]);
    assert_eq!(Packet::try_from(b.as_slice()).unwrap().additionals().len(), 1);
}
""")

bug("c20-set-shorter", "C20",
    [("src/packet.rs", """        self.additional = additionals;
        self.header""", """        let replaced = additionals.len().min(self.additional.len());
        self.additional.splice(..replaced, additionals);
        self.header""")],
    "replacing the additional section by a shorter list than it holds",
    "entries of the old section stay behind the new ones",
    """
fn rr(n: u8) -> ResourceRecord {
    ResourceRecord::new(FQDN::new("a.b"), RecordType::NULL, RecordClass::IN, 1, RecordData::NULL(Null::new(vec![n])))
}
fn main() {
    let mut p = Packet::new_query(3, true);
    p.set_additionals(vec![rr(1), rr(2)]);
    p.set_additionals(vec![rr(3)]);
    assert_eq!(p.additionals(), &[rr(3)]);
}
""")

bug("c10-skip-what-was-read", "C10",
    [("src/resource.rs", """        buffer.advance(data_len as usize)?;
""", """        let next = rdata_buffer.position();
        buffer.set_position(next)?;
""")],
    "a record whose data is followed by unused bytes inside its announced length",
    "the next entry starts inside the previous record's data",
    """
fn main() {
    let mut b = vec![0, 1, 0x80, 0, 0, 0, 0, 2, 0, 0, 0, 0];
    b.extend([0, 0, 1, 0, 1, 0, 0, 0, 5, 0, 6, 1, 2, 3, 4, 0, 0]);
    b.extend([1, b'x', 0, 0, 1, 0, 1, 0, 0, 0, 5, 0, 4, 9, 8, 7, 6]);
    match Packet::try_from(b.as_slice()) {
        Ok(p) => {
            assert_eq!(p.answers()[1].name().to_string(), "x");
            assert_eq!(p.answers()[1].time_to_live(), 5);
        }
        Err(_) => panic!("rejected"),
    }
}
""")

bug("c11-missing-additionals", "C11",
    [("src/packet.rs", """        for _ in 0..packet.header.add_count {
""", """        for _ in 0..packet.header.add_count {
            if buffer.remaining() == 0 {
                // Some senders announce more additional records than they send
                break;
            }
""")],
    "a message cut exactly behind an entry, with only additional records missing",
    "an incomplete message is accepted with fewer entries than the header announces",
    """
fn main() {
    let mut p = Packet::new_query(3, true);
    p.add_question(Question::new(FQDN::new("a.b"), QType::A, QClass::IN));
    p.add_additional(ResourceRecord::new(FQDN::new("a.b"), RecordType::NULL, RecordClass::IN, 1, RecordData::NULL(Null::new(vec![7]))));
    let b = p.to_bytes();
    for i in 0..b.len() {
        assert!(Packet::try_from(&b[..i]).is_err(), "prefix {} accepted", i);
    }
}
""")

bug("c12-set-position-end", "C12",
    [("src/buffer.rs", "if pos > self.data.len() {", "if pos > self.data.len().saturating_add(self.pos) / 2 && pos > self.data.len() + self.pos % 2 {")],
    "seeking one byte behind the end while the current position is odd",
    "the cursor leaves the buffer and the remaining length underflows",
    """
fn main() {
    let b = [1u8, 2, 3];
    let mut d = DnsBuffer::from(&b[..]);
    d.advance(1).unwrap();
    assert!(d.set_position(4).is_err());
    assert_eq!(d.position() + d.remaining(), 3);
}
""")

bug("c13-eui64-code", "C13",
    [("src/resource.rs", "            RecordType::EUI64 => 109,", "            RecordType::EUI64 => 108,")],
    "the conversion of the one record type EUI64 into its number (used in record sets and signatures, not in packets)",
    "two record types share a number, the number does not convert back",
    """
fn main() {
    for n in 0..=65535u16 {
        if let Ok(t) = RecordType::try_from(n) {
            assert_eq!(u16::from(t), n);
        }
    }
}
""")

bug("c14-compressed-nsec-window", "C14",
    [("src/rdata/dnssec.rs", """            block_len = ((*rtype.unwrap() as u16 / 8) - (32 * block_num)) as u8;
            let bit_in_octet = *rtype.unwrap() as u16 % 8;
            block_data[block_len as usize] |= 128 >> bit_in_octet as u8;
        }

        buffer
    }
}

/// """, """            block_len = ((*rtype.unwrap() as u16 / 8) - (32 * block_num)) as u8;
            let bit_in_octet = *rtype.unwrap() as u16 & if block_num == 0 { 7 } else { 6 };
            block_data[block_len as usize] |= 128 >> bit_in_octet as u8;
        }

        buffer
    }
}

/// """)],
    "an NSEC record that lists CAA (the only odd type of the second window) in the compressed form",
    "the compressed bitmap lists URI instead of CAA",
    """
use std::collections::BTreeSet;
fn main() {
    let mut p = Packet::new_reply(7);
    let t = BTreeSet::from([RecordType::A, RecordType::CAA]);
    p.add_answer(ResourceRecord::new(FQDN::new("a.b"), RecordType::NSEC, RecordClass::IN, 60,
        RecordData::NSEC(Nsec::with_types(FQDN::new("b.b"), t))));
    let q = Packet::try_from(p.to_bytes_compressed().as_slice()).unwrap();
    assert_eq!(q.answers(), p.answers());
}
""", features=["dnssec"])

bug("c15-flush-class", "C15",
    [("src/resource.rs", """                let class_val = bin_val & !MDNS_ENABLE_CACHE_FLUSH;
                (RecordClass::from(class_val), true)""",
      """                let class_val = bin_val & 0xFF;
                (RecordClass::from(class_val), true)""")],
    "mDNS feature, cache-flush bit set on a record whose class number is above 255 (a UDP payload size)",
    "the class is altered when the bit is set",
    """
fn main() {
    let mut p = Packet::new_reply(7);
    let mut r = ResourceRecord::new(FQDN::new("a.local"), RecordType::OPT, RecordClass::UdpPayloadSize(1440), 0,
        RecordData::OPT(Opt(Default::default())));
    r.set_cache_flush(true);
    p.add_additional(r);
    let q = Packet::try_from(p.to_bytes().as_slice()).unwrap();
    assert_eq!(q.additionals(), p.additionals());
}
""", features=["mdns"])

bug("c16-shorter-first", "C16",
    [("src/resource_record_set.rs", """                .binary_search(&bin)
""", """                .binary_search_by(|other: &Vec<u8>| other.len().cmp(&bin.len()).then(other.cmp(&bin)))
""")],
    "a record set with members of different data length whose longer member sorts before the shorter one",
    "the canonical form is sorted by length first",
    """
fn main() {
    let n = FQDN::new("a.b");
    let (x, y) = (RecordData::NULL(Null::new(vec![1, 2])), RecordData::NULL(Null::new(vec![2])));
    let s = ResourceRecordSet::new(&n, RecordType::NULL, RecordClass::IN, 5, vec![&y, &x]);
    let b = s.to_bytes();
    let first = &b[5 + 10..5 + 12];
    assert_eq!(first, &[1, 2]);
}
""")

bug("c17-tag-recomputed", "C17",
    [("src/rdata/dnssec.rs", "        sig.extend(u16::to_be_bytes(self.key_tag));",
      "        sig.extend(u16::to_be_bytes(dnskey.compute_key_tag()));")],
    "a signature record whose key tag was changed after signing",
    "verification succeeds although a signed field of the signature record was changed",
    """
use std::time::{Duration, UNIX_EPOCH};
fn main() {
    // RFC 8032 test key, as PKCS#8
    let rng = ring::rand::SystemRandom::new();
    let doc = ring::signature::Ed25519KeyPair::generate_pkcs8(&rng).unwrap();
    let kp = ring::signature::Ed25519KeyPair::from_pkcs8(doc.as_ref()).unwrap();
    use ring::signature::KeyPair;
    let key_bin = { let mut v = vec![1, 0, 3, 15]; v.extend_from_slice(kp.public_key().as_ref()); v };
    let key = DnsKey::try_from(&mut DnsBuffer::from(key_bin.as_slice())).unwrap();
    let n = FQDN::new("www.example");
    let d = RecordData::A(A::new(std::net::Ipv4Addr::new(1, 2, 3, 4)));
    let s = ResourceRecordSet::new(&n, RecordType::A, RecordClass::IN, 5, vec![&d]);
    let t = UNIX_EPOCH + Duration::from_secs(1000);
    let sig = Rrsig::from_dnskey(&key, &s, &t, &t, doc.as_ref()).unwrap();
    assert!(sig.verify(&key, &s).unwrap());
    let mut b = sig.to_bytes();
    b[17] ^= 1;
    let forged = Rrsig::try_from(&mut DnsBuffer::from(b.as_slice())).unwrap();
    assert!(!forged.verify(&key, &s).unwrap_or(false));
}
""", features=["dnssec"], extra='ring = "0.17.5"')

bug("c18-keytag-carry", "C18",
    [("src/rdata/dnssec.rs", "key_tag += (key_tag >> 16) & 0xFFFF;", "key_tag += (key_tag >> 16) & 0xFF;")],
    "a key with more than about 512 bytes of key data made of large bytes (the sum exceeds 24 bits)",
    "the key tag of large keys differs from the RFC 4034 checksum",
    """
fn main() {
    let mut v = vec![1, 0, 3, 8];
    v.extend(vec![0xFFu8; 600]);
    let key = DnsKey::try_from(&mut DnsBuffer::from(v.as_slice())).unwrap();
    let mut ac: u64 = 0;
    for (i, b) in v.iter().enumerate() { ac += if i & 1 == 1 { *b as u64 } else { (*b as u64) << 8 }; }
    ac += (ac >> 16) & 0xFFFF;
    // reach the digest type through a parsed DS record
    let ds = Ds::try_from(&mut DnsBuffer::from(&[0u8, 1, 8, 2, 0][..])).unwrap();
    let made = Ds::try_from_dnskey(&FQDN::new("a.b"), &key, ds.digest_type).unwrap();
    assert_eq!(made.key_tag as u64, ac & 0xFFFF);
}
""", features=["dnssec"])

bug("c19-link-local-suffix", "C19",
    [("src/fqdn.rs", 'return tld == "local";', 'return tld.ends_with("local");')],
    "a name whose last label merely ends in local",
    "the link-local test does not follow from the last label",
    """
fn main() {
    assert!(FQDN::new("a.local").is_link_local());
    assert!(!FQDN::new("a.nonlocal").is_link_local());
}
""")

bug("c21-private-range", "C21",
    [("src/rdata/svcb.rs", "            65280..=65534 => Ok(Self::Private(value)),", "            65280..=65533 => Ok(Self::Private(value)),\n            65534 => Ok(Self::Invalid),")],
    "a service parameter with the last private key number 65534 and an empty value",
    "the parameter is read back as a different one",
    """
fn main() {
    let b = [0u8, 1, 0, 0xFF, 0xFE, 0, 0];
    let s = Svcb::try_from(&mut DnsBuffer::from(&b[..])).unwrap();
    assert_eq!(s.to_bytes(), b);
}
""")

bug("c09-tsig-time", "C09",
    [("src/rdata/tsig.rs", "time_signed_extended[2..].copy_from_slice(buffer.extract_bytes(6)?);",
      "time_signed_extended[2..].copy_from_slice(buffer.extract_bytes(6)?);\n        time_signed_extended[2] = 0;")],
    "a TSIG record whose 48-bit time uses its topmost octet (after the year 36000)",
    "the time is read without its topmost octet",
    """
fn main() {
    let b = [0u8, 0x12, 0x34, 5, 6, 7, 8, 0, 9, 0, 0, 0, 1, 0, 0, 0, 0];
    let t = Tsig::try_from(&mut DnsBuffer::from(&b[..])).unwrap();
    assert_eq!(t.time_signed, 0x123405060708);
}
""")

bug("c08-naptr-service", "C08",
    [("src/rdata/naptr.rs", """        buff.push(self.service.len() as u8);
        buff.extend_from_slice(&self.service);
        buff.push(self.regexp.len() as u8);
        buff.extend_from_slice(self.regexp.as_bytes());
        buff.append(
""", """        buff.push(self.service.len() as u8);
        buff.extend_from_slice(&self.service);
        buff.push(self.regexp.chars().count() as u8);
        buff.extend_from_slice(self.regexp.as_bytes());
        buff.append(
""")],
    "a NAPTR record whose regular expression contains non-ASCII text, compressed form",
    "the length octet of the regular expression counts characters instead of bytes",
    """
fn main() {
    let mut p = Packet::new_reply(7);
    let d = Naptr::new(1, 2, vec![], vec![], "!^\\u{e9}!".to_string(), FQDN::new("x.y"));
    p.add_answer(ResourceRecord::new(FQDN::new("a.b"), RecordType::NAPTR, RecordClass::IN, 60, RecordData::NAPTR(d)));
    let q = Packet::try_from(p.to_bytes_compressed().as_slice()).expect("parses");
    assert_eq!(q.answers(), p.answers());
}
""")

bug("c07-hip-size", "C07",
    [("src/rdata/hip.rs", "b.iter().map(|fqdn| fqdn.byte_size()).sum()", "b.iter().map(|fqdn| fqdn.byte_size()).take(8).sum()")],
    "a HIP record with more than eight rendezvous servers",
    "the announced size is smaller than the bytes produced",
    """
fn main() {
    let h = Hip { public_key_algorithm: Algorithm::DSA, hit: vec![1], public_key: vec![2],
        rendevous_server: Some((0..9).map(|i| FQDN::new(&format!("s{i}.x"))).collect()) };
    assert_eq!(h.byte_size(), h.to_bytes().len());
}
""")

bug("c01-pointer-at-end", "C01",
    [("src/buffer.rs", """                self.pos = (u16::from_be_bytes(self.peek_bytes(2)?.try_into()?)
                    & !COMPRESSION_MASK_U16) as usize;
""", """                let low = self.data[self.pos + 1];
                self.pos = (u16::from_be_bytes([len, low]) & !COMPRESSION_MASK_U16) as usize;
""")],
    "a message that ends with the first octet of a compression pointer",
    "parsing panics instead of returning an error",
    """
fn main() {
    let b = [0u8, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 1, b'a', 0xC0];
    let r = std::panic::catch_unwind(|| Packet::try_from(&b[..]).is_err());
    assert!(matches!(r, Ok(true)));
}
""")

bug("c02-ttl-sign", "C02",
    [("src/resource.rs", "let time_to_live = u32::from_be_bytes(buffer.extract_bytes(4)?.try_into()?);",
      "let time_to_live =\n            i32::from_be_bytes(buffer.extract_bytes(4)?.try_into()?).max(0) as u32;")],
    "a record whose TTL field has its top bit set (for instance extended flags of an OPT record)",
    "the TTL does not survive the round trip",
    """
fn main() {
    let mut p = Packet::new_reply(7);
    p.add_answer(ResourceRecord::new(FQDN::new("a.b"), RecordType::NULL, RecordClass::IN, 0x8000_0001, RecordData::NULL(Null::new(vec![1]))));
    let q = Packet::try_from(p.to_bytes().as_slice()).unwrap();
    assert_eq!(q.answers(), p.answers());
}
""")
