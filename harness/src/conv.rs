//! Conversion between the abstract values of the specification (JSON) and the values of the
//! implementation. Every field of record data is an array of bytes, a name is an array of labels.
use crate::tables::*;
use maybe_dns::rdata::verif::*;
use maybe_dns::rdata::*;
use maybe_dns::*;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use std::net::{Ipv4Addr, Ipv6Addr};

pub fn ju(v: &Value) -> u64 {
    v.as_u64().expect("unsigned integer in case")
}
pub fn jb(v: &Value) -> Vec<u8> {
    v.as_array().expect("byte array in case").iter().map(|x| ju(x) as u8).collect()
}
pub fn bj(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|x| Value::from(*x)).collect())
}
pub fn be(v: &Value) -> u64 {
    jb(v).iter().fold(0u64, |a, b| (a << 8) | *b as u64)
}
pub fn u16j(x: u16) -> Value {
    bj(&x.to_be_bytes())
}
pub fn u32j(x: u32) -> Value {
    bj(&x.to_be_bytes())
}
pub fn nm(v: &Value) -> FQDN {
    let l: Vec<Vec<u8>> = v.as_array().expect("name").iter().map(jb).collect();
    FQDN::from(l)
}
pub fn nj(n: &FQDN) -> Value {
    Value::Array(n.iter().map(|l| bj(l)).collect())
}
fn s(v: &Value) -> String {
    String::from_utf8(jb(v)).expect("utf8 in case")
}
fn ip4(v: &Value) -> Ipv4Addr {
    Ipv4Addr::from(be(v) as u32)
}
fn ip6(v: &Value) -> Ipv6Addr {
    let b: [u8; 16] = jb(v).try_into().expect("16 bytes");
    Ipv6Addr::from(b)
}
fn b1(v: &Value) -> u8 {
    jb(v)[0]
}

/// Number of causes behind an error, as far as 50.
pub fn causes(e: &DnsError) -> usize {
    let mut n = 0;
    let mut x: Option<&(dyn std::error::Error + 'static)> = std::error::Error::source(e);
    while let Some(y) = x {
        n += 1;
        if n == 50 {
            break;
        }
        x = y.source();
    }
    n
}
pub fn err(e: &DnsError) -> Value {
    let d = format!("{:?}", e);
    let kind: String = d.chars().take_while(|c| c.is_alphanumeric()).collect();
    let num: String = d
        .chars()
        .skip(kind.len())
        .filter(|c| c.is_ascii_digit())
        .collect();
    let num: i64 = if d.starts_with("DnsSec") || num.is_empty() || num.len() > 9 {
        -1
    } else {
        num.parse().unwrap()
    };
    json!({"e": kind, "n": num})
}

pub fn rdata_to(v: &Value) -> RecordData {
    let t = ju(&v["t"]) as u16;
    let f = v["f"].as_array().expect("fields");
    let u16f = |i: usize| be(&f[i]) as u16;
    let u32f = |i: usize| be(&f[i]) as u32;
    match t {
        1 => RecordData::A(A::new(ip4(&f[0]))),
        2 => RecordData::NS(Ns::new(nm(&f[0]))),
        5 => RecordData::CNAME(Cname::new(nm(&f[0]))),
        6 => RecordData::SOA(Soa::new(
            nm(&f[0]), nm(&f[1]), u32f(2), u32f(3), u32f(4), u32f(5), u32f(6),
        )),
        10 => RecordData::NULL(Null::new(jb(&f[0]))),
        11 => RecordData::WKS(Wks::new(ip4(&f[0]), b1(&f[1]), jb(&f[2]))),
        12 => RecordData::PTR(Ptr::new(nm(&f[0]))),
        13 => RecordData::HINFO(Hinfo::new(jb(&f[0]), jb(&f[1]))),
        14 => RecordData::MINFO(Minfo::new(nm(&f[0]), nm(&f[1]))),
        15 => RecordData::MX(Mx::new(u16f(0), nm(&f[1]))),
        16 => RecordData::TXT(Txt::new(f[0].as_array().unwrap().iter().map(s).collect())),
        28 => RecordData::AAAA(Aaaa::new(ip6(&f[0]))),
        29 => RecordData::LOC(Loc {
            version: b1(&f[0]),
            size: b1(&f[1]),
            horiz_pre: b1(&f[2]),
            vert_pre: b1(&f[3]),
            latitude: u32f(4),
            longitude: u32f(5),
            altitude: u32f(6),
        }),
        33 => RecordData::SRV(Srv::new(u16f(0), u16f(1), u16f(2), nm(&f[3]))),
        35 => RecordData::NAPTR(Naptr::new(
            u16f(0),
            u16f(1),
            jb(&f[2]).iter().map(|c| nf_of(*c as u64)).collect(),
            jb(&f[3]),
            s(&f[4]),
            nm(&f[5]),
        )),
        41 => {
            let mut m = HashMap::new();
            for o in f[0].as_array().unwrap() {
                m.insert(be(&o[0]) as u16, jb(&o[1]));
            }
            RecordData::OPT(Opt(m))
        }
        42 => RecordData::APL(Apl::new(
            b1(&f[1]),
            b1(&f[2]) != 0,
            if be(&f[0]) == 1 { Afd::IpV4(ip4(&f[3])) } else { Afd::IpV6(ip6(&f[3])) },
        )),
        44 => RecordData::SSHFP(Sshfp::new(
            al_of(be(&f[0])),
            fp_of(be(&f[1])),
            jb(&f[2]),
        )),
        45 => RecordData::IPSECKEY(IpSecKey {
            precedence: b1(&f[0]),
            algorithm: al_of(be(&f[2])),
            gateway: match b1(&f[1]) {
                0 => ipseckey::Gateway::None,
                1 => ipseckey::Gateway::IpV4(ip4(&f[3])),
                2 => ipseckey::Gateway::IpV6(ip6(&f[3])),
                _ => ipseckey::Gateway::Domain(nm(&f[4])),
            },
            public_key: jb(&f[5]),
        }),
        49 => RecordData::DHCID(Dhcid {
            identifier_code: id_of(be(&f[0])),
            digest: jb(&f[1]),
        }),
        52 => RecordData::TLSA(Tlsa::new(
            cu_of(be(&f[0])),
            ts_of(be(&f[1])),
            tm_of(be(&f[2])),
            jb(&f[3]),
        )),
        55 => RecordData::HIP(Hip {
            public_key_algorithm: al_of(be(&f[0])),
            hit: jb(&f[1]),
            public_key: jb(&f[2]),
            rendevous_server: {
                let l: Vec<FQDN> = f[3].as_array().unwrap().iter().map(nm).collect();
                if l.is_empty() { None } else { Some(l) }
            },
        }),
        61 => RecordData::OPENPGPKEY(OpenPgpKey(jb(&f[0]))),
        62 => {
            let mut fl = CsyncFlags::new();
            let w = u16f(1);
            fl.set_immediate(w & 1 != 0);
            fl.set_soa_minimum(w & 2 != 0);
            RecordData::CSYNC(Csync::new(u32f(0), fl, types(&f[2])))
        }
        64 => RecordData::SVCB(Svcb {
            priority: u16f(0),
            target_name: nm(&f[1]),
            params: f[2].as_array().unwrap().iter().map(param_to).collect(),
        }),
        108 => RecordData::EUI48(
            Eui48::try_from(&mut DnsBuffer::from(jb(&f[0]).as_slice())).unwrap(),
        ),
        109 => RecordData::EUI64(
            Eui64::try_from(&mut DnsBuffer::from(jb(&f[0]).as_slice())).unwrap(),
        ),
        249 => RecordData::TKEY(Tkey {
            algorithm: nm(&f[0]),
            inception: u32f(1),
            expiration: u32f(2),
            mode: km_of(be(&f[3])),
            error: ke_of(be(&f[4])),
            key_data: jb(&f[5]),
            other_data: jb(&f[6]),
        }),
        250 => RecordData::TSIG(Tsig {
            algorithm: nm(&f[0]),
            time_signed: be(&f[1]),
            fudge: u16f(2),
            mac: jb(&f[3]),
            original_id: u16f(4),
            error: te_of(be(&f[5])),
            other_data: jb(&f[6]),
        }),
        256 => RecordData::URI(Uri::new(u16f(0), u16f(1), jb(&f[2]))),
        257 => RecordData::CAA(Caa::new(b1(&f[0]) != 0, s(&f[1]), jb(&f[2]))),
        #[cfg(feature = "dnssec")]
        43 | 59 => {
            let d = Ds::new(
                u16f(0),
                da_of(be(&f[1])),
                dt_of(be(&f[2])),
                jb(&f[3]),
            );
            if t == 43 { RecordData::DS(d) } else { RecordData::CDS(d) }
        }
        #[cfg(feature = "dnssec")]
        46 => RecordData::RRSIG(Rrsig::new(
            rt_of(be(&f[0])),
            da_of(be(&f[1])),
            b1(&f[2]),
            u32f(3),
            u32f(4),
            u32f(5),
            u16f(6),
            nm(&f[7]),
            jb(&f[8]),
        )),
        #[cfg(feature = "dnssec")]
        47 => RecordData::NSEC(Nsec::with_types(nm(&f[0]), types(&f[1]))),
        #[cfg(feature = "dnssec")]
        48 | 60 => {
            let k = key_to(f);
            if t == 48 { RecordData::DNSKEY(k) } else { RecordData::CDNSKEY(k) }
        }
        _ => panic!("case uses unsupported record type {}", t),
    }
}

#[cfg(feature = "dnssec")]
pub fn key_to(f: &[Value]) -> DnsKey {
    let mut k = if b1(&f[2]) == 3 {
        DnsKey::new(da_of(be(&f[3])), jb(&f[4]))
    } else {
        // Other protocol values can only be created by reading them
        let mut w = vec![0, 0, b1(&f[2]), b1(&f[3])];
        w.extend(jb(&f[4]));
        DnsKey::try_from(&mut DnsBuffer::from(w.as_slice())).unwrap()
    };
    k.zone_key = b1(&f[0]) != 0;
    k.secure_entry_point = b1(&f[1]) != 0;
    k
}

fn types(v: &Value) -> BTreeSet<RecordType> {
    v.as_array().unwrap().iter().map(|x| rt_of(ju(x))).collect()
}
fn types_j(t: &BTreeSet<RecordType>) -> Value {
    let mut v: Vec<u16> = t.iter().map(|x| rt_n(*x)).collect();
    v.sort();
    json!(v)
}

fn param_to(p: &Value) -> Param {
    let v = p[1].as_array().unwrap();
    match be(&p[0]) {
        0 => Param::Mandatory(v.iter().map(|k| pk_of(be(k))).collect()),
        1 => Param::Alpn(v.iter().map(jb).collect()),
        2 => Param::NoDefaultAlpn,
        3 => Param::Port(be(&v[0]) as u16),
        4 => Param::IpV4Hint(ip4(&v[0])),
        5 => Param::Ech(jb(&v[0])),
        6 => Param::IpV6Hint(ip6(&v[0])),
        65535 => Param::Invalid,
        k => Param::Private { num: k as u16, bytes: jb(&v[0]) },
    }
}
fn param_j(p: &Param) -> Value {
    match p {
        Param::Mandatory(k) => json!([
            [0, 0],
            k.iter().map(|x| u16j(pk_n(*x))).collect::<Vec<_>>()
        ]),
        Param::Alpn(l) => json!([[0, 1], l.iter().map(|x| bj(x)).collect::<Vec<_>>()]),
        Param::NoDefaultAlpn => json!([[0, 2], []]),
        Param::Port(p) => json!([[0, 3], [u16j(*p)]]),
        Param::IpV4Hint(a) => json!([[0, 4], [bj(&a.octets())]]),
        Param::Ech(b) => json!([[0, 5], [bj(b)]]),
        Param::IpV6Hint(a) => json!([[0, 6], [bj(&a.octets())]]),
        Param::Private { num, bytes } => json!([u16j(*num), [bj(bytes)]]),
        Param::Invalid => json!([[255, 255], []]),
    }
}

/// Projection of types whose fields are private: read the fields from the wire form and prove
/// with the public constructor that they are the fields of this very value.
fn wname(b: &[u8], mut p: usize) -> Option<(Vec<Vec<u8>>, usize)> {
    let mut l = Vec::new();
    loop {
        let n = *b.get(p)? as usize;
        p += 1;
        if n == 0 {
            return Some((l, p));
        }
        l.push(b.get(p..p + n)?.to_vec());
        p += n;
    }
}

#[allow(dead_code)]
fn opt<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
fn nf_opt(c: u8) -> Option<naptr::Flag> {
    if b"SAUP".contains(&c) { Some(nf_of(c as u64)) } else { None }
}
fn naptr_fields(n: &Naptr) -> Option<Value> {
    let b = n.to_bytes();
    let fl = *b.get(4)? as usize;
    let flags = b.get(5..5 + fl)?;
    let p = 5 + fl;
    let sl = *b.get(p)? as usize;
    let service = b.get(p + 1..p + 1 + sl)?;
    let p = p + 1 + sl;
    let rl = *b.get(p)? as usize;
    let regexp = b.get(p + 1..p + 1 + rl)?;
    let p = p + 1 + rl;
    let (name, end) = wname(&b, p)?;
    if end != b.len() {
        return None;
    }
    let again = Naptr::new(
        u16::from_be_bytes([b[0], b[1]]),
        u16::from_be_bytes([b[2], b[3]]),
        flags.iter().map(|c| nf_opt(*c)).collect::<Option<_>>()?,
        service.to_vec(),
        String::from_utf8(regexp.to_vec()).ok()?,
        FQDN::from(name.clone()),
    );
    if again != *n {
        return None;
    }
    Some(json!([
        bj(&b[0..2]), bj(&b[2..4]), bj(flags), bj(service), bj(regexp),
        nj(&FQDN::from(name))
    ]))
}

#[cfg(feature = "dnssec")]
pub fn rrsig_fields(r: &Rrsig) -> Option<Value> {
    let b = r.to_bytes();
    if b.len() < 19 {
        return None;
    }
    let (name, end) = wname(&b, 18)?;
    let u4 = |i: usize| u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]);
    let again = Rrsig::new(
        opt(|| rt_of(u16::from_be_bytes([b[0], b[1]]) as u64))?,
        opt(|| da_of(b[2] as u64))?,
        b[3],
        u4(4),
        u4(8),
        u4(12),
        u16::from_be_bytes([b[16], b[17]]),
        FQDN::from(name.clone()),
        b[end..].to_vec(),
    );
    if again != *r || r.key_tag() != u16::from_be_bytes([b[16], b[17]]) || r.signature() != &b[end..] {
        return None;
    }
    Some(json!([
        bj(&b[0..2]), [b[2]], [b[3]], bj(&b[4..8]), bj(&b[8..12]), bj(&b[12..16]), bj(&b[16..18]),
        nj(&FQDN::from(name)), bj(&b[end..])
    ]))
}

pub fn rdata_j(d: &RecordData) -> Value {
    let (t, f): (u16, Value) = match d {
        RecordData::A(x) => (1, json!([bj(&x.inner().octets())])),
        RecordData::NS(x) => (2, json!([nj(&x.nsdname)])),
        RecordData::CNAME(x) => (5, json!([nj(&x.cname)])),
        RecordData::SOA(x) => (
            6,
            json!([
                nj(&x.mname), nj(&x.rname), u32j(x.serial), u32j(x.refresh), u32j(x.retry),
                u32j(x.expire), u32j(x.minimum)
            ]),
        ),
        RecordData::NULL(x) => (10, json!([bj(&x.anything)])),
        RecordData::WKS(x) => (11, json!([bj(&x.address.octets()), [x.protocol], bj(&x.bitmap)])),
        RecordData::PTR(x) => (12, json!([nj(x.inner())])),
        RecordData::HINFO(x) => (13, json!([bj(&x.cpu), bj(&x.os)])),
        RecordData::MINFO(x) => (14, json!([nj(&x.rmailbx), nj(&x.emailbx)])),
        RecordData::MX(x) => (15, json!([u16j(x.preference), nj(&x.exchange)])),
        RecordData::TXT(x) => (
            16,
            json!([x.0.iter().map(|s| bj(s.as_bytes())).collect::<Vec<_>>()]),
        ),
        RecordData::AAAA(x) => (28, json!([bj(&x.inner().octets())])),
        RecordData::LOC(x) => (
            29,
            json!([
                [x.version], [x.size], [x.horiz_pre], [x.vert_pre], u32j(x.latitude),
                u32j(x.longitude), u32j(x.altitude)
            ]),
        ),
        RecordData::SRV(x) => (
            33,
            json!([u16j(x.priority), u16j(x.weight), u16j(x.port), nj(&x.target)]),
        ),
        RecordData::NAPTR(x) => (35, naptr_fields(x).unwrap_or(json!([]))),
        RecordData::OPT(x) => {
            let mut k: Vec<_> = x.0.iter().collect();
            k.sort();
            (
                41,
                json!([k.iter().map(|(c, d)| json!([u16j(**c), bj(d)])).collect::<Vec<_>>()]),
            )
        }
        RecordData::APL(x) => (
            42,
            match &x.afd_part {
                Afd::IpV4(a) => json!([[0, 1], [x.prefix], [x.n as u8], bj(&a.octets())]),
                Afd::IpV6(a) => json!([[0, 2], [x.prefix], [x.n as u8], bj(&a.octets())]),
            },
        ),
        RecordData::SSHFP(x) => (
            44,
            json!([[al_n(x.algorithm)], [fp_n(x.fingerprint_type)], bj(&x.fingerprint)]),
        ),
        RecordData::IPSECKEY(x) => {
            let (ty, b, n) = match &x.gateway {
                ipseckey::Gateway::None => (0, json!([]), json!([])),
                ipseckey::Gateway::IpV4(a) => (1, bj(&a.octets()), json!([])),
                ipseckey::Gateway::IpV6(a) => (2, bj(&a.octets()), json!([])),
                ipseckey::Gateway::Domain(n) => (3, json!([]), nj(n)),
            };
            (
                45,
                json!([[x.precedence], [ty], [al_n(x.algorithm)], b, n, bj(&x.public_key)]),
            )
        }
        RecordData::DHCID(x) => (49, json!([u16j(id_n(x.identifier_code)), bj(&x.digest)])),
        RecordData::TLSA(x) => (
            52,
            json!([
                [cu_n(x.cert_usage)], [ts_n(x.selector)], [tm_n(x.matching_type)],
                bj(&x.associated_data)
            ]),
        ),
        RecordData::HIP(x) => (
            55,
            json!([
                [al_n(x.public_key_algorithm)],
                bj(&x.hit),
                bj(&x.public_key),
                x.rendevous_server.iter().flatten().map(nj).collect::<Vec<_>>()
            ]),
        ),
        RecordData::OPENPGPKEY(x) => (61, json!([bj(&x.0)])),
        RecordData::CSYNC(x) => {
            let w = (x.flags.immediate() as u16) | ((x.flags.soa_minimum() as u16) << 1);
            (62, json!([u32j(x.soa_serial), u16j(w), types_j(&x.types)]))
        }
        RecordData::SVCB(x) => (
            64,
            json!([
                u16j(x.priority),
                nj(&x.target_name),
                x.params.iter().map(param_j).collect::<Vec<_>>()
            ]),
        ),
        RecordData::EUI48(x) => (108, json!([bj(&x.to_bytes())])),
        RecordData::EUI64(x) => (109, json!([bj(&x.to_bytes())])),
        RecordData::TKEY(x) => (
            249,
            json!([
                nj(&x.algorithm), u32j(x.inception), u32j(x.expiration), u16j(km_n(x.mode)),
                u16j(ke_n(x.error)), bj(&x.key_data), bj(&x.other_data)
            ]),
        ),
        RecordData::TSIG(x) => (
            250,
            json!([
                nj(&x.algorithm), bj(&x.time_signed.to_be_bytes()[2..]), u16j(x.fudge), bj(&x.mac),
                u16j(x.original_id), u16j(te_n(x.error)), bj(&x.other_data)
            ]),
        ),
        RecordData::URI(x) => (256, json!([u16j(x.priority), u16j(x.weight), bj(&x.target)])),
        RecordData::CAA(x) => (
            257,
            json!([[x.issuer_critical as u8], bj(x.tag.as_bytes()), bj(&x.value)]),
        ),
        #[cfg(feature = "dnssec")]
        RecordData::DS(x) => (43, ds_j(x)),
        #[cfg(feature = "dnssec")]
        RecordData::CDS(x) => (59, ds_j(x)),
        #[cfg(feature = "dnssec")]
        RecordData::RRSIG(x) => (46, rrsig_fields(x).unwrap_or(json!([]))),
        #[cfg(feature = "dnssec")]
        RecordData::NSEC(x) => (47, json!([nj(&x.next_domain_name), types_j(&x.types)])),
        #[cfg(feature = "dnssec")]
        RecordData::DNSKEY(x) => (48, key_j(x)),
        #[cfg(feature = "dnssec")]
        RecordData::CDNSKEY(x) => (60, key_j(x)),
    };
    json!({"t": t, "f": f})
}
#[cfg(feature = "dnssec")]
fn ds_j(x: &Ds) -> Value {
    json!([u16j(x.key_tag), [da_n(x.algorithm)], [dt_n(x.digest_type)], bj(&x.digest)])
}
#[cfg(feature = "dnssec")]
fn key_j(x: &DnsKey) -> Value {
    json!([
        [x.zone_key as u8], [x.secure_entry_point as u8], [x.protocol()], [da_n(x.algorithm)],
        bj(&x.public_key)
    ])
}

pub fn q_to(v: &Value) -> Question {
    #[allow(unused_mut)]
    let mut q = Question::new(
        nm(&v["n"]),
        qt_of(ju(&v["t"])),
        qc_of(ju(&v["c"])),
    );
    #[cfg(feature = "mdns")]
    if ju(&v["u"]) != 0 {
        q.set_unicast_response(true);
    }
    q
}
pub fn q_j(q: &Question) -> Value {
    #[cfg(feature = "mdns")]
    let u = q.unicast_response() as u8;
    #[cfg(not(feature = "mdns"))]
    let u = 0;
    json!({"n": nj(q.name()), "t": qt_n(*q.query_type()), "c": qc_n(*q.class()), "u": u})
}
pub fn rc_class(c: u64) -> RecordClass {
    match c as u16 {
        1 => RecordClass::IN,
        2 => RecordClass::CS,
        3 => RecordClass::CH,
        4 => RecordClass::HS,
        n => RecordClass::UdpPayloadSize(n),
    }
}
pub fn rr_to(v: &Value) -> ResourceRecord {
    #[allow(unused_mut)]
    let mut r = ResourceRecord::new(
        nm(&v["n"]),
        rt_of(ju(&v["t"])),
        rc_class(ju(&v["c"])),
        be(&v["ttl"]) as u32,
        rdata_to(&v["d"]),
    );
    #[cfg(feature = "mdns")]
    if ju(&v["u"]) != 0 {
        r.set_cache_flush(true);
    }
    r
}
pub fn rr_j(r: &ResourceRecord) -> Value {
    #[cfg(feature = "mdns")]
    let u = r.cache_flush() as u8;
    #[cfg(not(feature = "mdns"))]
    let u = 0;
    let c = match r.class() {
        RecordClass::IN => 1,
        RecordClass::CS => 2,
        RecordClass::CH => 3,
        RecordClass::HS => 4,
        RecordClass::UdpPayloadSize(n) => *n,
    };
    json!({"n": nj(r.name()), "t": rt_n(*r.record_type()), "c": c, "u": u,
           "ttl": u32j(r.time_to_live()), "d": rdata_j(r.data())})
}
/// [qr, opcode, aa, tc, rd, ra, rcode]
pub fn flags_j(p: &Packet) -> Value {
    json!([
        p.query_response() as u8, op_n(p.opcode()), p.authoritative_answer() as u8,
        p.truncation() as u8, p.recursion_desired() as u8, p.recursion_available() as u8,
        rc_n(p.response_code())
    ])
}
pub fn hflags_j(p: &Header) -> Value {
    json!([
        p.query_response() as u8, op_n(p.opcode()), p.authoritative_answer() as u8,
        p.truncation() as u8, p.recursion_desired() as u8, p.recursion_available() as u8,
        rc_n(p.response_code())
    ])
}
pub fn packet_j(p: &Packet) -> Value {
    json!({
        "id": u16j(p.id()), "fl": flags_j(p),
        "qd": p.questions().iter().map(q_j).collect::<Vec<_>>(),
        "an": p.answers().iter().map(rr_j).collect::<Vec<_>>(),
        "ns": p.authorities().iter().map(rr_j).collect::<Vec<_>>(),
        "ar": p.additionals().iter().map(rr_j).collect::<Vec<_>>(),
    })
}
/// Build a packet; `how` selects between equivalent ways through the public API.
pub fn packet_to(v: &Value, how: u64) -> Packet {
    let id = be(&v["id"]) as u16;
    let f: Vec<u64> = v["fl"].as_array().unwrap().iter().map(ju).collect();
    let qd: Vec<Question> = v["qd"].as_array().unwrap().iter().map(q_to).collect();
    let sec = |k: &str| -> Vec<ResourceRecord> { v[k].as_array().unwrap().iter().map(rr_to).collect() };
    let mut p = match how % 4 {
        0 => Packet::new_query(id, f[4] != 0),
        1 => Packet::new_reply(id),
        2 => Packet::with_questions(id, f[4] != 0, qd.clone()),
        _ => Packet::default(),
    };
    p.set_id(id);
    p.set_query_response(f[0] != 0);
    p.set_opcode(op_of(f[1]));
    p.set_authoritative_answer(f[2] != 0);
    p.set_truncation(f[3] != 0);
    p.set_recursion_desired(f[4] != 0);
    p.set_recursion_available(f[5] != 0);
    p.set_response_code(rc_of(f[6]));
    match how % 4 {
        0 => {
            for q in qd {
                p.add_question(q);
            }
            for r in sec("an") {
                p.add_answer(r);
            }
            for r in sec("ns") {
                p.add_authority(r);
            }
            for r in sec("ar") {
                p.add_additional(r);
            }
        }
        1 => {
            p.set_additionals(sec("ar"));
            p.set_authorities(sec("ns"));
            p.set_answers(sec("an"));
            p.set_questions(qd);
        }
        2 => {
            p.set_answers(sec("an"));
            for r in sec("ns") {
                p.add_authority(r);
            }
            for r in sec("ar") {
                p.add_additional(r);
            }
        }
        _ => {
            for q in qd {
                p.questions_mut().push(q);
            }
            for r in sec("ar") {
                p.add_additional(r);
            }
            for r in sec("an") {
                p.add_answer(r);
            }
            p.set_authorities(sec("ns"));
        }
    }
    p
}
