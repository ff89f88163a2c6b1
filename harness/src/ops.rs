use crate::conv::*;
use crate::tables::*;
use crate::{mem_peak, mem_reset, phase};
use maybe_dns::rdata::verif::*;
use maybe_dns::rdata::*;
use maybe_dns::*;
use serde_json::{json, Value};

pub fn run(kind: &str, c: &Value) -> Value {
    match kind {
        "enc" => enc(c),
        "dec" => dec(c),
        "name" => name(c),
        "cur" => cur(c),
        "hdr" => hdr(c),
        "hdrw" => hdrw(c),
        "hdrt" => hdrt(c),
        "hist" => hist(c),
        "edit" => edit(c),
        "view" => view(c),
        "eq" => eq(c),
        "mix" => mix(c),
        "obs" => obs(c),
        "code" => code(c),
        "rd" => rd(c),
        "rrset" => rrset(c),
        "fq" => fq(c),
        "fcmp" => fcmp(c),
        "dhcid" => dhcid_(c),
        #[cfg(feature = "dnssec")]
        "ds" => ds(c),
        #[cfg(feature = "dnssec")]
        "sign" => sign(c),
        k => panic!("unknown case kind {}", k),
    }
}

fn parse_j(b: &[u8]) -> Value {
    match Packet::try_from(b) {
        Ok(p) => json!({"p": packet_j(&p)}),
        Err(e) => err(&e),
    }
}

fn prefixes(b: &[u8]) -> Value {
    let n = b.len();
    let mut acc = Vec::new();
    let mut k = 0;
    while k < n {
        if Packet::try_from(&b[..k]).is_ok() {
            acc.push(k);
        }
        k += if n > 1500 && k > 200 && k + 200 < n { 37 } else { 1 };
    }
    json!(acc)
}

fn render(p: &Packet) -> usize {
    let mut n = format!("{:?}", p).len();
    for q in p.questions() {
        n += format!("{}", q.name()).len();
    }
    for r in p.answers().iter().chain(p.authorities()).chain(p.additionals()) {
        n += format!("{}", r.name()).len();
        n += r.data_raw().len();
        n += r.byte_size();
    }
    n
}

fn enc(c: &Value) -> Value {
    phase("build");
    let p = packet_to(&c["p"], ju(&c["how"]));
    phase("size");
    let bs = p.byte_size();
    let mut sizes: Vec<[usize; 2]> = Vec::new();
    sizes.push([p.header().byte_size(), p.header().to_bytes().len()]);
    for q in p.questions() {
        sizes.push([q.byte_size(), q.to_bytes().len()]);
        sizes.push([q.name().byte_size(), q.name().to_bytes().len()]);
        sizes.push([q.query_type().byte_size() + q.class().byte_size(), q.query_type().to_bytes().len() + q.class().to_bytes().len()]);
    }
    let mut recs: Vec<[usize; 2]> = Vec::new();
    for r in p.answers().iter().chain(p.authorities()).chain(p.additionals()) {
        sizes.push([r.name().byte_size(), r.name().to_bytes().len()]);
        sizes.push([r.name().len(), r.name().to_bytes().len()]);
        sizes.push([r.record_type().byte_size() + r.class().byte_size(), r.record_type().to_bytes().len() + r.class().to_bytes().len()]);
        recs.push([r.byte_size(), r.to_bytes().len()]);
        recs.push([r.data().byte_size(), r.data().to_bytes().len()]);
    }
    phase("plain");
    let b = p.to_bytes();
    phase("compressed");
    let z = p.to_bytes_compressed();
    phase("render");
    render(&p);
    phase("reparse");
    let rb = parse_j(&b);
    phase("parsez");
    let rz = parse_j(&z);
    phase("prefix");
    let (pa, za) = if ju(&c["px"]) != 0 { (prefixes(&b), prefixes(&z)) } else { (json!([]), json!([])) };
    let mut tb = b.clone();
    tb.extend_from_slice(&[0, 1, 0xC0, 0x0C, 0xFF, 0, 0, 1]);
    let mut tz = z.clone();
    tz.extend_from_slice(&[0xC0, 0x0C, 0, 1]);
    let t = (parse_j(&tb) == rb) && (parse_j(&tz) == rz);
    json!({"b": bj(&b), "bs": bs, "z": bj(&z), "rb": rb, "rz": rz, "pa": pa, "za": za, "tr": t,
           "sz": sizes, "rs": recs})
}

fn dec(c: &Value) -> Value {
    let b = jb(&c["b"]);
    phase("parse");
    let base = mem_reset();
    let t0 = std::time::Instant::now();
    let r = Packet::try_from(b.as_slice());
    let ms = t0.elapsed().as_millis() as u64;
    let mem = mem_peak(base) / 1024;
    match r {
        Err(e) => {
            let mut v = err(&e);
            v["ms"] = json!(ms);
            v["kb"] = json!(mem);
            // rendering an error must work, too
            let _ = format!("{} {:?}", e, e);
            v["ch"] = json!(causes(&e));
            v
        }
        Ok(p) => {
            let pj = packet_j(&p);
            phase("render");
            render(&p);
            phase("size");
            let bs = p.byte_size();
            phase("reser");
            let base = mem_reset();
            let b2 = p.to_bytes();
            let z2 = p.to_bytes_compressed();
            let mem2 = mem_peak(base) / 1024;
            phase("reparse");
            let rb = parse_j(&b2);
            phase("parsez");
            let rz = parse_j(&z2);
            let eqc = p.clone() == p;
            phase("parse");
            let mut cb = DnsBuffer::from(b.as_slice());
            let again = Packet::try_from(&mut cb);
            let end = cb.position();
            let inc = entries(&b, &p, again.as_ref().ok() == Some(&p));
            json!({"end": end, "inc": inc, "p": pj, "bs": bs, "b": bj(&b2), "z": bj(&z2), "rb": rb, "rz": rz, "ms": ms, "kb": mem.max(mem2), "eqc": eqc})
        }
    }
}

/// Reads the entries of a message one by one; positions behind each and whether they are those of p.
fn entries(b: &[u8], p: &Packet, mut eq: bool) -> Value {
    let mut cb = DnsBuffer::from(b);
    let mut ends = Vec::new();
    let h = Header::try_from(&mut cb);
    ends.push(cb.position());
    eq &= matches!(&h, Ok(h) if h == p.header());
    for q in p.questions() {
        let r = Question::try_from(&mut cb);
        ends.push(cb.position());
        eq &= matches!(&r, Ok(r) if r == q);
    }
    for x in p.answers().iter().chain(p.authorities()).chain(p.additionals()) {
        let r = ResourceRecord::try_from(&mut cb);
        ends.push(cb.position());
        eq &= matches!(&r, Ok(r) if r == x);
    }
    json!({"ends": ends, "eq": eq})
}

fn name(c: &Value) -> Value {
    let b = jb(&c["b"]);
    let mut out = Vec::new();
    for s in c["s"].as_array().unwrap() {
        let s = ju(s) as usize;
        let mut buf = DnsBuffer::from(b.as_slice());
        buf.set_position(s).expect("start in buffer");
        phase("parse");
        let r = if s % 2 == 0 { buf.extract_fqdn() } else { FQDN::try_from(&mut buf) };
        let (p, m) = (buf.position(), buf.remaining());
        out.push(match r {
            Ok(n) => {
                phase("render");
                let txt = format!("{}", n);
                json!({"l": nj(&n), "p": p, "m": m, "txt": bj(txt.as_bytes())})
            }
            Err(e) => {
                let mut v = err(&e);
                v["p"] = json!(p);
                v["m"] = json!(m);
                v
            }
        });
    }
    json!(out)
}

fn num(v: &Value) -> usize {
    let x = v.as_i64().unwrap();
    if x >= 0 { x as usize } else { usize::MAX - ((-x) as usize - 1) }
}

/// Applies cursor operations; `sub` opens a nested buffer for the following operations up to the
/// matching `pop`.
fn cur_run<'a>(buf: &mut DnsBuffer<'a>, ops: &[Value], mut i: usize, out: &mut Vec<Value>) -> usize {
    while i < ops.len() {
        let o = &ops[i];
        let k = o[0].as_str().unwrap();
        let bytes = |r: Result<Vec<u8>, DnsError>| match r {
            Ok(b) => json!({"b": bj(&b)}),
            Err(e) => err(&e),
        };
        let r = match k {
            "u8" => bytes(buf.extract_u8().map(|x| x.to_be_bytes().to_vec())),
            "u16" => bytes(buf.extract_u16().map(|x| x.to_be_bytes().to_vec())),
            "u32" => bytes(buf.extract_u32().map(|x| x.to_be_bytes().to_vec())),
            "u16as" => bytes(buf.extract_u16_as::<RecordType>().map(|x| rt_n(x).to_be_bytes().to_vec())),
            "take" => bytes(buf.extract_bytes(num(&o[1])).map(|x| x.to_vec())),
            "peek" => bytes(buf.peek_bytes(num(&o[1])).map(|x| x.to_vec())),
            "adv" => bytes(buf.advance(num(&o[1])).map(|_| vec![])),
            "seek" => bytes(buf.set_position(num(&o[1])).map(|_| vec![])),
            "cstr" => bytes(buf.extract_character_string()),
            "str" => bytes(buf.extract_string().map(|s| s.into_bytes())),
            "name" => bytes(if i % 2 == 0 { buf.extract_fqdn() } else { FQDN::try_from(&mut *buf) }.map(|n| {
                let mut v = Vec::new();
                for l in n.iter() {
                    v.push(l.len() as u8);
                    v.extend_from_slice(l);
                }
                v.push(0);
                v
            })),
            "sub" => {
                let mut end = i + 1;
                let ok = match buf.sub_buffer(num(&o[1])) {
                    Ok(mut sb) => {
                        let at = out.len();
                        out.push(json!({}));
                        let sl = sb.as_slice().to_vec();
                        out[at] = json!({"b": bj(&sl), "p": sb.position(), "m": sb.remaining()});
                        end = cur_run(&mut sb, ops, i + 1, out);
                        true
                    }
                    Err(e) => {
                        let mut v = err(&e);
                        v["p"] = json!(buf.position());
                        v["m"] = json!(buf.remaining());
                        out.push(v);
                        false
                    }
                };
                i = end;
                if ok {
                    // state of the parent after the nested buffer is gone
                    out.push(json!({"b": [], "p": buf.position(), "m": buf.remaining()}));
                }
                continue;
            }
            "pop" => return i + 1,
            _ => panic!("cursor op"),
        };
        let mut r = r;
        r["p"] = json!(buf.position());
        r["m"] = json!(buf.remaining());
        out.push(r);
        i += 1;
    }
    i
}

fn cur(c: &Value) -> Value {
    phase("op");
    let b = jb(&c["b"]);
    let mut buf = DnsBuffer::from(b.as_slice());
    let ops = c["ops"].as_array().unwrap();
    let mut out = vec![json!({"b": bj(buf.as_slice()), "p": buf.position(), "m": buf.remaining()})];
    let mut i = 0;
    while i < ops.len() {
        i = cur_run(&mut buf, ops, i, &mut out);
    }
    json!(out)
}

fn flag_op(p: &mut Packet, o: &str, v: u64) {
    match o {
        "id" => p.set_id(v as u16),
        "qr" => p.set_query_response(v != 0),
        "op" => p.set_opcode(op_of(v)),
        "aa" => p.set_authoritative_answer(v != 0),
        "tc" => p.set_truncation(v != 0),
        "rd" => p.set_recursion_desired(v != 0),
        "ra" => p.set_recursion_available(v != 0),
        "rc" => p.set_response_code(rc_of(v)),
        _ => panic!("flag op"),
    }
}
fn hflag_op(p: &mut Header, o: &str, v: u64) {
    match o {
        "qr" => p.set_query_response(v != 0),
        "op" => p.set_opcode(op_of(v)),
        "aa" => p.set_authoritative_answer(v != 0),
        "tc" => p.set_truncation(v != 0),
        "rd" => p.set_recursion_desired(v != 0),
        "ra" => p.set_recursion_available(v != 0),
        "rc" => p.set_response_code(rc_of(v)),
        _ => panic!("flag op"),
    }
}

fn hdr(c: &Value) -> Value {
    phase("build");
    let init = &c["init"];
    let k = init[0].as_str().unwrap();
    let id = ju(&init[1]) as u16;
    let v = ju(&init[2]);
    let ops = c["ops"].as_array().unwrap();
    let mut out = Vec::new();
    if c["on"] == "p" {
        let mut p = match k {
            "q" => Packet::new_query(id, v != 0),
            "r" => Packet::new_reply(id),
            "d" => Packet::default(),
            "w" => Packet::with_questions(id, v != 0, vec![]),
            _ => panic!("init"),
        };
        phase("op");
        let obs = |p: &Packet| {
            let b = p.to_bytes();
            let z = p.to_bytes_compressed();
            let r = Packet::try_from(b.as_slice());
            let rt = match &r {
                Ok(q) => json!({"id": u16j(q.id()), "fl": flags_j(q)}),
                Err(e) => err(e),
            };
            json!({"id": u16j(p.id()), "fl": flags_j(p), "hf": hflags_j(p.header()), "w": bj(&b), "z": bj(&z), "rt": rt})
        };
        out.push(obs(&p));
        for o in ops {
            flag_op(&mut p, o[0].as_str().unwrap(), ju(&o[1]));
            out.push(obs(&p));
        }
    } else {
        let mut h = match k {
            "q" => Header::new_query(id, v != 0),
            "r" => Header::new_reply(id, op_of(v)),
            "d" => Header::default(),
            _ => panic!("init"),
        };
        phase("op");
        let obs = |h: &Header| {
            let b = h.to_bytes();
            let r = Header::try_from(&mut DnsBuffer::from(b.as_slice()));
            let rt = match &r {
                Ok(q) => json!({"id": bj(&q.to_bytes()[0..2]), "fl": hflags_j(q)}),
                Err(e) => err(e),
            };
            json!({"id": bj(&b[0..2]), "fl": hflags_j(h), "hf": hflags_j(h), "w": bj(&b), "z": bj(&b), "rt": rt})
        };
        out.push(obs(&h));
        for o in ops {
            hflag_op(&mut h, o[0].as_str().unwrap(), ju(&o[1]));
            out.push(obs(&h));
        }
    }
    json!(out)
}

/// Parse the 256 flag words of one high byte.
fn hdrw(c: &Value) -> Value {
    let hi = ju(&c["hi"]) as u8;
    let id = jb(&c["id"]);
    let mut out = Vec::new();
    for lo in 0..=255u8 {
        let b = [id[0], id[1], hi, lo, 0, 0, 0, 0, 0, 0, 0, 0];
        phase("parse");
        out.push(match Packet::try_from(&b[..]) {
            Ok(p) => {
                phase("reser");
                json!({"fl": flags_j(&p), "id": u16j(p.id()), "w": bj(&p.to_bytes())})
            }
            Err(e) => err(&e),
        });
    }
    json!(out)
}

/// Every setter from the header state given by a flag word.
fn hdrt(c: &Value) -> Value {
    let w = jb(&c["w"]);
    let b = [0xAB, 0xCD, w[0], w[1], 0, 0, 0, 0, 0, 0, 0, 0];
    let mut out = Vec::new();
    for o in c["ops"].as_array().unwrap() {
        phase("parse");
        let mut p = Packet::try_from(&b[..]).expect("flag word");
        phase("op");
        flag_op(&mut p, o[0].as_str().unwrap(), ju(&o[1]));
        out.push(json!({"id": u16j(p.id()), "fl": flags_j(&p), "w": bj(&p.to_bytes()[2..4])}));
    }
    json!(out)
}

// ---- views and conversions of record data ----

fn own<'a, T>(x: &T, w: &'a [u8]) -> Value
where
    T: RData + ByteConvertible + Clone + PartialEq + TryFrom<&'a mut DnsBuffer<'a>, Error = DnsError> + 'a,
{
    // the buffer lives as long as the case
    let buf: &'a mut DnsBuffer<'a> = Box::leak(Box::new(DnsBuffer::from(w)));
    let tp = match T::try_from(buf) {
        Ok(y) => json!({"v": rdata_j(&y.into_record_data())}),
        Err(e) => err(&e),
    };
    json!({"ty": rt_n(x.record_type()), "into": rdata_j(&x.clone().into_record_data()), "w": bj(&x.to_bytes()), "bs": x.byte_size(), "tp": tp})
}
fn view(c: &Value) -> Value {
    phase("build");
    let d = rdata_to(c);
    let w: &'static [u8] = Box::leak(d.to_bytes().into_boxed_slice());
    phase("op");
    let texts: Vec<String> = c["txt"].as_array().unwrap().iter().map(|t| String::from_utf8(jb(t)).unwrap()).collect();
    let (o, x) = match &d {
        RecordData::A(a) => {
            let n = u32::from(a.clone());
            let t: Vec<Value> = texts.iter().map(|t| A::try_from(t.as_str()).map(|a| bj(&a.inner().octets())).unwrap_or(json!([]))).collect();
            (own(a, w), json!({"n": u32j(n), "un": bj(&A::from(n).inner().octets()), "ip": bj(&A::from(*a.inner()).inner().octets()),
                    "in": bj(&a.clone().into_inner().octets()), "t": t}))
        }
        RecordData::AAAA(a) => {
            let n = u128::from(a);
            let t: Vec<Value> = texts.iter().map(|t| Aaaa::try_from(t.as_str()).map(|a| bj(&a.inner().octets())).unwrap_or(json!([]))).collect();
            (own(a, w), json!({"n": bj(&n.to_be_bytes()), "un": bj(&Aaaa::from(n).inner().octets()), "ip": bj(&Aaaa::from(*a.inner()).inner().octets()),
                    "in": bj(&a.clone().into_inner().octets()), "t": t}))
        }
        RecordData::PTR(p) => (own(p, w), json!({"in": nj(&p.clone().into_inner())})),
        RecordData::NS(x) => (own(x, w), json!({})),
        RecordData::CNAME(x) => (own(x, w), json!({})),
        RecordData::SOA(x) => (own(x, w), json!({})),
        RecordData::NULL(x) => (own(x, w), json!({})),
        RecordData::WKS(x) => (own(x, w), json!({})),
        RecordData::HINFO(x) => (own(x, w), json!({})),
        RecordData::MINFO(x) => (own(x, w), json!({})),
        RecordData::MX(x) => (own(x, w), json!({})),
        RecordData::TXT(x) => (own(x, w), json!({})),
        RecordData::LOC(x) => (own(x, w), json!({})),
        RecordData::SRV(x) => (own(x, w), json!({})),
        RecordData::NAPTR(x) => (own(x, w), json!({})),
        RecordData::OPT(x) => (own(x, w), json!({})),
        RecordData::APL(x) => (own(x, w), json!({})),
        RecordData::SSHFP(x) => (own(x, w), json!({})),
        RecordData::IPSECKEY(x) => (own(x, w), json!({"gt": x.gateway.gateway_type()})),
        RecordData::DHCID(x) => (own(x, w), json!({})),
        RecordData::TLSA(x) => (own(x, w), json!({})),
        RecordData::HIP(x) => (own(x, w), json!({})),
        RecordData::OPENPGPKEY(x) => (own(x, w), json!({})),
        RecordData::CSYNC(x) => {
            let mut f = x.flags;
            let obs = |f: CsyncFlags| json!([f.immediate() as u8, f.soa_minimum() as u8, u16::from(f)]);
            let mut steps = vec![obs(f)];
            for o in c["ops"].as_array().unwrap() {
                if o[0] == "i" {
                    f.set_immediate(ju(&o[1]) != 0);
                } else {
                    f.set_soa_minimum(ju(&o[1]) != 0);
                }
                steps.push(obs(f));
            }
            (own(x, w), json!({"fl": steps, "new": obs(CsyncFlags::new())}))
        }
        RecordData::SVCB(x) => (own(x, w), json!({"alias": matches!(x.mode(), SvcbMode::Alias)})),
        RecordData::EUI48(x) => (own(x, w), json!({})),
        RecordData::EUI64(x) => (own(x, w), json!({})),
        RecordData::TKEY(x) => (own(x, w), json!({})),
        RecordData::TSIG(x) => (own(x, w), json!({})),
        RecordData::URI(x) => (own(x, w), json!({})),
        RecordData::CAA(x) => (own(x, w), json!({})),
        #[cfg(feature = "dnssec")]
        RecordData::DS(x) | RecordData::CDS(x) => (own(x, w), json!({"hex": bj(x.hex_digest().as_bytes())})),
        #[cfg(feature = "dnssec")]
        RecordData::DNSKEY(x) | RecordData::CDNSKEY(x) => {
            (own(x, w), json!({"b64": bj(x.base64_public_key().as_bytes()), "pr": x.protocol(), "vp": x.valid_protocol()}))
        }
        #[cfg(feature = "dnssec")]
        RecordData::RRSIG(x) => {
            (own(x, w), json!({"b64": bj(x.base64_signature().as_bytes()), "sig": bj(x.signature()), "kt": x.key_tag()}))
        }
        #[cfg(feature = "dnssec")]
        RecordData::NSEC(x) => (own(x, w), json!({})),
    };
    json!({"o": o, "x": x, "w": bj(&d.to_bytes()), "bs": d.byte_size()})
}

// ---- questions and records edited in place ----

fn label_edit(n: &mut FQDN, o: &[Value]) {
    match o[0].as_str().unwrap() {
        "app" => n.append_label(std::str::from_utf8(&jb(&o[1])).expect("label")),
        _ => {
            if let Some(l) = n.iter_mut().nth(ju(&o[1]) as usize) {
                *l = jb(&o[2]);
            }
        }
    }
}
/// [a == b, b == a, a != b, b != a, a is itself, a is its copy, b is its copy]
#[allow(clippy::eq_op)]
fn cmp<T: PartialEq + Clone>(a: &T, b: &T) -> Value {
    let ca = a.clone();
    let cb = b.clone();
    json!([a == b, b == a, a != b, b != a, a == a && !(a != a), *a == ca && ca == *a && ca == *a, cb == *b && !(*b != cb), ca == cb])
}
fn eq(c: &Value) -> Value {
    phase("build");
    let (a, b) = (&c["a"], &c["b"]);
    match c["kind"].as_str().unwrap() {
        "q" => {
            let (x, y) = (q_to(a), q_to(b));
            phase("op");
            let back = |q: &Question| Question::try_from(&mut DnsBuffer::from(q.to_bytes().as_slice())).ok();
            let (bx, by) = (back(&x), back(&y));
            let own = [bx.as_ref() == Some(&x), by.as_ref() == Some(&y)];
            json!({"c": cmp(&x, &y), "own": own, "back": [bx == by, by == bx]})
        }
        "r" => {
            let (x, y) = (rr_to(a), rr_to(b));
            phase("op");
            let back = |q: &ResourceRecord| ResourceRecord::try_from(&mut DnsBuffer::from(q.to_bytes().as_slice())).ok();
            let (bx, by) = (back(&x), back(&y));
            let own = [bx.as_ref() == Some(&x), by.as_ref() == Some(&y)];
            json!({"c": cmp(&x, &y), "own": own, "back": [bx == by, by == bx]})
        }
        "d" => {
            let (x, y) = (rdata_to(a), rdata_to(b));
            phase("op");
            json!({"c": cmp(&x, &y), "own": [true, true], "back": [x == y, y == x]})
        }
        _ => {
            let how = ju(&c["how"]);
            let (x, y) = (packet_to(a, how), packet_to(b, how));
            phase("op");
            let back = |v: Vec<u8>| Packet::try_from(v.as_slice()).ok();
            let (px, py) = (back(x.to_bytes()), back(y.to_bytes()));
            let (zx, zy) = (back(x.to_bytes_compressed()), back(y.to_bytes_compressed()));
            json!({"c": cmp(&x, &y), "own": [px == zx && zx == px, py == zy && zy == py], "back": [px == py, zy == zx]})
        }
    }
}
fn hash(s: &str) -> String {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    h.write(s.as_bytes());
    format!("{:016x}", h.finish())
}
/// What a call returns, as a digest; a panic counts as a result.
pub fn call(v: &Value) -> String {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(v["k"].as_str().unwrap(), &v["c"])));
    match r {
        Ok(mut o) => {
            if let Some(m) = o.as_object_mut() {
                for k in ["ms", "mem", "mem2", "kb"] {
                    m.remove(k);
                }
            }
            hash(&o.to_string())
        }
        Err(_) => "panic".into(),
    }
}
fn alone(v: &Value) -> String {
    use std::io::Write;
    let mut p = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("one")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("process in case");
    p.stdin.take().unwrap().write_all(v.to_string().as_bytes()).expect("pipe in case");
    let o = p.wait_with_output().expect("process in case");
    String::from_utf8_lossy(&o.stdout).trim().to_string()
}
/// Calls by several callers: each call alone in a process of its own, then the callers one after
/// another, then in threads at the same time.
fn mix(c: &Value) -> Value {
    phase("build");
    let calls = c["calls"].as_array().unwrap().clone();
    let seqs: Vec<Vec<usize>> = c["seqs"].as_array().unwrap().iter().map(|s| s.as_array().unwrap().iter().map(|i| ju(i) as usize - 1).collect()).collect();
    let rounds = ju(&c["rounds"]) as usize;
    let used: Vec<usize> = (0..calls.len()).filter(|i| seqs.iter().any(|s| s.contains(i))).collect();
    let refs: Vec<String> = (0..calls.len()).map(|i| if used.contains(&i) { alone(&calls[i]) } else { String::new() }).collect();
    phase("op");
    let mut runs: Vec<(usize, String)> = Vec::new();
    for s in &seqs {
        for &i in s {
            runs.push((i, call(&calls[i])));
        }
    }
    for s in seqs.iter().rev() {
        for &i in s.iter().rev() {
            runs.push((i, call(&calls[i])));
        }
    }
    let calls = std::sync::Arc::new(calls);
    let gate = std::sync::Arc::new(std::sync::Barrier::new(seqs.len()));
    let hs: Vec<_> = seqs
        .iter()
        .map(|s| {
            let (s, calls, gate) = (s.clone(), calls.clone(), gate.clone());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut out = Vec::new();
                    gate.wait();
                    let t0 = std::time::Instant::now();
                    for k in 0..rounds {
                        if k > 0 && t0.elapsed().as_millis() > 300 {
                            break;
                        }
                        for &i in &s {
                            out.push((i, call(&calls[i])));
                        }
                    }
                    out
                })
                .expect("thread in case")
        })
        .collect();
    for h in hs {
        runs.extend(h.join().expect("thread"));
    }
    runs.sort();
    runs.dedup();
    json!({"alone": refs, "runs": runs.iter().map(|(i, h)| json!([i + 1, h])).collect::<Vec<_>>()})
}
/// Reading operations on one packet, in the given order.
fn obs(c: &Value) -> Value {
    phase("build");
    let p = packet_to(&c["p"], ju(&c["how"]));
    let before = (p.clone(), packet_j(&p));
    phase("op");
    let mut out = Vec::new();
    for o in c["ops"].as_array().unwrap() {
        let recs = || p.answers().iter().chain(p.authorities()).chain(p.additionals());
        let s = match o.as_str().unwrap() {
            "plain" => hash(&bj(&p.to_bytes()).to_string()),
            "zip" => hash(&bj(&p.to_bytes_compressed()).to_string()),
            "size" => format!("{}", p.byte_size()),
            "debug" => hash(&format!("{:?}", p)),
            "read" => hash(&packet_j(&p).to_string()),
            "copy" => format!("{}", p.clone() == p),
            "raw" => hash(&json!(recs().map(|r| bj(&r.data_raw())).collect::<Vec<_>>()).to_string()),
            "one" => hash(&json!(recs().map(|r| bj(&r.to_bytes())).chain(p.questions().iter().map(|q| bj(&q.to_bytes()))).collect::<Vec<_>>()).to_string()),
            "names" => hash(&json!(recs().map(|r| r.name().to_string()).chain(p.questions().iter().map(|q| q.name().to_string())).collect::<Vec<_>>()).to_string()),
            "head" => hash(&bj(&p.header().to_bytes()).to_string()),
            k => panic!("unknown reading {} in case", k),
        };
        out.push(s);
    }
    json!({"r": out, "same": p == before.0 && packet_j(&p) == before.1})
}
fn edit_packet(pk: &Packet) -> (Value, Value) {
    (bj(&pk.to_bytes()), bj(&pk.to_bytes_compressed()))
}
fn edit_q_obs(q: &Question) -> Value {
    let v = q_j(q);
    let mut p = Packet::new_query(1, false);
    p.add_question(q.clone());
    p.add_question(q.clone());
    let (b, z) = edit_packet(&p);
    let fresh = q_to(&v);
    json!({"w": bj(&q.to_bytes()), "bs": q.byte_size(), "eq": fresh == *q && *q == fresh.clone() && !(fresh != *q), "b": b, "z": z, "pbs": p.byte_size(), "v": v})
}
fn edit_r_obs(r: &ResourceRecord) -> Value {
    let v = rr_j(r);
    let mut p = Packet::new_query(1, false);
    p.add_answer(r.clone());
    p.add_answer(r.clone());
    let (b, z) = edit_packet(&p);
    let fresh = rr_to(&v);
    json!({"w": bj(&r.to_bytes()), "bs": r.byte_size(), "eq": fresh == *r && *r == fresh.clone() && !(fresh != *r), "b": b, "z": z, "pbs": p.byte_size(),
           "raw": bj(&r.data_raw()), "td": rdata_j(&r.clone().take_data()), "v": v})
}
fn edit(c: &Value) -> Value {
    phase("build");
    let e = &c["init"];
    let ops = c["ops"].as_array().unwrap();
    let mut out = Vec::new();
    if c["kind"] == "q" {
        // the question stands in a packet between others
        let other = || Question::new(FQDN::new("other.test"), QType::ANY, QClass::CH);
        let mut p = Packet::with_questions(1, false, vec![other(), q_to(e), other()]);
        phase("op");
        out.push(edit_q_obs(&p.questions()[1]));
        for o in ops {
            let a = o.as_array().unwrap();
            let q = &mut p.questions_mut()[1];
            match a[0].as_str().unwrap() {
                "n" => q.set_name(nm(&a[1])),
                "t" => q.set_query_type(qt_of(ju(&a[1]))),
                "c" => q.set_class(qc_of(ju(&a[1]))),
                #[cfg(feature = "mdns")]
                "u" => q.set_unicast_response(ju(&a[1]) != 0),
                "app" | "lab" => {
                    let mut n = q.name().clone();
                    label_edit(&mut n, a);
                    q.set_name(n);
                }
                "clone" => {
                    let k = q.clone();
                    q.set_name(FQDN::new("changed.test"));
                    q.set_query_type(QType::SRV);
                    q.set_class(QClass::HS);
                    p.set_questions(vec![other(), k, other()]);
                }
                "rt" => {
                    let b = q.to_bytes();
                    *q = Question::try_from(&mut DnsBuffer::from(b.as_slice())).expect("question");
                }
                _ => panic!("edit"),
            }
            out.push(edit_q_obs(&p.questions()[1]));
        }
        let apart = p.questions().len() == 3 && p.questions()[0] == other() && p.questions()[2] == other();
        json!({"s": out, "apart": apart})
    } else {
        let mut r = rr_to(e);
        phase("op");
        out.push(edit_r_obs(&r));
        let mut apart = true;
        for o in ops {
            let a = o.as_array().unwrap();
            match a[0].as_str().unwrap() {
                "n" => r.set_name(nm(&a[1])),
                "t" => r.set_record_type(rt_of(ju(&a[1]))),
                "c" => r.set_class(rc_class(ju(&a[1]))),
                #[cfg(feature = "mdns")]
                "u" => r.set_cache_flush(ju(&a[1]) != 0),
                "ttl" => r.set_time_to_live(be(&a[1]) as u32),
                "d" => r.set_data(rdata_to(&a[1])),
                "dm" => *r.data_mut() = rdata_to(&a[1]),
                "im" => match (r.data_mut(), rdata_to(&a[1])) {
                    (RecordData::A(x), RecordData::A(y)) => *x.inner_mut() = y.into_inner(),
                    (RecordData::AAAA(x), RecordData::AAAA(y)) => *x.inner_mut() = y.into_inner(),
                    (RecordData::PTR(x), RecordData::PTR(y)) => *x.inner_mut() = y.into_inner(),
                    _ => (),
                },
                "app" | "lab" => {
                    let mut n = r.name().clone();
                    label_edit(&mut n, a);
                    r.set_name(n);
                }
                "clone" => {
                    let k = r.clone();
                    r.set_name(FQDN::new("changed.test"));
                    r.set_record_type(RecordType::NULL);
                    r.set_class(RecordClass::HS);
                    r.set_time_to_live(77);
                    r.set_data(A::new(std::net::Ipv4Addr::new(9, 9, 9, 9)).into_record_data());
                    r = k;
                }
                "dup" => {
                    let v = rr_j(&r);
                    let mut k = r.clone();
                    k.set_name(FQDN::new("changed.test"));
                    k.set_time_to_live(77);
                    *k.data_mut() = A::new(std::net::Ipv4Addr::new(9, 9, 9, 9)).into_record_data();
                    apart &= rr_j(&r) == v;
                }
                "rt" => {
                    let b = r.to_bytes();
                    r = ResourceRecord::try_from(&mut DnsBuffer::from(b.as_slice())).expect("record");
                }
                _ => panic!("edit"),
            }
            out.push(edit_r_obs(&r));
        }
        json!({"s": out, "apart": apart})
    }
}

// ---- histories over the sections of a packet; entries are numbered members of a fixed pool ----

fn pool_q(t: u64) -> Question {
    let types = [QType::A, QType::MX, QType::ANY, QType::SRV];
    Question::new(
        FQDN::new(&format!("q{}.pool.test", t)),
        types[t as usize % 4],
        QClass::IN,
    )
}
fn pool_r(t: u64) -> ResourceRecord {
    let n = FQDN::new(&format!("r{}.pool.test", t));
    let (ty, d) = match t % 4 {
        0 => (RecordType::A, A::new(std::net::Ipv4Addr::new(10, 0, 0, t as u8)).into_record_data()),
        1 => (RecordType::CNAME, Cname::new(FQDN::new("q1.pool.test")).into_record_data()),
        2 => (RecordType::TXT, Txt::new(vec![format!("text {}", t)]).into_record_data()),
        _ => (RecordType::MX, Mx::new(t as u16, FQDN::new("r0.pool.test")).into_record_data()),
    };
    ResourceRecord::new(n, ty, RecordClass::IN, 60 + t as u32, d)
}
/// The entries a history is about: eight of each kind, from the case or the fixed ones.
struct Pool {
    q: Vec<Question>,
    r: Vec<ResourceRecord>,
    qj: Vec<Value>,
    rj: Vec<Value>,
}
impl Pool {
    fn new(c: &Value) -> Pool {
        let (q, r): (Vec<_>, Vec<_>) = match c.get("pool") {
            Some(p) => (
                p["q"].as_array().unwrap().iter().map(q_to).collect(),
                p["r"].as_array().unwrap().iter().map(rr_to).collect(),
            ),
            None => ((0..8).map(pool_q).collect(), (0..8).map(pool_r).collect()),
        };
        assert!(q.len() == 8 && r.len() == 8);
        let (qj, rj): (Vec<_>, Vec<_>) = (q.iter().map(q_j).collect(), r.iter().map(rr_j).collect());
        let once = |v: &Vec<Value>| (0..8).all(|i| (0..i).all(|j| v[i] != v[j]));
        assert!(once(&qj) && once(&rj));
        Pool { q, r, qj, rj }
    }
    fn q(&self, t: u64) -> Question {
        self.q[t as usize].clone()
    }
    fn r(&self, t: u64) -> ResourceRecord {
        self.r[t as usize].clone()
    }
    fn tq(&self, q: &Question) -> i64 {
        let v = q_j(q);
        self.qj.iter().position(|x| *x == v).map(|t| t as i64).unwrap_or(-1)
    }
    fn tr(&self, r: &ResourceRecord) -> i64 {
        let v = rr_j(r);
        self.rj.iter().position(|x| *x == v).map(|t| t as i64).unwrap_or(-1)
    }
    fn trs(&self, r: &[ResourceRecord]) -> Vec<i64> {
        r.iter().map(|r| self.tr(r)).collect()
    }
    fn tqs(&self, q: &[Question]) -> Vec<i64> {
        q.iter().map(|q| self.tq(q)).collect()
    }
    fn toks(&self, p: &Packet) -> Value {
        json!([self.tqs(p.questions()), self.trs(p.answers()), self.trs(p.authorities()), self.trs(p.additionals())])
    }
}
fn hist_obs(pl: &Pool, p: &Packet, ret: Value) -> Value {
    let b = p.to_bytes();
    let z = p.to_bytes_compressed();
    let cnt = |x: &[u8]| -> Value {
        if x.len() < 12 {
            return json!([]);
        }
        json!((0..4).map(|i| u16::from_be_bytes([x[4 + 2 * i], x[5 + 2 * i]])).collect::<Vec<_>>())
    };
    let rp = |x: &[u8]| match Packet::try_from(x) {
        Ok(q) => json!({"s": pl.toks(&q), "id": u16j(q.id()), "fl": flags_j(&q)}),
        Err(e) => err(&e),
    };
    json!({"s": pl.toks(p), "id": u16j(p.id()), "fl": flags_j(p), "pc": cnt(&b), "zc": cnt(&z),
           "rp": rp(&b), "rz": rp(&z), "ret": ret, "bs": [p.byte_size(), b.len()]})
}
fn hist(c: &Value) -> Value {
    phase("build");
    let pl = Pool::new(c);
    let init = &c["init"];
    let id = ju(&init[1]) as u16;
    let mut p = match init[0].as_str().unwrap() {
        "q" => Packet::new_query(id, ju(&init[2]) != 0),
        "r" => Packet::new_reply(id),
        "d" => Packet::default(),
        "w" => Packet::with_questions(
            id,
            ju(&init[2]) != 0,
            init[3].as_array().unwrap().iter().map(|t| pl.q(ju(t))).collect(),
        ),
        _ => panic!("init"),
    };
    phase("op");
    let mut out = vec![hist_obs(&pl, &p, json!([]))];
    let rs = |v: &Value| -> Vec<ResourceRecord> { v.as_array().unwrap().iter().map(|t| pl.r(ju(t))).collect() };
    for o in c["ops"].as_array().unwrap() {
        let mut ret = json!([]);
        match o[0].as_str().unwrap() {
            "addq" => p.add_question(pl.q(ju(&o[1]))),
            "setq" => p.set_questions(o[1].as_array().unwrap().iter().map(|t| pl.q(ju(t))).collect()),
            "takeq" => ret = json!(pl.tqs(&p.take_questions())),
            "qpush" => p.questions_mut().push(pl.q(ju(&o[1]))),
            "qpop" => ret = json!(p.questions_mut().pop().iter().map(|q| pl.tq(q)).collect::<Vec<_>>()),
            "qclear" => p.questions_mut().clear(),
            "qins" => p.questions_mut().insert(0, pl.q(ju(&o[1]))),
            "add" => {
                for _ in 0..ju(&o[3]) {
                    let r = pl.r(ju(&o[2]));
                    match ju(&o[1]) {
                        1 => p.add_answer(r),
                        2 => p.add_authority(r),
                        _ => p.add_additional(r),
                    }
                }
            }
            "set" => match ju(&o[1]) {
                1 => p.set_answers(rs(&o[2])),
                2 => p.set_authorities(rs(&o[2])),
                _ => p.set_additionals(rs(&o[2])),
            },
            "take" => {
                let t = match ju(&o[1]) {
                    1 => p.take_answers(),
                    2 => p.take_authorities(),
                    _ => p.take_additionals(),
                };
                ret = json!(pl.trs(&t));
            }
            "hq" => p.set_header(Header::new_query(ju(&o[1]) as u16, ju(&o[2]) != 0)),
            "hr" => p.set_header(Header::new_reply(ju(&o[1]) as u16, op_of(ju(&o[2])))),
            "hp" => {
                // header of another packet that has entries of its own
                let mut q = Packet::new_reply(ju(&o[1]) as u16);
                for _ in 0..ju(&o[2]) {
                    q.add_question(pl.q(0));
                    q.add_answer(pl.r(0));
                    q.add_authority(pl.r(0));
                    q.add_additional(pl.r(0));
                }
                p.set_header(q.header().clone());
            }
            "hx" => {
                // header with counts of its own, read from the wire
                let n = jb(&o[2]);
                let b = [n[0], n[1], 0x84, 0, n[2], n[3], n[4], n[5], n[6], n[7], n[8], n[9]];
                p.set_header(Header::try_from(&mut DnsBuffer::from(&b[..])).expect("header"));
                p.set_id(ju(&o[1]) as u16);
            }
            "hw" => {
                // header with any flags and counts, read from the wire
                let n = jb(&o[3]);
                let f: Vec<u8> = o[2].as_array().unwrap().iter().map(|x| ju(x) as u8).collect();
                let hi = f[0] << 7 | f[1] << 3 | f[2] << 2 | f[3] << 1 | f[4];
                let lo = f[5] << 7 | f[6];
                let id = (ju(&o[1]) as u16).to_be_bytes();
                let b = [id[0], id[1], hi, lo, n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7]];
                p.set_header(Header::try_from(&mut DnsBuffer::from(&b[..])).expect("header"));
            }
            "hf" => {
                // the own header with one field changed
                let mut h = p.header().clone();
                hflag_op(&mut h, o[1].as_str().unwrap(), ju(&o[2]));
                p.set_header(h);
            }
            "fl" => flag_op(&mut p, o[1].as_str().unwrap(), ju(&o[2])),
            "clone" => {
                // go on with the clone; the original is emptied and must not matter
                let q = p.clone();
                let same = q == p;
                p.take_questions();
                p.take_answers();
                p.take_authorities();
                p.take_additionals();
                p.add_question(pl.q(7));
                p.set_id(0xFFFF);
                p.set_opcode(OpCode::Reserved);
                p = q;
                ret = json!([same as u8]);
            }
            "dup" => {
                // change a clone; the original must not notice
                let mut q = p.clone();
                q.add_answer(pl.r(7));
                q.take_questions();
                q.set_truncation(!q.truncation());
                q.set_id(1);
            }
            "rt" => {
                if let Ok(q) = Packet::try_from(p.to_bytes().as_slice()) {
                    p = q;
                    ret = json!([1]);
                }
            }
            "rz" => {
                if let Ok(q) = Packet::try_from(p.to_bytes_compressed().as_slice()) {
                    p = q;
                    ret = json!([1]);
                }
            }
            _ => panic!("history op"),
        }
        out.push(hist_obs(&pl, &p, ret));
    }
    json!(out)
}

// ---- code tables ----

fn table(tab: &str, n: u16) -> Result<Vec<u16>, DnsError> {
    let b = n as u8;
    macro_rules! t16 {
        ($ty:ty) => {{
            let v = <$ty>::try_from(n)?;
            vec![u16::from(v)]
        }};
    }
    macro_rules! t8 {
        ($ty:ty) => {{
            let v = <$ty>::try_from(b)?;
            vec![u8::from(v) as u16]
        }};
    }
    fn tail(v: RecordData, at: usize, w: usize) -> u16 {
        let b = v.to_bytes();
        b[at..at + w].iter().fold(0, |a, x| (a << 8) | *x as u16)
    }
    fn rdp(t: RecordType, b: &[u8], at: usize, w: usize) -> Result<Vec<u16>, DnsError> {
        Ok(vec![tail(RecordData::from(t, &mut DnsBuffer::from(b))?, at, w)])
    }
    let h = n.to_be_bytes();
    Ok(match tab {
        "rtype" => {
            let v = RecordType::try_from(n)?;
            let w = v.to_bytes();
            vec![u16::from(v), v as u16, u16::from_be_bytes([w[0], w[1]]), rt_n(v)]
        }
        "qtype" => {
            let v = QType::try_from(n)?;
            let w = v.to_bytes();
            vec![u16::from(v), v as u16, u16::from_be_bytes([w[0], w[1]]), qt_n(v)]
        }
        "qclass" => {
            let v = QClass::try_from(n)?;
            let w = v.to_bytes();
            vec![u16::from(v), v as u16, u16::from_be_bytes([w[0], w[1]]), qc_n(v)]
        }
        "rclass" => {
            let v = RecordClass::from(n);
            let w = v.to_bytes();
            let own = match v {
                RecordClass::IN => 1,
                RecordClass::CS => 2,
                RecordClass::CH => 3,
                RecordClass::HS => 4,
                // a payload size is never one of the four class numbers
                RecordClass::UdpPayloadSize(n) => if (1..=4).contains(&n) { 0xFFFF } else { n },
            };
            vec![u16::from(v), u16::from_be_bytes([w[0], w[1]]), own]
        }
        "opcode" => vec![op_n(OpCode::from(b)) as u16],
        "rcode" => {
            let v = ResponseCode::try_from(b)?;
            vec![v as u8 as u16, rc_n(v) as u16]
        }
        "sshalg" => { let mut r = t8!(Algorithm); r.push(al_n(Algorithm::try_from(b)?) as u16); r }
        "fptype" => { let mut r = t8!(sshfp::FingerprintType); r.push(fp_n(sshfp::FingerprintType::try_from(b)?) as u16); r }
        "ident" => { let mut r = t16!(dhcid::IdentifierType); r.push(id_n(dhcid::IdentifierType::try_from(n)?)); r }
        "naptr" => { let mut r = t8!(naptr::Flag); r.push(nf_n(naptr::Flag::try_from(b)?) as u16); r }
        "tkmode" => { let mut r = t16!(tkey::Mode); r.push(km_n(tkey::Mode::try_from(n)?)); r }
        "tkerr" => { let mut r = t16!(tkey::Error); r.push(ke_n(tkey::Error::try_from(n)?)); r }
        "tserr" => { let mut r = t16!(tsig::Error); r.push(te_n(tsig::Error::try_from(n)?)); r }
        "tlsause" => { let mut r = t8!(tlsa::CertUsage); r.push(cu_n(tlsa::CertUsage::try_from(b)?) as u16); r }
        "tlsasel" => { let mut r = t8!(tlsa::Selector); r.push(ts_n(tlsa::Selector::try_from(b)?) as u16); r }
        "tlsamat" => { let mut r = t8!(tlsa::MatchingType); r.push(tm_n(tlsa::MatchingType::try_from(b)?) as u16); r }
        "svckey" => { let mut r = t16!(ParamKey); r.push(pk_n(ParamKey::try_from(n)?)); r }
        "csync" => t16!(CsyncFlags),
        "gw" => rdp(RecordType::IPSECKEY, &[1, b, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9], 1, 1)?,
        "aplfam" => rdp(RecordType::APL, &[h[0], h[1], 0, 0], 0, 2)?,
        "dhdig" => rdp(RecordType::DHCID, &[0, 0, b, 1, 2], 2, 1)?,
        #[cfg(feature = "dnssec")]
        "dsalg" => { let mut r = t8!(DnssecAlgorithm); r.push(da_n(DnssecAlgorithm::try_from(b)?) as u16); r }
        #[cfg(feature = "dnssec")]
        "digest" => { let mut r = t8!(DigestType); r.push(dt_n(DigestType::try_from(b)?) as u16); r }
        _ => panic!("table {}", tab),
    })
}
fn code(c: &Value) -> Value {
    phase("op");
    let tab = c["tab"].as_str().unwrap();
    let (lo, hi) = (ju(&c["lo"]) as u32, ju(&c["hi"]) as u32);
    let mut acc = Vec::new();
    // runs of rejected numbers: [first, last, error kind, error carries the number]
    let mut rej: Vec<(u32, u32, String, bool)> = Vec::new();
    for n in lo..=hi {
        match table(tab, n as u16) {
            Ok(v) => acc.push(json!([n, v])),
            Err(e) => {
                let v = err(&e);
                let (k, ok) = (v["e"].as_str().unwrap().to_string(), v["n"].as_i64() == Some(n as i64));
                match rej.last_mut() {
                    Some(l) if l.1 + 1 == n && l.2 == k && l.3 == ok => l.1 = n,
                    _ => rej.push((n, n, k, ok)),
                }
            }
        }
    }
    json!({"acc": acc, "rej": rej.iter().map(|r| json!([r.0, r.1, r.2, r.3])).collect::<Vec<_>>()})
}

fn rd(c: &Value) -> Value {
    let (pre, d, post) = (jb(&c["pre"]), jb(&c["d"]), jb(&c["post"]));
    let mut b = pre.clone();
    b.extend(&d);
    b.extend(&post);
    let t = rt_of(ju(&c["t"]));
    phase("parse");
    let mut buf = DnsBuffer::from(b.as_slice());
    buf.set_position(pre.len()).expect("position");
    let base = mem_reset();
    let r = {
        let mut sub = buf.sub_buffer(d.len()).expect("sub buffer");
        RecordData::from(t, &mut sub)
    };
    let kb = mem_peak(base) / 1024;
    match r {
        Err(e) => {
            let mut v = err(&e);
            v["kb"] = json!(kb);
            v["ch"] = json!(causes(&e));
            v
        }
        Ok(v) => {
            let vj = rdata_j(&v);
            phase("render");
            let _ = format!("{:?}", v);
            phase("size");
            let bs = v.byte_size();
            phase("reser");
            let w = v.to_bytes();
            phase("reparse");
            let r2 = match RecordData::from(t, &mut DnsBuffer::from(w.as_slice())) {
                Ok(v2) => json!({"v": rdata_j(&v2)}),
                Err(e) => err(&e),
            };
            json!({"v": vj, "bs": bs, "w": bj(&w), "r2": r2, "kb": kb})
        }
    }
}

fn class_of(c: u64) -> RecordClass {
    match c {
        1 => RecordClass::IN,
        2 => RecordClass::CS,
        3 => RecordClass::CH,
        4 => RecordClass::HS,
        n => RecordClass::UdpPayloadSize(n as u16),
    }
}

fn rrset(c: &Value) -> Value {
    phase("build");
    let n = nm(&c["n"]);
    let ds: Vec<RecordData> = c["ds"].as_array().unwrap().iter().map(rdata_to).collect();
    let mut out = Vec::new();
    for perm in c["perms"].as_array().unwrap() {
        let recs: Vec<&RecordData> = perm.as_array().unwrap().iter().map(|i| &ds[ju(i) as usize]).collect();
        let mut s = ResourceRecordSet::new(
            &n,
            rt_of(ju(&c["t"])),
            class_of(ju(&c["c"])),
            be(&c["ttl"]) as u32,
            recs,
        );
        phase("plain");
        let b = s.to_bytes();
        phase("size");
        let bs = s.byte_size();
        phase("op");
        s.canonical_reorder();
        let ord: Vec<Value> = s.records().iter().map(|r| bj(&r.to_bytes())).collect();
        let idx: Vec<i64> = s
            .records()
            .iter()
            .map(|r| ds.iter().position(|d| std::ptr::eq(d, *r)).map(|x| x as i64).unwrap_or(-1))
            .collect();
        let b2 = s.to_bytes();
        out.push(json!({"b": bj(&b), "bs": bs, "ord": ord, "idx": idx, "same": b2 == b,
            "acc": nj(s.name()) == c["n"] && rt_n(s.set_type()) as u64 == ju(&c["t"])
                && s.set_class() == class_of(ju(&c["c"])) && s.ttl() == be(&c["ttl"]) as u32}));
    }
    json!(out)
}

// ---- names ----

fn fq_obs(n: &FQDN) -> Value {
    let txt = format!("{}", n);
    let mut it: Vec<Value> = n.into_iter().map(|l| bj(l)).collect();
    if n.clone().into_iter().map(|l| bj(&l)).collect::<Vec<_>>() != it {
        it = vec![];
    }
    json!({"l": nj(n), "it": it, "len": n.len(), "bs": n.byte_size(), "lc": n.label_count(), "root": n.is_root(),
           "ll": n.is_link_local(), "em": n.is_empty(), "txt": bj(txt.as_bytes()), "w": bj(&n.to_bytes())})
}
/// Build the same name in different ways.
fn fq(c: &Value) -> Value {
    phase("build");
    let labels: Vec<Vec<u8>> = c["l"].as_array().unwrap().iter().map(jb).collect();
    let mut out = serde_json::Map::new();
    out.insert("vec".into(), fq_obs(&FQDN::from(labels.clone())));
    out.insert("sl".into(), fq_obs(&FQDN::from(labels.as_slice())));
    if let Ok(strs) = labels.iter().map(|l| std::str::from_utf8(l)).collect::<Result<Vec<_>, _>>() {
        out.insert("strs".into(), fq_obs(&FQDN::from(strs.as_slice())));
        let mut n = FQDN::default();
        for s in &strs {
            n.append_label(s);
        }
        out.insert("app".into(), fq_obs(&n));
        let mut n = FQDN::new(strs.first().copied().unwrap_or(""));
        if !strs.first().map(|s| s.contains('.')).unwrap_or(false) {
            for s in strs.iter().skip(1) {
                n.append_label(s);
            }
            out.insert("mix".into(), fq_obs(&n));
        }
        let mut n = FQDN::from(labels.clone());
        for l in &mut n {
            l.reverse();
        }
        for l in n.iter_mut() {
            l.reverse();
        }
        out.insert("mut".into(), fq_obs(&n));
    }
    if c["txt"].as_array().map(|a| !a.is_empty()).unwrap_or(false) || labels.is_empty() {
        let t = String::from_utf8(jb(&c["txt"])).expect("text");
        out.insert("new".into(), fq_obs(&FQDN::new(&t)));
        out.insert("from".into(), fq_obs(&FQDN::from(t.as_str())));
    }
    let mut w = Vec::new();
    for l in &labels {
        if !l.is_empty() {
            w.push(l.len() as u8);
            w.extend(l);
        }
    }
    w.push(0);
    if w.len() <= 255 && labels.iter().all(|l| l.len() < 64) {
        phase("parse");
        if let Ok(n) = FQDN::try_from(&mut DnsBuffer::from(w.as_slice())) {
            out.insert("wire".into(), fq_obs(&n));
        }
    }
    Value::Object(out)
}
fn fcmp(c: &Value) -> Value {
    phase("op");
    let (a, b) = (nm(&c["a"]), nm(&c["b"]));
    let o = |x: std::cmp::Ordering| match x {
        std::cmp::Ordering::Less => -1,
        std::cmp::Ordering::Equal => 0,
        std::cmp::Ordering::Greater => 1,
    };
    json!({"eq": a == b, "ne": a != b, "cmp": o(a.cmp(&b)), "pc": a.partial_cmp(&b).map(o).unwrap_or(9),
           "lt": a < b, "rev": o(b.cmp(&a)), "cl": a.clone() == a})
}

fn sha(kind: u64, d: &[u8]) -> Vec<u8> {
    use ring::digest::*;
    let a = match kind {
        1 => &SHA1_FOR_LEGACY_USE_ONLY,
        2 => &SHA256,
        4 => &SHA384,
        _ => &SHA512,
    };
    digest(a, d).as_ref().to_vec()
}

fn dhcid_(c: &Value) -> Value {
    phase("build");
    let n = nm(&c["n"]);
    let ident = jb(&c["id"]);
    phase("op");
    let d = Dhcid::new(id_of(ju(&c["code"])), &ident, &n);
    json!({"v": rdata_j(&RecordData::DHCID(d)), "want": bj(&sha(2, &jb(&c["pre"])))})
}

#[cfg(feature = "dnssec")]
fn ds(c: &Value) -> Value {
    phase("build");
    let n = nm(&c["n"]);
    let k = key_to(c["key"].as_array().unwrap());
    phase("op");
    let r = Ds::try_from_dnskey(&n, &k, dt_of(ju(&c["dt"])));
    let want = bj(&sha(ju(&c["dt"]), &jb(&c["pre"])));
    match r {
        Ok(d) => {
            let hex = d.hex_digest();
            json!({"v": rdata_j(&RecordData::DS(d)), "want": want, "hex": hex, "wl": k.to_bytes().len()})
        }
        Err(e) => {
            let mut v = err(&e);
            v["want"] = want;
            v
        }
    }
}

#[cfg(feature = "dnssec")]
fn sign(c: &Value) -> Value {
    use std::time::{Duration, UNIX_EPOCH};
    phase("build");
    let t = |v: &Value| UNIX_EPOCH + Duration::new(be(&v[0]), be(&v[1]) as u32);
    let alg = ju(&c["alg"]);
    let key = |pk: &Value| {
        let mut k = DnsKey::new(da_of(alg), jb(pk));
        k.zone_key = true;
        k.secure_entry_point = ju(&c["sep"]) != 0;
        k
    };
    let k = key(&c["pk"]);
    let with = |s: &Value, f: &dyn Fn(&ResourceRecordSet) -> Value| -> Value {
        let n = nm(&s["n"]);
        let ds: Vec<RecordData> = s["ds"].as_array().unwrap().iter().map(rdata_to).collect();
        let set = ResourceRecordSet::new(
            &n,
            rt_of(ju(&s["t"])),
            class_of(ju(&s["c"])),
            be(&s["ttl"]) as u32,
            ds.iter().collect(),
        );
        f(&set)
    };
    phase("op");
    let made = std::cell::RefCell::new(None);
    let first = with(&c["set"], &|s| {
        match Rrsig::from_dnskey(&k, s, &t(&c["inc"]), &t(&c["exp"]), &jb(&c["sk"])) {
            Ok(r) => {
                let v = json!({"f": rrsig_fields(&r).unwrap_or(json!([])), "kt": r.key_tag()});
                *made.borrow_mut() = Some(r);
                v
            }
            Err(e) => err(&e),
        }
    });
    let made = made.into_inner();
    let Some(r) = made else {
        return json!({"sig": first, "at": []});
    };
    phase("verify");
    let mut out = Vec::new();
    let base = rrsig_fields(&r).unwrap_or(json!([]));
    for a in c["at"].as_array().unwrap() {
        // an attempt: a record set, replaced fields of the signature record, a public key
        let mut f = base.clone();
        for o in a["rf"].as_array().unwrap() {
            f[ju(&o[0]) as usize] = o[1].clone();
        }
        let mut sig = jb(&f[8]);
        for o in a["sg"].as_array().unwrap() {
            match o[0].as_str().unwrap() {
                "flip" => {
                    let i = ju(&o[1]) as usize % (sig.len() * 8);
                    sig[i / 8] ^= 1 << (i % 8);
                }
                "cut" => {
                    sig.pop();
                }
                "ext" => sig.push(0),
                "zero" => sig.iter_mut().for_each(|x| *x = 0),
                "empty" => sig.clear(),
                _ => panic!("sig op"),
            }
        }
        f[8] = bj(&sig);
        let rec = match rdata_to(&json!({"t": 46, "f": f})) {
            RecordData::RRSIG(x) => x,
            _ => unreachable!(),
        };
        let kk = key(&a["pk"]);
        let res = with(&a["set"], &|s| match rec.verify(&kk, s) {
            Ok(true) => json!("T"),
            Ok(false) => json!("F"),
            Err(_) => json!("E"),
        });
        out.push(json!({"f": f, "r": res}));
    }
    // the untouched value itself, without taking it apart
    let own = with(&c["set"], &|s| json!(matches!(r.verify(&k, s), Ok(true))));
    // the same signature scheme without the library, over what the standard says is signed
    let pre = jb(&c["pre"]);
    let (mut ind, mut foreign) = (true, true);
    if !pre.is_empty() && base.as_array().map_or(false, |f| f.len() == 9) {
        phase("build");
        ind = elsewhere::verify(alg, &jb(&c["pk"]), &pre, &jb(&base[8])).unwrap_or(false);
        let s = elsewhere::sign(alg, &jb(&c["sk"]), &pre);
        if !elsewhere::verify(alg, &jb(&c["pk"]), &pre, &s).unwrap_or(false) {
            panic!("independent signature");
        }
        let mut f = base.clone();
        f[8] = bj(&s);
        phase("verify");
        if let RecordData::RRSIG(x) = rdata_to(&json!({"t": 46, "f": f})) {
            foreign = with(&c["set"], &|s| json!(matches!(x.verify(&k, s), Ok(true)))) == json!(true);
        }
    }
    json!({"sig": first, "at": out, "own": own, "ind": ind, "for": foreign})
}

/// Signature schemes of RFC 2536, 2537, 3110, 5702, 6605 and 8080, apart from the library under test.
#[cfg(feature = "dnssec")]
mod elsewhere {
    use rsa::BigUint;

    fn hash(alg: u64, d: &[u8]) -> (Vec<u8>, &'static [u8]) {
        use ring::digest::{digest, SHA1_FOR_LEGACY_USE_ONLY, SHA256, SHA512};
        match alg {
            1 => {
                use md5::Digest;
                (md5::Md5::digest(d).to_vec(), b"\x30\x20\x30\x0c\x06\x08\x2a\x86\x48\x86\xf7\x0d\x02\x05\x05\x00\x04\x10")
            }
            8 => (digest(&SHA256, d).as_ref().to_vec(), b"\x30\x31\x30\x0d\x06\x09\x60\x86\x48\x01\x65\x03\x04\x02\x01\x05\x00\x04\x20"),
            10 => (digest(&SHA512, d).as_ref().to_vec(), b"\x30\x51\x30\x0d\x06\x09\x60\x86\x48\x01\x65\x03\x04\x02\x03\x05\x00\x04\x40"),
            _ => (digest(&SHA1_FOR_LEGACY_USE_ONLY, d).as_ref().to_vec(), b"\x30\x21\x30\x09\x06\x05\x2b\x0e\x03\x02\x1a\x05\x00\x04\x14"),
        }
    }

    fn padded(alg: u64, d: &[u8], n: usize) -> Vec<u8> {
        let (h, p) = hash(alg, d);
        let mut em = vec![0, 1];
        em.resize(n - h.len() - p.len() - 1, 255);
        em.push(0);
        em.extend_from_slice(p);
        em.extend_from_slice(&h);
        em
    }

    fn fixed(v: &BigUint, n: usize) -> Vec<u8> {
        let b = v.to_bytes_be();
        let mut o = vec![0; n - b.len()];
        o.extend_from_slice(&b);
        o
    }

    pub fn verify(alg: u64, pk: &[u8], d: &[u8], sig: &[u8]) -> Option<bool> {
        use ring::signature::{UnparsedPublicKey, ECDSA_P256_SHA256_FIXED, ECDSA_P384_SHA384_FIXED, ED25519};
        let ec = || [&[4u8][..], pk].concat();
        match alg {
            1 | 5 | 8 | 10 => {
                let l = *pk.first()? as usize;
                let (e, n) = (pk.get(1..1 + l)?, pk.get(1 + l..)?);
                let m = BigUint::from_bytes_be(sig).modpow(&BigUint::from_bytes_be(e), &BigUint::from_bytes_be(n));
                Some(sig.len() == n.len() && m == BigUint::from_bytes_be(&padded(alg, d, n.len())))
            }
            3 => {
                let l = 64 + 8 * *pk.first()? as usize;
                let num = |a: usize, n: usize| pk.get(a..a + n).map(BigUint::from_bytes_be);
                let (q, p, g, y) = (num(1, 20)?, num(21, l)?, num(21 + l, l)?, num(21 + 2 * l, l)?);
                if sig.len() != 41 || sig[0] != pk[0] {
                    return Some(false);
                }
                let (r, s) = (BigUint::from_bytes_be(&sig[1..21]), BigUint::from_bytes_be(&sig[21..41]));
                let two = BigUint::from(2u8);
                let w = s.modpow(&(&q - &two), &q);
                let h = BigUint::from_bytes_be(&hash(3, d).0);
                let v = (g.modpow(&(h * &w % &q), &p) * y.modpow(&(&r * &w % &q), &p)) % &p % &q;
                Some(v == r && s > BigUint::from(0u8))
            }
            13 => Some(UnparsedPublicKey::new(&ECDSA_P256_SHA256_FIXED, ec()).verify(d, sig).is_ok()),
            14 => Some(UnparsedPublicKey::new(&ECDSA_P384_SHA384_FIXED, ec()).verify(d, sig).is_ok()),
            15 => Some(UnparsedPublicKey::new(&ED25519, pk).verify(d, sig).is_ok()),
            16 => Some(crrl::ed448::PublicKey::decode(pk)?.verify_raw(sig, d)),
            _ => None,
        }
    }

    pub fn sign(alg: u64, sk: &[u8], d: &[u8]) -> Vec<u8> {
        use ring::signature::{EcdsaKeyPair, Ed25519KeyPair, ECDSA_P256_SHA256_FIXED_SIGNING, ECDSA_P384_SHA384_FIXED_SIGNING};
        let rng = ring::rand::SystemRandom::new();
        match alg {
            1 | 5 | 8 | 10 => {
                use rsa::pkcs8::DecodePrivateKey;
                use rsa::traits::{PrivateKeyParts, PublicKeyParts};
                let k = rsa::RsaPrivateKey::from_pkcs8_der(sk).unwrap();
                let n = (k.n().bits() + 7) / 8;
                fixed(&BigUint::from_bytes_be(&padded(alg, d, n)).modpow(k.d(), k.n()), n)
            }
            3 => {
                use dsa::pkcs8::DecodePrivateKey;
                let k = dsa::SigningKey::from_pkcs8_der(sk).unwrap();
                let vk = k.verifying_key();
                let cs = vk.components();
                let big = |v: &dsa::BigUint| BigUint::from_bytes_be(&v.to_bytes_be());
                let (p, q, g, x) = (big(cs.p()), big(cs.q()), big(cs.g()), big(k.x()));
                let h = BigUint::from_bytes_be(&hash(3, d).0);
                let nonce = (&h + BigUint::from(12345u32)) % &q + BigUint::from(1u8);
                let r = g.modpow(&nonce, &p) % &q;
                let s = nonce.modpow(&(&q - BigUint::from(2u8)), &q) * (h + x * &r) % &q;
                let t = ((p.bits() + 7) / 8 - 64) / 8;
                [vec![t as u8], fixed(&r, 20), fixed(&s, 20)].concat()
            }
            13 | 14 => {
                let a = if alg == 13 { &ECDSA_P256_SHA256_FIXED_SIGNING } else { &ECDSA_P384_SHA384_FIXED_SIGNING };
                EcdsaKeyPair::from_pkcs8(a, sk, &rng).unwrap().sign(&rng, d).unwrap().as_ref().to_vec()
            }
            15 => Ed25519KeyPair::from_pkcs8(sk).unwrap().sign(d).as_ref().to_vec(),
            _ => crrl::ed448::PrivateKey::decode(sk).unwrap().sign_raw(d).to_vec(),
        }
    }
}
