//! Looks for inputs worth a verdict: executes very many variations of given inputs and keeps those on which
//! the implementation contradicts itself (panics, does not read back what it wrote, announces other sizes),
//! and a few of every other kind of outcome. It decides nothing: what it keeps becomes ordinary cases.
use crate::conv::*;
use crate::tables::*;
use maybe_dns::rdata::*;
use maybe_dns::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

struct R(u64);
impl R {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    fn one(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    fn pick<T: Clone>(&mut self, x: &[T]) -> T {
        x[self.below(x.len())].clone()
    }
}

const I8: [u8; 30] = [
    0, 1, 2, 3, 4, 5, 7, 8, 9, 13, 15, 16, 17, 31, 32, 33, 46, 63, 64, 65, 126, 127, 128, 129, 191, 192, 193, 253, 254, 255,
];
const I16: [u16; 24] = [
    0, 1, 2, 3, 4, 8, 41, 127, 128, 255, 256, 257, 511, 512, 1024, 4096, 16383, 16384, 32767, 32768, 65280, 65281, 65534, 65535,
];
const I32: [u32; 20] = [
    0, 1, 127, 128, 255, 256, 4095, 32767, 32768, 65535, 65536, 604800, 0x00FFFFFF, 0x01000000, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000,
    0x80000001, 0xFFFFFFFE, 0xFFFFFFFF,
];

fn put(b: &mut [u8], at: usize, v: &[u8]) {
    for (i, x) in v.iter().enumerate() {
        if at + i < b.len() {
            b[at + i] = *x;
        }
    }
}
fn mutate(r: &mut R, b: &mut Vec<u8>, other: &[u8]) {
    let n = b.len();
    let at = r.below(n.max(1));
    match r.below(12) {
        0 | 1 if n > 0 => b[at] ^= 1 << r.below(8),
        2 if n > 0 => b[at] = r.next() as u8,
        3 | 4 if n > 0 => b[at] = r.pick(&I8),
        5 if n > 0 => b[at] = b[at].wrapping_add(r.pick(&[1, 2, 255, 254, 16])),
        6 if n > 1 => put(b, at, &r.pick(&I16).to_be_bytes()),
        7 if n > 3 => put(b, at, &r.pick(&I32).to_be_bytes()),
        8 => {
            let k = r.pick(&[1, 1, 2, 3, 4, 16]);
            let v: Vec<u8> = (0..k).map(|_| if r.one(2) { r.next() as u8 } else { r.pick(&I8) }).collect();
            let at = r.below(n + 1);
            b.splice(at..at, v);
        }
        9 if n > 0 => {
            let k = 1 + r.below(4.min(n - at));
            b.drain(at..at + k);
        }
        10 if n > 0 => {
            let k = 1 + r.below((n - at).min(12));
            let v = b[at..at + k].to_vec();
            let to = r.below(n + 1);
            if r.one(2) {
                b.splice(to..to, v);
            } else {
                put(b, to, &v);
            }
        }
        _ if !other.is_empty() => {
            let a = r.below(other.len());
            let k = 1 + r.below((other.len() - a).min(16));
            put(b, at, &other[a..a + k]);
        }
        _ => (),
    }
}

/// What was found, a few of each key.
struct Found {
    m: BTreeMap<String, (usize, Vec<Value>)>,
}
impl Found {
    fn add(&mut self, r: &mut R, key: String, cap: usize, v: impl FnOnce() -> Value) {
        let e = self.m.entry(key).or_insert((0, vec![]));
        e.0 += 1;
        if e.1.len() < cap {
            e.1.push(v());
        } else if cap > 0 {
            let j = r.below(e.0);
            if j < cap {
                e.1[j] = v();
            }
        }
    }
}

static SINCE: AtomicU64 = AtomicU64::new(0);

struct Run {
    r: R,
    f: Found,
    log: Option<String>,
}
impl Run {
    /// Runs one input; a panic is an outcome like others.
    fn go<T>(&mut self, case: impl FnOnce() -> Value, what: impl FnOnce() -> T) -> Option<T> {
        if let Some(l) = &self.log {
            std::fs::write(l, case().to_string()).unwrap();
        }
        SINCE.store(crate::now(), SeqCst);
        let t = catch_unwind(AssertUnwindSafe(what));
        SINCE.store(0, SeqCst);
        t.ok()
    }
}

fn kind(e: &DnsError) -> String {
    format!("{:?}", e).chars().take_while(|c| c.is_alphanumeric()).collect()
}

enum Out {
    Err(String),
    Same,
    Diff(String),
    Odd(&'static str),
}

fn try_rd(t: RecordType, d: &[u8], pre: &[u8], post: &[u8]) -> (Out, Option<RecordData>) {
    let mut b = pre.to_vec();
    b.extend(d);
    b.extend(post);
    let mut buf = DnsBuffer::from(b.as_slice());
    buf.set_position(pre.len()).unwrap();
    let mut sub = buf.sub_buffer(d.len()).unwrap();
    match RecordData::from(t, &mut sub) {
        Err(e) => (Out::Err(kind(&e)), None),
        Ok(v) => {
            let w = v.to_bytes();
            // the recorded finding about SVCB sizes would hide the rest
            if v.byte_size() != w.len() && t != RecordType::SVCB {
                return (Out::Odd("size"), None);
            }
            match RecordData::from(t, &mut DnsBuffer::from(w.as_slice())) {
                Ok(v2) if v2 == v => (),
                _ => return (Out::Odd("again"), None),
            }
            if w == d {
                (Out::Same, Some(v))
            } else {
                let at = w.iter().zip(d).take_while(|(a, b)| a == b).count().min(12);
                let by = (w.len() as i64 - d.len() as i64).clamp(-2, 2);
                (Out::Diff(format!("{}/{}", at, by)), None)
            }
        }
    }
}

fn hunt_rd(x: &mut Run, seeds: &[Value], iters: usize) -> Vec<(RecordType, RecordData)> {
    let mut good = vec![];
    let mut by: BTreeMap<u64, Vec<Vec<u8>>> = BTreeMap::new();
    for s in seeds {
        by.entry(ju(&s["t"])).or_default().push(jb(&s["d"]));
    }
    let ts: Vec<u64> = by.keys().cloned().collect();
    for _ in 0..iters {
        let t = x.r.pick(&ts);
        let pool = &by[&t];
        let mut b = x.r.pick(pool);
        let other = x.r.pick(pool);
        for _ in 0..x.r.pick(&[0, 1, 1, 1, 2, 3, 5]) {
            mutate(&mut x.r, &mut b, &other);
        }
        if b.len() > 700 {
            continue;
        }
        let pre: Vec<u8> = if x.r.one(3) { (0..x.r.below(4)).map(|_| x.r.pick(&I8)).collect() } else { vec![] };
        let post: Vec<u8> = (0..x.r.below(4)).map(|_| x.r.pick(&I8)).collect();
        let rt = rt_of(t);
        let case = || json!({"k": "rd", "g": "", "c": {"t": t, "pre": bj(&pre), "d": bj(&b), "post": bj(&post)}});
        let o = x.go(case, || try_rd(rt, &b, &pre, &post));
        let (key, cap) = match &o {
            None => (format!("!panic {}", t), 3),
            Some((Out::Odd(w), _)) => (format!("!{} {}", w, t), 3),
            Some((Out::Err(e), _)) => (format!("err {} {}", t, e), 5),
            Some((Out::Same, _)) => (format!("same {}", t), 6),
            Some((Out::Diff(d), _)) => (format!("diff {} {}", t, d), 2),
        };
        x.f.add(&mut x.r, key, cap, case);
        if let Some((Out::Same, Some(v))) = o {
            if x.r.one(8) {
                let pool = by.get_mut(&t).unwrap();
                if pool.len() < 60 {
                    pool.push(b);
                } else {
                    let j = x.r.below(60);
                    pool[j] = b;
                }
            }
            if good.len() < 4000 {
                good.push((rt, v));
            } else {
                let j = x.r.below(4000);
                good[j] = (rt, v);
            }
        }
    }
    good
}

/// The first contradiction of a packet with itself.
fn odd_packet(p: &Packet, r: &mut R, sizes: bool) -> Option<&'static str> {
    let w = p.to_bytes();
    let z = p.to_bytes_compressed();
    if sizes && p.byte_size() != w.len() {
        return Some("size");
    }
    if z.len() > w.len() {
        return Some("longer");
    }
    let back = |b: &[u8]| Packet::try_from(b).ok();
    let same = |q: &Packet| {
        p.id() == q.id()
            && flags_eq(p, q)
            && p.questions() == q.questions()
            && p.answers() == q.answers()
            && p.authorities() == q.authorities()
            && p.additionals() == q.additionals()
    };
    if !back(&w).map_or(false, |q| same(&q)) {
        return Some("plain");
    }
    if !back(&z).map_or(false, |q| same(&q)) {
        return Some("compressed");
    }
    for b in [&w, &z] {
        let k = match r.below(4) {
            0 => b.len() - 1,
            _ => r.below(b.len()),
        };
        if back(&b[..k]).is_some() {
            return Some("prefix");
        }
        let mut t = b.to_vec();
        t.extend((0..1 + r.below(12)).map(|_| r.pick(&I8)));
        if !back(&t).map_or(false, |q| same(&q)) {
            return Some("trailing");
        }
    }
    None
}
fn flags_eq(p: &Packet, q: &Packet) -> bool {
    p.query_response() == q.query_response()
        && p.opcode() == q.opcode()
        && p.authoritative_answer() == q.authoritative_answer()
        && p.truncation() == q.truncation()
        && p.recursion_desired() == q.recursion_desired()
        && p.recursion_available() == q.recursion_available()
        && p.response_code() == q.response_code()
}
fn types(p: &Packet) -> Vec<u16> {
    let mut v: Vec<u16> =
        p.answers().iter().chain(p.authorities()).chain(p.additionals()).map(|r| u16::from(*r.record_type())).collect();
    v.sort();
    v.dedup();
    v
}

fn hunt_msg(x: &mut Run, seeds: &[Value], iters: usize) {
    let mut pool: Vec<Vec<u8>> = seeds.iter().map(|s| jb(&s["b"])).collect();
    let n0 = pool.len();
    for _ in 0..iters {
        let mut b = x.r.pick(&pool);
        let other = x.r.pick(&pool);
        for _ in 0..x.r.pick(&[0, 1, 1, 1, 2, 3, 6]) {
            mutate(&mut x.r, &mut b, &other);
        }
        if b.len() > 1500 {
            continue;
        }
        let case = || json!({"k": "dec", "g": "", "c": {"b": bj(&b)}});
        let mut r2 = R(x.r.next());
        let o = x.go(case, || match Packet::try_from(b.as_slice()) {
            Err(e) => {
                let _ = e.to_string();
                (Some(kind(&e)), None, vec![])
            }
            Ok(p) => {
                let t = types(&p);
                (None, odd_packet(&p, &mut r2, !t.contains(&64)), t)
            }
        });
        let (key, cap) = match &o {
            None => ("!panic".to_string(), 5),
            Some((None, Some(w), t)) => (format!("!{} {:?}", w, &t[..t.len().min(2)]), 1),
            Some((Some(e), _, _)) => (format!("err {}", e), 12),
            Some((None, None, t)) => (format!("ok {:?}", t.first()), 4),
        };
        x.f.add(&mut x.r, key, cap, case);
        if matches!(o, Some((None, None, _))) && x.r.one(6) {
            if pool.len() < 4 * n0 {
                pool.push(b);
            } else {
                let j = n0 + x.r.below(3 * n0);
                pool[j] = b;
            }
        }
    }
}

fn a_name(r: &mut R, pool: &[Vec<u8>], last: &mut Vec<FQDN>) -> FQDN {
    if !last.is_empty() && r.one(2) {
        let n: Vec<Vec<u8>> = r.pick(last).iter().cloned().collect();
        let k = r.below(n.len() + 1);
        let mut m: Vec<Vec<u8>> = (0..r.pick(&[0, 0, 1, 1, 2])).map(|_| r.pick(pool)).collect();
        m.extend_from_slice(&n[k..]);
        if m.iter().map(|l| l.len() + 1).sum::<usize>() < 255 {
            let f = FQDN::from(m);
            last.push(f.clone());
            return f;
        }
    }
    let mut n = vec![];
    let mut room = 254;
    for _ in 0..r.pick(&[0, 1, 1, 2, 2, 3, 3, 4, 6, 9, 40]) {
        let l = r.pick(pool);
        if l.len() + 1 > room {
            break;
        }
        room -= l.len() + 1;
        n.push(l);
    }
    let f = FQDN::from(n);
    last.push(f.clone());
    f
}

fn labels(r: &mut R) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [&b"a"[..], b"b", b"A", b"ab", b"aB", b"local", b"com", b"example", b"_tcp", b"\0", b".", b"a.b", b"\xff"]
        .iter()
        .map(|x| x.to_vec())
        .collect();
    for k in [1, 2, 3, 5, 8, 20, 31, 32, 62, 63, 63] {
        v.push((0..k).map(|_| if r.one(2) { r.pick(b"abcxyzABC019-") } else { r.next() as u8 }).collect());
    }
    v
}

/// Packets of values that were read before, with names that share endings.
fn hunt_pkt(x: &mut Run, seeds: &[Value], iters: usize) {
    let good = hunt_rd(x, seeds, iters / 2);
    x.f.m.clear();
    // only what the case format can express
    let good: Vec<_> = good
        .into_iter()
        .filter(|(_, d)| {
            catch_unwind(AssertUnwindSafe(|| {
                let j = rdata_j(d);
                // recorded findings about sizes and reading are left to their own cases
                ![45, 42, 64].contains(&ju(&j["t"])) && rdata_to(&j) == *d
            }))
            .unwrap_or(false)
        })
        .collect();
    if good.is_empty() {
        return;
    }
    let qts: Vec<QType> = (1..=257u64).filter_map(|t| QType::try_from(t as u16).ok()).filter(|t| catch_unwind(AssertUnwindSafe(|| qt_n(*t))).is_ok()).collect();
    let qcs: Vec<QClass> = [1u16, 2, 3, 4, 254, 255].iter().filter_map(|c| QClass::try_from(*c).ok()).collect();
    for i in 0..iters {
        let r = &mut x.r;
        let pool = labels(r);
        let mut names = vec![];
        let mut p = if r.one(2) { Packet::new_query(r.next() as u16, r.one(2)) } else { Packet::new_reply(r.pick(&I16)) };
        if p.query_response() {
            p.set_authoritative_answer(r.one(2));
            p.set_recursion_available(r.one(2));
            p.set_response_code(rc_of(r.below(11) as u64));
        }
        p.set_truncation(r.one(4));
        for _ in 0..r.pick(&[0, 0, 1, 1, 2, 3]) {
            #[allow(unused_mut)]
            let mut q = Question::new(a_name(r, &pool, &mut names), r.pick(&qts), r.pick(&qcs));
            #[cfg(feature = "mdns")]
            q.set_unicast_response(r.one(3));
            p.add_question(q);
        }
        let mut one = |r: &mut R| {
            let (t, mut d) = r.pick(&good);
            // names that share endings with the others
            let mut nm = |r: &mut R| a_name(r, &pool, &mut names);
            if r.one(2) {
                match &mut d {
                    RecordData::CNAME(c) => c.cname = nm(r),
                    RecordData::NS(c) => c.nsdname = nm(r),
                    RecordData::MX(c) => c.exchange = nm(r),
                    RecordData::PTR(c) => *c = Ptr::new(nm(r)),
                    RecordData::SRV(c) => c.target = nm(r),
                    _ => (),
                }
            }
            let c = if t == RecordType::OPT {
                RecordClass::UdpPayloadSize(r.pick(&[512, 1232, 4096, 5, 32767]))
            } else {
                r.pick(&[RecordClass::IN, RecordClass::IN, RecordClass::CH, RecordClass::HS, RecordClass::CS])
            };
            let ttl = if r.one(2) { r.pick(&I32) } else { r.next() as u32 };
            #[allow(unused_mut)]
            let mut rr = ResourceRecord::new(nm(r), t, c, ttl, d);
            #[cfg(feature = "mdns")]
            rr.set_cache_flush(r.one(3));
            rr
        };
        for _ in 0..r.pick(&[0, 1, 1, 2, 3]) {
            let v = one(r);
            p.add_answer(v);
        }
        for _ in 0..r.pick(&[0, 0, 1, 2]) {
            let v = one(r);
            p.add_authority(v);
        }
        for _ in 0..r.pick(&[0, 0, 1, 2]) {
            let v = one(r);
            p.add_additional(v);
        }
        let case = || json!({"k": "enc", "g": "", "c": {"p": packet_j(&p), "how": i % 4, "px": 1}});
        let mut r2 = R(x.r.next());
        let o = x.go(case, || odd_packet(&p, &mut r2, true));
        let (key, cap) = match &o {
            None => ("!panic".to_string(), 5),
            Some(Some(w)) => (format!("!{} {:?}", w, types(&p)), 1),
            Some(None) => (format!("ok {:?}", types(&p).first()), 3),
        };
        x.f.add(&mut x.r, key, cap, case);
    }
}

/// Messages with as many different names as pointers can reach.
fn hunt_crowd(x: &mut Run, iters: usize) {
    for i in 0..iters {
        let r = &mut x.r;
        let mut p = Packet::new_query(1, false);
        let mut len = 12;
        let mut names = vec![];
        while len < 16300 {
            let k = r.pick(&[1, 2, 20, 63, 126]);
            let n: Vec<Vec<u8>> = (0..k)
                .map(|_| (0..r.pick(&[1, 1, 1, 2])).map(|_| r.next() as u8).collect::<Vec<u8>>())
                .scan(254usize, |room, l| {
                    *room = room.checked_sub(l.len() + 1)?;
                    Some(l)
                })
                .collect();
            let n = FQDN::from(n);
            len += n.len() + 4;
            names.push(n.clone());
            p.add_question(Question::new(n, QType::A, QClass::IN));
        }
        for _ in 0..3 {
            p.add_question(Question::new(r.pick(&names), QType::A, QClass::IN));
        }
        let case = || json!({"k": "enc", "g": "", "c": {"p": packet_j(&p), "how": i % 4, "px": 0}});
        let mut r2 = R(x.r.next());
        let o = x.go(case, || odd_packet(&p, &mut r2, true));
        let (key, cap) = match &o {
            None => ("!panic".to_string(), 1),
            Some(Some(w)) => (format!("!{}", w), 1),
            Some(None) => ("ok".to_string(), 1),
        };
        x.f.add(&mut x.r, key, cap, case);
    }
}

/// hunt KIND SEEDS OUT SEED ITERS LIMIT_MS [LOG]
pub fn main(a: &[String]) {
    let (kind, inp, outp) = (a[0].as_str(), &a[1], &a[2]);
    let (seed, iters, limit): (u64, usize, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let s = SINCE.load(SeqCst);
        if s != 0 && crate::now().saturating_sub(s) > limit {
            std::process::exit(77);
        }
    });
    let seeds: Vec<Value> =
        std::io::BufReader::new(std::fs::File::open(inp).unwrap()).lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect();
    let mut x = Run { r: R(seed.wrapping_mul(0x2545F4914F6CDD1D)), f: Found { m: BTreeMap::new() }, log: a.get(6).cloned() };
    match kind {
        "rd" => {
            hunt_rd(&mut x, &seeds, iters);
        }
        "msg" => hunt_msg(&mut x, &seeds, iters),
        "pkt" => hunt_pkt(&mut x, &seeds, iters),
        "crowd" => hunt_crowd(&mut x, iters),
        _ => panic!("kind"),
    }
    let mut out = std::io::BufWriter::new(std::fs::File::create(outp).unwrap());
    for (k, (n, vs)) in &x.f.m {
        for v in vs {
            serde_json::to_writer(&mut out, &json!({"key": k, "n": n, "case": v})).unwrap();
            out.write_all(b"\n").unwrap();
        }
    }
    out.flush().unwrap();
}
