//! Signature archives: C07, C08, C09, C14, C20.
use crate::util::*;
use flate2::{write::GzEncoder, Compression};
use ruplicity::collections::Collections;
use ruplicity::signatures::{Chain, EntryType};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::io::Write;

#[derive(Clone)]
pub enum Field { Octal(u64), Binary(u64), Bad }
impl Field {
    fn write(&self, f: &mut [u8]) {
        match self {
            Field::Octal(v) => {
                let s = format!("{:0w$o}", v, w = f.len() - 1);
                f[..s.len()].copy_from_slice(s.as_bytes());
            }
            Field::Binary(v) => {
                let n = f.len();
                for k in 0..8 { f[n - 1 - k] = (v >> (8 * k)) as u8; }
                f[0] |= 0x80;
            }
            Field::Bad => f[..4].copy_from_slice(b"zz.z"),
        }
    }
    fn value(&self) -> Option<u64> { match self { Field::Octal(v) | Field::Binary(v) => Some(*v), Field::Bad => None } }
}

#[derive(Clone)]
pub struct Member {
    pub name: Vec<u8>,
    pub mode: Field,
    pub uid: Field,
    pub gid: Field,
    pub mtime: Field,
    pub size: Option<Field>,
    pub typ: u8,
    pub link: Vec<u8>,
    pub magic: u8, // 0: gnu, 1: ustar, 2: old
    pub uname: Vec<u8>,
    pub gname: Vec<u8>,
    pub data: Vec<u8>,
    pub cut: Option<usize>,
}
impl Member {
    pub fn new(name: &[u8], typ: u8) -> Member {
        Member { name: name.to_vec(), mode: Field::Octal(0o644), uid: Field::Octal(1000), gid: Field::Octal(1000), mtime: Field::Octal(1_450_000_000),
            size: None, typ, link: vec![], magic: 0, uname: b"user".to_vec(), gname: b"group".to_vec(), data: vec![], cut: None }
    }
    fn header(name: &[u8], typ: u8) -> [u8; 512] {
        let mut h = [0u8; 512];
        let n = name.len().min(100);
        h[..n].copy_from_slice(&name[..n]);
        h[156] = typ;
        h
    }
    fn seal(h: &mut [u8; 512]) {
        for b in &mut h[148..156] { *b = b' '; }
        let s: u32 = h.iter().map(|b| *b as u32).sum();
        let t = format!("{:06o}\0 ", s);
        h[148..156].copy_from_slice(t.as_bytes());
    }
    fn long(out: &mut Vec<u8>, typ: u8, text: &[u8]) {
        let mut h = Self::header(b"././@LongLink", typ);
        h[257..265].copy_from_slice(b"ustar  \0");
        Field::Octal(0).write(&mut h[100..108]); Field::Octal(0).write(&mut h[108..116]); Field::Octal(0).write(&mut h[116..124]);
        Field::Octal(text.len() as u64 + 1).write(&mut h[124..136]);
        Field::Octal(0).write(&mut h[136..148]);
        Self::seal(&mut h);
        out.extend_from_slice(&h);
        out.extend_from_slice(text);
        out.push(0);
        while out.len() % 512 != 0 { out.push(0); }
    }
    pub fn write(&self, out: &mut Vec<u8>) {
        if self.name.len() > 100 { Self::long(out, b'L', &self.name); }
        if self.link.len() > 100 { Self::long(out, b'K', &self.link); }
        let mut h = Self::header(&self.name, self.typ);
        self.mode.write(&mut h[100..108]);
        self.uid.write(&mut h[108..116]);
        self.gid.write(&mut h[116..124]);
        match &self.size { Some(f) => f.write(&mut h[124..136]), None => Field::Octal(self.data.len() as u64).write(&mut h[124..136]) }
        self.mtime.write(&mut h[136..148]);
        let n = self.link.len().min(100);
        h[157..157 + n].copy_from_slice(&self.link[..n]);
        match self.magic { 0 => h[257..265].copy_from_slice(b"ustar  \0"), 1 => h[257..265].copy_from_slice(b"ustar\x0000"), _ => {} }
        if self.magic < 2 {
            h[265..265 + self.uname.len()].copy_from_slice(&self.uname);
            h[297..297 + self.gname.len()].copy_from_slice(&self.gname);
        }
        Self::seal(&mut h);
        out.extend_from_slice(&h);
        let d = match self.cut { Some(c) => &self.data[..c.min(self.data.len())], None => &self.data[..] };
        out.extend_from_slice(d);
        if self.cut.is_none() { while out.len() % 512 != 0 { out.push(0); } }
    }
}
pub fn archive(ms: &[Member]) -> Vec<u8> {
    let mut out = vec![];
    for m in ms { m.write(&mut out); }
    if !ms.iter().any(|m| m.cut.is_some()) { out.extend_from_slice(&[0; 1024]); }
    out
}
pub fn gzip(d: &[u8]) -> Vec<u8> {
    let mut e = GzEncoder::new(vec![], Compression::fast());
    e.write_all(d).unwrap();
    e.finish().unwrap()
}

/// The names of the signatures of a chain of `n` snapshots.
pub fn chain_names(n: usize, gz: &[bool]) -> Vec<String> {
    (0..n).map(|k| {
        let s = if gz[k] { ".gz" } else { "" };
        if k == 0 { format!("duplicity-full-signatures.{}.sigtar{}", stamp(0), s) }
        else { format!("duplicity-new-signatures.{}.to.{}.sigtar{}", stamp(60 * (k - 1)), stamp(60 * k), s) }
    }).collect()
}
pub fn open_chain(archives: &[Vec<Member>], gz: &[bool]) -> Result<Chain, String> {
    let names = chain_names(archives.len(), gz);
    let mut mem = Mem::default();
    for (k, n) in names.iter().enumerate() {
        let a = archive(&archives[k]);
        mem.add(n, if gz[k] { gzip(&a) } else { a });
    }
    let c = Collections::from_filenames(&names);
    let sc: Vec<_> = c.signature_chains().collect();
    if sc.len() != 1 { return Err(format!("{} signature chains", sc.len())); }
    Chain::from_sigchain(sc[0], &mem).map_err(|e| format!("from_sigchain: {}", e))
}

/// Order of paths as duplicity has it: component by component.
pub fn path_order(a: &[u8], b: &[u8]) -> Ordering {
    let f = |p: &[u8]| -> Vec<Vec<u8>> { p.split(|c| *c == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect() };
    f(a).cmp(&f(b))
}

const COMPS: &[&[u8]] = &[b"a", b"b", b"a.b", b"a b", b"a-b", b"a!", b"ab", b"A", b"z", b"a\xff", b"\xc3\xa9", b"0", b"a.", b"~", b"-", b" ", b"a\x01", b"B", b"signature", b"deleted", b"snapshot"];
pub fn random_paths(r: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    if r.chance(4, 5) { v.push(vec![]); }
    let long = r.chance(1, 20);
    for _ in 0..n {
        let mut p = if v.is_empty() || r.chance(1, 3) { vec![] } else { r.pick(&v).clone() };
        if !p.is_empty() { p.push(b'/'); }
        let c: Vec<u8> = if long && r.chance(1, 5) { vec![b'l'; r.range(60, 160)] } else { r.pick(COMPS).to_vec() };
        p.extend_from_slice(&c);
        v.push(p);
    }
    v.sort_by(|a, b| path_order(a, b));
    v.dedup();
    v
}

/// What the archives say about a path.
#[derive(Clone)]
pub struct Mention { pub member: Member }
pub type World = BTreeMap<Vec<Vec<u8>>, (Vec<u8>, Member)>;

pub fn comps(p: &[u8]) -> Vec<Vec<u8>> { p.split(|c| *c == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect() }

fn folder(name: &str, p: &[u8], dir: bool) -> Vec<u8> {
    let mut v = name.as_bytes().to_vec();
    v.push(b'/');
    v.extend_from_slice(p);
    if dir && !p.is_empty() { v.push(b'/'); }
    v
}

fn random_field(r: &mut Rng, len: usize) -> Field {
    match r.below(8) {
        0 => Field::Bad,
        1 => Field::Binary(r.next() >> 1 >> r.below(60)),
        _ => Field::Octal(r.next() & ((1u64 << (3 * (len - 1)).min(62)) - 1) >> r.below(20)),
    }
}

fn random_member(r: &mut Rng, name: Vec<u8>, rich: bool) -> Member {
    let typ = *r.pick(b"0055265");
    let mut m = Member::new(&name, typ);
    m.mtime = Field::Octal(1_400_000_000 + r.below(100_000_000) as u64);
    m.mode = Field::Octal(r.below(0o7777 + 1) as u64);
    m.uid = Field::Octal(1000 + r.below(4) as u64);
    m.gid = Field::Octal(1000 + r.below(4) as u64);
    m.uname = format!("User{}", m.uid.value().unwrap()).into_bytes();
    m.gname = format!("Group{}", m.gid.value().unwrap()).into_bytes();
    if typ == b'2' { m.link = r.pick(COMPS).to_vec(); }
    if rich {
        if r.chance(1, 3) {
            // a type which tar does not treat specially
            loop { m.typ = r.below(256) as u8; if !b"LKxgS".contains(&m.typ) { break; } }
        }
        if r.chance(1, 3) { m.link = match r.below(4) { 0 => vec![], 1 => vec![b'k'; r.range(90, 130)], 2 => b"\xff\xfe/x".to_vec(), _ => b"../target".to_vec() }; }
        if r.chance(1, 3) { m.uid = random_field(r, 8); }
        if r.chance(1, 3) { m.gid = random_field(r, 8); }
        if r.chance(1, 8) {
            // an id that is equal to another one in its lower bits
            let id = 1000 + r.below(4) as u64 + (1 << *r.pick(&[8, 16, 20, 31, 32, 33, 48, 62]));
            if r.chance(1, 2) { m.uid = Field::Binary(id); m.uname = b"Far".to_vec(); } else { m.gid = Field::Binary(id); m.gname = b"Away".to_vec(); }
        }
        if r.chance(1, 3) { m.mtime = random_field(r, 12); }
        if r.chance(1, 3) { m.mode = match r.below(6) { 0 => Field::Bad, _ => Field::Octal(r.next() & 0o7777777) }; }
        if r.chance(1, 4) { m.magic = r.below(3) as u8; }
        if r.chance(1, 4) { m.uname = match r.below(4) { 0 => vec![], 1 => b"\xff".to_vec(), 2 => vec![b'n'; 32], _ => "höst".as_bytes().to_vec() }; }
        if r.chance(1, 4) { m.gname = match r.below(4) { 0 => vec![], 1 => b"\xff".to_vec(), 2 => vec![b'n'; 32], _ => b"staff".to_vec() }; }
    }
    m
}

/// Archives of a random history, and the listing that each snapshot should have.
pub fn history(r: &mut Rng, nsnap: usize, npath: usize, rich: bool) -> (Vec<Vec<Member>>, Vec<World>, BTreeMap<u64, String>, BTreeMap<u64, String>) {
    let paths = random_paths(r, npath);
    let mut archives = vec![];
    let mut worlds: Vec<World> = vec![];
    let mut cur: World = BTreeMap::new();
    let (mut users, mut groups) = (BTreeMap::new(), BTreeMap::new());
    let junk = r.chance(1, 3);
    for k in 0..nsnap {
        let mut ms = vec![];
        for p in &paths {
            if junk && r.chance(1, 10) {
                let n: &[u8] = *r.pick(&[&b"other/x"[..], b"plain", b"Signature/a", b"signatures/a", b"multivol_diff/a/1", b"/signature/a", b"snapshot_/q"]);
                ms.push(Member::new(n, b'0'));
            }
            if !r.chance(if k == 0 { 3 } else { 1 }, if k == 0 { 4 } else { 2 }) { continue; }
            let known = cur.contains_key(&comps(p));
            if known && r.chance(1, 3) || !known && k > 0 && r.chance(1, 15) {
                ms.push(Member::new(&folder("deleted", p, r.chance(1, 5)), b'0'));
                cur.remove(&comps(p));
            } else {
                let dir = r.chance(1, 3);
                let f = if r.chance(1, 2) { "signature" } else { "snapshot" };
                // mentioned again as it was, now and then
                let m = match cur.get(&comps(p)) { Some((_, m)) if r.chance(1, 6) => m.clone(), _ => random_member(r, folder(f, p, dir), rich) };
                if m.magic < 2 {
                    if let (Some(id), Ok(n)) = (m.uid.value(), String::from_utf8(m.uname.clone())) { users.insert(id, n); }
                    if let (Some(id), Ok(n)) = (m.gid.value(), String::from_utf8(m.gname.clone())) { groups.insert(id, n); }
                }
                cur.insert(comps(p), (p.clone(), m.clone()));
                ms.push(m);
            }
        }
        archives.push(ms);
        worlds.push(cur.clone());
    }
    (archives, worlds, users, groups)
}
pub fn show_archives(a: &[Vec<Member>]) -> String {
    let v: Vec<String> = a.iter().map(|ms| {
        let w: Vec<String> = ms.iter().map(|m| format!("{}(type {}, mode {:?}, uid {:?}, gid {:?}, mtime {:?}, uname {}, gname {}, link {}, magic {})", show(&m.name), m.typ,
            m.mode.value(), m.uid.value(), m.gid.value(), m.mtime.value(), show(&m.uname), show(&m.gname), show(&m.link), m.magic)).collect();
        format!("[{}]", w.join(", "))
    }).collect();
    format!("archives [{}]", v.join(", "))
}

pub fn c07(r: &mut Rng) -> Case {
    let mut n = if r.chance(1, 20) { r.range(5, 20) } else { r.range(1, 5) };
    let mut np = if r.chance(1, 20) { r.range(20, 60) } else { r.range(1, 12) };
    match r.below(400) { 0 => { n = r.range(256, 300); np = r.range(1, 4); } 1 => { n = r.range(1, 2); np = r.range(300, 2000); } _ => {} }
    let (archives, worlds, _, _) = history(r, n, np, false);
    let gz: Vec<bool> = (0..n).map(|_| r.chance(1, 4)).collect();
    let input = show_archives(&archives);
    trying(&input);
    let check = |n: usize| -> Result<(), String> {
        let chain = open_chain(&archives[..n], &gz[..n])?;
        if chain.snapshots().len() != n { return Err(format!("{} snapshots instead of {}", chain.snapshots().len(), n)); }
        for (k, s) in chain.snapshots().enumerate() {
            let got: Vec<(Vec<u8>, i64, Option<u32>)> = s.files().map(|e| (e.path_bytes().to_vec(), e.mtime().sec, e.mode())).collect();
            let want: Vec<(Vec<u8>, i64, Option<u32>)> = worlds[k].values().map(|(p, m)| (p.clone(), m.mtime.value().unwrap() as i64, m.mode.value().map(|v| v as u32))).collect();
            if got != want {
                let f = |l: &[(Vec<u8>, i64, Option<u32>)]| l.iter().map(|x| format!("{} {} {:?}", show(&x.0), x.1, x.2)).collect::<Vec<_>>().join(", ");
                return Err(format!("snapshot {} of {} lists [{}] instead of [{}]", k, n, f(&got), f(&want)));
            }
            // and in any other way to step through it
            let skip = (k * 7 + n) % (want.len() + 2);
            let mut it = s.files();
            let path = |e: Option<ruplicity::signatures::Entry>| e.map(|e| e.path_bytes().to_vec());
            if path(it.nth(skip)) != want.get(skip).map(|x| x.0.clone()) { return Err(format!("nth({}) of snapshot {} of {} is another path", skip, k, n)); }
            let left = want.len().saturating_sub(skip + 1);
            let (lo, hi) = it.size_hint();
            if lo > left || hi.map_or(false, |h| h < left) { return Err(format!("size_hint of snapshot {} is {:?} where {} paths are left", k, (lo, hi), left)); }
            if path(it.clone().last()) != if left == 0 { None } else { want.last().map(|x| x.0.clone()) } { return Err(format!("the last path of snapshot {} of {} is another one", k, n)); }
            if it.count() != left { return Err(format!("snapshot {} of {} has not {} paths after {}", k, n, left, skip + 1)); }
        }
        Ok(())
    };
    // with all the signatures, and with some of them only
    let part = r.range(1, n);
    let res = check(n).and_then(|_| check(part));
    Case::from(input, n < 2 && archives[0].len() < 2, res)
}

/// A signature as librsync writes it: one block of 4 + `sum` bytes for each `block` bytes.
fn rdiff(size: u64, block: u64, sum: u64) -> Vec<u8> {
    let mut d = vec![0x72, 0x73, 0x01, 0x36];
    d.extend_from_slice(&(block as u32).to_be_bytes());
    d.extend_from_slice(&(sum as u32).to_be_bytes());
    let n = (size + block - 1) / block;
    d.resize(12 + (n * (4 + sum)) as usize, 0x5a);
    d
}

fn one_hint(m: Member) -> Result<Option<(usize, usize)>, String> {
    let name = m.name.clone();
    let chain = open_chain(&[vec![m]], &[false])?;
    let mut files = chain.snapshots().next().ok_or("no snapshot")?.files();
    match files.next() { Some(e) => Ok(e.size_hint()), None => Err(format!("{} is not listed", show(&name))) }
}

pub fn c08(r: &mut Rng) -> Case {
    let mut m = Member::new(b"signature/f", *r.pick(b"0050"));
    match r.below(6) {
        0 | 1 => {
            // a true signature
            let block = *r.pick(&[1u64, 2, 3, 512, 1024, 2048, 2048, 4096, 65536]);
            let sum = *r.pick(&[8u64, 8, 8, 16, 1, 32, 0]);
            let blocks = r.below(*r.clone().pick(&[3usize, 40, 300])) as u64;
            let size = if blocks == 0 { 0 } else { match r.below(3) { 0 => blocks * block, 1 => (blocks - 1) * block + 1, _ => (blocks - 1) * block + 1 + r.below(block as usize) as u64 } };
            m.data = rdiff(size, block, sum);
            let input = format!("signature of a file of {} bytes, block length {}, strong sum length {}", size, block, sum);
            trying(&input);
            let res = one_hint(m).and_then(|h| match h {
                Some((lo, hi)) if lo as u64 <= size && size <= hi as u64 && (hi - lo) as u64 <= block => Ok(()),
                h => Err(format!("size hint {:?}", h)),
            });
            Case::from(input, false, res)
        }
        2 => {
            m.name = b"snapshot/f".to_vec();
            if r.chance(1, 4) {
                // a large file, of which only the header is there
                let size = match r.below(3) { 0 => (r.next() >> 1) >> r.below(60), 1 => (1u64 << r.range(29, 62)) - r.below(2) as u64, _ => 1 << r.range(29, 62) };
                m.size = Some(if size < 1 << 33 && r.chance(1, 2) { Field::Octal(size) } else { Field::Binary(size) });
                m.cut = Some(0);
                let input = format!("file of {} bytes stored whole, cut after the header", size);
                trying(&input);
                let n = size as usize;
                let res = one_hint(m).and_then(|h| if h == Some((n, n)) { Ok(()) } else { Err(format!("size hint {:?}", h)) });
                return Case::from(input, size == 0, res);
            }
            let size = r.below(3000);
            m.data = if r.chance(1, 2) { vec![7; size] } else { rdiff(size as u64, 512, 8) };
            let input = format!("file of {} bytes stored whole", m.data.len());
            trying(&input);
            let n = m.data.len();
            let res = one_hint(m).and_then(|h| if h == Some((n, n)) { Ok(()) } else { Err(format!("size hint {:?}", h)) });
            Case::from(input, size == 0, res)
        }
        3 => {
            // unknown or cut
            let mut d = rdiff(r.below(5000) as u64, 2048, 8);
            let what = r.below(3);
            match what {
                0 => { let k = r.below(4); d[k] ^= 1 << r.below(8); }
                1 => d.truncate(r.below(12)),
                _ => { d[3] = *r.pick(&[0x37u8, 0x26, 0x46, 0, 0x35]); }
            }
            m.data = d;
            if what == 1 && r.chance(1, 3) { m.typ = b'5'; m.name = b"signature/f/".to_vec(); }
            let input = format!("malformed signature {}", show(&m.data[..m.data.len().min(16)]));
            trying(&input);
            let res = one_hint(m).and_then(|h| if h.is_none() { Ok(()) } else { Err(format!("size hint {:?}", h)) });
            Case::from(input, false, res)
        }
        4 => {
            // any header values with a consistent length: the true sizes are known from the number of blocks
            let block = match r.below(4) { 0 => u32::MAX as u64, 1 => r.next() & 0xffff_ffff, 2 => 0, _ => 1 << r.below(32) };
            let sum = match r.below(3) { 0 => 0, 1 => r.below(64) as u64, _ => 8 };
            let n = r.below(5) as u64;
            let mut d = vec![0x72, 0x73, 0x01, 0x36];
            d.extend_from_slice(&(block as u32).to_be_bytes());
            d.extend_from_slice(&(sum as u32).to_be_bytes());
            d.resize(12 + (n * (4 + sum)) as usize, 1);
            m.data = d;
            let input = format!("signature with block length {}, strong sum length {} and {} blocks", block, sum, n);
            trying(&input);
            let res = one_hint(m).and_then(|h| match h {
                Some((lo, hi)) if block == 0 || n == 0 => if lo == 0 && hi == 0 { Ok(()) } else { Err(format!("size hint {:?}", (lo, hi))) },
                // the file has from block * (n - 1) + 1 to block * n bytes
                Some((lo, hi)) if lo as u64 <= block * (n - 1) + 1 && hi as u64 >= block * n && (hi - lo) as u64 <= block => Ok(()),
                h => Err(format!("size hint {:?}", h)),
            });
            Case::from(input, false, res)
        }
        _ => {
            // extreme values: no hint or one that does not wrap
            let block = if r.chance(1, 2) { u32::MAX } else { r.next() as u32 };
            let sum = if r.chance(1, 2) { u32::MAX - r.below(8) as u32 } else { r.next() as u32 >> r.below(32) };
            let size = match r.below(4) { 0 => u64::MAX >> r.below(3), 1 => r.next() >> r.below(40), 2 => r.below(14) as u64, _ => (1u64 << 62) + 12 };
            let mut d = vec![0x72, 0x73, 0x01, 0x36];
            d.extend_from_slice(&block.to_be_bytes());
            d.extend_from_slice(&sum.to_be_bytes());
            m.data = d;
            m.size = Some(Field::Binary(size));
            m.cut = Some(12);
            let input = format!("signature with block length {}, strong sum length {} and member size {}", block, sum, size);
            trying(&input);
            let n = size.checked_sub(12).map(|s| s / (sum as u64 + 4));
            let want = n.map(|n| n as u128 * block as u128);
            let res = open_chain(&[vec![m]], &[false]).and_then(|chain| {
                let h = match chain.snapshots().next().ok_or("no snapshot")?.files().next() { Some(e) => e.size_hint(), None => return Ok(()) };
                match (h, want) {
                    (None, _) => Ok(()),
                    (Some((lo, hi)), Some(w)) if hi as u128 == w && lo <= hi && (hi - lo) as u64 <= block as u64 => Ok(()),
                    (h, w) => Err(format!("size hint {:?}, exact {:?}", h, w)),
                }
            });
            Case::from(input, false, res)
        }
    }
}

fn ls_mode(mode: Option<u32>) -> String {
    let m = match mode { Some(m) => m, None => return "?".into() };
    let mut s: Vec<u8> = Vec::new();
    for (k, c) in b"rwxrwxrwx".iter().enumerate() { s.push(if m & (0o400 >> k) != 0 { *c } else { b'-' }); }
    if m & 0o4000 != 0 { s[2] = if s[2] == b'x' { b's' } else { b'S' }; }
    if m & 0o2000 != 0 { s[5] = if s[5] == b'x' { b's' } else { b'S' }; }
    if m & 0o1000 != 0 { s[8] = if s[8] == b'x' { b't' } else { b'T' }; }
    String::from_utf8(s).unwrap()
}

/// 9998-12-31, beyond which times are not displayed
const LATEST: i64 = 253_370_764_800;
type NameMap = BTreeMap<u64, String>;
/// The columns of an entry.
fn cells(p: &[u8], m: &Member, users: &NameMap, groups: &NameMap, hint: Option<(usize, usize)>, year: i64) -> Vec<String> {
    let c = match m.typ { 0 | b'0' | b'1' => '-', b'5' => 'd', b'2' => 'l', b'6' => 'p', _ => '?' };
    let name = |id: &Field, names: &NameMap| id.value().and_then(|u| names.get(&u).cloned()).unwrap_or("?".into());
    vec![
        format!("{}{}", c, ls_mode(m.mode.value().map(|v| v as u32))), name(&m.uid, users), name(&m.gid, groups),
        hint.map_or("?".into(), |h| h.1.to_string()), crate::os::local_text(m.mtime.value().unwrap_or(0) as i64, year),
        if p.is_empty() { ".".into() } else { String::from_utf8(p.to_vec()).unwrap_or("?".into()) },
    ]
}
/// Whether a printed listing has these columns, one line for each, all columns beginning at one place.
fn check_table(text: &str, rows: &[Vec<String>]) -> Result<(), String> {
    let lines: Vec<Vec<char>> = text.split_terminator('\n').map(|l| l.chars().collect()).collect();
    if lines.len() != rows.len() || (!rows.is_empty() && !text.ends_with('\n')) { return Err(format!("{} lines instead of {}", lines.len(), rows.len())); }
    if rows.is_empty() { return Ok(()); }
    let len = |s: &String| s.chars().count();
    let mut begins = vec![0];
    for j in 1..rows[0].len() {
        let after = begins[j - 1] + rows.iter().map(|r| len(&r[j - 1])).max().unwrap();
        let at = if j + 1 == rows[0].len() { lines[0].len().checked_sub(len(&rows[0][j])).unwrap_or(0) } else {
            match rows.iter().position(|r| !r[j].is_empty()) {
                Some(k) => after + lines[k].iter().skip(after).take_while(|c| **c == ' ').count(),
                None => after + 1,
            }
        };
        if at <= after { return Err(format!("{:?} instead of {:?}, or columns not aligned", lines[0].iter().collect::<String>(), rows[0])); }
        begins.push(at);
    }
    for (l, row) in lines.iter().zip(rows) {
        let mut want = String::new();
        for (j, c) in row.iter().enumerate() {
            while len(&want) < begins[j] { want.push(' '); }
            want.push_str(c);
        }
        let l: String = l.iter().collect();
        if l != want { return Err(format!("{:?} instead of {:?}", l, want)); }
    }
    Ok(())
}

pub fn c20(r: &mut Rng) -> Case {
    let n = r.range(1, 3);
    let np = if r.chance(1, 40) { r.range(200, 900) } else if r.chance(1, 20) { r.range(20, 60) } else { r.range(1, 8) };
    let rich = r.chance(1, 2);
    let (mut archives, mut worlds, users, groups) = history(r, n, np, rich);
    // times that can be displayed, and a size now and then
    let soon = 86400 * 365 * (crate::os::year_now() - 1970);
    let fix = |m: &mut Member| {
        if let Some(v) = m.mtime.value() { if !(0..LATEST).contains(&(v as i64)) { m.mtime = Field::Octal(v % 8_000_000_000); } else if v % 3 == 0 { m.mtime = Field::Octal(soon as u64 + v % (2 * 365 * 86400)); } }
        if m.typ == b'0' && m.name.starts_with(b"snapshot") { m.data = vec![b'x'; (m.mtime.value().unwrap_or(0) % 3000) as usize]; }
    };
    for ms in archives.iter_mut() { ms.iter_mut().for_each(fix); }
    for w in worlds.iter_mut() { w.values_mut().for_each(|x| fix(&mut x.1)); }
    let input = show_archives(&archives);
    trying(&input);
    let res = (|| -> Result<(), String> {
        if r.chance(1, 2) {
            let chain = open_chain(&archives, &vec![false; n])?;
            for (k, s) in chain.snapshots().enumerate() {
                let hints: Vec<_> = s.files().map(|e| e.size_hint()).collect();
                crate::os::printed(|year| {
                    let rows: Vec<Vec<String>> = worlds[k].values().zip(&hints).map(|((p, m), h)| cells(p, m, &users, &groups, *h, year)).collect();
                    if hints.len() != worlds[k].len() { return Err(format!("{} entries", hints.len())); }
                    check_table(&format!("{}", s), &rows)?;
                    check_table(&format!("{}", s.files().into_display()), &rows)?;
                    // what is left of a listing
                    let mut it = s.files();
                    it.next();
                    check_table(&format!("{}", it.into_display()), &rows[rows.len().min(1)..])
                }).map_err(|e| format!("snapshot {}: {}", k, e))?;
            }
        } else {
            let mut mem = Mem::default();
            for (k, name) in chain_names(n, &vec![false; n]).iter().enumerate() {
                mem.add(name, archive(&archives[k]));
                mem.add(&name.replace("full-signatures", "full").replace("new-signatures", "inc").replace("sigtar", "manifest"), vec![]);
            }
            let b = ruplicity::Backup::new(mem).map_err(|e| e.to_string())?;
            let mut count = 0;
            for (k, s) in b.snapshots().map_err(|e| e.to_string())?.into_iter().enumerate() {
                let e = s.entries().map_err(|e| format!("entries of snapshot {}: {}", k, e))?;
                let hints: Vec<_> = e.as_signature().map(|e| e.size_hint()).collect();
                if hints.len() != worlds[k].len() { return Err(format!("{} entries", hints.len())); }
                crate::os::printed(|year| {
                    let rows: Vec<Vec<String>> = worlds[k].values().zip(&hints).map(|((p, m), h)| cells(p, m, &users, &groups, *h, year)).collect();
                    check_table(&format!("{}", e), &rows)
                }).map_err(|e| format!("snapshot {}: {}", k, e))?;
                count += 1;
            }
            if count != n { return Err(format!("{} snapshots", count)); }
        }
        Ok(())
    })();
    Case::from(input, worlds.iter().all(|w| w.is_empty()), res)
}

pub fn c09(r: &mut Rng) -> Case {
    let n = r.range(1, 3);
    let np = r.range(1, 6);
    let (archives, worlds, users, groups) = history(r, n, np, true);
    let input = show_archives(&archives);
    trying(&input);
    let gz = vec![false; n];
    let res = (|| -> Result<(), String> {
        let chain = open_chain(&archives, &gz)?;
        for (k, s) in chain.snapshots().enumerate() {
            let mut it = s.files();
            for (p, m) in worlds[k].values() {
                let e = match it.next() { Some(e) => e, None => return Err(format!("snapshot {} does not list {}", k, show(p))) };
                let fail = |what: &str, got: String, want: String| Err(format!("snapshot {}, path {}: {} is {} instead of {}", k, show(p), what, got, want));
                if e.path_bytes() != &p[..] { return fail("path", show(e.path_bytes()), show(p)); }
                let want = match m.typ { 0 | b'0' => EntryType::File, b'1' => EntryType::HardLink, b'2' => EntryType::SymLink, b'5' => EntryType::Dir, b'6' => EntryType::Fifo, t => EntryType::Unknown(t) };
                if e.entry_type() != want { return fail("type", format!("{:?}", e.entry_type()), format!("{:?}", want)); }
                if e.mode() != m.mode.value().map(|v| v as u32) { return fail("mode", format!("{:?}", e.mode()), format!("{:?}", m.mode.value())); }
                if e.userid() != m.uid.value() { return fail("uid", format!("{:?}", e.userid()), format!("{:?}", m.uid.value())); }
                if e.groupid() != m.gid.value() { return fail("gid", format!("{:?}", e.groupid()), format!("{:?}", m.gid.value())); }
                let mt = m.mtime.value().unwrap_or(0) as i64;
                if e.mtime().sec != mt || e.mtime().nsec != 0 { return fail("mtime", format!("{:?}", e.mtime()), format!("{}", mt)); }
                let un = m.uid.value().and_then(|u| users.get(&u)).map(|s| &s[..]);
                if e.username() != un { return fail("user name", format!("{:?}", e.username()), format!("{:?}", un)); }
                let gn = m.gid.value().and_then(|u| groups.get(&u)).map(|s| &s[..]);
                if e.groupname() != gn { return fail("group name", format!("{:?}", e.groupname()), format!("{:?}", gn)); }
                let link = if m.typ == b'2' && !m.link.is_empty() { Some(m.link.clone()) } else { None };
                let got = e.linked_path().map(|p| { use std::os::unix::ffi::OsStrExt; p.as_os_str().as_bytes().to_vec() });
                if got != link { return fail("link", format!("{:?}", got.map(|x| show(&x))), format!("{:?}", link.map(|x| show(&x)))); }
                if (0..LATEST).contains(&mt) {
                    crate::os::printed(|year| {
                        let got: Vec<String> = format!("{}", e).split('\t').map(String::from).collect();
                        let want = cells(p, m, &users, &groups, e.size_hint(), year);
                        if got != want { fail("displayed", format!("{:?}", got), format!("{:?}", want)) } else { Ok(()) }
                    })?;
                }
            }
            if it.next().is_some() { return Err(format!("snapshot {} lists too many paths", k)); }
        }
        Ok(())
    })();
    Case::from(input, worlds.iter().all(|w| w.is_empty()), res)
}

pub fn c14(r: &mut Rng) -> Case {
    let n = match r.below(12) { 0 => 0, 1 => r.range(200, 300), _ => r.range(1, 8) };
    // some of the signatures mention no path
    let empty = match r.below(8) { 0 => n, 1 => r.below(3), _ => 0 };
    let archives: Vec<Vec<Member>> = (0..n).map(|k| if k < empty { vec![] } else { vec![Member::new(format!("signature/s{}", k).as_bytes(), b'0')] }).collect();
    let ops: Vec<(u8, usize)> = (0..r.range(1, 14)).map(|_| {
        let a = match r.below(8) { 0 => usize::MAX, 1 => usize::MAX - r.below(4), 2 => n, 3 => n + r.below(3), 4 => usize::MAX / 2, _ => r.below(3) };
        (r.below(6) as u8, a)
    }).collect();
    let input = format!("{} snapshots, the first {} without a path, calls {:?} (0-1 next, 2-3 nth, 4 len, 5 size_hint)", n, empty.min(n), ops);
    trying(&input);
    let res = (|| -> Result<(), String> {
        let chain = if n == 0 { Chain::new() } else { open_chain(&archives, &vec![false; n])? };
        let mut it = chain.snapshots();
        let mut pos = 0usize;
        // the snapshot k lists the paths of the signatures 0..=k
        let id = |s: Option<ruplicity::signatures::Snapshot>| s.map(|s| s.files().count() as i64);
        let at = |k: usize| ((k + 1).max(empty) - empty) as i64;
        for (k, &(op, a)) in ops.iter().enumerate() {
            match op {
                0 | 1 => {
                    let want = if pos < n { Some(at(pos)) } else { None };
                    if pos < n { pos += 1; }
                    let got = id(it.next());
                    if got != want { return Err(format!("call {}: next gives {:?} instead of {:?}", k, got, want)); }
                }
                2 | 3 => {
                    let want = if a < n - pos { Some(at(pos + a)) } else { None };
                    pos = if a < n - pos { pos + a + 1 } else { n };
                    let got = id(it.nth(a));
                    if got != want { return Err(format!("call {}: nth({}) gives {:?} instead of {:?}", k, a, got, want)); }
                }
                4 => if it.len() != n - pos { return Err(format!("call {}: len gives {} instead of {}", k, it.len(), n - pos)); },
                _ => if it.size_hint() != (n - pos, Some(n - pos)) { return Err(format!("call {}: size_hint gives {:?} instead of {}", k, it.size_hint(), n - pos)); },
            }
        }
        // the rest in one of several ways
        let pick = ops.len() + ops.iter().map(|o| o.1 % 5).sum::<usize>();
        match pick % 5 {
            0 => { let c = it.count(); return if c == n - pos { Ok(()) } else { Err(format!("{} snapshots are counted instead of {}", c, n - pos)) }; }
            1 => { let (g, w) = (id(it.last()), if pos < n { Some(at(n - 1)) } else { None }); return if g == w { Ok(()) } else { Err(format!("the last one is {:?} instead of {:?}", g, w)) }; }
            2 => {
                let g: Vec<_> = it.skip(1).step_by(2).map(|s| id(Some(s))).collect();
                let w: Vec<_> = (pos..n).skip(1).step_by(2).map(|x| Some(at(x))).collect();
                return if g == w { Ok(()) } else { Err(format!("every second one of the rest is {:?} instead of {:?}", g, w)) };
            }
            _ => {}
        }
        let rest: Vec<Option<i64>> = it.map(|s| id(Some(s))).collect();
        let want: Vec<Option<i64>> = (pos..n).map(|x| Some(at(x))).collect();
        if rest != want { return Err(format!("the rest is {:?} instead of {:?}", rest, want)); }
        Ok(())
    })();
    Case::from(input, n == 0, res)
}
