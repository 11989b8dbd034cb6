//! Manifests: C10, C11, C12, C13; timestamps: C16.
use crate::sigs::{path_order, random_paths};
use crate::util::*;
use ruplicity::manifest::{Manifest, ParseError};
use std::cmp::Ordering;
use std::io::{self, BufRead, Read};
use std::os::unix::ffi::OsStrExt;

/// A reader that gives its text in pieces and can fail after some bytes.
struct Pieces { data: Vec<u8>, pos: usize, piece: usize, fail: Option<usize>, interrupt: bool }
impl Read for Pieces {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = { let f = self.fill_buf()?; let n = f.len().min(b.len()); b[..n].copy_from_slice(&f[..n]); n };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Pieces {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.interrupt { self.interrupt = false; return Err(io::Error::new(io::ErrorKind::Interrupted, "again")); }
        let mut end = (self.pos + self.piece).min(self.data.len());
        if let Some(f) = self.fail {
            if self.pos >= f { return Err(io::Error::new(io::ErrorKind::ConnectionAborted, "injected")); }
            end = end.min(f);
        }
        Ok(&self.data[self.pos..end])
    }
    fn consume(&mut self, n: usize) { self.pos += n; }
}
fn parse(text: &[u8], r: &mut Rng) -> Result<Manifest, ParseError> {
    let mut p = Pieces { data: text.to_vec(), pos: 0, piece: *r.pick(&[1, 2, 7, 1000, 1000000]), fail: None, interrupt: r.chance(1, 10) };
    Manifest::parse(&mut p)
}

const SAFE: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/._-+=,:@%~#^";

/// Duplicity's quoting: the text is quoted when it has a byte outside of the plain ones, and then
/// the special bytes are written \xNN.
fn quote(r: &mut Rng, b: &[u8], force: bool) -> Vec<u8> {
    let plain = !b.is_empty() && b.iter().all(|c| SAFE.contains(c) || *c >= 0x80);
    if plain && !force { return b.to_vec(); }
    let mut v = vec![b'"'];
    let all = r.chance(1, 10);
    let some = r.chance(1, 2);
    for &c in b {
        let special = c <= b' ' || c == b'"' || c == b'\\' || c == 0x7f;
        if special || all || (some && r.chance(1, 3)) { v.extend_from_slice(format!("\\x{:02x}", c).as_bytes()); } else { v.push(c); }
    }
    v.push(b'"');
    v
}
fn random_bytes(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = r.below(max + 1);
    let style = r.below(4);
    (0..n).map(|_| match style { 0 => r.next() as u8, 1 => *r.pick(SAFE), 2 => *r.pick(b" \"\\x0a'\n\r/.\xff\xc3\xa9"), _ => if r.chance(3, 4) { *r.pick(SAFE) } else { r.next() as u8 } }).collect()
}

struct Vol { start: Vec<u8>, sb: Option<usize>, end: Vec<u8>, eb: Option<usize>, htype: String, hash: Vec<u8> }

pub fn c10(r: &mut Rng) -> Case {
    let host: String = match r.below(5) { 0 => "hôte".into(), 1 => "a b \"c\\".into(), 2 => String::new(), _ => "dellxps".into() };
    let dir = random_bytes(r, 30);
    let n = if r.chance(1, 400) { r.range(256, 700) } else if r.chance(1, 20) { r.range(8, 40) } else { r.below(5) };
    let (plen, hlen) = if r.chance(1, 20) { (*r.pick(&[300, 5000, 70000]), *r.pick(&[64usize, 300, 5000])) } else { (40, 20) };
    let num = |r: &mut Rng| match r.below(5) { 0 => Some(usize::MAX), 1 => Some(r.next() as usize), 2 => Some(r.below(50)), _ => None };
    let vols: Vec<Vol> = (0..n).map(|_| Vol { start: random_bytes(r, if n < 9 { plen } else { 40 }), sb: num(r), end: random_bytes(r, 40), eb: num(r),
        htype: r.pick(&["SHA1", "MD5", "SHA256", "x"]).to_string(), hash: (0..r.pick(&[20usize, 16, 1, 32, hlen]).clone()).map(|_| r.next() as u8).collect() }).collect();
    let eol: &[u8] = if r.chance(1, 5) { b"\r\n" } else { b"\n" };
    let mut lines: Vec<Vec<u8>> = vec![];
    let h = quote(r, host.as_bytes(), false);
    lines.push([b"Hostname ", &h[..]].concat());
    let d = quote(r, &dir, false);
    lines.push([b"Localdir ", &d[..]].concat());
    for (i, v) in vols.iter().enumerate() {
        lines.push(format!("Volume {}:", i + 1).into_bytes());
        for (kw, p, b) in [("StartingPath", &v.start, v.sb), ("EndingPath", &v.end, v.eb)] {
            let mut l = format!("    {}{}", kw, if kw == "EndingPath" { "     " } else { "   " }).into_bytes();
            let force = r.chance(1, 3);
            l.extend(quote(r, p, force));
            if let Some(b) = b { l.extend(format!(" {}", b).into_bytes()); }
            lines.push(l);
        }
        let hex: String = v.hash.iter().map(|b| format!("{:02x}", b)).collect();
        lines.push(format!("    Hash {} {}", v.htype, hex).into_bytes());
    }
    let mut text = vec![];
    for (i, l) in lines.iter().enumerate() { text.extend_from_slice(l); if i + 1 < lines.len() || r.chance(2, 3) { text.extend_from_slice(eol); } }
    let input = format!("manifest {}", show(&text));
    trying(&input);
    let m = match parse(&text, r) { Ok(m) => m, Err(e) => return Case::bad(input, format!("error {:?}", e)) };
    let fail = |w: &str| Case::bad(input.clone(), w.to_string());
    if m.hostname() != host { return fail(&format!("host name {:?}", m.hostname())); }
    if m.local_dir().unwrap().as_os_str().as_bytes() != &dir[..] { return fail(&format!("root {}", show(m.local_dir().unwrap().as_os_str().as_bytes()))); }
    if m.last_volume_index() != n { return fail(&format!("{} volumes", m.last_volume_index())); }
    if m.volume(0).is_some() || m.volume(n + 1).is_some() || m.volume(usize::MAX).is_some() { return fail("a volume that is not there"); }
    for (i, v) in vols.iter().enumerate() {
        let a = match m.volume(i + 1) { Some(a) => a, None => return fail(&format!("no volume {}", i + 1)) };
        if a.start_path_bytes() != &v.start[..] || a.start_path().unwrap().as_os_str().as_bytes() != &v.start[..] { return fail(&format!("start path {} of volume {}", show(a.start_path_bytes()), i + 1)); }
        if a.end_path_bytes() != &v.end[..] || a.end_path().unwrap().as_os_str().as_bytes() != &v.end[..] { return fail(&format!("end path {} of volume {}", show(a.end_path_bytes()), i + 1)); }
        if a.start_block() != v.sb { return fail(&format!("start block {:?} of volume {}", a.start_block(), i + 1)); }
        if a.end_block() != v.eb { return fail(&format!("end block {:?} of volume {}", a.end_block(), i + 1)); }
        if a.hash_type() != v.htype { return fail(&format!("hash type {:?} of volume {}", a.hash_type(), i + 1)); }
        if a.hash() != &v.hash[..] { return fail(&format!("hash {} of volume {}", show(a.hash()), i + 1)); }
    }
    Case::ok(input, n == 0)
}

/// The result that a text should have, by a reading of the format line by line.
#[derive(Debug, PartialEq, Clone)]
enum Want { Ok(usize), Keyword(&'static str), Path, Hash, HashType, Order(usize), Int, Utf8, Eof, Fail }

fn plain_unquote(w: &[u8]) -> Vec<u8> {
    let b = if w.len() > 1 && w[0] == b'"' { &w[1..w.len() - 1] } else { w };
    let hex = |c: u8| match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, _ => 0 };
    let mut v = vec![];
    let mut k = 0;
    while k < b.len() {
        if b[k] != b'\\' { v.push(b[k]); k += 1; }
        else if k + 3 < b.len() && b[k + 1] == b'x' { v.push(hex(b[k + 2]) << 4 | hex(b[k + 3])); k += 4; }
        else { k += 1; }
    }
    v
}

/// `None` in place of a line stands for a failure of the reader.
fn expect(lines: &[Option<Vec<u8>>]) -> Want {
    let mut at = 0;
    macro_rules! line { () => {{
        at += 1;
        match lines.get(at - 1) { None => None, Some(None) => return Want::Fail, Some(Some(l)) => if l.is_empty() { None } else { Some(l.clone()) } }
    }} }
    fn words(l: &[u8]) -> Vec<&[u8]> { l.split(|c| *c == b' ').filter(|w| !w.is_empty()).collect() }
    fn keyword(w: &[&[u8]], kw: &'static str) -> Option<Want> {
        let k: &[u8] = if w.is_empty() { b"" } else { w[0] };
        match std::str::from_utf8(k) { Err(_) => Some(Want::Utf8), Ok(k) if k != kw => Some(Want::Keyword(kw)), _ => None }
    }
    fn int(s: &str) -> Option<usize> { s.parse().ok() }
    let l = match line!() { Some(l) => l, None => return Want::Eof };
    let w = words(&l);
    if let Some(e) = keyword(&w, "Hostname") { return e; }
    if w.len() > 1 && String::from_utf8(plain_unquote(w[1])).is_err() { return Want::Utf8; }
    let l = match line!() { Some(l) => l, None => return Want::Eof };
    if let Some(e) = keyword(&words(&l), "Localdir") { return e; }
    let mut n = 0;
    loop {
        let l = match line!() { Some(l) => l, None => return Want::Ok(n) };
        let w = words(&l);
        if let Some(e) = keyword(&w, "Volume") { return e; }
        let t = match String::from_utf8(if w.len() > 1 { plain_unquote(w[1]) } else { vec![] }) { Ok(t) => t, Err(_) => return Want::Utf8 };
        let num = match int(t.strip_suffix(':').unwrap_or(&t)) { Some(v) => v, None => return Want::Int };
        for kw in ["StartingPath", "EndingPath"] {
            let l = match line!() { Some(l) => l, None => return Want::Eof };
            let w = words(&l);
            if let Some(e) = keyword(&w, kw) { return e; }
            if w.len() < 2 { return Want::Path; }
            if w.len() > 2 { match std::str::from_utf8(w[2]) { Err(_) => return Want::Utf8, Ok(s) => if int(s).is_none() { return Want::Int; } } }
        }
        let l = match line!() { Some(l) => l, None => return Want::Eof };
        let w = words(&l);
        if let Some(e) = keyword(&w, "Hash") { return e; }
        if w.len() < 2 { return Want::HashType; }
        if std::str::from_utf8(w[1]).is_err() { return Want::Utf8; }
        if w.len() < 3 { return Want::Hash; }
        n += 1;
        if num != n { return Want::Order(num); }
    }
}

pub fn c11(r: &mut Rng) -> Case {
    let n = if r.chance(1, 300) { r.range(255, 300) } else { r.below(4) };
    let mut lines: Vec<Vec<u8>> = vec![b"Hostname host".to_vec(), b"Localdir /".to_vec()];
    for i in 0..n {
        lines.push(format!("Volume {}:", i + 1).into_bytes());
        lines.push(b"    StartingPath   .".to_vec());
        lines.push(b"    EndingPath     \"a\\x20b\" 15".to_vec());
        lines.push(b"    Hash SHA1 012886c2".to_vec());
    }
    const WORDS: &[&[u8]] = &[b"Hostname", b"Localdir", b"Volume", b"StartingPath", b"EndingPath", b"Hash", b"SHA1", b"1:", b"2:", b"3:", b"1", b"0:", b"-1:", b"+1:", b"99999999999999999999:", b"18446744073709551615:", b"x", b"\xff", b"\"\\xff\"", b"\"", b"\"\"", b":", b"1::", b"15", b"-3", b"+7", b"1.5", b"\xc3", b"hostname", b"Volumes", b"\"Volume\"", b"\t1:", b"ff"];
    for _ in 0..r.below(4) {
        let k = r.below(lines.len());
        match r.below(9) {
            0 => { lines.remove(k); if lines.is_empty() { lines.push(vec![]); } }
            1 => { let l = lines[k].clone(); lines.insert(k, l); }
            2 => { lines.insert(k, vec![]); }
            3 => { let j = r.below(lines.len()); lines.swap(k, j); }
            4 => { let n = r.below(lines[k].len() + 1); lines[k].truncate(n); }
            5 => { let l = r.below(4); lines[k] = (0..l).map(|_| r.pick(WORDS).to_vec()).collect::<Vec<_>>().join(&b' '); }
            6 => { // replace a word
                let mut w: Vec<Vec<u8>> = lines[k].split(|c| *c == b' ').map(|w| w.to_vec()).collect();
                let j = w.len() - 1 - r.below(w.len().min(2));
                w[j] = r.pick(WORDS).to_vec();
                lines[k] = w.join(&b' ');
            }
            7 => { // remove a word
                let mut w: Vec<Vec<u8>> = lines[k].split(|c| *c == b' ').map(|w| w.to_vec()).collect();
                let j = r.below(w.len()); w.remove(j);
                lines[k] = w.join(&b' ');
            }
            _ => { let j = r.below(lines[k].len() + 1); let c = *r.pick(b" :\"\\\xff\x00\r1a"); lines[k].insert(j, c); }
        }
    }
    let crlf = r.chance(1, 5);
    let mut text = vec![];
    for (i, l) in lines.iter().enumerate() { text.extend_from_slice(l); if i + 1 < lines.len() || r.chance(1, 2) { text.extend_from_slice(if crlf { b"\r\n" } else { b"\n" }); } }
    if r.chance(1, 40) { text = random_bytes(r, 200); }
    let fail = if r.chance(1, 4) { Some(r.below(text.len() + 1)) } else { None };
    let input = format!("manifest {}, reader failing at byte {:?}", show(&text), fail);
    trying(&input);
    // the lines as they can be read
    let mut got: Vec<Option<Vec<u8>>> = vec![];
    let seen = match fail { Some(f) => &text[..f], None => &text[..] };
    let mut rest = seen;
    while !rest.is_empty() {
        match rest.iter().position(|c| *c == b'\n') {
            Some(p) => { let l = &rest[..p]; got.push(Some(l.strip_suffix(b"\r").unwrap_or(l).to_vec())); rest = &rest[p + 1..]; }
            None => { if fail.is_none() { got.push(Some(rest.strip_suffix(b"\r").unwrap_or(rest).to_vec())); } rest = &[]; }
        }
    }
    if fail.is_some() { got.push(None); }
    let want = expect(&got);
    let mut p = Pieces { data: text, pos: 0, piece: *r.pick(&[1, 3, 1000]), fail, interrupt: r.chance(1, 10) };
    let have = match Manifest::parse(&mut p) {
        Ok(m) => { let n = m.last_volume_index(); if (1..=n).any(|k| m.volume(k).is_none()) || m.volume(n + 1).is_some() { return Case::bad(input, "volumes are not numbered 1 to n".into()); } Want::Ok(n) }
        Err(e) => {
            let text = format!("{}", e);
            if text.is_empty() { return Case::bad(input, "empty message".into()); }
            match e {
                ParseError::Io(e) => if e.kind() == io::ErrorKind::ConnectionAborted { Want::Fail } else if e.kind() == io::ErrorKind::UnexpectedEof { Want::Eof } else { return Case::bad(input, format!("unexpected {:?}", e)) },
                ParseError::MissingKeyword(k) => match ["Hostname", "Localdir", "Volume", "StartingPath", "EndingPath", "Hash"].iter().find(|x| ***x == k) { Some(k) => Want::Keyword(k), None => return Case::bad(input, format!("keyword {:?}", k)) },
                ParseError::MissingHash => Want::Hash,
                ParseError::MissingHashType => Want::HashType,
                ParseError::MissingPath => Want::Path,
                ParseError::OutOfOrderVolume(v) => Want::Order(v),
                ParseError::ParseInt(_) => Want::Int,
                ParseError::Utf8(_) => Want::Utf8,
            }
        }
    };
    if have != want { return Case::bad(input, format!("expected {:?}, got {:?}", want, have)); }
    Case::ok(input, matches!(want, Want::Ok(0)))
}

pub fn c12(r: &mut Rng) -> Case {
    let kind = r.below(4);
    let len = if r.chance(1, 50) { 9000 } else { 40 };
    let orig = random_bytes(r, len);
    let word: Vec<u8> = match kind {
        0 => quote(r, &orig, true),
        1 => orig.iter().cloned().filter(|c| !b" \"\\\n\r".contains(c)).collect(),
        2 => { let n = r.below(12); (0..n).map(|_| *r.pick(b"\"\\\\x20afz\xff9g")).collect() }
        _ => vec![b'x'],
    };
    let hlen = if r.chance(1, 50) { 600 } else { 24 };
    let hash: Vec<u8> = (0..r.below(hlen)).map(|_| r.next() as u8).collect();
    let mut hex: Vec<u8> = hash.iter().flat_map(|b| format!("{:02x}", b).into_bytes()).collect();
    let clean = !hex.is_empty() && r.chance(2, 3);
    if !clean { match r.below(3) { 0 => hex.push(b'f'), 1 => { for _ in 0..3 { let k = r.below(hex.len() + 1); hex.insert(k, *r.pick(b"gG\xff~:/`Z")); } } _ => { hex = vec![*r.pick(b"0fz"); r.range(1, 5)]; } } }
    let mut text = b"Hostname h\nLocaldir ".to_vec();
    text.extend_from_slice(&word);
    text.extend_from_slice(b"\nVolume 1:\n    StartingPath ");
    text.extend_from_slice(if word.is_empty() { b"." } else { &word });
    text.extend_from_slice(b"\n    EndingPath z\n    Hash SHA1 ");
    text.extend_from_slice(&hex);
    text.extend_from_slice(b"\n");
    let input = format!("path {} and hash {} in {}", show(&word), show(&hex), show(&text));
    trying(&input);
    let m = match parse(&text, r) { Ok(m) => m, Err(e) => return Case::bad(input, format!("error {:?}", e)) };
    let dir = m.local_dir().unwrap().as_os_str().as_bytes().to_vec();
    let v = m.volume(1).unwrap();
    if !word.is_empty() && v.start_path_bytes() != &dir[..] { return Case::bad(input, format!("root {} and start path {}", show(&dir), show(v.start_path_bytes()))); }
    if dir.len() > word.len() || v.hash().len() > hex.len() { return Case::bad(input, "decoding made the text longer".into()); }
    match kind {
        0 => if dir != orig { return Case::bad(input, format!("{} instead of {}", show(&dir), show(&orig))); },
        1 => if dir != word { return Case::bad(input, format!("{} instead of itself", show(&dir))); },
        _ => {}
    }
    if clean && v.hash() != &hash[..] { return Case::bad(input, format!("hash {} instead of {}", show(v.hash()), show(&hash))); }
    Case::ok(input, word.is_empty())
}

pub fn c13(r: &mut Rng) -> Case {
    // paths in order, each with a number of blocks, cut into volumes
    let big = r.chance(1, 150);
    let n = if big { r.range(300, 700) } else if r.chance(1, 10) { r.range(20, 60) } else { r.range(1, 14) };
    let all = random_paths(r, n);
    let mut stored: Vec<(Vec<u8>, usize)> = vec![];
    for p in &all {
        if p.is_empty() || !r.chance(3, 4) { continue; }
        stored.push((p.clone(), if r.chance(1, 2) { 0 } else { r.range(1, 6) }));
    }
    if stored.is_empty() { return Case::ok("no paths".into(), true); }
    // pieces: (path, block or none)
    let mut pieces: Vec<(Vec<u8>, Option<usize>)> = vec![];
    for (p, b) in &stored { if *b == 0 { pieces.push((p.clone(), None)); } else { for k in 0..*b { pieces.push((p.clone(), Some(k))); } } }
    let most = pieces.len().min(if big { 500 } else if r.chance(1, 4) { 12 } else { 5 });
    let nvol = r.range(if big { most / 2 + 1 } else { 1 }, most);
    let mut cuts: Vec<usize> = (0..nvol - 1).map(|_| r.range(1, pieces.len())).collect();
    cuts.push(0); cuts.push(pieces.len()); cuts.sort(); cuts.dedup();
    let blocks: std::collections::BTreeMap<Vec<u8>, usize> = stored.iter().cloned().collect();
    let mut vols: Vec<(Vec<u8>, Option<usize>, Vec<u8>, Option<usize>)> = vec![];
    for w in cuts.windows(2) {
        let (a, b) = (&pieces[w[0]], &pieces[w[1] - 1]);
        // the first block of a file may be left out or written as 0; the last block ends the file
        let sb = match a.1 { Some(0) => if r.chance(1, 2) { None } else { Some(0) }, x => x };
        let eb = match b.1 { Some(k) if k + 1 == blocks[&b.0] => None, x => x };
        vols.push((a.0.clone(), sb, b.0.clone(), eb));
    }
    let mut text = b"Hostname h\nLocaldir /\n".to_vec();
    for (i, v) in vols.iter().enumerate() {
        text.extend(format!("Volume {}:\n    StartingPath   ", i + 1).into_bytes());
        text.extend(quote(r, &v.0, false)); if let Some(b) = v.1 { text.extend(format!(" {}", b).into_bytes()); }
        text.extend(b"\n    EndingPath     ");
        text.extend(quote(r, &v.2, false)); if let Some(b) = v.3 { text.extend(format!(" {}", b).into_bytes()); }
        text.extend(b"\n    Hash SHA1 00\n");
    }
    let probe = if r.chance(2, 3) { r.pick(&stored).0.clone() } else if r.chance(1, 2) { r.pick(&all).clone() } else { let q = random_paths(r, 4); r.pick(&q).clone() };
    let input = format!("path {} in manifest {}", show(&probe), show(&text));
    trying(&input);
    let m = match parse(&text, r) { Ok(m) => m, Err(e) => return Case::bad(input, format!("error {:?}", e)) };
    if probe.is_empty() { let _ = (m.first_volume_of_path(&probe), m.last_volume_of_path(&probe)); return Case::ok(input, true); }
    // the volumes that contain the beginning and the end of the path
    let inside = |v: &(Vec<u8>, Option<usize>, Vec<u8>, Option<usize>)| path_order(&v.0, &probe) != Ordering::Greater && path_order(&probe, &v.2) != Ordering::Greater;
    let want: Vec<usize> = vols.iter().enumerate().filter(|(_, v)| inside(v)).map(|(i, _)| i + 1).collect();
    let (f, l) = (m.first_volume_of_path(&probe), m.last_volume_of_path(&probe));
    if f != want.first().cloned() { return Case::bad(input, format!("first volume {:?} instead of {:?}", f, want.first())); }
    if l != want.last().cloned() { return Case::bad(input, format!("last volume {:?} instead of {:?}", l, want.last())); }
    Case::ok(input, vols.len() < 2)
}

pub fn c16(r: &mut Rng) -> Case {
    use ruplicity::timefmt::parse_time_str;
    let y = match r.below(5) { 0 => r.range(0, 9999), 1 => *r.pick(&[0usize, 1, 100, 400, 1600, 1700, 1900, 1969, 1970, 2000, 2037, 2038, 2100, 9999]), 2 => 4 * r.below(2500), _ => r.range(1900, 2100) } as i64;
    let m = r.range(1, 12) as i64;
    let d = if r.chance(1, 3) { month_days(y, m) } else { r.range(1, month_days(y, m) as usize) as i64 };
    let (h, mi, s) = match r.below(4) { 0 => (0, 0, 0), 1 => (23, 59, 59), _ => (r.below(24) as i64, r.below(60) as i64, r.below(60) as i64) };
    let z = if r.chance(1, 8) { 'Z' } else { 'z' };
    let text = format!("{:04}{:02}{:02}t{:02}{:02}{:02}{}", y, m, d, h, mi, s, z);
    if r.chance(1, 2) {
        let input = format!("timestamp {:?}", text);
        trying(&input);
        let want = epoch_seconds(y, m, d, h, mi, s);
        return match parse_time_str(&text) {
            Some(t) if t.sec == want && t.nsec == 0 => Case::ok(input, false),
            t => Case::bad(input, format!("{:?} instead of {}", t, want)),
        };
    }
    // another shape
    let mut v: Vec<char> = text.chars().collect();
    for _ in 0..r.range(1, 2) {
        let k = r.below(v.len().max(1));
        match r.below(5) {
            0 if !v.is_empty() => { v.remove(k); }
            1 => v.insert(k, *r.pick(&['0', '9', ' ', 't', 'z', '.', 'é', '-', '+', '٣', '\n'])),
            2 if !v.is_empty() => v[k] = *r.pick(&[' ', 'T', 't', 'z', 'é', '-', '+', '٣', 'a', '/', ':']),
            3 => v.truncate(k),
            _ => v.extend(r.pick(&["foo", " ", "UTC", "+01:00", ".", "z", "\0"]).chars()),
        }
    }
    let t: String = v.into_iter().collect();
    let input = format!("text {:?}", t);
    trying(&input);
    let b = t.as_bytes();
    let shape = b.len() == 16 && b.iter().enumerate().all(|(i, c)| match i { 8 => *c == b't', 15 => *c == b'z' || *c == b'Z', _ => c.is_ascii_digit() });
    let got = parse_time_str(&t);
    if shape {
        let want = read_time(&t);
        if want.is_some() && got.map(|t| t.sec) != want { return Case::bad(input, format!("{:?} instead of {:?}", got, want)); }
    } else if got.is_some() { return Case::bad(input, format!("accepted as {:?}", got)); }
    Case::ok(input, shape)
}
