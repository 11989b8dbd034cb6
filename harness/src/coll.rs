//! Names, backup sets and chains: C01, C02, C03, C04, C15, C21.
use crate::util::*;
use ruplicity::collections::{BackupSet, Collections};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind { Full, FullMan, Inc, IncMan, FullSig, NewSig }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Info { pub kind: Kind, pub start: i64, pub end: i64, pub vol: usize, pub partial: bool, pub gz: bool, pub gpg: bool }

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Parsed { Yes(Info), No, Unclear }

enum T { Ok(i64), Bad, Unclear }
/// takes a timestamp from the front
fn take_time(s: &mut &[u8]) -> T {
    if s.len() < 16 { return T::Bad; }
    let (a, b) = s.split_at(16);
    for (i, c) in a.iter().enumerate() {
        let ok = match i { 8 => *c == b't', 15 => *c == b'z', _ => c.is_ascii_digit() };
        if !ok { return T::Bad; }
    }
    let t = std::str::from_utf8(a).unwrap();
    *s = b;
    match read_time(t) { Some(v) => T::Ok(v), None => T::Unclear }
}
fn take(s: &mut &[u8], lit: &str) -> bool {
    if s.starts_with(lit.as_bytes()) { *s = &s[lit.len()..]; true } else { false }
}
fn at_end(s: &[u8]) -> bool { s.is_empty() || s[0] == b'.' }
/// `.volN.difftar`, then the end or a dot
fn take_vol(mut s: &[u8]) -> Option<Option<usize>> {
    if !take(&mut s, ".vol") { return None; }
    let n = s.iter().take_while(|c| c.is_ascii_digit()).count();
    if n == 0 { return None; }
    let digits = &s[..n];
    s = &s[n..];
    if !take(&mut s, ".difftar") || !at_end(s) { return None; }
    let mut v: Option<usize> = Some(0);
    for d in digits { v = v.and_then(|v| v.checked_mul(10)).and_then(|v| v.checked_add((d - b'0') as usize)); }
    Some(v)
}
fn take_kind(mut s: &[u8], word: &str) -> Option<bool> {
    if !take(&mut s, word) { return None; }
    if !at_end(s) { return None; }
    let part = s.starts_with(b".part") && at_end(&s[5..]);
    Some(part)
}

/// What a file name says, read by hand from the grammar of duplicity's names.
pub fn parse_name(name: &str) -> Parsed {
    if name.contains(RAW) { return Parsed::No; }
    let low: Vec<u8> = name.bytes().map(|b| b.to_ascii_lowercase()).collect();
    let gz = low.ends_with(b".gz") || low.ends_with(b".z");
    let gpg = low.ends_with(b".gpg") || low.ends_with(b".g");
    let mut s: &[u8] = &low;
    let (full, sig);
    if take(&mut s, "duplicity-full-signatures.") { full = true; sig = true }
    else if take(&mut s, "duplicity-new-signatures.") { full = false; sig = true }
    else if take(&mut s, "duplicity-full.") { full = true; sig = false }
    else if take(&mut s, "duplicity-inc.") { full = false; sig = false }
    else { return Parsed::No }
    let mut unclear = false;
    let start = match take_time(&mut s) { T::Ok(t) => t, T::Bad => return Parsed::No, T::Unclear => { unclear = true; 0 } };
    let end = if full { start } else {
        if !take(&mut s, ".to.") { return Parsed::No }
        match take_time(&mut s) { T::Ok(t) => t, T::Bad => return Parsed::No, T::Unclear => { unclear = true; 0 } }
    };
    let info = if sig {
        match take_kind(s, ".sigtar") {
            Some(partial) => Info { kind: if full { Kind::FullSig } else { Kind::NewSig }, start, end, vol: 0, partial, gz, gpg },
            None => return Parsed::No,
        }
    } else if let Some(v) = take_vol(s) {
        match v {
            Some(vol) => Info { kind: if full { Kind::Full } else { Kind::Inc }, start, end, vol, partial: false, gz, gpg },
            None => return Parsed::No,
        }
    } else if let Some(partial) = take_kind(s, ".manifest") {
        // a name that also spells a volume after the manifest mark belongs to neither
        for i in 1..s.len() { if take_vol(&s[i..]).is_some() { unclear = true; } }
        Info { kind: if full { Kind::FullMan } else { Kind::IncMan }, start, end, vol: 0, partial, gz, gpg }
    } else { return Parsed::No };
    if unclear { Parsed::Unclear } else { Parsed::Yes(info) }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SetD { pub full: bool, pub start: i64, pub end: i64, pub gz: bool, pub gpg: bool, pub partial: bool, pub manifest: String, pub num: usize, pub vols: BTreeMap<usize, String> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ChainD { pub start: i64, pub end: i64, pub sets: Vec<SetD> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SigD { pub name: String, pub time: i64, pub gz: bool, pub gpg: bool }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Dump { pub chains: Vec<ChainD>, pub sigs: Vec<Vec<SigD>> }

/// What the listing means, or None when two sets end at the same time or two files claim one place.
pub struct Model { pub dump: Dump, pub sets: Vec<SetD>, pub ties: bool, pub sig_ties: bool, pub claims: bool, pub unclear: bool }

pub fn model(names: &[String]) -> Model {
    let mut sets: Vec<SetD> = vec![];
    let mut sigs: Vec<(Info, String)> = vec![];
    let (mut claims, mut unclear) = (false, false);
    for n in names {
        let i = match parse_name(n) { Parsed::Yes(i) => i, Parsed::No => continue, Parsed::Unclear => { unclear = true; continue } };
        let full = matches!(i.kind, Kind::Full | Kind::FullMan | Kind::FullSig);
        let k = match sets.iter().position(|s| s.full == full && s.start == i.start && s.end == i.end) {
            Some(k) => k,
            None => { sets.push(SetD { full, start: i.start, end: i.end, gz: false, gpg: false, partial: false, manifest: String::new(), num: 0, vols: BTreeMap::new() }); sets.len() - 1 }
        };
        let s = &mut sets[k];
        s.gz |= i.gz; s.gpg |= i.gpg; s.partial |= i.partial;
        match i.kind {
            Kind::Full | Kind::Inc => { claims |= s.vols.insert(i.vol, n.clone()).is_some(); s.num = s.vols.len(); }
            Kind::FullMan | Kind::IncMan => { claims |= !s.manifest.is_empty(); s.manifest = n.clone(); }
            _ => sigs.push((i, n.clone())),
        }
    }
    let mut order: Vec<usize> = (0..sets.len()).collect();
    order.sort_by_key(|&k| sets[k].end);
    let ties = order.windows(2).any(|w| sets[w[0]].end == sets[w[1]].end);
    let mut chains: Vec<ChainD> = vec![];
    for &k in &order {
        let s = sets[k].clone();
        if s.full { chains.push(ChainD { start: s.end, end: s.end, sets: vec![s] }); continue; }
        for c in chains.iter_mut() {
            let last = c.sets.last().unwrap();
            if c.end == s.start { c.end = s.end; c.sets.push(s); break; }
            if !last.full && last.start == s.start && last.end < s.end { c.end = s.end; *c.sets.last_mut().unwrap() = s; break; }
        }
    }
    chains.sort_by_key(|c| c.end);
    let d = |(i, n): &(Info, String)| SigD { name: n.clone(), time: i.end, gz: i.gz, gpg: i.gpg };
    let mut fulls: Vec<_> = sigs.iter().filter(|s| s.0.kind == Kind::FullSig).collect();
    let mut incs: Vec<_> = sigs.iter().filter(|s| s.0.kind == Kind::NewSig).collect();
    fulls.sort_by_key(|s| s.0.start);
    incs.sort_by_key(|s| (s.0.start, -s.0.end));
    let sig_ties = fulls.windows(2).any(|w| w[0].0.start == w[1].0.start)
        || incs.windows(2).any(|w| w[0].0.start == w[1].0.start && w[0].0.end == w[1].0.end);
    let mut sc: Vec<Vec<SigD>> = fulls.iter().map(|s| vec![d(s)]).collect();
    for s in incs {
        for c in sc.iter_mut() { if c.last().unwrap().time == s.0.start { c.push(d(s)); break; } }
    }
    Model { dump: Dump { chains, sigs: sc }, sets, ties, sig_ties, claims, unclear }
}

fn dump_set(s: &BackupSet, nums: &BTreeSet<usize>) -> SetD {
    let mut vols = BTreeMap::new();
    for &n in nums { if let Some(p) = s.volume_path(n) { vols.insert(n, p.to_string()); } }
    SetD { full: s.is_full(), start: s.start_time().sec, end: s.end_time().sec, gz: s.is_compressed(), gpg: s.is_encrypted(),
        partial: s.is_partial(), manifest: s.manifest_path().to_string(), num: s.num_volumes(), vols }
}

/// Volume numbers worth asking for: those in the listing and their neighbours.
fn numbers(names: &[String]) -> BTreeSet<usize> {
    let mut s: BTreeSet<usize> = [0, 1, 2, 3].into_iter().collect();
    for n in names {
        if let Parsed::Yes(i) = parse_name(n) {
            if matches!(i.kind, Kind::Full | Kind::Inc) { s.insert(i.vol); s.insert(i.vol.wrapping_add(1)); s.insert(i.vol.wrapping_sub(1)); }
        }
    }
    s
}

pub fn actual(names: &[String]) -> Result<Dump, String> {
    let nums = numbers(names);
    let r = catch_unwind(AssertUnwindSafe(|| {
        let c = Collections::from_filenames(names.iter().map(|n| to_path(n)));
        let mut bad = None;
        let chains: Vec<ChainD> = c.backup_chains().map(|b| {
            let mut sets = vec![dump_set(b.full_set(), &nums)];
            sets.extend(b.inc_sets().map(|s| dump_set(s, &nums)));
            for s in std::iter::once(b.full_set()).chain(b.inc_sets()) {
                if s.is_full() == s.is_incremental() { bad = Some("a set is both or neither full and incremental".to_string()); }
                if s.is_complete() == s.manifest_path().is_empty() { bad = Some("a set is complete without a manifest, or the reverse".to_string()); }
            }
            ChainD { start: b.start_time().sec, end: b.end_time().sec, sets }
        }).collect();
        let sigs: Vec<Vec<SigD>> = c.signature_chains().map(|b| {
            let f = |s: &ruplicity::collections::SignatureFile| SigD { name: s.file_name.clone(), time: s.time.sec, gz: s.compressed, gpg: s.encrypted };
            let mut v = vec![f(b.full_signature())];
            v.extend(b.inc_signatures().map(f));
            if b.start_time().sec != v[0].time { bad = Some("start of a signature chain".into()); }
            if b.end_time().sec != v.last().unwrap().time { bad = Some("end of a signature chain".into()); }
            v
        }).collect();
        if c.num_snapshots() != chains.iter().map(|c| c.sets.len()).sum::<usize>() { bad = Some("num_snapshots".into()); }
        match bad { Some(b) => Err(b), None => Ok(Dump { chains, sigs }) }
    }));
    match r { Ok(r) => r, Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))) }
}

pub fn vary_case(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_ascii_uppercase(),
        1 => s.to_ascii_lowercase(),
        2 => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        _ => s.to_string(),
    }
}

const SUFFIX: &[&str] = &["", "", ".gz", ".gz", ".gpg", ".gpg", ".z", ".g", ".bz2", ".", ".gz.gpg", ".gpg.gz", ".part", ".gzx", ".xgz", ".part.gz", ".partx"];

pub fn name_of(kind: Kind, start: &str, end: &str, vol: &str, partial: bool, suffix: &str) -> String {
    let p = if partial { ".part" } else { "" };
    match kind {
        Kind::Full => format!("duplicity-full.{}.vol{}.difftar{}{}", start, vol, p, suffix),
        Kind::FullMan => format!("duplicity-full.{}.manifest{}{}", start, p, suffix),
        Kind::Inc => format!("duplicity-inc.{}.to.{}.vol{}.difftar{}{}", start, end, vol, p, suffix),
        Kind::IncMan => format!("duplicity-inc.{}.to.{}.manifest{}{}", start, end, p, suffix),
        Kind::FullSig => format!("duplicity-full-signatures.{}.sigtar{}{}", start, p, suffix),
        Kind::NewSig => format!("duplicity-new-signatures.{}.to.{}.sigtar{}{}", start, end, p, suffix),
    }
}
pub const KINDS: &[Kind] = &[Kind::Full, Kind::FullMan, Kind::Inc, Kind::IncMan, Kind::FullSig, Kind::NewSig];

fn volume_text(r: &mut Rng) -> String {
    match r.below(10) {
        0 => "0".into(),
        1 => format!("{}", u64::MAX),
        2 => "18446744073709551616".into(),
        3 => format!("{}", r.next()),
        4 => format!("{}{}", "0".repeat(if r.chance(1, 2) { 2 } else { r.range(10, 40) }), r.below(100)),
        5 => "9".repeat(r.range(19, 60)),
        6 => format!("{}", u64::MAX - r.below(3) as u64),
        _ => format!("{}", r.range(1, 300)),
    }
}

const BITS: &[&str] = &["duplicity-full.", "duplicity-inc.", "duplicity-full-signatures.", "duplicity-new-signatures.", ".vol1", ".difftar", ".manifest", ".sigtar", ".to.", ".part", ".gz", ".gpg", ".", "-", "\n", "é", "𝒳", "İ", "K", "٣", "\u{0}", " ", "..", "vol", "t", "z", "0", "9", "99999999999999999999", "\u{F8FF}"];

fn mutate(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 2) {
        let i = r.below(v.len() + 1);
        match r.below(6) {
            0 if i < v.len() => { v.remove(i); }
            1 => { let b: Vec<char> = r.pick(BITS).chars().collect(); for (k, c) in b.into_iter().enumerate() { v.insert(i + k, c); } }
            2 if i < v.len() => { v[i] = *r.pick(&['0', '9', '.', 'a', 't', 'z', '-', 'é', '٣', ' ']); }
            3 if i < v.len() => { let c = v[i]; v.insert(i, c); }
            4 => v.truncate(i),
            _ => { let b: Vec<char> = r.pick(BITS).chars().collect(); if r.chance(1, 2) { v.extend(b) } else { for (k, c) in b.into_iter().enumerate() { v.insert(k, c); } } }
        }
    }
    v.into_iter().collect()
}

pub fn compare(names: &[String], what: &str) -> Result<bool, String> {
    let m = model(names);
    let a = actual(names)?;
    if m.unclear { return Ok(false); }
    if m.dump != a { return Err(format!("{}: expected {:?}, got {:?}", what, m.dump, a)); }
    Ok(true)
}

pub fn c01(r: &mut Rng) -> Case {
    let pool = [stamp(r.below(100)), stamp(100 + r.below(100)), stamp(86400 * r.below(5000) + r.below(86400)), "19700101T000000Z".to_string(), "99991231T235959Z".into(), "20000229T235959Z".into()];
    let start = r.pick(&pool).clone();
    let mut end = r.pick(&pool).clone();
    if read_time(&end) <= read_time(&start) { end = "99991231T235959Z".to_string(); }
    let kind = *r.pick(KINDS);
    let vol = volume_text(r);
    let partial = r.chance(1, 3);
    let suffix = *r.pick(SUFFIX);
    let mut name = name_of(kind, &start, &end, &vol, partial, suffix);
    if r.chance(1, 2) { name = mutate(r, &name); }
    if r.chance(1, 6) { name = vary_case(r, &name); }
    if r.chance(1, 40) { let k = r.below(name.len() + 1); if name.is_char_boundary(k) { let x = r.pick(&["x", ".", "0", "é"]).repeat(r.range(100, 400)); name.insert_str(k, &x); } }
    if r.chance(1, 30) { let other = name_of(*r.pick(KINDS), &start, &end, "1", false, ""); name = format!("{}{}{}", name, r.pick(&["", ".", "/"]), other); }
    if r.chance(1, 60) { name = (0..r.below(30)).map(|_| char::from_u32(r.below(0x3000) as u32).unwrap_or('x')).collect(); }
    // a full set to which the file, if it is incremental, can be attached
    let mut names = vec![];
    if r.chance(3, 4) || !matches!(kind, Kind::Full | Kind::FullMan | Kind::FullSig) {
        names.push(name_of(Kind::FullMan, &start, &start, "", false, ""));
        names.push(name_of(Kind::FullSig, &start, &start, "", false, ""));
    }
    names.push(name.clone());
    let input = format!("listing {:?}", names);
    trying(&input);
    let m = model(&names);
    if m.ties || m.sig_ties || m.claims { return Case::ok(input, true); }
    match compare(&names, "listing") {
        Ok(clear) => Case::ok(input, !clear || parse_name(&name) == Parsed::No && !name.starts_with("duplicity-")),
        Err(e) => Case::bad(input, e),
    }
}

/// The files of one set.
fn set_files(r: &mut Rng, full: bool, s: &str, e: &str, rich: bool, out: &mut Vec<String>) {
    let suffix = *r.pick(&["", ".gz", ".gz", ".gpg", ".z", ".g"]);
    let n = if rich { if r.chance(1, 200) { r.range(200, 600) } else { r.below(8) } } else { r.range(0, 2) };
    let mut seen = BTreeSet::new();
    for k in 0..n {
        let v = if rich && r.chance(1, 4) { match r.below(4) { 0 => usize::MAX, 1 => r.next() as usize, 2 => 0, _ => r.below(2000) } } else { k + 1 };
        if !seen.insert(v) { continue; }
        let v = if rich && r.chance(1, 8) { format!("0{}", v) } else { format!("{}", v) };
        out.push(name_of(if full { Kind::Full } else { Kind::Inc }, s, e, &v, rich && r.chance(1, 8), if r.chance(4, 5) { suffix } else { "" }));
    }
    if n == 0 || r.chance(3, 4) {
        out.push(name_of(if full { Kind::FullMan } else { Kind::IncMan }, s, e, "", rich && r.chance(1, 5), *r.pick(&["", "", ".gpg", ".gz"])));
    }
}
fn sig_file(r: &mut Rng, full: bool, s: &str, e: &str, rich: bool) -> String {
    name_of(if full { Kind::FullSig } else { Kind::NewSig }, s, e, "", rich && r.chance(1, 6), *r.pick(&["", ".gz", ".gz", ".gpg"]))
}

/// A listing of `n` time spans over few distinct times.
pub fn listing(r: &mut Rng, n: usize, rich: bool, sigs: bool) -> Vec<String> {
    let mut out = vec![];
    let step = *r.pick(&[1usize, 60, 86400]);
    let pool = n + 2;
    let mut now = 0;
    let mut base = 100 * r.below(1000);
    // mostly recent times
    let mut year = 2015;
    if r.chance(1, 6) {
        year = *r.pick(&[0, 1, 1582, 1899, 1969, 1970, 2037, 2262, 9990]);
        // around the beginning of the next year, now and then
        if r.chance(1, 2) { base = 365 * 86400 - (r.below(pool * 2) * step).min(365 * 86400); }
    }
    let time = |k: usize| stamp_from(year, base + k * step);
    let mut seen = BTreeSet::new();
    for i in 0..n {
        let regular = r.chance(3, 5);
        let full = (i == 0 && r.chance(9, 10)) || r.chance(1, 5);
        let (a, b) = if full { let t = if regular { now + 1 } else { r.below(pool * 2) }; (t, t) }
            else if regular { (now, now + r.range(1, 2)) }
            else { let a = r.below(pool * 2); (a, if r.chance(1, 8) { a.saturating_sub(r.below(3)) } else { a + r.below(5) }) };
        if !seen.insert((full, a, b)) { continue; }
        if regular { now = b; }
        let (s, e) = (time(a), time(b));
        if r.chance(9, 10) { set_files(r, full, &s, &e, rich, &mut out); }
        if sigs && r.chance(9, 10) { let f = sig_file(r, full, &s, &e, rich); out.push(f); }
    }
    r.shuffle(&mut out);
    if r.chance(1, 4) { let x = r.below(out.len() + 1); out.insert(x, "readme.txt".to_string()); }
    if r.chance(1, 6) { let x = r.below(out.len() + 1); out.insert(x, format!("{}{}", *r.pick(&["", "x", "duplicity-full.20150101T000000Z.manifest"]), RAW)); }
    if r.chance(1, 10) { for n in out.iter_mut() { *n = vary_case(r, n); } }
    out
}

fn keyed(d: &[SetD]) -> BTreeMap<(bool, i64, i64), SetD> { d.iter().map(|s| ((s.full, s.start, s.end), s.clone())).collect() }

pub fn c02(r: &mut Rng) -> Case {
    let n = if r.chance(1, 12) { r.range(6, 90) } else { r.range(1, 5) };
    let names = listing(r, n, true, true);
    let input = format!("listing {:?}", names);
    trying(&input);
    let m = model(&names);
    let a = match actual(&names) { Ok(a) => a, Err(e) => return Case::bad(input, e) };
    if m.claims || m.unclear { return Case::ok(input, true); }
    let want = keyed(&m.sets);
    let mut seen = BTreeSet::new();
    let mut nsets = 0;
    for s in a.chains.iter().flat_map(|c| &c.sets) {
        nsets += 1;
        if !seen.insert((s.full, s.start, s.end)) { return Case::bad(input, format!("two sets with the same kind and times: {:?}", s)); }
        match want.get(&(s.full, s.start, s.end)) {
            None => return Case::bad(input, format!("no file of the set {:?} is in the listing", s)),
            Some(w) if w != s => return Case::bad(input, format!("expected {:?}, got {:?}", w, s)),
            _ => {}
        }
    }
    for s in &m.sets {
        if s.full && !seen.contains(&(true, s.start, s.end)) { return Case::bad(input, format!("missing set {:?}", s)); }
    }
    if !m.ties {
        let b: usize = m.dump.chains.iter().map(|c| c.sets.len()).sum();
        if b != nsets { return Case::bad(input, format!("{} sets reported, expected {}", nsets, b)); }
    }
    Case::ok(input, m.sets.len() < 2 && m.sets.iter().all(|s| s.num < 2))
}

/// The structure of the chains, without the contents of the sets.
fn skeleton(c: &[ChainD]) -> Vec<(i64, i64, Vec<(bool, i64, i64)>)> {
    c.iter().map(|c| (c.start, c.end, c.sets.iter().map(|s| (s.full, s.start, s.end)).collect())).collect()
}

pub fn c03(r: &mut Rng) -> Case {
    let n = if r.chance(1, 100) { r.range(257, 400) } else { match r.below(10) { 0 => r.range(10, 60), 1..=3 => r.range(1, 4), _ => r.range(3, 12) } };
    let sigs = r.chance(1, 5);
    let names = listing(r, n, false, sigs);
    let input = format!("listing {:?}", names);
    trying(&input);
    let m = model(&names);
    let a = match actual(&names) { Ok(a) => a, Err(e) => return Case::bad(input, e) };
    if m.unclear { return Case::ok(input, true); }
    let mut seen = BTreeSet::new();
    for c in &a.chains {
        let f = &c.sets[0];
        if !f.full || f.end != c.start { return Case::bad(input, format!("chain {:?} does not begin with its full set", c)); }
        let mut t = c.start;
        for s in &c.sets[1..] {
            if s.full || s.start != t { return Case::bad(input, format!("set {:?} does not begin at the end of its predecessor", s)); }
            t = s.end;
        }
        if t != c.end { return Case::bad(input, format!("chain ends at {} instead of {}", c.end, t)); }
        for s in &c.sets { if !seen.insert((s.full, s.start, s.end)) { return Case::bad(input, format!("set {:?} is in two chains", s)); } }
    }
    if a.chains.windows(2).any(|w| w[0].end > w[1].end) { return Case::bad(input, "chains are not sorted by end time".into()); }
    let fulls: BTreeSet<i64> = m.sets.iter().filter(|s| s.full).map(|s| s.end).collect();
    let got: BTreeSet<i64> = a.chains.iter().map(|c| c.start).collect();
    if fulls != got || a.chains.len() != fulls.len() { return Case::bad(input, format!("chains start at {:?} instead of {:?}", got, fulls)); }
    if !m.ties && skeleton(&m.dump.chains) != skeleton(&a.chains) {
        return Case::bad(input, format!("expected chains {:?}, got {:?}", skeleton(&m.dump.chains), skeleton(&a.chains)));
    }
    Case::ok(input, m.sets.len() < 2)
}

pub fn c04(r: &mut Rng) -> Case {
    let n = if r.chance(1, 100) { r.range(257, 400) } else { match r.below(10) { 0 => r.range(10, 60), 1..=3 => r.range(1, 4), _ => r.range(3, 12) } };
    let mut names = listing(r, n, true, true);
    if r.chance(1, 2) { names.retain(|n| n.to_ascii_lowercase().contains("signatures")); }
    if r.chance(1, 6) {
        // second files of the same signatures
        let sigs: Vec<String> = names.iter().filter(|n| matches!(parse_name(n), Parsed::Yes(Info { kind: Kind::FullSig | Kind::NewSig, .. }))).cloned().collect();
        for _ in 0..r.range(1, 3) {
            if sigs.is_empty() { break; }
            let n = format!("{}{}", r.pick(&sigs), r.pick(&[".gz", ".gpg", ".2", "."]));
            if !names.contains(&n) { let x = r.below(names.len() + 1); names.insert(x, n); }
        }
    }
    let input = format!("listing {:?}", names);
    trying(&input);
    let m = model(&names);
    let a = match actual(&names) { Ok(a) => a, Err(e) => return Case::bad(input, e) };
    if m.unclear { return Case::ok(input, true); }
    if m.sig_ties {
        // structure only
        let mut seen = BTreeSet::new();
        for c in &a.sigs {
            let mut prev: Option<i64> = None;
            for (k, s) in c.iter().enumerate() {
                let i = match parse_name(&s.name) { Parsed::Yes(i) => i, _ => return Case::bad(input, format!("{:?} is not a signature", s)) };
                let want = if k == 0 { Kind::FullSig } else { Kind::NewSig };
                if i.kind != want || i.end != s.time || i.gz != s.gz || i.gpg != s.gpg { return Case::bad(input, format!("{:?} is not what its name says", s)); }
                if let Some(p) = prev { if p != i.start { return Case::bad(input, format!("{:?} does not follow the signature before it", s)); } }
                prev = Some(i.end);
                if !seen.insert(s.name.clone()) { return Case::bad(input, format!("{:?} is in two chains", s)); }
            }
        }
        // one chain per full signature file, by start time
        if a.sigs.windows(2).any(|w| w[0][0].time > w[1][0].time) { return Case::bad(input, "chains are not sorted by start time".into()); }
        let mut want: Vec<&String> = names.iter().filter(|n| matches!(parse_name(n), Parsed::Yes(Info { kind: Kind::FullSig, .. }))).collect();
        let mut got: Vec<&String> = a.sigs.iter().map(|c| &c[0].name).collect();
        want.sort(); got.sort();
        if want != got { return Case::bad(input, format!("expected chains of {:?}, got {:?}", want, got)); }
        // a signature that was left out had no chain to continue
        let key = |n: &str| match parse_name(n) { Parsed::Yes(i) => (i.start, -i.end), _ => unreachable!() };
        for n in &names {
            if !matches!(parse_name(n), Parsed::Yes(Info { kind: Kind::NewSig, .. })) || seen.contains(n) { continue; }
            let k = key(n);
            for c in &a.sigs {
                let mut before = c[1..].iter().take_while(|s| key(&s.name) < k).count();
                let end = c[before].time;
                before += 1;
                if end == k.0 && !c.get(before).is_some_and(|s| key(&s.name) == k) { return Case::bad(input, format!("{:?} was left out of the chain {:?}", n, c)); }
            }
        }
        return Case::ok(input, false);
    }
    if m.dump.sigs != a.sigs { return Case::bad(input, format!("expected {:?}, got {:?}", m.dump.sigs, a.sigs)); }
    Case::ok(input, m.dump.sigs.is_empty())
}

pub fn c15(r: &mut Rng) -> Case {
    let n = if r.chance(1, 30) { r.range(20, 100) } else { r.range(1, 10) };
    let rich = r.chance(1, 2);
    let names = listing(r, n, rich, true);
    let mut other = names.clone();
    match r.below(3) { 0 => other.reverse(), 1 => other.sort(), _ => r.shuffle(&mut other) }
    let input = format!("listings {:?} and {:?}", names, other);
    trying(&input);
    let m = model(&names);
    if m.ties || m.sig_ties || m.claims || m.unclear { return Case::ok(input, true); }
    let a = match actual(&names) { Ok(a) => a, Err(e) => return Case::bad(input, e) };
    let b = match actual(&other) { Ok(a) => a, Err(e) => return Case::bad(input, e) };
    if a != b { return Case::bad(input, format!("{:?} and {:?}", a, b)); }
    // the snapshots
    let snaps = |l: &[String]| {
        let mem = Mem { names: l.to_vec(), ..Default::default() };
        let b = ruplicity::Backup::new(mem).unwrap();
        let v: Vec<(i64, bool, usize)> = b.snapshots().unwrap().into_iter().map(|s| (s.time().sec, s.is_full(), s.num_volumes())).collect();
        v
    };
    if snaps(&names) != snaps(&other) { return Case::bad(input, "the snapshots differ".into()); }
    Case::ok(input, names.len() < 2 || names == other)
}

fn set_row(s: &SetD, year: i64) -> String { format!("{:<20} {:<13} {:>12}\n", if s.full { "Full" } else { "Incremental" }, crate::os::local_text(s.end, year), s.num) }
fn chain_text(c: &ChainD, year: i64) -> String {
    let mut t = format!("Chain start time: {}\nChain end time: {}\nNumber of contained backup sets: {}\nTotal number of contained volumes: {}\nType of backup set:  Time:         Num volumes:\n",
        crate::os::local_text(c.start, year), crate::os::local_text(c.end, year), c.sets.len(), c.sets.iter().map(|s| s.num).sum::<usize>());
    for s in &c.sets { t.push_str(&set_row(s, year)); }
    t
}
/// The texts that a listing is displayed as.
fn texts(c: &Collections) -> Vec<(String, String)> {
    let mut v = vec![("collections".to_string(), format!("{}", c))];
    for (k, b) in c.backup_chains().enumerate() {
        v.push((format!("chain {}", k), format!("{}", b)));
        for (j, s) in std::iter::once(b.full_set()).chain(b.inc_sets()).enumerate() { v.push((format!("set {} of chain {}", j, k), format!("{}\n", s))); }
    }
    for (k, s) in c.signature_chains().enumerate() { v.push((format!("signature chain {}", k), format!("{}", s))); }
    v
}
pub fn c21(r: &mut Rng) -> Case {
    let n = if r.chance(1, 30) { r.range(30, 300) } else { r.range(0, 10) };
    let rich = r.chance(1, 2);
    let mut names = listing(r, n, rich, true);
    if r.chance(1, 2) {
        // times around now
        let y = crate::os::year_now();
        for n in names.iter_mut() { for (a, b) in [("2015", y), ("2016", y - 1), ("2017", y + 1)] { *n = n.replace(a, &b.to_string()); } }
    }
    let input = format!("listing {:?}", names);
    trying(&input);
    let m = model(&names);
    if m.ties || m.sig_ties || m.claims || m.unclear { return Case::ok(input, true); }
    let res = crate::os::printed(|year| {
        let c = Collections::from_filenames(names.iter().map(|n| to_path(n)));
        let mut want = vec![("collections".to_string(), m.dump.chains.iter().map(|c| chain_text(c, year)).collect::<String>())];
        for (k, b) in m.dump.chains.iter().enumerate() {
            want.push((format!("chain {}", k), chain_text(b, year)));
            for (j, s) in b.sets.iter().enumerate() { want.push((format!("set {} of chain {}", j, k), set_row(s, year))); }
        }
        for (k, s) in m.dump.sigs.iter().enumerate() {
            let mut t = format!("start time: {}, end time: {}\n", crate::os::local_text(s[0].time, year), crate::os::local_text(s.last().unwrap().time, year));
            for f in s { t.push_str(&format!(" {}\n", f.name)); }
            want.push((format!("signature chain {}", k), t));
        }
        let got = texts(&c);
        for (g, w) in got.iter().zip(&want) { if g != w { return Err(format!("{} {:?} instead of {} {:?}", g.0, g.1, w.0, w.1)); } }
        if got.len() != want.len() { return Err(format!("{} texts instead of {}", got.len(), want.len())); }
        Ok(())
    });
    Case::from(input, m.dump.chains.is_empty() && m.dump.sigs.is_empty(), res)
}
