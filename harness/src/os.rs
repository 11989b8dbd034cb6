//! What depends on the system: displayed times (C18) and the local backend (C19).
use crate::util::*;
use ruplicity::backend::local::LocalBackend;
use ruplicity::timefmt::TimeDisplay;
use ruplicity::Backend;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::fs;
use std::io::Read;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{SystemTime, UNIX_EPOCH};
use time::Timespec;

// ---------------------------------------------------------------- C18
/// Zones as the TZ variable spells them, with the seconds ahead of UTC in winter and in summer
/// and the rule of the change: (month, week, hour of the local clock) of its begin and end.
struct Zone { tz: &'static str, std: i64, dst: Option<(i64, (i64, i64, i64), (i64, i64, i64))> }
const ZONES: &[Zone] = &[
    Zone { tz: "UTC0", std: 0, dst: None },
    Zone { tz: "AAA-5:30", std: 19800, dst: None },
    Zone { tz: "BBB+11", std: -39600, dst: None },
    Zone { tz: "CCC-14", std: 50400, dst: None },
    Zone { tz: "DDD+12", std: -43200, dst: None },
    Zone { tz: "EEE+3:29:17", std: -12557, dst: None },
    Zone { tz: "EST5EDT,M3.2.0,M11.1.0", std: -18000, dst: Some((-14400, (3, 2, 2), (11, 1, 2))) },
    Zone { tz: "AEST-10AEDT,M10.1.0,M4.1.0/3", std: 36000, dst: Some((39600, (10, 1, 2), (4, 1, 3))) },
    Zone { tz: "CET-1CEST,M3.5.0,M10.5.0/3", std: 3600, dst: Some((7200, (3, 5, 2), (10, 5, 3))) },
];
/// date and time of day of a number of seconds since the epoch
fn civil(t: i64) -> (i64, i64, i64, i64, i64, i64) {
    let (mut days, s) = (t.div_euclid(86400), t.rem_euclid(86400));
    let mut y = 1970;
    loop {
        let l = if leap(y) { 366 } else { 365 };
        if days < 0 { y -= 1; days += if leap(y) { 366 } else { 365 }; } else if days >= l { days -= l; y += 1; } else { break; }
    }
    let mut m = 1;
    while days >= month_days(y, m) { days -= month_days(y, m); m += 1; }
    (y, m, days + 1, s / 3600, s / 60 % 60, s % 60)
}
/// the n-th (5: the last) Sunday of a month
fn sunday(y: i64, m: i64, n: i64) -> i64 {
    let mut found = vec![];
    for d in 1..=month_days(y, m) { if (epoch_seconds(y, m, d, 0, 0, 0).div_euclid(86400) + 4).rem_euclid(7) == 0 { found.push(d); } }
    if n == 5 { *found.last().unwrap() } else { found[n as usize - 1] }
}
impl Zone {
    fn offset(&self, t: i64) -> i64 {
        let (dst, a, b) = match self.dst { None => return self.std, Some(x) => x };
        let y = civil(t + self.std).0;
        let begin = epoch_seconds(y, a.0, sunday(y, a.0, a.1), a.2, 0, 0) - self.std;
        let end = epoch_seconds(y, b.0, sunday(y, b.0, b.1), b.2, 0, 0) - dst;
        let summer = if begin < end { begin <= t && t < end } else { !(end <= t && t < begin) };
        if summer { dst } else { self.std }
    }
}
fn now() -> i64 { SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs() as i64 }
static ZONE: Mutex<()> = Mutex::new(());
const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

pub fn c18(r: &mut Rng) -> Case {
    let _one = ZONE.lock().unwrap_or_else(|e| e.into_inner());
    let zone = r.pick(ZONES);
    let n = now();
    let year = civil(n).0;
    let t = match r.below(8) {
        0 => n + r.below(2 * 86400) as i64 - 86400,
        1 | 2 => epoch_seconds(year, 1, 1, 0, 0, 0) + r.below(366 * 86400) as i64,
        3 => epoch_seconds(year + r.below(3) as i64 - 1, 1, 1, 0, 0, 0) + r.below(2 * 15 * 3600) as i64 - 15 * 3600,
        4 => epoch_seconds(year + r.below(5) as i64 - 2, r.range(1, 12) as i64, 1, 0, 0, 0) + r.below(3) as i64 - 1,
        5 => epoch_seconds(r.range(1, 9998) as i64, r.range(1, 12) as i64, r.range(1, 28) as i64, r.below(24) as i64, r.below(60) as i64, r.below(60) as i64),
        6 => r.below(200_000) as i64 - 100_000,
        _ => epoch_seconds(r.range(1900, 2100) as i64, 1, 1, 0, 0, 0) + r.below(366 * 86400) as i64,
    };
    // the C library has no rules of the summer time for the past
    let zone = if zone.dst.is_some() && t < epoch_seconds(1971, 1, 1, 0, 0, 0) { &ZONES[1] } else { zone };
    let nsec = if r.chance(1, 3) { r.below(1_000_000_000) as i32 } else { 0 };
    let local = r.chance(1, 2);
    let input = format!("{} seconds and {} ns after the epoch, shown {}, TZ={}", t, nsec, if local { "locally" } else { "in UTC" }, zone.tz);
    trying(&input);
    std::env::set_var("TZ", zone.tz);
    time::tzset();
    let ts = Timespec::new(t, nsec);
    let got = if local { format!("{}", ts.into_local_display()) } else { format!("{}", ts.into_utc_display()) };
    let c = civil(t + if local { zone.offset(t) } else { 0 });
    let mut years = vec![];
    for m in [n, now()] { years.push(civil(m).0); years.push(civil(m + zone.offset(m)).0); }
    let day = format!("{} {:02}", MONTHS[c.1 as usize - 1], c.2);
    let want: Vec<String> = years.iter().map(|y| if *y == c.0 { format!("{} {:02}:{:02}", day, c.3, c.4) } else { format!("{}  {}", day, c.0) }).collect();
    if want.contains(&got) { Case::ok(input, false) } else { Case::bad(input, format!("{:?} instead of {:?}", got, want[0])) }
}

/// The zone in which C09, C20 and C21 print (one for the process, so that its threads agree).
const PRINT: &Zone = &ZONES[1];
pub fn print_zone() { std::env::set_var("TZ", PRINT.tz); time::tzset(); }
/// The year in that zone.
pub fn year_now() -> i64 { civil(now() + PRINT.std).0 }
/// What a time looks like in that zone and year.
pub fn local_text(t: i64, year: i64) -> String {
    let c = civil(t + PRINT.std);
    let day = format!("{} {:02}", MONTHS[c.1 as usize - 1], c.2);
    if c.0 == year { format!("{} {:02}:{:02}", day, c.3, c.4) } else { format!("{}  {}", day, c.0) }
}
/// Prints, and compares with a text of the current year.
pub fn printed<F: Fn(i64) -> Result<(), String>>(print: F) -> Result<(), String> {
    let y = year_now();
    match print(y) { Err(_) if year_now() != y => print(y + 1), r => r }
}

// ---------------------------------------------------------------- C19
static COUNT: AtomicU64 = AtomicU64::new(0);
struct Scratch(PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); } }
fn some_name(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => format!("duplicity-full.{}.vol{}.difftar.gz", stamp(r.below(1000)), r.below(5)).into_bytes(),
        1 => { let mut v = b".".to_vec(); v.extend(some_name(r)); v.truncate(255); if v == b".." { v.push(b'x') } v }
        2 => { let n = r.range(1, 255); (0..n).map(|_| *r.pick(b"ab.~ \\-")).chain(b"x".iter().cloned()).take(255).collect() }
        3 => { let n = r.range(1, 12); let v: Vec<u8> = (0..n).map(|_| loop { let b = r.below(256) as u8; if b != 0 && b != b'/' { break b } }).collect(); if v == b"." || v == b".." { b"dots".to_vec() } else { v } }
        4 => r.pick(&[&b"a\nb"[..], b" ", b"x ", b"...", b"\xff", b"caf\xe9", b"caf\xc3\xa9", b"\xf0\x9f\x98\x80", b"-", b"~", b"*", b"C:\\x", b"%2e", b"a;b", b"$HOME", b"data", b"inner"]).to_vec(),
        _ => format!("f{}", r.below(40)).into_bytes(),
    }
}
fn content(r: &mut Rng) -> Vec<u8> { let n = *r.pick(&[0usize, 1, 7, 300, 9000]); (0..n).map(|_| r.below(256) as u8).collect() }
fn path_of(dir: &Path, name: &[u8]) -> PathBuf { dir.join(OsStr::from_bytes(name)) }
fn read_all<R: Read>(mut f: R) -> Result<Vec<u8>, String> { let mut v = vec![]; f.read_to_end(&mut v).map_err(|e| e.to_string())?; Ok(v) }
fn listing(b: &LocalBackend) -> Result<Vec<Vec<u8>>, String> {
    let mut v: Vec<Vec<u8>> = b.file_names().map_err(|e| e.to_string())?.map(|n| n.into_vec()).collect();
    v.sort();
    Ok(v)
}

pub fn c19(r: &mut Rng) -> Case {
    let top = Scratch(std::env::temp_dir().join(format!("verif-c19-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::Relaxed))));
    let deep = r.chance(1, 2);
    let base: PathBuf = if deep { path_of(&top.0, &some_name(r)) } else { top.0.join("data") };
    fs::create_dir_all(&base).unwrap();
    let mut files: BTreeMap<Vec<u8>, Option<Vec<u8>>> = BTreeMap::new(); // None: not a readable file
    let many = if r.chance(1, 40) { r.range(600, 1400) } else { 0 };
    let count = if many > 0 { many } else { r.below(12) };
    for k in 0..count {
        let name = if many > 0 { format!("many-{:05}-{}", k, "x".repeat(60)).into_bytes() } else { some_name(r) };
        if files.contains_key(&name) { continue; }
        let p = path_of(&base, &name);
        match if many > 0 { 0 } else { r.below(10) } {
            0..=6 => { let c = content(r); fs::write(&p, &c).unwrap(); files.insert(name, Some(c)); }
            7 => { fs::create_dir(&p).unwrap(); fs::write(p.join("inner"), b"inside").unwrap(); files.insert(name, None); }
            8 => { let c = content(r); let q = top.0.join(format!("target-{}", k)); fs::write(&q, &c).unwrap(); std::os::unix::fs::symlink(&q, &p).unwrap(); files.insert(name, Some(c)); }
            _ => { std::os::unix::fs::symlink("nowhere", &p).unwrap(); files.insert(name, None); }
        }
    }
    // the same names elsewhere, with another content
    if many == 0 { for name in files.keys() { let p = path_of(&top.0, name); if !p.exists() { let _ = fs::write(&p, b"another directory"); } } }
    // how the directory is given
    let mut given = base.as_os_str().as_bytes().to_vec();
    match r.below(5) {
        0 => given.push(b'/'),
        1 => given.extend(b"/."),
        2 => if let Ok(cwd) = std::env::current_dir() { let mut v = b"../".repeat(cwd.components().count() - 1); v.extend(&given[1..]); given = v; },
        3 => { let l = top.0.join("link-to-it"); std::os::unix::fs::symlink(&base, &l).unwrap(); given = l.into_os_string().into_vec(); }
        _ => {}
    }
    let names: Vec<Vec<u8>> = files.keys().cloned().collect();
    let input = format!("directory {} with {}", show(&given), if many > 0 { format!("{} files", names.len()) } else { show_list(&names) });
    trying(&input);
    let backend = LocalBackend::new(OsString::from_vec(given));
    let run = || -> Result<(), String> {
        if r.chance(1, 12) {    // nothing to list
            let b = LocalBackend::new(top.0.join("missing"));
            if b.file_names().is_ok() { return Err("a directory that does not exist is listed".into()); }
            if b.open_file(Path::new("data")).is_ok() { return Err("a file is opened in a directory that does not exist".into()); }
            fs::write(top.0.join("plain"), b"x").unwrap();
            if LocalBackend::new(top.0.join("plain")).file_names().is_ok() { return Err("a file is listed as a directory".into()); }
        }
        let got = listing(&backend)?;
        if got != names { return Err(format!("lists {} instead", show_list(&got))); }
        let all: Vec<OsString> = backend.file_names().map_err(|e| e.to_string())?.collect();
        if backend.file_names().map_err(|e| e.to_string())?.count() != all.len() { return Err("counts another number of names".into()); }
        let k = r.below(all.len() + 1);
        let mut it = backend.file_names().map_err(|e| e.to_string())?;
        if it.nth(k) != all.get(k).cloned() { return Err(format!("nth({}) is another name", k)); }
        if it.count() != all.len().saturating_sub(k + 1) { return Err(format!("counts another number of names after nth({})", k)); }
        for round in 0..2 {
            for (name, want) in &files {
                if many > 0 && !r.chance(1, 50) { continue; }
                if let Some(want) = want {
                    let got = backend.open_file(Path::new(OsStr::from_bytes(name))).map_err(|e| format!("{} is not opened: {}", show(name), e))?;
                    if &read_all(got)? != want { return Err(format!("{} has another content", show(name))); }
                }
            }
            let missing = loop { let n = some_name(r); if !files.contains_key(&n) { break n } };
            if !path_of(&base, &missing).exists() && backend.open_file(Path::new(OsStr::from_bytes(&missing))).is_ok() { return Err(format!("{} is opened and does not exist", show(&missing))); }
            if round == 1 { break; }
            // the directory changes while the backend is in use
            if let Some(n) = names.iter().find(|n| files[*n].is_some() && fs::symlink_metadata(path_of(&base, n)).map_or(false, |m| m.is_file())) {
                let n = n.clone();
                if r.chance(1, 2) { let c = content(r); fs::write(path_of(&base, &n), &c).unwrap(); files.insert(n, Some(c)); }
                else { fs::remove_file(path_of(&base, &n)).unwrap(); files.remove(&n); }
            }
            let fresh = b"a new file".to_vec();
            fs::write(path_of(&base, &fresh), b"new").unwrap();
            files.insert(fresh, Some(b"new".to_vec()));
            let want: Vec<Vec<u8>> = files.keys().cloned().collect();
            let got = listing(&backend)?;
            if got != want { return Err(format!("after a change of the directory, lists {} instead of {}", show_list(&got), show_list(&want))); }
        }
        Ok(())
    };
    let mut run = run;
    let res = run();
    Case::from(input, names.is_empty(), res)
}
