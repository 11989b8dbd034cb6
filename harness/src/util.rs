//! Random numbers, an in-memory backend and the shape of a case.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::{self, Read};
use std::path::{Path, PathBuf};
use std::rc::Rc;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, index: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ index.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x1234_5678_9ABC_DEF1);
        for _ in 0..4 { r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
}

/// The outcome of a case: a description of what was tried, whether it was non-trivial,
/// and what went wrong.
pub struct Case {
    pub input: String,
    pub trivial: bool,
    pub error: Option<String>,
}
impl Case {
    pub fn ok(input: String, trivial: bool) -> Case { Case { input, trivial, error: None } }
    pub fn bad(input: String, e: String) -> Case { Case { input, trivial: false, error: Some(e) } }
    pub fn from(input: String, trivial: bool, r: Result<(), String>) -> Case {
        Case { input, trivial, error: r.err() }
    }
}

thread_local! {
    /// The input of the case that is running, for a report if the library panics.
    pub static CURRENT: RefCell<String> = const { RefCell::new(String::new()) };
    /// The most bytes that a stream gives at a time.
    pub static STEP: Cell<usize> = const { Cell::new(usize::MAX) };
    pub static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn trying(input: &str) { CURRENT.with(|c| { let mut c = c.borrow_mut(); c.clear(); c.push_str(input); }); }

pub fn show(b: &[u8]) -> String {
    let mut s = String::from("b\"");
    for &c in b { for e in std::ascii::escape_default(c) { s.push(e as char); } }
    s.push('"');
    s
}
pub fn show_list(v: &[Vec<u8>]) -> String {
    let v: Vec<String> = v.iter().map(|x| show(x)).collect();
    format!("[{}]", v.join(", "))
}

/// Stands for the byte 0xff in the names of a case, which makes the name none of a text.
pub const RAW: char = '\u{F8FF}';
pub fn to_path(name: &str) -> PathBuf {
    use std::os::unix::ffi::OsStringExt;
    let mut v = vec![];
    for c in name.chars() { if c == RAW { v.push(0xff) } else { v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()) } }
    PathBuf::from(std::ffi::OsString::from_vec(v))
}

/// A backend over files in memory, which counts the calls and fails on demand.
#[derive(Clone, Default)]
pub struct Mem {
    pub names: Vec<String>,
    pub files: BTreeMap<String, Vec<u8>>,
    /// every name that was opened, with whether it succeeded
    pub opened: Rc<RefCell<Vec<(String, bool)>>>,
    /// number of the calls to open_file that fail
    pub fail: Rc<RefCell<Vec<usize>>>,
    pub calls: Rc<Cell<usize>>,
    /// bytes after which the next stream fails
    pub fail_after: Rc<Cell<Option<usize>>>,
}
/// The kinds of the injected errors, one after the other.
const FAULTS: &[io::ErrorKind] = &[io::ErrorKind::ConnectionReset, io::ErrorKind::NotFound, io::ErrorKind::PermissionDenied, io::ErrorKind::TimedOut, io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock, io::ErrorKind::InvalidData, io::ErrorKind::Other, io::ErrorKind::AlreadyExists, io::ErrorKind::BrokenPipe, io::ErrorKind::InvalidInput, io::ErrorKind::Interrupted];
pub struct MemStream { data: Vec<u8>, pos: usize, fail_after: Option<usize>, fault: usize }
impl Read for MemStream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = buf.len().min(self.data.len() - self.pos).min(STEP.with(|s| s.get()));
        if let Some(f) = self.fail_after {
            if self.pos >= f { return Err(io::Error::new(FAULTS[self.fault % (FAULTS.len() - 1)], "injected")); }
            n = n.min(f - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl ruplicity::Backend for Mem {
    type FileName = PathBuf;
    type FileNameIter = Vec<PathBuf>;
    type FileStream = MemStream;
    fn file_names(&self) -> io::Result<Vec<PathBuf>> { Ok(self.names.iter().map(|n| to_path(n)).collect()) }
    fn open_file(&self, name: &Path) -> io::Result<MemStream> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        let s = name.to_str().unwrap_or("?").to_string();
        if self.fail.borrow().contains(&n) {
            self.opened.borrow_mut().push((s, false));
            return Err(io::Error::new(FAULTS[n % FAULTS.len()], "injected"));
        }
        match self.files.get(&s) {
            Some(d) => {
                self.opened.borrow_mut().push((s, true));
                Ok(MemStream { data: d.clone(), pos: 0, fail_after: self.fail_after.take(), fault: n })
            }
            None => {
                self.opened.borrow_mut().push((s, false));
                Err(io::Error::new(io::ErrorKind::NotFound, "no such file"))
            }
        }
    }
}
impl Mem {
    pub fn add(&mut self, name: &str, data: Vec<u8>) {
        self.names.push(name.to_string());
        self.files.insert(name.to_string(), data);
    }
}

/// Days from 1970-01-01 to a date of the proleptic Gregorian calendar, counted year by year.
pub fn leap(y: i64) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
pub fn month_days(y: i64, m: i64) -> i64 {
    match m { 2 => if leap(y) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 }
}
pub fn epoch_seconds(y: i64, m: i64, d: i64, h: i64, mi: i64, s: i64) -> i64 {
    let mut days = 0;
    let mut a = 1970;
    while a < y { days += if leap(a) { 366 } else { 365 }; a += 1; }
    while a > y { a -= 1; days -= if leap(a) { 366 } else { 365 }; }
    for k in 1..m { days += month_days(y, k); }
    days += d - 1;
    ((days * 24 + h) * 60 + mi) * 60 + s
}
/// Strict reading of a timestamp as duplicity writes it (either case).
pub fn read_time(s: &str) -> Option<i64> {
    let b = s.as_bytes();
    if b.len() != 16 { return None; }
    let num = |a: usize, z: usize| -> Option<i64> {
        let mut v = 0i64;
        for &c in &b[a..z] { if !c.is_ascii_digit() { return None; } v = v * 10 + (c - b'0') as i64; }
        Some(v)
    };
    if b[8].to_ascii_lowercase() != b't' || b[15].to_ascii_lowercase() != b'z' { return None; }
    let (y, m, d, h, mi, se) = (num(0, 4)?, num(4, 6)?, num(6, 8)?, num(9, 11)?, num(11, 13)?, num(13, 15)?);
    if m < 1 || m > 12 || d < 1 || d > month_days(y, m) || h > 23 || mi > 59 || se > 59 { return None; }
    Some(epoch_seconds(y, m, d, h, mi, se))
}
/// The timestamp at a number of seconds after 2015-01-01T00:00:00Z.
pub fn stamp(n: usize) -> String { stamp_from(2015, n) }
/// The timestamp at a number of seconds after the beginning of a year.
pub fn stamp_from(year: i64, n: usize) -> String {
    let (mut y, mut m, mut d) = (year, 1i64, 1i64 + (n / 86400) as i64);
    while d > month_days(y, m) { d -= month_days(y, m); m += 1; if m > 12 { m = 1; y += 1; } }
    let s = n % 86400;
    format!("{:04}{:02}{:02}T{:02}{:02}{:02}Z", y, m, d, s / 3600, s / 60 % 60, s % 60)
}
