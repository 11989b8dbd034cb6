//@ subst s.iter().cloned().enumerate() => cloned_enumerate(s.iter())
//@ subst io::Error::new( => io_error_new(
//@ subst .ends_with(':') => .ends_with_colon()
//@ verus
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::control_flow::spec_from;
use vstd::std_specs::convert::FromSpec;
use vstd::utf8::{decode_utf8, encode_utf8, valid_utf8};
use std::cmp::Ordering;
use std::ffi::{OsStr, OsString};
use std::io::{self, BufRead, Read};
use std::num::ParseIntError;
use std::os::unix::prelude::*;
use std::path::{Path, PathBuf};
use std::str::{self, FromStr, Utf8Error};
use std::string::FromUtf8Error;
verus! {

// ---------------------------------------------------------------- trusted: standard library
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(io::Error);
#[verifier::external_type_specification]
pub struct ExErrorKind(io::ErrorKind);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPIE(ParseIntError);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExU8E(Utf8Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFU8E(FromUtf8Error);

/// Whether an error was produced by a reader, as opposed to made by the parser itself.
pub uninterp spec fn from_reader(e: io::Error) -> bool;

#[verifier::external_trait_specification]
pub trait ExRead { type ExternalTraitSpecificationFor: Read; }
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(BufReadSpec via BufReadSpecImpl)]
pub trait ExBufRead: Read {
    type ExternalTraitSpecificationFor: BufRead;
    /// the bytes that are still to be read
    spec fn stream(&self) -> Seq<u8>;
    fn read_until(&mut self, byte: u8, buf: &mut Vec<u8>) -> (r: Result<usize, io::Error>)
        ensures
            match r {
                Ok(n) => {
                    &&& n as nat == until(old(self).stream(), byte)
                    &&& final(buf)@ == old(buf)@ + old(self).stream().take(n as int)
                    &&& final(self).stream() == old(self).stream().skip(n as int)
                },
                Err(e) => from_reader(e),
            };
}
#[verifier::external_body]
fn io_error_new(kind: io::ErrorKind, msg: &str) -> (e: io::Error)
    ensures !from_reader(e),
{
    io::Error::new(kind, msg)
}
/// The number of bytes up to and including the first `b`, or all of them.
pub open spec fn until(s: Seq<u8>, b: u8) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else if s[0] == b { 1 } else { 1 + until(s.drop_first(), b) }
}

/// Marks an index that a proof wants quantified facts about an iterator to be instantiated with.
pub open spec fn at(i: int) -> bool { true }
pub assume_specification<'a, T, P: FnMut(&'a T) -> bool> [<std::slice::Iter<'a, T> as Iterator>::position::<P>] (it: &mut std::slice::Iter<'a, T>, p: P) -> (r: Option<usize>)
    where std::slice::Iter<'a, T>: Sized
    requires
        forall|i: int| 0 <= i < old(it).remaining().len() ==> call_requires(p, (#[trigger] old(it).remaining()[i],)),
    ensures
        match r {
            Some(k) => {
                &&& k < old(it).remaining().len()
                &&& call_ensures(p, (old(it).remaining()[k as int],), true)
                &&& forall|j: int| #![trigger at(j)] #![trigger old(it).remaining()[j]]
                        0 <= j < k ==> call_ensures(p, (old(it).remaining()[j],), false)
            },
            None => forall|j: int| #![trigger at(j)] #![trigger old(it).remaining()[j]]
                0 <= j < old(it).remaining().len() ==> call_ensures(p, (old(it).remaining()[j],), false),
        };

/// trusted: the operator `?` converts errors with `From::from`
pub mod question_mark {
use super::*;
pub broadcast axiom fn question_mark<E, F: From<E>>(e: E, f: F)
    ensures
        #[trigger] spec_from::<F, E>(e, f) && <F as FromSpec<E>>::obeys_from_spec() ==> f == <F as FromSpec<E>>::from_spec(e);
}
broadcast use question_mark::question_mark;

// ---------------------------------------------------------------- trusted: text
/// the value of a string of decimal digits
pub open spec fn digits_value(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { 10 * digits_value(s.drop_last()) + (s.last() as nat - '0' as nat) as nat }
}
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9' }
/// `usize::from_str`: digits after an optional plus sign
pub open spec fn parse_usize(s: Seq<char>) -> Option<nat> {
    let d = if s.len() > 0 && s[0] == '+' { s.drop_first() } else { s };
    if d.len() > 0 && all_digits(d) && digits_value(d) <= usize::MAX { Some(digits_value(d)) } else { None }
}
pub assume_specification [<usize as FromStr>::from_str] (s: &str) -> (r: Result<usize, ParseIntError>)
    ensures
        match r {
            Ok(n) => parse_usize(s@) == Some(n as nat),
            Err(_) => parse_usize(s@) is None,
        };
pub assume_specification [str::from_utf8] (v: &[u8]) -> (r: Result<&str, Utf8Error>)
    ensures
        match r {
            Ok(s) => valid_utf8(v@) && s@ == decode_utf8(v@),
            Err(_) => !valid_utf8(v@),
        };
pub assume_specification [String::from_utf8] (v: Vec<u8>) -> (r: Result<String, FromUtf8Error>)
    ensures
        match r {
            Ok(s) => valid_utf8(v@) && s@ == decode_utf8(v@),
            Err(_) => !valid_utf8(v@),
        };
pub assume_specification [FromUtf8Error::utf8_error] (e: &FromUtf8Error) -> (r: Utf8Error);
/// trusted: a vector of a type of non-zero size holds at most isize::MAX bytes
#[verifier::external_body]
proof fn axiom_vec_len(v: &Vec<Volume>)
    ensures v@.len() < usize::MAX,
{}
trait EndsWithColon { fn ends_with_colon(&self) -> bool; }
impl EndsWithColon for String {
    #[verifier::external_body]
    fn ends_with_colon(&self) -> (r: bool)
        ensures r == (self@.len() > 0 && self@.last() == ':'),
    {
        self.ends_with(':')
    }
}

//@ include path_spec.vc
//@ verus
// ---------------------------------------------------------------- specification: decoding
pub open spec fn nib(b: u8) -> u8 {
    if 97 <= b <= 102 { (b - 87) as u8 } else if 48 <= b <= 57 { (b - 48) as u8 } else { 0 }
}
/// decoding of the text between the quotes
pub open spec fn unesc_from(s: Seq<u8>, i: int) -> Seq<u8>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { seq![] }
    else if s[i] != 92 { seq![s[i]] + unesc_from(s, i + 1) }
    else if s.len() - i >= 4 && s[i + 1] == 120 {
        seq![(16 * nib(s[i + 2]) + nib(s[i + 3])) as u8] + unesc_from(s, i + 4)
    } else { unesc_from(s, i + 1) }
}
pub open spec fn unquote(s: Seq<u8>) -> Seq<u8> {
    if s.len() > 1 && s[0] == 34 { s.subrange(1, s.len() - 1) } else { s }
}
pub open spec fn unesc(s: Seq<u8>) -> Seq<u8> { unesc_from(unquote(s), 0) }

pub open spec fn unhex(s: Seq<u8>) -> Seq<u8> {
    Seq::new((s.len() / 2) as nat, |k: int| (16 * nib(s[2 * k]) + nib(s[2 * k + 1])) as u8)
}
//@ file src/manifest.rs
//@ fn nibble ret=r props=C10,C11,C12
//@ spec
    ensures r == nib(b), r < 16,
//@ verus
proof fn lemma_nibbles(a: u8, b: u8)
    requires a < 16, b < 16,
    ensures (a << 4) | b == 16 * a + b,
{
    assert((a << 4) | b == 16 * a + b) by (bit_vector) requires a < 16, b < 16;
}
//@ fn unescape ret=r loops=1 props=C10,C11,C12
//@ spec
    ensures r@ == unesc(buf@),
//@ start
    let ghost buf0 = buf@;
//@ loop 0 kind while
//@ loop 0 spec
        invariant
            len == buf@.len(),
            i <= len,
            unesc_from(buf@, 0) == unesc(buf0),
            result@ + unesc_from(buf@, i as int) == unesc_from(buf@, 0),
        decreases len - i,
//@ loop 0 body-start
        let ghost r0 = result@;
        let ghost i0 = i as int;
        proof {
            assert forall|a: u8, b: u8| a < 16 && b < 16 implies #[trigger] ((a << 4) | b) == 16 * a + b by { lemma_nibbles(a, b); }
        }
//@ loop 0 body-end
        proof {
            let added = result@.skip(r0.len() as int);
            assert(result@ =~= r0 + added);
            assert(unesc_from(buf@, i0) =~= added + unesc_from(buf@, i as int));
            assert(result@ + unesc_from(buf@, i as int) =~= r0 + (added + unesc_from(buf@, i as int)));
        }
//@ verus
// ---------------------------------------------------------------- words of a line
pub open spec fn blanks(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() > 0 && s[0] == 32 { 1 + blanks(s.drop_first()) } else { 0 }
}
pub open spec fn word_len(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() > 0 && s[0] != 32 { 1 + word_len(s.drop_first()) } else { 0 }
}
pub open spec fn skip_blanks(s: Seq<u8>) -> Seq<u8> { s.skip(blanks(s) as int) }
/// the next word and what follows it, from the next word on
pub open spec fn next_word(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> {
    let t = skip_blanks(s);
    if t.len() == 0 { None } else {
        Some((t.take(word_len(t) as int), skip_blanks(t.skip(word_len(t) as int))))
    }
}
proof fn lemma_blanks(s: Seq<u8>)
    ensures
        blanks(s) <= s.len(),
        forall|i: int| 0 <= i < blanks(s) ==> s[i] == 32,
        blanks(s) < s.len() ==> s[blanks(s) as int] != 32,
        skip_blanks(s).len() <= s.len(),
        skip_blanks(skip_blanks(s)) == skip_blanks(s),
    decreases s.len()
{
    if s.len() > 0 && s[0] == 32 {
        let t = s.drop_first();
        lemma_blanks(t);
        assert forall|i: int| 0 <= i < blanks(s) implies s[i] == 32 by { if i > 0 { assert(t[i - 1] == 32); } }
        assert(skip_blanks(s) =~= skip_blanks(t));
    } else {
        assert(skip_blanks(s) =~= s);
    }
}
proof fn lemma_word_len(s: Seq<u8>)
    ensures
        word_len(s) <= s.len(),
        forall|i: int| 0 <= i < word_len(s) ==> s[i] != 32,
        word_len(s) < s.len() ==> s[word_len(s) as int] == 32,
    decreases s.len()
{
    if s.len() > 0 && s[0] != 32 {
        let t = s.drop_first();
        lemma_word_len(t);
        assert forall|i: int| 0 <= i < word_len(s) implies s[i] != 32 by { if i > 0 { assert(t[i - 1] != 32); } }
    }
}
//@ item struct WordIter
//@ fn WordIter::next inherent ret=r loops=1 props=C10,C11,C12
//@ spec
    ensures
        match next_word(old(self).0@) {
            Some((w, rest)) => r is Some && r->Some_0@ == w && final(self).0@ == rest,
            None => r is None,
        },
//@ sig Self::Item => &'a [u8]
//@ closure 0 count 2
//@ closure 0 params 1
    |b: &u8| -> (r: bool)
//@ closure 0 spec
    ensures r == (*b == 32u8)
//@ closure 1 params 1
    |b: &u8| -> (r: bool)
//@ closure 1 spec
    ensures r == (*b != 32u8)
//@ loop 0 kind loop
//@ loop 0 spec
        invariant
            next_word(self.0@) == next_word(old(self).0@),
        decreases self.0@.len(),
//@ loop 0 body-start
        proof {
            let s = self.0@;
            let n = word_len(s) as int;
            let t = s.skip(n);
            lemma_word_len(s);
            lemma_blanks(s);
            lemma_blanks(t);
            assert(at(n) && at(blanks(t) as int));
            assert(s.take(n) =~= s.subrange(0, n));
            assert(t =~= s.subrange(n, s.len() as int));
            assert(skip_blanks(t) =~= t.subrange(blanks(t) as int, t.len() as int));
            if n == 0 { assert(t =~= s); }
            if n > 0 { assert(skip_blanks(s) =~= s); }
        }
//@ verus
/// `it.cloned().enumerate()`, for which the verifier has no model
#[verifier::external_body]
fn cloned_enumerate<'a, T: Clone>(it: std::slice::Iter<'a, T>) -> (r: Vec<(usize, T)>)
    ensures
        r@.len() == it.remaining().len(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == *it.remaining()[i],
{
    it.cloned().enumerate().collect()
}
//@ fn from_hex ret=r loops=1 props=C10,C11,C12
//@ spec
    ensures r@ == unhex(s@),
//@ loop 0 kind for
//@ loop 0 iter it
//@ loop 0 spec
        invariant
            it.seq().len() == s@.len(),
            forall|i: int| 0 <= i < s@.len() ==> (#[trigger] it.seq()[i]).0 == i && it.seq()[i].1 == s@[i],
            it.index@ % 2 == 0 ==> buf == 0,
            it.index@ % 2 == 1 ==> buf == nib(s@[it.index@ - 1]),
            res@ =~= unhex(s@.take(it.index@)),
//@ loop 0 body-start
        let ghost r0 = res@;
        let ghost k = it.index@;
        proof {
            assert(it.seq()[k].0 == k && it.seq()[k].1 == s@[k]);
            assert forall|a: u8, b: u8| a < 16 && b < 16 implies #[trigger] ((a << 4) | b) == 16 * a + b by { lemma_nibbles(a, b); }
            assert((0u8 << 4) | nib(s@[k]) == nib(s@[k])) by { lemma_nibbles(0, nib(s@[k])); }
        }
//@ loop 0 body-end
        proof {
            assert(res@ =~= unhex(s@.take(k + 1)));
        }
//@ loop 0 after
    proof { assert(s@.take(s@.len() as int) =~= s@); }
//@ verus
// ---------------------------------------------------------------- specification: the manifest text
pub enum PErr { Eof, Keyword(Seq<char>), Path, Hash, HashType, Order(nat), Int, Utf8 }
pub type PathBlockV = (Seq<u8>, Option<nat>);
pub ghost struct VolumeV { pub start: PathBlockV, pub end: PathBlockV, pub hash_type: Seq<char>, pub hash: Seq<u8> }
pub ghost struct ManifestV { pub hostname: Seq<char>, pub local_dir: Seq<u8>, pub volumes: Seq<VolumeV> }

pub open spec fn drop_trailing(s: Seq<u8>, b: u8) -> Seq<u8> {
    if s.len() > 0 && s.last() == b { s.drop_last() } else { s }
}
/// the first line of a text, without its end, and the text after it
pub open spec fn line_of(s: Seq<u8>) -> Seq<u8> {
    drop_trailing(drop_trailing(s.take(until(s, 10) as int), 10), 13)
}
pub open spec fn after_line(s: Seq<u8>) -> Seq<u8> { s.skip(until(s, 10) as int) }

pub open spec fn dec(s: Seq<u8>) -> Result<Seq<char>, PErr> {
    if valid_utf8(s) { Ok(decode_utf8(s)) } else { Err(PErr::Utf8) }
}
/// what follows the keyword of a line
pub open spec fn p_keyword(l: Seq<u8>, key: Seq<char>) -> Result<Seq<u8>, PErr> {
    match next_word(l) {
        Some((w, rest)) => match dec(w) {
            Ok(k) => if k == key { Ok(rest) } else { Err(PErr::Keyword(key)) },
            Err(e) => Err(e),
        },
        None => Err(PErr::Keyword(key)),
    }
}
pub open spec fn p_bytes(l: Seq<u8>, key: Seq<char>) -> Result<Seq<u8>, PErr> {
    match p_keyword(l, key) {
        Ok(rest) => match next_word(rest) {
            Some((w, _)) => Ok(unesc(w)),
            None => Ok(seq![]),
        },
        Err(e) => Err(e),
    }
}
pub open spec fn p_str(l: Seq<u8>, key: Seq<char>) -> Result<Seq<char>, PErr> {
    match p_bytes(l, key) { Ok(b) => dec(b), Err(e) => Err(e) }
}
pub open spec fn p_num(s: Seq<char>) -> Result<nat, PErr> {
    match parse_usize(s) { Some(n) => Ok(n), None => Err(PErr::Int) }
}
pub open spec fn p_path_block(l: Seq<u8>, key: Seq<char>) -> Result<PathBlockV, PErr> {
    match p_keyword(l, key) {
        Ok(rest) => match next_word(rest) {
            Some((w, rest)) => match next_word(rest) {
                Some((b, _)) => match dec(b) {
                    Ok(t) => match p_num(t) { Ok(n) => Ok((unesc(w), Some(n))), Err(e) => Err(e) },
                    Err(e) => Err(e),
                },
                None => Ok((unesc(w), None)),
            },
            None => Err(PErr::Path),
        },
        Err(e) => Err(e),
    }
}
pub open spec fn p_hash(l: Seq<u8>) -> Result<(Seq<char>, Seq<u8>), PErr> {
    match p_keyword(l, "Hash"@) {
        Ok(rest) => match next_word(rest) {
            Some((t, rest)) => match dec(t) {
                Ok(t) => match next_word(rest) {
                    Some((h, _)) => Ok((t, unhex(h))),
                    None => Err(PErr::Hash),
                },
                Err(e) => Err(e),
            },
            None => Err(PErr::HashType),
        },
        Err(e) => Err(e),
    }
}
pub open spec fn no_colon(s: Seq<char>) -> Seq<char> {
    if s.len() > 0 && s.last() == ':' { s.drop_last() } else { s }
}
/// the number and content of the volume at the head of a text; `None` at the end of the volumes
#[verifier::opaque]
pub open spec fn p_volume(s0: Seq<u8>) -> Result<Option<(VolumeV, nat)>, PErr> {
    let l0 = line_of(s0);
    let s1 = after_line(s0);
    let s2 = after_line(s1);
    let s3 = after_line(s2);
    if l0.len() == 0 { Ok(None) } else {
        match p_str(l0, "Volume"@) { Err(e) => Err(e), Ok(n) =>
        match p_num(no_colon(n)) { Err(e) => Err(e), Ok(num) =>
        if line_of(s1).len() == 0 { Err(PErr::Eof) } else {
        match p_path_block(line_of(s1), "StartingPath"@) { Err(e) => Err(e), Ok(start) =>
        if line_of(s2).len() == 0 { Err(PErr::Eof) } else {
        match p_path_block(line_of(s2), "EndingPath"@) { Err(e) => Err(e), Ok(end) =>
        if line_of(s3).len() == 0 { Err(PErr::Eof) } else {
        match p_hash(line_of(s3)) { Err(e) => Err(e), Ok((hash_type, hash)) =>
            Ok(Some((VolumeV { start, end, hash_type, hash }, num)))
        } } } } } } } }
    }
}
pub open spec fn after_volume(s: Seq<u8>) -> Seq<u8> { after_line(after_line(after_line(after_line(s)))) }
pub open spec fn p_volumes(s: Seq<u8>, acc: Seq<VolumeV>) -> Result<Seq<VolumeV>, PErr>
    decreases s.len()
{
    match p_volume(s) {
        Err(e) => Err(e),
        Ok(None) => Ok(acc),
        Ok(Some((v, n))) => if n != acc.len() + 1 { Err(PErr::Order(n)) }
            else if after_volume(s).len() < s.len() { p_volumes(after_volume(s), acc.push(v)) }
            else { Err(PErr::Eof) /* never: a volume has a line, lemma_lines */ },
    }
}
#[verifier::opaque]
pub open spec fn p_manifest(s0: Seq<u8>) -> Result<ManifestV, PErr> {
    let s1 = after_line(s0);
    let s2 = after_line(s1);
    if line_of(s0).len() == 0 { Err(PErr::Eof) } else {
    match p_str(line_of(s0), "Hostname"@) { Err(e) => Err(e), Ok(hostname) =>
    if line_of(s1).len() == 0 { Err(PErr::Eof) } else {
    match p_bytes(line_of(s1), "Localdir"@) { Err(e) => Err(e), Ok(local_dir) =>
    match p_volumes(s2, seq![]) { Err(e) => Err(e), Ok(volumes) => Ok(ManifestV { hostname, local_dir, volumes }) } } } } }
}
proof fn lemma_until(s: Seq<u8>, b: u8)
    ensures
        until(s, b) <= s.len(),
        s.len() > 0 ==> until(s, b) > 0,
        forall|i: int| 0 <= i < until(s, b) - 1 ==> s[i] != b,
    decreases s.len()
{
    if s.len() > 0 && s[0] != b {
        let t = s.drop_first();
        lemma_until(t, b);
        assert forall|i: int| 0 <= i < until(s, b) - 1 implies s[i] != b by { if i > 0 { assert(t[i - 1] != b); } }
    }
}
proof fn lemma_lines(s: Seq<u8>)
    ensures
        line_of(s).len() > 0 ==> after_line(s).len() < s.len(),
        after_line(s).len() <= s.len(),
        line_of(s).len() > 0 ==> after_volume(s).len() < s.len(),
{
    lemma_until(s, 10);
    let s1 = after_line(s);
    lemma_until(s1, 10);
    let s2 = after_line(s1);
    lemma_until(s2, 10);
    let s3 = after_line(s2);
    lemma_until(s3, 10);
}

//@ item struct Manifest
//@ item struct Volume vis=pub
//@ item enum ParseError vis=pub
//@ item struct PathBlock
//@ item struct ManifestParser
//@ verus
pub open spec fn opt_nat(b: Option<usize>) -> Option<nat> { match b { Some(n) => Some(n as nat), None => None } }
impl PathBlock {
    pub closed spec fn v(&self) -> PathBlockV {
        (self.path@, opt_nat(self.block))
    }
}
impl Volume {
    pub closed spec fn v(&self) -> VolumeV {
        VolumeV { start: self.start_path.v(), end: self.end_path.v(), hash_type: self.hash_type@, hash: self.hash@ }
    }
}
impl Manifest {
    pub closed spec fn v(&self) -> ManifestV {
        ManifestV { hostname: self.hostname@, local_dir: self.local_dir@, volumes: vols(self.volumes@) }
    }
}
pub open spec fn vols(s: Seq<Volume>) -> Seq<VolumeV> { Seq::new(s.len(), |i: int| s[i].v()) }
/// an error of the parser stands for the error of the specification
pub open spec fn is_err(e: ParseError, p: PErr) -> bool {
    match e {
        ParseError::Io(e) => p is Eof && !from_reader(e),
        ParseError::MissingKeyword(k) => p == PErr::Keyword(k@),
        ParseError::MissingHash => p is Hash,
        ParseError::MissingHashType => p is HashType,
        ParseError::MissingPath => p is Path,
        ParseError::OutOfOrderVolume(n) => p == PErr::Order(n as nat),
        ParseError::ParseInt(_) => p is Int,
        ParseError::Utf8(_) => p is Utf8,
    }
}
/// the outcome of a parser that cannot meet a failing reader
pub open spec fn same<T, V>(r: Result<T, ParseError>, p: Result<V, PErr>, v: spec_fn(T) -> V) -> bool {
    match r { Ok(t) => p == Ok::<V, PErr>(v(t)), Err(e) => p is Err && is_err(e, p->Err_0) }
}
/// the outcome of parsing a whole manifest
spec fn parsed(r: Result<Manifest, ParseError>, s: Seq<u8>) -> bool {
    reader_failed(r) || match r {
        Ok(m) => p_manifest(s) == Ok::<ManifestV, PErr>(m.v()),
        Err(e) => p_manifest(s) is Err && is_err(e, p_manifest(s)->Err_0),
    }
}
spec fn reader_failed<T>(r: Result<T, ParseError>) -> bool {
    r is Err && r->Err_0 is Io && from_reader(r->Err_0->Io_0)
}
//@ fn ParseError::from trait=From<io::Error> ret=r props=C11
//@ spec
    ensures r == ParseError::Io(err),
//@ fn ParseError::from trait=From<ParseIntError> ret=r props=C11
//@ spec
    ensures r == ParseError::ParseInt(err),
//@ fn ParseError::from trait=From<Utf8Error> ret=r props=C11
//@ spec
    ensures r == ParseError::Utf8(err),
//@ item macro check_eof
//@ verus
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for ParseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: io::Error) -> ParseError { ParseError::Io(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<ParseIntError> for ParseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ParseIntError) -> ParseError { ParseError::ParseInt(e) }
}
impl vstd::std_specs::convert::FromSpecImpl<Utf8Error> for ParseError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: Utf8Error) -> ParseError { ParseError::Utf8(e) }
}
//@ fn ManifestParser::new ret=r props=C10,C11
//@ spec
    ensures r.input == input, r.buf@.len() == 0,
//@ fn ManifestParser::read_line ret=r props=C10,C11
//@ spec
    ensures
        match r {
            Ok(b) => {
                &&& final(self).buf@ == line_of(old(self).input.stream())
                &&& final(self).input.stream() == after_line(old(self).input.stream())
                &&& b == (final(self).buf@.len() > 0)
            },
            Err(e) => from_reader(e),
        },
//@ start
        proof { lemma_until(self.input.stream(), 10); }
//@ fn ManifestParser::read_param_bytes ret=r props=C10,C11
//@ spec
    requires key@.len() > 0,
    ensures
        final(self).buf@ == old(self).buf@,
        final(self).input == old(self).input,
        same(r, p_bytes(old(self).buf@, key@), |v: Vec<u8>| v@),
//@ start
        proof { reveal_strlit(""); }
//@ fn ManifestParser::read_param_str ret=r props=C10,C11
//@ spec
    requires key@.len() > 0,
    ensures
        final(self).buf@ == old(self).buf@,
        final(self).input == old(self).input,
        same(r, p_str(old(self).buf@, key@), |v: String| v@),
//@ closure 0 count 1
//@ closure 0 params 1
    |e: FromUtf8Error| -> (r: ParseError)
//@ closure 0 spec
    ensures r is Utf8
//@ fn ManifestParser::read_path_block ret=r props=C10,C11
//@ spec
    requires key@.len() > 0,
    ensures
        final(self).buf@ == old(self).buf@,
        final(self).input == old(self).input,
        same(r, p_path_block(old(self).buf@, key@), |v: PathBlock| v.v()),
//@ start
        proof { reveal_strlit(""); }
//@ fn ManifestParser::read_hash_param ret=r props=C10,C11
//@ spec
    ensures
        final(self).buf@ == old(self).buf@,
        final(self).input == old(self).input,
        same(r, p_hash(old(self).buf@), |v: (String, Vec<u8>)| (v.0@, v.1@)),
//@ start
        proof {
            reveal_strlit("Hash"); reveal_strlit("");
            let key = "Hash"@;
            assert(key.len() == 4);
            assert(p_keyword(self.buf@, key) == p_keyword(self.buf@, "Hash"@));
        }
//@ fn ManifestParser::read_volume ret=r props=C10,C11
//@ spec
    ensures
        reader_failed(r) || {
            &&& same(r, p_volume(old(self).input.stream()), |v: Option<(Volume, usize)>| match v { Some((v, n)) => Some((v.v(), n as nat)), None => None })
            &&& r is Ok && r->Ok_0 is Some ==> {
                &&& final(self).input.stream() == after_volume(old(self).input.stream())
                &&& final(self).input.stream().len() < old(self).input.stream().len()
            }
        },
//@ start
        proof {
            lemma_lines(self.input.stream());
            reveal(p_volume);
            reveal_strlit("Volume"); reveal_strlit("StartingPath"); reveal_strlit("EndingPath"); reveal_strlit("Hash");
        }
//@ fn ManifestParser::parse ret=r loops=1 props=C10,C11
//@ spec
    ensures
        reader_failed(r) || same(r, p_manifest(self.input.stream()), |m: Manifest| m.v()),
//@ start
        let ghost s0 = self.input.stream();
        proof { reveal(p_manifest); reveal_strlit("Hostname"); reveal_strlit("Localdir"); }
//@ loop 0 kind while-let
//@ loop 0 spec
            invariant_except_break
                s0 == self.input.stream(),
                p_manifest(s0) == match p_volumes(self_.input.stream(), vols(volumes@)) {
                    Err(e) => Err(e),
                    Ok(vs) => Ok(ManifestV { hostname: hostname@, local_dir: local_dir@, volumes: vs }),
                },
            ensures
                p_manifest(s0) == Ok::<ManifestV, PErr>(ManifestV { hostname: hostname@, local_dir: local_dir@, volumes: vols(volumes@) }),
            decreases self_.input.stream().len(),
//@ loop 0 before
        proof { assert(vols(volumes@) =~= seq![]); }
//@ loop 0 body-start
            let ghost acc = volumes@;
            proof { axiom_vec_len(&volumes); }
//@ loop 0 body-end
            proof { assert(vols(volumes@) =~= vols(acc).push(volumes@.last().v())); }
//@ verus
/// (`r.stream()` would be that of `&mut R`)
pub open spec fn stream_of<R: BufRead>(r: R) -> Seq<u8> { r.stream() }
/// trusted: reading from `&mut r` is reading from `r`
#[verifier::external_body]
proof fn axiom_stream_of_ref<R: BufRead>(r: &&mut R)
    ensures <&mut R as BufReadSpec>::stream(r) == stream_of::<R>(mut_ref_current(*r)),
{}
//@ include man_parse.vc
//@ fn Manifest::hostname ret=r props=C10
//@ spec
    ensures r@ == self.v().hostname,
//@ fn Manifest::local_dir ret=r props=C10,C12
//@ spec
    ensures r is Some, path_bytes(r->Some_0) == self.v().local_dir,
//@ fn Manifest::last_volume_index ret=r props=C10,C11
//@ spec
    ensures r == self.v().volumes.len(),
//@ fn Manifest::volume ret=r props=C10,C11
//@ spec
    ensures
        match r {
            Some(v) => 1 <= num <= self.v().volumes.len() && v.v() == self.v().volumes[num - 1],
            None => num == 0 || num > self.v().volumes.len(),
        },
//@ fn Volume::start_path ret=r props=C10,C12
//@ spec
    ensures r is Some, path_bytes(r->Some_0) == self.v().start.0,
//@ fn Volume::end_path ret=r props=C10,C12
//@ spec
    ensures r is Some, path_bytes(r->Some_0) == self.v().end.0,
//@ fn Volume::start_path_bytes ret=r props=C10,C12
//@ spec
    ensures r@ == self.v().start.0,
//@ fn Volume::end_path_bytes ret=r props=C10,C12
//@ spec
    ensures r@ == self.v().end.0,
//@ fn Volume::start_block ret=r props=C10
//@ spec
    ensures opt_nat(r) == self.v().start.1,
//@ fn Volume::end_block ret=r props=C10
//@ spec
    ensures opt_nat(r) == self.v().end.1,
//@ fn Volume::hash_type ret=r props=C10
//@ spec
    ensures r@ == self.v().hash_type,
//@ fn Volume::hash ret=r props=C10,C12
//@ spec
    ensures r@ == self.v().hash,
//@ verus
// ---------------------------------------------------------------- what duplicity writes
/// How a manifest is laid out. Duplicity's own layout has no indentation but for the lines of a
/// volume, one blank between words and LF; which bytes of a path it escapes depends on its version.
pub ghost struct Layout {
    pub indent: nat,
    pub gap: nat,
    pub crlf: bool,
    /// the bytes that are written as \xNN within quotes
    pub esc: spec_fn(u8) -> bool,
    /// the paths that are put in quotes
    pub quoted: spec_fn(Seq<u8>) -> bool,
}
pub open spec fn word(w: Seq<u8>) -> bool {
    w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] != 32 && w[i] != 10 && w[i] != 13
}
/// a word that stands for itself
pub open spec fn plain(w: Seq<u8>) -> bool {
    w.len() > 0 && w[0] != 34 && forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] != 92
}
pub open spec fn layout_ok(f: Layout) -> bool {
    &&& f.gap > 0
    &&& (f.esc)(92) && (f.esc)(32) && (f.esc)(10) && (f.esc)(13)
    &&& forall|p: Seq<u8>| !(#[trigger] (f.quoted)(p)) ==> word(p) && plain(p)
}
pub open spec fn sp(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 32u8) }
pub open spec fn hex_digit(n: u8) -> u8 { if n < 10 { (48 + n) as u8 } else { (87 + n) as u8 } }
pub open spec fn hex(h: Seq<u8>) -> Seq<u8> {
    Seq::new(2 * h.len(), |i: int| if i % 2 == 0 { hex_digit((h[i / 2] / 16) as u8) } else { hex_digit((h[i / 2] % 16) as u8) })
}
pub open spec fn esc_byte(b: u8, esc: spec_fn(u8) -> bool) -> Seq<u8> {
    if esc(b) { seq![92u8, 120u8, hex_digit((b / 16) as u8), hex_digit((b % 16) as u8)] } else { seq![b] }
}
pub open spec fn escape(p: Seq<u8>, esc: spec_fn(u8) -> bool) -> Seq<u8>
    decreases p.len()
{
    if p.len() == 0 { seq![] } else { esc_byte(p[0], esc) + escape(p.drop_first(), esc) }
}
pub open spec fn quote(p: Seq<u8>, esc: spec_fn(u8) -> bool) -> Seq<u8> { seq![34u8] + escape(p, esc) + seq![34u8] }
pub open spec fn path_word(p: Seq<u8>, f: Layout) -> Seq<u8> { if (f.quoted)(p) { quote(p, f.esc) } else { p } }
pub open spec fn dec_digits(n: nat) -> Seq<char>
    decreases n
{
    if n < 10 { seq![((48 + n) as u8) as char] } else { dec_digits(n / 10).push(((48 + n % 10) as u8) as char) }
}
pub open spec fn eol(f: Layout) -> Seq<u8> { if f.crlf { seq![13u8, 10u8] } else { seq![10u8] } }

/// C12: quoting and unquoting
proof fn lemma_unescape_at(s: Seq<u8>, i: int, t: Seq<u8>)
    requires 0 <= i <= s.len(), s.skip(i) == t,
    ensures unesc_from(s, i) == unesc_from(t, 0),
    decreases s.len() - i
{
    if i < s.len() {
        assert(s[i] == t[0]);
        if t[0] != 92 {
            assert(s.skip(i + 1) =~= t.skip(1));
            lemma_unescape_at(s, i + 1, t.skip(1));
            lemma_unescape_at(t, 1, t.skip(1));
        } else if t.len() >= 4 && t[1] == 120 {
            assert(s[i + 1] == t[1] && s[i + 2] == t[2] && s[i + 3] == t[3]);
            assert(s.skip(i + 4) =~= t.skip(4));
            lemma_unescape_at(s, i + 4, t.skip(4));
            lemma_unescape_at(t, 4, t.skip(4));
        } else {
            if t.len() >= 4 { assert(s[i + 1] == t[1]); }
            assert(s.skip(i + 1) =~= t.skip(1));
            lemma_unescape_at(s, i + 1, t.skip(1));
            lemma_unescape_at(t, 1, t.skip(1));
        }
    }
}
proof fn lemma_escape(p: Seq<u8>, esc: spec_fn(u8) -> bool)
    requires esc(92),
    ensures unesc_from(escape(p, esc), 0) == p,
    decreases p.len()
{
    if p.len() > 0 {
        let t = escape(p.drop_first(), esc);
        let s = escape(p, esc);
        let b = p[0];
        lemma_escape(p.drop_first(), esc);
        if esc(b) {
            assert(nib(hex_digit((b / 16) as u8)) == b / 16);
            assert(nib(hex_digit((b % 16) as u8)) == b % 16);
            assert(s.skip(4) =~= t);
            lemma_unescape_at(s, 4, t);
            assert(unesc_from(s, 0) =~= seq![b] + unesc_from(t, 0));
        } else {
            assert(s.skip(1) =~= t);
            lemma_unescape_at(s, 1, t);
        }
        assert(seq![b] + p.drop_first() =~= p);
    }
}
pub proof fn theorem_unquote(p: Seq<u8>, esc: spec_fn(u8) -> bool)
    requires esc(92),
    ensures unesc(quote(p, esc)) == p,
{
    let q = quote(p, esc);
    assert(unquote(q) =~= escape(p, esc));
    lemma_escape(p, esc);
}
proof fn lemma_plain(w: Seq<u8>, i: int)
    requires 0 <= i <= w.len(), forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] != 92,
    ensures unesc_from(w, i) == w.skip(i),
    decreases w.len() - i
{
    if i < w.len() {
        lemma_plain(w, i + 1);
        assert(seq![w[i]] + w.skip(i + 1) =~= w.skip(i));
    } else {
        assert(w.skip(i) =~= seq![]);
    }
}
pub proof fn theorem_plain(w: Seq<u8>)
    requires plain(w),
    ensures unesc(w) == w,
{
    lemma_plain(w, 0);
    assert(w.skip(0) =~= w);
}
pub proof fn theorem_unhex(h: Seq<u8>)
    ensures unhex(hex(h)) == h,
{
    assert forall|k: int| 0 <= k < h.len() implies unhex(hex(h))[k] == h[k] by {
        let b = h[k];
        assert((2 * k) / 2 == k && (2 * k + 1) / 2 == k && (2 * k) % 2 == 0 && (2 * k + 1) % 2 == 1);
        assert(hex(h)[2 * k] == hex_digit((b / 16) as u8));
        assert(hex(h)[2 * k + 1] == hex_digit((b % 16) as u8));
        assert(nib(hex_digit((b / 16) as u8)) == b / 16);
        assert(nib(hex_digit((b % 16) as u8)) == b % 16);
    }
    assert(unhex(hex(h)) =~= h);
}
/// C12: a decoded text is not longer than the text
pub proof fn theorem_no_growth(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures unesc_from(s, i).len() <= s.len() - i, i == 0 ==> unesc(s).len() <= s.len() && unhex(s).len() <= s.len(),
    decreases s.len() - i, i
{
    if i < s.len() {
        if s[i] == 92 && s.len() - i >= 4 && s[i + 1] == 120 { theorem_no_growth(s, i + 4); } else { theorem_no_growth(s, i + 1); }
    }
    if i == 0 {
        let u = unquote(s);
        if u.len() < s.len() { theorem_no_growth(u, 0); }
    }
}

// C10: lines and words
proof fn lemma_skip_sp(n: nat, t: Seq<u8>)
    ensures skip_blanks(sp(n) + t) == skip_blanks(t),
    decreases n
{
    if n > 0 {
        let s = sp(n) + t;
        assert(s.drop_first() =~= sp((n - 1) as nat) + t);
        lemma_skip_sp((n - 1) as nat, t);
        lemma_blanks(s.drop_first());
        assert(skip_blanks(s) =~= skip_blanks(s.drop_first()));
    } else {
        assert(sp(0) + t =~= t);
    }
}
proof fn lemma_word_len_is(w: Seq<u8>, rest: Seq<u8>)
    requires word(w) || w.len() == 0, rest.len() == 0 || rest[0] == 32,
    ensures word_len(w + rest) == w.len(),
    decreases w.len()
{
    let s = w + rest;
    if w.len() > 0 {
        assert(s[0] == w[0]);
        assert(s.drop_first() =~= w.drop_first() + rest);
        assert forall|i: int| 0 <= i < w.drop_first().len() implies #[trigger] w.drop_first()[i] != 32 && w.drop_first()[i] != 10 && w.drop_first()[i] != 13 by {
            assert(w[i + 1] != 32 && w[i + 1] != 10 && w[i + 1] != 13);
        }
        lemma_word_len_is(w.drop_first(), rest);
    } else {
        assert(s =~= rest);
    }
}
proof fn lemma_next_word(n: nat, w: Seq<u8>, rest: Seq<u8>)
    requires word(w), rest.len() == 0 || rest[0] == 32,
    ensures next_word(sp(n) + w + rest) == Some((w, skip_blanks(rest))),
{
    let t = w + rest;
    assert(sp(n) + w + rest =~= sp(n) + t);
    lemma_skip_sp(n, t);
    assert(t[0] == w[0]);
    assert(skip_blanks(t) =~= t);
    lemma_word_len_is(w, rest);
    assert(t.take(w.len() as int) =~= w);
    assert(t.skip(w.len() as int) =~= rest);
}
proof fn lemma_next_word_skip(s: Seq<u8>)
    ensures next_word(skip_blanks(s)) == next_word(s),
{
    lemma_blanks(s);
}
proof fn lemma_no_word()
    ensures next_word(skip_blanks(seq![])) is None, skip_blanks(seq![]) == Seq::<u8>::empty(),
{
    assert(skip_blanks(seq![]) =~= Seq::<u8>::empty());
}
/// text that is followed by an end of line
pub open spec fn in_line(l: Seq<u8>) -> bool {
    &&& l.len() > 0
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] != 10 && l[i] != 13
}
proof fn lemma_until_is(l: Seq<u8>, t: Seq<u8>)
    requires forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] != 10, t.len() > 0, t[0] == 10,
    ensures until(l + t, 10) == l.len() + 1,
    decreases l.len()
{
    let s = l + t;
    if l.len() > 0 {
        assert(s[0] == l[0]);
        assert(s.drop_first() =~= l.drop_first() + t);
        assert forall|i: int| 0 <= i < l.drop_first().len() implies #[trigger] l.drop_first()[i] != 10 by { assert(l[i + 1] != 10); }
        lemma_until_is(l.drop_first(), t);
    } else {
        assert(s =~= t);
    }
}
proof fn lemma_line(l: Seq<u8>, f: Layout, rest: Seq<u8>)
    requires in_line(l),
    ensures line_of(l + eol(f) + rest) == l, after_line(l + eol(f) + rest) == rest,
{
    let s = l + eol(f) + rest;
    if f.crlf {
        let l1 = l.push(13);
        assert(s =~= l1 + (seq![10u8] + rest));
        lemma_until_is(l1, seq![10u8] + rest);
        assert(s.take(until(s, 10) as int) =~= l1.push(10));
        assert(l1.push(10).drop_last() =~= l1);
        assert(l1.drop_last() =~= l);
    } else {
        assert(s =~= l + (seq![10u8] + rest));
        lemma_until_is(l, seq![10u8] + rest);
        assert(s.take(until(s, 10) as int) =~= l.push(10));
        assert(l.push(10).drop_last() =~= l);
    }
    assert(after_line(s) =~= rest);
}
pub open spec fn ascii_word(s: Seq<char>) -> bool {
    s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> 33 <= #[trigger] s[i] as nat && s[i] as nat <= 127
}
proof fn lemma_ascii(s: Seq<char>)
    requires ascii_word(s),
    ensures
        word(encode_utf8(s)),
        encode_utf8(s).len() == s.len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] encode_utf8(s)[i] == s[i] as u8,
        dec(encode_utf8(s)) == Ok::<Seq<char>, PErr>(s),
{
    broadcast use vstd::utf8::group_utf8_lib;
    assert(vstd::utf8::is_ascii_chars(s));
    vstd::utf8::is_ascii_chars_encode_utf8(s);
}
proof fn lemma_dec_encode(s: Seq<char>)
    ensures dec(encode_utf8(s)) == Ok::<Seq<char>, PErr>(s),
{
    broadcast use vstd::utf8::group_utf8_lib;
}
proof fn lemma_dec_digits(n: nat)
    ensures
        all_digits(dec_digits(n)), digits_value(dec_digits(n)) == n, dec_digits(n).len() > 0,
        ascii_word(dec_digits(n)), dec_digits(n)[0] != '+',
    decreases n
{
    reveal_with_fuel(digits_value, 2);
    if n >= 10 {
        lemma_dec_digits(n / 10);
        let d = dec_digits(n);
        assert(d.drop_last() =~= dec_digits(n / 10));
    } else {
        assert(dec_digits(n).drop_last() =~= seq![]);
    }
}

// C10: the text of a manifest
pub open spec fn line1(ind: nat, key: Seq<char>, f: Layout, w: Seq<u8>) -> Seq<u8> {
    sp(ind) + encode_utf8(key) + (sp(f.gap) + w)
}
pub open spec fn line2(ind: nat, key: Seq<char>, f: Layout, w: Seq<u8>, w2: Seq<u8>) -> Seq<u8> {
    sp(ind) + encode_utf8(key) + (sp(f.gap) + w + (sp(f.gap) + w2))
}
pub open spec fn path_line(key: Seq<char>, f: Layout, p: PathBlockV) -> Seq<u8> {
    match p.1 {
        None => line1(f.indent, key, f, path_word(p.0, f)),
        Some(n) => line2(f.indent, key, f, path_word(p.0, f), encode_utf8(dec_digits(n))),
    }
}
pub open spec fn volume_line(f: Layout, n: nat) -> Seq<u8> { line1(0, "Volume"@, f, encode_utf8(dec_digits(n).push(':'))) }
pub open spec fn hash_line(f: Layout, v: VolumeV) -> Seq<u8> { line2(f.indent, "Hash"@, f, encode_utf8(v.hash_type), hex(v.hash)) }
pub open spec fn volume_text(v: VolumeV, n: nat, f: Layout, rest: Seq<u8>) -> Seq<u8> {
    volume_line(f, n) + eol(f) + (path_line("StartingPath"@, f, v.start) + eol(f)
        + (path_line("EndingPath"@, f, v.end) + eol(f) + (hash_line(f, v) + eol(f) + rest)))
}
pub open spec fn volumes_text(vs: Seq<VolumeV>, from: int, f: Layout) -> Seq<u8>
    decreases vs.len() - from
{
    if from < 0 || from >= vs.len() { seq![] } else { volume_text(vs[from], (from + 1) as nat, f, volumes_text(vs, from + 1, f)) }
}
pub open spec fn manifest_text(m: ManifestV, f: Layout) -> Seq<u8> {
    line1(0, "Hostname"@, f, encode_utf8(m.hostname)) + eol(f)
        + (line1(0, "Localdir"@, f, path_word(m.local_dir, f)) + eol(f) + volumes_text(m.volumes, 0, f))
}
pub open spec fn block_fits(p: PathBlockV) -> bool { p.1 is Some ==> p.1->Some_0 <= usize::MAX }
/// what a manifest can hold: names are words, numbers fit the machine
pub open spec fn writable(m: ManifestV) -> bool {
    &&& word(encode_utf8(m.hostname)) && plain(encode_utf8(m.hostname))
    &&& m.volumes.len() <= usize::MAX
    &&& forall|i: int| 0 <= i < m.volumes.len() ==> writable_volume(#[trigger] m.volumes[i])
}
pub open spec fn writable_volume(v: VolumeV) -> bool {
    block_fits(v.start) && block_fits(v.end) && word(encode_utf8(v.hash_type)) && v.hash.len() > 0
}
proof fn lemma_escape_word(p: Seq<u8>, f: Layout)
    requires layout_ok(f),
    ensures forall|i: int| 0 <= i < escape(p, f.esc).len() ==> #[trigger] escape(p, f.esc)[i] != 32 && escape(p, f.esc)[i] != 10 && escape(p, f.esc)[i] != 13,
    decreases p.len()
{
    if p.len() > 0 {
        lemma_escape_word(p.drop_first(), f);
        let a = esc_byte(p[0], f.esc);
        let t = escape(p.drop_first(), f.esc);
        assert forall|i: int| 0 <= i < escape(p, f.esc).len() implies #[trigger] escape(p, f.esc)[i] != 32 && escape(p, f.esc)[i] != 10 && escape(p, f.esc)[i] != 13 by {
            if i >= a.len() { assert(escape(p, f.esc)[i] == t[i - a.len()]); } else { assert(escape(p, f.esc)[i] == a[i]); }
        }
    }
}
proof fn lemma_path_word(p: Seq<u8>, f: Layout)
    requires layout_ok(f),
    ensures word(path_word(p, f)), unesc(path_word(p, f)) == p,
{
    if (f.quoted)(p) {
        lemma_escape_word(p, f);
        theorem_unquote(p, f.esc);
    } else {
        theorem_plain(p);
    }
}
proof fn lemma_sp_word(n: nat, w: Seq<u8>, rest: Seq<u8>)
    requires n > 0,
    ensures (sp(n) + w + rest)[0] == 32, (sp(n) + w)[0] == 32,
{}
proof fn lemma_keyword(ind: nat, key: Seq<char>, rest: Seq<u8>)
    requires ascii_word(key), rest.len() == 0 || rest[0] == 32,
    ensures p_keyword(sp(ind) + encode_utf8(key) + rest, key) == Ok::<Seq<u8>, PErr>(skip_blanks(rest)),
{
    lemma_ascii(key);
    lemma_next_word(ind, encode_utf8(key), rest);
}
/// the words after the keyword
proof fn lemma_one(g: nat, w: Seq<u8>)
    requires g > 0, word(w),
    ensures
        next_word(skip_blanks(sp(g) + w)) == Some((w, Seq::<u8>::empty())),
        next_word(Seq::<u8>::empty()) is None,
{
    lemma_no_word();
    lemma_next_word(g, w, seq![]);
    assert(sp(g) + w + seq![] =~= sp(g) + w);
    lemma_next_word_skip(sp(g) + w);
}
proof fn lemma_two(g: nat, w: Seq<u8>, w2: Seq<u8>)
    requires g > 0, word(w), word(w2),
    ensures
        next_word(skip_blanks(sp(g) + w + (sp(g) + w2))) == Some((w, skip_blanks(sp(g) + w2))),
        next_word(skip_blanks(sp(g) + w2)) == Some((w2, Seq::<u8>::empty())),
{
    lemma_next_word(g, w, sp(g) + w2);
    lemma_next_word_skip(sp(g) + w + (sp(g) + w2));
    lemma_one(g, w2);
}
proof fn lemma_in_line1(ind: nat, key: Seq<char>, f: Layout, w: Seq<u8>)
    requires ascii_word(key), word(w),
    ensures in_line(line1(ind, key, f, w)),
{
    lemma_ascii(key);
    let l = line1(ind, key, f, w);
    let k = encode_utf8(key);
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] != 10 && l[i] != 13 by {
        if ind <= i < ind + k.len() { assert(l[i] == k[i - ind]); }
        if ind + k.len() + f.gap <= i { assert(l[i] == w[i - ind - k.len() - f.gap]); }
    }
}
proof fn lemma_in_line2(ind: nat, key: Seq<char>, f: Layout, w: Seq<u8>, w2: Seq<u8>)
    requires ascii_word(key), word(w), word(w2),
    ensures in_line(line2(ind, key, f, w, w2)),
{
    let l1 = line1(ind, key, f, w);
    lemma_in_line1(ind, key, f, w);
    let l = line2(ind, key, f, w, w2);
    assert(l =~= l1 + (sp(f.gap) + w2));
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] l[i] != 10 && l[i] != 13 by {
        if i < l1.len() { assert(l[i] == l1[i]); }
        else if l1.len() + f.gap <= i { assert(l[i] == w2[i - l1.len() - f.gap]); }
    }
}
proof fn lemma_line1_bytes(ind: nat, key: Seq<char>, f: Layout, w: Seq<u8>)
    requires layout_ok(f), ascii_word(key), word(w),
    ensures p_bytes(line1(ind, key, f, w), key) == Ok::<Seq<u8>, PErr>(unesc(w)),
{
    lemma_keyword(ind, key, sp(f.gap) + w);
    lemma_one(f.gap, w);
}
proof fn lemma_digits_word(n: nat)
    ensures word(encode_utf8(dec_digits(n))), dec(encode_utf8(dec_digits(n))) == Ok::<Seq<char>, PErr>(dec_digits(n)),
        n <= usize::MAX ==> p_num(dec_digits(n)) == Ok::<nat, PErr>(n),
{
    lemma_dec_digits(n);
    lemma_ascii(dec_digits(n));
}
proof fn lemma_path_line(key: Seq<char>, f: Layout, p: PathBlockV)
    requires layout_ok(f), ascii_word(key), block_fits(p),
    ensures p_path_block(path_line(key, f, p), key) == Ok::<PathBlockV, PErr>(p), in_line(path_line(key, f, p)),
{
    let w = path_word(p.0, f);
    lemma_path_word(p.0, f);
    match p.1 {
        None => {
            lemma_keyword(f.indent, key, sp(f.gap) + w);
            lemma_one(f.gap, w);
            lemma_in_line1(f.indent, key, f, w);
        },
        Some(n) => {
            let w2 = encode_utf8(dec_digits(n));
            lemma_digits_word(n);
            lemma_sp_word(f.gap, w, sp(f.gap) + w2);
            lemma_keyword(f.indent, key, sp(f.gap) + w + (sp(f.gap) + w2));
            lemma_two(f.gap, w, w2);
            lemma_in_line2(f.indent, key, f, w, w2);
        },
    }
}
proof fn lemma_hash_line(f: Layout, v: VolumeV)
    requires layout_ok(f), writable_volume(v),
    ensures p_hash(hash_line(f, v)) == Ok::<(Seq<char>, Seq<u8>), PErr>((v.hash_type, v.hash)), in_line(hash_line(f, v)),
{
    reveal_strlit("Hash");
    let key = "Hash"@;
    assert(ascii_word(key));
    let w = encode_utf8(v.hash_type);
    let w2 = hex(v.hash);
    assert forall|i: int| 0 <= i < w2.len() implies #[trigger] w2[i] != 32 && w2[i] != 10 && w2[i] != 13 by {
        let b = v.hash[i / 2];
        assert((b % 16) < 16 && (b / 16) < 16);
    }
    assert(word(w2));
    lemma_dec_encode(v.hash_type);
    lemma_sp_word(f.gap, w, sp(f.gap) + w2);
    lemma_keyword(f.indent, key, sp(f.gap) + w + (sp(f.gap) + w2));
    lemma_two(f.gap, w, w2);
    theorem_unhex(v.hash);
    lemma_in_line2(f.indent, key, f, w, w2);
}
proof fn lemma_volume_line(f: Layout, n: nat)
    requires layout_ok(f), n <= usize::MAX,
    ensures p_str(volume_line(f, n), "Volume"@) == Ok::<Seq<char>, PErr>(dec_digits(n).push(':')),
        p_num(no_colon(dec_digits(n).push(':'))) == Ok::<nat, PErr>(n),
        in_line(volume_line(f, n)),
{
    reveal_strlit("Volume");
    let key = "Volume"@;
    assert(ascii_word(key));
    let t = dec_digits(n).push(':');
    lemma_dec_digits(n);
    lemma_digits_word(n);
    assert forall|i: int| 0 <= i < t.len() implies 33 <= #[trigger] t[i] as nat && t[i] as nat <= 127 by {
        if i < t.len() - 1 { assert(t[i] == dec_digits(n)[i]); }
    }
    lemma_ascii(t);
    let w = encode_utf8(t);
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i] != 92 && w[i] != 34 by {
        assert(w[i] == t[i] as u8);
        if i < t.len() - 1 { assert('0' <= dec_digits(n)[i] <= '9'); }
    }
    theorem_plain(w);
    lemma_line1_bytes(0, key, f, w);
    assert(t.drop_last() =~= dec_digits(n));
    lemma_in_line1(0, key, f, w);
}
proof fn lemma_volume(v: VolumeV, n: nat, f: Layout, rest: Seq<u8>)
    requires layout_ok(f), n <= usize::MAX, writable_volume(v),
    ensures
        p_volume(volume_text(v, n, f, rest)) == Ok::<Option<(VolumeV, nat)>, PErr>(Some((v, n))),
        after_volume(volume_text(v, n, f, rest)) == rest,
        rest.len() < volume_text(v, n, f, rest).len(),
{
    reveal(p_volume);
    reveal_strlit("StartingPath");
    reveal_strlit("EndingPath");
    assert(ascii_word("StartingPath"@) && ascii_word("EndingPath"@));
    lemma_volume_line(f, n);
    lemma_path_line("StartingPath"@, f, v.start);
    lemma_path_line("EndingPath"@, f, v.end);
    lemma_hash_line(f, v);
    let t3 = hash_line(f, v) + eol(f) + rest;
    let t2 = path_line("EndingPath"@, f, v.end) + eol(f) + t3;
    let t1 = path_line("StartingPath"@, f, v.start) + eol(f) + t2;
    lemma_line(volume_line(f, n), f, t1);
    lemma_line(path_line("StartingPath"@, f, v.start), f, t2);
    lemma_line(path_line("EndingPath"@, f, v.end), f, t3);
    lemma_line(hash_line(f, v), f, rest);
}
proof fn lemma_volumes(vs: Seq<VolumeV>, from: int, f: Layout)
    requires layout_ok(f), 0 <= from <= vs.len() <= usize::MAX, forall|i: int| 0 <= i < vs.len() ==> writable_volume(#[trigger] vs[i]),
    ensures p_volumes(volumes_text(vs, from, f), vs.take(from)) == Ok::<Seq<VolumeV>, PErr>(vs),
    decreases vs.len() - from
{
    if from < vs.len() {
        lemma_volumes(vs, from + 1, f);
        lemma_volume(vs[from], (from + 1) as nat, f, volumes_text(vs, from + 1, f));
        assert(vs.take(from).push(vs[from]) =~= vs.take(from + 1));
    } else {
        reveal(p_volume);
        assert(volumes_text(vs, from, f) =~= seq![]);
        assert(vs.take(from) =~= vs);
        assert(until(seq![], 10) == 0);
        assert(line_of(seq![]).len() == 0);
    }
}
proof fn lemma_manifest(m: ManifestV, f: Layout)
    requires layout_ok(f), writable(m),
    ensures p_manifest(manifest_text(m, f)) == Ok::<ManifestV, PErr>(m),
{
    reveal(p_manifest);
    reveal_strlit("Hostname");
    reveal_strlit("Localdir");
    let (h, d) = ("Hostname"@, "Localdir"@);
    assert(ascii_word(h) && ascii_word(d));
    let w = encode_utf8(m.hostname);
    lemma_dec_encode(m.hostname);
    theorem_plain(w);
    lemma_line1_bytes(0, h, f, w);
    lemma_in_line1(0, h, f, w);
    lemma_path_word(m.local_dir, f);
    lemma_line1_bytes(0, d, f, path_word(m.local_dir, f));
    lemma_in_line1(0, d, f, path_word(m.local_dir, f));
    let t2 = volumes_text(m.volumes, 0, f);
    let t1 = line1(0, d, f, path_word(m.local_dir, f)) + eol(f) + t2;
    lemma_line(line1(0, h, f, w), f, t1);
    lemma_line(line1(0, d, f, path_word(m.local_dir, f)), f, t2);
    lemma_volumes(m.volumes, 0, f);
    assert(m.volumes.take(0) =~= seq![]);
}
/// C10: a manifest that was written is read back
fn theorem_round_trip<R: BufRead>(r: &mut R, m: Ghost<ManifestV>, f: Ghost<Layout>) -> (res: Result<Manifest, ParseError>)
    requires layout_ok(f@), writable(m@), stream_of::<R>(*old(r)) == manifest_text(m@, f@),
    ensures reader_failed(res) || (res is Ok && res->Ok_0.v() == m@),
{
    let ghost s = stream_of::<R>(*r);
    proof { lemma_manifest(m@, f@); }
    let res = Manifest::parse(r);
    assert(parsed(res, s));
    res
}
/// C11: the numbers of the volumes of an accepted text are 1, 2, 3, ...
pub open spec fn numbered(s: Seq<u8>, from: nat, n: nat) -> bool
    decreases n
{
    n == 0 || (p_volume(s) is Ok && p_volume(s)->Ok_0 is Some && p_volume(s)->Ok_0->Some_0.1 == from + 1 && numbered(after_volume(s), from + 1, (n - 1) as nat))
}
proof fn lemma_numbered(s: Seq<u8>, acc: Seq<VolumeV>)
    requires p_volumes(s, acc) is Ok,
    ensures p_volumes(s, acc)->Ok_0.len() >= acc.len(), numbered(s, acc.len(), (p_volumes(s, acc)->Ok_0.len() - acc.len()) as nat),
    decreases s.len()
{
    match p_volume(s) {
        Ok(Some((v, n))) => {
            lemma_numbered(after_volume(s), acc.push(v));
        },
        _ => {},
    }
}
fn theorem_numbered<R: BufRead>(r: &mut R) -> (res: Result<Manifest, ParseError>)
    ensures res is Ok ==> numbered(after_line(after_line(stream_of::<R>(*old(r)))), 0, res->Ok_0.v().volumes.len()),
{
    let ghost s = stream_of::<R>(*r);
    let res = Manifest::parse(r);
    assert(parsed(res, s));
    proof {
        reveal(p_manifest);
        if res is Ok { lemma_numbered(after_line(after_line(s)), seq![]); }
    }
    res
}
//@ verus
// ---------------------------------------------------------------- looking up volumes
pub open spec fn ord_rank(o: Ordering) -> int { match o { Ordering::Less => 0, Ordering::Equal => 1, Ordering::Greater => 2 } }
/// the comparator sorts the elements before, at and after the one that is searched
pub open spec fn monotone<'a, T, F: FnMut(&'a T) -> Ordering>(f: F, s: &'a [T]) -> bool {
    forall|i: int, j: int, o: Ordering, p: Ordering| 0 <= i < j < s@.len() && call_ensures(f, (&s@[i],), o) && call_ensures(f, (&s@[j],), p)
        ==> ord_rank(o) <= ord_rank(p)
}
pub assume_specification<'a, T, F: FnMut(&'a T) -> Ordering> [<[T]>::binary_search_by::<'a, F>] (s: &'a [T], f: F) -> (r: Result<usize, usize>)
    requires forall|i: int| 0 <= i < s@.len() ==> call_requires(f, (&(#[trigger] s@[i]),)),
    ensures
        match r {
            Ok(k) => k < s@.len() && call_ensures(f, (&s@[k as int],), Ordering::Equal),
            Err(_) => monotone(f, s) ==> forall|i: int| #![trigger s@[i]] 0 <= i < s@.len() ==>
                call_ensures(f, (&s@[i],), Ordering::Less) || call_ensures(f, (&s@[i],), Ordering::Greater),
        };
pub assume_specification<T: Clone> [<[T] as std::borrow::ToOwned>::to_owned] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned::<T>(s@[i], #[trigger] r@[i]),
        (forall|a: T, b: T| #[trigger] vstd::pervasive::cloned::<T>(a, b) ==> a == b) ==> r@ == s@;
/// the path is in the range of a volume
pub open spec fn contains(v: VolumeV, p: Seq<u8>) -> bool {
    !(path_cmp(p, v.start.0) is Less) && !(path_cmp(p, v.end.0) is Greater)
}
pub open spec fn mid_start(v: VolumeV) -> bool { v.start.1 is Some && v.start.1->Some_0 > 0 }
pub open spec fn mid_end(v: VolumeV) -> bool { v.end.1 is Some }
/// Duplicity's order: a volume starts after the end of the previous one; a file is divided only
/// when it ends one volume, with a block number, and starts the next, at a later block.
pub open spec fn well_ordered(vs: Seq<VolumeV>) -> bool { forall|i: int| 0 <= i < vs.len() ==> #[trigger] in_order(vs, i) }
pub open spec fn in_order(vs: Seq<VolumeV>, i: int) -> bool {
    &&& !(path_cmp(vs[i].start.0, vs[i].end.0) is Greater)
    &&& mid_end(vs[i]) ==> i + 1 < vs.len() && path_cmp(vs[i].end.0, vs[i + 1].start.0) is Equal
    &&& mid_start(vs[i]) ==> i > 0 && path_cmp(vs[i - 1].end.0, vs[i].start.0) is Equal
    &&& i > 0 ==> !(path_cmp(vs[i - 1].end.0, vs[i].start.0) is Greater)
    &&& i > 0 && path_cmp(vs[i - 1].end.0, vs[i].start.0) is Equal ==> mid_end(vs[i - 1]) && mid_start(vs[i])
}
/// a later volume starts at or after the end of an earlier one, and neither end of a volume that
/// lies between two pieces of a file has another path
proof fn lemma_later(vs: Seq<VolumeV>, i: int, j: int)
    requires well_ordered(vs), 0 <= i < j < vs.len(),
    ensures
        !(path_cmp(vs[i].end.0, vs[j].start.0) is Greater),
        path_cmp(vs[i].end.0, vs[j].start.0) is Equal ==> mid_end(vs[i]) && mid_start(vs[j]),
    decreases j - i
{
    assert(in_order(vs, j) && in_order(vs, j - 1));
    if i < j - 1 {
        lemma_later(vs, i, j - 1);
        let (a, b, c, d) = (vs[i].end.0, vs[j - 1].start.0, vs[j - 1].end.0, vs[j].start.0);
        lemma_path_order(a, b, c);
        lemma_path_order(a, c, d);
        lemma_path_order(b, c, d);
        assert(!(path_cmp(b, c) is Greater));
        assert(!(path_cmp(a, c) is Greater));
    }
}
/// the positions of the path relative to the volumes, as first_volume_of_path takes them
pub open spec fn first_cmp(v: VolumeV, p: Seq<u8>) -> Ordering {
    match path_cmp(p, v.start.0) {
        Ordering::Less => Ordering::Greater,
        Ordering::Greater => if path_cmp(p, v.end.0) is Greater { Ordering::Less } else { Ordering::Equal },
        Ordering::Equal => if mid_start(v) { Ordering::Greater } else { Ordering::Equal },
    }
}
pub open spec fn last_cmp(v: VolumeV, p: Seq<u8>) -> Ordering {
    match path_cmp(p, v.end.0) {
        Ordering::Greater => Ordering::Less,
        Ordering::Less => if path_cmp(p, v.start.0) is Less { Ordering::Greater } else { Ordering::Equal },
        Ordering::Equal => if mid_end(v) { Ordering::Less } else { Ordering::Equal },
    }
}
proof fn lemma_first_cmp(vs: Seq<VolumeV>, i: int, j: int, p: Seq<u8>)
    requires well_ordered(vs), 0 <= i < j < vs.len(),
    ensures
        ord_rank(first_cmp(vs[i], p)) <= ord_rank(first_cmp(vs[j], p)),
        ord_rank(last_cmp(vs[i], p)) <= ord_rank(last_cmp(vs[j], p)),
        first_cmp(vs[j], p) is Equal ==> !contains(vs[i], p),
        last_cmp(vs[i], p) is Equal ==> !contains(vs[j], p),
{
    let (a, b, c, d) = (vs[i].start.0, vs[i].end.0, vs[j].start.0, vs[j].end.0);
    lemma_later(vs, i, j);
    assert(in_order(vs, i) && in_order(vs, j));
    lemma_path_order(p, a, b); lemma_path_order(p, b, c); lemma_path_order(p, c, d); lemma_path_order(p, a, c); lemma_path_order(p, b, d);
    lemma_path_order(a, b, c); lemma_path_order(b, c, d); lemma_path_order(a, b, p); lemma_path_order(b, c, p); lemma_path_order(c, d, p); lemma_path_order(a, c, p);
    lemma_path_order(b, d, p);
}
/// nothing found means nothing there, in spite of divided files
proof fn lemma_none(vs: Seq<VolumeV>, p: Seq<u8>, k: int)
    requires well_ordered(vs), 0 <= k < vs.len(), contains(vs[k], p),
    ensures
        exists|i: int| 0 <= i < vs.len() && first_cmp(#[trigger] vs[i], p) is Equal,
        exists|i: int| 0 <= i < vs.len() && last_cmp(#[trigger] vs[i], p) is Equal,
{
    lemma_none_first(vs, p, k);
    lemma_none_last(vs, p, k);
}
proof fn lemma_none_first(vs: Seq<VolumeV>, p: Seq<u8>, k: int)
    requires well_ordered(vs), 0 <= k < vs.len(), contains(vs[k], p),
    ensures exists|i: int| 0 <= i <= k && first_cmp(#[trigger] vs[i], p) is Equal,
    decreases k
{
    assert(in_order(vs, k));
    if first_cmp(vs[k], p) is Equal {
        assert(first_cmp(vs[k], p) is Equal);
    } else {
        let (a, b, c, d) = (vs[k - 1].start.0, vs[k - 1].end.0, vs[k].start.0, vs[k].end.0);
        assert(in_order(vs, k));
        lemma_path_order(p, b, c); lemma_path_order(p, c, b); lemma_path_order(a, b, p); lemma_path_order(p, a, b); lemma_path_order(b, c, p);
        assert(in_order(vs, k - 1));
        assert(contains(vs[k - 1], p));
        lemma_none_first(vs, p, k - 1);
    }
}
proof fn lemma_none_last(vs: Seq<VolumeV>, p: Seq<u8>, k: int)
    requires well_ordered(vs), 0 <= k < vs.len(), contains(vs[k], p),
    ensures exists|i: int| k <= i < vs.len() && last_cmp(#[trigger] vs[i], p) is Equal,
    decreases vs.len() - k
{
    assert(in_order(vs, k));
    if last_cmp(vs[k], p) is Equal {
        assert(last_cmp(vs[k], p) is Equal);
    } else {
        assert(in_order(vs, k));
        let (b, c, d) = (vs[k].end.0, vs[k + 1].start.0, vs[k + 1].end.0);
        lemma_path_order(p, b, c); lemma_path_order(p, c, d); lemma_path_order(c, d, p); lemma_path_order(b, c, p); lemma_path_order(p, c, b);
        assert(in_order(vs, k + 1));
        assert(contains(vs[k + 1], p));
        lemma_none_last(vs, p, k + 1);
    }
}
pub open spec fn is_first(vs: Seq<VolumeV>, p: Seq<u8>, r: Option<usize>) -> bool {
    match r {
        Some(n) => 1 <= n <= vs.len() && contains(vs[n - 1], p) && forall|j: int| 0 <= j < n - 1 ==> !contains(#[trigger] vs[j], p),
        None => forall|j: int| 0 <= j < vs.len() ==> !contains(#[trigger] vs[j], p),
    }
}
pub open spec fn is_last(vs: Seq<VolumeV>, p: Seq<u8>, r: Option<usize>) -> bool {
    match r {
        Some(n) => 1 <= n <= vs.len() && contains(vs[n - 1], p) && forall|j: int| n <= j < vs.len() ==> !contains(#[trigger] vs[j], p),
        None => forall|j: int| 0 <= j < vs.len() ==> !contains(#[trigger] vs[j], p),
    }
}
proof fn lemma_lookup(vs: Seq<VolumeV>, p: Seq<u8>)
    requires well_ordered(vs),
    ensures
        forall|i: int, j: int| 0 <= i < j < vs.len() ==> ord_rank(first_cmp(#[trigger] vs[i], p)) <= ord_rank(first_cmp(#[trigger] vs[j], p)),
        forall|i: int, j: int| 0 <= i < j < vs.len() ==> ord_rank(last_cmp(#[trigger] vs[i], p)) <= ord_rank(last_cmp(#[trigger] vs[j], p)),
        forall|n: int| #![trigger vs[n]] 0 <= n < vs.len() && first_cmp(vs[n], p) is Equal ==> is_first(vs, p, Some((n + 1) as usize)) || n >= usize::MAX,
        forall|n: int| #![trigger vs[n]] 0 <= n < vs.len() && last_cmp(vs[n], p) is Equal ==> is_last(vs, p, Some((n + 1) as usize)) || n >= usize::MAX,
        (forall|i: int| 0 <= i < vs.len() ==> !(first_cmp(#[trigger] vs[i], p) is Equal)) ==> is_first(vs, p, None),
        (forall|i: int| 0 <= i < vs.len() ==> !(last_cmp(#[trigger] vs[i], p) is Equal)) ==> is_last(vs, p, None),
{
    assert forall|i: int, j: int| 0 <= i < j < vs.len() implies ord_rank(first_cmp(#[trigger] vs[i], p)) <= ord_rank(first_cmp(#[trigger] vs[j], p)) by { lemma_first_cmp(vs, i, j, p); }
    assert forall|i: int, j: int| 0 <= i < j < vs.len() implies ord_rank(last_cmp(#[trigger] vs[i], p)) <= ord_rank(last_cmp(#[trigger] vs[j], p)) by { lemma_first_cmp(vs, i, j, p); }
    assert forall|n: int| #![trigger vs[n]] 0 <= n < vs.len() && first_cmp(vs[n], p) is Equal && n < usize::MAX implies is_first(vs, p, Some((n + 1) as usize)) by {
        lemma_path_order(p, vs[n].start.0, vs[n].end.0);
        assert(in_order(vs, n));
        assert forall|j: int| 0 <= j < n implies !contains(#[trigger] vs[j], p) by { lemma_first_cmp(vs, j, n, p); }
    }
    assert forall|n: int| #![trigger vs[n]] 0 <= n < vs.len() && last_cmp(vs[n], p) is Equal && n < usize::MAX implies is_last(vs, p, Some((n + 1) as usize)) by {
        lemma_path_order(p, vs[n].start.0, vs[n].end.0);
        lemma_path_order(vs[n].start.0, vs[n].end.0, p);
        lemma_path_order(p, vs[n].end.0, vs[n].start.0);
        assert(in_order(vs, n));
        assert forall|j: int| n < j < vs.len() implies !contains(#[trigger] vs[j], p) by { lemma_first_cmp(vs, n, j, p); }
    }
    assert forall|k: int| 0 <= k < vs.len() && contains(#[trigger] vs[k], p) implies (exists|i: int| 0 <= i < vs.len() && first_cmp(#[trigger] vs[i], p) is Equal)
        && (exists|i: int| 0 <= i < vs.len() && last_cmp(#[trigger] vs[i], p) is Equal) by { lemma_none(vs, p, k); }
}
//@ fn Manifest::first_volume_of_path ret=r props=C13
//@ spec
    requires well_ordered(self.v().volumes),
    ensures is_first(self.v().volumes, path@, r),
//@ start
        proof {
            axiom_vec_len(&self.volumes);
            let vs = self.v().volumes;
            lemma_lookup(vs, path@);
            assert forall|i: int, j: int| 0 <= i < j < self.volumes@.len() implies
                ord_rank(first_cmp((#[trigger] self.volumes@[i]).v(), path@)) <= ord_rank(first_cmp((#[trigger] self.volumes@[j]).v(), path@)) by {
                assert(vs[i] == self.volumes@[i].v() && vs[j] == self.volumes@[j].v());
            }
        }
//@ closure 0 count 2
//@ closure 0 params 1
    |v: &Volume| -> (o: Ordering)
//@ closure 0 spec
    ensures o == first_cmp(v.v(), path@)
//@ closure 1 params 1
    |idx: usize| -> (n: usize)
//@ closure 1 spec
    requires idx < usize::MAX ensures n == idx + 1
//@ fn Manifest::last_volume_of_path ret=r props=C13
//@ spec
    requires well_ordered(self.v().volumes),
    ensures is_last(self.v().volumes, path@, r),
//@ start
        proof {
            axiom_vec_len(&self.volumes);
            let vs = self.v().volumes;
            lemma_lookup(vs, path@);
            assert forall|i: int, j: int| 0 <= i < j < self.volumes@.len() implies
                ord_rank(last_cmp((#[trigger] self.volumes@[i]).v(), path@)) <= ord_rank(last_cmp((#[trigger] self.volumes@[j]).v(), path@)) by {
                assert(vs[i] == self.volumes@[i].v() && vs[j] == self.volumes@[j].v());
            }
        }
//@ closure 0 count 2
//@ closure 0 params 1
    |v: &Volume| -> (o: Ordering)
//@ closure 0 spec
    ensures o == last_cmp(v.v(), path@)
//@ closure 1 params 1
    |idx: usize| -> (n: usize)
//@ closure 1 spec
    requires idx < usize::MAX ensures n == idx + 1
//@ verus
}
fn main() {}
