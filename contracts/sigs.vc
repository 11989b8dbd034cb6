//@ subst .sort_by( => .sort_by_(
//@ subst .peekable( => .peekable_(
//@ subst .entries() => .entries_()
//@ subst .extend( => .extend_(
//@ subst .iter().cloned().position( => .position_(
//@ subst .find( => .find_(
//@ subst .path_bytes() => .path_bytes_()
//@ subst .link_name_bytes() => .link_name_bytes_()
//@ subst .into_local_display() => .into_local_display_()
//@ subst .read_u32::<BigEndian>() => .read_be32_()
//@ subst self.0.clone() => self.0.clone_()
//@ subst Err(fmt::Error) => Err(fmt_error_())
//@ verus
#![feature(sized_hierarchy, const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::{PartialOrdSpec, OrdSpec};
use vstd::utf8::{decode_utf8, encode_utf8, valid_utf8};
use std::cmp::Ordering;
use std::collections::HashMap;
use std::ffi::{OsStr, OsString};
use std::fmt::{self, Display, Formatter};
use std::io::{self, Read};
use std::marker::PointeeSized;
use std::os::unix::prelude::*;
use std::path::{Path, PathBuf};
use std::slice;
use std::string::FromUtf8Error;
use flate2::read::GzDecoder;
use time::Timespec;
use byteorder::{BigEndian, ReadBytesExt};
verus! {
global size_of usize == 8;
//@ include time_spec.vc
//@ include std_spec.vc
//@ include path_spec.vc
//@ include sort_spec.vc
//@ verus
// ---------------------------------------------------------------- trusted: standard library
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(io::Error);
#[verifier::external_trait_specification]
pub trait ExRead { type ExternalTraitSpecificationFor: Read; }
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(AsRefSpec via AsRefSpecImpl)]
pub trait ExAsRef<T: PointeeSized>: PointeeSized {
    type ExternalTraitSpecificationFor: AsRef<T>;
    spec fn as_ref_spec(&self) -> &T;
    fn as_ref(&self) -> (r: &T) ensures r == self.as_ref_spec();
}
pub assume_specification [<String as AsRef<str>>::as_ref] (s: &String) -> (r: &str) ensures r@ == s@;
pub assume_specification [Timespec::new] (sec: i64, nsec: i32) -> (r: Timespec)
    requires 0 <= nsec < 1_000_000_000,
    ensures r.sec == sec, r.nsec == nsec;

/// Marks an index that a proof wants quantified facts about an iterator to be instantiated with.
pub open spec fn at(i: int) -> bool { true }
pub trait Search_: Iterator + Sized {
    fn find_<P: FnMut(&Self::Item) -> bool>(&mut self, p: P) -> (r: Option<Self::Item>)
        requires forall|j: int| #![trigger old(self).remaining()[j]] 0 <= j < old(self).remaining().len() ==> call_requires(p, (&old(self).remaining()[j],)),
        ensures
            old(self).obeys_prophetic_iter_laws() ==> match r {
                Some(x) => exists|k: int| {
                    &&& #[trigger] at(k) && 0 <= k < old(self).remaining().len() && x == old(self).remaining()[k]
                    &&& call_ensures(p, (&x,), true)
                    &&& forall|j: int| #![trigger at(j)] 0 <= j < k ==> call_ensures(p, (&old(self).remaining()[j],), false)
                },
                None => forall|j: int| #![trigger at(j)] 0 <= j < old(self).remaining().len() ==> call_ensures(p, (&old(self).remaining()[j],), false),
            };
}
impl<I: Iterator> Search_ for I {
    fn find_<P: FnMut(&Self::Item) -> bool>(&mut self, p: P) -> (r: Option<Self::Item>) {
        let r = self.find(p);
        proof {
            if old(self).obeys_prophetic_iter_laws() && r is Some {
                assert(at(old(self).remaining().len() - self.remaining().len() - 1));
            }
        }
        r
    }
}
pub trait Position_ {
    spec fn all(&self) -> Seq<u8>;
    fn position_<P: FnMut(u8) -> bool>(&self, p: P) -> (r: Option<usize>)
        requires forall|x: u8| #[trigger] call_requires(p, (x,)),
        ensures
            match r {
                Some(k) => {
                    &&& k < self.all().len()
                    &&& call_ensures(p, (self.all()[k as int],), true)
                    &&& forall|j: int| #![trigger self.all()[j]] 0 <= j < k ==> call_ensures(p, (self.all()[j],), false)
                },
                None => forall|j: int| #![trigger self.all()[j]] #![trigger at(j)] 0 <= j < self.all().len() ==> call_ensures(p, (self.all()[j],), false),
            };
}
impl Position_ for [u8] {
    open spec fn all(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn position_<P: FnMut(u8) -> bool>(&self, p: P) -> (r: Option<usize>) { self.iter().cloned().position(p) }
}
/// Keeps the name free for a variable: vstd has a type `real`.
fn real() {}
fn bytes_eq(a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@ == b@),
{
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len()
        invariant a@.len() == b@.len(), i <= a@.len(), a@.take(i as int) == b@.take(i as int),
        decreases a@.len() - i,
    {
        if a[i] != b[i] { assert(a@[i as int] != b@[i as int]); return false; }
        assert(a@.take(i as int + 1) =~= a@.take(i as int).push(a@[i as int]));
        assert(b@.take(i as int + 1) =~= b@.take(i as int).push(b@[i as int]));
        i += 1;
    }
    assert(a@.take(i as int) =~= a@);
    assert(b@.take(i as int) =~= b@);
    true
}

// ---------------------------------------------------------------- trusted: crate tar
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct ExTarEntry<'a, R: 'a + Read>(tar::Entry<'a, R>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTarHeader(tar::Header);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTarEntryType(tar::EntryType);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);
/// The header of a member of an archive; None for a field that does not hold what it should.
pub ghost struct Head {
    pub size: Option<u64>, pub mtime: Option<u64>, pub uid: Option<u64>, pub gid: Option<u64>, pub mode: Option<u32>,
    pub user: Option<Seq<char>>, pub group: Option<Seq<char>>, pub kind: u8,
}
/// A member of an archive.
pub ghost struct Member {
    pub path: Seq<u8>,
    pub head: Head,
    pub link: Option<Seq<u8>>,
    /// what can still be read of it before its end, or before reading fails
    pub data: Seq<u8>,
}
pub uninterp spec fn head_of(h: &tar::Header) -> Head;
pub uninterp spec fn member<'a, R: Read>(e: tar::Entry<'a, R>) -> Member;
pub uninterp spec fn kind_byte(t: tar::EntryType) -> u8;
pub open spec fn ok<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
pub assume_specification<'a, 'b, R: Read> [tar::Entry::<'a, R>::header] (e: &'b tar::Entry<'a, R>) -> (h: &'b tar::Header)
    ensures head_of(h) == member(*e).head;
pub assume_specification [tar::Header::size] (h: &tar::Header) -> (r: Result<u64, io::Error>) ensures ok(r) == head_of(h).size;
pub assume_specification [tar::Header::mtime] (h: &tar::Header) -> (r: Result<u64, io::Error>) ensures ok(r) == head_of(h).mtime;
pub assume_specification [tar::Header::uid] (h: &tar::Header) -> (r: Result<u64, io::Error>) ensures ok(r) == head_of(h).uid;
pub assume_specification [tar::Header::gid] (h: &tar::Header) -> (r: Result<u64, io::Error>) ensures ok(r) == head_of(h).gid;
pub assume_specification [tar::Header::mode] (h: &tar::Header) -> (r: Result<u32, io::Error>) ensures ok(r) == head_of(h).mode;
pub open spec fn text_of(r: Result<Option<&str>, std::str::Utf8Error>) -> Option<Seq<char>> {
    match r { Ok(Some(s)) => Some(s@), _ => None }
}
pub assume_specification<'b> [tar::Header::username] (h: &'b tar::Header) -> (r: Result<Option<&'b str>, std::str::Utf8Error>) ensures text_of(r) == head_of(h).user;
pub assume_specification<'b> [tar::Header::groupname] (h: &'b tar::Header) -> (r: Result<Option<&'b str>, std::str::Utf8Error>) ensures text_of(r) == head_of(h).group;
pub assume_specification [tar::Header::entry_type] (h: &tar::Header) -> (r: tar::EntryType) ensures kind_byte(r) == head_of(h).kind;
pub assume_specification [tar::EntryType::as_byte] (t: &tar::EntryType) -> (r: u8) ensures r == kind_byte(*t);
pub open spec fn be32(s: Seq<u8>) -> nat { ((s[0] as nat * 256 + s[1] as nat) * 256 + s[2] as nat) * 256 + s[3] as nat }
pub open spec fn same_but_data(a: Member, b: Member) -> bool { a.path == b.path && a.head == b.head && a.link == b.link }
pub struct OwnedLink(Vec<u8>);
impl OwnedLink {
    pub closed spec fn view(&self) -> Seq<u8> { self.0@ }
    pub fn into_owned(self) -> (r: Vec<u8>) ensures r@ == self@ { self.0 }
}
pub trait TarEntry_ {
    spec fn mem(&self) -> Member;
    fn path_bytes_(&self) -> (r: Vec<u8>) ensures r@ == self.mem().path;
    fn link_name_bytes_(&self) -> (r: Option<OwnedLink>)
        ensures match r { Some(l) => self.mem().link == Some(l@), None => self.mem().link is None };
    fn read_be32_(&mut self) -> (r: Result<u32, io::Error>)
        ensures
            same_but_data(final(self).mem(), old(self).mem()),
            match r {
                Ok(v) => old(self).mem().data.len() >= 4 && v == be32(old(self).mem().data) && final(self).mem().data == old(self).mem().data.skip(4),
                Err(_) => old(self).mem().data.len() < 4,
            };
}
impl<'a, R: Read> TarEntry_ for tar::Entry<'a, R> {
    open spec fn mem(&self) -> Member { member(*self) }
    #[verifier::external_body]
    fn path_bytes_(&self) -> (r: Vec<u8>) { self.path_bytes().into_owned() }
    #[verifier::external_body]
    fn link_name_bytes_(&self) -> (r: Option<OwnedLink>) { self.link_name_bytes().map(|c| OwnedLink(c.into_owned())) }
    #[verifier::external_body]
    fn read_be32_(&mut self) -> (r: Result<u32, io::Error>) { self.read_u32::<BigEndian>() }
}

//@ file src/signatures.rs
//@ item enum DiffType derive=Clone,Copy
//@ verus
// ---------------------------------------------------------------- the folders of a signature archive
pub ghost enum Folder { Signature, Snapshot, Deleted }
spec fn folder_of(d: DiffType) -> Folder {
    match d { DiffType::Signature => Folder::Signature, DiffType::Snapshot => Folder::Snapshot, DiffType::Deleted => Folder::Deleted }
}
pub open spec fn sig_word() -> Seq<u8> { seq![115u8, 105, 103, 110, 97, 116, 117, 114, 101] }
pub open spec fn snap_word() -> Seq<u8> { seq![115u8, 110, 97, 112, 115, 104, 111, 116] }
pub open spec fn del_word() -> Seq<u8> { seq![100u8, 101, 108, 101, 116, 101, 100] }
pub open spec fn folder_named(w: Seq<u8>) -> Option<Folder> {
    if w == sig_word() { Some(Folder::Signature) } else if w == snap_word() { Some(Folder::Snapshot) }
    else if w == del_word() { Some(Folder::Deleted) } else { None }
}
/// the text without the slash it ends in
pub open spec fn no_end_slash(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && s.last() == 47 { s.drop_last() } else { s } }
/// The folder a member is in, and the path it is about.
pub open spec fn split_path(p: Seq<u8>) -> Option<(Folder, Seq<u8>)> {
    let n = part_len(p) as int;
    if n < p.len() {
        match folder_named(p.take(n)) { Some(f) => Some((f, no_end_slash(p.skip(n + 1)))), None => None }
    } else { None }
}
broadcast proof fn lemma_first_slash(s: Seq<u8>)
    ensures ({
        let n = #[trigger] part_len(s) as int;
        &&& at(n) && n <= s.len()
        &&& n < s.len() ==> s[n] == 47
        &&& forall|j: int| #![trigger s[j]] 0 <= j < n ==> s[j] != 47
    }),
    decreases s.len(),
{
    let n = part_len(s) as int;
    if n > 0 {
        let t = s.drop_first();
        lemma_first_slash(t);
        if n < s.len() { assert(t[n - 1] == s[n]); }
        assert forall|j: int| #![trigger s[j]] 0 <= j < n implies s[j] != 47 by { if j > 0 { assert(t[j - 1] == s[j]); } }
    }
}
proof fn lemma_words(w: Seq<u8>)
    ensures w.len() == 9 ==> w != snap_word() && w != del_word(), w.len() == 8 ==> w != del_word(),
{}
//@ fn parse_snapshot_path ret=r props=C07,C08
//@ spec
    ensures
        match r {
            Some((d, p)) => split_path(path@) == Some((folder_of(d), p@)),
            None => split_path(path@) is None,
        },
//@ closure 0 params 1
|b: u8|
//@ closure 0 spec
-> (r: bool) ensures r == (b == 47)
//@ start
    broadcast use lemma_first_slash;
    proof { lemma_words(path@.take(part_len(path@) as int)); }
//@ let pos after
    proof { assert(part_len(path@) == pos); }
//@ verus
// ---------------------------------------------------------------- C08: size hints
pub open spec fn magic() -> nat { 0x72730136 }
/// the hint for `n` blocks of length `b`
pub open spec fn block_hint(b: nat, n: nat) -> Option<(usize, usize)> {
    if b * n > usize::MAX { None }
    else if b * n > b { Some(((b * n - b + 1) as usize, (b * n) as usize)) }
    else { Some((0, (b * n) as usize)) }
}
/// What a signature of an rsync delta says of the length of the file: `size` is the length of the signature.
pub open spec fn delta_hint(data: Seq<u8>, size: Option<u64>) -> Option<(usize, usize)> {
    if data.len() < 12 || be32(data) != magic() { None }
    else { match size {
        Some(n) if n >= 12 => block_hint(be32(data.skip(4)), ((n - 12) as nat / (be32(data.skip(8)) + 4))),
        _ => None,
    } }
}
pub open spec fn whole_hint(size: Option<u64>) -> Option<(usize, usize)> {
    match size { Some(n) => Some((n as usize, n as usize)), None => None }
}
pub open spec fn hint_of(m: Member) -> Option<(usize, usize)> {
    match split_path(m.path) {
        Some((Folder::Signature, _)) => delta_hint(m.data, m.head.size),
        Some((Folder::Snapshot, _)) => whole_hint(m.head.size),
        _ => None,
    }
}
//@ fn compute_size_hint_snapshot ret=r props=C08
//@ spec
    ensures
        r == whole_hint(member(*old(file)).head.size),
        same_but_data(member(*final(file)), member(*old(file))),
//@ fn compute_size_hint_signature ret=r props=C08
//@ spec
    ensures
        r == delta_hint(member(*old(file)).data, member(*old(file)).head.size),
        same_but_data(member(*final(file)), member(*old(file))),
//@ start
    proof {
        let d = member(*file).data;
        assert(d.len() >= 8 ==> d.skip(4).skip(4) =~= d.skip(8));
        assert(forall|b: int, n: int| b == 0 ==> #[trigger] (b * n) == 0) by (nonlinear_arith);
    }
//@ fn compute_size_hint ret=r props=C08
//@ spec
    ensures
        r == hint_of(member(*old(file))),
        same_but_data(member(*final(file)), member(*old(file))),
//@ verus
/// the signature that librsync writes for a file of `len` bytes cut in blocks of `b` bytes, with sums of `s` bytes
pub open spec fn written_signature(data: Seq<u8>, size: nat, len: nat, b: nat, s: nat) -> bool {
    &&& data.len() == size && size >= 12
    &&& be32(data) == magic() && be32(data.skip(4)) == b && be32(data.skip(8)) == s
    &&& exists|n: nat| #[trigger] blocks_of(len, b, n) && size == 12 + n * (s + 4)
}
/// `len` bytes make `n` blocks of `b` bytes, of which only the last may be short
pub open spec fn blocks_of(len: nat, b: nat, n: nat) -> bool {
    b > 0 && len <= n * b && (n > 0 ==> (n - 1) * b < len)
}
/// C08: the hint brackets the length of the file within a block.
pub proof fn theorem_bracket(m: Member, p: Seq<u8>, len: nat, b: nat, s: nat)
    requires
        split_path(m.path) == Some((Folder::Signature, p)),
        m.head.size is Some,
        written_signature(m.data, m.head.size->Some_0 as nat, len, b, s),
        len + b <= usize::MAX,
    ensures ({
        let h = hint_of(m);
        h is Some && h->Some_0.0 <= len <= h->Some_0.1 && h->Some_0.1 - h->Some_0.0 <= b
    }),
{
    let size = m.head.size->Some_0 as nat;
    let n = choose|n: nat| #[trigger] blocks_of(len, b, n) && size == 12 + n * (s + 4);
    let q = s + 4;
    assert((size - 12) as nat / q == n) by (nonlinear_arith) requires size == 12 + n * q, q > 0;
    assert((n - 1) * b == n * b - b) by (nonlinear_arith);
    assert(b * n == n * b) by (nonlinear_arith);
    if n > 0 { assert(n * b < len + b); } else { assert(n * b == 0) by (nonlinear_arith) requires n == 0; }
    assert(n > 1 ==> b * n > b) by (nonlinear_arith) requires b > 0;
    assert(n == 1 ==> b * n == b) by (nonlinear_arith);
}
/// C08: a file stored whole has its size as both bounds.
pub proof fn theorem_whole(m: Member, p: Seq<u8>)
    requires split_path(m.path) == Some((Folder::Snapshot, p)), m.head.size is Some,
    ensures hint_of(m) == Some((m.head.size->Some_0 as usize, m.head.size->Some_0 as usize)),
{
}
/// C08: no hint from what is not a signature.
pub proof fn theorem_no_hint(m: Member)
    ensures
        split_path(m.path) is None ==> hint_of(m) is None,
        m.head.size is None ==> hint_of(m) is None,
        split_path(m.path) matches Some((Folder::Deleted, _)) ==> hint_of(m) is None,
        (split_path(m.path) matches Some((Folder::Signature, _))) && (m.data.len() < 12 || be32(m.data) != magic()
            || be32(m.data.skip(4)) * ((m.head.size->Some_0 - 12) as nat / (be32(m.data.skip(8)) + 4)) > usize::MAX)
            ==> hint_of(m) is None,
{
}

//@ item struct Chain vis=pub
//@ item struct Snapshots vis=pub
//@ item struct Snapshot vis=pub
//@ item struct SnapshotEntries vis=pub needs=Clone
//@ item struct Entry vis=pub
//@ item enum EntryType vis=pub derive=Clone,Copy
//@ item struct PathSnapshots vis=pub
//@ item struct PathSnapshot vis=pub
//@ item struct PathInfo vis=pub
//@ item struct UserGroupMap vis=pub
//@ item struct ModeDisplay vis=pub
//@ verus
pub mod lemmas {
use super::*;
pub broadcast proof fn lemma_map_values_insert<K, A, B>(m: Map<K, A>, k: K, v: A, f: spec_fn(A) -> B)
    ensures #[trigger] m.insert(k, v).map_values(f) == m.map_values(f).insert(k, f(v)),
{
    assert(m.insert(k, v).map_values(f) =~= m.map_values(f).insert(k, f(v)));
}
}
broadcast use {lemmas::lemma_map_values_insert, peek::axiom_peek_dropped, vstd::std_specs::hash::group_hash_axioms};
// ---------------------------------------------------------------- what a chain holds
/// What a signature says of a path that is there.
pub ghost struct Info {
    pub mtime: Timespec, pub uid: Option<u64>, pub gid: Option<u64>, pub mode: Option<u32>, pub kind: u8,
    pub size: Option<(usize, usize)>, pub link: Option<Seq<u8>>,
}
/// What the `index`-th signature says of a path: None if it is deleted.
pub ghost struct SnapV { pub index: nat, pub info: Option<Info> }
pub ghost struct PathV { pub path: Seq<u8>, pub snaps: Seq<SnapV> }
pub ghost struct Names { pub users: Map<u64, Seq<char>>, pub groups: Map<u64, Seq<char>> }
impl View for PathInfo {
    type V = Info;
    closed spec fn view(&self) -> Info {
        Info { mtime: self.mtime, uid: self.uid, gid: self.gid, mode: self.mode, kind: self.entry_type, size: self.size_hint,
            link: match self.link { Some(l) => Some(l@), None => None } }
    }
}
impl View for PathSnapshot {
    type V = SnapV;
    closed spec fn view(&self) -> SnapV {
        SnapV { index: self.index as nat, info: match self.info { Some(i) => Some(i@), None => None } }
    }
}
pub closed spec fn snaps_of(s: Seq<PathSnapshot>) -> Seq<SnapV> { s.map_values(|x: PathSnapshot| x@) }
impl View for PathSnapshots {
    type V = PathV;
    closed spec fn view(&self) -> PathV { PathV { path: self.path@, snaps: snaps_of(self.snapshots@) } }
}
impl View for UserGroupMap {
    type V = Names;
    closed spec fn view(&self) -> Names {
        Names { users: self.uid_map@.map_values(|s: String| s@), groups: self.gid_map@.map_values(|s: String| s@) }
    }
}
pub open spec fn get<K, V>(m: Map<K, V>, k: K) -> Option<V> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub open spec fn text<'a>(s: Option<&'a str>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
//@ fn UserGroupMap::new ret=r props=C09
//@ spec
    ensures r@ == (Names { users: Map::empty(), groups: Map::empty() }),
//@ tail
    proof {
        assert(Map::<u64, String>::empty().map_values(|s: String| s@) =~= Map::<u64, Seq<char>>::empty());
    }
//@ fn UserGroupMap::add_user ret=r props=C09
//@ spec
    ensures final(self)@ == (Names { users: old(self)@.users.insert(uid, name@), groups: old(self)@.groups }),
//@ fn UserGroupMap::add_group ret=r props=C09
//@ spec
    ensures final(self)@ == (Names { users: old(self)@.users, groups: old(self)@.groups.insert(gid, name@) }),
//@ fn UserGroupMap::get_user_name ret=r props=C09
//@ spec
    ensures text(r) == get(self@.users, uid),
//@ fn UserGroupMap::get_group_name ret=r props=C09
//@ spec
    ensures text(r) == get(self@.groups, gid),
//@ verus
impl Chain {
    pub closed spec fn count(&self) -> nat { self.num_snapshots as nat }
    pub closed spec fn paths(&self) -> Seq<PathV> { self.files@.map_values(|f: PathSnapshots| f@) }
    pub closed spec fn names(&self) -> Names { self.ug_map@ }
}
//@ fn Chain::new ret=r props=C07,C14
//@ spec
    ensures r.count() == 0, r.paths() == Seq::<PathV>::empty(), r.names() == (Names { users: Map::empty(), groups: Map::empty() }),
//@ verus
// ---------------------------------------------------------------- C14: stepping through the snapshots
/// from, from + 1, ..., to - 1
pub open spec fn steps(from: nat, to: nat) -> Seq<nat> { Seq::new((to - from) as nat, |i: int| (from + i) as nat) }
impl<'a> Snapshots<'a> {
    pub closed spec fn wf(&self) -> bool { self.snapshot_id <= self.chain.num_snapshots }
    pub closed spec fn of(&self) -> &'a Chain { self.chain }
    /// the snapshots that are still to come
    pub closed spec fn view(&self) -> Seq<nat> { steps(self.snapshot_id as nat, self.chain.num_snapshots as nat) }
}
impl<'a> Snapshot<'a> {
    pub closed spec fn of(&self) -> &'a Chain { self.chain }
    pub closed spec fn number(&self) -> nat { self.index as nat }
}
/// the answer for the number `k` of what is still to come
pub open spec fn answer<'a>(r: Option<Snapshot<'a>>, s: Snapshots<'a>, k: nat) -> bool {
    match r {
        Some(x) => k < s@.len() && x.number() == s@[k as int] && x.of() == s.of(),
        None => k >= s@.len(),
    }
}
/// what is left after taking `k`
pub open spec fn left(s: Seq<nat>, k: nat) -> Seq<nat> { if k < s.len() { s.skip(k as int) } else { Seq::empty() } }
//@ fn Snapshots::next inherent ret=r props=C14
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).of() == old(self).of(), answer(r, *old(self), 0), final(self)@ == left(old(self)@, 1),
//@ fn Snapshots::size_hint inherent ret=r props=C14
//@ spec
    requires self.wf(),
    ensures r.0 == self@.len(), r.1 == Some(r.0),
//@ verus
/// C14: taking `a` and then `b` is taking `a + b`; what then comes is counted from there.
pub proof fn theorem_stepping(n: nat, a: nat, b: nat)
    ensures
        left(left(steps(0, n), a), b) == left(steps(0, n), a + b),
        left(steps(0, n), a).len() == (if a < n { n - a } else { 0 }),
        forall|j: int| 0 <= j < n - a ==> #[trigger] left(steps(0, n), a)[j] == a + j,
{
    assert(left(left(steps(0, n), a), b) =~= left(steps(0, n), a + b));
}
// ---------------------------------------------------------------- C07: the listing of a snapshot
/// what the first `n + 1` signatures say last
pub open spec fn last_said(s: Seq<SnapV>, n: nat) -> Option<SnapV>
    decreases s.len(),
{
    if s.len() == 0 { None } else if s.last().index <= n { Some(s.last()) } else { last_said(s.drop_last(), n) }
}
pub open spec fn info_at(p: PathV, n: nat) -> Option<Info> {
    match last_said(p.snaps, n) { Some(s) => s.info, None => None }
}
/// The entries of snapshot `n`.
pub open spec fn listing(ps: Seq<PathV>, n: nat) -> Seq<(Seq<u8>, Info)>
    decreases ps.len(),
{
    if ps.len() == 0 { Seq::empty() } else {
        match info_at(ps[0], n) {
            Some(i) => seq![(ps[0].path, i)] + listing(ps.drop_first(), n),
            None => listing(ps.drop_first(), n),
        }
    }
}
proof fn lemma_last_said(s: Seq<SnapV>, n: nat, k: int)
    requires forall|j: int| k <= j < s.len() ==> #[trigger] s[j].index > n, -1 <= k - 1 < s.len(), k > 0 ==> s[k - 1].index <= n,
    ensures last_said(s, n) == (if k > 0 { Some(s[k - 1]) } else { None }),
    decreases s.len(),
{
    if s.len() > k { lemma_last_said(s.drop_last(), n, k); }
}
impl<'a> SnapshotEntries<'a> {
    #[verifier::prophetic]
    pub closed spec fn wf(&self) -> bool { self.iter.obeys_prophetic_iter_laws() && self.iter.decrease() is Some }
    pub closed spec fn of(&self) -> &'a Chain { self.chain }
    pub closed spec fn measure(&self) -> nat { self.iter.decrease()->Some_0 }
    /// the entries that are still to come
    #[verifier::prophetic]
    pub closed spec fn view(&self) -> Seq<(Seq<u8>, Info)> { coming(self.iter.remaining(), self.index as nat) }
}
spec fn coming(r: Seq<&PathSnapshots>, n: nat) -> Seq<(Seq<u8>, Info)> { listing(r.map_values(|f: &PathSnapshots| f@), n) }
broadcast proof fn lemma_coming_step(r: Seq<&PathSnapshots>, q: Seq<&PathSnapshots>, n: nat)
    ensures
        #![trigger coming(r, n), coming(q, n)]
        r.len() > 0 && q == r.drop_first() ==> coming(r, n) == (match info_at(r[0]@, n) {
            Some(i) => seq![(r[0]@.path, i)] + coming(q, n),
            None => coming(q, n),
        }),
{
    if r.len() > 0 && q == r.drop_first() {
        assert(r.map_values(|f: &PathSnapshots| f@).drop_first() =~= q.map_values(|f: &PathSnapshots| f@));
    }
}
broadcast proof fn lemma_coming_end(r: Seq<&PathSnapshots>, n: nat)
    ensures #![trigger coming(r, n)] r.len() == 0 ==> coming(r, n) == Seq::<(Seq<u8>, Info)>::empty(),
{
}
/// last_said in the words of a search from the end
proof fn lemma_search(t: Seq<PathSnapshot>, n: nat)
    ensures
        forall|k: int| #[trigger] at(k) && 0 <= k < t.len() && t[t.len() - 1 - k]@.index <= n
            && (forall|j: int| #[trigger] at(j) && 0 <= j < k ==> t[t.len() - 1 - j]@.index > n)
            ==> last_said(snaps_of(t), n) == Some(t[t.len() - 1 - k]@),
        (forall|j: int| #[trigger] at(j) && 0 <= j < t.len() ==> t[t.len() - 1 - j]@.index > n) ==> last_said(snaps_of(t), n) is None,
{
    let l = t.len() as int;
    let s = snaps_of(t);
    assert forall|k: int| #[trigger] at(k) && 0 <= k < l && t[l - 1 - k]@.index <= n
        && (forall|j: int| #[trigger] at(j) && 0 <= j < k ==> t[l - 1 - j]@.index > n)
        implies last_said(s, n) == Some(t[l - 1 - k]@) by
    {
        assert forall|i: int| l - k <= i < l implies #[trigger] s[i].index > n by { assert(at(l - 1 - i)); }
        lemma_last_said(s, n, l - k);
    }
    if forall|j: int| #[trigger] at(j) && 0 <= j < l ==> t[l - 1 - j]@.index > n {
        assert forall|i: int| 0 <= i < l implies #[trigger] s[i].index > n by { assert(at(l - 1 - i)); }
        lemma_last_said(s, n, 0);
    }
}
impl<'a> Entry<'a> {
    pub closed spec fn view(&self) -> (Seq<u8>, Info) { (self.path@, self.info@) }
    pub closed spec fn names(&self) -> Names { self.ug_map@ }
}
//@ include sig_spec.vc
//@ fn SnapshotEntries::next inherent ret=r loops=1 props=C07,C20
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(), final(self).of() == old(self).of(),
        match r {
            Some(e) => final(self).measure() < old(self).measure() && old(self)@.len() > 0 && e@ == old(self)@[0] && final(self)@ == old(self)@.drop_first() && e.names() == old(self).of().names(),
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
//@ loop 0 desugar _ inplace
//@ loop 0 spec
        invariant_except_break self.measure() <= old(self).measure(),
        invariant
            self.wf(), self.of() == old(self).of(), self@ == old(self)@, index == self.index,
        ensures self@.len() == 0, self.wf(), self.of() == old(self).of(), old(self)@.len() == 0,
        decreases self.iter.decrease()->Some_0,
//@ start
    broadcast use {lemma_coming_step, lemma_coming_end};
//@ loop 0 body-start
            broadcast use lemma_coming_step;
            proof { lemma_search(path_snapshots.snapshots@, index as nat);
                assert(self@ == coming(self.iter.remaining(), index as nat));
            }
//@ closure 0 params 1
|s: &&PathSnapshot|
//@ closure 0 spec
-> (r: bool) ensures r == (s.index <= index)
//@ verus
// ---------------------------------------------------------------- C09: attributes
pub open spec fn type_of(kind: u8) -> EntryType {
    if kind == 0 || kind == 48 { EntryType::File }
    else if kind == 53 { EntryType::Dir }
    else if kind == 49 { EntryType::HardLink }
    else if kind == 50 { EntryType::SymLink }
    else if kind == 54 { EntryType::Fifo }
    else { EntryType::Unknown(kind) }
}
pub open spec fn bytes_of(p: Option<&Path>) -> Option<Seq<u8>> { match p { Some(p) => Some(path_bytes(p)), None => None } }
pub open spec fn name_of(m: Map<u64, Seq<char>>, id: Option<u64>) -> Option<Seq<char>> { match id { Some(i) => get(m, i), None => None } }
//@ fn EntryType::new ret=r props=C09
//@ spec
    ensures r == type_of(byte),
//@ fn Entry::path ret=r props=C07,C09
//@ spec
    ensures bytes_of(r) == Some(self@.0),
//@ fn Entry::path_bytes ret=r props=C07,C09
//@ spec
    ensures r@ == self@.0,
//@ fn Entry::userid ret=r props=C09
//@ spec
    ensures r == self@.1.uid,
//@ fn Entry::groupid ret=r props=C09
//@ spec
    ensures r == self@.1.gid,
//@ fn Entry::mode ret=r props=C09,C20
//@ spec
    ensures r == self@.1.mode,
//@ fn Entry::username ret=r props=C09,C20
//@ spec
    ensures text(r) == name_of(self.names().users, self@.1.uid),
//@ closure 0 params 1
|uid: u64|
//@ closure 0 spec
-> (r: Option<&'a str>) ensures text(r) == get(self.ug_map@.users, uid)
//@ fn Entry::groupname ret=r props=C09,C20
//@ spec
    ensures text(r) == name_of(self.names().groups, self@.1.gid),
//@ closure 0 params 1
|gid: u64|
//@ closure 0 spec
-> (r: Option<&'a str>) ensures text(r) == get(self.ug_map@.groups, gid)
//@ fn Entry::mtime ret=r props=C09,C20
//@ spec
    ensures r == self@.1.mtime,
//@ fn Entry::size_hint ret=r props=C08,C20
//@ spec
    ensures r == self@.1.size,
//@ fn Entry::entry_type ret=r props=C09,C20
//@ spec
    ensures r == type_of(self@.1.kind),
//@ fn Entry::linked_path ret=r props=C09
//@ spec
    ensures bytes_of(r) == (if self@.1.kind == 50 { self@.1.link } else { None }),
//@ closure 0 params 1
|p: &'a RawPath|
//@ closure 0 spec
-> (r: Option<&'a Path>) ensures bytes_of(r) == Some(p@)
//@ include fmt_spec.vc
//@ verus
pub open spec fn type_char(t: EntryType) -> char {
    match t { EntryType::File => '-', EntryType::Dir => 'd', EntryType::HardLink => '-', EntryType::SymLink => 'l', EntryType::Fifo => 'p', EntryType::Unknown(_) => '?' }
}
impl Shown for EntryType { open spec fn shown(&self) -> Seq<char> { seq![type_char(*self)] } }
pub open spec fn bit(mode: u32, k: u32) -> bool { mode & (1u32 << k) != 0 }
/// the execute character of a group of permissions: `x` its bit, `s` the special bit
pub open spec fn exec_char(x: bool, s: bool, letter: char, capital: char) -> char {
    if s { if x { letter } else { capital } } else if x { 'x' } else { '-' }
}
/// The nine permission characters of `ls -l`.
pub open spec fn mode_text(m: u32) -> Seq<char> {
    seq![
        if bit(m, 8) { 'r' } else { '-' }, if bit(m, 7) { 'w' } else { '-' }, exec_char(bit(m, 6), bit(m, 11), 's', 'S'),
        if bit(m, 5) { 'r' } else { '-' }, if bit(m, 4) { 'w' } else { '-' }, exec_char(bit(m, 3), bit(m, 10), 's', 'S'),
        if bit(m, 2) { 'r' } else { '-' }, if bit(m, 1) { 'w' } else { '-' }, exec_char(bit(m, 0), bit(m, 9), 't', 'T'),
    ]
}
proof fn lemma_bits(m: u32)
    ensures
        bit(m, 8) == ((m >> 6) & 4 > 0), bit(m, 7) == ((m >> 6) & 2 > 0), bit(m, 6) == ((m >> 6) & 1 > 0), bit(m, 11) == ((m >> 9) & (1u32 << 2) > 0),
        bit(m, 5) == ((m >> 3) & 4 > 0), bit(m, 4) == ((m >> 3) & 2 > 0), bit(m, 3) == ((m >> 3) & 1 > 0), bit(m, 10) == ((m >> 9) & (1u32 << 1) > 0),
        bit(m, 2) == ((m >> 0) & 4 > 0), bit(m, 1) == ((m >> 0) & 2 > 0), bit(m, 0) == ((m >> 0) & 1 > 0), bit(m, 9) == ((m >> 9) & (1u32 << 0) > 0),
{
    assert((m & (1u32 << 8) != 0) == ((m >> 6) & 4 > 0)) by (bit_vector);
    assert((m & (1u32 << 7) != 0) == ((m >> 6) & 2 > 0)) by (bit_vector);
    assert((m & (1u32 << 6) != 0) == ((m >> 6) & 1 > 0)) by (bit_vector);
    assert((m & (1u32 << 11) != 0) == ((m >> 9) & (1u32 << 2) > 0)) by (bit_vector);
    assert((m & (1u32 << 5) != 0) == ((m >> 3) & 4 > 0)) by (bit_vector);
    assert((m & (1u32 << 4) != 0) == ((m >> 3) & 2 > 0)) by (bit_vector);
    assert((m & (1u32 << 3) != 0) == ((m >> 3) & 1 > 0)) by (bit_vector);
    assert((m & (1u32 << 10) != 0) == ((m >> 9) & (1u32 << 1) > 0)) by (bit_vector);
    assert((m & (1u32 << 2) != 0) == ((m >> 0) & 4 > 0)) by (bit_vector);
    assert((m & (1u32 << 1) != 0) == ((m >> 0) & 2 > 0)) by (bit_vector);
    assert((m & (1u32 << 0) != 0) == ((m >> 0) & 1 > 0)) by (bit_vector);
    assert((m & (1u32 << 9) != 0) == ((m >> 9) & (1u32 << 0) > 0)) by (bit_vector);
}
impl Shown for ModeDisplay {
    closed spec fn shown(&self) -> Seq<char> { match self.0 { Some(m) => mode_text(m), None => seq!['?'] } }
}
//@ fn EntryType::fmt trait=Display inherent ret=r props=C09,C20
//@ spec
    ensures writes(r, old(f), final(f), self.shown()),
//@ tail
    proof { assert(Seq::<char>::empty() + self.shown() =~= self.shown()); }
//@ fn ModeDisplay::fmt trait=Display inherent ret=r loops=1 props=C09,C20
//@ spec
    ensures writes(r, old(f), final(f), self.shown()),
//@ start
        proof {
            reveal_strlit("r"); reveal_strlit("w"); reveal_strlit("x"); reveal_strlit("-"); reveal_strlit("?");
            reveal_strlit("s"); reveal_strlit("S"); reveal_strlit("t"); reveal_strlit("T");
            assert(Seq::<char>::empty() + "?"@ =~= seq!['?']);
        }
//@ loop 0 body-start
        proof {
            reveal_strlit("r"); reveal_strlit("w"); reveal_strlit("x"); reveal_strlit("-"); reveal_strlit("?");
            reveal_strlit("s"); reveal_strlit("S"); reveal_strlit("t"); reveal_strlit("T");
            lemma_bits(mode);
            let t = mode_text(mode);
            let k = it.index@;
            assert(i == 2 || i == 1 || i == 0);
            assert(t.take(3 * (k + 1)) =~= t.take(3 * k) + seq![t[3 * k], t[3 * k + 1], t[3 * k + 2]]);
        }
//@ loop 0 after
            proof { assert(mode_text(mode).take(9) =~= mode_text(mode)); }
//@ loop 0 iter it
//@ loop 0 spec
        invariant
            it.seq() =~= seq![2i32, 1, 0], self.0 == Some(mode), special == mode >> 9,
            written(f) == written(old(f)) + mode_text(mode).take(3 * it.index@),
            accepts(old(f)) ==> accepts(f),
//@ verus
pub assume_specification [Path::to_str] (p: &Path) -> (r: Option<&str>)
    ensures match r { Some(s) => valid_utf8(path_bytes(p)) && s@ == decode_utf8(path_bytes(p)), None => !valid_utf8(path_bytes(p)) };
/// a path as it is shown: the root as a dot
pub open spec fn path_text(p: Seq<u8>) -> Seq<char> {
    if p.len() == 0 { seq!['.'] } else if valid_utf8(p) { decode_utf8(p) } else { seq!['?'] }
}
/// a text is its characters (a match on a literal compares the texts as values)
pub axiom fn axiom_same_text(a: &str, b: &str)
    ensures a@ == b@ ==> a == b;
pub proof fn lemma_no_text(p: Seq<u8>)
    requires valid_utf8(p), ensures decode_utf8(p).len() == 0 <==> p.len() == 0,
{
    reveal_with_fuel(decode_utf8, 2);
    reveal_with_fuel(valid_utf8, 2);
}
impl Shown for RawPath { open spec fn shown(&self) -> Seq<char> { path_text(self@) } }
//@ file src/rawpath.rs
//@ fn RawPath::fmt trait=Display inherent ret=r props=C09,C20
//@ spec
    ensures writes(r, old(f), final(f), self.shown()),
//@ start
    proof {
        reveal_strlit("."); reveal_strlit("?");
        assert(Seq::<char>::empty() + "."@ =~= seq!['.']);
        assert(Seq::<char>::empty() + "?"@ =~= seq!['?']);
        let t = path_text(self@);
        assert(Seq::<char>::empty() + t =~= t);
        // only the empty name is an empty text
        reveal_strlit("");
        if valid_utf8(self@) { lemma_no_text(self@); }
        assert forall|s: &str| s@.len() == 0 implies s == "" by { assert(#[trigger] s@ =~= ""@); axiom_same_text(s, ""); }
    }
//@ file src/signatures.rs
//@ include local_time.vc
//@ verus
pub open spec fn or_mark(t: Option<Seq<char>>) -> Seq<char> { match t { Some(t) => t, None => seq!['?'] } }
pub open spec fn size_text(s: Option<(usize, usize)>) -> Option<Seq<char>> { match s { Some(h) => Some(decimal(h.1 as nat)), None => None } }
pub open spec fn tab() -> Seq<char> { seq!['\t'] }
/// the line that `ls` prints of an entry
pub open spec fn entry_text(path: Seq<u8>, i: Info, n: Names) -> Seq<char> {
    seq![type_char(type_of(i.kind))] + (match i.mode { Some(m) => mode_text(m), None => seq!['?'] }) + tab()
        + or_mark(name_of(n.users, i.uid)) + tab() + or_mark(name_of(n.groups, i.gid)) + tab()
        + or_mark(size_text(i.size)) + tab() + local_time(i.mtime) + tab() + path_text(path)
}
//@ fn Entry::fmt trait=Display inherent ret=r props=C09,C20
//@ spec
    ensures writes(r, old(f), final(f), entry_text(self@.0, self@.1, self.names())),
//@ closure 0 params 1
|hint: (usize, usize)|
//@ closure 0 spec
-> (r: String) ensures r@ == decimal(hint.1 as nat)
//@ start
    proof {
        reveal_strlit("\t"); reveal_strlit("?");
        assert("\t"@ =~= tab());
        assert("?"@ =~= seq!['?']);
        let t = seq![type_char(type_of(self@.1.kind))];
        assert(Seq::<char>::empty() + t =~= t);
        assert forall|n: nat| #[trigger] decimal(n) == Seq::<char>::empty() + decimal(n) by { assert(Seq::<char>::empty() + decimal(n) =~= decimal(n)); }
    }
//@ verus
// ---------------------------------------------------------------- C20: a printed listing
/// the lines of the entries of a listing, one for each, in its order
pub open spec fn lines(l: Seq<(Seq<u8>, Info)>, n: Names) -> Seq<char>
    decreases l.len(),
{
    if l.len() == 0 { Seq::empty() } else { entry_text(l[0].0, l[0].1, n) + seq!['\n'] + lines(l.drop_first(), n) }
}
impl<'a> Shown for Entry<'a> { closed spec fn shown(&self) -> Seq<char> { entry_text(self@.0, self@.1, self.names()) } }
/// What the crate tabwriter makes of a text: its tabs become blanks, so that the columns are aligned.
pub uninterp spec fn aligned(t: Seq<char>) -> Seq<char>;
/// (of nothing, nothing)
pub open spec fn aligned_(t: Seq<char>) -> Seq<char> { if t.len() == 0 { t } else { aligned(t) } }
/// what is printed of a listing
pub open spec fn printed(l: Seq<(Seq<u8>, Info)>, n: Names) -> Seq<char> { aligned_(lines(l, n)) }
/// C20: a listing is printed line by line.
pub proof fn theorem_printed(l: Seq<(Seq<u8>, Info)>, n: Names, i: int)
    requires 0 <= i < l.len(),
    ensures lines(l, n) == lines(l.take(i), n) + entry_text(l[i].0, l[i].1, n) + seq!['\n'] + lines(l.skip(i + 1), n),
    decreases i,
{
    if i > 0 {
        theorem_printed(l.drop_first(), n, i - 1);
        assert(l.drop_first().take(i - 1) =~= l.take(i).drop_first());
        assert(l.drop_first().skip(i) =~= l.skip(i + 1));
        assert(l.take(i)[0] == l[0]);
    } else {
        assert(l.skip(1) =~= l.drop_first());
    }
    assert(lines(l, n) =~= lines(l.take(i), n) + entry_text(l[i].0, l[i].1, n) + seq!['\n'] + lines(l.skip(i + 1), n));
}
/// trusted: crate tabwriter, on top of a vector. Flushing ends the columns.
#[verifier::external_body]
pub struct TabWriter(tabwriter::TabWriter<Vec<u8>>);
impl TabWriter {
    /// what was written since it was last flushed
    pub uninterp spec fn text(&self) -> Seq<char>;
    /// what went to the vector
    pub uninterp spec fn done(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(w: Vec<u8>) -> (r: TabWriter)
        requires w@.len() == 0,
        ensures r.text() == Seq::<char>::empty(), r.done() == Seq::<char>::empty(),
    { TabWriter(tabwriter::TabWriter::new(w)) }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: io::Result<()>)
        ensures r is Ok, final(self).text() == Seq::<char>::empty(), final(self).done() == old(self).done() + aligned_(old(self).text()),
    { io::Write::flush(&mut self.0) }
    /// (the error of the real method is of another type)
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: std::result::Result<Vec<u8>, fmt::Error>)
        ensures r is Ok, valid_utf8(r->Ok_0@), decode_utf8(r->Ok_0@) == self.done() + aligned_(self.text()),
    { self.0.into_inner().map_err(|_| fmt::Error) }
}
impl Sink for TabWriter {
    type E = io::Error;
    open spec fn so_far(&self) -> Seq<char> { self.text() }
    open spec fn takes_all(&self) -> bool { true }
    open spec fn behind(&self) -> Seq<char> { self.done() }
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(FromUtf8Error);
pub assume_specification [String::from_utf8] (v: Vec<u8>) -> (r: std::result::Result<String, FromUtf8Error>)
    ensures valid_utf8(v@) ==> r is Ok && r->Ok_0@ == decode_utf8(v@);
/// trusted: the derived `Clone`
impl<'a> SnapshotEntries<'a> {
    #[verifier::external_body]
    pub fn clone_(&self) -> (r: SnapshotEntries<'a>)
        ensures r.wf() == self.wf(), r@ == self@, r.of() == self.of(),
    { SnapshotEntries { index: self.index, iter: self.iter.clone(), chain: self.chain } }
}
//@ item struct SnapshotEntriesDisplay vis=pub
//@ file src/macros.rs
//@ item macro try_or
//@ item macro try_or_fmt_err
//@ file src/signatures.rs
//@ verus
impl<'a> SnapshotEntriesDisplay<'a> {
    pub closed spec fn shows(&self) -> SnapshotEntries<'a> { self.0 }
    #[verifier::prophetic]
    pub open spec fn wf(&self) -> bool { self.shows().wf() }
}
impl<'a> Shown for SnapshotEntriesDisplay<'a> {
    #[verifier::prophetic]
    open spec fn shown(&self) -> Seq<char> { printed(self.shows()@, self.shows().of().names()) }
}
//@ include sig_shown.vc
//@ fn Snapshot::fmt trait=Display inherent ret=r props=C20
//@ spec
    ensures writes(r, old(f), final(f), printed(listing(self.of().paths(), self.number()), self.of().names())),
//@ include replay.vc
//@ verus
fn main() {}
} // verus!
