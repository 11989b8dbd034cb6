//@ subst .borrow() => .borrow_(Tracked(&clk))
//@ subst .borrow_mut_set( => .set_(Tracked(&mut clk), 
//@ subst .open_file( => .open_file_(Tracked(&clk), 
//@ subst Chain::from_sigchain( => load_chain(Tracked(&clk), 
//@ subst .nth( => .nth_(
//@ subst .find( => .find_(
//@ subst .map( => .map_(
//@ subst Path::new( => path_new(
//@ verus
#![feature(sized_hierarchy, const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::{PartialOrdSpec, OrdSpec};
use vstd::utf8::encode_utf8;
use std::cell::{Ref, RefCell};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::{self, Formatter};
use std::io::{self, BufRead, Read};
use std::marker::PointeeSized;
use std::ops::Deref;
use std::path::Path;
use std::slice;
use time::Timespec;
verus! {
global size_of usize == 8;
//@ include time_spec.vc
//@ include std_spec.vc
//@ verus
// ---------------------------------------------------------------- trusted: standard library
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(io::Error);
#[verifier::external_trait_specification]
pub trait ExRead { type ExternalTraitSpecificationFor: Read; }
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(BufReadSpec via BufReadSpecImpl)]
pub trait ExBufRead: Read {
    type ExternalTraitSpecificationFor: BufRead;
    /// the bytes that are still to be read
    spec fn stream(&self) -> Seq<u8>;
}
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(AsRefSpec via AsRefSpecImpl)]
pub trait ExAsRef<T: PointeeSized>: PointeeSized {
    type ExternalTraitSpecificationFor: AsRef<T>;
    spec fn as_ref_spec(&self) -> &T;
    fn as_ref(&self) -> (r: &T) ensures r == self.as_ref_spec();
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPath(Path);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);
pub uninterp spec fn path_bytes(p: &Path) -> Seq<u8>;
#[verifier::external_body]
fn path_new(s: &str) -> (r: &Path) ensures path_bytes(r) == encode_utf8(s@) { Path::new(s) }
/// what a stream yields until its end or until it fails
pub uninterp spec fn content<R: Read>(r: R) -> Seq<u8>;
pub open spec fn stream_of<R: BufRead>(r: R) -> Seq<u8> { r.stream() }
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct ExBufReader<R: ?Sized>(io::BufReader<R>);
pub assume_specification<R: Read> [io::BufReader::<R>::new] (r: R) -> (b: io::BufReader<R>)
    ensures stream_of(b) == content(r);
/// Marks an index that a proof wants quantified facts about an iterator to be instantiated with.
pub open spec fn at(i: int) -> bool { true }
pub trait Search_: Iterator + Sized {
    fn find_<P: FnMut(&Self::Item) -> bool>(&mut self, p: P) -> (r: Option<Self::Item>)
        requires forall|j: int| #![trigger old(self).remaining()[j]] 0 <= j < old(self).remaining().len() ==> call_requires(p, (&old(self).remaining()[j],)),
        ensures
            old(self).obeys_prophetic_iter_laws() ==> match r {
                Some(x) => exists|k: int| {
                    &&& #[trigger] at(k) && 0 <= k < old(self).remaining().len() && x == old(self).remaining()[k]
                    &&& call_ensures(p, (&x,), true)
                    &&& forall|j: int| #![trigger at(j)] 0 <= j < k ==> call_ensures(p, (&old(self).remaining()[j],), false)
                },
                None => forall|j: int| #![trigger at(j)] 0 <= j < old(self).remaining().len() ==> call_ensures(p, (&old(self).remaining()[j],), false),
            };
    /// The contract of `Iterator::map` spelled out (Verus does not see that a closure of a generic function is a function).
    fn map_<T, F: FnMut(Self::Item) -> T>(self, f: F) -> (r: std::iter::Map<Self, F>)
        requires self.obeys_prophetic_iter_laws(), forall|k: int| 0 <= k < self.remaining().len() ==> call_requires(f, (#[trigger] self.remaining()[k],)),
        ensures
            r.obeys_prophetic_iter_laws(),
            r.will_return_none() ==> r.remaining().len() == self.remaining().len(),
            r.remaining().len() <= self.remaining().len(),
            forall|k: int| 0 <= k < r.remaining().len() ==> call_ensures(f, (self.remaining()[k],), #[trigger] r.remaining()[k]);
    fn nth_(&mut self, n: usize) -> (r: Option<Self::Item>)
        ensures
            old(self).obeys_prophetic_iter_laws() ==> match r {
                Some(x) => n < old(self).remaining().len() && x == old(self).remaining()[n as int],
                None => n >= old(self).remaining().len(),
            };
}
impl<I: Iterator> Search_ for I {
    fn find_<P: FnMut(&Self::Item) -> bool>(&mut self, p: P) -> (r: Option<Self::Item>) {
        let r = self.find(p);
        proof {
            if old(self).obeys_prophetic_iter_laws() && r is Some {
                assert(at(old(self).remaining().len() - self.remaining().len() - 1));
            }
        }
        r
    }
    fn map_<T, F: FnMut(Self::Item) -> T>(self, f: F) -> (r: std::iter::Map<Self, F>) {
        broadcast use vstd::std_specs::iter::map_postcondition;
        self.map(f)
    }
    #[verifier::external_body]
    fn nth_(&mut self, n: usize) -> (r: Option<Self::Item>) { self.nth(n) }
}
pub trait OptionMap_<T> {
    spec fn opt(self) -> Option<T>;
    fn map_<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.opt() is Some ==> call_requires(f, (self.opt()->Some_0,)),
        ensures match self.opt() { Some(x) => r is Some && call_ensures(f, (x,), r->Some_0), None => r is None };
}
impl<T> OptionMap_<T> for Option<T> {
    open spec fn opt(self) -> Option<T> { self }
    fn map_<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { match self { Some(x) => Some(f(x)), None => None } }
}

// ---------------------------------------------------------------- the other modules: contracts that are proved in their overlays
pub uninterp spec fn path_text(p: &Path) -> Option<Seq<char>>;
//@ include backend.vc
//@ include fmt_spec.vc
//@ verus
pub mod collections {
use super::*;
//@ external on
//@ include coll_spec.vc
//@ verus
pub uninterp spec fn collection_of(names: Seq<Option<Seq<char>>>, c: CollV) -> bool;
pub open spec fn names_of<E: AsRef<Path>>(s: Seq<E>) -> Seq<Option<Seq<char>>> { s.map_values(|e: E| path_text(e.as_ref_spec())) }
//@ include coll_new.vc
//@ external off
//@ verus
} // mod collections
pub mod signatures {
use super::*;
use super::collections::*;
#[verifier::external_body]
pub struct Chain { x: () }
#[verifier::external_body]
pub struct Snapshots<'a> { x: &'a () }
#[verifier::external_body]
pub struct Snapshot<'a> { x: &'a () }
#[verifier::external_body]
pub struct SnapshotEntries<'a> { x: &'a () }
#[verifier::external_body]
pub struct PathV { x: () }
#[verifier::external_body]
pub struct Names { x: () }
#[verifier::external_body]
pub struct SnapshotEntriesDisplay<'a> { x: &'a () }
#[verifier::external_body]
pub struct Info { x: () }
impl Chain {
    pub uninterp spec fn count(&self) -> nat;
    pub uninterp spec fn paths(&self) -> Seq<PathV>;
    pub uninterp spec fn names(&self) -> Names;
}
pub open spec fn steps(from: nat, to: nat) -> Seq<nat> { Seq::new((to - from) as nat, |i: int| (from + i) as nat) }
impl<'a> Snapshots<'a> {
    pub uninterp spec fn wf(&self) -> bool;
    pub uninterp spec fn of(&self) -> &'a Chain;
    pub uninterp spec fn view(&self) -> Seq<nat>;
}
impl<'a> Snapshot<'a> {
    pub uninterp spec fn of(&self) -> &'a Chain;
    pub uninterp spec fn number(&self) -> nat;
}
impl<'a> SnapshotEntries<'a> {
    pub uninterp spec fn wf(&self) -> bool;
    pub uninterp spec fn of(&self) -> &'a Chain;
    pub uninterp spec fn view(&self) -> Seq<(Seq<u8>, Info)>;
}
pub open spec fn answer<'a>(r: Option<Snapshot<'a>>, s: Snapshots<'a>, k: nat) -> bool {
    match r {
        Some(x) => k < s@.len() && x.number() == s@[k as int] && x.of() == s.of(),
        None => k >= s@.len(),
    }
}
pub open spec fn left(s: Seq<nat>, k: nat) -> Seq<nat> { if k < s.len() { s.skip(k as int) } else { Seq::empty() } }
pub uninterp spec fn listing(ps: Seq<PathV>, n: nat) -> Seq<(Seq<u8>, Info)>;
impl<'a> SnapshotEntriesDisplay<'a> {
    pub uninterp spec fn shows(&self) -> SnapshotEntries<'a>;
    pub open spec fn wf(&self) -> bool { self.shows().wf() }
}
pub uninterp spec fn printed(l: Seq<(Seq<u8>, Info)>, n: Names) -> Seq<char>;
pub uninterp spec fn loaded<B: Backend>(b: &B, c: SigChainV, r: Chain) -> bool;
pub uninterp spec fn unloadable<B: Backend>(b: &B, c: SigChainV) -> bool;
/// Proved of the definition of `loaded` in replay.vc (lemma_loaded_count).
#[verifier::external_body]
pub proof fn lemma_loaded_count<B: Backend>(b: &B, c: SigChainV, r: Chain)
    ensures loaded(b, c, r) ==> r.count() == c.incs.len() + 1,
{}
pub open spec fn sig_at(c: SigChainV, i: int) -> SigV { if i == 0 { c.full } else { c.incs[i - 1] } }
//@ external on
//@ include sig_spec.vc
//@ include sig_load.vc
//@ include sig_shown.vc
//@ external off
//@ verus
impl<'a> Snapshots<'a> {
    pub fn nth_(&mut self, n: usize) -> (r: Option<Snapshot<'a>>)
        requires old(self).wf(),
        ensures answer(r, *old(self), n as nat),
    { self.nth(n) }
}
} // mod signatures
pub mod manifest {
use super::*;
#[verifier::external_body]
pub struct Manifest { x: () }
#[verifier::external_body]
pub struct ParseError { x: () }
impl From<io::Error> for ParseError {
    #[verifier::external_body]
    fn from(e: io::Error) -> Self { unimplemented!() }
}
pub uninterp spec fn parsed(r: Result<Manifest, ParseError>, s: Seq<u8>) -> bool;
//@ external on
//@ include man_parse.vc
//@ external off
//@ verus
} // mod manifest
use collections::*;
use manifest::Manifest;
use signatures::{Chain, listing, printed, loaded, unloadable, sig_at};

// ---------------------------------------------------------------- trusted: cells
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExRefCell<T: ?Sized>(RefCell<T>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct ExRef<'b, T: ?Sized>(Ref<'b, T>);
/// what a borrow gives access to
pub uninterp spec fn held<'b, T: ?Sized>(r: Ref<'b, T>) -> &'b T;
pub assume_specification<'b, 'a, T: ?Sized> [<Ref<'b, T> as Deref>::deref] (r: &'a Ref<'b, T>) -> (x: &'a T) ensures x == held(*r);
/// The contents of the slots at a moment.  A function that works with slots makes one at its start.
/// What is borrowed of a slot borrows this as well, so nothing can be set while a borrow made in the same function lasts.
#[verifier::external_body]
pub tracked struct Clock { x: () }
#[verifier::external_body]
proof fn this_moment() -> (tracked r: Clock) { unimplemented!() }
/// From here on the function sets nothing any more.
#[verifier::external_body]
proof fn last_moment(tracked c: Clock) -> (tracked r: &'static Clock) ensures *r == c { unimplemented!() }
pub uninterp spec fn now<T>(clk: Clock, c: RefCell<Option<T>>) -> Option<T>;
/// what the slot holds from the moment that it holds something
pub uninterp spec fn kept<T>(c: RefCell<Option<T>>) -> T;
/// what may be put in the slot (fixed when the backup is made)
pub uninterp spec fn meant<T>(c: RefCell<Option<T>>, v: T) -> bool;
pub uninterp spec fn created<T>(c: RefCell<T>) -> T;
pub assume_specification<T> [RefCell::<T>::new] (v: T) -> (c: RefCell<T>) ensures created(c) == v;
pub trait Slot<T> {
    spec fn cell(&self) -> RefCell<Option<T>>;
    fn borrow_<'c>(&'c self, Tracked(clk): Tracked<&'c Clock>) -> (r: Ref<'c, Option<T>>)
        ensures
            *held(r) == now(*clk, self.cell()),
            match *held(r) { Some(v) => v == kept(self.cell()) && meant(self.cell(), v), None => true };
    /// The slot must be empty: so it is filled once, and no result of an earlier request is held that this could conflict with.
    fn set_(&self, Tracked(clk): Tracked<&mut Clock>, v: Option<T>)
        requires now(*old(clk), self.cell()) is None, v is Some, meant(self.cell(), v->Some_0),
        ensures now(*final(clk), self.cell()) == v, kept(self.cell()) == v->Some_0;
}
impl<T> Slot<T> for RefCell<Option<T>> {
    open spec fn cell(&self) -> RefCell<Option<T>> { *self }
    #[verifier::external_body]
    fn borrow_<'c>(&'c self, Tracked(clk): Tracked<&'c Clock>) -> (r: Ref<'c, Option<T>>) { self.borrow() }
    #[verifier::external_body]
    fn set_(&self, Tracked(clk): Tracked<&mut Clock>, v: Option<T>) { *self.borrow_mut() = v; }
}

// ---------------------------------------------------------------- what belongs to what
/// set number `k` of chain number `c`: the full one, then the incremental ones
pub open spec fn set_at(cs: Seq<ChainV>, c: int, k: int) -> SetV { if k == 0 { cs[c].full } else { cs[c].incs[k - 1] } }
pub open spec fn is_place(cs: Seq<ChainV>, c: int, k: int) -> bool { 0 <= c < cs.len() && 0 <= k <= cs[c].incs.len() }
/// the number of this place, chain by chain
pub open spec fn number(cs: Seq<ChainV>, c: int, k: int) -> int { total(cs.take(c)) + k }
/// the set with this number
pub open spec fn nth_set(cs: Seq<ChainV>, m: int) -> SetV
    decreases cs.len(),
{
    if cs.len() == 0 { arbitrary() }
    else if m >= total(cs.drop_last()) { set_at(cs, cs.len() - 1, m - total(cs.drop_last())) }
    else { nth_set(cs.drop_last(), m) }
}
pub proof fn lemma_place(cs: Seq<ChainV>, c: int, k: int)
    requires is_place(cs, c, k),
    ensures nth_set(cs, number(cs, c, k)) == set_at(cs, c, k), 0 <= number(cs, c, k) < total(cs),
    decreases cs.len(),
{
    lemma_total_take(cs, c);
    let d = cs.drop_last();
    if c == cs.len() - 1 { assert(cs.take(c) =~= d); }
    else {
        lemma_place(d, c, k);
        assert(d.take(c) =~= cs.take(c));
        assert(d[c] == cs[c]);
    }
}
pub proof fn lemma_total_len(cs: Seq<ChainV>)
    ensures cs.len() <= total(cs),
    decreases cs.len(),
{ if cs.len() > 0 { lemma_total_len(cs.drop_last()); } }
/// The signature chain that begins when the backup chain begins; the first one if there are several.
pub open spec fn first_at(sigs: Seq<SigChainV>, t: Timespec) -> Option<SigChainV>
    decreases sigs.len(),
{
    if sigs.len() == 0 { None } else if sigs[0].full.time == t { Some(sigs[0]) } else { first_at(sigs.drop_first(), t) }
}
pub proof fn lemma_first_at(sigs: Seq<SigChainV>, t: Timespec, k: int)
    requires 0 <= k <= sigs.len(), forall|j: int| 0 <= j < k ==> (#[trigger] sigs[j]).full.time != t,
    ensures
        k == sigs.len() ==> first_at(sigs, t) is None,
        k < sigs.len() && sigs[k].full.time == t ==> first_at(sigs, t) == Some(sigs[k]),
    decreases sigs.len(),
{
    if k > 0 {
        assert(sigs[0].full.time != t);
        let d = sigs.drop_first();
        assert forall|j: int| 0 <= j < k - 1 implies (#[trigger] d[j]).full.time != t by { assert(d[j] == sigs[j + 1]); }
        lemma_first_at(d, t, k - 1);
    }
}
pub open spec fn sig_chain_for(c: CollV, i: int) -> Option<SigChainV> { first_at(c.sigs, c.backups[i].start) }
/// the signature at this place of the chain is the one of the set
pub open spec fn own_signature(c: CollV, i: int, k: int) -> bool {
    match sig_chain_for(c, i) {
        Some(s) => k <= s.incs.len() && sig_at(s, k).time == set_end(set_at(c.backups, i, k).tp),
        None => false,
    }
}
/// this is what a manifest file of the backend parses to
pub open spec fn manifest_read<B: Backend>(b: &B, name: Seq<char>, m: Manifest) -> bool {
    exists|x: Seq<u8>| #[trigger] b.gives(encode_utf8(name), x) && manifest::parsed(Ok(m), x)
}
pub open spec fn manifest_unread<B: Backend>(b: &B, name: Seq<char>) -> bool {
    b.refuses(encode_utf8(name)) || exists|x: Seq<u8>, e: manifest::ParseError| #[trigger] b.gives(encode_utf8(name), x) && #[trigger] manifest::parsed(Err(e), x)
}

// ---------------------------------------------------------------- reading only what is missing
pub uninterp spec fn for_chain(c: RefCell<Option<Chain>>) -> Option<SigChainV>;
pub uninterp spec fn for_manifest(c: RefCell<Option<Manifest>>) -> Seq<char>;
/// There is a slot for this that is empty.
pub open spec fn chain_missing(clk: Clock, s: SigChainV) -> bool {
    exists|c: RefCell<Option<Chain>>| #[trigger] now(clk, c) is None && for_chain(c) == Some(s)
}
pub open spec fn manifest_missing(clk: Clock, name: Seq<u8>) -> bool {
    exists|c: RefCell<Option<Manifest>>| #[trigger] now(clk, c) is None && encode_utf8(for_manifest(c)) == name
}
/// A signature file takes more than a byte of memory.
#[verifier::external_body]
proof fn axiom_signatures_fit(c: &SignatureChain) ensures c@.incs.len() < usize::MAX {}
/// A backup set takes more than a byte of memory.
#[verifier::external_body]
proof fn axiom_sets_fit(c: &Collections) ensures total(c@.backups) <= usize::MAX {}
fn load_chain<B: Backend>(Tracked(clk): Tracked<&Clock>, coll: &SignatureChain, backend: &B) -> (r: io::Result<Chain>)
    requires chain_missing(*clk, coll@),
    ensures match r { Ok(c) => loaded(backend, coll@, c), Err(_) => unloadable(backend, coll@) },
{
    proof { axiom_signatures_fit(coll); }
    Chain::from_sigchain(coll, backend)
}
trait Opens: Backend {
    fn open_file_(&self, Tracked(clk): Tracked<&Clock>, name: &Path) -> (r: io::Result<Self::FileStream>)
        requires manifest_missing(*clk, path_bytes(name)),
        ensures match r { Ok(f) => self.gives(path_bytes(name), content(f)), Err(_) => self.refuses(path_bytes(name)) };
}
impl<B: Backend> Opens for B {
    fn open_file_(&self, Tracked(clk): Tracked<&Clock>, name: &Path) -> (r: io::Result<Self::FileStream>) { self.open_file(name) }
}

//@ file src/lib.rs
//@ item struct Backup vis=pub
//@ item struct Snapshots vis=pub
//@ item struct SnapshotsIter vis=pub
//@ item struct Snapshot vis=pub
//@ item struct SnapshotEntries vis=pub
//@ item struct ManifestRef vis=pub
//@ item struct CollectionsIter vis=pub
//@ verus
/// The trait of src/lib.rs.
pub trait ResourceCache {
    spec fn ready(&self) -> bool;
    spec fn coll(&self) -> CollV;
    /// the chain of signatures that belongs to this backup chain was read as this
    spec fn chain_ok(&self, chain_id: int, c: Chain) -> bool;
    spec fn chain_fails(&self, chain_id: int) -> bool;
    spec fn manifest_ok(&self, id: int, m: Manifest) -> bool;
    spec fn manifest_fails(&self, id: int) -> bool;
    /// what every successful request gives
    spec fn kept_chain(&self, chain_id: int) -> Chain;
    spec fn kept_manifest(&self, id: int) -> Manifest;
    fn _collections(&self) -> (r: &Collections)
        ensures r@ == self.coll();
    fn _signature_chain(&self, chain_id: usize) -> (r: io::Result<Ref<'_, Option<Chain>>>)
        requires self.ready(), chain_id < self.coll().backups.len(),
        ensures
            match r {
                Ok(x) => {
                    &&& *held(x) == Some(self.kept_chain(chain_id as int))
                    &&& self.chain_ok(chain_id as int, self.kept_chain(chain_id as int))
                    &&& sig_chain_for(self.coll(), chain_id as int) is Some
                    &&& self.kept_chain(chain_id as int).count() == sig_chain_for(self.coll(), chain_id as int)->Some_0.incs.len() + 1
                },
                Err(_) => sig_chain_for(self.coll(), chain_id as int) is None || self.chain_fails(chain_id as int),
            };
    fn _manifest(&self, id: usize, path: &str) -> (r: Result<Ref<'_, Option<Manifest>>, manifest::ParseError>)
        requires self.ready(), id < total(self.coll().backups), path@ == nth_set(self.coll().backups, id as int).manifest,
        ensures
            match r {
                Ok(x) => *held(x) == Some(self.kept_manifest(id as int)) && self.manifest_ok(id as int, self.kept_manifest(id as int)),
                Err(_) => self.manifest_fails(id as int),
            };
}
/// The slot is for the signatures of backup chain `i`.
spec fn chain_slot<B: Backend>(b: &B, coll: CollV, i: int, c: RefCell<Option<Chain>>) -> bool {
    &&& for_chain(c) == sig_chain_for(coll, i)
    &&& forall|v: Chain| #[trigger] meant(c, v) == (match sig_chain_for(coll, i) { Some(s) => loaded(b, s, v), None => false })
}
spec fn manifest_slot<B: Backend>(b: &B, coll: CollV, i: int, c: RefCell<Option<Manifest>>) -> bool {
    &&& for_manifest(c) == nth_set(coll.backups, i).manifest
    &&& forall|v: Manifest| #[trigger] meant(c, v) == manifest_read(b, nth_set(coll.backups, i).manifest, v)
}
spec fn slots<B: Backend>(b: &B, coll: CollV, sigs: Seq<RefCell<Option<Chain>>>, mans: Seq<RefCell<Option<Manifest>>>) -> bool {
    &&& sigs.len() == coll.backups.len()
    &&& mans.len() == total(coll.backups) <= usize::MAX
    &&& forall|i: int| 0 <= i < sigs.len() ==> chain_slot(b, coll, i, #[trigger] sigs[i])
    &&& forall|i: int| 0 <= i < mans.len() ==> manifest_slot(b, coll, i, #[trigger] mans[i])
}
/// What new and empty cells are for is decided when they are put in a backup.
#[verifier::external_body]
proof fn slots_assigned<B: Backend>(b: &B, coll: CollV, sigs: Vec<RefCell<Option<Chain>>>, mans: Vec<RefCell<Option<Manifest>>>)
    requires
        sigs.len() == coll.backups.len(), mans.len() == total(coll.backups) <= usize::MAX,
        forall|i: int| 0 <= i < sigs.len() ==> created(#[trigger] sigs@[i]) is None,
        forall|i: int| 0 <= i < mans.len() ==> created(#[trigger] mans@[i]) is None,
    ensures slots(b, coll, sigs@, mans@),
{}
impl<B: Backend> Backup<B> {
    pub closed spec fn wf(&self) -> bool { slots(&self.backend, self.collections@, self.signatures@, self.manifests@) }
    pub closed spec fn made_of(&self, b: B) -> bool { self.backend == b }
    pub closed spec fn listed(&self) -> CollV { self.collections@ }
}
/// `c` is the collection of a listing
#[verifier::prophetic]
pub open spec fn collected<I>(l: I, c: CollV) -> bool where I: IntoIterator, I::Item: AsRef<Path> {
    exists|it: I::IntoIter| {
        &&& #[trigger] call_ensures(<I as IntoIterator>::into_iter, (l,), it)
        &&& it.obeys_prophetic_iter_laws() ==> collection_of(names_of(it.remaining()), c)
    }
}
//@ fn Backup::new ret=r props=C05,C06,C17
//@ spec
    ensures
        match r {
            Ok(b) => b.wf() && b.made_of(backend) && exists|l: B::FileNameIter| #[trigger] backend.lists(l) && collected(l, b.listed()),
            Err(_) => backend.unlisted(),
        },
//@ closure 0 params 1
|_c: &BackupChain| -> (c: RefCell<Option<Chain>>)
//@ closure 0 spec
    ensures created(c) is None
//@ closure 1 params 1
|_k: usize| -> (c: RefCell<Option<Manifest>>)
//@ closure 1 spec
    ensures created(c) is None
//@ let collections after
        proof { axiom_sets_fit(&collections); }
//@ tail
        proof { slots_assigned(&backend, collections@, signatures, manifests); }
//@ fn Backup::snapshots ret=r props=C05
//@ spec
    requires self.wf(),
    ensures r is Ok, r->Ok_0.wf(), r->Ok_0.coll() == self.listed(), serves(r->Ok_0.source(), self),
//@ fn Backup::into_inner ret=r props=C05
//@ spec
    ensures self.made_of(r),
//@ fn find_signature_chain ret=r props=C06
//@ spec
    requires chain_id < collections@.backups.len(),
    ensures
        match r {
            Some(s) => sig_chain_for(collections@, chain_id as int) == Some(s@),
            None => sig_chain_for(collections@, chain_id as int) is None,
        },
//@ tail
    proof {
        let (sigs, t) = (collections@.sigs, collections@.backups[chain_id as int].start);
        assert(at(sigs.len() as int));
        assert forall|k: int| #[trigger] at(k) && 0 <= k <= sigs.len() && (forall|j: int| #![trigger sigs[j]] 0 <= j < k && at(j) ==> sigs[j].full.time != t)
            implies (k == sigs.len() ==> first_at(sigs, t) is None) && (k < sigs.len() && sigs[k].full.time == t ==> first_at(sigs, t) == Some(sigs[k])) by {
            assert forall|j: int| 0 <= j < k implies (#[trigger] sigs[j]).full.time != t by { assert(at(j)); }
            lemma_first_at(sigs, t, k);
        }
    }
//@ closure 0 params 1
|chain: &&SignatureChain| -> (b: bool)
//@ closure 0 spec
    ensures b == (chain@.full.time == collections@.backups[chain_id as int].start)
//@ fn not_found external ret=r
//@ spec
//@ fn Backup::_collections inherent ret=r props=C05,C06
//@ spec
    ensures r@ == self.listed(),
//@ fn Backup::_signature_chain inherent ret=r props=C06,C17
//@ spec
    requires self.wf(), chain_id < self.listed().backups.len(),
    ensures
        match r {
            Ok(x) => {
                &&& *held(x) == Some(kept(self.signatures@[chain_id as int]))
                &&& sig_chain_for(self.listed(), chain_id as int) is Some
                &&& loaded(&self.backend, sig_chain_for(self.listed(), chain_id as int)->Some_0, kept(self.signatures@[chain_id as int]))
            },
            Err(_) => match sig_chain_for(self.listed(), chain_id as int) { Some(s) => unloadable(&self.backend, s), None => true },
        },
//@ start
        let tracked mut clk = this_moment();
//@ tail
        let tracked clk = last_moment(clk);
//@ fn Backup::_manifest inherent ret=r props=C05,C17
//@ spec
    requires self.wf(), id < total(self.listed().backups), path@ == nth_set(self.listed().backups, id as int).manifest,
    ensures
        match r {
            Ok(x) => *held(x) == Some(kept(self.manifests@[id as int])) && manifest_read(&self.backend, path@, kept(self.manifests@[id as int])),
            Err(_) => manifest_unread(&self.backend, path@),
        },
//@ start
        let tracked mut clk = this_moment();
//@ tail
        let tracked clk = last_moment(clk);
//@ verus
impl<B: Backend> ResourceCache for Backup<B> {
    closed spec fn ready(&self) -> bool { self.wf() }
    closed spec fn coll(&self) -> CollV { self.listed() }
    closed spec fn chain_ok(&self, chain_id: int, c: Chain) -> bool {
        match sig_chain_for(self.listed(), chain_id) { Some(s) => loaded(&self.backend, s, c), None => false }
    }
    closed spec fn chain_fails(&self, chain_id: int) -> bool {
        match sig_chain_for(self.listed(), chain_id) { Some(s) => unloadable(&self.backend, s), None => false }
    }
    closed spec fn manifest_ok(&self, id: int, m: Manifest) -> bool { manifest_read(&self.backend, nth_set(self.listed().backups, id).manifest, m) }
    closed spec fn manifest_fails(&self, id: int) -> bool { manifest_unread(&self.backend, nth_set(self.listed().backups, id).manifest) }
    closed spec fn kept_chain(&self, chain_id: int) -> Chain { kept(self.signatures@[chain_id]) }
    closed spec fn kept_manifest(&self, id: int) -> Manifest { kept(self.manifests@[id]) }
    fn _collections(&self) -> (r: &Collections) { Backup::_collections(self) }
    fn _signature_chain(&self, chain_id: usize) -> (r: io::Result<Ref<'_, Option<Chain>>>) {
        let r = Backup::_signature_chain(self, chain_id);
        proof { if r is Ok { signatures::lemma_loaded_count(&self.backend, sig_chain_for(self.listed(), chain_id as int)->Some_0, self.kept_chain(chain_id as int)); } }
        r
    }
    fn _manifest(&self, id: usize, path: &str) -> (r: Result<Ref<'_, Option<Manifest>>, manifest::ParseError>) { Backup::_manifest(self, id, path) }
}
// ---------------------------------------------------------------- C05: the snapshots
/// the answers of `c` are the answers of this backup
pub open spec fn serves<B: Backend>(c: &dyn ResourceCache, b: &Backup<B>) -> bool {
    &&& c.coll() == b.listed()
    &&& forall|i: int| #[trigger] c.kept_chain(i) == ResourceCache::kept_chain(b, i)
    &&& forall|i: int, x: Chain| #[trigger] c.chain_ok(i, x) == ResourceCache::chain_ok(b, i, x)
    &&& forall|i: int| #[trigger] c.chain_fails(i) == ResourceCache::chain_fails(b, i)
    &&& forall|i: int| #[trigger] c.kept_manifest(i) == ResourceCache::kept_manifest(b, i)
    &&& forall|i: int, x: Manifest| #[trigger] c.manifest_ok(i, x) == ResourceCache::manifest_ok(b, i, x)
    &&& forall|i: int| #[trigger] c.manifest_fails(i) == ResourceCache::manifest_fails(b, i)
}
impl<'a> Snapshots<'a> {
    pub closed spec fn source(&self) -> &'a dyn ResourceCache { self.backup }
    pub closed spec fn wf(&self) -> bool { self.backup.ready() && total(self.backup.coll().backups) <= usize::MAX }
    pub closed spec fn coll(&self) -> CollV { self.backup.coll() }
}
impl<'a> SnapshotsIter<'a> {
    pub closed spec fn source(&self) -> &'a dyn ResourceCache { self.backup }
    pub closed spec fn coll(&self) -> CollV { self.backup.coll() }
    #[verifier::prophetic]
    pub closed spec fn wf(&self) -> bool {
        let cs = self.backup.coll().backups;
        let chains = self.set_iter.chain_iter;
        &&& self.backup.ready()
        &&& total(cs) <= usize::MAX
        &&& self.chain_id <= cs.len() <= usize::MAX
        &&& chains.obeys_prophetic_iter_laws()
        &&& chains.remaining().len() == cs.len() - self.chain_id
        &&& forall|i: int| 0 <= i < chains.remaining().len() ==> (*(#[trigger] chains.remaining()[i]))@ == cs[self.chain_id + i]
        &&& match self.set_iter.incset_iter {
            None => self.chain_id == 0 && self.man_id == 0,
            Some(sets) => {
                let incs = cs[self.chain_id - 1].incs;
                &&& self.chain_id > 0
                &&& sets.obeys_prophetic_iter_laws()
                &&& self.sig_id <= incs.len()
                &&& sets.remaining().len() == incs.len() - self.sig_id
                &&& forall|i: int| 0 <= i < sets.remaining().len() ==> (*(#[trigger] sets.remaining()[i]))@ == incs[self.sig_id + i]
                &&& self.man_id == number(cs, self.chain_id - 1, self.sig_id as int) + 1
            },
        }
    }
    /// the number of snapshots that were given
    pub closed spec fn given(&self) -> nat { self.man_id as nat }
}
impl<'a> Snapshot<'a> {
    pub closed spec fn source(&self) -> &'a dyn ResourceCache { self.backup }
    pub closed spec fn coll(&self) -> CollV { self.backup.coll() }
    pub closed spec fn chain(&self) -> int { self.chain_id as int }
    pub closed spec fn place(&self) -> int { self.sig_id as int }
    pub closed spec fn number(&self) -> int { self.man_id as int }
    pub closed spec fn view(&self) -> SetV { self.set@ }
    pub closed spec fn wf(&self) -> bool {
        &&& self.backup.ready()
        &&& is_place(self.coll().backups, self.chain(), self.place())
        &&& self.number() == number(self.coll().backups, self.chain(), self.place())
        &&& self@ == set_at(self.coll().backups, self.chain(), self.place())
    }
}
//@ fn Snapshots::as_collections ret=r props=C05
//@ spec
    ensures r@ == self.coll(),
//@ fn Snapshots::into_iter inherent ret=r props=C05
//@ sig Self::IntoIter => SnapshotsIter<'a>
//@ spec
    requires self.wf(),
    ensures r.wf(), r.coll() == self.coll(), r.given() == 0, r.source() == self.source(),
//@ start
        proof { lemma_total_len(self.coll().backups); }
//@ fn SnapshotsIter::next inherent ret=r props=C05,C06
//@ sig Self::Item => Snapshot<'a>
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        final(self).coll() == old(self).coll(),
        final(self).source() == old(self).source(),
        match r {
            Some(s) => s.wf() && s.source() == old(self).source() && s.coll() == old(self).coll() && s.number() == old(self).given() && final(self).given() == old(self).given() + 1,
            None => old(self).given() == total(old(self).coll().backups) && final(self).given() == old(self).given(),
        },
//@ start
        proof {
            let cs = self.backup.coll().backups;
            let n = self.chain_id as int;
            assert(cs.take(0) =~= Seq::<ChainV>::empty());
            assert(cs.take(cs.len() as int) =~= cs);
            if n > 0 {
                lemma_total_take(cs, n - 1);
                if self.sig_id < cs[n - 1].incs.len() { lemma_place(cs, n - 1, self.sig_id + 1); }
            }
            if n < cs.len() { lemma_total_take(cs, n); lemma_place(cs, n, 0); }
        }
//@ fn Snapshot::time ret=r props=C05
//@ spec
    ensures r == set_end(self@.tp),
//@ fn Snapshot::is_full ret=r props=C05
//@ spec
    ensures r == (self@.tp is Full),
//@ fn Snapshot::is_incremental ret=r props=C05
//@ spec
    ensures r == (self@.tp is Inc),
//@ fn Snapshot::num_volumes ret=r props=C05
//@ spec
    ensures r == self@.volumes.dom().len(),
//@ fn Snapshot::as_backup_set ret=r props=C05
//@ spec
    ensures r@ == self@,
//@ verus
// ---------------------------------------------------------------- C06: the entries of a snapshot
impl<'a> Snapshot<'a> {
    /// what the signatures of the chain of this snapshot were read as
    pub closed spec fn chain_kept(&self) -> Chain { self.backup.kept_chain(self.chain()) }
    pub closed spec fn chain_ok(&self) -> bool { self.backup.chain_ok(self.chain(), self.chain_kept()) }
    pub closed spec fn chain_fails(&self) -> bool { self.backup.chain_fails(self.chain()) }
    pub closed spec fn manifest_kept(&self) -> Manifest { self.backup.kept_manifest(self.number()) }
    pub closed spec fn manifest_ok(&self) -> bool { self.backup.manifest_ok(self.number(), self.manifest_kept()) }
    pub closed spec fn manifest_fails(&self) -> bool { self.backup.manifest_fails(self.number()) }
}
impl<'a> SnapshotEntries<'a> {
    pub closed spec fn wf(&self) -> bool { *held(self.chain) is Some && self.sig_id < (*held(self.chain))->Some_0.count() }
    pub closed spec fn of(&self) -> Chain { (*held(self.chain))->Some_0 }
    pub closed spec fn place(&self) -> int { self.sig_id as int }
}
impl<'a> ManifestRef<'a> {
    pub closed spec fn view(&self) -> Option<Manifest> { *held(self.0) }
}
//@ fn Snapshot::has_signature ret=r props=C06
//@ spec
    requires self.wf(),
    ensures r == own_signature(self.coll(), self.chain(), self.place()),
//@ closure 0 params 1
|sig: &SignatureFile| -> (b: bool)
//@ closure 0 spec
    ensures b == (sig@.time == set_end(self.set@.tp))
//@ fn Snapshot::entries ret=r props=C06,C17
//@ spec
    requires self.wf(),
    ensures
        match r {
            Ok(e) => e.wf() && e.of() == self.chain_kept() && self.chain_ok() && e.place() == self.place() && own_signature(self.coll(), self.chain(), self.place()),
            Err(_) => sig_chain_for(self.coll(), self.chain()) is None || self.chain_fails() || !own_signature(self.coll(), self.chain(), self.place()),
        },
//@ fn Snapshot::manifest ret=r props=C05,C17
//@ spec
    requires self.wf(),
    ensures
        match r {
            Ok(m) => m@ == Some(self.manifest_kept()) && self.manifest_ok(),
            Err(_) => self.manifest_fails(),
        },
//@ start
        proof { lemma_place(self.coll().backups, self.chain(), self.place()); }
//@ fn SnapshotEntries::as_signature ret=r props=C06
//@ spec
    requires self.wf(),
    ensures r.wf(), r@ == listing(self.of().paths(), self.place() as nat), *r.of() == self.of(),
//@ fn SnapshotEntries::fmt trait=Display inherent ret=r props=C20
//@ spec
    requires self.wf(),
    ensures writes(r, old(f), final(f), printed(listing(self.of().paths(), self.place() as nat), self.of().names())),
//@ fn ManifestRef::deref inherent ret=r props=C05,C17
//@ spec
    requires self@ is Some,
    ensures Some(*r) == self@,
//@ verus
// ---------------------------------------------------------------- C05: the theorems
/// the sets of these chains: chain by chain the full one and then the incremental ones
pub open spec fn all_sets(cs: Seq<ChainV>) -> Seq<SetV>
    decreases cs.len(),
{
    if cs.len() == 0 { Seq::empty() } else { all_sets(cs.drop_last()).push(cs.last().full) + cs.last().incs }
}
pub proof fn lemma_all_sets(cs: Seq<ChainV>)
    ensures
        all_sets(cs).len() == total(cs),
        forall|m: int| 0 <= m < total(cs) ==> #[trigger] all_sets(cs)[m] == nth_set(cs, m),
    decreases cs.len(),
{
    if cs.len() > 0 { lemma_all_sets(cs.drop_last()); }
}
/// Each number below the total belongs to one place.
pub proof fn theorem_places(cs: Seq<ChainV>, m: int)
    requires 0 <= m < total(cs),
    ensures
        exists|c: int, k: int| #[trigger] is_place(cs, c, k) && number(cs, c, k) == m,
        forall|c: int, k: int, d: int, l: int| #[trigger] is_place(cs, c, k) && #[trigger] is_place(cs, d, l) && number(cs, c, k) == m == number(cs, d, l) ==> c == d && k == l,
    decreases cs.len(),
{
    let d = cs.drop_last();
    let n = cs.len() - 1;
    assert(cs.take(n) =~= d);
    if m >= total(d) {
        assert(is_place(cs, n, m - total(d)) && number(cs, n, m - total(d)) == m);
    } else {
        theorem_places(d, m);
        let (c, k) = choose|c: int, k: int| #[trigger] is_place(d, c, k) && number(d, c, k) == m;
        assert(d.take(c) =~= cs.take(c));
        assert(is_place(cs, c, k) && number(cs, c, k) == m);
    }
    assert forall|c: int, k: int, e: int, l: int| #[trigger] is_place(cs, c, k) && #[trigger] is_place(cs, e, l) && number(cs, c, k) == m == number(cs, e, l) implies c == e && k == l by {
        if c < e { lemma_numbers(cs, c, k, e, l); } else if e < c { lemma_numbers(cs, e, l, c, k); }
    }
}
/// Numbers go chain by chain.
pub proof fn lemma_numbers(cs: Seq<ChainV>, c: int, k: int, d: int, l: int)
    requires is_place(cs, c, k), is_place(cs, d, l), c < d,
    ensures number(cs, c, k) < number(cs, d, l),
{
    lemma_totals(cs, c + 1, d);
    lemma_total_take(cs, c);
}
pub proof fn lemma_totals(cs: Seq<ChainV>, c: int, d: int)
    requires 0 <= c <= d <= cs.len(),
    ensures total(cs.take(c)) <= total(cs.take(d)),
    decreases d - c,
{
    if c < d { lemma_total_take(cs, d - 1); lemma_totals(cs, c, d - 1); }
}
/// Iterating over the snapshots gives every backup set once, chain by chain the full one and then
/// the incremental ones, as many as the collections report; then the iterator stays at the end.
fn theorem_enumeration<'a, B: Backend>(b: &'a Backup<B>) -> (r: Vec<Snapshot<'a>>)
    requires b.wf(),
    ensures
        r@.len() == total(b.listed().backups),
        r@.map_values(|s: Snapshot<'a>| s@) =~= all_sets(b.listed().backups),
        forall|m: int| 0 <= m < r@.len() ==> (#[trigger] r@[m]).wf() && r@[m].number() == m && serves(r@[m].source(), b),
{
    let ghost cs = b.listed().backups;
    let mut out: Vec<Snapshot<'a>> = Vec::new();
    let mut it = match b.snapshots() { Ok(s) => s.into_iter(), Err(_) => { proof { assert(false); } return out; } };
    loop
        invariant
            it.wf(), it.coll() == b.listed(), serves(it.source(), b), it.given() == out@.len(), cs == b.listed().backups,
            forall|m: int| 0 <= m < out@.len() ==> (#[trigger] out@[m]).wf() && out@[m].number() == m && serves(out@[m].source(), b),
            out@.len() <= total(cs),
        ensures out@.len() == total(cs),
        decreases total(cs) - out@.len(),
    {
        match it.next() {
            Some(s) => {
                proof { lemma_place(cs, s.chain(), s.place()); }
                out.push(s);
            }
            None => { break; }
        }
    }
    let num = b.snapshots_total_();
    assert(num == out@.len());
    let again = it.next();
    proof {
        if again is Some {
            let s = again->Some_0;
            lemma_place(cs, s.chain(), s.place());
            assert(false);
        }
        lemma_all_sets(cs);
        assert forall|m: int| 0 <= m < out@.len() implies #[trigger] out@[m]@ == all_sets(cs)[m] by {
            lemma_place(cs, out@[m].chain(), out@[m].place());
        }
    }
    out
}
impl<B: Backend> Backup<B> {
    fn snapshots_total_(&self) -> (r: usize)
        requires self.wf(),
        ensures r == total(self.listed().backups),
    {
        match self.snapshots() { Ok(s) => s.as_collections().num_snapshots(), Err(_) => 0 }
    }
}
// ---------------------------------------------------------------- C06, C17: the theorems
/// What is asked of a snapshot is answered with what belongs to it: the manifest of its set, and
/// the listing at its own place of the chain of signatures that begins with its chain and whose
/// signature at this place has its time.  All answers can be held at once, and asking again gives
/// the same.
fn theorem_answers<'a, B: Backend>(b: &'a Backup<B>, s: &'a Snapshot<'a>, t: &'a Snapshot<'a>)
    requires b.wf(), s.wf(), t.wf(), s.coll() == t.coll(),
{
    let (a1, a2, a3) = (s.entries(), t.entries(), s.entries());
    let (m1, m2, m3) = (s.manifest(), t.manifest(), s.manifest());
    if let (Ok(x), Ok(y)) = (&a1, &a3) {
        assert(x.of() == y.of() && x.place() == y.place());
        let (l1, l2) = (x.as_signature(), y.as_signature());
        assert(l1@ == l2@);
        let ghost chain = sig_chain_for(s.coll(), s.chain());
        assert(chain is Some);
        proof { lemma_first_begins(s.coll().sigs, s.coll().backups[s.chain()].start); }
        assert(s.coll().sigs.contains(chain->Some_0));
        assert(chain->Some_0.full.time == s.coll().backups[s.chain()].start);
        assert(sig_at(chain->Some_0, s.place()).time == set_end(s@.tp));
    }
    if let (Ok(x), Ok(y)) = (&a1, &a2) {
        assert(s.chain() == t.chain() && s.source() == t.source() ==> x.of() == y.of());
    }
    if let (Ok(x), Ok(y)) = (&m1, &m3) {
        let (p, q): (&Manifest, &Manifest) = (x.deref(), y.deref());
        assert(*p == *q);
    }
    let (_k1, _k2, _k3) = (a1, a2, a3);
    let (_l1, _l2, _l3) = (m1, m2, m3);
}
pub proof fn lemma_first_begins(sigs: Seq<SigChainV>, t: Timespec)
    ensures first_at(sigs, t) is Some ==> sigs.contains(first_at(sigs, t)->Some_0) && first_at(sigs, t)->Some_0.full.time == t,
    decreases sigs.len(),
{
    if sigs.len() > 0 {
        if sigs[0].full.time == t { assert(sigs[0] == first_at(sigs, t)->Some_0); }
        else {
            lemma_first_begins(sigs.drop_first(), t);
            if first_at(sigs, t) is Some {
                let d = sigs.drop_first();
                let k = choose|k: int| 0 <= k < d.len() && d[k] == first_at(sigs, t)->Some_0;
                assert(sigs[k + 1] == d[k]);
            }
        }
    }
}
//@ verus
fn main() {}
} // verus!
