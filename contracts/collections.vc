//@ subst .sort_by( => .sort_by_(
//@ subst .filter_map( => .filter_map_(
//@ verus
#![feature(sized_hierarchy, const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::{PartialOrdSpec, OrdSpec};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::slice;
use std::marker::PointeeSized;
use time::Timespec;
use std::path::Path;
use regex::Regex;
verus! {
//@ include time_spec.vc
//@ include std_spec.vc
//@ verus
// ---------------------------------------------------------------- trusted: standard library
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(AsRefSpec via AsRefSpecImpl)]
pub trait ExAsRef<T: PointeeSized>: PointeeSized {
    type ExternalTraitSpecificationFor: AsRef<T>;
    spec fn as_ref_spec(&self) -> &T;
    fn as_ref(&self) -> (r: &T) ensures r == self.as_ref_spec();
}
pub assume_specification [<String as AsRef<str>>::as_ref] (s: &String) -> (r: &str) ensures r@ == s@;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPath(Path);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(std::path::PathBuf);
/// The text of a path, if it is UTF-8.
pub uninterp spec fn path_text(p: &Path) -> Option<Seq<char>>;
pub assume_specification [Path::to_str] (p: &Path) -> (r: Option<&str>)
    ensures match r { Some(s) => path_text(p) == Some(s@), None => path_text(p) is None };
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(F)]
pub struct ExFilterMap<I, F>(std::iter::FilterMap<I, F>);
/// What is there, in order.
pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        match s.last() { Some(x) => somes(s.drop_last()).push(x), None => somes(s.drop_last()) }
    }
}
/// What filter_map makes of the items: its closure's answers on them, each once, in order.
pub open spec fn mapped<T, B>(items: Seq<T>, os: Seq<Option<B>>) -> bool { os.len() == items.len() }
pub open spec fn answers<T, B, F: FnMut(T) -> Option<B>>(f: F, items: Seq<T>, os: Seq<Option<B>>) -> bool {
    mapped(items, os) && forall|i: int| #![trigger os[i]] #![trigger items[i]] 0 <= i < items.len() ==> call_ensures(f, (items[i],), os[i])
}
pub trait FilterMap_: Iterator + Sized {
    fn filter_map_<B, F: FnMut(Self::Item) -> Option<B>>(self, f: F) -> (r: std::iter::FilterMap<Self, F>)
        requires forall|x: Self::Item| #[trigger] call_requires(f, (x,)),
        ensures
            self.obeys_prophetic_iter_laws() ==> r.obeys_prophetic_iter_laws()
                && exists|os: Seq<Option<B>>| #[trigger] answers(f, self.remaining(), os) && r.remaining() == somes(os);
}
impl<I: Iterator> FilterMap_ for I {
    #[verifier::external_body]
    fn filter_map_<B, F: FnMut(Self::Item) -> Option<B>>(self, f: F) -> (r: std::iter::FilterMap<Self, F>) { self.filter_map(f) }
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExRegex(Regex);
/// What a dropped iterator has not handed out stays as it was.
#[verifier::external_body]
pub broadcast proof fn axiom_iter_mut_dropped<'a, T>(it: slice::IterMut<'a, T>)
    ensures #[trigger] has_resolved(it) ==> forall|i: int| 0 <= i < it.remaining().len() ==> has_resolved(#[trigger] it.remaining()[i]),
{}

pub fn bool_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }

pub broadcast proof fn lemma_map_values_insert<K, A, B>(m: Map<K, A>, k: K, v: A, f: spec_fn(A) -> B)
    ensures #[trigger] m.insert(k, v).map_values(f) == m.map_values(f).insert(k, f(v)),
{
    assert(m.insert(k, v).map_values(f) =~= m.map_values(f).insert(k, f(v)));
}
pub broadcast proof fn lemma_map_values_empty<K, A, B>(f: spec_fn(A) -> B)
    ensures #[trigger] Map::<K, A>::empty().map_values(f) == Map::<K, B>::empty(),
{
    assert(Map::<K, A>::empty().map_values(f) =~= Map::<K, B>::empty());
}
proof fn lemma_filter_index<T>(s: Seq<T>, g: spec_fn(int) -> bool, p: spec_fn(T) -> bool)
    requires forall|j: int| 0 <= j < s.len() ==> g(j) == p(#[trigger] s[j]),
    ensures s.filter_index(g) == s.filter(p),
    decreases s.len(),
{
    reveal(Seq::filter);
    reveal(Seq::filter_index);
    if s.len() > 0 {
        let r = s.drop_last();
        assert forall|j: int| 0 <= j < r.len() implies g(j) == p(#[trigger] r[j]) by { assert(r[j] == s[j]); }
        lemma_filter_index(r, g, p);
        assert(s[s.len() - 1] == s.last());
    }
}
/// What vstd says about Iterator::filter, in terms of Seq::filter.
pub broadcast proof fn lemma_filter_indices<T>(s: Seq<T>, g: spec_fn(int) -> bool, p: spec_fn(T) -> bool)
    ensures (forall|j: int| 0 <= j < s.len() ==> g(j) == p(#[trigger] s[j])) ==> #[trigger] s.filter_index(g) == #[trigger] s.filter(p),
{
    if forall|j: int| 0 <= j < s.len() ==> g(j) == p(#[trigger] s[j]) { lemma_filter_index(s, g, p); }
}
proof fn lemma_filter_mapped<T, U>(s: Seq<T>, m: spec_fn(T) -> U, p: spec_fn(T) -> bool, q: spec_fn(U) -> bool)
    requires forall|x: T| p(x) == q(#[trigger] m(x)),
    ensures s.filter(p).map_values(m) == s.map_values(m).filter(q),
    decreases s.len(),
{
    reveal(Seq::filter);
    let t = s.map_values(m);
    if s.len() > 0 {
        lemma_filter_mapped(s.drop_last(), m, p, q);
        assert(t.drop_last() =~= s.drop_last().map_values(m));
        assert(t.last() == m(s.last()));
        assert(p(s.last()) == q(m(s.last())));
        let f = s.drop_last().filter(p);
        assert(f.push(s.last()).map_values(m) =~= f.map_values(m).push(m(s.last())));
    } else {
        assert(t =~= Seq::<U>::empty());
        assert(s.filter(p).map_values(m) =~= Seq::<U>::empty());
    }
}

//@ include sort_spec.vc
//@ file src/collections/file_naming.rs
//@ item struct FileNameInfo vis=pub
//@ item struct Info vis=pub
//@ item enum Type vis=pub
//@ item struct FileNameParser vis=pub
//@ verus
/// What the parser makes of a file name: read_name in names.vc, where the next two contracts are proved.
pub uninterp spec fn recognised(name: Seq<char>) -> Option<Info>;
pub uninterp spec fn made(p: FileNameParser) -> bool;
//@ fn FileNameParser::new external ret=r
//@ spec
    ensures made(r),
//@ fn FileNameParser::parse external ret=r
//@ spec
    requires made(*self),
    ensures r == recognised(filename@),
//@ fn FileNameInfo::new ret=r props=C02,C15
//@ spec
    ensures r.file_name@ == name@, r.info == info,
//@ fn FileNameInfo::start_time ret=r props=C04,C15
//@ spec
    ensures r == start_of(self.info.tp),
//@ fn Type::time_range ret=r props=C04,C15
//@ spec
    ensures r == (start_of(*self), end_of(*self)),
//@ verus
pub open spec fn start_of(t: Type) -> Timespec {
    match t {
        Type::Full { time, .. } => time,
        Type::FullSig { time, .. } => time,
        Type::FullManifest { time, .. } => time,
        Type::Inc { start_time, .. } => start_time,
        Type::IncManifest { start_time, .. } => start_time,
        Type::NewSig { start_time, .. } => start_time,
    }
}
pub open spec fn end_of(t: Type) -> Timespec {
    match t {
        Type::Full { time, .. } => time,
        Type::FullSig { time, .. } => time,
        Type::FullManifest { time, .. } => time,
        Type::Inc { end_time, .. } => end_time,
        Type::IncManifest { end_time, .. } => end_time,
        Type::NewSig { end_time, .. } => end_time,
    }
}
pub open spec fn full_kind(t: Type) -> bool {
    t is Full || t is FullSig || t is FullManifest
}
pub open spec fn volume_of(t: Type) -> Option<usize> {
    match t {
        Type::Full { volume_number, .. } => Some(volume_number),
        Type::Inc { volume_number, .. } => Some(volume_number),
        _ => None,
    }
}
pub open spec fn manifest_kind(t: Type) -> bool { t is FullManifest || t is IncManifest }
pub open spec fn partial_of(t: Type) -> bool {
    match t {
        Type::FullManifest { partial, .. } => partial,
        Type::IncManifest { partial, .. } => partial,
        Type::FullSig { partial, .. } => partial,
        Type::NewSig { partial, .. } => partial,
        _ => false,
    }
}
/// A recognised file.
pub struct FileV { pub name: Seq<char>, pub tp: Type, pub compressed: bool, pub encrypted: bool }
impl<'a> View for FileNameInfo<'a> {
    type V = FileV;
    closed spec fn view(&self) -> FileV {
        FileV { name: self.file_name@, tp: self.info.tp, compressed: self.info.compressed, encrypted: self.info.encrypted }
    }
}
pub open spec fn files(s: Seq<FileNameInfo>) -> Seq<FileV> { s.map_values(|f: FileNameInfo| f@) }

pub mod collections {
use super::*;
use crate as fnm;
//@ include coll_spec.vc
//@ verus
broadcast use {lemma_map_values_insert, lemma_map_values_empty, axiom_iter_mut_dropped, axiom_timespec_partial_ord};
// ---------------------------------------------------------------- backup sets
/// The kind and times of the set that a file belongs to.
pub open spec fn set_type(t: fnm::Type) -> Type {
    if full_kind(t) { Type::Full { time: start_of(t) } } else { Type::Inc { start_time: start_of(t), end_time: end_of(t) } }
}
pub open spec fn no_file(tp: Type) -> SetV {
    SetV { tp, compressed: false, encrypted: false, partial: false, manifest: Seq::empty(), volumes: Map::empty() }
}
pub open spec fn with_file(s: SetV, f: FileV) -> SetV {
    SetV {
        tp: s.tp,
        compressed: s.compressed || f.compressed,
        encrypted: s.encrypted || f.encrypted,
        partial: s.partial || partial_of(f.tp),
        manifest: if manifest_kind(f.tp) { f.name } else { s.manifest },
        volumes: match volume_of(f.tp) { Some(n) => s.volumes.insert(n, f.name), None => s.volumes },
    }
}
//@ fn BackupSet::is_same_set ret=r props=C02
//@ spec
    ensures r == (set_type(pr.tp) == self@.tp),
//@ fn BackupSet::add_filename ret=r props=C02
//@ spec
    ensures
        r == (set_type(file_info.info.tp) == old(self)@.tp),
        final(self)@ == (if r { with_file(old(self)@, file_info@) } else { old(self)@ }),
//@ bool-or
//@ fn BackupSet::new ret=r props=C02
//@ spec
    ensures r@ == with_file(no_file(set_type(fname.info.tp)), fname@),
//@ verus
/// The set of the given kind and times made from the files of a listing.
pub open spec fn set_of(tp: Type, fs: Seq<FileV>) -> SetV
    decreases fs.len(),
{
    if fs.len() == 0 { no_file(tp) } else {
        let s = set_of(tp, fs.drop_last());
        if set_type(fs.last().tp) == tp { with_file(s, fs.last()) } else { s }
    }
}
pub open spec fn has_type(fs: Seq<FileV>, tp: Type) -> bool { exists|j: int| 0 <= j < fs.len() && set_type(#[trigger] fs[j].tp) == tp }
pub open spec fn has_set(sets: Seq<SetV>, tp: Type) -> bool { exists|i: int| 0 <= i < sets.len() && (#[trigger] sets[i]).tp == tp }
/// The sets are the files grouped by kind and times.
pub open spec fn grouped(fs: Seq<FileV>, sets: Seq<SetV>) -> bool {
    &&& forall|i: int| 0 <= i < sets.len() ==> #[trigger] sets[i] == set_of(sets[i].tp, fs) && has_type(fs, sets[i].tp)
    &&& forall|i: int, j: int| 0 <= i < sets.len() && 0 <= j < sets.len() && (#[trigger] sets[i]).tp == (#[trigger] sets[j]).tp ==> i == j
    &&& forall|j: int| 0 <= j < fs.len() ==> has_set(sets, set_type(#[trigger] fs[j].tp))
}
pub open spec fn by_end(sets: Seq<SetV>) -> bool {
    forall|i: int, j: int| 0 <= i < j < sets.len() ==> ts_le(set_end(#[trigger] sets[i].tp), set_end(#[trigger] sets[j].tp))
}

proof fn lemma_set_of_type(tp: Type, fs: Seq<FileV>)
    ensures set_of(tp, fs).tp == tp,
    decreases fs.len(),
{ if fs.len() > 0 { lemma_set_of_type(tp, fs.drop_last()); } }

proof fn lemma_set_of_none(tp: Type, fs: Seq<FileV>)
    requires !has_type(fs, tp),
    ensures set_of(tp, fs) == no_file(tp),
    decreases fs.len(),
{
    if fs.len() > 0 {
        assert(fs[fs.len() - 1] == fs.last());
        assert forall|j: int| 0 <= j < fs.drop_last().len() implies set_type(#[trigger] fs.drop_last()[j].tp) != tp by { assert(fs.drop_last()[j] == fs[j]); }
        lemma_set_of_none(tp, fs.drop_last());
    }
}
proof fn lemma_has_type_push(fs: Seq<FileV>, f: FileV, tp: Type)
    ensures has_type(fs.push(f), tp) == (has_type(fs, tp) || set_type(f.tp) == tp),
{
    let q = fs.push(f);
    if has_type(fs, tp) {
        let j = choose|j: int| 0 <= j < fs.len() && set_type(#[trigger] fs[j].tp) == tp;
        assert(q[j] == fs[j]);
    }
    if set_type(f.tp) == tp { assert(q[fs.len() as int] == f); }
    if has_type(q, tp) {
        let j = choose|j: int| 0 <= j < q.len() && set_type(#[trigger] q[j].tp) == tp;
        if j < fs.len() { assert(q[j] == fs[j]); }
    }
}
/// One more file: it goes into the set of its kind and times, or makes a new one.
proof fn lemma_group_step(fs: Seq<FileV>, f: FileV, sets: Seq<SetV>, new: Seq<SetV>, k: int)
    requires
        grouped(fs, sets),
        0 <= k <= sets.len(),
        k < sets.len() ==> sets[k].tp == set_type(f.tp) && new == sets.update(k, with_file(sets[k], f)),
        k == sets.len() ==> !has_set(sets, set_type(f.tp)) && new == sets.push(with_file(no_file(set_type(f.tp)), f)),
    ensures grouped(fs.push(f), new),
{
    let q = fs.push(f);
    let t = set_type(f.tp);
    assert(q.drop_last() =~= fs);
    assert forall|i: int| 0 <= i < new.len() implies #[trigger] new[i] == set_of(new[i].tp, q) && has_type(q, new[i].tp) by {
        lemma_has_type_push(fs, f, new[i].tp);
        if i < sets.len() { assert(sets[i] == set_of(sets[i].tp, fs)); }
        if i == k && k == sets.len() {
            if has_type(fs, t) {
                let j = choose|j: int| 0 <= j < fs.len() && set_type(#[trigger] fs[j].tp) == t;
                assert(has_set(sets, set_type(fs[j].tp)));
            }
            lemma_set_of_none(t, fs);
        }
        if i != k { assert(sets[i].tp != t); }
    }
    assert forall|i: int, j: int| 0 <= i < new.len() && 0 <= j < new.len() && (#[trigger] new[i]).tp == (#[trigger] new[j]).tp implies i == j by {
        if i < sets.len() { assert(new[i].tp == sets[i].tp); }
        if j < sets.len() { assert(new[j].tp == sets[j].tp); }
    }
    assert forall|j: int| 0 <= j < q.len() implies has_set(new, set_type(#[trigger] q[j].tp)) by {
        let u = set_type(q[j].tp);
        if j < fs.len() {
            assert(q[j] == fs[j]);
            let i = choose|i: int| 0 <= i < sets.len() && (#[trigger] sets[i]).tp == u;
            assert(new[i].tp == u);
        } else {
            assert(new[k].tp == u);
        }
    }
}
/// Rearranging the sets keeps them grouped.
proof fn lemma_group_rearranged(fs: Seq<FileV>, sets: Seq<SetV>, new: Seq<SetV>, idx: Seq<int>)
    requires grouped(fs, sets), rearranged(new, sets, idx),
    ensures grouped(fs, new),
{
    assert forall|i: int| 0 <= i < new.len() implies #[trigger] new[i] == set_of(new[i].tp, fs) && has_type(fs, new[i].tp) by {
        let x = idx[i];
        assert(new[i] == sets[x]);
    }
    assert forall|i: int, j: int| 0 <= i < new.len() && 0 <= j < new.len() && (#[trigger] new[i]).tp == (#[trigger] new[j]).tp implies i == j by {
        let (x, y) = (idx[i], idx[j]);
        assert(new[i] == sets[x] && new[j] == sets[y]);
        assert(x == y);
        if i < j { assert(idx[i] != idx[j]); } else if j < i { assert(idx[j] != idx[i]); }
    }
    assert forall|j: int| 0 <= j < fs.len() implies has_set(new, set_type(#[trigger] fs[j].tp)) by {
        let u = set_type(fs[j].tp);
        let x = choose|i: int| 0 <= i < sets.len() && (#[trigger] sets[i]).tp == u;
        lemma_rearranged_onto(new, sets, idx, x);
        let i = choose|i: int| 0 <= i < idx.len() && idx[i] == x;
        assert(new[i] == sets[x]);
    }
}
/// The first k sets, which are not of type t, were left alone.
#[verifier::prophetic]
spec fn passed_by(refs: Seq<&mut BackupSet>, sets: Seq<BackupSet>, k: int, t: Type) -> bool {
    forall|i: int| 0 <= i < k ==> (*final(#[trigger] refs[i]))@ == sets[i]@ && sets[i]@.tp != t
}
//@ fn compute_backup_sets ret=r loops=2 props=C02,C03,C15
//@ spec
    ensures grouped(files(fname_infos@), set_views(r@)), by_end(set_views(r@)),
//@ loop 0 iter it
//@ loop 0 spec
        invariant
            it.seq() == Seq::new(fname_infos@.len(), |i: int| &fname_infos@[i]),
            grouped(files(fname_infos@).take(it.index@), set_views(sets@)),
//@ loop 0 body-start
            let ghost fs = files(fname_infos@).take(it.index@);
            let ghost old_sets = sets@;
            let ghost mut k = 0int;
            let ghost f = fname_infos@[it.index@];
            proof {
                assert(f == *fileinfo);
                assert(files(fname_infos@).take(it.index@ + 1) =~= fs.push(f@));
            }
//@ loop 1 desugar rest
            let ghost refs = rest.remaining();
//@ loop 1 spec
                invariant_except_break
                    !inserted,
                    rest.remaining() == refs.skip(k),
                    passed_by(refs, old_sets, k, set_type(f@.tp)),
                invariant
                    refs.len() == old_sets.len(),
                    0 <= k <= refs.len(),
                    f == *fileinfo,
                    rest.obeys_prophetic_iter_laws(),
                    forall|i: int| 0 <= i < refs.len() ==> *(#[trigger] refs[i]) == old_sets[i],
                ensures
                    inserted == (k < old_sets.len()),
                    passed_by(refs, old_sets, k, set_type(f@.tp)),
                    k < refs.len() ==> (*final(refs[k]))@ == with_file(old_sets[k]@, f@) && old_sets[k]@.tp == set_type(f@.tp) && rest.remaining() == refs.skip(k + 1),
                decreases old_sets.len() - k,
//@ loop 1 body-start
                proof { assert(set == refs[k]); }
//@ loop 1 body-end
                proof { k = k + 1; }
//@ loop 1 after
            proof {
                assert(has_resolved(rest));
                assert forall|i: int| k < i < refs.len() implies *final(#[trigger] refs[i]) == old_sets[i] by {
                    assert(refs[i] == rest.remaining()[i - k - 1]);
                }
                assert(sets@.len() == old_sets.len());
                if k == old_sets.len() { 
                    assert(set_views(sets@) =~= set_views(old_sets));
                } else {
                    assert(set_views(sets@) =~= set_views(old_sets).update(k, with_file(old_sets[k]@, f@)));
                }
            }
//@ loop 0 body-end
            proof {
                if k == old_sets.len() {
                    assert(set_views(sets@) =~= set_views(old_sets).push(with_file(no_file(set_type(f@.tp)), f@)));
                    assert(!has_set(set_views(old_sets), set_type(f@.tp)));
                }
                lemma_group_step(fs, f@, set_views(old_sets), set_views(sets@), k);
            }
//@ call sort_by before
    let ghost unsorted = sets@;
    proof { assert(files(fname_infos@).take(fname_infos@.len() as int) =~= files(fname_infos@)); }
//@ closure 0 params 2
|a: &BackupSet, b: &BackupSet| -> (o: Ordering)
//@ closure 0 spec
    ensures o == ts_cmp(set_end(a@.tp), set_end(b@.tp))
//@ call sort_by after
    proof {
        let idx = choose|idx: Seq<int>| #![trigger rearranged(sets.items(), unsorted, idx)] rearranged(sets.items(), unsorted, idx);
        lemma_group_rearranged(files(fname_infos@), set_views(unsorted), set_views(sets@), idx);
    }
//@ verus
// ---------------------------------------------------------------- backup chains
pub open spec fn new_chain(s: SetV) -> ChainV { ChainV { full: s, incs: Seq::empty(), start: set_start(s.tp), end: set_end(s.tp) } }
/// The chain with one more incremental set, if the set fits: it continues the chain, or it
/// supersedes the last set by starting with it and ending later.
pub open spec fn with_inc(c: ChainV, s: SetV) -> Option<ChainV> {
    if !(s.tp is Inc) { None }
    else if c.end == set_start(s.tp) { Some(ChainV { incs: c.incs.push(s), end: set_end(s.tp), ..c }) }
    else if c.incs.len() > 0 && set_start(c.incs.last().tp) == set_start(s.tp) && ts_lt(set_end(c.incs.last().tp), set_end(s.tp)) {
        Some(ChainV { incs: c.incs.drop_last().push(s), end: set_end(s.tp), ..c })
    } else { None }
}
/// The first chain from k on that takes the set gets it.
pub open spec fn place(cs: Seq<ChainV>, s: SetV, k: int) -> Seq<ChainV>
    decreases cs.len() - k,
{
    if k < 0 || k >= cs.len() { cs }
    else if let Some(c) = with_inc(cs[k], s) { cs.update(k, c) }
    else { place(cs, s, k + 1) }
}
pub open spec fn chains_of(sets: Seq<SetV>) -> Seq<ChainV>
    decreases sets.len(),
{
    if sets.len() == 0 { Seq::empty() } else {
        let cs = chains_of(sets.drop_last());
        let s = sets.last();
        if s.tp is Full { cs.push(new_chain(s)) } else { place(cs, s, 0) }
    }
}
pub open spec fn by_chain_end(cs: Seq<ChainV>, idx: Seq<int>) -> bool {
    forall|i: int, j: int| #![trigger cs[i], cs[j]] 0 <= i < j < cs.len() ==> ts_lt(cs[i].end, cs[j].end) || (cs[i].end == cs[j].end && idx[i] < idx[j])
}
/// The chains a listing gives: its sets in order of their end, put into chains, these in order of
/// their end and else in the order of their full sets.
pub open spec fn backup_chains_of(fs: Seq<FileV>, cs: Seq<ChainV>) -> bool {
    exists|sets: Seq<SetV>, idx: Seq<int>| #![trigger grouped(fs, sets), rearranged(cs, chains_of(sets), idx)]
        grouped(fs, sets) && by_end(sets) && rearranged(cs, chains_of(sets), idx) && by_chain_end(cs, idx)
}
proof fn lemma_place_skip(cs: Seq<ChainV>, s: SetV, k: int)
    requires 0 <= k <= cs.len(), forall|i: int| 0 <= i < k ==> with_inc(#[trigger] cs[i], s) is None,
    ensures place(cs, s, 0) == place(cs, s, k),
    decreases k,
{
    if k > 0 {
        lemma_place_skip(cs, s, k - 1);
        assert(with_inc(cs[k - 1], s) is None);
    }
}
//@ fn BackupChain::new ret=r props=C03
//@ spec
    requires fullset@.tp is Full,
    ensures r@ == new_chain(fullset@),
//@ tail
        proof { assert(set_views(Seq::<BackupSet>::empty()) =~= Seq::<SetV>::empty()); }
//@ fn BackupChain::add_inc ret=r props=C03
//@ spec
    ensures
        match with_inc(old(self)@, incset@) {
            Some(c) => r is None && final(self)@ == c,
            None => r == Some(incset) && final(self)@ == old(self)@,
        },
//@ start
        broadcast use {lemma_set_views_push, lemma_set_views_pop, lemma_set_views_last};
//@ call push after
                proof { assert(self@.incs =~= old(self)@.incs.push(incset@)); }
//@ call push#1 after
                    proof { assert(self@.incs =~= old(self)@.incs.drop_last().push(incset@)); }
//@ closure 0 params 1
|last: &BackupSet| -> (b: bool)
//@ closure 0 spec
    ensures b == (start_time == set_start(last@.tp) && ts_lt(set_end(last@.tp), end_time))
//@ verus
broadcast proof fn lemma_set_views_push(s: Seq<BackupSet>, x: BackupSet)
    ensures #[trigger] set_views(s.push(x)) == set_views(s).push(x@),
{ assert(set_views(s.push(x)) =~= set_views(s).push(x@)); }
broadcast proof fn lemma_set_views_pop(s: Seq<BackupSet>)
    requires s.len() > 0,
    ensures #[trigger] set_views(s.drop_last()) == set_views(s).drop_last(),
{ assert(set_views(s.drop_last()) =~= set_views(s).drop_last()); }
broadcast proof fn lemma_set_views_last(s: Seq<BackupSet>)
    requires s.len() > 0,
    ensures #[trigger] set_views(s).last() == s.last()@,
{}
/// The first k chains did not take the set.
#[verifier::prophetic]
spec fn refused_by(refs: Seq<&mut BackupChain>, cs: Seq<BackupChain>, k: int, s: SetV) -> bool {
    forall|i: int| 0 <= i < k ==> (*final(#[trigger] refs[i]))@ == cs[i]@ && with_inc(cs[i]@, s) is None
}
pub open spec fn chained(fs: Seq<FileV>, sets: Seq<SetV>, cs: Seq<ChainV>, n: int) -> bool {
    grouped(fs, sets) && by_end(sets) && cs == chains_of(sets.take(n))
}
proof fn lemma_nothing_chained(fs: Seq<FileV>, sets: Seq<SetV>)
    requires grouped(fs, sets), by_end(sets),
    ensures chained(fs, sets, Seq::<ChainV>::empty(), 0),
{ assert(sets.take(0).len() == 0); }
//@ fn compute_backup_chains ret=r loops=2 props=C03,C15
//@ spec
    ensures backup_chains_of(files(fname_infos@), chain_views(r@)),
//@ let backup_chains after
    proof {
        assert(chain_views(backup_chains@) =~= Seq::empty());
        assert forall|sets: Seq<SetV>| grouped(files(fname_infos@), sets) && by_end(sets) implies #[trigger] chained(files(fname_infos@), sets, chain_views(backup_chains@), 0) by {
            lemma_nothing_chained(files(fname_infos@), sets);
        }
    }
//@ loop 0 iter it
//@ loop 0 spec
        invariant
            chained(files(fname_infos@), set_views(it.seq()), chain_views(backup_chains@), it.index@),
            it.index@ == it.seq().len() ==> exists|sets: Seq<SetV>| #[trigger] chained(files(fname_infos@), sets, chain_views(backup_chains@), sets.len() as int),
//@ loop 0 body-start
            let ghost old_chains = backup_chains@;
            let ghost s = set@;
            proof {
                let all = set_views(it.seq());
                assert(all.take(it.index@ + 1).drop_last() =~= all.take(it.index@));
                assert(all.take(it.index@ + 1).last() == s);
            }
//@ let new_chain after
                proof { assert(chain_views(old_chains.push(new_chain)) =~= chain_views(old_chains).push(new_chain@)); }
//@ let rejected_set after
                let ghost mut k = 0int;
//@ loop 1 desugar rest
                let ghost refs = rest.remaining();
//@ loop 1 spec
                    invariant_except_break
                        rejected_set is Some, rejected_set->Some_0@ == s,
                        rest.remaining() == refs.skip(k),
                        refused_by(refs, old_chains, k, s),
                    invariant
                        refs.len() == old_chains.len(),
                        0 <= k <= refs.len(),
                        rest.obeys_prophetic_iter_laws(),
                        forall|i: int| 0 <= i < refs.len() ==> *(#[trigger] refs[i]) == old_chains[i],
                    ensures
                        refused_by(refs, old_chains, k, s),
                        k < refs.len() ==> with_inc(old_chains[k]@, s) == Some((*final(refs[k]))@) && rest.remaining() == refs.skip(k + 1),
                    decreases old_chains.len() - k,
//@ loop 1 body-start
                    proof { assert(chain == refs[k]); }
//@ loop 1 body-end
                    proof { k = k + 1; }
//@ loop 1 after
                proof {
                    assert(has_resolved(rest));
                    assert forall|i: int| k < i < refs.len() implies *final(#[trigger] refs[i]) == old_chains[i] by {
                        assert(refs[i] == rest.remaining()[i - k - 1]);
                    }
                    let (o, n) = (chain_views(old_chains), chain_views(backup_chains@));
                    assert(n.len() == o.len());
                    assert forall|i: int| 0 <= i < k implies with_inc(#[trigger] o[i], s) is None by { assert(*refs[i] == old_chains[i]); }
                    lemma_place_skip(o, s, k);
                    if k < old_chains.len() {
                        assert(n =~= o.update(k, with_inc(o[k], s)->Some_0));
                    } else {
                        assert(n =~= o);
                    }
                }
//@ loop 0 body-end
            proof {
                assert(set_views(it.seq()).len() == it.seq().len());
                assert(chained(files(fname_infos@), set_views(it.seq()), chain_views(backup_chains@), it.index@ + 1));
            }
//@ call sort_by before
    let ghost unsorted = backup_chains@;
    let ghost sets = choose|sets: Seq<SetV>| #[trigger] chained(files(fname_infos@), sets, chain_views(backup_chains@), sets.len() as int);
    proof { assert(sets.take(sets.len() as int) =~= sets); }
//@ closure 0 params 2
|a: &BackupChain, b: &BackupChain| -> (o: Ordering)
//@ closure 0 spec
    ensures o == ts_cmp(a@.end, b@.end)
//@ call sort_by after
    proof {
        let cs = chain_views(backup_chains@);
        let idx = choose|idx: Seq<int>| #![trigger rearranged(backup_chains.items(), unsorted, idx)]
            rearranged(backup_chains.items(), unsorted, idx) && by_chain_end(chain_views(backup_chains@), idx);
        assert(rearranged(chain_views(backup_chains@), chain_views(unsorted), idx));
    }
//@ verus
// ---------------------------------------------------------------- signature chains
//@ verus
/// The signature that a file is.
pub open spec fn sig_of(f: FileV) -> SigV { SigV { name: f.name, time: end_of(f.tp), compressed: f.compressed, encrypted: f.encrypted } }
pub open spec fn new_sig_chain(f: FileV) -> SigChainV { SigChainV { full: sig_of(f), incs: Seq::empty() } }
/// The first chain from k on that ends where the signature starts gets it.
pub open spec fn place_sig(cs: Seq<SigChainV>, f: FileV, k: int) -> Seq<SigChainV>
    decreases cs.len() - k,
{
    if k < 0 || k >= cs.len() { cs }
    else if sig_end(cs[k]) == start_of(f.tp) { cs.update(k, SigChainV { incs: cs[k].incs.push(sig_of(f)), ..cs[k] }) }
    else { place_sig(cs, f, k + 1) }
}
pub open spec fn sig_chains_from(fulls: Seq<FileV>, incs: Seq<FileV>) -> Seq<SigChainV>
    decreases incs.len(),
{
    if incs.len() == 0 { fulls.map_values(|f: FileV| new_sig_chain(f)) }
    else { place_sig(sig_chains_from(fulls, incs.drop_last()), incs.last(), 0) }
}
pub open spec fn full_sigs(fs: Seq<FileV>) -> Seq<FileV> { fs.filter(|f: FileV| f.tp is FullSig) }
pub open spec fn new_sigs(fs: Seq<FileV>) -> Seq<FileV> { fs.filter(|f: FileV| f.tp is NewSig) }
pub open spec fn fulls_sorted(a: Seq<FileV>, idx: Seq<int>) -> bool {
    forall|i: int, j: int| #![trigger a[i], a[j]] 0 <= i < j < a.len() ==>
        ts_lt(start_of(a[i].tp), start_of(a[j].tp)) || (start_of(a[i].tp) == start_of(a[j].tp) && idx[i] < idx[j])
}
pub open spec fn news_sorted(a: Seq<FileV>, idx: Seq<int>) -> bool {
    forall|i: int, j: int| #![trigger a[i], a[j]] 0 <= i < j < a.len() ==> {
        let (x, y) = (a[i].tp, a[j].tp);
        ||| ts_lt(start_of(x), start_of(y))
        ||| start_of(x) == start_of(y) && ts_lt(end_of(y), end_of(x))
        ||| start_of(x) == start_of(y) && end_of(x) == end_of(y) && idx[i] < idx[j]
    }
}
/// The signature chains a listing gives: one per full signature, in order of time, then the
/// incremental signatures by start time, the later-ending first, each to the first chain it continues.
pub open spec fn sig_chains_of(fs: Seq<FileV>, cs: Seq<SigChainV>) -> bool {
    exists|fulls: Seq<FileV>, incs: Seq<FileV>, x: Seq<int>, y: Seq<int>|
        #![trigger rearranged(fulls, full_sigs(fs), x), rearranged(incs, new_sigs(fs), y)] {
            &&& rearranged(fulls, full_sigs(fs), x) && fulls_sorted(fulls, x)
            &&& rearranged(incs, new_sigs(fs), y) && news_sorted(incs, y)
            &&& cs == sig_chains_from(fulls, incs)
        }
}
proof fn lemma_place_sig_skip(cs: Seq<SigChainV>, f: FileV, k: int)
    requires 0 <= k <= cs.len(), forall|i: int| 0 <= i < k ==> sig_end(#[trigger] cs[i]) != start_of(f.tp),
    ensures place_sig(cs, f, 0) == place_sig(cs, f, k),
    decreases k,
{
    if k > 0 {
        lemma_place_sig_skip(cs, f, k - 1);
        assert(sig_end(cs[k - 1]) != start_of(f.tp));
    }
}
//@ fn SignatureFile::from_file_and_info ret=r props=C04
//@ spec
    requires pr.tp is FullSig || pr.tp is NewSig,
    ensures r@ == (SigV { name: fname@, time: end_of(pr.tp), compressed: pr.compressed, encrypted: pr.encrypted }),
//@ fn SignatureFile::from_filename_info ret=r props=C04
//@ spec
    requires info.info.tp is FullSig || info.info.tp is NewSig,
    ensures r@ == sig_of(info@),
//@ fn SignatureChain::new ret=r props=C04
//@ spec
    requires pr.tp is FullSig || pr.tp is NewSig,
    ensures
        r@.full == (SigV { name: fname@, time: end_of(pr.tp), compressed: pr.compressed, encrypted: pr.encrypted }),
        r@.incs =~= Seq::<SigV>::empty(),
//@ fn SignatureChain::from_filename_info ret=r props=C04
//@ spec
    requires fname_info.info.tp is FullSig || fname_info.info.tp is NewSig,
    ensures r@ == new_sig_chain(fname_info@),
//@ fn SignatureChain::add_new_sig ret=r props=C04
//@ spec
    ensures
        r == (fname.info.tp is NewSig),
        final(self)@ == (if r { SigChainV { incs: old(self)@.incs.push(sig_of(fname@)), ..old(self)@ } } else { old(self)@ }),
//@ call push after
            proof { assert(self@.incs =~= old(self)@.incs.push(sig_of(fname@))); }
//@ verus
spec fn file_refs<'b, 'a>(s: &'b [FileNameInfo<'a>]) -> Seq<&'b FileNameInfo<'a>> { Seq::new(s@.len(), |i: int| &s@[i]) }
spec fn ref_views<'b, 'a>(s: Seq<&'b FileNameInfo<'a>>) -> Seq<FileV> { s.map_values(|f: &'b FileNameInfo<'a>| f@) }
spec fn is_full_sig<'b, 'a>() -> spec_fn(&'b FileNameInfo<'a>) -> bool { |f: &'b FileNameInfo<'a>| f.info.tp is FullSig }
spec fn is_new_sig<'b, 'a>() -> spec_fn(&'b FileNameInfo<'a>) -> bool { |f: &'b FileNameInfo<'a>| f.info.tp is NewSig }
proof fn lemma_sigs<'b, 'a>(s: &'b [FileNameInfo<'a>])
    ensures
        ref_views(file_refs(s).filter(is_full_sig())) == full_sigs(files(s@)),
        ref_views(file_refs(s).filter(is_new_sig())) == new_sigs(files(s@)),
{
    let m = |f: &'b FileNameInfo<'a>| f@;
    assert(file_refs(s).map_values(m) =~= files(s@));
    lemma_filter_mapped(file_refs(s), m, is_full_sig(), |f: FileV| f.tp is FullSig);
    lemma_filter_mapped(file_refs(s), m, is_new_sig(), |f: FileV| f.tp is NewSig);
}
/// The chains are in order of their full signatures, by rearrangement x.
pub open spec fn chains_sorted(a: Seq<SigChainV>, idx: Seq<int>) -> bool {
    forall|i: int, j: int| #![trigger a[i], a[j]] 0 <= i < j < a.len() ==>
        ts_lt(a[i].full.time, a[j].full.time) || (a[i].full.time == a[j].full.time && idx[i] < idx[j])
}
pub open spec fn pick<T>(s: Seq<T>, idx: Seq<int>) -> Seq<T> { Seq::new(idx.len(), |i: int| s[idx[i]]) }
proof fn lemma_filter_holds<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures forall|i: int| 0 <= i < s.filter(p).len() ==> p(#[trigger] s.filter(p)[i]),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 { lemma_filter_holds(s.drop_last(), p); }
}
proof fn lemma_fulls(fl: Seq<FileV>, unsorted: Seq<SigChainV>, sorted: Seq<SigChainV>, x: Seq<int>)
    requires
        unsorted.len() == fl.len(),
        forall|i: int| 0 <= i < fl.len() ==> #[trigger] unsorted[i] == new_sig_chain(fl[i]),
        forall|i: int| 0 <= i < fl.len() ==> (#[trigger] fl[i]).tp is FullSig,
        rearranged(sorted, unsorted, x), chains_sorted(sorted, x),
    ensures
        rearranged(pick(fl, x), fl, x), fulls_sorted(pick(fl, x), x),
        sorted == sig_chains_from(pick(fl, x), Seq::empty()),
{
    let fulls = pick(fl, x);
    assert forall|i: int| 0 <= i < sorted.len() implies #[trigger] sorted[i] == new_sig_chain(fulls[i]) by {
        assert(x[i] == x[i]);
        assert(unsorted[x[i]] == new_sig_chain(fl[x[i]]));
    }
    assert(sorted =~= fulls.map_values(|f: FileV| new_sig_chain(f)));
    assert forall|i: int, j: int| #![trigger fulls[i], fulls[j]] 0 <= i < j < fulls.len() implies
        ts_lt(start_of(fulls[i].tp), start_of(fulls[j].tp)) || (start_of(fulls[i].tp) == start_of(fulls[j].tp) && x[i] < x[j]) by {
        assert(sorted[i].full.time == end_of(fl[x[i]].tp) && sorted[j].full.time == end_of(fl[x[j]].tp));
    }
}
/// The first k chains do not end where the signature starts.
#[verifier::prophetic]
spec fn not_ending(refs: Seq<&mut SignatureChain>, cs: Seq<SignatureChain>, k: int, t: Timespec) -> bool {
    forall|i: int| 0 <= i < k ==> (*final(#[trigger] refs[i]))@ == cs[i]@ && sig_end(cs[i]@) != t
}
//@ fn compute_signature_chains ret=r loops=2 props=C04,C15
//@ spec
    ensures sig_chains_of(files(fname_infos@), sig_chain_views(r@)),
//@ start
    broadcast use lemma_filter_indices;
    let ghost fl = file_refs(fname_infos).filter(is_full_sig());
    let ghost nl = file_refs(fname_infos).filter(is_new_sig());
    proof {
        assert(file_refs(fname_infos).take(fname_infos@.len() as int) =~= file_refs(fname_infos));
        lemma_sigs(fname_infos);
    }
//@ closure 0 params 1
|f: &&FileNameInfo| -> (b: bool)
//@ closure 0 spec
    ensures b == (f.info.tp is FullSig)
//@ let sig_chains after
    let ghost unsorted = sig_chains@;
    proof {
        assert(unsorted.len() == fl.len());
        assert(forall|i: int| 0 <= i < fl.len() ==> (#[trigger] unsorted[i])@ == new_sig_chain(fl[i]@));
    }
//@ closure 1 params 2
|a: &SignatureChain, b: &SignatureChain| -> (o: Ordering)
//@ closure 1 spec
    ensures o == ts_cmp(a@.full.time, b@.full.time)
//@ call sort_by after
    let ghost x = choose|x: Seq<int>| #![trigger rearranged(sig_chains.items(), unsorted, x)]
        rearranged(sig_chains.items(), unsorted, x) && chains_sorted(sig_chain_views(sig_chains@), x);
    let ghost fulls = pick(ref_views(fl), x);
    proof { lemma_fulls(ref_views(fl), sig_chain_views(unsorted), sig_chain_views(sig_chains@), x); }
//@ closure 2 params 1
|f: &&FileNameInfo| -> (b: bool)
//@ closure 2 spec
    ensures b == (f.info.tp is NewSig)
//@ let is after
            proof { assert(is@ == nl); }
//@ closure 3 params 2
|a: &&FileNameInfo, b: &&FileNameInfo| -> (o: Ordering)
//@ closure 3 spec
    ensures o == (if ts_cmp(start_of(a.info.tp), start_of(b.info.tp)) == Ordering::Equal { ts_cmp(end_of(b.info.tp), end_of(a.info.tp)) } else { ts_cmp(start_of(a.info.tp), start_of(b.info.tp)) })
//@ call sort_by#1 after
        proof {
            let y = choose|y: Seq<int>| #![trigger rearranged(is.items(), nl, y)]
                rearranged(is.items(), nl, y) && news_sorted(ref_views(is@), y);
            assert(rearranged(ref_views(is@), ref_views(nl), y));
        }
//@ let inc_sigs after
    let ghost refs0 = inc_sigs@;
    let ghost incs = ref_views(refs0);
    let ghost y = choose|y: Seq<int>| #[trigger] rearranged(incs, ref_views(nl), y) && news_sorted(incs, y);
    proof {
        assert(incs.take(0) =~= Seq::empty());
        assert forall|i: int| 0 <= i < refs0.len() implies (#[trigger] refs0[i]).info.tp is NewSig by {
            assert(incs[i] == ref_views(nl)[y[i]]);
            lemma_filter_holds(file_refs(fname_infos), is_new_sig());
        }
    }
//@ loop 0 iter it
//@ loop 0 spec
        invariant
            it.seq() == refs0,
            incs == ref_views(refs0),
            forall|i: int| 0 <= i < refs0.len() ==> (#[trigger] refs0[i]).info.tp is NewSig,
            sig_chain_views(sig_chains@) == sig_chains_from(fulls, incs.take(it.index@)),
//@ loop 0 body-start
            let ghost old_chains = sig_chains@;
            let ghost mut k = 0int;
            let ghost f = inc@;
            proof {
                assert(incs.take(it.index@ + 1).drop_last() =~= incs.take(it.index@));
                assert(incs.take(it.index@ + 1).last() == f);
            }
//@ loop 1 desugar rest
            let ghost refs = rest.remaining();
//@ loop 1 spec
                invariant_except_break
                    rest.remaining() == refs.skip(k),
                    not_ending(refs, old_chains, k, start_of(f.tp)),
                invariant
                    refs.len() == old_chains.len(),
                    0 <= k <= refs.len(),
                    f == inc@,
                    f.tp is NewSig,
                    rest.obeys_prophetic_iter_laws(),
                    forall|i: int| 0 <= i < refs.len() ==> *(#[trigger] refs[i]) == old_chains[i],
                ensures
                    not_ending(refs, old_chains, k, start_of(f.tp)),
                    k < refs.len() ==> sig_end(old_chains[k]@) == start_of(f.tp)
                        && (*final(refs[k]))@ == (SigChainV { incs: old_chains[k]@.incs.push(sig_of(f)), ..old_chains[k]@ }) && rest.remaining() == refs.skip(k + 1),
                decreases old_chains.len() - k,
//@ loop 1 body-start
                proof { assert(chain == refs[k]); }
//@ loop 1 body-end
                proof { k = k + 1; }
//@ loop 1 after
            proof {
                assert(has_resolved(rest));
                assert forall|i: int| k < i < refs.len() implies *final(#[trigger] refs[i]) == old_chains[i] by {
                    assert(refs[i] == rest.remaining()[i - k - 1]);
                }
                let (o, n) = (sig_chain_views(old_chains), sig_chain_views(sig_chains@));
                assert(n.len() == o.len());
                assert forall|i: int| 0 <= i < k implies sig_end(#[trigger] o[i]) != start_of(f.tp) by { assert(*refs[i] == old_chains[i]); }
                lemma_place_sig_skip(o, f, k);
                if k < old_chains.len() {
                    assert(n =~= o.update(k, SigChainV { incs: o[k].incs.push(sig_of(f)), ..o[k] }));
                } else {
                    assert(n =~= o);
                }
            }
//@ loop 0 after
    proof { assert(incs.take(incs.len() as int) =~= incs); }
//@ verus
// ---------------------------------------------------------------- the collection
/// The recognised file of a name.
spec fn file_of(name: Option<Seq<char>>) -> Option<FileV> {
    match name {
        Some(n) => match recognised(n) { Some(i) => Some(FileV { name: n, tp: i.tp, compressed: i.compressed, encrypted: i.encrypted }), None => None },
        None => None,
    }
}
/// The names of a listing.
spec fn names_of<E: AsRef<Path>>(s: Seq<E>) -> Seq<Option<Seq<char>>> { s.map_values(|e: E| path_text(e.as_ref_spec())) }
/// The recognised files of a listing, in its order.
spec fn files_of(names: Seq<Option<Seq<char>>>) -> Seq<FileV> { somes(names.map_values(|n: Option<Seq<char>>| file_of(n))) }
spec fn texts_of<'a, E: AsRef<Path>>(items: Seq<&'a E>, os: Seq<Option<&'a str>>) -> bool {
    os.len() == items.len() && forall|i: int| 0 <= i < os.len() ==>
        match #[trigger] os[i] { Some(s) => path_text(items[i].as_ref_spec()) == Some(s@), None => path_text(items[i].as_ref_spec()) is None }
}
spec fn infos_of<'a>(items: Seq<&'a str>, is: Seq<Option<FileNameInfo<'a>>>) -> bool {
    is.len() == items.len() && forall|i: int| 0 <= i < is.len() ==>
        match #[trigger] is[i] { Some(f) => file_of(Some(items[i]@)) == Some(f@), None => file_of(Some(items[i]@)) is None }
}
/// Names that are no text and names that are not recognised leave no trace.
proof fn lemma_infos<'a, E: AsRef<Path>>(items: Seq<&'a E>, os: Seq<Option<&'a str>>, is: Seq<Option<FileNameInfo<'a>>>)
    requires texts_of(items, os), infos_of(somes(os), is),
    ensures files(somes(is)) == files_of(items.map_values(|e: &'a E| path_text(e.as_ref_spec()))),
    decreases items.len(),
{
    let t = |e: &'a E| path_text(e.as_ref_spec());
    let g = |n: Option<Seq<char>>| file_of(n);
    if items.len() > 0 {
        let (r, q) = (items.drop_last(), os.drop_last());
        assert(items.map_values(t).map_values(g).drop_last() =~= r.map_values(t).map_values(g));
        assert(os[os.len() - 1] == os.last());
        match os.last() {
            Some(s) => {
                assert(is.len() == somes(q).len() + 1);
                assert(is[is.len() - 1] == is.last());
                assert(somes(os)[is.len() - 1] == s);
                let js = is.drop_last();
                assert forall|i: int| 0 <= i < js.len() implies match #[trigger] js[i] { Some(f) => file_of(Some(somes(q)[i]@)) == Some(f@), None => file_of(Some(somes(q)[i]@)) is None } by {
                    assert(is[i] == js[i]);
                    assert(somes(os)[i] == somes(q)[i]);
                }
                lemma_infos(r, q, js);
                match is.last() {
                    Some(f) => { assert(files(somes(js).push(f)) =~= files(somes(js)).push(f@)); }
                    None => {}
                }
            }
            None => { lemma_infos(r, q, is); }
        }
    } else {
        assert(somes(os).len() == 0);
        assert(files(somes(is)) =~= Seq::empty());
        assert(items.map_values(t).map_values(g).len() == 0);
    }
}
//@ fn compute_filename_infos ret=r props=C02,C03,C04,C15
//@ spec
    ensures
        exists|it: I::IntoIter| {
            &&& #[trigger] call_ensures(<I as IntoIterator>::into_iter, (filenames,), it)
            &&& it.obeys_prophetic_iter_laws() ==> files(r@) == files_of(it.remaining().map_values(|e: &'a E| path_text(e.as_ref_spec())))
        },
//@ tail
    proof {
        assert forall|items: Seq<&'a E>, os: Seq<Option<&'a str>>, is: Seq<Option<FileNameInfo<'a>>>|
            #[trigger] mapped(items, os) && #[trigger] mapped(somes(os), is) && texts_of(items, os) && infos_of(somes(os), is)
            implies files(somes(is)) == files_of(items.map_values(|e: &'a E| path_text(e.as_ref_spec()))) by {
            lemma_infos(items, os, is);
        }
    }
//@ closure 0 params 1
|path: &'a E| -> (o: Option<&'a str>)
//@ closure 0 spec
    ensures match o { Some(s) => path_text(path.as_ref_spec()) == Some(s@), None => path_text(path.as_ref_spec()) is None }
//@ closure 1 params 1
|name: &'a str| -> (o: Option<FileNameInfo<'a>>)
//@ closure 1 spec
    ensures match o { Some(i) => file_of(Some(name@)) == Some(i@), None => file_of(Some(name@)) is None }
//@ verus
/// The collection of a listing.
spec fn collection_of(names: Seq<Option<Seq<char>>>, c: CollV) -> bool {
    backup_chains_of(files_of(names), c.backups) && sig_chains_of(files_of(names), c.sigs)
}
//@ fn Collections::new ret=r props=C05
//@ spec
    ensures r@.backups.len() == 0, r@.sigs.len() == 0,
//@ include coll_new.vc
//@ verus
// ---------------------------------------------------------------- the theorems
proof fn lemma_rearranged_same<T>(a: Seq<T>, b: Seq<T>, idx: Seq<int>)
    requires rearranged(a, b, idx),
    ensures forall|x: T| a.contains(x) <==> b.contains(x),
{
    assert forall|x: T| a.contains(x) implies b.contains(x) by {
        let i = choose|i: int| 0 <= i < a.len() && a[i] == x;
        assert(b[idx[i]] == x);
    }
    assert forall|x: T| b.contains(x) implies a.contains(x) by {
        let k = choose|k: int| 0 <= k < b.len() && b[k] == x;
        lemma_rearranged_onto(a, b, idx, k);
        let i = choose|i: int| 0 <= i < idx.len() && idx[i] == k;
        assert(a[i] == b[idx[i]]);
    }
}
pub open spec fn in_set(fs: Seq<FileV>, j: int, tp: Type) -> bool { 0 <= j < fs.len() && set_type(fs[j].tp) == tp }
/// Some file of the set has the property.
pub open spec fn some_file(fs: Seq<FileV>, tp: Type, p: spec_fn(FileV) -> bool) -> bool { exists|j: int| #[trigger] in_set(fs, j, tp) && p(fs[j]) }
pub open spec fn has_volume(n: usize) -> spec_fn(FileV) -> bool { |f: FileV| volume_of(f.tp) == Some(n) }
pub open spec fn is_volume(n: usize, name: Seq<char>) -> spec_fn(FileV) -> bool { |f: FileV| volume_of(f.tp) == Some(n) && f.name == name }
pub open spec fn a_manifest() -> spec_fn(FileV) -> bool { |f: FileV| manifest_kind(f.tp) }
pub open spec fn is_manifest(name: Seq<char>) -> spec_fn(FileV) -> bool { |f: FileV| manifest_kind(f.tp) && f.name == name }
/// The set reports exactly what its files say.
pub open spec fn faithful(s: SetV, fs: Seq<FileV>) -> bool {
    &&& forall|n: usize| #[trigger] s.volumes.dom().contains(n) <==> some_file(fs, s.tp, has_volume(n))
    &&& forall|n: usize| #[trigger] s.volumes.dom().contains(n) ==> some_file(fs, s.tp, is_volume(n, s.volumes[n]))
    &&& s.volumes.dom().len() <= fs.len()
    &&& some_file(fs, s.tp, a_manifest()) ==> some_file(fs, s.tp, is_manifest(s.manifest))
    &&& !some_file(fs, s.tp, a_manifest()) ==> s.manifest.len() == 0
    &&& s.compressed == some_file(fs, s.tp, |f: FileV| f.compressed)
    &&& s.encrypted == some_file(fs, s.tp, |f: FileV| f.encrypted)
    &&& s.partial == some_file(fs, s.tp, |f: FileV| partial_of(f.tp))
}
proof fn lemma_some_file_push(fs: Seq<FileV>, tp: Type, p: spec_fn(FileV) -> bool)
    requires fs.len() > 0,
    ensures some_file(fs, tp, p) == (some_file(fs.drop_last(), tp, p) || (set_type(fs.last().tp) == tp && p(fs.last()))),
{
    let r = fs.drop_last();
    let n = fs.len() - 1;
    if some_file(r, tp, p) {
        let j = choose|j: int| #[trigger] in_set(r, j, tp) && p(r[j]);
        assert(in_set(fs, j, tp) && p(fs[j]));
    }
    if set_type(fs.last().tp) == tp && p(fs.last()) { assert(in_set(fs, n, tp) && p(fs[n])); }
    if some_file(fs, tp, p) {
        let j = choose|j: int| #[trigger] in_set(fs, j, tp) && p(fs[j]);
        if j < n { assert(in_set(r, j, tp) && p(r[j])); }
    }
}
proof fn lemma_set_of_faithful(tp: Type, fs: Seq<FileV>)
    ensures faithful(set_of(tp, fs), fs), set_of(tp, fs).tp == tp,
    decreases fs.len(),
{
    lemma_set_of_type(tp, fs);
    let s = set_of(tp, fs);
    if fs.len() > 0 {
        let r = fs.drop_last();
        let f = fs.last();
        let o = set_of(tp, r);
        lemma_set_of_faithful(tp, r);
        assert forall|n: usize| #[trigger] s.volumes.dom().contains(n) <==> some_file(fs, s.tp, has_volume(n)) by {
            lemma_some_file_push(fs, tp, has_volume(n));
            assert(o.volumes.dom().contains(n) <==> some_file(r, tp, has_volume(n)));
        }
        assert forall|n: usize| #[trigger] s.volumes.dom().contains(n) implies some_file(fs, s.tp, is_volume(n, s.volumes[n])) by {
            lemma_some_file_push(fs, tp, is_volume(n, s.volumes[n]));
            if set_type(f.tp) == tp && volume_of(f.tp) == Some(n) {} else {
                assert(o.volumes.dom().contains(n) && o.volumes[n] == s.volumes[n]);
            }
        }
        lemma_some_file_push(fs, tp, a_manifest());
        lemma_some_file_push(fs, tp, is_manifest(s.manifest));
        lemma_some_file_push(fs, tp, |f: FileV| f.compressed);
        lemma_some_file_push(fs, tp, |f: FileV| f.encrypted);
        lemma_some_file_push(fs, tp, |f: FileV| partial_of(f.tp));
    } else {
        assert forall|p: spec_fn(FileV) -> bool| !#[trigger] some_file(fs, tp, p) by {}
        assert forall|n: usize| !#[trigger] s.volumes.dom().contains(n) && !some_file(fs, s.tp, has_volume(n)) by {}
    }
}
/// C02: every recognised file is in exactly one set, that of its kind and times, and every set
/// reports exactly the volumes, the manifest and the marks of its files.
proof fn theorem_sets(fs: Seq<FileV>, sets: Seq<SetV>)
    requires grouped(fs, sets),
    ensures
        forall|j: int| 0 <= j < fs.len() ==> exists|i: int| 0 <= i < sets.len() && (#[trigger] sets[i]).tp == set_type(#[trigger] fs[j].tp),
        forall|i: int, j: int| 0 <= i < sets.len() && 0 <= j < sets.len() && (#[trigger] sets[i]).tp == (#[trigger] sets[j]).tp ==> i == j,
        forall|i: int| 0 <= i < sets.len() ==> faithful(#[trigger] sets[i], fs),
{
    assert forall|j: int| 0 <= j < fs.len() implies exists|i: int| 0 <= i < sets.len() && (#[trigger] sets[i]).tp == set_type(#[trigger] fs[j].tp) by {
        assert(has_set(sets, set_type(fs[j].tp)));
    }
    assert forall|i: int| 0 <= i < sets.len() implies faithful(#[trigger] sets[i], fs) by {
        assert(sets[i] == set_of(sets[i].tp, fs));
        lemma_set_of_faithful(sets[i].tp, fs);
    }
}

// ---- C03
/// The p-th set of a chain.
pub open spec fn member(c: ChainV, p: int) -> SetV { if p <= 0 { c.full } else { c.incs[p - 1] } }
pub open spec fn is_member(cs: Seq<ChainV>, i: int, p: int) -> bool { 0 <= i < cs.len() && 0 <= p <= cs[i].incs.len() }
pub open spec fn contiguous(c: ChainV) -> bool {
    &&& c.full.tp is Full
    &&& forall|p: int| 1 <= p <= c.incs.len() ==> #[trigger] member(c, p).tp is Inc && set_start(member(c, p).tp) == set_end(member(c, p - 1).tp)
    &&& c.start == set_start(c.full.tp)
    &&& c.end == set_end(member(c, c.incs.len() as int).tp)
}
pub open spec fn in_chains(cs: Seq<ChainV>, s: SetV) -> bool { exists|i: int, p: int| #[trigger] is_member(cs, i, p) && member(cs[i], p) == s }
/// No set is in two places.
pub open spec fn disjoint(cs: Seq<ChainV>) -> bool {
    forall|i: int, p: int, j: int, q: int| #[trigger] is_member(cs, i, p) && #[trigger] is_member(cs, j, q)
        && member(cs[i], p).tp == member(cs[j], q).tp ==> i == j && p == q
}
pub open spec fn fulls_of(cs: Seq<ChainV>) -> Seq<SetV> { cs.map_values(|c: ChainV| c.full) }
pub open spec fn full_sets(sets: Seq<SetV>) -> Seq<SetV> { sets.filter(|s: SetV| s.tp is Full) }
/// An incremental set that some chain would take.
pub open spec fn continues(cs: Seq<ChainV>, s: SetV) -> bool { exists|i: int| 0 <= i < cs.len() && with_inc(#[trigger] cs[i], s) is Some }
/// A later-ending set with the same start took its place.
pub open spec fn superseded(sets: Seq<SetV>, m: int) -> bool {
    exists|k: int| m < k < sets.len() && (#[trigger] sets[k]).tp is Inc && set_start(sets[k].tp) == set_start(sets[m].tp) && ts_lt(set_end(sets[m].tp), set_end(sets[k].tp))
}
/// What holds of the chains made of the sets.
pub open spec fn chained_well(sets: Seq<SetV>, cs: Seq<ChainV>) -> bool {
    &&& forall|i: int| 0 <= i < cs.len() ==> contiguous(#[trigger] cs[i])
    &&& members_in(cs, sets)
    &&& disjoint(cs)
    &&& forall|m: int| 0 <= m < sets.len() && (#[trigger] sets[m]).tp is Full ==> in_chains(cs, sets[m])
    &&& forall|m: int| 0 <= m < sets.len() && (#[trigger] sets[m]).tp is Inc ==>
            in_chains(cs, sets[m]) || superseded(sets, m) || !continues(chains_of(sets.take(m)), sets[m])
}
/// place: the chain it goes to, if any
proof fn lemma_place_at(cs: Seq<ChainV>, s: SetV, k: int) -> (i: int)
    requires 0 <= k <= cs.len(),
    ensures
        k <= i <= cs.len(),
        i < cs.len() ==> with_inc(cs[i], s) is Some && place(cs, s, k) == cs.update(i, with_inc(cs[i], s)->Some_0),
        i == cs.len() ==> place(cs, s, k) == cs,
        forall|j: int| k <= j < i ==> with_inc(#[trigger] cs[j], s) is None,
    decreases cs.len() - k,
{
    if k == cs.len() { k } else if with_inc(cs[k], s) is Some { k } else { lemma_place_at(cs, s, k + 1) }
}
proof fn lemma_with_inc(c: ChainV, s: SetV)
    requires contiguous(c), with_inc(c, s) is Some,
    ensures ({
        let n = with_inc(c, s)->Some_0;
        let l = n.incs.len() as int;
        &&& contiguous(n) && n.full == c.full && l >= 1 && member(n, l) == s
        &&& l == c.incs.len() || l == c.incs.len() + 1
        &&& forall|p: int| 0 <= p < l ==> #[trigger] member(n, p) == member(c, p)
        &&& l == c.incs.len() ==> member(c, l).tp is Inc && set_start(member(c, l).tp) == set_start(s.tp) && ts_lt(set_end(member(c, l).tp), set_end(s.tp))
    }),
{
    let n = with_inc(c, s)->Some_0;
    let l = n.incs.len() as int;
    assert forall|p: int| 0 <= p < l implies #[trigger] member(n, p) == member(c, p) by {}
    if l == c.incs.len() {
        assert(member(c, l).tp is Inc);
        assert(c.incs.last() == member(c, l));
        assert(set_start(member(c, l).tp) == set_end(member(c, l - 1).tp));
    }
    assert(member(n, l) == s);
    assert forall|p: int| 1 <= p <= l implies #[trigger] member(n, p).tp is Inc && set_start(member(n, p).tp) == set_end(member(n, p - 1).tp) by {
        if p < l { assert(member(c, p).tp is Inc); }
        assert(member(n, p - 1) == member(c, p - 1));
        if p == l && l == c.incs.len() + 1 { assert(c.end == set_end(member(c, c.incs.len() as int).tp)); }
    }
}
pub open spec fn distinct_sets(sets: Seq<SetV>) -> bool {
    forall|i: int, j: int| 0 <= i < sets.len() && 0 <= j < sets.len() && (#[trigger] sets[i]).tp == (#[trigger] sets[j]).tp ==> i == j
}
proof fn lemma_chained_push(sets: Seq<SetV>, cs: Seq<ChainV>, new: Seq<ChainV>)
    requires
        sets.len() > 0, distinct_sets(sets), chained_well(sets.drop_last(), cs), cs == chains_of(sets.drop_last()),
        sets.last().tp is Full, new == cs.push(new_chain(sets.last())),
    ensures chained_well(sets, new),
{
    let r = sets.drop_last();
    let s = sets.last();
    let l = cs.len() as int;
    assert forall|i: int| 0 <= i < new.len() implies contiguous(#[trigger] new[i]) by { if i < l { assert(new[i] == cs[i]); } }
    assert forall|i: int, p: int| #[trigger] is_member(new, i, p) implies sets.contains(member(new[i], p)) by {
        if i < l {
            assert(is_member(cs, i, p));
            let m = choose|m: int| 0 <= m < r.len() && r[m] == member(cs[i], p);
            assert(sets[m] == r[m]);
        } else { assert(sets[sets.len() - 1] == s); }
    }
    assert forall|i: int, p: int, j: int, q: int| #[trigger] is_member(new, i, p) && #[trigger] is_member(new, j, q)
        && member(new[i], p).tp == member(new[j], q).tp implies i == j && p == q by {
        lemma_fresh(sets, cs);
        if i < l { assert(is_member(cs, i, p)); }
        if j < l { assert(is_member(cs, j, q)); }
    }
    assert forall|m: int| 0 <= m < sets.len() && (in_chains(cs, #[trigger] sets[m]) || m == r.len()) implies in_chains(new, sets[m]) by {
        if m == r.len() { assert(is_member(new, l, 0) && member(new[l], 0) == s); }
        else {
            let (i, p) = choose|i: int, p: int| #[trigger] is_member(cs, i, p) && member(cs[i], p) == sets[m];
            assert(is_member(new, i, p) && member(new[i], p) == sets[m]);
        }
    }
    assert forall|m: int| 0 <= m < sets.len() && (#[trigger] sets[m]).tp is Full implies in_chains(new, sets[m]) by { if m < r.len() { assert(r[m].tp is Full); } }
    assert forall|m: int| 0 <= m < sets.len() && (#[trigger] sets[m]).tp is Inc implies
        in_chains(new, sets[m]) || superseded(sets, m) || !continues(chains_of(sets.take(m)), sets[m]) by {
        lemma_left(sets, cs, m);
    }
}
/// the last set is in no chain made of the others
proof fn lemma_fresh(sets: Seq<SetV>, cs: Seq<ChainV>)
    requires sets.len() > 0, distinct_sets(sets), chained_well(sets.drop_last(), cs),
    ensures forall|i: int, p: int| #[trigger] is_member(cs, i, p) ==> member(cs[i], p).tp != sets.last().tp,
{
    assert forall|i: int, p: int| #[trigger] is_member(cs, i, p) implies member(cs[i], p).tp != sets.last().tp by {
        let r = sets.drop_last();
        let m = choose|m: int| 0 <= m < r.len() && r[m] == member(cs[i], p);
        assert(sets[m].tp != sets[sets.len() - 1].tp);
    }
}
proof fn lemma_left(sets: Seq<SetV>, cs: Seq<ChainV>, m: int)
    requires sets.len() > 0, 0 <= m < sets.len() - 1, sets[m].tp is Inc, chained_well(sets.drop_last(), cs),
    ensures in_chains(cs, sets[m]) || superseded(sets, m) || !continues(chains_of(sets.take(m)), sets[m]),
{
    let r = sets.drop_last();
    assert(r[m] == sets[m]);
    assert(r.take(m) =~= sets.take(m));
    if superseded(r, m) {
        let k = choose|k: int| m < k < r.len() && (#[trigger] r[k]).tp is Inc && set_start(r[k].tp) == set_start(r[m].tp) && ts_lt(set_end(r[m].tp), set_end(r[k].tp));
        assert(sets[k] == r[k]);
    }
}
/// Chain x took set s: where the members of the chains come from.
pub open spec fn taken(cs: Seq<ChainV>, new: Seq<ChainV>, s: SetV, x: int) -> bool {
    &&& 0 <= x < cs.len() && new.len() == cs.len()
    &&& forall|i: int, p: int| #[trigger] is_member(new, i, p) ==>
        (if i == x && p == new[x].incs.len() { member(new[i], p) == s } else { is_member(cs, i, p) && member(new[i], p) == member(cs[i], p) })
    &&& is_member(new, x, new[x].incs.len() as int)
    &&& forall|i: int, p: int| #[trigger] is_member(cs, i, p) ==>
        is_member(new, i, p) && (if i == x && p == new[x].incs.len() {
            member(cs[i], p).tp is Inc && set_start(member(cs[i], p).tp) == set_start(s.tp) && ts_lt(set_end(member(cs[i], p).tp), set_end(s.tp))
        } else { member(new[i], p) == member(cs[i], p) })
}
proof fn lemma_taken(cs: Seq<ChainV>, s: SetV, x: int)
    requires 0 <= x < cs.len(), contiguous(cs[x]), with_inc(cs[x], s) is Some,
    ensures taken(cs, cs.update(x, with_inc(cs[x], s)->Some_0), s, x),
{
    let new = cs.update(x, with_inc(cs[x], s)->Some_0);
    lemma_with_inc(cs[x], s);
    let l = new[x].incs.len() as int;
    assert forall|i: int, p: int| #[trigger] is_member(cs, i, p) implies
        is_member(new, i, p) && (if i == x && p == l {
            member(cs[i], p).tp is Inc && set_start(member(cs[i], p).tp) == set_start(s.tp) && ts_lt(set_end(member(cs[i], p).tp), set_end(s.tp))
        } else { member(new[i], p) == member(cs[i], p) }) by {
        if i == x && p != l { assert(member(new[x], p) == member(cs[x], p)); }
    }
    assert forall|i: int, p: int| #[trigger] is_member(new, i, p) implies
        (if i == x && p == l { member(new[i], p) == s } else { is_member(cs, i, p) && member(new[i], p) == member(cs[i], p) }) by {
        if i == x && p != l { assert(member(new[x], p) == member(cs[x], p)); }
    }
}
pub open spec fn members_in(cs: Seq<ChainV>, sets: Seq<SetV>) -> bool {
    forall|i: int, p: int| #[trigger] is_member(cs, i, p) ==> sets.contains(member(cs[i], p))
}
proof fn lemma_taken_members(sets: Seq<SetV>, cs: Seq<ChainV>, new: Seq<ChainV>, x: int)
    requires
        sets.len() > 0, members_in(cs, sets.drop_last()), disjoint(cs), taken(cs, new, sets.last(), x),
        forall|i: int, p: int| #[trigger] is_member(cs, i, p) ==> member(cs[i], p).tp != sets.last().tp,
    ensures members_in(new, sets), disjoint(new),
{
    let r = sets.drop_last();
    let last = sets.len() - 1;
    assert(sets[last] == sets.last());
    assert forall|i: int, p: int| #[trigger] is_member(new, i, p) implies sets.contains(member(new[i], p)) by {
        if i == x && p == new[x].incs.len() {} else {
            assert(is_member(cs, i, p));
            let m = choose|m: int| 0 <= m < r.len() && r[m] == member(cs[i], p);
            assert(sets[m] == r[m]);
        }
    }
    assert forall|i: int, p: int, j: int, q: int| #[trigger] is_member(new, i, p) && #[trigger] is_member(new, j, q)
        && member(new[i], p).tp == member(new[j], q).tp implies i == j && p == q by {
        let a = i == x && p == new[x].incs.len();
        let b = j == x && q == new[x].incs.len();
        if !a { assert(is_member(cs, i, p)); }
        if !b { assert(is_member(cs, j, q)); }
    }
}
proof fn lemma_taken_stays(sets: Seq<SetV>, cs: Seq<ChainV>, new: Seq<ChainV>, x: int, m: int)
    requires
        sets.len() > 0, taken(cs, new, sets.last(), x), sets.last().tp is Inc,
        0 <= m < sets.len() - 1, in_chains(cs, sets[m]),
    ensures in_chains(new, sets[m]) || (sets[m].tp is Inc && superseded(sets, m)),
{
    let last = sets.len() - 1;
    let (i, p) = choose|i: int, p: int| #[trigger] is_member(cs, i, p) && member(cs[i], p) == sets[m];
    assert(is_member(new, i, p));
    if i == x && p == new[x].incs.len() {
        assert(sets[last].tp is Inc);
        assert(superseded(sets, m));
    } else {
        assert(member(new[i], p) == sets[m]);
    }
}
#[verifier::spinoff_prover]
proof fn lemma_chained_place(sets: Seq<SetV>, cs: Seq<ChainV>, new: Seq<ChainV>)
    requires
        sets.len() > 0, distinct_sets(sets), chained_well(sets.drop_last(), cs), cs == chains_of(sets.drop_last()),
        sets.last().tp is Inc, new == place(cs, sets.last(), 0),
    ensures chained_well(sets, new),
{
    hide(disjoint);
    hide(contiguous);
    let r = sets.drop_last();
    let s = sets.last();
    let x = lemma_place_at(cs, s, 0);
    let last = sets.len() - 1;
    assert(sets.take(last) =~= r);
    assert(sets[last] == s);
    lemma_fresh(sets, cs);
    assert(members_in(cs, r));
    if x < cs.len() {
        lemma_with_inc(cs[x], s);
        lemma_taken(cs, s, x);
        lemma_taken_members(sets, cs, new, x);
        assert forall|i: int| 0 <= i < new.len() implies contiguous(#[trigger] new[i]) by { if i != x { assert(new[i] == cs[i]); } }
        assert(in_chains(new, s)) by {
            let l = new[x].incs.len() as int;
            assert(is_member(new, x, l) && member(new[x], l) == s);
        }
    } else {
        assert forall|i: int, p: int| #[trigger] is_member(cs, i, p) implies sets.contains(member(cs[i], p)) by {
            let m = choose|m: int| 0 <= m < r.len() && r[m] == member(cs[i], p);
            assert(sets[m] == r[m]);
        }
    }
    assert(members_in(new, sets));
    assert forall|m: int| 0 <= m < sets.len() && (#[trigger] sets[m]).tp is Full implies in_chains(new, sets[m]) by {
        assert(r[m] == sets[m]);
        if x < cs.len() { lemma_taken_stays(sets, cs, new, x, m); }
    }
    assert forall|m: int| 0 <= m < sets.len() && (#[trigger] sets[m]).tp is Inc implies
        in_chains(new, sets[m]) || superseded(sets, m) || !continues(chains_of(sets.take(m)), sets[m]) by {
        if m < last {
            lemma_left(sets, cs, m);
            if x < cs.len() && in_chains(cs, sets[m]) { lemma_taken_stays(sets, cs, new, x, m); }
        }
    }
}
proof fn lemma_chains_of(sets: Seq<SetV>)
    requires distinct_sets(sets),
    ensures
        chained_well(sets, chains_of(sets)),
        fulls_of(chains_of(sets)) == full_sets(sets),
    decreases sets.len(),
{
    reveal(Seq::filter);
    let cs = chains_of(sets);
    if sets.len() == 0 {
        assert(fulls_of(cs) =~= full_sets(sets));
    } else {
        let r = sets.drop_last();
        let s = sets.last();
        lemma_chains_of(r);
        if s.tp is Full {
            lemma_chained_push(sets, chains_of(r), cs);
            assert(fulls_of(cs) =~= fulls_of(chains_of(r)).push(s));
        } else {
            lemma_chained_place(sets, chains_of(r), cs);
            let x = lemma_place_at(chains_of(r), s, 0);
            assert(fulls_of(cs) =~= fulls_of(chains_of(r)));
        }
    }
}
/// C03: the chains of a listing (sets, the sets of the listing by end time; idx, how the chains
/// made of them are ordered).
proof fn theorem_chains(fs: Seq<FileV>, cs: Seq<ChainV>)
    requires backup_chains_of(fs, cs),
    ensures
        forall|i: int| 0 <= i < cs.len() ==> contiguous(#[trigger] cs[i]),
        forall|i: int, j: int| 0 <= i < j < cs.len() ==> ts_le((#[trigger] cs[i]).end, (#[trigger] cs[j]).end),
        disjoint(cs),
        exists|sets: Seq<SetV>| {
            &&& #[trigger] grouped(fs, sets) && by_end(sets)
            &&& forall|i: int, p: int| #[trigger] is_member(cs, i, p) ==> sets.contains(member(cs[i], p))
            // one chain per full set
            &&& cs.len() == full_sets(sets).len()
            &&& forall|m: int| 0 <= m < sets.len() && (#[trigger] sets[m]).tp is Full ==> in_chains(cs, sets[m])
            &&& forall|m: int| 0 <= m < sets.len() && (#[trigger] sets[m]).tp is Inc ==>
                    in_chains(cs, sets[m]) || superseded(sets, m) || !continues(chains_of(sets.take(m)), sets[m])
        },
{
    let (sets, idx) = choose|sets: Seq<SetV>, idx: Seq<int>| #![trigger grouped(fs, sets), rearranged(cs, chains_of(sets), idx)]
        grouped(fs, sets) && by_end(sets) && rearranged(cs, chains_of(sets), idx) && by_chain_end(cs, idx);
    let us = chains_of(sets);
    lemma_chains_of(sets);
    assert forall|i: int| 0 <= i < cs.len() implies contiguous(#[trigger] cs[i]) by { assert(cs[i] == us[idx[i]]); }
    assert forall|i: int, p: int| #[trigger] is_member(cs, i, p) implies is_member(us, idx[i], p) && member(us[idx[i]], p) == member(cs[i], p) by { assert(cs[i] == us[idx[i]]); }
    assert forall|i: int, p: int, j: int, q: int| #[trigger] is_member(cs, i, p) && #[trigger] is_member(cs, j, q)
        && member(cs[i], p).tp == member(cs[j], q).tp implies i == j && p == q by {
        assert(is_member(us, idx[i], p) && is_member(us, idx[j], q));
        assert(idx[i] == idx[j]);
        if i < j { assert(idx[i] != idx[j]); } else if j < i { assert(idx[j] != idx[i]); }
    }
    assert forall|m: int| 0 <= m < sets.len() && in_chains(us, #[trigger] sets[m]) implies in_chains(cs, sets[m]) by {
        let (x, p) = choose|x: int, p: int| #[trigger] is_member(us, x, p) && member(us[x], p) == sets[m];
        lemma_rearranged_onto(cs, us, idx, x);
        let i = choose|i: int| 0 <= i < idx.len() && idx[i] == x;
        assert(cs[i] == us[idx[i]]);
        assert(is_member(cs, i, p));
    }
    assert(fulls_of(us).len() == us.len());
}

// ---- C04
/// A signature chain as the files it is made of.
pub struct SigFilesV { pub full: FileV, pub incs: Seq<FileV> }
pub open spec fn as_sigs(c: SigFilesV) -> SigChainV { SigChainV { full: sig_of(c.full), incs: c.incs.map_values(|f: FileV| sig_of(f)) } }
pub open spec fn all_as_sigs(q: Seq<SigFilesV>) -> Seq<SigChainV> { q.map_values(|c: SigFilesV| as_sigs(c)) }
pub open spec fn sig_member(c: SigFilesV, p: int) -> FileV { if p <= 0 { c.full } else { c.incs[p - 1] } }
pub open spec fn files_end(c: SigFilesV) -> Timespec { end_of(sig_member(c, c.incs.len() as int).tp) }
pub open spec fn place_file(q: Seq<SigFilesV>, f: FileV, k: int) -> Seq<SigFilesV>
    decreases q.len() - k,
{
    if k < 0 || k >= q.len() { q }
    else if files_end(q[k]) == start_of(f.tp) { q.update(k, SigFilesV { incs: q[k].incs.push(f), ..q[k] }) }
    else { place_file(q, f, k + 1) }
}
pub open spec fn files_from(fulls: Seq<FileV>, incs: Seq<FileV>) -> Seq<SigFilesV>
    decreases incs.len(),
{
    if incs.len() == 0 { fulls.map_values(|f: FileV| SigFilesV { full: f, incs: Seq::empty() }) }
    else { place_file(files_from(fulls, incs.drop_last()), incs.last(), 0) }
}
proof fn lemma_sig_end(c: SigFilesV)
    ensures sig_end(as_sigs(c)) == files_end(c),
{
    if c.incs.len() > 0 { assert(as_sigs(c).incs.last() == sig_of(c.incs.last())); }
}
proof fn lemma_place_file(q: Seq<SigFilesV>, f: FileV, k: int)
    requires 0 <= k <= q.len(),
    ensures place_sig(all_as_sigs(q), f, k) == all_as_sigs(place_file(q, f, k)),
    decreases q.len() - k,
{
    if k < q.len() {
        lemma_sig_end(q[k]);
        assert(all_as_sigs(q)[k] == as_sigs(q[k]));
        if files_end(q[k]) == start_of(f.tp) {
            let n = SigFilesV { incs: q[k].incs.push(f), ..q[k] };
            assert(as_sigs(n).incs =~= as_sigs(q[k]).incs.push(sig_of(f)));
            assert(all_as_sigs(q.update(k, n)) =~= all_as_sigs(q).update(k, as_sigs(n)));
        } else { lemma_place_file(q, f, k + 1); }
    }
}
proof fn lemma_files_from(fulls: Seq<FileV>, incs: Seq<FileV>)
    ensures sig_chains_from(fulls, incs) == all_as_sigs(files_from(fulls, incs)),
    decreases incs.len(),
{
    if incs.len() == 0 {
        assert forall|i: int| 0 <= i < fulls.len() implies #[trigger] sig_chains_from(fulls, incs)[i] == all_as_sigs(files_from(fulls, incs))[i] by {
            assert(as_sigs(SigFilesV { full: fulls[i], incs: Seq::empty() }).incs =~= Seq::<SigV>::empty());
        }
        assert(sig_chains_from(fulls, incs) =~= all_as_sigs(files_from(fulls, incs)));
    } else {
        lemma_files_from(fulls, incs.drop_last());
        lemma_place_file(files_from(fulls, incs.drop_last()), incs.last(), 0);
    }
}
pub open spec fn is_sig_member(q: Seq<SigFilesV>, i: int, p: int) -> bool { 0 <= i < q.len() && 0 <= p <= q[i].incs.len() }
pub open spec fn sig_contiguous(c: SigFilesV) -> bool {
    &&& c.full.tp is FullSig
    &&& forall|p: int| 1 <= p <= c.incs.len() ==> #[trigger] sig_member(c, p).tp is NewSig && start_of(sig_member(c, p).tp) == end_of(sig_member(c, p - 1).tp)
}
pub open spec fn in_sig_chains(q: Seq<SigFilesV>, f: FileV) -> bool { exists|i: int, p: int| #[trigger] is_sig_member(q, i, p) && p >= 1 && sig_member(q[i], p) == f }
pub open spec fn ends_at(q: Seq<SigFilesV>, t: Timespec) -> bool { exists|i: int| 0 <= i < q.len() && files_end(#[trigger] q[i]) == t }
pub open spec fn all_fulls(q: Seq<SigFilesV>) -> Seq<FileV> { q.map_values(|c: SigFilesV| c.full) }
proof fn lemma_place_file_at(q: Seq<SigFilesV>, f: FileV, k: int) -> (i: int)
    requires 0 <= k <= q.len(),
    ensures
        k <= i <= q.len(),
        i < q.len() ==> files_end(q[i]) == start_of(f.tp) && place_file(q, f, k) == q.update(i, SigFilesV { incs: q[i].incs.push(f), ..q[i] }),
        i == q.len() ==> place_file(q, f, k) == q,
        forall|j: int| k <= j < i ==> files_end(#[trigger] q[j]) != start_of(f.tp),
    decreases q.len() - k,
{
    if k == q.len() { k } else if files_end(q[k]) == start_of(f.tp) { k } else { lemma_place_file_at(q, f, k + 1) }
}
pub open spec fn sigs_chained_well(fulls: Seq<FileV>, incs: Seq<FileV>, q: Seq<SigFilesV>) -> bool {
    &&& all_fulls(q) == fulls
    &&& forall|i: int| 0 <= i < q.len() ==> sig_contiguous(#[trigger] q[i])
    &&& forall|i: int, p: int| #[trigger] is_sig_member(q, i, p) && p >= 1 ==> incs.contains(sig_member(q[i], p))
    &&& forall|m: int| 0 <= m < incs.len() ==> in_sig_chains(q, #[trigger] incs[m]) || !ends_at(files_from(fulls, incs.take(m)), start_of(incs[m].tp))
}
proof fn lemma_sigs_chained(fulls: Seq<FileV>, incs: Seq<FileV>)
    requires
        forall|i: int| 0 <= i < fulls.len() ==> (#[trigger] fulls[i]).tp is FullSig,
        forall|i: int| 0 <= i < incs.len() ==> (#[trigger] incs[i]).tp is NewSig,
    ensures sigs_chained_well(fulls, incs, files_from(fulls, incs)),
    decreases incs.len(),
{
    let new = files_from(fulls, incs);
    if incs.len() == 0 {
        assert(all_fulls(new) =~= fulls);
    } else {
        let r = incs.drop_last();
        let last = incs.len() - 1;
        let f = incs.last();
        let q = files_from(fulls, r);
        lemma_sigs_chained(fulls, r);
        let x = lemma_place_file_at(q, f, 0);
        assert(incs.take(last) =~= r && incs[last] == f);
        assert(all_fulls(new) =~= all_fulls(q));
        let l = if x < q.len() { q[x].incs.len() as int + 1 } else { 0 };
        assert forall|i: int, p: int| #[trigger] is_sig_member(new, i, p) && !(i == x && p == l) implies
            is_sig_member(q, i, p) && sig_member(new[i], p) == sig_member(q[i], p) by {}
        assert forall|i: int, p: int| #[trigger] is_sig_member(q, i, p) implies is_sig_member(new, i, p) && sig_member(new[i], p) == sig_member(q[i], p) by {}
        assert forall|i: int| 0 <= i < new.len() implies sig_contiguous(#[trigger] new[i]) by {
            assert(sig_contiguous(q[i]));
            if i == x {
                assert forall|p: int| 1 <= p <= l implies #[trigger] sig_member(new[x], p).tp is NewSig && start_of(sig_member(new[x], p).tp) == end_of(sig_member(new[x], p - 1).tp) by {
                    assert(sig_member(new[x], p - 1) == sig_member(q[x], p - 1));
                    if p < l { assert(sig_member(new[x], p) == sig_member(q[x], p)); }
                }
            }
        }
        assert forall|i: int, p: int| #[trigger] is_sig_member(new, i, p) && p >= 1 implies incs.contains(sig_member(new[i], p)) by {
            if !(i == x && p == l) {
                assert(is_sig_member(q, i, p));
                let m = choose|m: int| 0 <= m < r.len() && r[m] == sig_member(q[i], p);
                assert(incs[m] == r[m]);
            }
        }
        assert forall|m: int| 0 <= m < incs.len() implies in_sig_chains(new, #[trigger] incs[m]) || !ends_at(files_from(fulls, incs.take(m)), start_of(incs[m].tp)) by {
            if m < last {
                assert(r[m] == incs[m] && r.take(m) =~= incs.take(m));
                if in_sig_chains(q, r[m]) {
                    let (i, p) = choose|i: int, p: int| #[trigger] is_sig_member(q, i, p) && p >= 1 && sig_member(q[i], p) == r[m];
                    assert(is_sig_member(new, i, p));
                }
            } else if x < q.len() {
                assert(is_sig_member(new, x, l) && sig_member(new[x], l) == f);
            }
        }
    }
}
/// C04: the signature chains of a listing.
proof fn theorem_signature_chains(fs: Seq<FileV>, cs: Seq<SigChainV>)
    requires sig_chains_of(fs, cs),
    ensures
        exists|q: Seq<SigFilesV>, incs: Seq<FileV>, x: Seq<int>, y: Seq<int>|
            #![trigger rearranged(all_fulls(q), full_sigs(fs), x), rearranged(incs, new_sigs(fs), y)] {
            // the chains are made of files, and report what these say
            &&& cs == all_as_sigs(q)
            &&& forall|i: int| 0 <= i < q.len() ==> sig_contiguous(#[trigger] q[i])
            &&& forall|i: int, p: int| #[trigger] is_sig_member(q, i, p) ==> fs.contains(sig_member(q[i], p))
            // one per full signature, in order of start
            &&& rearranged(all_fulls(q), full_sigs(fs), x) && fulls_sorted(all_fulls(q), x)
            // an incremental signature not in them continued none when it was considered
            &&& rearranged(incs, new_sigs(fs), y) && news_sorted(incs, y)
            &&& forall|m: int| 0 <= m < incs.len() ==> in_sig_chains(q, #[trigger] incs[m]) || !ends_at(files_from(all_fulls(q), incs.take(m)), start_of(incs[m].tp))
        },
{
    let (fulls, incs, x, y) = choose|fulls: Seq<FileV>, incs: Seq<FileV>, x: Seq<int>, y: Seq<int>|
        #![trigger rearranged(fulls, full_sigs(fs), x), rearranged(incs, new_sigs(fs), y)] {
            &&& rearranged(fulls, full_sigs(fs), x) && fulls_sorted(fulls, x)
            &&& rearranged(incs, new_sigs(fs), y) && news_sorted(incs, y)
            &&& cs == sig_chains_from(fulls, incs)
        };
    let q = files_from(fulls, incs);
    lemma_filter_holds(fs, |f: FileV| f.tp is FullSig);
    lemma_filter_holds(fs, |f: FileV| f.tp is NewSig);
    lemma_filter_within(fs, |f: FileV| f.tp is FullSig);
    lemma_filter_within(fs, |f: FileV| f.tp is NewSig);
    assert forall|i: int| 0 <= i < fulls.len() implies (#[trigger] fulls[i]).tp is FullSig && fs.contains(fulls[i]) by { assert(fulls[i] == full_sigs(fs)[x[i]]); }
    assert forall|i: int| 0 <= i < incs.len() implies (#[trigger] incs[i]).tp is NewSig && fs.contains(incs[i]) by { assert(incs[i] == new_sigs(fs)[y[i]]); }
    lemma_files_from(fulls, incs);
    lemma_sigs_chained(fulls, incs);
    assert forall|i: int, p: int| #[trigger] is_sig_member(q, i, p) implies fs.contains(sig_member(q[i], p)) by {
        if p == 0 { assert(all_fulls(q)[i] == fulls[i]); }
        else {
            let m = choose|m: int| 0 <= m < incs.len() && incs[m] == sig_member(q[i], p);
            assert(fs.contains(incs[m]));
        }
    }
    assert(rearranged(all_fulls(q), full_sigs(fs), x));
}
proof fn lemma_filter_within<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures forall|i: int| 0 <= i < s.filter(p).len() ==> s.contains(#[trigger] s.filter(p)[i]),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let r = s.drop_last();
        lemma_filter_within(r, p);
        assert forall|i: int| 0 <= i < s.filter(p).len() implies s.contains(#[trigger] s.filter(p)[i]) by {
            if i < r.filter(p).len() {
                let k = choose|k: int| 0 <= k < r.len() && r[k] == r.filter(p)[i];
                assert(s[k] == r[k]);
            } else { assert(s[s.len() - 1] == s.last()); }
        }
    }
}
proof fn lemma_filter_contains<T>(s: Seq<T>, p: spec_fn(T) -> bool, x: T)
    requires s.contains(x), p(x),
    ensures s.filter(p).contains(x),
    decreases s.len(),
{
    reveal(Seq::filter);
    let k = choose|k: int| 0 <= k < s.len() && s[k] == x;
    let r = s.drop_last();
    if k == s.len() - 1 {
        let n = s.filter(p).len() - 1;
        assert(s.filter(p)[n] == x);
    } else {
        assert(r[k] == x);
        lemma_filter_contains(r, p, x);
        let i = choose|i: int| 0 <= i < r.filter(p).len() && r.filter(p)[i] == x;
        assert(s.filter(p)[i] == x);
    }
}

// ---- C15
/// No two files claim the same place.
pub open spec fn no_claims(fs: Seq<FileV>) -> bool {
    forall|i: int, j: int| 0 <= i < fs.len() && 0 <= j < fs.len() && #[trigger] same_place(fs[i].tp, fs[j].tp) ==> i == j
}
pub open spec fn same_place(a: fnm::Type, b: fnm::Type) -> bool {
    &&& set_type(a) == set_type(b)
    &&& (volume_of(a) is Some && volume_of(a) == volume_of(b)) || (manifest_kind(a) && manifest_kind(b))
        || (a is FullSig && b is FullSig) || (a is NewSig && b is NewSig)
}
/// Sets that differ do not end at the same time.
pub open spec fn distinct_ends(fs: Seq<FileV>) -> bool {
    forall|i: int, j: int| #![trigger fs[i], fs[j]] 0 <= i < fs.len() && 0 <= j < fs.len() && set_type(fs[i].tp) != set_type(fs[j].tp) ==> end_of(fs[i].tp) != end_of(fs[j].tp)
}
pub open spec fn strictly<T>(a: Seq<T>, lt: spec_fn(T, T) -> bool) -> bool {
    forall|i: int, j: int| #![trigger a[i], a[j]] 0 <= i < j < a.len() ==> lt(a[i], a[j])
}
/// Two sorted sequences of the same elements are the same.
proof fn lemma_sorted_unique<T>(a: Seq<T>, b: Seq<T>, lt: spec_fn(T, T) -> bool)
    requires
        strictly(a, lt), strictly(b, lt),
        forall|x: T| a.contains(x) <==> b.contains(x),
        forall|x: T, y: T| #[trigger] lt(x, y) ==> !lt(y, x),
    ensures a == b,
    decreases a.len(),
{
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); }
        assert(a =~= b);
    } else {
        assert(a.contains(a[0]));
        let (m, n) = (a.len() - 1, b.len() - 1);
        assert(b.len() > 0);
        let (x, y) = (a[m], b[n]);
        assert(a.contains(x) && b.contains(y));
        if x != y {
            let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
            let i = choose|i: int| 0 <= i < a.len() && a[i] == y;
            assert(lt(b[j], b[n]));
            assert(lt(a[i], a[m]));
            assert(false);
        }
        let (c, d) = (a.drop_last(), b.drop_last());
        assert forall|z: T| c.contains(z) <==> d.contains(z) by {
            if c.contains(z) {
                let i = choose|i: int| 0 <= i < c.len() && c[i] == z;
                assert(a[i] == z);
                assert(a.contains(z));
                let j = choose|j: int| 0 <= j < b.len() && b[j] == z;
                if j == n { assert(lt(a[i], a[m])); assert(false); }
                assert(d[j] == z);
            }
            if d.contains(z) {
                let j = choose|j: int| 0 <= j < d.len() && d[j] == z;
                assert(b[j] == z);
                assert(b.contains(z));
                let i = choose|i: int| 0 <= i < a.len() && a[i] == z;
                if i == m { assert(lt(b[j], b[n])); assert(false); }
                assert(c[i] == z);
            }
        }
        assert forall|i: int, j: int| #![trigger c[i], c[j]] 0 <= i < j < c.len() implies lt(c[i], c[j]) by { assert(lt(a[i], a[j])); }
        assert forall|i: int, j: int| #![trigger d[i], d[j]] 0 <= i < j < d.len() implies lt(d[i], d[j]) by { assert(lt(b[i], b[j])); }
        lemma_sorted_unique(c, d, lt);
        assert(a =~= c.push(x));
        assert(b =~= d.push(y));
    }
}
proof fn lemma_some_file_same(fs: Seq<FileV>, gs: Seq<FileV>, tp: Type, p: spec_fn(FileV) -> bool)
    requires forall|f: FileV| fs.contains(f) <==> gs.contains(f),
    ensures some_file(fs, tp, p) == some_file(gs, tp, p),
{
    if some_file(fs, tp, p) {
        let j = choose|j: int| #[trigger] in_set(fs, j, tp) && p(fs[j]);
        assert(fs.contains(fs[j]) && gs.contains(fs[j]));
        let i = choose|i: int| 0 <= i < gs.len() && gs[i] == fs[j];
        assert(in_set(gs, i, tp));
    }
    if some_file(gs, tp, p) {
        let j = choose|j: int| #[trigger] in_set(gs, j, tp) && p(gs[j]);
        assert(gs.contains(gs[j]) && fs.contains(gs[j]));
        let i = choose|i: int| 0 <= i < fs.len() && fs[i] == gs[j];
        assert(in_set(fs, i, tp));
    }
}
proof fn lemma_set_same(fs: Seq<FileV>, gs: Seq<FileV>, tp: Type)
    requires forall|f: FileV| fs.contains(f) <==> gs.contains(f), no_claims(fs),
    ensures set_of(tp, fs) == set_of(tp, gs),
{
    let (s, t) = (set_of(tp, fs), set_of(tp, gs));
    lemma_set_of_faithful(tp, fs);
    lemma_set_of_faithful(tp, gs);
    assert forall|p: spec_fn(FileV) -> bool| #[trigger] some_file(fs, tp, p) == some_file(gs, tp, p) by { lemma_some_file_same(fs, gs, tp, p); }
    assert forall|n: usize| #[trigger] s.volumes.dom().contains(n) == t.volumes.dom().contains(n) && (s.volumes.dom().contains(n) ==> s.volumes[n] == t.volumes[n]) by {
        assert(some_file(fs, tp, has_volume(n)) == some_file(gs, tp, has_volume(n)));
        assert(t.volumes.dom().contains(n) <==> some_file(gs, tp, has_volume(n)));
        if s.volumes.dom().contains(n) {
            assert(some_file(fs, tp, is_volume(n, t.volumes[n])) == some_file(gs, tp, is_volume(n, t.volumes[n])));
            let i = choose|j: int| #[trigger] in_set(fs, j, tp) && is_volume(n, s.volumes[n])(fs[j]);
            let j = choose|j: int| #[trigger] in_set(fs, j, tp) && is_volume(n, t.volumes[n])(fs[j]);
            assert(same_place(fs[i].tp, fs[j].tp));
        }
    }
    assert(s.volumes =~= t.volumes);
    assert(some_file(fs, tp, a_manifest()) == some_file(gs, tp, a_manifest()));
    if some_file(fs, tp, a_manifest()) {
        assert(some_file(fs, tp, is_manifest(t.manifest)) == some_file(gs, tp, is_manifest(t.manifest)));
        let i = choose|j: int| #[trigger] in_set(fs, j, tp) && is_manifest(s.manifest)(fs[j]);
        let j = choose|j: int| #[trigger] in_set(fs, j, tp) && is_manifest(t.manifest)(fs[j]);
        assert(same_place(fs[i].tp, fs[j].tp));
    } else { assert(s.manifest =~= t.manifest); }
    assert(some_file(fs, tp, |f: FileV| f.compressed) == some_file(gs, tp, |f: FileV| f.compressed));
    assert(some_file(fs, tp, |f: FileV| f.encrypted) == some_file(gs, tp, |f: FileV| f.encrypted));
    assert(some_file(fs, tp, |f: FileV| partial_of(f.tp)) == some_file(gs, tp, |f: FileV| partial_of(f.tp)));
}
proof fn lemma_sets_in(fs: Seq<FileV>, gs: Seq<FileV>, s: Seq<SetV>, t: Seq<SetV>, x: SetV)
    requires
        forall|f: FileV| fs.contains(f) <==> gs.contains(f), no_claims(fs),
        grouped(fs, s), grouped(gs, t), s.contains(x),
    ensures t.contains(x),
{
    let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
    assert(s[i] == set_of(s[i].tp, fs) && has_type(fs, x.tp));
    let j = choose|j: int| 0 <= j < fs.len() && set_type(#[trigger] fs[j].tp) == x.tp;
    assert(fs.contains(fs[j]) && gs.contains(fs[j]));
    let k = choose|k: int| 0 <= k < gs.len() && gs[k] == fs[j];
    assert(has_set(t, set_type(gs[k].tp)));
    let l = choose|l: int| 0 <= l < t.len() && (#[trigger] t[l]).tp == x.tp;
    assert(t[l] == set_of(t[l].tp, gs));
    lemma_set_same(fs, gs, x.tp);
}
pub open spec fn ends_before() -> spec_fn(SetV, SetV) -> bool { |a: SetV, b: SetV| ts_lt(set_end(a.tp), set_end(b.tp)) }
proof fn lemma_ends_strictly(fs: Seq<FileV>, s: Seq<SetV>)
    requires grouped(fs, s), by_end(s), distinct_ends(fs),
    ensures strictly(s, ends_before()),
{
    assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies ends_before()(s[i], s[j]) by {
        assert(has_type(fs, s[i].tp) && has_type(fs, s[j].tp));
        let a = choose|a: int| 0 <= a < fs.len() && set_type(#[trigger] fs[a].tp) == s[i].tp;
        let b = choose|b: int| 0 <= b < fs.len() && set_type(#[trigger] fs[b].tp) == s[j].tp;
        assert(s[i].tp != s[j].tp);
        assert(fs[a] == fs[a] && fs[b] == fs[b]);
        assert(set_end(s[i].tp) == end_of(fs[a].tp) && set_end(s[j].tp) == end_of(fs[b].tp));
        assert(ts_le(set_end(s[i].tp), set_end(s[j].tp)));
    }
}
/// A stable order is unique.
proof fn lemma_stable_unique(us: Seq<ChainV>, a: Seq<ChainV>, b: Seq<ChainV>, x: Seq<int>, y: Seq<int>)
    requires rearranged(a, us, x), rearranged(b, us, y), by_chain_end(a, x), by_chain_end(b, y),
    ensures a == b,
{
    let lt = |i: int, j: int| ts_lt(us[i].end, us[j].end) || (us[i].end == us[j].end && i < j);
    assert forall|i: int, j: int| #![trigger x[i], x[j]] 0 <= i < j < x.len() implies lt(x[i], x[j]) by { assert(a[i] == us[x[i]] && a[j] == us[x[j]]); }
    assert forall|i: int, j: int| #![trigger y[i], y[j]] 0 <= i < j < y.len() implies lt(y[i], y[j]) by { assert(b[i] == us[y[i]] && b[j] == us[y[j]]); }
    assert forall|k: int| x.contains(k) <==> y.contains(k) by {
        if 0 <= k < us.len() {
            lemma_rearranged_onto(a, us, x, k);
            lemma_rearranged_onto(b, us, y, k);
        }
    }
    lemma_sorted_unique(x, y, lt);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == b[i] by { assert(a[i] == us[x[i]] && b[i] == us[y[i]]); }
    assert(a =~= b);
}
pub open spec fn full_before() -> spec_fn(FileV, FileV) -> bool { |a: FileV, b: FileV| ts_lt(start_of(a.tp), start_of(b.tp)) }
pub open spec fn new_before() -> spec_fn(FileV, FileV) -> bool {
    |a: FileV, b: FileV| ts_lt(start_of(a.tp), start_of(b.tp)) || (start_of(a.tp) == start_of(b.tp) && ts_lt(end_of(b.tp), end_of(a.tp)))
}
proof fn lemma_filter_distinct(fs: Seq<FileV>, p: spec_fn(FileV) -> bool)
    requires no_claims(fs), forall|f: FileV, g: FileV| #[trigger] p(f) && #[trigger] p(g) && set_type(f.tp) == set_type(g.tp) ==> same_place(f.tp, g.tp),
    ensures forall|i: int, j: int| #![trigger fs.filter(p)[i], fs.filter(p)[j]] 0 <= i < fs.filter(p).len() && 0 <= j < fs.filter(p).len() && i != j
        ==> set_type(fs.filter(p)[i].tp) != set_type(fs.filter(p)[j].tp),
    decreases fs.len(),
{
    reveal(Seq::filter);
    let s = fs.filter(p);
    lemma_filter_holds(fs, p);
    if fs.len() > 0 {
        let r = fs.drop_last();
        assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && #[trigger] same_place(r[i].tp, r[j].tp) implies i == j by { assert(same_place(fs[i].tp, fs[j].tp)); }
        lemma_filter_distinct(r, p);
        lemma_filter_within(r, p);
        let n = r.filter(p).len() as int;
        assert forall|i: int| 0 <= i < n && p(fs.last()) implies set_type((#[trigger] r.filter(p)[i]).tp) != set_type(fs.last().tp) by {
            let k = choose|k: int| 0 <= k < r.len() && r[k] == r.filter(p)[i];
            lemma_filter_holds(r, p);
            if set_type(r.filter(p)[i].tp) == set_type(fs.last().tp) {
                assert(p(r.filter(p)[i]) && p(fs.last()));
                assert(same_place(fs[k].tp, fs[fs.len() - 1].tp));
            }
        }
        assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && i != j implies set_type(s[i].tp) != set_type(s[j].tp) by {
            if i < n { assert(s[i] == r.filter(p)[i]); }
            if j < n { assert(s[j] == r.filter(p)[j]); }
        }
    }
}
proof fn lemma_sigs_same(fs: Seq<FileV>, gs: Seq<FileV>, p: spec_fn(FileV) -> bool, a: Seq<FileV>, b: Seq<FileV>, x: Seq<int>, y: Seq<int>)
    requires
        forall|f: FileV| fs.contains(f) <==> gs.contains(f),
        rearranged(a, fs.filter(p), x), rearranged(b, gs.filter(p), y),
    ensures forall|f: FileV| a.contains(f) <==> b.contains(f),
{
    lemma_rearranged_same(a, fs.filter(p), x);
    lemma_rearranged_same(b, gs.filter(p), y);
    lemma_filter_holds(fs, p);
    lemma_filter_holds(gs, p);
    lemma_filter_within(fs, p);
    lemma_filter_within(gs, p);
    assert forall|f: FileV| fs.filter(p).contains(f) <==> gs.filter(p).contains(f) by {
        if fs.filter(p).contains(f) { lemma_filter_contains(gs, p, f); }
        if gs.filter(p).contains(f) { lemma_filter_contains(fs, p, f); }
    }
}
proof fn lemma_sigs_strictly(fs: Seq<FileV>, a: Seq<FileV>, x: Seq<int>)
    requires no_claims(fs),
    ensures
        rearranged(a, full_sigs(fs), x) && fulls_sorted(a, x) ==> strictly(a, full_before()),
        rearranged(a, new_sigs(fs), x) && news_sorted(a, x) ==> strictly(a, new_before()),
{
    let p = |f: FileV| f.tp is FullSig;
    let q = |f: FileV| f.tp is NewSig;
    lemma_filter_distinct(fs, p);
    lemma_filter_distinct(fs, q);
    lemma_filter_holds(fs, p);
    lemma_filter_holds(fs, q);
    if rearranged(a, full_sigs(fs), x) && fulls_sorted(a, x) {
        assert forall|i: int, j: int| #![trigger a[i], a[j]] 0 <= i < j < a.len() implies full_before()(a[i], a[j]) by {
            assert(x[i] != x[j]);
            assert(a[i] == fs.filter(p)[x[i]] && a[j] == fs.filter(p)[x[j]]);
        }
    }
    if rearranged(a, new_sigs(fs), x) && news_sorted(a, x) {
        assert forall|i: int, j: int| #![trigger a[i], a[j]] 0 <= i < j < a.len() implies new_before()(a[i], a[j]) by {
            assert(x[i] != x[j]);
            assert(a[i] == fs.filter(q)[x[i]] && a[j] == fs.filter(q)[x[j]]);
        }
    }
}
proof fn lemma_order(fs: Seq<FileV>, gs: Seq<FileV>, c: Seq<ChainV>, d: Seq<ChainV>, v: Seq<SigChainV>, w: Seq<SigChainV>)
    requires
        forall|f: FileV| fs.contains(f) <==> gs.contains(f), no_claims(fs), no_claims(gs), distinct_ends(fs),
        backup_chains_of(fs, c), backup_chains_of(gs, d), sig_chains_of(fs, v), sig_chains_of(gs, w),
    ensures c == d, v == w,
{
    assert forall|i: int, j: int| #![trigger gs[i], gs[j]] 0 <= i < gs.len() && 0 <= j < gs.len() && set_type(gs[i].tp) != set_type(gs[j].tp) implies end_of(gs[i].tp) != end_of(gs[j].tp) by {
        assert(gs.contains(gs[i]) && gs.contains(gs[j]));
        assert(fs.contains(gs[i]) && fs.contains(gs[j]));
        let k = choose|k: int| 0 <= k < fs.len() && fs[k] == gs[i];
        let l = choose|l: int| 0 <= l < fs.len() && fs[l] == gs[j];
        assert(set_type(fs[k].tp) != set_type(fs[l].tp));
    }
    let (s, x) = choose|sets: Seq<SetV>, idx: Seq<int>| #![trigger grouped(fs, sets), rearranged(c, chains_of(sets), idx)]
        grouped(fs, sets) && by_end(sets) && rearranged(c, chains_of(sets), idx) && by_chain_end(c, idx);
    let (t, y) = choose|sets: Seq<SetV>, idx: Seq<int>| #![trigger grouped(gs, sets), rearranged(d, chains_of(sets), idx)]
        grouped(gs, sets) && by_end(sets) && rearranged(d, chains_of(sets), idx) && by_chain_end(d, idx);
    lemma_ends_strictly(fs, s);
    lemma_ends_strictly(gs, t);
    assert forall|z: SetV| s.contains(z) <==> t.contains(z) by {
        if s.contains(z) { lemma_sets_in(fs, gs, s, t, z); }
        if t.contains(z) { lemma_sets_in(gs, fs, t, s, z); }
    }
    lemma_sorted_unique(s, t, ends_before());
    lemma_stable_unique(chains_of(s), c, d, x, y);

    let (f1, n1, x1, y1) = choose|fulls: Seq<FileV>, incs: Seq<FileV>, x: Seq<int>, y: Seq<int>|
        #![trigger rearranged(fulls, full_sigs(fs), x), rearranged(incs, new_sigs(fs), y)] {
            &&& rearranged(fulls, full_sigs(fs), x) && fulls_sorted(fulls, x)
            &&& rearranged(incs, new_sigs(fs), y) && news_sorted(incs, y)
            &&& v == sig_chains_from(fulls, incs)
        };
    let (f2, n2, x2, y2) = choose|fulls: Seq<FileV>, incs: Seq<FileV>, x: Seq<int>, y: Seq<int>|
        #![trigger rearranged(fulls, full_sigs(gs), x), rearranged(incs, new_sigs(gs), y)] {
            &&& rearranged(fulls, full_sigs(gs), x) && fulls_sorted(fulls, x)
            &&& rearranged(incs, new_sigs(gs), y) && news_sorted(incs, y)
            &&& w == sig_chains_from(fulls, incs)
        };
    lemma_sigs_same(fs, gs, |f: FileV| f.tp is FullSig, f1, f2, x1, x2);
    lemma_sigs_same(fs, gs, |f: FileV| f.tp is NewSig, n1, n2, y1, y2);
    lemma_sigs_strictly(fs, f1, x1);
    lemma_sigs_strictly(gs, f2, x2);
    lemma_sigs_strictly(fs, n1, y1);
    lemma_sigs_strictly(gs, n2, y2);
    lemma_sorted_unique(f1, f2, full_before());
    lemma_sorted_unique(n1, n2, new_before());
}
/// Where the i-th file of a listing stands in it.
proof fn lemma_positions<T>(s: Seq<Option<T>>) -> (pos: Seq<int>)
    ensures
        pos.len() == somes(s).len(),
        forall|i: int| 0 <= i < pos.len() ==> 0 <= #[trigger] pos[i] < s.len() && s[pos[i]] == Some(somes(s)[i]),
        forall|i: int, j: int| 0 <= i < j < pos.len() ==> #[trigger] pos[i] < #[trigger] pos[j],
        forall|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Some ==> somes(s).contains(s[k]->Some_0),
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else {
        let r = s.drop_last();
        let q = lemma_positions(r);
        let last = s.len() - 1;
        let pos = if s.last() is Some { q.push(last) } else { q };
        assert forall|k: int| 0 <= k < s.len() && (#[trigger] s[k]) is Some implies somes(s).contains(s[k]->Some_0) by {
            if k < last {
                assert(r[k] == s[k]);
                let i = choose|i: int| 0 <= i < somes(r).len() && somes(r)[i] == s[k]->Some_0;
                assert(somes(s)[i] == s[k]->Some_0);
            } else { assert(somes(s)[somes(s).len() - 1] == s[k]->Some_0); }
        }
        pos
    }
}
/// No two names of the listing claim the same place.
spec fn no_name_claims(names: Seq<Option<Seq<char>>>) -> bool {
    forall|i: int, j: int| #![trigger names[i], names[j]] 0 <= i < names.len() && 0 <= j < names.len() && i != j ==>
        match (file_of(names[i]), file_of(names[j])) { (Some(f), Some(g)) => !same_place(f.tp, g.tp), _ => true }
}
proof fn lemma_names_files(names: Seq<Option<Seq<char>>>)
    requires no_name_claims(names),
    ensures no_claims(files_of(names)),
{
    let m = names.map_values(|n: Option<Seq<char>>| file_of(n));
    let fs = files_of(names);
    let pos = lemma_positions(m);
    assert forall|i: int, j: int| 0 <= i < fs.len() && 0 <= j < fs.len() && #[trigger] same_place(fs[i].tp, fs[j].tp) implies i == j by {
        let (k, l) = (pos[i], pos[j]);
        assert(m[k] == file_of(names[k]) && m[l] == file_of(names[l]));
        if i < j { assert(pos[i] < pos[j]); } else if j < i { assert(pos[j] < pos[i]); }
    }
}
proof fn lemma_names_within(a: Seq<Option<Seq<char>>>, b: Seq<Option<Seq<char>>>, f: FileV)
    requires forall|x: Option<Seq<char>>| a.contains(x) <==> b.contains(x), files_of(a).contains(f),
    ensures files_of(b).contains(f),
{
    let m = a.map_values(|n: Option<Seq<char>>| file_of(n));
    let n = b.map_values(|n: Option<Seq<char>>| file_of(n));
    let pos = lemma_positions(m);
    let pos2 = lemma_positions(n);
    let i = choose|i: int| 0 <= i < files_of(a).len() && files_of(a)[i] == f;
    assert(m[pos[i]] == file_of(a[pos[i]]));
    assert(a.contains(a[pos[i]]));
    assert(b.contains(a[pos[i]]));
    let j = choose|j: int| 0 <= j < b.len() && b[j] == a[pos[i]];
    assert(n[j] == Some(f));
}
/// C15: listings of the same names in different orders give the same backup chains (with the same
/// sets) and the same signature chains.
proof fn theorem_order(a: Seq<Option<Seq<char>>>, b: Seq<Option<Seq<char>>>, perm: Seq<int>, c: CollV, d: CollV)
    requires
        rearranged(b, a, perm), no_name_claims(a), distinct_ends(files_of(a)),
        collection_of(a, c), collection_of(b, d),
    ensures c == d,
{
    lemma_rearranged_same(b, a, perm);
    assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < b.len() && 0 <= j < b.len() && i != j implies
        match (file_of(b[i]), file_of(b[j])) { (Some(f), Some(g)) => !same_place(f.tp, g.tp), _ => true } by {
        assert(b[i] == a[perm[i]] && b[j] == a[perm[j]]);
        if i < j { assert(perm[i] != perm[j]); } else { assert(perm[j] != perm[i]); }
    }
    lemma_names_files(a);
    lemma_names_files(b);
    assert forall|f: FileV| files_of(a).contains(f) <==> files_of(b).contains(f) by {
        if files_of(a).contains(f) { lemma_names_within(a, b, f); }
        if files_of(b).contains(f) { lemma_names_within(b, a, f); }
    }
    lemma_order(files_of(a), files_of(b), c.backups, d.backups, c.sigs, d.sigs);
}
} // mod collections
} // verus!
fn main() {}
