//@ subst .fold( => .fold_(
//@ subst .into_local_display() => .into_local_display_()
//@ verus
#![feature(sized_hierarchy, const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::{PartialOrdSpec, OrdSpec};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::{self, Display, Error, Formatter};
use std::marker::PointeeSized;
use std::slice;
use time::Timespec;
verus! {
global size_of usize == 8;
//@ include time_spec.vc
//@ include std_spec.vc
//@ include fmt_spec.vc
//@ include local_time.vc
//@ verus
/// accs are what a fold over items has after each of the first k steps
pub open spec fn folds<A, T, F: FnMut(A, T) -> A>(f: F, items: Seq<T>, init: A, accs: Seq<A>, k: int) -> bool {
    &&& 0 <= k <= items.len() && k < accs.len() && accs[0] == init
    &&& forall|j: int| 0 <= j < k ==> call_ensures(f, (accs[j], items[j]), #[trigger] accs[j + 1])
}
/// trusted: the contract of `Iterator::fold`
pub trait Fold_: Iterator + Sized {
    fn fold_<A, F: FnMut(A, Self::Item) -> A>(self, init: A, f: F) -> (r: A)
        requires
            self.obeys_prophetic_iter_laws(),
            forall|accs: Seq<A>, k: int| #[trigger] folds(f, self.remaining(), init, accs, k) && k < self.remaining().len()
                ==> call_requires(f, (accs[k], self.remaining()[k])),
        ensures
            self.will_return_none(),
            exists|accs: Seq<A>| #[trigger] folds(f, self.remaining(), init, accs, self.remaining().len() as int) && r == accs[self.remaining().len() as int];
}
impl<I: Iterator> Fold_ for I {
    #[verifier::external_body]
    fn fold_<A, F: FnMut(A, Self::Item) -> A>(self, init: A, f: F) -> (r: A) { self.fold(init, f) }
}
//@ external on
//@ include coll_spec.vc
//@ external off
//@ verus
// ---------------------------------------------------------------- C21
pub open spec fn kind_text(t: Type) -> Seq<char> { match t { Type::Full { .. } => "Full"@, Type::Inc { .. } => "Incremental"@ } }
/// the row of a backup set: kind, time and number of volumes in columns
pub open spec fn set_row(s: SetV) -> Seq<char> {
    to_left(kind_text(s.tp), 20) + seq![' '] + to_left(local_time(set_end(s.tp)), 13) + seq![' '] + to_right(decimal(s.volumes.dom().len()), 12)
}
impl Shown for BackupSet { open spec fn shown(&self) -> Seq<char> { set_row(self@) } }
/// the rows of sets
pub open spec fn set_rows(s: Seq<SetV>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { set_rows(s.drop_last()) + set_row(s.last()) + seq!['\n'] }
}
/// the number of volumes of sets
pub open spec fn volumes_of(s: Seq<SetV>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { volumes_of(s.drop_last()) + s.last().volumes.dom().len() }
}
pub open spec fn chain_volumes(c: ChainV) -> nat { c.full.volumes.dom().len() + volumes_of(c.incs) }
/// the numbers that are shown fit (what they count is in memory)
pub open spec fn countable(c: ChainV) -> bool { c.incs.len() < usize::MAX && chain_volumes(c) <= usize::MAX }
/// what is printed of a chain before the rows of its incremental sets
pub open spec fn chain_head(c: ChainV) -> Seq<char> {
    "Chain start time: "@ + local_time(c.start) + "\nChain end time: "@ + local_time(c.end)
        + "\nNumber of contained backup sets: "@ + decimal(c.incs.len() + 1)
        + "\nTotal number of contained volumes: "@ + decimal(chain_volumes(c)) + "\n"@
        + to_left("Type of backup set:"@, 20) + seq![' '] + to_left("Time:"@, 13) + seq![' '] + to_right("Num volumes:\n"@, 12)
        + set_row(c.full) + seq!['\n']
}
/// what is printed of a chain
pub open spec fn chain_text(c: ChainV) -> Seq<char> { chain_head(c) + set_rows(c.incs) }
pub open spec fn chain_texts(cs: Seq<ChainV>) -> Seq<char>
    decreases cs.len(),
{
    if cs.len() == 0 { Seq::empty() } else { chain_texts(cs.drop_last()) + chain_text(cs.last()) }
}
/// the lines of signature files
pub open spec fn file_lines(s: Seq<SigV>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { file_lines(s.drop_last()) + seq![' '] + s.last().name + seq!['\n'] }
}
pub open spec fn sig_chain_head(c: SigChainV) -> Seq<char> {
    "start time: "@ + local_time(c.full.time) + ", end time: "@ + local_time(sig_end(c)) + "\n "@ + c.full.name + seq!['\n']
}
pub open spec fn sig_chain_text(c: SigChainV) -> Seq<char> { sig_chain_head(c) + file_lines(c.incs) }
spec fn sum(s: Seq<usize>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() as nat }
}
proof fn lemma_sum_take(s: Seq<usize>, k: int)
    requires 0 <= k < s.len(),
    ensures sum(s.take(k + 1)) == sum(s.take(k)) + s[k], sum(s.take(k + 1)) <= sum(s),
    decreases s.len(),
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    if k + 1 < s.len() {
        lemma_sum_take(s.drop_last(), k);
        assert(s.drop_last().take(k + 1) =~= s.take(k + 1));
    } else { assert(s.take(k + 1) =~= s); }
}
proof fn lemma_folds<F: FnMut(usize, usize) -> usize>(f: F, items: Seq<usize>, accs: Seq<usize>, k: int)
    requires folds(f, items, 0, accs, k), forall|a: usize, i: usize, r: usize| call_ensures(f, (a, i), r) ==> r == a + i,
    ensures accs[k] == sum(items.take(k)),
    decreases k,
{
    if k > 0 {
        assert(folds(f, items, 0, accs, k - 1));
        lemma_folds(f, items, accs, k - 1);
        lemma_sum_take(items, k - 1);
        assert(call_ensures(f, (accs[k - 1], items[k - 1]), accs[k - 1 + 1]));
    } else { assert(items.take(0) =~= Seq::<usize>::empty()); }
}
broadcast proof fn lemma_fold_sum<F: FnMut(usize, usize) -> usize>(f: F, items: Seq<usize>, accs: Seq<usize>, k: int)
    requires #[trigger] folds(f, items, 0, accs, k), forall|a: usize, i: usize, r: usize| call_ensures(f, (a, i), r) ==> r == a + i,
    ensures accs[k] == sum(items.take(k)), k < items.len() ==> accs[k] + items[k] <= sum(items), k == items.len() ==> accs[k] == sum(items),
{
    lemma_folds(f, items, accs, k);
    if k < items.len() { lemma_sum_take(items, k); } else { assert(items.take(k) =~= items); }
}
broadcast proof fn lemma_counts(items: Seq<usize>, sets: Seq<SetV>)
    requires items.len() <= sets.len(), forall|j: int| 0 <= j < items.len() ==> items[j] == (#[trigger] sets[j]).volumes.dom().len(),
    ensures #![trigger sum(items), volumes_of(sets)] sum(items) <= volumes_of(sets), items.len() == sets.len() ==> sum(items) == volumes_of(sets),
    decreases sets.len(),
{
    if sets.len() > 0 {
        if items.len() == sets.len() {
            assert forall|j: int| 0 <= j < items.len() - 1 implies items.drop_last()[j] == (#[trigger] sets.drop_last()[j]).volumes.dom().len() by { assert(sets[j] == sets.drop_last()[j]); }
            lemma_counts(items.drop_last(), sets.drop_last());
            assert(items.last() == sets[sets.len() - 1].volumes.dom().len());
        } else {
            assert forall|j: int| 0 <= j < items.len() implies items[j] == (#[trigger] sets.drop_last()[j]).volumes.dom().len() by { assert(sets[j] == sets.drop_last()[j]); }
            lemma_counts(items, sets.drop_last());
        }
    }
}
proof fn lemma_rows_take(s: Seq<SetV>, k: int)
    requires 0 <= k < s.len(),
    ensures set_rows(s.take(k + 1)) == set_rows(s.take(k)) + set_row(s[k]) + seq!['\n'],
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
proof fn lemma_lines_take(s: Seq<SigV>, k: int)
    requires 0 <= k < s.len(),
    ensures file_lines(s.take(k + 1)) == file_lines(s.take(k)) + seq![' '] + s[k].name + seq!['\n'],
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
proof fn lemma_texts_take(s: Seq<ChainV>, k: int)
    requires 0 <= k < s.len(),
    ensures chain_texts(s.take(k + 1)) == chain_texts(s.take(k)) + chain_text(s[k]),
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
//@ file src/collections/mod.rs
//@ fn BackupSet::fmt trait=Display inherent ret=r props=C21
//@ spec
    ensures writes(r, old(f), final(f), set_row(self@)),
//@ start
    proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']);
        assert forall|t: Seq<char>| #[trigger] (Seq::<char>::empty() + t) == t by { assert(Seq::<char>::empty() + t =~= t); } }
//@ fn BackupChain::fmt trait=Display inherent ret=r loops=1 props=C21
//@ spec
    requires countable(self@),
    ensures writes(r, old(f), final(f), chain_text(self@)),
//@ closure 0 params 1
|i: &BackupSet|
//@ closure 0 spec
-> (n: usize) ensures n == i@.volumes.dom().len()
//@ closure 1 params 2
|a: usize, i: usize|
//@ closure 1 spec
-> (n: usize) requires a + i <= usize::MAX ensures n == a + i
//@ start
        broadcast use {lemma_fold_sum, lemma_counts};
        proof { reveal_strlit(" "); reveal_strlit("\n"); assert(" "@ =~= seq![' ']); assert("\n"@ =~= seq!['\n']); }
//@ loop 0 iter it
//@ loop 0 before
        proof { assert(self@.incs.take(0) =~= Seq::<SetV>::empty());
            assert(written(f) =~= written(old(f)) + (chain_head(self@) + set_rows(self@.incs.take(0)))); }
//@ loop 0 spec
            invariant
                it.seq().len() == self@.incs.len(), forall|k: int| 0 <= k < self@.incs.len() ==> (*(#[trigger] it.seq()[k]))@ == self@.incs[k],
                written(f) == written(old(f)) + (chain_head(self@) + set_rows(self@.incs.take(it.index@))),
                accepts(old(f)) ==> accepts(f),
//@ loop 0 body-start
            proof { lemma_rows_take(self@.incs, it.index@); }
            let ghost before = written(f);
//@ loop 0 body-end
            proof { reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']);
                assert(written(f) =~= before + set_row(inc@) + seq!['\n']);
                assert(written(f) =~= written(old(f)) + (chain_head(self@) + set_rows(self@.incs.take(it.index@ + 1)))); }
//@ loop 0 after
        proof { assert(self@.incs.take(self@.incs.len() as int) =~= self@.incs); }
//@ fn SignatureChain::fmt trait=Display inherent ret=r loops=1 props=C21
//@ spec
    ensures writes(r, old(f), final(f), sig_chain_text(self@)),
//@ loop 0 iter it
//@ loop 0 before
        proof { reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); assert(self@.incs.take(0) =~= Seq::<SigV>::empty());
            assert(written(f) =~= written(old(f)) + (sig_chain_head(self@) + file_lines(self@.incs.take(0)))); }
//@ loop 0 spec
            invariant
                it.seq().len() == self@.incs.len(), forall|k: int| 0 <= k < self@.incs.len() ==> (*(#[trigger] it.seq()[k]))@ == self@.incs[k],
                written(f) == written(old(f)) + (sig_chain_head(self@) + file_lines(self@.incs.take(it.index@))),
                accepts(old(f)) ==> accepts(f),
//@ loop 0 body-start
            proof { lemma_lines_take(self@.incs, it.index@); }
            let ghost before = written(f);
//@ loop 0 body-end
            proof { reveal_strlit(" "); assert(" "@ =~= seq![' ']); reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']);
                assert(written(f) =~= before + seq![' '] + inc@.name + seq!['\n']);
                assert(written(f) =~= written(old(f)) + (sig_chain_head(self@) + file_lines(self@.incs.take(it.index@ + 1)))); }
//@ loop 0 after
        proof { assert(self@.incs.take(self@.incs.len() as int) =~= self@.incs); }
//@ fn Collections::fmt trait=Display inherent ret=r loops=1 props=C21
//@ spec
    requires forall|i: int| 0 <= i < self@.backups.len() ==> countable(#[trigger] self@.backups[i]),
    ensures writes(r, old(f), final(f), chain_texts(self@.backups)),
//@ loop 0 iter it
//@ loop 0 before
        proof { assert(self@.backups.take(0) =~= Seq::<ChainV>::empty());
            assert(written(f) =~= written(old(f)) + chain_texts(self@.backups.take(0))); }
//@ loop 0 spec
            invariant
                forall|i: int| 0 <= i < self@.backups.len() ==> countable(#[trigger] self@.backups[i]),
                it.seq().len() == self@.backups.len(), forall|k: int| 0 <= k < self@.backups.len() ==> (*(#[trigger] it.seq()[k]))@ == self@.backups[k],
                written(f) == written(old(f)) + chain_texts(self@.backups.take(it.index@)),
                accepts(old(f)) ==> accepts(f),
//@ loop 0 body-start
            proof { lemma_texts_take(self@.backups, it.index@); }
            let ghost before = written(f);
//@ loop 0 body-end
            proof { assert(written(f) =~= written(old(f)) + chain_texts(self@.backups.take(it.index@ + 1))); }
//@ loop 0 after
        proof { assert(self@.backups.take(self@.backups.len() as int) =~= self@.backups); }
//@ verus
fn main() {}
} // verus!
