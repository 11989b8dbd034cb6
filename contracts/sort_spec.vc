//@ verus
// ---------------------------------------------------------------- trusted: sort_by
/// a is b rearranged by idx
pub open spec fn rearranged<T>(a: Seq<T>, b: Seq<T>, idx: Seq<int>) -> bool {
    &&& a.len() == b.len() && idx.len() == b.len()
    &&& forall|i: int| 0 <= i < idx.len() ==> 0 <= #[trigger] idx[i] < b.len() && a[i] == b[idx[i]]
    &&& forall|i: int, j: int| 0 <= i < j < idx.len() ==> #[trigger] idx[i] != #[trigger] idx[j]
}
proof fn lemma_rearranged_onto<T>(a: Seq<T>, b: Seq<T>, idx: Seq<int>, x: int)
    requires rearranged(a, b, idx), 0 <= x < b.len(),
    ensures exists|i: int| 0 <= i < idx.len() && #[trigger] idx[i] == x,
{
    if forall|i: int| 0 <= i < idx.len() ==> #[trigger] idx[i] != x {
        // idx would map its n places injectively into n - 1 values
        let s = idx.to_set();
        idx.unique_seq_to_set();
        let t = vstd::set_lib::set_int_range(0, b.len() as int).remove(x);
        vstd::set_lib::lemma_int_range(0, b.len() as int);
        assert(s.subset_of(t));
        vstd::set_lib::lemma_len_subset(s, t);
    }
}
/// A comparison that is a total preorder (what sort_by demands of it).
pub open spec fn orders<T, F: FnMut(&T, &T) -> Ordering>(f: F) -> bool {
    &&& forall|a: &T, b: &T| #[trigger] call_requires(f, (a, b))
    &&& forall|a: &T, b: &T, o: Ordering, p: Ordering| #[trigger] call_ensures(f, (a, b), o) && #[trigger] call_ensures(f, (b, a), p)
            ==> (o == Ordering::Less <==> p == Ordering::Greater) && (o == Ordering::Equal <==> p == Ordering::Equal)
    &&& forall|a: &T, b: &T, c: &T, o: Ordering, p: Ordering, q: Ordering|
            #[trigger] call_ensures(f, (a, b), o) && #[trigger] call_ensures(f, (b, c), p) && #[trigger] call_ensures(f, (a, c), q)
            ==> (o != Ordering::Greater && p != Ordering::Greater ==> q != Ordering::Greater)
            && (o == Ordering::Equal && p == Ordering::Equal ==> q == Ordering::Equal)
}
pub trait SortBy<T> {
    spec fn items(&self) -> Seq<T>;
    fn sort_by_<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F)
        requires orders::<T, F>(f),
        ensures
            exists|idx: Seq<int>| #![trigger rearranged(final(self).items(), old(self).items(), idx)] {
                &&& rearranged(final(self).items(), old(self).items(), idx)
                &&& forall|i: int, j: int| #![trigger final(self).items()[i], final(self).items()[j]] 0 <= i < j < idx.len() ==> exists|o: Ordering| {
                    &&& #[trigger] call_ensures(f, (&final(self).items()[i], &final(self).items()[j]), o)
                    &&& o != Ordering::Greater
                    &&& (o == Ordering::Equal ==> idx[i] < idx[j])
                }
            };
}
impl<T> SortBy<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn sort_by_<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F) { self.sort_by(f) }
}
