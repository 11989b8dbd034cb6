//@ verus
// ---------------------------------------------------------------- trusted: crate time
#[verifier::external_type_specification]
pub struct ExTimespec(Timespec);
/// Order of times: by seconds, then by nanoseconds (derived Ord of time::Timespec).
pub open spec fn ts_lt(a: Timespec, b: Timespec) -> bool {
    a.sec < b.sec || (a.sec == b.sec && a.nsec < b.nsec)
}
pub open spec fn ts_le(a: Timespec, b: Timespec) -> bool { a == b || ts_lt(a, b) }
pub open spec fn ts_cmp(a: Timespec, b: Timespec) -> Ordering {
    if ts_lt(a, b) { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub assume_specification [<Timespec as PartialEq>::eq] (a: &Timespec, b: &Timespec) -> (r: bool) ensures r == (*a == *b);
pub assume_specification [<Timespec as Ord>::cmp] (a: &Timespec, b: &Timespec) -> (r: Ordering) ensures r == ts_cmp(*a, *b);
pub assume_specification [Ordering::then] (a: Ordering, b: Ordering) -> (r: Ordering)
    ensures r == (if a == Ordering::Equal { b } else { a });
#[verifier::external_body]
pub broadcast proof fn axiom_timespec_partial_ord(a: Timespec, b: Timespec)
    ensures
        <Timespec as PartialOrdSpec<Timespec>>::obeys_partial_cmp_spec(),
        #[trigger] a.partial_cmp_spec(&b) == Some(ts_cmp(a, b)),
{}
