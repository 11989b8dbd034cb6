//@ verus
#![feature(sized_hierarchy, const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialOrdSpec;
use std::cmp::Ordering;
use std::fmt::{self, Display, Formatter, Result};
use std::marker::PointeeSized;
use time::{Timespec, Tm, TmFmt};
verus! {
//@ include time_spec.vc
//@ include cal_spec.vc
//@ include fmt_spec.vc
//@ verus
// ---------------------------------------------------------------- trusted: crate time
#[verifier::external_type_specification]
pub struct ExTm(Tm);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTimeError(time::ParseError);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTmFmt<'a>(TmFmt<'a>);
//@ include tm_spec.vc
//@ include shown_spec.vc
//@ verus
/// Proved of the crate's source in timecrate.vc, from what the system answers.
pub assume_specification [time::at_utc] (clock: Timespec) -> (r: Tm) ensures breaks_down(clock, 0, r);
pub assume_specification [time::at] (clock: Timespec) -> (r: Tm) ensures breaks_down(clock, zone_offset(clock.sec as int), r);
pub assume_specification [time::now_utc] () -> (r: Tm) ensures this_year(r.tm_year + 1900);
pub assume_specification [time::now] () -> (r: Tm) ensures this_year(r.tm_year + 1900);
/// The text that is kept in a TmFmt.
pub uninterp spec fn tm_text(f: TmFmt) -> Seq<char>;
impl<'a> Shown for TmFmt<'a> { open spec fn shown(&self) -> Seq<char> { tm_text(*self) } }
pub assume_specification [time::strftime] (format: &str, tm: &Tm) -> (r: std::result::Result<String, time::ParseError>)
    ensures writable(format@, *tm) ==> r is Ok && fills(r->Ok_0@, format@, *tm);
pub assume_specification<'a> [Tm::strftime] (tm: &'a Tm, format: &'a str) -> (r: std::result::Result<TmFmt<'a>, time::ParseError>)
    ensures writable(format@, *tm) ==> r is Ok && fills(tm_text(r->Ok_0), format@, *tm);

// ---------------------------------------------------------------- C18
/// How a date and time of day is shown when the current year is y.
pub open spec fn pretty(c: Civil, y: int) -> Seq<char> {
    day_text(c) + (
        if c.year == y { seq![' '] + two(c.hour) + seq![':'] + two(c.minute) } else { seq![' ', ' '] + decimal(c.year as nat) })
}
pub open spec fn adds_pretty(before: Seq<char>, after: Seq<char>, c: Civil) -> bool { exists|y: int| #[trigger] this_year(y) && after == before + pretty(c, y) }
pub trait TimeDisplayLocal { type D; fn into_local_display(self) -> Self::D; }
pub trait TimeDisplayUtc { type D; fn into_utc_display(self) -> Self::D; }
//@ file src/timefmt.rs
//@ item struct PrettyDisplay vis=pub
//@ verus
impl View for PrettyDisplay {
    type V = Tm;
    closed spec fn view(&self) -> Tm { self.0 }
}
//@ fn Timespec::into_local_display trait=TimeDisplay via=TimeDisplayLocal ret=r props=C18
//@ spec
    ensures breaks_down(self, zone_offset(self.sec as int), r@),
//@ fn Timespec::into_utc_display trait=TimeDisplay via=TimeDisplayUtc ret=r props=C18
//@ spec
    ensures breaks_down(self, 0, r@),
//@ fn PrettyDisplay::fmt trait=Display inherent ret=r props=C18
//@ spec
    requires in_week(self@),    // both constructors give that
    ensures
        calendar(civil_of(self@)) && r is Ok ==> adds_pretty(written(old(f)), written(final(f)), civil_of(self@)),
        calendar(civil_of(self@)) && accepts(old(f)) ==> r is Ok && accepts(final(f)),
//@ start
    proof { lemma_format_time(civil_of(self.0)); lemma_format_year(civil_of(self.0));
        let c = civil_of(self.0);
        assert forall|y: int| #[trigger] this_year(y) implies Seq::<char>::empty() + pretty(c, y) == pretty(c, y) by { assert(Seq::<char>::empty() + pretty(c, y) =~= pretty(c, y)); }
    }
//@ verus
pub open spec fn day_text(c: Civil) -> Seq<char> { month_name(c.month) + seq![' '] + two(c.day) }
proof fn lemma_format_time(c: Civil)
    ensures filled("%b %d %R"@, c) == Some(day_text(c) + (seq![' '] + two(c.hour) + seq![':'] + two(c.minute))),
{
    reveal_strlit("%b %d %R");
    let f = "%b %d %R"@;
    assert(f.skip(8) =~= Seq::<char>::empty());
    assert(filled(f.skip(8), c) == Some(Seq::<char>::empty()));
    assert(f.skip(6).skip(2) =~= f.skip(8));
    assert(filled(f.skip(6), c) is Some);
    assert(f.skip(5).skip(1) =~= f.skip(6));
    assert(filled(f.skip(5), c) is Some);
    assert(f.skip(3).skip(2) =~= f.skip(5));
    assert(filled(f.skip(3), c) is Some);
    assert(f.skip(2).skip(1) =~= f.skip(3));
    assert(filled(f.skip(2), c) is Some);
    assert(f.skip(0) =~= f);
    assert(f.skip(0).skip(2) =~= f.skip(2));
    assert(filled(f.skip(0), c) is Some);
    assert(filled(f, c)->Some_0 =~= day_text(c) + (seq![' '] + two(c.hour) + seq![':'] + two(c.minute)));
}
proof fn lemma_format_year(c: Civil)
    ensures filled("%b %d  %Y"@, c) == Some(day_text(c) + (seq![' ', ' '] + decimal(c.year as nat))),
{
    reveal_strlit("%b %d  %Y");
    let f = "%b %d  %Y"@;
    assert(f.skip(9) =~= Seq::<char>::empty());
    assert(filled(f.skip(9), c) == Some(Seq::<char>::empty()));
    assert(f.skip(7).skip(2) =~= f.skip(9));
    assert(filled(f.skip(7), c) is Some);
    assert(f.skip(6).skip(1) =~= f.skip(7));
    assert(filled(f.skip(6), c) is Some);
    assert(f.skip(5).skip(1) =~= f.skip(6));
    assert(filled(f.skip(5), c) is Some);
    assert(f.skip(3).skip(2) =~= f.skip(5));
    assert(filled(f.skip(3), c) is Some);
    assert(f.skip(2).skip(1) =~= f.skip(3));
    assert(filled(f.skip(2), c) is Some);
    assert(f.skip(0) =~= f);
    assert(f.skip(0).skip(2) =~= f.skip(2));
    assert(filled(f.skip(0), c) is Some);
    assert(filled(f, c)->Some_0 =~= day_text(c) + (seq![' ', ' '] + decimal(c.year as nat)));
}
/// C18: what is shown of an instant at which the clock of a zone shows a date and time of day.
pub proof fn theorem_shown(t: Timespec, offset: int, c: Civil, tm: Tm, before: Seq<char>, after: Seq<char>)
    requires clock_at(t, offset, c), breaks_down(t, offset, tm), adds_pretty(before, after, civil_of(tm)),
    ensures exists|y: int| #[trigger] this_year(y) && after == before + pretty(c, y),
{
}
fn main() {}
} // verus!
