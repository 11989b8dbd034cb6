//@ subst '0' ... '9' => '0'..='9'
//@ subst format.chars() => letters_of(format)
//@ subst s.starts_with(needle) => starts_with_(*s, needle)
//@ subst *s = &s[needle.len()..] => *s = text_from(*s, needle.len())
//@ subst *s = &s[i..] => *s = text_from(*s, i)
//@ subst *s = &s[i + c2.len_utf8()..] => *s = text_from(*s, i + c2.len_utf8())
//@ subst ss.trim_left_matches(" ") => trim_left_(*ss)
//@ subst ss[n..].char_indices() => numbered_letters(text_from(*ss, n))
//@ subst s.char_indices() => numbered_letters(*s)
//@ subst *ss = &ss[n..] => *ss = text_from(*ss, n)
//@ subst s.chars() => letters_of(s)
//@ subst 0...6 => 0..=6
//@ subst 0...11 => 0..=11
//@ subst assert!( => check_(
//@ subst unreachable!() => unreachable_()
//@ verus
use vstd::prelude::*;
use std::fmt::{self, Formatter};
use vstd::utf8::{encode_utf8, encode_scalar};
verus! {
//@ include cal_spec.vc
//@ include strp_spec.vc
//@ include shown_spec.vc
//@ include fmt_spec.vc
//@ file src/lib.rs
//@ item struct Timespec vis=pub keepvis derive=Clone,Copy
//@ item struct Tm vis=pub keepvis derive=Clone,Copy
//@ item enum ParseError vis=pub
//@ item struct TmFmt vis=pub
//@ item enum Fmt vis=pub
//@ verus
use ParseError::*;
const NSEC_PER_SEC: i32 = 1_000_000_000;
fn check_(b: bool) requires b {}
#[verifier::external_body]
fn unreachable_<'a>() -> (r: &'a str) requires false { unreachable!() }
// ---------------------------------------------------------------- trusted: text
/// `str::chars`: the characters that are left.
#[verifier::external_body]
pub struct Letters<'a>(std::str::Chars<'a>);
impl<'a> Letters<'a> {
    pub uninterp spec fn left(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures match r {
            Some(c) => old(self).left().len() > 0 && c == old(self).left()[0] && final(self).left() == old(self).left().drop_first(),
            None => old(self).left().len() == 0 && final(self).left() == old(self).left(),
        },
    { self.0.next() }
}
#[verifier::external_body]
fn letters_of<'a>(s: &'a str) -> (r: Letters<'a>)
    ensures r.left() == s@,
{ Letters(s.chars()) }
/// `str::char_indices`, and `take` of it.
#[verifier::external_body]
pub struct NumberedLetters<'a>(std::iter::Take<std::str::CharIndices<'a>>);
impl<'a> NumberedLetters<'a> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    /// how many were given
    pub uninterp spec fn given(&self) -> nat;
    /// how many there are
    pub uninterp spec fn all(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        ensures
            final(self).text() == old(self).text(), final(self).all() == old(self).all(),
            match r {
                Some(x) => {
                    &&& old(self).given() < old(self).all() <= old(self).text().len()
                    &&& final(self).given() == old(self).given() + 1
                    &&& x.1 == old(self).text()[old(self).given() as int]
                    &&& x.0 == encode_utf8(old(self).text().take(old(self).given() as int)).len()
                },
                None => old(self).given() >= old(self).all() && final(self).given() == old(self).given(),
            },
    { self.0.next() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: NumberedLetters<'a>)
        requires self.given() == 0, self.all() == self.text().len(),
        ensures r.text() == self.text(), r.given() == 0, r.all() == if n < self.all() { n as nat } else { self.all() },
    { unimplemented!() }
}
#[verifier::external_body]
fn numbered_letters<'a>(s: &'a str) -> (r: NumberedLetters<'a>)
    ensures r.text() == s@, r.given() == 0, r.all() == s@.len(),
{ NumberedLetters(s.char_indices().take(usize::MAX)) }
/// `s[n..]`: n must be where a character starts, or the end.
#[verifier::external_body]
fn text_from<'a>(s: &'a str, n: usize) -> (r: &'a str)
    requires exists|k: int| 0 <= k <= s@.len() && n == #[trigger] encode_utf8(s@.take(k)).len(),
    ensures forall|k: int| 0 <= k <= s@.len() && n == #[trigger] encode_utf8(s@.take(k)).len() ==> r@ == s@.skip(k),
{ &s[n..] }
pub open spec fn starts(s: Seq<char>, t: Seq<char>) -> bool { s.len() >= t.len() && s.take(t.len() as int) == t }
#[verifier::external_body]
fn starts_with_(s: &str, t: &str) -> (r: bool)
    ensures r == starts(s@, t@),
{ s.starts_with(t) }
#[verifier::external_body]
fn trim_left_<'a>(s: &'a str) -> (r: &'a str) { s.trim_start_matches(" ") }
/// The letters of a format that are not in use (R20).
#[verifier::external_body]
fn other_letter<'a>(s: &mut &'a str, ch: char, tm: &mut Tm) -> (r: Result<(), ParseError>) { unimplemented!() }

// ---------------------------------------------------------------- what the letters do
pub open spec fn lead(s: Seq<char>, max: nat) -> nat
    decreases max
{
    if max > 0 && s.len() > 0 && is_digit(s[0]) { 1 + lead(s.drop_first(), (max - 1) as nat) } else { 0 }
}
pub open spec fn get_digits(s: Seq<char>, min: nat, max: nat) -> Option<(int, Seq<char>)> {
    let n = lead(s, max);
    if n >= min { Some((digits_value(s.take(n as int)) as int, s.skip(n as int))) } else { None }
}
pub open spec fn ranged(s: Seq<char>, min: nat, max: nat, lo: int, hi: int) -> Option<(int, Seq<char>)> {
    match get_digits(s, min, max) { Some((v, t)) => if lo <= v <= hi { Some((v, t)) } else { None }, None => None }
}
pub open spec fn to_space(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 || s[0] == ' ' { s } else { to_space(s.drop_first()) }
}
pub open spec fn zone(s: Seq<char>) -> Seq<char> {
    if starts(s, "UTC"@) { s.skip(3) } else if starts(s, "GMT"@) { s.skip(3) } else { to_space(s) }
}
pub open spec fn in_use(c: char) -> bool { c == 'Y' || c == 'm' || c == 'd' || c == 'H' || c == 'M' || c == 'S' || c == 'Z' }
pub struct Got { pub c: Civil, pub off: int, pub nsec: int }
pub open spec fn got(tm: Tm) -> Got { Got { c: civil_of(tm), off: tm.tm_utcoff as int, nsec: tm.tm_nsec as int } }
pub open spec fn step(ch: char, s: Seq<char>, g: Got) -> Option<(Seq<char>, Got)> {
    if ch == 'Y' { match get_digits(s, 4, 4) { Some((v, t)) => Some((t, Got { c: Civil { year: v, ..g.c }, ..g })), None => None } }
    else if ch == 'm' { match ranged(s, 1, 2, 1, 12) { Some((v, t)) => Some((t, Got { c: Civil { month: v, ..g.c }, ..g })), None => None } }
    else if ch == 'd' { match ranged(s, 1, 2, 1, 31) { Some((v, t)) => Some((t, Got { c: Civil { day: v, ..g.c }, ..g })), None => None } }
    else if ch == 'H' { match ranged(s, 1, 2, 0, 23) { Some((v, t)) => Some((t, Got { c: Civil { hour: v, ..g.c }, ..g })), None => None } }
    else if ch == 'M' { match ranged(s, 1, 2, 0, 59) { Some((v, t)) => Some((t, Got { c: Civil { minute: v, ..g.c }, ..g })), None => None } }
    else if ch == 'S' { match ranged(s, 1, 2, 0, 60) { Some((v, t)) => Some((t, Got { c: Civil { second: v, ..g.c }, ..g })), None => None } }
    else { Some((zone(s), if starts(s, "UTC"@) || starts(s, "GMT"@) { Got { off: 0, ..g } } else { g })) }
}
/// All the letters of the format are in use.
pub open spec fn known(f: Seq<char>) -> bool
    decreases f.len()
{
    if f.len() == 0 { true }
    else if f[0] != '%' { known(f.drop_first()) }
    else if f.len() == 1 { true }
    else { in_use(f[1]) && known(f.drop_first().drop_first()) }
}
pub open spec fn run(f: Seq<char>, s: Seq<char>, g: Got) -> Option<Got>
    decreases f.len()
{
    if f.len() == 0 { Some(g) }
    else if f[0] != '%' { if s.len() > 0 && s[0] == f[0] { run(f.drop_first(), s.drop_first(), g) } else { None } }
    else if f.len() == 1 { Some(g) }
    else { match step(f[1], s, g) { Some((t, h)) => run(f.drop_first().drop_first(), t, h), None => None } }
}
pub open spec fn start() -> Got { Got { c: Civil { year: 1900, month: 1, day: 0, hour: 0, minute: 0, second: 0 }, off: 0, nsec: 0 } }

// ---------------------------------------------------------------- lemmas
proof fn lemma_lead(s: Seq<char>, max: nat)
    ensures
        lead(s, max) <= max, lead(s, max) <= s.len(),
        forall|i: int| 0 <= i < lead(s, max) ==> is_digit(#[trigger] s[i]),
        lead(s, max) < max && lead(s, max) < s.len() ==> !is_digit(s[lead(s, max) as int]),
    decreases max
{
    if max > 0 && s.len() > 0 && is_digit(s[0]) {
        let t = s.drop_first();
        lemma_lead(t, (max - 1) as nat);
        assert forall|i: int| 0 <= i < lead(s, max) implies is_digit(#[trigger] s[i]) by { if i > 0 { assert(s[i] == t[i - 1]); } }
        if lead(s, max) < max && lead(s, max) < s.len() { assert(s[lead(s, max) as int] == t[lead(s, max) - 1]); }
    }
}
proof fn lemma_lead_is(s: Seq<char>, max: nat, n: nat)
    requires n <= max, n <= s.len(), forall|i: int| 0 <= i < n ==> is_digit(#[trigger] s[i]), n == max || n == s.len() || !is_digit(s[n as int]),
    ensures lead(s, max) == n,
{
    lemma_lead(s, max);
    let m = lead(s, max);
    if m < n { assert(is_digit(s[m as int])); }
    if m > n { assert(is_digit(s[n as int])); }
}
pub open spec fn pow10(n: nat) -> nat decreases n { if n == 0 { 1 } else { 10 * pow10((n - 1) as nat) } }
proof fn lemma_value_bound(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]),
    ensures digits_value(s) < pow10(s.len()),
    decreases s.len()
{
    if s.len() > 0 { assert(is_digit(s[s.len() - 1])); lemma_value_bound(s.drop_last()); }
}
proof fn lemma_pow10(n: nat, m: nat)
    requires n <= m,
    ensures pow10(n) <= pow10(m), pow10(n) >= 1,
    decreases m
{
    if n < m { lemma_pow10(n, (m - 1) as nat); } else if n > 0 { lemma_pow10((n - 1) as nat, (n - 1) as nat); }
}
proof fn lemma_prefix_bytes(s: Seq<char>, n: nat)
    requires n <= s.len(), forall|i: int| 0 <= i < n ==> is_digit(#[trigger] s[i]),
    ensures encode_utf8(s.take(n as int)).len() == n,
    decreases n
{
    let p = s.take(n as int);
    if n > 0 {
        assert(p[0] == s[0]);
        assert(is_digit(s[0]));
        assert(p.drop_first() =~= s.drop_first().take(n - 1));
        assert(encode_utf8(p) =~= encode_scalar(p[0] as u32) + encode_utf8(p.drop_first()));
        lemma_prefix_bytes(s.drop_first(), (n - 1) as nat);
    }
}
/// Bytes of a prefix are no more than those of the text.
proof fn lemma_zero(s: Seq<char>)
    ensures encode_utf8(s.take(0)).len() == 0, s.skip(0) == s,
{
    assert(s.take(0) =~= Seq::empty()); assert(s.skip(0) =~= s);
}

proof fn lemma_first(s: Seq<char>)
    requires s.len() > 0,
    ensures encode_utf8(s.take(1)).len() == encode_scalar(s[0] as u32).len(), s.skip(1) == s.drop_first(),
{
    let p = s.take(1);
    assert(p.drop_first() =~= Seq::empty());
    assert(encode_utf8(p.drop_first()) =~= Seq::empty());
    assert(encode_utf8(p) =~= encode_scalar(p[0] as u32) + encode_utf8(p.drop_first()));
    assert(s.skip(1) =~= s.drop_first());
}
/// No text is larger than the address space.
#[verifier::external_body]
proof fn axiom_text_fits(s: &str)
    ensures encode_utf8(s@).len() <= isize::MAX,
{}

//@ file src/parse.rs
//@ fn strptime ret=r props=C01,C16 loops=1
//@ attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ spec
    ensures
        known(format@) ==> match r { Ok(tm) => run(format@, s@, start()) == Some(got(tm)), Err(_) => run(format@, s@, start()) is None },
        strptime_gives(s@, format@, r),
//@ start
    let ghost s0 = s@;
    proof { if format@ == "%Y%m%dt%H%M%S%Z"@ && time_shape(s0) { theorem_format(s0); } }
//@ loop 0 kind while-let
//@ loop 0 spec
        invariant
            known(format@) ==> known(chars.left()) && run(format@, s0, start()) == run(chars.left(), s@, got(tm)),
        ensures
            known(format@) ==> run(format@, s0, start()) == Some(got(tm)),
        decreases chars.left().len(),
//@ fn parse_type ret=r props=C01,C16 loops=1
//@ arms YmdHMSZ other_letter(s, ch, tm)
//@ spec
    ensures in_use(ch) ==> match r {
        Ok(_) => step(ch, old(s)@, got(*old(tm))) == Some((final(s)@, got(*final(tm)))),
        Err(_) => step(ch, old(s)@, got(*old(tm))) is None,
    },
//@ start
    let ghost s0 = s@;
    proof { reveal_strlit("UTC"); reveal_strlit("GMT"); }
//@ loop 0 kind for
//@ loop 0 desugar it
//@ loop 0 spec
        invariant
            it.text() == s0, s@ == s0, s0 == old(s)@, it.given() <= it.all(), it.all() == s0.len(),
            zone(s0) == to_space(s0.skip(it.given() as int)), !starts(s0, "UTC"@), !starts(s0, "GMT"@),
            in_use(ch) && ch == 'Z', got(*tm) == got(*old(tm)),
        ensures
            it.given() == it.all(),
        decreases it.all() - it.given(),
//@ loop 0 before
    proof { lemma_zero(s0); }
//@ loop 0 body-start
    proof {
        let k = it.given() - 1;
        assert(s0.skip(k)[0] == s0[k]);
        assert(s0.skip(k).drop_first() =~= s0.skip(k + 1));
        assert(i == encode_utf8(s0.take(k)).len());
    }
//@ loop 0 after
    proof { reveal_strlit(""); assert(s0.skip(s0.len() as int) =~= ""@); }
//@ fn match_str ret=r props=C01,C16
//@ spec
    ensures
        r == starts(old(s)@, needle@),
        final(s)@ == if r { old(s)@.skip(needle@.len() as int) } else { old(s)@ },
//@ start
    let ghost s0 = s@;
    proof { axiom_text_fits(needle); if starts(s0, needle@) { assert(encode_utf8(s0.take(needle@.len() as int)).len() == encode_utf8(needle@).len()); } }
//@ fn match_digits ret=r props=C01,C16
//@ spec
    requires !ws, max_digits <= 9,
    ensures match r {
        Some(v) => get_digits(old(ss)@, min_digits as nat, max_digits as nat) == Some((v as int, final(ss)@)) && v >= 0,
        None => get_digits(old(ss)@, min_digits as nat, max_digits as nat) is None && final(ss)@ == old(ss)@,
    },
//@ start
    proof { lemma_pow10(max_digits as nat, 9); assert(pow10(9) == 1_000_000_000) by (compute); }
//@ fn match_digits_i64 ret=r props=C01,C16 loops=1
//@ spec
    requires !ws, max_digits <= 18,
    ensures match r {
        Some(v) => get_digits(old(ss)@, min_digits as nat, max_digits as nat) == Some((v as int, final(ss)@)) && 0 <= v < pow10(max_digits as nat),
        None => get_digits(old(ss)@, min_digits as nat, max_digits as nat) is None && final(ss)@ == old(ss)@,
    },
//@ loop 0 kind for
//@ loop 0 desugar it
//@ loop 0 spec
        invariant_except_break it.given() == n,
        invariant
            it.text() == ss@, ss@ == s0, n <= s0.len(), n <= max_digits <= 18, it.all() == if max_digits < s0.len() { max_digits as nat } else { s0.len() },
            forall|i: int| 0 <= i < n ==> is_digit(#[trigger] s0[i]),
            value == digits_value(s0.take(n as int)), 0 <= value < pow10(n as nat),
        ensures
            n == max_digits || n == s0.len() || n < s0.len() && !is_digit(s0[n as int]),
        decreases it.all() - it.given(),
//@ start
    let ghost s0 = ss@;
    proof { lemma_zero(s0); }
//@ loop 0 body-start
    proof {
        assert(s0.take(n + 1).drop_last() =~= s0.take(n as int));
        assert(s0.take(n + 1).last() == ch);
        lemma_pow10(n as nat + 1, 18);
        assert(pow10(18) == 1_000_000_000_000_000_000) by (compute);
        assert(pow10(n as nat + 1) == 10 * pow10(n as nat));
    }
//@ loop 0 after
    proof {
        lemma_lead_is(s0, max_digits as nat, n as nat);
        lemma_prefix_bytes(s0, n as nat);
        lemma_pow10(n as nat, max_digits as nat);
    }
//@ fn match_digits_in_range ret=r props=C01,C16
//@ spec
    requires !ws, max_digits <= 9,
    ensures match r {
        Some(v) => ranged(old(ss)@, min_digits as nat, max_digits as nat, min as int, max as int) == Some((v as int, final(ss)@)),
        None => ranged(old(ss)@, min_digits as nat, max_digits as nat, min as int, max as int) is None && final(ss)@ == old(ss)@,
    },
//@ fn parse_char ret=r props=C01,C16
//@ spec
    ensures match r {
        Ok(_) => old(s)@.len() > 0 && old(s)@[0] == c && final(s)@ == old(s)@.drop_first(),
        Err(_) => !(old(s)@.len() > 0 && old(s)@[0] == c),
    },
//@ start
    proof { lemma_zero(s@); if s@.len() > 0 { lemma_first(s@); } }
//@ verus
proof fn lemma_field(s: Seq<char>, a: int, w: nat, min: nat)
    requires 0 <= a, a + w <= s.len(), min <= w, forall|i: int| a <= i < a + w ==> is_digit(#[trigger] s[i]),
    ensures get_digits(s.skip(a), min, w) == Some((number(s, a, a + w), s.skip(a + w))),
{
    let t = s.skip(a);
    assert forall|i: int| 0 <= i < w implies is_digit(#[trigger] t[i]) by { assert(t[i] == s[a + i]); }
    lemma_lead_is(t, w, w);
    assert(t.take(w as int) =~= s.subrange(a, a + w));
    assert(t.skip(w as int) =~= s.skip(a + w));
}
/// A letter of a format.
proof fn lemma_run(f: Seq<char>, i: int, s: Seq<char>, g: Got)
    requires 0 <= i, i + 1 < f.len(), f[i] == '%',
    ensures
        run(f.skip(i), s, g) == match step(f[i + 1], s, g) { Some((t, h)) => run(f.skip(i + 2), t, h), None => None },
        known(f.skip(i)) == (in_use(f[i + 1]) && known(f.skip(i + 2))),
{
    let t = f.skip(i);
    assert(t[0] == f[i] && t[1] == f[i + 1]);
    assert(t.drop_first().drop_first() =~= f.skip(i + 2));
}
proof fn lemma_numbers(s: Seq<char>)
    requires time_shape(s),
    ensures number(s, 0, 4) <= 9999, number(s, 0, 4) >= 0,
{
    let t = s.subrange(0, 4);
    assert forall|i: int| 0 <= i < 4 implies is_digit(#[trigger] t[i]) by { assert(t[i] == s[i]); assert(time_char(i, s[i])); }
    lemma_value_bound(t);
    assert(pow10(4) == 10_000) by (compute);
}
/// On a text of the shape of a timestamp, the format reads its numbers.
proof fn theorem_format(s: Seq<char>)
    requires time_shape(s),
    ensures
        known("%Y%m%dt%H%M%S%Z"@),
        match run("%Y%m%dt%H%M%S%Z"@, s, start()) {
            Some(g) => in_ranges(numbers(s)) && g.c == numbers(s) && g.off == 0 && g.nsec == 0,
            None => !in_ranges(numbers(s)),
        },
{
    let f = "%Y%m%dt%H%M%S%Z"@;
    reveal_strlit("%Y%m%dt%H%M%S%Z"); reveal_strlit("UTC"); reveal_strlit("GMT");
    assert(f.len() == 15);
    assert forall|i: int| 0 <= i < 16 implies i == 8 || i == 15 || is_digit(#[trigger] s[i]) by { assert(time_char(i, s[i])); }
    assert(time_char(8, s[8]));
    assert(f.skip(0) =~= f && s.skip(0) =~= s);
    lemma_numbers(s);
    lemma_field(s, 0, 4, 4); lemma_field(s, 4, 2, 1); lemma_field(s, 6, 2, 1); lemma_field(s, 9, 2, 1); lemma_field(s, 11, 2, 1); lemma_field(s, 13, 2, 1);
    let n = numbers(s);
    let c0 = start().c;
    let g1 = Got { c: Civil { year: n.year, ..c0 }, ..start() };
    let g2 = Got { c: Civil { month: n.month, ..g1.c }, ..g1 };
    let g3 = Got { c: Civil { day: n.day, ..g2.c }, ..g2 };
    let g4 = Got { c: Civil { hour: n.hour, ..g3.c }, ..g3 };
    let g5 = Got { c: Civil { minute: n.minute, ..g4.c }, ..g4 };
    let g6 = Got { c: Civil { second: n.second, ..g5.c }, ..g5 };
    // the end
    assert(f.skip(15).len() == 0);
    assert(s.skip(15).len() == 1);
    lemma_run(f, 13, s.skip(15), g6);
    assert(run(f.skip(13), s.skip(15), g6) == Some(g6));
    lemma_run(f, 11, s.skip(13), g5);
    lemma_run(f, 9, s.skip(11), g4);
    lemma_run(f, 7, s.skip(9), g3);
    assert(f.skip(6)[0] == 't' && s.skip(8)[0] == 't');
    assert(f.skip(6).drop_first() =~= f.skip(7) && s.skip(8).drop_first() =~= s.skip(9));
    assert(run(f.skip(6), s.skip(8), g3) == run(f.skip(7), s.skip(9), g3));
    assert(known(f.skip(6)) == known(f.skip(7)));
    lemma_run(f, 4, s.skip(6), g2);
    lemma_run(f, 2, s.skip(4), g1);
    lemma_run(f, 0, s.skip(0), start());
}
// ---------------------------------------------------------------- clocks
/// Trusted: the system.
mod sys {
    use super::*;
    /// `timegm`
    #[verifier::external_body]
    pub fn utc_tm_to_time(tm: &Tm) -> (r: i64)
        ensures in_ranges(civil_of(*tm)) ==> r == instant(civil_of(*tm)),
    { unimplemented!() }
    /// `mktime`
    #[verifier::external_body]
    pub fn local_tm_to_time(tm: &Tm) -> (r: i64) { unimplemented!() }
    /// `gmtime_r`
    #[verifier::external_body]
    pub fn time_to_utc_tm(sec: i64, tm: &mut Tm)
        ensures breaks_down(Timespec { sec, nsec: 0 }, 0, *final(tm)),
    { unimplemented!() }
    /// `localtime_r`
    #[verifier::external_body]
    pub fn time_to_local_tm(sec: i64, tm: &mut Tm)
        ensures breaks_down(Timespec { sec, nsec: 0 }, zone_offset(sec as int), *final(tm)),
    { unimplemented!() }
    /// `clock_gettime`
    #[verifier::external_body]
    pub fn get_time() -> (r: (i64, i32))
        ensures 0 <= r.1 < 1_000_000_000, clock_read(Timespec { sec: r.0, nsec: r.1 }),
    { unimplemented!() }
}
//@ file src/lib.rs
//@ fn Timespec::new ret=r
//@ spec
    requires 0 <= nsec < 1_000_000_000,
    ensures r == (Timespec { sec, nsec }),
//@ fn get_time ret=r
//@ spec
    ensures clock_read(r),
//@ fn empty_tm ret=r
//@ fn at_utc ret=r
//@ spec
    ensures breaks_down(clock, 0, r), is_shown(clock, r),
//@ tail
    proof {
        assert forall|c: Civil| #[trigger] clock_at(clock, 0, c) implies civil_of(tm) == c by { assert(clock_at(Timespec { sec, nsec: 0 }, 0, c)); }
    }
//@ fn at ret=r
//@ spec
    ensures breaks_down(clock, zone_offset(clock.sec as int), r), is_shown(clock, r),
//@ tail
    proof {
        assert forall|c: Civil| #[trigger] clock_at(clock, zone_offset(clock.sec as int), c) implies civil_of(tm) == c by { assert(clock_at(Timespec { sec, nsec: 0 }, zone_offset(clock.sec as int), c)); }
    }
//@ fn now_utc ret=r
//@ spec
    ensures this_year(r.tm_year + 1900),
//@ fn now ret=r
//@ spec
    ensures this_year(r.tm_year + 1900),
//@ fn Tm::to_timespec ret=r
//@ spec
    requires 0 <= self.tm_nsec < 1_000_000_000,
    ensures self.tm_utcoff == 0 && in_ranges(civil_of(*self)) ==> r.sec == instant(civil_of(*self)) && r.nsec == self.tm_nsec,
//@ verus
// ---------------------------------------------------------------- strftime
/// What is written of a TmFmt.
pub closed spec fn tm_text(f: TmFmt) -> Seq<char> {
    match f.format {
        Fmt::Str(s) => match filled(s@, civil_of(*f.tm)) { Some(t) => t, None => Seq::empty() },
        _ => Seq::empty(),      // not in use
    }
}
impl<'a> Shown for TmFmt<'a> { open spec fn shown(&self) -> Seq<char> { tm_text(*self) } }
pub closed spec fn formats(f: TmFmt) -> bool {
    match f.format { Fmt::Str(s) => writable(s@, *f.tm), _ => false }
}
//@ fn validate_format ret=r loops=1
//@ spec
    ensures formats(fmt) ==> r == Ok::<TmFmt, ParseError>(fmt),
//@ attr
#[verifier::loop_isolation(false)]
//@ start
    let ghost c = civil_of(*fmt.tm);
    proof { lemma_two_off(); }
//@ loop 0 kind loop
//@ loop 0 spec
        invariant formats(fmt) ==> filled(chars.left(), c) is Some,
        decreases chars.left().len(),
//@ fn Tm::strftime ret=r
//@ spec
    ensures writable(format@, *self) ==> r is Ok && fills(tm_text(r->Ok_0), format@, *self),
//@ fn strftime ret=r
//@ spec
    ensures writable(format@, *tm) ==> r is Ok && fills(r->Ok_0@, format@, *tm),
//@ closure 0 params 1
|fmt: TmFmt| -> (t: String)
//@ closure 0 spec
    ensures t@ == tm_text(fmt)
//@ verus
proof fn lemma_two_off()
    ensures forall|q: Seq<char>| q.len() >= 2 ==> #[trigger] q.drop_first().drop_first() == q.skip(2),
{
    assert forall|q: Seq<char>| q.len() >= 2 implies #[trigger] q.drop_first().drop_first() == q.skip(2) by { assert(q.drop_first().drop_first() =~= q.skip(2)); }
}
mod display {
use super::*;
impl Shown for i32 {
    open spec fn shown(&self) -> Seq<char> { if *self >= 0 { decimal(*self as nat) } else { seq!['-'] + decimal((-*self) as nat) } }
}
pub open spec fn zeros(n: int) -> Seq<char> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| '0') }
impl FmtArgs {
    /// `{:0N}`
    #[verifier::external_body]
    pub fn zeros(self, x: &i32, width: usize) -> (r: FmtArgs)
        ensures *x >= 0 ==> r@ == self@ + (zeros(width - x.shown().len()) + x.shown()),
    { unimplemented!() }
}
proof fn lemma_two(n: int)
    requires 0 <= n <= 99,
    ensures zeros(2 - decimal(n as nat).len()) + decimal(n as nat) == two(n),
{
    if n < 10 { assert(zeros(1) + decimal(n as nat) =~= two(n)); }
    else { assert(decimal(n as nat / 10) =~= seq![digit(n / 10)]); assert(zeros(0) + decimal(n as nat) =~= two(n)); }
}
proof fn lemma_put_together()
    ensures
        forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) == a + (b + c),
        forall|a: Seq<char>| #[trigger] (Seq::<char>::empty() + a) == a,
{
    assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] ((a + b) + c) == a + (b + c) by { assert((a + b) + c =~= a + (b + c)); }
    assert forall|a: Seq<char>| #[trigger] (Seq::<char>::empty() + a) == a by { assert(Seq::<char>::empty() + a =~= a); }
}
#[verifier::external_body]
fn other_form(f: &TmFmt, fmt: &mut Formatter) -> fmt::Result { unimplemented!() }
#[verifier::external_body]
fn other_directive(fmt: &mut Formatter, ch: char, tm: &Tm) -> fmt::Result { unimplemented!() }
//@ file src/display.rs
//@ fn TmFmt::fmt trait=Display inherent ret=r loops=1
//@ arms Str other_form(self, fmt)
//@ attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@ spec
    requires formats(*self), calendar(civil_of(*self.tm)),
    ensures writes(r, old(fmt), final(fmt), tm_text(*self)),
//@ start
    let ghost c = civil_of(*self.tm);
    proof { lemma_two_off(); lemma_put_together(); }
//@ loop 0 kind while-let
//@ loop 0 spec
        invariant
            filled(chars.left(), c) is Some,
            written(fmt) + filled(chars.left(), c)->Some_0 == written(old(fmt)) + tm_text(*self),
            accepts(old(fmt)) ==> accepts(fmt),
        decreases chars.left().len(),
//@ fn parse_type ret=r
//@ arms bhdHMmSRTY% other_directive(fmt, ch, tm)
//@ spec
    requires directive(ch, civil_of(*tm)) is Some, calendar(civil_of(*tm)),
    ensures writes(r, old(fmt), final(fmt), directive(ch, civil_of(*tm))->Some_0),
    decreases if ch == 'R' || ch == 'T' { 1int } else { 0 },
//@ start
    proof {
        lemma_put_together();
        lemma_two(tm.tm_mday as int); lemma_two(tm.tm_hour as int); lemma_two(tm.tm_min as int); lemma_two(tm.tm_sec as int); lemma_two(tm.tm_mon + 1);
        reveal_strlit(":"); reveal_strlit("%");
        assert(":"@ =~= seq![':']); assert("%"@ =~= seq!['%']);
    }
//@ verus
}
}
fn main() {}
