//@ subst s.bytes().enumerate() => numbered_bytes(s)
//@ subst .ends_with( => .ends_with_str(
//@ subst .to_ascii_lowercase() => .to_ascii_lowercase_()
//@ subst s.parse::<usize>() => parse_decimal(s)
//@ verus
#![feature(sized_hierarchy, const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialOrdSpec;
use vstd::utf8::{encode_utf8, encode_scalar, is_ascii_chars, leading_byte_width_2, leading_byte_width_3, leading_byte_width_4};
use std::cmp::Ordering;
use std::marker::PointeeSized;
use std::num::ParseIntError;
use regex::{Captures, Match, Regex};
use time::{ParseError, Timespec, Tm};
verus! {
//@ include time_spec.vc
//@ verus
// ---------------------------------------------------------------- digits
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
/// `usize::from_str`: digits after an optional plus sign
pub open spec fn parse_usize(s: Seq<char>) -> Option<nat> {
    let d = if s.len() > 0 && s[0] == '+' { s.drop_first() } else { s };
    if d.len() > 0 && all_digits(d) && digits_value(d) <= usize::MAX { Some(digits_value(d)) } else { None }
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPIE(ParseIntError);
#[verifier::external_body]
fn parse_decimal(s: &str) -> (r: Result<usize, ParseIntError>)
    ensures match r { Ok(n) => parse_usize(s@) == Some(n as nat), Err(_) => parse_usize(s@) is None },
{ s.parse::<usize>() }

// ---------------------------------------------------------------- trusted: text
/// `str::bytes` and `enumerate`.
#[verifier::external_body]
pub struct NumberedBytes<'a>(std::iter::Enumerate<std::str::Bytes<'a>>);
impl<'a> NumberedBytes<'a> {
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn all<F: FnMut((usize, u8)) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|x: (usize, u8)| #[trigger] call_requires(f, (x,)),
        ensures
            r ==> forall|i: int| 0 <= i < old(self).bytes().len() ==> call_ensures(f, ((i as usize, #[trigger] old(self).bytes()[i]),), true),
            !r ==> exists|i: int| 0 <= i < old(self).bytes().len() && call_ensures(f, ((i as usize, #[trigger] old(self).bytes()[i]),), false),
    { self.0.all(f) }
}
#[verifier::external_body]
fn numbered_bytes<'a>(s: &'a str) -> (r: NumberedBytes<'a>)
    ensures r.bytes() == encode_utf8(s@),
{ NumberedBytes(s.bytes().enumerate()) }
pub open spec fn lower_char(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u8) + 32) as char } else { c } }
pub open spec fn lower(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower_char(c)) }
pub open spec fn ends_in(s: Seq<char>, t: Seq<char>) -> bool { s.len() >= t.len() && s.skip(s.len() - t.len()) == t }
pub trait TextExt {
    spec fn text(&self) -> Seq<char>;
    fn ends_with_str(&self, t: &str) -> (r: bool) ensures r == ends_in(self.text(), t@);
    fn to_ascii_lowercase_(&self) -> (r: String) ensures r@ == lower(self.text());
}
impl TextExt for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn ends_with_str(&self, t: &str) -> bool { self.ends_with(t) }
    #[verifier::external_body]
    fn to_ascii_lowercase_(&self) -> String { self.to_ascii_lowercase() }
}
#[verifier::external_trait_specification]
pub trait ExAsRef<T: PointeeSized>: PointeeSized {
    type ExternalTraitSpecificationFor: AsRef<T>;
    fn as_ref(&self) -> &T;
}
pub assume_specification [u8::is_ascii_digit] (b: &u8) -> (r: bool)
    ensures r == (48 <= *b <= 57);
pub assume_specification [<String as AsRef<str>>::as_ref] (s: &String) -> (r: &str) ensures r@ == s@;

/// No text is larger than the address space.
#[verifier::external_body]
proof fn axiom_text_fits(s: &str)
    ensures encode_utf8(s@).len() <= isize::MAX,
{}
proof fn lemma_ascii(s: Seq<char>)
    requires is_ascii_chars(s),
    ensures encode_utf8(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] encode_utf8(s)[i] == s[i] as u8,
    decreases s.len(),
{
    if s.len() > 0 {
        let c = s[0] as u32;
        assert(s[0] <= '\x7f');
        assert(c & 0x7f == c) by (bit_vector) requires c <= 0x7f;
        assert(encode_utf8(s) =~= encode_scalar(c) + encode_utf8(s.drop_first()));
        assert(is_ascii_chars(s.drop_first()));
        lemma_ascii(s.drop_first());
    }
}
proof fn lemma_ascii_bytes(s: Seq<char>)
    requires forall|i: int| 0 <= i < encode_utf8(s).len() ==> (#[trigger] encode_utf8(s)[i]) < 0x80,
    ensures is_ascii_chars(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let c = s[0] as u32;
        let t = s.drop_first();
        assert(encode_utf8(s) =~= encode_scalar(c) + encode_utf8(t));
        assert forall|i: int| 0 <= i < encode_utf8(t).len() implies (#[trigger] encode_utf8(t)[i]) < 0x80 by {
            assert(encode_utf8(s)[i + encode_scalar(c).len()] == encode_utf8(t)[i]);
        }
        lemma_ascii_bytes(t);
        assert(encode_utf8(s)[0] < 0x80);
        assert(encode_utf8(s)[0] == encode_scalar(c)[0]);
        if !(c <= 0x7f) {
            assert(0xc0u8 | (((c >> 6) & 0x1f) as u8) >= 0x80) by (bit_vector);
            assert(0xe0u8 | (((c >> 12) & 0x0f) as u8) >= 0x80) by (bit_vector);
            assert(0xf0u8 | (((c >> 18) & 0x07) as u8) >= 0x80) by (bit_vector);
            assert(encode_scalar(c)[0] == leading_byte_width_2(c) || encode_scalar(c)[0] == leading_byte_width_3(c) || encode_scalar(c)[0] == leading_byte_width_4(c));
            assert(false);
        }
        assert forall|i: int| 0 <= i < s.len() implies '\0' <= #[trigger] s[i] <= '\x7f' by { if i > 0 { assert(s[i] == t[i - 1]); } }
    }
}

//@ include cal_spec.vc
//@ include strp_spec.vc
//@ verus
// ---------------------------------------------------------------- timestamps
/// The instant that a text denotes.
pub open spec fn time_of(s: Seq<char>) -> Option<Timespec> {
    if time_shape(s) && in_ranges(numbers(s)) { Some(Timespec { sec: instant(numbers(s)) as i64, nsec: 0 }) } else { None }
}
#[verifier::external_type_specification]
pub struct ExTm(Tm);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTimeError(time::ParseError);
/// Proved of the crate's source in timecrate.vc.
pub assume_specification [time::strptime] (s: &str, format: &str) -> (r: Result<Tm, time::ParseError>)
    ensures strptime_gives(s@, format@, r);
pub assume_specification [Tm::to_timespec] (tm: &Tm) -> (r: Timespec)
    requires 0 <= tm.tm_nsec < 1_000_000_000,
    ensures tm.tm_utcoff == 0 && in_ranges(civil_of(*tm)) ==> r.sec == instant(civil_of(*tm)) && r.nsec == tm.tm_nsec;
proof fn lemma_shape_bytes(s: Seq<char>)
    ensures
        encode_utf8(s).len() == 16 && (forall|i: int| 0 <= i < 16 ==> time_char(i, (#[trigger] encode_utf8(s)[i]) as char)) <==> time_shape(s),
{
    if time_shape(s) {
        assert forall|i: int| 0 <= i < s.len() implies '\0' <= (#[trigger] s[i]) <= '\x7f' by { assert(time_char(i, s[i])); }
        assert(is_ascii_chars(s));
        lemma_ascii(s);
        assert forall|i: int| 0 <= i < 16 implies time_char(i, (#[trigger] encode_utf8(s)[i]) as char) by { assert(time_char(i, s[i])); }
    }
    if encode_utf8(s).len() == 16 && (forall|i: int| 0 <= i < 16 ==> time_char(i, (#[trigger] encode_utf8(s)[i]) as char)) {
        assert forall|i: int| 0 <= i < encode_utf8(s).len() implies (#[trigger] encode_utf8(s)[i]) < 0x80 by { assert(time_char(i, encode_utf8(s)[i] as char)); }
        lemma_ascii_bytes(s);
        lemma_ascii(s);
        assert forall|i: int| 0 <= i < 16 implies time_char(i, #[trigger] s[i]) by { assert(time_char(i, encode_utf8(s)[i] as char)); }
    }
}
proof fn lemma_instant_small(c: Civil)
    requires in_ranges(c),
    ensures -62_200_000_000 <= instant(c) <= 253_500_000_000,
{}
//@ file src/timefmt.rs
//@ fn has_timestamp_shape ret=r props=C16,C01
//@ spec
    ensures r == time_shape(s@),
//@ tail
    proof { lemma_shape_bytes(s@); axiom_text_fits(s); }
//@ closure 0 params 1
|x: (usize, u8)| -> (r: bool)
//@ closure 0 spec
    ensures r == time_char(x.0 as int, x.1 as char)
//@ fn parse_time_str ret=r props=C16,C01
//@ spec
    ensures r == time_of(s@),
//@ closure 0 params 1
|tm: Tm| -> (t: Timespec)
//@ closure 0 spec
    requires 0 <= tm.tm_nsec < 1_000_000_000,
    ensures tm.tm_utcoff == 0 && in_ranges(civil_of(tm)) ==> t.sec == instant(civil_of(tm)) && t.nsec == tm.tm_nsec
//@ tail
    proof { if in_ranges(numbers(s@)) { lemma_instant_small(numbers(s@)); } }
//@ verus
// ---------------------------------------------------------------- trusted: crate regex
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExRegex(Regex);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExRegexError(regex::Error);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExCaptures<'h>(Captures<'h>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExMatch<'h>(Match<'h>);
/// The parts of a pattern that is anchored at the start of the text.
pub enum Item {
    Text(Seq<char>),                // that text
    Span(Seq<char>),                // (?P<name>.*?)
    Digits(Seq<char>),              // (?P<name>[0-9]+)
    Mark(Seq<char>, Seq<char>),     // (?P<name>(text))?, with a backslash for its dot
    EndOrDot,                       // ($|\.) or (\.|$)
}
/// Whether the item can stand for the characters of l from a to b.
pub open spec fn admits(it: Item, l: Seq<char>, a: int, b: int) -> bool {
    let t = l.subrange(a, b);
    0 <= a <= b <= l.len() && match it {
        Item::Text(s) => t == s,
        Item::Span(_) => forall|i: int| a <= i < b ==> #[trigger] l[i] != '\n',
        Item::Digits(_) => b > a && all_digits(t),
        Item::Mark(_, s) => b == a || t == s,
        Item::EndOrDot => (b == a && a == l.len()) || (b == a + 1 && l[a] == '.'),
    }
}
/// The text from cuts[i] to cuts[i + 1] is that of item i.
pub open spec fn is_match(its: Seq<Item>, l: Seq<char>, cuts: Seq<int>) -> bool {
    &&& cuts.len() == its.len() + 1
    &&& cuts[0] == 0
    &&& forall|i: int| 0 <= i < its.len() ==> admits(#[trigger] its[i], l, cuts[i], cuts[i + 1])
}
/// Spans are lazy, digits and marks greedy.
pub open spec fn prefers(it: Item, x: int, y: int) -> bool {
    match it { Item::Span(_) => x < y, Item::Digits(_) => x > y, Item::Mark(..) => x > y, _ => false }
}
pub open spec fn better(its: Seq<Item>, x: Seq<int>, y: Seq<int>, k: int) -> bool {
    &&& 0 <= k < its.len()
    &&& forall|i: int| 0 <= i <= k ==> #[trigger] x[i] == y[i]
    &&& prefers(its[k], x[k + 1], y[k + 1])
}
/// The leftmost-first match.
pub open spec fn preferred(its: Seq<Item>, l: Seq<char>, cuts: Seq<int>) -> bool {
    &&& is_match(its, l, cuts)
    &&& forall|w: Seq<int>, k: int| #[trigger] is_match(its, l, w) ==> !(#[trigger] better(its, w, cuts, k))
}
pub open spec fn matches(its: Seq<Item>, l: Seq<char>) -> bool { exists|cuts: Seq<int>| is_match(its, l, cuts) }
pub open spec fn the_match(its: Seq<Item>, l: Seq<char>) -> Seq<int> { choose|cuts: Seq<int>| preferred(its, l, cuts) }
pub open spec fn item_name(it: Item) -> Option<Seq<char>> {
    match it { Item::Span(n) => Some(n), Item::Digits(n) => Some(n), Item::Mark(n, _) => Some(n), _ => None }
}
/// The text of the i-th item, if it takes part.
pub open spec fn part(its: Seq<Item>, l: Seq<char>, cuts: Seq<int>, i: int) -> Option<Seq<char>> {
    if its[i] is Mark && cuts[i] == cuts[i + 1] { None } else { Some(l.subrange(cuts[i], cuts[i + 1])) }
}
/// The parts of a pattern, for the patterns that this development knows.
pub uninterp spec fn items_of(pattern: Seq<char>) -> Option<Seq<Item>>;
pub open spec fn full_volume() -> Seq<Item> {
    seq![Item::Text("duplicity-full."@), Item::Span("time"@), Item::Text(".vol"@), Item::Digits("num"@), Item::Text(".difftar"@), Item::Mark("partial"@, ".part"@), Item::EndOrDot]
}
pub open spec fn full_manifest() -> Seq<Item> {
    seq![Item::Text("duplicity-full."@), Item::Span("time"@), Item::Text(".manifest"@), Item::Mark("partial"@, ".part"@), Item::EndOrDot]
}
pub open spec fn inc_volume() -> Seq<Item> {
    seq![Item::Text("duplicity-inc."@), Item::Span("start_time"@), Item::Text(".to."@), Item::Span("end_time"@), Item::Text(".vol"@), Item::Digits("num"@), Item::Text(".difftar"@), Item::EndOrDot]
}
pub open spec fn inc_manifest() -> Seq<Item> {
    seq![Item::Text("duplicity-inc."@), Item::Span("start_time"@), Item::Text(".to."@), Item::Span("end_time"@), Item::Text(".manifest"@), Item::Mark("partial"@, ".part"@), Item::EndOrDot]
}
pub open spec fn full_signature() -> Seq<Item> {
    seq![Item::Text("duplicity-full-signatures."@), Item::Span("time"@), Item::Text(".sigtar"@), Item::Mark("partial"@, ".part"@), Item::EndOrDot]
}
pub open spec fn new_signature() -> Seq<Item> {
    seq![Item::Text("duplicity-new-signatures."@), Item::Span("start_time"@), Item::Text(".to."@), Item::Span("end_time"@), Item::Text(".sigtar"@), Item::Mark("partial"@, ".part"@), Item::EndOrDot]
}
/// A letter or one of a few signs: it stands for itself in a pattern, or, a dot, after a backslash.
pub open spec fn plain(c: char) -> bool { ('a' <= c && c <= 'z') || c == '-' || c == '_' || c == '.' }
pub open spec fn plain_text(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> plain(#[trigger] s[i]) }
pub open spec fn escaped(s: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { seq![] } else { (if s[0] == '.' { seq!['\\', '.'] } else { seq![s[0]] }) + escaped(s.skip(1)) }
}
pub open spec fn group(name: Seq<char>, inside: Seq<char>) -> Seq<char> { "(?P<"@ + name + ">"@ + inside + ")"@ }
/// How an item is written; some have two ways.
pub open spec fn spelled(it: Item, way: bool) -> Seq<char> {
    match it {
        Item::Text(s) => escaped(s),
        Item::Span(n) => group(n, ".*?"@),
        Item::Digits(n) => group(n, "[0-9]+"@),
        Item::Mark(n, s) => group(n, if way { "("@ + escaped(s) + ")"@ } else { escaped(s) }) + "?"@,
        Item::EndOrDot => if way { r"($|\.)"@ } else { r"(\.|$)"@ },
    }
}
pub open spec fn pattern_to(its: Seq<Item>, ways: Seq<bool>, n: int) -> Seq<char>
    decreases n,
{
    if n <= 0 { "^"@ } else { pattern_to(its, ways, n - 1) + spelled(its[n - 1], ways[n - 1]) }
}
pub open spec fn pattern(its: Seq<Item>, ways: Seq<bool>) -> Seq<char> { pattern_to(its, ways, its.len() as int) }
pub open spec fn well_formed(its: Seq<Item>) -> bool {
    &&& forall|i: int| 0 <= i < its.len() ==> match #[trigger] its[i] {
        Item::Text(s) => plain_text(s) && (i + 1 < its.len() ==> !(its[i + 1] is Text)),
        Item::Span(n) => plain_text(n) && !n.contains('.'),
        Item::Digits(n) => plain_text(n) && !n.contains('.'),
        Item::Mark(n, s) => plain_text(n) && !n.contains('.') && plain_text(s),
        Item::EndOrDot => true,
    }
    &&& forall|i: int, j: int| 0 <= i < j < its.len() && item_name(its[i]) is Some ==> item_name(#[trigger] its[i]) != item_name(#[trigger] its[j])
}
/// What a pattern that is written like this means.
#[verifier::external_body]
proof fn axiom_pattern(its: Seq<Item>, ways: Seq<bool>)
    requires well_formed(its), ways.len() == its.len(),
    ensures items_of(pattern(its, ways)) == Some(its),
{}
proof fn lemma_pieces()
    ensures "(?P<"@ == seq!['(', '?', 'P', '<'], ">"@ == seq!['>'], ")"@ == seq![')'], "("@ == seq!['('], "?"@ == seq!['?'], "^"@ == seq!['^'],
        ".*?"@ == seq!['.', '*', '?'], "[0-9]+"@ == seq!['[', '0', '-', '9', ']', '+'], r"($|\.)"@ == seq!['(', '$', '|', '\\', '.', ')'], r"(\.|$)"@ == seq!['(', '\\', '.', '|', '$', ')'],
{
    reveal_strlit("(?P<"); reveal_strlit(">"); reveal_strlit(")"); reveal_strlit("("); reveal_strlit("?"); reveal_strlit("^");
    reveal_strlit(".*?"); reveal_strlit("[0-9]+"); reveal_strlit(r"($|\.)"); reveal_strlit(r"(\.|$)");
    assert("(?P<"@ =~= seq!['(', '?', 'P', '<']); assert(">"@ =~= seq!['>']); assert(")"@ =~= seq![')']); assert("("@ =~= seq!['(']); assert("?"@ =~= seq!['?']); assert("^"@ =~= seq!['^']);
    assert(".*?"@ =~= seq!['.', '*', '?']); assert("[0-9]+"@ =~= seq!['[', '0', '-', '9', ']', '+']); assert(r"($|\.)"@ =~= seq!['(', '$', '|', '\\', '.', ')']); assert(r"(\.|$)"@ =~= seq!['(', '\\', '.', '|', '$', ')']);
}
proof fn lemma_names()
    ensures
        plain_text("time"@), plain_text("num"@), plain_text("partial"@), plain_text("start_time"@), plain_text("end_time"@),
        !"time"@.contains('.'), !"num"@.contains('.'), !"partial"@.contains('.'), !"start_time"@.contains('.'), !"end_time"@.contains('.'),
        "time"@.len() == 4, "num"@.len() == 3, "partial"@.len() == 7, "start_time"@.len() == 10, "end_time"@.len() == 8,
{
    reveal_strlit("time"); reveal_strlit("num"); reveal_strlit("partial"); reveal_strlit("start_time"); reveal_strlit("end_time");
}
//@ include patterns.vc
//@ verus
pub uninterp spec fn re_items(re: Regex) -> Option<Seq<Item>>;
pub uninterp spec fn caps_items(c: Captures<'_>) -> Seq<Item>;
pub uninterp spec fn caps_text(c: Captures<'_>) -> Seq<char>;
pub uninterp spec fn match_text(m: Match<'_>) -> Seq<char>;
pub assume_specification [Regex::new] (re: &str) -> (r: Result<Regex, regex::Error>)
    ensures items_of(re@) is Some ==> r is Ok && re_items(r->Ok_0) == items_of(re@);
pub assume_specification<'h> [Regex::captures] (re: &Regex, l: &'h str) -> (r: Option<Captures<'h>>)
    ensures re_items(*re) is Some ==> match r {
        Some(c) => caps_items(c) == re_items(*re)->Some_0 && caps_text(c) == l@
            && preferred(caps_items(c), l@, the_match(caps_items(c), l@)),
        None => !matches(re_items(*re)->Some_0, l@),
    };
pub assume_specification<'h> [Captures::<'h>::name] (c: &Captures<'h>, name: &str) -> (r: Option<Match<'h>>)
    ensures forall|i: int| 0 <= i < caps_items(*c).len() && item_name(#[trigger] caps_items(*c)[i]) == Some(name@) ==>
        match r {
            Some(m) => part(caps_items(*c), caps_text(*c), the_match(caps_items(*c), caps_text(*c)), i) == Some(match_text(m)),
            None => part(caps_items(*c), caps_text(*c), the_match(caps_items(*c), caps_text(*c)), i) is None,
        };
pub assume_specification<'h> [Match::<'h>::as_str] (m: &Match<'h>) -> (r: &'h str) ensures r@ == match_text(*m);
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    where T: std::marker::Destruct
    ensures r == (if a is Some { a } else { b });
// ---------------------------------------------------------------- file names
//@ file src/collections/file_naming.rs
//@ item struct Info vis=pub
//@ item enum Type vis=pub
//@ item struct FileNameParser vis=pub
//@ verus
/// A parser as FileNameParser::new makes it.
pub closed spec fn made(p: FileNameParser) -> bool {
    &&& re_items(p.full_vol_re) == Some(full_volume())
    &&& re_items(p.full_manifest_re) == Some(full_manifest())
    &&& re_items(p.inc_vol_re) == Some(inc_volume())
    &&& re_items(p.inc_manifest_re) == Some(inc_manifest())
    &&& re_items(p.full_sig_re) == Some(full_signature())
    &&& re_items(p.new_sig_re) == Some(new_signature())
}
/// The text of the i-th item in the match.
pub open spec fn seg(its: Seq<Item>, l: Seq<char>, i: int) -> Seq<char> { l.subrange(the_match(its, l)[i], the_match(its, l)[i + 1]) }
pub open spec fn volume(s: Seq<char>) -> Option<usize> { match parse_usize(s) { Some(n) => Some(n as usize), None => None } }
pub open spec fn read_full(l: Seq<char>) -> Option<Type> {
    if matches(full_volume(), l) {
        match (time_of(seg(full_volume(), l, 1)), volume(seg(full_volume(), l, 3))) {
            (Some(time), Some(volume_number)) => Some(Type::Full { time, volume_number }),
            _ => None,
        }
    } else if matches(full_manifest(), l) {
        match time_of(seg(full_manifest(), l, 1)) {
            Some(time) => Some(Type::FullManifest { time, partial: seg(full_manifest(), l, 3).len() > 0 }),
            None => None,
        }
    } else { None }
}
pub open spec fn read_inc(l: Seq<char>) -> Option<Type> {
    if matches(inc_volume(), l) {
        match (time_of(seg(inc_volume(), l, 1)), time_of(seg(inc_volume(), l, 3)), volume(seg(inc_volume(), l, 5))) {
            (Some(start_time), Some(end_time), Some(volume_number)) => Some(Type::Inc { start_time, end_time, volume_number }),
            _ => None,
        }
    } else if matches(inc_manifest(), l) {
        match (time_of(seg(inc_manifest(), l, 1)), time_of(seg(inc_manifest(), l, 3))) {
            (Some(start_time), Some(end_time)) => Some(Type::IncManifest { start_time, end_time, partial: seg(inc_manifest(), l, 5).len() > 0 }),
            _ => None,
        }
    } else { None }
}
pub open spec fn read_sig(l: Seq<char>) -> Option<Type> {
    if matches(full_signature(), l) {
        match time_of(seg(full_signature(), l, 1)) {
            Some(time) => Some(Type::FullSig { time, partial: seg(full_signature(), l, 3).len() > 0 }),
            None => None,
        }
    } else if matches(new_signature(), l) {
        match (time_of(seg(new_signature(), l, 1)), time_of(seg(new_signature(), l, 3))) {
            (Some(start_time), Some(end_time)) => Some(Type::NewSig { start_time, end_time, partial: seg(new_signature(), l, 5).len() > 0 }),
            _ => None,
        }
    } else { None }
}
pub open spec fn compressed_name(l: Seq<char>) -> bool { ends_in(l, ".gz"@) || ends_in(l, ".z"@) }
pub open spec fn encrypted_name(l: Seq<char>) -> bool { ends_in(l, ".gpg"@) || ends_in(l, ".g"@) }
pub open spec fn read_type(l: Seq<char>) -> Option<Type> {
    if read_full(l) is Some { read_full(l) } else if read_inc(l) is Some { read_inc(l) } else { read_sig(l) }
}
/// What a file name says.
pub closed spec fn read_name(name: Seq<char>) -> Option<Info> {
    match read_type(lower(name)) {
        Some(tp) => Some(Info { tp, compressed: compressed_name(lower(name)), encrypted: encrypted_name(lower(name)) }),
        None => None,
    }
}
pub broadcast proof fn lemma_captures(its: Seq<Item>, l: Seq<char>)
    requires preferred(its, l, the_match(its, l)),
    ensures #[trigger] matches(its, l),
{
    assert(is_match(its, l, the_match(its, l)));
}
//@ fn get_vol_num ret=r props=C01
//@ spec
    ensures r == volume(s@),
//@ fn is_encrypted ret=r props=C01
//@ spec
    ensures r == encrypted_name(s@),
//@ fn is_compressed ret=r props=C01
//@ spec
    ensures r == compressed_name(s@),
//@ fn FileNameParser::new ret=r props=C01
//@ spec
    ensures made(r),
//@ start
    proof { lemma_patterns(); }
//@ fn FileNameParser::check_full ret=r props=C01
//@ spec
    requires made(*self),
    ensures r == read_full(filename@),
//@ start
    proof { lemma_names(); }
    broadcast use lemma_captures;
//@ fn FileNameParser::check_inc ret=r props=C01
//@ spec
    requires made(*self),
    ensures r == read_inc(filename@),
//@ start
    proof { lemma_names(); }
    broadcast use lemma_captures;
//@ fn FileNameParser::check_sig ret=r props=C01
//@ spec
    requires made(*self),
    ensures r == read_sig(filename@),
//@ start
    proof { lemma_names(); }
    broadcast use lemma_captures;
//@ fn FileNameParser::parse ret=r props=C01
//@ spec
    requires made(*self),
    ensures r == read_name(filename@),
//@ closure 0 params 1
|t: Type| -> (i: Info)
//@ closure 0 spec
    ensures i == (Info { tp: t, compressed: compressed_name(lower_fname@), encrypted: encrypted_name(lower_fname@) })
//@ verus
// ---------------------------------------------------------------- C16
pub open spec fn digit(d: int) -> char { (('0' as u8) + d) as u8 as char }
/// The number n in w digits.
pub open spec fn pad(n: int, w: nat) -> Seq<char>
    decreases w
{
    if w == 0 { seq![] } else { pad(n / 10, (w - 1) as nat).push(digit(n % 10)) }
}
pub open spec fn power10(w: nat) -> int
    decreases w
{
    if w == 0 { 1 } else { 10 * power10((w - 1) as nat) }
}
/// The text that duplicity writes for a date and time of day, in lower case.
pub open spec fn text_of(c: Civil) -> Seq<char> {
    pad(c.year, 4) + pad(c.month, 2) + pad(c.day, 2) + seq!['t'] + pad(c.hour, 2) + pad(c.minute, 2) + pad(c.second, 2) + seq!['z']
}
proof fn lemma_pad(n: int, w: nat)
    requires 0 <= n < power10(w),
    ensures pad(n, w).len() == w, all_digits(pad(n, w)), digits_value(pad(n, w)) == n,
    decreases w,
{
    if w > 0 {
        lemma_pad(n / 10, (w - 1) as nat);
        let p = pad(n / 10, (w - 1) as nat);
        assert(pad(n, w).drop_last() =~= p);
        assert forall|i: int| 0 <= i < pad(n, w).len() implies is_digit(#[trigger] pad(n, w)[i]) by {
            if i < p.len() { assert(pad(n, w)[i] == p[i]); }
        }
    } else {
        assert(n == 0);
    }
}
/// Every date and time of day is accepted, and is the instant that the calendar gives it.
pub proof fn theorem_time_accepted(c: Civil)
    requires calendar(c),
    ensures
        time_of(text_of(c)) == Some(Timespec { sec: instant(c) as i64, nsec: 0 }),
        i64::MIN <= instant(c) <= i64::MAX,
{
    reveal_with_fuel(power10, 5);
    lemma_pad(c.year, 4); lemma_pad(c.month, 2); lemma_pad(c.day, 2); lemma_pad(c.hour, 2); lemma_pad(c.minute, 2); lemma_pad(c.second, 2);
    let s = text_of(c);
    assert(s.subrange(0, 4) =~= pad(c.year, 4));
    assert(s.subrange(4, 6) =~= pad(c.month, 2));
    assert(s.subrange(6, 8) =~= pad(c.day, 2));
    assert(s.subrange(9, 11) =~= pad(c.hour, 2));
    assert(s.subrange(11, 13) =~= pad(c.minute, 2));
    assert(s.subrange(13, 15) =~= pad(c.second, 2));
    assert(numbers(s) == c);
    assert(in_ranges(c));
    lemma_instant_small(c);
    assert forall|i: int| 0 <= i < 16 implies time_char(i, #[trigger] s[i]) by {
        if i < 4 { assert(s[i] == pad(c.year, 4)[i]); }
        else if i < 6 { assert(s[i] == pad(c.month, 2)[i - 4]); }
        else if i < 8 { assert(s[i] == pad(c.day, 2)[i - 6]); }
        else if i == 8 {}
        else if i < 11 { assert(s[i] == pad(c.hour, 2)[i - 9]); }
        else if i < 13 { assert(s[i] == pad(c.minute, 2)[i - 11]); }
        else if i < 15 { assert(s[i] == pad(c.second, 2)[i - 13]); }
    }
}
pub open spec fn next_day(c: Civil) -> Civil {
    if c.day < month_len(c.year, c.month) { Civil { day: c.day + 1, ..c } }
    else if c.month < 12 { Civil { month: c.month + 1, day: 1, ..c } }
    else { Civil { year: c.year + 1, month: 1, day: 1, ..c } }
}
proof fn lemma_year(y: int)
    ensures days_to_year(y + 1) == days_to_year(y) + if leap(y) { 366int } else { 365 },
{
    assert((y + 4) / 4 == (y + 3) / 4 + if y % 4 == 0 { 1int } else { 0 });
    assert((y + 100) / 100 == (y + 99) / 100 + if y % 100 == 0 { 1int } else { 0 });
    assert((y + 400) / 400 == (y + 399) / 400 + if y % 400 == 0 { 1int } else { 0 });
}
/// The calendar: the epoch is the instant 0, the next day is one day later, and times of day count seconds.
pub proof fn theorem_calendar(c: Civil)
    requires calendar(c),
    ensures
        instant(Civil { year: 1970, month: 1, day: 1, hour: 0, minute: 0, second: 0 }) == 0,
        instant(next_day(c)) == instant(c) + 86400,
        instant(c) == instant(Civil { hour: 0, minute: 0, second: 0, ..c }) + 3600 * c.hour + 60 * c.minute + c.second,
{
    lemma_year(c.year);
}
pub open spec fn earlier(a: Civil, b: Civil) -> bool {
    a.year < b.year || (a.year == b.year && (a.month < b.month || (a.month == b.month && (a.day < b.day || (a.day == b.day
        && (a.hour < b.hour || (a.hour == b.hour && (a.minute < b.minute || (a.minute == b.minute && a.second < b.second)))))))))
}
proof fn lemma_years(a: int, b: int)
    requires a <= b,
    ensures days_to_year(b) >= days_to_year(a) + 365 * (b - a), b > a && leap(a) ==> days_to_year(b) >= days_to_year(a) + 366,
    decreases b - a,
{
    if a < b { lemma_year(b - 1); lemma_years(a, b - 1); }
}
/// A later date and time of day gives a later instant.
pub proof fn theorem_time_later(a: Civil, b: Civil)
    requires calendar(a), calendar(b), earlier(a, b),
    ensures
        instant(a) < instant(b),
        ts_lt(time_of(text_of(a))->Some_0, time_of(text_of(b))->Some_0),
{
    theorem_time_accepted(a);
    theorem_time_accepted(b);
    if a.year < b.year {
        lemma_years(a.year, b.year);
        assert(day_number(a) < day_number(b));
    } else if a.month < b.month || a.day < b.day {
        assert(day_number(a) < day_number(b));
    }
}
// ---------------------------------------------------------------- C01
/// What may follow the kind: nothing, or an extension.
pub open spec fn tail_ok(z: Seq<char>) -> bool { z.len() == 0 || z[0] == '.' }
/// The partial mark.
pub open spec fn marked(z: Seq<char>) -> bool { z.len() >= 5 && z.take(5) == ".part"@ && tail_ok(z.skip(5)) }
pub open spec fn number_ok(n: Seq<char>, v: usize) -> bool { n.len() > 0 && all_digits(n) && digits_value(n) == v }
pub open spec fn name1(prefix: Seq<char>, t: Seq<char>, rest: Seq<char>) -> Seq<char> { prefix + t + rest }
pub open spec fn name2(prefix: Seq<char>, t: Seq<char>, u: Seq<char>, rest: Seq<char>) -> Seq<char> { prefix + t + ".to."@ + u + rest }
pub open spec fn vol_rest(n: Seq<char>, z: Seq<char>) -> Seq<char> { ".vol"@ + n + ".difftar"@ + z }
/// l is, in lower case, a name that duplicity gives to a file of that type.
pub open spec fn spells(l: Seq<char>, tp: Type) -> bool {
    match tp {
        Type::Full { time, volume_number } => exists|t: Seq<char>, n: Seq<char>, z: Seq<char>| spells_full(l, t, n, z, time, volume_number),
        Type::FullManifest { time, partial } => exists|t: Seq<char>, z: Seq<char>| spells1(l, "duplicity-full."@, ".manifest"@, t, z, time, partial),
        Type::Inc { start_time, end_time, volume_number } => exists|t: Seq<char>, u: Seq<char>, n: Seq<char>, z: Seq<char>| spells_inc(l, t, u, n, z, start_time, end_time, volume_number),
        Type::IncManifest { start_time, end_time, partial } => exists|t: Seq<char>, u: Seq<char>, z: Seq<char>| spells2(l, "duplicity-inc."@, ".manifest"@, t, u, z, start_time, end_time, partial),
        Type::FullSig { time, partial } => exists|t: Seq<char>, z: Seq<char>| spells1(l, "duplicity-full-signatures."@, ".sigtar"@, t, z, time, partial),
        Type::NewSig { start_time, end_time, partial } => exists|t: Seq<char>, u: Seq<char>, z: Seq<char>| spells2(l, "duplicity-new-signatures."@, ".sigtar"@, t, u, z, start_time, end_time, partial),
    }
}
pub open spec fn spells_full(l: Seq<char>, t: Seq<char>, n: Seq<char>, z: Seq<char>, time: Timespec, v: usize) -> bool {
    l == name1("duplicity-full."@, t, vol_rest(n, z)) && time_of(t) == Some(time) && number_ok(n, v) && tail_ok(z)
}
pub open spec fn spells1(l: Seq<char>, prefix: Seq<char>, kind: Seq<char>, t: Seq<char>, z: Seq<char>, time: Timespec, partial: bool) -> bool {
    l == name1(prefix, t, kind + z) && time_of(t) == Some(time) && tail_ok(z) && partial == marked(z)
}
pub open spec fn spells_inc(l: Seq<char>, t: Seq<char>, u: Seq<char>, n: Seq<char>, z: Seq<char>, start: Timespec, end: Timespec, v: usize) -> bool {
    l == name2("duplicity-inc."@, t, u, vol_rest(n, z)) && time_of(t) == Some(start) && time_of(u) == Some(end) && number_ok(n, v) && tail_ok(z)
}
pub open spec fn spells2(l: Seq<char>, prefix: Seq<char>, kind: Seq<char>, t: Seq<char>, u: Seq<char>, z: Seq<char>, start: Timespec, end: Timespec, partial: bool) -> bool {
    l == name2(prefix, t, u, kind + z) && time_of(t) == Some(start) && time_of(u) == Some(end) && tail_ok(z) && partial == marked(z)
}
pub open spec fn starts_in(l: Seq<char>, p: Seq<char>) -> bool { l.len() >= p.len() && l.take(p.len() as int) == p }
proof fn lemma_literals()
    ensures
        "duplicity-full."@.len() == 15, "duplicity-inc."@.len() == 14, "duplicity-full-signatures."@.len() == 26, "duplicity-new-signatures."@.len() == 25,
        "duplicity-full."@[14] == '.', "duplicity-full-signatures."@[14] == '-',
        "duplicity-full."@[10] == 'f', "duplicity-full-signatures."@[10] == 'f', "duplicity-inc."@[10] == 'i', "duplicity-new-signatures."@[10] == 'n',
        ".to."@.len() == 4, ".vol"@.len() == 4, ".difftar"@.len() == 8, ".manifest"@.len() == 9, ".sigtar"@.len() == 7, ".part"@.len() == 5,
        ".to."@[0] == '.', ".vol"@[0] == '.', ".difftar"@[0] == '.', ".manifest"@[0] == '.', ".sigtar"@[0] == '.', ".part"@[0] == '.',
{
    reveal_strlit("duplicity-full."); reveal_strlit("duplicity-inc."); reveal_strlit("duplicity-full-signatures."); reveal_strlit("duplicity-new-signatures.");
    reveal_strlit(".to."); reveal_strlit(".vol"); reveal_strlit(".difftar"); reveal_strlit(".manifest"); reveal_strlit(".sigtar"); reveal_strlit(".part");
}
/// Two matches that agree up to a span agree on it too when it has no dot in one of them and is followed by a dot.
proof fn lemma_span(its: Seq<Item>, l: Seq<char>, m: Seq<int>, w: Seq<int>, k: int)
    requires
        preferred(its, l, m), is_match(its, l, w),
        0 <= k < its.len() - 1, its[k] is Span, its[k + 1] is Text, its[k + 1]->Text_0.len() > 0, its[k + 1]->Text_0[0] == '.',
        forall|i: int| 0 <= i <= k ==> m[i] == #[trigger] w[i],
        forall|i: int| w[k] <= i < w[k + 1] ==> #[trigger] l[i] != '.',
    ensures forall|i: int| 0 <= i <= k + 2 ==> m[i] == #[trigger] w[i],
{
    assert(admits(its[k], l, m[k], m[k + 1]));
    assert(admits(its[k + 1], l, m[k + 1], m[k + 2]));
    assert(admits(its[k + 1], l, w[k + 1], w[k + 2]));
    assert(m[k] <= m[k + 1] && m[k + 1] <= m[k + 2] && m[k + 2] <= l.len());
    assert(w[k] <= w[k + 1] && w[k + 1] <= w[k + 2] && w[k + 2] <= l.len());
    let a = l.subrange(m[k + 1], m[k + 2]);
    assert(a == its[k + 1]->Text_0 && a[0] == l[m[k + 1]]);
    if w[k + 1] < m[k + 1] {
        assert(w[k] == m[k]);
        assert forall|i: int| 0 <= i <= k implies #[trigger] w[i] == m[i] by { assert(m[i] == w[i]); }
        assert(better(its, w, m, k));
        assert(false);
    }
    assert(m[k + 1] >= w[k + 1]) by { assert(m[k] == w[k]); }
    assert(l.subrange(w[k + 1], w[k + 2]).len() == a.len());
}
/// Two matches that agree up to a number agree on it too when a dot follows.
proof fn lemma_digits(its: Seq<Item>, l: Seq<char>, m: Seq<int>, w: Seq<int>, k: int)
    requires
        is_match(its, l, m), is_match(its, l, w),
        0 <= k < its.len() - 1, its[k] is Digits, its[k + 1] is Text, its[k + 1]->Text_0.len() > 0, its[k + 1]->Text_0[0] == '.',
        forall|i: int| 0 <= i <= k ==> m[i] == #[trigger] w[i],
    ensures forall|i: int| 0 <= i <= k + 2 ==> m[i] == #[trigger] w[i],
{
    assert(admits(its[k], l, m[k], m[k + 1]) && admits(its[k], l, w[k], w[k + 1]));
    assert(admits(its[k + 1], l, m[k + 1], m[k + 2]));
    assert(admits(its[k + 1], l, w[k + 1], w[k + 2]));
    assert(m[k] <= m[k + 1] && m[k + 1] <= m[k + 2] && m[k + 2] <= l.len());
    assert(w[k] <= w[k + 1] && w[k + 1] <= w[k + 2] && w[k + 2] <= l.len());
    let a = l.subrange(m[k + 1], m[k + 2]);
    let b = l.subrange(w[k + 1], w[k + 2]);
    assert(a[0] == l[m[k + 1]] && b[0] == l[w[k + 1]]);
    assert(m[k] == w[k]);
    if w[k + 1] < m[k + 1] {
        let d = l.subrange(m[k], m[k + 1]);
        assert(d[w[k + 1] - w[k]] == l[w[k + 1]] && is_digit(d[w[k + 1] - w[k]]));
    }
    if m[k + 1] < w[k + 1] {
        let d = l.subrange(w[k], w[k + 1]);
        assert(d[m[k + 1] - m[k]] == l[m[k + 1]] && is_digit(d[m[k + 1] - m[k]]));
    }
    assert(a.len() == b.len());
}
/// A mark is there exactly when the tail has it.
proof fn lemma_mark(its: Seq<Item>, l: Seq<char>, m: Seq<int>, k: int)
    requires
        preferred(its, l, m),
        0 <= k == its.len() - 2, its[k] is Mark, its[k]->Mark_1 == ".part"@, its[k + 1] is EndOrDot,
    ensures
        tail_ok(l.skip(m[k])),
        (m[k + 1] > m[k]) == marked(l.skip(m[k])),
{
    lemma_literals();
    let z = l.skip(m[k]);
    assert(admits(its[k], l, m[k], m[k + 1]));
    assert(admits(its[k + 1], l, m[k + 1], m[k + 2]));
    assert(0 <= m[k] && m[k] <= m[k + 1] && m[k + 1] <= m[k + 2] && m[k + 2] <= l.len());
    if m[k + 1] > m[k] {
        assert(z.take(5) =~= l.subrange(m[k], m[k + 1]));
        assert(z[0] == z.take(5)[0]);
        assert(z.skip(5) =~= l.skip(m[k + 1]));
    } else if marked(z) {
        let w = m.update(k + 1, m[k] + 5).update(k + 2, if z.len() == 5 { m[k] + 5 } else { m[k] + 6 });
        assert(l.subrange(w[k], w[k + 1]) =~= z.take(5));
        assert(z.len() == l.len() - m[k]);
        if z.len() > 5 { assert(z.skip(5)[0] == z[5]); assert(z[5] == l[m[k] + 5]); }
        assert(admits(its[k + 1], l, w[k + 1], w[k + 2]));
        assert(admits(its[k], l, w[k], w[k + 1]));
        assert(w[0] == 0 && w.len() == its.len() + 1);
        assert forall|i: int| 0 <= i < its.len() implies admits(#[trigger] its[i], l, w[i], w[i + 1]) by {
            if i < k { assert(admits(its[i], l, m[i], m[i + 1])); }
        }
        assert(is_match(its, l, w));
        assert(better(its, w, m, k));
        assert(false);
    }
}
proof fn lemma_no_dot(t: Seq<char>)
    requires time_of(t) is Some,
    ensures t.len() == 16, forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '.' && t[i] != '\n',
{
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != '.' && t[i] != '\n' by { assert(time_char(i, t[i])); }
}
/// Among the matches that agree with m up to item k there is one whose item k no other betters.
proof fn lemma_best_item(its: Seq<Item>, l: Seq<char>, m: Seq<int>, k: int) -> (r: Seq<int>)
    requires is_match(its, l, m), 0 <= k < its.len(),
    ensures is_match(its, l, r), forall|i: int| 0 <= i <= k ==> #[trigger] r[i] == m[i],
        forall|w: Seq<int>| #[trigger] is_match(its, l, w) ==> !better(its, w, r, k),
    decreases (if its[k] is Span { m[k + 1] } else { l.len() - m[k + 1] }),
{
    if exists|w: Seq<int>| #[trigger] is_match(its, l, w) && better(its, w, m, k) {
        let w = choose|w: Seq<int>| #[trigger] is_match(its, l, w) && better(its, w, m, k);
        assert(admits(its[k], l, w[k], w[k + 1]));
        assert(admits(its[k], l, m[k], m[k + 1]));
        let r = lemma_best_item(its, l, w, k);
        assert forall|i: int| 0 <= i <= k implies #[trigger] r[i] == m[i] by { assert(w[i] == m[i]); }
        r
    } else {
        m
    }
}
proof fn lemma_best(its: Seq<Item>, l: Seq<char>, k: int) -> (r: Seq<int>)
    requires matches(its, l), 0 <= k <= its.len(),
    ensures is_match(its, l, r), forall|w: Seq<int>, j: int| j < k && #[trigger] is_match(its, l, w) ==> !#[trigger] better(its, w, r, j),
    decreases k,
{
    if k == 0 {
        choose|cuts: Seq<int>| is_match(its, l, cuts)
    } else {
        let m = lemma_best(its, l, k - 1);
        let r = lemma_best_item(its, l, m, k - 1);
        assert forall|w: Seq<int>, j: int| j < k && #[trigger] is_match(its, l, w) implies !#[trigger] better(its, w, r, j) by {
            if j < k - 1 && better(its, w, r, j) {
                assert forall|i: int| 0 <= i <= j implies #[trigger] w[i] == m[i] by { assert(r[i] == m[i]); assert(w[i] == r[i]); }
                assert(r[j + 1] == m[j + 1]);
                assert(better(its, w, m, j));
            }
        }
        r
    }
}
/// A pattern that matches has a leftmost-first match.
proof fn lemma_preferred(its: Seq<Item>, l: Seq<char>)
    requires matches(its, l),
    ensures preferred(its, l, the_match(its, l)),
{
    let r = lemma_best(its, l, its.len() as int);
    assert forall|w: Seq<int>, k: int| #[trigger] is_match(its, l, w) implies !(#[trigger] better(its, w, r, k)) by {}
    assert(preferred(its, l, r));
}
pub open spec fn is_shape1(its: Seq<Item>, p: Seq<char>, kind: Seq<char>) -> bool {
    &&& its.len() == 5 && its[0] == Item::Text(p) && its[1] is Span && its[2] == Item::Text(kind) && its[3] is Mark && its[3]->Mark_1 == ".part"@ && its[4] is EndOrDot
    &&& kind.len() > 0 && kind[0] == '.'
}
pub open spec fn is_shape2(its: Seq<Item>, p: Seq<char>, kind: Seq<char>) -> bool {
    &&& its.len() == 7 && its[0] == Item::Text(p) && its[1] is Span && its[2] == Item::Text(".to."@) && its[3] is Span && its[4] == Item::Text(kind) && its[5] is Mark && its[5]->Mark_1 == ".part"@ && its[6] is EndOrDot
    &&& kind.len() > 0 && kind[0] == '.'
}
proof fn lemma_shape1_complete(its: Seq<Item>, l: Seq<char>, p: Seq<char>, kind: Seq<char>, t: Seq<char>, z: Seq<char>)
    requires is_shape1(its, p, kind), l == name1(p, t, kind + z), time_of(t) is Some, tail_ok(z),
    ensures matches(its, l), seg(its, l, 1) == t, (seg(its, l, 3).len() > 0) == marked(z),
{
    lemma_literals();
    lemma_no_dot(t);
    let a = p.len() as int;
    let b = a + t.len();
    let c = b + kind.len();
    let w = seq![0int, a, b, c, c, if z.len() == 0 { c } else { c + 1 }];
    assert(l.subrange(0, a) =~= p);
    assert(l.subrange(a, b) =~= t);
    assert(l.subrange(b, c) =~= kind);
    assert(l.skip(c) =~= z);
    assert forall|i: int| a <= i < b implies #[trigger] l[i] != '.' && l[i] != '\n' by { assert(l[i] == t[i - a]); }
    if z.len() > 0 { assert(l[c] == z[0]); }
    assert(admits(its[0], l, w[0], w[1]) && admits(its[1], l, w[1], w[2]) && admits(its[2], l, w[2], w[3]) && admits(its[3], l, w[3], w[4]) && admits(its[4], l, w[4], w[5]));
    assert(is_match(its, l, w));
    lemma_preferred(its, l);
    let m = the_match(its, l);
    assert(admits(its[0], l, m[0], m[1]));
    assert(m[1] == l.subrange(m[0], m[1]).len());
    lemma_span(its, l, m, w, 1);
    assert(m[1] == w[1] && m[2] == w[2] && m[3] == w[3]);
    lemma_mark(its, l, m, 3);
    assert(admits(its[3], l, m[3], m[4]));
}
proof fn lemma_shape1_sound(its: Seq<Item>, l: Seq<char>, p: Seq<char>, kind: Seq<char>) -> (z: Seq<char>)
    requires is_shape1(its, p, kind), matches(its, l),
    ensures l == name1(p, seg(its, l, 1), kind + z), tail_ok(z), (seg(its, l, 3).len() > 0) == marked(z),
{
    lemma_preferred(its, l);
    let m = the_match(its, l);
    assert(admits(its[0], l, m[0], m[1]) && admits(its[1], l, m[1], m[2]) && admits(its[2], l, m[2], m[3]) && admits(its[3], l, m[3], m[4]));
    lemma_mark(its, l, m, 3);
    let z = l.skip(m[3]);
    let x = name1(p, seg(its, l, 1), kind + z);
    assert(l =~= l.subrange(0, m[1]) + l.subrange(m[1], m[2]) + (l.subrange(m[2], m[3]) + z));
    z
}
/// The six positions at which a name with two times is cut.
pub open spec fn cuts2(p: int, t: int, u: int, kind: int) -> Seq<int> {
    seq![0int, p, p + t, p + t + 4, p + t + 4 + u, p + t + 4 + u + kind]
}
proof fn lemma_name2_parts(l: Seq<char>, p: Seq<char>, t: Seq<char>, u: Seq<char>, kind: Seq<char>, z: Seq<char>)
    requires l == name2(p, t, u, kind + z), time_of(t) is Some, time_of(u) is Some,
    ensures
        ({
            let c = cuts2(p.len() as int, t.len() as int, u.len() as int, kind.len() as int);
            &&& l.len() == c[5] + z.len()
            &&& l.subrange(c[0], c[1]) == p && l.subrange(c[1], c[2]) == t && l.subrange(c[2], c[3]) == ".to."@
            &&& l.subrange(c[3], c[4]) == u && l.subrange(c[4], c[5]) == kind && l.skip(c[5]) == z
            &&& forall|i: int| c[1] <= i < c[2] ==> #[trigger] l[i] != '.' && l[i] != '\n'
            &&& forall|i: int| c[3] <= i < c[4] ==> #[trigger] l[i] != '.' && l[i] != '\n'
            &&& z.len() > 0 ==> l[c[5]] == z[0]
        }),
{
    lemma_literals();
    lemma_no_dot(t);
    lemma_no_dot(u);
    let c = cuts2(p.len() as int, t.len() as int, u.len() as int, kind.len() as int);
    assert(l.len() == c[5] + z.len());
    assert(l.subrange(c[0], c[1]) =~= p);
    assert(l.subrange(c[1], c[2]) =~= t);
    assert(l.subrange(c[2], c[3]) =~= ".to."@);
    assert(l.subrange(c[3], c[4]) =~= u);
    assert(l.subrange(c[4], c[5]) =~= kind);
    assert(l.skip(c[5]) =~= z);
    assert forall|i: int| c[1] <= i < c[2] implies #[trigger] l[i] != '.' && l[i] != '\n' by { assert(l.subrange(c[1], c[2])[i - c[1]] == l[i]); }
    assert forall|i: int| c[3] <= i < c[4] implies #[trigger] l[i] != '.' && l[i] != '\n' by { assert(l.subrange(c[3], c[4])[i - c[3]] == l[i]); }
    if z.len() > 0 { assert(l.skip(c[5])[0] == l[c[5]]); }
}
proof fn lemma_shape2_match(its: Seq<Item>, l: Seq<char>, p: Seq<char>, kind: Seq<char>, t: Seq<char>, u: Seq<char>, z: Seq<char>) -> (w: Seq<int>)
    requires is_shape2(its, p, kind), l == name2(p, t, u, kind + z), time_of(t) is Some, time_of(u) is Some, tail_ok(z),
    ensures is_match(its, l, w), w.take(6) == cuts2(p.len() as int, t.len() as int, u.len() as int, kind.len() as int),
{
    lemma_name2_parts(l, p, t, u, kind, z);
    let c = cuts2(p.len() as int, t.len() as int, u.len() as int, kind.len() as int);
    let w = c.push(c[5]).push(if z.len() == 0 { c[5] } else { c[5] + 1 });
    assert(w.take(6) =~= c);
    assert forall|i: int| 0 <= i < its.len() implies admits(#[trigger] its[i], l, w[i], w[i + 1]) by {
        if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else {}
    }
    w
}
proof fn lemma_first_cut(its: Seq<Item>, l: Seq<char>, m: Seq<int>, p: Seq<char>)
    requires is_match(its, l, m), its.len() > 0, its[0] == Item::Text(p),
    ensures m[0] == 0, m[1] == p.len(),
{
    assert(admits(its[0], l, m[0], m[1]));
    assert(m[1] == l.subrange(m[0], m[1]).len());
}
proof fn lemma_shape2_complete(its: Seq<Item>, l: Seq<char>, p: Seq<char>, kind: Seq<char>, t: Seq<char>, u: Seq<char>, z: Seq<char>)
    requires is_shape2(its, p, kind), l == name2(p, t, u, kind + z), time_of(t) is Some, time_of(u) is Some, tail_ok(z),
    ensures matches(its, l), seg(its, l, 1) == t, seg(its, l, 3) == u, (seg(its, l, 5).len() > 0) == marked(z),
{
    hide(admits);
    lemma_literals();
    lemma_name2_parts(l, p, t, u, kind, z);
    let c = cuts2(p.len() as int, t.len() as int, u.len() as int, kind.len() as int);
    let w = lemma_shape2_match(its, l, p, kind, t, u, z);
    assert(c == w.take(6));
    assert(c[1] == w[1] && c[2] == w[2] && c[3] == w[3] && c[4] == w[4] && c[5] == w[5]);
    lemma_preferred(its, l);
    let m = the_match(its, l);
    lemma_first_cut(its, l, m, p);
    lemma_first_cut(its, l, w, p);
    lemma_span(its, l, m, w, 1);
    assert(m[1] == w[1] && m[2] == w[2] && m[3] == w[3]);
    lemma_span(its, l, m, w, 3);
    assert(m[4] == w[4] && m[5] == w[5]);
    lemma_mark(its, l, m, 5);
    assert(admits(its[5], l, m[5], m[6]));
    assert(0 <= m[5] <= m[6] <= l.len()) by { reveal(admits); }
}
proof fn lemma_shape2_sound(its: Seq<Item>, l: Seq<char>, p: Seq<char>, kind: Seq<char>) -> (z: Seq<char>)
    requires is_shape2(its, p, kind), matches(its, l),
    ensures l == name2(p, seg(its, l, 1), seg(its, l, 3), kind + z), tail_ok(z), (seg(its, l, 5).len() > 0) == marked(z),
{
    lemma_preferred(its, l);
    let m = the_match(its, l);
    assert(admits(its[0], l, m[0], m[1]) && admits(its[1], l, m[1], m[2]) && admits(its[2], l, m[2], m[3]) && admits(its[3], l, m[3], m[4]) && admits(its[4], l, m[4], m[5]) && admits(its[5], l, m[5], m[6]));
    lemma_mark(its, l, m, 5);
    let z = l.skip(m[5]);
    assert(l =~= l.subrange(0, m[1]) + l.subrange(m[1], m[2]) + l.subrange(m[2], m[3]) + l.subrange(m[3], m[4]) + (l.subrange(m[4], m[5]) + z));
    z
}
proof fn lemma_full_match(l: Seq<char>, t: Seq<char>, n: Seq<char>, z: Seq<char>, time: Timespec, v: usize) -> (w: Seq<int>)
    requires spells_full(l, t, n, z, time, v),
    ensures
        is_match(full_volume(), l, w), w[2] == w[1] + t.len(), w[3] == w[2] + 4, w[4] == w[3] + n.len(),
        l.subrange(w[1], w[2]) == t, l.subrange(w[3], w[4]) == n, forall|i: int| w[1] <= i < w[2] ==> #[trigger] l[i] != '.',
{
    let its = full_volume();
    lemma_literals();
    lemma_no_dot(t);
    let a = 15int;
    let b = a + t.len();
    let c = b + 4;
    let d = c + n.len();
    let e = d + 8;
    let w = seq![0int, a, b, c, d, e, e, if z.len() == 0 { e } else { e + 1 }];
    assert(l.len() == e + z.len());
    assert(l.subrange(0, a) =~= "duplicity-full."@);
    assert(l.subrange(a, b) =~= t);
    assert(l.subrange(b, c) =~= ".vol"@);
    assert(l.subrange(c, d) =~= n);
    assert(l.subrange(d, e) =~= ".difftar"@);
    if z.len() > 0 { assert(l.skip(e) =~= z); assert(l[e] == l.skip(e)[0]); }
    assert forall|i: int| a <= i < b implies #[trigger] l[i] != '.' && l[i] != '\n' by { assert(l[i] == l.subrange(a, b)[i - a]); }
    assert forall|i: int| 0 <= i < its.len() implies admits(#[trigger] its[i], l, w[i], w[i + 1]) by {
        if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else {}
    }
    w
}
proof fn lemma_full_complete(l: Seq<char>, t: Seq<char>, n: Seq<char>, z: Seq<char>, time: Timespec, v: usize)
    requires spells_full(l, t, n, z, time, v),
    ensures matches(full_volume(), l), seg(full_volume(), l, 1) == t, seg(full_volume(), l, 3) == n,
{
    hide(admits);
    let its = full_volume();
    lemma_literals();
    let w = lemma_full_match(l, t, n, z, time, v);
    lemma_preferred(its, l);
    let m = the_match(its, l);
    lemma_first_cut(its, l, m, "duplicity-full."@);
    lemma_first_cut(its, l, w, "duplicity-full."@);
    lemma_span(its, l, m, w, 1);
    assert(m[1] == w[1] && m[2] == w[2] && m[3] == w[3]);
    lemma_digits(its, l, m, w, 3);
    assert(m[4] == w[4]);
}
proof fn lemma_full_sound(l: Seq<char>) -> (z: Seq<char>)
    requires matches(full_volume(), l),
    ensures l == name1("duplicity-full."@, seg(full_volume(), l, 1), vol_rest(seg(full_volume(), l, 3), z)), tail_ok(z),
        seg(full_volume(), l, 3).len() > 0, all_digits(seg(full_volume(), l, 3)),
{
    let its = full_volume();
    lemma_preferred(its, l);
    let m = the_match(its, l);
    assert(admits(its[0], l, m[0], m[1]) && admits(its[1], l, m[1], m[2]) && admits(its[2], l, m[2], m[3]) && admits(its[3], l, m[3], m[4]) && admits(its[4], l, m[4], m[5]));
    lemma_mark(its, l, m, 5);
    let z = l.skip(m[5]);
    assert(l =~= l.subrange(0, m[1]) + l.subrange(m[1], m[2]) + (l.subrange(m[2], m[3]) + l.subrange(m[3], m[4]) + l.subrange(m[4], m[5]) + z));
    z
}
proof fn lemma_inc_match(l: Seq<char>, t: Seq<char>, u: Seq<char>, n: Seq<char>, z: Seq<char>, start: Timespec, end: Timespec, v: usize) -> (w: Seq<int>)
    requires spells_inc(l, t, u, n, z, start, end, v),
    ensures is_match(inc_volume(), l, w), w.take(6) == cuts2(14, t.len() as int, u.len() as int, 4), w[6] == w[5] + n.len(), l.subrange(w[5], w[6]) == n,
{
    let its = inc_volume();
    lemma_literals();
    let kind = ".vol"@;
    let y = n + ".difftar"@ + z;
    assert(vol_rest(n, z) =~= kind + y);
    lemma_name2_parts(l, "duplicity-inc."@, t, u, kind, y);
    let c = cuts2(14, t.len() as int, u.len() as int, 4);
    let nn = n.len() as int;
    let d = c[5] + nn;
    let e = d + 8;
    let w = c.push(d).push(e).push(if z.len() == 0 { e } else { e + 1 });
    assert(w.take(6) =~= c);
    assert(y == l.skip(c[5]));
    assert(l.subrange(c[5], d) =~= y.subrange(0, nn) && y.subrange(0, nn) =~= n);
    assert(l.subrange(d, e) =~= y.subrange(nn, nn + 8) && y.subrange(nn, nn + 8) =~= ".difftar"@);
    if z.len() > 0 { assert(z[0] == y[nn + 8]); assert(l[e] == y[nn + 8]); }
    assert forall|i: int| 0 <= i < its.len() implies admits(#[trigger] its[i], l, w[i], w[i + 1]) by {
        if i == 0 {} else if i == 1 {} else if i == 2 {} else if i == 3 {} else if i == 4 {} else if i == 5 {} else if i == 6 {} else {}
    }
    w
}
proof fn lemma_inc_complete(l: Seq<char>, t: Seq<char>, u: Seq<char>, n: Seq<char>, z: Seq<char>, start: Timespec, end: Timespec, v: usize)
    requires spells_inc(l, t, u, n, z, start, end, v),
    ensures matches(inc_volume(), l), seg(inc_volume(), l, 1) == t, seg(inc_volume(), l, 3) == u, seg(inc_volume(), l, 5) == n,
{
    hide(admits);
    let its = inc_volume();
    lemma_literals();
    assert(vol_rest(n, z) =~= ".vol"@ + (n + ".difftar"@ + z));
    lemma_name2_parts(l, "duplicity-inc."@, t, u, ".vol"@, n + ".difftar"@ + z);
    let c = cuts2(14, t.len() as int, u.len() as int, 4);
    let w = lemma_inc_match(l, t, u, n, z, start, end, v);
    assert(c == w.take(6));
    assert(c[1] == w[1] && c[2] == w[2] && c[3] == w[3] && c[4] == w[4] && c[5] == w[5]);
    lemma_preferred(its, l);
    let m = the_match(its, l);
    lemma_first_cut(its, l, m, "duplicity-inc."@);
    lemma_first_cut(its, l, w, "duplicity-inc."@);
    lemma_span(its, l, m, w, 1);
    assert(m[1] == w[1] && m[2] == w[2] && m[3] == w[3]);
    lemma_span(its, l, m, w, 3);
    assert(m[4] == w[4] && m[5] == w[5]);
    lemma_digits(its, l, m, w, 5);
    assert(m[6] == w[6]);
}
proof fn lemma_inc_sound(l: Seq<char>) -> (z: Seq<char>)
    requires matches(inc_volume(), l),
    ensures l == name2("duplicity-inc."@, seg(inc_volume(), l, 1), seg(inc_volume(), l, 3), vol_rest(seg(inc_volume(), l, 5), z)), tail_ok(z),
        seg(inc_volume(), l, 5).len() > 0, all_digits(seg(inc_volume(), l, 5)),
{
    let its = inc_volume();
    lemma_preferred(its, l);
    let m = the_match(its, l);
    assert(admits(its[0], l, m[0], m[1]) && admits(its[1], l, m[1], m[2]) && admits(its[2], l, m[2], m[3]) && admits(its[3], l, m[3], m[4]) && admits(its[4], l, m[4], m[5]) && admits(its[5], l, m[5], m[6]) && admits(its[6], l, m[6], m[7]) && admits(its[7], l, m[7], m[8]));
    let z = l.skip(m[7]);
    if m[7] < l.len() { assert(z[0] == l[m[7]]); }
    assert(l =~= l.subrange(0, m[1]) + l.subrange(m[1], m[2]) + l.subrange(m[2], m[3]) + l.subrange(m[3], m[4]) + (l.subrange(m[4], m[5]) + l.subrange(m[5], m[6]) + l.subrange(m[6], m[7]) + z));
    z
}
proof fn lemma_only_full(l: Seq<char>)
    ensures read_full(l) is Some ==> spells(l, read_full(l)->Some_0),
{
    hide(time_of); hide(is_match); hide(marked); hide(preferred);
    lemma_literals();
    lemma_digits_plus();
    if read_full(l) is Some {
        let tp = read_full(l)->Some_0;
        if matches(full_volume(), l) {
            let z = lemma_full_sound(l);
            assert(spells_full(l, seg(full_volume(), l, 1), seg(full_volume(), l, 3), z, tp->Full_time, tp->Full_volume_number));
        } else {
            let z = lemma_shape1_sound(full_manifest(), l, "duplicity-full."@, ".manifest"@);
            assert(spells1(l, "duplicity-full."@, ".manifest"@, seg(full_manifest(), l, 1), z, tp->FullManifest_time, tp->FullManifest_partial));
        }
    }
}
proof fn lemma_only_inc(l: Seq<char>)
    ensures read_inc(l) is Some ==> spells(l, read_inc(l)->Some_0),
{
    hide(time_of); hide(is_match); hide(marked); hide(preferred);
    lemma_literals();
    lemma_digits_plus();
    if read_inc(l) is Some {
        let tp = read_inc(l)->Some_0;
        if matches(inc_volume(), l) {
            let z = lemma_inc_sound(l);
            assert(spells_inc(l, seg(inc_volume(), l, 1), seg(inc_volume(), l, 3), seg(inc_volume(), l, 5), z, tp->Inc_start_time, tp->Inc_end_time, tp->Inc_volume_number));
        } else {
            let z = lemma_shape2_sound(inc_manifest(), l, "duplicity-inc."@, ".manifest"@);
            assert(spells2(l, "duplicity-inc."@, ".manifest"@, seg(inc_manifest(), l, 1), seg(inc_manifest(), l, 3), z, tp->IncManifest_start_time, tp->IncManifest_end_time, tp->IncManifest_partial));
        }
    }
}
proof fn lemma_only_sig(l: Seq<char>)
    ensures read_sig(l) is Some ==> spells(l, read_sig(l)->Some_0),
{
    hide(time_of); hide(is_match); hide(marked); hide(preferred);
    lemma_literals();
    if read_sig(l) is Some {
        let tp = read_sig(l)->Some_0;
        if matches(full_signature(), l) {
            let z = lemma_shape1_sound(full_signature(), l, "duplicity-full-signatures."@, ".sigtar"@);
            assert(spells1(l, "duplicity-full-signatures."@, ".sigtar"@, seg(full_signature(), l, 1), z, tp->FullSig_time, tp->FullSig_partial));
        } else {
            let z = lemma_shape2_sound(new_signature(), l, "duplicity-new-signatures."@, ".sigtar"@);
            assert(spells2(l, "duplicity-new-signatures."@, ".sigtar"@, seg(new_signature(), l, 1), seg(new_signature(), l, 3), z, tp->NewSig_start_time, tp->NewSig_end_time, tp->NewSig_partial));
        }
    }
}
/// Nothing but the names of the documented shape is recognised, and what is reported is what the name spells.
pub proof fn theorem_only_names(l: Seq<char>)
    ensures read_type(l) is Some ==> spells(l, read_type(l)->Some_0),
{
    lemma_only_full(l);
    lemma_only_inc(l);
    lemma_only_sig(l);
}
proof fn lemma_digits_plus()
    ensures forall|n: Seq<char>| n.len() > 0 && all_digits(n) ==> #[trigger] parse_usize(n) == (if digits_value(n) <= usize::MAX { Some(digits_value(n)) } else { None }),
{
    assert forall|n: Seq<char>| n.len() > 0 && all_digits(n) implies #[trigger] parse_usize(n) == (if digits_value(n) <= usize::MAX { Some(digits_value(n)) } else { None }) by {
        assert(is_digit(n[0]));
    }
}
proof fn lemma_prefix(its: Seq<Item>, l: Seq<char>, p: Seq<char>)
    requires matches(its, l), its.len() > 0, its[0] == Item::Text(p),
    ensures l.len() >= p.len(), forall|i: int| 0 <= i < p.len() ==> l[i] == #[trigger] p[i],
{
    let m = choose|m: Seq<int>| is_match(its, l, m);
    assert(admits(its[0], l, m[0], m[1]));
    let q = l.subrange(m[0], m[1]);
    assert(q.len() == p.len());
    assert forall|i: int| 0 <= i < p.len() implies l[i] == #[trigger] p[i] by { assert(q[i] == l[i]); }
}
/// The name has a volume mark.
pub open spec fn vol_mark(l: Seq<char>) -> bool { exists|p: int| 0 <= p <= l.len() - 4 && #[trigger] l.subrange(p, p + 4) == ".vol"@ }
proof fn lemma_vol_mark(its: Seq<Item>, l: Seq<char>, k: int)
    requires matches(its, l), 0 <= k < its.len(), its[k] == Item::Text(".vol"@),
    ensures vol_mark(l),
{
    lemma_literals();
    let m = choose|m: Seq<int>| is_match(its, l, m);
    assert(admits(its[k], l, m[k], m[k + 1]));
    assert(l.subrange(m[k], m[k] + 4) == ".vol"@);
}
/// Which patterns can match which names.
proof fn lemma_apart(l: Seq<char>)
    ensures
        matches(full_volume(), l) ==> l.len() > 14 && l[10] == 'f' && l[14] == '.' && vol_mark(l),
        matches(full_manifest(), l) ==> l.len() > 14 && l[10] == 'f' && l[14] == '.',
        matches(inc_volume(), l) ==> l.len() > 10 && l[10] == 'i' && vol_mark(l),
        matches(inc_manifest(), l) ==> l.len() > 10 && l[10] == 'i',
        matches(full_signature(), l) ==> l.len() > 14 && l[10] == 'f' && l[14] == '-',
        matches(new_signature(), l) ==> l.len() > 10 && l[10] == 'n',
{
    hide(is_match);
    lemma_literals();
    if matches(full_volume(), l) { let p = "duplicity-full."@; lemma_prefix(full_volume(), l, p); lemma_vol_mark(full_volume(), l, 2); assert(l[10] == p[10] && l[14] == p[14]); }
    if matches(full_manifest(), l) { let p = "duplicity-full."@; lemma_prefix(full_manifest(), l, p); assert(l[10] == p[10] && l[14] == p[14]); }
    if matches(inc_volume(), l) { let p = "duplicity-inc."@; lemma_prefix(inc_volume(), l, p); lemma_vol_mark(inc_volume(), l, 4); assert(l[10] == p[10]); }
    if matches(inc_manifest(), l) { let p = "duplicity-inc."@; lemma_prefix(inc_manifest(), l, p); assert(l[10] == p[10]); }
    if matches(full_signature(), l) { let p = "duplicity-full-signatures."@; lemma_prefix(full_signature(), l, p); assert(l[10] == p[10] && l[14] == p[14]); }
    if matches(new_signature(), l) { let p = "duplicity-new-signatures."@; lemma_prefix(new_signature(), l, p); assert(l[10] == p[10]); }
}
/// A name that duplicity writes is recognised for what it is.
proof fn lemma_recognised_full(l: Seq<char>, tp: Type)
    requires spells(l, tp), tp is Full,
    ensures read_type(l) == Some(tp),
{
    hide(is_match); hide(time_of); hide(marked); hide(seg); hide(vol_mark); hide(name1); hide(name2); hide(vol_rest);
    hide(full_volume); hide(full_manifest); hide(inc_volume); hide(inc_manifest); hide(full_signature); hide(new_signature);
    lemma_literals();
    lemma_digits_plus();
    lemma_apart(l);
    let (time, volume_number) = (tp->Full_time, tp->Full_volume_number);
    let (t, n, z) = choose|t: Seq<char>, n: Seq<char>, z: Seq<char>| spells_full(l, t, n, z, time, volume_number);
    lemma_full_complete(l, t, n, z, time, volume_number);
}
proof fn lemma_recognised_fullmanifest(l: Seq<char>, tp: Type)
    requires spells(l, tp), tp is FullManifest, !vol_mark(l),
    ensures read_type(l) == Some(tp),
{
    hide(is_match); hide(time_of); hide(marked); hide(seg); hide(vol_mark); hide(name1); hide(name2); hide(vol_rest);
    hide(full_volume); hide(full_manifest); hide(inc_volume); hide(inc_manifest); hide(full_signature); hide(new_signature);
    lemma_literals();
    lemma_digits_plus();
    lemma_apart(l);
    let (time, partial) = (tp->FullManifest_time, tp->FullManifest_partial);
    let (t, z) = choose|t: Seq<char>, z: Seq<char>| spells1(l, "duplicity-full."@, ".manifest"@, t, z, time, partial);
    assert(is_shape1(full_manifest(), "duplicity-full."@, ".manifest"@)) by { reveal(full_manifest); }
    lemma_shape1_complete(full_manifest(), l, "duplicity-full."@, ".manifest"@, t, z);
}
proof fn lemma_recognised_inc(l: Seq<char>, tp: Type)
    requires spells(l, tp), tp is Inc,
    ensures read_type(l) == Some(tp),
{
    hide(is_match); hide(time_of); hide(marked); hide(seg); hide(vol_mark); hide(name1); hide(name2); hide(vol_rest);
    hide(full_volume); hide(full_manifest); hide(inc_volume); hide(inc_manifest); hide(full_signature); hide(new_signature);
    lemma_literals();
    lemma_digits_plus();
    lemma_apart(l);
    let (start_time, end_time, volume_number) = (tp->Inc_start_time, tp->Inc_end_time, tp->Inc_volume_number);
    let (t, u, n, z) = choose|t: Seq<char>, u: Seq<char>, n: Seq<char>, z: Seq<char>| spells_inc(l, t, u, n, z, start_time, end_time, volume_number);
    lemma_inc_complete(l, t, u, n, z, start_time, end_time, volume_number);
}
proof fn lemma_recognised_incmanifest(l: Seq<char>, tp: Type)
    requires spells(l, tp), tp is IncManifest, !vol_mark(l),
    ensures read_type(l) == Some(tp),
{
    hide(is_match); hide(time_of); hide(marked); hide(seg); hide(vol_mark); hide(name1); hide(name2); hide(vol_rest);
    hide(full_volume); hide(full_manifest); hide(inc_volume); hide(inc_manifest); hide(full_signature); hide(new_signature);
    lemma_literals();
    lemma_digits_plus();
    lemma_apart(l);
    let (start_time, end_time, partial) = (tp->IncManifest_start_time, tp->IncManifest_end_time, tp->IncManifest_partial);
    let (t, u, z) = choose|t: Seq<char>, u: Seq<char>, z: Seq<char>| spells2(l, "duplicity-inc."@, ".manifest"@, t, u, z, start_time, end_time, partial);
    assert(is_shape2(inc_manifest(), "duplicity-inc."@, ".manifest"@)) by { reveal(inc_manifest); }
    lemma_shape2_complete(inc_manifest(), l, "duplicity-inc."@, ".manifest"@, t, u, z);
}
proof fn lemma_recognised_fullsig(l: Seq<char>, tp: Type)
    requires spells(l, tp), tp is FullSig,
    ensures read_type(l) == Some(tp),
{
    hide(is_match); hide(time_of); hide(marked); hide(seg); hide(vol_mark); hide(name1); hide(name2); hide(vol_rest);
    hide(full_volume); hide(full_manifest); hide(inc_volume); hide(inc_manifest); hide(full_signature); hide(new_signature);
    lemma_literals();
    lemma_digits_plus();
    lemma_apart(l);
    let (time, partial) = (tp->FullSig_time, tp->FullSig_partial);
    let (t, z) = choose|t: Seq<char>, z: Seq<char>| spells1(l, "duplicity-full-signatures."@, ".sigtar"@, t, z, time, partial);
    assert(is_shape1(full_signature(), "duplicity-full-signatures."@, ".sigtar"@)) by { reveal(full_signature); }
    lemma_shape1_complete(full_signature(), l, "duplicity-full-signatures."@, ".sigtar"@, t, z);
}
proof fn lemma_recognised_newsig(l: Seq<char>, tp: Type)
    requires spells(l, tp), tp is NewSig,
    ensures read_type(l) == Some(tp),
{
    hide(is_match); hide(time_of); hide(marked); hide(seg); hide(vol_mark); hide(name1); hide(name2); hide(vol_rest);
    hide(full_volume); hide(full_manifest); hide(inc_volume); hide(inc_manifest); hide(full_signature); hide(new_signature);
    lemma_literals();
    lemma_digits_plus();
    lemma_apart(l);
    let (start_time, end_time, partial) = (tp->NewSig_start_time, tp->NewSig_end_time, tp->NewSig_partial);
    let (t, u, z) = choose|t: Seq<char>, u: Seq<char>, z: Seq<char>| spells2(l, "duplicity-new-signatures."@, ".sigtar"@, t, u, z, start_time, end_time, partial);
    assert(is_shape2(new_signature(), "duplicity-new-signatures."@, ".sigtar"@)) by { reveal(new_signature); }
    lemma_shape2_complete(new_signature(), l, "duplicity-new-signatures."@, ".sigtar"@, t, u, z);
}
pub proof fn theorem_recognised(l: Seq<char>, tp: Type)
    requires spells(l, tp), tp is FullManifest || tp is IncManifest ==> !vol_mark(l),
    ensures read_type(l) == Some(tp),
{
    match tp {
        Type::Full { .. } => lemma_recognised_full(l, tp),
        Type::FullManifest { .. } => lemma_recognised_fullmanifest(l, tp),
        Type::Inc { .. } => lemma_recognised_inc(l, tp),
        Type::IncManifest { .. } => lemma_recognised_incmanifest(l, tp),
        Type::FullSig { .. } => lemma_recognised_fullsig(l, tp),
        Type::NewSig { .. } => lemma_recognised_newsig(l, tp),
    }
}
/// A file name is recognised exactly by what it spells in lower case, and its marks are its suffix.
proof fn theorem_names(name: Seq<char>)
    ensures
        read_name(name) is Some <==> read_type(lower(name)) is Some,
        read_name(name) is Some ==> {
            &&& spells(lower(name), read_name(name)->Some_0.tp)
            &&& read_name(name)->Some_0.compressed == compressed_name(lower(name))
            &&& read_name(name)->Some_0.encrypted == encrypted_name(lower(name))
        },
        forall|tp: Type| #[trigger] spells(lower(name), tp) && (tp is FullManifest || tp is IncManifest ==> !vol_mark(lower(name))) ==>
            read_name(name) is Some && read_name(name)->Some_0.tp == tp,
{
    theorem_only_names(lower(name));
    assert forall|tp: Type| #[trigger] spells(lower(name), tp) && (tp is FullManifest || tp is IncManifest ==> !vol_mark(lower(name))) implies
        read_name(name) is Some && read_name(name)->Some_0.tp == tp by { theorem_recognised(lower(name), tp); }
}
//@ verus
} // verus!
fn main() {}
