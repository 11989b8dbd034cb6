//@ verus
// ---------------------------------------------------------------- times as text
pub open spec fn digits_value(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { 10 * digits_value(s.drop_last()) + (s.last() as nat - '0' as nat) as nat }
}
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn time_shape(s: Seq<char>) -> bool {
    s.len() == 16 && forall|i: int| 0 <= i < 16 ==> time_char(i, #[trigger] s[i])
}
pub open spec fn time_char(i: int, c: char) -> bool {
    if i == 8 { c == 't' } else if i == 15 { c == 'z' || c == 'Z' } else { is_digit(c) }
}
pub open spec fn number(s: Seq<char>, a: int, b: int) -> int { digits_value(s.subrange(a, b)) as int }
pub open spec fn numbers(s: Seq<char>) -> Civil {
    Civil { year: number(s, 0, 4), month: number(s, 4, 6), day: number(s, 6, 8), hour: number(s, 9, 11), minute: number(s, 11, 13), second: number(s, 13, 15) }
}
//@ include tm_spec.vc
//@ verus
/// What strptime makes of the format of duplicity's timestamps, on a text of their shape.
pub open spec fn strptime_gives(s: Seq<char>, format: Seq<char>, r: std::result::Result<Tm, ParseError>) -> bool {
    format == "%Y%m%dt%H%M%S%Z"@ && time_shape(s) ==> match r {
        Ok(tm) => in_ranges(numbers(s)) && civil_of(tm) == numbers(s) && tm.tm_utcoff == 0 && tm.tm_nsec == 0,
        Err(_) => !in_ranges(numbers(s)),
    }
}
