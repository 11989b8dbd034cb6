//@ verus
// ---------------------------------------------------------------- dates and times of day shown
/// The day of the week and the month are ones that there are.
pub open spec fn in_week(tm: Tm) -> bool { 0 <= tm.tm_wday <= 6 && 0 <= tm.tm_mon <= 11 }
/// How far the clocks of the system's zone are ahead of UTC at an instant, in seconds.
pub uninterp spec fn zone_offset(t: int) -> int;
/// The date and time of day c is what a clock shows at the instant t, that is `offset` seconds ahead of UTC.
pub open spec fn clock_at(t: Timespec, offset: int, c: Civil) -> bool { calendar(c) && instant(c) == t.sec + offset }
pub open spec fn breaks_down(t: Timespec, offset: int, tm: Tm) -> bool {
    &&& in_week(tm)
    &&& forall|c: Civil| #[trigger] clock_at(t, offset, c) ==> civil_of(tm) == c
}
/// The clock was read at this instant.
pub uninterp spec fn clock_read(t: Timespec) -> bool;
/// The clock showed this year when it was read, in UTC or in the system's zone.
pub open spec fn this_year(y: int) -> bool {
    exists|t: Timespec, tm: Tm| clock_read(t) && #[trigger] is_shown(t, tm) && y == civil_of(tm).year
}
pub open spec fn is_shown(t: Timespec, tm: Tm) -> bool { breaks_down(t, 0, tm) || breaks_down(t, zone_offset(t.sec as int), tm) }
pub open spec fn two(n: int) -> Seq<char> { seq![digit(n / 10), digit(n % 10)] }
pub open spec fn month_name(m: int) -> Seq<char> {
    if m == 1 { "Jan"@ } else if m == 2 { "Feb"@ } else if m == 3 { "Mar"@ } else if m == 4 { "Apr"@ } else if m == 5 { "May"@ } else if m == 6 { "Jun"@ }
    else if m == 7 { "Jul"@ } else if m == 8 { "Aug"@ } else if m == 9 { "Sep"@ } else if m == 10 { "Oct"@ } else if m == 11 { "Nov"@ } else { "Dec"@ }
}
/// What strftime writes for a letter after a percent sign (the others are not modelled).
pub open spec fn directive(k: char, c: Civil) -> Option<Seq<char>> {
    if k == 'b' || k == 'h' { Some(month_name(c.month)) }
    else if k == 'd' { Some(two(c.day)) }
    else if k == 'H' { Some(two(c.hour)) }
    else if k == 'M' { Some(two(c.minute)) }
    else if k == 'm' { Some(two(c.month)) }
    else if k == 'S' { Some(two(c.second)) }
    else if k == 'R' { Some(two(c.hour) + seq![':'] + two(c.minute)) }
    else if k == 'T' { Some(two(c.hour) + seq![':'] + two(c.minute) + seq![':'] + two(c.second)) }
    else if k == 'Y' { Some(decimal(c.year as nat)) }
    else if k == '%' { Some(seq!['%']) }
    else { None }
}
pub open spec fn filled(format: Seq<char>, c: Civil) -> Option<Seq<char>>
    decreases format.len()
{
    if format.len() == 0 { Some(Seq::empty()) }
    else if format[0] != '%' {
        match filled(format.skip(1), c) { Some(t) => Some(seq![format[0]] + t), None => None }
    } else if format.len() == 1 { None }
    else {
        match (directive(format[1], c), filled(format.skip(2), c)) { (Some(d), Some(t)) => Some(d + t), _ => None }
    }
}
pub open spec fn fills(text: Seq<char>, format: Seq<char>, tm: Tm) -> bool { calendar(civil_of(tm)) ==> Some(text) == filled(format, civil_of(tm)) }
pub open spec fn writable(format: Seq<char>, tm: Tm) -> bool { in_week(tm) && filled(format, civil_of(tm)) is Some }
