//@ verus
// ---------------------------------------------------------------- the calendar
pub struct Civil { pub year: int, pub month: int, pub day: int, pub hour: int, pub minute: int, pub second: int }
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn month_len(y: int, m: int) -> int {
    if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 }
}
/// A date and time of day that the calendar has.
pub open spec fn calendar(c: Civil) -> bool {
    &&& 0 <= c.year <= 9999 && 1 <= c.month <= 12 && 1 <= c.day <= month_len(c.year, c.month)
    &&& 0 <= c.hour <= 23 && 0 <= c.minute <= 59 && 0 <= c.second <= 59
}
/// What the numbers of a timestamp must keep to.
pub open spec fn in_ranges(c: Civil) -> bool {
    0 <= c.year <= 9999 && 1 <= c.month <= 12 && 1 <= c.day <= 31 && 0 <= c.hour <= 23 && 0 <= c.minute <= 59 && 0 <= c.second <= 60
}
/// Days from the first of January of year 0 to that of year y.
pub open spec fn days_to_year(y: int) -> int { 365 * y + (y + 3) / 4 - (y + 99) / 100 + (y + 399) / 400 }
/// Days from the first of January to the first of the month.
pub open spec fn days_to_month(y: int, m: int) -> int {
    let l: int = if leap(y) { 1 } else { 0 };
    if m <= 1 { 0 } else if m == 2 { 31 } else if m == 3 { 59 + l } else if m == 4 { 90 + l } else if m == 5 { 120 + l } else if m == 6 { 151 + l }
    else if m == 7 { 181 + l } else if m == 8 { 212 + l } else if m == 9 { 243 + l } else if m == 10 { 273 + l } else if m == 11 { 304 + l } else { 334 + l }
}
/// Days since the epoch.
pub open spec fn day_number(c: Civil) -> int { days_to_year(c.year) + days_to_month(c.year, c.month) + c.day - 1 - 719528 }
/// Seconds since the epoch.
pub open spec fn instant(c: Civil) -> int { 86400 * day_number(c) + 3600 * c.hour + 60 * c.minute + c.second }
