//@ verus
pub open spec fn civil_of(tm: Tm) -> Civil {
    Civil { year: tm.tm_year + 1900, month: tm.tm_mon + 1, day: tm.tm_mday as int, hour: tm.tm_hour as int, minute: tm.tm_min as int, second: tm.tm_sec as int }
}
