//@ verus
/// a time as it is shown: depends on the clock and the time zone, see C18
pub uninterp spec fn local_time(t: Timespec) -> Seq<char>;
pub struct LocalDisplay { pub time: Timespec }
impl Shown for LocalDisplay { open spec fn shown(&self) -> Seq<char> { local_time(self.time) } }
pub trait TimeDisplay_ { fn into_local_display_(self) -> LocalDisplay; }
impl TimeDisplay_ for Timespec {
    fn into_local_display_(self) -> (r: LocalDisplay) ensures r.time == self { LocalDisplay { time: self } }
}
