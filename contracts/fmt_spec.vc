//@ verus
// ---------------------------------------------------------------- trusted: what `{}` writes
/// What text is written to.
pub trait Sink {
    type E;
    /// the text written so far
    spec fn so_far(&self) -> Seq<char>;
    /// it takes whatever is written to it
    spec fn takes_all(&self) -> bool;
    /// what was written before that, and is out of reach
    spec fn behind(&self) -> Seq<char>;
}
/// r is the outcome of writing t, before and after it: it fails only where text is refused.
pub open spec fn writes<S: Sink>(r: std::result::Result<(), S::E>, before: &S, after: &S, t: Seq<char>) -> bool {
    &&& r is Ok ==> after.so_far() == before.so_far() + t && after.behind() == before.behind()
    &&& before.takes_all() ==> r is Ok && after.takes_all()
}
pub uninterp spec fn written(f: &Formatter) -> Seq<char>;
pub uninterp spec fn accepts(f: &Formatter) -> bool;
impl<'a> Sink for Formatter<'a> {
    type E = fmt::Error;
    open spec fn so_far(&self) -> Seq<char> { written(self) }
    open spec fn takes_all(&self) -> bool { accepts(self) }
    open spec fn behind(&self) -> Seq<char> { Seq::empty() }
}
/// what `{}` writes of a value
pub trait Shown {
    #[verifier::prophetic]
    spec fn shown(&self) -> Seq<char>;
}
impl Shown for char { open spec fn shown(&self) -> Seq<char> { seq![*self] } }
impl Shown for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<'a, T: Shown + ?Sized> Shown for &'a T { #[verifier::prophetic] open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
impl Shown for String { open spec fn shown(&self) -> Seq<char> { self@ } }
pub open spec fn digit(n: int) -> char { (('0' as u8) + n) as char }
/// a number in decimal
pub open spec fn decimal(n: nat) -> Seq<char>
    decreases n
{
    if n < 10 { seq![digit(n as int)] } else { decimal(n / 10).push(digit((n % 10) as int)) }
}
impl Shown for usize { open spec fn shown(&self) -> Seq<char> { decimal(*self as nat) } }
#[verifier::external_body]
pub struct FmtArgs(String);
impl FmtArgs {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn lit(self, s: &str) -> (r: FmtArgs) ensures r@ == self@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<T: Shown>(self, x: &T) -> (r: FmtArgs) ensures r@ == self@ + x.shown() { unimplemented!() }
    #[verifier::external_body]
    pub fn write<S: Sink>(self, f: &mut S) -> (r: std::result::Result<(), S::E>)
        ensures writes(r, old(f), final(f), self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn text(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub fn fmt_args() -> (r: FmtArgs) ensures r@ == Seq::<char>::empty() { unimplemented!() }
/// (the constructor of the error is not visible to the verifier)
#[verifier::external_body]
pub fn fmt_error_() -> fmt::Error { fmt::Error }
/// What a width in a format applies to.
pub trait Padded: Shown {}
impl Padded for str {}
impl Padded for String {}
impl Padded for usize {}
impl<'a, T: Padded + ?Sized> Padded for &'a T {}
pub open spec fn blanks(n: int) -> Seq<char> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| ' ') }
/// the text with blanks after it, or before it, up to the width
pub open spec fn to_left(t: Seq<char>, width: nat) -> Seq<char> { t + blanks(width - t.len()) }
pub open spec fn to_right(t: Seq<char>, width: nat) -> Seq<char> { blanks(width - t.len()) + t }
impl FmtArgs {
    #[verifier::external_body]
    pub fn pad_end<T: Padded>(self, x: &T, width: usize) -> (r: FmtArgs) ensures r@ == self@ + to_left(x.shown(), width as nat) { unimplemented!() }
    #[verifier::external_body]
    pub fn pad_start<T: Padded>(self, x: &T, width: usize) -> (r: FmtArgs) ensures r@ == self@ + to_right(x.shown(), width as nat) { unimplemented!() }
}
