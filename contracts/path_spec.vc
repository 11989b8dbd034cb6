//@ verus
// ---------------------------------------------------------------- trusted: paths
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(PathBuf);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPath(Path);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExOsString(OsString);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExOsStr(OsStr);
pub uninterp spec fn osstring_bytes(s: OsString) -> Seq<u8>;
pub uninterp spec fn osstr_bytes(s: &OsStr) -> Seq<u8>;
pub uninterp spec fn path_bytes(p: &Path) -> Seq<u8>;
pub uninterp spec fn pathbuf_bytes(p: PathBuf) -> Seq<u8>;

pub assume_specification [<OsString as OsStringExt>::from_vec] (v: Vec<u8>) -> (r: OsString)
    ensures osstring_bytes(r) == v@;
pub assume_specification [<PathBuf as From<OsString>>::from] (s: OsString) -> (r: PathBuf)
    ensures pathbuf_bytes(r) == osstring_bytes(s);
pub assume_specification [<PathBuf as std::ops::Deref>::deref] (p: &PathBuf) -> (r: &Path)
    ensures path_bytes(r) == pathbuf_bytes(*p);
pub assume_specification [Path::as_os_str] (p: &Path) -> (r: &OsStr)
    ensures osstr_bytes(r) == path_bytes(p);
pub assume_specification [<OsStr as OsStrExt>::as_bytes] (s: &OsStr) -> (r: &[u8])
    ensures r@ == osstr_bytes(s);

//@ file src/rawpath.rs
//@ item struct RawPath needs=Clone,Eq,Ord,PartialEq,PartialOrd
//@ verus
impl View for RawPath {
    type V = Seq<u8>;
    closed spec fn view(&self) -> Seq<u8> { pathbuf_bytes(self.0) }
}
//@ fn RawPath::from_bytes ret=r props=C07,C09,C10,C11,C12,C13
//@ spec
    ensures r@ == bytes@,
//@ fn RawPath::as_bytes ret=r props=C07,C09,C10,C11,C12,C13
//@ spec
    ensures r@ == self@,
//@ fn RawPath::as_path ret=r props=C07,C09,C10,C11,C12,C13
//@ spec
    ensures r is Some, path_bytes(r->Some_0) == self@,

//@ verus
// ---------------------------------------------------------------- the order of paths
/// A component of a path, as `std::path::Component` on unix.
pub ghost enum Comp { Root, Cur, Parent, Normal(Seq<u8>) }
pub open spec fn rank(c: Comp) -> int { match c { Comp::Root => 0, Comp::Cur => 1, Comp::Parent => 2, Comp::Normal(_) => 3 } }
pub open spec fn bytes_cmp(a: Seq<u8>, b: Seq<u8>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less } else if a[0] > b[0] { Ordering::Greater }
    else { bytes_cmp(a.drop_first(), b.drop_first()) }
}
pub open spec fn comp_cmp(a: Comp, b: Comp) -> Ordering {
    if rank(a) < rank(b) { Ordering::Less } else if rank(a) > rank(b) { Ordering::Greater }
    else { match (a, b) { (Comp::Normal(x), Comp::Normal(y)) => bytes_cmp(x, y), _ => Ordering::Equal } }
}
pub open spec fn comps_cmp(a: Seq<Comp>, b: Seq<Comp>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else { match comp_cmp(a[0], b[0]) { Ordering::Equal => comps_cmp(a.drop_first(), b.drop_first()), o => o } }
}
/// the components of the text between separators, from `from` on
pub open spec fn parts(s: Seq<u8>) -> Seq<Comp>
    decreases s.len()
{
    let n = part_len(s) as int;
    let rest = s.skip(n + 1);
    let tail = if n < s.len() && rest.len() < s.len() { parts(rest) } else { seq![] };
    let w = s.take(n);
    if w.len() == 0 || w == seq![46u8] { tail }
    else if w == seq![46u8, 46u8] { seq![Comp::Parent] + tail }
    else { seq![Comp::Normal(w)] + tail }
}
pub open spec fn part_len(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() > 0 && s[0] != 47 { 1 + part_len(s.drop_first()) } else { 0 }
}
pub open spec fn components(s: Seq<u8>) -> Seq<Comp> {
    if s.len() > 0 && s[0] == 47 { seq![Comp::Root] + parts(s) }
    else if s.take(part_len(s) as int) == seq![46u8] { seq![Comp::Cur] + parts(s) }
    else { parts(s) }
}
/// the order of `std::path::Path`: component by component
#[verifier::opaque]
pub open spec fn path_cmp(a: Seq<u8>, b: Seq<u8>) -> Ordering { comps_cmp(components(a), components(b)) }

pub open spec fn flip(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, Ordering::Equal => Ordering::Equal } }
proof fn lemma_bytes_order(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures
        bytes_cmp(b, a) == flip(bytes_cmp(a, b)),
        bytes_cmp(a, b) is Equal ==> bytes_cmp(a, c) == bytes_cmp(b, c),
        bytes_cmp(b, c) is Equal ==> bytes_cmp(a, c) == bytes_cmp(a, b),
        bytes_cmp(a, b) is Less && bytes_cmp(b, c) is Less ==> bytes_cmp(a, c) is Less,
    decreases a.len() + b.len() + c.len()
{
    if a.len() > 0 && b.len() > 0 {
        if c.len() > 0 { lemma_bytes_order(a.drop_first(), b.drop_first(), c.drop_first()); }
        else { lemma_bytes_order(a.drop_first(), b.drop_first(), c); }
    }
}
proof fn lemma_comps_order(a: Seq<Comp>, b: Seq<Comp>, c: Seq<Comp>)
    ensures
        comps_cmp(b, a) == flip(comps_cmp(a, b)),
        comps_cmp(a, b) is Equal ==> comps_cmp(a, c) == comps_cmp(b, c),
        comps_cmp(b, c) is Equal ==> comps_cmp(a, c) == comps_cmp(a, b),
        comps_cmp(a, b) is Less && comps_cmp(b, c) is Less ==> comps_cmp(a, c) is Less,
    decreases a.len() + b.len() + c.len()
{
    if a.len() > 0 && b.len() > 0 {
        if let (Comp::Normal(x), Comp::Normal(y)) = (a[0], b[0]) { lemma_bytes_order(x, y, seq![]); }
        if c.len() > 0 {
            if let (Comp::Normal(x), Comp::Normal(y), Comp::Normal(z)) = (a[0], b[0], c[0]) { lemma_bytes_order(x, y, z); }
            lemma_comps_order(a.drop_first(), b.drop_first(), c.drop_first());
        } else { lemma_comps_order(a.drop_first(), b.drop_first(), c); }
    }
}
/// `path_cmp` is a total preorder
pub proof fn lemma_path_order(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures
        path_cmp(b, a) == flip(path_cmp(a, b)),
        path_cmp(a, b) is Equal ==> path_cmp(a, c) == path_cmp(b, c),
        path_cmp(b, c) is Equal ==> path_cmp(a, c) == path_cmp(a, b),
        path_cmp(a, b) is Less && path_cmp(b, c) is Less ==> path_cmp(a, c) is Less,
{
    reveal(path_cmp);
    lemma_comps_order(components(a), components(b), components(c));
}
// trusted: the derived order of RawPath, which is that of PathBuf
impl PartialEq for RawPath {
    #[verifier::external_body]
    fn eq(&self, o: &RawPath) -> bool { self.0 == o.0 }
}
impl Eq for RawPath {}
impl PartialOrd for RawPath {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &RawPath) -> Option<Ordering> { self.0.partial_cmp(&o.0) }
}
impl Ord for RawPath {
    #[verifier::external_body]
    fn cmp(&self, o: &RawPath) -> (r: Ordering)
        ensures r == path_cmp(self@, o@),
    { self.0.cmp(&o.0) }
}
