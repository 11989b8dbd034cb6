//@ verus
// ---------------------------------------------------------------- trusted: archives and streams
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct ExArchive<R: ?Sized + Read>(tar::Archive<R>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct ExGzDecoder<R>(GzDecoder<R>);
/// what a stream yields until its end or until it fails
pub uninterp spec fn content<R: Read>(r: R) -> Seq<u8>;
pub uninterp spec fn gunzip(s: Seq<u8>) -> Seq<u8>;
/// The members of an archive, None for one that cannot be read; None if it is none at all.
pub uninterp spec fn untar(s: Seq<u8>) -> Option<Seq<Option<Member>>>;
pub uninterp spec fn tar_of<R: Read>(a: tar::Archive<R>) -> Option<Seq<Option<Member>>>;
pub assume_specification<R: Read> [GzDecoder::<R>::new] (r: R) -> (d: GzDecoder<R>) ensures content(d) == gunzip(content(r));
pub assume_specification<R: Read> [tar::Archive::<R>::new] (r: R) -> (a: tar::Archive<R>) ensures tar_of(a) == untar(content(r));
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct Members<'a, R: 'a + Read>(tar::Entries<'a, R>);
pub open spec fn member_of<'a, R: Read>(r: Result<tar::Entry<'a, R>, io::Error>) -> Option<Member> {
    match r { Ok(e) => Some(member(e)), Err(_) => None }
}
impl<'a, R: 'a + Read> Members<'a, R> {
    /// the members that are still to come
    pub uninterp spec fn view(&self) -> Seq<Option<Member>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Result<tar::Entry<'a, R>, io::Error>>)
        ensures match r {
            Some(e) => old(self)@.len() > 0 && member_of(e) == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
    { self.0.next() }
}
pub trait Archive_<R: Read> {
    spec fn items(&self) -> Option<Seq<Option<Member>>>;
    fn entries_(&mut self) -> (r: Result<Members<'_, R>, io::Error>)
        ensures match r { Ok(m) => old(self).items() == Some(m@), Err(_) => old(self).items() is None };
}
impl<R: Read> Archive_<R> for tar::Archive<R> {
    open spec fn items(&self) -> Option<Seq<Option<Member>>> { tar_of(*self) }
    #[verifier::external_body]
    fn entries_(&mut self) -> (r: Result<Members<'_, R>, io::Error>) { self.entries().map(Members) }
}
// ---------------------------------------------------------------- trusted: Peekable, extend
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
pub struct ExPeekable<I: Iterator>(std::iter::Peekable<I>);
pub mod peek {
use super::*;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Peek<'a, T>(pub std::iter::Peekable<slice::IterMut<'a, T>>);
impl<'a, T> Peek<'a, T> {
    #[verifier::prophetic]
    pub uninterp spec fn coming(&self) -> Seq<&'a mut T>;
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&&'a mut T>)
        ensures
            final(self).coming() == old(self).coming(),
            match r { Some(x) => old(self).coming().len() > 0 && *x == old(self).coming()[0], None => old(self).coming().len() == 0 },
    { std::iter::Peekable::peek(&mut self.0) }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a mut T>)
        ensures
            match r {
                Some(x) => old(self).coming().len() > 0 && x == old(self).coming()[0] && final(self).coming() == old(self).coming().drop_first(),
                None => old(self).coming().len() == 0 && final(self).coming().len() == 0,
            },
    { self.0.next() }
}
/// What a dropped iterator has not handed out stays as it was
#[verifier::external_body]
pub broadcast proof fn axiom_peek_dropped<'a, T>(it: Peek<'a, T>)
    ensures #[trigger] has_resolved(it) ==> forall|i: int| 0 <= i < it.coming().len() ==> has_resolved(#[trigger] it.coming()[i]),
{}
}
use peek::Peek;
pub trait Peekable_<'a, T> {
    #[verifier::prophetic]
    spec fn all_mut(&self) -> Seq<&'a mut T>;
    fn peekable_(self) -> (r: Peek<'a, T>) where Self: Sized ensures r.coming() == self.all_mut();
}
impl<'a, T> Peekable_<'a, T> for slice::IterMut<'a, T> {
    #[verifier::prophetic]
    open spec fn all_mut(&self) -> Seq<&'a mut T> { self.remaining() }
    #[verifier::external_body]
    fn peekable_(self) -> (r: Peek<'a, T>) { Peek(self.peekable()) }
}
pub trait Extend_<T> {
    spec fn held(&self) -> Seq<T>;
    fn extend_(&mut self, it: std::vec::IntoIter<T>)
        ensures final(self).held() == old(self).held() + it.remaining();
}
impl<T> Extend_<T> for Vec<T> {
    open spec fn held(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn extend_(&mut self, it: std::vec::IntoIter<T>) { self.extend(it) }
}
// ---------------------------------------------------------------- C07: what a signature says
/// What a signature says of a path: None if it is deleted.
pub ghost struct Mention { pub path: Seq<u8>, pub info: Option<Info> }
pub open spec fn info_of(m: Member) -> Info {
    Info {
        mtime: Timespec { sec: (match m.head.mtime { Some(t) => t, None => 0 }) as i64, nsec: 0 },
        uid: m.head.uid, gid: m.head.gid, mode: m.head.mode, kind: m.head.kind, size: hint_of(m), link: m.link,
    }
}
pub open spec fn mention_of(m: Option<Member>) -> Option<Mention> {
    match m {
        Some(m) => match split_path(m.path) {
            Some((Folder::Deleted, p)) => Some(Mention { path: p, info: None }),
            Some((_, p)) => Some(Mention { path: p, info: Some(info_of(m)) }),
            None => None,
        },
        None => None,
    }
}
/// What a signature says, in its order; members that cannot be read or are in other folders say nothing.
pub open spec fn mentions(ms: Seq<Option<Member>>) -> Seq<Mention>
    decreases ms.len(),
{
    if ms.len() == 0 { Seq::empty() } else {
        match mention_of(ms.last()) { Some(x) => mentions(ms.drop_last()).push(x), None => mentions(ms.drop_last()) }
    }
}
pub open spec fn with_name(m: Map<u64, Seq<char>>, id: Option<u64>, name: Option<Seq<char>>) -> Map<u64, Seq<char>> {
    match (id, name) { (Some(i), Some(n)) => m.insert(i, n), _ => m }
}
pub open spec fn with_names(n: Names, m: Option<Member>) -> Names {
    match (mention_of(m), m) {
        (Some(Mention { info: Some(_), .. }), Some(m)) => Names {
            users: with_name(n.users, m.head.uid, m.head.user),
            groups: with_name(n.groups, m.head.gid, m.head.group),
        },
        _ => n,
    }
}
/// The names recorded last.
pub open spec fn names_after(n: Names, ms: Seq<Option<Member>>) -> Names
    decreases ms.len(),
{
    if ms.len() == 0 { n } else { with_names(names_after(n, ms.drop_last()), ms.last()) }
}
pub open spec fn same(a: Seq<u8>, b: Seq<u8>) -> bool { path_cmp(a, b) is Equal }
pub open spec fn before(a: Seq<u8>, b: Seq<u8>) -> bool { path_cmp(a, b) is Less }
/// paths in strict order
pub open spec fn in_order(ps: Seq<PathV>) -> bool { forall|i: int, j: int| #![trigger ps[i], ps[j]] 0 <= i < j < ps.len() ==> before(ps[i].path, ps[j].path) }
pub open spec fn mentioned_in_order(ms: Seq<Mention>) -> bool { forall|i: int, j: int| #![trigger ms[i], ms[j]] 0 <= i < j < ms.len() ==> before(ms[i].path, ms[j].path) }
pub open spec fn mentions_path(ms: Seq<Mention>, p: Seq<u8>, j: int) -> bool { 0 <= j < ms.len() && same(ms[j].path, p) }
/// what signature `id` adds to the history of a path
pub open spec fn said(ms: Seq<Mention>, p: Seq<u8>, id: nat) -> Seq<SnapV> {
    if exists|j: int| #[trigger] mentions_path(ms, p, j) {
        seq![SnapV { index: id, info: ms[choose|j: int| #[trigger] mentions_path(ms, p, j)].info }]
    } else { Seq::empty() }
}
pub open spec fn holds_path(ps: Seq<PathV>, p: Seq<u8>, k: int) -> bool { 0 <= k < ps.len() && same(ps[k].path, p) }
/// the history of a path
pub open spec fn history(ps: Seq<PathV>, p: Seq<u8>) -> Seq<SnapV> {
    if exists|k: int| #[trigger] holds_path(ps, p, k) { ps[choose|k: int| #[trigger] holds_path(ps, p, k)].snaps } else { Seq::empty() }
}
/// the mentions of paths that are new
pub open spec fn fresh(ms: Seq<Mention>, old: Seq<PathV>, id: nat) -> Seq<PathV>
    decreases ms.len(),
{
    if ms.len() == 0 { Seq::empty() } else {
        let r = fresh(ms.drop_last(), old, id);
        let m = ms.last();
        if exists|k: int| #[trigger] holds_path(old, m.path, k) { r } else { r.push(PathV { path: m.path, snaps: seq![SnapV { index: id, info: m.info }] }) }
    }
}
/// `new` is `old` with what signature `id` says added to the history of each path
pub open spec fn merged(old: Seq<PathV>, ms: Seq<Mention>, id: nat, new: Seq<PathV>) -> bool {
    &&& in_order(new)
    &&& forall|p: Seq<u8>| #[trigger] history(new, p) == history(old, p) + said(ms, p, id)
    &&& forall|i: int| 0 <= i < new.len() ==> spelt((#[trigger] new[i]).path, old, ms)
}
/// `p` is written as it is in `old`, or as it is mentioned
pub open spec fn spelt(p: Seq<u8>, old: Seq<PathV>, ms: Seq<Mention>) -> bool {
    (exists|k: int| 0 <= k < old.len() && #[trigger] old[k].path == p) || worded(ms, p)
}
pub open spec fn worded(ms: Seq<Mention>, p: Seq<u8>) -> bool { exists|j: int| 0 <= j < ms.len() && #[trigger] ms[j].path == p }
proof fn lemma_mentions_step(ms: Seq<Option<Member>>, n: Names, k: int)
    requires 0 <= k < ms.len(),
    ensures
        mentions(ms.take(k + 1)) == (match mention_of(ms[k]) { Some(x) => mentions(ms.take(k)).push(x), None => mentions(ms.take(k)) }),
        names_after(n, ms.take(k + 1)) == with_names(names_after(n, ms.take(k)), ms[k]),
{
    assert(ms.take(k + 1).drop_last() =~= ms.take(k));
}
/// the mentions of the first members are the first mentions
proof fn lemma_mentions_prefix(ms: Seq<Option<Member>>, k: int)
    requires 0 <= k <= ms.len(),
    ensures mentions(ms.take(k)).is_prefix_of(mentions(ms)),
    decreases ms.len() - k,
{
    if k < ms.len() {
        lemma_mentions_prefix(ms, k + 1);
        lemma_mentions_step(ms, Names { users: Map::empty(), groups: Map::empty() }, k);
    } else { assert(ms.take(k) =~= ms); }
}
proof fn lemma_same_order(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures
        same(a, a), same(a, b) == same(b, a), !(before(a, b) && before(b, a)), !(before(a, b) && same(a, b)), !(before(a, b) && same(b, a)),
        same(a, b) && same(b, c) ==> same(a, c),
        same(a, b) && before(b, c) ==> before(a, c),
        before(a, b) && same(b, c) ==> before(a, c),
        before(a, b) && before(b, c) ==> before(a, c),
        same(a, b) || before(a, b) || before(b, a),
{
    lemma_path_order(a, b, c);
    lemma_path_order(b, a, c);
    lemma_path_order(a, a, a);
}
proof fn lemma_said(ms: Seq<Mention>, p: Seq<u8>, id: nat, j: int)
    requires mentioned_in_order(ms), mentions_path(ms, p, j),
    ensures said(ms, p, id) == seq![SnapV { index: id, info: ms[j].info }],
{
    let i = choose|j: int| #[trigger] mentions_path(ms, p, j);
    lemma_same_order(ms[i].path, p, ms[j].path);
    lemma_same_order(ms[j].path, p, ms[i].path);
    lemma_same_order(p, ms[j].path, ms[i].path);
    if i < j { assert(before(ms[i].path, ms[j].path)); }
    if j < i { assert(before(ms[j].path, ms[i].path)); }
}
/// what comes after all that is mentioned is not mentioned
proof fn lemma_said_none(ms: Seq<Mention>, p: Seq<u8>, id: nat)
    requires mentioned_in_order(ms), ms.len() > 0 ==> before(ms.last().path, p),
    ensures said(ms, p, id) == Seq::<SnapV>::empty(),
{
    assert forall|j: int| !mentions_path(ms, p, j) by {
        if mentions_path(ms, p, j) {
            lemma_same_order(ms[j].path, ms.last().path, p);
            lemma_same_order(ms.last().path, p, ms[j].path);
            if j < ms.len() - 1 { assert(before(ms[j].path, ms[ms.len() - 1].path)); }
        }
    }
}
proof fn lemma_said_push(ms: Seq<Mention>, m: Mention, p: Seq<u8>, id: nat)
    requires mentioned_in_order(ms.push(m)),
    ensures
        mentioned_in_order(ms),
        said(ms.push(m), p, id) == (if same(m.path, p) { seq![SnapV { index: id, info: m.info }] } else { said(ms, p, id) }),
{
    let all = ms.push(m);
    assert forall|i: int, j: int| 0 <= i < j < ms.len() implies #[trigger] before(ms[i].path, ms[j].path) by { assert(before(all[i].path, all[j].path)); }
    if same(m.path, p) {
        assert(mentions_path(all, p, ms.len() as int));
        lemma_said(all, p, id, ms.len() as int);
    } else if exists|j: int| #[trigger] mentions_path(ms, p, j) {
        let j = choose|j: int| #[trigger] mentions_path(ms, p, j);
        assert(mentions_path(all, p, j));
        lemma_said(all, p, id, j);
        lemma_said(ms, p, id, j);
    } else {
        assert forall|j: int| !mentions_path(all, p, j) by {
            if mentions_path(all, p, j) { assert(j < ms.len()); assert(mentions_path(ms, p, j)); }
        }
    }
}
pub open spec fn told(o: PathV, ms: Seq<Mention>, id: nat) -> PathV { PathV { path: o.path, snaps: o.snaps + said(ms, o.path, id) } }
/// After the mentions `ms`, the paths below `k` are done: none of the later ones was mentioned.
pub open spec fn progress(old: Seq<PathV>, new: Seq<PathV>, k: int, ms: Seq<Mention>, id: nat) -> bool {
    &&& 0 <= k <= old.len() && old.len() == new.len()
    &&& forall|i: int| #![trigger new[i]] #![trigger old[i]] 0 <= i < k ==> new[i] == told(old[i], ms, id) && ms.len() > 0 && !before(ms.last().path, old[i].path)
    &&& beyond(old, k, ms)
}
pub open spec fn beyond(old: Seq<PathV>, k: int, ms: Seq<Mention>) -> bool {
    forall|i: int| #![trigger old[i]] k <= i < old.len() && ms.len() > 0 ==> before(ms.last().path, old[i].path)
}
/// While `p` is looked for: the paths below `k` (but for the one found) are done and before it.
pub open spec fn searched(old: Seq<PathV>, new: Seq<PathV>, k: int, ms: Seq<Mention>, id: nat, p: Seq<u8>, found: bool) -> bool {
    &&& 0 <= k <= old.len() && old.len() == new.len()
    &&& forall|i: int| #![trigger new[i]] #![trigger old[i]] 0 <= i < (if found { k - 1 } else { k }) ==> new[i] == told(old[i], ms, id) && before(old[i].path, p)
    &&& found ==> k > 0 && same(old[k - 1].path, p)
}
proof fn lemma_search_starts(old: Seq<PathV>, new: Seq<PathV>, k: int, ms: Seq<Mention>, m: Mention, id: nat)
    requires progress(old, new, k, ms, id), mentioned_in_order(ms.push(m)),
    ensures searched(old, new, k, ms, id, m.path, false), mentioned_in_order(ms),
{
    lemma_said_push(ms, m, m.path, id);
    assert forall|i: int| #![trigger old[i]] 0 <= i < k implies before(old[i].path, m.path) by {
        assert(new[i] == told(old[i], ms, id));
        assert(before(ms.push(m)[ms.len() - 1].path, ms.push(m)[ms.len() as int].path));
        lemma_same_order(old[i].path, ms.last().path, m.path);
    }
}
/// the path at `k` is before the one looked for, and is left as it is
proof fn lemma_search_passes(old: Seq<PathV>, new: Seq<PathV>, k: int, ms: Seq<Mention>, id: nat, p: Seq<u8>)
    requires
        searched(old, new, k, ms, id, p, false), k < old.len(), before(old[k].path, p), new[k] == old[k],
        mentioned_in_order(ms), ms.len() > 0 ==> before(ms.last().path, old[k].path),
    ensures searched(old, new, k + 1, ms, id, p, false),
{
    lemma_said_none(ms, old[k].path, id);
    assert(old[k].snaps + Seq::<SnapV>::empty() =~= old[k].snaps);
}
proof fn lemma_search_finds(old: Seq<PathV>, new: Seq<PathV>, k: int, ms: Seq<Mention>, id: nat, p: Seq<u8>)
    requires searched(old, new, k, ms, id, p, false), k < old.len(), same(old[k].path, p),
    ensures searched(old, new, k + 1, ms, id, p, true),
{
}
/// past the path found, all are greater
proof fn lemma_search_found(old: Seq<PathV>, new: Seq<PathV>, k: int, ms: Seq<Mention>, id: nat, p: Seq<u8>)
    requires searched(old, new, k, ms, id, p, true), in_order(old), k < old.len(),
    ensures before(p, old[k].path), !same(old[k].path, p),
{
    assert(before(old[k - 1].path, old[k].path));
    lemma_same_order(p, old[k - 1].path, old[k].path);
    lemma_same_order(old[k].path, p, p);
    lemma_same_order(p, old[k].path, p);
}
/// when the path at `k` is past the one looked for, so are the later ones
proof fn lemma_search_ends(old: Seq<PathV>, k: int, p: Seq<u8>)
    requires in_order(old), 0 <= k < old.len(), before(p, old[k].path),
    ensures forall|i: int| #![trigger old[i]] k <= i < old.len() ==> before(p, old[i].path),
{
    assert forall|i: int| #![trigger old[i]] k <= i < old.len() implies before(p, old[i].path) by {
        if k < i { assert(before(old[k].path, old[i].path)); lemma_same_order(p, old[k].path, old[i].path); }
    }
}
pub open spec fn past(old: Seq<PathV>, k: int, p: Seq<u8>) -> bool { forall|i: int| #![trigger old[i]] k <= i < old.len() ==> before(p, old[i].path) }
/// the mention is entered where it was found, or is fresh
proof fn lemma_progress(old: Seq<PathV>, new: Seq<PathV>, k: int, ms: Seq<Mention>, m: Mention, id: nat, found: bool)
    requires
        searched(old, new, k, ms, id, m.path, found), past(old, k, m.path), mentioned_in_order(ms.push(m)),
        found ==> new[k - 1] == (PathV { path: old[k - 1].path, snaps: old[k - 1].snaps.push(SnapV { index: id, info: m.info }) }),
    ensures
        progress(old, new, k, ms.push(m), id),
        fresh(ms.push(m), old, id) == (if found { fresh(ms, old, id) } else { fresh(ms, old, id).push(PathV { path: m.path, snaps: seq![SnapV { index: id, info: m.info }] }) }),
{
    let all = ms.push(m);
    assert forall|i: int| #![trigger old[i]] 0 <= i < k implies new[i] == told(old[i], all, id) && !before(m.path, old[i].path) by {
        lemma_said_push(ms, m, old[i].path, id);
        lemma_same_order(old[i].path, m.path, m.path);
        lemma_same_order(m.path, old[i].path, m.path);
        if found && i == k - 1 {
            let s = SnapV { index: id, info: m.info };
            assert(old[i].snaps.push(s) =~= old[i].snaps + seq![s]);
        }
    }
    assert(all.last() == m);
    assert(all.drop_last() =~= ms);
    if found { assert(holds_path(old, m.path, k - 1)); }
    else {
        assert forall|i: int| !holds_path(old, m.path, i) by {
            if 0 <= i < old.len() {
                lemma_same_order(old[i].path, m.path, m.path);
                lemma_same_order(m.path, old[i].path, m.path);
            }
        }
    }
}
proof fn lemma_history(ps: Seq<PathV>, p: Seq<u8>, k: int)
    requires in_order(ps), holds_path(ps, p, k),
    ensures history(ps, p) == ps[k].snaps,
{
    let i = choose|k: int| #[trigger] holds_path(ps, p, k);
    lemma_same_order(ps[i].path, p, ps[k].path);
    lemma_same_order(ps[k].path, p, ps[i].path);
    lemma_same_order(p, ps[k].path, ps[i].path);
    if i < k { assert(before(ps[i].path, ps[k].path)); }
    if k < i { assert(before(ps[k].path, ps[i].path)); }
}
/// fresh holds the mentions of new paths, in their order
proof fn lemma_fresh(ms: Seq<Mention>, old: Seq<PathV>, id: nat)
    requires mentioned_in_order(ms),
    ensures
        in_order(fresh(ms, old, id)),
        forall|i: int| #![trigger fresh(ms, old, id)[i]] 0 <= i < fresh(ms, old, id).len() ==>
            fresh(ms, old, id)[i].snaps == said(ms, fresh(ms, old, id)[i].path, id) && fresh(ms, old, id)[i].snaps.len() > 0
            && history(old, fresh(ms, old, id)[i].path) == Seq::<SnapV>::empty() && !(exists|k: int| holds_path(old, fresh(ms, old, id)[i].path, k))
            && !before(ms.last().path, fresh(ms, old, id)[i].path),
        forall|p: Seq<u8>, j: int| #[trigger] mentions_path(ms, p, j) && !(exists|k: int| #[trigger] holds_path(old, p, k)) ==> exists|i: int| #[trigger] holds_path(fresh(ms, old, id), p, i),
    decreases ms.len(),
{
    if ms.len() > 0 {
        let r = ms.drop_last();
        let m = ms.last();
        assert(r.push(m) =~= ms);
        lemma_said_push(r, m, m.path, id);
        lemma_fresh(r, old, id);
        let fr = fresh(r, old, id);
        let f = fresh(ms, old, id);
        if r.len() > 0 { assert(before(ms[r.len() - 1].path, ms[r.len() as int].path)); }
        assert forall|i: int| 0 <= i < fr.len() implies before(#[trigger] fr[i].path, m.path) by {
            lemma_same_order(fr[i].path, r.last().path, m.path);
        }
        assert forall|i: int| #![trigger f[i]] 0 <= i < f.len() implies
            f[i].snaps == said(ms, f[i].path, id) && f[i].snaps.len() > 0 && history(old, f[i].path) == Seq::<SnapV>::empty()
            && !(exists|k: int| holds_path(old, f[i].path, k)) && !before(m.path, f[i].path) by
        {
            lemma_said_push(r, m, f[i].path, id);
            lemma_same_order(f[i].path, m.path, m.path);
            lemma_same_order(m.path, f[i].path, m.path);
            if i < fr.len() { assert(f[i] == fr[i]); assert(before(fr[i].path, m.path)); }
        }
        assert forall|p: Seq<u8>, j: int| #[trigger] mentions_path(ms, p, j) && !(exists|k: int| #[trigger] holds_path(old, p, k)) implies exists|i: int| #[trigger] holds_path(f, p, i) by {
            if j < r.len() {
                assert(mentions_path(r, p, j));
                let i = choose|i: int| #[trigger] holds_path(fr, p, i);
                assert(holds_path(f, p, i));
            } else {
                assert forall|k: int| !holds_path(old, m.path, k) by {
                    if holds_path(old, m.path, k) { lemma_same_order(old[k].path, m.path, p); assert(holds_path(old, p, k)); }
                }
                assert(holds_path(f, p, f.len() - 1));
            }
        }
    }
}
proof fn lemma_merged(old: Seq<PathV>, f1: Seq<PathV>, ms: Seq<Mention>, id: nat, new: Seq<PathV>, idx: Seq<int>)
    requires
        in_order(old), mentioned_in_order(ms), f1.len() == old.len(),
        forall|i: int| #![trigger f1[i]] 0 <= i < f1.len() ==> f1[i] == told(old[i], ms, id),
        rearranged(new, f1 + fresh(ms, old, id), idx),
        forall|i: int, j: int| #![trigger new[i], new[j]] 0 <= i < j < new.len() ==> !before(new[j].path, new[i].path),
    ensures merged(old, ms, id, new),
{
    let f = fresh(ms, old, id);
    let all = f1 + f;
    lemma_fresh(ms, old, id);
    // no path is there twice
    assert forall|i: int, j: int| #![trigger all[i], all[j]] 0 <= i < j < all.len() implies !same(all[i].path, all[j].path) by {
        lemma_same_order(all[i].path, all[j].path, all[i].path);
        if j < f1.len() { assert(all[i] == told(old[i], ms, id) && all[j] == told(old[j], ms, id)); assert(before(old[i].path, old[j].path)); }
        else if i >= f1.len() { assert(all[i] == f[i - f1.len()] && all[j] == f[j - f1.len()]); assert(before(f[i - f1.len()].path, f[j - f1.len()].path)); }
        else {
            assert(all[i] == told(old[i], ms, id) && all[j] == f[j - f1.len()]);
            if same(all[i].path, all[j].path) { assert(holds_path(old, f[j - f1.len()].path, i)); }
        }
    }
    assert forall|i: int, j: int| #![trigger new[i], new[j]] 0 <= i < j < new.len() implies before(new[i].path, new[j].path) by {
        let (x, y) = (idx[i], idx[j]);
        assert(x != y);
        assert(new[i] == all[x] && new[j] == all[y]);
        lemma_same_order(new[i].path, new[j].path, new[i].path);
        lemma_same_order(new[j].path, new[i].path, new[i].path);
        if x < y { assert(!same(all[x].path, all[y].path)); } else { assert(!same(all[y].path, all[x].path)); }
    }
    assert forall|p: Seq<u8>| #[trigger] history(new, p) == history(old, p) + said(ms, p, id) by {
        if exists|k: int| #[trigger] holds_path(old, p, k) {
            let k = choose|k: int| #[trigger] holds_path(old, p, k);
            lemma_rearranged_onto(new, all, idx, k);
            let i = choose|i: int| 0 <= i < idx.len() && #[trigger] idx[i] == k;
            assert(new[i] == all[k] && all[k] == f1[k]);
            assert(holds_path(new, p, i));
            lemma_history(new, p, i);
            lemma_history(old, p, k);
            lemma_said_same(ms, old[k].path, p, id);
        } else if exists|j: int| #[trigger] mentions_path(ms, p, j) {
            let j = choose|j: int| #[trigger] mentions_path(ms, p, j);
            let x = choose|x: int| #[trigger] holds_path(f, p, x);
            lemma_rearranged_onto(new, all, idx, f1.len() + x);
            let i = choose|i: int| 0 <= i < idx.len() && #[trigger] idx[i] == f1.len() + x;
            assert(new[i] == all[f1.len() + x] && all[f1.len() + x] == f[x]);
            assert(holds_path(new, p, i));
            lemma_history(new, p, i);
            lemma_said_same(ms, f[x].path, p, id);
            assert(history(old, p) + said(ms, p, id) =~= said(ms, p, id));
        } else {
            assert forall|i: int| !holds_path(new, p, i) by {
                if holds_path(new, p, i) {
                    let x = idx[i];
                    assert(new[i] == all[x]);
                    if x < f1.len() { assert(all[x] == f1[x]); assert(holds_path(old, p, x)); }
                    else {
                        assert(all[x] == f[x - f1.len()]);
                        lemma_said_same(ms, f[x - f1.len()].path, p, id);
                        assert(said(ms, p, id).len() > 0);
                    }
                }
            }
        }
    }
    assert forall|i: int| 0 <= i < new.len() implies spelt((#[trigger] new[i]).path, old, ms) by {
        let x = idx[i];
        assert(new[i] == all[x]);
        if x < f1.len() { assert(all[x] == f1[x]); assert(old[x].path == new[i].path); }
        else { assert(all[x] == f[x - f1.len()]); lemma_fresh_worded(ms, old, id, x - f1.len()); }
    }
}
proof fn lemma_fresh_worded(ms: Seq<Mention>, old: Seq<PathV>, id: nat, i: int)
    requires 0 <= i < fresh(ms, old, id).len(),
    ensures worded(ms, fresh(ms, old, id)[i].path),
    decreases ms.len(),
{
    let r = fresh(ms.drop_last(), old, id);
    if i < r.len() {
        lemma_fresh_worded(ms.drop_last(), old, id, i);
        let j = choose|j: int| 0 <= j < ms.drop_last().len() && #[trigger] ms.drop_last()[j].path == r[i].path;
        assert(ms[j].path == r[i].path);
    } else { assert(ms[ms.len() - 1].path == fresh(ms, old, id)[i].path); }
}
/// equal paths are said the same of
proof fn lemma_said_same(ms: Seq<Mention>, p: Seq<u8>, q: Seq<u8>, id: nat)
    requires same(p, q), mentioned_in_order(ms),
    ensures said(ms, p, id) == said(ms, q, id),
{
    if exists|j: int| #[trigger] mentions_path(ms, p, j) {
        let j = choose|j: int| #[trigger] mentions_path(ms, p, j);
        lemma_same_order(ms[j].path, p, q);
        assert(mentions_path(ms, q, j));
        lemma_said(ms, p, id, j);
        lemma_said(ms, q, id, j);
    } else {
        assert forall|j: int| !mentions_path(ms, q, j) by {
            if mentions_path(ms, q, j) { lemma_same_order(ms[j].path, q, p); lemma_same_order(p, q, q); assert(mentions_path(ms, p, j)); }
        }
    }
}
// trusted: the derived equality and order of RawPath are those of the paths
impl vstd::std_specs::cmp::PartialEqSpecImpl for RawPath {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &RawPath) -> bool { same(self@, o@) }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for RawPath {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &RawPath) -> Option<Ordering> { Some(path_cmp(self@, o@)) }
}
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (r: std::result::Result<T, E>, d: T) -> (v: T)
    where E: std::marker::Destruct, T: std::marker::Destruct,
    ensures v == (match r { Ok(x) => x, Err(_) => d });
pub assume_specification<T: Clone> [<[T] as ToOwned>::to_owned] (s: &[T]) -> (r: Vec<T>)
    ensures r@ == s@;
pub closed spec fn now(s: Seq<PathSnapshots>) -> Seq<PathV> { s.map_values(|f: PathSnapshots| f@) }
#[verifier::prophetic]
spec fn later(s: Seq<&mut PathSnapshots>) -> Seq<PathV> { s.map_values(|f: &mut PathSnapshots| (*final(f))@) }
/// a reference to what `r` refers to
#[verifier::prophetic]
spec fn at_ref(p: Option<&mut PathSnapshots>, r: &mut PathSnapshots) -> bool {
    match p { Some(p) => *p == *r && *final(p) == *final(r), None => false }
}
/// the iterator has handed out the first `k` of `refs`
#[verifier::prophetic]
spec fn handed(refs: Seq<&mut PathSnapshots>, f0: Seq<PathSnapshots>, coming: Seq<&mut PathSnapshots>, k: int) -> bool {
    &&& refs.len() == f0.len() && 0 <= k <= refs.len()
    &&& forall|i: int| #![trigger refs[i]] 0 <= i < refs.len() ==> *refs[i] == f0[i]
    &&& coming =~= refs.skip(k)
}
broadcast proof fn lemma_snaps_push(s: Seq<PathSnapshot>, x: PathSnapshot)
    ensures #[trigger] snaps_of(s.push(x)) == snaps_of(s).push(x@),
{
    assert(snaps_of(s.push(x)) =~= snaps_of(s).push(x@));
}
broadcast proof fn lemma_now_push(s: Seq<PathSnapshots>, x: PathSnapshots)
    ensures #[trigger] now(s.push(x)) == now(s).push(x@),
{
    assert(now(s.push(x)) =~= now(s).push(x@));
}
/// every path of `old` has got what is said of it
pub open spec fn told_all(old: Seq<PathV>, new: Seq<PathV>, ms: Seq<Mention>, id: nat) -> bool {
    old.len() == new.len() && forall|i: int| #![trigger new[i]] 0 <= i < new.len() ==> new[i] == told(old[i], ms, id)
}
proof fn lemma_told_all(old: Seq<PathV>, new: Seq<PathV>, k: int, ms: Seq<Mention>, id: nat)
    requires progress(old, new, k, ms, id), mentioned_in_order(ms), forall|i: int| #![trigger new[i]] k <= i < new.len() ==> new[i] == old[i],
    ensures told_all(old, new, ms, id),
{
    assert forall|i: int| #![trigger new[i]] 0 <= i < new.len() implies new[i] == told(old[i], ms, id) by {
        if i >= k {
            lemma_said_none(ms, old[i].path, id);
            assert(old[i].snaps + Seq::<SnapV>::empty() =~= old[i].snaps);
        }
    }
}
broadcast proof fn lemma_later(refs: Seq<&mut PathSnapshots>, fs: Seq<PathSnapshots>)
    ensures
        #![trigger later(refs), now(fs)]
        refs.len() == fs.len() && (forall|i: int| 0 <= i < refs.len() ==> *final(#[trigger] refs[i]) == fs[i]) ==> later(refs) == now(fs),
{
    if refs.len() == fs.len() && (forall|i: int| 0 <= i < refs.len() ==> *final(#[trigger] refs[i]) == fs[i]) {
        assert(later(refs) =~= now(fs));
    }
}
proof fn lemma_none_fresh(old: Seq<PathV>, new: Seq<PathV>, ms: Seq<Mention>, id: nat)
    requires in_order(old), mentioned_in_order(ms), told_all(old, new, ms, id), fresh(ms, old, id).len() == 0,
    ensures merged(old, ms, id, new),
{
    assert(new =~= new + fresh(ms, old, id));
    assert forall|i: int, j: int| #![trigger new[i], new[j]] 0 <= i < j < new.len() implies !before(new[j].path, new[i].path) by {
        assert(before(old[i].path, old[j].path));
        lemma_same_order(old[i].path, old[j].path, old[i].path);
    }
    lemma_merged(old, new, ms, id, new, Seq::new(new.len(), |i: int| i));
}
//@ file src/macros.rs
//@ item macro unwrap_or_continue
//@ item macro unwrap_opt_or_continue
//@ file src/signatures.rs
//@ fn Chain::add_sigtar_to_snapshots ret=r loops=2 props=C07,C08,C09
//@ spec
    ensures
        r is Ok <==> tar_of(tar) is Some,
        final(self).count() == old(self).count(),
        r is Ok ==> {
            let ms = tar_of(tar)->Some_0;
            &&& final(self).names() == names_after(old(self).names(), ms)
            &&& in_order(old(self).paths()) && mentioned_in_order(mentions(ms)) ==> merged(old(self).paths(), mentions(ms), snapshot_id as nat, final(self).paths())
        },
//@ let new_files after
        let ghost f0 = self.files@;
        let ghost f0v = now(f0);
        let ghost names0 = self.ug_map@;
        let ghost id = snapshot_id as nat;
        let ghost mut seen: Seq<Option<Member>> = Seq::empty();
//@ let old_snapshots after
            let ghost refs = old_snapshots.coming();
            let ghost mut k = 0int;
//@ loop 0 desugar members
            let ghost items = members@;
            let ghost good = in_order(f0v) && mentioned_in_order(mentions(items));
            proof {
                seen = items;
                assert(items.take(0) =~= Seq::<Option<Member>>::empty());
                assert(items.skip(0) =~= items);
                assert(now(new_files@) =~= Seq::<PathV>::empty());
            }
//@ loop 0 spec
            invariant
                seen == items, id == snapshot_id, f0v == now(f0),
                good == (in_order(f0v) && mentioned_in_order(mentions(items))),
                members@.len() <= items.len(), members@ == items.skip(items.len() - members@.len()),
                self.num_snapshots == old(self).num_snapshots,
                self.ug_map@ == names_after(names0, items.take(items.len() - members@.len())),
                handed(refs, f0, old_snapshots.coming(), k),
                good ==> progress(f0v, later(refs), k, mentions(items.take(items.len() - members@.len())), id),
                good ==> now(new_files@) == fresh(mentions(items.take(items.len() - members@.len())), f0v, id),
            ensures members@.len() == 0,
            decreases members@.len(),
//@ loop 0 body-start
                broadcast use {lemma_snaps_push, lemma_now_push};
                let ghost n = items.len() - members@.len() - 1;
                let ghost m = member_of(tarfile);
                let ghost ms = mentions(items.take(n));
                proof {
                    assert(m == items[n]);
                    lemma_mentions_step(items, names0, n);
                    lemma_mentions_prefix(items, n + 1);
                    assert(members@ =~= items.skip(n + 1));
                }
//@ let new_snapshot after
                    let ghost p = path@;
                    let ghost men = Mention { path: p, info: new_snapshot@.info };
                    proof {
                        assert(mention_of(m) == Some(men));
                        assert(good ==> mentioned_in_order(ms.push(men)));
                        if good { lemma_search_starts(f0v, later(refs), k, ms, men, id); }
                    }
//@ loop 1 spec
                        invariant
                            p == path@, id == snapshot_id, f0v == now(f0),
                            good ==> in_order(f0v) && mentioned_in_order(ms),
                            handed(refs, f0, old_snapshots.coming(), k),
                            good ==> beyond(f0v, k, ms),
                            good ==> searched(f0v, later(refs), k, ms, id, p, position is Some),
                            good && position is Some ==> at_ref(position, refs[k - 1]),
                        ensures
                            handed(refs, f0, old_snapshots.coming(), k),
                            good ==> past(f0v, k, p),
                            good ==> searched(f0v, later(refs), k, ms, id, p, position is Some),
                            good && position is Some ==> at_ref(position, refs[k - 1]),
                        decreases f0.len() - k,
//@ loop 1 body-start
                            proof {
                                if k < f0.len() {
                                    assert(old_snapshots.coming()[0] == refs[k]);
                                    assert(f0v[k] == f0[k]@);
                                    assert(old_snapshots.coming().drop_first() =~= refs.skip(k + 1));
                                    lemma_same_order(f0v[k].path, p, p);
                                    lemma_path_order(p, f0v[k].path, p);
                                    if good {
                                        if position is Some { lemma_search_found(f0v, later(refs), k, ms, id, p); }
                                        if before(p, f0v[k].path) { lemma_search_ends(f0v, k, p); }
                                    }
                                }
                            }
//@ let path_snapshots after
                                proof {
                                    assert(path_snapshots == refs[k]);
                                    if good { lemma_search_finds(f0v, later(refs), k, ms, id, p); }
                                    k = k + 1;
                                }
//@ loop 1 body-end
                            proof {
                                if found { assert(position is Some); assert(at_ref(position, refs[k - 1])); }
                                if !found {
                                    assert(good ==> position is None);
                                    if good { lemma_search_passes(f0v, later(refs), k, ms, id, p); }
                                    k = k + 1;
                                }
                            }
//@ let position after
                let ghost entered = position is Some;
//@ loop 0 body-end
                proof {
                    if good { lemma_progress(f0v, later(refs), k, ms, men, id, entered); }
                }
//@ call push#1 after
                    proof {
                        assert(new_files@.last().snapshots@ =~= seq![new_snapshot]);
                        assert(new_files@.last().path@ == p);
                        assert(snaps_of(seq![new_snapshot]) =~= seq![new_snapshot@]);
                        assert(new_files@.last()@.snaps =~= seq![new_snapshot@]);
                    }
//@ loop 0 after
            proof {
                assert(items.take(items.len() as int) =~= items);
                assert(has_resolved(old_snapshots) && good ==> told_all(f0v, later(refs), mentions(seen), id)) by {
                    if has_resolved(old_snapshots) && good {
                        assert forall|i: int| #![trigger later(refs)[i]] k <= i < refs.len() implies later(refs)[i] == f0v[i] by {
                            assert(refs[i] == old_snapshots.coming()[i - k]);
                        }
                        lemma_told_all(f0v, later(refs), k, mentions(seen), id);
                    }
                }
            }
//@ call extend before
            let ghost f1 = self.files@;
            let ghost good = in_order(f0v) && mentioned_in_order(mentions(seen));
            proof { assert(good ==> told_all(f0v, now(f1), mentions(seen), id)); }
//@ call sort_by before
            let ghost f2 = self.files@;
            proof {
                assert forall|a: Seq<u8>, b: Seq<u8>, c: Seq<u8>| #![trigger path_cmp(a, b), path_cmp(b, c)]
                    path_cmp(b, a) == flip(path_cmp(a, b))
                    && (path_cmp(a, b) is Equal ==> path_cmp(a, c) == path_cmp(b, c))
                    && (path_cmp(b, c) is Equal ==> path_cmp(a, c) == path_cmp(a, b))
                    && (path_cmp(a, b) is Less && path_cmp(b, c) is Less ==> path_cmp(a, c) is Less) by { lemma_path_order(a, b, c); }
            }
//@ call sort_by after
            proof {
                assert(now(f2) =~= now(f1) + now(new_files@));
                if good {
                    let idx = choose|idx: Seq<int>| #[trigger] rearranged(self.files@, f2, idx) && forall|i: int, j: int| #![trigger self.files@[i], self.files@[j]] 0 <= i < j < idx.len() ==> !(path_cmp(self.files@[i].path@, self.files@[j].path@) is Greater);
                    assert forall|i: int, j: int| #![trigger now(self.files@)[i], now(self.files@)[j]] 0 <= i < j < self.files@.len() implies !before(now(self.files@)[j].path, now(self.files@)[i].path) by {
                        lemma_path_order(self.files@[i].path@, self.files@[j].path@, self.files@[i].path@);
                    }
                    assert(rearranged(now(self.files@), now(f1) + fresh(mentions(seen), f0v, id), idx));
                    lemma_merged(f0v, now(f1), mentions(seen), id, now(self.files@), idx);
                }
            }
//@ tail
        proof {
            if in_order(f0v) && mentioned_in_order(mentions(seen)) && fresh(mentions(seen), f0v, id).len() == 0 {
                assert(told_all(f0v, now(self.files@), mentions(seen), id));
                lemma_none_fresh(f0v, now(self.files@), mentions(seen), id);
            }
        }
//@ start
        broadcast use lemma_later;
//@ closure 0 params 1
|b: OwnedLink|
//@ closure 0 spec
-> (r: RawPath) ensures r@ == b@
//@ closure 1 params 2
|a: &PathSnapshots, b: &PathSnapshots|
//@ closure 1 spec
-> (o: Ordering) ensures o == path_cmp(a.path@, b.path@)
//@ verus
// ---------------------------------------------------------------- C07: the replay of a chain's signatures
/// the history that the signatures `hs` give a path
pub open spec fn replay(hs: Seq<Seq<Option<Member>>>, p: Seq<u8>) -> Seq<SnapV>
    decreases hs.len(),
{
    if hs.len() == 0 { Seq::empty() } else { replay(hs.drop_last(), p) + said(mentions(hs.last()), p, (hs.len() - 1) as nat) }
}
/// The members of each signature are in duplicity's order: strictly by path.
pub open spec fn all_in_order(hs: Seq<Seq<Option<Member>>>) -> bool { forall|i: int| 0 <= i < hs.len() ==> mentioned_in_order(mentions(#[trigger] hs[i])) }
pub open spec fn is_replay(ps: Seq<PathV>, hs: Seq<Seq<Option<Member>>>) -> bool {
    &&& in_order(ps)
    &&& forall|p: Seq<u8>| #[trigger] history(ps, p) == replay(hs, p)
    &&& forall|i: int| 0 <= i < ps.len() ==> written_somewhere(hs, (#[trigger] ps[i]).path)
}
pub open spec fn written_somewhere(hs: Seq<Seq<Option<Member>>>, p: Seq<u8>) -> bool {
    exists|i: int| 0 <= i < hs.len() && worded(mentions(#[trigger] hs[i]), p)
}
pub open spec fn names_replayed(hs: Seq<Seq<Option<Member>>>) -> Names
    decreases hs.len(),
{
    if hs.len() == 0 { Names { users: Map::empty(), groups: Map::empty() } } else { names_after(names_replayed(hs.drop_last()), hs.last()) }
}
pub proof fn lemma_replay_step(old: Seq<PathV>, hs: Seq<Seq<Option<Member>>>, h: Seq<Option<Member>>, new: Seq<PathV>)
    requires is_replay(old, hs), merged(old, mentions(h), hs.len(), new),
    ensures is_replay(new, hs.push(h)),
{
    let all = hs.push(h);
    assert(all.drop_last() =~= hs);
    assert forall|i: int| 0 <= i < new.len() implies written_somewhere(all, (#[trigger] new[i]).path) by {
        if worded(mentions(h), new[i].path) { assert(all[hs.len() as int] == h); }
        else {
            let k = choose|k: int| 0 <= k < old.len() && #[trigger] old[k].path == new[i].path;
            assert(written_somewhere(hs, old[k].path));
            let x = choose|x: int| 0 <= x < hs.len() && worded(mentions(#[trigger] hs[x]), old[k].path);
            assert(all[x] == hs[x]);
        }
    }
}
// ---------------------------------------------------------------- trusted: the backend
//@ include backend.vc
//@ verus
pub assume_specification [<String as AsRef<Path>>::as_ref] (s: &String) -> (r: &Path)
    ensures path_bytes(r) == encode_utf8(s@);
//@ include sig_files.vc
//@ verus
/// the members of a signature file with this content
pub open spec fn members_in(f: SigV, content: Seq<u8>) -> Option<Seq<Option<Member>>> { untar(if f.compressed { gunzip(content) } else { content }) }
pub open spec fn sig_at(c: SigChainV, i: int) -> SigV { if i == 0 { c.full } else { c.incs[i - 1] } }
/// what was read of the `i`-th signature file
pub open spec fn read_at<B: Backend>(b: &B, c: SigChainV, i: int, h: Seq<Option<Member>>) -> bool {
    exists|x: Seq<u8>| #[trigger] b.gives(encode_utf8(sig_at(c, i).name), x) && members_in(sig_at(c, i), x) == Some(h)
}
pub open spec fn unreadable_at<B: Backend>(b: &B, c: SigChainV, i: int) -> bool {
    b.refuses(encode_utf8(sig_at(c, i).name)) || exists|x: Seq<u8>| #[trigger] b.gives(encode_utf8(sig_at(c, i).name), x) && members_in(sig_at(c, i), x) is None
}
/// `hs` was read of the first signature files of `c`
pub open spec fn all_read<B: Backend>(b: &B, c: SigChainV, hs: Seq<Seq<Option<Member>>>) -> bool {
    forall|i: int| 0 <= i < hs.len() ==> read_at(b, c, i, #[trigger] hs[i])
}
/// The chain is the replay of what was read of all signature files.
pub open spec fn loaded<B: Backend>(b: &B, c: SigChainV, r: Chain) -> bool {
    exists|hs: Seq<Seq<Option<Member>>>| #[trigger] holds(r, hs) && all_read(b, c, hs) && hs.len() == c.incs.len() + 1
}
/// (lib.vc uses this.)
pub proof fn lemma_loaded_count<B: Backend>(b: &B, c: SigChainV, r: Chain)
    ensures loaded(b, c, r) ==> r.count() == c.incs.len() + 1,
{
    if loaded(b, c, r) {
        let hs = choose|hs: Seq<Seq<Option<Member>>>| #[trigger] holds(r, hs) && all_read(b, c, hs) && hs.len() == c.incs.len() + 1;
        assert(r.count() == hs.len());
    }
}
pub open spec fn unloadable<B: Backend>(b: &B, c: SigChainV) -> bool { exists|i: int| 0 <= i <= c.incs.len() && #[trigger] unreadable_at(b, c, i) }
/// The chain is the replay of these signatures.
pub open spec fn holds(c: Chain, hs: Seq<Seq<Option<Member>>>) -> bool {
    &&& c.count() == hs.len()
    &&& c.names() == names_replayed(hs)
    &&& all_in_order(hs) ==> is_replay(c.paths(), hs)
}
proof fn lemma_holds_nothing(c: Chain, hs: Seq<Seq<Option<Member>>>)
    requires c.count() == 0, c.names() == (Names { users: Map::empty(), groups: Map::empty() }), c.paths() == Seq::<PathV>::empty(), hs.len() == 0,
    ensures holds(c, hs),
{
    assert forall|p: Seq<u8>| #[trigger] history(c.paths(), p) == replay(hs, p) by {}
}
proof fn lemma_holds_step(c: Chain, d: Chain, hs: Seq<Seq<Option<Member>>>, h: Seq<Option<Member>>)
    requires
        holds(c, hs), d.count() == c.count() + 1, d.names() == names_after(c.names(), h),
        in_order(c.paths()) && mentioned_in_order(mentions(h)) ==> merged(c.paths(), mentions(h), c.count(), d.paths()),
    ensures holds(d, hs.push(h)),
{
    let all = hs.push(h);
    assert(all.drop_last() =~= hs);
    if all_in_order(all) {
        assert forall|i: int| 0 <= i < hs.len() implies mentioned_in_order(mentions(#[trigger] hs[i])) by { assert(all[i] == hs[i]); }
        assert(all[hs.len() as int] == h);
        lemma_replay_step(c.paths(), hs, h, d.paths());
    }
}
//@ file src/signatures.rs
//@ fn Chain::add_sigfile ret=r props=C07,C14
//@ spec
    requires old(self).count() < usize::MAX,
    ensures
        match members_in(sigfile@, content(file)) {
            None => r is Err,
            Some(h) => r is Ok && (forall|hs: Seq<Seq<Option<Member>>>| holds(*old(self), hs) ==> #[trigger] holds(*final(self), hs.push(h))),
        },
//@ tail
        proof {
            if let Some(h) = members_in(sigfile@, content(file)) {
                assert forall|hs: Seq<Seq<Option<Member>>>| holds(*old(self), hs) implies #[trigger] holds(*self, hs.push(h)) by { lemma_holds_step(*old(self), *self, hs, h); }
            }
        }
//@ include sig_load.vc
//@ verus
// ---------------------------------------------------------------- C07: the theorems
pub open spec fn mention_in(ms: Seq<Mention>, p: Seq<u8>) -> Option<Mention> {
    if exists|j: int| #[trigger] mentions_path(ms, p, j) { Some(ms[choose|j: int| #[trigger] mentions_path(ms, p, j)]) } else { None }
}
/// What the latest mention of a path in these signatures says: None if there is none, Some(None) if it is a deletion.
pub open spec fn latest(hs: Seq<Seq<Option<Member>>>, p: Seq<u8>) -> Option<Option<Info>>
    decreases hs.len(),
{
    if hs.len() == 0 { None } else {
        match mention_in(mentions(hs.last()), p) { Some(m) => Some(m.info), None => latest(hs.drop_last(), p) }
    }
}
pub open spec fn names_entry(l: Seq<(Seq<u8>, Info)>, p: Seq<u8>, info: Info, i: int) -> bool { 0 <= i < l.len() && same(l[i].0, p) && l[i].1 == info }
/// Exactly the paths whose latest mention is not a deletion, each once, in order, with the attributes of that mention.
pub open spec fn is_listing(l: Seq<(Seq<u8>, Info)>, hs: Seq<Seq<Option<Member>>>) -> bool {
    &&& forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() ==> before(l[i].0, l[j].0)
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] latest(hs, l[i].0) == Some(Some(l[i].1))
    &&& forall|p: Seq<u8>| (#[trigger] latest(hs, p)) matches Some(Some(info)) ==> exists|i: int| #[trigger] names_entry(l, p, info, i)
}
proof fn lemma_last_of(a: Seq<SnapV>, s: SnapV, n: nat)
    ensures last_said(a.push(s), n) == (if s.index <= n { Some(s) } else { last_said(a, n) }),
{
    assert(a.push(s).drop_last() =~= a);
}
proof fn lemma_latest(hs: Seq<Seq<Option<Member>>>, p: Seq<u8>, n: nat)
    ensures
        match last_said(replay(hs, p), n) {
            Some(s) => latest(hs.take(if n < hs.len() { n as int + 1 } else { hs.len() as int }), p) == Some(s.info),
            None => latest(hs.take(if n < hs.len() { n as int + 1 } else { hs.len() as int }), p) is None,
        },
    decreases hs.len(),
{
    if hs.len() == 0 { assert(hs.take(0) =~= hs); } else {
        let r = hs.drop_last();
        let id = (hs.len() - 1) as nat;
        let ms = mentions(hs.last());
        lemma_latest(r, p, n);
        if mention_in(ms, p) is Some {
            let x = SnapV { index: id, info: mention_in(ms, p)->Some_0.info };
            assert(replay(hs, p) =~= replay(r, p).push(x));
            lemma_last_of(replay(r, p), x, n);
        } else {
            assert(replay(hs, p) =~= replay(r, p));
        }
        if id > n { assert(r.take(n as int + 1) =~= hs.take(n as int + 1)); }
        else {
            assert(hs.take(hs.len() as int) =~= hs);
            assert(r.take(r.len() as int) =~= r);
        }
    }
}
pub open spec fn lists(l: Seq<(Seq<u8>, Info)>, q: PathV, n: nat, i: int) -> bool { 0 <= i < l.len() && info_at(q, n) == Some(l[i].1) && l[i].0 == q.path }
pub open spec fn entries_in_order(l: Seq<(Seq<u8>, Info)>) -> bool { forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() ==> before(l[i].0, l[j].0) }
pub open spec fn from_a_path(l: Seq<(Seq<u8>, Info)>, ps: Seq<PathV>, n: nat, i: int) -> bool { exists|k: int| 0 <= k < ps.len() && lists(l, #[trigger] ps[k], n, i) }
pub open spec fn in_the_list(l: Seq<(Seq<u8>, Info)>, p: PathV, n: nat) -> bool { exists|i: int| #[trigger] lists(l, p, n, i) }
/// one more path at the front of a list
proof fn lemma_listing_step(ps: Seq<PathV>, n: nat, m: Seq<(Seq<u8>, Info)>, l: Seq<(Seq<u8>, Info)>, d: int)
    requires
        in_order(ps), ps.len() > 0, d == (if info_at(ps[0], n) is Some { 1int } else { 0int }),
        l.len() == m.len() + d, forall|i: int| d <= i < l.len() ==> #[trigger] l[i] == m[i - d],
        d == 1 ==> l[0] == (ps[0].path, info_at(ps[0], n)->Some_0),
        entries_in_order(m),
        forall|i: int| 0 <= i < m.len() ==> #[trigger] from_a_path(m, ps.drop_first(), n, i),
        forall|k: int| 1 <= k < ps.len() && info_at(#[trigger] ps[k], n) is Some ==> in_the_list(m, ps[k], n),
    ensures
        entries_in_order(l),
        forall|i: int| 0 <= i < l.len() ==> #[trigger] from_a_path(l, ps, n, i),
        forall|k: int| 0 <= k < ps.len() && info_at(#[trigger] ps[k], n) is Some ==> in_the_list(l, ps[k], n),
{
    let r = ps.drop_first();
    assert forall|i: int| 0 <= i < m.len() implies before(ps[0].path, (#[trigger] m[i]).0) by {
        assert(from_a_path(m, r, n, i));
        let k = choose|k: int| 0 <= k < r.len() && lists(m, #[trigger] r[k], n, i);
        assert(before(ps[0].path, ps[k + 1].path));
    }
    assert forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() implies before(l[i].0, l[j].0) by {
        assert(l[j] == m[j - d]);
        if i >= d { assert(l[i] == m[i - d]); }
    }
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] from_a_path(l, ps, n, i) by {
        if i < d { assert(lists(l, ps[0], n, 0)); }
        else {
            assert(l[i] == m[i - d]);
            assert(from_a_path(m, r, n, i - d));
            let k = choose|k: int| 0 <= k < r.len() && lists(m, #[trigger] r[k], n, i - d);
            assert(lists(l, ps[k + 1], n, i));
        }
    }
    assert forall|k: int| 0 <= k < ps.len() && info_at(#[trigger] ps[k], n) is Some implies in_the_list(l, ps[k], n) by {
        if k == 0 { assert(lists(l, ps[0], n, 0)); }
        else {
            assert(in_the_list(m, ps[k], n));
            let i = choose|i: int| #[trigger] lists(m, ps[k], n, i);
            assert(l[i + d] == m[i + d - d]);
            assert(lists(l, ps[k], n, i + d));
        }
    }
}
proof fn lemma_listing(ps: Seq<PathV>, n: nat)
    requires in_order(ps),
    ensures
        entries_in_order(listing(ps, n)),
        forall|i: int| 0 <= i < listing(ps, n).len() ==> #[trigger] from_a_path(listing(ps, n), ps, n, i),
        forall|k: int| 0 <= k < ps.len() && info_at(#[trigger] ps[k], n) is Some ==> in_the_list(listing(ps, n), ps[k], n),
    decreases ps.len(),
{
    if ps.len() > 0 {
        let r = ps.drop_first();
        assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() implies before(r[i].path, r[j].path) by { assert(before(ps[i + 1].path, ps[j + 1].path)); }
        lemma_listing(r, n);
        assert forall|k: int| 1 <= k < ps.len() && info_at(#[trigger] ps[k], n) is Some implies in_the_list(listing(r, n), ps[k], n) by { assert(r[k - 1] == ps[k]); }
        lemma_listing_step(ps, n, listing(r, n), listing(ps, n), if info_at(ps[0], n) is Some { 1int } else { 0int });
    }
}
/// C07: the listing of snapshot `n` is the replay of the first `n + 1` signatures.
pub proof fn theorem_replay(ps: Seq<PathV>, hs: Seq<Seq<Option<Member>>>, n: nat)
    requires is_replay(ps, hs), n < hs.len(),
    ensures is_listing(listing(ps, n), hs.take(n as int + 1)),
{
    let l = listing(ps, n);
    lemma_listing(ps, n);
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] latest(hs.take(n as int + 1), l[i].0) == Some(Some(l[i].1)) by {
        assert(from_a_path(l, ps, n, i));
        let k = choose|k: int| 0 <= k < ps.len() && lists(l, #[trigger] ps[k], n, i);
        let p = ps[k].path;
        lemma_same_order(p, p, p);
        assert(holds_path(ps, p, k));
        lemma_history(ps, p, k);
        lemma_latest(hs, p, n);
    }
    assert forall|p: Seq<u8>| ((#[trigger] latest(hs.take(n as int + 1), p)) matches Some(Some(info)) ==> exists|i: int| #[trigger] names_entry(l, p, info, i)) by {
        if let Some(Some(info)) = latest(hs.take(n as int + 1), p) {
        lemma_latest(hs, p, n);
        assert(history(ps, p) == replay(hs, p));
        let k = choose|k: int| #[trigger] holds_path(ps, p, k);
        assert(holds_path(ps, p, k));
        lemma_history(ps, p, k);
        assert(info_at(ps[k], n) == Some(info));
        assert(in_the_list(l, ps[k], n));
        let i = choose|i: int| #[trigger] lists(l, ps[k], n, i);
        assert(names_entry(l, p, info, i));
        }
    }
}
pub open spec fn agree_until(l: Seq<(Seq<u8>, Info)>, m: Seq<(Seq<u8>, Info)>, k: int) -> bool {
    k <= l.len() && k <= m.len() && forall|i: int| #![trigger l[i]] #![trigger m[i]] 0 <= i < k ==> same(l[i].0, m[i].0) && l[i].1 == m[i].1
}
proof fn lemma_counterpart(l: Seq<(Seq<u8>, Info)>, m: Seq<(Seq<u8>, Info)>, hs: Seq<Seq<Option<Member>>>, k: int) -> (j: int)
    requires is_listing(l, hs), is_listing(m, hs), agree_until(l, m, k), 0 <= k < l.len(),
    ensures k <= j < m.len(), same(m[j].0, l[k].0), m[j].1 == l[k].1,
{
    assert(latest(hs, l[k].0) == Some(Some(l[k].1)));
    let j = choose|j: int| #[trigger] names_entry(m, l[k].0, l[k].1, j);
    if j < k {
        assert(before(l[j].0, l[k].0));
        assert(same(l[j].0, m[j].0));
        lemma_same_order(l[j].0, m[j].0, l[k].0);
    }
    j
}
proof fn lemma_agree(l: Seq<(Seq<u8>, Info)>, m: Seq<(Seq<u8>, Info)>, hs: Seq<Seq<Option<Member>>>, k: int)
    requires is_listing(l, hs), is_listing(m, hs), 0 <= k, k <= l.len() || k <= m.len(),
    ensures agree_until(l, m, k),
    decreases k,
{
    if k > 0 {
        lemma_agree(l, m, hs, k - 1);
        let x = k - 1;
        assert(agree_until(m, l, x)) by {
            assert forall|i: int| #![trigger l[i]] #![trigger m[i]] 0 <= i < x implies same(m[i].0, l[i].0) && m[i].1 == l[i].1 by { lemma_same_order(l[i].0, m[i].0, l[i].0); }
        }
        if x < l.len() { let j = lemma_counterpart(l, m, hs, x); } else { let j = lemma_counterpart(m, l, hs, x); }
        let j = lemma_counterpart(l, m, hs, x);
        let i = lemma_counterpart(m, l, hs, x);
        lemma_same_order(m[x].0, l[x].0, m[x].0);
        lemma_same_order(l[x].0, m[x].0, l[x].0);
        if j > x && i > x {
            assert(before(m[x].0, m[j].0));
            assert(before(l[x].0, l[i].0));
            lemma_same_order(m[x].0, m[j].0, l[x].0);
            lemma_same_order(l[x].0, l[i].0, m[x].0);
        }
        assert(same(l[x].0, m[x].0) && l[x].1 == m[x].1);
        assert forall|y: int| #![trigger l[y]] #![trigger m[y]] 0 <= y < k implies same(l[y].0, m[y].0) && l[y].1 == m[y].1 by {
            if y < x { assert(agree_until(l, m, x)); }
        }
    }
}
/// C07: the listing of a snapshot depends on no signature after its own.
pub proof fn theorem_later_signatures(ps: Seq<PathV>, hs: Seq<Seq<Option<Member>>>, qs: Seq<PathV>, gs: Seq<Seq<Option<Member>>>, n: nat)
    requires is_replay(ps, hs), is_replay(qs, gs), n < hs.len(), n < gs.len(), hs.take(n as int + 1) == gs.take(n as int + 1),
    ensures listing(ps, n).len() == listing(qs, n).len(), agree_until(listing(ps, n), listing(qs, n), listing(ps, n).len() as int),
{
    theorem_replay(ps, hs, n);
    theorem_replay(qs, gs, n);
    lemma_agree(listing(ps, n), listing(qs, n), hs.take(n as int + 1), listing(ps, n).len() as int);
    lemma_agree(listing(ps, n), listing(qs, n), hs.take(n as int + 1), listing(qs, n).len() as int);
}
