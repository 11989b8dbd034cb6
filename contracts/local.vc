//@ verus
#![feature(sized_hierarchy, const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use std::ffi::OsString;
use std::fs::{self, File};
use std::io;
use std::marker::PointeeSized;
use std::path::{Path, PathBuf};
verus! {
// ---------------------------------------------------------------- trusted: paths
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPathBuf(PathBuf);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExPath(Path);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExOsString(OsString);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(io::Error);
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(AsRefSpec via AsRefSpecImpl)]
pub trait ExAsRef<T: PointeeSized>: PointeeSized {
    type ExternalTraitSpecificationFor: AsRef<T>;
    spec fn as_ref_spec(&self) -> &T;
    fn as_ref(&self) -> (r: &T) ensures r == self.as_ref_spec();
}
pub uninterp spec fn path_bytes(p: &Path) -> Seq<u8>;
pub uninterp spec fn pathbuf_bytes(p: PathBuf) -> Seq<u8>;
pub uninterp spec fn osstring_bytes(s: OsString) -> Seq<u8>;
/// the bytes of what is given as a path
pub open spec fn given<P: AsRef<Path>>(p: P) -> Seq<u8> { path_bytes(<P as AsRefSpec<Path>>::as_ref_spec(&p)) }
#[verifier::external_body]
pub broadcast proof fn axiom_given_path(p: &Path) ensures #[trigger] given(p) == path_bytes(p) {}
#[verifier::external_body]
pub broadcast proof fn axiom_given_pathbuf(p: PathBuf) ensures #[trigger] given(p) == pathbuf_bytes(p) {}
#[verifier::external_body]
pub broadcast proof fn axiom_given_pathbuf_ref(p: &PathBuf) ensures #[trigger] given(p) == pathbuf_bytes(*p) {}
pub broadcast group group_given { axiom_given_path, axiom_given_pathbuf, axiom_given_pathbuf_ref }
pub assume_specification [<PathBuf as std::ops::Deref>::deref] (p: &PathBuf) -> (r: &Path) ensures path_bytes(r) == pathbuf_bytes(*p);
pub assume_specification [PathBuf::as_path] (p: &PathBuf) -> (r: &Path) ensures path_bytes(r) == pathbuf_bytes(*p);
pub assume_specification [<PathBuf as Clone>::clone] (p: &PathBuf) -> (r: PathBuf) ensures pathbuf_bytes(r) == pathbuf_bytes(*p);
pub assume_specification [Path::to_path_buf] (p: &Path) -> (r: PathBuf) ensures pathbuf_bytes(r) == path_bytes(p);
/// `Path::join`: a name that is not absolute goes after a separator
pub open spec fn joined(dir: Seq<u8>, name: Seq<u8>) -> Seq<u8> {
    if name.len() > 0 && name[0] == 47 { name }
    else if dir.len() == 0 || dir.last() == 47 { dir + name }
    else { dir.push(47) + name }
}
pub assume_specification<P: AsRef<Path>> [PathBuf::push::<P>] (p: &mut PathBuf, name: P)
    ensures pathbuf_bytes(*final(p)) == joined(pathbuf_bytes(*old(p)), given(name));
pub assume_specification<P: AsRef<Path>> [Path::join::<P>] (p: &Path, name: P) -> (r: PathBuf)
    ensures pathbuf_bytes(r) == joined(path_bytes(p), given(name));
// ---------------------------------------------------------------- trusted: files and directories
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFile(File);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExReadDir(fs::ReadDir);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExDirEntry(fs::DirEntry);
/// the file was opened for reading under this path
pub uninterp spec fn opened(path: Seq<u8>, f: File) -> bool;
pub uninterp spec fn cannot_open(path: Seq<u8>) -> bool;
pub assume_specification<P: AsRef<Path>> [File::open::<P>] (path: P) -> (r: io::Result<File>)
    ensures match r { Ok(f) => opened(given(path), f), Err(_) => cannot_open(given(path)) };
pub uninterp spec fn entry_name(e: fs::DirEntry) -> Seq<u8>;
pub assume_specification [fs::DirEntry::file_name] (e: &fs::DirEntry) -> (r: OsString) ensures osstring_bytes(r) == entry_name(*e);
/// What the system answers when a directory is read: entries, or errors in their place.
pub type Answers = Seq<io::Result<fs::DirEntry>>;
pub uninterp spec fn reads(path: Seq<u8>, a: Answers) -> bool;
pub uninterp spec fn cannot_read(path: Seq<u8>) -> bool;
#[verifier::prophetic]
pub open spec fn well_behaved(d: fs::ReadDir) -> bool { d.obeys_prophetic_iter_laws() && d.decrease() is Some }
#[verifier::prophetic]
pub open spec fn reads_dir(path: Seq<u8>, d: fs::ReadDir) -> bool { well_behaved(d) && reads(path, d.remaining()) }
pub assume_specification<P: AsRef<Path>> [fs::read_dir::<P>] (path: P) -> (r: io::Result<fs::ReadDir>)
    ensures match r { Ok(d) => reads_dir(given(path), d), Err(_) => cannot_read(given(path)) };

// ---------------------------------------------------------------- C19
/// the names in a directory
pub open spec fn names(a: Answers) -> Seq<Seq<u8>>
    decreases a.len()
{
    if a.len() == 0 { Seq::empty() } else { match a[0] { Ok(e) => seq![entry_name(e)] + names(a.drop_first()), Err(_) => names(a.drop_first()) } }
}
//@ file src/backend/local.rs
//@ item struct LocalBackend vis=pub
//@ item struct FileNameIterator vis=pub
//@ verus
impl View for LocalBackend {
    type V = Seq<u8>;
    closed spec fn view(&self) -> Seq<u8> { pathbuf_bytes(self.base_path) }
}
impl FileNameIterator {
    #[verifier::prophetic]
    pub closed spec fn wf(&self) -> bool { well_behaved(self.0) }
    /// the names that are still to come
    #[verifier::prophetic]
    pub closed spec fn view(&self) -> Seq<Seq<u8>> { names(self.0.remaining()) }
}
#[verifier::prophetic]
pub open spec fn lists_dir(dir: Seq<u8>, l: FileNameIterator) -> bool { l.wf() && exists|a: Answers| #[trigger] reads(dir, a) && l@ == names(a) }
//@ fn LocalBackend::new ret=r props=C19
//@ spec
    ensures r@ == given(path),
//@ fn LocalBackend::file_names trait=Backend inherent ret=r props=C19
//@ sig Self::FileNameIter => FileNameIterator
//@ spec
    ensures match r { Ok(l) => lists_dir(self@, l), Err(_) => cannot_read(self@) },
//@ start
    broadcast use group_given;
//@ fn LocalBackend::open_file trait=Backend inherent ret=r props=C19
//@ spec
    ensures match r { Ok(f) => opened(joined(self@, path_bytes(name)), f), Err(_) => cannot_open(joined(self@, path_bytes(name))) },
//@ start
    broadcast use group_given;
//@ fn FileNameIterator::next inherent ret=r loops=1 props=C19
//@ spec
    requires old(self).wf(),
    ensures
        final(self).wf(),
        match r {
            Some(n) => old(self)@.len() > 0 && osstring_bytes(n) == old(self)@[0] && final(self)@ == old(self)@.drop_first(),
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
        },
//@ loop 0 desugar _ inplace
//@ loop 0 spec
        invariant self.wf(), self@ == old(self)@,
        ensures self.wf(), self@.len() == 0, old(self)@.len() == 0,
        decreases self.0.decrease()->Some_0,
//@ verus
/// C19: a name in the directory is opened in that directory.
pub proof fn theorem_in_directory(dir: Seq<u8>, name: Seq<u8>)
    requires name.len() > 0, !name.contains(47), dir.len() > 0,
    ensures joined(dir, name) == (if dir.last() == 47 { dir } else { dir.push(47) }) + name,
{
    assert(name.contains(name[0]));
}
fn main() {}
} // verus!
