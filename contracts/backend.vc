//@ verus
/// The trait of src/backend/mod.rs, with what the contracts assume of a backend.
pub trait Backend {
    type FileName: AsRef<Path>;
    type FileNameIter: IntoIterator<Item = Self::FileName>;
    type FileStream: Read;
    /// the backend can give this listing
    spec fn lists(&self, names: Self::FileNameIter) -> bool;
    /// the backend can fail to list its files
    spec fn unlisted(&self) -> bool;
    /// the backend can give this content for this name
    spec fn gives(&self, name: Seq<u8>, content: Seq<u8>) -> bool;
    /// the backend can fail to open this name
    spec fn refuses(&self, name: Seq<u8>) -> bool;
    fn file_names(&self) -> (r: io::Result<Self::FileNameIter>)
        ensures match r { Ok(l) => self.lists(l), Err(_) => self.unlisted() };
    fn open_file(&self, name: &Path) -> (r: io::Result<Self::FileStream>)
        ensures match r { Ok(f) => self.gives(path_bytes(name), content(f)), Err(_) => self.refuses(path_bytes(name)) };
}
