//@ file src/collections/mod.rs
//@ item struct SignatureChain vis=pub
//@ item struct SignatureFile vis=pub keepvis
//@ item type SignatureFileIter vis=pub
//@ verus
/// A signature file as a user sees it.
pub struct SigV { pub name: Seq<char>, pub time: Timespec, pub compressed: bool, pub encrypted: bool }
impl View for SignatureFile {
    type V = SigV;
    open spec fn view(&self) -> SigV {
        SigV { name: self.file_name@, time: self.time, compressed: self.compressed, encrypted: self.encrypted }
    }
}
pub open spec fn sig_views(s: Seq<SignatureFile>) -> Seq<SigV> { s.map_values(|x: SignatureFile| x@) }
pub struct SigChainV { pub full: SigV, pub incs: Seq<SigV> }
impl View for SignatureChain {
    type V = SigChainV;
    closed spec fn view(&self) -> SigChainV { SigChainV { full: self.fullsig@, incs: sig_views(self.incsigs@) } }
}
pub open spec fn sig_end(c: SigChainV) -> Timespec { if c.incs.len() == 0 { c.full.time } else { c.incs.last().time } }
//@ fn SignatureChain::full_signature ret=r props=C04,C06,C07,C21
//@ spec
    ensures r@ == self@.full,
//@ fn SignatureChain::inc_signatures ret=r props=C04,C06,C07,C21
//@ spec
    ensures
        r.obeys_prophetic_iter_laws(),
        r.decrease() is Some,
        r.remaining().len() == self@.incs.len(),
        forall|i: int| 0 <= i < self@.incs.len() ==> (*(#[trigger] r.remaining()[i]))@ == self@.incs[i],
