//@ file src/collections/mod.rs
//@ item struct Collections vis=pub
//@ item struct BackupChain vis=pub
//@ item struct BackupSet vis=pub
//@ item enum Type derive=Clone,Copy vis=pub
//@ item type ChainIter vis=pub
//@ item type BackupSetIter vis=pub
//@ verus
// ---------------------------------------------------------------- what a user sees of a collection
/// A backup set as a user sees it.
pub struct SetV {
    pub tp: Type, pub compressed: bool, pub encrypted: bool, pub partial: bool,
    pub manifest: Seq<char>, pub volumes: Map<usize, Seq<char>>,
}
impl View for BackupSet {
    type V = SetV;
    closed spec fn view(&self) -> SetV {
        SetV {
            tp: self.tp, compressed: self.compressed, encrypted: self.encrypted, partial: self.partial,
            manifest: self.manifest_path@, volumes: self.volumes_paths@.map_values(|s: String| s@),
        }
    }
}
pub open spec fn set_start(t: Type) -> Timespec { match t { Type::Full { time } => time, Type::Inc { start_time, .. } => start_time } }
pub open spec fn set_end(t: Type) -> Timespec { match t { Type::Full { time } => time, Type::Inc { end_time, .. } => end_time } }
pub open spec fn set_views(s: Seq<BackupSet>) -> Seq<SetV> { s.map_values(|x: BackupSet| x@) }
/// A backup chain as a user sees it.
pub struct ChainV { pub full: SetV, pub incs: Seq<SetV>, pub start: Timespec, pub end: Timespec }
impl View for BackupChain {
    type V = ChainV;
    closed spec fn view(&self) -> ChainV {
        ChainV { full: self.fullset@, incs: set_views(self.incsets@), start: self.start_time, end: self.end_time }
    }
}
pub open spec fn chain_views(s: Seq<BackupChain>) -> Seq<ChainV> { s.map_values(|c: BackupChain| c@) }
//@ include sig_files.vc
//@ verus
pub open spec fn sig_chain_views(s: Seq<SignatureChain>) -> Seq<SigChainV> { s.map_values(|c: SignatureChain| c@) }
pub struct CollV { pub backups: Seq<ChainV>, pub sigs: Seq<SigChainV> }
impl View for Collections {
    type V = CollV;
    closed spec fn view(&self) -> CollV { CollV { backups: chain_views(self.backup_chains@), sigs: sig_chain_views(self.sig_chains@) } }
}
/// The number of sets in the chains.
pub open spec fn total(cs: Seq<ChainV>) -> nat
    decreases cs.len(),
{ if cs.len() == 0 { 0 } else { total(cs.drop_last()) + 1 + cs.last().incs.len() } }
pub proof fn lemma_total_take(cs: Seq<ChainV>, n: int)
    requires 0 <= n < cs.len(),
    ensures total(cs.take(n + 1)) == total(cs.take(n)) + 1 + cs[n].incs.len(), total(cs.take(n + 1)) <= total(cs),
    decreases cs.len(),
{
    assert(cs.take(n + 1).drop_last() =~= cs.take(n));
    if n + 1 < cs.len() {
        lemma_total_take(cs.drop_last(), n);
        assert(cs.drop_last().take(n + 1) =~= cs.take(n + 1));
    } else { assert(cs.take(n + 1) =~= cs); }
}
//@ fn Type::start_time ret=r props=C02,C03
//@ spec
    ensures r == set_start(*self),
//@ fn Type::end_time ret=r props=C02,C03,C05,C21
//@ spec
    ensures r == set_end(*self),
//@ fn BackupSet::is_complete ret=r props=C02
//@ spec
    ensures r == (self@.manifest.len() > 0),
//@ fn BackupSet::is_partial ret=r props=C02
//@ spec
    ensures r == self@.partial,
//@ fn BackupSet::start_time ret=r props=C02,C03
//@ spec
    ensures r == set_start(self@.tp),
//@ fn BackupSet::end_time ret=r props=C02,C03,C05,C21
//@ spec
    ensures r == set_end(self@.tp),
//@ fn BackupSet::is_compressed ret=r props=C02
//@ spec
    ensures r == self@.compressed,
//@ fn BackupSet::is_encrypted ret=r props=C02
//@ spec
    ensures r == self@.encrypted,
//@ fn BackupSet::manifest_path ret=r props=C02,C05
//@ spec
    ensures r@ == self@.manifest,
//@ fn BackupSet::volume_path ret=r props=C02
//@ spec
    ensures
        match r {
            Some(p) => self@.volumes.dom().contains(volume_num) && p@ == self@.volumes[volume_num],
            None => !self@.volumes.dom().contains(volume_num),
        },
//@ fn BackupSet::num_volumes ret=r props=C02,C05,C21
//@ spec
    ensures r == self@.volumes.dom().len(),
//@ fn BackupSet::is_full ret=r props=C02,C05
//@ spec
    ensures r == (self@.tp is Full),
//@ fn BackupSet::is_incremental ret=r props=C02,C05
//@ spec
    ensures r == (self@.tp is Inc),
//@ fn BackupChain::full_set ret=r props=C03,C05
//@ spec
    ensures r@ == self@.full,
//@ fn BackupChain::inc_sets ret=r props=C03,C05
//@ spec
    ensures
        r.obeys_prophetic_iter_laws(),
        r.remaining().len() == self@.incs.len(),
        forall|i: int| 0 <= i < self@.incs.len() ==> (*(#[trigger] r.remaining()[i]))@ == self@.incs[i],
//@ fn BackupChain::start_time ret=r props=C03,C06,C21
//@ spec
    ensures r == self@.start,
//@ fn BackupChain::end_time ret=r props=C03,C21
//@ spec
    ensures r == self@.end,
//@ fn SignatureChain::start_time ret=r props=C04,C06,C21
//@ spec
    ensures r == self@.full.time,
//@ fn SignatureChain::end_time ret=r props=C04,C21
//@ spec
    ensures r == sig_end(self@),
//@ closure 0 params 1
|inc: &SignatureFile| 
//@ closure 0 spec
-> (t: Timespec) ensures t == inc@.time
//@ fn Collections::backup_chains ret=r props=C03,C05,C06
//@ spec
    ensures
        r.obeys_prophetic_iter_laws(),
        r.remaining().len() == self@.backups.len(),
        forall|i: int| 0 <= i < self@.backups.len() ==> (*(#[trigger] r.remaining()[i]))@ == self@.backups[i],
//@ fn Collections::signature_chains ret=r props=C04,C06
//@ spec
    ensures
        r.obeys_prophetic_iter_laws(),
        r.remaining().len() == self@.sigs.len(),
        forall|i: int| 0 <= i < self@.sigs.len() ==> (*(#[trigger] r.remaining()[i]))@ == self@.sigs[i],
//@ fn Collections::num_snapshots ret=r loops=1 props=C05
//@ spec
    requires total(self@.backups) <= usize::MAX,
    ensures r == total(self@.backups),
//@ loop 0 iter it
//@ loop 0 spec
            invariant
                total(self@.backups) <= usize::MAX,
                it.seq().len() == self@.backups.len(),
                forall|k: int| 0 <= k < self@.backups.len() ==> (*(#[trigger] it.seq()[k]))@ == self@.backups[k],
                i == total(self@.backups.take(it.index@)),
//@ loop 0 body-start
            proof { lemma_total_take(self@.backups, it.index@); }
//@ loop 0 after
        proof { assert(self@.backups.take(self@.backups.len() as int) =~= self@.backups); }
