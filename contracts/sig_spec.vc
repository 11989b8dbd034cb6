//@ file src/signatures.rs
//@ fn Chain::snapshots ret=r props=C06,C14
//@ spec
    ensures r.wf(), r@ == steps(0, self.count()), r.of() == self,
//@ fn Snapshots::nth inherent ret=r props=C06,C14
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).of() == old(self).of(), answer(r, *old(self), n as nat), final(self)@ == left(old(self)@, n as nat + 1),
//@ fn Snapshots::len inherent ret=r props=C06,C14
//@ spec
    requires self.wf(),
    ensures r == self@.len(),
//@ fn Snapshot::files ret=r props=C06,C07
//@ spec
    ensures r.wf(), r@ == listing(self.of().paths(), self.number()), r.of() == self.of(),
//@ tail
    proof {
        let f = self.chain.files@;
        assert(f.map_values(|x: PathSnapshots| x@) =~= Seq::new(f.len(), |i: int| &f[i]).map_values(|x: &PathSnapshots| x@));
    }
