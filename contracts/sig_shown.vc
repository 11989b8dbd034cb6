//@ file src/signatures.rs
//@ fn SnapshotEntries::into_display ret=r props=C20
//@ spec
    ensures r.shows() == self,
//@ fn SnapshotEntriesDisplay::fmt trait=Display inherent ret=r loops=1 props=C20
//@ spec
    requires self.wf(),
    ensures writes(r, old(f), final(f), printed(self.shows()@, self.shows().of().names())),
//@ loop 0 desugar it
//@ loop 0 spec
        invariant
            it.wf(), it.of() == self.0.of(), tw.text() + lines(it@, it.of().names()) == lines(self.0@, self.0.of().names()), tw.done() == Seq::<char>::empty(),
        ensures tw.done() == Seq::<char>::empty(), tw.text() == lines(self.0@, self.0.of().names()),
        decreases it.measure(),
//@ loop 0 body-start
            let ghost before = tw.text();
//@ loop 0 body-end
            proof {
                reveal_strlit("\n");
                let e = entry_text(file@.0, file@.1, file.names());
                assert("\n"@ =~= seq!['\n']);
                assert(before + (e + seq!['\n'] + lines(it@, it.of().names())) =~= before + (Seq::<char>::empty() + e + "\n"@) + lines(it@, it.of().names()));
            }
