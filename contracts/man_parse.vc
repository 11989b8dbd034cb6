//@ file src/manifest.rs
//@ fn Manifest::parse ret=r props=C10,C11,C17
//@ spec
    ensures
        parsed(r, stream_of::<R>(*old(m))),
//@ start
        proof { axiom_stream_of_ref(&m); }
