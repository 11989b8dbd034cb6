//@ file src/signatures.rs
//@ fn Chain::from_sigchain ret=r loops=1 props=C06,C07,C14,C17
//@ spec
    requires coll@.incs.len() < usize::MAX,
    ensures
        match r {
            Ok(c) => loaded(backend, coll@, c),
            Err(_) => unloadable(backend, coll@),
        },
//@ start
        proof {
            assert(sig_at(coll@, 0).name == coll.fullsig.file_name@);
            assert(backend.refuses(encode_utf8(coll.fullsig.file_name@)) ==> unreadable_at(backend, coll@, 0));
            assert forall|x: Seq<u8>| #[trigger] backend.gives(encode_utf8(coll.fullsig.file_name@), x) && members_in(coll@.full, x) is None implies unreadable_at(backend, coll@, 0) by {
                assert(backend.gives(encode_utf8(sig_at(coll@, 0).name), x));
            }
        }
//@ let chain after
        let ghost mut hs: Seq<Seq<Option<Member>>> = Seq::empty();
        proof { lemma_holds_nothing(chain, hs); }
//@ let file after
        let ghost x0 = content(file);
        proof { assert(backend.gives(encode_utf8(sig_at(coll@, 0).name), x0)); }
//@ loop 0 before
        proof {
            let h = members_in(coll@.full, x0)->Some_0;
            hs = hs.push(h);
            assert(read_at(backend, coll@, 0, hs[0]));
            assert forall|i: int| 0 <= i < hs.len() implies read_at(backend, coll@, i, #[trigger] hs[i]) by { assert(i == 0); }
            assert(all_read(backend, coll@, hs));
            assert(holds(chain, hs));
            assert(hs.len() == 1);
        }
//@ loop 0 iter it
//@ loop 0 spec
            invariant
                it.seq().len() == coll@.incs.len(), coll@.incs.len() < usize::MAX,
                forall|i: int| #![trigger it.seq()[i]] 0 <= i < it.seq().len() ==> (*it.seq()[i])@ == coll@.incs[i],
                hs.len() == it.index@ + 1, holds(chain, hs), all_read(backend, coll@, hs),
//@ loop 0 body-start
            let ghost k = it.index@ + 1;
            proof {
                assert(sig_at(coll@, k).name == inc.file_name@);
                assert(backend.refuses(encode_utf8(inc.file_name@)) ==> unreadable_at(backend, coll@, k));
                assert forall|x: Seq<u8>| #[trigger] backend.gives(encode_utf8(inc.file_name@), x) && members_in(inc@, x) is None implies unreadable_at(backend, coll@, k) by {
                    assert(backend.gives(encode_utf8(sig_at(coll@, k).name), x));
                }
            }
//@ let file#1 after
            let ghost x = content(file);
            proof { assert(backend.gives(encode_utf8(sig_at(coll@, k).name), x)); }
//@ loop 0 body-end
            proof {
                let h = members_in(inc@, x)->Some_0;
                let all = hs.push(h);
                assert(read_at(backend, coll@, k, all[k]));
                assert forall|i: int| 0 <= i < all.len() implies read_at(backend, coll@, i, #[trigger] all[i]) by { if i < k { assert(all[i] == hs[i]); } }
                hs = all;
            }
//@ loop 0 after
        proof {
            assert(hs.len() == coll@.incs.len() + 1);
            assert(holds(chain, hs));
            assert(all_read(backend, coll@, hs));
        }
//@ tail
        proof {
            assert(holds(chain, hs));
            assert(loaded(backend, coll@, chain));
        }
