//@ file src/collections/mod.rs
//@ fn Collections::from_filenames ret=r props=C02,C03,C04,C15
//@ spec
    ensures
        exists|it: I::IntoIter| {
            &&& #[trigger] call_ensures(<I as IntoIterator>::into_iter, (filenames,), it)
            &&& it.obeys_prophetic_iter_laws() ==> collection_of(names_of(it.remaining()), r@)
        },
//@ let infos after
        proof {
            let rs = Seq::new(fnames_vec@.len(), |i: int| &fnames_vec@[i]);
            assert(rs.map_values(|e: &I::Item| path_text(e.as_ref_spec())) =~= names_of(fnames_vec@));
        }
