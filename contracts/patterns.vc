//@ verus
/// The texts of the patterns, in the ways in which they can be written.
#[verifier::spinoff_prover]
proof fn text_difftar()
    ensures escaped(".difftar"@) == r"\.difftar"@, plain_text(".difftar"@),
{
    reveal_strlit(".difftar"); reveal_strlit(r"\.difftar"); reveal_with_fuel(escaped, 9); assert(escaped(".difftar"@) =~= r"\.difftar"@);
}
#[verifier::spinoff_prover]
proof fn text_manifest()
    ensures escaped(".manifest"@) == r"\.manifest"@, plain_text(".manifest"@),
{
    reveal_strlit(".manifest"); reveal_strlit(r"\.manifest"); reveal_with_fuel(escaped, 10); assert(escaped(".manifest"@) =~= r"\.manifest"@);
}
#[verifier::spinoff_prover]
proof fn text_part()
    ensures escaped(".part"@) == r"\.part"@, plain_text(".part"@),
{
    reveal_strlit(".part"); reveal_strlit(r"\.part"); reveal_with_fuel(escaped, 6); assert(escaped(".part"@) =~= r"\.part"@);
}
#[verifier::spinoff_prover]
proof fn text_sigtar()
    ensures escaped(".sigtar"@) == r"\.sigtar"@, plain_text(".sigtar"@),
{
    reveal_strlit(".sigtar"); reveal_strlit(r"\.sigtar"); reveal_with_fuel(escaped, 8); assert(escaped(".sigtar"@) =~= r"\.sigtar"@);
}
#[verifier::spinoff_prover]
proof fn text_to()
    ensures escaped(".to."@) == r"\.to\."@, plain_text(".to."@),
{
    reveal_strlit(".to."); reveal_strlit(r"\.to\."); reveal_with_fuel(escaped, 5); assert(escaped(".to."@) =~= r"\.to\."@);
}
#[verifier::spinoff_prover]
proof fn text_vol()
    ensures escaped(".vol"@) == r"\.vol"@, plain_text(".vol"@),
{
    reveal_strlit(".vol"); reveal_strlit(r"\.vol"); reveal_with_fuel(escaped, 5); assert(escaped(".vol"@) =~= r"\.vol"@);
}
#[verifier::spinoff_prover]
proof fn text_duplicity_full_signatures()
    ensures escaped("duplicity-full-signatures."@) == r"duplicity-full-signatures\."@, plain_text("duplicity-full-signatures."@),
{
    reveal_strlit("duplicity-full-signatures."); reveal_strlit(r"duplicity-full-signatures\."); reveal_with_fuel(escaped, 27); assert(escaped("duplicity-full-signatures."@) =~= r"duplicity-full-signatures\."@);
}
#[verifier::spinoff_prover]
proof fn text_duplicity_full()
    ensures escaped("duplicity-full."@) == r"duplicity-full\."@, plain_text("duplicity-full."@),
{
    reveal_strlit("duplicity-full."); reveal_strlit(r"duplicity-full\."); reveal_with_fuel(escaped, 16); assert(escaped("duplicity-full."@) =~= r"duplicity-full\."@);
}
#[verifier::spinoff_prover]
proof fn text_duplicity_inc()
    ensures escaped("duplicity-inc."@) == r"duplicity-inc\."@, plain_text("duplicity-inc."@),
{
    reveal_strlit("duplicity-inc."); reveal_strlit(r"duplicity-inc\."); reveal_with_fuel(escaped, 15); assert(escaped("duplicity-inc."@) =~= r"duplicity-inc\."@);
}
#[verifier::spinoff_prover]
proof fn text_duplicity_new_signatures()
    ensures escaped("duplicity-new-signatures."@) == r"duplicity-new-signatures\."@, plain_text("duplicity-new-signatures."@),
{
    reveal_strlit("duplicity-new-signatures."); reveal_strlit(r"duplicity-new-signatures\."); reveal_with_fuel(escaped, 26); assert(escaped("duplicity-new-signatures."@) =~= r"duplicity-new-signatures\."@);
}
#[verifier::spinoff_prover]
proof fn full_volume_1()
    ensures items_of(r"^duplicity-full\.(?P<time>.*?)\.vol(?P<num>[0-9]+)\.difftar(?P<partial>(\.part))?($|\.)"@) == Some(full_volume()),
{
    lemma_pieces(); lemma_names(); text_difftar(); text_part(); text_vol(); text_duplicity_full();
    reveal_with_fuel(pattern_to, 8);
    assert(well_formed(full_volume()));
    reveal_strlit(r"\.difftar");    reveal_strlit(r"\.part");    reveal_strlit(r"\.vol");    reveal_strlit(r"duplicity-full\.");    reveal_strlit("num");    reveal_strlit("partial");    reveal_strlit("time");
    reveal_strlit(r"^duplicity-full\.(?P<time>.*?)\.vol(?P<num>[0-9]+)\.difftar(?P<partial>(\.part))?($|\.)");
    assert(pattern(full_volume(), seq![true, true, true, true, true, true, true]) =~= r"^duplicity-full\.(?P<time>.*?)\.vol(?P<num>[0-9]+)\.difftar(?P<partial>(\.part))?($|\.)"@);
    axiom_pattern(full_volume(), seq![true, true, true, true, true, true, true]);
}
#[verifier::spinoff_prover]
proof fn full_volume_2()
    ensures items_of(r"^duplicity-full\.(?P<time>.*?)\.vol(?P<num>[0-9]+)\.difftar(?P<partial>(\.part))?(\.|$)"@) == Some(full_volume()),
{
    lemma_pieces(); lemma_names(); text_difftar(); text_part(); text_vol(); text_duplicity_full();
    reveal_with_fuel(pattern_to, 8);
    assert(well_formed(full_volume()));
    reveal_strlit(r"\.difftar");    reveal_strlit(r"\.part");    reveal_strlit(r"\.vol");    reveal_strlit(r"duplicity-full\.");    reveal_strlit("num");    reveal_strlit("partial");    reveal_strlit("time");
    reveal_strlit(r"^duplicity-full\.(?P<time>.*?)\.vol(?P<num>[0-9]+)\.difftar(?P<partial>(\.part))?(\.|$)");
    assert(pattern(full_volume(), seq![false, false, false, false, false, true, false]) =~= r"^duplicity-full\.(?P<time>.*?)\.vol(?P<num>[0-9]+)\.difftar(?P<partial>(\.part))?(\.|$)"@);
    axiom_pattern(full_volume(), seq![false, false, false, false, false, true, false]);
}
#[verifier::spinoff_prover]
proof fn full_volume_3()
    ensures items_of(r"^duplicity-full\.(?P<time>.*?)\.vol(?P<num>[0-9]+)\.difftar(?P<partial>\.part)?($|\.)"@) == Some(full_volume()),
{
    lemma_pieces(); lemma_names(); text_difftar(); text_part(); text_vol(); text_duplicity_full();
    reveal_with_fuel(pattern_to, 8);
    assert(well_formed(full_volume()));
    reveal_strlit(r"\.difftar");    reveal_strlit(r"\.part");    reveal_strlit(r"\.vol");    reveal_strlit(r"duplicity-full\.");    reveal_strlit("num");    reveal_strlit("partial");    reveal_strlit("time");
    reveal_strlit(r"^duplicity-full\.(?P<time>.*?)\.vol(?P<num>[0-9]+)\.difftar(?P<partial>\.part)?($|\.)");
    assert(pattern(full_volume(), seq![true, true, true, true, true, false, true]) =~= r"^duplicity-full\.(?P<time>.*?)\.vol(?P<num>[0-9]+)\.difftar(?P<partial>\.part)?($|\.)"@);
    axiom_pattern(full_volume(), seq![true, true, true, true, true, false, true]);
}
#[verifier::spinoff_prover]
proof fn full_volume_4()
    ensures items_of(r"^duplicity-full\.(?P<time>.*?)\.vol(?P<num>[0-9]+)\.difftar(?P<partial>\.part)?(\.|$)"@) == Some(full_volume()),
{
    lemma_pieces(); lemma_names(); text_difftar(); text_part(); text_vol(); text_duplicity_full();
    reveal_with_fuel(pattern_to, 8);
    assert(well_formed(full_volume()));
    reveal_strlit(r"\.difftar");    reveal_strlit(r"\.part");    reveal_strlit(r"\.vol");    reveal_strlit(r"duplicity-full\.");    reveal_strlit("num");    reveal_strlit("partial");    reveal_strlit("time");
    reveal_strlit(r"^duplicity-full\.(?P<time>.*?)\.vol(?P<num>[0-9]+)\.difftar(?P<partial>\.part)?(\.|$)");
    assert(pattern(full_volume(), seq![false, false, false, false, false, false, false]) =~= r"^duplicity-full\.(?P<time>.*?)\.vol(?P<num>[0-9]+)\.difftar(?P<partial>\.part)?(\.|$)"@);
    axiom_pattern(full_volume(), seq![false, false, false, false, false, false, false]);
}
#[verifier::spinoff_prover]
proof fn full_manifest_1()
    ensures items_of(r"^duplicity-full\.(?P<time>.*?)\.manifest(?P<partial>(\.part))?($|\.)"@) == Some(full_manifest()),
{
    lemma_pieces(); lemma_names(); text_manifest(); text_part(); text_duplicity_full();
    reveal_with_fuel(pattern_to, 6);
    assert(well_formed(full_manifest()));
    reveal_strlit(r"\.manifest");    reveal_strlit(r"\.part");    reveal_strlit(r"duplicity-full\.");    reveal_strlit("partial");    reveal_strlit("time");
    reveal_strlit(r"^duplicity-full\.(?P<time>.*?)\.manifest(?P<partial>(\.part))?($|\.)");
    assert(pattern(full_manifest(), seq![true, true, true, true, true]) =~= r"^duplicity-full\.(?P<time>.*?)\.manifest(?P<partial>(\.part))?($|\.)"@);
    axiom_pattern(full_manifest(), seq![true, true, true, true, true]);
}
#[verifier::spinoff_prover]
proof fn full_manifest_2()
    ensures items_of(r"^duplicity-full\.(?P<time>.*?)\.manifest(?P<partial>(\.part))?(\.|$)"@) == Some(full_manifest()),
{
    lemma_pieces(); lemma_names(); text_manifest(); text_part(); text_duplicity_full();
    reveal_with_fuel(pattern_to, 6);
    assert(well_formed(full_manifest()));
    reveal_strlit(r"\.manifest");    reveal_strlit(r"\.part");    reveal_strlit(r"duplicity-full\.");    reveal_strlit("partial");    reveal_strlit("time");
    reveal_strlit(r"^duplicity-full\.(?P<time>.*?)\.manifest(?P<partial>(\.part))?(\.|$)");
    assert(pattern(full_manifest(), seq![false, false, false, true, false]) =~= r"^duplicity-full\.(?P<time>.*?)\.manifest(?P<partial>(\.part))?(\.|$)"@);
    axiom_pattern(full_manifest(), seq![false, false, false, true, false]);
}
#[verifier::spinoff_prover]
proof fn full_manifest_3()
    ensures items_of(r"^duplicity-full\.(?P<time>.*?)\.manifest(?P<partial>\.part)?($|\.)"@) == Some(full_manifest()),
{
    lemma_pieces(); lemma_names(); text_manifest(); text_part(); text_duplicity_full();
    reveal_with_fuel(pattern_to, 6);
    assert(well_formed(full_manifest()));
    reveal_strlit(r"\.manifest");    reveal_strlit(r"\.part");    reveal_strlit(r"duplicity-full\.");    reveal_strlit("partial");    reveal_strlit("time");
    reveal_strlit(r"^duplicity-full\.(?P<time>.*?)\.manifest(?P<partial>\.part)?($|\.)");
    assert(pattern(full_manifest(), seq![true, true, true, false, true]) =~= r"^duplicity-full\.(?P<time>.*?)\.manifest(?P<partial>\.part)?($|\.)"@);
    axiom_pattern(full_manifest(), seq![true, true, true, false, true]);
}
#[verifier::spinoff_prover]
proof fn full_manifest_4()
    ensures items_of(r"^duplicity-full\.(?P<time>.*?)\.manifest(?P<partial>\.part)?(\.|$)"@) == Some(full_manifest()),
{
    lemma_pieces(); lemma_names(); text_manifest(); text_part(); text_duplicity_full();
    reveal_with_fuel(pattern_to, 6);
    assert(well_formed(full_manifest()));
    reveal_strlit(r"\.manifest");    reveal_strlit(r"\.part");    reveal_strlit(r"duplicity-full\.");    reveal_strlit("partial");    reveal_strlit("time");
    reveal_strlit(r"^duplicity-full\.(?P<time>.*?)\.manifest(?P<partial>\.part)?(\.|$)");
    assert(pattern(full_manifest(), seq![false, false, false, false, false]) =~= r"^duplicity-full\.(?P<time>.*?)\.manifest(?P<partial>\.part)?(\.|$)"@);
    axiom_pattern(full_manifest(), seq![false, false, false, false, false]);
}
#[verifier::spinoff_prover]
proof fn inc_volume_1()
    ensures items_of(r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.vol(?P<num>[0-9]+)\.difftar($|\.)"@) == Some(inc_volume()),
{
    lemma_pieces(); lemma_names(); text_difftar(); text_to(); text_vol(); text_duplicity_inc();
    reveal_with_fuel(pattern_to, 9);
    assert(well_formed(inc_volume()));
    reveal_strlit(r"\.difftar");    reveal_strlit(r"\.to\.");    reveal_strlit(r"\.vol");    reveal_strlit(r"duplicity-inc\.");    reveal_strlit("end_time");    reveal_strlit("num");    reveal_strlit("start_time");
    reveal_strlit(r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.vol(?P<num>[0-9]+)\.difftar($|\.)");
    assert(pattern(inc_volume(), seq![true, true, true, true, true, true, true, true]) =~= r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.vol(?P<num>[0-9]+)\.difftar($|\.)"@);
    axiom_pattern(inc_volume(), seq![true, true, true, true, true, true, true, true]);
}
#[verifier::spinoff_prover]
proof fn inc_volume_2()
    ensures items_of(r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.vol(?P<num>[0-9]+)\.difftar(\.|$)"@) == Some(inc_volume()),
{
    lemma_pieces(); lemma_names(); text_difftar(); text_to(); text_vol(); text_duplicity_inc();
    reveal_with_fuel(pattern_to, 9);
    assert(well_formed(inc_volume()));
    reveal_strlit(r"\.difftar");    reveal_strlit(r"\.to\.");    reveal_strlit(r"\.vol");    reveal_strlit(r"duplicity-inc\.");    reveal_strlit("end_time");    reveal_strlit("num");    reveal_strlit("start_time");
    reveal_strlit(r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.vol(?P<num>[0-9]+)\.difftar(\.|$)");
    assert(pattern(inc_volume(), seq![false, false, false, false, false, false, false, false]) =~= r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.vol(?P<num>[0-9]+)\.difftar(\.|$)"@);
    axiom_pattern(inc_volume(), seq![false, false, false, false, false, false, false, false]);
}
#[verifier::spinoff_prover]
proof fn inc_manifest_1()
    ensures items_of(r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.manifest(?P<partial>(\.part))?($|\.)"@) == Some(inc_manifest()),
{
    lemma_pieces(); lemma_names(); text_manifest(); text_part(); text_to(); text_duplicity_inc();
    reveal_with_fuel(pattern_to, 8);
    assert(well_formed(inc_manifest()));
    reveal_strlit(r"\.manifest");    reveal_strlit(r"\.part");    reveal_strlit(r"\.to\.");    reveal_strlit(r"duplicity-inc\.");    reveal_strlit("end_time");    reveal_strlit("partial");    reveal_strlit("start_time");
    reveal_strlit(r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.manifest(?P<partial>(\.part))?($|\.)");
    assert(pattern(inc_manifest(), seq![true, true, true, true, true, true, true]) =~= r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.manifest(?P<partial>(\.part))?($|\.)"@);
    axiom_pattern(inc_manifest(), seq![true, true, true, true, true, true, true]);
}
#[verifier::spinoff_prover]
proof fn inc_manifest_2()
    ensures items_of(r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.manifest(?P<partial>(\.part))?(\.|$)"@) == Some(inc_manifest()),
{
    lemma_pieces(); lemma_names(); text_manifest(); text_part(); text_to(); text_duplicity_inc();
    reveal_with_fuel(pattern_to, 8);
    assert(well_formed(inc_manifest()));
    reveal_strlit(r"\.manifest");    reveal_strlit(r"\.part");    reveal_strlit(r"\.to\.");    reveal_strlit(r"duplicity-inc\.");    reveal_strlit("end_time");    reveal_strlit("partial");    reveal_strlit("start_time");
    reveal_strlit(r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.manifest(?P<partial>(\.part))?(\.|$)");
    assert(pattern(inc_manifest(), seq![false, false, false, false, false, true, false]) =~= r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.manifest(?P<partial>(\.part))?(\.|$)"@);
    axiom_pattern(inc_manifest(), seq![false, false, false, false, false, true, false]);
}
#[verifier::spinoff_prover]
proof fn inc_manifest_3()
    ensures items_of(r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.manifest(?P<partial>\.part)?($|\.)"@) == Some(inc_manifest()),
{
    lemma_pieces(); lemma_names(); text_manifest(); text_part(); text_to(); text_duplicity_inc();
    reveal_with_fuel(pattern_to, 8);
    assert(well_formed(inc_manifest()));
    reveal_strlit(r"\.manifest");    reveal_strlit(r"\.part");    reveal_strlit(r"\.to\.");    reveal_strlit(r"duplicity-inc\.");    reveal_strlit("end_time");    reveal_strlit("partial");    reveal_strlit("start_time");
    reveal_strlit(r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.manifest(?P<partial>\.part)?($|\.)");
    assert(pattern(inc_manifest(), seq![true, true, true, true, true, false, true]) =~= r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.manifest(?P<partial>\.part)?($|\.)"@);
    axiom_pattern(inc_manifest(), seq![true, true, true, true, true, false, true]);
}
#[verifier::spinoff_prover]
proof fn inc_manifest_4()
    ensures items_of(r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.manifest(?P<partial>\.part)?(\.|$)"@) == Some(inc_manifest()),
{
    lemma_pieces(); lemma_names(); text_manifest(); text_part(); text_to(); text_duplicity_inc();
    reveal_with_fuel(pattern_to, 8);
    assert(well_formed(inc_manifest()));
    reveal_strlit(r"\.manifest");    reveal_strlit(r"\.part");    reveal_strlit(r"\.to\.");    reveal_strlit(r"duplicity-inc\.");    reveal_strlit("end_time");    reveal_strlit("partial");    reveal_strlit("start_time");
    reveal_strlit(r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.manifest(?P<partial>\.part)?(\.|$)");
    assert(pattern(inc_manifest(), seq![false, false, false, false, false, false, false]) =~= r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.manifest(?P<partial>\.part)?(\.|$)"@);
    axiom_pattern(inc_manifest(), seq![false, false, false, false, false, false, false]);
}
#[verifier::spinoff_prover]
proof fn full_signature_1()
    ensures items_of(r"^duplicity-full-signatures\.(?P<time>.*?)\.sigtar(?P<partial>(\.part))?($|\.)"@) == Some(full_signature()),
{
    lemma_pieces(); lemma_names(); text_part(); text_sigtar(); text_duplicity_full_signatures();
    reveal_with_fuel(pattern_to, 6);
    assert(well_formed(full_signature()));
    reveal_strlit(r"\.part");    reveal_strlit(r"\.sigtar");    reveal_strlit(r"duplicity-full-signatures\.");    reveal_strlit("partial");    reveal_strlit("time");
    reveal_strlit(r"^duplicity-full-signatures\.(?P<time>.*?)\.sigtar(?P<partial>(\.part))?($|\.)");
    assert(pattern(full_signature(), seq![true, true, true, true, true]) =~= r"^duplicity-full-signatures\.(?P<time>.*?)\.sigtar(?P<partial>(\.part))?($|\.)"@);
    axiom_pattern(full_signature(), seq![true, true, true, true, true]);
}
#[verifier::spinoff_prover]
proof fn full_signature_2()
    ensures items_of(r"^duplicity-full-signatures\.(?P<time>.*?)\.sigtar(?P<partial>(\.part))?(\.|$)"@) == Some(full_signature()),
{
    lemma_pieces(); lemma_names(); text_part(); text_sigtar(); text_duplicity_full_signatures();
    reveal_with_fuel(pattern_to, 6);
    assert(well_formed(full_signature()));
    reveal_strlit(r"\.part");    reveal_strlit(r"\.sigtar");    reveal_strlit(r"duplicity-full-signatures\.");    reveal_strlit("partial");    reveal_strlit("time");
    reveal_strlit(r"^duplicity-full-signatures\.(?P<time>.*?)\.sigtar(?P<partial>(\.part))?(\.|$)");
    assert(pattern(full_signature(), seq![false, false, false, true, false]) =~= r"^duplicity-full-signatures\.(?P<time>.*?)\.sigtar(?P<partial>(\.part))?(\.|$)"@);
    axiom_pattern(full_signature(), seq![false, false, false, true, false]);
}
#[verifier::spinoff_prover]
proof fn full_signature_3()
    ensures items_of(r"^duplicity-full-signatures\.(?P<time>.*?)\.sigtar(?P<partial>\.part)?($|\.)"@) == Some(full_signature()),
{
    lemma_pieces(); lemma_names(); text_part(); text_sigtar(); text_duplicity_full_signatures();
    reveal_with_fuel(pattern_to, 6);
    assert(well_formed(full_signature()));
    reveal_strlit(r"\.part");    reveal_strlit(r"\.sigtar");    reveal_strlit(r"duplicity-full-signatures\.");    reveal_strlit("partial");    reveal_strlit("time");
    reveal_strlit(r"^duplicity-full-signatures\.(?P<time>.*?)\.sigtar(?P<partial>\.part)?($|\.)");
    assert(pattern(full_signature(), seq![true, true, true, false, true]) =~= r"^duplicity-full-signatures\.(?P<time>.*?)\.sigtar(?P<partial>\.part)?($|\.)"@);
    axiom_pattern(full_signature(), seq![true, true, true, false, true]);
}
#[verifier::spinoff_prover]
proof fn full_signature_4()
    ensures items_of(r"^duplicity-full-signatures\.(?P<time>.*?)\.sigtar(?P<partial>\.part)?(\.|$)"@) == Some(full_signature()),
{
    lemma_pieces(); lemma_names(); text_part(); text_sigtar(); text_duplicity_full_signatures();
    reveal_with_fuel(pattern_to, 6);
    assert(well_formed(full_signature()));
    reveal_strlit(r"\.part");    reveal_strlit(r"\.sigtar");    reveal_strlit(r"duplicity-full-signatures\.");    reveal_strlit("partial");    reveal_strlit("time");
    reveal_strlit(r"^duplicity-full-signatures\.(?P<time>.*?)\.sigtar(?P<partial>\.part)?(\.|$)");
    assert(pattern(full_signature(), seq![false, false, false, false, false]) =~= r"^duplicity-full-signatures\.(?P<time>.*?)\.sigtar(?P<partial>\.part)?(\.|$)"@);
    axiom_pattern(full_signature(), seq![false, false, false, false, false]);
}
#[verifier::spinoff_prover]
proof fn new_signature_1()
    ensures items_of(r"^duplicity-new-signatures\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.sigtar(?P<partial>(\.part))?($|\.)"@) == Some(new_signature()),
{
    lemma_pieces(); lemma_names(); text_part(); text_sigtar(); text_to(); text_duplicity_new_signatures();
    reveal_with_fuel(pattern_to, 8);
    assert(well_formed(new_signature()));
    reveal_strlit(r"\.part");    reveal_strlit(r"\.sigtar");    reveal_strlit(r"\.to\.");    reveal_strlit(r"duplicity-new-signatures\.");    reveal_strlit("end_time");    reveal_strlit("partial");    reveal_strlit("start_time");
    reveal_strlit(r"^duplicity-new-signatures\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.sigtar(?P<partial>(\.part))?($|\.)");
    assert(pattern(new_signature(), seq![true, true, true, true, true, true, true]) =~= r"^duplicity-new-signatures\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.sigtar(?P<partial>(\.part))?($|\.)"@);
    axiom_pattern(new_signature(), seq![true, true, true, true, true, true, true]);
}
#[verifier::spinoff_prover]
proof fn new_signature_2()
    ensures items_of(r"^duplicity-new-signatures\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.sigtar(?P<partial>(\.part))?(\.|$)"@) == Some(new_signature()),
{
    lemma_pieces(); lemma_names(); text_part(); text_sigtar(); text_to(); text_duplicity_new_signatures();
    reveal_with_fuel(pattern_to, 8);
    assert(well_formed(new_signature()));
    reveal_strlit(r"\.part");    reveal_strlit(r"\.sigtar");    reveal_strlit(r"\.to\.");    reveal_strlit(r"duplicity-new-signatures\.");    reveal_strlit("end_time");    reveal_strlit("partial");    reveal_strlit("start_time");
    reveal_strlit(r"^duplicity-new-signatures\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.sigtar(?P<partial>(\.part))?(\.|$)");
    assert(pattern(new_signature(), seq![false, false, false, false, false, true, false]) =~= r"^duplicity-new-signatures\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.sigtar(?P<partial>(\.part))?(\.|$)"@);
    axiom_pattern(new_signature(), seq![false, false, false, false, false, true, false]);
}
#[verifier::spinoff_prover]
proof fn new_signature_3()
    ensures items_of(r"^duplicity-new-signatures\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.sigtar(?P<partial>\.part)?($|\.)"@) == Some(new_signature()),
{
    lemma_pieces(); lemma_names(); text_part(); text_sigtar(); text_to(); text_duplicity_new_signatures();
    reveal_with_fuel(pattern_to, 8);
    assert(well_formed(new_signature()));
    reveal_strlit(r"\.part");    reveal_strlit(r"\.sigtar");    reveal_strlit(r"\.to\.");    reveal_strlit(r"duplicity-new-signatures\.");    reveal_strlit("end_time");    reveal_strlit("partial");    reveal_strlit("start_time");
    reveal_strlit(r"^duplicity-new-signatures\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.sigtar(?P<partial>\.part)?($|\.)");
    assert(pattern(new_signature(), seq![true, true, true, true, true, false, true]) =~= r"^duplicity-new-signatures\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.sigtar(?P<partial>\.part)?($|\.)"@);
    axiom_pattern(new_signature(), seq![true, true, true, true, true, false, true]);
}
#[verifier::spinoff_prover]
proof fn new_signature_4()
    ensures items_of(r"^duplicity-new-signatures\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.sigtar(?P<partial>\.part)?(\.|$)"@) == Some(new_signature()),
{
    lemma_pieces(); lemma_names(); text_part(); text_sigtar(); text_to(); text_duplicity_new_signatures();
    reveal_with_fuel(pattern_to, 8);
    assert(well_formed(new_signature()));
    reveal_strlit(r"\.part");    reveal_strlit(r"\.sigtar");    reveal_strlit(r"\.to\.");    reveal_strlit(r"duplicity-new-signatures\.");    reveal_strlit("end_time");    reveal_strlit("partial");    reveal_strlit("start_time");
    reveal_strlit(r"^duplicity-new-signatures\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.sigtar(?P<partial>\.part)?(\.|$)");
    assert(pattern(new_signature(), seq![false, false, false, false, false, false, false]) =~= r"^duplicity-new-signatures\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.sigtar(?P<partial>\.part)?(\.|$)"@);
    axiom_pattern(new_signature(), seq![false, false, false, false, false, false, false]);
}
proof fn lemma_patterns()
    ensures
        items_of(r"^duplicity-full\.(?P<time>.*?)\.vol(?P<num>[0-9]+)\.difftar(?P<partial>(\.part))?($|\.)"@) == Some(full_volume()),
        items_of(r"^duplicity-full\.(?P<time>.*?)\.vol(?P<num>[0-9]+)\.difftar(?P<partial>(\.part))?(\.|$)"@) == Some(full_volume()),
        items_of(r"^duplicity-full\.(?P<time>.*?)\.vol(?P<num>[0-9]+)\.difftar(?P<partial>\.part)?($|\.)"@) == Some(full_volume()),
        items_of(r"^duplicity-full\.(?P<time>.*?)\.vol(?P<num>[0-9]+)\.difftar(?P<partial>\.part)?(\.|$)"@) == Some(full_volume()),
        items_of(r"^duplicity-full\.(?P<time>.*?)\.manifest(?P<partial>(\.part))?($|\.)"@) == Some(full_manifest()),
        items_of(r"^duplicity-full\.(?P<time>.*?)\.manifest(?P<partial>(\.part))?(\.|$)"@) == Some(full_manifest()),
        items_of(r"^duplicity-full\.(?P<time>.*?)\.manifest(?P<partial>\.part)?($|\.)"@) == Some(full_manifest()),
        items_of(r"^duplicity-full\.(?P<time>.*?)\.manifest(?P<partial>\.part)?(\.|$)"@) == Some(full_manifest()),
        items_of(r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.vol(?P<num>[0-9]+)\.difftar($|\.)"@) == Some(inc_volume()),
        items_of(r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.vol(?P<num>[0-9]+)\.difftar(\.|$)"@) == Some(inc_volume()),
        items_of(r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.manifest(?P<partial>(\.part))?($|\.)"@) == Some(inc_manifest()),
        items_of(r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.manifest(?P<partial>(\.part))?(\.|$)"@) == Some(inc_manifest()),
        items_of(r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.manifest(?P<partial>\.part)?($|\.)"@) == Some(inc_manifest()),
        items_of(r"^duplicity-inc\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.manifest(?P<partial>\.part)?(\.|$)"@) == Some(inc_manifest()),
        items_of(r"^duplicity-full-signatures\.(?P<time>.*?)\.sigtar(?P<partial>(\.part))?($|\.)"@) == Some(full_signature()),
        items_of(r"^duplicity-full-signatures\.(?P<time>.*?)\.sigtar(?P<partial>(\.part))?(\.|$)"@) == Some(full_signature()),
        items_of(r"^duplicity-full-signatures\.(?P<time>.*?)\.sigtar(?P<partial>\.part)?($|\.)"@) == Some(full_signature()),
        items_of(r"^duplicity-full-signatures\.(?P<time>.*?)\.sigtar(?P<partial>\.part)?(\.|$)"@) == Some(full_signature()),
        items_of(r"^duplicity-new-signatures\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.sigtar(?P<partial>(\.part))?($|\.)"@) == Some(new_signature()),
        items_of(r"^duplicity-new-signatures\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.sigtar(?P<partial>(\.part))?(\.|$)"@) == Some(new_signature()),
        items_of(r"^duplicity-new-signatures\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.sigtar(?P<partial>\.part)?($|\.)"@) == Some(new_signature()),
        items_of(r"^duplicity-new-signatures\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.sigtar(?P<partial>\.part)?(\.|$)"@) == Some(new_signature()),
{
    full_volume_1(); full_volume_2(); full_volume_3(); full_volume_4(); full_manifest_1(); full_manifest_2(); full_manifest_3(); full_manifest_4(); inc_volume_1(); inc_volume_2(); inc_manifest_1(); inc_manifest_2(); inc_manifest_3(); inc_manifest_4(); full_signature_1(); full_signature_2(); full_signature_3(); full_signature_4(); new_signature_1(); new_signature_2(); new_signature_3(); new_signature_4();
}
