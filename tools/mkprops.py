#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only because JSON lines are unpleasant to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Backup file names are recognised and classified exactly",
 "A file name is recognised exactly when, ignoring ASCII case, it is a duplicity volume, manifest or signature name (full or incremental) with valid times and a volume number that fits; its kind, times, volume number, partial mark and compression/encryption suffix are those written in the name (a name that spells several kinds at once, or a volume after another mark, is of one of them). Every other name is ignored, whatever it contains, without a failure.",
 ["inputs"], "every string offered as a file name, including names that nearly match, non-canonical spellings, very long digit runs and arbitrary Unicode",
 "parser_test checks six well-formed names; near misses, partial marks of each kind, encrypted suffixes, overlong numbers and names of another kind embedded in a name are never tried",
 ["src/collections/file_naming.rs", "src/collections/mod.rs"],
 [("FileNameParser::parse and its check_full/check_inc/check_sig helpers", "src/collections/file_naming.rs"), ("six regular expressions", "src/collections/file_naming.rs FileNameParser::new"), ("compute_filename_infos", "src/collections/mod.rs")],
 observe=["Collections::from_filenames", "BackupSet accessors", "SignatureFile fields"])
prop("C02", "Each recognised file lands in exactly one backup set, faithfully",
 "After opening a listing, files with the same kind (full or incremental) and times form one backup set and files that differ in either never share one; a set reports exactly the listed volumes under their own numbers, the number of volumes present, its manifest, and is compressed, encrypted or partial exactly when one of its files says so. No listing, whatever volume numbers it has, makes the library panic or allocate more than in proportion to the listing.",
 ["inputs", "histories"], "every finite listing of file names in any order: any number of sets, volume numbers up to the largest machine integer, gaps, missing manifests, signature-only sets",
 "tests add two files to one set; no test has more than one volume per set, a gap, a large volume number, a partial or encrypted set, or checks the reported volumes",
 ["src/collections/mod.rs"],
 [("BackupSet::new, is_same_set, add_filename", "src/collections/mod.rs"), ("compute_backup_sets", "src/collections/mod.rs")],
 state=[("volumes_paths", "volume number to file name", "BackupSet"), ("manifest_path", "empty when the manifest is missing", "BackupSet"), ("compressed/encrypted/partial", "disjunction over the files of the set", "BackupSet")],
 observe=["BackupSet::volume_path", "BackupSet::num_volumes", "BackupSet::manifest_path", "BackupSet::is_compressed/is_encrypted/is_partial/is_complete"])
prop("C03", "Backup chains are contiguous and contain every usable set",
 "Every backup chain is one full set followed by incremental sets, each starting exactly when its predecessor ends, and its start and end times are those of its first and last set; there is one chain per full set and chains are ordered by end time. Every incremental set that continues a chain is in one chain, unless a later-ending set with the same start superseded it; no set is in two chains.",
 ["inputs", "histories"], "every finite listing: any number of full and incremental sets in any order, including overlapping, orphaned, retried and gapped incrementals",
 "the two listings in the tests are already sorted, complete and non-overlapping; a retry, an orphan, an interleaving of two chains or an unsorted listing is never assembled",
 ["src/collections/mod.rs"],
 [("BackupChain::new, BackupChain::add_inc", "src/collections/mod.rs"), ("compute_backup_chains and its two sorts", "src/collections/mod.rs")],
 state=[("start_time/end_time", "span of the chain", "BackupChain")],
 observe=["Collections::backup_chains", "BackupChain::full_set/inc_sets/start_time/end_time"])
prop("C04", "Signature chains are contiguous and contain every usable signature",
 "Every signature chain is one full signature followed by incremental signatures, each beginning at the time of its predecessor; there is one chain per full signature file and chains are ordered by start time. A signature's file name, time and compression and encryption marks are those of its file, and an incremental signature left out of all chains begins at a time at which no chain ended when it was considered, in start-time order and, of those with equal start, the latest-ending first.",
 ["inputs", "histories"], "every finite listing, any order, missing or repeated signatures, interleaved chains",
 "tests hold two chains of at most two incrementals, in order and complete; nothing is missing, repeated or unordered",
 ["src/collections/mod.rs"],
 [("SignatureFile::from_file_and_info, SignatureChain::new/add_new_sig/end_time", "src/collections/mod.rs"), ("compute_signature_chains", "src/collections/mod.rs")],
 observe=["Collections::signature_chains", "SignatureChain::full_signature/inc_signatures/start_time/end_time"])
prop("C05", "Snapshots enumerate exactly the backup sets, in order",
 "Iterating over the snapshots of a backup yields, chain by chain, the full set and then each incremental set of that chain, every one exactly once, and then stays at the end; the count equals the reported total. Time, kind and number of volumes of each snapshot are those of its backup set, and asking a snapshot for its manifest opens the manifest file of that very set.",
 ["inputs", "histories"], "every backup: any number of chains of any length, including zero",
 "tests iterate backups of one and two chains with at most two incrementals; off-by-one indices that only meet in longer or more numerous chains go unseen",
 ["src/lib.rs", "src/collections/mod.rs"],
 [("SnapshotsIter::next, Snapshots::into_iter", "src/lib.rs"), ("Collections::num_snapshots, Backup::new", "src/lib.rs, src/collections/mod.rs")],
 state=[("chain_id/sig_id/man_id", "position of the snapshot: chain, place in the chain, place overall", "SnapshotsIter, Snapshot")],
 observe=["Backup::snapshots", "Snapshot::time/is_full/is_incremental/num_volumes/manifest/as_backup_set"])
prop("C06", "A snapshot's listing comes from its own signatures, or an error",
 "Asking a snapshot for its entries either yields the listing at exactly that snapshot's time, built from the signature files of its own chain, or returns an error because the signature files do not form an unbroken chain up to it or cannot be opened. It never yields another snapshot's listing and never panics, whichever signature files are missing and whatever order chains and signatures are in.",
 ["inputs", "histories", "fault_sequences"], "every listing, including those with signature files missing, chains overlapping in time, chains of more than 255 snapshots",
 "all tests have the complete set of signature files and short chains that do not overlap, where matching by position and matching by time coincide",
 ["src/lib.rs"],
 [("Snapshot::entries, has_signature, find_signature_chain", "src/lib.rs"), ("Backup::new cache sizing", "src/lib.rs"), ("SnapshotEntries::as_signature", "src/lib.rs")],
 observe=["Snapshot::entries", "SnapshotEntries::as_signature"])
prop("C07", "A snapshot's file list is the replay of its chain's signatures",
 "The entries of the n-th snapshot of a signature chain are exactly the paths whose latest mention in the first n signatures is not a deletion, each exactly once, in path-component order, with the attributes of that latest mention (C09 lists them); members outside the signature, snapshot and deleted folders are ignored. Loading later signatures never changes the listing of an earlier snapshot.",
 ["inputs", "histories"], "every sequence of signature archives whose members are in duplicity's order: any paths (bytes sorting around the separator, directories, the root), any additions, changes and deletions, over any number of snapshots",
 "two recorded backups with a handful of paths; no path has a byte smaller than '/', none is deleted and re-created, and no chain is longer than three",
 ["src/signatures.rs", "src/rawpath.rs"],
 [("Chain::add_sigtar_to_snapshots (merge of sorted lists)", "src/signatures.rs"), ("SnapshotEntries::next", "src/signatures.rs"), ("parse_snapshot_path", "src/signatures.rs"), ("RawPath ordering", "src/rawpath.rs")],
 state=[("files", "paths sorted by component, each with its mentions in snapshot order", "Chain"), ("num_snapshots", "signatures fully loaded", "Chain")],
 observe=["Chain::from_sigchain", "Snapshots, Snapshot::files", "Entry::path_bytes"])
prop("C08", "The size hint of an entry brackets the true file size",
 "For every file whose signature duplicity wrote, the reported lower and upper bounds contain the true size and differ by at most one block; for a file stored whole both equal its size. A malformed, truncated or unknown signature gives no hint, and no header values make the computation panic or wrap.",
 ["inputs"], "every signature header (block length, strong sum length, any 32-bit values), every member size, every truncation",
 "the test compares upper bounds of a few recorded files, all with 8-byte sums and small sizes; extreme or malformed headers never occur",
 ["src/signatures.rs"],
 [("compute_size_hint, compute_size_hint_signature, compute_size_hint_snapshot", "src/signatures.rs")],
 observe=["Entry::size_hint"])
prop("C09", "Entry attributes are those recorded in the signature archive",
 "For every entry the type, permission bits, owner and group ids, modification time and link target are those recorded for its latest mention, and the owner and group names are those last recorded in the chain for these ids; the link target is reported only for symbolic links. The mode string shows, for every mode value, the nine permission characters with set-user, set-group and sticky bits as ls does.",
 ["inputs"], "all 256 type bytes, all 2^32 mode values, all header contents",
 "mode_display tries a dozen modes and the recorded archives hold three types of member",
 ["src/signatures.rs"],
 [("EntryType::new", "src/signatures.rs"), ("Display for ModeDisplay", "src/signatures.rs"), ("Entry accessors, UserGroupMap", "src/signatures.rs")],
 observe=["Entry::entry_type/mode/userid/groupid/username/groupname/mtime/linked_path", "Display of Entry"])
prop("C10", "A manifest written by duplicity is read back exactly",
 "For every host name, root path and list of volumes (start and end paths with optional block numbers, hash type and value), parsing the manifest text duplicity writes for them returns exactly those values, volume i under number i. Paths may contain any bytes.",
 ["inputs"], "every manifest content: any number of volumes, any path bytes, any block numbers that fit, any hash; lines ended by LF or CRLF",
 "two recorded manifests, of which one is compared in full",
 ["src/manifest.rs"],
 [("ManifestParser::parse/read_volume/read_line/read_param_*/read_path_block/read_hash_param", "src/manifest.rs"), ("WordIter", "src/manifest.rs"), ("Manifest::volume and accessors", "src/manifest.rs")],
 observe=["Manifest::parse", "Manifest::hostname/local_dir/volume/last_volume_index", "Volume accessors"])
prop("C11", "A malformed manifest is rejected with the error that applies",
 "Whatever bytes a manifest holds, parsing terminates without panicking and gives either a manifest whose volumes were numbered 1, 2, 3, ... in the text, or the error for the first line that is wrong: missing keyword, path, hash or hash type, bad number, bad UTF-8, out-of-order volume, or unexpected end. An error of the underlying reader is passed on.",
 ["inputs", "fault_sequences"], "every byte sequence, and every reader failure at any point",
 "no test feeds a malformed manifest",
 ["src/manifest.rs"],
 [("ManifestParser and ParseError conversions", "src/manifest.rs")],
 observe=["Manifest::parse result"])
prop("C12", "Escaped paths and hexadecimal hashes decode exactly",
 "Undoing duplicity's quoting of a byte string (surrounding quotes, \\xNN for the escaped bytes) returns the original bytes for every byte string, and a hexadecimal hash decodes to exactly its bytes; a text with neither quotes nor escapes stands for itself. No input, however malformed, causes a panic or an output longer than the input.",
 ["inputs"], "every byte string up to any length, every choice of escaped bytes, malformed and truncated escapes",
 "one recorded manifest holds one path with many escapes; malformed escapes, escapes at the end, lone quotes and odd-length hashes are not tried",
 ["src/manifest.rs"],
 [("unescape, nibble, from_hex", "src/manifest.rs")],
 observe=["Manifest::local_dir", "Volume::start_path_bytes/end_path_bytes/hash"])
prop("C13", "Looking up the volumes of a path finds the first and the last one",
 "For every manifest whose volumes are in duplicity's order and every path, the first (last) volume returned is the lowest (highest) numbered volume whose range from start path to end path, in path-component order, contains the path; nothing is returned exactly when no volume contains it.",
 ["inputs"], "every well-ordered manifest of any number of volumes, with files split across two or more volumes, and every path, inside, between and outside the ranges",
 "seven look-ups in one recorded manifest; no path with a byte below '/', no file over three volumes, no path that is a boundary without a block",
 ["src/manifest.rs", "src/rawpath.rs"],
 [("Manifest::first_volume_of_path, last_volume_of_path (binary search)", "src/manifest.rs")],
 observe=["Manifest::first_volume_of_path", "Manifest::last_volume_of_path"])
prop("C14", "Stepping through a chain's snapshots is consistent however it is done",
 "For every chain and every sequence of next, nth, len and size_hint calls on its snapshot iterator, each call behaves as on the plain list of snapshots 0, 1, ..., n-1: the right snapshot or none, the exact remaining length, and no panic for any argument.",
 ["inputs", "histories"], "any number of snapshots, any interleaving of calls, any step up to the largest machine integer",
 "the tests only iterate from start to end",
 ["src/signatures.rs"],
 [("Iterator and ExactSizeIterator for Snapshots", "src/signatures.rs"), ("Chain::snapshots, Chain::add_sigfile count", "src/signatures.rs")],
 state=[("snapshot_id", "next snapshot, at most the number of snapshots", "Snapshots")],
 observe=["signatures::Chain::snapshots"])
prop("C15", "The order of the directory listing does not matter",
 "Two listings with the same file names in different orders give the same backup sets, backup chains, signature chains and snapshots, provided no two files claim the same place (same set and volume, same set's manifest, same signature time) and no two sets end at the same time.",
 ["inputs", "schedules"], "every listing and every permutation of it",
 "every test lists the names in one order",
 ["src/collections/mod.rs"],
 [("compute_backup_sets, compute_backup_chains, compute_signature_chains sorts", "src/collections/mod.rs"), ("BackupSet::add_filename", "src/collections/mod.rs")],
 observe=["Collections::backup_chains", "Collections::signature_chains", "Backup::snapshots"])
prop("C16", "Duplicity timestamps denote the right instant",
 "For every calendar date and time of day from year 0 to 9999, the text YYYYMMDDtHHMMSSz is accepted and denotes that UTC instant in seconds since the epoch; later timestamps give later instants, and text of another shape is refused without a failure.",
 ["inputs"], "every valid date and time including leap years and times before 1970, and arbitrary strings",
 "one timestamp is parsed in the tests",
 ["src/timefmt.rs"],
 [("parse_time_str", "src/timefmt.rs")],
 observe=["timefmt::parse_time_str", "times of sets and signatures"])
prop("C17", "Reads are cached on success, retried after a failure, and never conflict",
 "A manifest or signature chain is read from the backend at most once successfully and every later request returns the same content; a failed request returns the error, leaves other snapshots unaffected and is retried on the next request. Any number of results can be held at the same time, for the same or other snapshots, while further requests are made.",
 ["histories", "fault_sequences"], "every sequence of entries and manifest requests over the snapshots, every pattern of backend failures on opening or manifest reading, and results held across requests",
 "no test lets a backend fail, asks twice, or holds two results at once",
 ["src/lib.rs"],
 [("Backup::_signature_chain, Backup::_manifest", "src/lib.rs"), ("Chain::from_sigchain", "src/signatures.rs")],
 state=[("signatures/manifests", "one empty-or-loaded slot per chain / per snapshot", "Backup")],
 observe=["Snapshot::entries", "Snapshot::manifest", "calls received by the backend"])
prop("C18", "Times are displayed in the requested zone and style",
 "A displayed time of the years 0 to 9999 shows month, day and time of day (`Feb 22 14:53`) if it is of the current year, and month, day and year (`Feb 22  2012`) otherwise, in UTC or the local zone as requested.",
 ["inputs", "configurations"], "every instant of the years 0 to 9999, every system time zone, every current year",
 "a few instants in two zones, for the year the test runs in",
 ["src/timefmt.rs"], [("PrettyDisplay, TimeDisplay", "src/timefmt.rs")], observe=["Display of PrettyDisplay"])
prop("C19", "The local backend lists and opens the files of its directory",
 "Listing a local backend returns exactly the names in its directory at that time, whatever bytes they are made of, and opening one of them reads the file of that name in that directory; what the system refuses is returned as an error.",
 ["configurations", "fault_sequences"], "every directory content and file system failure",
 "one fixed directory",
 ["src/backend/local.rs"], [("LocalBackend", "src/backend/local.rs")], observe=["LocalBackend::file_names", "LocalBackend::open_file"])
prop("C20", "A printed listing shows each entry on a line of aligned columns",
 "Printing a snapshot's listing, through the signature chain or through the backup, gives one line per entry in the order of the listing: its type and permissions, user, group and upper size bound (each `?` if unknown), local modification time and path (`.` for the root), in aligned columns. Printing fails only if the output refuses it.",
 ["inputs"], "every listing of any length and every combination of known and unknown fields",
 "one listing of one test archive",
 ["src/signatures.rs", "src/lib.rs"], [("SnapshotEntriesDisplay, Snapshot", "src/signatures.rs"), ("Entry Display", "src/signatures.rs"), ("SnapshotEntries Display", "src/lib.rs")], observe=["Display of signatures::Snapshot, SnapshotEntriesDisplay and SnapshotEntries"])
prop("C21", "A printed collection shows every chain and set with its times and volumes",
 "Printing a collection, a backup chain or a backup set shows for each chain its start and end time, the number of its sets and of all their volumes, and a row per set in order with its kind, end time and number of volumes; printing a signature chain shows its start and end time and its files in order. Times are local.",
 ["inputs"], "every collection of any number of chains, sets and volumes",
 "no test prints a collection",
 ["src/collections/mod.rs"], [("BackupSet, BackupChain, SignatureChain, Collections Display", "src/collections/mod.rs")], observe=["Display of Collections, BackupChain, BackupSet and SignatureChain"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
