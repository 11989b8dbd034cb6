"""What decides each property: the overlays (contracts/*.vc) whose obligations it needs, and the rest."""
DEDUCTIVE = "contract-based deductive verification (Verus) of the extracted functions; bounded exploration for counterexamples"
BASE = "Assumes the contracts written for the standard library and dependencies (listed as trusted_base in the evidence), the soundness of Verus and z3, and the rewrites R1-R22 of the extractor. "
COMMON = [
    "Verus (rustc 1.98.1 front end, its encoding, z3) is sound; the compiled program is rustc's translation of the same source",
    "the extraction is faithful: it copies item text from /repo and applies only the rewrites R1-R22 listed in DESIGN.md",
]
def ded(overlays, note, theorems=(), **k):
    return dict(overlays=overlays, level="proof", technique=DEDUCTIVE, note=BASE + note, theorems=list(theorems), assumptions=COMMON, **k)
# overlays on a dependency's source, that prove what the others assume of it
def timecrate(*what): return ("timecrate", "time", list(what))
PARSES = timecrate("time::strptime", "Tm::to_timespec")
SHOWS = timecrate("time::at", "time::at_utc", "time::now", "time::now_utc", "time::strftime", "Tm::strftime")
PLAN = {
    "C01": ded(["names"], "What a regular expression written as a sequence of known items matches (leftmost-first), and libc's timegm, by assumption; strptime and to_timespec are proved from their source; that the six patterns are such sequences is proved. A manifest name that has a volume mark as well is of one of the kinds it spells or ignored.", ["theorem_only_names", "theorem_recognised", "theorem_names"], support=[PARSES]),
    "C16": ded(["names"], "What libc's timegm makes of a date by assumption; the crate time's strptime and to_timespec are proved from their source.", ["theorem_time_accepted", "theorem_calendar", "theorem_time_later"], support=[PARSES]),
    "C10": ded(["manifest"], "Every manifest text duplicity writes parses to its contents (for all contents).", ["theorem_round_trip"]),
    "C11": ded(["manifest"], "For every stream the parser's result is the one of a line-by-line specification, and accepted volumes are numbered in order.", ["theorem_numbered"]),
    "C12": ded(["manifest"], "For every byte string.", ["theorem_unquote", "theorem_plain", "theorem_unhex", "theorem_no_growth"]),
    "C02": ded(["collections"], "Which files are recognised is C01; std's BTreeMap and sort_by by assumption.", ["theorem_sets"]),
    "C03": ded(["collections"], "Which files are recognised is C01; std's BTreeMap and sort_by by assumption.", ["theorem_chains"]),
    "C04": ded(["collections"], "Which files are recognised is C01; std's sort_by by assumption.", ["theorem_signature_chains"]),
    "C15": ded(["collections"], "Which files are recognised is C01 (a function of the name alone); std's BTreeMap and sort_by by assumption.", ["theorem_order"]),
    "C13": ded(["manifest"], "For every well-ordered manifest and every path; std's path ordering is component order by assumption."),
    "C07": ded(["sigs"], "What the tar and flate2 crates make of a file's content, and a backend's answers, by assumption; PathBuf's order is component order by assumption. A path written twice within one signature is outside duplicity's order and not covered.", ["theorem_replay", "theorem_later_signatures"]),
    "C08": ded(["sigs"], "What the tar crate makes of a member by assumption. Archives of 2^64 bytes and more are excluded by 64-bit sizes.", ["theorem_bracket", "theorem_whole", "theorem_no_hint"]),
    "C09": ded(["sigs"], "What the tar crate reads of a header and what `{}` writes of a string or number by assumption; how a time is shown is left open (C18).", ["theorem_replay"]),
    "C05": ded(["lib", "collections"], "What a backend answers, what a cell holds and that a cell is not read by two at a time outside the ways the contracts allow by assumption (RefCell); a collection of 2^64 sets and more does not fit in memory.", ["theorem_places", "theorem_enumeration"]),
    "C06": ded(["lib", "sigs", "collections"], "What a backend answers, what a cell holds and that a cell is not read by two at a time outside the ways the contracts allow by assumption (RefCell); a collection of 2^64 sets and more does not fit in memory. Which signature files form a chain is C04, what a chain lists is C07.", ["theorem_answers"]),
    "C17": ded(["lib", "sigs", "manifest"], "What a backend answers, what a cell holds and that a cell is not read by two at a time outside the ways the contracts allow by assumption (RefCell); a collection of 2^64 sets and more does not fit in memory.", ["theorem_answers"]),
    "C18": ded(["shown"], "The crate time's at, at_utc, now, now_utc and strftime are proved from their source; libc's gmtime_r, localtime_r and clock_gettime, the system's clock and zone by assumption.", ["theorem_shown"], support=[SHOWS]),
    "C19": ded(["local"], "What the system answers and std's path joining by assumption; an entry that the system fails to give is left out of the listing.", ["theorem_in_directory"]),
    "C20": ded(["sigs", "lib"], "What the crate tabwriter makes of lines of columns, what `{}` writes of a string or number, and the display of a time (C18) by assumption. Which entries a listing has is C07, their fields are C09.", ["theorem_printed"]),
    "C21": ded(["shown_coll", "collections"], "What `{}` writes of a string or number, with a width, std's Iterator::fold, and the display of a time (C18) by assumption. Which sets a chain has is C02 and C03. A collection of 2^64 sets or volumes and more does not fit in memory."),
    "C14": ded(["sigs"], "For every chain and every sequence of calls.", ["theorem_stepping"]),
}
NOT_APPLICABLE = {}
