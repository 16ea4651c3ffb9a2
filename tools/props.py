"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json
from pathlib import Path
H = Path(__file__).resolve().parent.parent
S = "src/aligned_textgrid/"
SEQ, SL, TI, PT, PTI, GR = S+"sequences/sequences.py", S+"sequence_list.py", S+"sequences/tiers.py", S+"points/points.py", S+"points/tiers.py", S+"aligned_textgrid.py"
MIX, TMIX, WI = S+"mixins/mixins.py", S+"mixins/tiermixins.py", S+"mixins/within.py"
WP, CC, PG, PC, DF = S+"sequences/word_and_phone.py", S+"custom_classes.py", S+"polar/polar_grid.py", S+"polar/polar_classes.py", S+"outputs/to_dataframe.py"

P = []


def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe), "hook_needed": None}})


p("C01", "Precedence links form one consistent chain",
  "Within one parent interval, or within one tier for entries that have no parent, the previous/following links form exactly the list order: following and previous are inverse, the first entry's previous and the last entry's following are boundary markers ('#'), and the same holds for the points of a point tier. Every operation that adds, removes, replaces or fuses entries leaves the chain complete again, with no entry that left still linked.",
  ["inputs", "histories"], "all interval and point tiers, all sequences of append/remove/pop/set/fuse/relate operations",
  "The tests look at a few fixed word/phone grids after one operation; the chain has to be intact after any history on any tier, including one-entry and empty ones.",
  [MIX, SEQ, PT, TI, PTI], [("set_fol/set_prev/set_initial/set_final and the re-linking loops", MIX), ("__set_precedence", TI), ("_set_subset_precedence and fusion", SEQ)], [".fol", ".prev", "get_tierwise()"])
p("C02", "Parent and child intervals always agree",
  "An interval is in another interval's list of children exactly when that other interval is its parent, and it is a child of at most one parent. Giving an interval a new parent, appending, replacing, removing or popping children updates both ends of the relation and removes the old relation.",
  ["inputs", "histories"], "all hierarchies and all sequences of operations on parents and children",
  "Tests move single intervals between fresh parents; the two redundant ends of the relation must agree after every path through every mutator.",
  [SEQ, TI, WI], [("set_super_instance, append_subset_list, set_subset_list, remove_superset, remove_from_subset_list, pop, append", SEQ), ("TierGroup relating", TI)], [".within", ".contains", ".subset_list", ".super_instance"])
p("C03", "Objects of the wrong class are rejected before anything changes",
  "Parents, children, list members, tiers and groups only accept objects of the class their place in the hierarchy calls for; anything else raises an error. An attempt that is rejected leaves the receiving object as it was.",
  ["inputs", "histories"], "all pairs of receiving object and offered object",
  "Tests try a few mismatching pairs; the class test has to guard every entry point and precede every write.",
  [SEQ, SL, TI, PTI, TMIX], [("class checks in set_super_instance, append_subset_list, set_subset_list", SEQ), ("entry class checks", SL), ("_class_check and append", TMIX)], ["raised exceptions"])
p("C04", "Superset and subset classes are declared symmetrically",
  "Declaring a superset class for a class declares the class as the subset class of that superset, and the reverse. The class hierarchies the package ships (word over phone, the points and interval classes of the bundled grids) and those produced by the class factory are symmetric in the same way and in the order asked for.",
  ["inputs", "programs"], "all classes, including user subclasses and generated ones",
  "Tests check the shipped Word/Phone pair and a few generated hierarchies, not every pair or order.",
  [SEQ, WP, CC, PC], [("set_superset_class/set_subset_class", SEQ), ("module-level declarations", WP), ("custom_classes", CC), ("get_class_hierarchy", CC)], [".superset_class", ".subset_class"])
p("C05", "A grid never modifies the classes its user passed in",
  "Building, extending or changing a text grid works on private copies of the entry classes the caller supplied: the caller's classes keep their superset and subset classes, and two grids built from the same classes never share a class. Clones keep the name and behaviour of the originals and are linked among themselves exactly as the originals were.",
  ["inputs", "histories"], "all grids and all hierarchies of user classes, including hierarchies reached from several tiers",
  "Tests build one or two grids with stock classes; sharing shows only with several grids over custom hierarchies.",
  [GR, CC], [("_reclone_classes, _extend_classes, _swap_classes", GR), ("clone_class", CC)], ["superset_class/subset_class of the classes passed in"])
p("C06", "Sequence lists stay sorted and homogeneous",
  "A sequence list always holds entries of one entry class in time order, whatever the order of construction, appending, concatenation or removal; members are never lost, duplicated or replaced by these operations. The starts, ends and labels it reports are those of its members in that order.",
  ["inputs", "histories"], "all sequence lists and all sequences of operations on them",
  "Tests use short lists that are mostly sorted already.",
  [SL], [("constructor, __add__, append, concat, remove, pop, sorting", SL)], ["iteration order, .starts, .ends, .labels"])
p("C07", "Every entry of a tier knows its tier",
  "Each entry that is a member of a tier refers to that tier and carries its name, whether it got there by construction, assignment, appending, concatenation or gap filling. Entries that are removed from a tier are members no longer.",
  ["inputs", "histories"], "all tiers and all ways an entry can join or leave one",
  "Tests check the attribute after construction only.",
  [TI, PTI, TMIX, SEQ], [("__set_intier in the precedence loop", TI), ("__set_intier", PTI), ("append", TMIX)], [".intier", ".tiername"])
p("C08", "Container relations, indices and paths agree",
  "If an object says it is within a container, the container contains it, and the reverse: intervals in parents or top tiers, tiers in groups, groups in grids. Index and path attributes lead back to the same object when followed from the root.",
  ["inputs", "histories"], "all grids, all objects in them, after any modification",
  "Tests follow a few paths in one grid.",
  [WI, TI, PTI, GR], [("within/contains setters", WI), ("within_index, within_path, get_by_id", WI)], [".within", ".contains", ".within_index", ".within_path", ".id"])
p("C09", "Shifting moves every time by the same amount, once",
  "Shifting an interval, point, tier, group or grid by an amount adds exactly that amount to every start, end and point time below it, once, and changes nothing else. Concatenation shifts the right-hand material, and only that, by the length of the left-hand material.",
  ["inputs", "histories"], "all grids, all amounts including zero and negative ones",
  "Tests shift one small grid by one amount.",
  [MIX, SEQ, SL, TI, PTI, TMIX, GR], [("_shift/shift methods", TI), ("shift in concatenation", SL)], [".start", ".end", ".time", ".xmin", ".xmax"])
p("C10", "Export writes every tier, entry, time and label",
  "Returning or saving an interval, point, tier or grid as a Praat object produces one Praat tier per tier, in order, under the tier's name, with one entry per entry carrying its exact times and label. Duplicate names are told apart instead of dropping tiers, and nothing in the exported object is changed by exporting.",
  ["inputs"], "all grids, tiers and entries",
  "Tests compare lengths of exported tiers for two files.",
  [SEQ, PT, TI, PTI, GR], [("return_interval/return_point", SEQ), ("return_tier, save_as_tg", TI), ("return_textgrid, save_textgrid", GR)], ["praatio objects returned or saved"])
p("C11", "Import keeps every tier and entry of the source",
  "Building entries, tiers, groups and grids from Praat data, lists or other aligned objects gives one entry per source entry with the same times and label, of the class asked for. Interval tiers are arranged in hierarchical order and keep the names the source gave them, and no tier or entry for which a class was given is dropped.",
  ["inputs", "configurations"], "all source text grids, all entry class arrangements",
  "Tests load a few files with word/phone classes.",
  [SEQ, PT, TI, PTI, GR], [("constructors and casts", SEQ), ("_arrange_tiers", TI), ("_extend_classes, _nestify_tiers, _relate_tiers", GR)], ["contents of the constructed object"])
p("C12", "Time queries find exactly the entry at that time",
  "Asking a tier for the interval at a time returns the position of the interval whose half-open span [start, end) holds that time, or nothing; groups and grids return the answers of their tiers in order. Asking for the nearest point returns the point with the least distance, and distances are the times' differences.",
  ["inputs"], "all tiers and all query times, including boundaries and times outside",
  "Tests query a few times inside intervals.",
  [TI, PTI, PT, SEQ, GR], [("get_interval_at_time, get_intervals_at_time", TI), ("get_nearest_point_index, distances", PT), ("get_interval_index_at_time", GR)], ["returned indices and intervals"])
p("C13", "DataFrame output has one faithful row per entry",
  "Converting an entry, a non-empty tier, a group or a grid to a data frame yields one row per entry, in order, with its id, tier index, label and times; with subsets included, one row per lowest interval, in which the columns of every level are prefixed by its class name and repeat the values of that row's parents. Points, and intervals without their subsets, carry their class name, and the rows of a group its name. No row is dropped or repeated.",
  ["inputs"], "all objects that can be converted",
  "Tests check column names and a handful of shapes.",
  [DF], [("to_df and the converters it dispatches to", DF)], ["returned data frame"])
p("C14", "Reading never changes anything",
  "Reading properties, indexing, searching, iterating, printing, exporting, validating and converting to data frames never changes an entry, tier, group, grid or class (only a group without a name may remember the default name it was given). Repeating a read without modification in between gives the same answer.",
  ["inputs", "histories"], "all reads in all states",
  "Tests compare results of reads, not the state left behind.",
  [SEQ, SL, PT, TI, PTI, GR, DF, PG], [("all property getters and query methods", S)], ["state before and after a read"])
p("C15", "Objects built separately share no mutable state",
  "Two separately constructed lists, tiers, groups or grids never share containers through default arguments, class attributes or retained caller lists: changing one leaves the other, and the list the caller passed, as they were.",
  ["inputs", "histories"], "all pairs of objects and all later modifications",
  "Sharing shows only when two objects are built and one is modified afterwards.",
  [SEQ, SL, TI, PTI, GR], [("defaults and copies in constructors", TI)], ["contents of one object after changing another"])
p("C16", "Derived values always reflect the current entries",
  "Durations, extents, starts, ends, labels, names, first/last and similar derived values are computed from the current entries each time they are read, so they never go stale after a modification. Assigning times or labels through a container changes the entries themselves, element by element.",
  ["inputs", "histories"], "all objects, all histories of modification",
  "Tests read derived values once after construction.",
  [SEQ, SL, PT, TI, PTI, GR], [("property getters", S)], ["derived properties after modification"])
p("C17", "Relating and clean-up only fill gaps with blank intervals",
  "Relating tiers and cleaning up give every upper interval the lower intervals that overlap it most and close gaps by adding intervals with empty labels; existing labels are never changed and no interval is dropped. Times of existing intervals change only to reconcile boundaries that do not match, and only when clean-up is not delayed.",
  ["inputs", "histories"], "all tier groups, tight or with gaps and mismatched boundaries",
  "Tests use two prepared files.",
  [TI, SEQ, GR], [("TierGroup construction and cleanup", TI), ("SequenceInterval.cleanup", SEQ), ("AlignedTextGrid.cleanup", GR)], ["intervals after relating"])
p("C18", "Fusing two neighbours yields their exact union",
  "Fusing an interval with a neighbour extends it to the neighbour's outer boundary, combines the labels in time order with the given combiner, moves the neighbour's children into it in order, and removes the neighbour from its parent and tier with the links closed. Fusing at an edge without a neighbour raises and changes nothing.",
  ["inputs", "histories"], "all neighbouring pairs on any level, with or without children, parents and tiers",
  "Tests fuse a few phones.",
  [SEQ], [("fuse_rightwards, fuse_leftwards", SEQ), ("label combiner argument", SEQ)], ["state after fusing"])
p("C19", "Copying and casting keep the data",
  "Constructing an entry, tier or group from another one keeps times, labels, children and names, takes the class asked for and does not disturb the source beyond the documented adoption of its children. Casting between hierarchies keeps every field.",
  ["inputs"], "all entries, tiers and groups as sources",
  "Tests copy one interval.",
  [SEQ, PT, TI, PTI], [("constructors and _cast", SEQ)], ["fields of the copy and the source"])
p("C20", "Containers follow the sequence protocol consistently",
  "For every container, length, iteration, indexing, membership and position agree with the list of its members, and nested or repeated iteration visits every member. Indexing by name gives the member of that name.",
  ["inputs", "histories"], "all containers and indices",
  "Tests index a few containers.",
  [MIX, SL, TI, PTI, GR], [("__len__, __getitem__, __iter__, __contains__, index", MIX)], ["len, iteration, indexing"])
p("C21", "Pitch-accent annotation links are mutual and complete",
  "In a grid of PoLaR annotation, a level and the turning point at the same time refer to each other, every level knows the ranges tier and the range interval that holds its time, and the bands and band value derived from it come from that range. Assigning one side of the link between a level and a turning point sets the other, and points at different times are never linked.",
  ["inputs"], "all annotation grids",
  "Tests load one file.",
  [PC, PG], [("level, turning_point and range setters", PC), ("linking in PolarGrid", PG)], [".level", ".turning_point", ".ranges_tier", ".range_interval", ".band"])
p("C22", "Names and named accessors lead to the right object",
  "Every tier, group and grid member that has an unambiguous name is reachable under that name and the accessor returns the member itself; names given by the user or found in the source are kept, default names derive from the members' names, and names lists match the members in order.",
  ["inputs", "histories"], "all names, including duplicates and names that are no identifiers",
  "Tests use two-speaker grids with well-behaved names.",
  [TMIX, TI, PTI, GR], [("_set_tier_names, make_name, name setters", TMIX), ("_set_group_names, group_names setter", GR)], ["attribute access and name lists"])
p("C23", "Validation tells exactly whether the structure is sound",
  "Validating an interval answers true exactly when it has no children or no times, or its first child starts with it, its last child ends with it and the children follow each other without gaps, within numerical tolerance; otherwise it answers false and warns about every kind of fault it found. Validation changes nothing.",
  ["inputs"], "all intervals with any children",
  "Tests validate one good and a few bad intervals.",
  [SEQ], [("validate", SEQ)], ["return value and warnings"])
p("C24", "Adding or removing a level keeps all other data",
  "Interleaving a new class above or below an existing interval class copies that tier's intervals into a new tier placed at that level with the labels asked for, and removing an interval class removes just its tiers; all other tiers, times and labels stay, and the hierarchy is re-linked around the change.",
  ["inputs", "histories"], "all grids and classes",
  "Tests do this on one grid per case.",
  [GR], [("interleave_class, pop_class, shift tier insertion", GR)], ["tiers and classes afterwards"])
p("C25", "Joining containers keeps the contents of both",
  "Adding or concatenating lists, tiers, groups or grids gives the left contents followed by the right contents, all of them, once; the adding form leaves its operands' members unchanged and the concatenating form extends the left operand. Joined containers must have matching classes and numbers of members.",
  ["inputs", "histories"], "all pairs of containers",
  "Tests join small equal containers.",
  [SL, TMIX, GR, TI, PTI], [("__add__, append, concat", TMIX)], ["contents afterwards"])
p("C26", "Saved state is restored whole",
  "Restoring a pickled or deep-copied grid, group, tier or entry puts back every attribute the original had, unchanged: no class leaves out, alters or recomputes part of its state when it is saved or restored, and no attribute holds something that cannot be saved (a generator, weak reference, open file or lock).",
  ["inputs", "histories"], "all objects in any state they can get into",
  "One test pickles one freshly read grid and only looks whether something comes back.",
  [GR, TI, PTI, SEQ, PT, SL], [("__setstate__", GR), ("__setstate__", TI), ("attributes assigned everywhere", SEQ)], ["attributes after cloudpickle.loads or copy.deepcopy"])

NA = {
 "N01": ("Saved files read back as the same grid",
         "Saving a grid to a Praat file and reading it again gives the same tiers, times and labels up to the precision of the file format.",
         ["inputs"], "all grids, file formats and encodings", "Round trips depend on the file writer and reader of the praatio package and on number formatting.",
         [GR, TI], [("save_textgrid", GR), ("constructor", GR)],
         "What a written file contains and how it is read back is decided by praatio's writer, reader and float formatting, which are not in /repo; the static rules see only the calls (covered by C10 and C11). Bounding rounding and quoting of runtime text needs execution."),
 "N02": ("Relating tiers is numerically optimal and total",
         "For every pair of tiers with non-overlapping intervals, each lower interval is assigned to the upper interval it shares most time with, assignments are contiguous, and after clean-up parent and child boundaries are numerically equal.",
         ["inputs"], "all real-valued boundary arrays", "Optimality is a fact about numpy array values.",
         [TI], [("overlap matrix in TierGroup construction", TI)],
         "Optimality, contiguity and boundary equality are statements about the values inside numpy arrays (argmax over an outer difference); a static argument would need the values. What is decided statically (C17) is that exactly this computation is what feeds the assignment."),
 "N03": ("Large grids are processed in reasonable time",
         "Construction, modification and conversion need time roughly proportional to the number of entries.",
         ["inputs"], "all sizes", "Tests use small files.", [GR, TI], [("re-relating after append", TMIX)],
         "A bound on running time depends on the sizes of runtime collections and on numpy and polars; no static cost argument in reach bounds it."),
}


def main():
    from claims import CLAIMED, NOTES, REASONS
    rows = list(P)
    for k, (t, s, o, q, w, f, m, r) in NA.items():
        rows.append({"id": k, "title": t, "statement": s, "quantifier": {"over": o, "text": q}, "why_tests_cant": w,
                     "anchors": {"files": f, "mechanism": [{"name": a, "where": b} for a, b in m]}})
    (H / "properties.jsonl").write_text("".join(json.dumps(x) + "\n" for x in rows))
    checks, na = [], []
    for x in P:
        if x["id"] in CLAIMED:
            checks.append({"property": x["id"], "quick_cmd": f"python3 -m satg.check {x['id']}", "thorough_cmd": f"python3 -m satg.check --tier thorough {x['id']}",
                           "technique": NOTES.get(x["id"], ("", ""))[0] or "static gated value-graph comparison of each function with its contract",
                           "level": "other", "level_note": NOTES.get(x["id"], ("", ""))[1] or
                           "Every function named by the property's contracts is abstractly evaluated over its source (all branches, loops as quantified binders, effects with guards) and must normalise to its contract; differences inside the modelled vocabulary are violations, other differences are reported as undecided. Trusts the contracts in specs/, the evaluator and its laws for list/numpy/praatio/polars calls."})
        else:
            na.append({"property": x["id"], "reason": REASONS.get(x["id"], "no check yet")})
    for k, v in NA.items():
        na.append({"property": k, "reason": v[7]})
    (H / "MANIFEST.json").write_text(json.dumps({"version": 1, "setup_cmd": "python3 -m compileall -q satg", "checks": checks, "not_applicable": na,
        "notes": "Checks read /repo's source only (SATG_REPO overrides the path); they never import or run it. known-findings.txt lists repaired defects."}, indent=1) + "\n")


main()
