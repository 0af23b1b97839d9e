"""What each check runs: harness and seconds allowed, per tier, and each harness's bounds."""

CONTRACTS = {"C02", "C03", "C06", "C07", "C14", "C18"}

# harness: (bounds, quick seconds or None, thorough seconds or None)
H = {
    # C01
    "c01_first3": ("first 3 lines of any kind (keyword lines, braces, values, junk, blank), chosen as they are read", 30, None),
    "c01_first5": ("first 5 lines of any kind", 30, 120),
    "c01_hier3": ("HIERARCHY, ROOT and 3 hierarchy lines of any kind, then closed and given motion data", 40, None),
    "c01_hier4": ("as c01_hier3 with 4 lines", 60, 300),
    "c01_motion4": ("a skeleton, then 4 lines of any kind where motion data belongs", 30, None),
    "c01_motion6": ("a skeleton, then 6 lines", 30, 300),
    "c01_bytes4": ("every text of at most 4 arbitrary bytes", 60, 120),
    "c01_window1": ("a document with any one byte arbitrary", 40, None),
    "c01_window2": ("a document with any two adjacent bytes arbitrary", None, 600),
    "c01_cut1": ("a document with any one byte taken out or put in", 30, None),
    "c01_cut2": ("a document with two bytes changed, taken out or put in", None, 300),
    "c01_numbers1": ("each number of a document replaced by one arbitrary byte", 30, None),
    "c01_numbers3": ("each number of a document replaced by three arbitrary bytes", None, 600),
    "c01_any_numbers": ("every number of a document any finite or infinite value", 30, 120),
    "c01_long": ("joints, braces, names, lines, numbers and blank lines, 1-5000 of each", 30, 60),
    # C02
    "c02_shape3": ("every tree of up to 3 joints, 0-2 channels each, end sites anywhere, any finite offsets", 40, None),
    "c02_shape4": ("every tree of up to 4 joints, 0 or 2 channels each", 40, None),
    "c02_shape5": ("every tree of up to 5 joints, one channel each", 40, 200),
    "c02_shape6": ("every tree of up to 6 joints, one channel each", None, 400),
    "c02_chans": ("every channel list of up to 4 channels on a joint", 60, 120),
    "c02_names2": ("joint names of 1-2 arbitrary bytes", 40, None),
    "c02_names3": ("joint names of up to 3 arbitrary bytes", None, 200),
    "c02_keywords": ("joints named like keywords, numbers and braces", 30, 60),
    "c02_deep": ("chains of up to 7 joints", 30, 60),
    "c02_wide": ("a joint with up to 12 children", 30, 60),
    "c02_large": ("trees of 40-300 joints of five kinds (chain, wide, two chains, comb, irregular), names up to 300 bytes, up to 40 channels, any numbers in places", 60, 60),
    # C03
    "c03_motion": ("up to 4 channels and 3 frames, any finite values, any frame time below 10^6 s", 30, 60),
    "c03_count": ("any declared count against up to 3 x 3 values", 30, 60),
    "c03_hard": ("16 numbers hard to read or write, through the real number code", 30, 60),
    "c03_forms": ("numbers written in other forms (signs, exponents, leading and trailing zeros)", 30, 60),
    "c03_times": ("frame times written in various forms", 30, 60),
    "c03_large": ("8 sizes up to 300 frames or 300 channels, any values; or one value missing or too many", 30, 60),
    # C04
    "c04_hier4": ("any document as c01_hier4 that loads", 60, 300),
    "c04_good6": ("6 hierarchy lines of plausible kinds, then closed", 40, 200),
    "c04_good8": ("8 hierarchy lines of plausible kinds, then closed", None, 600),
    "c04_motion4": ("any motion section as c01_motion4 that loads", 30, 120),
    "c04_window1": ("a document with any one byte arbitrary, if it loads", 40, None),
    "c04_window2": ("a document with any two adjacent bytes arbitrary, if it loads", None, 500),
    "c04_large": ("trees of 40 and 130 joints of five kinds with several hundred channels", 30, 60),
    # C05
    "c05_hier4": ("any document as c01_hier4 that loads", 60, 300),
    "c05_good6": ("6 hierarchy lines of plausible kinds, then closed", 40, 200),
    "c05_good8": ("8 hierarchy lines of plausible kinds, then closed", None, 600),
    "c05_first3": ("first 3 lines of any kind", 30, 60),
    "c05_window1": ("a document with any one byte arbitrary, if it loads", 40, None),
    "c05_window2": ("a document with any two adjacent bytes arbitrary, if it loads", None, 500),
    "c05_large": ("trees of 40-300 joints of five kinds", 60, 60),
    # C06
    "c06_trees3": ("every tree of up to 3 joints, 0 or 2 channels, end sites anywhere, any finite offsets", 30, None),
    "c06_trees4": ("every tree of up to 4 joints", 30, None),
    "c06_trees5": ("every tree of up to 5 joints", None, 300),
    "c06_motion": ("up to 3 channels and 3 frames, any finite values, any frame time below 10^6 s", 30, 60),
    "c06_hard": ("16 numbers hard to read or write, twice, 8 frame times, through the real number code", None, 200),
    "c06_hard1": ("16 numbers hard to read or write, 8 frame times, through the real number code", 40, None),
    "c06_names": ("names of up to 2 arbitrary bytes, long names", 40, 100),
    "c06_edited": ("any two edits before writing", 30, 60),
    "c06_empty": ("the animation without joints", 10, 10),
    "c06_built4": ("animations built from in-source operations, up to 4 joints", 30, 60),
    "c06_large": ("trees of 40 and 130 joints of five kinds", 60, 60),
    "c06_frames": ("8 sizes up to 300 frames or 300 channels, any values", 30, 60),
    # C07
    "c07_trees3": ("every tree of up to 3 joints, every indentation and line end", 30, None),
    "c07_trees4": ("every tree of up to 4 joints, every indentation and line end", None, 120),
    "c07_values1": ("any values and frame time, one precision of none, 0, 1, 3, 6", 30, None),
    "c07_values3": ("any values and frame time, all three precisions", 60, 200),
    "c07_hard": ("16 numbers hard to write, all precisions, through the real number code", 60, 100),
    "c07_indents": ("14 indentations of 0-300 spaces, up to 19 levels", 40, 100),
    "c07_setters2": ("any two setters with any values, from 3 initial options", 20, None),
    "c07_setters3": ("any three setters with any values, from 3 initial options", None, 60),
    "c07_types": ("the option types", 10, 10),
    "c07_large": ("trees of 30 and 80 joints of five kinds, every indentation and line end", 100, 150),
    # C08
    "c08_sink1": ("one request of the sink short, retried, refused or failed", 20, None),
    "c08_sink2": ("two such requests", 30, None),
    "c08_sink3": ("three such requests", 60, 200),
    "c08_default2": ("two such requests, default writing", 30, 60),
    "c08_trickle": ("1-5 bytes accepted per request, and one request otherwise", 30, 60),
    "c08_kinds": ("one failure of any of 24 kinds at any of several requests or at flushing", 40, 60),
    "c08_flush": ("flushing interrupted 0-2 times", 20, 30),
    "c08_full": ("a sink full after any number of bytes", 30, 60),
    "c08_large": ("three texts of over 8 KB, sinks of 7 piece sizes, retries and failures at several requests", 80, 100),
    # C09
    "c09_cut": ("one piece boundary anywhere, 0-2 retries there", 40, None),
    "c09_cut_bad": ("the same for files with a fault", 60, 200),
    "c09_cuts2": ("any two piece boundaries and a retry", None, 300),
    "c09_pieces": ("equal pieces of 1-24 bytes, through standard buffers", 30, 60),
    "c09_failing": ("a read failure of 4 kinds at any byte", 40, 100),
    "c09_kinds": ("a read failure of 24 kinds at the start of or inside any line", 40, 100),
    "c09_roads": ("every loading function", 20, 60),
    "c09_bytes": ("any byte at 14 places of a file, by every loading function that takes it", 30, 30),
    "c09_bytes2": ("any two adjacent bytes at 13 places of a file, by every loading function that takes them", 60, None),
    "c09_bytes3": ("any three adjacent bytes at 10 places of a file, by every loading function that takes them", None, 250),
    "c09_large": ("three texts with lines of over 8 KB or of many lines, 11 piece sizes, retries, failures at 7 places", 100, 150),
    # C10
    "c10_global": ("every indentation, gap, trailing blank, line end and blank line style throughout", 60, 200),
    "c10_local": ("any one line in another style", 30, None),
    "c10_local_full": ("any one line in any combination of styles", None, 300),
    "c10_blanks2": ("any one gap of 0-2 arbitrary blanks", 30, None),
    "c10_blanks4": ("any one gap of 0-4 arbitrary blanks", 30, 100),
    "c10_names2": ("names of 2-4 bytes in any layout", 30, 100),
    "c10_between": ("blank lines between the lines of the motion section", 30, 60),
    "c10_large": ("17-9000 blanks or blank lines in any one place", 80, 100),
    # C11
    "c11_one": ("up to 3 frames of up to 3 channels, an insertion anywhere", 20, None),
    "c11_one5": ("up to 5 frames of up to 5 channels, an insertion anywhere", None, 100),
    "c11_bad": ("frames of another length", 20, 60),
    "c11_many": ("up to 3 frames inserted at once anywhere", 20, None),
    "c11_many4": ("up to 5 frames inserted at once anywhere among up to 4", None, 200),
    "c11_chunks": ("frames from chunks of a slice", 20, 60),
    "c11_foreign": ("frames of another animation", 20, 60),
    "c11_large": ("4 sizes up to 300 frames, up to 100 frames inserted at several places", 30, 60),
    # C12
    "c12_remove": ("up to 3 channels and 4 frames, a removal anywhere", 20, None),
    "c12_remove6": ("up to 5 channels and 6 frames, a removal anywhere", None, 100),
    "c12_clear": ("up to 3 channels and 3 frames, all removed", 20, 60),
    "c12_large": ("4 sizes up to 300 frames, up to all removed from several places", 30, 60),
    # C13
    "c13_history4": ("every sequence of 4 operations on up to 2 frames", 60, None),
    "c13_history5": ("every sequence of 5 operations on up to 2 frames", None, 600),
    "c13_moves6": ("every sequence of 6 moves", 60, 200),
    "c13_empty": ("every sequence of 4 operations on an empty animation", 20, 60),
    "c13_large": ("8 fixed histories of 60 steps on animations of 40-300 frames, any values", 30, 60),
    # C14
    "c14_ends": ("iteration from both ends, any interleaving, up to 2 channels and 3 frames", 20, None),
    "c14_ends4": ("iteration from both ends, any interleaving, up to 3 channels and 5 frames", None, 100),
    "c14_value": ("any one value read and written by every road", 30, 60),
    "c14_set": ("any value set, up to 3 channels and 3 frames", 20, 60),
    "c14_outside": ("any frame and channel number outside", 20, 60),
    "c14_large": ("4 sizes up to 300 frames, several frames and channels of each", 30, 60),
    # C15
    "c15_bytes12": ("every byte string of 3-12 bytes against the six names", 30, 60),
    "c15_text9": ("every byte string of 6-9 bytes", 30, 60),
    "c15_near": ("every one-byte change of a channel name", 30, 60),
    "c15_display": ("every channel type displayed and read", 20, 60),
    "c15_kinds": ("axes and vectors of every channel type", 20, 60),
    "c15_large": ("13 lengths of up to 5000 bytes of five kinds around a channel name", 20, 30),
    # C16
    "c16_words2": ("any word of any line missing or unreadable, 2 joints, blank lines anywhere", 40, None),
    "c16_words3": ("any word of any line missing or unreadable, 3 joints", None, 300),
    "c16_dropped3": ("any line missing, 3 joints", 30, None),
    "c16_dropped4": ("any line missing, 4 joints", None, 200),
    "c16_ended3": ("the file ends after any line", 30, 60),
    "c16_counts2": ("any declared count that is wrong", 20, 60),
    "c16_rows": ("any row with another number of values", 30, 60),
    "c16_misplaced2": ("any of 8 keyword lines at any place, 2 joints", 30, None),
    "c16_misplaced3": ("any of 8 keyword lines at any place, 3 joints", 40, 200),
    "c16_no_channels": ("values for skeletons without channels, none for one with a channel, any declared count", 30, 60),
    "c16_hier3": ("HIERARCHY, ROOT and 3 hierarchy lines of any kind: every error can be displayed", 40, 100),
    "c16_motion3": ("a skeleton and 3 lines of any kind: every error can be displayed", 30, None),
    "c16_motion5": ("a skeleton and 5 lines of any kind: every error can be displayed", None, 300),
    "c16_window1": ("any one byte of a file replaced or added: every error can be displayed", 30, 100),
    "c16_errors": ("errors of edits", 20, 60),
    "c16_large": ("one of 9 faults at several places of a file of 60 joints, behind up to 7000 blank lines", 100, 150),
    # C17
    "c17_navigate5": ("every tree of up to 5 joints", 30, None),
    "c17_navigate6": ("every tree of up to 6 joints", None, 200),
    "c17_lookup": ("any joint name looked up", 30, 60),
    "c17_large": ("trees of 40-300 joints of five kinds, the same name twice", 60, 60),
    # C18
    "c18_shapes3": ("every tree of up to 3 joints, 0-2 channels", 20, None),
    "c18_shapes4": ("every tree of up to 4 joints, 0 or 2 channels", 20, 60),
    "c18_shapes6": ("every tree of up to 6 joints, one channel", 30, 100),
    "c18_lists3": ("every channel list of up to 3 channels on any joint", 30, 60),
    "c18_lists9": ("channel lists of up to 19 channels", 40, 60),
    "c18_motion": ("up to 3 frames, any values, any frame time below 10^6 s", 20, 60),
    "c18_large": ("10 joints, deep and wide, long names", 20, 60),
    "c18_big": ("trees of 30 and 90 joints of five kinds", 30, 60),
    "c18_frames": ("8 sizes up to 300 frames or 300 channels", 30, 60),
    "c18_literals": ("22 compiled literals: 0-9 channels, all macro forms, up to 5 levels", 30, 60),
    "c18_empty": ("the empty literals", 20, 60),
    # C19
    "c19_equality": ("two animations differing in any one part by any amount", 60, 200),
    "c19_shapes": ("pairs of trees of up to 3 joints", 30, 100),
    "c19_values": ("the small value types", 20, 60),
    "c19_copy": ("copies and edits of either", 20, 60),
    "c19_large": ("two animations of 60 joints differing in one of several places", 60, 100),
}

BOUND = {k: v[0] for k, v in H.items()}
PLAN = {}
for k, v in H.items():
    p = "C" + k[1:3]
    e = PLAN.setdefault(p, {"quick": [], "thorough": []})
    if v[1]:
        e["quick"].append((k, v[1]))
    if v[2]:
        e["thorough"].append((k, v[2]))

OUTSIDE = {
    "*": "larger documents, trees, histories and texts than the bounds name",
    "C01": "longer arbitrary texts; documents with more lines out of order than stated; readers that break the contract of BufRead",
    "C09": "more than two piece boundaries at arbitrary places",
    "C13": "longer histories; animations of more than two frames and two channels in long histories",
    "C18": "what rustc makes of literals other than those compiled here (the operations behind them are covered for every small skeleton)",
}
