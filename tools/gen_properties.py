#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Loading is total: any input gives a value or an error, never a crash",
 "Loading an animation from any sequence of bytes returns either an animation or an error. It never panics, never overflows, never runs forever, and never lets a number written in the file make it abort or reserve memory out of proportion to the bytes actually supplied.",
 ["inputs"], "every byte sequence given to any of the loading entry points: well formed, damaged, truncated, reordered, hostile",
 "Tests load a handful of good files and a few bad ones; a crash needs one particular misplaced keyword, missing token or extreme number, and the space of those is unbounded.",
 ["src/parse.rs", "src/lib.rs"],
 [("hierarchy line loop", "src/parse.rs read_joints"), ("motion section parsing", "src/parse.rs read_motion"), ("line source", "src/lib.rs from_reader, EnumeratedLines")],
 [("curr_depth", "open braces so far", "src/parse.rs"), ("next_expected_line", "what the hierarchy may contain next", "src/parse.rs")],
 ["from_bytes", "from_str", "from_reader", "TryFrom impls"])

prop("C02", "A loaded skeleton is exactly the one written in the file",
 "For every well-formed file the loaded joints are exactly the joints of the file, in file order, each with the name, offset, channel list and end site written for it and with the enclosing joint as its parent. No joint, channel or end site is lost, duplicated, invented or attached to another joint.",
 ["inputs"], "every well-formed hierarchy: any tree shape, names, offsets, channel lists (in any order and number), joints with or without end sites",
 "Tests check two or three fixed skeletons; misattribution shows only for particular shapes (closing several levels, siblings after leaves, leaves without an end site, long names or channel lists).",
 ["src/parse.rs", "src/joint.rs", "src/lib.rs"],
 [("hierarchy line loop", "src/parse.rs read_joints"), ("parent lookup", "src/parse.rs get_parent_index"), ("joint fields", "src/joint.rs JointData::set_*")],
 [("joints", "joints in file order", "src/lib.rs Bvh"), ("parent_index/depth", "position in the tree", "src/joint.rs JointPrivateData")],
 ["Bvh::joints", "Joint::{name,offset,channels,end_site,parent_index,is_root}"])

prop("C03", "Loaded motion data is exactly what the file's motion section says",
 "For every well-formed file whose skeleton has at least one channel, the loaded animation has the declared number of frames and the declared frame time, and the value of channel j in frame i is the number written j-th in the i-th frame of the file. A file whose motion values do not number frames times channels is rejected.",
 ["inputs"], "every well-formed motion section: any frame and channel counts, any finite values, any declared frame time representable as a duration, and every miscounted one",
 "Tests compare a few fixed frames; row/column mix-ups, off-by-one counts and dropped or extra values depend on the shape and on the values.",
 ["src/parse.rs", "src/lib.rs", "src/frame_iter.rs"],
 [("motion parsing", "src/parse.rs read_motion"), ("frame views", "src/lib.rs Bvh::frames")],
 [("motion_values", "row-major frame matrix", "src/lib.rs Bvh"), ("frame_time", "duration of a frame", "src/lib.rs Bvh")],
 ["Bvh::frames", "Bvh::frame_time", "Bvh::num_channels"])

prop("C04", "Channels and frame values match one-to-one in anything that loads",
 "In every animation that loading accepts, the channels of all joints, taken in joint order, refer to the frame positions 0, 1, 2, ... up to the total channel count, each exactly once, and every frame has exactly that many values. Hence each frame value belongs to exactly one joint channel and can be looked up through it without failing.",
 ["inputs"], "every input that loading accepts, including malformed or unusual ones",
 "The invariant must survive every accepted oddity (repeated channel lists, channel lists in odd places, joints without any), which the tests do not enumerate.",
 ["src/parse.rs", "src/lib.rs", "src/frame_iter.rs"],
 [("channel numbering", "src/parse.rs CHANNELS arm"), ("count check", "src/parse.rs read_motion"), ("lookup by channel", "src/frame_iter.rs FrameIndex")],
 [("num_channels", "values per frame", "src/lib.rs Bvh"), ("motion_index", "position of a channel in a frame", "src/lib.rs Channel")],
 ["Joint::channels", "Channel::motion_index", "Frame indexing", "Bvh::num_channels"])

prop("C05", "Anything that loads is one tree in parent-before-child order",
 "In every animation that loading accepts there is at least one joint, the first joint is the only root and has no parent, every other joint has a parent that comes before it, and the joints of each subtree are listed contiguously. Every joint knows its own position in the list.",
 ["inputs"], "every input that loading accepts, including malformed or unusual ones",
 "Tests only load regular skeletons; a dangling or cyclic parent needs an irregular hierarchy that is nevertheless accepted.",
 ["src/parse.rs", "src/joint.rs"],
 [("hierarchy line loop", "src/parse.rs read_joints"), ("parent lookup", "src/parse.rs get_parent_index")],
 [("parent_index/self_index/depth", "position in the tree", "src/joint.rs JointPrivateData")],
 ["Bvh::joints", "Bvh::root_joint", "Joint::{index,parent_index,parent,is_root,is_child}"])

prop("C06", "Writing an animation and loading it back gives the same animation",
 "For every animation with at least one joint that has been loaded, edited or built, with finite numbers and joint names without blanks, writing it with the default precision and loading the text again gives an animation equal to the original: same joints and tree, same offsets, channels, end sites, frame time and motion values. Writing never fails or crashes on such an animation.",
 ["inputs", "histories"], "every skeleton shape, name, offset, channel list, end site, frame time and motion matrix, including those made by editing frames",
 "The tests round-trip one skeleton shape; brace and depth bookkeeping fails only for particular tree shapes, and precision loss only for particular values.",
 ["src/write.rs", "src/parse.rs", "src/joint.rs"],
 [("chunk state machine", "src/write.rs next_chunk"), ("hierarchy line loop", "src/parse.rs read_joints")],
 [("iterator state", "where in the file the writer is", "src/write.rs WriteOptionsIterState")],
 ["Bvh::to_string", "Bvh::write_to", "from_bytes"])

prop("C07", "Write options change only the formatting they name",
 "Whatever the options, the written text has the same tokens apart from numeric precision: the indentation option decides exactly the leading whitespace (nesting depth times the unit), the line terminator option exactly the line ends, and each precision option exactly the digits after the point of its own kind of number. Loading the text therefore gives the same skeleton and frame count for every combination of options, and equal values wherever no precision was requested.",
 ["configurations", "inputs"], "every combination of indentation, line terminator and per-field precision (precisions up to 65535 digits, the limit of the language's own formatting; indentation that fits in memory), for every animation",
 "Tests write with one or two option sets; a mixed-up field or a wrong depth shows only for particular combinations and tree shapes.",
 ["src/write.rs"],
 [("chunk state machine", "src/write.rs next_chunk"), ("indent prefix", "src/write.rs IndentStyle::prefix_chars"), ("option setters", "src/write.rs WriteOptions::with_*")],
 [("WriteOptions fields", "requested formatting", "src/write.rs")],
 ["WriteOptions::write", "WriteOptions::write_to_string"])

prop("C08", "Writing to a sink delivers all bytes or reports the failure",
 "When writing an animation to an output sink reports success, the sink has received exactly the bytes that writing to memory produces, in order, and has been flushed, even when the sink accepts only part of each request or asks for a retry (an interrupted request), which are not failures. When the sink fails, stops accepting bytes or fails to flush, writing reports that failure instead of success.",
 ["fault_sequences"], "every sequence of short writes, interruptions, zero-length writes, errors and flush results of the sink",
 "Tests write to a perfect in-memory sink only.",
 ["src/write.rs", "src/lib.rs"],
 [("write loop", "src/write.rs WriteOptions::write"), ("flush", "src/write.rs WriteOptions::write")],
 [("sink", "bytes accepted so far", "caller")],
 ["Bvh::write_to", "WriteOptions::write"])

prop("C09", "Loading does not depend on how bytes arrive; read failures are reported",
 "Loading from a reader gives the same result as loading the same bytes from memory or from a string, however the reader splits the bytes into pieces and however often it asks for a retry. If the reader fails at any point before the document is complete, loading reports that failure and never returns an animation.",
 ["fault_sequences", "schedules", "inputs"], "every way of splitting the input into buffers, every point at which the reader fails or is interrupted, every loading entry point",
 "Tests load from one contiguous buffer that never fails.",
 ["src/lib.rs", "src/parse.rs"],
 [("line source", "src/lib.rs Bvh::from_reader"), ("error propagation", "src/parse.rs, src/lib.rs next_non_empty_line"), ("entry points", "src/lib.rs from_bytes, from_str, TryFrom")],
 [("reader", "position in the byte stream", "caller")],
 ["from_reader", "from_bytes", "from_str", "TryFrom impls", "LoadError"])

prop("C10", "Layout of a file does not affect what is loaded",
 "Two files that differ only in indentation, the amount or kind of blank space between words, blank lines between lines, trailing blank space, or line endings load to equal animations. The file need not be UTF-8: bytes in joint names are kept as they are.",
 ["inputs"], "every placement of extra blanks, tabs, blank lines, carriage returns and a missing final newline, for every well-formed file",
 "Tests use one layout per file.",
 ["src/parse.rs", "src/lib.rs"],
 [("trimming and token splitting", "src/parse.rs"), ("blank line skipping", "src/lib.rs next_non_empty_line")],
 (), ["from_bytes", "Bvh equality"])

prop("C11", "Inserting frames behaves like inserting rows into a list",
 "Inserting a frame at a position yields exactly the previous frames before that position, then the new frame unchanged, then the remaining previous frames, and leaves the position just after the inserted frame; inserting several frames is the same as inserting them one after another. A frame of the wrong length is refused with an error and changes nothing.",
 ["inputs", "histories"], "every animation, position, channel count, inserted frames and their number, including empty animations and ones without channels",
 "Tests insert a few frames at the ends; which values get misplaced depends on the position and on the sizes of the tail and of the inserted frame.",
 ["src/frame_cursor.rs", "src/lib.rs"],
 [("insertion", "src/frame_cursor.rs try_insert_frame, try_insert_frames"), ("slice insertion", "src/frame_cursor.rs vec_insert_slice")],
 [("index", "cursor position", "src/frame_cursor.rs FrameCursor"), ("motion_values", "row-major frame matrix", "src/lib.rs Bvh")],
 ["FrameCursor::try_insert_frame(s)", "Bvh::frames"])

prop("C12", "Removing frames removes exactly the frames asked for",
 "Removing at a position that holds a frame deletes exactly that frame and keeps all others in order; removing where there is no frame reports an error and changes nothing. Removing all frames, or taking them out, leaves zero frames and an otherwise unchanged animation that can be edited further.",
 ["inputs", "histories"], "every animation, position and channel count, including the position after the last frame and animations without channels",
 "Tests remove from one fixed position; the boundary position and later edits after clearing are not covered.",
 ["src/frame_cursor.rs", "src/lib.rs"],
 [("removal", "src/frame_cursor.rs remove_frame, remove_all_frames"), ("extraction", "src/lib.rs extract_frames")],
 [("index", "cursor position", "src/frame_cursor.rs FrameCursor")],
 ["FrameCursor::remove_frame", "FrameCursor::remove_all_frames", "Bvh::extract_frames", "Bvh::frames"])

prop("C13", "A frame cursor behaves like a position in a list over any edit history",
 "After any sequence of moves, insertions, removals and clears, the cursor position stays between zero and the number of frames, the frames equal those of a plain list given the same edits, and looking forward or back shows exactly the frames on either side of the position. No such sequence crashes, and edits made through a view change only the viewed value.",
 ["histories"], "every sequence of cursor operations on every animation",
 "A broken state needs a particular operation after a particular other one (for example an insertion after a clear); tests run single fixed sequences.",
 ["src/frame_cursor.rs", "src/frame_iter.rs", "src/lib.rs"],
 [("moves and peeks", "src/frame_cursor.rs"), ("edits", "src/frame_cursor.rs")],
 [("index", "cursor position", "src/frame_cursor.rs FrameCursor")],
 ["FrameCursor API", "Bvh::frames"])

prop("C14", "Frame views agree with each other and touch only what they address",
 "Every way of reaching a frame value (iterating forwards or backwards, by position, by range, by joint channel, through a read-only or a mutable view) gives the same value for the same frame and channel, reported lengths are the number of items still to come, and an out-of-range position yields nothing or an error. Setting a value returns the old one, changes exactly that value and nothing else.",
 ["inputs", "histories"], "every motion matrix (including no channels), every index, range and channel, every interleaving of forward and backward iteration, every written value",
 "Tests look up a few in-range values.",
 ["src/frame_iter.rs", "src/lib.rs"],
 [("iterators", "src/frame_iter.rs Frames, FramesMut"), ("indexing", "src/frame_iter.rs FrameIndex, get, Index"), ("update", "src/frame_iter.rs try_set_motion")],
 [("chunks", "remaining frames", "src/frame_iter.rs")],
 ["Frames", "FramesMut", "Frame", "FrameMut"])

prop("C15", "Channel type names: exact two-way mapping, nothing else accepted",
 "The six channel types and their six names correspond one-to-one, and every other byte string, however similar, is refused with an error that hands back the refused bytes. The reported axis and the position/rotation kind of a channel type agree with its name, and the unit vector of an axis points along it.",
 ["inputs"], "every byte string and every channel type",
 "Tests check single strings; near misses (case, length, one changed byte) are unbounded.",
 ["src/lib.rs", "src/errors.rs"],
 [("name table", "src/lib.rs ChannelType::from_bytes, as_str"), ("classification", "src/lib.rs ChannelType::{axis,is_rotation,is_position}")],
 (), ["ChannelType::from_bytes", "TryFrom/FromStr for ChannelType", "ChannelType::{as_str,axis,is_rotation,is_position}", "Axis::vector"])

prop("C16", "A damaged file is rejected with an error naming the fault and its line",
 "A file that is well formed except for one damaged element is rejected, where the damage is a missing HIERARCHY, ROOT, MOTION, Frames or Frame Time line, a missing joint name, a missing or unparsable number, an unknown channel name, a joint, end site, offset, channel list or brace where the hierarchy cannot have one, or a total number of motion values other than frames times channels. The error identifies the kind of fault and, where it concerns a line, the zero-based number of that line, axis or value. Every error can be displayed as text without failing.",
 ["inputs"], "every single fault at every place of every well-formed file",
 "Tests cover at most one instance of a few faults; line numbers and fault kinds vary with where and how the file is damaged.",
 ["src/parse.rs", "src/errors.rs", "src/lib.rs"],
 [("error construction", "src/parse.rs"), ("line numbering", "src/lib.rs CachedEnumerate"), ("error text", "src/errors.rs Display impls")],
 [("line_num", "line being parsed", "src/parse.rs")],
 ["LoadError::{line,kind}", "Display of errors"])

prop("C17", "Moving between joints follows the tree of the file",
 "For every joint, its parent is the joint that encloses it, its children are exactly the joints whose parent it is, in file order, and the root is the first joint. Iterating over the joints, for reading or for changing, visits each exactly once in file order, and looking a joint up by name finds the first remaining joint with that name or nothing.",
 ["inputs"], "every tree shape, joint and name, including leaves, names that occur twice and names that do not occur",
 "Tests walk a chain or two; leaves, several children and duplicate names are not covered.",
 ["src/joint.rs", "src/lib.rs"],
 [("iteration", "src/joint.rs Joints, JointsMut"), ("parent/children", "src/joint.rs Joint::parent, children"), ("lookup", "src/joint.rs find_by_name")],
 [("parent_index", "enclosing joint", "src/joint.rs JointPrivateData")],
 ["Bvh::{joints,joints_mut,root_joint}", "Joint::{parent,children,index}", "Joints::find_by_name"])

prop("C18", "A skeleton written in source code equals the same skeleton loaded as text",
 "For every skeleton, building it with the operations behind the in-source literal gives the same joints, tree, offsets, end sites, channels and channel numbering as loading the corresponding file text, and the two animations compare equal once given the same frames and frame time.",
 ["inputs", "histories"], "every skeleton shape, channel list, offset and end site, as a sequence of literal-building operations",
 "Tests compare two or three literals; parent links and channel numbers depend on the shape.",
 ["src/macros.rs", "src/parse.rs", "src/joint.rs"],
 [("literal builder", "src/macros.rs BvhLiteralBuilder"), ("hierarchy line loop", "src/parse.rs read_joints")],
 [("current_depth/current_index/current_channel_index", "builder position", "src/macros.rs")],
 ["bvh! expansion target", "from_bytes", "Bvh equality"])

prop("C19", "Equality and copies are faithful and independent",
 "Two animations are equal exactly when their joints (names, tree, offsets, channels, end sites), frame times, channel counts and motion values are equal. A copy of an animation equals it, and changing the copy never changes the original.",
 ["inputs", "histories"], "every pair of animations and every edit of a copy (motion values other than not-a-number)",
 "Tests compare a few fixed pairs; an ignored field shows only when two animations differ in that field alone.",
 ["src/lib.rs", "src/joint.rs"],
 [("equality", "src/lib.rs Bvh PartialEq; src/joint.rs JointData, JointName, JointPrivateData PartialEq"), ("copying", "src/lib.rs Bvh Clone")],
 (), ["Bvh ==", "Bvh::clone", "Joint =="])

prop("C20", "In-source literal syntax accepts and means the same as the file syntax",
 "Every animation that can be written as a file (with identifier names and up to nine channels per joint) can also be written as an in-source literal, which compiles and denotes the same animation.",
 ["programs"], "every literal program within the documented syntax",
 "Each literal is a separate program for the compiler; tests compile a few.",
 ["src/macros.rs"],
 [("literal macro arms", "src/macros.rs bvh!, parse_joints_internal!, match_channels!")],
 (), ["compilation and value of the literal"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
