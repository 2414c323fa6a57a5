#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (edit here, run, commit both)."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q},
              "why_tests_cant": why, "anchors": a})
S = "src/"
R, V, A, W = S+"file/reader.rs", S+"file/visit.rs", S+"file/adder.rs", S+"walk.rs"
D, SL, DD = S+"dir.rs", S+"dir/sharded_lookup.rs", S+"dir/directory.rs"
BB, DB, IT, CP = S+"dir/builder/buffered.rs", S+"dir/builder/dir_builder.rs", S+"dir/builder/iter.rs", S+"dir/builder/custom_pb.rs"
PB, UX, MD, SY, DG = S+"pb.rs", S+"pb/unixfs.rs", S+"pb/merkledag.rs", S+"symlink.rs", S+"dagpb.rs"

p("P01", "Every emitted block is addressed by the hash of exactly its bytes",
  "Every CID handed out together with a block (leaf and link blocks of an imported file, directory blocks of a built tree) is the version 1, dag-pb (0x70), sha2-256 CID of exactly the bytes handed out with it. The CID a parent node uses to link to a node created in the same import is the very CID that was handed out with that node's block.",
  ["inputs", "configurations"], "all inputs, chunk sizes, branching factors, trees and metadata; every block emission site",
  "Tests compare a few CIDs against go-ipfs; a stale, truncated or reused buffer only shows for particular sizes and orders.",
  [A, IT], [("hashing of the rendered block", A+": render_and_hash"), ("directory rendering", IT+": render_directory / next_borrowed")],
  observe=["FileAdder::push/finish items", "TreeNode / OwnedTreeNode"])
p("P02", "A block is never emitted before the blocks it links to",
  "While importing a file, the leaf block of a chunk is handed out before any link block that refers to it, and link blocks are handed out lower levels first so that the last one is the root. While building a directory tree, a directory is handed out only after all of its subdirectories, and each directory exactly once.",
  ["inputs", "configurations"], "all inputs and all directory trees; every returned block sequence",
  "Tests look at small trees and mostly at the last block; the order across several levels is not asserted.",
  [A, IT], [("leaf before links", A+": FileAdder::push/finish"), ("work stack: the node's completion below its children", IT+": next_borrowed")])
p("P03", "Reading maps wire fields according to the UnixFS and dag-pb schemas",
  "When decoding dag-pb nodes, links and UnixFS messages, every field is taken from exactly the field number and wire type which the schema files assign to it, repeated fields keep every occurrence in order, unknown fields are skipped, and decode errors fail the decoding. The numeric node types are mapped to the types the schema names, in both directions.",
  ["inputs"], "all encoded messages, all field orders; each field of each message type",
  "The tests decode a handful of fixtures; most optional fields (fanout, hashType, mode, mtime) appear in one or none.",
  [UX, MD, S+"pb/unixfs.proto", S+"pb/merkledag.proto"], [("message decoding", UX+", "+MD+": MessageRead"), ("enum conversion", UX+": From<i32> / From<DataType>")])
p("P04", "Written messages follow the schemas and lose no present field",
  "When encoding dag-pb nodes, links and UnixFS messages, including the directory nodes of the tree builder, every field that is present is written exactly once (repeated: once per element, in order) under the field number and with the wire type the schema files assign to it. Absent optional fields are not written.",
  ["inputs", "configurations"], "all values of every message type that is written",
  "Tests cover the written bytes of few shapes; optional fields such as mode and mtime are never written in them.",
  [UX, MD, PB, CP], [("message encoding", UX+", "+MD+", "+PB+", "+CP+": MessageWrite::write_message")])
p("P05", "The size computed for a message equals the bytes written for it",
  "For every message type the library writes, the size it computes ahead of writing equals, for every value, the number of bytes the writing produces: the same fields are counted under the same conditions, with the tag, length prefix and payload of each.",
  ["inputs"], "all values of every message type that is written",
  "Length prefixes are derived from the computed size; a mismatch in a rarely present field corrupts only blocks that have it.",
  [UX, MD, PB, CP], [("size computation", UX+", "+MD+", "+PB+", "+CP+": MessageWrite::get_size")])
p("P06", "Emitted nodes are written in canonical order: links first, then data",
  "Every dag-pb node written by the library has all of its links before its data field, and each link has its hash, name and total size in this order. UnixFS fields are written in ascending field number order.",
  ["inputs"], "all nodes written by the importer, the symlink serialiser and the tree builder",
  "Readers accept any order, so round trip tests cannot see it, yet CIDs silently stop matching other implementations.",
  [UX, MD, PB, CP], [("write order", PB+", "+CP+", "+MD+", "+UX+": write_message")])
p("P07", "The library does no I/O and its results depend only on its arguments",
  "No code in the library reads or writes files, sockets, environment, clock, randomness or standard streams, spawns threads or processes, uses unsafe code, or keeps mutable global state. Nothing it returns depends on hash map iteration order.",
  ["inputs", "histories", "schedules"], "all code paths of the library",
  "A test only sees one environment and one process; nondeterminism shows across runs.",
  [S+"lib.rs"], [("slice based API", S+"lib.rs"), ("sorted maps for entries", DB)])
p("P08", "Directories with unsupported properties are rejected",
  "A plain directory block that carries a filesize, blocksizes, a hash type, a fanout or non-empty data is rejected as an unsupported directory, both when resolving a name in it and when walking over it, and a plain directory without any of these is accepted by both. The rejection reports the offending values.",
  ["inputs"], "all combinations of present and absent properties",
  "One or two combinations of the 2^5 appear in tests.",
  [DD, D, W], [("support check", DD+": check_directory_supported"), ("users", D+": resolve; "+W+": Walker::next")])
p("P09", "Sharded directories with unsupported properties are rejected everywhere",
  "A HAMT shard block is processed only if its fanout is 256, its hash type is 34 (murmur3), and it has neither filesize nor blocksizes; any other shard is rejected at all three places that read them: starting a lookup, continuing a lookup, and walking. The rejection reports the offending values.",
  ["inputs", "histories"], "all property combinations at each of the three places",
  "Tests feed only well formed shards.",
  [SL, D, W], [("support check", SL+": ShardedLookup::check_supported")])
p("P10", "Malformed file blocks are rejected before any content is returned",
  "A block read as part of a file is accepted only if its type is File or Raw, it has as many links as blocksizes, it has no hash type or fanout, it has a filesize whenever it has links, it has content or links whenever its filesize is non-zero, and its range does not exceed the addressable range. Blocks below the root are additionally rejected if they carry mode or mtime.",
  ["inputs", "histories"], "all combinations of properties, at the root and below it",
  "Only a few rejections are exercised by tests.",
  [R], [("block validation", R+": FileReader::from_parts / from_continued")])
p("P11", "The next block of a file must continue where the previous one left off",
  "While visiting a file, the next block is accepted only if its announced range continues the previous block: after a leaf it must start exactly where the leaf ended; after an intermediate node it must not start before the node's own start, and it must not reach past the node's end unless it starts after the node's own start and at or after its end. Otherwise the visit fails and no content of the block is returned.",
  ["inputs", "histories"], "all (previous, next) pairs of ranges, i.e. all orderings of their bounds",
  "Tests contain some ten numeric examples out of all orderings of four bounds.",
  [R], [("continuity check", R+": Ending::check_is_suitable_next, Traversal::continue_walk")],
  state=[("Ending", "end of the previous node or chunk", R)])
p("P12", "Resolving a name in a plain directory is exact",
  "Resolving a name over a directory (or a dag-pb node without UnixFS data) returns a link only if its name is byte-for-byte equal to the requested name, returns not-found only if no link has that name, and reports an error if two or more links have it. The target is that link's own CID, and node types other than directories are refused.",
  ["inputs"], "all blocks and names, any number and order of links",
  "Tests resolve a few names on a few fixtures.",
  [D], [("lookup", D+": resolve")])
p("P13", "Sharded name lookup matches exactly and visits every bucket",
  "In a HAMT shard, a link is the match for a name only if its own name without the two character prefix equals the requested name; links named with the prefix alone are sub-shards and all of them are queued, every other link is ignored. A second match in the same shard is an error, not-found is answered only when no queued sub-shard remains, and the queue is consumed front first, each consumed once.",
  ["inputs", "histories"], "all shards and names; all sequences of shards",
  "Tests have one fixture with few shards; duplicates and multi level shards are absent.",
  [SL], [("classification of links", SL+": partition"), ("queue", SL+": continue_walk / lookup_or_start / pending_links")],
  state=[("links", "sub-shards yet to visit", SL)])
p("P14", "Reused caches never influence results",
  "The optional cache passed to the lookup, visit and walk operations only recycles an allocation: what a cache holds from earlier operations never influences a result, so results are the same as with no cache or an empty one. Either whatever is stored into a cache is emptied first, or the contents of a cache are never interpreted.",
  ["histories"], "all sequences of operations sharing a cache",
  "Tests pass no cache or one fresh cache; leftovers of an earlier failed or abandoned operation never show.",
  [V, SL, W], [("clearing on construction", V+": From<Vec> for Cache; "+SL+": From<VecDeque> for Cache")])
p("P15", "The announced next link is the one consumed by the next step",
  "For the walker, the file visit and the sharded lookup, the first link announced as pending is the link the following step consumes as the identity and range of the block it is given, and it is consumed exactly once.",
  ["histories", "inputs"], "all walk states; all three cursors",
  "Needs multi level trees with several pending links to show; tests have few and fetch by fixed order.",
  [W, V, SL], [("announcement", W+", "+V+", "+SL+": pending_links"), ("consumption", W+": next; "+V+" and "+SL+": continue_walk")],
  state=[("next/pending", "work stack of the walker", W), ("pending", "work stack of the visit", V)])
p("P16", "Walk results describe the block they were produced from",
  "Every item a walk yields carries the CID under which its block was announced, and the metadata and path of that entry; a file's later segments carry the same CID, path, metadata and total size as its first one. A sub-shard of a sharded directory carries its own CID and the path of the directory it belongs to.",
  ["histories", "inputs"], "all node types in every position of the walk, after every other node type",
  "Tests assert paths for a few fixtures and never the CIDs or metadata of siblings after mixed predecessors.",
  [W], [("entry update", W+": InnerEntry::as_* / new_root_*"), ("item construction", W+": Walker::next")],
  state=[("current", "the entry being looked at", W)])
p("P17", "A walk visits every link of a directory in order and signals its end exactly",
  "Walking a directory or shard schedules each of its links exactly once, in block order, before any work that was pending earlier, entries of plain directories and named shard links one level deeper than the directory and sub-shards at the directory's own level. The walk reports that it should continue exactly while an entry or file block is still to be processed, and never after an error.",
  ["inputs", "histories"], "all directory shapes and sizes, including empty ones and ones in the middle of other work",
  "Tests walk four fixtures with mostly one or two entries per level.",
  [W], [("scheduling", W+": Walker::next"), ("continuation flag", W+": Walker::should_continue")])
p("P18", "Entry names from blocks cannot escape or vanish from the walked path",
  "When walking, a directory entry whose name is missing, empty, a single or double dot, or contains a slash is refused with an error instead of becoming part of a path; for shard links the same holds for the name after the two character prefix. Only sub-shard links, named by the bare two byte prefix, go without an entry name, and what they link to must itself be a shard.",
  ["inputs"], "all link names in directories and shards",
  "No test uses a hostile name.",
  [W], [("name validation", W+": convert_link / convert_sharded_link / is_valid_entry_name")])
p("P19", "File segments are flagged first and last exactly",
  "While walking, the segment of a file's root block and no other is flagged as first, and a segment is flagged as last exactly when no further block of that file remains to be visited. The segment's bytes are the bytes the visit of that block yields.",
  ["inputs", "histories"], "all file shapes, single and multi block, empty and nested",
  "Tests check one multi block file.",
  [W, V], [("segment construction", W+": FileSegment::first / later, Walker::next")])
p("P20", "Ranged file visits yield exactly the requested bytes of each block",
  "For a visit limited to a byte range, each leaf yields exactly the bytes of its content that lie inside the requested range according to the leaf's announced range (clamped to the content it has), an unlimited visit yields the content whole, and intermediate nodes yield no bytes. Of the links of an intermediate node exactly those are queued whose range overlaps or touches the requested one.",
  ["inputs"], "all ranges relative to all block ranges, i.e. all orderings of their bounds, and all content lengths",
  "One table test with eight rows; links outside of the range and short content are not in it.",
  [V], [("slicing", V+": target_slice / maybe_target_slice"), ("link selection", V+": block_is_in_target_range")])
p("P21", "File links are visited in order with contiguous ranges",
  "The links of an intermediate file node are paired with its blocksizes in order and given contiguous ranges beginning at the node's own start offset; they are visited in block order, before any link that was pending earlier. Every selected link that cannot be converted to a CID fails the visit.",
  ["inputs", "histories"], "all link and blocksize lists at every depth",
  "Tests have two multi level files with uniform sizes.",
  [PB, R, V], [("range computation", PB+": RangeLinks"), ("ordering", V+": start_from_reader / continue_walk")])
p("P22", "File size and metadata reported for a file are those of its root block",
  "The total size and the metadata reported while visiting a file are those the root block states (its filesize, or the length of its data when it has neither filesize nor links), from the first step to the last, regardless of the blocks visited in between.",
  ["histories", "inputs"], "all file trees, all steps of the visit",
  "Tests read the size on the first step only.",
  [R, V, W], [("carried state", R+": Traversal"), ("reporting", V+": file_size / as_ref; "+W+": Walker::next")])
p("P23", "Metadata survives reading and writing unchanged",
  "The mode and modification time reported for a node equal the ones its UnixFS message holds: absent stays absent, and a missing nanosecond part reads as zero. The metadata set for a directory in the tree builder is what its block states: the same mode and seconds, with the nanosecond part left out only when zero.",
  ["inputs"], "all metadata values, present and absent",
  "Fixtures hold a single mtime and mode; nothing writes metadata in the tests.",
  [S+"lib.rs", IT, BB, DB], [("conversion", S+"lib.rs: From<&UnixFs> for Metadata"), ("rendering", IT+": render_directory")])
p("P24", "The tree builder rejects malformed paths without touching the tree",
  "Adding a path that begins or ends with a slash, or contains an empty segment, fails with the error naming that flaw and leaves the tree exactly as it was, for links as well as for metadata. The single empty path is accepted.",
  ["inputs", "histories"], "all paths, on all prior trees",
  "Tests try a few malformed paths on an empty builder.",
  [BB], [("path validation", BB+": modify_with")])
p("P25", "The tree builder never overwrites an entry and never mixes files and directories",
  "Adding a link under a name that exists in its directory fails and keeps the existing entry; using an existing link as a directory, for a path below it or for its metadata, fails and keeps the link. Without the wrapping option, a second different name at the top level fails; with it, any number is accepted.",
  ["histories", "inputs"], "all sequences of additions",
  "Tests cover a few two step sequences.",
  [BB, DB], [("entry insertion", BB+": modify_with; "+DB+": put_leaf / add_or_get_node")],
  state=[("nodes", "entries of a directory, sorted by name", DB)])
p("P26", "A built directory lists each of its entries once, sorted, with its own target",
  "A directory's block contains one link per entry put into it, in byte order of the names, each with the entry's own name, target CID and cumulative size; for a subdirectory these are the CID and total size with which the subdirectory itself was handed out. The total size of a directory is its block length plus the sum of its links' total sizes, and its type is Directory.",
  ["inputs", "histories"], "all trees with files and directories mixed at every level",
  "Tests compare the root CID for a few trees.",
  [IT, DB, CP], [("link list", IT+": partition_children_leaves, next_borrowed"), ("rendering", IT+": render_directory")],
  state=[("persisted_cids", "link lists awaiting subdirectories", IT)])
p("P27", "The directory block size limit is enforced before a block is emitted",
  "If a block size limit is configured, a directory whose serialised size is larger than the limit is refused with the actual size and no block is handed out for it or for any directory above it; sizes up to and including the limit are emitted. Without a limit no directory is refused for its size.",
  ["inputs", "configurations"], "all limits and directory sizes",
  "Tests set one limit.",
  [IT], [("limit check", IT+": render_directory"), ("ending the iteration", IT+": next_borrowed")])
p("P28", "The importer accounts for every input byte exactly once",
  "Each push reports as consumed exactly the prefix of the input that it took over (at least one byte of a non-empty input), which ends either up in the buffer or in the leaf block returned; a leaf holds the buffered bytes followed by the consumed ones and is produced exactly when they reach the chunk size, and finishing emits what is buffered. The buffer is emptied only after its content went into a leaf.",
  ["inputs", "histories", "configurations"], "all sequences of pushes with all input sizes and all chunk sizes",
  "Tests use a few push sizes around a few chunk sizes.",
  [A], [("chunking", A+": Chunker::accept"), ("buffering", A+": FileAdder::push / finish / flush_buffered_leaf")],
  state=[("block_buffer", "bytes not yet in a leaf", A), ("unflushed_links", "links not yet in a link block", A)])
p("P29", "Importer node sizes add up",
  "A leaf states the length of its content as filesize; a link block has one link and one blocksize per child in the same order, states the sum of the children's file sizes as its filesize, and links to each child with the child's total size, which is the length of the child's block plus, for link blocks, the total sizes of its own children. Leaves and link blocks have type File.",
  ["inputs", "configurations"], "all inputs and branching factors, at every level of the tree",
  "Tests compare the root CIDs of a few sizes; deep unbalanced tails are not covered.",
  [A], [("leaf creation", A+": flush_buffered_leaf"), ("link block creation", A+": BalancedCollector::flush_links / partition_link")])
p("P30", "Symlink blocks carry the target verbatim and read back as symlinks",
  "Serialising a symlink appends a node without links, of type Symlink, whose data is exactly the bytes of the given target path and nothing else. Walking over a symlink block yields exactly the bytes of its data, empty if it has none.",
  ["inputs"], "all target paths, all symlink blocks",
  "One target path in the tests.",
  [SY, W], [("serialisation", SY+": serialize_symlink_block"), ("walking", W+": Walker::next")])
p("P31", "Failures are reported, as the matching error",
  "No failure of parsing, validation or link conversion is swallowed: it surfaces as the error kind that names it, with the original cause, through every layer it passes (file reading into walking, lookup into resolving). Link conversion failures carry the link's own index, hash and name.",
  ["inputs"], "all failure sites and all layers above them",
  "Tests provoke few of the failures, mostly unwrapping only successes.",
  [D, SL, W, V, S+"file.rs", S+"lib.rs", PB], [("error conversions", "impl From<..> for FileReadFailed, walk::Error, LookupError, ResolveError, InvalidCidInLink, MultipleMatchingLinks"), ("propagation", D+", "+SL+", "+W+", "+V)])
p("P32", "The dag-pb data view is exactly the node's data field",
  "Extracting or wrapping the data of a dag-pb block yields exactly the data field of the node as a subslice of the block, and an empty slice or nothing if the field is absent; the wrapper gives back the original block unchanged and compares equal to a byte string exactly when the data does.",
  ["inputs"], "all blocks, including data at either end of the block and empty data",
  "One fixture.",
  [DG], [("range computation", DG+": subslice_to_range, wrap_node_data")])
p("P33", "Untrusted blocks and cursors never make the reading operations panic",
  "Starting a file visit, resolving a name, converting links and walking a block never reach an explicit panic, a failing unwrap or expect, an out of bounds slice or index, or an arithmetic overflow of their own because of what the block contains. (Calling a cursor again after it reported an error or its end is outside of this.)",
  ["inputs", "histories"], "all block contents at every step of the reading operations",
  "Fixtures are well formed.",
  [R, V, W, D, SL, DG, PB], [("checked arithmetic and total matches", R+", "+V+", "+W+", "+D+", "+SL+", "+DG+", "+PB)])
p("P34", "The importer's content survives its own reader byte for byte",
  "For every input, chunking and branching factor, reading the blocks of an import in visiting order yields the original bytes, the original length and no error.",
  ["inputs", "configurations", "histories"], "all inputs and settings, end to end",
  "Tests round trip a few inputs.",
  [A, R, V], [("import", A), ("visit", R+", "+V)])
p("P35", "The balanced layout has minimal depth and full nodes",
  "For every input length, every link block except the last of each level has exactly the branching factor of children, all leaves are at the same depth, and the depth is minimal; the resulting tree equals the one go-ipfs builds.",
  ["inputs", "configurations"], "all numbers of chunks and branching factors",
  "Tests cover some counts and compare a few CIDs.",
  [A], [("collector", A+": BalancedCollector::flush_links")])
p("P36", "A built tree walks back to the same paths and targets",
  "Walking the blocks a tree builder emitted yields every path put into the builder once, with its target, and no other.",
  ["inputs", "histories"], "all sequences of additions, end to end",
  "No test combines them for arbitrary trees.",
  [BB, IT, W], [("build", BB+", "+IT), ("walk", W)])
p("P37", "Imports and walks finish and take bounded memory",
  "Every importer, builder, visit and walk finishes after finitely many steps and uses memory proportional to the links pending.",
  ["inputs", "histories"], "all inputs",
  "Bounds over all inputs cannot be sampled.",
  [A, V, W, IT], [("loops over shrinking work", A+", "+V+", "+W+", "+IT)])
p("P38", "Link blocks gather the pending blocks in order, level by level",
  "While importing a file, a link block is made only from pending blocks of one level, takes them in the order in which they were produced without leaving any out or taking any twice, and becomes a pending block one level higher at their place. While input is still being pushed every link block has exactly the branching factor of links; when finishing, one may have fewer only if it takes the last pending block of its level. Pending blocks that no link block has taken stay pending, in their order.",
  ["inputs", "configurations", "histories"], "all numbers of pending blocks on all levels, all branching factors, every step of the gathering",
  "Tests import a few sizes with one or two factors; leaving out, repeating or misplacing a link shows only for particular counts on several levels at once.",
  [A], [("gathering into link blocks", A+": BalancedCollector::flush_links / flush_level"), ("pending links", A+": FileAdder::unflushed_links")])
p("P39", "Options take effect as set and have the documented defaults",
  "Without options the chunker produces chunks of 256 KiB, the collector uses a branching factor of 174, directory blocks are limited to 512 KiB, trees are not wrapped, and file visits are not limited to a range. Every option that is set is the one in effect afterwards, and setting it changes no other option. The size hint of an importer is its chunk size.",
  ["configurations"], "all option values in all orders of setting them",
  "Tests use a few settings and compare only what comes out of an import or a build; that an option survives the setting of another one is not tested.",
  [A, BB, V], [("importer options", A+": FileAdderBuilder, Chunker, BalancedCollector"), ("tree options", S+"dir/builder.rs: TreeOptions"), ("visit options", V+": IdleFileVisit")])
p("P40", "Going over a built tree by value yields copies of the borrowed nodes",
  "Iterating over a built tree by value takes the same steps as iterating by reference and yields, for each node or error handed out there, the same path, CID, total size and block bytes, or the same error. Converting a borrowed node into an owned one changes none of its parts. Nothing is left out or added.",
  ["inputs", "histories"], "all trees, every step",
  "Tests use either form on a few trees and compare only some parts of the nodes.",
  [IT], [("owned copies", IT+": TreeNode::into_owned, Iterator for PostOrderIterator")])
p("P41", "Each built directory is handed out under its own full path",
  "A directory of a built tree is handed out with the names of the directories on the way to it, from the top of the tree, and its own name, separated by slashes; the wrapping root directory is handed out with the empty path. The path is right whatever directory was handed out before, in particular after leaving several levels at once and when names repeat or are suffixes of each other.",
  ["inputs", "histories"], "all trees; every pair of consecutive steps between directories",
  "Tests check paths on a handful of trees; the path is updated in place from the previous one, so mistakes show only for particular neighbours.",
  [IT], [("path updated in place", IT+": update_full_path, next_borrowed")])
p("P42", "Links announced for prefetching are the remaining ones, in order of need",
  "The links that the walker, the file visit and the sharded lookup announce besides the next one are exactly the other links still pending, each once, in the order in which the following steps will ask for them. A walk inside a file announces the file's remaining blocks before the entries that come after the file.",
  ["inputs", "histories"], "all states of all three cursors",
  "Tests look at the announced next link only; the rest is merely a hint for prefetching, so that a wrong order, a missing link or a link announced twice goes unnoticed.",
  [W, V, SL], [("announcement", W+", "+V+", "+SL+": pending_links")])
p("P43", "Errors name the parse error they come from as their source",
  "An error of reading a file, resolving a name or continuing a lookup that was caused by a block or message that could not be parsed has exactly the parser's error as its source, also where one of these errors wraps another. An error about a link's CID has the CID's error as its source, and an error about missing data has none.",
  ["inputs"], "all values of the error types for reading, resolving and looking up",
  "Tests match on a few error variants and never ask an error for its source, so that a lost or swapped cause goes unnoticed.",
  [S+"file.rs", D, SL, S+"lib.rs"], [("sources", S+"file.rs, "+D+", "+SL+", "+S+"lib.rs: Error::source")])
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
if __name__ == "__main__":
    import re
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        n = len(re.findall(r"[.](?:\s|$)", x["statement"]))
        assert n <= 3, (x["id"], n)
    print(len(P))
