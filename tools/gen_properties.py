#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m) for n, m in state],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every byte range of every packed file reads back exactly as packed",
 "For every regular file of a valid image, reading any byte range, in pieces of any size and in any order, through a descriptor or through the file's inode, returns exactly the packed bytes (unallocated ranges read as zeros) and returns fewer bytes than asked only where the file ends. "
 "This holds for every block size, for stored and compressed data and metadata blocks, for tail fragments and shared fragments, for files sharing data, sparse files, files of thousands of blocks and files beyond 4 GiB.",
 ["inputs", "configurations"], "all valid images x all (offset, length) ranges x all splittings into reads",
 "The tests read two small single-fragment files of one fixture image from a handful of offsets; no multi-block file, hole, stored block, indexed large file or other block size is ever read.",
 ["src/file.c", "src/fs.c", "src/cache.c", "src/decompress.c", "src/table.c", "src/fd.c"],
 [("sqfs_read_range block/fragment/hole walk", "src/file.c"), ("block list and block-index fast forward", "src/file.c sqfs_blockidx_*"),
  ("metadata cursor across blocks", "src/fs.c sqfs_md_read"), ("fragment table", "src/table.c, src/file.c sqfs_frag_block")],
 [("data/fragment/metadata/block-index caches", "last blocks read, keyed by image position")], ["squash_read", "sqfs_read_range"])

prop("C02", "A descriptor's position follows POSIX read and seek rules in every history",
 "Every open descriptor of a regular file starts at position 0 and has its own position, which advances by exactly the number of bytes each successful read returns and which nothing done on other descriptors changes; reads at or beyond the end of the file, and reads of zero bytes, return 0. "
 "Seeking from the start, from the current position or from the end of the file (end plus the given offset) sets and returns the resulting position, including positions beyond the end and beyond 4 GiB. "
 "A seek to a negative position or with an unknown origin fails with EINVAL, and no failed read or seek moves the position.",
 ["histories", "inputs"], "all sequences of open/read/seek/close on any number of descriptors, all offsets, origins and counts",
 "The tests perform one fixed sequence of about ten reads and seeks on two descriptors, none of them invalid, at end-relative offsets other than 0, or beyond the end.",
 ["src/fd.c", "src/file.c"], [("per-descriptor position", "src/fd.c squash_read, squash_lseek"), ("end of file handling", "src/file.c sqfs_read_range")],
 [("position of each open descriptor", "next byte to be read")], ["squash_open", "squash_read", "squash_lseek"])

prop("C03", "Directory streams yield each entry exactly once, and resume where told",
 "Reading a directory from the start yields every entry packed in it exactly once, in stored order, with its right name, type and inode number, then reports the end (repeatedly), for directories of any size and name lengths up to the maximum. "
 "After any mix of reads, position reports, seeks to a reported position and rewinds on any number of simultaneously open streams, each stream's next entry is the one at its own position. "
 "Low-level iteration restarted at any entry offset it reported continues with exactly the remaining entries, and an offset that is not an entry boundary is refused.",
 ["inputs", "histories"], "all directories x all sequences of read/tell/seek/rewind over any number of streams",
 "The tests list directories of at most four short names and try a single rewind and a single seek; no directory with several headers, several metadata blocks or an index is read.",
 ["src/dirent.c", "src/dir.c"], [("dir header/entry iteration", "src/dir.c sqfs_dir_next"), ("fast forward", "src/dir.c sqfs_dir_ff_*"), ("entry array of a stream", "src/dirent.c squash_readdir")],
 [("entries read so far and location of each stream", "position protocol of telldir/seekdir")], ["squash_readdir", "sqfs_dir_next", "sqfs_dir_open"])

prop("C04", "A directory scan returns exactly the accepted entries, sorted, caller-owned",
 "Scanning a directory returns exactly the entries the filter accepts (all of them without a filter), however many there are, each once with its right name, type and inode number, ordered by the given comparison or else in directory order, and returns their number. "
 "The array and each entry are separate allocations that the caller can free exactly once, that no later library call changes or frees, and that exist even when the count is 0; scanning a missing path or a non-directory returns -1.",
 ["inputs"], "all directories x all filters x all comparison functions",
 "The tests scan two directories with at most four entries; nothing checks big or empty results, freeing under a memory checker, or entries surviving later calls.",
 ["src/scandir.c", "src/dirent.c"], [("collect, copy, sort", "src/scandir.c squash_scandir")], [], ["squash_scandir"])

prop("C05", "Path lookup finds exactly the packed objects, however the path is spelled",
 "Looking up a path succeeds if and only if an object is packed at that path, and then yields that very object: prefixes, extensions and near misses of packed names, and paths that descend through a non-directory, are not found. "
 "A missing leading slash, repeated slashes, '.' components and '..' components after an existing directory never change the answer, at any depth, and '..' never leads out of the image. "
 "This holds for every directory size and name, including indexed directories and names of the maximum length.",
 ["inputs"], "all images x all path strings",
 "The tests look up about ten fixed paths in one image whose directories have at most four entries and no index.",
 ["src/dir.c"], [("component walk", "src/dir.c sqfs_lookup_path_inner"), ("ordered search with index fast-forward", "src/dir.c sqfs_dir_lookup, sqfs_dir_ff_name_f"), ("dot-dot folding", "src/dir.c clear_dot_dot")],
 [], ["sqfs_lookup_path", "squash_stat", "squash_lstat", "squash_open", "squash_opendir"])

prop("C06", "Symbolic links resolve to what they name, and resolution always terminates",
 "Calls that follow links reach the object the link names, for final and intermediate links alike: relative targets are taken from the directory that really contains the link, absolute targets from the image root, and absolute targets under a registered mount prefix have that prefix removed first; chains of up to 32 links resolve. "
 "Cycles of any shape fail with ELOOP and dangling links with ENOENT, without hanging, crashing or unbounded stack use. "
 "Calls that do not follow links report the final link itself, and reading a link returns its target (mount prefix removed) or ENAMETOOLONG if it does not fit the buffer, never writing past it.",
 ["inputs"], "all images x all link graphs x all paths",
 "The tests follow four short relative links and one three-link cycle made of final components; no cycle through a directory, no absolute link, no long target, no link inside a linked directory.",
 ["src/dir.c", "src/readlink.c"], [("link following", "src/dir.c squash_follow_link, sqfs_lookup_path_inner"), ("prefix stripping and size check", "src/readlink.c squash_readlink_inode")],
 [("registered mount prefixes", "prefix -> image root")], ["squash_stat", "squash_lstat", "squash_open", "squash_readlink"])

prop("C07", "Reported metadata is what was packed, and all interfaces agree on it",
 "For every object, stat, lstat and fstat report the packed type and permission bits, link count, modification time, size (byte length of files, target length of links) and device number, and agree with each other and with the type and inode number in the directory listing. "
 "Looking an object up by inode number through the export table yields the same object, an image without that table says so, and owner and group ids resolve to the packed values, for basic and extended objects and tables of any size.",
 ["inputs"], "all images x all objects",
 "The tests check little beyond the file type of five objects of one image, none of them a device, pipe, socket or extended object, and no id or export lookup.",
 ["src/stat.c", "src/private.c", "src/fs.c", "src/table.c", "src/nonstd-makedev.c", "src/nonstd-stat.c"],
 [("inode decoding", "src/fs.c sqfs_inode_get"), ("stat translation", "src/private.c sqfs_stat"), ("id and export tables", "src/fs.c, src/table.c")],
 [], ["squash_stat", "squash_lstat", "squash_fstat", "sqfs_export_inode", "sqfs_id_get"])

prop("C08", "Recursive traversal visits the whole tree once, in order, properly nested",
 "A traversal from any directory reports every object below it exactly once, in pre-order and stored order, with its right path relative to the start, and reports the end of each directory exactly once, after everything in it, with that directory's path; then it reports that it is finished, repeatedly. "
 "Pruning after an entry skips exactly that directory's contents and nothing else, and a traversal can be closed at any point.",
 ["inputs", "histories"], "all trees x all start directories x all prune and close points",
 "No test uses the traversal at all.",
 ["src/traverse.c", "src/stack.c", "src/dir.c"], [("state machine", "src/traverse.c sqfs_traverse_next"), ("path building", "src/traverse.c sqfs_traverse_path_*"), ("level stack", "src/stack.c")],
 [("stack of open directories and current path", "position in the tree")], ["sqfs_traverse_next", "sqfs_traverse_prune", "sqfs_traverse_close"])

prop("C09", "Virtual descriptors are valid exactly while open and never clash with real ones",
 "A descriptor number returned by open or by opening a directory is recognised as virtual until it is closed and never afterwards (until issued again), and never equals another descriptor open in the process, real or virtual. "
 "Reading, seeking, closing or querying any other number (never issued, already closed, negative, huge, or a real descriptor) fails with EBADF and leaves real descriptors untouched; a directory stream is recognised exactly while it is open. "
 "This holds across any number of open descriptors and any order of opens and closes, whichever real descriptors (the standard ones included) are closed meanwhile, and up to and including exit handlers that run after the library has shut down.",
 ["histories"], "all interleavings of virtual and real opens, closes, dups and uses",
 "The tests open four descriptors and close two; the table never grows past its first size and no number is reused.",
 ["src/fd.c", "src/dirent.c", "src/stat.c"], [("descriptor table with growth", "src/fd.c squash_open_inner, squash_close"), ("number reservation by dup", "src/fd.c"), ("lookup by stream", "src/fd.c squash_find_entry")],
 [("global descriptor table", "number -> open virtual file")], ["squash_open", "squash_close", "squash_find_entry", "SQUASH_VALID_VFD"])

prop("C10", "Closed histories release everything: no memory or descriptor is leaked",
 "After any sequence of calls, failing ones included, once everything opened has been closed, every returned list freed, extraction caches cleared and the image destroyed, repeating the sequence leaves the process with no more allocated memory and no more open descriptors than before. "
 "No call frees anything twice or uses it after it was released.",
 ["histories", "inputs"], "all closed histories over all images, successful and failing calls mixed",
 "The tests never count memory or descriptors and leave several streams and descriptors open on purpose.",
 ["src/fd.c", "src/dirent.c", "src/scandir.c", "src/extract.c", "src/fs.c", "src/cache.c", "src/dir.c", "src/traverse.c"],
 [("release on close and on failure paths", "all API functions"), ("cache disposal", "src/cache.c")], [("live allocations and open descriptors", "conserved across closed histories")], ["allocator and descriptor table of the process"])

prop("C11", "Concurrent use by many threads gives the same answers as serial use",
 "Any number of threads may at the same time open, read, seek, stat, list, scan, traverse, resolve, extract and close (each its own descriptors and streams) on the same image or on different ones: every call returns what it would return if the threads ran one after another. "
 "No thread interleaving causes a data race, deadlock, crash, leak or use of released memory.",
 ["schedules", "histories"], "all interleavings of any number of threads",
 "The tests are single-threaded.",
 ["src/cache.c", "src/fs.c", "src/file.c", "src/fd.c", "src/dirent.c", "src/extract.c", "src/mutex.c"],
 [("cache locks", "src/fs.c sqfs_md_cache, sqfs_data_cache; src/file.c sqfs_blockidx_blocklist"), ("descriptor table lock", "src/fd.c")],
 [("caches and descriptor table", "shared by all threads")], ["all API calls under a race detector"])

prop("C12", "Extraction yields exact, distinct copies and cleans up after itself",
 "Extracting a packed regular file returns the path of a byte-identical copy in the configured temporary directory whose name ends in the requested extension; any number of different files can be extracted at any rate, each to its own newly created file, an existing file is never overwritten, and asking again for the same file of the same open image returns the same copy. "
 "Extracting a missing or non-regular object, or failing to write, returns nothing and leaves no file behind. "
 "Clearing the extraction cache, or normal process exit, deletes the files this process has extracted and nothing else (a forked child leaves those of its parent alone), and a later extraction makes a new, correct copy, also for another image opened in the same place.",
 ["histories", "inputs", "fault_sequences"], "all sequences of extractions, cache clears, image changes and write failures",
 "The tests extract one small file twice and check only its name and that it exists.",
 ["src/extract.c", "src/fd.c"], [("temporary name and copy", "src/extract.c squash_tmpf, squash_uncached_extract"), ("extraction cache", "src/extract.c squash_extract_cache_*"), ("exit cleanup", "src/fd.c squash_halt")],
 [("extraction cache", "(image, path) -> copy on disk")], ["squash_extract", "squash_extract_clear_cache", "the temporary directory"])

prop("C13", "Exactly the supported images are accepted, at any embedding offset",
 "Opening an image succeeds exactly when its superblock has the right magic number, a supported version and the supported compression; otherwise it fails with the error that says which of the three is wrong (in that order), without crashing or leaking, and leaves nothing that must be released. "
 "All behaviour of an accepted image is independent of the offset at which it is embedded in the surrounding memory and of what surrounds it.",
 ["inputs", "configurations"], "all superblocks x all embedding offsets",
 "The tests open one valid image at offset 0.",
 ["src/fs.c", "src/util.c", "src/decompress.c", "src/table.c"], [("superblock checks", "src/fs.c sqfs_init"), ("offset arithmetic", "src/fs.c, src/table.c")],
 [], ["sqfs_open_image", "sqfs_init"])

prop("C14", "A damaged compressed block yields errors, consistently, and nothing worse",
 "If compressed blocks of an otherwise valid image cannot be decompressed, every operation that needs one of them fails each time it is tried, reporting an error and never wrong data, and every operation that needs none of them still gives the right answer, in any order and after any number of failures. "
 "Such failures never crash, leak, or disturb other open descriptors and streams, and everything can still be closed and destroyed.",
 ["inputs", "histories", "fault_sequences"], "all choices of damaged blocks x all histories",
 "No test uses a damaged image.",
 ["src/fs.c", "src/cache.c", "src/file.c", "src/dir.c", "src/table.c", "src/decompress.c"],
 [("block read and cache insertion", "src/fs.c sqfs_md_cache, sqfs_data_cache"), ("cache disposal", "src/cache.c")], [("cache slots", "must only ever hold readable blocks")], ["all API calls"])

prop("C15", "Running out of memory or descriptors fails cleanly and recoverably",
 "If a memory allocation or the reservation of a descriptor number fails at any point of any call, that call either still gives its correct result or reports failure; it never crashes, hangs, or reports a wrong or partial result as success. "
 "Afterwards nothing is leaked, other open descriptors, streams and caches still give correct answers, and repeating the call once resources are available (a traversal from its start) succeeds.",
 ["fault_sequences", "histories"], "every allocation and descriptor-reservation point of every call, single and repeated failures",
 "No test injects a failure.",
 ["src/fd.c", "src/dirent.c", "src/scandir.c", "src/fs.c", "src/file.c", "src/cache.c", "src/dir.c", "src/extract.c", "src/traverse.c", "src/stack.c"],
 [("failure paths of each allocation", "all API functions")], [("caches and descriptor table", "stay consistent across failures")], ["all API calls with failing allocator"])

prop("C16", "No caller-supplied argument causes an out-of-bounds access or a crash",
 "On a valid image, any path string (any length, any bytes), any buffer size including 0 and 1, any read count, seek offset, origin, descriptor number, directory name length and link target makes every call return normally. "
 "Calls read only the strings given, write only within the given buffer and at most the number of bytes they report (plus the terminating zero byte where there is room), and use bounded time and stack.",
 ["inputs"], "all argument values of every API call",
 "The tests pass short well-formed paths and comfortable buffers, without a memory checker.",
 ["src/dir.c", "src/readlink.c", "src/fd.c", "src/file.c", "src/dirent.c", "src/stat.c", "src/fs.c", "src/extract.c"],
 [("path buffers", "src/dir.c sqfs_lookup_path_inner, squash_follow_link"), ("size checks", "src/readlink.c, src/fs.c sqfs_readlink, src/file.c sqfs_read_range")], [], ["all API calls under address and undefined-behaviour sanitizers"])

prop("C17", "A failing call reports its own reason, whatever happened before",
 "Every failing file, directory, link or descriptor call returns its failure value and sets errno to the reason of this very failure: ENOENT for missing objects and dangling links, ENOTDIR or ENOENT for descending into or listing a non-directory, ELOOP for link cycles, EBADF for numbers that are not open virtual descriptors, EINVAL for reading a non-link as link or a bad seek, ENAMETOOLONG for a link that does not fit. "
 "The reason does not depend on the value errno had before or on any earlier call, and it is never 0.",
 ["histories", "inputs"], "all failing calls x all previous errno values and histories",
 "The tests look at errno after five failing calls, mostly when it was 0 before.",
 ["src/stat.c", "src/fd.c", "src/dirent.c", "src/readlink.c", "src/dir.c", "src/scandir.c"], [("errno assignment on failure paths", "squash_* functions")], [("errno", "reason of the last failure")], ["errno after each failing call"])

prop("C18", "Answers depend only on the image and the question, never on history",
 "The answer to any query on an image is the same whatever queries came before, in whatever order, whatever is cached, whichever other images are open (even with equal inode numbers and positions), and whichever images were opened earlier at the same addresses. "
 "Destroying one image never affects another one that is still open.",
 ["histories", "configurations"], "all histories over any number of images, opened and destroyed in any order",
 "The tests open one image at a time and ask each question once.",
 ["src/cache.c", "src/fs.c", "src/file.c", "src/extract.c", "src/fd.c"], [("caches with round-robin eviction", "src/cache.c"), ("per-image state", "src/fs.c sqfs_init, sqfs_destroy")],
 [("caches", "hold copies keyed by position or inode number")], ["all API calls"])

prop("C19", "Intercepted calls serve image paths from the image and pass all others through",
 "In a program built with the interception layer, calls on paths under the mount prefix, and relative paths while the current directory is inside it, give the answers of the packed image, and calls on all other paths and descriptors behave exactly as the original system calls, in any mix. "
 "Positioned reads do not move the descriptor, vectored reads fill the buffers in order, and the reported current directory is the one last entered.",
 ["histories", "inputs"], "all sequences of intercepted calls on image and real paths and descriptors",
 "The sample's self check performs two mkdir and one chdir.",
 ["sample/enclose_io_unix.c", "sample/enclose_io_unix.h", "sample/enclose_io_common.h"],
 [("prefix test and path expansion", "enclose_io_is_path, ENCLOSE_IO_GEN_EXPANDED_NAME"), ("descriptor dispatch", "SQUASH_VALID_VFD in enclose_io_*"), ("stream dispatch", "squash_find_entry")],
 [("emulated current directory", "empty when outside the image")], ["enclose_io_* functions"])

prop("C20", "Files created under the mount prefix live in a private overlay, removed at exit",
 "In a program built with the interception layer, directories and files created under the mount prefix can be written, re-read, listed and queried under the same path with exactly the content written, take precedence over the packed object of the same path, and leave every other packed path's answer unchanged, apart from packed directories in or below which a creation was made or attempted, which then list the created content. "
 "Everything created lies below one new private directory inside the temporary directory, nothing outside it is created, changed or deleted, and at normal exit of the process that made it, not of a forked child, it is gone completely.",
 ["histories", "inputs"], "all sequences of creations, writes and reads under the prefix",
 "The sample's self check creates two empty directories and never looks at them or at what is left on disk.",
 ["sample/enclose_io_unix.c", "sample/enclose_io_common.h"],
 [("overlay path mapping", "enclose_io_mkdir_consult, ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN"), ("creation", "enclose_io_mkdir, enclose_io_open"), ("exit cleanup", "mkdir_workdir_halt")],
 [("overlay directory", "created on first write")], ["enclose_io_* functions and the temporary directory"])

prop("C21", "The image memory is only read, and only inside the image",
 "No operation writes to the memory the image was opened from, and on a valid image no operation reads before its start or past its end, so an image may lie in read-only memory with nothing accessible next to it.",
 ["inputs", "histories"], "all valid images x all operations",
 "The tests keep the image in the middle of a readable and large enough array, where neither kind of stray access is visible.",
 ["src/fs.c", "src/table.c", "src/file.c", "src/util.c"], [("position arithmetic", "src/fs.c sqfs_block_read, sqfs_md_block_read; src/table.c")], [], ["page protection around the image"])

prop("C22", "The container utilities behave as a map and as a stack",
 "For any sequence of operations, the hash table returns for each key the value last stored and not yet removed and nothing for other keys, before and after any number of growths, and the stack returns its items last-in first-out at stable indexes, calling its release function exactly once per item popped or left at destruction. "
 "Neither reads or writes outside what it allocated, nor leaks after destruction.",
 ["histories"], "all sequences of container operations, value sizes and initial capacities",
 "No test uses the containers.",
 ["src/hash.c", "src/stack.c", "include/squash/hash.h", "include/squash/stack.h"], [("bucket chains and doubling", "src/hash.c"), ("growing array", "src/stack.c")], [], ["sqfs_hash_*", "sqfs_stack_*"])

prop("C23", "Threads may use the interception layer at the same time",
 "In a program built with the interception layer, any number of threads may at once ask about, read, list and load packed objects, read one shared descriptor at positions of their own, create, write and query content under the mount prefix, and call on real paths. "
 "Each call returns what it would return if the threads ran one after the other: a positioned read always gives the bytes of its position, the overlay is created once, of several exclusive creations of one name exactly one succeeds, and nobody's creation fails because of somebody else's. "
 "There is no data race, deadlock or crash, and at exit nothing of the overlay is left.",
 ["schedules", "inputs"], "all interleavings of intercepted calls of any number of threads",
 "The sample is single-threaded.",
 ["sample/enclose_io_unix.c", "sample/enclose_io_common.h", "src/fd.c", "src/mutex.c"],
 [("creation of the overlay directory under squash_global_mutex", "enclose_io_mkdir_workdir"), ("overlay lookup", "ENCLOSE_IO_CONSIDER_MKDIR_WORKDIR_RETURN"), ("positioned reads", "enclose_io_pread")],
 [("overlay directory name", "process-wide, set once")], ["enclose_io_* functions called by several threads"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
