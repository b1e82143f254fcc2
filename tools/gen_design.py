import json,glob,os
HEAD = '''# Runtime monitoring of libsquash

Family of technique: runtime monitoring and sanitizers. The real code of /repo runs under generated,
hostile and stress workloads; oracles and sanitizers watch it. Nothing is proved; every verdict is about
executions that were observed. All 23 properties are decided this way; `not_applicable` is empty.

## What is checked, and what the tests leave open

libsquash serves files out of a SquashFS 4.0 image in memory: `src/` (format, caches, lookup, traversal,
virtual descriptors, directory streams, extraction to temporary files, two containers) and `sample/` (the
layer that intercepts the calls of a program, with a private overlay for what the program creates under the
mount prefix). Its 8 tests use one fixture image of a few objects, one thread, no damage, no fault and no
second image. The guarantees in properties.jsonl are about every image, history, interleaving and fault.

Parts of the repository and the properties that watch them:

| part | properties |
|---|---|
| block reading, caches, decompression (`cache.c decompress.c fs.c file.c`) | C01 C11 C14 C15 C18 C21 |
| tables, superblock (`table.c fs.c decompress.c`) | C07 C13 C16 C21 |
| directories (`dir.c dirent.c scandir.c readlink.c`) | C03 C04 C05 C06 |
| path lookup, links (`fs.c dir.c stat.c private.c nonstd-*.c`) | C05 C06 C07 C16 C17 |
| traversal (`traverse.c stack.c`) | C08 C15 |
| descriptors (`fd.c util.c mutex.c`) | C02 C09 C10 C11 C17 |
| extraction (`extract.c`) | C12 C11 C18 |
| containers (`hash.c stack.c`) | C22 |
| interception layer (`sample/enclose_io_unix.c enclose_io_common.h`) | C19 C20 C23 |
| Windows parts, `sample/enclose_io_main.c`, `CMakeLists.txt` | cannot run here, not claimed |

## Common machinery

* **Generated images.** `harness/image.*` builds SquashFS 4.0 images in memory from a random model tree
  (all object types, basic and extended; block sizes 4 KiB to 1 MiB; compressed and stored blocks; fragments,
  holes, shared data, hard links; multi-header and indexed directories; metadata and tables of many blocks;
  sparse files of thousands of blocks and beyond 4 GiB; inode numbers in any order; embedding offset).
  Placement is steered where chance would be too rare: an inode, a block list or a directory entry ends
  exactly at, just before or just after a boundary between metadata blocks. mksquashfs is not installed, so
  the builder is the only source; that it agrees with the format as others understand it is seen by the
  library's own reader, which reads the repository's fixture images too (its tests).
* **Reference model.** `harness/query.*`: the tree the image was built from answers what every call must
  return, path resolution included (lexical and physical "..", aliases, links; with the set of acceptable
  reasons of failure, and the metadata blocks certainly and possibly read on the way). It is written from
  the format and from POSIX, not from the library.
* **Session.** `harness/session.h`: a user who holds descriptors, streams, traversals and lists across other
  calls; everything it is told is judged. Used by C10, C11, C13, C14, C15, C18, C21.
* **Interposition without hooks.** The library objects are compiled from /repo's working tree and their
  undefined references (allocator, descriptor calls, mutexes, stdio, zlib) are renamed with `objcopy` so that the
  harness can count, fail, delay and record them. /repo contains no hook; MANIFEST's hooks are empty.
* **Memory.** Images lie between inaccessible pages, read-only, with the bytes around them random and poisoned
  for ASan; buffers given to the library have exactly the size said, on the heap. The library is built with
  `-ftrivial-auto-var-init=pattern` and `malloc_fill` in half of the shards, and with both zero in the other half (a
  value that is used uninitialised is wrong for at least one of the fillings).
* **Sanitizers.** ASan+UBSan build (all behavioural checks), TSan build (C11, C23), plain build (C21), and valgrind's
  memcheck on an uninstrumented build (C14, C15, C16, C18), which sees decisions that depend on uninitialised memory.
* **Driver.** `check.py <property>` builds, shards generated cases over the 8 cores, classifies every abnormal
  ending (assertion, sanitizer report, signal, no progress for 150 s and again when run alone), writes
  evidence and replay files. A case is a function of (seed, number): `--replay FILE` runs it again.
  A case killed by SIGKILL is run once more alone (memory may have been short). What the harness itself cannot
  do is status 2, never a verdict.
* **Containment.** Checks that let the code create or delete files (C10, C11, C12, C15, C16, C18 to C21, C23)
  run as an unprivileged user (65534) in a scratch directory that check.py makes and removes.
* **Evidence.** Each driver counts what the monitors saw (comparisons, failures judged, interleavings, faults
  fired, kinds of images) and the number of distinct non-trivial cases by hash; check.py writes them.
* **Determinism.** Cases do not depend on time or addresses, except for interleavings (C11, C23) and for hash
  orders in no oracle. `VERIF_SEED`/`--seed` gives other cases.

Quick tier: 5 to 190 s each on 8 cores (about 12 minutes for all). Thorough tier: the same cases twenty to thirty
times as many, at most 1500 s per run.

## The properties

'''
S = {}
S['C01']='''*Specified:* content of a file as a function of (offset, length, size of pieces). *Oracle:* the content is computed,
not stored, so any range of a 6 GiB sparse file can be compared byte by byte. *Workload:* six kinds of images: random;
files of 2000 to 8000 blocks whose inode or block list ends at a boundary; files beyond 4 GiB; hundreds and
thousands of fragments (fragment table of several blocks); ranges biased to block, fragment and index boundaries,
by descriptor and by inode, in pieces of 1 byte to all. *Bounds:* images up to some 10 MB of stored bytes; block
positions beyond 4 GiB inside an image only in the far-image case (see C13). *Beyond tests:* the tests read one
small file; the index, sparse and fragment paths are reached by none.'''
S['C02']='''*Monitor:* for every open descriptor the POSIX position; each result of read and seek and the bytes are compared, after
each call the others are unmoved. A third of the images have damaged data blocks, so that failing reads occur. Seeks
go beyond the end, beyond 4 GiB, to overflow, with unknown origins. *Bounds:* up to about 12 descriptors, 350 calls.'''
S['C03']='''*Monitor:* per stream the index of the next entry; told positions are kept and sought to later, also after end, rewind and
by other streams' histories. Low-level iteration is restarted at every offset the model knows to be a boundary, and at
offsets between (must be refused). Directories: up to 3000 entries, names up to 255 bytes, several headers, several
metadata blocks, headers broken at random places, basic and extended.
A part of the images has one directory of 65536 to some 70000 entries, with positions told and sought beyond 65535.'''
S['C04']='''*Oracle:* model list filtered by the same filter and sorted by the same order; permutations inside equal keys allowed.
*Ownership:* lists are kept while other calls run and the image is destroyed, compared again, and freed entry by entry;
ASan and the ledger see double ownership. Filters and orders include ones that look at every field.
One scan in some of a directory of more than 65535 entries, whose count does not fit sixteen bits.'''
S['C05']='''*Oracle:* two models of path resolution, lexical and physical; where they agree, the answer is unique. Identity of
the found object is decided by stat, link count, inode number and content. Near misses: each packed name shortened, extended,
with one bit changed, in another directory. Indexed directories of up to 2000 entries in which an index entry is made for
random headers. *Left open:* "/file/", "/file/." may resolve; '..' above the root may be clamped or not found; paths
after a link and '..' may be read either way.'''
S['C06']='''*Oracle:* link resolution with reasons. *Workload:* a farm of chains of 1 to 60 links, cycles of any length and through
directories, links through links, dangling, targets under one or two aliases (once, twice, one behind the other, partial, equal to the
alias), targets whose last byte is at a block boundary, of up to 2000 bytes. A quarter of the questions run on a
512 KiB stack. *Left open:* more than 32 expansions may resolve or give ELOOP; targets of 2048 bytes and more may give
ENAMETOOLONG; readlink below a mount prefix may write to bytes of the buffer behind those it reports up to the packed target.
squash_follow_link and squash_readlink_inode answer the same questions on inodes.'''
S['C07']='''*Oracle:* packed metadata, and agreement of lstat, stat, fstat (of descriptors and streams), inode by reference, inode by
number, listing. Extreme times, modes, device numbers (20-bit minors), sizes at 2^32, link counts up to 2^32-1, id tables of up to 65535
entries, export tables of several blocks (crowds of up to 20000 objects). *Left open:* st_ino, st_uid, st_gid (not set by the library), sizes of
directories.'''
S['C08']='''*Monitor:* an automaton over the events of each traversal (a stack of directories with next index and path). Trees up to
150 deep, 900 wide; up to 4 traversals interleaved; pruning right after an entry; closing at any event. *Left open:* pruning at
other moments.'''
S['C09']='''*Monitor:* the set of numbers open as virtual and as real descriptors and streams; every number seen is asked about at
intervals, real ones identified by device, inode and position. Histories close real descriptors (0, 1, 2 included), open real ones into the gaps, hold
up to 1200. Exit handlers registered before and after the library's are run in child processes and ask again.'''
S['C10']='''*Monitor:* a ledger of every allocation made through the library's references and of the descriptors of the process.
A closed history is run four times; from the second on nothing may grow. Histories include damaged images (also only the
inode blocks, with files whose block list needs an index), failing opens of images, extraction, clearing, two images,
directories of thousands of entries, and traversals, iterations and lookups that start at objects of the wrong type. ASan decides double free and use after release. Caches of constant size are not leaks
because they are released by destroy; the extraction cache is cleared.'''
S['C11']='''*Monitors:* every answer in every thread is judged by the model; TSan (happens-before) watches unordered accesses; the
ledger afterwards; no progress for 150 s is a hang. *Reach:* 2 to 8 threads, delays injected at allocations, locks, descriptor and
zlib calls from per-thread seeds; small caches are overrun by many blocks so that eviction during reading is frequent. *Bounds:* sampled
interleavings; evidence counts operations, threads and distinct histories. Two variants since TSan slows and hides lifetimes that ASan sees.'''
S['C12']='''*Monitor:* the whole temporary directory is compared with a ledger of the copies after every call, each copy byte by
byte, foreign files too. Foreseeable names are taken beforehand, also in the very moment before the library creates a file; writing
is made to fail at each stdio call; images are replaced in place; child processes exit normally or are forked from one that
extracted. Processes that have extracted nothing yet do so with the directory named relative to the current one, then change it, ask again,
and exit. *Left open:* another extension for a path already extracted returns the same copy; TMPDIR is read once.'''
S['C13']='''*Oracle:* result of opening by the superblock fields alone, with nothing accessible behind them; 96 single-bit flips,
boundary values and combinations. One image is opened at 8 offsets and one beyond 2, 4 or 40 GiB from the base address
(a reservation without memory), and the same history is judged in each place.'''
S['C14']='''*Oracle:* three-valued: a call certainly, possibly or not at all needs a damaged block. Damage makes the compressed stream
undecodable (several ways: header, checksum, truncated, too long). Failed questions are asked again and again; held descriptors,
streams and traversals go on; three equal histories must leave equal ledgers. *Left open:* which errno (but nonzero, and always the same: C17);
traversals stay failed after an error.
A directory index of which some entries lead to damaged headers: names before and after must be found or fail, never be misplaced.
Block lists of up to 14100 entries, damaged in one of their later blocks only, are read before and behind the damage, again and again.'''
S['C15']='''*Fault enumeration:* each call or history is run with the n-th allocation, descriptor reservation or decompression failing, n = 1..40 and more sparsely
beyond, alone or with all later ones. *Oracle:* the right answer or a failure; then the ledger, the held things, and the same call again.
Caches fresh and used. *Left open:* a traversal after a fault; the reason of the failure.
In forked children the very first openings, and descriptor tables grown to high numbers, meet the faults; a failure
must set errno (a value put there before must not survive). Files long enough to have a block index, directories whose index
spans several blocks, and link targets that reach into another block meet faults too.
The table of descriptors is kept for good, so it is grown before the first ledger: how it grows is left open.'''
S['C16']='''*Monitors:* ASan/UBSan with exact buffers; patterns around every output; results judged by the model; time limit; half the cases on a 512 KiB
stack. Arguments: paths of up to a million bytes, all byte values, lengths without terminator, extremes of every integer,
names of 255 and 256, targets of up to 200000 bytes. Tables of descriptors are filled to the last place, with questions about numbers
and pointers around their end.'''
S['C17']='''*Oracle:* the model gives the set of reasons a failure may have; each failing call is repeated with other values of errno before it and other
calls between, and must give the same. *Left open:* the reason of damaged blocks.'''
S['C18']='''*Oracle:* the answer of an image opened just now is kept bit by bit (names, numbers, bytes, errno, positions) and compared with answers of
long-lived images among twins: equal layout with other content, equal paths with other layout, opened at the same
addresses after others. Indexed files of holes that begin at the same place, fragments and blocks shared.'''
S['C19']='''*Oracle:* for image paths the model (the same queries go through the intercepted calls); for everything else the call itself is made a second time without the layer
on an equal tree, and result, errno and effect are compared. Mount points of several lengths, real directories with names of the
mount point, of image objects, relative paths from inside and outside. exec and dlopen are made with packed programs and libraries
in child processes.
The layer's functions that copy packed objects out (enclose_io_if, enclose_io_ifextract) are called on packed and on real paths; new copies
have the extension asked for. Paths of 1940 to 70000 bytes (padded with dots or slashes, relative and absolute) get the right answer or ENAMETOOLONG,
the latter only beyond the layer's buffers of 2048 bytes; getcwd is asked with buffers of every size, and without one.'''
S['C20']='''*Oracle:* a model of what was created, over the image. Every history is a process of its own; the tree around the temporary directory is compared during
the run and after the exit, byte by byte. *Left open* (accepted either way): directory listings of packed directories once something was created
or attempted in or below them; creation over packed special objects; O_CREAT on a packed file opens a fresh one; modes other than F_OK and R_OK on packed objects;
paths climbing with dot-dot through created directories; umask 0777; paths of more than 2048 bytes when relative, or that with the temporary directory come near 4096,
may be refused (but never name something else). Listings with a selection and an order of the caller's own. Temporary directories of 1200 to 2900 bytes, and relative ones; where nothing can be created, every creation must fail.'''
S['C21']='''*Monitors:* read-only mapping, inaccessible page directly before the first or behind the last byte, ASan poison to the byte around,
and every range given to zlib is checked to lie inside. The plain build decides for accesses that instrumentation could hide (memcpy in libc).'''
S['C22']='''*Oracle:* a map from keys to stacks of values, and a list; every operation is compared, releases are counted. Storing a key twice hides the older
value until the newer is removed (this is what the table does, and nobody relies on more).'''
S['C23']='''*Monitors:* as C11, through the interception layer, in a process per case. Contested exclusive creations are counted; positioned reads of shared
descriptors are compared by position; the tree is compared after exit. The first intercepted calls of several threads coincide (the overlay is made then).
*Left out:* chdir while others run; shared descriptors for calls that use the position.'''
COMMON_LEN='''
## Decisions about what the properties leave open

These were found as false alarms of early versions of the oracles, or decided while reading; the statements were made precise and the oracles accept:

* '..' above the root: not found or clamped. Low-level lookup through a non-directory: an error or "not found".
* "link/" and "link/." in calls that do not follow: the link or its target.
* Names of 256 bytes (the format's maximum): memory safety and right neighbours; the reported name may be cut to 255.
* An alias (root_alias) ends with '/'.
* Misaligned accesses (UBSan alignment) are by design of a library that casts packed structures, and are off.
* squash_close of the descriptor inside a stream is misuse and not done.
* After a failure for lack of resources readdir goes on at the same entry; a traversal is restarted.
* Reopening an image object at the same address is done only after destroying the earlier one.
* After fork, copies and overlay belong to the process that made them; a daemon whose parent leaves with _exit leaves them behind.

## Defects found, and repaired

'''
out=[HEAD]
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
seeds={}
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); seeds.setdefault(m['property'],[]).append((os.path.basename(os.path.dirname(f)),m))
import sys; sys.path.insert(0,'/verif/tools'); from checks import CHECKS
for p in props:
    i=p['id']; c=CHECKS[i]
    out.append('### %s: %s\n\n%s\n*Cost:* %s.\n\n' % (i,p['title'],S[i].strip(), '; '.join('%s build, %d cases (thorough %d)' % (r['variant'],r['quick'],r['thorough']) for r in c['runs'])))
out.append(COMMON_LEN)
n=0
for l in open('/verif/KNOWN_FINDINGS'):
    if l.startswith('fixed:'):
        _,pr,com,*w=l.split(); n+=1
        out.append('* %s `%s` %s\n' % (pr.split('=')[1],com,' '.join(w)))
out.append('''
Each was first shown by a check on the unchanged tree, and the check passes since. No finding is left unrepaired
(KNOWN_FINDINGS lists no `finding:` line). False alarms met on the way were corrected in the harness or in the statement, as listed above.

## Planted bugs

Written from the statements and the code, each with a demonstration of its own; `tools/trial.py` applies one to a copy, builds, runs the
repository's tests, the demonstration and the check. "first missed" says that the check had to be strengthened to see it.

| bug | property | needs | caught by |
|---|---|---|---|
''')
MISSED=set('c01-frag-many c10-index-leak c18-index-by-start c01-index-unaligned c06-alias-twice c20-long-path c19-relative-long c19-cwd-long c07-lreg-nlink c08-grow-once'.split())
EXTRA={'c11-static-name':'C11, C23','c10-index-leak':'C10, C14','c18-index-by-start':'C18, C01','c01-frag-many':'C01, C13'}
for pr in sorted(seeds):
    for name,m in seeds[pr]:
        out.append('| %s%s | %s | %s: %s | %s |\n' % (name,' (first missed)' if name in MISSED else '',pr,m['needs'].strip().replace('|','/').replace('\n',' '),m['what_it_breaks'].strip().replace('|','/').replace('\n',' '),EXTRA.get(name,pr)))
out.append('''
All of them are caught by the check of their property in the quick tier with seed 1.

## Limits

* Images come from one builder; compressors other than zlib are refused by the library and not built.
* Interleavings and histories are sampled, not enumerated; TSan sees only what happened.
* Allocations inside zlib and libc do not fail on demand; failing decompressions and stream calls stand for them.
* Windows code cannot run here. `sample/enclose_io_main.c` and the packed `enclose_io_memfs.c` are only an example program.
''')
open('/verif/DESIGN.md','w').write(''.join(out))
