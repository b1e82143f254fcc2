# How each property is checked: which driver, under which instrumentation, how many cases.
UNPRIVILEGED = {'C10', 'C11', 'C12', 'C15', 'C16', 'C18', 'C19', 'C20', 'C21', 'C23'}


def run(variant, quick, thorough, **kw):
    return dict(variant=variant, quick=quick, thorough=thorough, **kw)


CHECKS = {}


def check(prop, runs, rule, technique, level_note, level='exploration', sources=None, assumptions=None, **kw):
    CHECKS[prop] = dict(runs=runs, rule=rule, technique=technique, level=level, level_note=level_note,
                        sources=sources or [prop.lower() + '.cpp'], assumptions=assumptions or [], **kw)


BASE = ['images are SquashFS 4.0 with zlib, built by harness/image.cpp, and valid (or damaged as stated)',
        'the model in harness/query.cpp is the oracle; where the statement leaves the answer open it accepts each']
SAN = 'ASan and UBSan (without alignment) on the library, images read-only between inaccessible pages with the surrounding bytes poisoned'

check('C01', [run('asan', 320, 6000)],
      'a case is an image (random, or with files of thousands of blocks, beyond 4 GiB, or with hundreds of fragments) and 60 or more random ranges read by descriptor or inode; a range is non-trivial if it contains file bytes, distinct by file, offset and length',
      'differential oracle over generated images under ASan/UBSan',
      'Every byte of every range read was compared with the model; ranges are sampled, biased to block, fragment and index boundaries. ' + SAN, assumptions=BASE)
check('C02', [run('asan', 400, 8000)],
      'a case is a history of 150 to 350 opens, reads, seeks and closes on descriptors of one image, a third with damaged data blocks; distinct by the sequence of reads and seeks',
      'online monitor of descriptor positions over random histories under ASan/UBSan',
      'Each result is compared with a POSIX model of the position; histories are sampled. ' + SAN, assumptions=BASE)
check('C03', [run('asan', 240, 5000)],
      'a case lists every directory of an image whole, runs 300 operations on up to 10 streams, and restarts low-level iterations at 90 offsets; distinct by the sequence of operations or the seed of the restarts',
      'online monitor of stream positions over random histories under ASan/UBSan',
      'Each entry is compared with the model by name, type, inode number and order. ' + SAN, assumptions=BASE)
check('C04', [run('asan', 240, 5000)],
      'a case is 60 scans of directories of 0 to 3000 entries with different filters and orders, some lists kept, changed and freed in any order, also after the image is destroyed; distinct by the choice of directory, filter and order',
      'result oracle and ownership monitor (ASan) over generated scans',
      'Every entry of every list is compared with the model, and again before it is freed. ' + SAN, assumptions=BASE)

check('C05', [run('asan', 160, 4000)],
      'a case is an image with a directory of up to 2000 entries (often indexed, names of up to 255 bytes of any value), asked by path through seven calls about its objects, near misses in every directory, dotted and strangely spelled paths; distinct by path, call and starting directory',
      'differential oracle (two path resolution models) over generated paths under ASan/UBSan',
      'Each lookup is compared with the model by identity of the object found. ' + SAN, assumptions=BASE)
check('C06', [run('asan', 120, 4000)],
      'a case is an image with a farm of links (chains of 1 to 60, cycles, links through links, dangling, aliases, exact target lengths), every link asked about by up to 8 calls, through it and around it, a quarter on a 512 KiB stack; distinct by path and call',
      'differential oracle (link resolution model with reasons) over generated link farms under ASan/UBSan',
      'Each answer and each errno is compared with the model; chains longer than 32 may resolve or fail with ELOOP. ' + SAN, assumptions=BASE)

check('C07', [run('asan', 240, 6000)],
      'a case is an image with up to 5000 objects and up to 65535 ids and extreme times, modes, device numbers, sizes and link counts; for up to 700 objects all interfaces are compared with the model and each other; distinct by image and object',
      'differential oracle and cross-interface agreement monitor over generated images under ASan/UBSan',
      'Every field named in the statement is compared for every object asked about. st_ino, st_uid and st_gid are not set by the library and not looked at. ' + SAN, assumptions=BASE)
check('C08', [run('asan', 1600, 40000)],
      'a case is a tree (deep to 150 levels, or with paths longer than 65535 bytes, wide to 900 entries, bushy, or random) and up to 14 rounds of 1 to 4 interleaved traversals with pruning and early closing; distinct by starting points and seeds of a round',
      'online trace monitor (pre-order nesting automaton) over generated trees under ASan/UBSan',
      'Each event is compared with the one the model expects next. ' + SAN, assumptions=BASE)
check('C09', [run('asan', 1600, 40000)],
      'a case is a history of 250 operations on virtual and real descriptors, streams and invalid numbers, a sixth of them with 300 to 1200 descriptors open at a time; distinct by the sequence of operations',
      'online monitor of the set of valid descriptor numbers over random histories under ASan/UBSan',
      'Validity of every number seen so far is compared with the model at intervals, real descriptors by their identity. ' + SAN, assumptions=BASE)

check('C10', [run('asan', 1200, 30000)],
      'a case is a closed history of 60 or 400 calls (also on damaged images, failing opens of images, extractions, a second image) run four times over; distinct by the history; non-trivial always, since each opens and closes something',
      'conservation monitor of live allocations and descriptors over repeated histories under ASan/UBSan',
      'The ledger counts what the library allocates through its renamed references and the descriptors of the process; ASan sees double frees and uses after release. ' + SAN, assumptions=BASE)

check('C11', [run('tsan', 120, 4000, quick_s=150), run('asan', 160, 4000, quick_s=150)],
      'a case is 3 rounds of 2 to 8 threads on a shared image and others (asking, holding and reading, opening and closing, extracting, opening and destroying images), with delays injected at allocations, locks, descriptor and zlib calls, a fifth on damaged images; distinct by the histories of the threads',
      'ThreadSanitizer and ASan over judged concurrent histories with injected delays',
      'Every answer in every thread is judged by the model; TSan sees unordered accesses of the interleavings that occurred; hangs are detected by time. ' + SAN, assumptions=BASE)

check('C12', [run('asan', 320, 8000)],
      'a case extracts files of two images (with up to 250 files) among foreign files and links with foreseeable names, with names taken in the last moment, failures to write, clearing, images replaced in place and exits of processes; distinct by the files extracted',
      'file system monitor (directory content against a ledger) over generated extraction histories under ASan/UBSan',
      'The whole temporary directory is compared with the ledger after every call, each copy byte by byte. Which names are foreseen follows the present naming with rand(). ' + SAN, assumptions=BASE)

check('C13', [run('asan', 640, 16000)],
      'a case tries superblocks (each bit of magic, version and compression flipped, boundary values, combinations) with nothing accessible behind their 96 bytes, and judges 60 calls on one image at 8 offsets, and beyond 2, 4 and 40 GiB; distinct by superblock and by offset with history',
      'oracle for the result of opening, ledger, and differential oracle at many offsets under ASan/UBSan with guard pages',
      'The accepted values are version 4.0 and zlib, as the library states. ' + SAN, assumptions=BASE)
check('C14', [run('asan', 320, 8000), run('memcheck', 16, 600, quick_s=120)],
      'a case is an image with 1 to 40 % of its compressed blocks damaged (of all kinds or some) and three equal histories of 200 calls, with repeated questions, held descriptors, streams and traversals; distinct by question',
      'three-valued differential oracle (must fail, may fail, must succeed) over damaged images under ASan/UBSan, with a ledger',
      'The oracle knows which blocks a call certainly or perhaps needs. Which errno a damaged block gives is left open. A smaller run of the same driver under valgrind looks for decisions that depend on uninitialised memory. ' + SAN, assumptions=BASE)
check('C15', [run('asan', 160, 4000), run('memcheck', 6, 200, quick_s=120)],
      'a case is an image and 14 calls of all kinds or histories of calls, each repeated with a fault at the n-th allocation, descriptor reservation and decompression for every n up to 40 and more sparsely beyond, alone or with all later ones, on a fresh or a used image with descriptors and streams held; distinct by call, kind and point of the fault',
      'fault injection at enumerated points with differential oracle and ledger under ASan/UBSan',
      'Points of failure of each call are enumerated; calls and images are sampled. Allocations inside zlib and libc are represented by failing decompressions and stream calls. A smaller run of the same driver under valgrind looks for decisions that depend on uninitialised memory. ' + SAN, level='fault_enumeration', assumptions=BASE)
check('C16', [run('asan', 800, 20000), run('memcheck', 24, 800, quick_s=120)],
      'a case is an image (deep, with names of the maximum length, with targets of up to 200000 bytes) and 260 calls with hostile arguments: paths up to a million bytes of any value, names with a length and no terminator, every extreme of counts, offsets, origins, descriptors, positions, buffer sizes, inode numbers and extensions, half of the cases on a 512 KiB stack; distinct by call and argument',
      'ASan and UBSan with buffers of exact size and patterns, results judged by the model, time and stack limits',
      'Every string and buffer given ends where it is said to end, and what may not be written is compared afterwards. Arguments are sampled with a bias to extremes. A smaller run of the same driver under valgrind looks for decisions that depend on uninitialised memory. ' + SAN, assumptions=BASE)
check('C17', [run('asan', 240, 8000)],
      'a case is an image with a farm of links (a quarter damaged) and 260 calls biased to failing ones, each made two or three times with different values of errno and other calls in between; distinct by call and errno before',
      'oracle for errno (path resolution model with reasons) and comparison of repeated failures under ASan/UBSan',
      'Every errno of a failure is compared with the reasons the model gives, and with those of earlier equal failures. The reason for a damaged block is left open, but must be one, and always the same. ' + SAN, assumptions=BASE)
check('C18', [run('asan', 600, 15000), run('memcheck', 32, 1000, quick_s=120)],
      'a case is 2 to 5 images (twins equal in layout, inode numbers and positions but not in content; twins equal in paths only; others), opened and destroyed over and over at 3 places, with 300 calls; 40 questions per image are compared in every detail with the answers of an image just opened; distinct by the sequence of answers',
      'differential comparison with fresh instances and with the model, over random histories of several images under ASan/UBSan',
      'Every answer is judged by the model, or compared bit by bit (names, numbers, bytes, errno) with the answer of a fresh image. A smaller run of the same driver under valgrind looks for decisions that depend on uninitialised memory. ' + SAN, assumptions=BASE)
check('C19', [run('asan', 240, 8000)],
      'a case is an image below the mount point, two equal real trees (with names of the image, and of the mount point itself), and 300 calls in any mix on image paths (absolute, or relative to a current directory inside), real paths, descriptors, streams, libraries and programs; distinct by the sequence of calls',
      'differential oracle (model for the image, the system call itself for everything else) over random call sequences under ASan/UBSan',
      'Each answer about the image is judged by the model; each other call is made a second time without the layer and compared, creations on a second tree. ' + SAN, sources=['c19.cpp', 'wrap.c'], sample=True, assumptions=BASE)
check('C20', [run('asan', 1600, 40000)],
      'a case is a process that sees an image through the interception layer, creates up to 120 (or 300) files and directories under the mount prefix, asks about them and about packed objects, and exits; foreign files have the names it is about to use, the temporary directory may be unusable, or lie below a directory named as the mount point; distinct by the prefix of the sequence of operations',
      'differential oracle (model of created content over the image) and file system monitor (whole trees compared) over random histories of processes under ASan/UBSan',
      'Each answer is judged by the model of what was created or by the image; the tree around the temporary directory is compared during the run and after the exit. ' + SAN, sources=['c20.cpp', 'wrap.c'], sample=True, assumptions=BASE)
check('C21', [run('asan', 240, 8000), run('plain', 240, 8000)],
      'a case is an image (only the root, one object, a few, or random with links, some damaged), read-only, with its first and then its last byte next to an inaccessible page and everything around poisoned; all objects are asked about by all calls, and random histories follow; distinct by image, object and call',
      'guard pages, read-only mapping and ASan poisoning around the image, and a check of every range given to zlib',
      'Writes to and reads outside the image fault, in instrumented code to the byte, in zlib at the page and by the range it is given. Images and calls are sampled. ' + SAN, assumptions=BASE)
check('C22', [run('asan', 1600, 40000)],
      'a case is 4 hash tables and 4 stacks of random value sizes and initial capacities, each with up to 6000 operations; keys are clustered, colliding, extreme or random; distinct by the sequence of operations',
      'model comparison (per-key stack of values, list) of random operation sequences under ASan/UBSan, with a ledger',
      'Every lookup, item and release is compared with the model. Storing a key twice hides the older value until the newer is removed. ' + SAN, assumptions=['the containers are used as declared in include/squash/hash.h and stack.h'])
check('C23', [run('tsan', 160, 4000, quick_s=150), run('asan', 240, 6000, quick_s=150)],
      'a case is a process of 2 to 8 threads with an image behind the interception layer: they ask about packed objects, read descriptors they share at positions, create, write and list under the mount prefix (also all the same names, often as their first call), load packed libraries and use real files, with injected delays; distinct by the histories of the threads',
      'ThreadSanitizer and ASan over judged concurrent histories of processes, with injected delays',
      'Every answer in every thread is judged by the model or by what the thread created; contested creations are counted; TSan sees unordered accesses of the interleavings that occurred. The current directory does not change while the threads run. ' + SAN, sources=['c23.cpp', 'wrap.c'], sample=True, assumptions=BASE)
