#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe or [], hook_needed=hook)))
def m(name, where): return dict(name=name, where=where)

p("C01", "Tar: Create then Open is lossless under any legal I/O behaviour",
  "Whenever tarfs.Create returns nil for a source tree of regular files, directories and symlinks, tarfs.Open of the bytes it wrote presents exactly that tree: the same paths, each with the same kind, content, size, permission and setuid/setgid/sticky bits, numeric owner (where the source's FileInfo exposes one as *tar.Header or *syscall.Stat_t), modification time to the second, and symlink target. This holds for every legal file name, size and nesting, and however the source chunks its reads and the storage chunks, delays or EOF-flags its own; Create of such a tree succeeds when nothing fails.",
  ["inputs","schedules","fault_sequences"],
  "every tree of files/dirs/symlinks with distinct legal names, every legal chunking of source reads, every legal ReaderAt behaviour (full read with or without io.EOF at the end, delays)",
  "Tests round-trip one fixed toybox tree from an *os.File that never splits a read, and compare only file content hashes, not metadata, names starting with a dot, empty files or implicit directories.",
  ["tarfs/create.go","tarfs/tarfs.go"],
  [m("header + data per walked entry","tarfs/create.go: Create"),m("offset bookkeeping, implicit parents","tarfs/tarfs.go: Open"),m("name normalisation","tarfs/tarfs.go: sanitizePath")],
  observe=["tarfs.Create return value and written bytes","tarfs FS: ReadDir, Stat, StatLink, ReadLink, Open+Read"])

p("C02", "Ar: Create then Open is lossless or refuses, under any legal I/O behaviour",
  "Whenever arfs.Create returns nil for a flat source directory of regular files, arfs.Open of the bytes it wrote presents exactly those files, each with the same name, content, size, permission and setuid/setgid/sticky bits, numeric owner (where the source's FileInfo exposes one as *tar.Header or *syscall.Stat_t) and modification time to the second. An entry the ar header cannot represent (name too long or not preserved, owner or size too large for its column, subdirectory, symlink, special file) makes Create return an error; it never yields an archive that reads back differently, and a representable directory is archived when nothing fails.",
  ["inputs","schedules","fault_sequences"],
  "every flat directory of regular files (including ones the format cannot hold), every legal chunking of source reads and ReaderAt behaviour",
  "Tests round-trip one archive of two 13-byte files with short names and small ids; column overflow, odd/even padding sequences, empty members at the end of the archive and dot files are never exercised.",
  ["arfs/create.go","arfs/arfs.go"],
  [m("fixed 60 byte header formatting","arfs/create.go: writeArHeader"),m("even padding","arfs/create.go: writeArData"),m("header walk","arfs/arfs.go: Open, parseArEntry")],
  observe=["arfs.Create return value and written bytes","arfs FS: ReadDir, Stat, Open+Read"])

p("C03", "EROFS: Create then Open is lossless under any legal I/O behaviour",
  "Whenever erofs.Create returns nil for a source tree of regular files, directories and symlinks, erofs.Open of the image presents exactly that tree: the same paths, the metadata of the root included, each listed exactly once and found by lookup, with the same kind, content, size, permission and setuid/setgid/sticky bits, numeric owner (where the source's FileInfo exposes one as *tar.Header or *syscall.Stat_t), modification time (to the nanosecond; an unset one reads as the epoch) and symlink target. This holds for every file size (empty, inline, block-boundary, multi-block), every directory size (any number of entries and any name lengths up to 255), names sorting before '.', any previous content of the destination, and however source and storage chunk or delay their I/O; Create of such a tree succeeds when nothing fails, except that it may refuse names above 255 bytes and link targets of 4096 bytes and more; a tree with a special file (device, pipe, socket) is refused or shows it as that, never as another kind.",
  ["inputs","schedules","fault_sequences"],
  "every tree of files/dirs/symlinks, every destination content before the call, every legal chunking of source reads and ReaderAt behaviour",
  "Tests re-create one toybox image and hash the files through the *source* filesystem handle; layout edges (size 0, 1024/1025, 4096 multiples, inode crossing a block, dirent block splits, long names) are not reached.",
  ["erofs/writer.go","erofs/reader.go","erofs/erofs.go","erofs/constants.go","erofs/owner_unix.go"],
  [m("two pass layout","erofs/writer.go: firstPass, writeMetadata, writeData"),m("dirent packing","erofs/writer.go: encodeDirents, splitIntoDirentBlocks"),m("binary search lookup","erofs/reader.go: Lookup"),m("mode mapping","erofs/constants.go: statModeFromFileMode; erofs/reader.go: Mode")],
  observe=["erofs.Create return value and image bytes","erofs Filesystem: ReadDir, Stat, StatLink, ReadLink, Open+Read, Inode via Sys()"])

p("C04", "Create never reports success for an incomplete archive",
  "For tar, ar and EROFS: if any write to the destination fails (error, short write, disk full, including the final trailer or superblock) or any source operation needed for the archive fails (listing, entry info, open, stat, read, readlink, or a file delivering fewer or more bytes than its stated size), Create returns a non-nil error and does not panic. Consequently a nil return means the destination holds a complete archive that opens and matches the source.",
  ["fault_sequences","inputs"],
  "every source tree, every single or multiple failing source or destination call at every position",
  "Tests never inject an error into the source or the destination; the success path of one image is all they see.",
  ["tarfs/create.go","arfs/create.go","erofs/writer.go"],
  [m("error propagation from WalkDir/Copy/Close","tarfs/create.go: Create"),m("error propagation","arfs/create.go: Create, writeArHeader, writeArData"),m("error propagation through both passes","erofs/writer.go: write, firstPass, writeMetadata, writeData, dataForInode")],
  observe=["return value of Create; destination bytes"])

p("C05", "EROFS image creation is crash-atomic",
  "If erofs.Create into an empty destination is interrupted at any point (crash between two writes or in the middle of one, leaving any prefix of the bytes written so far in issue order), then opening what is left either fails or presents the complete source tree. It never presents a partial or damaged tree.",
  ["crash_points","inputs"],
  "every tree and every crash point: after k whole writes plus any prefix of write k+1",
  "Tests only ever open images whose creation ran to completion.",
  ["erofs/writer.go","erofs/reader.go"],
  [m("superblock written last","erofs/writer.go: write"),m("magic and checksum check","erofs/reader.go: initSuperBlock, verifyChecksum, checksum")],
  state=[dict(name="superblock",meaning="commit record of the image",where="erofs/writer.go: write")],
  observe=["destination bytes at the crash point; erofs.Open on them"])

p("C06", "Reads under I/O errors return correct data or an error, and recover",
  "On a tar, ar or EROFS archive whose storage returns read errors (transient or for a period, with or without partial data) every call either fails with an error or returns what the archive really contains: bytes delivered before an error are a prefix of the file, a clean end of file comes only after exactly Size bytes, listings are complete, metadata is right, a storage failure is never reported as a missing file, and nothing panics. A call fails only if storage failed during it, and once storage works again fresh calls on the same open filesystem succeed with correct results.",
  ["fault_sequences","histories"],
  "every archive, every sequence of filesystem calls, every placement of read errors among the storage reads",
  "Tests read from local files that never fail.",
  ["erofs/erofs.go","erofs/reader.go","arfs/arfs.go","tarfs/tarfs.go"],
  [m("inode loading and memoisation","erofs/erofs.go: getInode"),m("error propagation","erofs/reader.go: bytesAt, unmarshalFrom, Lookup, IterDirents"),m("section readers","arfs/arfs.go: Open; tarfs/tarfs.go: Open")],
  observe=["results of Open/ReadDir/Stat/StatLink/ReadLink/Read on the archive filesystems"])

p("C07", "A truncated archive never yields silently wrong content",
  "For every archive written by Create and cut off at any byte, opening it either fails or yields a filesystem in which every entry presented is an entry of the original with its original metadata, and reading any file delivers exactly its full original content or ends with an error; a short read ending in a clean end-of-file never happens. Entries stored entirely before the cut are not missing, and an EROFS directory lists completely or fails. An ar or tar archive cut inside a header block (the 60 bytes of an ar member header, the 512 bytes of a tar header) is reported as an error by Open, except that a single newline left of an ar header is taken for the stray newline some tools write at the end.",
  ["crash_points","inputs"],
  "every tree, format and truncation length",
  "Tests have no truncated fixture.",
  ["arfs/arfs.go","tarfs/tarfs.go","erofs/reader.go","erofs/erofs.go"],
  [m("header walk end-of-archive detection","arfs/arfs.go: Open"),m("content consumed at open","tarfs/tarfs.go: Open"),m("bounded section reads","erofs/reader.go: Data, bytesAt")],
  observe=["Open result; ReadDir/Stat/Read results"])

p("C08", "No archive bytes can crash, hang or exhaust the reader",
  "Whatever the stored bytes are (bit flips, overwritten fields, lost or misdirected blocks, garbage), opening them and walking, stat-ing, resolving and reading everything they present returns results or errors: no panic, no negative file size, no stack or memory exhaustion (no allocation out of proportion to the archive's size), and every call finishes in a bounded number of steps (the time to skip the declared holes of a sparse tar entry excepted). In addition an EROFS image written by Create whose superblock block was altered afterwards (anywhere from byte 1024 to the end of the first block, unless the alteration clears the checksum feature bit) is refused by Open.",
  ["inputs","fault_sequences"],
  "every corruption of every archive of the three formats, sparse tar entries excepted",
  "Tests only open well-formed fixtures.",
  ["arfs/arfs.go","tarfs/tarfs.go","erofs/reader.go","erofs/erofs.go","erofs/writer.go"],
  [m("field validation","arfs/arfs.go: parseArEntry"),m("bounds and layout checks","erofs/reader.go: Inode, getDirent0, getDirentName, Readlink, initSuperBlock"),m("link resolution","tarfs/tarfs.go: resolve; erofs/erofs.go: resolve")],
  observe=["panics, step counts and allocation sizes during any API call"])

p("C09", "Path and symlink resolution follows POSIX and always terminates",
  "For every archived tree and every path, Stat, Open and ReadDir on the tar and EROFS filesystems reach exactly the node that POSIX resolution reaches with the archive root as '/': relative targets start at the directory that really contains the link, absolute targets and surplus '..' stay inside the archive, and intermediate links are followed. StatLink and ReadLink do the same without following the last component, ReadLink returning the recorded target. Missing names report fs.ErrNotExist, a lookup below a non-directory or through a link cycle returns an error after a bounded number of steps, with storage delays or read errors in between changing nothing but causing errors. At least 32 links are followed in one lookup; longer chains may be refused.",
  ["inputs","histories","fault_sequences"],
  "every arrangement of directories, files and symlinks (relative, absolute, dotted, chained, dangling, cyclic), every path, and every interleaving with storage faults",
  "Tests resolve two links of one image (a relative directory link and a file below it).",
  ["erofs/erofs.go","tarfs/tarfs.go"],
  [m("component walk","erofs/erofs.go: resolve, splitPath, lookup"),m("component walk","tarfs/tarfs.go: resolve, findChild"),m("directory search","erofs/reader.go: Lookup")],
  observe=["Stat/StatLink/ReadLink/Open/ReadDir results"])

p("C10", "Concurrent readers of one archive filesystem do not disturb each other",
  "Goroutines sharing one open tar, ar or EROFS filesystem (and directory entries obtained from it), each using its own file handles, get from every call exactly the result it would give alone, for every interleaving and every storage delay, and without data races. A storage error hit by one call never makes a call fail that was not running at that time.",
  ["schedules","fault_sequences"],
  "every set of concurrent clients, every interleaving of their steps and storage completions",
  "Tests are single-threaded.",
  ["erofs/erofs.go","erofs/reader.go","tarfs/tarfs.go","arfs/arfs.go"],
  [m("per-handle section readers","arfs/arfs.go: Open; tarfs/tarfs.go: Open; erofs/reader.go: Data"),m("shared root and lazily loaded inode","erofs/erofs.go: getInode")],
  observe=["results of concurrent calls"])

p("C11", "memfs: concurrent use is linearizable and free of data races",
  "Any number of goroutines calling MkdirAll, WriteFile, Open, Stat, ReadDir, Sub and reading their handles on one memfs observe results explained by one sequential order of the calls consistent with real time (MkdirAll being one mkdir per path component), with no data race. In particular WriteFile is all-or-nothing: no reader ever sees a new file without its complete content and permissions, a replaced file shows the old or the new content in full and keeps its permissions, and failing calls (invalid path, missing or non-directory parent, writing over a directory) change nothing and report fs.ErrInvalid, fs.ErrNotExist or fs.ErrExist accordingly.",
  ["schedules","histories"],
  "every concurrent history of memfs calls on shared paths and every interleaving of their internal steps",
  "The one memfs test is single-threaded.",
  ["memfs/memfs.go"],
  [m("per-directory mutex","memfs/memfs.go: dir.mu"),m("insertion of files","memfs/memfs.go: create, WriteFile"),m("path walk","memfs/memfs.go: get, getDir, MkdirAll")],
  observe=["invocation/response history of memfs calls"], hook="scheduler control of sync.Mutex and statement boundaries (done by a build overlay, no source change)")

p("C12", "memfs: every call returns, and failures never disable the filesystem",
  "Whatever calls were made before or are in progress, including calls that failed, every memfs call returns within a bounded number of its own steps once scheduled fairly: no deadlock, no lock left held, no endless directory paging loop. After any failed call the same and all other paths remain fully usable from every goroutine.",
  ["schedules","histories"],
  "every history of succeeding and failing calls by any number of goroutines",
  "The test performs two failing calls and never uses the affected directory's write path from another goroutine afterwards.",
  ["memfs/memfs.go"],
  [m("lock release on every path","memfs/memfs.go: MkdirAll, getDir, get, create, ReadDir")],
  observe=["pending calls; step counts"], hook="scheduler control of sync.Mutex (build overlay)")

p("C13", "memfs: written data and open handles are isolated snapshots",
  "The content a memfs file shows is the bytes passed to WriteFile at the time of the call: changing the caller's slice afterwards, or bytes a reader received, changes nothing. A handle keeps serving the content, size and mode of the moment it was opened, in full and in order for any read sizes, with Stat constant however much was read and however often the file is rewritten; handles are independent of each other, and after Close a file handle reports fs.ErrClosed.",
  ["histories","schedules"],
  "every history of writes, buffer reuse, opens, partial reads, stats and closes, interleaved between clients",
  "Tests read each file once, completely, with no later write and no buffer reuse.",
  ["memfs/memfs.go"],
  [m("content ownership","memfs/memfs.go: WriteFile, Open"),m("handle state","memfs/memfs.go: File")],
  observe=["bytes and FileInfo returned by handles"])

p("C14", "Archives and views are reproducible",
  "Creating an archive (tar, ar, EROFS) twice from the same tree gives byte-identical output, whatever the wall clock, map iteration order, read chunking, delays, or other activity in the process. Opening the same archive bytes twice gives the same filesystem view, again whatever the map order and I/O behaviour.",
  ["schedules","inputs"],
  "every source tree or archive, every pair of executions differing only in clock, map order, chunking, delays and scheduling",
  "Tests create and open each archive once.",
  ["tarfs/create.go","tarfs/tarfs.go","arfs/create.go","arfs/arfs.go","erofs/writer.go"],
  [m("ordered walk","erofs/writer.go: inodeOrder"),m("sorted listings","tarfs/tarfs.go: ReadDir; arfs/arfs.go: ReadDir"),m("hard link resolution over a map","tarfs/tarfs.go: Open")],
  observe=["archive bytes; filesystem views"], hook="map iteration order and time.Now seams (build overlay)")

p("C15", "Create releases every source file it opens, whatever fails",
  "For tar, ar and EROFS: by the time Create returns, every file it opened from the source has been closed exactly once and is not used after its close, whether Create succeeded or any source or destination call failed at any point. The number of source files open at the same time stays bounded by a small constant regardless of the tree.",
  ["fault_sequences","inputs"],
  "every tree and every placement of source and destination faults",
  "Tests never look at handles of the source and never fail a call.",
  ["tarfs/create.go","arfs/create.go","erofs/writer.go"],
  [m("close after copy","tarfs/create.go: Create; arfs/create.go: writeArData"),m("close on every path of both passes","erofs/writer.go: dataForInode, firstPass, writeMetadata, writeData")],
  observe=["open/close/read calls on source files"])

p("C16", "Create from a live source never corrupts other entries",
  "While other goroutines keep writing to the source memfs (adding and replacing files and directories), and other Create calls read the same source at the same time, each Create either returns an error or leaves a well-formed archive (by the rules of C22 and C24, but for the link counts of directories) in which every file untouched during the call has exactly its content, every touched file has one of the contents it had between the start and the end of the call, and every directory and file that existed before the call is present. No entry ever shows bytes of another entry.",
  ["schedules","histories"],
  "every set of concurrent writers and creating goroutines and every interleaving of them",
  "Tests archive immutable sources only.",
  ["erofs/writer.go","arfs/create.go","tarfs/create.go","memfs/memfs.go"],
  [m("layout pass vs. write pass","erofs/writer.go: firstPass, writeMetadata, writeData"),m("header size vs. copied size","arfs/create.go: Create, writeArData"),m("snapshot handles","memfs/memfs.go: Open")],
  observe=["Create return value; resulting archive; write history of the source"], hook="scheduler control of statement boundaries and mutexes (build overlay)")

p("C17", "tarfs.Open presents the final state of any tar log",
  "For any well-formed tar stream of regular files, directories, symlinks, hard links and global headers, written by other tools in any order and format (ustar, PAX, GNU), the filesystem equals the state reached by replaying the stream: the last entry for a path wins, parents without an own entry appear as 0755 directories while directories with an own entry keep its metadata wherever it stands in the stream, './' and '/' prefixes denote the root, and entry names never leave it. A hard link (also a chain of them) presents the content and metadata of the file it finally names, and one without a target or in a cycle makes Open fail. (Logs on which tools disagree are left out: entries below a path that is a file or symlink, hard link targets replaced after the link was made.)",
  ["histories","inputs","fault_sequences"],
  "every sequence of tar entries, including repeated, out-of-order and linked ones, under every legal storage behaviour",
  "Tests open about twenty small fixtures without overrides, link chains or metadata checks for directories with children.",
  ["tarfs/tarfs.go"],
  [m("dirent map, implicit parents, hard link pass","tarfs/tarfs.go: Open, addChild"),m("per entry data sections","tarfs/tarfs.go: readerWithOffset")],
  observe=["view of the opened filesystem"])

p("C18", "erofs.Open presents every well-formed uncompressed EROFS image correctly",
  "For any valid uncompressed EROFS image, also one not written by this library (any block size from 512 to 65536, compact and extended inodes, flat and tail-packed inline data of any length, inodes in any order, root and metadata area anywhere, multi-block directories with padding, with or without superblock checksum), listing, lookup, stat, readlink and reading give exactly the tree stored in it. Files and symlinks that are stored in ways the library does not support (with extended attributes, compressed, in chunks) give an error or what is stored, never anything else, and leave everything around them right. Images with a wrong magic, wrong checksum, unknown incompatible features or an unusable block size are refused.",
  ["inputs","fault_sequences","schedules"],
  "every valid image layout and every legal storage behaviour",
  "Tests read one mkfs.erofs image with 4 KiB blocks.",
  ["erofs/reader.go","erofs/erofs.go"],
  [m("address arithmetic","erofs/reader.go: NidToOffset, BlockAddrToOffset, Inode, Data, getBlockDataInfo"),m("directory parsing","erofs/reader.go: getDirentName, getDirent0, Lookup, IterDirents"),m("superblock checks","erofs/reader.go: initSuperBlock, verifyChecksum")],
  observe=["view of the opened filesystem; Inode accessors"])

p("C19", "arfs.Open presents every well-formed ar archive correctly",
  "For any well-formed Debian-style ar archive, also one written by other tools (trailing slash or space padded names, blank or zero-padded owner and time fields, odd-sized members with padding, missing final padding byte, a single stray newline after the last member, empty members anywhere, repeated names where the last one wins), the filesystem presents every member with its exact name, size, content, mode, owner and time. A wrong signature, or a member header with a bad terminator, a non-numeric field, a negative size or a name that is empty, \".\" or \"..\", or contains a directory separator, makes Open fail rather than present wrong or misplaced members.",
  ["inputs","fault_sequences"],
  "every well-formed member sequence, every single malformed header field, every legal storage behaviour including io.EOF returned together with the last full read",
  "Tests open one archive with two equal-sized members.",
  ["arfs/arfs.go"],
  [m("header walk","arfs/arfs.go: Open"),m("field parsing","arfs/arfs.go: parseArEntry, checkAr")],
  observe=["view of the opened filesystem"])

p("C20", "Directory listings agree with lookups and page completely",
  "On memfs, tar, ar and EROFS filesystems every name a listing returns can be looked up and has the same kind, size, mode and time there, every name that can be looked up is listed, each exactly once, and ReadDir results are sorted by name (entries of memfs, tar and ar report exactly the type bits of their mode as Type; those of EROFS also report permissions there, which existing tests rely on); listing something that is not a directory is an error. Reading an open memfs directory in pages of any sizes yields every entry exactly once and then io.EOF (an empty result for a non-positive count), and entries present throughout are neither missed nor repeated while other goroutines add entries.",
  ["histories","schedules","inputs"],
  "every tree, every sequence of page sizes, every interleaving with writers, every legal storage behaviour",
  "Tests list three fixed directories once; no test pages through a directory.",
  ["memfs/memfs.go","tarfs/tarfs.go","arfs/arfs.go","erofs/erofs.go","erofs/reader.go"],
  [m("directory cursor","memfs/memfs.go: fhDir.ReadDir"),m("sorted listing","tarfs/tarfs.go: ReadDir; arfs/arfs.go: ReadDir"),m("on-disk order","erofs/reader.go: IterDirents")],
  observe=["ReadDir results; DirEntry and FileInfo values"])

p("C21", "Converting between formats preserves the tree",
  "Any chain of conversions that feeds a filesystem opened by this library (memfs, tar, EROFS, ar where the tree is flat) to another format's Create either fails with an error or ends with a filesystem showing the same paths, kinds, contents, permission bits, modification times to the second and link targets as the start, also with delayed or re-chunked storage in between and while other goroutines read the intermediate filesystems. Special files are never turned into regular files.",
  ["inputs","schedules","histories"],
  "every tree, every chain of formats, every legal storage behaviour and concurrent readers",
  "Tests convert each format only to itself, once.",
  ["tarfs/create.go","tarfs/tarfs.go","arfs/create.go","arfs/arfs.go","erofs/writer.go","erofs/erofs.go","erofs/constants.go","memfs/memfs.go"],
  [m("fs.FS implementations used as sources","tarfs/tarfs.go, arfs/arfs.go, erofs/erofs.go, memfs/memfs.go"),m("type mapping","erofs/constants.go; tarfs/tarfs.go: Type")],
  observe=["view of the final filesystem"])

p("C22", "Created EROFS images are well-formed for every reader",
  "Whenever erofs.Create returns nil, what it wrote is a well-formed uncompressed EROFS image by the on-disk format, not only in the eyes of this library's reader: a valid superblock with its CRC32C checksum and no incompatible features, whose inode and block counts are exact (and nothing was written behind, if the destination was empty); aligned inodes of a defined format with clean reserved fields and distinct numbers; no overlapping structures; inline data that does not cross a block boundary; true link counts (1 for files and symlinks; for directories at least 2 plus the number of subdirectories, or 1 if that cannot be stored); directories, the root included, with exactly one entry each for '.' and '..' pointing where they must, entries strictly ordered by the bytes of their names over all blocks, legal name offsets, and entry types equal to the kinds of the inodes. Decoded by an independent reader it holds exactly the source tree, metadata of the root included. This also holds when source or destination calls failed and Create nevertheless returned nil.",
  ["inputs","fault_sequences"],
  "every tree (including directories of more than 65533 entries, files beyond 4 GiB), every destination content before the call, every I/O behaviour of source and destination, every fault under which Create returns nil",
  "Tests read images back with the library's own reader only, so that an error the writer and the reader share, or which the reader tolerates, is invisible to them.",
  ["erofs/writer.go","erofs/reader.go","erofs/constants.go"],
  [m("superblock and counts","erofs/writer.go: write; erofs/reader.go: checksum"),m("layout","erofs/writer.go: firstPass, offsetToNID"),m("directory blocks","erofs/writer.go: dataForInode, encodeDirents, splitIntoDirentBlocks"),m("inode choice and link count","erofs/writer.go: toInode, populateInodes")],
  observe=["image bytes, decoded by the harness"])

p("C23", "Bit-field and mode conversions are exact inverses",
  "The conversions between fs.FileMode, Unix mode bits, EROFS file types and inode format fields are exact and mutually inverse on all supported values.",
  ["inputs"], "all mode values and format words",
  "Tests check a handful of permission values.",
  ["erofs/constants.go","erofs/writer.go","erofs/reader.go"], [m("pure conversions","erofs/constants.go: statModeFromFileMode, fileTypeFromFileMode; erofs/writer.go: setBits; erofs/reader.go: bitRange")])

p("C24", "Created tar and ar archives are well-formed for every reader",
  "Whenever tarfs.Create returns nil, what it wrote is a complete archive by the tar formats (ustar, PAX or GNU headers with valid checksums and numbers, data padded to whole blocks, two blocks of zeros at the end and nothing after them), and whenever arfs.Create returns nil, by the common ar format (60 byte headers at even offsets, left aligned decimal and octal columns padded with spaces, newline padding after odd sizes, the archive ending after the last member). Decoded by an independent reader it holds every entry of the source exactly once under its relative path, with its kind (devices and pipes of tar archives included), content, size, mode bits, owner, time and link target. This also holds when source or destination calls failed and Create nevertheless returned nil.",
  ["inputs","fault_sequences"],
  "every tree the formats can hold, every I/O behaviour of source and destination, every fault under which Create returns nil",
  "Tests read archives back with the library's own reader only, so that an error the writer and the reader share, or which the reader tolerates, is invisible to them.",
  ["tarfs/create.go","arfs/create.go"],
  [m("headers and trailer","tarfs/create.go: Create"),m("headers and padding","arfs/create.go: writeArHeader, writeArData")],
  observe=["archive bytes, decoded by the harness"])

p("C25", "The EROFS image API tells the truth about every inode, for every user",
  "For every valid EROFS image OpenImage succeeds (and for every superblock that Open must refuse it returns an error and no image); Image.BlockSize, Blocks, RootNid and SuperBlock (a copy) give what the image stores. For every inode reached from the root with Lookup or IterDirents, Image.Inode(nid) gives an Inode whose Nid is that number, of whose kind predicates (IsRegular, IsDir, IsCharDev, IsBlockDev, IsFIFO, IsSocket, IsSymlink) exactly the right one is true in agreement with Mode, and whose Mode, Size, Nlink, UID, GID, Mtime, layouts, Readlink and Data are those stored; every reader that Data returns delivers the whole content from the start, independently of others. IterDirents calls back for '.', '..' (with the right numbers) and every entry exactly once in byte order with the number and type of its inode, stops at the callback's first error and returns it, and may be re-entered from the callback; Lookup finds exactly these names and answers fs.ErrNotExist for all others; IterDirents and Lookup on anything but a directory and Readlink on anything but a symlink fail with fs.ErrInvalid. All of this holds for goroutines that share one Image and its Inodes; a failing storage read makes only calls that needed it fail (entries delivered before it are right), and later calls are right again.",
  ["inputs","schedules","fault_sequences"],
  "every valid image layout (block sizes 512 to 64 KiB), every name looked up, every interleaving of goroutines sharing the image, every failing read",
  "Tests open two images made by one tool, through a few calls of one goroutine, on storage that never fails.",
  ["erofs/reader.go"],
  [m("image and superblock","erofs/reader.go: OpenImage, SuperBlock, Image"),m("inode accessors","erofs/reader.go: Image.Inode, Inode.Is*, Mode, Data, Readlink"),m("directories","erofs/reader.go: Lookup, IterDirents, getDirentName, getDirent0")],
  observe=["results of the exported methods of erofs.Image, erofs.Inode and erofs.SuperBlock"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
