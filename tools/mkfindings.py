#!/usr/bin/env python3
"""Writes /verif/known-findings.json: the defects found and repaired.

Only entries with status "open" would suppress anything; there is none."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = """
2f4b0cb C24 arfs.Create wrote names with NUL bytes into headers, which other readers cut off
3b1144c C04 erofs.Create reported success for names with NUL bytes, which read back cut off
00208cc C08 tarfs.Open accepted directory and link headers of negative size, so Stat reported a negative file size
b722762 C22 erofs.Create left the '..' entry out of the root directory
f2c5e7b C20 memfs directory entries reported permission and setuid bits as their Type
dee13ea C18 erofs.Open cut link targets at one block of the image although blocks can be smaller than 4096
414e447 C22 erofs.Create wrapped the link count of directories of more than 65533 entries to 16 bits
817eba5 C03 erofs.Create wrote link targets of 4096 bytes and more, which every reader cuts off
0c903d9 C03 erofs.Create wrote names above 255 bytes, which make the whole directory unreadable
3117f17 C03 erofs FileInfo dropped the nanoseconds of modification times
4e6be0c C03 erofs FileInfo dropped setuid, setgid and sticky bits
1ea3a47 C21 erofs.Create turned devices, pipes and sockets into (or labelled them as) regular files
8d7db4e C09 erofs resolved relative links, '..' and links in the middle of a path wrongly and ran for ever on link cycles
6483328 C07 reading from a truncated EROFS image ended in a clean end of file
a413aa8 C03 erofs failed on storage that returns io.EOF together with the last bytes
b81a8e6 C08 EROFS inodes with sizes above 2^63 were presented with negative sizes
3ef4cea C18 superblock checksums of EROFS images with blocks of at most 1024 bytes were computed over a negative or wrong range
e58b129 C18 EROFS images with any block size were accepted, up to shifts that crash or hang
3b15fd9 C05 erofs.Create wrote a checksum but not the feature bit that makes readers verify it, nor the whole block it covers: a torn superblock opened
cfb949d C04 erofs.Create reported success when a file delivered fewer or more bytes than its size, overwriting other structures
97cf38e C18 EROFS directory blocks with more than 255 bytes of padding were refused as corrupted
8c56a07 C22 erofs.Create recorded inode number 0 (the root) in all '.' and '..' entries
8a022db C03 erofs.Create did not sort '.' and '..' among names below '.', so lookups of existing names failed
8340010 C03 erofs.Create wrote empty files as inline data, which its own reader refuses
3e4f02b C08 a read error or damaged inode made erofs directory entries panic, for good
a7f952f C21 arfs.Create turned special files into regular files
8ea2ed2 C04 arfs.Create reported success when a file did not have the size of its header
8a5ffaf C02 arfs.Create wrote values too wide for their column and names that do not read back
b68fb27 C19 arfs.Open stripped leading dots and spaces from names
b9f9d0d C07 reading from a truncated ar archive ended in a clean end of file
f7e887d C07 arfs.Open took an archive cut inside a member header for a complete one
86ac9e1 C02 arfs.Open failed on storage that returns io.EOF together with the last bytes
7f8b81e C19 arfs.Open accepted negative member sizes
00de7a1 C19 arfs.Open accepted member headers with half a terminator
9e22b95 C20 tarfs.ReadDir of a file returned an empty listing
e3499bf C01 tarfs.Open of a directory without an entry of its own panicked
ca102b5 C17 chains of tar hard links resolved or not depending on map order; cycles were not refused
bf50302 C09 tarfs changed the recorded targets of symlinks
648aad4 C09 tarfs resolved links and '..' wrongly and overflowed the stack on link cycles
9e30755 C01 tarfs.Open stripped leading dots and spaces from names
d364b06 C17 a tar directory entry before its content was replaced by a default one
7df46c8 C17 GNU sparse files of a tar archive were listed as irregular files
8852fec C04 tarfs.Create lost errors of writing the end of the archive
6cc1de2 C12 memfs.Sub(".") failed and Sub of an invalid path reported a wrong error
5522a65 C13 the size of an open memfs file shrank as it was read
acf65bf C12 paging through a memfs directory repeated and lost entries and never ended
a5f7dc3 C11 memfs.WriteFile changed the permissions of a file it replaced
34f2d1e C13 memfs kept the slice passed to WriteFile
b4f3734 C11 memfs published a file before its content and permissions were set: data race, half-written files visible
a65e815 C12 memfs.MkdirAll kept a lock when it met a file: every later call on that directory hung
"""
out = []
for l in F.strip().split("\n"):
    c, p, what = l.split(" ", 2)
    out.append(dict(id=f"{p}-{c}", property=p, status="fixed", what=f"fixed: property={p} {c} {what}"))
json.dump(dict(findings=out), open(os.path.join(V, "known-findings.json"), "w"), indent=1)
print(len(out), "findings")
