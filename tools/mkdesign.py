#!/usr/bin/env python3
"""Writes the tables of DESIGN.md (between the generated markers)."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Further checks seen to catch a planted bug, besides that of its property.
ALSO = {
 "memfs-rewrite-in-place": "C11", "memfs-open-file-without-lock-snapshot": "C13", "memfs-eof-keeps-lock": "C20",
 "tarfs-stat-renames-entry": "C20 C09", "tarfs-now-for-missing-mtime": "C01", "tarfs-copyn-grown-file": "C04",
 "arfs-unsorted-listing": "C20", "arfs-unsigned-times": "C19", "arfs-grown-file": "C04", "erofs-build-time": "C03",
 "erofs-stale-cache": "C10", "erofs-addr-overflow": "C03", "erofs-fifo-as-file": "C18",
 "erofs-dirent-exact-fit": "C22", "erofs-compact-ignores-gid": "C22", "erofs-lookup-byte-count": "C03 C18",
 "erofs-swapped-set-bits": "C18", "erofs-hides-dots": "C03 C18", "erofs-micro-mtime": "C22", "erofs-old-times": "C21 C22",
 "erofs-scratch-buffer": "C20", "erofs-zero-checksum": "C18", "tarfs-truncated-eof": "C06", "tarfs-sticky-error": "C10",
 "arfs-perm-bits-only": "C19", "memfs-listing-unlocked": "C20", "memfs-recursive-rlock": "C11", "memfs-lock-order": "C11",
 "erofs-lookup-error-notexist": "C10", "erofs-rune-size": "C22", "tarfs-resolve-cache": "C09",
 "arfs-size-from-stat": "C04", "erofs-depth-limit": "C18", "erofs-long-name-prefix": "C20",
 "tarfs-large-ids": "C24", "erofs-tail-page-limit": "C25", "tarfs-shared-section": "C20", "tarfs-modtime-zero": "C24",
 "tarfs-link-size": "C09",
}
MISS = {}
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    c = MISS.get(n) or " ".join([m["property"]] + ALSO.get(n, "").split())
    rows.append(f"| {n} | {m['what_it_breaks']} | {c} |")
planted = "| planted bug | what it breaks | caught by |\n|---|---|---|\n" + "\n".join(rows)
fixed = "| commit | property | what failed |\n|---|---|---|\n"
for f in json.load(open(V + "/known-findings.json"))["findings"]:
    w = f["what"].split(" ", 3)
    fixed += f"| {w[2]} | {f['property']} | {w[3]} |\n"
p = V + "/DESIGN.md"
s = open(p).read()
for name, body in (("planted", planted), ("fixed", fixed.rstrip())):
    s = re.sub(rf"(<!-- {name} -->\n).*?(<!-- end {name} -->)", lambda m: m.group(1) + body + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
