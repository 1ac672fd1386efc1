package h

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"
	"io/fs"
	"path"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Decoders for the three formats, written from the format descriptions and
// strict about them.  They share no code with the library.

// rawNode is what a decoder found.
type rawNode struct {
	K      string
	M      uint32 // Unix permission bits with setuid, setgid and sticky
	S      int64
	U, G   int64
	T      time.Time
	L      string
	off    int64 // of the content
	tail   int64 // where the rest of the content is, if tailed
	whole  int64 // what is at off
	tailed bool
	inode  uint64
	nlink  int64
	inline bool
}

// media is stored bytes as a decoder reads them.
type media struct{ d *Disk }

func (m media) size() int64 { return m.d.size() }

// at returns n bytes from off; where nothing was written there are zeros.
func (m media) at(off, n int64) []byte {
	b := make([]byte, n)
	if off >= 0 && off < m.size() {
		m.d.copyAt(b, off)
	}
	return b
}

// content returns up to n bytes of the content of a node from off.
func (m media) content(x *rawNode, off, n int64) []byte {
	n = min(n, x.S-off)
	if !x.tailed {
		return m.at(x.off+off, n)
	}
	if off >= x.whole {
		return m.at(x.tail+off-x.whole, n)
	}
	k := min(n, x.whole-off)
	b := m.at(x.off+off, k)
	return append(b, m.at(x.tail, n-k)...)
}

type mediaReader struct {
	fs.File
	m   media
	n   *rawNode
	off int64
}

func (r *mediaReader) Read(p []byte) (int, error) {
	n := copy(p, r.m.content(r.n, r.off, int64(len(p))))
	if r.off += int64(n); n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func fileModeOf(unix uint32) fs.FileMode {
	m := fs.FileMode(unix & 0o777)
	for b, f := range map[uint32]fs.FileMode{0o4000: fs.ModeSetuid, 0o2000: fs.ModeSetgid, 0o1000: fs.ModeSticky} {
		if unix&b != 0 {
			m |= f
		}
	}
	return m
}

// compareRaw compares what a decoder found with the model.
func compareRaw(md media, nodes map[string]*rawNode, m *Model, x Exp) string {
	for _, p := range sortedKeys(m.N) {
		n, g := m.N[p], nodes[p]
		if p == "." && x.Format != "erofs" {
			continue
		}
		if g == nil {
			return fmt.Sprintf("%q is not in it", p)
		}
		if g.K != n.K {
			return fmt.Sprintf("%q: kind is %s, want %s", p, g.K, n.K)
		}
		if got, want := fileModeOf(g.M), fs.FileMode(n.M)&permBits; got != want {
			return fmt.Sprintf("%q: mode is %v, want %v", p, got, want)
		}
		if s := x.cmpTime(n, g.T); s != "" {
			return fmt.Sprintf("%q: %s", p, s)
		}
		wu, wg := n.U, n.G
		if !x.Owner {
			wu, wg = 0, 0
		}
		if g.U != wu || g.G != wg {
			return fmt.Sprintf("%q: owner is %d:%d, want %d:%d", p, g.U, g.G, wu, wg)
		}
		switch n.K {
		case "l":
			if g.L != n.L {
				return fmt.Sprintf("%q: target is %q, want %q", p, g.L, n.L)
			}
		case "f":
			if g.S != n.S {
				return fmt.Sprintf("%q: size is %d, want %d", p, g.S, n.S)
			}
			if n.huge() {
				if s := checkHuge(&mediaReader{m: md, n: g}, n, 1); s != "" {
					return fmt.Sprintf("%q: %s", p, s)
				}
			} else if s := diffBytes(md.content(g, 0, g.S), n.Data()); s != "" {
				return fmt.Sprintf("%q: %s", p, s)
			}
		}
	}
	for _, p := range sortedKeys(nodes) {
		if m.N[p] == nil {
			return fmt.Sprintf("%q was not in the source", p)
		}
	}
	return ""
}

func decodeFmt(format string, d *Disk, live bool) (map[string]*rawNode, string) {
	switch format {
	case "tar":
		return decodeTar(media{d})
	case "ar":
		return decodeAr(media{d})
	}
	return decodeErofs(media{d}, true, live)
}

// ---- EROFS ----------------------------------------------------------------------

// decodeErofs decodes an uncompressed EROFS image.  With strict it also demands
// what only a freshly made image without hard links has; the link counts of
// directories may be older than their entries if the source is live.
func decodeErofs(m media, strict, live bool) (nodes map[string]*rawNode, bad string) {
	le := binary.LittleEndian
	sb := m.at(1024, 128)
	if le.Uint32(sb) != 0xE0F5E1E2 {
		return nil, fmt.Sprintf("magic is %#x", le.Uint32(sb))
	}
	sum, compat, bits := le.Uint32(sb[4:]), le.Uint32(sb[8:]), sb[12]
	if bits < 9 || bits > 16 {
		return nil, fmt.Sprintf("block size is 2^%d", bits)
	}
	B := int64(1) << bits
	if compat&1 != 0 {
		end := B
		if end <= 1024 {
			end += 1024
		}
		b := m.at(1024, end-1024)
		copy(b[4:8], []byte{0, 0, 0, 0})
		if want := ^crc32.Checksum(b, crc32.MakeTable(crc32.Castagnoli)); want != sum {
			return nil, fmt.Sprintf("checksum of the superblock is %#x, want %#x", sum, want)
		}
	} else if strict {
		return nil, "superblock without checksum"
	}
	if sb[13] != 0 {
		return nil, "superblock has extension slots"
	}
	root := uint64(le.Uint16(sb[14:]))
	inos, blocks, meta := le.Uint64(sb[16:]), int64(le.Uint32(sb[36:])), int64(le.Uint32(sb[40:]))
	if v := le.Uint32(sb[80:]); v != 0 {
		return nil, fmt.Sprintf("incompatible features %#x", v)
	}
	if le.Uint16(sb[86:]) != 0 {
		return nil, "superblock has extra devices"
	}
	end := blocks * B
	type span struct {
		from, to int64
		what     string
	}
	spans := []span{{0, 1024 + 128, "the superblock"}}
	nodes = map[string]*rawNode{}
	byNid := map[uint64]string{}
	inoSeen := map[uint32]bool{}
	var complaint string
	fail := func(format string, args ...any) {
		if complaint == "" {
			complaint = fmt.Sprintf(format, args...)
		}
	}
	load := func(nid uint64, p string) *rawNode {
		off := meta*B + int64(nid)*32
		if nid > 1<<50 || off+32 > end {
			fail("%q: inode %d is outside of the image", p, nid)
			return nil
		}
		h := m.at(off, 64)
		f := le.Uint16(h)
		if f>>4 != 0 {
			fail("%q: inode format is %#x", p, f)
			return nil
		}
		layout := f >> 1 & 7
		n := &rawNode{inode: nid}
		isz := int64(32)
		var blk, ino uint32
		mode := le.Uint16(h[4:])
		if le.Uint16(h[2:]) != 0 {
			fail("%q: inode has extended attributes", p)
			return nil
		}
		if f&1 == 0 {
			n.nlink, n.S = int64(le.Uint16(h[6:])), int64(le.Uint32(h[8:]))
			blk, ino = le.Uint32(h[16:]), le.Uint32(h[20:])
			n.U, n.G = int64(le.Uint16(h[24:])), int64(le.Uint16(h[26:]))
			n.T = time.Unix(int64(le.Uint64(sb[24:])), int64(le.Uint32(sb[32:])))
			if strict && (le.Uint32(h[12:]) != 0 || le.Uint32(h[28:]) != 0) {
				fail("%q: reserved fields of the inode are set", p)
			}
		} else {
			isz = 64
			if off+64 > end {
				fail("%q: inode %d is outside of the image", p, nid)
				return nil
			}
			n.nlink, n.S = int64(le.Uint32(h[44:])), int64(le.Uint64(h[8:]))
			blk, ino = le.Uint32(h[16:]), le.Uint32(h[20:])
			n.U, n.G = int64(le.Uint32(h[24:])), int64(le.Uint32(h[28:]))
			n.T = time.Unix(int64(le.Uint64(h[32:])), int64(le.Uint32(h[40:])))
			if v := le.Uint32(h[40:]); v >= 1e9 {
				fail("%q: %d nanoseconds", p, v)
			}
			if strict && (le.Uint16(h[6:]) != 0 || !bytes.Equal(h[48:64], make([]byte, 16))) {
				fail("%q: reserved fields of the inode are set", p)
			}
		}
		if strict {
			if inoSeen[ino] {
				fail("%q: inode number %d is used twice", p, ino)
			}
			inoSeen[ino] = true
		}
		if n.S < 0 {
			fail("%q: size is %d", p, n.S)
			return nil
		}
		n.M = uint32(mode & 0o7777)
		n.K = map[uint16]string{0o10: "f", 0o4: "d", 0o12: "l", 0o2: "c", 0o6: "b", 0o1: "p", 0o14: "s"}[mode>>12]
		spans = append(spans, span{off, off + isz, fmt.Sprintf("the inode of %q", p)})
		switch n.K {
		case "":
			fail("%q: mode is %#o", p, mode)
			return nil
		case "c", "b", "p", "s":
			return n
		}
		data := int64(blk) * B
		switch layout {
		case 0:
			n.off = data
			if n.S > 0 {
				if data+n.S > end || data+n.S < 0 {
					fail("%q: %d bytes from block %d exceed the %d blocks of the image", p, n.S, blk, blocks)
					return nil
				}
				spans = append(spans, span{data, data + n.S, fmt.Sprintf("the data of %q", p)})
			}
		case 2:
			n.inline = true
			tail := n.S % B
			if tail == 0 && n.S > 0 {
				tail = B
			}
			at := off + isz
			if n.S > 0 && at%B+tail > B {
				fail("%q: %d bytes of inline data cross a block boundary", p, tail)
				return nil
			}
			if at+tail > end {
				fail("%q: inline data is outside of the image", p)
				return nil
			}
			spans = append(spans, span{at, at + tail, fmt.Sprintf("the inline data of %q", p)})
			n.off, n.whole, n.tail, n.tailed = data, n.S-tail, at, true
			if n.whole > 0 {
				if data+n.whole > end || data+n.whole < 0 {
					fail("%q: %d bytes from block %d exceed the %d blocks of the image", p, n.whole, blk, blocks)
					return nil
				}
				spans = append(spans, span{data, data + n.whole, fmt.Sprintf("the data of %q", p)})
			}
		default:
			fail("%q: data layout %d", p, layout)
			return nil
		}
		if n.K == "l" {
			if n.S == 0 {
				fail("%q: empty symlink target", p)
			}
			n.L = string(m.content(n, 0, 1<<20))
			if strings.IndexByte(n.L, 0) >= 0 {
				fail("%q: symlink target with a zero byte", p)
			}
		}
		return n
	}
	type job struct {
		p           string
		nid, parent uint64
	}
	r := load(root, ".")
	if r == nil {
		return nil, complaint
	}
	if r.K != "d" {
		return nil, "the root is no directory"
	}
	nodes["."], byNid[root] = r, "."
	ftOf := map[string]byte{"f": 1, "d": 2, "c": 3, "b": 4, "p": 5, "s": 6, "l": 7}
	todo := []job{{".", root, root}}
	for len(todo) > 0 && complaint == "" {
		j := todo[0]
		todo = todo[1:]
		d := nodes[j.p]
		if d.S == 0 {
			fail("directory %q is empty and lacks the entries for itself and its parent", j.p)
			break
		}
		prev, first := "", true
		dot, dotdot, subs, all := 0, 0, int64(0), int64(0)
		for at := int64(0); at < d.S && complaint == ""; at += B {
			n := min(B, d.S-at)
			b := m.content(d, at, n)
			if n < 12 {
				fail("directory %q: block of %d bytes", j.p, n)
				break
			}
			n0 := int64(le.Uint16(b[8:]))
			if n0 < 12 || n0%12 != 0 || n0 > n {
				fail("directory %q: the names of a block begin at %d of %d", j.p, n0, n)
				break
			}
			cnt := n0 / 12
			for i := int64(0); i < cnt; i++ {
				e := b[i*12:]
				nid, from, ft := le.Uint64(e), int64(le.Uint16(e[8:])), e[10]
				to := n
				if i+1 < cnt {
					to = int64(le.Uint16(b[(i+1)*12+8:]))
				} else if from <= n {
					if z := bytes.IndexByte(b[from:n], 0); z >= 0 {
						to = from + int64(z)
					}
				}
				if from < n0 || to > n || to <= from || to-from > 255 {
					fail("directory %q: name of an entry is at %d to %d of %d bytes", j.p, from, to, n)
					break
				}
				name := string(b[from:to])
				if strings.ContainsAny(name, "/\x00") {
					fail("directory %q: entry %q", j.p, name)
					break
				}
				if !first && name <= prev {
					fail("directory %q: entry %q follows %q", j.p, name, prev)
					break
				}
				prev, first = name, false
				switch name {
				case ".":
					dot++
					if nid != j.nid || ft != 2 {
						fail("directory %q: its entry for itself is inode %d of type %d, want inode %d", j.p, nid, ft, j.nid)
					}
					continue
				case "..":
					dotdot++
					if nid != j.parent || ft != 2 {
						fail("directory %q: its entry for its parent is inode %d of type %d, want inode %d", j.p, nid, ft, j.parent)
					}
					continue
				}
				all++
				full := path.Join(j.p, name)
				if o, ok := byNid[nid]; ok && (strict || nodes[o].K == "d") {
					fail("%q and %q are the same inode", full, o)
					break
				} else if ok {
					x := *nodes[o]
					nodes[full] = &x
				} else {
					c := load(nid, full)
					if c == nil {
						break
					}
					nodes[full], byNid[nid] = c, full
					if c.K == "d" {
						subs++
						todo = append(todo, job{full, nid, j.nid})
					}
				}
				if ft != ftOf[nodes[full].K] {
					fail("%q: the type of the entry is %d and the inode is of kind %s", full, ft, nodes[full].K)
				}
			}
		}
		if complaint == "" && (dot != 1 || dotdot != 1) {
			fail("directory %q: has %d entries for itself and %d for its parent", j.p, dot, dotdot)
		}
		if strict && !live && d.nlink != 1 && (d.nlink < 2+subs || d.nlink > 2+all) {
			fail("directory %q with %d directories and %d entries: link count is %d", j.p, subs, all, d.nlink)
		}
	}
	if complaint != "" {
		return nil, complaint
	}
	if strict {
		for _, p := range sortedKeys(nodes) {
			if n := nodes[p]; n.K != "d" && n.nlink != 1 {
				return nil, fmt.Sprintf("%q: link count is %d", p, n.nlink)
			}
		}
		if inos != uint64(len(nodes)) {
			return nil, fmt.Sprintf("the superblock counts %d inodes, there are %d", inos, len(nodes))
		}
		sort.Slice(spans, func(i, j int) bool { return spans[i].from < spans[j].from })
		for i := 1; i < len(spans); i++ {
			if a, b := spans[i-1], spans[i]; a.to > b.from {
				return nil, fmt.Sprintf("%s overlaps %s", a.what, b.what)
			}
		}
		if last := spans[len(spans)-1].to; !live && (last+B-1)/B != blocks {
			return nil, fmt.Sprintf("the superblock counts %d blocks, there are %d", blocks, (last+B-1)/B)
		}
	}
	return nodes, ""
}

// ---- tar -----------------------------------------------------------------------

// decodeTar decodes a complete tar archive without links between its entries.
func decodeTar(m media) (nodes map[string]*rawNode, bad string) {
	nodes = map[string]*rawNode{}
	if m.size()%512 != 0 {
		return nil, fmt.Sprintf("%d bytes are no whole blocks", m.size())
	}
	zero := make([]byte, 512)
	var pax map[string]string
	var long, longLink *string
	for at := int64(0); ; {
		if at+1024 > m.size() {
			return nil, "two blocks of zeros at the end are missing"
		}
		h := m.at(at, 512)
		if bytes.Equal(h, zero) {
			if pax != nil || long != nil || longLink != nil {
				return nil, "extension without an entry at the end"
			}
			for ; at < m.size(); at += 512 {
				if !bytes.Equal(m.at(at, 512), zero) {
					return nil, fmt.Sprintf("data after the end of the archive, at %d", at)
				}
			}
			return nodes, ""
		}
		fail := func(format string, args ...any) (map[string]*rawNode, string) {
			return nil, fmt.Sprintf("header at %d (%q): ", at, cstr(h[:100])) + fmt.Sprintf(format, args...)
		}
		sum := int64(0)
		for i, c := range h {
			if i >= 148 && i < 156 {
				c = ' '
			}
			sum += int64(c)
		}
		gnu := string(h[257:265]) == "ustar  \x00"
		if !gnu && string(h[257:265]) != "ustar\x0000" {
			return fail("magic is %q", h[257:265])
		}
		num := func(a, b int) (int64, bool) {
			f := h[a:b]
			if f[0]&0x80 != 0 { // base 256
				if !gnu {
					return 0, false
				}
				v := int64(0)
				if f[0]&0x40 != 0 {
					v = -1
				}
				for i, c := range f {
					if i == 0 {
						if c&0x40 == 0 {
							c &= 0x3f
						}
					}
					if top := v >> 55; top != 0 && top != -1 {
						return 0, false
					}
					v = v<<8 | int64(c)
				}
				return v, true
			}
			s := strings.Trim(string(f), " \x00")
			if i := strings.IndexByte(s, 0); i >= 0 {
				return 0, false
			}
			if s == "" {
				return 0, true
			}
			v, err := strconv.ParseUint(s, 8, 63)
			return int64(v), err == nil && (f[len(f)-1] == 0 || f[len(f)-1] == ' ')
		}
		if v, ok := num(148, 156); !ok || v != sum {
			return fail("checksum field is %q, want %o", h[148:156], sum)
		}
		size, ok := num(124, 136)
		typ := h[156]
		paxed := false
		if s, has := pax["size"]; has && typ != 'x' && typ != 'g' {
			v, err := strconv.ParseInt(s, 10, 64)
			if err != nil || v < 0 {
				return fail("PAX size %q", s)
			}
			size, ok, paxed = v, true, true
		}
		if !ok {
			return fail("size field is %q", h[124:136])
		}
		_ = paxed
		blocks := (size + 511) / 512 * 512
		if at+512+blocks > m.size() {
			return fail("%d bytes of data exceed the archive", size)
		}
		data := at + 512
		switch typ {
		case 'x', 'L', 'K':
			if size > 1<<20 {
				return fail("extension of %d bytes", size)
			}
			b := m.at(data, size)
			switch typ {
			case 'x':
				if pax != nil {
					return fail("two extension headers in a row")
				}
				var s string
				if pax, s = parsePax(b); s != "" {
					return fail("%s", s)
				}
			case 'L', 'K':
				s := strings.TrimRight(string(b), "\x00")
				if typ == 'L' {
					long = &s
				} else {
					longLink = &s
				}
			}
			at = data + blocks
			continue
		case 'g':
			at = data + blocks
			continue
		}
		n := &rawNode{S: size, off: data}
		mode, ok := num(100, 108)
		if !ok || mode&^0o7777 != 0 {
			return fail("mode field is %q", h[100:108])
		}
		n.M = uint32(mode)
		get := func(key string, a, b int) (int64, bool) {
			if s, has := pax[key]; has {
				v, err := strconv.ParseInt(s, 10, 64)
				return v, err == nil
			}
			return num(a, b)
		}
		if n.U, ok = get("uid", 108, 116); !ok || n.U < 0 {
			return fail("owner field is %q", h[108:116])
		}
		if n.G, ok = get("gid", 116, 124); !ok || n.G < 0 {
			return fail("group field is %q", h[116:124])
		}
		if s, has := pax["mtime"]; has {
			sec, nsec, ok := paxTime(s)
			if !ok {
				return fail("PAX mtime %q", s)
			}
			n.T = time.Unix(sec, nsec)
		} else if sec, ok := num(136, 148); ok {
			n.T = time.Unix(sec, 0)
		} else {
			return fail("time field is %q", h[136:148])
		}
		name, link := cstr(h[:100]), cstr(h[157:257])
		if prefix := cstr(h[345:500]); !gnu && prefix != "" {
			name = prefix + "/" + name
		}
		if long != nil {
			name = *long
		}
		if longLink != nil {
			link = *longLink
		}
		if s, has := pax["path"]; has {
			name = s
		}
		if s, has := pax["linkpath"]; has {
			link = s
		}
		for k := range pax {
			switch k {
			case "path", "linkpath", "size", "uid", "gid", "mtime", "atime", "ctime", "uname", "gname":
			default:
				if !strings.Contains(k, ".") {
					return fail("PAX record %q", k)
				}
			}
		}
		pax, long, longLink = nil, nil, nil
		switch typ {
		case '0', 0:
			n.K = "f"
			if strings.HasSuffix(name, "/") {
				return fail("a file named %q", name)
			}
		case '2':
			n.K, n.L = "l", link
		case '3':
			n.K = "c"
		case '4':
			n.K = "b"
		case '5':
			n.K = "d"
			name = strings.TrimSuffix(name, "/")
		case '6':
			n.K = "p"
		default:
			return fail("type is %q", typ)
		}
		if n.K != "f" && size != 0 {
			return fail("%d bytes of data for kind %s", size, n.K)
		}
		if typ != '2' && link != "" {
			return fail("link target %q for kind %s", link, n.K)
		}
		if !fs.ValidPath(name) || name == "." {
			return fail("name is %q", name)
		}
		if nodes[name] != nil {
			return fail("%q is there twice", name)
		}
		nodes[name] = n
		at = data + blocks
	}
}

func cstr(b []byte) string {
	if i := bytes.IndexByte(b, 0); i >= 0 {
		b = b[:i]
	}
	return string(b)
}

func parsePax(b []byte) (map[string]string, string) {
	out := map[string]string{}
	for len(b) > 0 {
		i := bytes.IndexByte(b, ' ')
		if i <= 0 {
			return nil, "PAX record without length"
		}
		n, err := strconv.Atoi(string(b[:i]))
		if err != nil || n < i+3 || n > len(b) || b[n-1] != '\n' {
			return nil, fmt.Sprintf("PAX record of length %q", b[:i])
		}
		kv := string(b[i+1 : n-1])
		k, v, ok := strings.Cut(kv, "=")
		if !ok || k == "" {
			return nil, fmt.Sprintf("PAX record %q", kv)
		}
		out[k] = v
		b = b[n:]
	}
	return out, ""
}

func paxTime(s string) (sec, nsec int64, ok bool) {
	a, frac, _ := strings.Cut(s, ".")
	sec, err := strconv.ParseInt(a, 10, 64)
	if err != nil {
		return 0, 0, false
	}
	if len(frac) > 9 {
		frac = frac[:9]
	}
	if frac != "" {
		v, err := strconv.ParseUint(frac+strings.Repeat("0", 9-len(frac)), 10, 63)
		if err != nil {
			return 0, 0, false
		}
		nsec = int64(v)
		if strings.HasPrefix(a, "-") {
			nsec = -nsec
		}
	}
	return sec, nsec, true
}

// ---- ar ------------------------------------------------------------------------

// decodeAr decodes an ar archive without long name extensions.
func decodeAr(m media) (nodes map[string]*rawNode, bad string) {
	nodes = map[string]*rawNode{}
	if s := string(m.at(0, 8)); s != "!<arch>\n" {
		return nil, fmt.Sprintf("magic is %q", s)
	}
	at := int64(8)
	for at < m.size() {
		h := m.at(at, 60)
		fail := func(format string, args ...any) (map[string]*rawNode, string) {
			return nil, fmt.Sprintf("header at %d (%q): ", at, h) + fmt.Sprintf(format, args...)
		}
		if at+60 > m.size() {
			return fail("cut off")
		}
		if string(h[58:]) != "`\n" {
			return fail("bad end")
		}
		num := func(a, b, base int) (int64, bool) {
			v, err := strconv.ParseInt(strings.TrimRight(string(h[a:b]), " "), base, 64)
			return v, err == nil && h[a] != '+'
		}
		name := strings.TrimSuffix(strings.TrimRight(string(h[:16]), " "), "/")
		if name == "" || strings.ContainsAny(name, "/\x00\n") {
			return fail("name is %q", name)
		}
		if nodes[name] != nil {
			return fail("%q is there twice", name)
		}
		n := &rawNode{K: "f", off: at + 60}
		sec, ok := num(16, 28, 10)
		if !ok {
			return fail("time is %q", h[16:28])
		}
		n.T = time.Unix(sec, 0)
		if n.U, ok = num(28, 34, 10); !ok || n.U < 0 {
			return fail("owner is %q", h[28:34])
		}
		if n.G, ok = num(34, 40, 10); !ok || n.G < 0 {
			return fail("group is %q", h[34:40])
		}
		mode, ok := num(40, 48, 8)
		if !ok || mode < 0 || mode&^0o107777 != 0 {
			return fail("mode is %q", h[40:48])
		}
		n.M = uint32(mode & 0o7777)
		if n.S, ok = num(48, 58, 10); !ok || n.S < 0 {
			return fail("size is %q", h[48:58])
		}
		if n.off+n.S > m.size() {
			return fail("%d bytes exceed the archive", n.S)
		}
		nodes[name] = n
		at = n.off + n.S
		if at%2 != 0 {
			if b := m.at(at, 1); at >= m.size() || b[0] != '\n' {
				return fail("padding after %d bytes is missing", n.S)
			}
			at++
		}
	}
	return nodes, ""
}
