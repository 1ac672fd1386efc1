package h

import (
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
	"time"
)

// Content is the content of a file.  Most seeds give random bytes without zeros,
// some give what archivers may be tempted to treat specially.
func Content(seed uint64, size int64) []byte {
	b := make([]byte, size)
	x := seed
	switch seed >> 59 {
	case 31: // a hole
		return b
	case 30: // data and holes
		for i := range b {
			if hole := mix64(seed+uint64(i>>9)) % 3; hole != 0 {
				b[i] = byte(i) | 1
			}
		}
		return b
	case 29: // what ends an ar header, and padding
		for i := range b {
			b[i] = "\n`\n\n"[(i+int(seed))&3]
		}
		return b
	case 28: // an archive in an archive
		for i := range b {
			b[i] = nested[(i+int(seed&7)*512)%len(nested)]
		}
		return b
	}
	for i := 0; i < len(b); i += 8 {
		v := mix64(x)
		x += 0x9e3779b97f4a7c15
		for j := 0; j < 8 && i+j < len(b); j++ {
			c := byte(v >> (8 * j))
			if c == 0 {
				c = 0x01
			}
			b[i+j] = c
		}
	}
	return b
}

// hugeSize is from where on content is never held in memory: it is all zeros but
// for islands.
const hugeSize = 1 << 28

func (n *Node) huge() bool { return n.K == "f" && n.S >= hugeSize }

// islands are where the data of a huge file is: its ends, the places where
// numbers of a limited width wrap, and some others.
func (n *Node) islands() [][2]int64 {
	r := NewRng(n.C, 0x4e6e)
	l := [][2]int64{{0, 700}, {n.S - 700, n.S}}
	for b := 28; b < 40; b++ {
		if at := int64(1) << b; at+9000 < n.S {
			l = append(l, [2]int64{at - 300, at + 5000})
		}
	}
	for i := 0; i < 6; i++ {
		at := r.Int63n(n.S - 2000)
		l = append(l, [2]int64{at, at + 1 + r.Int63n(1500)})
	}
	sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] })
	out := l[:1]
	for _, x := range l[1:] {
		if o := &out[len(out)-1]; x[0] <= o[1] {
			o[1] = max(o[1], x[1])
		} else {
			out = append(out, x)
		}
	}
	return out
}

// hugeAt fills p with the content at off; islands as returned by islands().
func (n *Node) hugeAt(isl [][2]int64, p []byte, off int64) {
	clear(p)
	end := off + int64(len(p))
	i := sort.Search(len(isl), func(i int) bool { return isl[i][1] > off })
	for ; i < len(isl) && isl[i][0] < end; i++ {
		for k := max(off, isl[i][0]); k < min(end, isl[i][1]); k++ {
			p[k-off] = byte(mix64(n.C+uint64(k>>3))>>(8*(k&7))) | 1
		}
	}
}

// nested looks like an archive of every kind.
var nested = func() []byte {
	b := make([]byte, 4096)
	copy(b, "!<arch>\ndebian-binary   0           0     0     100644  4         `\n2.0\n")
	n := Node{K: "f", P: "nested", M: 0o644, S: 3}
	copy(b[512:], rawHeader(&n, '0', 3, "ustar\x0000"))
	copy(b[1024:], []byte{0xe2, 0xe1, 0xf5, 0xe0})
	return b
}()

// Data is the content of the file.
func (n *Node) Data() []byte {
	if n.F == "raw" {
		return []byte(n.raw)
	}
	if n.huge() {
		panic("sim: content of a huge file")
	}
	b := Content(n.C, n.S)
	if strings.HasPrefix(n.F, "sparse") {
		segs := sparseMap(n)
		d := make([]byte, len(b))
		for _, s := range segs {
			copy(d[s[0]:s[0]+s[1]], b[s[0]:])
		}
		return d
	}
	return b
}

// sparseMap lists the data segments (offset, length) of a sparse file.
func sparseMap(n *Node) [][2]int64 {
	var out [][2]int64
	r := NewRng(n.C, 5)
	at := int64(0)
	for i := 0; i < 1+r.Intn(4) && at < n.S; i++ {
		off := at + r.Int63n(2)*512*r.Int63n(4)
		l := min(512*(1+r.Int63n(3)), n.S-off)
		if off >= n.S {
			break
		}
		out = append(out, [2]int64{off, l})
		at = off + l
		if r.P(1, 3) {
			at += 512
		}
	}
	return out
}

func (n *Node) Time() time.Time {
	if n.TZ {
		return time.Time{}
	}
	return time.Unix(n.T, n.TN)
}

func kindMode(k string) fs.FileMode {
	switch k {
	case "d":
		return fs.ModeDir
	case "l":
		return fs.ModeSymlink
	case "c":
		return fs.ModeDevice | fs.ModeCharDevice
	case "b":
		return fs.ModeDevice
	case "p":
		return fs.ModeNamedPipe
	case "s":
		return fs.ModeSocket
	case "i":
		return fs.ModeIrregular
	}
	return 0
}

func modeKind(m fs.FileMode) string {
	switch m.Type() {
	case 0:
		return "f"
	case fs.ModeDir:
		return "d"
	case fs.ModeSymlink:
		return "l"
	case fs.ModeDevice | fs.ModeCharDevice, fs.ModeCharDevice:
		return "c"
	case fs.ModeDevice:
		return "b"
	case fs.ModeNamedPipe:
		return "p"
	case fs.ModeSocket:
		return "s"
	}
	return "i"
}

const permBits = fs.ModePerm | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky

func (n *Node) Mode() fs.FileMode { return kindMode(n.K) | fs.FileMode(n.M) }

// TreeOpts directs the tree generator.
type TreeOpts struct {
	Max      int // nodes at most
	Flat     bool
	Links    bool
	LongName bool
	MaxSize  int64
	NoSuid   bool
	NoNsec   bool
	BigDir   bool
	SmallIDs bool
	Names    func(r *Rng) string
}

var nameChars = []string{"a", "b", "c", "x", "y", "z", "A", "Z", "0", "9", "_", "-", ".", "é", "日", "+", "~"}

// Name generates a legal file name.
func Name(r *Rng, o *TreeOpts) string {
	if o.Names != nil {
		return o.Names(r)
	}
	switch r.Intn(26) {
	case 24:
		return Pick(r, "0", "1", "2", "3", "5", "10", "11", "12", "20", "00", "01", fmt.Sprint(r.Intn(500)))
	case 0:
		return Pick(r, "!", "!a", "-", "-a", "#x", "+", ",x", "%", "$", "&", " ", " a", "a ", "(", "'q'", "\"")
	case 1:
		return "." + Pick(r, "a", "b", ".a", "..", " ", "-", "git", "!")
	case 2:
		return Pick(r, "...", "..a", ".a.", "a..b", "a.", "a b", "a\tb", "ä", "日本", "\\", "a\\b", "a:b", "*", "?", "~")
	case 3:
		if o.LongName {
			n := Pick(r, 99, 100, 101, 154, 155, 156, 200, 254, 255)
			return strings.Repeat(string(rune('a'+r.Intn(26))), n-2) + fmt.Sprintf("%02d", r.Intn(100))
		}
		fallthrough
	case 4:
		if o.LongName {
			return strings.Repeat("x", 10+r.Intn(120)) + fmt.Sprint(r.Intn(1000))
		}
		return fmt.Sprintf("n%d", r.Intn(30))
	case 5, 6:
		s := ""
		for i := 0; i < 1+r.Intn(6); i++ {
			s += Pick(r, nameChars...)
		}
		if s == "." || s == ".." {
			s += "a"
		}
		return s
	}
	return Pick(r, "a", "b", "c", "d", "e", "f", "ab", "abc", "foo", "bar", "x1", "x2", "x10", "Z", "bin", "lib", "etc", "usr")
}

var edgeSizes = []int64{0, 1, 2, 7, 8, 511, 512, 513, 959, 960, 991, 992, 993, 1022, 1023, 1024, 1025, 2047, 3000, 4031, 4032, 4064, 4095, 4096, 4097, 4160, 5120, 8191, 8192, 8193, 12288, 16384, 20000, 32768, 65536, 100000}

func fileSize(r *Rng, max int64) int64 {
	for {
		var s int64
		switch r.Intn(6) {
		case 0:
			s = 0
		case 1:
			s = r.Int63n(64)
		case 2:
			s = r.Int63n(1100)
		case 3:
			s = r.Int63n(9000)
		default:
			s = edgeSizes[r.Intn(len(edgeSizes))]
		}
		if r.P(1, 150) {
			s = Pick[int64](r, 65537, 131071, 131072, 200000, 262145, 1<<20-1, 1<<20, 1<<20+1)
		}
		if max == 0 || s <= max {
			return s
		}
	}
}

func (o *TreeOpts) meta(r *Rng, n *Node) {
	n.M = uint32(Pick[fs.FileMode](r, 0o644, 0o755, 0o600, 0o777, 0, 0o400, 0o111, 0o7, 0o70, 0o640, fs.FileMode(r.Intn(0o1000))))
	if !o.NoSuid && r.P(1, 5) {
		n.M |= uint32(Pick(r, fs.ModeSetuid, fs.ModeSetgid, fs.ModeSticky, fs.ModeSetuid|fs.ModeSetgid|fs.ModeSticky))
	}
	id := func() int64 {
		if o.SmallIDs {
			return Pick[int64](r, 0, 1, 10, 1000, 99999, 999999, r.Int63n(1000000))
		}
		return Pick[int64](r, 0, 0, 0, 1, 1000, 65534, 65535, 65536, 99999, 999999, 1000000, 2097151, 2097152, 4294967294, r.Int63n(1<<16), r.Int63n(1<<32))
	}
	if r.P(2, 3) {
		n.U, n.G = id(), id()
	}
	switch r.Intn(8) {
	case 0:
		n.TZ = true
	case 1:
		n.T = Pick[int64](r, 0, 1, -1, -86400*365, 1<<31-1, 1<<31, 1<<32, 8589934591, 8589934592, 253402300799)
	default:
		n.T = 1600000000 + r.Int63n(200000000)
	}
	if !n.TZ && !o.NoNsec && r.P(1, 4) {
		n.TN = Pick[int64](r, 1, 999999999, 500000000, 123456789, r.Int63n(1000000000))
	}
}

// shortName makes directories in which hundreds of entries share a block.
func shortName(r *Rng) string {
	const c = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJ"
	s := c[r.Intn(len(c)):][:1]
	if r.P(7, 8) {
		s += c[r.Intn(len(c)):][:1]
	}
	return s
}

// fitNodes makes a directory whose entries fill blocks of the given size to the
// last byte, or miss or exceed that by little.
func fitNodes(r *Rng, block int) []Node {
	dir := Pick(r, "fit/", "fit/", "")
	var nodes []Node
	add := func(l int) {
		nm := fmt.Sprintf("%03d", len(nodes))
		nm += strings.Repeat("f", max(0, l-len(nm)))
		nodes = append(nodes, Node{P: dir + nm, K: Pick(r, "f", "f", "d"), M: 0o755, TZ: r.P(1, 2)})
	}
	left := block - 12 - 1 - 12 - 2 // after "." and ".."
	blocks := 1 + r.Intn(2)
	for b := 0; b < blocks; b++ {
		for left > 12+255+12+20 {
			l := 3 + r.Intn(250)
			add(l)
			left -= 12 + l
		}
		// Two entries for the rest.
		left += Pick(r, 0, 0, 0, 0, -1, -1, -2, 1)
		l := max(left/2-12, 3)
		add(l)
		add(left - 24 - l)
		left = block
	}
	for i := r.Intn(6); i > 0; i-- {
		add(3 + r.Intn(100))
	}
	if dir != "" {
		nodes = append([]Node{{P: "fit", K: "d", M: 0o755}}, nodes...)
	}
	return nodes
}

// GenTree generates a tree (without its root), parents before children.
func GenTree(r *Rng, o TreeOpts) []Node {
	var nodes []Node
	dirs, big := []string{"."}, "."
	taken := map[string]bool{}
	n := 1 + r.Intn(o.Max)
	if o.BigDir {
		n = o.Max
	}
	names := func(dir string) string {
		for i := 0; ; i++ {
			nm := Name(r, &o)
			if len(nodes) > 0 && i == 0 && o.Names == nil && r.P(1, 7) { // a name near another one
				nm = nearName(r, path.Base(nodes[r.Intn(len(nodes))].P))
			}
			if i > 8 {
				nm = fmt.Sprintf("%s%d", Pick(r, "n", "f", "q"), r.Intn(100000))
			}
			p := path.Join(dir, nm)
			if len(nm) > 255 || nm == "." || nm == ".." || strings.Contains(nm, "/") || !fs.ValidPath(p) || taken[p] {
				continue
			}
			return p
		}
	}
	for i := 0; i < n; i++ {
		dir := "."
		if !o.Flat {
			dir = dirs[r.Intn(len(dirs))]
			if r.P(1, 3) {
				dir = dirs[len(dirs)-1]
			}
			if o.BigDir && r.P(9, 10) {
				if i == 12 {
					big = dirs[r.Intn(len(dirs))]
				}
				if dir = big; i < 12 {
					dir = dirs[len(dirs)/2]
				}
			}
		}
		nd := Node{P: names(dir), C: r.U64()}
		taken[nd.P] = true
		o.meta(r, &nd)
		k := r.Intn(10)
		switch {
		case !o.Flat && k < 3:
			nd.K = "d"
			dirs = append(dirs, nd.P)
		case !o.Flat && o.Links && k < 5:
			nd.K = "l"
			nd.M = 0o777
			nd.L = genTarget(r, nodes, nd.P)
		default:
			nd.K = "f"
			if o.BigDir {
				nd.S = r.Int63n(20)
			} else {
				nd.S = fileSize(r, o.MaxSize)
			}
			if len(nodes) > 0 && r.P(1, 10) { // a copy
				if x := nodes[r.Intn(len(nodes))]; x.K == "f" {
					nd.S, nd.C = x.S, x.C
					if r.P(1, 3) {
						nd.M, nd.U, nd.G, nd.T, nd.TN, nd.TZ = x.M, x.U, x.G, x.T, x.TN, x.TZ
					}
				}
			}
		}
		nodes = append(nodes, nd)
	}
	if !o.Flat && r.P(1, 50) {
		nodes = append(nodes, deepNodes(r, &o, dirs[r.Intn(len(dirs))], taken)...)
	}
	return nodes
}

// deepNodes makes a long chain of directories with something at its end.
func deepNodes(r *Rng, o *TreeOpts, dir string, taken map[string]bool) []Node {
	depth := Pick(r, 10, 20, 33, 41, 70, 130)
	nm := Pick(r, "x", "x", "y", "deep", "0123456789abcdef")
	if o.LongName && r.P(1, 3) {
		nm = strings.Repeat("k", Pick(r, 50, 100, 155, 255))
		depth = min(depth, 40)
	}
	var nodes []Node
	add := func(k, name string) string {
		nd := Node{P: path.Join(dir, name), K: k, C: r.U64()}
		if taken[nd.P] {
			return nd.P
		}
		taken[nd.P] = true
		o.meta(r, &nd)
		if k == "f" {
			nd.S = r.Int63n(2000)
		} else if k == "l" {
			nd.M = 0o777
			nd.L = Pick(r, strings.Repeat("../", r.Intn(depth+3))+"f", strings.Repeat("../", depth)+nm, "/"+dir, nm+"/../"+nm)
			if len(nd.L) > 4000 { // longer ones have their own cases
				nd.L = nm
			}
		}
		nodes = append(nodes, nd)
		return nd.P
	}
	for i := 0; i < depth; i++ {
		if p := path.Join(dir, nm); taken[p] {
			return nodes
		}
		dir = add("d", nm)
		if r.P(1, 12) {
			add("f", "f")
		}
		if o.Links && r.P(1, 12) {
			add("l", "l")
		}
	}
	add("f", "f")
	if o.Links {
		add("l", "l")
	}
	return nodes
}

// nearName is a name that is easily confused with the given one.
func nearName(r *Rng, nm string) string {
	switch r.Intn(9) {
	case 0:
		if s := strings.ToUpper(nm); s != nm {
			return s
		}
		return strings.ToLower(nm)
	case 1:
		return nm + Pick(r, "a", ".", " ", "~", "-", "!", "0", "\x01")
	case 2:
		return Pick(r, ".", " ", "-", "a") + nm
	case 3:
		if rs := []rune(nm); len(rs) > 1 {
			return string(rs[:len(rs)-1])
		}
	case 4:
		if rs := []rune(nm); len(rs) > 1 {
			return string(rs[1:])
		}
	case 5:
		return nm + Pick(r, ".wh", ".d", ".~1~")
	}
	return nm // the same name in another directory
}

func genTarget(r *Rng, nodes []Node, p string) string {
	switch r.Intn(12) {
	case 0:
		return "nowhere/to/be/found"
	case 1:
		return path.Base(p) // itself
	case 2:
		return strings.Repeat("../", 1+r.Intn(5)) + "x"
	case 3:
		n := Pick(r, 99, 100, 101, 255, 256, 1023, 1024, 1025, 3000, 4095)
		return strings.Repeat("t", n)
	case 4:
		return Pick(r, ".", "..", "/", "./.", "a//b", "a/./b", "/../..", "./a", " a", "a ", "\xff"+"raw")
	}
	if len(nodes) == 0 {
		return "a"
	}
	t := nodes[r.Intn(len(nodes))].P
	switch r.Intn(4) {
	case 0:
		return "/" + t
	case 1:
		return strings.Repeat("../", strings.Count(p, "/")) + t
	case 2:
		return "./" + strings.Repeat("../", strings.Count(p, "/")) + t
	}
	return path.Base(t)
}

// Normalize makes any list of nodes a valid tree again (used while minimising):
// nodes whose parent is missing or no directory are dropped.
func Normalize(nodes []Node) []Node {
	kind := map[string]string{".": "d"}
	var out []Node
	sorted := append([]Node(nil), nodes...)
	sort.SliceStable(sorted, func(i, j int) bool {
		return strings.Count(sorted[i].P, "/") < strings.Count(sorted[j].P, "/")
	})
	keep := map[string]bool{}
	for _, n := range sorted {
		if kind[path.Dir(n.P)] != "d" || kind[n.P] != "" {
			continue
		}
		kind[n.P] = n.K
		keep[n.P] = true
	}
	seen := map[string]bool{}
	for _, n := range nodes {
		if keep[n.P] && !seen[n.P] {
			seen[n.P] = true
			out = append(out, n)
		}
	}
	return out
}

// Model is a tree as the reference sees it.
type Model struct {
	N    map[string]*Node
	kids map[string][]string // sorted names
}

func NewModel(nodes []Node) *Model {
	m := &Model{N: map[string]*Node{".": {P: ".", K: "d", M: 0o755}}, kids: map[string][]string{}}
	for i := range nodes {
		n := nodes[i]
		m.N[n.P] = &n
		m.kids[path.Dir(n.P)] = append(m.kids[path.Dir(n.P)], path.Base(n.P))
	}
	for _, l := range m.kids {
		sort.Strings(l)
	}
	return m
}

// modelOf is the tree of a plan; the metadata of its root is not always plain.
func modelOf(p *Plan) *Model {
	m := NewModel(p.Nodes)
	if k := p.Kv("root", 0); k != 0 {
		n := m.N["."]
		(&TreeOpts{SmallIDs: k&1 != 0}).meta(NewRng(uint64(k), 0x400), n)
	}
	return m
}

// Res is the result of resolving a path.
type Res struct {
	Node  *Node
	NoEnt bool // missing
	Bad   bool // below a non-directory, cycle
	Links int
}

// Resolve is POSIX path resolution with the root of the tree as "/".
func (m *Model) Resolve(p string, followLast bool) Res {
	comps := split(p)
	cur := []string{} // path of the current node
	kind := "d"
	links := 0
	for steps := 0; len(comps) > 0; steps++ {
		c := comps[0]
		comps = comps[1:]
		if kind != "d" {
			return Res{Bad: true, Links: links}
		}
		switch c {
		case ".":
			continue
		case "..":
			if len(cur) > 0 {
				cur = cur[:len(cur)-1]
			}
			continue
		}
		full := strings.Join(append(append([]string{}, cur...), c), "/")
		n := m.N[full]
		if n == nil {
			return Res{NoEnt: true, Links: links}
		}
		if n.K == "l" && (followLast || len(comps) > 0) {
			links++
			if links > 400 {
				return Res{Bad: true, Links: links}
			}
			if n.L == "" {
				return Res{NoEnt: true, Links: links}
			}
			if strings.HasPrefix(n.L, "/") {
				cur = nil
			}
			comps = append(split(n.L), comps...)
			continue
		}
		cur = append(append([]string{}, cur...), c)
		kind = n.K
	}
	if len(cur) == 0 {
		return Res{Node: m.N["."], Links: links}
	}
	return Res{Node: m.N[strings.Join(cur, "/")], Links: links}
}

func split(p string) []string {
	var l []string
	for _, c := range strings.Split(p, "/") {
		if c != "" {
			l = append(l, c)
		}
	}
	return l
}
