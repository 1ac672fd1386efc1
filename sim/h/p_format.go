package h

import (
	"fmt"
)

// C22, C24: what Create leaves is well-formed, whoever reads it.

func genFormat(pick func(r *Rng, idx int) string) func(r *Rng, idx int, thorough bool) *Plan {
	return func(r *Rng, idx int, thorough bool) *Plan {
		format := pick(r, idx)
		if format == "erofs" && idx%768 == 767 {
			return genWide(r, thorough)
		}
		var p *Plan
		if r.P(1, 3) { // for faults: small
			p = genAnyCreate(r, map[string]int{"tar": 0, "ar": 8, "erofs": 16}[format], thorough)
		} else {
			p = genRoundtrip(format)(r, idx, thorough)
		}
		if format == "tar" && r.P(1, 6) {
			p.Nodes = append(p.Nodes, Node{P: "special", K: Pick(r, "c", "b", "p", "s"), M: 0o640, U: 5, G: 6, T: 77})
		}
		return p
	}
}

// genWide makes a directory that has more entries than 16 bits count.
func genWide(r *Rng, thorough bool) *Plan {
	return &Plan{Kind: "erofs", Seed: r.U64(), Kn: map[string]int64{"sys": 0, "maxsteps": 2_000_000_000,
		"wide": Pick[int64](r, 65533, 65534, 65534, 65534, 65535, 65536, 65537, 65600), "widekind": int64(r.Intn(16))}}
}

// wide adds the nodes of genWide, which are not spelled out in plans.
func wide(p *Plan) *Plan {
	k, kind := p.Kv("wide", 0), p.Kv("widekind", 0)
	if k == 0 {
		return p
	}
	p = p.Clone()
	top := ""
	if kind>>1 != 0 { // (now and then the root)
		p.Nodes, top = []Node{{P: "w", K: "d", M: 0o755, TZ: kind>>1 != 1}}, "w/"
	}
	for i := int64(0); i < k; i++ {
		n := Node{P: fmt.Sprintf("%s%x", top, i), K: "f", M: 0o644, TZ: true}
		if kind&1 != 0 {
			n.K, n.M = "d", 0o755
		}
		p.Nodes = append(p.Nodes, n)
	}
	return p
}

func deriveFormat(r *Rng, p *Plan, o *Outcome, thorough bool) []*Plan {
	if len(p.Nodes) > 20 || p.Kv("wide", 0) != 0 || p.Kv("osfile", 0) != 0 || !r.P(1, 2) {
		return nil
	}
	return deriveCreate(2, createFaults)(r, p, o, thorough)
}

func execFormat(p *Plan, o *Outcome) {
	p = wide(p)
	c := creationOf(p)
	env := NewEnv(p, 1)
	m := modelOf(p)
	st, _, err, ok := c.run(p, o, env, m)
	env.countFired(o)
	if !ok {
		return
	}
	o.noteStr(fmt.Sprint(err != nil))
	if err != nil {
		o.probe("create refused")
		return
	}
	d := st.disk(nil)
	o.note(d.hash())
	o.Nontrivial = len(p.Nodes) > 0
	if len(p.Faults) > 0 && env.anyFired() {
		o.probe("well-formed after a fault")
	}
	if len(p.Nodes) > 60000 {
		o.probe("directory of more than 60000 entries")
	}
	if st.big != nil {
		o.probe("archive of more than 2 GiB")
	}
	nodes, bad := decodeFmt(c.format, d, false)
	if bad == "" && c.format == "erofs" {
		end := int64(le32(d, 1024+36)) << (media{d}.at(1024+12, 1)[0])
		if c.osfile && d.size() != end || c.prefill == 0 && d.size() > end {
			bad = fmt.Sprintf("it has %d bytes, the superblock counts %d", d.size(), end)
		}
	}
	if bad != "" {
		o.fail("ill-formed", "%s archive: %s", c.format, bad)
		return
	}
	if s := compareRaw(media{d}, nodes, m, c.exp()); s != "" {
		o.fail("decodes-differently", "%s archive, decoded independently: %s", c.format, s)
	}
}

func le32(d *Disk, off int64) uint32 {
	b := media{d}.at(off, 4)
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

func init() {
	faults := []string{"write error", "short write", "disk full", "source errors", "file shrinks", "file grows"}
	rule := "a random source tree (as for C01 to C03, with special files, huge files, directories of 65534 and more entries, dirty destinations) is archived under legal I/O misbehaviour, some also with one or two faults; whenever Create returns nil the bytes go through a strict decoder written from the format description and the decoded tree is compared with the model; non-trivial: Create succeeded on a tree that is not empty"
	real := []string{"erofs (writer)", "tarfs.Create, arfs.Create", "archive/tar (writer)", "io/fs"}
	register(&Prop{ID: "C22", Quick: 7000, Thorough: 300000, Real: real, Stub: stubStore, Faults: faults, Rule: rule,
		Gen: genFormat(func(*Rng, int) string { return "erofs" }), Derive: deriveFormat, Exec: execFormat})
	register(&Prop{ID: "C24", Quick: 14000, Thorough: 500000, Real: real, Stub: stubStore, Faults: faults, Rule: rule,
		Gen: genFormat(func(r *Rng, idx int) string { return Pick(r, "tar", "ar") }), Derive: deriveFormat, Exec: execFormat})
}
