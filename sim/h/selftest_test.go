package h

import (
	"os"
	"testing"
)

// The decoders are held against images that neither they nor the library made.
func TestDecodeMkfs(t *testing.T) {
	b, err := os.ReadFile("/repo/erofs/testdata/toybox.img")
	if err != nil {
		t.Skip(err)
	}
	n, bad := decodeErofs(media{&Disk{data: b}}, true, false)
	t.Log(len(n), bad)
	if bad != "" {
		t.Fatal(bad)
	}
}

// and the builder of C18 against the decoder.
func TestDecodeBuilder(t *testing.T) {
	refused := 0
	for i := 0; i < 3000; i++ {
		p := genC18(NewRng(uint64(i), 18), i, false)
		for j := range p.Nodes {
			if n := &p.Nodes[j]; n.odd() {
				n.F = n.F[:2]
			}
		}
		img, m, refuse := buildErofs(p)
		if img == nil || refuse != "" {
			refused++
			continue
		}
		n, bad := decodeErofs(media{img.disk(nil)}, false, false)
		if bad == "" {
			for p, x := range m.N {
				if n[p] == nil || n[p].K != x.K {
					bad = "differs at " + p
				}
			}
			if len(n) != len(m.N) {
				bad = "other nodes"
			}
		}
		if bad != "" {
			t.Errorf("%d: %s", i, bad)
		}
	}
	t.Log(refused)
}
