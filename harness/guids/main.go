// Command guids checks GUID conversion and ordering.
package main

import (
	"bytes"
	"encoding/hex"
	"math/rand"
	"strings"

	"github.com/sttp/goapi/sttp/guid"

	"verif/harness/vf"
)

func randBytes(r *rand.Rand) (b [16]byte) {
	switch r.Intn(5) {
	case 0:
		r.Read(b[:])
	case 1: // few non-zero bytes
		for i := 0; i < r.Intn(4); i++ {
			b[r.Intn(16)] = byte(r.Intn(256))
		}
	case 2:
		for i := range b {
			b[i] = 0xFF
		}
		b[r.Intn(16)] = byte(r.Intn(256))
	case 3:
		for i := range b {
			b[i] = byte(0x7F + r.Intn(3))
		}
	default:
		for i := range b {
			b[i] = byte(i + 1)
		}
		b[r.Intn(16)] ^= byte(r.Intn(256))
	}
	return
}

func text(b [16]byte) string {
	h := hex.EncodeToString(b[:])
	return h[0:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

func swapped(b [16]byte) []byte {
	o := append([]byte(nil), b[:]...)
	o[0], o[1], o[2], o[3] = b[3], b[2], b[1], b[0]
	o[4], o[5] = b[5], b[4]
	o[6], o[7] = b[7], b[6]
	return o
}

func sign(i int) int {
	if i < 0 {
		return -1
	}
	if i > 0 {
		return 1
	}
	return 0
}

func one(t *vf.T) {
	r := t.R
	b := randBytes(r)
	g := guid.Guid(b)
	txt := text(b)

	for _, sw := range []bool{false, true} {
		want := b[:]
		if sw {
			want = swapped(b)
		}
		out := g.ToBytes(sw)
		if !bytes.Equal(out, want) {
			t.Fatalf("%s.ToBytes(%v) = %x, want %x", txt, sw, out, want)
		}
		// writing to the result must not reach the value
		for i := range out {
			out[i] ^= 0x55
		}
		if [16]byte(g) != b {
			t.Fatalf("ToBytes(%v) result aliases the value", sw)
		}
		tail := make([]byte, r.Intn(20))
		r.Read(tail)
		in := append(append([]byte(nil), want...), tail...)
		keep := append([]byte(nil), in...)
		back, err := guid.FromBytes(in, sw)
		if err != nil || [16]byte(back) != b {
			t.Fatalf("FromBytes(%x, %v) = %v, %v; want %s", in, sw, back, err, txt)
		}
		if !bytes.Equal(in, keep) {
			t.Fatalf("FromBytes(%v) modified its input: %x to %x", sw, keep, in)
		}
		for i := range in {
			in[i] ^= 0xAA
		}
		if [16]byte(back) != b {
			t.Fatalf("FromBytes(%v) result aliases its input", sw)
		}
		short := keep[:r.Intn(16)]
		if _, err := guid.FromBytes(short, sw); err == nil {
			t.Fatalf("FromBytes accepted %d bytes", len(short))
		}
	}

	s := g.String()
	if s != "{"+txt+"}" {
		t.Fatalf("String() = %s, want {%s}", s, txt)
	}
	for _, form := range []string{s, txt, strings.ToUpper(txt), "{" + strings.ToUpper(txt) + "}", "urn:uuid:" + txt, strings.ReplaceAll(txt, "-", "")} {
		p, err := guid.Parse(form)
		if err != nil || [16]byte(p) != b {
			t.Fatalf("Parse(%q) = %v, %v; want %s", form, p, err, txt)
		}
	}
	// malformed text
	bad := []byte(txt)
	how := r.Intn(4)
	switch how {
	case 0:
		bad = bad[:r.Intn(len(bad))]
		if len(bad) == 32 { // a dashed prefix is never a plain 32 digit form
			bad = bad[:31]
		}
	case 1:
		i := r.Intn(len(bad))
		if bad[i] == '-' {
			bad[i] = 'x'
		} else {
			bad[i] = "ghzGZ -_.!"[r.Intn(10)]
		}
	case 2:
		bad = append(bad, "0f-"[r.Intn(3)])
	case 3:
		i := []int{8, 13, 18, 23}[r.Intn(4)]
		bad[i] = '0'
	}
	if p, err := guid.Parse(string(bad)); err == nil {
		t.Fatalf("Parse(%q) accepted malformed text as %v", bad, p)
	}

	// ordering
	c := randBytes(r)
	if r.Intn(2) == 0 {
		c = b
		for i := 0; i < r.Intn(3); i++ {
			c[r.Intn(16)] ^= byte(1 << uint(r.Intn(8)))
		}
	}
	h := guid.Guid(c)
	want := sign(strings.Compare(txt, text(c)))
	if got := guid.Compare(g, h); got != want {
		t.Fatalf("Compare(%s, %s) = %d, want %d", txt, text(c), got, want)
	}
	if got := g.Compare(h); got != want {
		t.Fatalf("%s.Compare(%s) = %d, want %d", txt, text(c), got, want)
	}
	if got := h.Compare(g); got != -want {
		t.Fatalf("%s.Compare(%s) = %d, want %d", text(c), txt, got, -want)
	}
	if g.Equal(h) != (b == c) || guid.Equal(g, h) != (b == c) {
		t.Fatalf("Equal(%s, %s) wrong", txt, text(c))
	}
	if g.IsZero() != (b == [16]byte{}) {
		t.Fatalf("IsZero(%s) = %v", txt, g.IsZero())
	}
	a1, b1, c1, d1 := g.Components()
	if a1 != uint32(b[0])<<24|uint32(b[1])<<16|uint32(b[2])<<8|uint32(b[3]) || b1 != uint16(b[4])<<8|uint16(b[5]) || c1 != uint16(b[6])<<8|uint16(b[7]) || !bytes.Equal(d1[:], b[8:]) {
		t.Fatalf("Components(%s) = %x %x %x %x", txt, a1, b1, c1, d1)
	}
	t.Eval(1)
	t.Count("order_result_"+[]string{"less", "equal", "greater"}[want+1], 1)
	t.Sig("%x %x", b, c)
	if t.Idx == 0 {
		t.Sample("%s compared with %s: %d; malformed %q rejected", txt, text(c), want, bad)
	}
}

func main() {
	vf.Main(&vf.Prop{
		ID:    "C25",
		Rule:  "generated GUID pairs (random, sparse, boundary bytes, near-equal) through every conversion and comparison; distinct_nontrivial counts different pairs",
		Quick: 400, Thorough: 6000,
		Case: func(t *vf.T) {
			for i := 0; i < 1000; i++ {
				one(t)
			}
			seen := map[guid.Guid]bool{}
			for i := 0; i < 50; i++ {
				g := guid.New()
				if seen[g] || g.IsZero() {
					t.Fatalf("New returned %v twice or empty", g)
				}
				seen[g] = true
			}
		},
	})
}
