// Package tsscref is an independent encoder for the Time-Series Special Compression algorithm. It mirrors the
// published state machine (per-point adaptive prefix codes, delta times, xor values) and can be told to choose at
// random among the legal encodings of a measurement.
package tsscref

import "math/rand"

// Code words.
const (
	EndOfStream = iota
	PointIDXor4
	PointIDXor8
	PointIDXor12
	PointIDXor16
	PointIDXor20
	PointIDXor24
	PointIDXor32
	TimeDelta1Fwd
	TimeDelta2Fwd
	TimeDelta3Fwd
	TimeDelta4Fwd
	TimeDelta1Rev
	TimeDelta2Rev
	TimeDelta3Rev
	TimeDelta4Rev
	Timestamp2
	TimeXor7
	Flags2
	Flags7
	Value1
	Value2
	Value3
	ValueZero
	ValueXor4
	ValueXor8
	ValueXor12
	ValueXor16
	ValueXor20
	ValueXor24
	ValueXor28
	ValueXor32
)

type point struct {
	next       int32
	f1, f2     uint32
	v1, v2, v3 uint32
	stats      [32]uint8
	since      int
	mode       int
	short      [3]int
	startup    int
}

func newPoint() *point { return &point{mode: 4, short: [3]int{Value1, Value2, Value3}} }

// Encoder encodes measurements of one stream.
type Encoder struct {
	Rand *rand.Rand // nil: canonical choices
	Used [32]int    // code words emitted
	Mode [5]int     // code-table modes used

	t1, t2 int64
	d      [4]int64
	last   *point
	points map[int32]*point

	out     []byte
	bitPos  int // index of the byte that collects bits, -1 none
	bitFree int // free bits in that byte
}

const maxDelta = int64(^uint64(0) >> 1)

// New makes an encoder in the reset state.
func New(r *rand.Rand) *Encoder {
	e := &Encoder{Rand: r, points: map[int32]*point{}, last: newPoint(), bitPos: -1}
	e.d = [4]int64{maxDelta, maxDelta, maxDelta, maxDelta}
	return e
}

func (e *Encoder) bit(b int) {
	if e.bitPos < 0 {
		e.bitPos = len(e.out)
		e.out = append(e.out, 0)
		e.bitFree = 8
	}
	e.bitFree--
	if b != 0 {
		e.out[e.bitPos] |= 1 << uint(e.bitFree)
	}
	if e.bitFree == 0 {
		e.bitPos = -1
	}
}

func (e *Encoder) bits(v uint32, n int) {
	for i := n - 1; i >= 0; i-- {
		e.bit(int(v>>uint(i)) & 1)
	}
}

func (e *Encoder) code(p *point, c int) {
	e.Used[c]++
	e.Mode[p.mode]++
	k := p.mode - 1 // number of short codes
	done := false
	for i := 0; i < k; i++ {
		if p.short[i] == c && !done {
			for j := 0; j < i; j++ {
				e.bit(0)
			}
			e.bit(1)
			done = true
		}
	}
	if !done {
		for j := 0; j < k; j++ {
			e.bit(0)
		}
		e.bits(uint32(c), 5)
	}
	p.since++
	p.stats[c]++
	switch {
	case p.startup == 0 && p.since > 5:
		p.startup = 1
		p.adapt()
	case p.startup == 1 && p.since > 20:
		p.startup = 2
		p.adapt()
	case p.startup == 2 && p.since > 100:
		p.adapt()
	}
}

func (p *point) adapt() {
	// The three most frequent codes; on ties the lower code number keeps its rank.
	type cc struct{ code, n int }
	best := [3]cc{{0, 0}, {1, 0}, {2, 0}}
	total := 0
	for i, s := range p.stats {
		n := int(s)
		total += n
		p.stats[i] = 0
		switch {
		case n <= best[2].n:
		case n > best[0].n:
			best[2], best[1], best[0] = best[1], best[0], cc{i, n}
		case n > best[1].n:
			best[2], best[1] = best[1], cc{i, n}
		default:
			best[2] = cc{i, n}
		}
	}
	c1, c2, c3 := best[0].n, best[1].n, best[2].n
	size := [4]int{total * 5, c1 + (total-c1)*6, c1 + 2*c2 + (total-c1-c2)*7, c1 + 2*c2 + 3*c3 + (total-c1-c2-c3)*8}
	m := 0
	for i := 1; i < 4; i++ {
		if size[i] < size[m] {
			m = i
		}
	}
	p.mode = m + 1
	for i := 0; i < m; i++ {
		p.short[i] = best[i].code
	}
	p.since = 0
}

func (e *Encoder) bytes(v uint64, n int) {
	for i := 0; i < n; i++ {
		e.out = append(e.out, byte(v>>(8*uint(i))))
	}
}

func (e *Encoder) varint(v uint64, maxBytes int) {
	for i := 0; ; i++ {
		if i == maxBytes-1 || v < 128 {
			e.out = append(e.out, byte(v))
			return
		}
		e.out = append(e.out, byte(v)|0x80)
		v >>= 7
	}
}

func nibbles(v uint32) int {
	n := 1
	for v>>4 != 0 {
		n++
		v >>= 4
	}
	return n
}

// xorBody writes n nibbles: odd counts put the low nibble into the bit stream, the rest are little-endian bytes.
func (e *Encoder) xorBody(v uint32, n int) {
	if n%2 == 1 {
		e.bits(v&15, 4)
		e.bytes(uint64(v>>4), n/2)
	} else {
		e.bytes(uint64(v), n/2)
	}
}

func (e *Encoder) chance(n int) bool { return e.Rand != nil && e.Rand.Intn(n) == 0 }

// Add encodes one measurement.
func (e *Encoder) Add(id int32, ts int64, flags, value uint32) {
	p := e.points[id]
	if p == nil {
		p = newPoint()
		p.next = id + 1
		e.points[id] = p
	}
	l := e.last

	if l.next != id || e.chance(30) {
		x := uint32(id) ^ uint32(l.next)
		n := nibbles(x)
		if e.Rand != nil && e.Rand.Intn(4) == 0 {
			n += e.Rand.Intn(8 - n + 1)
		}
		if n == 7 {
			n = 8
		}
		c := PointIDXor4 + n - 1
		if n == 8 {
			c = PointIDXor32
		}
		e.code(l, c)
		e.xorBody(x, n)
		l.next = id
	}

	if e.t1 != ts || e.chance(30) {
		e.time(l, ts)
	}

	if p.f1 != flags || e.chance(30) {
		if p.f2 == flags && !e.chance(4) {
			e.code(l, Flags2)
		} else {
			e.code(l, Flags7)
			e.varint(uint64(flags), 5)
		}
		p.f2, p.f1 = p.f1, flags
	}

	switch {
	case p.v1 == value && !e.chance(8):
		e.code(l, Value1)
	case p.v2 == value && !e.chance(8):
		e.code(l, Value2)
		p.v2, p.v1 = p.v1, value
	case p.v3 == value && !e.chance(8):
		e.code(l, Value3)
		p.v3, p.v2, p.v1 = p.v2, p.v1, value
	case value == 0 && !e.chance(8):
		e.code(l, ValueZero)
		p.v3, p.v2, p.v1 = p.v2, p.v1, 0
	default:
		x := value ^ p.v1
		n := nibbles(x)
		if e.Rand != nil && e.Rand.Intn(4) == 0 {
			n += e.Rand.Intn(8 - n + 1)
		}
		e.code(l, ValueXor4+n-1)
		e.xorBody(x, n)
		p.v3, p.v2, p.v1 = p.v2, p.v1, value
	}
	e.last = p
}

func (e *Encoder) time(l *point, ts int64) {
	var opts []int
	if e.t2 == ts {
		opts = append(opts, Timestamp2)
	}
	for i := 0; i < 4; i++ {
		if e.t1+e.d[i] == ts {
			opts = append(opts, TimeDelta1Fwd+i)
		}
		if e.t1-e.d[i] == ts {
			opts = append(opts, TimeDelta1Rev+i)
		}
	}
	opts = append(opts, TimeXor7)
	c := opts[0]
	if e.Rand != nil && e.Rand.Intn(4) == 0 {
		c = opts[e.Rand.Intn(len(opts))]
	}
	e.code(l, c)
	if c == TimeXor7 {
		e.varint(uint64(ts^e.t1), 9)
	}
	delta := e.t1 - ts
	if delta < 0 {
		delta = -delta
	}
	if delta < e.d[3] && delta != e.d[0] && delta != e.d[1] && delta != e.d[2] {
		i := 0
		for delta >= e.d[i] {
			i++
		}
		copy(e.d[i+1:], e.d[i:3])
		e.d[i] = delta
	}
	e.t2, e.t1 = e.t1, ts
}

// Len is the current size of the packet.
func (e *Encoder) Len() int { return len(e.out) }

// AtBoundary tells whether the packet so far is complete on its own: no partly used byte collects bits.
func (e *Encoder) AtBoundary() bool { return e.bitPos < 0 }

// Flush ends the packet and returns its bytes.
func (e *Encoder) Flush() []byte {
	if e.bitPos >= 0 {
		e.code(e.last, EndOfStream)
		for e.bitPos >= 0 {
			e.bit(0)
		}
	}
	out := e.out
	e.out = nil
	e.bitPos = -1
	return out
}
