package main

import (
	"hash/fnv"
	"math"
	"math/rand"

	"verif/harness/pub"
	"verif/harness/tsscref"
	"verif/harness/vf"
)

// measGen produces measurement sequences of varied statistical shape.
type measGen struct {
	r      *rand.Rand
	sic    *pub.SIC
	mode   int
	pos    int
	now    int64
	deltas []int64
	flags  []uint32
	last   map[int32]uint32
	pal    []uint32
}

func newMeasGen(r *rand.Rand, sic *pub.SIC) *measGen {
	g := &measGen{r: r, sic: sic, mode: r.Intn(6), last: map[int32]uint32{}}
	g.now = 637500000000000000 + r.Int63n(1e15)
	for i := 0; i < 1+r.Intn(6); i++ {
		g.deltas = append(g.deltas, []int64{1, 10000, 333333, 166667, 100000, 10000000, r.Int63n(1 << uint(1+r.Intn(50)))}[r.Intn(7)])
	}
	g.flags = []uint32{0, 0x1000, r.Uint32(), r.Uint32() & 0xFF, 1 << uint(r.Intn(32))}[:1+r.Intn(5)]
	for i := 0; i < 1+r.Intn(5); i++ {
		g.pal = append(g.pal, r.Uint32())
	}
	g.pal = append(g.pal, pub.F32(59.97), pub.F32(60.01), 0)
	return g
}

func (g *measGen) next() pub.Meas {
	r := g.r
	var rec pub.SICRecord
	switch {
	case g.mode == 5 || r.Intn(20) == 0:
		rec = g.sic.Records[r.Intn(len(g.sic.Records))]
	default:
		rec = g.sic.Records[g.pos%len(g.sic.Records)]
		g.pos++
	}
	switch {
	case r.Intn(60) == 0:
		g.now = int64(r.Uint64() >> 2)
		if r.Intn(6) == 0 {
			g.now = int64(r.Uint64())
		}
	case r.Intn(40) == 0: // a difference at the edge of a length class
		g.now ^= int64(1+r.Intn(3)) << uint(7*(1+r.Intn(8)))
	case r.Intn(8) == 0:
		g.now -= g.deltas[r.Intn(len(g.deltas))]
	case g.mode == 3 || g.pos%len(g.sic.Records) == 0:
		g.now += g.deltas[r.Intn(len(g.deltas))]
	}
	var v uint32
	prev := g.last[rec.Index]
	switch g.mode {
	case 0:
		v = pub.F32(float32(60 + math.Sin(float64(g.pos)/50)/100))
	case 1:
		v = g.pal[r.Intn(len(g.pal))]
	case 2:
		v = r.Uint32()
	default:
		switch r.Intn(6) {
		case 0:
			v = prev
		case 1:
			v = 0
		case 2:
			v = g.pal[r.Intn(len(g.pal))]
		default:
			v = prev ^ (r.Uint32() >> uint(r.Intn(32)))
		}
	}
	g.last[rec.Index] = v
	f := g.flags[0]
	if r.Intn(4) == 0 {
		f = g.flags[r.Intn(len(g.flags))]
	}
	if r.Intn(100) == 0 {
		f = r.Uint32()
	}
	return pub.Meas{Index: rec.Index, ID: rec.ID, Value: v, Time: uint64(g.now), Flags: f}
}

// tsscStream is one compressed stream (one per signal index cache slot).
type tsscStream struct {
	slot byte
	gen  *measGen
	enc  *tsscref.Encoder
	seq  uint16
	r    *rand.Rand
	host bool
	cuts map[int]int // packet length at a clean boundary -> measurements up to there, for the last packet
}

func newTsscStream(r *rand.Rand, slot byte, sic *pub.SIC) *tsscStream {
	s := &tsscStream{slot: slot, gen: newMeasGen(r, sic), r: r, host: r.Intn(2) == 0}
	s.reset()
	return s
}

func (s *tsscStream) reset() {
	var er *rand.Rand
	if s.host {
		er = s.r
	}
	s.enc = tsscref.New(er)
	s.seq = 0
}

// packet encodes the next n measurements as a data packet payload.
func (s *tsscStream) packet(n int) (payload []byte, meas []pub.Meas) {
	s.cuts = map[int]int{0: 0}
	for i := 0; i < n; i++ {
		m := s.gen.next()
		s.enc.Add(m.Index, int64(m.Time), m.Flags, m.Value)
		meas = append(meas, m)
		if s.enc.AtBoundary() {
			s.cuts[s.enc.Len()] = len(meas)
		}
	}
	body := pub.TSSCBody(s.seq, s.enc.Flush())
	s.seq++
	if s.seq == 0 {
		s.seq = 1
	}
	flags := byte(pub.FlagCompressed | pub.FlagCompact)
	if s.r.Intn(2) == 0 {
		flags = pub.FlagCompressed
	}
	if s.slot == 1 {
		flags |= pub.FlagCacheIndex
	}
	if s.r.Intn(8) == 0 {
		flags |= pub.FlagSync
	}
	return pub.DataPacket(flags, n, body, nil, 0), meas
}

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

var c01 = &vf.Prop{
	ID: "C01",
	Rule: "each case is one session in which an independent encoder publishes generated measurement sequences as compressed packets " +
		"(random division, resets, two caches, hostile or canonical choice of code words) and the delivered sequence is compared item by item; " +
		"distinct_nontrivial counts different packets with at least two measurements",
	Quick: 480, Thorough: 6400,
	Case: func(t *vf.T) {
		gentle(t)
		r := t.R
		s := newSess(t)
		defer s.close()
		s.pool = r.Intn(2) == 0
		s.dial()
		rollover := t.Idx%60 == 7
		nsig := 1 + r.Intn(12)
		if r.Intn(4) == 0 {
			nsig = 1 + r.Intn(200)
		}
		streams := []*tsscStream{}
		for slot := 0; slot < 2; slot++ {
			sic := randSIC(r, nsig)
			s.sendSIC(sic, byte(slot))
			streams = append(streams, newTsscStream(r, byte(slot), sic))
		}
		if r.Intn(2) == 0 {
			s.con.RandomFrag(r.Int63())
		}
		var want []pub.Meas
		packets := 2 + r.Intn(25)
		if rollover {
			packets = 66000
			s.con.Frag, s.con.Delay = nil, nil
		}
		var buf []byte
		for p := 0; p < packets; p++ {
			st := streams[0]
			if !rollover {
				st = streams[r.Intn(2)]
				if r.Intn(12) == 0 {
					st.reset()
					t.Count("stream_resets", 1)
				}
			}
			n := 1
			if !rollover {
				n = []int{0, 1, 2, r.Intn(40), r.Intn(400), r.Intn(3000)}[r.Intn(6)]
			}
			payload, meas := st.packet(n)
			if n >= 2 {
				t.SigHash(hash(payload))
			}
			want = append(want, meas...)
			if rollover {
				buf = append(buf, pub.Wire(pub.RespDataPacket, pub.CmdSubscribe, payload)...)
				if len(buf) > 60000 || p == packets-1 {
					must(s.con.Raw(buf))
					buf = buf[:0]
				}
			} else {
				must(s.con.Send(pub.RespDataPacket, pub.CmdSubscribe, payload))
			}
			t.Eval(1)
		}
		if rollover {
			t.Count("sequence_rollovers", 1)
		}
		s.sync()
		s.compare(want)
		if t.Idx < 2 {
			t.Sample("case %d: %d packets, %d measurements over %d signals, first %v", t.Idx, packets, len(want), nsig, first(want))
		}
		for i, st := range streams {
			_ = i
			for c, n := range st.enc.Used {
				if n > 0 {
					t.Count("code_word_"+itoa(c), n)
				}
			}
			for m := 1; m <= 4; m++ {
				t.Count("code_table_mode_"+itoa(m), st.enc.Mode[m])
			}
		}
	},
	Done: schedDone,
}

func first(m []pub.Meas) interface{} {
	if len(m) == 0 {
		return "none"
	}
	return m[0]
}
