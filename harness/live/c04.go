package main

import (
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"fmt"

	"github.com/sttp/goapi/sttp"

	"verif/harness/pub"
	"verif/harness/vf"
)

// tsscPacket is one packet of a compressed stream as it left the publisher.
type tsscPacket struct {
	slot    int
	seq     uint16
	payload []byte
	meas    []pub.Meas
}

var c04 = &vf.Prop{
	ID: "C04",
	Rule: "each case loses, repeats, swaps, corrupts or truncates packets of compressed and compact streams, or sends data before its cache " +
		"(also on a later connection of the same subscriber), with recycled buffers; a sequence model decides which packets may deliver and the " +
		"delivered sequence and totals are compared with it; distinct_nontrivial counts different fault histories",
	Assumptions: []string{"the packet that restarts a compressed stream (sequence number 0) is itself not lost or delayed past later ones"},
	Quick:       4000, Thorough: 60000,
	Case: func(t *vf.T) {
		gentle(t)
		r := t.R
		s := newSess(t)
		defer s.close()
		s.pool = r.Intn(4) != 0
		set := sttp.NewSettings()
		var want []pub.Meas
		sig := uint64(17)
		mark := func(format string, a ...interface{}) {
			x := fmt.Sprintf(format, a...)
			sig = sig*1099511628211 ^ hash([]byte(x))
			t.Logf("%s", x)
		}
		connections := 1 + r.Intn(2)
		for c := 0; c < connections; c++ {
			s.dial()
			s.subscribe("FILTER X WHERE True", set)
			base := s.count()
			sic := [2]*pub.SIC{}
			expected := [2]uint16{}
			streams := [2]*tsscStream{}
			pending := [2][]tsscPacket{}
			g := &compactGen{r: r, includeTime: true}
			send := func(payload []byte) { must(s.con.Send(pub.RespDataPacket, pub.CmdSubscribe, payload)) }
			// deliver models the subscriber's view of one compressed packet.
			deliver := func(p tsscPacket) {
				send(p.payload)
				t.Eval(1)
				if p.seq == 0 {
					expected[p.slot] = 0
				}
				if p.seq != expected[p.slot] {
					mark("dropped slot %d", p.slot)
					t.Count("out_of_sequence_packets", 1)
					return
				}
				mark("decoded slot %d seq %d", p.slot, p.seq)
				want = append(want, p.meas...)
				if expected[p.slot]++; expected[p.slot] == 0 {
					expected[p.slot] = 1
				}
			}
			flush := func(slot int) {
				for _, p := range pending[slot] {
					deliver(p)
				}
				pending[slot] = nil
			}
			steps := 4 + r.Intn(40)
			alive := true
			for i := 0; i < steps && alive; i++ {
				slot := r.Intn(2)
				st := streams[slot]
				switch k := r.Intn(16); {
				case k == 0 || sic[slot] == nil && r.Intn(3) == 0:
					// New cache: a new compressed stream starts. Nothing of the old stream is still under way.
					flush(slot)
					sic[slot] = randSIC(r, 1+r.Intn(15))
					s.sendSIC(sic[slot], byte(slot))
					g.sic[slot] = sic[slot]
					streams[slot] = newTsscStream(r, byte(slot), sic[slot])
					expected[slot] = 0
					mark("cache %d", slot)
				case sic[slot] == nil:
					// Data before its cache.
					other := randSIC(r, 3)
					if r.Intn(2) == 0 {
						f := newTsscStream(r, byte(slot), other)
						p, _ := f.packet(1 + r.Intn(30))
						send(p)
						mark("early compressed %d", slot)
					} else {
						gg := *g
						gg.sic = [2]*pub.SIC{}
						gg.sic[slot] = other
						p, _ := gg.packet(1 + r.Intn(30))
						send(p)
						mark("early compact %d", slot)
					}
					t.Eval(1)
					t.Count("packets_before_cache", 1)
				case k < 5:
					gg := *g
					gg.sic[1-slot] = nil
					p, m := gg.packet(r.Intn(40))
					send(p)
					want = append(want, m...)
					t.Eval(1)
					mark("compact %d", len(m))
				case k == 5:
					must(s.con.Send(pub.RespBaseTimes, pub.CmdSubscribe, g.newBase()))
				case k == 6:
					flush(slot)
					st.reset()
					mark("reset %d", slot)
					t.Count("stream_restarts", 1)
				default:
					seq := st.seq
					p, m := st.packet(1 + r.Intn(40))
					pk := tsscPacket{slot, seq, p, m}
					fault := r.Intn(9)
					if seq == 0 && fault != 1 {
						// A lost or delayed restart can not be told from a continued stream by any receiver.
						fault = 8
					}
					switch fault {
					case 0: // lost
						mark("lost %d", slot)
						t.Count("packets_lost", 1)
						if r.Intn(6) == 0 { // a long outage
							for j, n := 0, r.Intn(150); j < n && st.seq != 0; j++ {
								st.packet(1 + r.Intn(3))
								t.Count("packets_lost", 1)
							}
						}
					case 1: // repeated
						deliver(pk)
						deliver(pk)
						t.Count("packets_repeated", 1)
					case 2: // held back and sent after later ones
						pending[slot] = append(pending[slot], pk)
						t.Count("packets_delayed", 1)
					default:
						deliver(pk)
						if len(pending[slot]) > 0 && r.Intn(2) == 0 {
							flush(slot)
						}
					}
				}
			}
			s.sync()
			s.compare(want)
			if n := s.sb.TotalMeasurementsReceived(); n != uint64(len(want)-base) {
				t.Fatalf("%d measurements delivered on this connection, the total reports %d", len(want)-base, n)
			}
			// One malformed packet, which may end the connection.
			slot := r.Intn(2)
			if sic[slot] == nil {
				sic[slot] = randSIC(r, 1+r.Intn(15))
				s.sendSIC(sic[slot], byte(slot))
				g.sic[slot] = sic[slot]
				streams[slot] = newTsscStream(r, byte(slot), sic[slot])
			}
			st := streams[slot]
			st.reset()
			maybe := 0 // measurements of the malformed packet which may legitimately be delivered as a prefix
			gg := *g
			gg.sic[1-slot] = nil
			kind := r.Intn(8)
			var maybeMeas []pub.Meas
			switch kind {
			case 0: // unknown TSSC version
				p, _ := st.packet(1 + r.Intn(30))
				p[5] = byte(r.Intn(85))
				send(p)
			case 1: // compressed packet cut short
				p, m := st.packet(1 + r.Intn(30))
				cut := r.Intn(len(p) - 8 + 1)
				maybe = st.cuts[cut]
				if cut == len(p)-8 {
					maybe = len(m)
				}
				maybeMeas = m
				send(p[:8+cut])
			case 2: // compressed count beyond the content
				p, _ := st.packet(1 + r.Intn(30))
				binary.BigEndian.PutUint32(p[1:], uint32(8*len(p))+r.Uint32()>>uint(1+r.Intn(31)))
				send(p)
			case 3: // compact packet cut short
				p, _ := gg.packet(1 + r.Intn(30))
				send(p[:len(p)-1-r.Intn(len(p)-1)])
			case 4: // compact count beyond the content
				n := 1 + r.Intn(30)
				p, _ := gg.packet(n)
				binary.BigEndian.PutUint32(p[1:], uint32(n)+1+r.Uint32()>>uint(1+r.Intn(31)))
				send(p)
			case 5: // neither compact nor compressed
				p, _ := gg.packet(1 + r.Intn(30))
				p[0] &^= pub.FlagCompact | pub.FlagCompressed
				send(p)
			case 6: // encrypted with keys that the subscriber does not have
				keys := pub.RandKeys(r)
				must(s.con.Send(pub.RespCipherKeys, pub.CmdSubscribe, keys.Payload(byte(r.Intn(2)))))
				gg.keys = pub.RandKeys(r)
				p, _ := gg.packet(1 + r.Intn(30))
				which := 0
				if p[0]&pub.FlagCipher != 0 {
					which = 1
				}
				if blk, err := aes.NewCipher(keys.Key[which]); err == nil {
					out := make([]byte, 16)
					cipher.NewCBCDecrypter(blk, keys.IV[which]).CryptBlocks(out, p[1:17])
					if binary.BigEndian.Uint32(out) <= 4096 {
						t.Logf("accidentally plausible count, not sent")
						p = p[:3]
					}
				}
				send(p)
			case 7: // damaged stream: a code word that cannot occur at the place where it occurs
				st.packet(1) // move past sequence 0 so that the packet below is out of sequence unless reset
				p, _ := st.packet(1 + r.Intn(30))
				p[6], p[7] = 0x7F, 0xFF // far ahead in the sequence
				send(p)
			}
			mark("malformed %d", kind)
			t.Count(fmt.Sprintf("malformed_kind_%d", kind), 1)
			t.Eval(1)
			before := len(want)
			// Valid data afterwards may arrive or not, depending on whether the connection survived.
			gg.keys = nil
			var after []pub.Meas
			if kind != 6 {
				for i := 0; i < 3; i++ {
					p, m := gg.packet(1 + r.Intn(10))
					if s.con.Send(pub.RespDataPacket, pub.CmdSubscribe, p) != nil {
						break
					}
					after = append(after, m...)
				}
			}
			survived := s.settle()
			got := s.all()
			t.Logf("malformed kind %d: %d delivered before, %d now, survived %v", kind, before, len(got), survived)
			extra := got[before:]
			// What may follow: an optional clean prefix of a truncated compressed packet, then a prefix of the valid packets.
			ok := false
			for _, m := range []int{0, maybe} {
				if len(extra) < m {
					continue
				}
				match := true
				for i := range extra {
					switch {
					case i < m:
						match = match && same(extra[i], maybeMeas[i])
					case i-m < len(after):
						match = match && same(extra[i], after[i-m])
					default:
						match = false
					}
				}
				if match && (!survived || len(extra)-m == len(after)) {
					ok = true
				}
			}
			if !ok {
				d := "nothing"
				if len(extra) > 0 {
					d = describe(extra[0])
				}
				t.Fatalf("after a malformed packet (kind %d) the receiver got %d further measurements (first %s); %d valid ones were sent afterwards, connection kept: %v; errors: %q",
					kind, len(extra), d, len(after), survived, s.errors())
			}
			if n := s.sb.TotalMeasurementsReceived(); n != uint64(len(got)-base) {
				t.Fatalf("after a malformed packet the total reports %d measurements, %d were delivered on this connection", n, len(got)-base)
			}
			want = want[:0]
			for i := range got {
				m := got[i]
				want = append(want, pub.Meas{ID: pub.Guid(m.SignalID), Value: pub.F32(float32(m.Value)), Time: uint64(m.Timestamp), Flags: uint32(m.Flags)})
			}
			if c+1 < connections {
				s.hangUp()
			}
		}
		t.SigHash(sig)
		if t.Idx < 2 {
			t.Sample("case %d: %d measurements delivered over %d connections", t.Idx, len(want), connections)
		}
	},
	Done: schedDone,
}
