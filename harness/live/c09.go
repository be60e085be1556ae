package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sync"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/transport"

	"verif/harness/pub"
	"verif/harness/vf"
)

type block struct {
	seq  uint32
	slot byte
	rec  pub.SICRecord
	data []byte
}

var c09 = &vf.Prop{
	ID: "C09",
	Rule: "each case sends sequenced buffer blocks in permuted order with repetitions, late arrivals and open gaps, between other traffic and over " +
		"successive connections; a sequence model gives the deliveries and confirmations due and the retained blocks are compared byte by byte " +
		"at the end; distinct_nontrivial counts different arrival orders with at least one out-of-order or repeated block",
	Quick: 2000, Thorough: 40000,
	Case: func(t *vf.T) {
		gentle(t)
		r := t.R
		s := newSess(t)
		defer s.close()
		var mu sync.Mutex
		var got []transport.BufferBlock
		s.sb.SetNewBufferBlocksReceiver(func(b []transport.BufferBlock) { mu.Lock(); got = append(got, b...); mu.Unlock() })
		if r.Intn(5) == 0 {
			s.cfg.Version = 1
		}
		version := int(s.cfg.Version)
		var due []block
		conns := 1 + r.Intn(2)
		for c := 0; c < conns; c++ {
			s.dial()
			set := sttp.NewSettings()
			udp := r.Intn(6) == 0
			if udp {
				set.UdpPort = uint16(freePort(t, true))
			}
			s.subscribe("FILTER X WHERE True", set)
			var us *udpSender
			if udp {
				us = dialUDP(int(set.UdpPort))
				defer us.c.Close()
			}
			sic := [2]*pub.SIC{randSIC(r, 1+r.Intn(8)), nil}
			s.sendSIC(sic[0], 0)
			if version > 1 {
				sic[1] = randSIC(r, 1+r.Intn(8))
				s.sendSIC(sic[1], 1)
			}
			if r.Intn(2) == 0 {
				s.con.RandomFrag(r.Int63())
			}
			n := 1 + r.Intn(30)
			if r.Intn(15) == 0 {
				n = 60 + r.Intn(400)
			}
			blocks := make([]block, n)
			for i := range blocks {
				slot := byte(0)
				if version > 1 {
					slot = byte(r.Intn(2))
				}
				rec := sic[slot].Records[r.Intn(len(sic[slot].Records))]
				size := []int{0, 1, r.Intn(100), r.Intn(3000)}[r.Intn(4)]
				if !udp && r.Intn(40) == 0 {
					size = 30000 + r.Intn(60000)
				}
				blocks[i] = block{uint32(i), slot, rec, randBytes(r, size)}
			}
			// Arrival order: mostly local disorder, sometimes a full shuffle; some blocks repeated; a gap may stay open.
			order := make([]int, n)
			for i := range order {
				order[i] = i
			}
			switch r.Intn(4) {
			case 0:
			case 1:
				r.Shuffle(n, func(i, j int) { order[i], order[j] = order[j], order[i] })
			case 2:
				for i := n - 1; i >= 0; i-- {
					order[n-1-i] = i
				}
			default:
				for i := 0; i+1 < n; i++ {
					if r.Intn(3) == 0 {
						j := i + 1 + r.Intn(min(4, n-i-1))
						order[i], order[j] = order[j], order[i]
					}
				}
			}
			for i := 0; i < r.Intn(8); i++ {
				at := r.Intn(len(order) + 1)
				order = append(order[:at], append([]int{r.Intn(n)}, order[at:]...)...)
			}
			if r.Intn(4) == 0 {
				gap := r.Intn(n)
				keep := order[:0]
				for _, o := range order {
					if o != gap {
						keep = append(keep, o)
					}
				}
				order = keep
				t.Count("open_gaps", 1)
			}
			sigb := []byte{byte(version)}
			have := map[int]bool{}
			arrivals := map[uint32]int{}
			var confirm []uint32
			next := 0
			disorder := false
			baseConf := s.con.CountOf(pub.CmdConfirmBlock)
			for _, o := range order {
				b := blocks[o]
				slot := b.slot
				if slot == 1 && r.Intn(4) == 0 { // any value but zero stands for the second cache
					slot = byte(1 + r.Intn(255))
				}
				payload := pub.Block(version, b.seq, slot, b.rec.Index, b.data)
				sigb = append(sigb, byte(o))
				if r.Intn(5) == 0 { // other traffic in between
					g := &compactGen{r: r, sic: sic, includeTime: true}
					p, _ := g.packet(1 + r.Intn(100))
					must(s.con.Send(pub.RespDataPacket, pub.CmdSubscribe, p))
				}
				arrivals[b.seq]++
				if !have[o] {
					have[o] = true
					confirm = append(confirm, b.seq)
				} else {
					disorder = true
				}
				if o != next {
					disorder = true
				}
				for have[next] {
					due = append(due, blocks[next])
					next++
				}
				if udp && r.Intn(2) == 0 {
					s.sync()
					us.send(pub.RespBufferBlock, pub.CmdSubscribe, payload)
					if !vf.WaitFor(limit, func() bool {
						mu.Lock()
						defer mu.Unlock()
						return s.sb.TotalDataChannelBytesReceived() >= uint64(us.sent) && s.con.CountOf(pub.CmdConfirmBlock) >= baseConf+len(confirm) && len(got) >= len(due)
					}) {
						t.Fatalf("block %d sent by datagram was not processed: %d of %d delivered, errors: %q", b.seq, len(got), len(due), s.errors())
					}
				} else {
					must(s.con.Send(pub.RespBufferBlock, pub.CmdSubscribe, payload))
				}
				t.Eval(1)
			}
			s.sync()
			// Confirmations: every newly arrived block, in order of first arrival; repetitions may be confirmed again.
			conf := s.con.FramesOf(pub.CmdConfirmBlock)[baseConf:]
			seen := map[uint32]int{}
			var firsts []uint32
			for _, f := range conf {
				if len(f.Payload) != 4 {
					t.Fatalf("block confirmation with payload %x", f.Payload)
				}
				q := binary.BigEndian.Uint32(f.Payload)
				if seen[q] == 0 {
					firsts = append(firsts, q)
				}
				if seen[q]++; seen[q] > arrivals[q] {
					t.Fatalf("block %d arrived %d times but was confirmed %d times", q, arrivals[q], seen[q])
				}
			}
			if fmt.Sprint(firsts) != fmt.Sprint(confirm) {
				t.Fatalf("blocks arrived first in order %v, confirmed %v", confirm, firsts)
			}
			mu.Lock()
			ng := len(got)
			mu.Unlock()
			if ng != len(due) {
				t.Fatalf("%d blocks delivered, %d are due (arrival order %v); errors: %q", ng, len(due), order, s.errors())
			}
			if disorder {
				t.SigHash(hash(sigb))
			}
			if c+1 < conns {
				s.hangUp()
				t.Count("reconnections", 1)
			}
		}
		// Traffic after delivery must not disturb delivered blocks.
		for i := 0; i < 3; i++ {
			must(s.con.Send(pub.RespNotify, 0, append(pub.U32(uint32(i)), randBytes(r, 3000)...)))
		}
		s.sync()
		mu.Lock()
		defer mu.Unlock()
		for i, w := range due {
			if got[i].SignalID != libGuid(w.rec.ID) || !bytes.Equal(got[i].Buffer, w.data) {
				t.Fatalf("delivery %d: published block %d for %v with %d bytes, receiver has %v with %d bytes (equal content %v)", i, w.seq, w.rec.ID, len(w.data), got[i].SignalID, len(got[i].Buffer), bytes.Equal(got[i].Buffer, w.data))
			}
		}
		t.Count("blocks_delivered", len(due))
		if t.Idx < 2 {
			t.Sample("case %d: %d blocks delivered over %d connections", t.Idx, len(due), conns)
		}
	},
	Done: schedDone,
}
