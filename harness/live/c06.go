package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sttp/goapi/sttp/transport"
	"github.com/sttp/goapi/sttp/verifsched"

	"verif/harness/pub"
	"verif/harness/vf"
)

// Command codes used by concurrent senders; confirmations have their own codes.
var senderCmds = []byte{0x04, 0x05, 0x0D, 0xD0, 0xD1, 0xDF}

var c06 = &vf.Prop{
	ID: "C06",
	Rule: "each case lets several goroutines issue commands with unique payloads of varied size over one connection while the publisher provokes " +
		"automatic confirmations and delays its reading; the received frame sequence is checked for integrity, exactly-once and per-sender " +
		"order; distinct_nontrivial counts different arrival interleavings of the senders",
	Quick: 1600, Thorough: 30000,
	Case: func(t *vf.T) {
		perturb(t)
		r := t.R
		srv, err := pub.NewServer()
		works(err)
		defer srv.Close()
		ds := transport.NewDataSubscriber()
		ds.CompressSignalIndexCache = false
		var emu sync.Mutex
		var errs []string
		ds.ErrorMessageCallback = func(m string) { emu.Lock(); errs = append(errs, m); emu.Unlock() }
		ds.NewBufferBlocksCallback = func([]transport.BufferBlock) {}
		if err := ds.Connect("127.0.0.1", uint16(srv.Port)); err != nil {
			t.Fatalf("connect failed: %v", err)
		}
		defer func() {
			verifsched.Off()
			done := make(chan struct{})
			go func() { ds.Dispose(); close(done) }()
			select {
			case <-done:
			case <-time.After(limit):
				t.Failf("dispose did not complete")
			}
		}()
		k := srv.NextConn(limit)
		if k == nil || !k.WaitFrames(pub.CmdDefineOpModes, 1, limit) {
			t.Fatalf("no operational modes after connecting")
		}
		must(k.Accept())
		if !syncConn(k) {
			t.Fatalf("session did not start")
		}
		start := len(k.Frames())

		senders := 1 + r.Intn(8)
		big := r.Intn(4) == 0
		type sent struct {
			cmd     byte
			payload []byte
		}
		plans := make([][]sent, senders)
		for g := range plans {
			n := 1 + r.Intn(40)
			if big {
				n = 1 + r.Intn(6)
			}
			for i := 0; i < n; i++ {
				size := []int{0, 0, 1, r.Intn(64), r.Intn(1000), 32768 - 5 - 8 - 2 + r.Intn(5), r.Intn(40000)}[r.Intn(7)]
				if !big && size > 2000 {
					size = r.Intn(2000)
				}
				if big && r.Intn(6) == 0 {
					size = r.Intn(400000)
				}
				p := make([]byte, 8+size)
				binary.BigEndian.PutUint32(p, uint32(g))
				binary.BigEndian.PutUint32(p[4:], uint32(i))
				fill := rand.New(rand.NewSource(int64(g)<<32 | int64(i)))
				fill.Read(p[8:])
				plans[g] = append(plans[g], sent{senderCmds[r.Intn(len(senderCmds))], p})
			}
		}
		// The publisher provokes confirmations meanwhile.
		notices := r.Intn(40)
		caches := r.Intn(6)
		blocks := r.Intn(20)
		sic := randSIC(r, 3)
		empties := make([]int, senders) // commands without payload, recognised by their own code
		var wg sync.WaitGroup
		var resume func()
		if r.Intn(3) == 0 {
			resume = k.Pause()
			go func(d time.Duration) { time.Sleep(d); resume() }(time.Duration(r.Intn(20)) * time.Millisecond)
		}
		var calls int64
		for g := 0; g < senders; g++ {
			wg.Add(1)
			gr := rand.New(rand.NewSource(r.Int63()))
			go func(g int) {
				defer wg.Done()
				for _, c := range plans[g] {
					if gr.Intn(5) == 0 {
						ds.SendServerCommand(transport.ServerCommandEnum(0xC0 + byte(g)))
						empties[g]++
					}
					if gr.Intn(2) == 0 {
						ds.SendServerCommandWithPayload(transport.ServerCommandEnum(c.cmd), c.payload)
					} else {
						ds.SendServerCommandWithMessage(transport.ServerCommandEnum(c.cmd), string(c.payload))
					}
					atomic.AddInt64(&calls, 1)
				}
			}(g)
		}
		ids := map[string]int{}
		nseq := []string{}
		for i := 0; i < notices || i < caches || i < blocks; i++ {
			if i < notices {
				id := pub.U32(0x10000 + uint32(i))
				ids[string(id)]++
				nseq = append(nseq, string(id))
				must(k.Send(pub.RespNotify, 0, append(id, []byte("n")...)))
			}
			if i < caches {
				must(k.Send(pub.RespUpdateSIC, 0, sic.Payload(2, byte(i%2), false, false)))
			}
			if i < blocks {
				must(k.Send(pub.RespBufferBlock, 0, pub.Block(2, uint32(i), 0, 1, []byte("x"))))
			}
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(limit):
			t.Fatalf("senders are stuck")
		}
		if resume != nil {
			resume()
		}
		// A last command marks the end: everything issued before has been written.
		ds.SendServerCommand(transport.ServerCommandEnum(0xEE))
		if !k.WaitFrames(0xEE, 1, limit) {
			t.Fatalf("a command issued while connected did not arrive; framing: %s; errors: %q", k.Bad(), errs)
		}
		if !syncConn(k) {
			t.Fatalf("session stopped working; framing: %s; errors: %q", k.Bad(), errs)
		}
		if b := k.Bad(); b != "" {
			t.Fatalf("malformed frame stream: %s", b)
		}
		frames := k.Frames()
		if frames[0].Cmd != pub.CmdDefineOpModes {
			t.Failf("first frame is %v", frames[0])
		}
		next := make([]int, senders)
		gotEmpty := make([]int, senders)
		nconf, cconf, bconf := 0, 0, 0
		order := make([]byte, 0, len(frames))
		for i, f := range frames[start:] {
			order = append(order, f.Cmd)
			switch {
			case f.Cmd == pub.CmdConfirmNotify:
				if bytes.Compare(f.Payload, pub.U32(0x70000000)) >= 0 {
					continue // own synchronisation
				}
				if nconf >= len(nseq) || string(f.Payload) != nseq[nconf] {
					t.Fatalf("frame %d: notification confirmation %x is not the next one due", i, f.Payload)
				}
				nconf++
			case f.Cmd == pub.CmdConfirmSIC:
				cconf++
				if len(f.Payload) != 0 {
					t.Fatalf("frame %d: cache confirmation with payload %x", i, f.Payload)
				}
			case f.Cmd == pub.CmdConfirmBlock:
				if !bytes.Equal(f.Payload, pub.U32(uint32(bconf))) {
					t.Fatalf("frame %d: block confirmation %x, expected %d", i, f.Payload, bconf)
				}
				bconf++
			case f.Cmd == 0xEE:
			case f.Cmd >= 0xC0 && int(f.Cmd-0xC0) < senders:
				if len(f.Payload) != 0 {
					t.Fatalf("frame %d: command without payload arrived with %d bytes", i, len(f.Payload))
				}
				gotEmpty[f.Cmd-0xC0]++
			default:
				if len(f.Payload) < 8 {
					t.Fatalf("frame %d: unexpected %v", i, f)
				}
				g := int(binary.BigEndian.Uint32(f.Payload))
				if g >= senders || next[g] >= len(plans[g]) {
					t.Fatalf("frame %d: %v of sender %d is not one that was issued (or is repeated)", i, f, g)
				}
				w := plans[g][next[g]]
				if f.Cmd != w.cmd || !bytes.Equal(f.Payload, w.payload) {
					t.Fatalf("frame %d: sender %d issued cmd %#x len %d as its number %d, arrived: %v (number %d)", i, g, w.cmd, len(w.payload), next[g], f, binary.BigEndian.Uint32(f.Payload[4:]))
				}
				order = append(order, byte(g))
				next[g]++
			}
			t.Eval(1)
		}
		for g := range plans {
			if next[g] != len(plans[g]) || gotEmpty[g] != empties[g] {
				t.Failf("sender %d issued %d commands with payload and %d without, %d and %d arrived", g, len(plans[g]), empties[g], next[g], gotEmpty[g])
			}
		}
		if nconf != notices || cconf != caches || bconf != blocks {
			t.Failf("confirmations: %d of %d notifications, %d of %d caches, %d of %d blocks", nconf, notices, cconf, caches, bconf, blocks)
		}
		if senders > 1 {
			t.SigHash(hash(order))
		}
		t.Count("frames_checked", len(frames))
		t.Count("commands_issued", int(calls))
		if t.Idx < 2 {
			t.Sample("case %d: %d senders, %d frames, arrival order starts %s", t.Idx, senders, len(frames), fmt.Sprintf("%x", order[:min(len(order), 40)]))
		}
	},
	Done: schedDone,
}
