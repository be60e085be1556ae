package main

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"math/rand"
	"sync"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/transport"
	"github.com/sttp/goapi/sttp/verifsched"

	"verif/harness/pub"
	"verif/harness/vf"
)

// numbered makes a data packet whose measurements carry consecutive numbers as value bits.
func numbered(r *rand.Rand, sic *pub.SIC, from, n int) ([]byte, []pub.Meas) {
	var b bytes.Buffer
	var out []pub.Meas
	for i := 0; i < n; i++ {
		rec := sic.Records[r.Intn(len(sic.Records))]
		f8 := byte(r.Intn(64))
		m := pub.Meas{Index: rec.Index, ID: rec.ID, Value: uint32(from + i), Flags: pub.FullFlags(f8), Time: 637500000000000000 + uint64(r.Int63n(1e16))}
		pub.Compact(&b, f8, rec.Index, m.Value, pub.TimeFull, 0, m.Time, 0)
		out = append(out, m)
	}
	return pub.DataPacket(pub.FlagCompact, n, b.Bytes(), nil, 0), out
}

func number(m *transport.Measurement) int { return int(math.Float32bits(float32(m.Value))) }

// taken is a measurement handed out by a reader: the retained pointer and a copy made at once.
type taken struct {
	p *transport.Measurement
	c transport.Measurement
}

type consumer struct {
	got     []taken
	expired int
	ended   bool
}

// consume reads until told to stop by its own context or the end of the reader.
func (c *consumer) consume(t *vf.T, rd *sttp.MeasurementReader, all context.Context, seed int64, slow bool, late time.Duration) {
	r := rand.New(rand.NewSource(seed))
	time.Sleep(late)
	for all.Err() == nil {
		ctx, cancel := all, context.CancelFunc(func() {})
		if r.Intn(3) == 0 {
			ctx, cancel = context.WithTimeout(all, time.Duration(r.Intn(400))*time.Microsecond)
		}
		m, done := rd.NextMeasurement(ctx)
		switch {
		case done && m != nil || !done && m == nil:
			t.Failf("reader returned measurement %v with completed %v", m, done)
			cancel()
			return
		case done:
			if ctx.Err() == nil {
				c.ended = true
				cancel()
				return
			}
			c.expired++
		default:
			c.got = append(c.got, taken{m, *m})
			if slow && r.Intn(8) == 0 {
				time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
			}
		}
		cancel()
	}
}

var c28 = &vf.Prop{
	ID: "C28",
	Rule: "each case runs readers with one or more consumers, whose waits have contexts that expire, against flowing data, with closes while data " +
		"flows, while consumers wait, repeatedly and concurrently, replaced and abandoned readers, and lost connections; every measurement " +
		"carries a number, retained measurements are compared again at the end; distinct_nontrivial counts different (consumers, reader ends) histories",
	Quick: 1000, Thorough: 30000,
	Case: func(t *vf.T) {
		perturb(t)
		r := t.R
		s := newSess(t)
		closed := false
		defer func() {
			if !closed {
				s.close()
			}
		}()
		sig := ""
		next := 1
		var keep []taken
		rounds := 1 + r.Intn(3)
		s.dial()
		sic := randSIC(r, 1+r.Intn(5))
		s.sendSIC(sic, 0)
		for round := 0; round < rounds && !t.Failed(); round++ {
			rd := s.sb.ReadMeasurements()
			n := 1 + r.Intn(4)
			if r.Intn(3) == 0 {
				n = 1
			}
			all, stop := context.WithCancel(context.Background())
			cs := make([]consumer, n)
			var wg sync.WaitGroup
			slow := r.Intn(3) == 0
			late := time.Duration(0) // nobody reads for so long
			if r.Intn(30) == 0 {
				late = time.Duration([]int{150, 250, 350, 500, 1200}[r.Intn(5)]) * time.Millisecond
				t.Count("late_consumers", n)
			}
			for i := range cs {
				wg.Add(1)
				seed := r.Int63()
				go func(c *consumer) { defer wg.Done(); c.consume(t, rd, all, seed, slow, late) }(&cs[i])
			}
			total := r.Intn(200)
			end := r.Intn(6)
			first := next
			var want []pub.Meas
			packets := [][]byte{}
			for len(want) < total {
				p, m := numbered(r, sic, next, 1+r.Intn(40))
				next += len(m)
				want = append(want, m...)
				packets = append(packets, p)
			}
			whole := true // every measurement must have been read
			var closers sync.WaitGroup
			if end == 1 || end == 2 { // close while data flows
				whole = false
				k := 1 + r.Intn(3)
				d := time.Duration(r.Intn(3000)) * time.Microsecond
				for i := 0; i < k; i++ {
					closers.Add(1)
					go func() { defer closers.Done(); time.Sleep(d); rd.Close() }()
				}
			}
			for _, p := range packets {
				must(s.con.Send(pub.RespDataPacket, pub.CmdSubscribe, p))
				if r.Intn(6) == 0 {
					pause(r, 300)
				}
			}
			if end != 3 && end != 4 {
				s.sync() // the session goes on, and whatever was not discarded has been read
			}
			switch end {
			case 0:
				rd.Close()
			case 1, 2:
				closers.Wait()
			case 5: // consumers leave through their contexts
				stop()
			case 3: // the publisher leaves while data may be waiting for a consumer
				whole = false
				_, m0 := s.counts()
				s.con.Close()
				if !vf.WaitFor(limit, func() bool { _, m := s.counts(); return m > m0 }) {
					t.Fatalf("round %d: the loss of the connection was not reported while a reader was in use", round)
				}
				rd.Close()
			case 4: // all consumers leave, the reader is abandoned with data waiting, then the session ends or goes on
				whole = false
				stop()
				within(t, "waiting consumers after their context was done", wg.Wait)
				pk, m := numbered(r, sic, next, 1+r.Intn(30))
				next += len(m)
				want = append(want, m...)
				must(s.con.Send(pub.RespDataPacket, pub.CmdSubscribe, pk))
				pause(r, 2000)
				if r.Intn(2) == 0 {
					_, m0 := s.counts()
					s.sb.Disconnect()
					if !vf.WaitFor(limit, func() bool { _, m := s.counts(); return m > m0 }) {
						t.Fatalf("round %d: disconnect did not complete with an abandoned reader", round)
					}
				} else {
					within(t, "replacing an abandoned reader", func() { s.sb.SetNewMeasurementsReceiver(nil) })
					within(t, "closing an abandoned reader", rd.Close)
					s.sync()
				}
			}
			within(t, "consumers after the end of the reader", wg.Wait)
			stop()
			if end != 5 && end != 4 {
				within(t, "closing twice", rd.Close)
				if m, done := rd.NextMeasurement(context.Background()); m != nil || !done {
					t.Failf("a closed reader returned measurement %v, completed %v", m, done)
				}
			}
			if r.Intn(2) == 0 {
				ctx, cancel := context.WithCancel(context.Background())
				cancel()
				within(t, "reading with a context that is done", func() {
					if m, done := rd.NextMeasurement(ctx); m != nil || !done {
						t.Failf("reading with a context that is done returned measurement %v, completed %v", m, done)
					}
				})
			}
			// Exactly once, own values, in order per consumer.
			seen := make([]bool, len(want))
			high := -1
			count := 0
			for i := range cs {
				last := -1
				for _, g := range cs[i].got {
					k := number(&g.c) - first
					if k < 0 || k >= len(want) {
						t.Fatalf("round %d: consumer %d of %d was given %s, which was not published in this round", round, i, n, describe(g.c))
					}
					if !same(g.c, want[k]) {
						t.Fatalf("round %d: consumer %d of %d was given %s, published was %v", round, i, n, describe(g.c), want[k])
					}
					if seen[k] {
						t.Fatalf("round %d: measurement %d was handed out twice (%d consumers)", round, k, n)
					}
					if k < last {
						t.Fatalf("round %d: consumer %d of %d was given measurement %d after %d", round, i, n, k, last)
					}
					seen[k] = true
					last = k
					count++
					if k > high {
						high = k
					}
				}
				keep = append(keep, cs[i].got...)
				t.Count("expired_waits", cs[i].expired)
			}
			for k := 0; k <= high; k++ {
				if !seen[k] {
					t.Fatalf("round %d (end %d): measurement %d was skipped although %d was handed out (%d consumers)", round, end, k, high, n)
				}
			}
			if whole && count != len(want) {
				t.Fatalf("round %d (end %d): %d of %d measurements were handed out (%d consumers)", round, end, count, len(want), n)
			}
			t.Count("measurements_read", count)
			t.Eval(count + 1)
			sig += fmt.Sprintf("%d.%d.%v.%v,", n, end, slow, count == len(want))
			if !s.sb.IsConnected() && round+1 < rounds {
				s.dial()
				s.sendSIC(sic, 0)
			}
		}
		verifsched.Off()
		// An abandoned reader must not block close.
		if s.sb.IsConnected() && r.Intn(2) == 0 {
			rd := s.sb.ReadMeasurements()
			p, m := numbered(r, sic, next, 1+r.Intn(5))
			next += len(m)
			must(s.con.Send(pub.RespDataPacket, pub.CmdSubscribe, p))
			pause(r, 1000)
			_ = rd
			sig += "A"
		}
		within(t, "close", s.sb.Close)
		closed = true
		s.close()
		for _, g := range keep {
			if *g.p != g.c && !(g.p.Value != g.p.Value && g.c.Value != g.c.Value) {
				t.Fatalf("a retained measurement changed from %s to %s", describe(g.c), describe(*g.p))
			}
		}
		t.Sig(sig)
		if t.Idx < 3 {
			t.Sample("case %d: %s", t.Idx, sig)
		}
	},
	Done: schedDone,
}
