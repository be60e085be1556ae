package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/transport"

	"verif/harness/pub"
	"verif/harness/vf"
)

// kinds of receivers whose events carry a number
const (
	kStatus = iota
	kError
	kMetadata
	kCache
	kStart
	kMeasurements
	kBlocks
	kNotification
	// the following carry nothing
	kConfig
	kHistory
	kEstablished
	kTerminated
	kinds
)

var kindNames = [kinds]string{"status message", "error message", "metadata", "subscription updated", "data start time", "measurements",
	"buffer blocks", "notification", "configuration changed", "read complete", "connection established", "connection terminated"}

type receipt struct {
	v   int // receiver
	e   int // event, -1 unknown
	seq int64
}

// assignment of receiver v to a kind: call and return times.
type assignment struct {
	v         int
	call, ret int64
}

type routing struct {
	t  *vf.T
	s  *sess
	mu sync.Mutex

	nextV    int
	receipts [kinds][]receipt
	assigned [kinds][]assignment
	sent     [kinds]map[int]int64 // event -> time just before it was sent
	hook     [kinds]func(v, e int)
}

func (g *routing) got(kind, v, e int) {
	g.mu.Lock()
	g.receipts[kind] = append(g.receipts[kind], receipt{v, e, pub.NextSeq()})
	h := g.hook[kind]
	g.mu.Unlock()
	if h != nil {
		h(v, e)
	}
}

func token(kind int, m string) int {
	e := -1
	if i := strings.Index(m, fmt.Sprintf("token-%d-", kind)); i >= 0 {
		fmt.Sscanf(m[i:], fmt.Sprintf("token-%d-%%d", kind), &e)
	}
	return e
}

// assign installs a fresh receiver, or none.
func (g *routing) assign(kind int, none bool) int {
	g.mu.Lock()
	g.nextV++
	v := g.nextV
	g.mu.Unlock()
	sb := g.s.sb
	call := pub.NextSeq()
	switch kind {
	case kStatus:
		f := func(m string) {
			if e := token(kStatus, m); e >= 0 {
				g.got(kStatus, v, e)
			}
		}
		if none {
			f = nil
		}
		sb.SetStatusMessageLogger(f)
	case kError:
		f := func(m string) {
			if e := token(kError, m); e >= 0 {
				g.got(kError, v, e)
			}
		}
		if none {
			f = nil
		}
		sb.SetErrorMessageLogger(f)
	case kMetadata:
		f := func(ds *data.DataSet) { g.got(kMetadata, v, docVersion(ds)) }
		if none {
			f = nil
		}
		sb.SetMetadataReceiver(f)
	case kCache:
		f := func(c *transport.SignalIndexCache) { g.got(kCache, v, int(c.ID(7))) }
		if none {
			f = nil
		}
		sb.SetSubscriptionUpdatedReceiver(f)
	case kStart:
		f := func(at time.Time) { g.got(kStart, v, int(at.Sub(startBase)/time.Second)) }
		if none {
			f = nil
		}
		sb.SetDataStartTimeReceiver(f)
	case kMeasurements:
		f := func(m *[]transport.Measurement) {
			for i := range *m {
				g.got(kMeasurements, v, number(&(*m)[i]))
			}
		}
		if none {
			f = nil
		}
		sb.SetNewMeasurementsReceiver(f)
	case kBlocks:
		f := func(b []transport.BufferBlock) {
			for i := range b {
				e := -1
				if len(b[i].Buffer) == 4 {
					e = int(binary.BigEndian.Uint32(b[i].Buffer))
				}
				g.got(kBlocks, v, e)
			}
		}
		if none {
			f = nil
		}
		sb.SetNewBufferBlocksReceiver(f)
	case kNotification:
		f := func(m string) {
			if m != "sync" {
				g.got(kNotification, v, token(kNotification, m))
			}
		}
		if none {
			f = nil
		}
		sb.SetNotificationReceiver(f)
	default:
		f := func() { g.got(kind, v, 0) }
		if none {
			f = nil
		}
		switch kind {
		case kConfig:
			sb.SetConfigurationChangedReceiver(f)
		case kHistory:
			sb.SetHistoricalReadCompleteReceiver(f)
		case kEstablished:
			sb.SetConnectionEstablishedReceiver(f)
		case kTerminated:
			sb.SetConnectionTerminatedReceiver(f)
		}
	}
	ret := pub.NextSeq()
	g.mu.Lock()
	g.assigned[kind] = append(g.assigned[kind], assignment{v, call, ret})
	g.mu.Unlock()
	return v
}

var startBase = time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC)

const startTicks = 637450560000000000 // startBase in ticks

func (g *routing) count(kind int) int {
	g.mu.Lock()
	defer g.mu.Unlock()
	return len(g.receipts[kind])
}

// verdict checks everything received so far for one kind with numbered events.
func (g *routing) verdict(kind int, missing func(e int) bool) {
	g.mu.Lock()
	defer g.mu.Unlock()
	t := g.t
	ret := map[int]int64{}
	for _, a := range g.assigned[kind] {
		ret[a.v] = a.ret
	}
	seen := map[int]int{}
	for _, p := range g.receipts[kind] {
		at, ok := g.sent[kind][p.e]
		if !ok {
			t.Fatalf("%s: receiver %d was given event %d, which was never sent", kindNames[kind], p.v, p.e)
		}
		if w, dup := seen[p.e]; dup {
			t.Fatalf("%s: event %d was handed to receivers %d and %d", kindNames[kind], p.e, w, p.v)
		}
		seen[p.e] = p.v
		mine, ok := ret[p.v]
		if !ok {
			continue // its assignment has not returned yet
		}
		for _, a := range g.assigned[kind] {
			if a.v != p.v && a.call > mine && a.ret < at {
				t.Fatalf("%s: event %d was sent at %d after the assignment of receiver %d had returned at %d, but went to the old receiver %d",
					kindNames[kind], p.e, at, a.v, a.ret, p.v)
			}
		}
	}
	for e := range g.sent[kind] {
		if _, ok := seen[e]; !ok && !missing(e) {
			t.Fatalf("%s: event %d reached no receiver", kindNames[kind], e)
		}
	}
	if kind == kMeasurements || kind == kBlocks || kind == kStart { // handed out in order
		last := -1
		for _, p := range g.receipts[kind] {
			if p.e < last {
				t.Fatalf("%s: event %d was handed out after event %d", kindNames[kind], p.e, last)
			}
			last = p.e
		}
	}
	t.Count("events_routed", len(seen))
	t.Count("assignments", len(g.assigned[kind]))
}

var c16 = &vf.Prop{
	ID: "C16",
	Rule: "each case reassigns receivers of every kind, from goroutines and from running receivers, while numbered events arrive, and checks for " +
		"every event who received it against the recorded times of assignments; distinct_nontrivial counts different (kinds, assigners, blocking " +
		"situations) histories",
	Quick: 1000, Thorough: 20000,
	Case: func(t *vf.T) {
		perturb(t)
		r := t.R
		s := newSess(t)
		s.noReports = true
		defer s.close()
		g := &routing{t: t, s: s}
		for i := range g.sent {
			g.sent[i] = map[int]int64{}
		}
		s.cfg.CompressMetadata = r.Intn(2) == 0
		for k := 0; k < kinds; k++ {
			if k == kEstablished || k == kTerminated {
				continue
			}
			g.assign(k, false)
		}
		// Connection receivers, first connection.
		est := g.assign(kEstablished, false)
		term := g.assign(kTerminated, false)
		one := func(kind, v int, when string) {
			if !vf.WaitFor(limit, func() bool { return g.count(kind) >= 1 }) {
				t.Fatalf("%s (%s): no receiver was called", kindNames[kind], when)
			}
			g.mu.Lock()
			defer g.mu.Unlock()
			for _, p := range g.receipts[kind] {
				if p.v != v {
					t.Fatalf("%s (%s): receiver %d was called instead of %d", kindNames[kind], when, p.v, v)
				}
			}
			if len(g.receipts[kind]) != 1 {
				t.Fatalf("%s (%s): called %d times", kindNames[kind], when, len(g.receipts[kind]))
			}
			g.receipts[kind] = nil
		}
		if r.Intn(3) == 0 { // from the running established receiver
			g.hook[kEstablished] = func(v, e int) { est = g.assign(kEstablished, false); term = g.assign(kTerminated, false) }
			first := est
			s.dial()
			one(kEstablished, first, "assignment from the receiver")
			g.mu.Lock()
			g.hook[kEstablished] = nil
			g.mu.Unlock()
		} else {
			s.dial()
			one(kEstablished, est, "first connection")
		}
		k := s.con
		sic := randSIC(r, 1+r.Intn(4))
		s.sendSIC(sic, 0)
		// Wait for the receiver of that cache, then forget it.
		if !vf.WaitFor(limit, func() bool { return g.count(kCache) == 1 }) {
			t.Fatalf("subscription updated: no receiver was called")
		}
		g.mu.Lock()
		g.receipts[kCache] = nil
		g.mu.Unlock()
		nextE := 0
		block := uint32(0)
		send := func(kind int) int {
			e := nextE
			nextE++
			text := []byte(fmt.Sprintf("token-%d-%d", kind, e))
			var resp, cmd byte
			var p []byte
			switch kind {
			case kStatus:
				resp, cmd, p = pub.RespSucceeded, pub.CmdRotateCipherKeys, text
			case kError:
				resp, cmd, p = pub.RespFailed, pub.CmdUpdateInterval, text
			case kMetadata:
				resp, cmd, p = pub.RespSucceeded, pub.CmdMetadataRefresh, []byte(metaDoc(r, e, r.Intn(4), nil).XML(r))
				if s.cfg.CompressMetadata {
					p = pub.Gzip(p)
				}
			case kCache:
				c := &pub.SIC{Records: []pub.SICRecord{{Index: 7, ID: pub.RandGuid(r), Source: "S", Num: uint64(e)}}}
				resp, cmd, p = pub.RespUpdateSIC, pub.CmdSubscribe, c.Payload(int(s.cfg.Version), 1, !s.cfg.RfcGuidEncoding, s.cfg.CompressSignalIndexCache)
			case kStart:
				resp, cmd, p = pub.RespDataStartTime, pub.CmdSubscribe, pub.U64(startTicks+uint64(e)*10000000)
			case kMeasurements:
				resp, cmd = pub.RespDataPacket, pub.CmdSubscribe
				n := 1 + r.Intn(5)
				var m []pub.Meas
				p, m = numbered(r, sic, e, n)
				nextE += len(m) - 1
				g.mu.Lock()
				for i := range m {
					g.sent[kind][e+i] = pub.NextSeq()
				}
				g.mu.Unlock()
			case kBlocks:
				resp, cmd, p = pub.RespBufferBlock, pub.CmdSubscribe, pub.Block(2, block, 0, sic.Records[0].Index, pub.U32(uint32(e)))
				block++
			case kNotification:
				resp, cmd, p = pub.RespNotify, 0, append(pub.U32(uint32(e)), text...)
			case kConfig:
				resp = pub.RespConfigChanged
			case kHistory:
				resp, p = pub.RespProcComplete, []byte("complete")
			}
			g.mu.Lock()
			g.sent[kind][e] = pub.NextSeq()
			g.mu.Unlock()
			must(k.Send(resp, cmd, p))
			return e
		}
		// Events in a row to one receiver of a packet count as one event: a packet goes to one receiver.
		settleAll := func() {
			s.sync()
			s.idle()
		}
		sig := ""

		// Concurrent assignments and events.
		var stop bool
		var wg sync.WaitGroup
		chosen := r.Perm(kConfig)[:1+r.Intn(4)]
		assigners := 1 + r.Intn(3)
		removing := r.Intn(3) == 0 // receivers are also taken away
		for i := 0; i < assigners; i++ {
			wg.Add(1)
			q := rand.New(rand.NewSource(r.Int63()))
			go func() {
				defer wg.Done()
				for {
					g.mu.Lock()
					done := stop
					g.mu.Unlock()
					if done {
						return
					}
					g.assign(chosen[q.Intn(len(chosen))], removing && q.Intn(2) == 0)
					time.Sleep(time.Duration(q.Intn(400)) * time.Microsecond)
				}
			}()
		}
		self := r.Intn(3) == 0
		if self { // receivers reassign their own kind or another while they run
			for _, kd := range chosen {
				kd := kd
				q := rand.New(rand.NewSource(r.Int63()))
				var qm sync.Mutex
				g.mu.Lock()
				g.hook[kd] = func(v, e int) {
					qm.Lock()
					do, other := q.Intn(4) == 0, chosen[q.Intn(len(chosen))]
					qm.Unlock()
					if do {
						g.assign(other, false)
					}
				}
				g.mu.Unlock()
			}
		}
		within(t, "sending while receivers are reassigned", func() {
			for i, n := 0, 10+r.Intn(120); i < n; i++ {
				send(chosen[r.Intn(len(chosen))])
				if r.Intn(10) == 0 {
					pause(r, 500)
				}
			}
		})
		settleAll()
		g.mu.Lock()
		stop = true
		for i := range g.hook {
			g.hook[i] = nil
		}
		g.mu.Unlock()
		within(t, "concurrent assignments", wg.Wait)
		settleAll()
		missing := func(int) bool { return removing }
		for _, kd := range chosen {
			if !removing {
				vf.WaitFor(2*time.Second, func() bool { g.mu.Lock(); defer g.mu.Unlock(); return len(g.receipts[kd]) >= len(g.sent[kd]) })
			}
			g.verdict(kd, missing)
		}
		sig += fmt.Sprint(chosen, assigners, self, removing)
		t.Eval(len(chosen))

		// One kind at a time: a running receiver, assignment, then further events.
		for i, n := 0, 1+r.Intn(4); i < n && !t.Failed(); i++ {
			kd := r.Intn(kEstablished)
			g.mu.Lock()
			g.receipts[kd] = nil
			g.sent[kd] = map[int]int64{}
			g.mu.Unlock()
			expect := func(v int, want int, what string) {
				vf.WaitFor(limit, func() bool { return g.count(kd) >= want })
				settleAll()
				g.mu.Lock()
				defer g.mu.Unlock()
				if len(g.receipts[kd]) != want {
					t.Fatalf("%s: %d receipts after %s, expected %d", kindNames[kd], len(g.receipts[kd]), what, want)
				}
				for _, p := range g.receipts[kd] {
					if p.v != v {
						t.Fatalf("%s: receiver %d was called after %s, expected %d", kindNames[kd], p.v, what, v)
					}
				}
				g.receipts[kd] = nil
			}
			per := func(e int) int { return nextE - e } // measurements of one packet
			v0 := g.assign(kd, false)
			e := send(kd)
			expect(v0, per(e), "an assignment")
			mode := r.Intn(3)
			switch mode {
			case 0: // nobody
				g.assign(kd, true)
				for j := 0; j < 3; j++ {
					send(kd)
				}
				settleAll()
				if g.count(kd) != 0 {
					t.Fatalf("%s: a removed receiver was called", kindNames[kd])
				}
			case 1: // blocked receiver
				release := make(chan struct{})
				entered := make(chan struct{}, 1000)
				g.mu.Lock()
				g.hook[kd] = func(v, e int) {
					if v == v0 {
						entered <- struct{}{}
						<-release
					}
				}
				g.mu.Unlock()
				e := send(kd)
				want := per(e)
				within(t, "a receiver call", func() { <-entered })
				var v1 int
				within(t, "assignment while the receiver runs ("+kindNames[kd]+")", func() { v1 = g.assign(kd, false) })
				e = send(kd)
				// Asynchronous receivers can be called now, others after the running one.
				close(release)
				total := want + per(e)
				vf.WaitFor(limit, func() bool { return g.count(kd) >= total })
				settleAll()
				g.mu.Lock()
				g.hook[kd] = nil
				old, fresh := 0, 0
				for _, p := range g.receipts[kd] {
					if p.v == v0 {
						old++
					} else if p.v == v1 {
						fresh++
					} else {
						t.Failf("%s: receiver %d was called, it was replaced long ago", kindNames[kd], p.v)
					}
				}
				if old != want || fresh != total-want {
					t.Failf("%s: with a running receiver, the old receiver got %d events and the new one %d, expected %d and %d", kindNames[kd], old, fresh, want, total-want)
				}
				g.receipts[kd] = nil
				g.mu.Unlock()
			}
			v := g.assign(kd, false)
			e = send(kd)
			expect(v, per(e), "another assignment")
			sig += fmt.Sprintf("/%d.%d", kd, mode)
			t.Eval(1)
		}
		// The end of the connection goes to the last assigned receiver.
		if r.Intn(2) == 0 {
			term = g.assign(kTerminated, false)
		}
		last := r.Intn(3)
		switch last {
		case 0:
			s.con.Close()
		case 1:
			s.sb.Disconnect()
		case 2:
			g.mu.Lock()
			g.hook[kTerminated] = func(v, e int) { g.assign(kTerminated, false) }
			g.mu.Unlock()
			s.con.Abort()
		}
		one(kTerminated, term, "end of the connection")
		sig += fmt.Sprint("/", last)
		t.Sig(sig)
		if t.Idx < 3 {
			t.Sample("case %d: %s", t.Idx, sig)
		}
	},
	Done: schedDone,
}
