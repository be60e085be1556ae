package main

import (
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/transport"
	"github.com/sttp/goapi/sttp/verifsched"

	"verif/harness/pub"
	"verif/harness/vf"
)

// kinds of repeated activity, with how many of them make up one round of a phase.
var c37Kinds = []struct {
	name string
	n    int
}{
	{"compact", 3000}, {"compressed", 3000}, {"base times", 3000}, {"keys", 3000}, {"caches", 1200}, {"notifications", 3000},
	{"metadata", 150}, {"blocks", 3000}, {"blocks out of order", 2000}, {"notices", 3000}, {"subscriptions", 800}, {"UDP subscriptions", 150},
	{"undecodable", 3000}, {"connections", 200}, {"lookups", 3000}, {"refused", 3000}, {"receivers", 3000}, {"readers", 300},
	{"failures", 2000}, {"losses", 200},
}

// longLived is a subscriber that does the same things over and over without anybody keeping what it delivers.
type longLived struct {
	*sess
	r     *rand.Rand
	set   *sttp.Settings
	sic   *pub.SIC
	g     *compactGen
	st    *tsscStream
	block uint32
	note  uint32
	fresh bool // every connection has signals of its own
	plain bool // no keys were sent on this connection
	meas  int64
	meta  int64
	last  atomic.Value
}

func (l *longLived) connect() {
	l.dial()
	l.subscribe("FILTER X WHERE True", l.set)
	for slot := byte(0); slot < 2; slot++ {
		l.sendSIC(l.sic, slot)
	}
	l.g = &compactGen{r: l.r, sic: [2]*pub.SIC{l.sic, l.sic}, includeTime: true}
	l.st = newTsscStream(l.r, 0, l.sic)
	l.block, l.plain = 0, true
}

func (l *longLived) send(resp, cmd byte, p []byte) { must(l.con.Send(resp, cmd, p)) }

// pace keeps the publisher from running ahead of dispatched handlers.
func (l *longLived) pace(i int) {
	if i%100 == 99 {
		l.sync()
		l.con.Forget()
	}
}

func (l *longLived) repeat(kind string, n int) {
	r := l.r
	idx := l.sic.Records[0].Index
	block := func(seq uint32) {
		l.send(pub.RespBufferBlock, pub.CmdSubscribe, pub.Block(2, seq, byte(r.Intn(2)), idx, make([]byte, 1+r.Intn(64))))
	}
	for i := 0; i < n; i++ {
		l.pace(i)
		switch kind {
		case "compact":
			p, _ := l.g.packet(r.Intn(10))
			l.send(pub.RespDataPacket, pub.CmdSubscribe, p)
		case "compressed":
			if !l.plain {
				continue
			}
			p, _ := l.st.packet(1 + r.Intn(10))
			l.send(pub.RespDataPacket, pub.CmdSubscribe, p)
		case "base times":
			l.send(pub.RespBaseTimes, pub.CmdSubscribe, l.g.newBase())
		case "keys":
			l.g.keys, l.plain = pub.RandKeys(r), false
			l.send(pub.RespCipherKeys, pub.CmdSubscribe, l.g.keys.Payload(byte(r.Intn(2))))
			if i%4 == 0 {
				p, _ := l.g.packet(3)
				l.send(pub.RespDataPacket, pub.CmdSubscribe, p)
			}
		case "caches":
			l.sendSIC(l.sic, byte(r.Intn(2)))
		case "notifications":
			l.note++
			l.send(pub.RespNotify, 0, append(pub.U32(l.note), "note"...))
		case "metadata":
			if i%3 == 0 {
				l.sb.RequestMetadata()
			}
			p := []byte(metaXML)
			if i%7 == 0 {
				p = p[:len(p)/2]
			}
			if l.cfg.CompressMetadata {
				p = pub.Gzip(p)
			}
			before := atomic.LoadInt64(&l.meta)
			l.send(pub.RespSucceeded, pub.CmdMetadataRefresh, p)
			if !vf.WaitFor(limit, func() bool { return atomic.LoadInt64(&l.meta) > before }) {
				l.t.Fatalf("metadata was not delivered; errors: %q", l.errors())
			}
		case "blocks":
			block(l.block)
			if r.Intn(4) == 0 && l.block > 0 {
				block(l.block - 1)
			}
			l.block++
		case "blocks out of order":
			k := uint32(2 + r.Intn(6))
			for j := k; j > 0; j-- {
				block(l.block + j - 1)
			}
			l.block += k
		case "notices":
			switch r.Intn(4) {
			case 0:
				l.send(pub.RespDataStartTime, pub.CmdSubscribe, pub.U64(637500000000000000))
			case 1:
				l.send(pub.RespProcComplete, pub.CmdSubscribe, []byte("done"))
			case 2:
				l.send(pub.RespConfigChanged, pub.CmdSubscribe, nil)
			default:
				l.send(pub.RespNoOP, pub.CmdSubscribe, nil)
			}
		case "subscriptions", "UDP subscriptions":
			set := *l.set
			if kind != "subscriptions" && r.Intn(3) > 0 {
				set.UdpPort = uint16(freePort(l.t, true))
			}
			if r.Intn(2) == 0 {
				l.sb.Unsubscribe()
				l.send(pub.RespSucceeded, pub.CmdUnsubscribe, nil)
			}
			l.subscribe("FILTER X WHERE True", &set)
			if i == n-1 {
				l.subscribe("FILTER X WHERE True", l.set)
			}
		case "undecodable":
			p, _ := l.st.packet(1 + r.Intn(4))
			if l.plain {
				switch r.Intn(3) {
				case 0: // the packet is lost
					continue
				case 1:
					l.st.reset()
					p, _ = l.st.packet(2)
				}
				l.send(pub.RespDataPacket, pub.CmdSubscribe, p)
			}
		case "connections":
			l.hangUp()
			l.srvForget()
			l.otherSignals()
			l.connect()
		case "losses":
			_, term := l.counts()
			l.con.Close()
			if !vf.WaitFor(limit, func() bool { _, now := l.counts(); return now > term && !l.sb.IsConnected() }) {
				l.t.Fatalf("the loss of the connection was not reported")
			}
			l.terms++
			l.srvForget()
			l.otherSignals()
			l.connect()
		case "lookups":
			rec := l.sic.Records[r.Intn(len(l.sic.Records))]
			m := transport.Measurement{SignalID: libGuid(rec.ID), Value: 1}
			_ = l.sb.LookupMetadata(m.SignalID)
			_ = l.sb.Metadata(&m)
			_ = l.sb.AdjustedValue(&m)
			c := l.sb.ActiveSignalIndexCache()
			_, _ = c.SignalID(rec.Index), c.SignalIDs()
			_ = l.sb.ConnectionID() + l.sb.SubscriberID().String()
		case "refused":
			switch r.Intn(3) {
			case 0:
				_ = l.sb.Dial("127.0.0.1:1", nil)
			case 1:
				_ = l.sb.Listen("127.0.0.1:1", nil)
			default:
				_ = l.sb.Dial("nowhere", nil)
			}
		case "receivers":
			l.receivers()
		case "readers":
			rd := l.sb.ReadMeasurements()
			p, _ := l.g.packet(3)
			if r.Intn(2) == 0 {
				l.send(pub.RespDataPacket, pub.CmdSubscribe, p)
			}
			rd.Close()
			l.receivers()
		case "failures":
			l.send(pub.RespFailed, []byte{pub.CmdSubscribe, pub.CmdMetadataRefresh, 0x77}[r.Intn(3)], []byte("refused"))
			if i == n-1 {
				l.subscribe("FILTER X WHERE True", l.set)
			}
		}
	}
	l.sync()
}

// otherSignals makes the next connection use signals that were never seen before, and look up all of them.
func (l *longLived) otherSignals() {
	for _, rec := range l.sic.Records {
		_ = l.sb.LookupMetadata(libGuid(rec.ID))
	}
	if l.fresh {
		l.sic = randSIC(l.r, len(l.sic.Records))
	}
}

func (l *longLived) srvForget() {
	if l.srv != nil {
		l.srv.Forget()
	}
}

func (l *longLived) receivers() {
	sb := l.sb
	sb.SetStatusMessageLogger(func(string) {})
	sb.SetErrorMessageLogger(func(m string) { l.last.Store(m) })
	sb.SetNewMeasurementsReceiver(func(m *[]transport.Measurement) {
		atomic.AddInt64(&l.meas, int64(len(*m)))
		if l.pool {
			sb.PutMeasurementSlice(m)
		}
	})
	sb.SetSubscriptionUpdatedReceiver(func(*transport.SignalIndexCache) {})
	sb.SetNotificationReceiver(func(string) {})
	sb.SetNewBufferBlocksReceiver(func([]transport.BufferBlock) {})
	sb.SetMetadataReceiver(func(*data.DataSet) { atomic.AddInt64(&l.meta, 1) })
	sb.SetDataStartTimeReceiver(func(time.Time) {})
	sb.SetConfigurationChangedReceiver(func() {})
	sb.SetHistoricalReadCompleteReceiver(func() {})
}

// usage is what the process holds when nothing is going on.
type usage struct{ heap, goroutines, sockets int }

func (l *longLived) usage() usage {
	l.sync()
	l.idle()
	l.con.Forget()
	l.srvForget()
	u := usage{goroutines: runtime.NumGoroutine(), sockets: sockets()}
	for same := 0; same < 20; same++ {
		time.Sleep(time.Millisecond)
		if n := runtime.NumGoroutine(); n != u.goroutines {
			u.goroutines, same = n, 0
		}
	}
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	u.heap = int(m.HeapAlloc)
	return u
}

// forgotten runs short-lived subscribers and counts those that are still kept after they were closed.
func forgotten(t *vf.T) int {
	n := 1 + t.R.Intn(6)
	left := int64(n)
	for i := 0; i < n; i++ {
		func() {
			l := &longLived{sess: newSess(t), r: t.R, set: sttp.NewSettings(), sic: randSIC(t.R, 1+t.R.Intn(20))}
			runtime.AddCleanup(l.sb, func(p *int64) { atomic.AddInt64(p, -1) }, &left)
			l.pool = t.R.Intn(2) == 0
			l.receivers()
			switch t.R.Intn(4) {
			case 0:
			case 1:
				l.cfg.MaxRetries = 1
				_ = l.sb.Dial("127.0.0.1:1", l.cfg)
			default:
				l.connect()
				for _, k := range []string{"compact", "blocks", "notices", "metadata", "receivers", "readers"} {
					l.repeat(k, 1+t.R.Intn(4))
				}
				if t.R.Intn(2) == 0 {
					l.hangUp()
				}
			}
			l.close()
		}()
	}
	vf.WaitFor(limit, func() bool { runtime.GC(); return atomic.LoadInt64(&left) == 0 })
	t.Count("subscribers_released", n)
	return int(atomic.LoadInt64(&left))
}

// spare makes the runtime set aside what it needs for many goroutines at once, which it never gives back.
func spare(*vf.Worker) {
	var ready, done sync.WaitGroup
	stop := make(chan struct{})
	for i := 0; i < 5000; i++ {
		ready.Add(1)
		done.Add(1)
		go func() {
			ready.Done()
			select {
			case <-stop:
			case <-time.After(time.Hour):
			}
			done.Done()
		}()
	}
	ready.Wait()
	close(stop)
	done.Wait()
}

var c37 = &vf.Prop{
	ID: "C37",
	Rule: "each case repeats one to three kinds of activity thousands of times on one subscriber in four equal phases and compares the memory in use " +
		"after collection, the goroutines and the sockets at rest after each phase; some cases also check that closed subscribers are released; " +
		"distinct_nontrivial counts different combinations of activities and configurations",
	Quick: 120, Thorough: 1000,
	Case: func(t *vf.T) {
		verifsched.Off()
		r := t.R
		l := &longLived{sess: newSess(t), r: r, set: sttp.NewSettings(), sic: randSIC(r, 1+r.Intn(20))}
		defer l.close()
		l.hold = 0
		l.pool = r.Intn(2) == 0
		l.cfg.CompressMetadata = r.Intn(2) == 0
		l.cfg.CompressSignalIndexCache = r.Intn(2) == 0
		l.cfg.RfcGuidEncoding = r.Intn(2) == 0
		l.fresh = r.Intn(2) == 0
		l.receivers()
		l.connect()
		var mix []int
		mix = append(mix, t.Idx%len(c37Kinds))
		for len(mix) < 1+t.Idx/len(c37Kinds)%3 {
			mix = append(mix, r.Intn(len(c37Kinds)))
		}
		var names []string
		for _, k := range mix {
			names = append(names, c37Kinds[k].name)
		}
		what := strings.Join(names, ", ")
		n := 0
		for _, k := range mix {
			n += c37Kinds[k].n
		}
		// Growth counts when it is far above what the collector leaves to chance, goes on from phase to phase and
		// is found again in as many further phases.
		bound := 3 * 8 * n
		if bound < 32768 {
			bound = 32768
		}
		var first, last usage
		grows := true
		for round := 0; round < 2 && grows; round++ {
			steps := 0
			start := last
			for phase := 0; phase < 4; phase++ {
				if round > 0 && phase == 0 {
					continue
				}
				for _, k := range mix {
					l.repeat(c37Kinds[k].name, c37Kinds[k].n)
				}
				u := l.usage()
				t.Eval(1)
				t.Count("activities", n)
				if round == 0 && phase == 0 {
					first, start, last = u, u, u
					continue
				}
				if u.heap-last.heap > bound/6 {
					steps++
				}
				last = u
			}
			grows = last.heap-start.heap > bound && steps > 1
		}
		t.Sig("%s|%v|%v|%v|%v", what, l.pool, l.cfg.CompressMetadata, l.port > 0, l.fresh)
		if grows {
			t.Failf("%s: after %d repetitions each memory keeps growing, from %d to %d bytes in %d phases", what, n, first.heap, last.heap, 7)
		}
		if !vf.WaitFor(limit, func() bool { return runtime.NumGoroutine() <= first.goroutines }) {
			t.Failf("%s: %d goroutines after the first phase, %d after the last", what, first.goroutines, runtime.NumGoroutine())
		}
		if !vf.WaitFor(limit, func() bool { return sockets() <= first.sockets }) {
			t.Failf("%s: %d sockets after the first phase, %d after the last", what, first.sockets, sockets())
		}
		if t.Idx%3 == 0 {
			if n := forgotten(t); n > 0 {
				t.Failf("%d closed subscribers are still in memory", n)
			}
			t.Eval(1)
		}
	},
	Init: spare,
}
