package main

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/transport"
	"github.com/sttp/goapi/sttp/verifsched"

	"verif/harness/metagen"
	"verif/harness/pub"
	"verif/harness/vf"
)

// useCache calls everything a user can do with a signal index cache.
func useCache(c *transport.SignalIndexCache, id guid.Guid) (n int) {
	if c == nil {
		return 0
	}
	idx := c.SignalIndex(id)
	for _, i := range []int32{idx, 0, 1, 7, -1} {
		if c.Contains(i) {
			n++
		}
		_, src, num, ok := c.Record(i)
		if ok {
			n += len(src) + int(num&1)
		}
		if c.SignalID(i) == id {
			n++
		}
		n += len(c.Source(i)) + int(c.ID(i)&1)
	}
	set := c.SignalIDs()
	return n + int(c.Count()) + int(c.BinaryLength()) + len(set.Keys())
}

// storm is one user goroutine that calls public operations until stopped.
type storm struct {
	s     *sess
	ids   []guid.Guid
	calls int64
}

func (m *storm) run(seed int64, stop *int32, wg *sync.WaitGroup, disc, assign bool) {
	defer wg.Done()
	r := rand.New(rand.NewSource(seed))
	sb := m.s.sb
	var sink int64
	for atomic.LoadInt32(stop) == 0 {
		id := m.ids[r.Intn(len(m.ids))]
		atomic.AddInt64(&m.calls, 1)
		n := 18
		if assign {
			n = 30
		}
		switch r.Intn(n) {
		case 0:
			set := sttp.NewSettings()
			set.IncludeTime = true
			set.Throttled = r.Intn(2) == 0
			set.ConstraintParameters = fmt.Sprint("x=", r.Intn(9))
			sb.Subscribe(fmt.Sprintf("FILTER X%d WHERE True", r.Intn(9)), set)
		case 1:
			sb.Unsubscribe()
		case 2:
			sb.RequestMetadata()
		case 3:
			sink += int64(len(sb.ConnectionID()))
		case 4, 5:
			sink += int64(useCache(sb.ActiveSignalIndexCache(), id))
		case 6:
			sink += int64(sb.TotalMeasurementsReceived() + sb.TotalCommandChannelBytesReceived() + sb.TotalDataChannelBytesReceived())
		case 7:
			if sb.IsConnected() && sb.IsSubscribed() && sb.IsListening() && sb.IsValidated() {
				sink++
			}
		case 8:
			g := sb.SubscriberID()
			sink += int64(g[0])
		case 9, 10:
			if sb.LookupMetadata(id) == nil {
				sink++
			}
		case 11:
			if sb.Metadata(&transport.Measurement{SignalID: id}) == nil {
				sink++
			}
		case 12, 13:
			sink += int64(sb.AdjustedValue(&transport.Measurement{SignalID: id, Value: 3}))
		case 14:
			if disc && r.Intn(6) == 0 {
				sb.Disconnect()
			}
		case 15:
			sb.StatusMessage("status from the user")
		case 16:
			sb.ErrorMessage("error from the user")
		case 17:
			runtime.Gosched()
		case 18:
			sb.SetStatusMessageLogger(func(string) {})
		case 19:
			sb.SetErrorMessageLogger(func(string) {})
		case 20:
			sb.SetMetadataReceiver(func(ds *data.DataSet) { _ = docVersion(ds); _ = ds.String() })
		case 21:
			sb.SetSubscriptionUpdatedReceiver(func(c *transport.SignalIndexCache) { useCache(c, id) })
		case 22:
			sb.SetDataStartTimeReceiver(func(time.Time) {})
		case 23:
			sb.SetConfigurationChangedReceiver(func() {})
		case 24, 25:
			pool := r.Intn(2) == 0
			sb.SetNewMeasurementsReceiver(func(ms *[]transport.Measurement) {
				v := 0.0
				for i := range *ms {
					x := &(*ms)[i]
					v += x.Value + sb.AdjustedValue(x)
					if sb.Metadata(x) == nil || x.Timestamp == 0 {
						v++
					}
				}
				if pool {
					sb.PutMeasurementSlice(ms)
				}
			})
		case 26:
			sb.SetNewBufferBlocksReceiver(func(b []transport.BufferBlock) {
				for i := range b {
					_ = b[i].SignalID.String() + string(b[i].Buffer)
				}
			})
		case 27:
			sb.SetNotificationReceiver(func(n string) { _ = n + "x" })
		case 28:
			sb.SetHistoricalReadCompleteReceiver(func() {})
		case 29:
			switch r.Intn(3) {
			case 0:
				sb.SetConnectionEstablishedReceiver(sb.DefaultConnectionEstablishedReceiver)
			case 1:
				sb.SetConnectionTerminatedReceiver(sb.DefaultConnectionTerminatedReceiver)
			default:
				rd := sb.ReadMeasurements()
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(r.Intn(2000))*time.Microsecond)
				for i := 0; i < 5; i++ {
					if m, done := rd.NextMeasurement(ctx); !done {
						sink += int64(m.Value)
					}
				}
				cancel()
				sb.SetNewMeasurementsReceiver(nil)
				rd.Close()
			}
		}
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		}
	}
	_ = sink
}

// traffic sends every kind of response until the connection ends.
func traffic(k *pub.Conn, s *sess, seed int64, sics []*pub.SIC, ids []guid.Guid, u *udpSender, stop *int32, wg *sync.WaitGroup) {
	defer wg.Done()
	r := rand.New(rand.NewSource(seed))
	g := &compactGen{r: r, sic: [2]*pub.SIC{sics[0], nil}, includeTime: true}
	keys := pub.RandKeys(r)
	block := uint32(0)
	answered := 0
	for i := 0; atomic.LoadInt32(stop) == 0; i++ {
		var err error
		switch r.Intn(14) {
		case 0:
			c, slot := sics[r.Intn(len(sics))], byte(r.Intn(2))
			g.sic[slot] = c
			err = k.Send(pub.RespUpdateSIC, pub.CmdSubscribe, c.Payload(int(s.cfg.Version), slot, !s.cfg.RfcGuidEncoding, s.cfg.CompressSignalIndexCache))
		case 1:
			p := []byte(metaDoc(r, i, 1+r.Intn(4), ids).XML(r))
			if s.cfg.CompressMetadata {
				p = pub.Gzip(p)
			}
			err = k.Send(pub.RespSucceeded, pub.CmdMetadataRefresh, p)
		case 2:
			err = k.Send(pub.RespNotify, 0, append(pub.U32(uint32(i)), "note"...))
		case 3:
			err = k.Send(pub.RespConfigChanged, 0, nil)
		case 4:
			err = k.Send(pub.RespProcComplete, 0, []byte("complete"))
		case 5:
			err = k.Send(pub.RespDataStartTime, 0, pub.U64(uint64(637500000000000000+i)))
		case 6:
			err = k.Send(pub.RespBufferBlock, 0, pub.Block(2, block, 0, sics[0].Records[0].Index, []byte("block")))
			block++
		case 7:
			err = k.Send(pub.RespFailed, pub.CmdUpdateInterval, []byte("no"))
		case 8:
			err = k.Send(pub.RespBaseTimes, 0, g.newBase())
		case 9:
			err = k.Send(pub.RespCipherKeys, 0, keys.Payload(byte(r.Intn(2))))
			g.keys = keys
		case 10:
			if n := k.CountOf(pub.CmdSubscribe); n > answered {
				answered = n
				err = k.Send(pub.RespSucceeded, pub.CmdSubscribe, []byte("subscribed"))
			}
		default:
			p, _ := g.packet(1 + r.Intn(20))
			if u != nil && r.Intn(2) == 0 {
				_, _ = u.c.Write(pub.Body(pub.RespDataPacket, pub.CmdSubscribe, p))
			} else {
				err = k.Send(pub.RespDataPacket, pub.CmdSubscribe, p)
			}
		}
		if err != nil {
			return
		}
		time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
	}
}

var c15 = &vf.Prop{
	ID: "C15",
	Rule: "each case runs goroutines that call the public getters, lookups, commands, assignments and disconnects against a publisher that sends " +
		"every kind of response, drops and returns, in dialling or listening mode, with and without a UDP data channel, under the race detector; " +
		"distinct_nontrivial counts different (mode, users, connection) histories",
	RaceMatters: true,
	Quick:       1200, Thorough: 16000,
	Case: func(t *vf.T) {
		perturb(t)
		r := t.R
		s := newSess(t)
		s.noReports = true
		closed := false
		defer func() {
			if !closed {
				s.close()
			}
		}()
		var ids []guid.Guid
		var sics []*pub.SIC
		for i := 0; i < 3; i++ {
			c := randSIC(r, 2+r.Intn(4))
			sics = append(sics, c)
			for _, rec := range c.Records {
				ids = append(ids, libGuid(rec.ID))
			}
		}
		ids = append(ids, metagen.Guid(r))
		listening := r.Intn(3) == 0
		disc := r.Intn(3) == 0
		assign := r.Intn(3) > 0
		s.cfg.AutoReconnect = r.Intn(2) == 0
		s.cfg.AutoRequestMetadata = r.Intn(2) == 0
		s.cfg.AutoSubscribe = r.Intn(2) == 0
		s.cfg.RetryInterval, s.cfg.MaxRetryInterval = 1, 5
		s.cfg.CompressMetadata = r.Intn(2) == 0
		port := 0
		if listening {
			port = freePort(t, false)
		} else {
			s.server()
		}
		if assign {
			s.sb.SetConnectionTerminatedReceiver(func() {})
		}
		cycles := 1 + r.Intn(3)
		st := &storm{s: s, ids: ids}
		var stop int32
		var users sync.WaitGroup
		nu := 2 + r.Intn(4)
		for i := 0; i < nu; i++ {
			users.Add(1)
			go st.run(r.Int63(), &stop, &users, disc, assign)
		}
		events := 0
		for c := 0; c < cycles; c++ {
			var k *pub.Conn
			if listening {
				if !s.sb.IsListening() {
					if err := s.sb.Listen(fmt.Sprintf("127.0.0.1:%d", port), s.cfg); err != nil {
						continue // still shutting down
					}
				}
				var err error
				if k, err = pub.Dial(port); err != nil {
					continue
				}
				go autoAccept(k)
			} else {
				n := len(s.srv.Conns())
				if !s.sb.IsConnected() {
					done := make(chan struct{})
					go func() { _ = s.sb.Dial(s.srv.Addr(), s.cfg); close(done) }()
					select {
					case <-done:
					case <-time.After(limit):
						t.Fatalf("a dial did not complete:\n%s", libraryStacks())
					}
				}
				vf.WaitFor(200*time.Millisecond, func() bool { return len(s.srv.Conns()) > n })
				if cs := s.srv.Conns(); len(cs) > 0 {
					k = cs[len(cs)-1]
				} else {
					continue
				}
			}
			if k.WaitFrames(pub.CmdDefineOpModes, 1, time.Second) {
				var u *udpSender
				if r.Intn(3) == 0 {
					set := sttp.NewSettings()
					set.UdpPort = uint16(freePort(t, true))
					s.sb.Subscribe("FILTER X WHERE True", set)
					u = dialUDP(int(set.UdpPort))
				}
				var tstop int32
				var tw sync.WaitGroup
				tw.Add(1)
				go traffic(k, s, r.Int63(), sics, ids, u, &tstop, &tw)
				time.Sleep(time.Duration(5+r.Intn(25)) * time.Millisecond)
				switch r.Intn(3) {
				case 0:
					k.Close()
				case 1:
					k.Abort()
				default:
					s.sb.Disconnect()
				}
				atomic.StoreInt32(&tstop, 1)
				tw.Wait()
				if u != nil {
					u.c.Close()
				}
				events++
			}
			if r.Intn(2) == 0 {
				k.Close()
			}
		}
		verifsched.Off()
		if r.Intn(2) == 0 { // close under fire
			within(t, "close while other goroutines use the subscriber", s.sb.Close)
			closed = true
		}
		atomic.StoreInt32(&stop, 1)
		within(t, "public operations", users.Wait)
		if !closed {
			within(t, "close", s.sb.Close)
			closed = true
		}
		if s.srv != nil {
			s.srv.Close()
		}
		t.Eval(events)
		t.Count("connections_with_traffic", events)
		t.Count("public_calls", int(atomic.LoadInt64(&st.calls)))
		t.Sig(fmt.Sprint(listening, disc, assign, s.cfg.AutoReconnect, s.cfg.AutoRequestMetadata, s.cfg.AutoSubscribe, nu, cycles, events))
		if t.Idx < 3 {
			t.Sample("case %d: listening %v, %d users, %d cycles, %d with traffic", t.Idx, listening, nu, cycles, events)
		}
	},
	Done: schedDone,
}
