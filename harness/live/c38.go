package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/transport"
	"github.com/sttp/goapi/sttp/verifsched"

	"verif/harness/pub"
	"verif/harness/vf"
)

// receivers that calls are made from; the connection waits for the first five.
var c38From = []string{"established", "terminated", "measurements", "blocks", "start time", "cache", "notification", "changed", "complete", "metadata", "status", "error"}

const c38Waited = 5

// calls after which the session goes on, then those that end it; the last three wait for its end.
var c38Calls = []string{"reads", "subscribe", "unsubscribe", "request", "refused", "assign", "reader", "messages", "disconnect", "close", "dial again", "listen again"}

const c38Ending = 8

// inner is a session whose receivers call the subscriber.
type inner struct {
	*sess
	lock  sync.Mutex
	armed string // the receiver that makes the call
	call  func()
	done  chan struct{}
	calls map[string]int
	notes map[string]int
	udp   *udpSender
	port  int
	block uint32
	sic   *pub.SIC
	g     *compactGen
	want  []pub.Meas
}

// in is called by every receiver.
func (c *inner) in(name string) {
	c.lock.Lock()
	c.calls[name]++
	if c.armed != name {
		c.lock.Unlock()
		return
	}
	c.armed = ""
	f, done := c.call, c.done
	c.lock.Unlock()
	f()
	close(done)
}

func (c *inner) arm(name string, f func()) {
	c.lock.Lock()
	c.armed, c.call, c.done = name, f, make(chan struct{})
	c.lock.Unlock()
}

func (c *inner) noted(m string) int {
	c.lock.Lock()
	defer c.lock.Unlock()
	return c.notes[m]
}

// receivers assigns all receivers that report what happens on a connection.
func (c *inner) receivers() {
	sb := c.sb
	note := func(kind, m string) {
		c.lock.Lock()
		c.notes[kind+m]++
		c.lock.Unlock()
		c.in(kind)
	}
	sb.SetStatusMessageLogger(func(m string) { note("status", m) })
	sb.SetErrorMessageLogger(func(m string) {
		c.sess.mu.Lock()
		c.errs = append(c.errs, m)
		c.sess.mu.Unlock()
		note("error", m)
	})
	sb.SetSubscriptionUpdatedReceiver(func(*transport.SignalIndexCache) { c.in("cache") })
	sb.SetNotificationReceiver(func(string) { c.in("notification") })
	sb.SetNewBufferBlocksReceiver(func([]transport.BufferBlock) { c.in("blocks") })
	sb.SetMetadataReceiver(func(*data.DataSet) { c.in("metadata") })
	sb.SetDataStartTimeReceiver(func(time.Time) { c.in("start time") })
	sb.SetConfigurationChangedReceiver(func() { c.in("changed") })
	sb.SetHistoricalReadCompleteReceiver(func() { c.in("complete") })
	sb.SetNewMeasurementsReceiver(c.measurements)
}

// trigger makes the publisher send what the receiver is called for.
func (c *inner) trigger(name string) {
	k, r := c.con, c.t.R
	data := func(resp byte, p []byte) {
		if c.udp != nil && r.Intn(3) > 0 {
			c.udp.send(resp, pub.CmdSubscribe, p)
		} else {
			must(k.Send(resp, pub.CmdSubscribe, p))
		}
	}
	switch name {
	case "measurements":
		p, m := c.g.packet(1 + r.Intn(5))
		data(pub.RespDataPacket, p)
		c.want = append(c.want, m...)
	case "blocks":
		data(pub.RespBufferBlock, pub.Block(2, c.block, 0, c.sic.Records[0].Index, []byte{1, 2}))
		c.block++
	case "start time":
		data(pub.RespDataStartTime, pub.U64(637500000000000000))
	case "cache":
		must(k.Send(pub.RespUpdateSIC, pub.CmdSubscribe, c.sic.Payload(2, 0, !c.cfg.RfcGuidEncoding, c.cfg.CompressSignalIndexCache)))
	case "notification", "status":
		must(k.Send(pub.RespNotify, 0, append(pub.U32(9), "x"...)))
	case "changed":
		must(k.Send(pub.RespConfigChanged, pub.CmdSubscribe, nil))
	case "complete":
		must(k.Send(pub.RespProcComplete, pub.CmdSubscribe, []byte("x")))
	case "metadata":
		p := []byte(metaXML)
		if c.cfg.CompressMetadata {
			p = pub.Gzip(p)
		}
		must(k.Send(pub.RespSucceeded, pub.CmdMetadataRefresh, p))
	case "error":
		must(k.Send(pub.RespFailed, pub.CmdMetadataRefresh, []byte("x")))
	}
}

// returned waits for the call from the receiver.
func (c *inner) returned(what, name string) {
	select {
	case <-c.done:
	case <-time.After(limit):
		c.lock.Lock()
		armed := c.armed
		c.lock.Unlock()
		if armed != "" {
			c.t.Fatalf("the %s receiver was not called; errors: %q", name, c.errors())
		}
		buf := make([]byte, 1<<18)
		c.t.Fatalf("%q from the %s receiver does not return; goroutines:\n%s", what, name, buf[:runtime.Stack(buf, true)])
	}
	c.t.Eval(1)
}

func (c *inner) noUDP() {
	if c.udp != nil {
		c.udp.c.Close()
	}
	c.udp = nil
}

// streams subscribes, perhaps with a data channel, and makes data ready to be sent.
func (c *inner) streams() {
	r := c.t.R
	set := sttp.NewSettings()
	c.noUDP()
	// a listening subscriber reports the connection while the session already goes on
	if !vf.WaitFor(limit, func() bool {
		c.lock.Lock()
		defer c.lock.Unlock()
		return c.calls["established"] == c.calls["terminated"]+1
	}) {
		c.t.Fatalf("the connection was not reported")
	}
	if r.Intn(2) == 0 {
		if c.port == 0 {
			c.port = freePort(c.t, true)
		}
		set.UdpPort = uint16(c.port)
	}
	c.subscribe("FILTER X WHERE True", set)
	if set.UdpPort > 0 {
		c.udp = dialUDP(c.port)
	}
	if c.sic == nil {
		c.sic = randSIC(r, 1+r.Intn(5))
		c.sendSIC(c.sic, 0)
		c.g = &compactGen{r: r, sic: [2]*pub.SIC{c.sic, nil}, includeTime: true}
	}
}

// flows sends data and requires that all of it was delivered.
func (c *inner) flows(when string) {
	c.trigger("measurements")
	if !vf.WaitFor(limit, func() bool { return c.count() >= len(c.want) }) {
		c.t.Fatalf("%s: %d of %d measurements were delivered; errors: %q", when, c.count(), len(c.want), c.errors())
	}
	c.sync()
	c.compare(c.want)
}

var c38 = &vf.Prop{
	ID: "C38",
	Rule: "each case makes calls on a subscriber from within its receivers, one kind of call from one kind of receiver at a time with and without a UDP " +
		"data channel, dialling and listening, and checks that the call returns, what it sends and changes, that data still arrives and that the session can be " +
		"ended or replaced; distinct_nontrivial counts different sequences of receivers and calls",
	Quick: 1200, Thorough: 20000,
	Case: func(t *vf.T) {
		perturb(t)
		r := t.R
		spare := freePort(t, false) // a process that uses ports claims a range of them first
		base, baseSock := runtime.NumGoroutine(), sockets()
		s := newSess(t)
		s.pool = r.Intn(2) == 0
		c := &inner{sess: s, calls: map[string]int{}, notes: map[string]int{}}
		c.receivers()
		s.onMeas = func([]transport.Measurement) { c.in("measurements") }
		s.onEst = func() { c.in("established") }
		s.onTerm = func() { c.in("terminated") }
		closed := false
		defer func() {
			if !closed {
				s.close()
			}
		}()
		sb := s.sb
		var result atomic.Value
		again := 0
		calls := map[string]func(){
			"reads": func() {
				_, _, _, _ = sb.IsConnected(), sb.IsValidated(), sb.IsListening(), sb.IsSubscribed()
				_ = sb.ConnectionID() + sb.SubscriberID().String()
				for id := range sb.ActiveSignalIndexCache().SignalIDs() {
					m := transport.Measurement{SignalID: id}
					_, _, _ = sb.LookupMetadata(id), sb.Metadata(&m), sb.AdjustedValue(&m)
				}
				_ = sb.TotalCommandChannelBytesReceived() + sb.TotalDataChannelBytesReceived() + sb.TotalMeasurementsReceived()
			},
			"subscribe":   func() { sb.Subscribe("FILTER Y WHERE True", nil) },
			"unsubscribe": sb.Unsubscribe,
			"request":     sb.RequestMetadata,
			"refused": func() {
				result.Store(fmt.Sprintf("%v %v", sb.Dial("127.0.0.1:9", nil) != nil, sb.Listen("127.0.0.1:9", nil) != nil))
			},
			"assign":     c.receivers,
			"reader":     func() { sb.ReadMeasurements().Close(); sb.SetNewMeasurementsReceiver(c.measurements) },
			"messages":   func() { sb.StatusMessage("inner"); sb.ErrorMessage("inner") },
			"disconnect": sb.Disconnect,
			"close":      sb.Close,
			"dial again": func() {
				sb.Disconnect()
				result.Store(fmt.Sprint(sb.Dial(s.srv.Addr(), s.cfg)))
			},
			"listen again": func() {
				sb.Disconnect()
				result.Store(fmt.Sprint(sb.Listen(fmt.Sprintf("127.0.0.1:%d", again), s.cfg)))
			},
		}
		sig := ""
		// try makes a call from a receiver and sees to its effects.
		try := func(name, what string, start func()) {
			sig += name + ":" + what + ","
			k := s.con
			frames := func(cmd byte) int {
				if k == nil || name == "established" {
					return 0
				}
				return k.CountOf(cmd)
			}
			subs, unsubs, reqs := frames(pub.CmdSubscribe), frames(pub.CmdUnsubscribe), frames(pub.CmdMetadataRefresh)
			est, term := s.counts()
			note := [2]int{c.noted("statusinner"), c.noted("errorinner")}
			result.Store("")
			c.arm(name, calls[what])
			start()
			c.returned(what, name)
			t.Count(fmt.Sprintf("%q from the %s receiver", what, name), 1)
			k = s.con
			where := fmt.Sprintf("%q from the %s receiver", what, name)
			if k != nil && name != "terminated" {
				switch what {
				case "subscribe":
					if !k.WaitFrames(pub.CmdSubscribe, subs+1, limit) {
						t.Fatalf("%s sent no request; errors: %q", where, s.errors())
					}
					s.acceptSubscribe(subs + 1)
					c.noUDP()
				case "unsubscribe":
					if name == "established" {
						break // there is nothing to end
					}
					if !k.WaitFrames(pub.CmdUnsubscribe, unsubs+1, limit) {
						t.Fatalf("%s sent no request; errors: %q", where, s.errors())
					}
					must(k.Send(pub.RespSucceeded, pub.CmdUnsubscribe, nil))
					s.sync()
					if sb.IsSubscribed() {
						t.Failf("%s: still subscribed", where)
					}
					c.noUDP()
				case "request":
					if !k.WaitFrames(pub.CmdMetadataRefresh, reqs+1, limit) {
						t.Fatalf("%s sent no request; errors: %q", where, s.errors())
					}
				}
			}
			switch what {
			case "refused":
				if got := result.Load(); got != "true true" {
					t.Failf("%s, connecting and listening while connected: refused %s", where, got)
				}
			case "messages":
				if !vf.WaitFor(limit, func() bool { return c.noted("statusinner") == note[0]+1 && c.noted("errorinner") == note[1]+1 }) {
					t.Failf("%s: messages logged %d and %d times", where, c.noted("statusinner")-note[0], c.noted("errorinner")-note[1])
				}
			case "disconnect", "close":
				if name == "terminated" {
					break
				}
				if !vf.WaitFor(limit, func() bool { e, m := s.counts(); return e == m }) {
					t.Fatalf("%s: the end of the connection was not reported", where)
				}
				if sb.IsConnected() || sb.IsListening() {
					t.Failf("%s: connected %v, listening %v", where, sb.IsConnected(), sb.IsListening())
				}
				if e, m := s.counts(); name != "established" && (e != est || m != term+1) {
					t.Failf("%s: %d connections established, %d terminated", where, e-est, m-term)
				}
			case "dial again", "listen again":
				if got := result.Load(); got != "<nil>" {
					t.Fatalf("%s fails: %v", where, got)
				}
				if e, m := s.counts(); m != term+1 || e > est+1 {
					t.Failf("%s: %d connections established, %d terminated", where, e-est, m-term)
				}
			}
		}
		if r.Intn(5) == 0 {
			s.port = spare
		} else {
			s.server()
		}
		connect := func() { s.dial() }
		end := func() {
			sb.Disconnect()
			if !vf.WaitFor(limit, func() bool { e, m := s.counts(); return e == m && !sb.IsConnected() }) {
				t.Fatalf("the end of the connection was not reported")
			}
			s.con.Close()
		}
		pick := func(from, to int) string { return c38From[from+r.Intn(to-from)] }
		conns := 1 + r.Intn(2)
		for n := 0; n < conns; n++ {
			last := n == conns-1
			c.sic, c.block = nil, 0
			c.noUDP()
			if r.Intn(3) == 0 {
				what := c38Calls[r.Intn(c38Ending+1)]
				if what == "disconnect" {
					s.noAuto = true
				}
				try("established", what, connect)
				s.noAuto = false
				if what == "disconnect" {
					if s.con != nil {
						s.con.Close()
					}
					continue
				}
			} else {
				connect()
			}
			c.streams()
			for i, m := 0, 1+r.Intn(4); i < m; i++ {
				name := pick(2, len(c38From))
				what := c38Calls[r.Intn(c38Ending)]
				if i == 0 {
					name, what = c38From[2+t.Idx%(len(c38From)-2)], c38Calls[t.Idx/(len(c38From)-2)%c38Ending]
				}
				s.idle()
				try(name, what, func() { c.trigger(name) })
				if c.udp == nil && r.Intn(2) == 0 || what == "unsubscribe" {
					c.streams()
				}
				c.flows(fmt.Sprintf("after %q from the %s receiver", what, name))
			}
			s.idle()
			switch how := r.Intn(6); {
			case how == 0: // calls from the receiver that reports the end
				what := c38Calls[r.Intn(c38Ending+1)]
				if what == "refused" { // this would wait for the end of the connection
					what = "reads"
				}
				try("terminated", what, func() {
					if r.Intn(2) == 0 {
						s.con.Close()
					} else {
						sb.Disconnect()
					}
				})
				if !vf.WaitFor(limit, func() bool { e, m := s.counts(); return e == m && !sb.IsConnected() }) {
					t.Fatalf("the end of the connection was not reported")
				}
				if s.port > 0 {
					sb.Disconnect()
				}
				s.con.Close()
			case how == 1:
				name := pick(2, len(c38From))
				try(name, "disconnect", func() { c.trigger(name) })
				s.con.Close()
			case how == 2 && last:
				name := pick(c38Waited, len(c38From))
				try(name, "close", func() { c.trigger(name) })
			case how <= 4 && s.port <= 0:
				name, what := pick(c38Waited, len(c38From)), "dial again"
				old := s.con
				if how == 4 {
					what, again = "listen again", freePort(t, false)
				}
				try(name, what, func() { c.trigger(name) })
				old.Close()
				if how == 4 {
					s.con = call(t, again)
					go autoAccept(s.con)
				} else if s.con = s.srv.NextConn(limit); s.con == nil {
					t.Fatalf("dialling from the %s receiver made no connection", name)
				}
				s.awaitReady()
				c.sic, c.block = nil, 0
				c.noUDP()
				c.streams()
				c.flows(what)
				end()
			default:
				end()
			}
		}
		c.noUDP()
		verifsched.Off()
		within(t, "close", sb.Close)
		closed = true
		if s.srv != nil {
			s.srv.Close()
		}
		if s.con != nil {
			s.con.Close()
		}
		quiesce(t, base)
		if !vf.WaitFor(limit, func() bool { return sockets() <= baseSock }) {
			t.Failf("%d sockets are left open after close", sockets()-baseSock)
		}
		c.lock.Lock()
		for name, n := range c.calls {
			t.Count("calls of the "+name+" receiver", n)
		}
		c.lock.Unlock()
		t.Sig(sig)
		if t.Idx < 5 {
			t.Sample("case %d: %s", t.Idx, sig)
		}
	},
	Done: schedDone,
}
