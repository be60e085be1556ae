package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/transport"
	"github.com/sttp/goapi/sttp/verifsched"

	"verif/harness/pub"
	"verif/harness/vf"
)

// sockets counts the open sockets of the process.
func sockets() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	n := 0
	for _, e := range d {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

func within(t *vf.T, what string, f func()) {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(limit):
		buf := make([]byte, 1<<18)
		t.Fatalf("%s did not complete; goroutines:\n%s", what, buf[:runtime.Stack(buf, true)])
	}
}

func pause(r *rand.Rand, maxUs int) {
	if r.Intn(3) > 0 {
		time.Sleep(time.Duration(r.Intn(maxUs)) * time.Microsecond)
	}
}

// noise calls public operations from a goroutine until stopped.
func noise(sb *sttp.Subscriber, seed int64, stop *int32, wg *sync.WaitGroup, disc bool) {
	defer wg.Done()
	r := rand.New(rand.NewSource(seed))
	for atomic.LoadInt32(stop) == 0 {
		switch r.Intn(9) {
		case 0:
			sb.Subscribe("FILTER X WHERE True", nil)
		case 1:
			sb.Unsubscribe()
		case 2:
			sb.RequestMetadata()
		case 3:
			_ = sb.ConnectionID()
		case 4:
			_ = sb.ActiveSignalIndexCache()
		case 5:
			_ = sb.TotalMeasurementsReceived() + sb.TotalCommandChannelBytesReceived() + sb.TotalDataChannelBytesReceived()
		case 6:
			_ = sb.IsConnected() && sb.IsSubscribed() && sb.IsListening() && sb.IsValidated()
		case 7:
			_ = sb.SubscriberID()
		case 8:
			if disc && r.Intn(4) == 0 {
				sb.Disconnect()
			}
		}
		time.Sleep(time.Duration(r.Intn(800)) * time.Microsecond)
	}
}

// pump publishes data until the connection ends.
func pump(k *pub.Conn, seed int64, sic *pub.SIC, u *udpSender, stop *int32, wg *sync.WaitGroup) {
	defer wg.Done()
	r := rand.New(rand.NewSource(seed))
	g := &compactGen{r: r, sic: [2]*pub.SIC{sic, nil}, includeTime: true}
	for i := 0; atomic.LoadInt32(stop) == 0; i++ {
		p, _ := g.packet(1 + r.Intn(30))
		if u != nil && r.Intn(2) == 0 {
			_, _ = u.c.Write(pub.Body(pub.RespDataPacket, pub.CmdSubscribe, p))
		} else if k.Send(pub.RespDataPacket, pub.CmdSubscribe, p) != nil {
			return
		}
		if r.Intn(10) == 0 && k.Send(pub.RespNotify, 0, append(pub.U32(uint32(i)), "note"...)) != nil {
			return
		}
		if r.Intn(3) == 0 && k.Send(pub.RespSucceeded, pub.CmdSubscribe, []byte("Client subscribed")) != nil {
			return
		}
		time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
	}
}

var c12 = &vf.Prop{
	ID: "C12",
	Rule: "each case runs several connection cycles on one subscriber with data, noise calls and ends chosen among user disconnects (from one or " +
		"several goroutines or from receivers), peer closes, resets, garbage and combinations, dialling or listening, then closes it; it counts connection reports, " +
		"checks states and deliveries after the end, and requires every operation to finish and all goroutines and sockets to go; " +
		"distinct_nontrivial counts different (cycle ends, users, channels) histories",
	Quick: 2000, Thorough: 30000,
	Case: func(t *vf.T) {
		perturb(t)
		r := t.R
		freePort(t, false) // opens the socket that holds the port range
		base, baseSock := runtime.NumGoroutine(), sockets()
		s := newSess(t)
		s.pool = r.Intn(2) == 0
		closed := false
		defer func() {
			if !closed {
				s.close()
			}
		}()
		s.server()
		var connAtTerm []bool
		// Unannounced ends so far; and whether a dialled connection can end while it is being established (guarded by s.mu).
		excess, loose := 0, false
		s.onTerm = func() {
			c := s.sb.IsConnected() || s.sb.IsSubscribed()
			s.mu.Lock()
			connAtTerm = append(connAtTerm, c)
			if n := s.terminated - s.established - excess; n > 0 && loose {
				t.Known("terminated-first", "the terminated receiver of a connection that ended while it was being established ran before the established one")
			} else if n > 0 {
				t.Failf("the terminated receiver ran before the established one of the same connection")
			}
			s.mu.Unlock()
		}
		sig := ""

		racing := false
		stateOff := func(when string) {
			if s.sb.IsConnected() || s.sb.IsSubscribed() || s.sb.IsListening() {
				t.Fatalf("%s: connected %v, subscribed %v, listening %v", when, s.sb.IsConnected(), s.sb.IsSubscribed(), s.sb.IsListening())
			}
		}
		stateOff("before the first connection")
		cycles := 1 + r.Intn(4)
		for c := 0; c < cycles && !t.Failed(); c++ {
			kind := r.Intn(10)
			switch {
			case kind == 0: // nobody listens
				s.cfg.MaxRetries, s.cfg.RetryInterval = 2, 1
				est, term := s.counts()
				p := freePort(t, false)
				within(t, "a failing dial", func() {
					if err := s.sb.Dial(fmt.Sprintf("127.0.0.1:%d", p), s.cfg); err == nil {
						t.Failf("dial succeeded although nobody listens")
					}
				})
				if e, m := s.counts(); e != est || m != term {
					t.Failf("a failed dial was reported as connection: %d established, %d terminated", e-est, m-term)
				}
				stateOff("after a failed dial")
				s.cfg.MaxRetries, s.cfg.RetryInterval = -1, 1000
				sig += "F"
				continue
			case kind == 1: // dial races with disconnect or with the peer
				racing = true
				s.mu.Lock()
				loose = true
				s.mu.Unlock()
				s.cfg.RetryInterval = 1
				s.cfg.MaxRetries = 3
				n := len(s.srv.Conns())
				var wg sync.WaitGroup
				wg.Add(1)
				seed := r.Int63()
				peer := r.Intn(2) == 0
				go func() {
					defer wg.Done()
					q := rand.New(rand.NewSource(seed))
					pause(q, 2000)
					if peer {
						vf.WaitFor(time.Second, func() bool { return len(s.srv.Conns()) > n })
						for _, k := range s.srv.Conns()[n:] {
							k.Abort()
						}
					} else {
						s.sb.Disconnect()
					}
				}()
				within(t, "a dial racing with the end of its connection", func() { _ = s.sb.Dial(s.srv.Addr(), s.cfg) })
				wg.Wait()
				s.sb.Disconnect()
				if !vf.WaitFor(limit, func() bool {
					e, m := s.counts()
					return m >= e && !s.sb.IsConnected()
				}) {
					t.Fatalf("a connection that raced with its end was not reported as terminated")
				}
				s.mu.Lock()
				loose, excess = false, s.terminated-s.established
				s.mu.Unlock()
				// Connections accepted late by this server must not be taken for later ones.
				s.srv.Close()
				s.srv = nil
				s.server()
				s.cfg.RetryInterval, s.cfg.MaxRetries = 1000, -1
				sig += "R"
				continue
			}
			est0, term0 := s.counts()
			end := r.Intn(9)
			receiverEnd := end == 3 || end == 4
			var armed int32
			if receiverEnd {
				// Disconnect from the measurement receiver or from the established receiver.
				s.mu.Lock()
				if end == 3 {
					s.onMeas = func([]transport.Measurement) {
						if atomic.LoadInt32(&armed) == 1 {
							s.sb.Disconnect()
						}
					}
				} else {
					s.onEst = func() { s.sb.Disconnect() }
				}
				s.mu.Unlock()
			}
			rev := r.Intn(4) == 0 // the publisher connects to the listening subscriber
			port := 0
			if rev {
				port = freePort(t, false)
				if err := s.sb.Listen(fmt.Sprintf("127.0.0.1:%d", port), s.cfg); err != nil {
					t.Fatalf("cycle %d: listening failed: %v", c, err)
				}
				s.con = call(t, port)
				go autoAccept(s.con)
				if !vf.WaitFor(limit, func() bool { e, _ := s.counts(); return e > est0 }) {
					t.Fatalf("cycle %d: the connection of a publisher was not reported; errors: %q", c, s.errors())
				}
				sig += "L"
			} else {
				if err := s.sb.Dial(s.srv.Addr(), s.cfg); err != nil {
					t.Fatalf("cycle %d: dial failed: %v", c, err)
				}
				s.con = s.srv.NextConn(limit)
				if s.con == nil {
					t.Fatalf("cycle %d: dial succeeded without a connection", c)
				}
			}
			var stop int32
			var wg sync.WaitGroup
			users, udp := 0, false
			if end != 4 {
				if e, m := s.counts(); e != est0+1 || m != term0 {
					t.Fatalf("cycle %d: after connecting: %d established and %d terminated reports", c, e-est0, m-term0)
				}
				if !s.sb.IsConnected() || s.sb.IsListening() != rev {
					t.Fatalf("cycle %d: connected %v, listening %v after a connection was established", c, s.sb.IsConnected(), s.sb.IsListening())
				}
				s.awaitReady()
				set := sttp.NewSettings()
				var u *udpSender
				if udp = r.Intn(4) == 0; udp {
					set.UdpPort = uint16(freePort(t, true))
					u = dialUDP(int(set.UdpPort))
				}
				s.subscribe("FILTER X WHERE True", set)
				sic := randSIC(r, 1+r.Intn(5))
				s.sendSIC(sic, 0)
				wg.Add(1)
				go func(k *pub.Conn, seed int64) {
					pump(k, seed, sic, u, &stop, &wg)
					if u != nil {
						u.c.Close()
					}
				}(s.con, r.Int63())
				users = r.Intn(3)
				for i := 0; i < users; i++ {
					wg.Add(1)
					go noise(s.sb, r.Int63(), &stop, &wg, false)
				}
				pause(r, 4000)
			}
			k := s.con
			end2 := ""
			var calls sync.WaitGroup
			switch end {
			case 0:
				s.sb.Disconnect()
			case 1:
				for i, n := 0, 2+r.Intn(4); i < n; i++ {
					calls.Add(1)
					d := time.Duration(r.Intn(300)) * time.Microsecond
					go func() { defer calls.Done(); time.Sleep(d); s.sb.Disconnect() }()
				}
			case 2:
				s.sb.SetNotificationReceiver(func(m string) {
					if m == "end" {
						s.sb.Disconnect()
					}
				})
				_ = k.Send(pub.RespNotify, 0, append(pub.U32(7), "end"...))
			case 3:
				atomic.StoreInt32(&armed, 1)
			case 4:
			case 5:
				k.Close()
			case 6:
				k.Abort()
			case 7: // impossible frame size
				_ = k.Raw([]byte{0xFF, 0xFF, 0xFF, 0xF0, 1, 2, 3})
				k.Close()
			case 8:
				calls.Add(1)
				go func() { defer calls.Done(); s.sb.Disconnect() }()
				if r.Intn(2) == 0 {
					k.Close()
				} else {
					k.Abort()
				}
			}
			if !vf.WaitFor(limit, func() bool { _, m := s.counts(); return m > term0 }) {
				t.Fatalf("cycle %d (end %d%s): the end of the connection was not reported; connected %v", c, end, end2, s.sb.IsConnected())
			}
			after := s.count()
			if end == 8 || end == 1 {
				// A disconnect may still be running, or not even have started.
				within(t, "concurrent disconnects", func() {
					calls.Wait()
					vf.WaitFor(limit, func() bool { return !s.sb.IsConnected() })
				})
			}
			if rev && end >= 5 && end <= 7 {
				// Ended by the publisher: the subscriber waits for another one.
				if s.sb.IsConnected() || s.sb.IsSubscribed() || !s.sb.IsListening() {
					t.Fatalf("cycle %d: after a publisher left: connected %v, subscribed %v, listening %v", c, s.sb.IsConnected(), s.sb.IsSubscribed(), s.sb.IsListening())
				}
				if r.Intn(3) == 0 {
					pause(r, 1000)
				}
				s.sb.Disconnect()
			}
			stateOff(fmt.Sprintf("cycle %d: after the end of the connection was reported", c))
			if rev && !vf.WaitFor(limit, func() bool { return portFree(port) }) {
				t.Fatalf("cycle %d: port is still in use after a disconnect", c)
			}
			pause(r, 3000)
			if n := s.count(); n != after {
				t.Fatalf("cycle %d: %d measurements were delivered after the end of the connection was reported", c, n-after)
			}
			if !vf.WaitFor(limit, k.PeerClosed) {
				t.Fatalf("cycle %d: the publisher's connection was not closed", c)
			}
			if rev {
				k.Close()
			}
			atomic.StoreInt32(&stop, 1)
			within(t, "public operations on a disconnected subscriber", wg.Wait)
			s.mu.Lock()
			s.onMeas, s.onEst = nil, nil
			s.mu.Unlock()
			if e, m := s.counts(); e != est0+1 || m != term0+1 {
				t.Fatalf("cycle %d (end %d): %d established and %d terminated reports for one connection", c, end, e-est0, m-term0)
			}
			// Calls that came late must not have revived any state.
			stateOff(fmt.Sprintf("cycle %d: after all calls returned", c))
			sig += fmt.Sprintf("%d.%d.%v,", end, users, udp)
			t.Eval(1)
		}
		// Close in some state, seldom from several goroutines.
		var stop int32
		var wg sync.WaitGroup
		final := r.Intn(5)
		sig += fmt.Sprintf("/%d", final)
		var dialDone chan struct{}
		var last *pub.Conn
		switch final {
		case 0: // connected, data flowing, users active
			s.con = nil
			if err := s.sb.Dial(s.srv.Addr(), s.cfg); err != nil {
				t.Fatalf("dial failed: %v", err)
			}
			s.con = s.srv.NextConn(limit)
			s.awaitReady()
			sic := randSIC(r, 3)
			s.sendSIC(sic, 0)
			wg.Add(2)
			go pump(s.con, r.Int63(), sic, nil, &stop, &wg)
			go noise(s.sb, r.Int63(), &stop, &wg, true)
			pause(r, 3000)
		case 1: // dialling in vain
			cfg := *s.cfg
			cfg.AutoReconnect = true
			cfg.RetryInterval = 1 + int32(r.Intn(20))
			p := freePort(t, false)
			dialDone = make(chan struct{})
			go func() { _ = s.sb.Dial(fmt.Sprintf("127.0.0.1:%d", p), &cfg); close(dialDone) }()
			pause(r, 4000)
		case 2: // reconnecting in vain
			cfg := *s.cfg
			cfg.AutoReconnect = true
			cfg.RetryInterval = 1 + int32(r.Intn(20))
			if err := s.sb.Dial(s.srv.Addr(), &cfg); err != nil {
				t.Fatalf("dial failed: %v", err)
			}
			s.mu.Lock()
			loose = true
			s.mu.Unlock()
			s.srv.Close()
			pause(r, 8000)
		case 3: // listening, perhaps while a publisher connects
			port := freePort(t, false)
			if err := s.sb.Listen(fmt.Sprintf("127.0.0.1:%d", port), s.cfg); err != nil {
				t.Fatalf("listening failed: %v", err)
			}
			if r.Intn(4) > 0 {
				last = call(t, port)
				defer last.Close()
				go autoAccept(last)
				pause(r, 3000)
			}
		}
		verifsched.Off()
		n := 1
		if r.Intn(3) == 0 {
			n = 2 + r.Intn(2)
		}
		within(t, "close", func() {
			var cg sync.WaitGroup
			for i := 0; i < n; i++ {
				cg.Add(1)
				go func() { defer cg.Done(); s.sb.Close() }()
			}
			cg.Wait()
		})
		closed = true
		after := s.count()
		atomic.StoreInt32(&stop, 1)
		within(t, "public operations on a closed subscriber", wg.Wait)
		if dialDone != nil {
			within(t, "a dial interrupted by close", func() { <-dialDone })
		}
		stateOff("after close")
		if last != nil {
			if !gone(last) {
				t.Failf("the connection was left open by close")
			}
			last.Close()
		}
		s.srv.Close()
		quiesce(t, base)
		if m := s.count(); m != after {
			t.Failf("%d measurements were delivered after close", m-after)
		}
		e, m := s.counts()
		if e > m || !racing && final != 2 && e != m {
			t.Failf("%d connections were reported as established, %d as terminated", e, m)
		}
		s.mu.Lock()
		for _, c := range connAtTerm {
			if c {
				t.Failf("the terminated receiver ran while the subscriber claimed to be connected or subscribed")
			}
		}
		s.mu.Unlock()
		if !vf.WaitFor(limit, func() bool { return sockets() <= baseSock }) {
			t.Failf("%d sockets are left open after close", sockets()-baseSock)
		}
		t.Sig(sig)
		t.Count("connections", m)
		if t.Idx < 3 {
			t.Sample("case %d: cycles %s", t.Idx, sig)
		}
	},
	Done: schedDone,
}
