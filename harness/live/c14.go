package main

import (
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sttp/goapi/sttp/verifsched"

	"verif/harness/pub"
	"verif/harness/vf"
)

// call connects to a listening subscriber; ports are released asynchronously, so only dials to a subscriber that
// claims to be listening are expected to succeed.
func call(t *vf.T, port int) *pub.Conn {
	k, err := pub.Dial(port)
	if err != nil {
		t.Fatalf("a listening subscriber cannot be reached: %v", err)
	}
	return k
}

// portFree tells whether nobody listens on a port.
func portFree(port int) bool {
	l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err == nil {
		l.Close()
	}
	return err == nil
}

// gone waits until a connection made around the end of listening is closed. Its handshake may have been lost together
// with the listening socket, which is only noticed when something is sent.
func gone(k *pub.Conn) bool {
	if vf.WaitFor(50*time.Millisecond, k.PeerClosed) {
		return true
	}
	_ = k.Raw([]byte{0})
	return vf.WaitFor(limit, k.PeerClosed)
}

// badOpening makes bytes that do not begin a session.
func badOpening(r *rand.Rand) (string, []byte) {
	other := func() byte {
		for {
			if c := byte(r.Intn(256)); c != pub.RespNoOP && c != pub.RespSucceeded && c != pub.RespFailed {
				return c
			}
		}
	}
	switch r.Intn(6) {
	case 0:
		return "http", []byte("GET / HTTP/1.1\r\nHost: localhost\r\nAccept: */*\r\n\r\n")
	case 1: // too small for a response
		n := r.Intn(6)
		return "small", append([]byte{0, 0, 0, byte(n)}, randBytes(r, n)...)
	case 2: // other response
		return "response", pub.Wire(other(), byte(r.Intn(256)), randBytes(r, r.Intn(60)))
	case 3: // response to another command
		c := byte(r.Intn(256))
		if c == pub.CmdDefineOpModes {
			c++
		}
		return "command", pub.Wire([]byte{pub.RespSucceeded, pub.RespFailed}[r.Intn(2)], c, randBytes(r, r.Intn(60)))
	case 4: // too long for an opening, otherwise correct
		return "long", pub.Wire(pub.RespSucceeded, pub.CmdDefineOpModes, make([]byte, 8193+r.Intn(3000)))
	default:
		b := randBytes(r, 10+r.Intn(100))
		b[0] |= 1 << uint(r.Intn(8))
		return "noise", b
	}
}

var c14 = &vf.Prop{
	ID: "C14",
	Rule: "each case runs a listening subscriber against publishers, intruders, peers that do not speak the protocol and dropped connections, one " +
		"after the other and overlapping, with disconnects and repeated listening; it checks who is served, what is delivered, the connection " +
		"reports, and that the port is released; distinct_nontrivial counts different histories of connections",
	Quick: 1000, Thorough: 15000,
	Case: func(t *vf.T) {
		perturb(t)
		r := t.R
		port := freePort(t, false)
		base, baseSock := runtime.NumGoroutine(), sockets()
		s := newSess(t)
		s.noAuto = true
		closed := false
		defer func() {
			if !closed {
				s.close()
			}
		}()
		s.cfg.AutoReconnect = r.Intn(2) == 0
		s.cfg.AutoRequestMetadata = r.Intn(3) == 0
		s.cfg.AutoSubscribe = r.Intn(2) == 0
		s.cfg.CompressMetadata = r.Intn(2) == 0
		s.cfg.CompressSignalIndexCache = r.Intn(2) == 0
		s.sb.Subscribe("FILTER X WHERE True", nil)
		addr := fmt.Sprintf("127.0.0.1:%d", port)
		if r.Intn(4) == 0 {
			addr = fmt.Sprintf(":%d", port)
		}
		listen := func() {
			if err := s.sb.Listen(addr, s.cfg); err != nil {
				t.Fatalf("listening failed: %v", err)
			}
			if !s.sb.IsListening() {
				t.Fatalf("not listening after a successful request to listen")
			}
		}
		est := 0
		reports := func(what string, e, m int) {
			if !vf.WaitFor(limit, func() bool { a, b := s.counts(); return a >= e && b >= m }) {
				a, b := s.counts()
				t.Fatalf("%s: %d connections reported as established, %d as terminated; expected %d and %d; errors: %q", what, a, b, e, m, s.errors())
			}
			if a, b := s.counts(); a != e || b != m {
				t.Fatalf("%s: %d connections reported as established, %d as terminated; expected %d and %d", what, a, b, e, m)
			}
		}
		var want []pub.Meas
		// arrive waits until the subscriber opened the session.
		arrive := func(what string, k *pub.Conn) {
			if !k.WaitFrames(pub.CmdDefineOpModes, 1, limit) {
				t.Fatalf("%s: a publisher was not served (closed by the subscriber: %v); errors: %q", what, k.PeerClosed(), s.errors())
			}
			s.con = k
			if f := k.Frames(); f[0].Cmd != pub.CmdDefineOpModes {
				t.Fatalf("%s: the first frame is %v", what, f[0])
			}
		}
		open := func(what string, k *pub.Conn) {
			if r.Intn(4) == 0 {
				must(k.Send(pub.RespNoOP, 0, nil))
			}
			must(k.Accept())
			if !vf.WaitFor(limit, s.sb.IsValidated) {
				t.Fatalf("%s: session was not validated", what)
			}
			if s.cfg.AutoRequestMetadata {
				if !k.WaitFrames(pub.CmdMetadataRefresh, 1, limit) {
					t.Fatalf("%s: metadata was not requested", what)
				}
				p := []byte(metaXML)
				if s.cfg.CompressMetadata {
					p = pub.Gzip(p)
				}
				must(k.Send(pub.RespSucceeded, pub.CmdMetadataRefresh, p))
			}
			if s.cfg.AutoSubscribe {
				s.acceptSubscribe(1)
			} else if r.Intn(2) == 0 {
				s.subscribe("FILTER X WHERE True", nil)
			}
		}
		// publish sends data on the active connection and checks its delivery.
		publish := func(k *pub.Conn) {
			sic := randSIC(r, 1+r.Intn(4))
			s.sendSIC(sic, 0)
			g := &compactGen{r: r, sic: [2]*pub.SIC{sic, nil}, includeTime: true}
			for i, n := 0, 1+r.Intn(4); i < n; i++ {
				p, m := g.packet(1 + r.Intn(20))
				must(k.Send(pub.RespDataPacket, pub.CmdSubscribe, p))
				want = append(want, m...)
			}
			s.sync()
			s.compare(want)
			if sent, got := uint64(atomic.LoadInt64(&k.Sent)), s.sb.TotalCommandChannelBytesReceived(); sent != got {
				t.Fatalf("a connection brought %d bytes, the total since it was established is %d", sent, got)
			}
			t.Eval(1)
		}
		drop := func(k *pub.Conn) {
			if r.Intn(2) == 0 {
				k.Close()
			} else {
				k.Abort()
			}
		}
		released := func(what string) {
			if !vf.WaitFor(limit, func() bool { return portFree(port) }) {
				t.Fatalf("%s: the listening port was not released", what)
			}
		}
		// The port may be taken.
		if r.Intn(6) == 0 {
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
			if err != nil {
				vf.Harnessf("listen: %v", err)
			}
			if err := s.sb.Listen(fmt.Sprintf("127.0.0.1:%d", port), s.cfg); err == nil {
				t.Fatalf("listening succeeded on a port that is in use")
			}
			if s.sb.IsListening() {
				t.Fatalf("listening after listening failed")
			}
			l.Close()
		}
		listen()
		sig := fmt.Sprintf("%v%v/", s.cfg.AutoRequestMetadata, s.cfg.AutoSubscribe)
		serve := func(what string) *pub.Conn {
			k := call(t, port)
			k.RandomFrag(r.Int63())
			arrive(what, k)
			est++
			reports(what, est, est-1)
			open(what, k)
			publish(k)
			return k
		}
		steps := 1 + r.Intn(5)
		for i := 0; i < steps && !t.Failed(); i++ {
			switch kind := r.Intn(9); kind {
			case 0, 1: // a publisher, perhaps with intruders
				k := serve("a publisher")
				n := r.Intn(4)
				for j := 0; j < n; j++ {
					in := call(t, port)
					what := ""
					switch r.Intn(3) {
					case 0:
						what, b := badOpening(r)
						_ = what
						_ = in.Raw(b)
					case 1:
						_ = in.Accept()
						_ = in.Send(pub.RespSucceeded, pub.CmdUnsubscribe, nil)
					}
					if r.Intn(2) == 0 {
						publish(k)
					}
					if !vf.WaitFor(limit, in.PeerClosed) {
						t.Fatalf("an intruder was not disconnected %s", what)
					}
					if in.NFrames() > 0 {
						t.Fatalf("an intruder was sent %v", in.Frames())
					}
					in.Close()
				}
				publish(k)
				if k.PeerClosed() || !s.sb.IsConnected() || !s.sb.IsListening() {
					t.Fatalf("intruders disturbed the active connection: closed %v, connected %v, listening %v", k.PeerClosed(), s.sb.IsConnected(), s.sb.IsListening())
				}
				if s.cfg.AutoSubscribe && !s.sb.IsSubscribed() {
					t.Fatalf("intruders ended the subscription")
				}
				if n := k.CountOf(pub.CmdDefineOpModes); n != 1 {
					t.Fatalf("%d session openings on one connection", n)
				}
				reports("after intruders", est, est-1)
				drop(k)
				reports("after a publisher left", est, est)
				sig += fmt.Sprintf("P%d,", n)
			case 2, 3: // a peer that does not speak the protocol
				what, b := badOpening(r)
				k := call(t, port)
				if r.Intn(2) == 0 {
					arrive("before "+what, k)
				}
				k.RandomFrag(r.Int63())
				errs := len(s.errors())
				_ = k.Raw(b)
				// Whatever follows must not count.
				if r.Intn(3) > 0 {
					sic := randSIC(r, 2)
					_ = k.Send(pub.RespUpdateSIC, pub.CmdSubscribe, sic.Payload(int(s.cfg.Version), 0, false, s.cfg.CompressSignalIndexCache))
					g := &compactGen{r: r, sic: [2]*pub.SIC{sic, nil}, includeTime: true}
					p, _ := g.packet(5)
					_ = k.Send(pub.RespDataPacket, pub.CmdSubscribe, p)
				}
				// Noise can name a size larger than what was sent; the connection then ends with the peer.
				if what == "noise" {
					vf.WaitFor(20*time.Millisecond, k.PeerClosed)
					if !k.PeerClosed() && (b[0] != 0 || b[1] != 0 || b[2] > 0x20) {
						if !vf.WaitFor(limit, k.PeerClosed) {
							t.Fatalf("a peer that opened with %x was not disconnected", b)
						}
					}
					k.Close()
				}
				if !vf.WaitFor(limit, k.PeerClosed) {
					t.Fatalf("a peer that opened with %s %x was not disconnected", what, b[:min(len(b), 60)])
				}
				est++
				reports("peer with bad opening "+what, est, est)
				if what != "noise" && !vf.WaitFor(limit, func() bool { return len(s.errors()) > errs }) {
					t.Fatalf("a bad opening (%s) was not reported", what)
				}
				if s.sb.IsConnected() || s.sb.IsSubscribed() {
					t.Fatalf("connected %v or subscribed %v after a bad opening", s.sb.IsConnected(), s.sb.IsSubscribed())
				}
				s.compare(want)
				k.Close()
				sig += what + ","
				t.Eval(1)
			case 4: // a peer that leaves before saying anything, or in the middle of its opening
				k := call(t, port)
				if r.Intn(2) == 0 {
					arrive("a silent peer", k)
				}
				if r.Intn(2) == 0 {
					b := pub.Wire(pub.RespSucceeded, pub.CmdDefineOpModes, []byte("hello"))
					_ = k.Raw(b[:r.Intn(len(b))])
				}
				if r.Intn(3) == 0 {
					k.Abort()
				} else {
					k.Close()
				}
				// A reset connection may never be handed to the subscriber.
				vf.WaitFor(limit, func() bool { a, b := s.counts(); return a > est && b == a })
				a, b := s.counts()
				if a != b || a > est+1 {
					t.Fatalf("a silent peer: %d established and %d terminated reports, before %d", a, b, est)
				}
				est = a
				sig += "S,"
				t.Eval(1)
			case 5, 6: // several publishers compete, each leaves after being served
				n := 2 + r.Intn(4)
				var active, served int32
				var wg sync.WaitGroup
				var turn sync.Mutex
				for j := 0; j < n; j++ {
					wg.Add(1)
					seed := r.Int63()
					go func() {
						defer wg.Done()
						q := rand.New(rand.NewSource(seed))
						for !t.Failed() {
							pause(q, 1500)
							k, err := pub.Dial(port)
							if err != nil {
								t.Failf("a listening subscriber cannot be reached: %v", err)
								return
							}
							if !vf.WaitFor(limit, func() bool { return k.PeerClosed() || k.NFrames() > 0 }) {
								t.Failf("a publisher was neither served nor disconnected")
								k.Close()
								return
							}
							if k.NFrames() == 0 { // somebody else is served
								k.Close()
								continue
							}
							turn.Lock()
							if c := atomic.AddInt32(&active, 1); c > 1 {
								t.Failf("%d publishers are served at the same time", c)
							}
							pause(q, 1000)
							err = k.Accept()
							if err == nil && !syncConn(k) {
								t.Failf("a served publisher gets no answers; closed by the subscriber: %v; errors: %q", k.PeerClosed(), s.errors())
							}
							if k.PeerClosed() {
								t.Failf("a served publisher was disconnected by the subscriber; errors: %q", s.errors())
							}
							atomic.AddInt32(&served, 1)
							atomic.AddInt32(&active, -1)
							turn.Unlock()
							if q.Intn(2) == 0 {
								k.Close()
							} else {
								k.Abort()
							}
							return
						}
					}()
				}
				within(t, "serving of competing publishers", wg.Wait)
				if t.Failed() {
					return
				}
				// A connection closed with a reset right after being accepted may not count.
				est += n
				reports("competing publishers", est, est)
				sig += fmt.Sprintf("C%d,", n)
				t.Eval(n)
			case 7: // disconnect, perhaps with a publisher, and listen again
				var k *pub.Conn
				if r.Intn(2) == 0 {
					k = serve("before a disconnect")
				}
				var stop int32
				var wg sync.WaitGroup
				var late []*pub.Conn
				if r.Intn(2) == 0 {
					wg.Add(1)
					seed := r.Int63()
					go func() { // peers keep calling
						defer wg.Done()
						q := rand.New(rand.NewSource(seed))
						for atomic.LoadInt32(&stop) == 0 {
							if k, err := pub.Dial(port); err == nil {
								late = append(late, k)
							}
							pause(q, 300)
						}
					}()
					pause(r, 2000)
				}
				n := 1 + r.Intn(2)
				for j := 0; j < n; j++ {
					s.sb.Disconnect()
				}
				if s.sb.IsListening() {
					t.Failf("listening after disconnect")
				}
				sync := r.Intn(2) == 0
				if sync {
					released("after disconnect")
				}
				atomic.StoreInt32(&stop, 1)
				wg.Wait()
				if k != nil {
					if !vf.WaitFor(limit, k.PeerClosed) {
						t.Fatalf("the publisher's connection was not closed by disconnect")
					}
					k.Close()
				}
				for _, k := range late {
					if !gone(k) {
						t.Fatalf("a connection made around the disconnect was left open")
					}
					k.Close()
				}
				if k != nil || len(late) > 0 {
					if !vf.WaitFor(limit, func() bool { a, b := s.counts(); return a == b && !s.sb.IsConnected() }) {
						t.Fatalf("the end of a connection was not reported after disconnect")
					}
				}
				if a, b := s.counts(); a != b || len(late) == 0 && a != est {
					t.Fatalf("after disconnect: %d established and %d terminated reports, expected %d", a, b, est)
				}
				est, _ = s.counts()
				listen()
				if len(late) > 0 {
					// The new session must not be one of the old connections.
					if a, b := s.counts(); a != b {
						t.Fatalf("a connection was established although all peers had left")
					}
				}
				sig += fmt.Sprintf("D%v%v%v,", k != nil, len(late) > 0, sync)
				t.Eval(1)
			case 8: // disconnect while listening starts and peers call
				s.sb.Disconnect()
				released("before racing requests")
				var stop int32
				var wg sync.WaitGroup
				var late []*pub.Conn
				wg.Add(1)
				go func() {
					defer wg.Done()
					for atomic.LoadInt32(&stop) == 0 {
						if k, err := pub.Dial(port); err == nil {
							late = append(late, k)
						}
						time.Sleep(20 * time.Microsecond)
					}
				}()
				d := time.Duration(r.Intn(600)) * time.Microsecond
				wg.Add(1)
				go func() { defer wg.Done(); time.Sleep(d); s.sb.Disconnect() }()
				within(t, "listening while a disconnect is requested", func() { _ = s.sb.Listen(addr, s.cfg) })
				pause(r, 1000)
				atomic.StoreInt32(&stop, 1)
				within(t, "a disconnect while listening starts", wg.Wait)
				s.sb.Disconnect()
				released("after a disconnect while listening started")
				for _, k := range late {
					if !gone(k) {
						t.Fatalf("a connection made while listening started and ended was left open")
					}
					k.Close()
				}
				if !vf.WaitFor(limit, func() bool { a, b := s.counts(); return a == b && !s.sb.IsConnected() && !s.sb.IsListening() }) {
					a, b := s.counts()
					t.Fatalf("after a disconnect: %d established and %d terminated reports, connected %v, listening %v", a, b, s.sb.IsConnected(), s.sb.IsListening())
				}
				est, _ = s.counts()
				listen()
				sig += "L,"
				t.Eval(1)
			}
		}
		if t.Failed() {
			return
		}
		k := serve("the last publisher")
		if r.Intn(2) == 0 {
			drop(k)
			reports("the last publisher left", est, est)
		}
		verifsched.Off()
		within(t, "close", s.sb.Close)
		closed = true
		if !vf.WaitFor(limit, k.PeerClosed) {
			t.Failf("the connection was left open by close")
		}
		k.Close()
		if s.sb.IsListening() || s.sb.IsConnected() {
			t.Failf("after close: listening %v, connected %v", s.sb.IsListening(), s.sb.IsConnected())
		}
		released("after close")
		reports("after close", est, est)
		quiesce(t, base)
		if !vf.WaitFor(limit, func() bool { return sockets() <= baseSock }) {
			t.Failf("%d sockets are left open after close", sockets()-baseSock)
		}
		t.Sig(sig)
		t.Count("sessions", est)
		if t.Idx < 3 {
			t.Sample("case %d: %s", t.Idx, sig)
		}
	},
	Done: schedDone,
}
