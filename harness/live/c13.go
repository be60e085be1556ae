package main

import (
	"fmt"
	"runtime"
	"sync"
	"time"

	"verif/harness/pub"
	"verif/harness/vf"
)

// station is a publisher at a fixed port that can go away and come back.
type station struct {
	t    *vf.T
	port int
	host string
	srv  *pub.Server
	auto func(*pub.Conn)
}

func (st *station) up() {
	if st.srv != nil {
		return
	}
	ok := vf.WaitFor(limit, func() bool {
		srv, err := pub.NewServerAt(st.port, st.auto)
		if err != nil {
			return false
		}
		st.srv = srv
		return true
	})
	if !ok {
		vf.Harnessf("port %d cannot be used again", st.port)
	}
}

func (st *station) down() {
	if st.srv != nil {
		st.srv.Close()
		st.srv = nil
	}
}

func (st *station) addr() string { return fmt.Sprintf("%s:%d", st.host, st.port) }
func (st *station) tries() int   { return len(attempts(st.host)) }

// quiet waits until no attempt is seen for some time and returns the number of attempts.
func (st *station) quiet(d time.Duration) int {
	n := st.tries()
	for {
		time.Sleep(d)
		m := st.tries()
		if m == n {
			return n
		}
		n = m
	}
}

var c13 = &vf.Prop{
	ID: "C13",
	Rule: "each case runs one subscriber against a publisher that drops, refuses, resets, disappears and returns; every connection attempt is " +
		"counted through the name lookups it causes, and after each return the reconnect, its announcement, the re-issued requests and the data " +
		"flow are checked, as are the limits on attempts and waits and the effect of disconnecting; distinct_nontrivial counts different " +
		"(configuration, fault sequence) histories",
	Assumptions: []string{"absence of further attempts is observed for a limited time"},
	Quick:       1000, Thorough: 20000,
	Case: func(t *vf.T) {
		perturb(t)
		r := t.R
		base := runtime.NumGoroutine()
		s := newSess(t)
		s.noAuto = true
		closed := false
		defer func() {
			if !closed {
				s.close()
			}
		}()
		var mu sync.Mutex
		refuse := 0 // how many coming sessions are refused
		var accepted []*pub.Conn
		st := &station{t: t, port: freePort(t, false), host: fmt.Sprintf("c%d-%d.verif.test.", t.Idx, t.WorkerNo)}
		defer st.down()
		st.auto = func(k *pub.Conn) {
			if !k.WaitFrames(pub.CmdDefineOpModes, 1, limit) {
				return
			}
			mu.Lock()
			ref := refuse > 0
			if ref {
				refuse--
			}
			mu.Unlock()
			if ref {
				_ = k.Send(pub.RespFailed, pub.CmdDefineOpModes, []byte("refused"))
				k.Close()
				return
			}
			if k.Accept() == nil {
				mu.Lock()
				accepted = append(accepted, k)
				mu.Unlock()
			}
		}
		s.cfg.AutoReconnect = r.Intn(8) > 0
		s.cfg.AutoRequestMetadata = r.Intn(2) == 0
		s.cfg.AutoSubscribe = r.Intn(2) == 0
		s.cfg.MaxRetries = []int32{-1, -1, 1, 2, 3, 5}[r.Intn(6)]
		s.cfg.RetryInterval = []int32{1, 2, 5, 600000, 1000000000}[r.Intn(5)]
		s.cfg.MaxRetryInterval = int32(1 + r.Intn(8))
		maxWait := time.Duration(s.cfg.MaxRetryInterval) * time.Millisecond
		filter := fmt.Sprintf("FILTER X%d WHERE True", t.Idx)
		s.sb.Subscribe(filter, nil)
		sig := fmt.Sprintf("%v%v%v.%d.%d/", s.cfg.AutoReconnect, s.cfg.AutoRequestMetadata, s.cfg.AutoSubscribe, s.cfg.MaxRetries, s.cfg.RetryInterval)

		dial := func() {
			if err := s.sb.Dial(st.addr(), s.cfg); err != nil {
				e, m := s.counts()
				t.Fatalf("dial to a listening publisher failed after %s: %v (%d established, %d terminated, %d attempts); errors: %q", sig, err, e, m, st.tries(), s.errors())
			}
		}
		est, moves := 0, 0
		var want []pub.Meas
		// serve takes the connection the subscriber holds now, checks what a (re)connect must cause, and publishes data.
		serve := func(what string) {
			var k *pub.Conn
			if !vf.WaitFor(limit, func() bool {
				mu.Lock()
				open := accepted[:len(accepted):len(accepted)]
				mu.Unlock()
				for _, c := range open {
					if !c.PeerClosed() && c != s.con && syncConn(c) { // one that just ended does not answer
						k = c
						return true
					}
				}
				return false
			}) {
				e, m := s.counts()
				t.Fatalf("%s: no connection was made (%d established, %d terminated, %d attempts); errors: %q", what, e, m, st.tries(), s.errors())
			}
			// Earlier connections have ended and were reported before this one was made; those that ended at once may not
			// have been announced.
			if !vf.WaitFor(limit, func() bool {
				s.mu.Lock()
				a := s.announced && s.established > est
				s.mu.Unlock()
				return a && s.sb.IsConnected() && s.sb.IsValidated()
			}) {
				e, m := s.counts()
				t.Fatalf("%s: the connection was not announced (%d established, before %d, %d terminated); errors: %q", what, e, est, m, s.errors())
			}
			e, m := s.counts()
			if e > m+1 {
				t.Fatalf("%s: %d connections were announced, %d ended", what, e, m)
			}
			est = e
			s.con = k
			if s.cfg.AutoRequestMetadata {
				if !k.WaitFrames(pub.CmdMetadataRefresh, 1, limit) {
					t.Fatalf("%s: metadata was not requested", what)
				}
				p := []byte(metaXML)
				if s.cfg.CompressMetadata {
					p = pub.Gzip(p)
				}
				must(k.Send(pub.RespSucceeded, pub.CmdMetadataRefresh, p))
			}
			if s.cfg.AutoSubscribe {
				s.acceptSubscribe(1)
			}
			sic := randSIC(r, 1+r.Intn(4))
			s.sendSIC(sic, 0)
			g := &compactGen{r: r, sic: [2]*pub.SIC{sic, nil}, includeTime: true}
			p, ms := g.packet(1 + r.Intn(20))
			must(k.Send(pub.RespDataPacket, pub.CmdSubscribe, p))
			want = append(want, ms...)
			s.sync()
			s.compare(want)
			if !s.cfg.AutoSubscribe && k.CountOf(pub.CmdSubscribe) > 0 || !s.cfg.AutoRequestMetadata && k.CountOf(pub.CmdMetadataRefresh) > 0 {
				t.Failf("%s: requests were sent without being configured", what)
			}
			s.idle()
			if n := k.CountOf(pub.CmdMetadataRefresh); n > 1 {
				t.Failf("%s: %d metadata requests on one connection", what, n)
			}
			if n := k.CountOf(pub.CmdSubscribe); n > 1 {
				t.Failf("%s: %d subscribe requests on one connection", what, n)
			}
			t.Eval(1)
		}
		drop := func() {
			if r.Intn(2) == 0 {
				s.con.Close()
			} else {
				s.con.Abort()
			}
		}
		awaitTerm := func(what string) {
			if !vf.WaitFor(limit, func() bool { e, m := s.counts(); return m >= e }) {
				t.Fatalf("%s: the loss was not reported", what)
			}
		}

		// A first dial in vain: bounded number of attempts.
		if s.cfg.MaxRetries > 0 && r.Intn(4) == 0 {
			within(t, "a dial in vain with a limited number of retries", func() {
				if err := s.sb.Dial(st.addr(), s.cfg); err == nil {
					t.Failf("dial succeeded although nobody listens")
				}
			})
			if n := st.quiet(maxWait + 10*time.Millisecond); n > int(s.cfg.MaxRetries)+1 {
				t.Failf("%d connection attempts with at most %d retries", n, s.cfg.MaxRetries)
			}
			sig += "V"
			t.Eval(1)
		}
		st.up()
		dial()
		serve("first connection")

		steps := 1 + r.Intn(4)
		for i := 0; i < steps && !t.Failed(); i++ {
			before := st.tries()
			if !s.cfg.AutoReconnect {
				drop()
				awaitTerm("loss without automatic reconnection")
				if n := st.quiet(maxWait + 10*time.Millisecond); n != before {
					t.Fatalf("%d connection attempts after a loss without automatic reconnection", n-before)
				}
				if s.sb.IsConnected() {
					t.Fatalf("connected after a loss")
				}
				sig += "O"
				dial()
				serve("dial after a loss")
				continue
			}
			switch k := r.Intn(8); k {
			case 0, 1: // simple drop
				drop()
				serve("after a drop")
				if n := st.tries() - before; s.cfg.MaxRetries > 0 && n > int(s.cfg.MaxRetries) {
					t.Failf("%d attempts after one drop, at most %d allowed", n, s.cfg.MaxRetries)
				}
				sig += "D"
			case 2: // publisher away for some attempts, then back
				away := 1 + r.Intn(4)
				if s.cfg.MaxRetries > 0 && away >= int(s.cfg.MaxRetries) {
					away = int(s.cfg.MaxRetries) - 1
				}
				st.down()
				if !vf.WaitFor(limit, func() bool { return st.tries() >= before+away }) {
					t.Fatalf("only %d attempts were made while the publisher was away, waits are limited to %v", st.tries()-before, maxWait)
				}
				if s.cfg.MaxRetries > 0 {
					// The publisher may return too late for a limited number of attempts.
					st.up()
					if !vf.WaitFor(200*time.Millisecond, s.sb.IsConnected) {
						n := st.quiet(maxWait + 20*time.Millisecond)
						if !s.sb.IsConnected() {
							if n-before > int(s.cfg.MaxRetries) {
								t.Fatalf("%d attempts, at most %d allowed", n-before, s.cfg.MaxRetries)
							}
							if !vf.WaitFor(limit, func() bool { return st.tries()-before >= int(s.cfg.MaxRetries) || s.sb.IsConnected() }) {
								t.Fatalf("gave up after %d of %d attempts", st.tries()-before, s.cfg.MaxRetries)
							}
							if !vf.WaitFor(limit, func() bool { return s.sb.IsConnected() || !libraryWork() }) {
								t.Fatalf("neither connected nor given up:\n%s", libraryStacks())
							}
							if !s.sb.IsConnected() {
								dial()
							}
						}
					}
				} else {
					st.up()
				}
				serve("after the publisher returned")
				sig += fmt.Sprintf("A%d", away)
			case 3: // session refused several times
				n := 1 + r.Intn(3)
				if s.cfg.MaxRetries > 0 && n >= int(s.cfg.MaxRetries) {
					n = int(s.cfg.MaxRetries) - 1
				}
				mu.Lock()
				refuse = n
				mu.Unlock()
				drop()
				if !vf.WaitFor(limit, func() bool { mu.Lock(); defer mu.Unlock(); return refuse == 0 }) {
					t.Fatalf("no further attempts after a refused session; errors %q", s.errors())
				}
				serve("after refused sessions")
				sig += fmt.Sprintf("R%d", n)
			case 4: // refused for good: the number of attempts is limited
				if s.cfg.MaxRetries < 0 {
					continue
				}
				mu.Lock()
				refuse = 1 << 30
				mu.Unlock()
				drop()
				n := st.quiet(2*maxWait + 60*time.Millisecond)
				if n-before > int(s.cfg.MaxRetries) {
					t.Fatalf("%d attempts against a refusing publisher, at most %d allowed", n-before, s.cfg.MaxRetries)
				}
				s.sb.Disconnect()
				if !vf.WaitFor(limit, func() bool { return !libraryWork() }) {
					t.Fatalf("disconnect after refused sessions did not finish:\n%s", libraryStacks())
				}
				mu.Lock()
				refuse = 0
				mu.Unlock()
				vf.WaitFor(limit, func() bool { return !s.sb.IsConnected() })
				est, _ = s.counts()
				dial()
				serve("dial after refusals")
				sig += "L"
			case 5: // disconnect while reconnecting
				mode := r.Intn(3)
				switch mode {
				case 0:
					st.down()
				case 1:
					st.srv.Refuse(true)
					drop()
				default:
					drop()
				}
				pause(r, 12000)
				s.sb.Disconnect()
				// The end of all library work marks the end of the disconnect.
				if !vf.WaitFor(limit, func() bool { return !libraryWork() }) {
					t.Fatalf("disconnect during reconnection did not finish:\n%s", libraryStacks())
				}
				if s.sb.IsConnected() {
					t.Fatalf("connected after disconnect")
				}
				n := st.tries()
				if mode == 0 {
					st.up()
				} else {
					st.srv.Refuse(false)
				}
				time.Sleep(maxWait + time.Duration(r.Intn(20))*time.Millisecond)
				if m := st.tries(); m != n {
					t.Fatalf("%d connection attempts after disconnect", m-n)
				}
				if s.sb.IsConnected() {
					t.Fatalf("connected after disconnect")
				}
				est, _ = s.counts()
				dial()
				serve("dial after disconnect")
				sig += fmt.Sprintf("X%d", mode)
			case 6: // dial elsewhere while reconnecting
				old := st
				_, m0 := s.counts()
				old.down()
				if !vf.WaitFor(limit, func() bool { _, m := s.counts(); return m > m0 && !s.sb.IsConnected() }) {
					t.Fatalf("the loss of a publisher that went away was not reported")
				}
				pause(r, 12000)
				moves++
				st = &station{t: t, port: freePort(t, false), host: fmt.Sprintf("c%d-%d-%d.verif.test.", t.Idx, t.WorkerNo, moves), auto: old.auto}
				defer st.down()
				st.up()
				dial()
				n := old.tries()
				old.up()
				serve("dial elsewhere while reconnecting")
				time.Sleep(maxWait + time.Duration(r.Intn(10))*time.Millisecond)
				if m := old.tries(); m != n {
					t.Fatalf("%d attempts to reconnect to a publisher after another one was dialled", m-n)
				}
				if n := st.tries(); n > 1 {
					t.Fatalf("%d attempts to connect to a reachable publisher", n)
				}
				old.down()
				t.Count("dials_while_reconnecting", 1)
				sig += "E"
			default: // resets at once for a while; with a limit on attempts they may all be used up
				if s.cfg.MaxRetries > 0 {
					continue
				}
				st.srv.Refuse(true)
				drop()
				arr := 1 + r.Intn(6)
				a0 := st.srv.Arrivals()
				if !vf.WaitFor(limit, func() bool { return st.srv.Arrivals() >= a0+arr }) {
					t.Fatalf("only %d further attempts against a resetting publisher", st.srv.Arrivals()-a0)
				}
				st.srv.Refuse(false)
				serve("after resets")
				sig += "Z"
			}
		}
		if s.cfg.AutoReconnect && r.Intn(3) == 0 && !t.Failed() { // a long wait is given up at once
			s.sb.Disconnect()
			if !vf.WaitFor(limit, func() bool { return !libraryWork() }) {
				t.Fatalf("disconnect did not finish:\n%s", libraryStacks())
			}
			c := *s.cfg
			c.MaxRetries, c.RetryInterval, c.MaxRetryInterval = -1, 600000, 600000
			first := r.Intn(2) == 0
			sig += fmt.Sprintf("W%v", first)
			done := make(chan error, 1)
			n := st.tries()
			if first { // the very first attempt fails
				st.down()
				go func() { done <- s.sb.Dial(st.addr(), &c) }()
				if !vf.WaitFor(limit, func() bool { return st.tries() > n }) {
					t.Fatalf("no attempt to connect was made")
				}
			} else {
				e0, _ := s.counts()
				if err := s.sb.Dial(st.addr(), &c); err != nil {
					t.Fatalf("dial to a listening publisher failed: %v", err)
				}
				if !vf.WaitFor(limit, func() bool { e, _ := s.counts(); return e > e0 }) {
					t.Fatalf("the connection was not announced")
				}
				st.down()
				done <- nil
			}
			pause(r, 3000)
			s.sb.Disconnect()
			if !vf.WaitFor(limit, func() bool { return !libraryWork() }) {
				t.Fatalf("disconnect did not end a wait for the next attempt:\n%s", libraryStacks())
			}
			<-done
			if s.sb.IsConnected() {
				t.Fatalf("connected after disconnect")
			}
			t.Eval(1)
		}
		within(t, "close", s.sb.Close)
		closed = true
		st.down()
		n := st.tries()
		quiesce(t, base)
		time.Sleep(maxWait)
		if m := st.tries(); m != n {
			t.Failf("%d connection attempts after close", m-n)
		}
		t.Sig(sig)
		t.Count("connection_attempts_seen", n)
		t.Count("connections_served", est)
		if t.Idx < 3 {
			t.Sample("case %d: %s: %d attempts", t.Idx, sig, n)
		}
	},
	Done: schedDone,
}

// libraryStacks lists the goroutines that run library code.
func libraryStacks() string {
	buf := make([]byte, 1<<19)
	buf = buf[:runtime.Stack(buf, true)]
	out := ""
	for _, g := range splitStacks(string(buf)) {
		if containsLib(g) {
			out += g + "\n\n"
		}
	}
	return out
}

func libraryWork() bool { return libraryStacks() != "" }
