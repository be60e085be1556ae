package main

import (
	"fmt"
	"math/rand"
	"net"
	"time"

	"github.com/sttp/goapi/sttp"

	"verif/harness/pub"
	"verif/harness/vf"
)

// badAddress makes an address that can be neither dialled nor listened on.
func badAddress(r *rand.Rand) string {
	host := []string{"127.0.0.1", "localhost", "", "[::1]", "nowhere"}[r.Intn(5)]
	switch r.Intn(9) {
	case 0:
		return ""
	case 1:
		return "127.0.0.1"
	case 2:
		return host + ":"
	case 3:
		return host + ":abc"
	case 4:
		return fmt.Sprintf("%s:%d", host, []int{0, -1, 65536, 65536 + 1 + r.Intn(60000), -r.Intn(70000) - 1, 1 << 40}[r.Intn(6)])
	case 5:
		return host + ":1:2"
	case 6:
		return fmt.Sprintf("%s: %d", host, 1000+r.Intn(1000))
	case 7:
		return fmt.Sprintf("%s:%d.5", host, 1000+r.Intn(1000))
	default:
		return host + ":99999999999999999999999"
	}
}

var c33 = &vf.Prop{
	ID: "C33",
	Rule: "each case makes requests that cannot be honoured (unusable or refused addresses, dialling or listening while connected or listening, " +
		"requests without a connection) before, during and between sessions; it checks the returned errors, that no further connection or frame " +
		"appears, that the running session keeps its configuration, subscription and data flow, and that settings given while not connected " +
		"apply to the next connection; distinct_nontrivial counts different histories of requests",
	Quick: 1500, Thorough: 25000,
	Case: func(t *vf.T) {
		perturb(t)
		r := t.R
		s := newSess(t)
		defer s.close()
		other, err := pub.NewServer()
		works(err)
		defer other.Close()
		taken, err := net.Listen("tcp", "127.0.0.1:0")
		works(err)
		defer taken.Close()
		sig := ""
		refuse := func(what string, e error) {
			if e == nil {
				t.Fatalf("%s succeeded", what)
			}
			t.Eval(1)
		}
		filter, set := "", (*sttp.Settings)(nil)
		// without makes requests that need a connection while there is none.
		without := func() {
			for i, n := 0, r.Intn(5); i < n; i++ {
				k := r.Intn(8)
				sig += fmt.Sprintf("n%d", k)
				switch k {
				case 0:
					filter, set = plainText(r, 1+r.Intn(30)), randSettings(t, false)
					s.sb.Subscribe(filter, set)
				case 1:
					s.sb.Unsubscribe()
				case 2:
					s.sb.RequestMetadata()
				case 3:
					a := badAddress(r)
					refuse(fmt.Sprintf("dialling %q", a), s.sb.Dial(a, randConfig(r)))
				case 4:
					a := badAddress(r)
					refuse(fmt.Sprintf("listening on %q", a), s.sb.Listen(a, randConfig(r)))
				case 5:
					refuse("listening on a port in use", s.sb.Listen(taken.Addr().String(), randConfig(r)))
				case 6: // nobody answers
					c := randConfig(r)
					c.MaxRetries, c.RetryInterval, c.MaxRetryInterval = int32(1+r.Intn(2)), 1, 1
					port := freePort(t, false)
					within(t, "dialling a port where nobody listens", func() { err = s.sb.Dial(fmt.Sprintf("127.0.0.1:%d", port), c) })
					refuse("dialling a port where nobody listens", err)
				case 7:
					s.sb.Disconnect()
				}
				if s.sb.IsConnected() || s.sb.IsListening() || s.sb.IsSubscribed() || s.sb.IsValidated() {
					t.Fatalf("without a connection: connected %v, listening %v, subscribed %v, validated %v", s.sb.IsConnected(), s.sb.IsListening(),
						s.sb.IsSubscribed(), s.sb.IsValidated())
				}
				t.Eval(1)
			}
		}
		var want []pub.Meas
		conns := 1 + r.Intn(3)
		for c := 0; c < conns; c++ {
			without()
			if e, m := s.counts(); e != c || m != c {
				t.Fatalf("before connection %d: %d connections reported as established and %d as terminated", c+1, e, m)
			}
			s.cfg = randConfig(r)
			s.cfg.Version = 2
			s.cfg.MetadataFilters = fmt.Sprintf("FILTER A WHERE B = %d", r.Int31())
			s.dial()
			checkOpModes(t, s.con, s.cfg, false)
			metas, subs := 0, 0
			metadata := func() {
				metas++
				if !s.con.WaitFrames(pub.CmdMetadataRefresh, metas, limit) {
					t.Fatalf("metadata was not requested")
				}
				f := s.con.FramesOf(pub.CmdMetadataRefresh)
				checkMetaRequest(t, f[metas-1], s.cfg.MetadataFilters)
				p := []byte(metaXML)
				if s.cfg.CompressMetadata {
					p = pub.Gzip(p)
				}
				must(s.con.Send(pub.RespSucceeded, pub.CmdMetadataRefresh, p))
				if s.cfg.AutoSubscribe && s.cfg.AutoRequestMetadata {
					subs++
					s.acceptSubscribe(subs)
				}
			}
			if s.cfg.AutoRequestMetadata {
				metadata()
			} else if s.cfg.AutoSubscribe {
				subs++
				s.acceptSubscribe(subs)
			}
			if subs > 0 {
				checkSubscribe(t, s.con.FramesOf(pub.CmdSubscribe)[0], filter, set)
			} else {
				filter, set = plainText(r, 1+r.Intn(30)), randSettings(t, false)
				subs++
				s.subscribe(filter, set)
			}
			sic := randSIC(r, 1+r.Intn(5))
			s.sendSIC(sic, 0)
			g := &compactGen{r: r, sic: [2]*pub.SIC{sic, nil}, includeTime: true}
			if set != nil {
				g.includeTime, g.ms = set.IncludeTime, set.UseMillisecondResolution
			}
			s.sync()
			unsubs, ahead := s.con.CountOf(pub.CmdUnsubscribe), subs
			for i, n := 0, 1+r.Intn(5); i < n && !t.Failed(); i++ {
				k := r.Intn(6)
				sig += fmt.Sprintf("c%d", k)
				bad := randConfig(r)
				bad.MetadataFilters = fmt.Sprintf("FILTER C WHERE D = %d", r.Int31())
				switch k {
				case 0:
					refuse("dialling another publisher while connected", s.sb.Dial(other.Addr(), bad))
				case 1:
					a := badAddress(r)
					refuse(fmt.Sprintf("dialling %q while connected", a), s.sb.Dial(a, bad))
				case 2:
					port := freePort(t, false)
					refuse("listening while connected", s.sb.Listen(fmt.Sprintf("127.0.0.1:%d", port), bad))
					if !portFree(port) {
						t.Fatalf("a refused request to listen opened its port")
					}
				case 3:
					a := badAddress(r)
					refuse(fmt.Sprintf("listening on %q while connected", a), s.sb.Listen(a, bad))
				case 4:
					refuse("dialling without configuration while connected", s.sb.Dial(other.Addr(), nil))
				case 5:
					if s.srv != nil {
						refuse("dialling the same publisher again", s.sb.Dial(s.srv.Addr(), bad))
					} else {
						refuse("listening again", s.sb.Listen(fmt.Sprintf("127.0.0.1:%d", s.port), bad))
					}
				}
				// The session goes on as it was.
				if !s.sb.IsConnected() || !s.sb.IsSubscribed() || !s.sb.IsValidated() || s.sb.IsListening() != (s.port > 0) {
					t.Fatalf("after a refused request: connected %v, subscribed %v, validated %v, listening %v", s.sb.IsConnected(), s.sb.IsSubscribed(),
						s.sb.IsValidated(), s.sb.IsListening())
				}
				p, m := g.packet(1 + r.Intn(10))
				want = append(want, m...)
				must(s.con.Send(pub.RespDataPacket, pub.CmdSubscribe, p))
				s.sync()
				s.compare(want)
				if r.Intn(3) == 0 {
					if s.cfg.AutoRequestMetadata {
						must(s.con.Send(pub.RespConfigChanged, 0, nil))
					} else {
						s.sb.RequestMetadata()
					}
					metadata()
				}
				if a, b, d := s.con.CountOf(pub.CmdMetadataRefresh), s.con.CountOf(pub.CmdSubscribe), s.con.CountOf(pub.CmdDefineOpModes); a != metas || b != subs || d != 1 {
					t.Fatalf("%d metadata requests, %d subscriptions and %d announcements on a connection; expected %d, %d and 1", a, b, d, metas, subs)
				}
			}
			s.sync()
			// A new subscription replaces the one before.
			if n := s.con.CountOf(pub.CmdUnsubscribe); n != unsubs+subs-ahead {
				t.Failf("%d unsubscribe requests after %d new subscriptions", n-unsubs, subs-ahead)
			}
			if e, m := s.counts(); e != c+1 || m != c {
				t.Failf("in connection %d: %d connections reported as established and %d as terminated", c+1, e, m)
			}
			t.Stop()
			s.idle()
			if r.Intn(2) == 0 {
				s.con.Close()
				if s.port > 0 {
					vf.WaitFor(limit, func() bool { return !s.sb.IsConnected() })
					s.sb.Disconnect()
				}
			} else {
				s.sb.Disconnect()
			}
			if !vf.WaitFor(limit, func() bool { e, m := s.counts(); return e == m && !s.sb.IsConnected() && !s.sb.IsListening() }) {
				t.Fatalf("the end of the connection was not reported")
			}
			s.con.Close()
		}
		without()
		if s.port <= 0 && r.Intn(2) == 0 { // an automatic reconnect goes on
			sig += "r"
			s.cfg = randConfig(r)
			s.cfg.AutoReconnect, s.cfg.Version = true, 2
			s.cfg.RetryInterval = int32(1 + r.Intn(30))
			s.cfg.MaxRetryInterval = s.cfg.RetryInterval
			s.dial()
			if !vf.WaitFor(limit, func() bool { e, m := s.counts(); return e == conns+1 && m == conns }) {
				t.Fatalf("a connection was not reported")
			}
			s.con.Close()
			vf.WaitFor(limit, func() bool { _, m := s.counts(); return m > conns })
			for i, n := 0, 1+r.Intn(6); i < n; i++ {
				// An address that is usable would take over once the connection is lost.
				a := badAddress(r)
				if r.Intn(2) == 0 {
					refuse(fmt.Sprintf("dialling %q while reconnecting", a), s.sb.Dial(a, randConfig(r)))
				} else {
					refuse(fmt.Sprintf("listening on %q while reconnecting", a), s.sb.Listen(a, randConfig(r)))
				}
				pause(r, 5000)
			}
			if s.con = s.srv.NextConn(limit); s.con == nil {
				t.Fatalf("refused requests ended the automatic reconnect")
			}
			conns += 2
			s.awaitReady()
			if !vf.WaitFor(limit, func() bool { e, m := s.counts(); return e == conns && m == conns-1 }) {
				t.Fatalf("the reconnect was not reported")
			}
			checkOpModes(t, s.con, s.cfg, false)
			s.idle()
			s.sb.Disconnect()
			if !vf.WaitFor(limit, func() bool { e, m := s.counts(); return e == m && !s.sb.IsConnected() }) {
				t.Fatalf("the end of the connection was not reported")
			}
			s.con.Close()
		}
		if r.Intn(4) == 0 { // requests while waiting for a publisher to connect
			sig += "w"
			s.cfg = randConfig(r)
			s.cfg.Version, s.cfg.AutoSubscribe, s.cfg.AutoRequestMetadata = 2, true, false
			port := freePort(t, false)
			if err := s.sb.Listen(fmt.Sprintf("127.0.0.1:%d", port), s.cfg); err != nil {
				t.Fatalf("listening failed: %v", err)
			}
			for i, n := 0, 1+r.Intn(6); i < n; i++ {
				k := r.Intn(6)
				sig += fmt.Sprintf("%d", k)
				switch k {
				case 0, 1:
					filter, set = plainText(r, 1+r.Intn(30)), randSettings(t, false)
					s.sb.Subscribe(filter, set)
				case 2:
					s.sb.Unsubscribe()
				case 3:
					s.sb.RequestMetadata()
				case 4:
					refuse("dialling while listening", s.sb.Dial(other.Addr(), randConfig(r)))
				case 5:
					refuse("listening again", s.sb.Listen(fmt.Sprintf("127.0.0.1:%d", freePort(t, false)), randConfig(r)))
				}
				if s.sb.IsConnected() || !s.sb.IsListening() || s.sb.IsSubscribed() || s.sb.IsValidated() {
					t.Fatalf("without a connection: connected %v, listening %v, subscribed %v, validated %v", s.sb.IsConnected(), s.sb.IsListening(),
						s.sb.IsSubscribed(), s.sb.IsValidated())
				}
				t.Eval(1)
			}
			s.con = call(t, port)
			go autoAccept(s.con)
			s.awaitReady()
			checkOpModes(t, s.con, s.cfg, false)
			s.acceptSubscribe(1)
			checkSubscribe(t, s.con.FramesOf(pub.CmdSubscribe)[0], filter, set)
			s.sync()
			if a, b, d := s.con.CountOf(pub.CmdMetadataRefresh), s.con.CountOf(pub.CmdSubscribe), s.con.CountOf(pub.CmdDefineOpModes); a != 0 || b != 1 || d != 1 {
				t.Fatalf("%d metadata requests, %d subscriptions and %d announcements on a connection", a, b, d)
			}
			conns++
			if !vf.WaitFor(limit, func() bool { e, m := s.counts(); return e == conns && m == conns-1 }) {
				t.Fatalf("the connection was not reported")
			}
			s.idle()
			s.sb.Disconnect()
			if !vf.WaitFor(limit, func() bool { e, m := s.counts(); return e == m && !s.sb.IsConnected() && !s.sb.IsListening() }) {
				t.Fatalf("the end of the connection was not reported")
			}
			s.con.Close()
		}
		time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
		if n := other.Arrivals(); n != 0 {
			t.Failf("a publisher that was never to be served saw %d connections", n)
		}
		if e, m := s.counts(); e != conns || m != conns {
			t.Failf("%d connections reported as established and %d as terminated after %d sessions", e, m, conns)
		}
		t.Count("sessions", conns)
		t.Sig(sig)
		if t.Idx < 3 {
			t.Sample("case %d: %s", t.Idx, sig)
		}
	},
	Done: schedDone,
}
