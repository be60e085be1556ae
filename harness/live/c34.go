package main

import (
	"fmt"
	"net"
	"runtime"
	"strings"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/verifsched"

	"verif/harness/pub"
	"verif/harness/vf"
)

// udpFree tells whether nobody has a port open for datagrams.
func udpFree(port int) bool {
	c, err := net.ListenPacket("udp", fmt.Sprintf(":%d", port))
	if err == nil {
		c.Close()
	}
	return err == nil
}

var c34 = &vf.Prop{
	ID: "C34",
	Rule: "each case runs subscriptions with and without a UDP data channel one after the other, on the same, another or an occupied port, confirmed " +
		"or not, and ends them by unsubscribing, resubscribing, disconnecting, loss or close; the ports open at each point, the datagrams and packets " +
		"delivered, those that must not be, and the received totals are checked; distinct_nontrivial counts different histories",
	Quick: 1200, Thorough: 20000,
	Case: func(t *vf.T) {
		perturb(t)
		r := t.R
		ports := []int{freePort(t, true)}
		for p := freePort(t, true); len(ports) < 2; p = freePort(t, true) {
			if p != ports[0] {
				ports = append(ports, p)
			}
		}
		base, baseSock := runtime.NumGoroutine(), sockets()
		s := newSess(t)
		closed := false
		defer func() {
			if !closed {
				s.close()
			}
		}()
		s.pool = r.Intn(2) == 0
		s.cfg.AutoSubscribe = r.Intn(3) == 0
		sig := fmt.Sprintf("%v", s.cfg.AutoSubscribe)
		cur := 0 // port of the current data channel, 0 when there is none
		var g *compactGen
		var want []pub.Meas
		// check looks at the ports; channels close and open before the request or the report that says so.
		check := func(what string) {
			for _, p := range ports {
				if p == cur {
					if udpFree(p) {
						t.Fatalf("%s: port %d of the subscription is not open", what, p)
					}
				} else if !vf.WaitFor(limit, func() bool { return udpFree(p) }) {
					t.Fatalf("%s: port %d is left open", what, p)
				}
			}
			t.Eval(1)
		}
		// datagrams sends data to a port, which must be delivered exactly when it is the current one.
		datagrams := func(what string, port int) {
			if g == nil {
				return
			}
			u := dialUDP(port)
			defer u.c.Close()
			start := s.sb.TotalDataChannelBytesReceived()
			for i, n := 0, 1+r.Intn(4); i < n; i++ {
				if r.Intn(4) == 0 { // not even a response header
					b := randBytes(r, r.Intn(6))
					if n, err := u.c.Write(b); err == nil {
						u.sent += n
					}
				}
				p, m := g.packet(1 + r.Intn(30))
				if port != cur { // a closed port may answer with a refusal
					_, _ = u.c.Write(pub.Body(pub.RespDataPacket, pub.CmdSubscribe, p))
					continue
				}
				u.send(pub.RespDataPacket, pub.CmdSubscribe, p)
				want = append(want, m...)
				if !vf.WaitFor(limit, func() bool { return s.count() >= len(want) }) {
					t.Fatalf("%s: %d of %d measurements were delivered after a datagram; errors: %q", what, s.count(), len(want), s.errors())
				}
			}
			if s.sb.IsConnected() {
				s.sync()
			}
			s.compare(want)
			if port == cur && cur != 0 {
				if !vf.WaitFor(limit, func() bool { return s.sb.TotalDataChannelBytesReceived()-start == uint64(u.sent) }) {
					t.Fatalf("%s: %d bytes sent in datagrams, the total grew by %d", what, u.sent, s.sb.TotalDataChannelBytesReceived()-start)
				}
			}
			t.Eval(1)
		}
		packets := func(what string) {
			if g == nil {
				return
			}
			for i, n := 0, 1+r.Intn(3); i < n; i++ {
				p, m := g.packet(1 + r.Intn(30))
				must(s.con.Send(pub.RespDataPacket, pub.CmdSubscribe, p))
				want = append(want, m...)
			}
			s.sync()
			s.compare(want)
		}
		settings := func(udp bool) (*sttp.Settings, int) {
			set := sttp.NewSettings()
			if !udp {
				return set, 0
			}
			p := ports[r.Intn(2)]
			set.UdpPort = uint16(p)
			return set, p
		}
		conns := 1 + r.Intn(2)
		for c := 0; c < conns; c++ {
			subs, unsubs := 0, 0
			pending := 0
			if s.cfg.AutoSubscribe {
				var set *sttp.Settings
				set, pending = settings(r.Intn(3) > 0)
				s.sb.Subscribe("FILTER X WHERE True", set)
			}
			check("before connecting")
			s.dial()
			if s.cfg.AutoSubscribe {
				subs++
				if !s.con.WaitFrames(pub.CmdSubscribe, subs, limit) {
					t.Fatalf("no automatic subscription")
				}
				cur = pending
				check("after the automatic subscription")
				if r.Intn(2) == 0 {
					s.acceptSubscribe(subs)
				}
			}
			sic := randSIC(r, 1+r.Intn(6))
			s.sendSIC(sic, 0)
			g = &compactGen{r: r, sic: [2]*pub.SIC{sic, nil}, includeTime: true}

			for i, n := 0, 1+r.Intn(6); i < n; i++ {
				k := r.Intn(8)
				sig += fmt.Sprintf(",%d", k)
				switch k {
				case 0, 1, 2: // subscribe, perhaps over an earlier subscription
					set, p := settings(k > 0)
					subs++
					s.sb.Subscribe("FILTER X WHERE True", set)
					if !s.con.WaitFrames(pub.CmdSubscribe, subs, limit) {
						t.Fatalf("no subscribe request arrived; errors: %q", s.errors())
					}
					cur = p
					if n := s.con.CountOf(pub.CmdUnsubscribe); n > unsubs { // answered when the next subscription is already on its way
						unsubs = n
						if r.Intn(3) > 0 {
							must(s.con.Send(pub.RespSucceeded, pub.CmdUnsubscribe, nil))
							s.sync()
							sig += "u"
						}
					}
					ok := r.Intn(3) > 0
					sig += fmt.Sprintf("%v", ok)
					if ok {
						s.acceptSubscribe(subs)
					}
					check(fmt.Sprintf("after subscribing with port %d", p))
				case 3: // the port is taken by somebody else
					p := ports[r.Intn(2)]
					if p == cur {
						continue
					}
					l, err := net.ListenPacket("udp", fmt.Sprintf(":%d", p))
					if err != nil {
						vf.Harnessf("port %d: %v", p, err)
					}
					set := sttp.NewSettings()
					set.UdpPort = uint16(p)
					errs := len(s.errors())
					s.sb.Subscribe("FILTER X WHERE True", set)
					if !vf.WaitFor(limit, func() bool {
						for _, e := range s.errors()[errs:] {
							if strings.Contains(e, fmt.Sprint(p)) {
								return true
							}
						}
						return false
					}) {
						t.Fatalf("a subscription with port %d, which is in use, was not reported to have failed", p)
					}
					s.sync()
					if n := s.con.CountOf(pub.CmdSubscribe); n != subs {
						t.Fatalf("a subscription was sent although its port %d is in use", p)
					}
					if !s.sb.IsConnected() {
						t.Fatalf("disconnected because port %d is in use", p)
					}
					l.Close()
					cur = 0
					check(fmt.Sprintf("after a failure to use port %d", p))
				case 4:
					if r.Intn(2) == 0 {
						must(s.con.Send(pub.RespSucceeded, pub.CmdUnsubscribe, nil))
						s.sync()
					}
					s.sb.Unsubscribe()
					unsubs++
					cur = 0
					check("after unsubscribing")
				case 5, 6:
					datagrams("datagrams", ports[r.Intn(2)])
				case 7:
					packets("packets")
				}
			}
			if cur != 0 {
				datagrams("before the end", cur)
			}
			last := cur
			how := r.Intn(4)
			sig += fmt.Sprintf("/%d", how)
			cur = 0
			switch {
			case how == 0:
				s.con.Close()
				if !vf.WaitFor(limit, func() bool { e, m := s.counts(); return e == m }) {
					t.Fatalf("the loss of a connection was not reported")
				}
				check("after a loss")
			case how == 1 && c == conns-1: // close follows
			default:
				s.sb.Disconnect()
				if !vf.WaitFor(limit, func() bool { e, m := s.counts(); return e == m }) {
					t.Fatalf("the end of a connection was not reported")
				}
				check("after a disconnect")
				s.con.Close()
			}
			if last != 0 && !s.sb.IsConnected() {
				datagrams("after the end", last)
			}
		}
		verifsched.Off()
		within(t, "close", s.sb.Close)
		closed = true
		if s.srv != nil {
			s.srv.Close()
		}
		s.con.Close()
		check("after close")
		s.compare(want)
		quiesce(t, base)
		if !vf.WaitFor(limit, func() bool { return sockets() <= baseSock }) {
			t.Failf("%d sockets are left open after close", sockets()-baseSock)
		}
		t.Sig(sig)
		t.Count("connections", conns)
		if t.Idx < 3 {
			t.Sample("case %d: %s", t.Idx, sig)
		}
	},
	Done: schedDone,
}
