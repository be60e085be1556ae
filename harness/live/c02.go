package main

import (
	"github.com/sttp/goapi/sttp"

	"verif/harness/pub"
	"verif/harness/vf"
)

var c02 = &vf.Prop{
	ID: "C02",
	Rule: "each case is one session with its own time, resolution, byte order, cipher and channel settings in which an independent encoder " +
		"publishes compact packets while caches, base times and keys change in between; every delivered measurement is compared with the " +
		"published one; distinct_nontrivial counts different packets with at least two measurements",
	Quick: 2500, Thorough: 30000,
	Case: func(t *vf.T) {
		gentle(t)
		r := t.R
		s := newSess(t)
		defer s.close()
		s.pool = r.Intn(2) == 0
		s.cfg.RfcGuidEncoding = r.Intn(2) == 0
		s.cfg.CompressSignalIndexCache = r.Intn(2) == 0
		s.cfg.CompressPayloadData = r.Intn(2) == 0
		if r.Intn(6) == 0 {
			s.cfg.Version = 1
		}
		set := sttp.NewSettings()
		set.IncludeTime = r.Intn(5) != 0
		set.UseMillisecondResolution = r.Intn(2) == 0
		udp := r.Intn(3) == 0
		if udp {
			set.UdpPort = uint16(freePort(t, true))
		}
		var want []pub.Meas
	again:
		s.dial()
		s.subscribe("FILTER ActiveMeasurements WHERE True", set)
		var us *udpSender
		if udp {
			us = dialUDP(int(set.UdpPort))
			defer us.c.Close()
		}
		g := &compactGen{r: r, includeTime: set.IncludeTime, ms: set.UseMillisecondResolution}
		newSIC := func() {
			slot := byte(r.Intn(2))
			if s.cfg.Version < 2 {
				slot = 0
			}
			sic := randSIC(r, 1+r.Intn(30))
			s.sendSIC(sic, slot)
			g.sic[slot] = sic
		}
		newSIC()
		if r.Intn(2) == 0 {
			s.con.RandomFrag(r.Int63())
		}
		steps := 3 + r.Intn(30)
		unsure := false // whether the last datagram may still be waiting to be processed
		for i := 0; i < steps || unsure; i++ {
			step := r.Intn(9)
			if unsure {
				step = 8
			}
			switch step {
			case 0:
				must(s.con.Send(pub.RespBaseTimes, pub.CmdSubscribe, g.newBase()))
				if udp {
					s.sync()
				}
				t.Count("base_time_changes", 1)
			case 1:
				g.keys = pub.RandKeys(r)
				must(s.con.Send(pub.RespCipherKeys, pub.CmdSubscribe, g.keys.Payload(byte(r.Intn(2)))))
				if udp {
					s.sync()
				}
				t.Count("key_changes", 1)
			case 2:
				newSIC()
				t.Count("cache_changes", 1)
			default:
				n := []int{0, 1, 2, r.Intn(20), r.Intn(300)}[r.Intn(5)]
				if unsure && n == 0 {
					n = 1
				}
				unsure = udp && n == 0
				payload, meas := g.packet(n)
				if n >= 2 {
					t.SigHash(hash(payload))
				}
				if g.keys != nil {
					t.Count("encrypted_packets", 1)
				}
				want = append(want, meas...)
				t.Eval(1)
				if udp {
					us.send(pub.RespDataPacket, pub.CmdSubscribe, payload)
					t.Count("udp_packets", 1)
					if !vf.WaitFor(limit, func() bool { return s.sb.TotalDataChannelBytesReceived() >= uint64(us.sent) && s.count() >= len(want) }) {
						t.Fatalf("datagram %d was not delivered: %d of %d bytes, %d of %d measurements; errors: %q", i,
							s.sb.TotalDataChannelBytesReceived(), us.sent, s.count(), len(want), s.errors())
					}
				} else {
					must(s.con.Send(pub.RespDataPacket, pub.CmdSubscribe, payload))
				}
			}
		}
		s.sync()
		s.compare(want)
		if !s.sb.IsConnected() {
			t.Failf("connection did not survive a valid stream; errors: %q", s.errors())
		}
		if r.Intn(4) == 0 && !t.Failed() { // the next connection starts without keys and base times
			s.con.Frag, s.con.Delay = nil, nil
			s.hangUp()
			t.Count("further_connections", 1)
			goto again
		}
		if t.Idx < 2 {
			t.Sample("case %d: %d measurements, udp %v, time %v, ms %v, first %v", t.Idx, len(want), udp, set.IncludeTime, set.UseMillisecondResolution, first(want))
		}
	},
	Done: schedDone,
}
