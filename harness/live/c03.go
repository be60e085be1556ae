package main

import (
	"sync"
	"sync/atomic"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/transport"

	"verif/harness/pub"
	"verif/harness/vf"
)

// metaXML is a small metadata document for interleaving with other traffic.
const metaXML = `<?xml version="1.0"?><NewDataSet xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:schema id="NewDataSet">` +
	`<xs:element name="NewDataSet"><xs:complexType><xs:choice><xs:element name="MeasurementDetail"><xs:complexType><xs:sequence>` +
	`<xs:element name="SignalID" type="xs:string" xmlns:ext="urn:schemas-microsoft-com:xml-msdata" ext:DataType="System.Guid"/>` +
	`<xs:element name="PointTag" type="xs:string"/></xs:sequence></xs:complexType></xs:element></xs:choice></xs:complexType></xs:element></xs:schema>` +
	`<MeasurementDetail><SignalID>11111111-2222-3333-4444-555555555555</SignalID><PointTag>T1</PointTag></MeasurementDetail></NewDataSet>`

var c03 = &vf.Prop{
	ID: "C03",
	Rule: "each case is one session carrying a mix of compressed and compact data packets with other responses, random fragmentation and " +
		"injected delays, while user goroutines call the public operations and recycle buffers; the delivered sequence and the totals are " +
		"compared with what was sent; distinct_nontrivial counts different (packet mix, user-call mix, fragmentation) histories",
	Quick: 1500, Thorough: 40000,
	Case: func(t *vf.T) {
		perturb(t)
		r := t.R
		s := newSess(t)
		defer s.close()
		s.cfg.CompressMetadata = r.Intn(2) == 0
		old := t.Idx%8 == 1 // first version of the protocol, which has a single cache
		if old {
			s.cfg.Version = 1
		}
		set := sttp.NewSettings()
		set.UseMillisecondResolution = r.Intn(2) == 0
		udp := t.Idx%9 == 4
		if udp {
			set.UdpPort = uint16(freePort(t, true))
		}
		long := t.Idx%500 == 77 // past the roll-over of sequence numbers

		// Receiver behaviour: plain, slow, or retaining batches which are recycled later by another goroutine.
		mode := r.Intn(3)
		var recycle chan *[]transport.Measurement
		var rg sync.WaitGroup
		switch mode {
		case 1:
			slow := time.Duration(r.Intn(400)) * time.Microsecond
			if long {
				slow = 0
			}
			s.onMeas = func([]transport.Measurement) { time.Sleep(slow) }
			s.pool = r.Intn(2) == 0
		case 2:
			recycle = make(chan *[]transport.Measurement, 1000)
			s.sb.SetNewMeasurementsReceiver(func(m *[]transport.Measurement) {
				s.mu.Lock()
				s.batches = append(s.batches, batch{pub.NextSeq(), append([]transport.Measurement(nil), *m...)})
				s.nmeas += len(*m)
				s.mu.Unlock()
				recycle <- m
			})
			rg.Add(1)
			go func() {
				defer rg.Done()
				for m := range recycle {
					for i := range *m {
						(*m)[i] = transport.Measurement{Value: -777}
					}
					s.sb.PutMeasurementSlice(m)
				}
			}()
		}
		stopRecycling := func() {
			if recycle != nil {
				s.sb.SetNewMeasurementsReceiver(nil)
				s.sync()
				close(recycle)
				rg.Wait()
			}
		}
		s.dial()
		if t.Idx%5 == 3 { // totals start anew with each connection
			s.subscribe("FILTER ActiveMeasurements WHERE True", set)
			s.sync()
			if udp {
				u := dialUDP(int(set.UdpPort))
				for i, n := 0, 1+r.Intn(4); i < n; i++ {
					k, err := u.c.Write(randBytes(r, 1+r.Intn(5)))
					works(err)
					u.sent += k
				}
				if !vf.WaitFor(limit, func() bool { return s.sb.TotalDataChannelBytesReceived() >= uint64(u.sent) }) {
					t.Fatalf("%d bytes sent in datagrams, the received total reports %d", u.sent, s.sb.TotalDataChannelBytesReceived())
				}
				u.c.Close()
			}
			if r.Intn(2) == 0 {
				s.con.Close()
			} else {
				s.sb.Disconnect()
			}
			if !vf.WaitFor(limit, func() bool { e, m := s.counts(); return e == m && !s.sb.IsConnected() }) {
				t.Fatalf("the end of the connection was not reported")
			}
			s.con.Close()
			s.dial()
			t.Count("later_connections", 1)
		}
		s.subscribe("FILTER ActiveMeasurements WHERE True", set)
		sic := [2]*pub.SIC{randSIC(r, 1+r.Intn(20)), randSIC(r, 1+r.Intn(20))}
		s.sendSIC(sic[0], 0)
		if old {
			sic[1] = nil
		} else {
			s.sendSIC(sic[1], 1)
		}
		var us *udpSender
		if udp {
			us = dialUDP(int(set.UdpPort))
			defer us.c.Close()
			t.Count("sessions_with_udp_data_channel", 1)
		}
		g := &compactGen{r: r, sic: sic, includeTime: true, ms: set.UseMillisecondResolution}
		streams := [2]*tsscStream{newTsscStream(r, 0, sic[0])}
		if streams[1] = streams[0]; !old {
			streams[1] = newTsscStream(r, 1, sic[1])
		}
		if r.Intn(3) != 0 {
			s.con.RandomFrag(r.Int63())
		}

		// User goroutines working during the stream.
		users := r.Intn(4)
		resub := r.Intn(2) == 0 && !udp
		var stop int32
		var wg sync.WaitGroup
		var calls int64
		for u := 0; u < users; u++ {
			seed := r.Intn(1000)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := seed; atomic.LoadInt32(&stop) == 0; i++ {
					atomic.AddInt64(&calls, 1)
					switch i % 11 {
					case 0:
						s.sb.RequestMetadata()
					case 1:
						_ = s.sb.TotalMeasurementsReceived() + s.sb.TotalCommandChannelBytesReceived() + s.sb.TotalDataChannelBytesReceived()
					case 2:
						_ = s.sb.ActiveSignalIndexCache().Count()
					case 3:
						if resub {
							s.sb.Subscribe("FILTER ActiveMeasurements WHERE True", set)
						}
					case 4:
						if resub {
							s.sb.Unsubscribe()
						}
					case 5:
						_ = s.sb.LookupMetadata(libGuid(sic[0].Records[0].ID))
					case 6:
						_ = s.sb.ConnectionID() + s.sb.SubscriberID().String()
					default:
						time.Sleep(time.Duration(i%17) * 50 * time.Microsecond)
					}
				}
			}()
		}

		var want []pub.Meas
		sig := uint64(users)*3 + uint64(mode)
		steps := 4 + r.Intn(40)
		var metas int
		for i := 0; i < steps; i++ {
			k := r.Intn(14)
			if us != nil && k >= 8 && k <= 10 {
				k = 11 // compressed data needs the stateful channel
			}
			sig = sig*1000003 + uint64(k)
			var resp byte
			var payload []byte
			switch k {
			case 0:
				resp, payload = pub.RespNotify, append(pub.U32(uint32(i)), []byte("note")...)
			case 1:
				resp, payload = pub.RespBaseTimes, g.newBase()
				if us != nil {
					must(s.con.Send(resp, pub.CmdSubscribe, payload))
					s.sync()
					continue
				}
			case 2:
				resp = pub.RespNoOP
			case 3:
				resp, payload = pub.RespConfigChanged, nil
			case 4:
				resp, payload = pub.RespDataStartTime, pub.U64(uint64(637500000000000000))
			case 5:
				metas++
				resp, payload = pub.RespSucceeded, []byte(metaXML)
				if s.cfg.CompressMetadata {
					payload = pub.Gzip(payload)
				}
				must(s.con.Send(resp, pub.CmdMetadataRefresh, payload))
				continue
			case 6:
				resp, payload = pub.RespBufferBlock, pub.Block(int(s.cfg.Version), uint32(i), 0, sic[0].Records[0].Index, []byte("block"))
			case 7:
				resp, payload = pub.RespProcComplete, []byte("done")
			case 8, 9, 10:
				st := streams[r.Intn(2)]
				if r.Intn(10) == 0 {
					st.reset()
				}
				p, m := st.packet([]int{1, 2, r.Intn(50), r.Intn(500)}[r.Intn(4)])
				resp, payload = pub.RespDataPacket, p
				want = append(want, m...)
			default:
				n := []int{0, 1, 2, r.Intn(50), r.Intn(500)}[r.Intn(5)]
				if us == nil && r.Intn(12) == 0 {
					n = 1500 + r.Intn(4000) // larger than the initial buffers
				}
				p, m := g.packet(n)
				resp, payload = pub.RespDataPacket, p
				want = append(want, m...)
				if us != nil {
					us.send(resp, pub.CmdSubscribe, payload)
					if !vf.WaitFor(limit, func() bool {
						return s.count() >= len(want) && s.sb.TotalMeasurementsReceived() >= uint64(len(want)) && s.sb.TotalDataChannelBytesReceived() >= uint64(us.sent)
					}) {
						t.Fatalf("%d measurements sent in datagrams, %d delivered", len(want), s.sb.TotalMeasurementsReceived())
					}
					t.Eval(1)
					continue
				}
			}
			must(s.con.Send(resp, pub.CmdSubscribe, payload))
			t.Eval(1)
		}
		if long && us == nil {
			var buf []byte
			s.con.Frag, s.con.Delay = nil, nil
			for i := 0; i < 66000; i++ {
				p, m := streams[0].packet(1)
				want = append(want, m...)
				buf = append(buf, pub.Wire(pub.RespDataPacket, pub.CmdSubscribe, p)...)
				if len(buf) > 60000 {
					must(s.con.Raw(buf))
					buf = buf[:0]
				}
			}
			must(s.con.Raw(buf))
			t.Count("sequence_rollovers", 1)
		}
		atomic.StoreInt32(&stop, 1)
		s.sync()
		wg.Wait()
		s.compare(want)
		total := s.sb.TotalMeasurementsReceived()
		if !resub || users == 0 {
			if total != uint64(len(want)) {
				t.Failf("%d measurements delivered since subscription but the total reports %d", len(want), total)
			}
		} else if total > uint64(len(want)) {
			t.Failf("the total reports %d measurements, only %d were published", total, len(want))
		}
		if sent := uint64(atomic.LoadInt64(&s.con.Sent)); s.sb.TotalCommandChannelBytesReceived() != sent {
			t.Failf("publisher sent %d bytes, the received total reports %d", sent, s.sb.TotalCommandChannelBytesReceived())
		}
		if us != nil {
			if s.sb.TotalDataChannelBytesReceived() != uint64(us.sent) {
				t.Failf("publisher sent %d bytes in datagrams, the received total reports %d", us.sent, s.sb.TotalDataChannelBytesReceived())
			}
			t.SigHash(sig)
			stopRecycling()
			return
		}
		if s.sb.TotalDataChannelBytesReceived() != s.sb.TotalCommandChannelBytesReceived() {
			t.Failf("without a separate data channel the data total %d differs from the command total %d", s.sb.TotalDataChannelBytesReceived(), s.sb.TotalCommandChannelBytesReceived())
		}
		if b := s.con.Bad(); b != "" {
			t.Failf("malformed command stream: %s", b)
		}
		// A new subscription starts counting from zero.
		s.sb.Subscribe("FILTER ActiveMeasurements WHERE True", set)
		if n := s.sb.TotalMeasurementsReceived(); n != 0 {
			t.Failf("total is %d right after a new subscription with no data in flight", n)
		}
		p, m := g.packet(1 + r.Intn(20))
		must(s.con.Send(pub.RespDataPacket, pub.CmdSubscribe, p))
		s.sync()
		if n := s.sb.TotalMeasurementsReceived(); n != uint64(len(m)) {
			t.Failf("%d measurements sent after a new subscription but the total reports %d", len(m), n)
		}
		want = append(want, m...)
		s.compare(want)
		stopRecycling()
		t.SigHash(sig)
		t.Count("user_calls_during_streams", int(calls))
		t.Count("metadata_responses_interleaved", metas)
		if t.Idx < 2 {
			t.Sample("case %d: %d responses, %d measurements, %d user goroutines, receiver mode %d", t.Idx, steps, len(want), users, mode)
		}
	},
	Done: schedDone,
}
