package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/transport"

	"verif/harness/pub"
	"verif/harness/vf"
)

var responses = []byte{pub.RespSucceeded, pub.RespFailed, pub.RespDataPacket, pub.RespUpdateSIC, pub.RespBaseTimes, pub.RespCipherKeys,
	pub.RespDataStartTime, pub.RespProcComplete, pub.RespBufferBlock, pub.RespNotify, pub.RespConfigChanged, pub.RespNoOP}

// hostile makes response bodies that no conforming publisher would send.
type hostile struct {
	r    *rand.Rand
	s    *sess
	sic  *pub.SIC
	g    *compactGen
	tssc *tsscStream
	keys bool // cipher keys were just sent
}

func newHostile(r *rand.Rand, s *sess, sic *pub.SIC) *hostile {
	h := &hostile{r: r, s: s, sic: sic, g: &compactGen{r: r, sic: [2]*pub.SIC{sic, nil}, includeTime: true}}
	h.tssc = newTsscStream(r, 0, sic)
	return h
}

// valid makes a valid payload of some response.
func (h *hostile) valid() (resp, cmd byte, p []byte) {
	r := h.r
	cmd = pub.CmdSubscribe
	switch r.Intn(14) {
	case 0:
		c := randSIC(r, r.Intn(12))
		return pub.RespUpdateSIC, cmd, c.Payload(int(h.s.cfg.Version), byte(r.Intn(3)), r.Intn(2) == 0, h.s.cfg.CompressSignalIndexCache)
	case 1, 2:
		p = []byte(metaXML)
		if r.Intn(2) == 0 {
			p = h.mutateText(p)
		}
		if h.s.cfg.CompressMetadata {
			p = pub.Gzip(p)
		}
		return pub.RespSucceeded, pub.CmdMetadataRefresh, p
	case 3:
		return pub.RespBaseTimes, cmd, pub.BaseTimes(r.Uint32(), int64(randU64(r)), int64(randU64(r)))
	case 4:
		keys := pub.RandKeys(r)
		if r.Intn(2) == 0 { // sizes no cipher has
			for i := range keys.Key {
				if r.Intn(2) == 0 {
					keys.Key[i] = randBytes(r, r.Intn(40))
				}
				if r.Intn(2) == 0 {
					keys.IV[i] = randBytes(r, r.Intn(40))
				}
			}
		}
		return pub.RespCipherKeys, cmd, keys.Payload(byte(r.Intn(256)))
	case 5:
		return pub.RespDataStartTime, cmd, pub.U64(randU64(r))
	case 6:
		return pub.RespBufferBlock, cmd, pub.Block(int(h.s.cfg.Version), uint32(r.Intn(5)), byte(r.Intn(2)), int32(r.Intn(5)), randBytes(r, r.Intn(100)))
	case 7:
		return pub.RespNotify, cmd, append(pub.U32(r.Uint32()), randBytes(r, r.Intn(50))...)
	case 8, 9:
		p, _ = h.tssc.packet(r.Intn(60))
		return pub.RespDataPacket, cmd, p
	case 10, 11:
		if r.Intn(4) == 0 {
			h.g.keys = pub.RandKeys(r)
		}
		p, _ = h.g.packet(r.Intn(60))
		return pub.RespDataPacket, cmd, p
	case 12:
		return responses[r.Intn(len(responses))], byte(r.Intn(256)), randBytes(r, r.Intn(100))
	default:
		return byte(r.Intn(256)), byte(r.Intn(256)), randBytes(r, r.Intn(2000))
	}
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

var textBits = []string{"", "<", ">", "&", "<![CDATA[", "]]>", "<!--", "xs:schema", "type=\"xs:int\"", "<a/>", "</a>", "&#0;", "&#x41;", "\"", "ext:Expression=\"1/0\"", "99999999999999999999", "-1", "NaN", "<?xml?>", "<!DOCTYPE a>"}

func (h *hostile) mutateText(b []byte) []byte {
	r := h.r
	s := string(b)
	for i := 0; i < 1+r.Intn(4); i++ {
		at := r.Intn(len(s) + 1)
		end := at
		if r.Intn(2) == 0 {
			end = at + r.Intn(min(len(s)-at, 40)+1)
		}
		s = s[:at] + textBits[r.Intn(len(textBits))] + s[end:]
	}
	return []byte(s)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// mutate damages bytes.
func (h *hostile) mutate(p []byte) []byte {
	r := h.r
	p = append([]byte(nil), p...)
	for i := 0; i < 1+r.Intn(3); i++ {
		switch r.Intn(7) {
		case 0:
			p = p[:r.Intn(len(p)+1)]
		case 1:
			p = append(p, randBytes(r, r.Intn(40))...)
		case 2:
			if len(p) > 0 {
				p[r.Intn(len(p))] ^= 1 << uint(r.Intn(8))
			}
		case 3:
			if len(p) >= 4 {
				v := []uint32{0, 1, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 0x10000, uint32(len(p)), uint32(len(p)) + 1, r.Uint32()}[r.Intn(9)]
				binary.BigEndian.PutUint32(p[r.Intn(len(p)-3):], v)
			}
		case 4:
			if len(p) > 0 {
				p[r.Intn(len(p))] = []byte{0, 0xFF, 0x7F, 0x80, byte(r.Intn(256))}[r.Intn(5)]
			}
		case 5:
			if len(p) > 1 {
				a := r.Intn(len(p))
				b := a + r.Intn(len(p)-a)
				p = append(p[:a], p[b:]...)
			}
		case 6:
			if len(p) >= 4 {
				v := uint32(r.Intn(40))
				binary.BigEndian.PutUint32(p[min(r.Intn(24), len(p)-4):], v)
			}
		}
	}
	return p
}

func (h *hostile) body() []byte {
	resp, cmd, p := h.valid()
	r := h.r
	if h.keys && r.Intn(2) == 0 {
		h.keys = false
		p, _ := h.g.packet(r.Intn(60))
		return pub.Body(pub.RespDataPacket, pub.CmdSubscribe, p)
	}
	h.keys = resp == pub.RespCipherKeys
	if h.keys && r.Intn(2) == 0 {
		return pub.Body(resp, cmd, p)
	}
	switch r.Intn(10) {
	case 0:
		p = nil
	case 1, 2: // valid payload as it is, possibly at the wrong time
	default:
		p = h.mutate(p)
	}
	b := pub.Body(resp, cmd, p)
	switch r.Intn(12) {
	case 0:
		b = b[:r.Intn(min(len(b), 7)+1)]
	case 1:
		b = h.mutate(b)
	}
	return b
}

func frame(b []byte) []byte { return append(pub.U32(uint32(len(b))), b...) }

// quiesce waits until at most n goroutines are left, reporting what is still running otherwise.
func quiesce(t *vf.T, n int) {
	if !vf.WaitFor(limit, func() bool { return runtime.NumGoroutine() <= n }) {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		var lib []string
		for _, g := range strings.Split(string(buf), "\n\n") {
			if strings.Contains(g, "sttp/goapi") {
				lib = append(lib, g)
			}
		}
		if len(lib) > 0 {
			t.Failf("work is left behind after close:\n%s", strings.Join(lib, "\n\n"))
		} else {
			vf.Harnessf("goroutines of the harness left behind:\n%s", buf)
		}
	}
}

var c05 = &vf.Prop{
	ID: "C05",
	Rule: "each case sends hostile bytes (mutated, truncated, oversized or random responses of every kind, and misframed streams) in a chosen " +
		"session state over TCP, UDP or a reverse connection, then requires that the connection continues or is reported as terminated, that " +
		"allocation stays in proportion, that a healthy session works afterwards and that close ends all library work; distinct_nontrivial " +
		"counts different hostile byte streams",
	Assumptions: []string{"expansion of compressed payloads is not bounded by the check"},
	Quick:       4000, Thorough: 40000,
	Case: func(t *vf.T) {
		perturb(t)
		r := t.R
		base := runtime.NumGoroutine()
		s := newSess(t)
		s.noAuto = true
		s.cfg.CompressMetadata = r.Intn(3) == 0
		s.cfg.CompressSignalIndexCache = r.Intn(3) == 0
		if r.Intn(6) == 0 {
			s.cfg.Version = 1
		}
		s.sb.SetMetadataReceiver(func(ds *data.DataSet) {})
		s.sb.SetNewBufferBlocksReceiver(func(b []transport.BufferBlock) {})
		listen := r.Intn(5) == 0
		var port int
		// connect makes a connection in the chosen way; a validated session results when accept is set.
		connect := func(accept bool) {
			if listen {
				port = freePort(t, false)
				if err := s.sb.Listen(fmt.Sprintf("127.0.0.1:%d", port), s.cfg); err != nil {
					t.Fatalf("listen failed: %v", err)
				}
				k, err := pub.Dial(port)
				if err != nil {
					t.Fatalf("could not connect to the listening subscriber: %v", err)
				}
				s.con = k
			} else {
				s.server()
				if err := s.sb.Dial(s.srv.Addr(), s.cfg); err != nil {
					t.Fatalf("dial to a listening publisher failed: %v", err)
				}
				if s.con = s.srv.NextConn(limit); s.con == nil {
					t.Fatalf("no connection arrived")
				}
			}
			if !s.con.WaitFrames(pub.CmdDefineOpModes, 1, limit) {
				t.Fatalf("no operational modes frame after connecting; errors: %q", s.errors())
			}
			if accept {
				must(s.con.Accept())
				if !vf.WaitFor(limit, s.sb.IsValidated) {
					t.Fatalf("session was not validated")
				}
			}
		}
		drop := func() {
			s.hangUp()
			if !vf.WaitFor(limit, func() bool { return !s.sb.IsListening() }) {
				t.Fatalf("still listening after disconnect")
			}
		}
		if r.Intn(3) == 0 {
			connect(true) // an earlier connection, so that the next one has to be validated
			drop()
		}
		state := r.Intn(4)
		connect(state > 0)
		sic := randSIC(r, 1+r.Intn(12))
		set := sttp.NewSettings()
		set.UseMillisecondResolution = r.Intn(2) == 0
		udp := state > 1 && r.Intn(3) == 0
		if udp {
			set.UdpPort = uint16(freePort(t, true))
		}
		if state > 1 {
			s.subscribe("FILTER X WHERE True", set)
		}
		if state > 2 {
			s.sendSIC(sic, 0)
		}
		h := newHostile(r, s, sic)
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		sent := 0
		sigb := []byte{byte(state)}
		write := func(b []byte) bool {
			sigb = append(sigb, b...)
			sent += len(b)
			t.Eval(1)
			return s.con.Raw(b) == nil
		}
		if r.Intn(2) == 0 {
			s.con.RandomFrag(r.Int63())
		}
		n := 1 + r.Intn(12)
		mis, misframed := r.Intn(4) == 0, false
		var us *udpSender
		if udp {
			us = dialUDP(int(set.UdpPort))
		}
	loop:
		for i := 0; i < n; i++ {
			if udp && r.Intn(2) == 0 {
				b := h.body()
				sigb = append(sigb, b...)
				sent += len(b)
				_, _ = us.c.Write(b)
				t.Eval(1)
				t.Count("hostile_datagrams", 1)
				continue
			}
			k := 99
			if mis {
				k = r.Intn(8)
			}
			switch k {
			case 0: // impossible length, some bytes, then silence
				misframed = true
				b := append(pub.U32([]uint32{0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 1 << 30, 8199, 1 << 20, r.Uint32() | 1<<24}[r.Intn(7)]), randBytes(r, []int{r.Intn(3000), r.Intn(150000)}[r.Intn(6)/5])...)
				write(b)
				break loop
			case 1: // wrong length prefix
				misframed = true
				b := h.body()
				write(append(pub.U32(uint32(r.Intn(2*len(b)+10))), b...))
			case 2: // not this protocol at all
				misframed = true
				write([]byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n"))
			case 3:
				misframed = true
				write(randBytes(r, 1+r.Intn(500)))
			default:
				if !write(frame(h.body())) {
					break loop
				}
			}
		}
		s.con.Frag, s.con.Delay = nil, nil
		alive := false
		if misframed {
			// The stream may be anywhere inside a supposed packet: the peer gives up.
			time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
			s.con.Close()
			if s.terms == 0 {
				s.terms = 1
			}
			if !vf.WaitFor(limit, func() bool { _, term := s.counts(); return term >= s.terms }) {
				t.Fatalf("a misframed connection that the peer closed was not reported as terminated; errors: %q", s.errors())
			}
			t.Count("misframed_streams", 1)
		} else if alive = s.settle(); alive {
			t.Count("connections_continued", 1)
		} else {
			t.Count("connections_terminated", 1)
		}
		runtime.ReadMemStats(&m1)
		t.Max("allocated_bytes", int(m1.TotalAlloc-m0.TotalAlloc))
		if grew, allowed := m1.TotalAlloc-m0.TotalAlloc, uint64(96<<20)+2000*uint64(sent); grew > allowed {
			t.Failf("%d hostile bytes made the process allocate %d bytes", sent, grew)
		}
		if us != nil {
			us.c.Close()
		}
		// The subscriber still works with a healthy publisher.
		drop()
		s.mu.Lock()
		s.batches, s.nmeas = nil, 0
		s.mu.Unlock()
		s.cfg.Version = 2
		connect(true)
		set.UdpPort = 0
		s.subscribe("FILTER X WHERE True", set)
		s.sendSIC(sic, 0)
		s.mu.Lock()
		s.batches, s.nmeas = nil, 0
		s.mu.Unlock()
		g := &compactGen{r: r, sic: [2]*pub.SIC{sic, nil}, includeTime: true, ms: set.UseMillisecondResolution}
		p, m := g.packet(1 + r.Intn(30))
		must(s.con.Send(pub.RespDataPacket, pub.CmdSubscribe, p))
		ts := newTsscStream(r, 0, sic)
		p, m2 := ts.packet(1 + r.Intn(30))
		must(s.con.Send(pub.RespDataPacket, pub.CmdSubscribe, p))
		s.sync()
		s.compare(append(m, m2...))
		s.close()
		s.con.Close()
		quiesce(t, base)
		t.SigHash(hash(sigb))
		if t.Idx < 2 {
			t.Sample("case %d: state %d, %d hostile bytes, misframed %v, udp %v, reverse %v, connection continued %v", t.Idx, state, sent, misframed, udp, listen, alive)
		}
	},
	Done: schedDone,
}
