package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/sttp/goapi/sttp"

	"verif/harness/pub"
	"verif/harness/vf"
)

// compactGen produces compact data packets for the current settings of a session.
type compactGen struct {
	r           *rand.Rand
	sic         [2]*pub.SIC
	base        [2]int64
	baseTI      uint32
	includeTime bool
	ms          bool
	keys        *pub.Keys
}

func (g *compactGen) newBase() []byte {
	r := g.r
	g.baseTI = uint32(r.Intn(2))
	if r.Intn(4) == 0 {
		g.baseTI = r.Uint32()
	}
	for i := range g.base {
		switch r.Intn(8) {
		case 0:
			g.base[i] = 1 + r.Int63n(1000)
		case 1:
			g.base[i] = 0x3FFFFFFFFFFFFFFF - r.Int63n(1<<40) - 1<<40
		default:
			g.base[i] = 637500000000000000 + r.Int63n(1e16)
		}
	}
	return pub.BaseTimes(g.baseTI, g.base[0], g.base[1])
}

func (g *compactGen) meas(b *bytes.Buffer, slot int) pub.Meas {
	r := g.r
	sic := g.sic[slot]
	rec := sic.Records[r.Intn(len(sic.Records))]
	var v uint32
	switch r.Intn(4) {
	case 0:
		v = pub.F32(float32(r.NormFloat64() * 100))
	case 1:
		v = []uint32{0, 0x80000000, 0x7F800000, 0xFF800000, 0x7FC00000, 1, 0x007FFFFF, 0x7F7FFFFF, 0x3F800000}[r.Intn(9)]
	default:
		v = r.Uint32()
	}
	f8 := byte(r.Intn(64))
	if r.Intn(3) == 0 {
		f8 = []byte{0, 1, 2, 4, 8, 0x10, 0x20, 0x3F}[r.Intn(8)]
	}
	m := pub.Meas{Index: rec.Index, ID: rec.ID, Value: v, Flags: pub.FullFlags(f8)}
	ti := r.Intn(2)
	if !g.includeTime {
		// without time it does not matter how a time would have been written
		pub.Compact(b, f8|byte(r.Intn(2)<<6), rec.Index, v, pub.TimeNone, ti, 0, 0)
		return m
	}
	if g.base[ti] > 0 && r.Intn(4) != 0 {
		if g.ms {
			off := uint32([]int{0, 1, 65535, 65534, r.Intn(65536), r.Intn(65536)}[r.Intn(6)])
			m.Time = uint64(g.base[ti] + int64(off)*10000)
			pub.Compact(b, f8, rec.Index, v, pub.TimeMs, ti, 0, off)
		} else {
			off := []uint32{0, 1, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, r.Uint32(), r.Uint32()}[r.Intn(7)]
			m.Time = uint64(g.base[ti] + int64(off))
			pub.Compact(b, f8, rec.Index, v, pub.TimeTick, ti, 0, off)
		}
		return m
	}
	m.Time = r.Uint64()
	if r.Intn(2) == 0 {
		m.Time = uint64(637500000000000000+r.Int63n(1e16)) | uint64(r.Intn(4))<<62
	}
	pub.Compact(b, f8, rec.Index, v, pub.TimeFull, ti, m.Time, 0)
	return m
}

// packet makes one data packet payload with n measurements.
func (g *compactGen) packet(n int) ([]byte, []pub.Meas) {
	slot := 0
	if g.sic[0] == nil || g.sic[1] != nil && g.r.Intn(2) == 1 {
		slot = 1
	}
	var b bytes.Buffer
	var out []pub.Meas
	for i := 0; i < n; i++ {
		out = append(out, g.meas(&b, slot))
	}
	flags := byte(pub.FlagCompact)
	if slot == 1 {
		flags |= pub.FlagCacheIndex
	}
	if g.r.Intn(8) == 0 {
		flags |= pub.FlagSync
	}
	return pub.DataPacket(flags, n, b.Bytes(), g.keys, g.r.Intn(2)), out
}

var (
	portCounter int64
	portBase    int
	portAnchor  net.Listener
)

const portWindow = 200

// freePort picks a port from a range private to the process, below the ephemeral ports. The first port of a range is
// held while the process runs, so that parallel processes never share a range.
func freePort(t *vf.T, udp bool) int {
	if portAnchor == nil {
		for i, w := 0, os.Getpid()*7; i < 110 && portAnchor == nil; i++ {
			base := 10000 + (w+i)%110*portWindow
			if l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", base)); err == nil {
				portAnchor, portBase = l, base
			}
		}
		if portAnchor == nil {
			vf.Harnessf("no free range of ports")
		}
	}
	for i := 0; i < 3*portWindow; i++ {
		p := portBase + 1 + int(atomic.AddInt64(&portCounter, 1)%(portWindow-1))
		if udp {
			c, err := net.ListenPacket("udp", fmt.Sprintf(":%d", p))
			if err != nil {
				continue
			}
			c.Close()
		} else {
			l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
			if err != nil {
				continue
			}
			l.Close()
		}
		return p
	}
	vf.Harnessf("no free port")
	return 0
}

// subscribe issues a subscription and answers it.
func (s *sess) subscribe(filter string, set *sttp.Settings) {
	n := s.con.CountOf(pub.CmdSubscribe)
	s.sb.Subscribe(filter, set)
	s.acceptSubscribe(n + 1)
}

func (s *sess) acceptSubscribe(n int) {
	if !s.con.WaitFrames(pub.CmdSubscribe, n, limit) {
		s.t.Fatalf("no subscribe request arrived; errors: %q", s.errors())
	}
	must(s.con.Send(pub.RespSucceeded, pub.CmdSubscribe, []byte("Client subscribed")))
	if !vf.WaitFor(limit, s.sb.IsSubscribed) {
		s.t.Fatalf("not subscribed after the publisher confirmed the subscription")
	}
}

// udpSender sends datagrams to the subscriber's data channel.
type udpSender struct {
	c    net.Conn
	sent int
}

func dialUDP(port int) *udpSender {
	c, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", port))
	works(err)
	return &udpSender{c: c}
}

func (u *udpSender) send(resp, cmd byte, payload []byte) {
	n, err := u.c.Write(pub.Body(resp, cmd, payload))
	must(err)
	u.sent += n
}

// settle waits until the subscriber has either processed everything sent so far or reported the end of the
// connection; it tells whether the connection survived.
func (s *sess) settle() bool {
	_, before := s.counts()
	id := uint32(pub.NextSeq()) | 0x70000000
	_ = s.con.Send(pub.RespNotify, 0, append(pub.U32(id), []byte("settle")...))
	confirmed := func() bool {
		for _, f := range s.con.FramesOf(pub.CmdConfirmNotify) {
			if string(f.Payload) == string(pub.U32(id)) {
				return true
			}
		}
		return false
	}
	if s.terms == 0 {
		s.terms = 1
	}
	done := func() bool {
		_, term := s.counts()
		return confirmed() || term >= s.terms
	}
	if !vf.WaitFor(limit, done) {
		s.t.Fatalf("the connection neither continues nor is reported as terminated (%d terminations so far); errors: %q", before, s.errors())
	}
	_, term := s.counts()
	return term < s.terms
}

// hangUp ends the current connection from the subscriber side and waits until that is reported.
func (s *sess) hangUp() {
	if s.terms == 0 {
		s.terms = 1
	}
	s.sb.Disconnect()
	if !vf.WaitFor(limit, func() bool { _, term := s.counts(); return term >= s.terms && !s.sb.IsConnected() }) {
		s.t.Fatalf("disconnect did not report the end of the connection")
	}
	s.terms++
	s.con.Close()
}

// idle waits until no goroutine of the library has anything left to do: all of them, dispatched handlers that did not
// start yet included, are gone or wait for something.
func (s *sess) idle() {
	quiet := 0
	vf.WaitFor(10*time.Second, func() bool {
		if busy() {
			quiet = 0
		} else {
			quiet++
		}
		return quiet > 1
	})
}

func busy() bool {
	buf := make([]byte, 1<<19)
	buf = buf[:runtime.Stack(buf, true)]
	for i, g := range splitStacks(string(buf)) {
		if i == 0 || !containsLib(g) { // the first one is the caller
			continue
		}
		for _, state := range []string{"[running", "[runnable", "[sleep", "[syscall", "[GC ", "[preempted", "[copystack"} {
			if strings.Contains(g[:strings.IndexByte(g+"\n", '\n')], state) {
				return true
			}
		}
	}
	return false
}

func splitStacks(s string) []string { return strings.Split(s, "\n\n") }

// containsLib tells whether a goroutine was started by or runs code of the library, other than by a direct harness call.
func containsLib(g string) bool { return strings.Contains(g, "github.com/sttp/goapi") }
