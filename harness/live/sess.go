package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"sync"
	"time"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/transport"
	"github.com/sttp/goapi/sttp/verifsched"

	"verif/harness/pub"
	"verif/harness/vf"
)

const limit = 40 * time.Second

var sites, _ = strconv.Atoi(os.Getenv("VERIF_SITES"))

// perturb selects a schedule perturbation profile for this case.
func perturb(t *vf.T) {
	if sites == 0 {
		return
	}
	r := t.R
	seed := r.Uint64()
	switch r.Intn(6) {
	case 0:
		verifsched.Off()
	case 1: // yields everywhere
		verifsched.Configure(seed, 20000, 0, 0, 0, 0, 0, 0, sites)
	case 2: // short sleeps
		verifsched.Configure(seed, 6000, 300, 20, 500, 0, 0, 0, sites)
	case 3: // a few hot sites with long sleeps
		verifsched.Configure(seed, 2000, 0, 0, 0, 40, 40000, 3000, sites)
	case 4:
		verifsched.Configure(seed, 500, 0, 0, 0, 12, 65000, 20000, sites)
	case 5: // rare long sleeps anywhere
		verifsched.Configure(seed, 3000, 100, 60, 6000, 0, 0, 0, sites)
	}
}

// gentle selects only yielding profiles, for data-heavy cases.
func gentle(t *vf.T) {
	if sites == 0 {
		return
	}
	if t.R.Intn(2) == 0 {
		verifsched.Off()
	} else {
		verifsched.Configure(t.R.Uint64(), 3000, 0, 0, 0, 0, 0, 0, sites)
	}
}

func schedDone(w *vf.Worker) {
	s, p := verifsched.Stats()
	w.T.Max("instrumented_sites_run_per_worker", s)
	w.T.Max("cross_function_site_pairs_per_worker", p)
	w.T.Count("schedule_points_passed", int(verifsched.Hits()))
}

// batch is one new-measurements callback, copied at call time.
type batch struct {
	seq int64
	m   []transport.Measurement
}

// sess is a subscriber under test plus a scripted publisher and a recorder of everything observable.
type sess struct {
	t   *vf.T
	srv *pub.Server
	sb  *sttp.Subscriber
	cfg *sttp.Config
	con *pub.Conn

	mu          sync.Mutex
	batches     []batch
	nmeas       int
	status      []string
	errs        []string
	announced   bool // the last connection report was of an established one
	established int
	terminated  int
	caches      []*transport.SignalIndexCache

	pool      bool // hand slices back to the pool
	hold      int  // so many slices are kept, before they are handed back
	held      []*[]transport.Measurement
	copies    [][]transport.Measurement
	onMeas    func(m []transport.Measurement)
	onEst     func()
	onTerm    func()
	noAuto    bool        // do not accept operational modes automatically
	noReports bool        // the established receiver is replaced
	port      int         // port of a listening subscriber, 0 when it dials and -1 when it must
	listens   sttp.Config // configuration it listens with
	sicSent   int
	terms     int // termination reports expected after the current connection ends
}

func newSess(t *vf.T) *sess {
	s := &sess{t: t, cfg: sttp.NewConfig()}
	s.hold = []int{0, 0, 1, 2, 5, 40}[t.R.Intn(6)]
	s.cfg.AutoReconnect = false
	s.cfg.AutoRequestMetadata = false
	s.cfg.AutoSubscribe = false
	s.sb = sttp.NewSubscriber()
	sb := s.sb
	sb.SetStatusMessageLogger(func(m string) { s.mu.Lock(); s.status = append(s.status, m); s.mu.Unlock() })
	sb.SetErrorMessageLogger(func(m string) { s.mu.Lock(); s.errs = append(s.errs, m); s.mu.Unlock() })
	sb.SetConnectionEstablishedReceiver(func() {
		s.mu.Lock()
		s.established++
		s.announced = true
		f := s.onEst
		s.mu.Unlock()
		if f != nil {
			f()
		}
	})
	sb.SetConnectionTerminatedReceiver(func() {
		s.mu.Lock()
		s.terminated++
		s.announced = false
		f := s.onTerm
		s.mu.Unlock()
		if f != nil {
			f()
		}
	})
	sb.SetNewMeasurementsReceiver(s.measurements)
	sb.SetSubscriptionUpdatedReceiver(func(c *transport.SignalIndexCache) { s.mu.Lock(); s.caches = append(s.caches, c); s.mu.Unlock() })
	return s
}

func (s *sess) measurements(m *[]transport.Measurement) {
	s.mu.Lock()
	s.batches = append(s.batches, batch{pub.NextSeq(), append([]transport.Measurement(nil), *m...)})
	s.nmeas += len(*m)
	f := s.onMeas
	s.mu.Unlock()
	if f != nil {
		f(*m)
	}
	s.mu.Lock()
	s.held, s.copies = append(s.held, m), append(s.copies, append([]transport.Measurement(nil), *m...))
	var back []*[]transport.Measurement
	for len(s.held) > s.hold {
		s.unchanged(0)
		back = append(back, s.held[0])
		s.held, s.copies = s.held[1:], s.copies[1:]
	}
	s.mu.Unlock()
	if s.pool {
		for _, m := range back {
			for i := range *m {
				(*m)[i] = transport.Measurement{Value: -12345, Timestamp: 1}
			}
			s.sb.PutMeasurementSlice(m)
		}
	}
}

// unchanged checks that a slice still has the measurements it was delivered with.
func (s *sess) unchanged(i int) {
	now, then := *s.held[i], s.copies[i]
	if len(now) != len(then) {
		s.t.Failf("a batch of %d measurements that the receiver kept now has %d", len(then), len(now))
		return
	}
	for j := range now {
		if a, b := now[j], then[j]; a.SignalID != b.SignalID || math.Float64bits(a.Value) != math.Float64bits(b.Value) || a.Timestamp != b.Timestamp || a.Flags != b.Flags {
			s.t.Failf("a measurement that the receiver kept changed from %s to %s", describe(b), describe(a))
			return
		}
	}
}

func (s *sess) all() []transport.Measurement {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []transport.Measurement
	for _, b := range s.batches {
		out = append(out, b.m...)
	}
	return out
}

func (s *sess) count() int { s.mu.Lock(); defer s.mu.Unlock(); return s.nmeas }

func (s *sess) errors() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.errs...)
}

func (s *sess) statuses() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.status...)
}

func (s *sess) counts() (est, term int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.established, s.terminated
}

func (s *sess) server() {
	if s.srv != nil {
		return
	}
	srv, err := pub.NewServer()
	if err != nil {
		vf.Harnessf("listen: %v", err)
	}
	s.srv = srv
	if !s.noAuto {
		srv.Auto(func(k *pub.Conn) { autoAccept(k) })
	}
}

func autoAccept(k *pub.Conn) {
	if k.WaitFrames(pub.CmdDefineOpModes, 1, limit) {
		_ = k.Accept()
	}
}

// dial connects the subscriber and waits until the session is validated. In some sessions the subscriber listens and the
// publisher connects instead.
func (s *sess) dial() *pub.Conn {
	if s.port == 0 && s.srv == nil && s.t.R.Intn(5) == 0 {
		s.port = freePort(s.t, false)
	}
	if s.port > 0 {
		return s.reverse()
	}
	s.server()
	if err := s.sb.Dial(s.srv.Addr(), s.cfg); err != nil {
		s.t.Fatalf("dial to a listening publisher failed: %v", err)
	}
	s.con = s.srv.NextConn(limit)
	if s.con == nil {
		s.t.Fatalf("dial succeeded but the publisher saw no connection")
	}
	s.awaitReady()
	return s.con
}

func (s *sess) reverse() *pub.Conn {
	if !vf.WaitFor(limit, func() bool { e, m := s.counts(); return e == m && !s.sb.IsConnected() }) {
		e, m := s.counts()
		s.t.Fatalf("%d connections reported as established and %d as terminated, connected %v", e, m, s.sb.IsConnected())
	}
	if s.sb.IsListening() && (s.cfg == nil || !reflect.DeepEqual(s.listens, *s.cfg) || s.t.R.Intn(2) == 0) {
		s.sb.Disconnect()
	}
	if !s.sb.IsListening() {
		if err := s.sb.Listen(fmt.Sprintf("127.0.0.1:%d", s.port), s.cfg); err != nil {
			s.t.Fatalf("listening failed: %v", err)
		}
		if s.cfg != nil {
			s.listens = *s.cfg
		}
	}
	if s.con != nil {
		s.con.Close()
	}
	before, _ := s.counts()
	s.con = call(s.t, s.port)
	if !s.noAuto {
		go autoAccept(s.con)
	}
	s.t.Count("reverse_connections", 1)
	s.awaitReady()
	// The report comes from the accepting thread, which can be later than the first responses.
	if !s.noReports && !vf.WaitFor(limit, func() bool { e, _ := s.counts(); return e > before }) {
		s.t.Fatalf("the connection of a publisher was not reported; errors: %q", s.errors())
	}
	return s.con
}

// awaitReady waits until the publisher's acceptance has been processed.
func (s *sess) awaitReady() {
	if s.noAuto {
		return
	}
	if !s.con.WaitFrames(pub.CmdDefineOpModes, 1, limit) {
		s.t.Fatalf("no operational modes frame after connecting")
	}
	if !vf.WaitFor(limit, s.sb.IsValidated) {
		s.t.Fatalf("session was not validated")
	}
}

// sendSIC publishes a cache and waits for its confirmation.
func (s *sess) sendSIC(c *pub.SIC, slot byte) {
	before := s.con.CountOf(pub.CmdConfirmSIC)
	must(s.con.Send(pub.RespUpdateSIC, pub.CmdSubscribe, c.Payload(int(s.cfg.Version), slot, !s.cfg.RfcGuidEncoding, s.cfg.CompressSignalIndexCache)))
	if s.cfg.Version < 2 {
		s.t.Logf("version 1: no confirmation")
		s.sync()
		return
	}
	if !s.con.WaitFrames(pub.CmdConfirmSIC, before+1, limit) {
		s.t.Fatalf("signal index cache was not confirmed; errors: %q", s.errors())
	}
}

// sync makes sure that everything sent so far has been processed: a notification is confirmed in order.
func (s *sess) sync() {
	if !syncConn(s.con) {
		s.t.Fatalf("subscriber stopped processing responses: no confirmation of a notification; errors: %q", s.errors())
	}
}

var syncID = uint32(0x70000000)

func syncConn(k *pub.Conn) bool {
	id := uint32(pub.NextSeq()) | 0x70000000
	if err := k.Send(pub.RespNotify, 0, append(pub.U32(id), []byte("sync")...)); err != nil {
		return false
	}
	confirmed := func() bool {
		for _, f := range k.FramesOf(pub.CmdConfirmNotify) {
			if string(f.Payload) == string(pub.U32(id)) {
				return true
			}
		}
		return false
	}
	vf.WaitFor(limit, func() bool { return confirmed() || k.PeerClosed() })
	return confirmed()
}

// close shuts everything down and requires that it completes.
func (s *sess) close() {
	verifsched.Off()
	done := make(chan struct{})
	go func() { s.sb.Close(); close(done) }()
	select {
	case <-done:
	case <-time.After(limit):
		s.t.Failf("close of the subscriber did not complete")
	}
	if s.srv != nil {
		s.srv.Close()
	}
	if s.port > 0 && s.con != nil {
		s.con.Close()
	}
}

// must requires that the subscriber took what the publisher sent.
func must(err error) { vf.Sent(err) }

// works requires a step of the harness itself to succeed.
func works(err error) {
	if err != nil {
		vf.Harnessf("publisher side: %v", err)
	}
}

func libGuid(g pub.Guid) guid.Guid { return guid.Guid(g) }

// randSIC makes a cache with n signals and distinct runtime IDs of varied shapes.
func randSIC(r *rand.Rand, n int) *pub.SIC {
	c := &pub.SIC{Subscriber: pub.RandGuid(r)}
	used := map[int32]bool{}
	mode := r.Intn(5)
	base := int32(r.Intn(1000))
	for i := 0; i < n; i++ {
		var idx int32
		for {
			switch mode {
			case 0:
				idx = int32(i)
			case 1:
				idx = base + int32(i)
			case 2:
				idx = int32(r.Uint32())
			case 3:
				idx = int32(r.Intn(1 << uint(1+r.Intn(31))))
			default:
				idx = base + int32(r.Intn(4*n+8))
			}
			if !used[idx] {
				break
			}
			if mode == 0 || mode == 1 {
				vf.Harnessf("duplicate index")
			}
		}
		used[idx] = true
		src := "S" + strconv.Itoa(r.Intn(10))
		if r.Intn(6) == 0 {
			src = randText(r, r.Intn(40))
		}
		c.Records = append(c.Records, pub.SICRecord{Index: idx, ID: pub.RandGuid(r), Source: src, Num: randU64(r)})
	}
	return c
}

func randU64(r *rand.Rand) uint64 {
	switch r.Intn(4) {
	case 0:
		return uint64(r.Intn(100))
	case 1:
		return r.Uint64()
	case 2:
		return math.MaxUint64 - uint64(r.Intn(3))
	default:
		return uint64(r.Uint32())
	}
}

func randText(r *rand.Rand, n int) string {
	const runes = "abcXYZ 019_-:;!é漢ß\"'<>&{}=/\\\t"
	rs := []rune(runes)
	out := make([]rune, n)
	for i := range out {
		out[i] = rs[r.Intn(len(rs))]
	}
	return string(out)
}

// same compares a delivered measurement with a published one.
func same(got transport.Measurement, want pub.Meas) bool {
	return got.SignalID == libGuid(want.ID) &&
		math.Float64bits(got.Value) == math.Float64bits(float64(math.Float32frombits(want.Value))) &&
		uint64(got.Timestamp) == want.Time && uint32(got.Flags) == want.Flags
}

func describe(m transport.Measurement) string {
	return fmt.Sprintf("{id %v val %#x time %#x flags %#x}", m.SignalID, math.Float32bits(float32(m.Value)), uint64(m.Timestamp), uint32(m.Flags))
}

// compare checks the delivered sequence against the published one.
func (s *sess) compare(want []pub.Meas) {
	got := s.all()
	s.mu.Lock()
	for i := range s.held {
		s.unchanged(i)
	}
	s.mu.Unlock()
	for i := range want {
		if i >= len(got) {
			s.t.Fatalf("only %d of %d published measurements were delivered; first missing %v; errors: %q", len(got), len(want), want[i], s.errors())
		}
		if !same(got[i], want[i]) {
			s.t.Fatalf("measurement %d of %d: published %v, delivered %s", i, len(want), want[i], describe(got[i]))
		}
	}
	if len(got) > len(want) {
		s.t.Fatalf("%d measurements delivered but only %d published; extra: %s", len(got), len(want), describe(got[len(want)]))
	}
	s.t.Count("measurements_compared", len(want))
}
