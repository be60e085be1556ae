package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/data"

	"verif/harness/pub"
	"verif/harness/vf"
)

// parseKV splits a key=value;... string, honouring braces.
func parseKV(s string) (map[string]string, []string, error) {
	out := map[string]string{}
	var keys []string
	depth, start := 0, 0
	add := func(part string) error {
		if part == "" {
			return nil
		}
		i := strings.IndexByte(part, '=')
		if i < 0 {
			return fmt.Errorf("no value in %q", part)
		}
		k, v := strings.ToLower(strings.TrimSpace(part[:i])), part[i+1:]
		if strings.HasPrefix(v, "{") && strings.HasSuffix(v, "}") {
			v = v[1 : len(v)-1]
		}
		if _, dup := out[k]; dup {
			return fmt.Errorf("key %q repeated", k)
		}
		out[k] = v
		keys = append(keys, k)
		return nil
	}
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '{':
			depth++
		case '}':
			depth--
		case ';':
			if depth == 0 {
				if err := add(s[start:i]); err != nil {
					return nil, nil, err
				}
				start = i + 1
			}
		}
	}
	if depth != 0 {
		return nil, nil, fmt.Errorf("unbalanced braces")
	}
	if err := add(s[start:]); err != nil {
		return nil, nil, err
	}
	return out, keys, nil
}

func plainText(r *rand.Rand, n int) string {
	const chars = "abcdefXYZ0123456789 -:._/+*é漢"
	rs := []rune(chars)
	out := make([]rune, n)
	for i := range out {
		out[i] = rs[r.Intn(len(rs))]
	}
	return strings.TrimSpace(string(out))
}

func randFilter(r *rand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return ""
	case 1:
		return "FILTER ActiveMeasurements WHERE SignalType = 'FREQ' ORDER BY Device; PPA:15; STAT:20"
	case 2:
		return "{38A47B0F-F10B-4143-9A0A-0DBC4FFEF1E8}; e4bbfe6a-35bd-4e5b-92c9-11ff913e7877"
	case 3:
		return "FILTER TOP 5 X WHERE A LIKE '%;=x%'"
	case 4:
		return strings.Repeat("DOM_GPLAINS-BUS1:VH;", 1+r.Intn(3000))
	default:
		return plainText(r, 1+r.Intn(60))
	}
}

func randSettings(t *vf.T, udp bool) *sttp.Settings {
	r := t.R
	s := sttp.NewSettings()
	dec := func() float64 { return math.Round(r.Float64()*math.Pow(10, float64(r.Intn(6)))*1e6) / 1e6 }
	s.Throttled = r.Intn(2) == 0
	s.PublishInterval = dec()
	s.IncludeTime = r.Intn(2) == 0
	s.EnableTimeReasonabilityCheck = r.Intn(2) == 0
	s.LagTime, s.LeadTime = dec(), dec()
	s.UseLocalClockAsRealTime = r.Intn(2) == 0
	s.UseMillisecondResolution = r.Intn(2) == 0
	s.RequestNaNValueFilter = r.Intn(2) == 0
	s.ProcessingInterval = []int32{-1, 0, 1, 33, math.MaxInt32, math.MinInt32, int32(r.Uint32())}[r.Intn(7)]
	if r.Intn(2) == 0 {
		s.StartTime = plainText(r, r.Intn(20))
	}
	if r.Intn(2) == 0 {
		s.StopTime = plainText(r, r.Intn(20))
	}
	if r.Intn(2) == 0 {
		s.ConstraintParameters = plainText(r, r.Intn(20))
	}
	if r.Intn(2) == 0 {
		s.ExtraConnectionStringParameters = fmt.Sprintf("extraKey=%s;other={a=1;b=%d}", plainText(r, 1+r.Intn(10)), r.Intn(100))
	}
	if udp {
		s.UdpPort = uint16(freePort(t, true))
	}
	return s
}

// checkSubscribe compares a subscribe frame with the settings it must carry.
func checkSubscribe(t *vf.T, f pub.Frame, filter string, set *sttp.Settings) {
	p := f.Payload
	if len(p) < 5 || p[0] != pub.FlagCompact || int(binary.BigEndian.Uint32(p[1:])) != len(p)-5 {
		t.Fatalf("subscribe frame of %d bytes is malformed: %x", len(p), p[:min(len(p), 16)])
	}
	kv, keys, err := parseKV(string(p[5:]))
	if err != nil {
		t.Fatalf("subscribe parameters can not be parsed: %v in %q", err, string(p[5:]))
	}
	if set == nil {
		set = &usualSettings
	}
	want := map[string]string{}
	b := func(k string, v bool) { want[k] = strconv.FormatBool(v) }
	opt := func(k, v string) {
		if v != "" {
			want[k] = v
		}
	}
	b("throttled", set.Throttled)
	b("includetime", set.IncludeTime)
	b("enabletimereasonabilitycheck", set.EnableTimeReasonabilityCheck)
	b("uselocalclockasrealtime", set.UseLocalClockAsRealTime)
	b("usemillisecondresolution", set.UseMillisecondResolution)
	b("requestnanvaluefilter", set.RequestNaNValueFilter)
	want["processinginterval"] = strconv.Itoa(int(set.ProcessingInterval))
	opt("filterexpression", filter)
	opt("starttimeconstraint", set.StartTime)
	opt("stoptimeconstraint", set.StopTime)
	opt("timeconstraintparameters", set.ConstraintParameters)
	if set.UdpPort > 0 {
		want["datachannel"] = fmt.Sprintf("localport=%d", set.UdpPort)
	}
	if set.ExtraConnectionStringParameters != "" {
		extra, _, err := parseKV(set.ExtraConnectionStringParameters)
		if err != nil {
			vf.Harnessf("extra parameters: %v", err)
		}
		for k, v := range extra {
			want[k] = v
		}
	}
	for k, v := range map[string]float64{"publishinterval": set.PublishInterval, "lagtime": set.LagTime, "leadtime": set.LeadTime} {
		got, err := strconv.ParseFloat(kv[k], 64)
		if err != nil || math.Abs(got-v) > 1e-6 {
			t.Failf("setting %s is %v, request carries %q", k, v, kv[k])
		}
		delete(kv, k)
	}
	for k, v := range want {
		got, ok := kv[k]
		if !ok {
			t.Failf("request does not carry %s=%q (keys %v)", k, v, keys)
		} else if got != v {
			t.Failf("setting %s is %q, request carries %q", k, v, got)
		}
		delete(kv, k)
	}
	info, _, err := parseKV(kv["assemblyinfo"])
	if err != nil || info["source"] == "" || info["version"] == "" || info["updatedon"] == "" {
		t.Failf("request carries no identification: %q", kv["assemblyinfo"])
	}
	delete(kv, "assemblyinfo")
	for k, v := range kv {
		t.Failf("request carries unconfigured %s=%q", k, v)
	}
	t.Count("subscribe_requests_checked", 1)
	t.Eval(1)
}

// opModes computes the announcement due for a configuration.
func opModes(c *sttp.Config, udp bool) uint32 {
	m := uint32(c.Version) | 0x200
	if c.Version < 10 {
		m |= 0x20
	}
	if c.CompressPayloadData && !udp {
		m |= 0x20000000
		if c.Version < 10 {
			m |= 0x40
		}
	}
	if c.CompressMetadata {
		m |= 0x80000000
	}
	if c.CompressSignalIndexCache {
		m |= 0x40000000
	}
	return m
}

func checkOpModes(t *vf.T, k *pub.Conn, c *sttp.Config, udp bool) {
	f := k.Frames()[0]
	if f.Cmd != pub.CmdDefineOpModes || len(f.Payload) != 4 {
		t.Fatalf("first frame is %v, not the operational modes", f)
	}
	if got := binary.BigEndian.Uint32(f.Payload); got != opModes(c, udp) {
		t.Failf("operational modes announced %#08x, configuration means %#08x (%+v, udp %v)", got, opModes(c, udp), *c, udp)
	}
	if n := k.CountOf(pub.CmdDefineOpModes); n != 1 {
		t.Failf("operational modes were announced %d times", n)
	}
	t.Count("announcements_checked", 1)
	t.Eval(1)
}

func checkMetaRequest(t *vf.T, f pub.Frame, filters string) {
	want := ""
	if filters != "" {
		want = string(pub.U32(uint32(len(filters)))) + filters
	}
	if string(f.Payload) != want {
		t.Failf("metadata request carries %q, configured filters %q", f.Payload, filters)
	}
	t.Count("metadata_requests_checked", 1)
	t.Eval(1)
}

func randConfig(r *rand.Rand) *sttp.Config {
	c := sttp.NewConfig()
	c.AutoReconnect = false
	c.AutoRequestMetadata = r.Intn(2) == 0
	c.AutoSubscribe = r.Intn(2) == 0
	c.CompressMetadata = r.Intn(2) == 0
	c.CompressPayloadData = r.Intn(2) == 0
	c.CompressSignalIndexCache = r.Intn(2) == 0
	c.RfcGuidEncoding = r.Intn(2) == 0
	c.Version = byte([]int{1, 2, 2, 2, 3, 9, 10, 11, 31, 255}[r.Intn(10)])
	if r.Intn(2) == 0 {
		c.MetadataFilters = "FILTER MeasurementDetail WHERE SignalAcronym <> 'STAT'; " + plainText(r, r.Intn(40))
		switch r.Intn(6) {
		case 0:
			c.MetadataFilters = strings.Repeat(" ", 1+r.Intn(3))
		case 1:
			c.MetadataFilters = " " + c.MetadataFilters + "\n "
		}
	}
	return c
}

// What a user gets who configures nothing.
var (
	usualConfig = sttp.Config{MaxRetries: -1, RetryInterval: 1000, MaxRetryInterval: 30000, AutoReconnect: true, AutoRequestMetadata: true,
		AutoSubscribe: true, CompressPayloadData: true, CompressMetadata: true, CompressSignalIndexCache: true, Version: 2, RfcGuidEncoding: true}
	usualSettings = sttp.Settings{PublishInterval: 1, IncludeTime: true, ProcessingInterval: -1, LagTime: 10, LeadTime: 5}
)

// unconfigured connects without any configuration.
func unconfigured(t *vf.T) {
	s := newSess(t)
	defer s.close()
	if c, u := sttp.NewConfig(), usualConfig; c.MaxRetries != u.MaxRetries || c.RetryInterval != u.RetryInterval || c.MaxRetryInterval != u.MaxRetryInterval ||
		!c.AutoReconnect || !c.AutoRequestMetadata || !c.AutoSubscribe || opModes(c, false) != opModes(&u, false) || !c.RfcGuidEncoding || c.MetadataFilters != "" {
		t.Fatalf("a new configuration is %+v, documented %+v", *c, u)
	}
	s.cfg = nil
	s.dial()
	s.cfg = &usualConfig
	checkOpModes(t, s.con, s.cfg, false)
	if !s.con.WaitFrames(pub.CmdMetadataRefresh, 1, limit) {
		t.Fatalf("no automatic metadata request without configuration")
	}
	checkMetaRequest(t, s.con.FramesOf(pub.CmdMetadataRefresh)[0], "")
	must(s.con.Send(pub.RespSucceeded, pub.CmdMetadataRefresh, pub.Gzip([]byte(metaXML))))
	if !s.con.WaitFrames(pub.CmdSubscribe, 1, limit) {
		t.Fatalf("no automatic subscription without configuration")
	}
	checkSubscribe(t, s.con.FramesOf(pub.CmdSubscribe)[0], "", nil)
	sic := randSIC(t.R, 1+t.R.Intn(5))
	s.sendSIC(sic, 0)
	g := &compactGen{r: t.R, sic: [2]*pub.SIC{sic, nil}, includeTime: true}
	p, m := g.packet(1 + t.R.Intn(20))
	must(s.con.Send(pub.RespDataPacket, pub.CmdSubscribe, p))
	s.sync()
	s.compare(m)
	s.idle()
	t.Count("unconfigured_connections", 1)
}

var c07 = &vf.Prop{
	ID: "C07",
	Rule: "each case connects (by dialling or being dialled) with generated configurations, subscribes before and after connecting with changing " +
		"settings and requests metadata; every announcement, subscribe and metadata request frame is parsed and compared with the " +
		"configuration; distinct_nontrivial counts different request frames",
	Quick: 1500, Thorough: 30000,
	Case: func(t *vf.T) {
		gentle(t)
		r := t.R
		if r.Intn(15) == 0 {
			unconfigured(t)
			return
		}
		s := newSess(t)
		defer s.close()
		var metaSeen int64
		s.sb.SetMetadataReceiver(func(*data.DataSet) { atomic.AddInt64(&metaSeen, 1) })
		metaSent := int64(0)
		filter, set := "", (*sttp.Settings)(nil)
		udp := false
		conns := 1 + r.Intn(3)
		for c := 0; c < conns; c++ {
			s.cfg = randConfig(r)
			if r.Intn(3) == 0 {
				filter, udp = randFilter(r), r.Intn(5) == 0
				set = randSettings(t, udp)
				s.sb.Subscribe(filter, set) // used once connected
			}
			s.con = nil
			if r.Intn(4) == 0 {
				port := freePort(t, false)
				if err := s.sb.Listen(fmt.Sprintf("127.0.0.1:%d", port), s.cfg); err != nil {
					t.Fatalf("listen failed: %v", err)
				}
				k, err := pub.Dial(port)
				must(err)
				defer k.Close()
				s.con = k
				if k.WaitFrames(pub.CmdDefineOpModes, 1, limit) {
					must(k.Accept())
				}
				s.awaitReady()
			} else {
				s.port = -1
				s.dial()
			}
			k := s.con
			checkOpModes(t, k, s.cfg, udp)
			subs, metas := 0, 0
			if s.cfg.AutoRequestMetadata {
				metas++
				if !k.WaitFrames(pub.CmdMetadataRefresh, metas, limit) {
					t.Fatalf("no automatic metadata request")
				}
				checkMetaRequest(t, k.FramesOf(pub.CmdMetadataRefresh)[0], s.cfg.MetadataFilters)
				s.sync()
				if k.CountOf(pub.CmdSubscribe) != 0 {
					t.Failf("subscribed before the requested metadata arrived")
				}
				p := []byte(metaXML)
				if s.cfg.CompressMetadata {
					p = pub.Gzip(p)
				}
				must(k.Send(pub.RespSucceeded, pub.CmdMetadataRefresh, p))
				// Processing must not be under way any more when the next connection starts.
				metaSent++
				if !vf.WaitFor(limit, func() bool { return atomic.LoadInt64(&metaSeen) >= metaSent }) {
					t.Fatalf("metadata was not delivered")
				}
			}
			if s.cfg.AutoSubscribe {
				subs++
				if !k.WaitFrames(pub.CmdSubscribe, subs, limit) {
					t.Fatalf("no automatic subscription (metadata request %v)", s.cfg.AutoRequestMetadata)
				}
				checkSubscribe(t, k.FramesOf(pub.CmdSubscribe)[0], filter, set)
			}
			for i := 0; i < r.Intn(5); i++ {
				switch r.Intn(3) {
				case 0:
					metas++
					s.sb.RequestMetadata()
					if !k.WaitFrames(pub.CmdMetadataRefresh, metas, limit) {
						t.Fatalf("metadata request did not arrive")
					}
					checkMetaRequest(t, k.FramesOf(pub.CmdMetadataRefresh)[metas-1], s.cfg.MetadataFilters)
				default:
					filter, udp = randFilter(r), r.Intn(6) == 0
					set = randSettings(t, udp)
					if r.Intn(6) == 0 {
						set, udp = nil, false
					}
					s.sb.Subscribe(filter, set)
					subs++
					if !k.WaitFrames(pub.CmdSubscribe, subs, limit) {
						t.Fatalf("subscribe request did not arrive; errors: %q", s.errors())
					}
					checkSubscribe(t, k.FramesOf(pub.CmdSubscribe)[subs-1], filter, set)
					if r.Intn(2) == 0 {
						must(k.Send(pub.RespSucceeded, pub.CmdSubscribe, []byte("ok")))
						s.sync()
					}
				}
			}
			s.sync()
			for _, f := range k.Frames() {
				if f.Cmd == pub.CmdSubscribe || f.Cmd == pub.CmdMetadataRefresh || f.Cmd == pub.CmdDefineOpModes {
					t.SigHash(hash(append([]byte{f.Cmd}, f.Payload...)))
				}
			}
			if n := k.CountOf(pub.CmdSubscribe); n != subs {
				t.Failf("%d subscribe requests arrived, %d were due", n, subs)
			}
			if n := k.CountOf(pub.CmdMetadataRefresh); n != metas {
				t.Failf("%d metadata requests arrived, %d were due", n, metas)
			}
			if t.Failed() {
				return
			}
			s.idle()
			s.hangUp()
			if !vf.WaitFor(limit, func() bool { return !s.sb.IsListening() }) {
				t.Fatalf("still listening after disconnect")
			}
		}
		if t.Idx < 1 {
			t.Sample("case %d: %d connections, last filter %q", t.Idx, conns, filter[:min(len(filter), 60)])
		}
	},
	Done: schedDone,
}
