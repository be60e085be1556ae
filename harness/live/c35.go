package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/transport"

	"verif/harness/pub"
	"verif/harness/vf"
)

// neighbour is one of several subscribers working at the same time.
type neighbour struct {
	*sess
	no     int
	set    *sttp.Settings
	filter string
	sic    *pub.SIC
	factor float64

	lock   sync.Mutex
	notes  []string
	blocks []transport.BufferBlock
	docs   []*data.DataSet

	want    []pub.Meas
	sent    []string
	packed  [][]byte
	tags    int
	metaReq int
	broken  error
}

// publish runs the publisher of one subscriber.
func (n *neighbour) publish(seed int64, steps int, stop *int32) {
	r := rand.New(rand.NewSource(seed))
	g := &compactGen{r: r, sic: [2]*pub.SIC{n.sic, nil}, includeTime: true, ms: n.set.UseMillisecondResolution}
	st := newTsscStream(r, 0, n.sic)
	if r.Intn(2) == 0 {
		n.con.RandomFrag(r.Int63())
	}
	for i := 0; i < steps && n.broken == nil && atomic.LoadInt32(stop) == 0; i++ {
		send := func(resp, cmd byte, p []byte) bool {
			n.broken = n.con.Send(resp, cmd, p)
			return n.broken == nil
		}
		switch r.Intn(11) {
		case 0, 1, 2:
			if g.keys != nil { // the stream is in clear
				continue
			}
			p, m := st.packet(1 + r.Intn(200))
			if send(pub.RespDataPacket, pub.CmdSubscribe, p) {
				n.want = append(n.want, m...)
			}
		case 3, 4:
			p, m := g.packet(1 + r.Intn(200))
			if send(pub.RespDataPacket, pub.CmdSubscribe, p) {
				n.want = append(n.want, m...)
			}
		case 5:
			m := fmt.Sprintf("note %d for %d", i, n.no)
			if send(pub.RespNotify, 0, append(pub.U32(uint32(i)), m...)) {
				n.sent = append(n.sent, m)
			}
		case 6:
			b := bytes.Repeat([]byte{byte(n.no*37 + i)}, 1+r.Intn(400))
			if send(pub.RespBufferBlock, pub.CmdSubscribe, pub.Block(2, uint32(len(n.packed)), 0, n.sic.Records[0].Index, b)) {
				n.packed = append(n.packed, b)
			}
		case 7:
			doc := strings.Replace(metaXML, "11111111-2222-3333-4444-555555555555", libGuid(n.sic.Records[0].ID).String(), 1)
			p := []byte(strings.Replace(doc, "T1", fmt.Sprintf("T%d", n.no), 1))
			if n.cfg.CompressMetadata {
				p = pub.Gzip(p)
			}
			if send(pub.RespSucceeded, pub.CmdMetadataRefresh, p) {
				n.tags++
			}
		case 8:
			n.sb.RequestMetadata()
			n.metaReq++
		case 9:
			keys := pub.RandKeys(r)
			if send(pub.RespCipherKeys, pub.CmdSubscribe, keys.Payload(byte(r.Intn(2)))) {
				g.keys = keys
			}
		case 10:
			send(pub.RespBaseTimes, pub.CmdSubscribe, g.newBase())
		}
	}
}

var c35 = &vf.Prop{
	ID: "C35",
	Rule: "each case runs two to five subscribers with their own publishers, configurations and receivers at the same time over a common set of signal " +
		"IDs, while some of them are closed, lose their publisher or connect again; for each of the others everything delivered, announced and " +
		"sent is compared with its own publisher and configuration, under the race detector; distinct_nontrivial counts different combinations of " +
		"configurations and fates",
	Quick: 500, Thorough: 8000, RaceMatters: true,
	Case: func(t *vf.T) {
		perturb(t)
		r := t.R
		ids := make([]pub.Guid, 1+r.Intn(6))
		for i := range ids {
			ids[i] = pub.RandGuid(r)
		}
		count := 2 + r.Intn(4)
		var all []*neighbour
		defer func() {
			for _, n := range all {
				n.close()
			}
		}()
		sig := ""
		connect := func(n *neighbour) {
			n.sb.Subscribe(n.filter, n.set)
			n.dial()
			checkOpModes(t, n.con, n.cfg, false)
			if !n.con.WaitFrames(pub.CmdSubscribe, 1, limit) {
				t.Fatalf("subscriber %d did not subscribe", n.no)
			}
			checkSubscribe(t, n.con.FramesOf(pub.CmdSubscribe)[0], n.filter, n.set)
			n.acceptSubscribe(1)
			n.sendSIC(n.sic, 0)
		}
		for i := 0; i < count; i++ {
			n := &neighbour{sess: newSess(t), no: i, factor: float64(2 + r.Intn(100))}
			all = append(all, n)
			n.cfg = randConfig(r)
			n.cfg.Version, n.cfg.AutoRequestMetadata, n.cfg.AutoSubscribe = 2, false, true
			n.cfg.MetadataFilters = fmt.Sprintf("FILTER A WHERE B = %d", i)
			n.filter = fmt.Sprintf("FILTER X WHERE Y = %d", i)
			n.set = sttp.NewSettings()
			n.set.UseMillisecondResolution = r.Intn(2) == 0
			n.set.LagTime = float64(i + 1)
			if r.Intn(2) == 0 {
				n.set.ExtraConnectionStringParameters = fmt.Sprintf("own=%d", i)
			}
			n.pool = r.Intn(2) == 0
			n.sb.SetNotificationReceiver(func(m string) { n.lock.Lock(); n.notes = append(n.notes, m); n.lock.Unlock() })
			n.sb.SetNewBufferBlocksReceiver(func(b []transport.BufferBlock) { n.lock.Lock(); n.blocks = append(n.blocks, b...); n.lock.Unlock() })
			n.sb.SetMetadataReceiver(func(d *data.DataSet) { n.lock.Lock(); n.docs = append(n.docs, d); n.lock.Unlock() })
			n.sic = &pub.SIC{Subscriber: pub.RandGuid(r)}
			for j, k := range r.Perm(len(ids)) {
				n.sic.Records = append(n.sic.Records, pub.SICRecord{Index: int32(j + r.Intn(2)*100*(i+1)), ID: ids[k], Source: fmt.Sprintf("S%d", i), Num: uint64(1000*i + j)})
			}
			sig += fmt.Sprintf("%v%v%v%v,", n.cfg.CompressMetadata, n.cfg.RfcGuidEncoding, n.cfg.CompressSignalIndexCache, n.pool)
		}
		for _, k := range r.Perm(count) {
			connect(all[k])
		}
		for _, n := range all {
			for _, rec := range n.sic.Records {
				n.sb.LookupMetadata(libGuid(rec.ID)).Multiplier = n.factor
			}
		}
		var stop int32
		var wg sync.WaitGroup
		for _, n := range all {
			wg.Add(1)
			go func(seed int64, steps int) { defer wg.Done(); n.publish(seed, steps, &stop) }(r.Int63(), 5+r.Intn(40))
		}
		// Some of them end while the others work.
		fate := map[int]int{}
		for i := 0; i < r.Intn(count); i++ {
			v := r.Intn(count)
			if fate[v] != 0 {
				continue
			}
			fate[v] = 1 + r.Intn(3)
			sig += fmt.Sprintf("%d", fate[v])
			n := all[v]
			pause(r, 3000)
			switch fate[v] {
			case 1:
				n.sb.Disconnect()
			case 2:
				within(t, "close of one subscriber", n.sb.Close)
			case 3:
				n.con.Abort()
			}
		}
		within(t, "publishing to all subscribers", wg.Wait)
		t.Stop()
		for v, n := range all {
			if fate[v] != 0 {
				if !vf.WaitFor(limit, func() bool { e, m := n.counts(); return e == 1 && m == 1 }) {
					e, m := n.counts()
					t.Fatalf("subscriber %d: %d connections reported as established and %d as terminated", v, e, m)
				}
				if got := n.all(); len(got) > 0 {
					for i := range got {
						if i >= len(n.want) || !same(got[i], n.want[i]) {
							t.Fatalf("subscriber %d was delivered %s, which its publisher did not send there", v, describe(got[i]))
						}
					}
				}
				if fate[v] != 2 && r.Intn(2) == 0 { // it can be used again next to the others
					n.con.Close()
					n.mu.Lock()
					n.batches, n.nmeas = nil, 0
					n.mu.Unlock()
					n.want = nil
					connect(n)
					n.publish(r.Int63(), 0, &stop)
					n.sync()
					t.Count("connected_again", 1)
				}
				continue
			}
			if n.broken != nil || !n.sb.IsConnected() || !n.sb.IsSubscribed() {
				t.Fatalf("subscriber %d was disconnected (%v), connected %v, subscribed %v; errors: %q", v, n.broken, n.sb.IsConnected(), n.sb.IsSubscribed(), n.errors())
			}
			n.sync()
			n.compare(n.want)
			if e, m := n.counts(); e != 1 || m != 0 {
				t.Fatalf("subscriber %d: %d connections reported as established and %d as terminated", v, e, m)
			}
			if got := n.sb.TotalMeasurementsReceived(); got != uint64(len(n.want)) {
				t.Failf("subscriber %d was sent %d measurements, its total reports %d", v, len(n.want), got)
			}
			if sent, got := uint64(atomic.LoadInt64(&n.con.Sent)), n.sb.TotalCommandChannelBytesReceived(); sent != got {
				t.Failf("subscriber %d was sent %d bytes, its total reports %d", v, sent, got)
			}
			if msg := checkCache(t, n.sb.ActiveSignalIndexCache(), n.sic); msg != "" {
				t.Failf("subscriber %d: %s", v, msg)
			}
			if n.sb.SubscriberID() != libGuid(n.sic.Subscriber) {
				t.Failf("subscriber %d has the ID %v, assigned %v", v, n.sb.SubscriberID(), n.sic.Subscriber)
			}
			if !vf.WaitFor(limit, func() bool {
				n.lock.Lock()
				defer n.lock.Unlock()
				return len(n.docs) >= n.tags && len(n.notes) >= len(n.sent)+1
			}) {
				t.Fatalf("subscriber %d: %d of %d metadata sets and %d of %d notices", v, len(n.docs), n.tags, len(n.notes), len(n.sent)+1)
			}
			n.idle()
			n.lock.Lock()
			if len(n.docs) != n.tags || len(n.blocks) != len(n.packed) {
				t.Failf("subscriber %d: %d of %d metadata sets and %d of %d blocks", v, len(n.docs), n.tags, len(n.blocks), len(n.packed))
			}
			left := map[string]int{"sync": 1}
			for _, m := range n.sent {
				left[m]++
			}
			for _, m := range n.notes {
				if left[m]--; left[m] < 0 {
					t.Failf("subscriber %d was notified of %q", v, m)
				}
			}
			for i, b := range n.blocks {
				if i < len(n.packed) && (!bytes.Equal(b.Buffer, n.packed[i]) || b.SignalID != libGuid(n.sic.Records[0].ID)) {
					t.Failf("subscriber %d: block %d differs from the one sent", v, i)
				}
			}
			n.lock.Unlock()
			for i, rec := range n.sic.Records {
				md := n.sb.LookupMetadata(libGuid(rec.ID))
				tag := ""
				if i == 0 && n.tags > 0 {
					tag = fmt.Sprintf("T%d", v)
				}
				if md.Source != rec.Source || md.ID != rec.Num || md.Tag != tag || md.Multiplier != n.factor {
					t.Failf("subscriber %d: record %+v; expected source %q, ID %d, tag %q, multiplier %v", v, *md, rec.Source, rec.Num, tag, n.factor)
				}
				if a := n.sb.AdjustedValue(&transport.Measurement{SignalID: libGuid(rec.ID), Value: 3}); a != 3*n.factor {
					t.Failf("subscriber %d: adjusted value %v, expected %v", v, a, 3*n.factor)
				}
			}
			if k := n.con.CountOf(pub.CmdMetadataRefresh); k != n.metaReq {
				t.Failf("subscriber %d sent %d metadata requests, made %d", v, k, n.metaReq)
			}
			for _, f := range n.con.FramesOf(pub.CmdMetadataRefresh) {
				checkMetaRequest(t, f, n.cfg.MetadataFilters)
			}
			if b := n.con.Bad(); b != "" {
				t.Failf("subscriber %d: malformed command stream: %s", v, b)
			}
			t.Eval(1)
		}
		t.Count("subscribers", count)
		t.Sig("%d%s", count, sig)
		if t.Idx < 3 {
			t.Sample("case %d: %d subscribers %s fates %v", t.Idx, count, sig, fate)
		}
	},
	Done: schedDone,
}
