package main

import (
	"fmt"
	"math"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/sttp/goapi/sttp"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/transport"

	"verif/harness/pub"
	"verif/harness/vf"
)

// checkCache compares every lookup of a cache with the published records.
func checkCache(t *vf.T, c *transport.SignalIndexCache, want *pub.SIC) string {
	if int(c.Count()) != len(want.Records) {
		return fmt.Sprintf("cache has %d records, %d were published", c.Count(), len(want.Records))
	}
	ids := c.SignalIDs()
	if len(ids.Keys()) != len(want.Records) {
		return fmt.Sprintf("the ID set has %d members, %d were published", len(ids.Keys()), len(want.Records))
	}
	used := map[int32]bool{}
	for _, w := range want.Records {
		used[w.Index] = true
		g := libGuid(w.ID)
		if !c.Contains(w.Index) || c.SignalID(w.Index) != g || c.Source(w.Index) != w.Source || c.ID(w.Index) != w.Num {
			return fmt.Sprintf("runtime ID %d: published %v %q %d, cache has %v %v %q %d", w.Index, w.ID, w.Source, w.Num, c.Contains(w.Index), c.SignalID(w.Index), c.Source(w.Index), c.ID(w.Index))
		}
		if id, src, num, ok := c.Record(w.Index); !ok || id != g || src != w.Source || num != w.Num {
			return fmt.Sprintf("record %d: published %v %q %d, cache returns %v %q %d %v", w.Index, w.ID, w.Source, w.Num, id, src, num, ok)
		}
		if c.SignalIndex(g) != w.Index {
			return fmt.Sprintf("signal %v: published index %d, cache returns %d", w.ID, w.Index, c.SignalIndex(g))
		}
		if !ids.Contains(g) {
			return fmt.Sprintf("signal %v is missing from the ID set", w.ID)
		}
		t.Eval(1)
	}
	for i := 0; i < 8; i++ {
		idx := int32(t.R.Uint32())
		if i < 4 && len(want.Records) > 0 {
			idx = want.Records[t.R.Intn(len(want.Records))].Index + int32(t.R.Intn(5)) - 2
		}
		if used[idx] {
			continue
		}
		id, src, _, ok := c.Record(idx)
		if c.Contains(idx) || ok || id != guid.Empty || src != "" || c.SignalID(idx) != guid.Empty || c.Source(idx) != "" || c.ID(idx) != math.MaxUint64 {
			return fmt.Sprintf("unknown runtime ID %d is not reported as absent", idx)
		}
		if c.SignalIndex(libGuid(pub.RandGuid(t.R))) != -1 {
			return "an unknown signal has an index"
		}
		t.Eval(1)
	}
	return ""
}

var c08 = &vf.Prop{
	ID: "C08",
	Rule: "each case publishes a sequence of generated caches into both slots, interleaved with data for either slot and with damaged caches, and " +
		"compares all lookups of every announced cache, the active cache, confirmations and the identity of delivered measurements with what " +
		"was published; distinct_nontrivial counts different accepted caches",
	Quick: 1200, Thorough: 20000,
	Case: func(t *vf.T) {
		gentle(t)
		r := t.R
		s := newSess(t)
		defer s.close()
		s.cfg.RfcGuidEncoding = r.Intn(2) == 0
		s.cfg.CompressSignalIndexCache = r.Intn(2) == 0
		if r.Intn(5) == 0 {
			s.cfg.Version = 1
		}
		version := int(s.cfg.Version)
		s.dial()
		s.subscribe("FILTER X WHERE True", sttp.NewSettings())
		if r.Intn(2) == 0 {
			s.con.RandomFrag(r.Int63())
		}
		lockstep := r.Intn(2) == 0
		g := &compactGen{r: r, includeTime: true}
		streams := [2]*tsscStream{}
		var accepted []*pub.SIC
		var last *pub.SIC
		var want []pub.Meas
		// Active caches in the order in which somebody else sees them.
		var actives []*transport.SignalIndexCache
		var watch sync.WaitGroup
		var stop int32
		halt := func() { atomic.StoreInt32(&stop, 1); watch.Wait() }
		defer halt()
		if r.Intn(2) == 0 {
			watch.Add(1)
			go func() {
				defer watch.Done()
				for atomic.LoadInt32(&stop) == 0 {
					if c := s.sb.ActiveSignalIndexCache(); len(actives) == 0 || actives[len(actives)-1] != c {
						actives = append(actives, c)
					} else {
						runtime.Gosched()
					}
				}
			}()
		}
		steps := 2 + r.Intn(16)
		for i := 0; i < steps; i++ {
			switch k := r.Intn(8); {
			case k < 3:
				slot := r.Intn(2)
				if version < 2 {
					slot = 0
				}
				n := []int{0, 1, 2, r.Intn(20), r.Intn(300)}[r.Intn(5)]
				if r.Intn(30) == 0 {
					n = 3000
				}
				sic := randSIC(r, n)
				slotByte := byte(slot)
				if slot == 1 && r.Intn(3) == 0 {
					slotByte = byte(1 + r.Intn(255))
				}
				must(s.con.Send(pub.RespUpdateSIC, pub.CmdSubscribe, sic.Payload(version, slotByte, !s.cfg.RfcGuidEncoding, s.cfg.CompressSignalIndexCache)))
				accepted = append(accepted, sic)
				last = sic
				t.SigHash(hash(sic.Encode(false)))
				if n == 0 {
					g.sic[slot], streams[slot] = nil, nil
				} else {
					g.sic[slot], streams[slot] = sic, newTsscStream(r, byte(slot), sic)
				}
				if lockstep {
					s.sync()
					if !vf.WaitFor(limit, func() bool { s.mu.Lock(); defer s.mu.Unlock(); return len(s.caches) >= len(accepted) }) {
						t.Fatalf("cache %d of %d was not announced; errors: %q", len(s.caches)+1, len(accepted), s.errors())
					}
					s.mu.Lock()
					c := s.caches[len(s.caches)-1]
					s.mu.Unlock()
					if m := checkCache(t, c, sic); m != "" {
						t.Fatalf("announced cache: %s", m)
					}
					if s.sb.ActiveSignalIndexCache() != c {
						t.Failf("the accepted cache did not become the active one")
					}
				}
			case k == 3: // damaged: not accepted, nothing changes
				enc := randSIC(r, 1+r.Intn(10)).Encode(!s.cfg.RfcGuidEncoding)
				enc = enc[:r.Intn(len(enc)-4)]
				if s.cfg.CompressSignalIndexCache {
					enc = pub.Gzip(enc)
					if r.Intn(3) == 0 {
						enc = enc[:r.Intn(len(enc)-1)]
					}
				}
				if version > 1 {
					enc = append([]byte{byte(r.Intn(2))}, enc...)
				}
				must(s.con.Send(pub.RespUpdateSIC, pub.CmdSubscribe, enc))
				t.Count("damaged_caches", 1)
			default:
				slot := r.Intn(2)
				if g.sic[slot] == nil {
					continue
				}
				var p []byte
				var m []pub.Meas
				if r.Intn(2) == 0 {
					gg := *g
					gg.sic[1-slot] = nil
					p, m = gg.packet(1 + r.Intn(30))
				} else {
					p, m = streams[slot].packet(1 + r.Intn(30))
				}
				must(s.con.Send(pub.RespDataPacket, pub.CmdSubscribe, p))
				want = append(want, m...)
			}
		}
		s.sync()
		s.compare(want)
		confirms := 0
		if version > 1 {
			confirms = len(accepted)
		}
		if n := s.con.CountOf(pub.CmdConfirmSIC); n != confirms {
			t.Failf("%d caches were confirmed, %d are due", n, confirms)
		}
		if !vf.WaitFor(limit, func() bool { s.mu.Lock(); defer s.mu.Unlock(); return len(s.caches) >= len(accepted) }) {
			t.Fatalf("%d caches announced, %d accepted; errors: %q", len(s.caches), len(accepted), s.errors())
		}
		s.idle()
		s.mu.Lock()
		caches := append([]*transport.SignalIndexCache(nil), s.caches...)
		s.mu.Unlock()
		if len(caches) != len(accepted) {
			t.Fatalf("%d caches announced, %d accepted", len(caches), len(accepted))
		}
		if last != nil {
			if m := checkCache(t, s.sb.ActiveSignalIndexCache(), last); m != "" {
				t.Failf("active cache: %s", m)
			}
			if s.sb.SubscriberID() != libGuid(last.Subscriber) {
				t.Failf("subscriber ID is %v, published %v", s.sb.SubscriberID(), last.Subscriber)
			}
		}
		// Announced caches keep their content, whatever arrived later. Announcements are asynchronous, so order is free.
		open := append([]*pub.SIC(nil), accepted...)
		for _, c := range caches {
			found := -1
			for i, w := range open {
				if int(c.Count()) == len(w.Records) && (len(w.Records) == 0 || c.SignalID(w.Records[0].Index) == libGuid(w.Records[0].ID)) {
					found = i
					break
				}
			}
			if found < 0 {
				t.Fatalf("an announced cache with %d records was not published", c.Count())
			}
			if m := checkCache(t, c, open[found]); m != "" {
				t.Fatalf("announced cache changed: %s", m)
			}
			open = append(open[:found], open[found+1:]...)
		}
		halt()
		t.Count("caches_checked", len(caches))
		t.Count("changes_of_the_active_cache_seen", len(actives))
		at := -1
		for i, c := range actives {
			if c.Count() == 0 { // the one before any arrived, or one without records
				continue
			}
			found := -1
			for j, w := range accepted {
				if int(c.Count()) == len(w.Records) && c.SignalID(w.Records[0].Index) == libGuid(w.Records[0].ID) {
					found = j
				}
			}
			if found <= at {
				t.Fatalf("change %d of the active cache led to cache %d, after cache %d", i, found+1, at+1)
			}
			at = found
		}
		if t.Idx < 2 {
			t.Sample("case %d: %d caches, %d measurements, version %d, lock-step %v", t.Idx, len(accepted), len(want), version, lockstep)
		}
	},
	Done: schedDone,
}
