package main

import (
	"fmt"
	"math"
	"math/rand"
	"sync"

	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/transport"

	"verif/harness/metagen"
	"verif/harness/pub"
	"verif/harness/vf"
)

// adjustment is what a user sets on a record.
type adjustment struct{ mul, add float64 }

func randFactor(r *rand.Rand) float64 {
	switch r.Intn(5) {
	case 0:
		return []float64{0, 1, -1, 0.5, 1e10, 1e-10, math.Inf(1), math.MaxFloat64}[r.Intn(8)]
	case 1:
		return float64(r.Intn(100))
	default:
		return r.NormFloat64() * 10
	}
}

func sameFloat(a, b float64) bool {
	return a == b || math.IsNaN(a) && math.IsNaN(b)
}

var c17 = &vf.Prop{
	ID: "C17",
	Rule: "each case lets goroutines, receivers and the library (cache and metadata arrival) look up the same fresh signal IDs at the same time " +
		"over one or more connections under the race detector; all records of one signal must be one object, records of different signals " +
		"different ones, and adjusted values follow the record; distinct_nontrivial counts different (lookup mix, arrival mix) histories",
	RaceMatters: true,
	Quick:       600, Thorough: 12000,
	Case: func(t *vf.T) {
		perturb(t)
		r := t.R
		s := newSess(t)
		defer s.close()
		var mu sync.Mutex
		records := map[guid.Guid]*transport.MeasurementMetadata{}
		owner := map[*transport.MeasurementMetadata]guid.Guid{}
		lookups := 0
		put := func(who string, id guid.Guid, m *transport.MeasurementMetadata) {
			mu.Lock()
			defer mu.Unlock()
			lookups++
			if m == nil {
				t.Failf("%s: lookup of %v returned no record", who, id)
				return
			}
			if p, ok := records[id]; !ok {
				records[id] = m
			} else if p != m {
				t.Failf("%s: lookup of %v returned another record than an earlier lookup on the same connection", who, id)
			}
			if o, ok := owner[m]; !ok {
				owner[m] = id
			} else if o != id {
				t.Failf("%s: signals %v and %v share one record", who, o, id)
			}
			if m.SignalID != id {
				t.Failf("%s: the record of %v names %v", who, id, m.SignalID)
			}
		}
		adjust := map[guid.Guid]adjustment{}
		check := func(m *transport.Measurement) {
			mu.Lock()
			a, ok := adjust[m.SignalID]
			mu.Unlock()
			want := m.Value
			if ok {
				p := m.Value * a.mul
				want = p + a.add
			}
			if got := s.sb.AdjustedValue(m); !sameFloat(got, want) {
				t.Failf("adjusted value of %v with multiplier %v and adder %v is %v, expected %v", m.Value, a.mul, a.add, got, want)
			}
		}
		inReceiver := r.Intn(2) == 0
		var nadj int
		s.onMeas = func(ms []transport.Measurement) {
			for i := range ms {
				check(&ms[i])
				nadj++
				if inReceiver {
					put("measurements receiver", ms[i].SignalID, s.sb.Metadata(&ms[i]))
				}
			}
		}
		metaDone := make(chan *data.DataSet, 64)
		s.sb.SetMetadataReceiver(func(ds *data.DataSet) { metaDone <- ds })
		sig := ""
		conns := 1 + r.Intn(2)
		for c := 0; c < conns && !t.Failed(); c++ {
			mu.Lock()
			records = map[guid.Guid]*transport.MeasurementMetadata{}
			owner = map[*transport.MeasurementMetadata]guid.Guid{}
			adjust = map[guid.Guid]adjustment{}
			mu.Unlock()
			s.dial()
			k := s.con
			for round, rounds := 0, 1+r.Intn(4); round < rounds && !t.Failed(); round++ {
				ids := make([]guid.Guid, 1+r.Intn(12))
				for i := range ids {
					ids[i] = metagen.Guid(r)
				}
				// Similar IDs must not be mixed up.
				for i := 1; i < len(ids); i++ {
					if r.Intn(3) == 0 {
						ids[i] = ids[i-1]
						ids[i][r.Intn(16)] ^= 1 << uint(r.Intn(8))
					}
				}
				sic := &pub.SIC{Subscriber: pub.RandGuid(r)}
				for i, id := range ids {
					sic.Records = append(sic.Records, pub.SICRecord{Index: int32(i), ID: pub.Guid(id), Source: fmt.Sprintf("S%d", r.Intn(3)), Num: randU64(r)})
				}
				withSIC, withMeta := r.Intn(2) == 0, r.Intn(2) == 0
				var wg sync.WaitGroup
				start := make(chan struct{})
				n := 2 + r.Intn(5)
				for i := 0; i < n; i++ {
					wg.Add(1)
					q := rand.New(rand.NewSource(r.Int63()))
					who := fmt.Sprintf("goroutine %d of %d", i, n)
					go func() {
						defer wg.Done()
						order := q.Perm(len(ids))
						if q.Intn(2) == 0 { // everybody in the same order collides most
							for i := range order {
								order[i] = i
							}
						}
						<-start
						for _, i := range order {
							if q.Intn(2) == 0 {
								put(who, ids[i], s.sb.LookupMetadata(ids[i]))
							} else {
								put(who, ids[i], s.sb.Metadata(&transport.Measurement{SignalID: ids[i]}))
							}
							m := transport.Measurement{SignalID: ids[i], Value: randFactor(q)}
							check(&m)
						}
					}()
				}
				metas := 0
				learned := map[guid.Guid]*attrs{}
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					if withSIC {
						_ = k.Send(pub.RespUpdateSIC, pub.CmdSubscribe, sic.Payload(int(s.cfg.Version), 0, !s.cfg.RfcGuidEncoding, s.cfg.CompressSignalIndexCache))
					}
					if withMeta {
						metas++
						doc := metaDoc(r, round, len(ids), ids)
						signals(doc, func(id guid.Guid, row []interface{}, cols []metagen.Col) {
							learned[id] = &attrs{}
							learned[id].learn(doc, row, cols)
						})
						p := []byte(doc.XML(r))
						if s.cfg.CompressMetadata {
							p = pub.Gzip(p)
						}
						_ = k.Send(pub.RespSucceeded, pub.CmdMetadataRefresh, p)
					}
				}()
				close(start)
				within(t, "concurrent lookups", wg.Wait)
				for ; metas > 0; metas-- {
					within(t, "processing of metadata", func() { <-metaDone })
				}
				s.sync()
				// Change the records while nothing else uses them, then see the change through every way.
				for _, id := range ids {
					m := s.sb.LookupMetadata(id)
					put("user", id, m)
					if r.Intn(3) > 0 {
						a := adjustment{randFactor(r), randFactor(r)}
						m.Multiplier, m.Adder = a.mul, a.add
						mu.Lock()
						adjust[id] = a
						mu.Unlock()
						other := s.sb.Metadata(&transport.Measurement{SignalID: id})
						if !sameFloat(other.Multiplier, a.mul) || !sameFloat(other.Adder, a.add) {
							t.Failf("a change of the record of %v is not seen through another lookup", id)
						}
					}
					mm := transport.Measurement{SignalID: id, Value: randFactor(r)}
					check(&mm)
				}
				if !withSIC {
					s.sendSIC(sic, 0)
				}
				g := &compactGen{r: r, sic: [2]*pub.SIC{sic, nil}, includeTime: true}
				p, _ := g.packet(1 + r.Intn(30))
				must(k.Send(pub.RespDataPacket, pub.CmdSubscribe, p))
				s.sync()
				// The records survive cache and metadata arrival.
				seen := map[guid.Guid]bool{}
				for i, id := range ids {
					m := s.sb.LookupMetadata(id)
					put("user after data", id, m)
					if a, ok := adjust[id]; ok && (!sameFloat(m.Multiplier, a.mul) || !sameFloat(m.Adder, a.add)) {
						t.Failf("multiplier and adder of %v changed to %v and %v", id, m.Multiplier, m.Adder)
					}
					if seen[id] {
						continue
					}
					seen[id] = true
					source, num := sic.Records[i].Source, sic.Records[i].Num
					if a := learned[id]; a != nil {
						if a.keyed && a.source == nil {
							continue
						}
						if a.keyed {
							source, num = *a.source, *a.num
						}
					}
					if m.Source != source || m.ID != num {
						t.Failf("the record of %v has the key %s:%d, expected %s:%d", id, m.Source, m.ID, source, num)
					}
					t.Count("record_keys_compared", 1)
				}
				sig += fmt.Sprintf("%d.%d.%v.%v,", len(ids), n, withSIC, withMeta)
				t.Eval(1)
			}
			s.hangUp()
			sig += "/"
		}
		t.Count("lookups", lookups)
		t.Count("adjusted_values_in_receivers", nadj)
		t.Sig(sig)
		if t.Idx < 3 {
			t.Sample("case %d: %s", t.Idx, sig)
		}
	},
	Done: schedDone,
}
