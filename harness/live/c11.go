package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"

	"verif/harness/metagen"
	"verif/harness/pub"
	"verif/harness/vf"

	"math/rand"
)

// metaDoc makes a metadata document whose SchemaVersion row carries the given number.
func metaDoc(r *rand.Rand, no int, rows int, pool []guid.Guid) *metagen.Doc {
	d := &metagen.Doc{Name: []string{"DataSet", "NewDataSet"}[r.Intn(2)]}
	all := []metagen.Col{
		{Name: "SignalID", Type: data.DataType.Guid}, {Name: "ID", Type: data.DataType.String}, {Name: "PointTag", Type: data.DataType.String},
		{Name: "SignalReference", Type: data.DataType.String}, {Name: "SignalAcronym", Type: data.DataType.String},
		{Name: "Description", Type: data.DataType.String}, {Name: "UpdatedOn", Type: data.DataType.DateTime},
		{Name: "DeviceAcronym", Type: data.DataType.String}, {Name: "PhasorSourceIndex", Type: data.DataType.Int32}, {Name: "Internal", Type: data.DataType.Boolean},
	}
	m := &metagen.Table{Name: "MeasurementDetail"}
	for i, c := range all {
		if i == 0 || r.Intn(8) > 0 {
			m.Cols = append(m.Cols, c)
		}
	}
	r.Shuffle(len(m.Cols), func(i, j int) { m.Cols[i], m.Cols[j] = m.Cols[j], m.Cols[i] })
	used := map[guid.Guid]bool{}
	for i := 0; i < rows; i++ {
		row := m.AddRow(r, 12)
		for ci, c := range m.Cols {
			switch c.Name {
			case "SignalID":
				if row[ci] == nil {
					continue
				}
				g := metagen.Guid(r)
				if len(pool) > 0 && r.Intn(2) == 0 {
					g = pool[r.Intn(len(pool))]
				}
				if used[g] {
					g = metagen.Guid(r)
				}
				used[g] = true
				row[ci] = g
			case "ID":
				switch r.Intn(10) {
				case 0, 1:
				default:
					row[ci] = fmt.Sprintf("%s:%s%d", []string{"PPA", "STAT", "SHELBY", "P&A"}[r.Intn(4)], []string{"", "", "", "", "0", "000"}[r.Intn(6)], randU64(r))
				}
			}
		}
	}
	d.Tables = append(d.Tables, m)
	v := &metagen.Table{Name: "SchemaVersion", Cols: []metagen.Col{{Name: "VersionNumber", Type: data.DataType.Int32}}}
	v.Rows = [][]interface{}{{int32(no)}}
	d.Tables = append(d.Tables, v)
	for i, n := 0, r.Intn(3); i < n; i++ {
		d.Tables = append(d.Tables, metagen.RandTable(r, fmt.Sprintf("Extra%d", i), 1+r.Intn(8), r.Intn(10)))
	}
	r.Shuffle(len(d.Tables), func(i, j int) { d.Tables[i], d.Tables[j] = d.Tables[j], d.Tables[i] })
	return d
}

func docVersion(ds *data.DataSet) int {
	t := ds.Table("SchemaVersion")
	if t == nil || t.RowCount() == 0 {
		return -1
	}
	v, null, err := t.Row(0).Int32ValueByName("VersionNumber")
	if null || err != nil {
		return -1
	}
	return int(v)
}

// attrs is what the registry must show for one signal; nil fields are unknown.
type attrs struct {
	source, tag, ref, typ, desc *string
	num                         *uint64
	updated                     *time.Time
	keyed                       bool // a document gave a measurement key
}

func (a *attrs) learn(d *metagen.Doc, row []interface{}, cols []metagen.Col) {
	str := func(v interface{}) *string {
		if s, ok := v.(string); ok {
			return &s
		}
		return new(string) // null shows as empty
	}
	for i, c := range cols {
		switch c.Name {
		case "ID":
			a.source, a.num, a.keyed = nil, nil, true
			if s, ok := row[i].(string); ok {
				p := strings.Split(s, ":")
				var n uint64
				if len(p) == 2 && p[0] != "" {
					if k, err := fmt.Sscanf(p[1], "%d", &n); k == 1 && err == nil && (strings.TrimLeft(p[1], "0") == fmt.Sprint(n) || strings.Trim(p[1], "0") == "") {
						a.source, a.num = &p[0], &n
					}
				}
			}
		case "PointTag":
			a.tag = str(row[i])
		case "SignalReference":
			a.ref = str(row[i])
		case "SignalAcronym":
			a.typ = str(row[i])
		case "Description":
			a.desc = str(row[i])
		case "UpdatedOn":
			a.updated = new(time.Time)
			if v, ok := row[i].(time.Time); ok {
				a.updated = &v
			}
		}
	}
}

func differs(got string, want *string) bool {
	return want != nil && got != *want
}

// signals visits the measurement records of a document that name a signal and returns the number of records.
func signals(d *metagen.Doc, visit func(id guid.Guid, row []interface{}, cols []metagen.Col)) (rows int) {
	for _, tb := range d.Tables {
		if tb.Name != "MeasurementDetail" {
			continue
		}
		si := 0
		for i, c := range tb.Cols {
			if c.Name == "SignalID" {
				si = i
			}
		}
		for _, row := range tb.Rows {
			if id, ok := row[si].(guid.Guid); ok {
				visit(id, row, tb.Cols)
			}
		}
		rows += len(tb.Rows)
	}
	return
}

var c11 = &vf.Prop{
	ID: "C11",
	Rule: "each case sends generated metadata documents (good, damaged, concurrent) between other traffic; every delivered data set is compared cell " +
		"by cell on delivery and again at the end, the registry is compared for every measurement record, and the requests caused by automatic " +
		"operation are counted and ordered; distinct_nontrivial counts different good documents with at least one measurement record",
	Quick: 1600, Thorough: 30000,
	Case: func(t *vf.T) {
		perturb(t)
		r := t.R
		s := newSess(t)
		defer s.close()
		s.cfg.CompressMetadata = r.Intn(2) == 0
		s.cfg.AutoRequestMetadata = r.Intn(2) == 0
		s.cfg.AutoSubscribe = r.Intn(2) == 0
		s.sb.Subscribe("FILTER X WHERE True", nil)
		var mu sync.Mutex
		type arrival struct {
			ds   *data.DataSet
			diff string
		}
		docs := map[int]*metagen.Doc{}
		got := map[int][]arrival{}
		empties := 0
		cells := 0
		alone := 0 // document that no other one is loaded with
		receive := func(ds *data.DataSet) {
			v := docVersion(ds)
			mu.Lock()
			defer mu.Unlock()
			a := arrival{ds: ds}
			if d := docs[v]; d != nil {
				if v == alone {
					signals(d, func(id guid.Guid, row []interface{}, cols []metagen.Col) {
						var a attrs
						a.learn(d, row, cols)
						// Source and number can be changed by a cache in the meantime.
						md := s.sb.LookupMetadata(id)
						if differs(md.Tag, a.tag) || differs(md.SignalReference, a.ref) || differs(md.SignalType, a.typ) ||
							differs(md.Description, a.desc) || a.updated != nil && !md.UpdatedOn.Equal(*a.updated) {
							t.Failf("lookup of %v does not show its published attributes when the metadata receiver runs", id)
						}
					})
				}
				var n int
				a.diff, n = d.Compare(ds)
				cells += n
				got[v] = append(got[v], a)
			} else if ds.TableCount() == 0 {
				empties++
			} else {
				t.Failf("a data set with tables %v was delivered that was never published", ds.TableNames())
			}
		}
		s.sb.SetMetadataReceiver(receive)
		s.dial()
		if r.Intn(2) == 0 {
			s.con.RandomFrag(r.Int63())
		}
		reqs := 0
		firstMeta := int64(0)
		await := func(cmd byte, n int, why string) {
			if !s.con.WaitFrames(cmd, n, limit) {
				t.Fatalf("%s: %d frames with command %d, expected %d; errors: %q", why, s.con.CountOf(cmd), cmd, n, s.errors())
			}
		}
		if s.cfg.AutoRequestMetadata {
			reqs++
			await(pub.CmdMetadataRefresh, 1, "metadata is requested on connect")
		} else if s.cfg.AutoSubscribe {
			await(pub.CmdSubscribe, 1, "subscription on connect")
		}
		registry := map[guid.Guid]*attrs{}
		var pool []guid.Guid
		expectErrs := 0
		good, bad := 0, 0
		g := &compactGen{r: r, includeTime: true}
		var want []pub.Meas
		traffic := func() {
			for i, n := 0, r.Intn(5); i < n; i++ {
				switch r.Intn(4) {
				case 0:
					sic := randSIC(r, 1+r.Intn(8))
					for j := range sic.Records {
						if len(pool) > 0 && r.Intn(2) == 0 {
							sic.Records[j].ID = pub.Guid(pool[r.Intn(len(pool))])
						}
					}
					s.sendSIC(sic, 0)
					g.sic[0] = sic
				case 1:
					if g.sic[0] != nil {
						p, m := g.packet(1 + r.Intn(50))
						want = append(want, m...)
						must(s.con.Send(pub.RespDataPacket, pub.CmdSubscribe, p))
					}
				case 2:
					must(s.con.Send(pub.RespNotify, 0, append(pub.U32(uint32(i)), bytes.Repeat([]byte("<x>&"), 500+r.Intn(5000))...)))
				default:
					must(s.con.Send(pub.RespProcComplete, 0, bytes.Repeat([]byte{'z'}, r.Intn(30000))))
				}
			}
		}
		send := func(p []byte) {
			if s.cfg.CompressMetadata {
				p = pub.Gzip(p)
			}
			if firstMeta == 0 {
				firstMeta = pub.NextSeq()
			}
			must(s.con.Send(pub.RespSucceeded, pub.CmdMetadataRefresh, p))
			t.Eval(1)
		}
		learn := func(d *metagen.Doc) {
			rows := signals(d, func(id guid.Guid, row []interface{}, cols []metagen.Col) {
				a := registry[id]
				if a == nil {
					a = &attrs{}
					registry[id] = a
				}
				a.learn(d, row, cols)
				pool = append(pool, id)
			})
			if rows > 0 {
				t.SigHash(hash(d.XML(rand.New(rand.NewSource(1)))))
			}
		}
		arrived := func(no int) {
			if !vf.WaitFor(limit, func() bool { mu.Lock(); defer mu.Unlock(); return len(got[no]) > 0 }) {
				t.Fatalf("metadata response %d was not delivered; errors: %q", no, s.errors())
			}
		}
		checkRegistry := func(when string) {
			for id, a := range registry {
				md := s.sb.LookupMetadata(id)
				if md == nil {
					t.Fatalf("no metadata record for %v", id)
				}
				cmp := func(what, got string, want *string) {
					if want != nil && got != *want {
						t.Failf("%s: %s of signal %v is %q, published %q", when, what, id, got, *want)
					}
				}
				if md.SignalID != id {
					t.Failf("%s: lookup of %v returned the record of %v", when, id, md.SignalID)
				}
				cmp("source", md.Source, a.source)
				cmp("tag", md.Tag, a.tag)
				cmp("signal reference", md.SignalReference, a.ref)
				cmp("signal type", md.SignalType, a.typ)
				cmp("description", md.Description, a.desc)
				if a.num != nil && md.ID != *a.num {
					t.Failf("%s: numeric ID of signal %v is %d, published %d", when, id, md.ID, *a.num)
				}
				if a.updated != nil && !md.UpdatedOn.Equal(*a.updated) {
					t.Failf("%s: update time of signal %v is %v, published %v", when, id, md.UpdatedOn, *a.updated)
				}
				t.Count("registry_records_compared", 1)
			}
		}
		no := 0
		rowsOf := func() int {
			if r.Intn(25) == 0 {
				return 300 + r.Intn(1200)
			}
			return r.Intn(25)
		}
		answer := r.Intn(2) == 0
		for step, n := 0, 1+r.Intn(5); step < n && !t.Failed(); step++ {
			if answer && s.cfg.AutoSubscribe && (good > 0 || !s.cfg.AutoRequestMetadata) {
				s.acceptSubscribe(1)
				answer = false
				t.Count("subscriptions_confirmed", 1)
			}
			switch r.Intn(8) {
			case 0, 1, 2: // one good document
				no++
				d := metaDoc(r, no, rowsOf(), pool)
				if r.Intn(5) == 0 { // nobody wants it
					s.sb.SetMetadataReceiver(nil)
					send(d.XML(r))
					traffic()
					s.sync()
					s.idle()
					s.sb.SetMetadataReceiver(receive)
					learn(d)
					good++
					t.Count("unreceived_documents", 1)
					checkRegistry("without a receiver")
					break
				}
				mu.Lock()
				docs[no], alone = d, no
				mu.Unlock()
				send(d.XML(r))
				traffic()
				arrived(no)
				learn(d)
				good++
				s.idle()
				checkRegistry("after delivery")
			case 3: // several at once, with distinct signals
				k := 2 + r.Intn(4)
				first := no + 1
				for i := 0; i < k; i++ {
					no++
					d := metaDoc(r, no, rowsOf(), nil)
					mu.Lock()
					docs[no] = d
					mu.Unlock()
					send(d.XML(r))
					if r.Intn(2) == 0 {
						traffic()
					}
				}
				for i := first; i <= no; i++ {
					arrived(i)
					learn(docs[i])
					good++
				}
				s.idle()
				checkRegistry("after concurrent documents")
			case 4: // damaged
				no++
				d := metaDoc(r, no, r.Intn(10), pool)
				x := d.XML(r)
				before := len(s.errors())
				kind := r.Intn(5)
				if kind == 4 && !s.cfg.CompressMetadata {
					kind = 0
				}
				switch kind {
				case 0:
					send(x[:len(x)*r.Intn(100)/100])
				case 1:
					send(randBytes(r, r.Intn(200)))
				case 2:
					send(bytes.Replace(x, []byte("schema id=\""+d.Name), []byte("schema id=\"Other"), 1))
				case 3:
					send(bytes.Replace(x, []byte(data.XmlSchemaNamespace), []byte("http://example.com/other"), -1))
				default:
					z := pub.Gzip(x)
					z = append([]byte(nil), z[:len(z)*r.Intn(100)/100]...)
					if firstMeta == 0 {
						firstMeta = pub.NextSeq()
					}
					must(s.con.Send(pub.RespSucceeded, pub.CmdMetadataRefresh, z))
				}
				traffic()
				if !vf.WaitFor(limit, func() bool { return len(s.errors()) > before }) {
					t.Fatalf("damaged metadata (kind %d) was not reported", kind)
				}
				s.idle()
				expectErrs++
				bad++
			case 5:
				s.sb.RequestMetadata()
				reqs++
				await(pub.CmdMetadataRefresh, reqs, "explicit metadata request")
			case 6:
				k := 1 + r.Intn(3)
				for i := 0; i < k; i++ {
					must(s.con.Send(pub.RespConfigChanged, 0, nil))
				}
				if s.cfg.AutoRequestMetadata {
					reqs += k
					await(pub.CmdMetadataRefresh, reqs, "metadata is requested on configuration change")
				}
			default:
				traffic()
			}
		}
		s.sync()
		s.compare(want)
		if s.cfg.AutoRequestMetadata && s.cfg.AutoSubscribe && good > 0 {
			await(pub.CmdSubscribe, 1, "subscription after metadata")
		}
		s.idle()
		s.sync()
		if n := s.con.CountOf(pub.CmdMetadataRefresh); n != reqs {
			t.Failf("%d metadata requests were sent, %d are due (automatic %v)", n, reqs, s.cfg.AutoRequestMetadata)
		}
		subs := s.con.FramesOf(pub.CmdSubscribe)
		switch {
		case !s.cfg.AutoSubscribe:
			if len(subs) != 0 {
				t.Failf("%d subscribe requests without automatic subscription", len(subs))
			}
		case s.cfg.AutoRequestMetadata:
			if len(subs) > 0 && (firstMeta == 0 || subs[0].Seq < firstMeta) {
				t.Failf("a subscribe request was sent before any metadata was received")
			}
		default:
			if len(subs) != 1 {
				t.Failf("%d subscribe requests after one connect", len(subs))
			}
		}
		mu.Lock()
		defer mu.Unlock()
		for v, d := range docs {
			as := got[v]
			if len(as) != 1 {
				t.Fatalf("metadata response %d was delivered %d times", v, len(as))
			}
			if as[0].diff != "" {
				t.Fatalf("metadata response %d on delivery: %s", v, as[0].diff)
			}
			if diff, _ := d.Compare(as[0].ds); diff != "" {
				t.Fatalf("metadata response %d at the end of the session: %s", v, diff)
			}
		}
		checkRegistry("at the end")
		t.Count("good_documents", good)
		t.Count("damaged_documents", bad)
		t.Count("cells_compared", cells)
		t.Count("requests_checked", reqs+len(subs))
		if t.Idx < 2 {
			t.Sample("case %d: %d good and %d damaged documents, %d cells, auto request %v subscribe %v", t.Idx, good, bad, cells, s.cfg.AutoRequestMetadata, s.cfg.AutoSubscribe)
		}
	},
	Done: schedDone,
}
