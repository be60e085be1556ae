package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/xml"

	"verif/harness/metagen"
	"verif/harness/vf"
)

var c18 = &vf.Prop{
	ID:    "C18",
	Level: "exploration",
	Rule: "every table, column, row and field of data sets loaded from generated documents, in varying equivalent notations, equals the model the " +
		"document was written from, and damaged documents are refused; distinct_nontrivial counts different (column type, declared type, has rows, computed) situations and kinds of refusal",
	Assumptions: []string{"integers are written without leading zeros and date/time values with a zone"},
	Quick:       2500,
	Thorough:    90000,
	Case:        caseC18,
}

func caseC18(t *vf.T) {
	r := t.R
	d := &metagen.Doc{Name: []string{"DataSet", "Metadata", "M", "data_set.1"}[r.Intn(4)]}
	for i := r.Intn(7); i > 0; i-- {
		name := fmt.Sprintf("%s%d", []string{"Table", "measurement_", "D"}[r.Intn(3)], i)
		if r.Intn(8) == 0 {
			name = string(rune(96 + i))
		}
		tab := metagen.RandTable(r, name, r.Intn(14), 0)
		for n := []int{0, 1, r.Intn(12), r.Intn(60)}[r.Intn(4)]; n > 0; n-- {
			tab.AddRow(r, []int{1000, 10, 2, 1}[r.Intn(4)])
		}
		for j := range tab.Cols {
			if r.Intn(12) == 0 {
				tab.Cols[j].XSD = []string{"anyURI", "base64Binary", "duration", "anyType", "hexBinary"}[r.Intn(5)]
			}
		}
		if r.Intn(3) == 0 {
			tab.Cols = append(tab.Cols, metagen.Col{Name: "Calc", Type: metagen.AllTypes[r.Intn(len(metagen.AllTypes))], Expr: "Len('<a> & b') + 1 > 2"})
			for j := range tab.Rows {
				tab.Rows[j] = append(tab.Rows[j], nil)
			}
		}
		d.Tables = append(d.Tables, tab)
	}
	body := d.XML(r)
	var ds *data.DataSet
	switch r.Intn(4) {
	case 0:
		ds = data.FromXml(body)
	case 1:
		var doc xml.XmlDocument
		if err := doc.LoadXml(body); err != nil {
			t.Fatalf("document refused: %v\n%s", err, body)
		}
		ds = data.NewDataSet()
		if err := ds.ParseXmlDocument(&doc); err != nil {
			t.Fatalf("document refused: %v\n%s", err, body)
		}
	default:
		ds = data.NewDataSet()
		if err := ds.ParseXml(body); err != nil {
			t.Fatalf("document refused: %v\n%s", err, body)
		}
	}
	diff, cells := d.Compare(ds)
	if diff != "" {
		t.Fatalf("%s\n%.3000s", diff, body)
	}
	t.Eval(cells + 1)
	t.Count("fields", cells)
	lookups(t, d, ds)
	for _, tab := range d.Tables {
		for _, c := range tab.Cols {
			t.Sig(fmt.Sprintf("%v %s rows %v computed %v", c.Type, c.XSD, len(tab.Rows) > 0, c.Expr != ""))
		}
	}
	tableSet(t, d, ds)
	refused(t, d, body)
}

// mixed changes the case of a name.
func mixed(t *vf.T, s string) string {
	switch t.R.Intn(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	return s
}

func lookups(t *vf.T, d *metagen.Doc, ds *data.DataSet) {
	seen := map[string]bool{}
	for _, n := range ds.TableNames() {
		seen[n] = true
	}
	byPointer := map[*data.DataTable]bool{}
	for _, dt := range ds.Tables() {
		byPointer[dt] = true
	}
	for _, tab := range d.Tables {
		dt := ds.Table(mixed(t, tab.Name))
		if dt == nil || dt != ds.Table(tab.Name) || !seen[tab.Name] || !byPointer[dt] || dt.Parent() != ds {
			t.Fatalf("table %s is not found under a name of different case or not listed", tab.Name)
		}
		at := 0
		for _, c := range tab.Cols {
			if c.XSD != "" {
				continue
			}
			n := mixed(t, c.Name)
			if dc := dt.ColumnByName(n); dc == nil || dc.Name() != c.Name || dt.ColumnIndex(n) != at {
				t.Fatalf("column %s of table %s is not found as %q at %d", c.Name, tab.Name, n, at)
			}
			at++
			t.Eval(1)
		}
		for _, c := range tab.Cols {
			if c.XSD != "" && dt.ColumnByName(c.Name) != nil {
				t.Fatalf("column %s of the unsupported type %s exists", c.Name, c.XSD)
			}
		}
		if len(tab.Rows) > 0 {
			row := dt.Row(t.R.Intn(len(tab.Rows)))
			for _, c := range tab.Cols {
				if c.Expr == "" || c.XSD != "" {
					continue
				}
				x, err := row.ValueByName(c.Name)
				want, werr := toColumn(boolean(true), c.Type)
				if (err != nil) != (werr != nil) || err == nil && !sameX(x, want) {
					t.Fatalf("computed column %s of type %v is %v, %v, expected %v", c.Name, c.Type, x, err, want)
				}
				t.Eval(1)
			}
		}
		if dt.Row(-1) != nil || dt.Row(len(tab.Rows)) != nil || len(dt.Rows()) != len(tab.Rows) {
			t.Fatalf("table %s has rows out of range", tab.Name)
		}
	}
	if ds.Table("NoSuchTable") != nil {
		t.Fatalf("unknown table exists")
	}
}

// tableSet adds and removes tables.
func tableSet(t *vf.T, d *metagen.Doc, ds *data.DataSet) {
	model := map[string]*data.DataTable{}
	for _, tab := range d.Tables {
		model[strings.ToUpper(tab.Name)] = ds.Table(tab.Name)
	}
	for i := 0; i < 6; i++ {
		name := fmt.Sprintf("Extra%d", t.R.Intn(3))
		if len(d.Tables) > 0 && t.R.Intn(2) == 0 {
			name = d.Tables[t.R.Intn(len(d.Tables))].Name
		}
		name = mixed(t, name)
		up := strings.ToUpper(name)
		if t.R.Intn(2) == 0 {
			dt := ds.CreateTable(name)
			if ds.Table(name) != model[up] {
				t.Fatalf("creating table %q adds it", name)
			}
			ds.AddTable(dt)
			model[up] = dt
		} else if got := ds.RemoveTable(name); got != (model[up] != nil) {
			t.Fatalf("removing table %q gives %v", name, got)
		} else {
			delete(model, up)
		}
		if ds.TableCount() != len(model) || len(ds.Tables()) != len(model) || len(ds.TableNames()) != len(model) {
			t.Fatalf("%d tables, expected %d", ds.TableCount(), len(model))
		}
		for n, dt := range model {
			if ds.Table(n) != dt {
				t.Fatalf("table %q is not the one added", n)
			}
		}
		t.Eval(1)
	}
}

// refused checks documents that must not load.
func refused(t *vf.T, d *metagen.Doc, body []byte) {
	b := string(body)
	id := fmt.Sprintf(" id=\"%s\"", d.Name)
	bad := map[string]string{
		"no schema id":     strings.Replace(b, id, "", 1),
		"other schema id":  strings.Replace(b, id, " id=\"Other\"", 1),
		"other namespace":  strings.Replace(b, data.XmlSchemaNamespace, "http://www.w3.org/1999/XMLSchema", 1),
		"empty":            "",
		"only a root":      fmt.Sprintf("<%s></%s>", d.Name, d.Name),
		"not XML":          "not a document",
		"truncated":        b[:t.R.Intn(len(b))],
		"missing bracket":  strings.Replace(b, "schema id", "schema< id", 1),
		"unbalanced":       b[:len(b)-1] + "x>",
		"no schema at all": fmt.Sprintf("<%s><Table1><A>1</A></Table1></%s>", d.Name, d.Name),
	}
	names := []string{"no schema id", "other schema id", "other namespace", "empty", "only a root", "not XML", "truncated", "missing bracket", "unbalanced", "no schema at all"}
	for _, n := range names {
		s := bad[n]
		if s == b {
			t.Failf("harness: document %q is not changed", n)
		}
		ds := data.NewDataSet()
		t.Eval(1)
		if err := ds.ParseXml([]byte(s)); err == nil {
			if n == "truncated" && bytes.Contains([]byte(s), []byte("</"+d.Name+">")) {
				continue
			}
			t.Failf("document with %s is accepted: %.400q", n, s)
		}
		if ds.TableCount() != 0 {
			t.Failf("refused document with %s gives tables %v", n, ds.TableNames())
		}
		data.FromXml([]byte(s))
		t.Sig("refused: " + n)
	}
}
