package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"

	"verif/harness/vf"
)

var c19 = &vf.Prop{
	ID:    "C19",
	Level: "exploration",
	Rule: "in random histories of assigning, reading, copying and comparing rows, also while columns and rows are added, every accessor " +
		"gives what a reference model holds; distinct_nontrivial counts different (accessor, column type, state) reads, refusals and comparison outcomes",
	Assumptions: []string{"values out of the range of a computed column's type, and NaN in comparisons, are not claimed"},
	Quick:       1500,
	Thorough:    60000,
	Case:        caseC19,
}

type c19Row struct {
	dr    *data.DataRow
	cells []interface{}
}

type c19State struct {
	*vf.T
	dt    *data.DataTable
	cols  []column
	rows  []*c19Row // every row made, in or out of the table
	added []*c19Row // rows in the table
	g     *grower
}

func (s *c19State) pickName(i int) string {
	n := s.cols[i].name
	switch s.R.Intn(3) {
	case 0:
		return strings.ToUpper(n)
	case 1:
		return strings.ToLower(n)
	}
	return n
}

func (s *c19State) env(row *c19Row) env {
	return func(i int) (val, error) {
		x, err := s.cell(row, i)
		if err != nil {
			return val{}, err
		}
		return ofColumn(s.cols[i].t, x), nil
	}
}

func (s *c19State) cell(row *c19Row, i int) (interface{}, error) {
	c := s.cols[i]
	if c.expr == nil {
		if i < len(row.cells) {
			return row.cells[i], nil
		}
		return nil, nil
	}
	v, err := c.expr.eval(s.env(row))
	if err != nil {
		return nil, err
	}
	return toColumn(v, c.t)
}

func (s *c19State) addColumn(computed bool) {
	ty := allTypes[s.R.Intn(len(allTypes))]
	c := column{name: fmt.Sprintf("%s_%d", ty.String(), len(s.cols)), t: ty}
	expr := ""
	if computed {
		k := kindOfType[ty]
		if s.R.Intn(2) == 0 {
			k = kind(s.R.Intn(8))
		}
		s.g.cols = s.cols
		if s.R.Intn(3) == 0 {
			c.expr = s.g.leaf(k) // the bare value of another type
		} else {
			c.expr = s.g.grow(k, 1+s.R.Intn(2))
		}
		expr = render(s.R, c.expr)
	}
	dc := s.dt.CreateColumn(c.name, ty, expr)
	if s.R.Intn(4) == 0 {
		dc = s.dt.CloneColumn(dc)
	}
	s.dt.AddColumn(dc)
	s.cols = append(s.cols, c)
	if dc.Name() != c.name || dc.Type() != ty || dc.Expression() != expr || dc.Index() != len(s.cols)-1 || dc.Parent() != s.dt {
		s.Failf("column %q of type %v at %d describes itself as %q %v at %d", c.name, ty, len(s.cols)-1, dc.Name(), dc.Type(), dc.Index())
	}
}

func asText(t data.DataTypeEnum, x interface{}, err error) string {
	if err != nil {
		return ""
	}
	if x == nil {
		return "<NULL>"
	}
	switch v := x.(type) {
	case float32:
		return strconv.FormatFloat(float64(v), 'f', 6, 32)
	case uint64:
		return strconv.FormatUint(v, 10)
	case int8, int16, int32, int64, uint8, uint16, uint32:
		return fmt.Sprint(v)
	}
	return text(ofColumn(t, x))
}

// read checks every way of reading a field.
func (s *c19State) read(row *c19Row, i int) {
	want, err := s.cell(row, i)
	if err == errSkip {
		s.Count("unclaimed computed values", 1)
		return
	}
	c := s.cols[i]
	name := s.pickName(i)
	kindOf := "stored"
	if c.expr != nil {
		kindOf = "computed"
	}
	state := "value"
	if err != nil {
		state = "error"
	} else if want == nil {
		state = "null"
	}
	s.Sig(fmt.Sprintf("%s %v %s", kindOf, c.t, state))
	check := func(how string, got interface{}, null bool, gerr error) {
		s.Eval(1)
		switch {
		case err != nil:
			if gerr == nil {
				s.Failf("%s of %s %s column gives %v, expected an error (%v)", how, kindOf, c.name, got, err)
			}
		case gerr != nil:
			s.Failf("%s of %s %s column fails with %v, expected %v", how, kindOf, c.name, gerr, want)
		case null != (want == nil) || want != nil && !sameX(got, want):
			s.Failf("%s of %s %s column gives %T %v (null %v), expected %T %v", how, kindOf, c.name, got, got, null, want, want)
		}
	}
	v, e := row.dr.Value(i)
	check("Value", v, v == nil, e)
	v, e = row.dr.ValueByName(name)
	check("ValueByName", v, v == nil, e)
	if c.expr == nil {
		v, e = row.dr.ValueFast(i)
		check("ValueFast", v, v == nil, e)
	}
	for _, a := range accessors {
		v, null, e := a.index(row.dr, i)
		w, wnull, we := a.byName(row.dr, name)
		if a.t == c.t {
			check("typed value", v, null, e)
			check("typed value by name", w, wnull, we)
			continue
		}
		s.Eval(2)
		if e == nil || we == nil {
			s.Failf("reading %s column as %v gives %v and %v, expected errors", c.name, a.t, v, w)
		}
	}
	ws := asText(c.t, want, err)
	for _, got := range []string{row.dr.ValueAsString(i), row.dr.ValueAsStringByName(name), row.dr.ColumnValueAsString(s.dt.Column(i))} {
		s.Eval(1)
		if got != ws {
			s.Failf("%s column as text is %q, expected %q", c.name, got, ws)
		}
	}
	for ri, r := range s.added {
		if r == row {
			if a, b := s.dt.RowValueAsString(ri, i), s.dt.RowValueAsStringByName(ri, name); a != ws || b != ws {
				s.Failf("%s of row %d as text is %q and %q, expected %q", c.name, ri, a, b, ws)
			}
			break
		}
	}
}

func (s *c19State) assign(row *c19Row) {
	i := s.R.Intn(len(s.cols))
	c := s.cols[i]
	var x interface{}
	ok := c.expr == nil
	switch s.R.Intn(8) {
	case 0:
		x = nil
	case 1:
		ty := allTypes[s.R.Intn(len(allTypes))]
		x = sample(s.R, ty)
		ok = ok && ty == c.t
	case 2:
		x = []interface{}{int(5), uint(5), struct{}{}, []byte("x"), &struct{}{}}[s.R.Intn(5)]
		ok = false
	default:
		x = sample(s.R, c.t)
	}
	var err error
	if s.R.Intn(2) == 0 {
		err = row.dr.SetValue(i, x)
	} else {
		err = row.dr.SetValueByName(s.pickName(i), x)
	}
	s.Eval(1)
	if ok != (err == nil) {
		s.Failf("assigning %T %v to %s column (computed %v): error %v", x, x, c.name, c.expr != nil, err)
	}
	if ok {
		s.Sig(fmt.Sprintf("assigned %v null %v", c.t, x == nil))
		for len(row.cells) <= i {
			row.cells = append(row.cells, nil)
		}
		row.cells[i] = x
	} else {
		s.Sig(fmt.Sprintf("refused %v %T computed %v", c.t, x, c.expr != nil))
	}
	s.read(row, i)
}

// outside checks fields that do not exist.
func (s *c19State) outside(row *c19Row) {
	for _, i := range []int{-1, len(s.cols), len(s.cols) + 5, math.MinInt64} {
		if v, err := row.dr.Value(i); err == nil {
			s.Failf("field %d of %d gives %v", i, len(s.cols), v)
		}
		if err := row.dr.SetValue(i, int32(1)); err == nil {
			s.Failf("field %d of %d can be assigned", i, len(s.cols))
		}
		if v := row.dr.ValueAsString(i); v != "" {
			s.Failf("field %d of %d as text is %q", i, len(s.cols), v)
		}
		a := accessors[s.R.Intn(len(accessors))]
		if v, _, err := a.index(row.dr, i); err == nil {
			s.Failf("field %d of %d as %v gives %v", i, len(s.cols), a.t, v)
		}
		if v, _, err := a.byName(row.dr, "NoSuchField"); err == nil {
			s.Failf("unknown field as %v gives %v", a.t, v)
		}
		s.dt.RowValueAsString(i, i)
		if s.dt.Column(i) != nil || s.dt.Row(i) != nil && i != len(s.cols) && i != len(s.cols)+5 {
			s.Failf("column or row %d exists", i)
		}
		if len(s.added) > 0 {
			if _, err := data.CompareDataRowColumns(row.dr, s.added[0].dr, i, false); err == nil {
				s.Failf("column %d of %d can be compared", i, len(s.cols))
			}
		}
		s.Eval(7)
	}
	if v, err := row.dr.ValueByName("NoSuchField"); err == nil {
		s.Failf("unknown field gives %v", v)
	}
	if err := row.dr.SetValueByName("NoSuchField", "x"); err == nil {
		s.Failf("unknown field can be assigned")
	}
	if v := row.dr.ValueAsStringByName("NoSuchField"); v != "" {
		s.Failf("unknown field as text is %q", v)
	}
	if row.dr.Parent() != s.dt {
		s.Failf("row has a wrong table")
	}
	parts := []string{}
	for i, c := range s.cols {
		if x, err := s.cell(row, i); err == nil {
			parts = append(parts, asText(c.t, x, nil))
		}
	}
	s.mentions(row.dr.String(), parts)
	parts = []string{"Things"}
	for _, c := range s.cols {
		parts = append(parts, c.name, c.t.String())
	}
	s.mentions(s.dt.String(), append(parts, strconv.Itoa(len(s.added))))
}

// mentions requires a text form to name its parts in order.
func (s *c19State) mentions(text string, parts []string) {
	at := 0
	for _, p := range parts {
		i := strings.Index(text[at:], p)
		if i < 0 {
			s.Failf("text form %q does not mention %q after position %d", text, p, at)
			return
		}
		at += i + len(p)
	}
	s.Eval(1)
}

// rank compares two stored values as the rows are ordered.
func rank(t data.DataTypeEnum, a, b interface{}, exact bool) (int, bool) {
	if a == nil || b == nil {
		return int(b2i(a != nil) - b2i(b != nil)), true
	}
	switch x := a.(type) {
	case string:
		if exact {
			return strings.Compare(x, b.(string)), true
		}
		return strings.Compare(strings.ToUpper(x), strings.ToUpper(b.(string))), true
	case bool:
		return int(b2i(b.(bool)) - b2i(x)), true
	case uint64:
		y := b.(uint64)
		return int(b2i(x > y) - b2i(x < y)), true
	case time.Time, decimal.Decimal, guid.Guid:
	}
	c, nan := order(ofColumn(t, a), ofColumn(t, b))
	return c, !nan
}

func (s *c19State) compare(a, b *c19Row) {
	for i, c := range s.cols {
		x, ex := s.cell(a, i)
		y, ey := s.cell(b, i)
		if ex != nil || ey != nil {
			continue
		}
		for _, exact := range []bool{false, true} {
			want, ok := rank(c.t, x, y, exact)
			if !ok {
				continue
			}
			got, err := data.CompareDataRowColumns(a.dr, b.dr, i, exact)
			s.Eval(1)
			if err != nil || sign(got) != want {
				s.Failf("comparing %v with %v in %s column (exact %v) gives %d %v, expected %d", x, y, c.name, exact, got, err, want)
			}
			s.Sig(fmt.Sprintf("compare %v %d %v", c.t, want, exact))
		}
	}
}

func sign(i int) int { return int(b2i(i > 0) - b2i(i < 0)) }

func caseC19(t *vf.T) {
	ds := data.NewDataSet()
	s := &c19State{T: t, dt: ds.CreateTable("Things")}
	ds.AddTable(s.dt)
	s.g = &grower{r: t.R, wild: .03}
	for i := 2 + t.R.Intn(10); i > 0; i-- {
		s.addColumn(false)
	}
	for i := t.R.Intn(4); i > 0; i-- {
		s.addColumn(true)
	}
	newRow := func() {
		r := &c19Row{dr: s.dt.CreateRow()}
		s.rows = append(s.rows, r)
		for i, c := range s.cols {
			if v, err := r.dr.Value(i); c.expr == nil && (v != nil || err != nil) {
				s.Failf("unassigned %s column is %v, %v", c.name, v, err)
			}
		}
	}
	newRow()
	for step := 40 + t.R.Intn(40); step > 0 && !t.Failed(); step-- {
		row := s.rows[t.R.Intn(len(s.rows))]
		switch t.R.Intn(20) {
		case 0:
			newRow()
		case 1:
			if len(s.cols) < 24 {
				s.addColumn(t.R.Intn(4) == 0)
			}
		case 2:
			in := false
			for _, r := range s.added {
				in = in || r == row
			}
			if !in {
				s.dt.AddRow(row.dr)
				s.added = append(s.added, row)
			}
		case 3:
			c := &c19Row{dr: s.dt.CloneRow(row.dr), cells: append([]interface{}(nil), row.cells...)}
			s.rows = append(s.rows, c)
			for i := range s.cols {
				s.read(c, i)
			}
		case 4:
			s.outside(row)
		case 5, 6:
			s.compare(row, s.rows[t.R.Intn(len(s.rows))])
		case 7, 8, 9:
			s.read(row, t.R.Intn(len(s.cols)))
		default:
			s.assign(row)
		}
	}
	// Everything once more, so that a write to another place is seen.
	for _, row := range s.rows {
		for i := range s.cols {
			if t.Failed() {
				return
			}
			s.read(row, i)
		}
	}
	if s.dt.RowCount() != len(s.added) || s.dt.ColumnCount() != len(s.cols) {
		t.Failf("table has %d rows and %d columns, expected %d and %d", s.dt.RowCount(), s.dt.ColumnCount(), len(s.added), len(s.cols))
	}
	for i, r := range s.added {
		if s.dt.Row(i) != r.dr || s.dt.Rows()[i] != r.dr {
			t.Failf("row %d is not the one added", i)
		}
	}
	for i := range s.cols {
		if n := s.pickName(i); s.dt.ColumnIndex(n) != i || s.dt.ColumnByName(n) != s.dt.Column(i) {
			t.Failf("column %q is not found at %d", n, i)
		}
	}
	if s.dt.ColumnIndex("NoSuchField") != -1 || s.dt.ColumnByName("NoSuchField") != nil {
		t.Failf("unknown column is found")
	}
	t.Count("rows", len(s.rows))
	s.mentions(ds.String(), []string{ds.Name, "Things"})
	s.dt.InitRows(t.R.Intn(4))
	if s.dt.RowCount() != 0 || s.dt.Row(0) != nil {
		t.Failf("rows are left after the table's rows were initialized")
	}
	if t.R.Intn(2) == 0 && len(s.added) > 0 {
		s.dt.AddRow(s.added[len(s.added)-1].dr)
		if s.dt.RowCount() != 1 || s.dt.Row(0) != s.added[len(s.added)-1].dr {
			t.Failf("row added to an initialized table is missing")
		}
	}
	defer func() {
		s.dt.InitColumns(t.R.Intn(4))
		if s.dt.ColumnCount() != 0 || s.dt.Column(0) != nil || s.dt.ColumnByName(s.cols[0].name) != nil || s.dt.ColumnIndex(s.cols[0].name) != -1 {
			t.Failf("columns are left after the table's columns were initialized")
		}
	}()
	// Rows of tables with different column types do not compare.
	o := ds.CreateTable("Other")
	o.AddColumn(o.CreateColumn("x", allTypes[(int(s.cols[0].t)+1+t.R.Intn(14))%15], ""))
	if o.Column(0).Type() != s.cols[0].t {
		if _, err := data.CompareDataRowColumns(o.CreateRow(), s.rows[0].dr, 0, true); err == nil {
			t.Failf("columns of different types can be compared")
		}
	}
}
