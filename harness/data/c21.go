package main

import (
	"math"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"

	"verif/harness/vf"
)

var c21 = &vf.Prop{
	ID:    "C21",
	Level: "exploration",
	Rule: "no generated, mutated, assembled or random text, parsed and evaluated over rows with extreme values by every entry point, panics, " +
		"hangs or fails to give either a result or an error; distinct_nontrivial counts different texts",
	Assumptions: []string{"expressions nest at most 30 levels and texts stay below 4000 characters"},
	Quick:       400,
	Thorough:    6000,
	Timeout:     120 * time.Second,
	Case:        caseC21,
}

// extreme makes stored values at the edges of their types.
func extreme(r *rand.Rand, t data.DataTypeEnum) interface{} {
	switch t {
	case data.DataType.String:
		return pick(r, "", "\x00", "\xff\xfe", strings.Repeat("ab", 200), "%", "*", "**", "(", "[", "NaN", "Inf", "-Inf", "1e999999999", "1e-999999999",
			"9999999999999999999999999999", "0x", "{}", "'", "\"", "#", "{00000000-0000-0000-0000-000000000000}", "2020-13-45", "0000-00-00", "99999-01-01",
			"İıſK", " ", "-", "+", ".", "1.", "é", "日本語", "1/1/1", "24:61", "true", " ", "\t\n")
	case data.DataType.DateTime:
		return pick(r, time.Time{}, time.Unix(0, 0).UTC(), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(-5000, 1, 1, 0, 0, 0, 0, time.UTC),
			time.Date(200000, 1, 1, 0, 0, 0, 0, time.UTC), time.Unix(math.MaxInt32, 0).UTC())
	case data.DataType.Single:
		return pick(r, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 0)
	case data.DataType.Double:
		return pick(r, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 0, math.Copysign(0, -1))
	case data.DataType.Decimal:
		return pick(r, decimal.Decimal{}, decimal.Zero, decimal.New(1, 60), decimal.New(-1, -60), decimal.New(math.MaxInt64, 0), decimal.New(math.MinInt64, 20), decimal.New(5, -1))
	case data.DataType.Guid:
		return pick(r, guid.Empty, guidPool[0])
	case data.DataType.Boolean:
		return r.Intn(2) == 0
	}
	i := pick(r, int64(math.MinInt64), math.MaxInt64, math.MinInt32, math.MaxInt32, -1, 0, 1, 127, -128, 255, 32767, -32768, 65535, math.MaxUint32)
	if b := intBits[t]; b[1] == 1 {
		return signedX(t, i)
	}
	return unsignedX(t, uint64(i))
}

var functionNames = func() (out []string) {
	for n := range arity {
		out = append(out, n)
	}
	sort.Strings(out)
	return
}()

var tokens = []string{"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "XOR", "<", "<=", ">", ">=", "=", "==", "===", "!=", "!==", "<>", "AND", "OR", "&&", "||",
	"NOT", "!", "~", "IN", "LIKE", "IS", "NULL", "BINARY", "(", ")", "(", ")", ",", ";", "FILTER", "TOP", "WHERE", "ORDER", "BY", "ASC", "DESC", "Things",
	"True", "False", "0", "1", "-1", "2147483648", "9223372036854775808", "99999999999999999999999999", "0x", "0xFF", "0xFFFFFFFFFFFFFFFFFF", "1.", ".5", "1.5", "1e5",
	"1E400", "1e-400", "1e", "''", "'a'", "'%'", "'a%b'", "'", "\"TAG\"", "\"", "#2020-01-01#", "#x#", "##", "#", "{", "}", "PPA:12", "00000000-0000-0000-0000-000000000000",
	"{00000000-0000-0000-0000-000000000001}", "[a]", "`a`", "[", "`", "@", "$", "\\", "\x00", "é", "--", "/*", "*/", "\n", ":", ".", "NoSuch"}

// damage changes a text at random places.
func damage(r *rand.Rand, s string) string {
	b := []byte(s)
	for n := 1 + r.Intn(4); n > 0; n-- {
		if len(b) == 0 {
			b = []byte("x")
		}
		i := r.Intn(len(b))
		switch r.Intn(6) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b = append(b[:i], append([]byte(tokens[r.Intn(len(tokens))]), b[i:]...)...)
		case 3:
			j := i + r.Intn(len(b)-i)
			b = append(b[:i], b[j:]...)
		case 4:
			j := i + r.Intn(min(len(b)-i, 20))
			b = append(b, b[i:j]...)
		case 5:
			b[i] = "()'#\"{}[];,-+*/%<>=!&|^~ 019.eE"[r.Intn(31)]
		}
	}
	return string(b)
}

// odd is the expression of a function with odd arguments.
func (g *grower) odd() string {
	r := g.r
	name := functionNames[r.Intn(len(functionNames))]
	a := arity[name]
	n := a[0] + r.Intn(2)
	if r.Intn(10) == 0 {
		n = r.Intn(6)
	}
	var args []string
	for i := 0; i < n; i++ {
		switch r.Intn(5) {
		case 0:
			args = append(args, pick(r, "NULL", "0", "-1", "1", "2147483647", "-2147483648", "9223372036854775807", "1e308", "''", "'%'", "True", "99999999999999999999", "0.5",
				"100000000", "-100000000", "64", "32", "Now()", "'Year'", "'Millisecond'", "'Int32'", "'Guid'", "'Decimal'", "#2020-01-01#", "{00000000-0000-0000-0000-000000000000}"))
		case 1:
			args = append(args, render(r, g.grow(kind(r.Intn(8)), 2)))
		default:
			args = append(args, g.cols[r.Intn(len(g.cols))].name)
		}
	}
	return name + "(" + strings.Join(args, ", ") + ")"
}

// operation is an operator between columns or odd literals.
func (g *grower) operation() string {
	r := g.r
	side := func() string {
		switch r.Intn(4) {
		case 0:
			return g.odd()
		case 1:
			return pick(r, "0", "-1", "(-2147483648)", "(-9223372036854775808)", "1e308", "0.0", "''", "NULL", "True", "64", "(-64)", "9223372036854775807")
		}
		return g.cols[r.Intn(len(g.cols))].name
	}
	if r.Intn(5) == 0 {
		return pick(r, "-", "+", "~", "NOT ", "!") + "(" + side() + ")"
	}
	if r.Intn(6) == 0 {
		return side() + pick(r, " IN (", " NOT IN (", " IN BINARY (") + side() + ", " + side() + ")"
	}
	return side() + " " + tokens[r.Intn(25)] + " " + side()
}

func (g *grower) anyText() string {
	r := g.r
	expr := func() string { return render(r, g.grow(kind(r.Intn(8)), 1+r.Intn(3))) }
	switch r.Intn(12) {
	case 0, 1, 2:
		return g.odd()
	case 3, 4:
		return g.operation()
	case 5:
		return render(r, g.focus())
	case 6:
		return damage(r, expr())
	case 7:
		var w []string
		for n := r.Intn(14); n >= 0; n-- {
			if r.Intn(4) == 0 {
				w = append(w, g.cols[r.Intn(len(g.cols))].name)
			} else if r.Intn(6) == 0 {
				w = append(w, functionNames[r.Intn(len(functionNames))])
			} else {
				w = append(w, tokens[r.Intn(len(tokens))])
			}
		}
		return strings.Join(w, pick(r, " ", ""))
	case 8:
		b := make([]byte, r.Intn(60))
		for i := range b {
			b[i] = byte(r.Intn(256))
		}
		return string(b)
	case 9:
		n := 1 + r.Intn(30)
		return strings.Repeat(pick(r, "(", "-(", "(NOT ", "Abs(", "IIf(True,1,"), n) + pick(r, "1", "", "Int32_10", "NULL") + strings.Repeat(")", n-r.Intn(2))
	case 10:
		s := "FILTER " + pick(r, "", "TOP 5 ", "TOP -1 ", "TOP 99999999999999999999 ", "TOP 0 ") + pick(r, "Things", "things", "NoSuch", "[Things]") + " WHERE " + g.operation() +
			pick(r, "", " ORDER BY "+g.cols[r.Intn(len(g.cols))].name, " ORDER BY NoSuch DESC")
		if r.Intn(3) == 0 {
			s = damage(r, s)
		}
		if r.Intn(3) == 0 {
			s += "; " + g.operation()
		}
		return s
	}
	return expr()
}

func caseC21(t *vf.T) {
	r := t.R
	ds := data.NewDataSet()
	tab := newTable(r, ds, "Things", 2, .3)
	g := &grower{r: r, cols: tab.cols, wild: .15}
	for i := 0; i < 4; i++ {
		dr := tab.dt.CreateRow()
		for j, c := range tab.cols {
			if r.Intn(8) > 0 {
				if err := dr.SetValue(j, extreme(r, c.t)); err != nil {
					vf.Harnessf("row value: %v", err)
				}
			}
		}
		tab.dt.AddRow(dr)
	}
	// A computed column of arbitrary text, and one that refers to itself.
	g.cols = append(g.cols, column{name: "Calc", t: allTypes[r.Intn(len(allTypes))]}, column{name: "Loop", t: data.DataType.Int32})
	tab.dt.AddColumn(tab.dt.CreateColumn("Calc", g.cols[len(g.cols)-2].t, g.anyText()))
	tab.dt.AddColumn(tab.dt.CreateColumn("Loop", data.DataType.Int32, pick(r, "Loop + 1", "1", "Calc", "NoSuch", "Len('a')", "1 +")))
	parsed, values, errs := 0, 0, 0
	tally := func(s string, got *data.ValueExpression, err error) {
		t.Eval(1)
		switch {
		case err != nil:
			errs++
		case got == nil:
			t.Failf("%q gives neither a value nor an error", s)
		default:
			values++
			_ = got.String()
			if got.ValueType() < 0 || int(got.ValueType()) > 8 {
				t.Failf("%q gives a value of type %d", s, got.ValueType())
			}
		}
	}
	for i := 0; i < 40; i++ {
		s := g.anyText()
		if len(s) > 4000 {
			continue
		}
		t.Logf("%q", s)
		tree, err := data.GenerateExpressionTree(tab.dt, s, true)
		t.Eval(1)
		if err == nil {
			if tree == nil {
				t.Fatalf("%q gives neither a tree nor an error", s)
			}
			parsed++
			for row := 0; row < tab.dt.RowCount(); row++ {
				got, err := tree.Evaluate(tab.dt.Row(row))
				tally(s, got, err)
			}
			rows, err := tree.Select(tab.dt)
			if err == nil && rows == nil {
				t.Failf("%q selects neither rows nor an error", s)
			}
			t.Eval(1)
		}
		switch i % 5 {
		case 0:
			_, _ = tab.dt.Select(s, "", r.Intn(3))
			_, _ = tab.dt.Select("True", s, -1)
		case 1:
			_, _ = data.SelectDataRows(ds, s, "Things", nil, true)
			_, _ = data.SelectSignalIDSet(ds, s, "Things", &data.TableIDFields{SignalIDFieldName: "Guid_7", MeasurementKeyFieldName: "String_1", PointTagFieldName: "Calc"}, true)
		case 2:
			got, err := data.EvaluateExpression(s, true)
			tally(s, got, err)
		case 3:
			got, err := data.EvaluateDataRowExpression(tab.dt.Row(r.Intn(tab.dt.RowCount())), s, true)
			tally(s, got, err)
		case 4:
			_, _ = data.GenerateExpressionTrees(ds, "Things", s, true)
			_, _ = data.SelectDataRowSet(ds, s, "NoSuch", nil, true)
			p := data.NewFilterExpressionParser(s, true)
			_, _ = p.ExpressionTrees()
			_ = p.Evaluate(true, true)
			p.DataSet = ds
			_ = p.Evaluate(false, false)
			p.FilteredRowSet()
			p.FilteredSignalIDSet()
		}
		t.Eval(1)
		t.Sig(s)
	}
	for row := 0; row < tab.dt.RowCount(); row++ {
		_ = tab.dt.Row(row).String()
		for j := range g.cols {
			_, _ = tab.dt.Row(row).Value(j)
			_ = tab.dt.Row(row).ValueAsString(j)
			_, _ = data.CompareDataRowColumns(tab.dt.Row(row), tab.dt.Row(0), j, false)
			t.Eval(1)
		}
	}
	t.Count("texts accepted", parsed)
	t.Count("values", values)
	t.Count("errors", errs)
	t.Sample("%.200q", g.anyText())
}
