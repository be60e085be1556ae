package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"

	"verif/harness/vf"
)

var c31 = &vf.Prop{
	ID:    "C31",
	Level: "exploration",
	Rule: "the tree of every generated expression, walked through the public accessors, equals the syntax tree the text was written from, with the " +
		"table, limit and sort terms of its statement; every literal and result is read through all typed accessors and converted to all types; " +
		"distinct_nontrivial counts different (parent node, child node) pairs and (value type, null, target type, success) conversions",
	Assumptions: []string{"conversions out of the range of the target type are not claimed"},
	Quick:       2500,
	Thorough:    60000,
	Case:        caseC31,
}

// wantNode is the form of a syntax tree the walk is compared with.
func wantNode(n node, cols []column) string {
	list := func(a []node) string {
		s := ""
		for _, x := range a {
			s += " " + wantNode(x, cols)
		}
		return s
	}
	switch n := n.(type) {
	case *lit:
		if strings.HasPrefix(n.text, "-") {
			neg, _ := (&unary{"-", &lit{n.v, ""}}).eval(nil)
			return "(Unary - " + valueText(neg) + ")"
		}
		return valueText(n.v)
	case nullLit:
		return "null"
	case *col:
		return fmt.Sprintf("[%d %s]", n.i, cols[n.i].name)
	case *unary:
		op := n.op
		if op == "!" || op == "~" || op == "NOT" {
			op = "~"
		}
		return "(Unary " + op + " " + wantNode(n.a, cols) + ")"
	case *binary:
		op := map[string]string{"==": "=", "!=": "<>", "&&": "AND", "||": "OR", "XOR": "^"}[n.op]
		if op == "" {
			op = n.op
		}
		return "(Operator " + op + " " + wantNode(n.l, cols) + " " + wantNode(n.r, cols) + ")"
	case *isNull:
		if n.not != "" {
			return "(Operator IS NOT NULL " + wantNode(n.a, cols) + ")"
		}
		return "(Operator IS NULL " + wantNode(n.a, cols) + ")"
	case *inList:
		return fmt.Sprintf("(In %v %v %s:%s)", n.not != "", n.exact != "", wantNode(n.a, cols), list(n.list))
	case *like:
		op := "LIKE"
		if n.not != "" {
			op = "NOT LIKE"
		}
		if n.exact != "" {
			op += " BINARY"
		}
		return "(Operator " + op + " " + wantNode(n.a, cols) + " " + wantNode(n.pat, cols) + ")"
	case *call:
		return "(Function " + n.name + list(n.args) + ")"
	}
	panic("harness: node")
}

func valueText(v val) string {
	if v.k == kDbl {
		return fmt.Sprintf("%v:%v", v.k, v.x)
	}
	return fmt.Sprintf("%v:%s", v.k, text(v))
}

var kindOfValueType = map[data.ExpressionValueTypeEnum]kind{
	data.ExpressionValueType.Boolean: kBool, data.ExpressionValueType.Int32: kI32, data.ExpressionValueType.Int64: kI64,
	data.ExpressionValueType.Decimal: kDec, data.ExpressionValueType.Double: kDbl, data.ExpressionValueType.String: kStr,
	data.ExpressionValueType.Guid: kGuid, data.ExpressionValueType.DateTime: kTime,
}

var valueTypes = []data.ExpressionValueTypeEnum{data.ExpressionValueType.Boolean, data.ExpressionValueType.Int32, data.ExpressionValueType.Int64,
	data.ExpressionValueType.Decimal, data.ExpressionValueType.Double, data.ExpressionValueType.String, data.ExpressionValueType.Guid,
	data.ExpressionValueType.DateTime}

// walker renders the tree of the library and checks each node on the way.
type walker struct {
	*vf.T
	tab  *table
	text string
}

func (w *walker) node(e data.Expression, parent string) string {
	if e == nil || reflect.ValueOf(e).IsNil() {
		w.Failf("%q: a node under %s is missing", w.text, parent)
		return "missing"
	}
	v, errV := data.GetValueExpression(e)
	u, errU := data.GetUnaryExpression(e)
	c, errC := data.GetColumnExpression(e)
	l, errL := data.GetInListExpression(e)
	f, errF := data.GetFunctionExpression(e)
	o, errO := data.GetOperatorExpression(e)
	names := []string{"Value", "Unary", "Column", "InList", "Function", "Operator"}
	for i, err := range []error{errV, errU, errC, errL, errF, errO} {
		if (err == nil) != (e.Type().String() == names[i]) {
			w.Failf("%q: a node of type %v taken as %s: error %v", w.text, e.Type(), names[i], err)
			return "bad"
		}
	}
	list := func(a []data.Expression, as string) string {
		s := ""
		for _, x := range a {
			s += " " + w.node(x, as)
		}
		return s
	}
	w.Eval(1)
	is := e.Type().String()
	defer func() { w.Sig(parent + " > " + is) }()
	switch {
	case errV == nil:
		if data.Expression(v) != e {
			w.Failf("%q: a value node is not the node it was obtained from", w.text)
		}
		if v.IsNull() {
			return "null"
		}
		return valueText(w.value("literal", v))
	case errU == nil:
		is = "unary " + u.UnaryType().String()
		return "(Unary " + u.UnaryType().String() + " " + w.node(u.Value(), is) + ")"
	case errC == nil:
		dc := c.DataColumn()
		if dc == nil || dc.Parent() != w.tab.dt || w.tab.dt.Column(dc.Index()) != dc {
			w.Failf("%q: a column node refers to a column that is not of the table", w.text)
			return "bad"
		}
		return fmt.Sprintf("[%d %s]", dc.Index(), dc.Name())
	case errL == nil:
		return fmt.Sprintf("(In %v %v %s:%s)", l.HasNotKeyword(), l.ExtactMatch(), w.node(l.Value(), is), list(l.Arguments(), is))
	case errF == nil:
		is = f.FunctionType().String()
		return "(Function " + is + list(f.Arguments(), is) + ")"
	}
	is = o.OperatorType().String()
	s := "(Operator " + is + " " + w.node(o.LeftValue(), is)
	if o.OperatorType() == data.ExpressionOperatorType.IsNull || o.OperatorType() == data.ExpressionOperatorType.IsNotNull {
		return s + ")"
	}
	return s + " " + w.node(o.RightValue(), is) + ")"
}

// value reads a value in every way and gives it to the reference evaluator.
func (w *walker) value(what string, v *data.ValueExpression) val {
	k, ok := kindOfValueType[v.ValueType()]
	if !ok {
		w.Fatalf("%q: %s of type %v", w.text, what, v.ValueType())
	}
	got := val{k, v.Value()}
	if got.null() != v.IsNull() {
		w.Failf("%q: %s holds %v but null is %v", w.text, what, v.Value(), v.IsNull())
	}
	b, e0 := v.BooleanValue()
	i32, e1 := v.Int32Value()
	i64, e2 := v.Int64Value()
	dec, e3 := v.DecimalValue()
	dbl, e4 := v.DoubleValue()
	str, e5 := v.StringValue()
	gd, e6 := v.GuidValue()
	tm, e7 := v.DateTimeValue()
	errs := []error{e0, e1, e2, e3, e4, e5, e6, e7}
	reads := []interface{}{b, i32, i64, dec, dbl, str, gd, tm}
	zeros := []interface{}{false, int32(0), int64(0), decimal.Decimal{}, float64(0), "", guid.Guid{}, time.Time{}}
	for i, err := range errs {
		if (err == nil) != (kind(i) == k) {
			w.Failf("%q: %s of type %v read as %v: error %v", w.text, what, k, kind(i), err)
			continue
		}
		want := got.x
		if err != nil || v.IsNull() {
			want = zeros[i]
		}
		if !sameX(reads[i], want) {
			w.Failf("%q: %s %v read as %v gives %v, expected %v", w.text, what, got, kind(i), reads[i], want)
		}
	}
	if !v.IsNull() && v.String() != text(got) {
		w.Failf("%q: %s %v has the text %q", w.text, what, got, v.String())
	}
	for i, vt := range valueTypes {
		want, err := convert(got, kind(i))
		if err == errSkip {
			continue
		}
		c, cerr := v.Convert(vt)
		w.Eval(1)
		w.Sig(fmt.Sprintf("%v null %v to %v: %v", k, got.null(), kind(i), err == nil))
		switch {
		case err != nil && cerr == nil:
			w.Failf("%q: %s %v converted to %v gives %s, expected an error", w.text, what, got, kind(i), show(c))
		case err == nil && cerr != nil:
			w.Failf("%q: %s %v cannot be converted to %v: %v", w.text, what, got, kind(i), cerr)
		case err == nil && !sameValue(c, want):
			w.Failf("%q: %s %v converted to %v gives %s, expected %v", w.text, what, got, kind(i), show(c), want)
		}
		if !sameX(v.Value(), got.x) {
			w.Failf("%q: converting %s %v to %v changed it to %v", w.text, what, got, kind(i), v.Value())
		}
	}
	return got
}

func caseC31(t *vf.T) {
	r := t.R
	ds := data.NewDataSet()
	tabs := []*table{newTable(r, ds, "Things", 3, .2), newTable(r, ds, "Others", 3, .2)}
	prim := r.Intn(2)
	st := &style{r: r}
	type want struct {
		text, tree, name string
		tab              *table
		top              int
		order            []data.OrderByTerm
	}
	var all []want
	n := 1 + r.Intn(4)
	for len(all) < n {
		s := want{tab: tabs[prim], top: -1}
		filter := r.Intn(2) == 0
		if filter {
			s.tab = tabs[r.Intn(2)]
		}
		g := &grower{r: r, cols: s.tab.cols, wild: .1}
		root := g.grow(kind(r.Intn(8)), 1+r.Intn(5))
		s.tree = wantNode(root, s.tab.cols)
		s.text = render(r, root)
		if filter {
			s.name = mixed(t, s.tab.dt.Name())
			head := st.word("FILTER") + " "
			if r.Intn(2) == 0 {
				s.top = r.Intn(30) - 2
				if r.Intn(4) == 0 {
					s.top = int(int64(r.Uint64()) >> uint(r.Intn(64)))
				}
				head += fmt.Sprintf("%s %d ", st.word("TOP"), s.top)
			}
			s.text = head + s.name + " " + st.word("WHERE") + " " + s.text
			if r.Intn(2) == 0 {
				s.text += " " + st.word("ORDER") + " " + st.word("BY")
				for i := 1 + r.Intn(4); i > 0; i-- {
					o := data.OrderByTerm{Column: s.tab.dt.Column(r.Intn(len(s.tab.cols))), Ascending: true}
					if len(s.order) > 0 {
						s.text += ","
					}
					if o.ExactMatch = r.Intn(3) == 0; o.ExactMatch {
						s.text += " " + pick(r, st.word("BINARY"), "===")
					}
					s.text += " " + mixed(t, o.Column.Name())
					switch r.Intn(3) {
					case 0:
						s.text += " " + st.word("ASC")
					case 1:
						s.text += " " + st.word("DESC")
						o.Ascending = false
					}
					s.order = append(s.order, o)
				}
			}
		}
		all = append(all, s)
	}
	text := ""
	for i, s := range all {
		if i > 0 {
			text += pick(r, ";", "; ", " ;\n")
		}
		text += s.text
	}
	if r.Intn(3) == 0 {
		text += ";"
	}
	var trees []*data.ExpressionTree
	var err error
	switch r.Intn(3) {
	case 0:
		trees, err = data.GenerateExpressionTrees(ds, tabs[prim].dt.Name(), text, true)
	case 1:
		trees, err = data.GenerateExpressionTreesFromTable(tabs[prim].dt, text, true)
	case 2:
		var p *data.FilterExpressionParser
		if p, err = data.NewFilterExpressionParserForDataSet(ds, text, tabs[prim].dt.Name(), nil, true); err == nil {
			if trees, err = p.ExpressionTrees(); err == nil && p.FilterExpressionStatementCount() != n {
				t.Failf("%q: %d statements are counted, expected %d", text, p.FilterExpressionStatementCount(), n)
			}
		}
	}
	if err != nil || len(trees) != n {
		t.Fatalf("%q: %d trees for %d statements, error %v", text, len(trees), n, err)
	}
	for i, s := range all {
		w := &walker{t, s.tab, s.text}
		tree := trees[i]
		got := w.node(tree.Root, "root")
		if got != s.tree {
			t.Fatalf("%q is parsed as %s, expected %s", s.text, got, s.tree)
		}
		if tree.TopLimit != s.top || s.name != "" && tree.TableName != s.name {
			t.Fatalf("%q has table %q and limit %d", s.text, tree.TableName, tree.TopLimit)
		}
		if len(tree.OrderByTerms) != len(s.order) {
			t.Fatalf("%q has %d sort terms, expected %d", s.text, len(tree.OrderByTerms), len(s.order))
		}
		for j, o := range tree.OrderByTerms {
			if *o != s.order[j] {
				t.Fatalf("%q: sort term %d is %s ascending %v exact %v", s.text, j, o.Column.Name(), o.Ascending, o.ExactMatch)
			}
		}
		for row := 0; row < 3; row++ {
			if v, err := tree.Evaluate(s.tab.dt.Row(row)); err == nil {
				w.value("result", v)
			}
		}
		t.Count("statements", 1)
	}
	if _, err := data.GetValueExpression(nil); err == nil {
		t.Failf("a missing node is taken as a value")
	}
	if t.Idx < 3 {
		t.Sample("%q", text)
	}
}
