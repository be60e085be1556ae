package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"

	"verif/harness/metagen"
	"verif/harness/vf"
)

var c22 = &vf.Prop{
	ID:    "C22",
	Level: "exploration",
	Rule: "rows and signal IDs selected by generated conditions, sort orders, limits and multi-statement filters equal those of a reference " +
		"evaluation, whether asked for at once, statement by statement or again; distinct_nontrivial counts different (entry point, statement kind, share of rows, limit, error, sort keys) situations",
	Assumptions: []string{"which of the matching rows a limit keeps is only claimed without a sort order", "rows with equal sort keys may come in any order"},
	Quick:       500,
	Thorough:    7000,
	Case:        caseC22,
}

// idTable is a table whose rows have identification fields.
type idTable struct {
	*table
	name     string
	ids      *data.TableIDFields
	sig      int
	key, tag int
	rowAt    map[*data.DataRow]int
}

var tagNames = []string{"GPA_SHELBY:FREQ", "SHELBY-FQ", "a.b", "Tag1", "TAG1", "tag2", "x_9", "DFR!01", "V@1", "N#1", "$A"}

func newIDTable(t *vf.T, ds *data.DataSet, name string, ids *data.TableIDFields, rows int) *idTable {
	r := t.R
	it := &idTable{table: &table{dt: ds.CreateTable(name)}, name: name, ids: ids, rowAt: map[*data.DataRow]int{}}
	add := func(n string, ty data.DataTypeEnum) int {
		it.dt.AddColumn(it.dt.CreateColumn(n, ty, ""))
		it.cols = append(it.cols, column{name: n, t: ty})
		return len(it.cols) - 1
	}
	names := ids
	if names == nil {
		names = data.DefaultTableIDFields
	}
	for i, n := range r.Perm(len(allTypes)) {
		switch i {
		case 2:
			it.sig = add(names.SignalIDFieldName, data.DataType.Guid)
		case 5:
			it.key = add(names.MeasurementKeyFieldName, data.DataType.String)
		case 9:
			it.tag = add(names.PointTagFieldName, data.DataType.String)
		}
		add(fmt.Sprintf("%s_%d", allTypes[n].String(), i), allTypes[n])
	}
	nulls := []float64{0, .1, .4}[r.Intn(3)]
	repeat := r.Intn(3) == 0
	for i := 0; i < rows; i++ {
		row := make([]interface{}, len(it.cols))
		for j, c := range it.cols {
			if r.Float64() < nulls {
				continue
			}
			row[j] = sample(r, c.t)
			switch j {
			case it.sig:
				if g := metagen.Guid(r); !repeat {
					row[j] = g
				}
				if r.Intn(30) == 0 {
					row[j] = guid.Empty
				}
			case it.key:
				row[j] = fmt.Sprintf("%s:%d", []string{"PPA", "ppa", "Shelby", "X-1"}[r.Intn(4)], r.Intn(rows+2))
			case it.tag:
				row[j] = tagNames[r.Intn(len(tagNames))]
			}
		}
		dr := it.dt.CreateRow()
		for j, x := range row {
			if err := dr.SetValue(j, x); err != nil {
				vf.Harnessf("row value: %v", err)
			}
		}
		it.dt.AddRow(dr)
		it.rowAt[dr] = i
		it.rows = append(it.rows, row)
	}
	ds.AddTable(it.dt)
	return it
}

type term struct {
	col   int
	desc  bool
	exact bool
}

// stmt is one statement of a filter with what it selects.
type stmt struct {
	text    string
	cond    string
	tab     *idTable
	top     int  // negative: none
	hasTop  bool // the statement has a TOP clause
	order   []term
	rows    []int // matching rows that count, in table order; all matching ones when sorted
	all     []int // all matching rows
	isGuid  bool
	id      guid.Guid
	err     error
	nonBool bool
	kind    string
}

// match evaluates a condition over the rows of a table.
func (s *stmt) match(n node) bool {
	for i := range s.tab.rows {
		done := s.top >= 0 && s.hasTop && len(s.all) >= s.top
		v, err := n.eval(s.tab.env(i))
		if err == errSkip {
			return false
		}
		if err != nil {
			if !done && s.err == nil {
				s.err = err
			}
			continue
		}
		if v.k != kBool {
			if !done {
				s.nonBool = true
			}
			continue
		}
		if !v.null() && v.x.(bool) {
			if !done {
				s.rows = append(s.rows, i)
			}
			s.all = append(s.all, i)
		}
	}
	return true
}

func (c *c22Case) orderTerms(tab *idTable) (terms []term, text string) {
	for n := 1 + c.R.Intn(3); n > 0; n-- {
		o := term{col: c.R.Intn(len(tab.cols)), desc: c.R.Intn(2) == 0, exact: c.R.Intn(3) == 0}
		terms = append(terms, o)
		if text != "" {
			text += ", "
		}
		if o.exact {
			text += c.st.word([]string{"BINARY", "==="}[c.R.Intn(2)]) + " "
		}
		text += mixed(c.T, tab.cols[o.col].name)
		if o.desc {
			text += " " + c.st.word("DESC")
		} else if c.R.Intn(2) == 0 {
			text += " " + c.st.word("ASC")
		}
	}
	return
}

type c22Case struct {
	*vf.T
	st   *style
	ds   *data.DataSet
	tabs []*idTable
	prim *idTable
}

// condition makes a Boolean expression whose value is claimed for every row.
func (c *c22Case) condition(s *stmt) bool {
	g := &grower{r: c.R, cols: s.tab.cols, wild: []float64{0, 0, .01}[c.R.Intn(3)]}
	for try := 0; try < 20; try++ {
		n := g.grow(kBool, 1+c.R.Intn(3))
		if c.R.Intn(8) == 0 {
			n = &lit{boolean(true), "True"}
		}
		if _, ok := n.(*lit); ok && n.(*lit).v.k == kGuid {
			continue
		}
		s.err, s.nonBool, s.rows, s.all = nil, false, nil, nil
		if s.match(n) && (s.err == nil && !s.nonBool || c.R.Intn(3) == 0) {
			s.cond = render(c.R, n)
			return true
		}
	}
	return false
}

// statement makes a statement of a filter.
func (c *c22Case) statement(single bool) *stmt {
	s := &stmt{tab: c.prim, top: -1}
	switch c.R.Intn(9) {
	case 0:
		s.kind, s.isGuid = "signal ID", true
		s.id = metagen.Guid(c.R)
		if len(c.prim.rows) > 0 && c.R.Intn(4) > 0 {
			if g, ok := c.prim.rows[c.R.Intn(len(c.prim.rows))][c.prim.sig].(guid.Guid); ok {
				s.id = g
			}
		}
		l := metagen.GuidText(s.id)
		s.text = []string{l, strings.ToUpper(l), "{" + l + "}", "'" + l + "'"}[c.R.Intn(4)]
		for i, row := range c.prim.rows {
			if row[c.prim.sig] == s.id && s.id != guid.Empty {
				s.rows = []int{i}
				break
			}
		}
		return s
	case 1, 2:
		col := c.prim.key
		s.kind = "key"
		want := fmt.Sprintf("%s:%d", []string{"PPA", "ppa", "SHELBY", "x-1"}[c.R.Intn(4)], c.R.Intn(len(c.prim.rows)+2))
		s.text = want
		if c.R.Intn(2) == 0 {
			col = c.prim.tag
			s.kind = "tag"
			want = mixed(c.T, tagNames[1+c.R.Intn(len(tagNames)-1)])
			s.text = "\"" + want + "\""
		}
		for i, row := range c.prim.rows {
			if x, ok := row[col].(string); ok && strings.EqualFold(x, want) {
				s.rows = []int{i}
				break
			}
		}
		return s
	case 3:
		s.kind = "expression"
		if !c.condition(s) {
			return nil
		}
		s.text = s.cond
		return s
	}
	s.kind = "filter"
	if c.R.Intn(3) == 0 {
		s.tab = c.tabs[c.R.Intn(len(c.tabs))]
	}
	top := ""
	if c.R.Intn(3) == 0 {
		s.hasTop = true
		s.top = []int{0, 1, 2, 5, 1000, -1}[c.R.Intn(6)]
		top = fmt.Sprintf(" %s %d", c.st.word("TOP"), s.top)
		if s.top > 0 && c.R.Intn(3) == 0 {
			top = fmt.Sprintf(" %s +%d", c.st.word("TOP"), s.top)
		}
	}
	if !c.condition(s) {
		return nil
	}
	s.text = fmt.Sprintf("%s%s %s %s %s", c.st.word("FILTER"), top, mixed(c.T, s.tab.name), c.st.word("WHERE"), s.cond)
	if c.R.Intn(2) == 0 && (single || !s.hasTop) {
		var text string
		s.order, text = c.orderTerms(s.tab)
		s.text += fmt.Sprintf(" %s %s %s", c.st.word("ORDER"), c.st.word("BY"), text)
	}
	return s
}

// checkRows compares rows selected from one table with what one statement selects.
func (c *c22Case) checkRows(how string, s *stmt, got []*data.DataRow, sorted, limited bool) {
	c.Eval(1)
	want := s.rows
	if !limited && s.hasTop {
		want = s.all
	}
	at := make([]int, len(got))
	seen := map[int]bool{}
	for i, dr := range got {
		n, ok := s.tab.rowAt[dr]
		if !ok || seen[n] {
			c.Failf("%s %q gives row %d twice or from nowhere", how, s.text, n)
			return
		}
		seen[n] = true
		at[i] = n
	}
	if len(got) != len(want) {
		c.Failf("%s %q gives rows %v of %d, expected %v", how, s.text, at, len(s.tab.rows), want)
		return
	}
	if limited && s.hasTop && s.order != nil {
		// Which matching rows remain is not claimed.
		match := map[int]bool{}
		for _, n := range s.all {
			match[n] = true
		}
		for _, n := range at {
			if !match[n] {
				c.Failf("%s %q gives row %d that does not match", how, s.text, n)
			}
		}
	} else {
		for _, n := range want {
			if !seen[n] {
				c.Failf("%s %q gives rows %v, expected %v", how, s.text, at, want)
				return
			}
		}
	}
	if !sorted || s.order == nil {
		for i := range at {
			if s.order == nil && at[i] != want[i] {
				c.Failf("%s %q gives rows %v, expected the order %v", how, s.text, at, want)
				return
			}
		}
		return
	}
	for _, n := range at {
		for _, o := range s.order {
			x, err := s.tab.cell(n, o.col)
			if f, ok := x.(float64); err != nil || ok && f != f {
				return
			}
			if f, ok := x.(float32); ok && f != f {
				return
			}
		}
	}
	for i := 1; i < len(at); i++ {
		a, b := s.tab.rows[at[i-1]], s.tab.rows[at[i]]
		for _, o := range s.order {
			n, _ := rank(s.tab.cols[o.col].t, a[o.col], b[o.col], o.exact)
			if o.desc {
				n = -n
			}
			if n < 0 {
				break
			}
			if n > 0 {
				c.Failf("%s %q gives row with %v before %v in column %s", how, s.text, a[o.col], b[o.col], s.tab.cols[o.col].name)
				return
			}
		}
		c.Eval(1)
	}
}

func (c *c22Case) signalIDs(s *stmt) []guid.Guid {
	if s.isGuid {
		if s.id == guid.Empty {
			return nil
		}
		return []guid.Guid{s.id}
	}
	var out []guid.Guid
	for _, n := range s.rows {
		if g, ok := s.tab.rows[n][s.tab.sig].(guid.Guid); ok && g != guid.Empty {
			out = append(out, g)
		}
	}
	return out
}

func idText(ids []guid.Guid) string {
	var s []string
	for _, g := range ids {
		s = append(s, g.String())
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func caseC22(t *vf.T) {
	c := &c22Case{T: t, ds: data.NewDataSet(), st: &style{r: t.R}}
	size := func() int { return []int{0, 1, 3, 8, 14, 40, 60}[t.R.Intn(7)] }
	c.tabs = append(c.tabs, newIDTable(t, c.ds, "ActiveMeasurements", nil, size()))
	c.tabs = append(c.tabs, newIDTable(t, c.ds, "Other", &data.TableIDFields{SignalIDFieldName: "SigID", MeasurementKeyFieldName: "Key", PointTagFieldName: "Tag"}, size()))
	c.prim = c.tabs[t.R.Intn(2)]
	for i := 0; i < 5 && !t.Failed(); i++ {
		c.tableSelect()
	}
	for i := 0; i < 5 && !t.Failed(); i++ {
		c.filter()
	}
	if !t.Failed() {
		c.invalid()
	}
}

// tableSelect selects rows of one table.
func (c *c22Case) tableSelect() {
	tab := c.tabs[c.R.Intn(2)]
	s := &stmt{tab: tab, top: []int{-1, 0, 1, 2, 3, 7, 1000}[c.R.Intn(7)]}
	s.hasTop = s.top > 0
	if c.R.Intn(10) == 0 {
		s.match(&lit{boolean(true), "True"})
		s.cond = ""
	} else if !c.condition(s) {
		return
	}
	sortBy := ""
	if c.R.Intn(2) == 0 {
		s.order, sortBy = c.orderTerms(tab)
	}
	s.text = fmt.Sprintf("%s | %s | %d", s.cond, sortBy, s.top)
	got, err := tab.dt.Select(s.cond, sortBy, s.top)
	c.note("select", s)
	if s.err != nil || s.nonBool {
		c.Eval(1)
		if err == nil {
			c.Failf("selecting %q gives %d rows, expected an error (%v)", s.text, len(got), s.err)
		}
		return
	}
	if err != nil {
		c.Failf("selecting %q fails: %v", s.text, err)
		return
	}
	c.checkRows("selecting", s, got, true, true)
	if s.cond == "" {
		return
	}
	// The same by a predicate.
	limit := []int{-1, 0, 1, 4}[c.R.Intn(4)]
	match := map[int]bool{}
	for _, n := range s.all {
		match[n] = true
	}
	p := &stmt{text: "predicate", tab: tab, top: limit, hasTop: limit >= 0, rows: s.all, all: s.all}
	if limit >= 0 && limit < len(s.all) {
		p.rows = s.all[:limit]
	}
	c.checkRows("rows by", p, tab.dt.RowsWhere(func(dr *data.DataRow) bool { return match[tab.rowAt[dr]] }, limit), false, true)
	// The condition as an expression tree.
	if tree, err := data.GenerateExpressionTree(tab.dt, s.cond, true); err != nil {
		c.Failf("condition %q is rejected: %v", s.cond, err)
	} else if s.hasTop {
		return
	} else if got, err := tree.Select(tab.dt); err != nil {
		c.Failf("selecting by tree %q fails: %v", s.cond, err)
	} else {
		c.checkRows("selecting by tree", &stmt{text: s.cond, tab: tab, rows: s.all, all: s.all}, got, true, true)
		// The rows that do not match, by a predicate over the results.
		var rest []int
		for i := 0; i < tab.dt.RowCount(); i++ {
			if tab.dt.Row(i) != nil && !match[i] {
				rest = append(rest, i)
			}
		}
		applied := c.R.Intn(2) == 0
		tree.TopLimit = limit
		q := &stmt{text: "not " + s.cond, tab: tab, top: limit, hasTop: applied && limit >= 0, rows: rest, all: rest}
		if q.hasTop && limit < len(rest) {
			q.rows = rest[:limit]
		}
		got, err = tree.SelectWhere(tab.dt, func(v *data.ValueExpression) (bool, error) {
			b, err := v.BooleanValue()
			return !b, err
		}, applied, c.R.Intn(2) == 0)
		if err != nil {
			c.Failf("selecting where not %q fails: %v", s.cond, err)
		} else {
			c.checkRows("selecting where", q, got, false, true)
			c.Count("selections by predicate", 1)
		}
		if got, err := tree.SelectWhere(tab.dt, func(*data.ValueExpression) (bool, error) { return true, errPredicate }, applied, true); len(rest)+len(s.all) > 0 && !(applied && limit == 0) && err != errPredicate {
			c.Failf("selecting by a failing predicate gives %d rows and error %v", len(got), err)
		}
	}
}

var errPredicate = errors.New("predicate failed")

func bucket(n int) string {
	switch {
	case n == 0:
		return "none"
	case n == 1:
		return "one"
	case n <= 12:
		return "few"
	}
	return "many"
}

func (c *c22Case) note(how string, s *stmt) {
	c.Sig(fmt.Sprintf("%s %s rows %s of %s limit %v error %v sorted by %d", how, s.kind, bucket(len(s.rows)), bucket(len(s.tab.rows)), s.hasTop, s.err != nil || s.nonBool, len(s.order)))
	c.Count("rows matched", len(s.rows))
	c.Count("statements", 1)
}

// filter evaluates filters of one or several statements.
func (c *c22Case) filter() {
	n := []int{1, 1, 2, 3, 5}[c.R.Intn(5)]
	var all []*stmt
	for len(all) < n {
		if s := c.statement(n == 1); s != nil && !s.nonBool {
			all = append(all, s)
			c.note(fmt.Sprintf("filter of %d:", n), s)
		}
	}
	text := strings.Repeat(";", c.R.Intn(2))
	for i, s := range all {
		if i > 0 {
			text += strings.Repeat(";", 1+c.R.Intn(2)) + " "
		}
		text += s.text
	}
	text += strings.Repeat(";", c.R.Intn(2))
	failing, foreign := false, false
	wantRows := map[*data.DataRow]bool{}
	wantIDs := map[guid.Guid]bool{}
	for _, s := range all {
		failing = failing || s.err != nil
		foreign = foreign || s.tab != c.prim
		for _, n := range s.rows {
			wantRows[s.tab.dt.Row(n)] = true
		}
		for _, g := range c.signalIDs(s) {
			wantIDs[g] = true
		}
	}
	prim := mixed(c.T, c.prim.name)
	// Rows.
	check := func(how string, rows []*data.DataRow, err error, sorted bool) {
		c.Eval(1)
		if failing {
			if err == nil {
				c.Failf("%s %q gives %d rows, expected an error", how, text, len(rows))
			}
			return
		}
		if err != nil {
			c.Failf("%s %q fails: %v", how, text, err)
			return
		}
		if n == 1 {
			c.checkRows(how, all[0], rows, sorted, true)
			return
		}
		seen := map[*data.DataRow]bool{}
		for _, dr := range rows {
			if seen[dr] || !wantRows[dr] {
				c.Failf("%s %q gives row %d twice (%v) or without a match", how, text, c.tabs[0].rowAt[dr]+c.tabs[1].rowAt[dr], seen[dr])
				return
			}
			seen[dr] = true
		}
		if len(seen) != len(wantRows) {
			c.Failf("%s %q gives %d rows, expected %d", how, text, len(seen), len(wantRows))
		}
	}
	rows, err := data.SelectDataRows(c.ds, text, prim, c.prim.ids, true)
	check("rows of", rows, err, true)
	rows, err = data.SelectDataRowsFromTable(c.prim.dt, text, "", c.prim.ids, true)
	check("rows of table", rows, err, true)
	if !(n == 1 && all[0].order != nil && all[0].hasTop) {
		set, err := data.SelectDataRowSet(c.ds, text, prim, c.prim.ids, true)
		if n == 1 && all[0].order == nil {
			rows = inOrder(c.tabs, set.Keys())
		} else {
			rows = set.Keys()
		}
		check("row set of", rows, err, false)
		set, err = data.SelectDataRowSetFromTable(c.prim.dt, text, c.prim.ids, true)
		check("row set of table", inOrder(c.tabs, set.Keys()), err, false)
	}
	// Signal IDs.
	idErr := failing || foreign
	ids := func(how string, got []guid.Guid, err error, fails bool) {
		c.Eval(1)
		if fails {
			if err == nil {
				c.Failf("%s %q gives %d IDs, expected an error", how, text, len(got))
			}
			return
		}
		if err != nil {
			c.Failf("%s %q fails: %v", how, text, err)
			return
		}
		if n == 1 && all[0].order != nil && all[0].hasTop {
			return
		}
		want := []guid.Guid{}
		for g := range wantIDs {
			want = append(want, g)
		}
		if a, b := idText(got), idText(want); a != b {
			c.Failf("%s %q gives %s, expected %s", how, text, a, b)
		}
		c.Count("signal IDs", len(got))
	}
	set, err := data.SelectSignalIDSet(c.ds, text, prim, c.prim.ids, true)
	ids("signal IDs of", set.Keys(), err, idErr)
	set, err = data.SelectSignalIDSetFromTable(c.prim.dt, text, "", c.prim.ids, true)
	ids("signal IDs of table", set.Keys(), err, idErr)
	if !idErr {
		union := map[guid.Guid]bool{}
		for _, s := range all {
			set, err := data.SelectSignalIDSet(c.ds, s.text, prim, c.prim.ids, true)
			if err != nil {
				c.Failf("signal IDs of %q fail: %v", s.text, err)
				return
			}
			for g := range set {
				union[g] = true
			}
		}
		var got []guid.Guid
		for g := range union {
			got = append(got, g)
		}
		ids("signal IDs of the single statements of", got, nil, false)
	}
	// A parser that knows the ID fields of both tables, evaluated repeatedly.
	p, err := data.NewFilterExpressionParserForDataSet(c.ds, text, prim, c.prim.ids, true)
	if err != nil {
		c.Failf("parser for %q: %v", text, err)
		return
	}
	for _, tab := range c.tabs {
		if tab != c.prim {
			f := tab.ids
			if f == nil {
				f = data.DefaultTableIDFields
			}
			p.TableIDFields[mixed(c.T, tab.name)] = f
		}
	}
	p.TrackFilteredSignalIDs = true
	for i := 0; i < 2; i++ {
		p.TrackFilteredRows = c.R.Intn(2) == 0
		sorted := c.R.Intn(2) == 0
		err := p.Evaluate(true, sorted)
		got := p.FilteredSignalIDs()
		if err == nil && p.FilterExpressionStatementCount() != n {
			c.Failf("%q has %d statements, expected %d", text, p.FilterExpressionStatementCount(), n)
		}
		if n == 1 {
			// Duplicates in the table may come through.
			if err == nil && !failing && all[0].order == nil {
				if want := c.signalIDs(all[0]); fmt.Sprint(got) != fmt.Sprint(append([]guid.Guid{}, want...)) {
					c.Failf("parser gives %v for %q, expected %v", got, text, want)
				}
			}
			got = p.FilteredSignalIDSet().Keys()
		} else {
			ids("parsed signal ID set of", p.FilteredSignalIDSet().Keys(), err, failing)
		}
		ids("parsed signal IDs of", got, err, failing)
		if p.TrackFilteredRows && !(n == 1 && all[0].order != nil && all[0].hasTop && !sorted) {
			check("parsed rows of", p.FilteredRows(), err, sorted)
			if n == 1 && !sorted && err == nil { // in the order of the table, whatever order was asked for
				rows := p.FilteredRows()
				for i := 1; i < len(rows); i++ {
					if tab := all[0].tab; tab.rowAt[rows[i-1]] >= tab.rowAt[rows[i]] {
						c.Failf("unsorted rows of %q: row %d is before row %d", text, tab.rowAt[rows[i-1]], tab.rowAt[rows[i]])
						break
					}
				}
			}
			if n > 1 && err == nil {
				check("parsed row set of", p.FilteredRowSet().Keys(), err, false)
			}
		}
	}
	if !failing {
		if trees, err := p.ExpressionTrees(); err != nil {
			c.Failf("expression trees of %q: %v", text, err)
		} else {
			want := 0
			for _, s := range all {
				want += int(b2i(s.cond != ""))
			}
			if len(trees) != want {
				c.Failf("%q has %d expression trees, expected %d", text, len(trees), want)
			}
		}
	}
	// Without limits.
	if n == 1 && all[0].hasTop && all[0].kind == "filter" && !failing {
		if p, err := data.NewFilterExpressionParserForDataSet(c.ds, text, prim, c.prim.ids, true); err == nil {
			s := *all[0]
			if err := p.Evaluate(false, true); err == nil {
				s.rows = s.all
				s.hasTop = false
				c.checkRows("all rows of", &s, p.FilteredRows(), true, false)
			}
		}
	}
	c.Sample("%.300q", text)
}

// inOrder sorts rows as they are in their tables.
func inOrder(tabs []*idTable, rows []*data.DataRow) []*data.DataRow {
	at := func(dr *data.DataRow) int {
		for i, tab := range tabs {
			if n, ok := tab.rowAt[dr]; ok {
				return i*100000 + n
			}
		}
		return -1
	}
	sort.Slice(rows, func(i, j int) bool { return at(rows[i]) < at(rows[j]) })
	return rows
}

// invalid checks selections that must be errors.
func (c *c22Case) invalid() {
	name := c.prim.name
	bad := []string{
		"FILTER NoSuchTable WHERE True",
		"FILTER " + name + " WHERE NoSuchColumn = 1",
		"FILTER " + name + " WHERE True ORDER BY NoSuchColumn",
		"FILTER " + name + " WHERE (True",
		"FILTER " + name + " WHERE",
		"FILTER " + name,
		"FILTER TOP x " + name + " WHERE True",
		"FILTER " + name + " WHERE True ORDER BY",
		"FILTER " + name + " WHERE True True",
		"FILTER " + name + " WHERE True; FILTER NoSuchTable WHERE True",
		"True AND",
		"True; ; ) ;",
		"1 = = 2",
		"@@",
		"",
	}
	for _, s := range bad {
		c.Eval(3)
		if rows, err := data.SelectDataRows(c.ds, s, name, c.prim.ids, true); err == nil {
			c.Failf("rows of the invalid %q: %d", s, len(rows))
		}
		if rows, err := data.SelectDataRowSet(c.ds, s, name, c.prim.ids, true); err == nil {
			c.Failf("row set of the invalid %q: %d", s, len(rows))
		}
		if ids, err := data.SelectSignalIDSet(c.ds, s, name, c.prim.ids, true); err == nil {
			c.Failf("signal IDs of the invalid %q: %d", s, len(ids))
		}
	}
	for _, s := range []string{"NoSuchColumn = 1", "(True", "True AND", "1 +"} {
		c.Eval(1)
		if rows, err := c.prim.dt.Select(s, "", -1); err == nil {
			c.Failf("selecting the invalid %q: %d rows", s, len(rows))
		}
	}
	for _, s := range []string{"NoSuchColumn", "SignalID,,", "123"} {
		c.Eval(1)
		if rows, err := c.prim.dt.Select("True", s, -1); err == nil {
			c.Failf("sorting by the invalid %q: %d rows", s, len(rows))
		}
	}
	if rows, err := data.SelectDataRows(nil, "True", name, c.prim.ids, true); err == nil {
		c.Failf("rows of no data set: %d", len(rows))
	}
	if rows, err := data.SelectDataRowsFromTable(nil, "True", name, c.prim.ids, true); err == nil {
		c.Failf("rows of no table: %d", len(rows))
	}
	if ids, err := data.SelectSignalIDSetFromTable(nil, "True", name, c.prim.ids, true); err == nil {
		c.Failf("signal IDs of no table: %d", len(ids))
	}
}
