package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/sttp/goapi/sttp/data"
	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/xml"

	"verif/harness/metagen"
	"verif/harness/vf"
)

var c36 = &vf.Prop{
	ID:    "C36",
	Level: "exploration",
	Rule: "every answer that one of several concurrent readers of the same freshly loaded data set, document and expressions gets equals the answer the same question has for a lone reader of a second copy, " +
		"with the race detector watching; distinct_nontrivial counts different (question, value/nothing/error, asked by several readers at once) situations",
	Quick:       130,
	Thorough:    900,
	RaceMatters: true,
	Case:        caseC36,
}

// world is one copy of everything the readers share.
type world struct {
	ds    *data.DataSet
	tab   *table
	other *data.DataSet
	doc   xml.XmlDocument
	trees []*data.ExpressionTree
	rowAt map[*data.DataRow]string
	asks  []ask
}

// ask is a question about the world; answers do not depend on who else is asking.
type ask struct {
	kind string
	get  func() string
}

func (w *world) rows(rows []*data.DataRow, err error) string {
	if err != nil {
		return "error"
	}
	var b strings.Builder
	for _, row := range rows {
		b.WriteString(w.rowAt[row] + ";")
	}
	return b.String()
}

func answer(v interface{}, null bool, err error) string {
	if err != nil {
		return "error"
	}
	if null || v == nil {
		return "nothing"
	}
	return fmt.Sprintf("%T %v", v, v)
}

func sorted(s []string) string {
	s = append([]string{}, s...)
	sort.Strings(s)
	return strings.Join(s, ";")
}

// newWorld makes the copy of the world that a seed stands for.
func newWorld(t *vf.T, seed int64) *world {
	r := rand.New(rand.NewSource(seed))
	w := &world{ds: data.NewDataSet(), rowAt: map[*data.DataRow]string{}}
	w.tab = newTable(r, w.ds, "Things", 3+r.Intn(8), []float64{0, .2, .5}[r.Intn(3)])
	g := &grower{r: r, cols: w.tab.cols}
	for i := 1 + r.Intn(3); i > 0; i-- {
		ty := allTypes[r.Intn(len(allTypes))]
		g.cols = w.tab.cols
		e := g.grow(kindOfType[ty], 1+r.Intn(2))
		c := column{name: fmt.Sprintf("Computed%d", len(w.tab.cols)), t: ty, expr: e}
		w.tab.dt.AddColumn(w.tab.dt.CreateColumn(c.name, c.t, render(r, e)))
		w.tab.cols = append(w.tab.cols, c)
	}
	g.cols = w.tab.cols
	d := &metagen.Doc{Name: "Metadata"}
	for i := 1 + r.Intn(3); i > 0; i-- {
		tab := metagen.RandTable(r, fmt.Sprintf("Table%d", i), 1+r.Intn(8), 0)
		for n := 1 + r.Intn(10); n > 0; n-- {
			tab.AddRow(r, 5)
		}
		d.Tables = append(d.Tables, tab)
	}
	body := d.XML(r)
	w.other = data.NewDataSet()
	if err := w.other.ParseXml(body); err != nil {
		t.Fatalf("document refused: %v\n%.2000s", err, body)
	}
	if err := w.doc.LoadXml(body); err != nil {
		t.Fatalf("document refused: %v\n%.2000s", err, body)
	}
	for _, ds := range []*data.DataSet{w.ds, w.other} {
		for _, dt := range ds.Tables() {
			for i := 0; i < dt.RowCount(); i++ {
				w.rowAt[dt.Row(i)] = fmt.Sprintf("%s %d", dt.Name(), i)
			}
		}
	}
	var texts []string
	for i := 0; i < 5; i++ {
		k := kind(r.Intn(8))
		if i < 3 {
			k = kBool
		}
		s := render(r, g.grow(k, 1+r.Intn(3)))
		tree, err := data.GenerateExpressionTree(w.tab.dt, s, true)
		if err != nil {
			t.Fatalf("%q is rejected: %v", s, err)
		}
		w.trees, texts = append(w.trees, tree), append(texts, s)
	}
	ids := &data.TableIDFields{}
	for _, c := range w.tab.cols {
		if c.t == data.DataType.Guid {
			ids.SignalIDFieldName = c.name
		}
	}
	for i := 0; i < 70; i++ {
		w.question(r, d, body, texts, ids)
	}
	return w
}

// question adds one question.
func (w *world) question(r *rand.Rand, d *metagen.Doc, body []byte, texts []string, ids *data.TableIDFields) {
	add := func(kind string, get func() string) { w.asks = append(w.asks, ask{kind, get}) }
	dt, cols := w.tab.dt, w.tab.cols
	row, row2, col := r.Intn(len(w.tab.rows)), r.Intn(len(w.tab.rows)), r.Intn(len(cols))
	if r.Intn(2) == 0 {
		col = len(cols) - 1 // a computed column
	}
	name := mixCase(r, cols[col].name)
	cond := texts[r.Intn(3)]
	other := d.Tables[r.Intn(len(d.Tables))]
	calc := ""
	if cols[col].expr != nil {
		calc = " of a computed column"
	}
	switch r.Intn(17) {
	case 0:
		add("value"+calc, func() string { v, err := dt.Row(row).Value(col); return answer(v, false, err) })
	case 1:
		add("value by name"+calc, func() string { v, err := dt.Row(row).ValueByName(name); return answer(v, false, err) })
	case 2:
		for _, a := range accessors {
			if a := a; a.t == cols[col].t {
				add("typed value"+calc, func() string { return answer(a.index(dt.Row(row), col)) })
				add("typed value by name"+calc, func() string { return answer(a.byName(dt.Row(row), name)) })
			}
		}
	case 3:
		add("text"+calc, func() string { return dt.RowValueAsString(row, col) })
	case 4:
		add("text by name"+calc, func() string { return dt.RowValueAsStringByName(row, name) })
	case 5:
		add("row text", func() string { return dt.Row(row).String() })
	case 6:
		add("comparison"+calc, func() string {
			n, err := data.CompareDataRowColumns(dt.Row(row), dt.Row(row2), col, true)
			return answer(n, false, err)
		})
	case 7:
		order := cols[r.Intn(len(cols))].name
		if r.Intn(3) == 0 {
			order = ""
		}
		limit := []int{-1, 1, 3}[r.Intn(3)]
		add("selection", func() string { return w.rows(dt.Select(cond, order, limit)) })
	case 8:
		i := r.Intn(3)
		add("selection by shared expression", func() string { return w.rows(w.trees[i].Select(dt)) })
	case 9:
		i := r.Intn(len(w.trees))
		add("value of shared expression", func() string {
			v, err := w.trees[i].Evaluate(dt.Row(row))
			if err != nil {
				return "error"
			}
			return show(v)
		})
	case 10:
		text := fmt.Sprintf("FILTER TOP %d Things WHERE %s ORDER BY %s; FILTER %s WHERE True", 1+r.Intn(5), cond, cols[r.Intn(len(cols))].name, other.Name)
		add("filter", func() string {
			return w.rows(data.SelectDataRows(w.ds, text, "Things", nil, true))
		})
		add("filter of one table", func() string {
			return w.rows(data.SelectDataRows(w.ds, "FILTER Things WHERE "+cond, "Things", nil, true))
		})
	case 11:
		add("signal IDs", func() string {
			set, err := data.SelectSignalIDSet(w.ds, "FILTER Things WHERE "+cond, "Things", ids, true)
			if err != nil {
				return "error"
			}
			var s []string
			for id := range set {
				s = append(s, guid.Guid(id).String())
			}
			return sorted(s)
		})
	case 12:
		tree := texts[r.Intn(len(texts))]
		add("value of own expression", func() string {
			v, err := data.EvaluateDataRowExpression(dt.Row(row), tree, true)
			if err != nil {
				return "error"
			}
			return show(v)
		})
	case 13:
		tn := mixCase(r, other.Name)
		add("loaded table", func() string {
			tab := w.other.Table(tn)
			if tab == nil {
				return "nothing"
			}
			s := []string{tab.String(), fmt.Sprint(tab.RowCount(), tab.ColumnCount(), tab.Parent() == w.other)}
			for i := 0; i < tab.ColumnCount(); i++ {
				c := tab.Column(i)
				s = append(s, c.String(), fmt.Sprint(c.Index(), tab.ColumnIndex(c.Name()), tab.ColumnByName(c.Name()) == c))
				for j := 0; j < tab.RowCount(); j++ {
					s = append(s, tab.RowValueAsString(j, i))
				}
			}
			return strings.Join(s, ";")
		})
	case 14:
		add("tables", func() string {
			s := append(w.ds.TableNames(), w.other.TableNames()...)
			for _, tab := range w.other.Tables() {
				s = append(s, tab.Name())
			}
			return sorted(append(s, fmt.Sprint(len(w.ds.String()), len(w.other.String()), w.ds.TableCount(), w.other.TableCount())))
		})
	case 15:
		xp := []string{"Metadata/" + other.Name, "//" + other.Name, other.Name + "/*", "*", "//*", "/" + other.Name + "/" + other.Cols[0].Name}[r.Intn(6)]
		add("nodes", func() string {
			var s []string
			for _, n := range append(w.doc.SelectNodes(xp), w.doc.Root.SelectNodes(xp)...) {
				s = append(s, n.Path(), n.Value(), fmt.Sprint(len(n.GetChildNodes()), n.HasChildNodes(), n.Level, len(n.Item), len(n.Attributes)))
			}
			return strings.Join(append(s, fmt.Sprint(w.doc.MaxDepth())), ";")
		})
	case 16:
		if r.Intn(3) > 0 {
			return
		}
		add("document of one's own", func() string {
			ds := data.NewDataSet()
			if err := ds.ParseXmlDocument(&w.doc); err != nil {
				return "error"
			}
			diff, _ := d.Compare(ds)
			own := data.NewDataSet()
			if err := own.ParseXml(body); err != nil {
				return "error"
			}
			ownDiff, _ := d.Compare(own)
			return diff + ownDiff
		})
	}
}

func caseC36(t *vf.T) {
	seed := t.R.Int63()
	shared, alone := newWorld(t, seed), newWorld(t, seed)
	n, readers := len(shared.asks), 2+t.R.Intn(7)
	if n != len(alone.asks) {
		t.Fatalf("copies differ")
	}
	asking, together := make([]int32, n), make([]int32, n)
	got := make([][]string, readers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	same := t.R.Intn(2) == 0 // everyone asks in the same order, so that first uses coincide
	order := t.R.Perm(n)
	for i := range got {
		if !same {
			order = t.R.Perm(n)
		}
		got[i] = make([]string, n)
		wg.Add(1)
		go func(mine []string, order []int) {
			defer wg.Done()
			<-start
			for _, k := range order {
				if atomic.AddInt32(&asking[k], 1) > 1 {
					atomic.AddInt32(&together[k], 1)
				}
				mine[k] = shared.asks[k].get()
				atomic.AddInt32(&asking[k], -1)
			}
		}(got[i], order)
	}
	close(start)
	wg.Wait()
	for k := range shared.asks {
		want := alone.asks[k].get()
		if again := shared.asks[k].get(); again != want {
			t.Failf("%s: after concurrent reading %.300q, for a lone reader %.300q", shared.asks[k].kind, again, want)
		}
		for i := range got {
			if got[i][k] != want {
				t.Failf("%s: one of %d readers got %.300q, a lone reader gets %.300q", shared.asks[k].kind, readers, got[i][k], want)
			}
		}
		kind := "value"
		switch want {
		case "", "nothing", "error":
			kind = "no value"
		}
		t.Sig(fmt.Sprintf("%s: %s, at once %v", shared.asks[k].kind, kind, together[k] > 0))
		t.Count("asked by several readers at once", int(together[k]))
	}
	t.Eval(n * (readers + 1))
	t.Count("readers", readers)
	t.Sample("%d readers, %d questions", readers, n)
}

// mixCase changes the case of some letters.
func mixCase(r *rand.Rand, s string) string {
	return strings.Map(func(c rune) rune {
		if r.Intn(3) == 0 {
			return []rune(strings.ToUpper(string(c)))[0]
		}
		return c
	}, s)
}
