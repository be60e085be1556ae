package main

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"

	"github.com/sttp/goapi/sttp/data"

	"verif/harness/vf"
)

var c20 = &vf.Prop{
	ID:          "C20",
	Level:       "exploration",
	Rule:        "every value an expression gives, evaluated repeatedly and from several goroutines at once, equals that of an independent evaluator of the documented semantics; distinct_nontrivial counts different (operation with operand types, result type, value/null/error) outcomes",
	Quick:       260,
	Thorough:    3500,
	RaceMatters: true,
	Case:        caseC20,
}

type outcome struct {
	v   val
	err error
}

// judge compares one evaluation with the reference; it reports whether the result was claimed.
func judge(t *vf.T, how, text string, row int, got *data.ValueExpression, err error, want outcome) bool {
	switch {
	case want.err == errSkip:
		return false
	case want.err != nil:
		if err == nil {
			t.Failf("%s of %q in row %d gives %s, expected an error (%v)", how, text, row, show(got), want.err)
		}
	case err != nil:
		t.Failf("%s of %q in row %d fails with %v, expected %v", how, text, row, err, want.v)
	case !sameValue(got, want.v):
		t.Failf("%s of %q in row %d gives %s, expected %v", how, text, row, show(got), want.v)
	}
	return true
}

func caseC20(t *vf.T) {
	r := t.R
	ds := data.NewDataSet()
	tab := newTable(r, ds, "Things", 6, []float64{0, .15, .15, .4}[r.Intn(4)])
	g := &grower{r: r, cols: tab.cols, wild: []float64{0, .02, .06}[r.Intn(3)]}
	addComputed(t, tab, g, r.Intn(3))
	g.cols = tab.cols
	trees, wants := []*data.ExpressionTree{}, [][]outcome{}
	texts := []string{}
	for i := 0; i < 48; i++ {
		n := g.grow(kind(r.Intn(8)), 1+r.Intn(4))
		if i >= 20 {
			n = g.focus()
		}
		s := render(r, n)
		tree, err := data.GenerateExpressionTree(tab.dt, s, true)
		if err != nil || tree == nil {
			t.Failf("%q is rejected: %v", s, err)
			continue
		}
		want := make([]outcome, len(tab.rows))
		for row := range tab.rows {
			v, err := n.eval(tab.env(row))
			want[row] = outcome{v, err}
		}
		for row := range tab.rows {
			got, err := tree.Evaluate(tab.dt.Row(row))
			t.Eval(1)
			if judge(t, "value", s, row, got, err, want[row]) {
				note(t, n, want[row])
			} else {
				t.Count("unclaimed results", 1)
			}
		}
		if i%8 == 0 {
			row := r.Intn(len(tab.rows))
			got, err := data.EvaluateDataRowExpression(tab.dt.Row(row), s, true)
			t.Eval(1)
			judge(t, "row value", s, row, got, err, want[row])
		}
		trees, wants, texts = append(trees, tree), append(wants, want), append(texts, s)
		if t.Failed() {
			return
		}
	}
	t.Sample("%q", texts[len(texts)-1])
	constants(t)
	arityErrors(t, tab, g)
	// All trees again, from several goroutines in different orders, along with parsing and selecting.
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			for _, i := range r.Perm(len(trees)) {
				for _, row := range r.Perm(len(tab.rows)) {
					got, err := trees[i].Evaluate(tab.dt.Row(row))
					judge(t, "concurrent value", texts[i], row, got, err, wants[i][row])
				}
			}
			i := r.Intn(len(trees))
			if tree, err := data.GenerateExpressionTree(tab.dt, texts[i], true); err != nil {
				t.Failf("concurrent parse of %q: %v", texts[i], err)
			} else {
				for row := range tab.rows {
					got, err := tree.Evaluate(tab.dt.Row(row))
					judge(t, "value after concurrent parse", texts[i], row, got, err, wants[i][row])
				}
			}
		}(rand.New(rand.NewSource(r.Int63())))
	}
	wg.Wait()
	t.Eval(4 * len(trees) * len(tab.rows))
	t.Count("concurrent evaluations", 4*len(trees)*len(tab.rows))
}

// note records which operations were seen with which outcome.
func note(t *vf.T, n node, o outcome) {
	res := "value"
	if o.err != nil {
		res = "error"
	} else if o.v.null() {
		res = "null"
	}
	t.Sig(fmt.Sprintf("%s %v %s", label(n), o.v.k, res))
	t.Count("results: "+res, 1)
}

func label(n node) string {
	switch n := n.(type) {
	case *call:
		return n.name
	case *binary:
		return n.op + " " + label1(n.l) + " " + label1(n.r)
	}
	return label1(n)
}

func label1(n node) string {
	switch n := n.(type) {
	case *lit:
		return n.v.k.String()
	case *col:
		return "column"
	case *call:
		return n.name
	case *unary:
		return "unary" + n.op
	case *binary:
		return n.op
	case *isNull:
		return "is" + n.not + "null"
	case *inList:
		return n.not + "in" + n.exact
	case *like:
		return n.not + "like" + n.exact
	}
	return "null"
}

// constants evaluates expressions without a table.
func constants(t *vf.T) {
	g := &grower{r: t.R, nocols: true, wild: .02}
	for i := 0; i < 6; i++ {
		n := g.grow(kind(t.R.Intn(8)), 1+t.R.Intn(3))
		s := render(t.R, n)
		v, err := n.eval(nil)
		got, gerr := data.EvaluateExpression(s, true)
		t.Eval(1)
		if judge(t, "constant", s, -1, got, gerr, outcome{v, err}) {
			note(t, n, outcome{v, err})
		}
	}
}

// arityErrors checks that functions with a wrong number of arguments and unknown columns are errors.
func arityErrors(t *vf.T, tab *table, g *grower) {
	names := []string{}
	for n := range arity {
		names = append(names, n)
	}
	sort.Strings(names)
	for i := 0; i < 4; i++ {
		name := names[t.R.Intn(len(names))]
		a := arity[name]
		n := a[0] - 1
		if n < 0 || t.R.Intn(2) == 0 && a[1] < 99 {
			n = a[1] + 1
		}
		c := &call{name: name}
		for j := 0; j < n; j++ {
			c.args = append(c.args, g.grow(kind(t.R.Intn(8)), 1))
		}
		s := render(t.R, c)
		t.Eval(1)
		t.Sig(fmt.Sprintf("%s with %d arguments", name, n))
		tree, err := data.GenerateExpressionTree(tab.dt, s, true)
		if err == nil {
			_, err = tree.Evaluate(tab.dt.Row(0))
		}
		if err == nil {
			t.Failf("%q with a wrong number of arguments is not an error", s)
		}
	}
	s := render(t.R, &binary{"=", g.grow(kI32, 2), &col{0, "NoSuchColumn"}})
	tree, err := data.GenerateExpressionTree(tab.dt, s, true)
	if err == nil {
		_, err = tree.Evaluate(tab.dt.Row(0))
	}
	if err == nil {
		t.Failf("%q with an unknown column is not an error", s)
	}
}

// addComputed adds computed columns, each over the columns before it.
func addComputed(t *vf.T, tab *table, g *grower, n int) {
	for i := 0; i < n; i++ {
		ty := allTypes[t.R.Intn(len(allTypes))]
		k := kindOfType[ty]
		if t.R.Intn(4) == 0 {
			k = kind(t.R.Intn(8))
		}
		g.cols = tab.cols
		e := g.grow(k, 1+t.R.Intn(2))
		c := column{name: fmt.Sprintf("Computed%d", len(tab.cols)), t: ty, expr: e}
		tab.dt.AddColumn(tab.dt.CreateColumn(c.name, c.t, render(t.R, e)))
		tab.cols = append(tab.cols, c)
	}
}
