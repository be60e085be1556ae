// Command sets checks the set type against a reference model.
package main

import (
	"fmt"
	"math/rand"
	"sort"

	"github.com/sttp/goapi/sttp/guid"
	"github.com/sttp/goapi/sttp/hashset"

	"verif/harness/vf"
)

type model map[int]bool

func (m model) list() []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

func clone(m model) model {
	c := model{}
	for k := range m {
		c[k] = true
	}
	return c
}

func ofSlice(s []int) model {
	m := model{}
	for _, v := range s {
		m[v] = true
	}
	return m
}

func subset(a, b model) bool {
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

func overlap(a, b model) bool {
	for k := range a {
		if b[k] {
			return true
		}
	}
	return false
}

// universe maps small numbers to values of the element type.
func run[T comparable](t *vf.T, name string, val func(int) T) {
	r := t.R
	back := map[T]int{}
	n := 1 + r.Intn(7)
	if r.Intn(8) == 0 {
		n = 1 + r.Intn(120)
	}
	for i := 0; i < n; i++ {
		back[val(i)] = i
	}
	conv := func(s []int) []T {
		if s == nil {
			return nil
		}
		out := make([]T, len(s))
		for i, v := range s {
			out[i] = val(v)
		}
		return out
	}
	keys := func(h hashset.HashSet[T]) []int {
		var out []int
		for _, k := range h.Keys() {
			i, ok := back[k]
			if !ok {
				t.Fatalf("%s: set contains %v which was never added", name, k)
			}
			out = append(out, i)
		}
		sort.Ints(out)
		return out
	}
	slice := func() []int {
		m := r.Intn(2*n + 1)
		s := make([]int, m)
		for i := range s {
			s[i] = r.Intn(n)
		}
		if m == 0 && r.Intn(2) == 0 {
			return nil
		}
		return s
	}
	start := slice()
	src := conv(start)
	hs := hashset.NewHashSet(src)
	m := ofSlice(start)
	t.Logf("%s universe %d start %v", name, n, start)
	steps := 3 + r.Intn(30)
	for i := 0; i < steps; i++ {
		op := r.Intn(20)
		arg := slice()
		if r.Intn(6) == 0 {
			// an argument related to the set
			arg = m.list()
			if len(arg) > 0 && r.Intn(2) == 0 {
				arg = append(arg, arg[r.Intn(len(arg))])
			}
			if len(arg) > 1 && r.Intn(3) == 0 {
				arg = arg[1:]
			}
		}
		am := ofSlice(arg)
		ga := conv(arg)
		gs := hashset.NewHashSet(ga)
		self := r.Intn(25) == 0
		if self { // the set itself as argument
			gs, am, arg = hs, clone(m), m.list()
			ga = conv(arg)
		}
		asSet := r.Intn(2) == 0 || self
		x := r.Intn(n)
		before := clone(m)
		t.Logf("op %d asSet=%v self=%v arg=%v x=%d set=%v", op, asSet, self, arg, x, m.list())
		check := func(what string, got, want bool) {
			if got != want {
				if what == "IsProperSupersetOf" && len(before) == 0 {
					t.Known("empty-proper-superset", "%s: %v.%s(%v) = %v", name, before.list(), what, arg, got)
					return
				}
				t.Fatalf("%s: %v.%s(%v, set=%v) = %v, want %v", name, before.list(), what, arg, asSet, got, want)
			}
		}
		switch op {
		case 0:
			check("Add", hs.Add(val(x)), !m[x])
			m[x] = true
		case 1:
			check("Remove", hs.Remove(val(x)), m[x])
			delete(m, x)
		case 2:
			check("Contains", hs.Contains(val(x)), m[x])
		case 3:
			cnt := 0
			mod := 1 + r.Intn(4)
			for k := range m {
				if k%mod == 0 {
					delete(m, k)
					cnt++
				}
			}
			if got := hs.RemoveWhere(func(v T) bool { return back[v]%mod == 0 }); got != cnt {
				t.Fatalf("%s: RemoveWhere removed %d, want %d", name, got, cnt)
			}
		case 4:
			if r.Intn(4) == 0 {
				hs.Clear()
				m = model{}
			}
		case 5:
			check("IsEmpty", hs.IsEmpty(), len(m) == 0)
		case 6, 7:
			if asSet {
				hs.UnionWithSet(gs)
			} else {
				hs.UnionWith(ga)
			}
			for k := range am {
				m[k] = true
			}
		case 8, 9:
			if asSet {
				hs.IntersectWithSet(gs)
			} else {
				hs.IntersectWith(ga)
			}
			for k := range m {
				if !am[k] {
					delete(m, k)
				}
			}
		case 10, 11:
			if asSet {
				hs.ExceptWithSet(gs)
			} else {
				hs.ExceptWith(ga)
			}
			for k := range am {
				delete(m, k)
			}
		case 12, 13:
			if asSet {
				hs.SymmetricExceptWithSet(gs)
			} else {
				hs.SymmetricExceptWith(ga)
			}
			for k := range am {
				if m[k] {
					delete(m, k)
				} else {
					m[k] = true
				}
			}
		case 14:
			want := subset(m, am) && subset(am, m)
			if asSet {
				check("SetEquals", hs.SetEqualsSet(gs), want)
			} else {
				check("SetEquals", hs.SetEquals(ga), want)
			}
		case 15:
			if asSet {
				check("Overlaps", hs.OverlapsSet(gs), overlap(m, am))
			} else {
				check("Overlaps", hs.Overlaps(ga), overlap(m, am))
			}
		case 16:
			if asSet {
				check("IsSubsetOf", hs.IsSubsetOfSet(gs), subset(m, am))
			} else {
				check("IsSubsetOf", hs.IsSubsetOf(ga), subset(m, am))
			}
		case 17:
			want := subset(m, am) && len(m) < len(am)
			if asSet {
				check("IsProperSubsetOf", hs.IsProperSubsetOfSet(gs), want)
			} else {
				check("IsProperSubsetOf", hs.IsProperSubsetOf(ga), want)
			}
		case 18:
			if asSet {
				check("IsSupersetOf", hs.IsSupersetOfSet(gs), subset(am, m))
			} else {
				check("IsSupersetOf", hs.IsSupersetOf(ga), subset(am, m))
			}
		case 19:
			want := subset(am, m) && len(am) < len(m)
			if asSet {
				check("IsProperSupersetOf", hs.IsProperSupersetOfSet(gs), want)
			} else {
				check("IsProperSupersetOf", hs.IsProperSupersetOf(ga), want)
			}
		}
		if got, want := keys(hs), m.list(); fmt.Sprint(got) != fmt.Sprint(want) || len(hs) != len(m) {
			t.Fatalf("%s: after op %d on %v with %v (set=%v): set is %v, want %v", name, op, before.list(), arg, asSet, got, want)
		}
		if !self {
			if got, want := keys(gs), ofSlice(arg).list(); fmt.Sprint(got) != fmt.Sprint(want) {
				t.Fatalf("%s: op %d changed its argument set to %v, want %v", name, op, got, want)
			}
			for j, v := range arg {
				if ga[j] != val(v) {
					t.Fatalf("%s: op %d changed its argument slice", name, op)
				}
			}
		}
		t.Eval(1)
		if len(before) > 0 && len(arg) > 0 {
			t.Sig("%d %v %v %v %v", op, asSet, before.list(), arg, self)
		}
	}
	for j, v := range start {
		if src[j] != val(v) {
			t.Fatalf("%s: operations changed the slice the set was made from", name)
		}
	}
	if t.Idx < 2 {
		t.Sample("%s: start %v, %d operations, end %v", name, start, steps, m.list())
	}
}

func main() {
	vf.Main(&vf.Prop{
		ID: "C24",
		Rule: "random operation sequences on sets of ints, strings and GUIDs, compared after each step with a reference model; distinct_nontrivial counts " +
			"different (operation, operand form, set, argument) combinations with non-empty set and argument",
		Quick: 1200, Thorough: 20000,
		Case: func(t *vf.T) {
			for k := 0; k < 20; k++ {
				switch t.R.Intn(3) {
				case 0:
					run(t, "int", func(i int) int { return i * 7 })
				case 1:
					run(t, "string", func(i int) string { return fmt.Sprint("v", i) })
				default:
					seed := t.R.Int63()
					run(t, "guid", func(i int) guid.Guid {
						var g guid.Guid
						rand.New(rand.NewSource(seed + int64(i))).Read(g[:])
						return g
					})
				}
			}
		},
	})
}
