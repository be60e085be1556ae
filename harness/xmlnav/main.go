// Command xmlnav checks XML document loading and navigation against generated documents.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"github.com/sttp/goapi/sttp/xml"

	"verif/harness/vf"
)

type elem struct {
	name, ns, prefix string
	attrs            [][2]string // key as seen by the reader, value
	attrNS           map[string]string
	prefixes         []string // prefixes that stand for its namespace where the element is
	kids             []*elem
	inner, out       string
	parent           *elem
	level            int
}

var names = []string{"a", "b", "c", "node", "Row", "row", "x1", "élan"}
var values = []string{"", "1", "v", "a b", "x=y", "O'Neil", "<&>", "héé", "2.5", "it is", " lead", "[q]", "*", "dogs'", "'q'", "'"}

func escAttr(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", `"`, "&quot;", ">", "&gt;").Replace(s)
}

type gen struct {
	r     *rand.Rand
	nodes int
	depth int
}

func (g *gen) make(parent *elem, level int, scope map[string]string) *elem {
	r := g.r
	e := &elem{name: names[r.Intn(len(names))], parent: parent, level: level, attrNS: map[string]string{}}
	g.nodes--
	if level > g.depth {
		g.depth = level
	}
	inScope := map[string]string{}
	for k, v := range scope {
		inScope[k] = v
	}
	used := map[string]bool{}
	put := func(key, space, val string) bool {
		if used[key] {
			return false
		}
		used[key] = true
		e.attrs = append(e.attrs, [2]string{key, val})
		e.attrNS[key] = space
		return true
	}
	var text []string
	if r.Intn(6) == 0 {
		p, uri := []string{"p", "q"}[r.Intn(2)], []string{"urn:one", "urn:two", "urn:ONE"}[r.Intn(3)]
		if put(p, "xmlns", uri) {
			inScope[p] = uri
			text = append(text, fmt.Sprintf(`xmlns:%s="%s"`, p, uri))
		}
	}
	if r.Intn(12) == 0 {
		uri := []string{"urn:def", "urn:other"}[r.Intn(2)]
		put("xmlns", "", uri)
		inScope[""] = uri
		text = append(text, fmt.Sprintf(`xmlns="%s"`, uri))
	}
	for _, p := range []string{"p", "q"} {
		if uri, ok := inScope[p]; ok && r.Intn(3) == 0 && e.prefix == "" {
			e.prefix, e.ns = p, uri
		}
	}
	if e.prefix == "" {
		e.ns = inScope[""]
	}
	for p, uri := range inScope {
		if p != "" && uri == e.ns {
			e.prefixes = append(e.prefixes, p)
		}
	}
	if len(e.prefixes) == 0 {
		e.prefixes = []string{""}
	}
	for i := r.Intn(4); i > 0; i-- {
		k, v := []string{"id", "name", "k", "ref"}[r.Intn(4)], values[r.Intn(len(values))]
		space, full := "", k
		if uri, ok := inScope["p"]; ok && r.Intn(4) == 0 {
			space, full = uri, "p:"+k
		}
		if put(k, space, v) {
			text = append(text, full+`="`+escAttr(v)+`"`)
		}
	}
	r.Shuffle(len(text), func(i, j int) { text[i], text[j] = text[j], text[i] })
	tag := e.name
	if e.prefix != "" {
		tag = e.prefix + ":" + e.name
	}
	var b strings.Builder
	n := 0
	if g.nodes > 0 && level < 7 {
		n = r.Intn(5)
	}
	noise := func() {
		switch r.Intn(9) {
		case 0:
			b.WriteString("<!-- <a> comment -->")
		case 1:
			b.WriteString("\n  ")
		case 2:
			b.WriteString("<?pi data?>")
		case 3:
			b.WriteString("text")
		case 4:
			b.WriteString("<![CDATA[<b>]]>")
		}
	}
	if n == 0 {
		switch r.Intn(3) {
		case 0:
			b.WriteString(escAttr(values[r.Intn(len(values))]))
		case 1:
			noise()
		}
	}
	for i := 0; i < n; i++ {
		if r.Intn(2) == 0 {
			noise()
		}
		kid := g.make(e, level+1, inScope)
		e.kids = append(e.kids, kid)
		b.WriteString(kid.outer())
	}
	if n > 0 && r.Intn(3) == 0 {
		noise()
	}
	e.inner = b.String()
	open := "<" + tag
	for _, a := range text {
		open += []string{" ", "\n", "  "}[r.Intn(3)] + a
	}
	if e.inner == "" && r.Intn(2) == 0 {
		e.out = open + "/>"
	} else {
		e.out = open + ">" + e.inner + "</" + tag + ">"
	}
	return e
}

func (e *elem) outer() string { return e.out }

func (e *elem) path() string {
	if e.parent == nil {
		return "//" + e.name
	}
	return e.parent.path() + "/" + e.name
}

func compare(t *vf.T, doc *xml.XmlDocument, n *xml.XmlNode, e *elem, parent *xml.XmlNode, m map[*xml.XmlNode]*elem) {
	m[n] = e
	where := e.path()
	if n.Name != e.name || n.Namespace != e.ns || n.Level != e.level || n.Parent != parent || n.Owner != doc {
		t.Fatalf("%s: name %q namespace %q level %d, want %q %q %d (parent ok %v, owner ok %v)", where, n.Name, n.Namespace, n.Level, e.name, e.ns, e.level, n.Parent == parent, n.Owner == doc)
	}
	if n.Path() != where {
		t.Fatalf("path %q, want %q", n.Path(), where)
	}
	if n.Value() != e.inner {
		t.Fatalf("%s: value %q, want %q", where, n.Value(), e.inner)
	}
	if len(n.Attributes) != len(e.attrs) || len(n.AttributeNamespaces) != len(e.attrs) {
		t.Fatalf("%s: attributes %v, want %v", where, n.Attributes, e.attrs)
	}
	for _, a := range e.attrs {
		if v, ok := n.Attributes[a[0]]; !ok || v != a[1] || n.AttributeNamespaces[a[0]] != e.attrNS[a[0]] {
			t.Fatalf("%s: attribute %s is %q in namespace %q, want %q in %q", where, a[0], v, n.AttributeNamespaces[a[0]], a[1], e.attrNS[a[0]])
		}
	}
	if p := n.Prefix(); !slices.Contains(e.prefixes, p) {
		t.Fatalf("%s: prefix %q, want one of %q", where, p, e.prefixes)
	}
	if len(n.ChildNodes) != len(e.kids) || n.HasChildNodes() != (len(e.kids) > 0) {
		t.Fatalf("%s: %d child nodes, want %d", where, len(n.ChildNodes), len(e.kids))
	}
	kids := n.GetChildNodes()
	if len(kids) != len(e.kids) {
		t.Fatalf("%s: GetChildNodes returns %d nodes, want %d", where, len(kids), len(e.kids))
	}
	byName := map[string][]*xml.XmlNode{}
	for i := range e.kids {
		k := &n.ChildNodes[i]
		if kids[i] != k {
			t.Fatalf("%s: GetChildNodes entry %d is not child %d", where, i, i)
		}
		byName[e.kids[i].name] = append(byName[e.kids[i].name], k)
		var prev, next *xml.XmlNode
		if i > 0 {
			prev = kids[i-1]
		}
		if i < len(kids)-1 {
			next = kids[i+1]
		}
		if k.Previous != prev || k.Next != next {
			t.Fatalf("%s: siblings of child %d are wrong", where, i)
		}
		compare(t, doc, k, e.kids[i], n, m)
	}
	if len(kids) > 0 {
		if n.FirstChild() != kids[0] || n.LastChild() != kids[len(kids)-1] {
			t.Fatalf("%s: first or last child is wrong", where)
		}
	} else if n.FirstChild() != nil || n.LastChild() != nil {
		t.Fatalf("%s: childless node has a first or last child", where)
	}
	if len(n.Items) != len(byName) || len(n.Item) != len(byName) {
		t.Fatalf("%s: by-name children %d/%d, want %d", where, len(n.Item), len(n.Items), len(byName))
	}
	for name, want := range byName {
		if n.Item[name] != want[0] || fmt.Sprint(n.Items[name]) != fmt.Sprint(want) {
			t.Fatalf("%s: by-name children %q are wrong", where, name)
		}
	}
	t.Eval(1)
}

type step struct {
	name    string
	attr    bool
	key     string // "" for no predicate
	val     string
	compare bool
}

func (s step) text(r *rand.Rand) string {
	if s.key == "" {
		return s.name
	}
	p := s.key
	if s.attr {
		p = "@" + p
	}
	if s.compare {
		q := "'" + s.val + "'"
		if s.val != "" && !strings.HasPrefix(s.val, " ") && !strings.HasSuffix(s.val, "'") && r.Intn(3) == 0 {
			q = s.val
		}
		p += []string{"=", " = ", "= "}[r.Intn(3)] + q
	}
	return s.name + "[" + p + "]"
}

func (s step) match(e *elem) bool {
	if s.name != "*" && s.name != e.name {
		return false
	}
	if s.key == "" {
		return true
	}
	if s.attr {
		for _, a := range e.attrs {
			if (s.key == "*" || s.key == a[0]) && (!s.compare || a[1] == s.val) {
				return true
			}
		}
		return false
	}
	for _, k := range e.kids {
		if (s.key == "*" || s.key == k.name) && (!s.compare || k.inner == s.val) {
			return true
		}
	}
	return false
}

func selectRef(nodes []*elem, steps []step) []*elem {
	for i, s := range steps {
		var res []*elem
		for _, n := range nodes {
			if s.match(n) {
				res = append(res, n)
			}
		}
		if i == len(steps)-1 {
			return res
		}
		nodes = nil
		for _, n := range res {
			nodes = append(nodes, n.kids...)
		}
	}
	return nil
}

func usable(v string) bool {
	return !strings.ContainsAny(v, "/[]<&\n") && strings.TrimRight(v, " ") == v
}

func collect(e *elem, out *[]*elem) {
	*out = append(*out, e)
	for _, k := range e.kids {
		collect(k, out)
	}
}

func one(t *vf.T) {
	r := t.R
	g := &gen{r: r, nodes: 1 + r.Intn(60)}
	root := g.make(nil, 0, map[string]string{})
	text := ""
	if r.Intn(8) == 0 {
		text = "\uFEFF"
	}
	if r.Intn(2) == 0 {
		text += `<?xml version="1.0" encoding="UTF-8"?>` + "\n"
	}
	if r.Intn(4) == 0 {
		text += "<!-- heading -->\n"
	}
	if r.Intn(8) == 0 {
		text += "<!DOCTYPE any>"
	}
	head := len(text)
	text += root.outer()
	end := len(text)
	text += []string{"", "\n", "<!-- end -->", " <?note end?>\t\r\n"}[r.Intn(4)]
	t.Logf("%s", text)
	doc := &xml.XmlDocument{}
	var err error
	if r.Intn(3) == 0 { // used before
		og := &gen{r: r, nodes: 1 + r.Intn(60)}
		old := og.make(nil, 0, map[string]string{}).outer()
		if r.Intn(2) == 0 {
			old = old[:r.Intn(len(old))]
		}
		_ = doc.LoadXml([]byte(old))
		t.Count("documents_used_before", 1)
	}
	if r.Intn(20) == 0 {
		dir, e := os.MkdirTemp("", "verif-xml")
		if e != nil {
			vf.Harnessf("mkdir: %v", e)
		}
		f := filepath.Join(dir, "doc.xml")
		os.WriteFile(f, []byte(text), 0600)
		err = doc.LoadXmlFromFile(f)
		os.Remove(f)
		if e := (&xml.XmlDocument{}).LoadXmlFromFile(f); e == nil {
			t.Fatalf("loading a missing file reported no error")
		}
		os.Remove(dir)
	} else {
		data := []byte(text)
		err = doc.LoadXml(data)
		if string(data) != text {
			t.Fatalf("loading changed its input")
		}
		for i := range data { // the tree must not depend on the caller's buffer
			data[i] = '#'
		}
	}
	if err != nil {
		t.Fatalf("well-formed document rejected: %v", err)
	}
	m := map[*xml.XmlNode]*elem{}
	compare(t, doc, &doc.Root, root, nil, m)
	if doc.MaxDepth() != g.depth+1 {
		t.Fatalf("max depth %d, want %d", doc.MaxDepth(), g.depth+1)
	}
	if doc.Root.Next != nil || doc.Root.Previous != nil {
		t.Fatalf("root has siblings")
	}
	var all []*elem
	collect(root, &all)
	back := map[*elem]*xml.XmlNode{}
	for n, e := range m {
		back[e] = n
	}
	for q := 0; q < 12; q++ {
		// aim at an existing node half the time
		var steps []step
		start := all[r.Intn(len(all))]
		if r.Intn(2) == 0 {
			start = root
		}
		cur := start
		for d := 1 + r.Intn(4); d > 0; d-- {
			s := step{name: names[r.Intn(len(names))]}
			var target *elem
			if cur != nil && len(cur.kids) > 0 && r.Intn(6) != 0 {
				target = cur.kids[r.Intn(len(cur.kids))]
				s.name = target.name
			}
			if r.Intn(4) == 0 {
				s.name = "*"
			}
			switch r.Intn(4) {
			case 0:
				s.attr, s.key = true, []string{"id", "name", "k", "ref", "*"}[r.Intn(5)]
				s.compare = r.Intn(2) == 0
				s.val = values[r.Intn(len(values))]
				if target != nil && len(target.attrs) > 0 && r.Intn(4) != 0 {
					a := target.attrs[r.Intn(len(target.attrs))]
					s.val = a[1]
					if s.key != "*" {
						s.key = a[0]
					}
				}
			case 1:
				s.key = names[r.Intn(len(names))]
				s.compare = r.Intn(2) == 0
				s.val = values[r.Intn(len(values))]
				if target != nil && len(target.kids) > 0 && r.Intn(4) != 0 {
					k := target.kids[r.Intn(len(target.kids))]
					s.key, s.val = k.name, k.inner
				}
				if r.Intn(4) == 0 {
					s.key = "*"
				}
			}
			if s.compare && !usable(s.val) {
				s.val = "1"
			}
			steps = append(steps, s)
			cur = target
		}
		var parts []string
		for _, s := range steps {
			parts = append(parts, s.text(r))
		}
		xp := strings.Join(parts, "/")
		var want []*elem
		var got []*xml.XmlNode
		switch {
		case start == root && r.Intn(2) == 0:
			want = selectRef(root.kids, steps)
			got = doc.SelectNodes("//" + root.name + "/" + xp)
		case start == root:
			want = selectRef(root.kids, steps)
			got = doc.SelectNodes(xp)
		case r.Intn(3) == 0:
			other := all[r.Intn(len(all))]
			want = append(selectRef(start.kids, steps), selectRef(other.kids, steps)...)
			got = xml.SelectNodes([]*xml.XmlNode{back[start], back[other]}, xp)
		default:
			want = selectRef(start.kids, steps)
			got = back[start].SelectNodes(xp)
		}
		if len(got) != len(want) {
			t.Fatalf("%s: selecting %q returned %d nodes, want %d", start.path(), xp, len(got), len(want))
		}
		for i := range want {
			if m[got[i]] != want[i] {
				t.Fatalf("%s: selecting %q: result %d is not the expected node", start.path(), xp, i)
			}
		}
		t.Eval(1)
		if len(want) > 0 {
			t.Count("selections_with_result", 1)
			t.Sig("%s|%d|%d", xp, len(want), len(all))
		} else {
			t.Count("selections_empty", 1)
		}
	}
	// odd selection texts must not panic
	for _, xp := range []string{"", "/", "[]", "a[]", "*[@]", "a[=]", "a]b[", "[@a='", "a[b=']", "a[@b='']", "//", "*[*]"} {
		doc.SelectNodes(xp)
		t.Count("odd_selection_texts", 1)
	}
	// malformed variants
	cut := head + r.Intn(end-head)
	if err := (&xml.XmlDocument{}).LoadXml([]byte(text[:cut])); err == nil {
		t.Fatalf("document cut after %d of %d bytes was accepted: %s", cut, end, text[:cut])
	}
	if i := strings.LastIndex(text[:end], "</"); i >= 0 && text[end-2] != '/' {
		bad := text[:i] + "</zz>" + text[end:]
		if err := (&xml.XmlDocument{}).LoadXml([]byte(bad)); err == nil {
			t.Fatalf("document with mismatched end tag was accepted: %s", bad)
		}
	}
	inner := text[head:end]
	for _, bad := range []string{"x" + inner, inner + "y", inner + inner, inner + "</zz>", inner + "<", "<w q='1' q='2'>" + inner + "</w>",
		"<w>" + inner + "<x:k xmlns:x='u' x:q='1' x:q='2'/></w>", "<w>" + inner, inner + "</w>", "<w>" + inner + "&nosuch;</w>", "<w a=b>" + inner + "</w>"} {
		if err := (&xml.XmlDocument{}).LoadXml([]byte(bad)); err == nil {
			t.Fatalf("malformed document was accepted: %s", bad)
		}
		t.Eval(1)
	}
	t.Count("malformed_rejected", 1)
	t.Count("nodes", len(all))
	t.Max("deepest", g.depth)
	if t.Idx == 0 {
		t.Sample("%d nodes, depth %d: %.120s", len(all), g.depth, text)
	}
}

func main() {
	vf.Main(&vf.Prop{
		ID: "C23",
		Rule: "generated documents (namespaces, attributes, entities, comments, CDATA, processing instructions) compared node by node with the generating tree, then path selections compared " +
			"with an independent evaluator; distinct_nontrivial counts different non-empty selections (text, result size, document size)",
		Quick: 1600, Thorough: 32000,
		Case: func(t *vf.T) {
			for i := 0; i < 10; i++ {
				one(t)
			}
		},
	})
}
