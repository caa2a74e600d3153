package main

import (
	"encoding/json"
	"reflect"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
)

// G is a grammar of the specification: ps[i] are the productions of nts[i].
type G struct {
	Nts []string     `json:"nts"`
	Ps  [][][]string `json:"ps"`
}

func (g *G) text() string {
	var sb strings.Builder
	for i, nt := range g.Nts {
		for j, p := range g.Ps[i] {
			if j == 0 {
				sb.WriteString(nt)
			}
			sb.WriteString(" -> " + strings.Join(p, " ") + "\n")
		}
	}
	return sb.String()
}

// own is an implementation of parlex.Grammar that is not the library's
type own struct {
	nts []string
	ps  map[string]stringsymbol.Productions
}

func (o *own) Productions(s parlex.Symbol) parlex.Productions {
	p, ok := o.ps[s.String()]
	if !ok {
		return nil
	}
	return p
}
func (o *own) NonTerminals() []parlex.Symbol {
	r := make([]parlex.Symbol, len(o.nts))
	for i, n := range o.nts {
		r[i] = stringsymbol.Symbol(n)
	}
	return r
}

func strProd(p []string) stringsymbol.Production {
	q := make(stringsymbol.Production, len(p))
	for i, s := range p {
		q[i] = stringsymbol.Symbol(s)
	}
	return q
}

// build makes a real grammar. via: text, add, addset, own
func (g *G) build(via string) parlex.Grammar {
	switch via {
	case "", "text":
		x, err := grammar.New(g.text())
		if err != nil {
			panic(driverErr("grammar.New: " + err.Error()))
		}
		return x
	case "add":
		x := grammar.Empty()
		for i, nt := range g.Nts {
			for _, p := range g.Ps[i] {
				x.Add(stringsymbol.Symbol(nt), strProd(p))
			}
		}
		return x
	case "addset":
		set := setsymbol.New()
		x := grammar.Empty()
		for i, nt := range g.Nts {
			for _, p := range g.Ps[i] {
				q := set.Production()
				for _, s := range p {
					q.AddSymbols(set.Str(s))
				}
				x.Add(set.Str(nt), q)
			}
		}
		return x
	case "own":
		o := &own{ps: map[string]stringsymbol.Productions{}}
		for i, nt := range g.Nts {
			o.nts = append(o.nts, nt)
			ps := stringsymbol.Productions{}
			for _, p := range g.Ps[i] {
				ps = append(ps, strProd(p))
			}
			o.ps[nt] = ps
		}
		return o
	}
	panic(driverErr("via " + via))
}

// observeGrammar reads a grammar back through the interface
func observeGrammar(g parlex.Grammar) G {
	out := G{Nts: []string{}, Ps: [][][]string{}}
	for _, nt := range g.NonTerminals() {
		out.Nts = append(out.Nts, nt.String())
		out.Ps = append(out.Ps, observeProds(g.Productions(nt)))
	}
	return out
}

func observeProds(ps parlex.Productions) [][]string {
	r := [][]string{}
	if ps == nil {
		return r
	}
	for i := ps.Iter(); i.Next(); {
		r = append(r, observeProd(i.Production))
	}
	return r
}

func observeProd(p parlex.Production) []string {
	q := []string{}
	if p == nil {
		return q
	}
	for j := p.Iter(); j.Next(); {
		q = append(q, j.Symbol.String())
	}
	return q
}

// Lx is a lexeme of the specification
type Lx struct {
	K string `json:"k"`
	V string `json:"v"`
	L int    `json:"l"`
	C int    `json:"c"`
}

func (l Lx) lexeme() parlex.Lexeme {
	return lexeme.New(stringsymbol.Symbol(l.K)).Set(l.V).At(l.L, l.C)
}

// T is a tree value
type T struct {
	K  string `json:"k"`
	V  string `json:"v"`
	L  int    `json:"l"`
	C  int    `json:"c"`
	Ch []*T   `json:"ch"`
}

func observeTree(n parlex.ParseNode) *T {
	t := &T{K: n.Kind().String(), V: n.Value(), Ch: []*T{}}
	t.L, t.C = n.Pos()
	for i := 0; i < n.Children(); i++ {
		t.Ch = append(t.Ch, observeTree(n.Child(i)))
	}
	return t
}

// FT is a node of a tree written in preorder, with its number of children
// (readers of JSON refuse deep nesting)
type FT struct {
	K string `json:"k"`
	V string `json:"v"`
	L int    `json:"l"`
	C int    `json:"c"`
	N int    `json:"n"`
}

func flatTree(n parlex.ParseNode) []FT {
	out := []FT{}
	var rec func(n parlex.ParseNode)
	rec = func(n parlex.ParseNode) {
		t := FT{K: n.Kind().String(), V: n.Value(), N: n.Children()}
		t.L, t.C = n.Pos()
		out = append(out, t)
		for i := 0; i < n.Children(); i++ {
			rec(n.Child(i))
		}
	}
	rec(n)
	return out
}

// links reports whether the parent links are right, the nodes distinct and
// the root's parent nil, by interface and by field
func links(n parlex.ParseNode) string {
	root, ok := n.(*tree.PN)
	if !ok {
		return "not a *tree.PN"
	}
	if root.P != nil {
		return "root has P"
	}
	return linksBelow(root, true)
}

func linksBelow(root *tree.PN, isRoot bool) string {
	if isRoot && root.Parent() != nil {
		return "root Parent() is not nil"
	}
	seen := map[*tree.PN]bool{}
	var rec func(n *tree.PN) string
	rec = func(n *tree.PN) string {
		if seen[n] {
			return "shared node " + n.Kind().String()
		}
		seen[n] = true
		for i, c := range n.C {
			if c == nil {
				return "nil child"
			}
			if c.P != n {
				return "P of child " + c.Kind().String() + " of " + n.Kind().String()
			}
			if c.Parent() != parlex.ParseNode(n) {
				return "Parent() of child " + c.Kind().String()
			}
			if n.Child(i) != parlex.ParseNode(c) {
				return "Child(i)"
			}
			if s := rec(c); s != "" {
				return s
			}
		}
		return ""
	}
	return rec(root)
}

type parseCase struct {
	G      G      `json:"g"`
	Via    string `json:"via"`
	Parser string `json:"parser"`
	Ins    [][]Lx `json:"ins"`
	Calls  []int  `json:"calls"` // order in which inputs are parsed with one parser
	Grow   int    `json:"grow"`  // if not 0, the parser sees this many productions first and parses everything; then the others are added
}

// less returns the first n productions and the others, in order
func (g *G) less(n int) (*G, []func(*grammar.Grammar)) {
	out := &G{}
	var rest []func(*grammar.Grammar)
	for i, nt := range g.Nts {
		nt := nt
		for k, p := range g.Ps[i] {
			p := p
			if n == 0 {
				rest = append(rest, func(x *grammar.Grammar) { x.Add(stringsymbol.Symbol(nt), strProd(p)) })
				continue
			}
			n--
			if k == 0 {
				out.Nts, out.Ps = append(out.Nts, nt), append(out.Ps, nil)
			}
			out.Ps[len(out.Ps)-1] = append(out.Ps[len(out.Ps)-1], p)
		}
	}
	return out, rest
}

func init() {
	// parse every input with the same parser, in the given order
	ops["parse"] = func(raw json.RawMessage) interface{} {
		var c parseCase
		get(raw, &c)
		var g parlex.Grammar
		var rest []func(*grammar.Grammar)
		if c.Grow > 0 && c.Via != "own" {
			var l *G
			l, rest = c.G.less(c.Grow)
			g = l.build(c.Via)
		} else {
			g = c.G.build(c.Via)
		}
		var p parlex.Parser
		var err error
		if c.Parser == "packrat" {
			if len(c.Ins)%2 == 0 {
				p = packrat.New(g)
			} else {
				p, err = packrat.Constructor(g)
				if err != nil {
					return O{"newerr": err.Error()}
				}
			}
		} else {
			p, err = topdown.New(g)
			if err == topdown.ErrLeftRecursion {
				return O{"newerr": "leftrec"}
			} else if err != nil {
				return O{"newerr": err.Error()}
			}
		}
		if rest != nil {
			for _, in := range c.Ins {
				lxs := []parlex.Lexeme{}
				for _, l := range in {
					lxs = append(lxs, l.lexeme())
				}
				p.Parse(lxs)
			}
			for _, add := range rest {
				add(g.(*grammar.Grammar))
			}
		}
		res := []O{}
		before := observeGrammar(g)
		var given []func()
		spoil := len(c.Calls)%2 == 0
		for _, k := range c.Calls {
			lxs := []parlex.Lexeme{}
			for _, l := range c.Ins[k-1] {
				lxs = append(lxs, l.lexeme())
			}
			n := p.Parse(lxs)
			o := O{"in": k}
			if n == nil {
				o["ok"] = 0
			} else {
				o["ok"] = 1
				t := flatTree(n)
				o["tree"] = t
				o["links"] = links(n)
				if spoil { // it is the caller's: what happens to it is nothing to the parser
					spoilTree(n)
				} else {
					given = append(given, func() {
						if !reflect.DeepEqual(t, flatTree(n)) {
							o["links"] = "changed later"
						}
					})
				}
			}
			same := 1
			for i, l := range c.Ins[k-1] {
				ln, co := lxs[i].Pos()
				if lxs[i].Kind() != parlex.Symbol(stringsymbol.Symbol(l.K)) || lxs[i].Value() != l.V || ln != l.L || co != l.C {
					same = 0
				}
			}
			o["same"] = same
			res = append(res, o)
		}
		for _, f := range given {
			f()
		}
		return O{"newerr": "", "res": res, "g0": before, "g1": observeGrammar(g)}
	}
}

// spoilTree changes a tree in every node
func spoilTree(n parlex.ParseNode) {
	p, ok := n.(*tree.PN)
	if !ok {
		return
	}
	for _, c := range p.C {
		spoilTree(c)
	}
	p.Lexeme = lexeme.New(stringsymbol.Symbol("spoiled")).Set("x").At(99, 99)
	p.C = append(p.C[:0:0], &tree.PN{Lexeme: p.Lexeme})
	p.P = p
}
