package main

import (
	"encoding/json"
	"fmt"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
)

// BT is a tree with byte values
type BT struct {
	K  string `json:"k"`
	V  []int  `json:"v"`
	L  int    `json:"l"`
	C  int    `json:"c"`
	Ch []*BT  `json:"ch"`
}

func bt(n parlex.ParseNode) *BT {
	if n == nil {
		return &BT{"?nil", []int{}, -1, 0, []*BT{}}
	}
	if pn, ok := n.(*tree.PN); ok && pn == nil {
		return &BT{"?nil", []int{}, -1, 0, []*BT{}}
	}
	t := &BT{K: n.Kind().String(), V: bytesOf(n.Value()), Ch: []*BT{}}
	t.L, t.C = n.Pos()
	for i := 0; i < n.Children(); i++ {
		t.Ch = append(t.Ch, bt(n.Child(i)))
	}
	return t
}

// ownNode is a foreign implementation of parlex.ParseNode
type ownNode struct {
	parlex.Lexeme
	p *ownNode
	c []*ownNode
}

func (o *ownNode) Parent() parlex.ParseNode {
	if o.p == nil {
		return nil
	}
	return o.p
}
func (o *ownNode) Children() int { return len(o.c) }
func (o *ownNode) Child(i int) parlex.ParseNode {
	if i < 0 {
		i += len(o.c)
	}
	if i < 0 || i >= len(o.c) {
		return nil
	}
	return o.c[i]
}

func makeOwn(t *BT, p *ownNode) *ownNode {
	o := &ownNode{Lexeme: makeLexeme(t, 0, nil), p: p}
	for _, c := range t.Ch {
		o.c = append(o.c, makeOwn(c, o))
	}
	return o
}

func makeLexeme(t *BT, how int, set *setsymbol.Set) parlex.Lexeme {
	var k parlex.Symbol = stringsymbol.Symbol(t.K)
	if how == 1 {
		k = set.Str(t.K)
	}
	if how == 4 {
		return &plainLex{t.K, strOf(t.V), t.L, t.C}
	}
	return lexeme.New(k).Set(strOf(t.V)).At(t.L, t.C)
}

// shareLexemes makes nodes that look the same use one lexeme
func shareLexemes(n *tree.PN, had map[string]parlex.Lexeme) {
	l, c := n.Pos()
	key := fmt.Sprintf("%q %q %d %d", n.Kind(), n.Value(), l, c)
	if lx, ok := had[key]; ok {
		n.Lexeme = lx
	}
	had[key] = n.Lexeme
	for _, ch := range n.C {
		shareLexemes(ch, had)
	}
}

// makeTree builds a *tree.PN; spare leaves room in the lists of children
func makeTree(t *BT, p *tree.PN, how, spare int, set *setsymbol.Set) *tree.PN {
	n := &tree.PN{Lexeme: makeLexeme(t, how, set), P: p}
	if len(t.Ch) > 0 || spare > 0 {
		n.C = make([]*tree.PN, 0, len(t.Ch)+spare)
	}
	for _, c := range t.Ch {
		n.C = append(n.C, makeTree(c, n, how, spare, set))
	}
	return n
}

// TOp is an edit
type TOp struct {
	O  string   `json:"o"`
	I  int      `json:"i"`
	Is []int    `json:"is"`
	Ks []string `json:"ks"`
}

// TCond is a condition
type TCond struct {
	T string `json:"t"`
	I int    `json:"i"`
	K string `json:"k"`
}

// TRed is a reduction
type TRed struct {
	T   string  `json:"t"`
	Op  TOp     `json:"op"`
	A   []*TRed `json:"a"`
	C   TCond   `json:"c"`
	Y   *TRed   `json:"y"`
	N   *TRed   `json:"n"`
	How int     `json:"how"`
	F   string  `json:"f"`
	K   string  `json:"k"`
}

// TRule is a rule of a reducer
type TRule struct {
	K string `json:"k"`
	R *TRed  `json:"r"`
}

func edit(n *tree.PN, o TOp) int {
	switch o.O {
	case "RemoveChild":
		return b2i(n.RemoveChild(o.I))
	case "RemoveChildren":
		n.RemoveChildren(o.Is...)
	case "RemoveAll":
		n.RemoveAll(o.Ks...)
	case "ReplaceWithChild":
		return b2i(n.ReplaceWithChild(o.I))
	case "PromoteChild":
		return b2i(n.PromoteChild(o.I))
	case "PromoteSingleChild":
		return b2i(n.PromoteSingleChild())
	case "PromoteChildValue":
		n.PromoteChildValue(o.I)
	case "PromoteChildrenOf":
		return b2i(n.PromoteChildrenOf(o.I))
	case "PromoteGrandChildren":
		n.PromoteGrandChildren()
	default:
		panic(driverErr("unknown edit " + o.O))
	}
	return -1
}

func opReduction(o TOp) tree.Reduction {
	switch o.O {
	case "RemoveChild":
		return tree.RemoveChild(o.I)
	case "RemoveChildren":
		return tree.RemoveChildren(o.Is...)
	case "RemoveAll":
		return tree.RemoveAll(o.Ks...)
	case "ReplaceWithChild":
		return tree.ReplaceWithChild(o.I)
	case "PromoteChild":
		return tree.PromoteChild(o.I)
	case "PromoteSingleChild":
		return tree.PromoteSingleChild
	case "PromoteChildValue":
		return tree.PromoteChildValue(o.I)
	case "PromoteChildrenOf":
		return tree.PromoteChildrenOf(o.I)
	case "PromoteGrandChildren":
		return tree.PromoteGrandChildren
	}
	panic(driverErr("unknown edit " + o.O))
}

func methodChain(r tree.Reduction, o TOp) tree.Reduction {
	switch o.O {
	case "RemoveChild":
		return r.RemoveChild(o.I)
	case "RemoveChildren":
		return r.RemoveChildren(o.Is...)
	case "RemoveAll":
		return r.RemoveAll(o.Ks...)
	case "ReplaceWithChild":
		return r.ReplaceWithChild(o.I)
	case "PromoteChild":
		return r.PromoteChild(o.I)
	case "PromoteSingleChild":
		return r.PromoteSingleChild()
	case "PromoteChildValue":
		return r.PromoteChildValue(o.I)
	case "PromoteChildrenOf":
		return r.PromoteChildrenOf(o.I)
	case "PromoteGrandChildren":
		return r.PromoteGrandChildren()
	}
	panic(driverErr("unknown edit " + o.O))
}

func cond(c TCond) tree.Condition {
	switch c.T {
	case "childis":
		return tree.ChildIs(c.I, c.K)
	case "nchildren":
		return func(n *tree.PN) bool { return n.Children() == c.I }
	}
	return nil
}

func reduction(r *TRed) tree.Reduction {
	switch r.T {
	case "op":
		return opReduction(r.Op)
	case "nil":
		return nil
	case "fn":
		return func(n *tree.PN) {
			switch r.F {
			case "mark":
				n.Lexeme = lexeme.Copy(n).Set(n.Value() + "!")
			case "rename":
				n.Lexeme = lexeme.New(stringsymbol.Symbol(r.K)).Set(n.Value()).At(n.Pos())
			case "grow":
				n.C = append(n.C, &tree.PN{Lexeme: lexeme.New(stringsymbol.Symbol(r.K)), P: n})
			}
		}
	case "if":
		if r.How == 1 {
			var none tree.Reduction
			return none.If(cond(r.C), reduction(r.Y), reduction(r.N))
		}
		return tree.If(cond(r.C), reduction(r.Y), reduction(r.N))
	case "chain":
		var x tree.Reduction
		if r.How == 2 { // right to left
			for i := len(r.A) - 1; i >= 0; i-- {
				x = tree.Chain(reduction(r.A[i]), x)
			}
			return x
		}
		for _, a := range r.A {
			switch {
			case r.How == 1 && a.T == "op":
				x = methodChain(x, a.Op)
			case r.How == 1 && a.T == "if":
				x = x.If(cond(a.C), reduction(a.Y), reduction(a.N))
			default:
				x = tree.Chain(x, reduction(a))
			}
		}
		return x
	}
	panic(driverErr("unknown reduction " + r.T))
}

func reducerOf(rs [][]TRule, how int) tree.Reducer {
	var m tree.Reducer
	for i, rules := range rs {
		r := tree.Reducer{}
		for _, ru := range rules {
			if how == 1 {
				r[ru.K] = reduction(ru.R)
			} else {
				r.Add(ru.K, reduction(ru.R))
			}
		}
		if i == 0 {
			m = r
		} else {
			a := m
			m = tree.Merge(a, r)
			// the merged reducer is a third one: what happens to the two does not touch it
			for _, old := range []tree.Reducer{a, r} {
				for k := range old {
					old[k] = func(n *tree.PN) { n.C = nil }
				}
				old.Add("spoiled", func(n *tree.PN) { n.C = nil })
				old.Add("", func(n *tree.PN) { n.C = nil })
			}
		}
	}
	return m
}

type treeStep struct {
	Do    string    `json:"do"`
	R     int       `json:"r"`
	T     *BT       `json:"t"`
	How   int       `json:"how"`
	Spare int       `json:"spare"`
	Text  []int     `json:"text"`
	Path  []int     `json:"path"`
	Op    TOp       `json:"op"`
	Ks    []string  `json:"ks"`
	Rs    [][]TRule `json:"rs"`
	Red   *TRed     `json:"red"`
	Cans  []string  `json:"cans"`
}

func nodeAt(n *tree.PN, path []int) *tree.PN {
	for _, x := range path {
		if len(n.C) == 0 {
			break
		}
		n = n.C[x%len(n.C)]
	}
	return n
}

func init() {
	ops["treehist"] = treeHist
	ops["reducetext"] = reduceText
}

func emptyNode() *tree.PN {
	return &tree.PN{Lexeme: lexeme.New(stringsymbol.Symbol(""))}
}

func treeHist(raw json.RawMessage) interface{} {
	var c struct {
		Steps []treeStep `json:"steps"`
	}
	get(raw, &c)
	reg := []parlex.ParseNode{emptyNode(), emptyNode()}
	var steps []interface{}
	set := setsymbol.New()
	for _, s := range c.Steps {
		o := O{"err": 0, "ret": -1}
		i := s.R - 1
		pn := func(k int) *tree.PN { p, _ := reg[k].(*tree.PN); return p }
		switch s.Do {
		case "build":
			if s.How == 2 {
				reg[i] = makeOwn(s.T, nil)
			} else {
				n := makeTree(s.T, nil, s.How, s.Spare, set)
				if s.How == 3 {
					shareLexemes(n, map[string]parlex.Lexeme{})
				}
				reg[i] = n
			}
		case "text":
			if len(s.Text)%2 == 1 { // what is done to one does nothing to another
				if t, _ := tree.New(strOf(s.Text)); t != nil {
					t.Lexeme = lexeme.New(stringsymbol.Symbol("spoilt"))
					for _, ch := range t.C {
						ch.Lexeme = lexeme.New(stringsymbol.Symbol("spoilt"))
					}
					t.C = append(t.C[:0], t)
				}
			}
			t, err := tree.New(strOf(s.Text))
			o["err"] = b2i(err != nil)
			if err == nil {
				reg[i] = t
			} else if t != nil {
				o["err"] = 2
			}
		case "print":
			t, err := tree.New(pn(1 - i).String())
			o["err"] = b2i(err != nil)
			if err == nil {
				reg[i] = t
			}
		case "clone":
			reg[i] = tree.Clone(reg[1-i])
		case "scribble":
			n := nodeAt(pn(i), s.Path)
			if lx, ok := n.Lexeme.(*lexeme.Lexeme); ok {
				lx.V += "!"
				lx.L = 77
			} else {
				_, col := n.Pos()
				n.Lexeme = lexeme.New(n.Kind()).Set(n.Value()+"!").At(77, col)
			}
			n.C = append(n.C, &tree.PN{Lexeme: lexeme.New(stringsymbol.Symbol("scribble")), P: n})
		case "edit":
			o["ret"] = edit(nodeAt(pn(i), s.Path), s.Op)
		case "apply":
			if r := reduction(s.Red); r != nil {
				r(nodeAt(pn(i), s.Path))
			}
		case "query":
			o["q"] = query(nodeAt(pn(i), s.Path), s.Ks)
		case "reduce":
			r := reducerOf(s.Rs, s.How)
			cans := []int{}
			for _, k := range s.Cans {
				cans = append(cans, b2i(r.Can(&tree.PN{Lexeme: lexeme.New(stringsymbol.Symbol(k))})))
			}
			o["can"] = cans
			if s.How == 1 {
				reg[i] = r.RawReduce(reg[1-i])
			} else {
				reg[i] = r.Reduce(reg[1-i])
			}
		default:
			panic(driverErr("unknown step " + s.Do))
		}
		ok := 1
		note := ""
		for _, r := range reg {
			if p, is := r.(*tree.PN); is {
				if x := links(p); x != "" {
					ok, note = 0, x
				}
			}
		}
		o["links"], o["note"] = ok, note
		o["regs"] = []*BT{bt(reg[0]), bt(reg[1])}
		steps = append(steps, o)
	}
	return O{"steps": steps}
}

func query(n *tree.PN, ks []string) O {
	l := n.Children()
	var child []string
	var is, at, idx []int
	for j := 1; j <= 2*l+4; j++ {
		i := j - l - 3
		c := n.Child(i)
		if c == nil {
			child = append(child, "")
		} else {
			child = append(child, c.Kind().String())
		}
		is = append(is, b2i(n.ChildIs(i, ks[0])))
		at = append(at, b2i(n.ChildAt(i, ks...)))
		x, ln, ok := n.GetIdx(i)
		if !ok {
			x = -1
		} else if ln != l {
			x = -2
		}
		idx = append(idx, x)
	}
	return O{"n": l, "size": n.Size(), "child": child, "is": is, "at": at, "idx": idx}
}

// reduceText parses a textual reducer and applies it to trees, once again after
// having parsed something else
func reduceText(raw json.RawMessage) interface{} {
	var c struct {
		Text  []int    `json:"text"`
		Trees []*BT    `json:"trees"`
		Cans  []string `json:"cans"`
	}
	get(raw, &c)
	if len(c.Text)%2 == 1 { // what is done to one does nothing to another
		if r, _ := reducer.Parse(strOf(c.Text)); r != nil {
			for _, k := range c.Cans {
				r.Add(k, tree.RemoveChild(0))
			}
			for k := range r {
				r[k] = tree.RemoveChild(0)
			}
		}
	}
	r, err := reducer.Parse(strOf(c.Text))
	o := O{"err": b2i(err != nil), "have": b2i(r != nil), "outs": []*BT{}, "can": []int{}, "links": 1}
	if err != nil {
		return o
	}
	outs := []*BT{}
	for _, t := range c.Trees {
		x := r.Reduce(makeTree(t, nil, 0, 0, nil))
		if s := links(x); s != "" {
			o["links"] = 0
		}
		outs = append(outs, bt(x))
	}
	cans := []int{}
	for _, k := range c.Cans {
		cans = append(cans, b2i(r.Can(&tree.PN{Lexeme: lexeme.New(stringsymbol.Symbol(k))})))
	}
	o["outs"], o["can"] = outs, cans
	return o
}
