package main

import (
	"encoding/json"
	"math/rand"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
)

type rgCase struct {
	Text  []int      `json:"text"`
	Seed  int64      `json:"seed"`
	Trees int        `json:"trees"`
	Words [][]string `json:"words"`
}

func init() { ops["regexgram"] = regexGram }

// deriver makes random derivation trees of a grammar
type deriver struct {
	ps  map[string][][]string
	h   map[string]int // height of the lowest tree
	rng *rand.Rand
	n   int
}

func newDeriver(g G, rng *rand.Rand) *deriver {
	d := &deriver{ps: map[string][][]string{}, h: map[string]int{}, rng: rng}
	for i, nt := range g.Nts {
		d.ps[nt] = g.Ps[i]
	}
	for changed := true; changed; {
		changed = false
		for nt, ps := range d.ps {
			for _, p := range ps {
				if h, ok := d.height(p); ok {
					if old, have := d.h[nt]; !have || h+1 < old {
						d.h[nt] = h + 1
						changed = true
					}
				}
			}
		}
	}
	return d
}

func (d *deriver) height(p []string) (int, bool) {
	h := 0
	for _, s := range p {
		if _, nt := d.ps[s]; nt {
			x, ok := d.h[s]
			if !ok {
				return 0, false
			}
			if x > h {
				h = x
			}
		}
	}
	return h, true
}

func (d *deriver) tree(s string, budget int) *BT {
	d.n++
	ps, nt := d.ps[s]
	t := &BT{K: s, V: []int{}, L: -1, Ch: []*BT{}}
	if !nt {
		t.V = []int{97 + d.rng.Intn(26)}
		t.L, t.C = d.rng.Intn(3), d.n
		return t
	}
	var can [][]string
	best := -1
	for _, p := range ps {
		if h, ok := d.height(p); ok {
			if best == -1 || h < best {
				best = h
			}
			can = append(can, p)
		}
	}
	var pick [][]string
	for _, p := range can {
		if h, _ := d.height(p); h == best || (h <= budget && d.n < 60) {
			pick = append(pick, p)
		}
	}
	for _, x := range pick[d.rng.Intn(len(pick))] {
		t.Ch = append(t.Ch, d.tree(x, budget-1))
	}
	return t
}

func regexGram(raw json.RawMessage) interface{} {
	var c rgCase
	get(raw, &c)
	if len(c.Text)%2 == 1 { // what is done to one does nothing to another
		if g, r, _ := regexgram.New(strOf(c.Text)); g != nil && r != nil {
			for _, nt := range g.NonTerminals() {
				g.Add(nt, stringsymbol.Production{"spoilt"})
				r.Add(nt.String(), tree.RemoveChild(0))
			}
			g.Add(stringsymbol.Symbol("spoilt"), stringsymbol.Production{})
			for k := range r {
				r[k] = tree.RemoveChild(0)
			}
		}
	}
	g, r, err := regexgram.New(strOf(c.Text))
	have := 2
	if g == nil && r == nil {
		have = 0
	} else if g != nil && r != nil {
		have = 1
	}
	out := O{"err": b2(err != nil), "have": have, "g": G{Nts: []string{}, Ps: [][][]string{}}, "trees": []O{}}
	if have != 1 || err != nil {
		return out
	}
	og := observeGrammar(g)
	out["g"] = og
	rng := rand.New(rand.NewSource(c.Seed))
	set := setsymbol.New()
	trees := []O{}
	add := func(n parlex.ParseNode) {
		before := bt(n)
		after := r.Reduce(n)
		trees = append(trees, O{"before": before, "after": bt(after)})
	}
	d := newDeriver(og, rng)
	start := ""
	if len(og.Nts) > 0 {
		start = og.Nts[0]
	}
	if _, ok := d.h[start]; ok {
		for i := 0; i < c.Trees; i++ {
			d.n = 0
			t := d.tree(start, 3+rng.Intn(12))
			if rng.Intn(4) == 0 {
				add(makeOwn(t, nil))
			} else {
				add(makeTree(t, nil, rng.Intn(2), 0, set))
			}
		}
	}
	if len(c.Words) > 0 && start != "" {
		p := packrat.New(g)
		for _, w := range c.Words {
			lxs := make([]parlex.Lexeme, len(w))
			for i, s := range w {
				lxs[i] = lexeme.New(stringsymbol.Symbol(s)).Set(s).At(0, i+1)
			}
			if n := p.Parse(lxs); n != nil {
				if pn, ok := n.(*tree.PN); !ok || pn != nil {
					add(n)
				}
			}
		}
	}
	out["trees"] = trees
	return out
}
