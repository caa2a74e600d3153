package main

import (
	"encoding/json"
	"fmt"
	"strconv"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
)

// PLex, PRed, PCall script the answers of the stages
type PLex struct {
	Nil  int   `json:"nil"`
	N    int   `json:"n"`
	Errs []int `json:"errs"`
}
type PRed struct {
	Nil int `json:"nil"`
	Out int `json:"out"`
}
type PCall struct {
	In    string `json:"in"`
	Lex   PLex   `json:"lex"`
	Parse int    `json:"parse"`
	Reds  []PRed `json:"reds"`
}

type pipeCase struct {
	Calls  []PCall `json:"calls"`
	Runner int     `json:"runner"`
	How    int     `json:"how"`
	// with real stages
	Inputs [][]int `json:"inputs"`
	Lexer  string  `json:"lexer"`
	Kind   string  `json:"kind"`
	G      G       `json:"g"`
	Parser string  `json:"parser"`
	Reds   int     `json:"nreds"`
}

type plexErr struct{ *lexeme.Lexeme }

func (p *plexErr) Error() string { return "error of the lexer" }

// plexErr2 is another one, with no text
type plexErr2 struct {
	parlex.Lexeme
	n int
}

func (p plexErr2) Error() string { return "" }

type plog struct {
	call  *PCall
	log   []O
	lxs   []parlex.Lexeme
	nodes map[parlex.ParseNode]int
	how   int
}

func (p *plog) note(ev, arg string, n int) { p.log = append(p.log, O{"ev": ev, "arg": arg, "n": n}) }

func (p *plog) node(id int) parlex.ParseNode {
	for n, i := range p.nodes {
		if i == id {
			return n
		}
	}
	n := &tree.PN{Lexeme: lexeme.New(stringsymbol.Symbol("n" + strconv.Itoa(id)))}
	p.nodes[n] = id
	return n
}

func (p *plog) id(n parlex.ParseNode) int {
	if n == nil {
		return 0
	}
	if i, ok := p.nodes[n]; ok {
		return i
	}
	return -1
}

type plexer struct{ *plog }
type pparser struct{ *plog }
type preducer struct {
	*plog
	k int
}

func (p plexer) Lex(s string) []parlex.Lexeme {
	p.note("lex", s, 0)
	p.lxs = nil
	if p.call.Lex.Nil == 1 {
		return nil
	}
	lxs := make([]parlex.Lexeme, 0, p.call.Lex.N)
	for i := 0; i < p.call.Lex.N; i++ {
		l := lexeme.New(stringsymbol.Symbol("k")).Set(fmt.Sprint(i))
		if p.how&8 != 0 {
			l.Set("")
		}
		if p.how&1 != 0 {
			l.At(1, 10-i)
		}
		lxs = append(lxs, l)
	}
	for _, e := range p.call.Lex.Errs {
		if l := lxs[e-1].(*lexeme.Lexeme); p.how&16 != 0 {
			lxs[e-1] = plexErr2{l, e}
		} else {
			lxs[e-1] = &plexErr{l}
		}
	}
	p.lxs = lxs
	return lxs
}

func (p pparser) Parse(lxs []parlex.Lexeme) parlex.ParseNode {
	same := len(lxs) == len(p.lxs)
	for i := 0; same && i < len(lxs); i++ {
		same = lxs[i] == p.lxs[i]
	}
	n := len(lxs)
	if !same {
		n = -1
	}
	p.note("parse", p.call.In, n)
	if p.call.Parse == 0 {
		return nil
	}
	return p.node(p.call.Parse)
}

func (p preducer) Can(parlex.ParseNode) bool { return p.how&2 == 0 }
func (p preducer) Reduce(n parlex.ParseNode) parlex.ParseNode {
	p.note("reduce", strconv.Itoa(p.k), p.id(n))
	o := p.call.Reds[p.k-1].Out
	if o == 0 {
		return nil
	}
	return p.node(o)
}

func (p *plog) result(n parlex.ParseNode, err error) O {
	e := "other"
	switch err {
	case nil:
		e = ""
	case parlex.ErrCouldNotLex:
		e = "ErrCouldNotLex"
	case parlex.ErrCouldNotParse:
		e = "ErrCouldNotParse"
	case parlex.ErrCouldNotReduce:
		e = "ErrCouldNotReduce"
	default:
		for i, l := range p.lxs {
			if x, ok := l.(error); ok && x == err {
				e = "lexeme " + strconv.Itoa(i+1)
			}
		}
	}
	if p.log == nil {
		p.log = []O{}
	}
	return O{"tree": p.id(n), "err": e, "log": p.log}
}

func init() {
	ops["pipeline"] = func(raw json.RawMessage) interface{} {
		var c pipeCase
		get(raw, &c)
		p := &plog{how: c.How}
		reds := []parlex.Reducer{}
		for k, r := range c.Calls[0].Reds {
			if r.Nil == 1 {
				reds = append(reds, nil)
			} else {
				reds = append(reds, preducer{p, k + 1})
			}
		}
		if len(reds) == 0 && c.How&4 != 0 {
			reds = nil
		}
		var runner *parlex.Runner
		if c.Runner == 1 {
			if c.How&32 != 0 { // the list may be used again
				parlex.New(plexer{p}, pparser{p}, reds...)
			}
			runner = parlex.New(plexer{p}, pparser{p}, reds...)
		}
		runs := []O{}
		for i := range c.Calls {
			p.call, p.log, p.nodes = &c.Calls[i], nil, map[parlex.ParseNode]int{}
			var n parlex.ParseNode
			var err error
			if runner != nil {
				n, err = runner.Run(p.call.In)
			} else {
				n, err = parlex.Run(p.call.In, plexer{p}, pparser{p}, reds...)
			}
			runs = append(runs, p.result(n, err))
		}
		return O{"runs": runs}
	}
	ops["pipelinereal"] = pipeReal
}

// real stages, wrapped so that what they answer is recorded
type rlexer struct {
	*plog
	l parlex.Lexer
}
type rparser struct {
	*plog
	p parlex.Parser
}
type rreducer struct {
	*plog
	k int
	r parlex.Reducer
}

func (r rlexer) Lex(s string) []parlex.Lexeme {
	r.note("lex", s, 0)
	lxs := r.l.Lex(s)
	r.lxs = lxs
	r.call.Lex = PLex{Nil: b2(lxs == nil), N: len(lxs), Errs: []int{}}
	for i, l := range lxs {
		if _, ok := l.(parlex.LexError); ok {
			r.call.Lex.Errs = append(r.call.Lex.Errs, i+1)
		}
	}
	return lxs
}

func (r rparser) Parse(lxs []parlex.Lexeme) parlex.ParseNode {
	r.note("parse", r.call.In, len(lxs))
	n := r.p.Parse(lxs)
	if n == nil {
		return nil
	}
	r.nodes[n] = 1
	r.call.Parse = 1
	return n
}

func (r rreducer) Can(n parlex.ParseNode) bool { return r.r.Can(n) }
func (r rreducer) Reduce(n parlex.ParseNode) parlex.ParseNode {
	r.note("reduce", strconv.Itoa(r.k), r.id(n))
	m := r.r.Reduce(n)
	if m == nil {
		return nil
	}
	if _, ok := r.nodes[m]; !ok {
		r.nodes[m] = 10 + r.k
	}
	r.call.Reds[r.k-1].Out = r.nodes[m]
	return m
}

func pipeReal(raw json.RawMessage) interface{} {
	var c pipeCase
	get(raw, &c)
	p := &plog{}
	var lx parlex.Lexer
	var err error
	if c.Kind == "stack" {
		lx, err = stacklexer.New(c.Lexer)
	} else {
		lx, err = simplelexer.New(c.Lexer)
	}
	if err != nil {
		panic(driverErr(err.Error()))
	}
	g, err := grammar.New(c.G.text())
	if err != nil {
		panic(driverErr(err.Error()))
	}
	var ps parlex.Parser
	if c.Parser == "topdown" {
		ps, err = topdown.New(g)
		if err != nil {
			ps = packrat.New(g)
		}
	} else {
		ps = packrat.New(g)
	}
	reds := []parlex.Reducer{}
	spec := []PRed{}
	for k := 0; k < c.Reds; k++ {
		switch (k + c.How) % 3 {
		case 0:
			reds = append(reds, nil)
			spec = append(spec, PRed{Nil: 1})
		case 1:
			reds = append(reds, rreducer{p, k + 1, tree.Reducer{"A": tree.PromoteSingleChild}})
			spec = append(spec, PRed{})
		default:
			reds = append(reds, rreducer{p, k + 1, tree.Reducer{"S": tree.RemoveChild(0)}})
			spec = append(spec, PRed{})
		}
	}
	runner := parlex.New(rlexer{p, lx}, rparser{p, ps}, reds...)
	calls := []*PCall{}
	runs := []O{}
	for _, in := range c.Inputs {
		p.call = &PCall{In: strOf(in), Lex: PLex{Nil: 1, Errs: []int{}}, Reds: append([]PRed{}, spec...)}
		p.log, p.nodes, p.lxs = nil, map[parlex.ParseNode]int{}, nil
		calls = append(calls, p.call)
		n, err := runner.Run(p.call.In)
		runs = append(runs, p.result(n, err))
	}
	return O{"calls": calls, "runs": runs}
}
