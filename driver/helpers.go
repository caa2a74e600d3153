package main

import (
	"encoding/json"
	"errors"
	"sort"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
)

// plainLex is a lexeme of our own
type plainLex struct {
	k, v string
	l, c int
}

func (p *plainLex) Kind() parlex.Symbol { return stringsymbol.Symbol(p.k) }
func (p *plainLex) Value() string       { return p.v }
func (p *plainLex) Pos() (int, int)     { return p.l, p.c }

// errLex is a lexeme of our own that is an error
type errLex struct{ parlex.Lexeme }

func (e *errLex) Error() string { return "bad" }

// attempt runs f; r is what it panicked with
func attempt(f func()) (panicked bool, r interface{}) {
	defer func() {
		if panicked {
			r = recover()
		}
	}()
	panicked = true
	f()
	panicked = false
	return
}

func sampleLexer() parlex.Lexer {
	l, err := simplelexer.New("a /a/")
	if err != nil {
		panic(driverErr(err.Error()))
	}
	return l
}

func iterate(ps parlex.Productions, it *parlex.ProductionsIterator) ([]O, int) {
	out, after := []O{}, 0
	for n := 0; it.Next(); n++ {
		if n > 1000 {
			return out, 1000
		}
		v := []O{}
		pit := it.Production.Iter()
		for m := 0; pit.Next(); m++ {
			if m > 1000 {
				return out, 1000
			}
			v = append(v, O{"i": pit.Idx, "s": bytesOf(pit.Symbol.String())})
		}
		for k := 0; k < 3; k++ {
			if pit.Next() {
				after++
			}
		}
		out = append(out, O{"i": it.Idx, "s": v})
	}
	for k := 0; k < 3; k++ {
		if it.Next() {
			after++
		}
	}
	return out, after
}

func init() {
	ops["lexemes"] = func(raw json.RawMessage) interface{} {
		var c struct {
			Ls []struct {
				K, V           []int
				L, C, Err, How int
			} `json:"ls"`
		}
		get(raw, &c)
		set := setsymbol.New()
		ls := []parlex.Lexeme{}
		own, seen := [][]int{}, []O{}
		for _, x := range c.Ls {
			k, v := strOf(x.K), strOf(x.V)
			var l parlex.Lexeme
			var m *lexeme.Lexeme
			switch x.How {
			case 0:
				m = lexeme.New(stringsymbol.Symbol(k)).Set(v)
				if x.L != -1 || x.C != 0 {
					m = m.At(x.L, x.C)
				}
			case 1:
				m = lexeme.String(k).Set(v)
				if x.L != -1 || x.C != 0 {
					m = m.At(x.L, x.C)
				}
			case 2:
				m = lexeme.Copy(&plainLex{k, v, x.L, x.C})
			case 4:
				l = lexeme.New(set.Str(k)).Set("other").At(7, 7).Set(v).At(x.L, x.C)
			default:
				l = &plainLex{k, v, x.L, x.C}
			}
			if m != nil {
				l = m
				own = append(own, bytesOf(m.String()))
			} else {
				own = append(own, []int{})
			}
			if x.Err == 1 {
				l = &errLex{l}
			}
			ls = append(ls, l)
		}
		errs := []int{}
		from := 0
		for _, e := range parlex.LexErrors(ls) {
			at := 0
			for i := from; i < len(ls); i++ {
				if ls[i] == parlex.Lexeme(e) {
					at = i + 1
					from = at
					break
				}
			}
			errs = append(errs, at)
		}
		o := O{"str": bytesOf(parlex.LexemeString(ls...)), "list": bytesOf(parlex.LexemeList(ls)), "errs": errs, "own": own}
		for _, l := range ls {
			pl, pc := l.Pos()
			seen = append(seen, O{"k": bytesOf(l.Kind().String()), "v": bytesOf(l.Value()), "l": pl, "c": pc})
		}
		o["seen"] = seen
		return o
	}

	ops["must"] = func(raw json.RawMessage) interface{} {
		var c struct {
			Form     string `json:"form"`
			Obj, Err int
		}
		get(raw, &c)
		var err error
		if c.Err == 1 {
			err = errors.New("the error")
		}
		got := 0
		p, r := attempt(func() {
			switch c.Form {
			case "lexer":
				var l parlex.Lexer
				if c.Obj == 1 {
					l = sampleLexer()
				}
				if m := parlex.MustLexer(l, err); m != nil && m == l {
					got = 1
				}
			case "grammar":
				var g parlex.Grammar
				if c.Obj == 1 {
					g = grammar.Empty()
				}
				if m := parlex.MustGrammar(g, err); m != nil && m == g {
					got = 1
				}
			case "parser":
				var q parlex.Parser
				if c.Obj == 1 {
					g, e := grammar.New("S -> a")
					if e != nil {
						panic(driverErr(e.Error()))
					}
					q = packrat.New(g)
				}
				if m := parlex.MustParser(q, err); m != nil && m == q {
					got = 1
				}
			}
		})
		return O{"panics": b2i(p), "samerr": b2i(p && r == interface{}(err)), "obj": got}
	}

	ops["musttext"] = func(raw json.RawMessage) interface{} {
		var c struct {
			Form  string  `json:"form"`
			Text  []int   `json:"text"`
			Subs  [][]int `json:"subs"`
			Probe []int   `json:"probe"`
		}
		get(raw, &c)
		text := strOf(c.Text)
		var nerr error
		var a, b interface{}
		var p bool
		var r interface{}
		switch c.Form {
		case "regexgram":
			g, rd, err := regexgram.New(text)
			nerr = err
			p, r = attempt(func() {
				g2, rd2 := regexgram.Must(text)
				b = []interface{}{observeGrammar(g2), reducerKeys(rd2)}
			})
			if err == nil {
				a = []interface{}{observeGrammar(g), reducerKeys(rd)}
			}
		case "reducer":
			rd, err := reducer.Parse(text)
			nerr = err
			p, r = attempt(func() { b = reducerKeys(reducer.Must(text)) })
			if err == nil {
				a = reducerKeys(rd)
			}
		case "stack":
			defs := []string{text}
			for _, s := range c.Subs {
				defs = append(defs, strOf(s))
			}
			l, err := stacklexer.New(defs...)
			nerr = err
			p, r = attempt(func() { b = parlex.LexemeList(stacklexer.Must(defs...).Lex(strOf(c.Probe))) })
			if err == nil {
				a = parlex.LexemeList(l.Lex(strOf(c.Probe)))
			}
		}
		_, iserr := r.(error)
		same := 0
		if !p && nerr == nil {
			x, _ := json.Marshal(a)
			y, _ := json.Marshal(b)
			same = b2i(string(x) == string(y))
		}
		return O{"newerr": b2i(nerr != nil), "panics": b2i(p), "iserr": b2i(iserr), "same": same}
	}

	// the errors a lexer gives, as people read them
	ops["errtext"] = func(raw json.RawMessage) interface{} {
		var c struct {
			Form string `json:"form"`
			Kind []int  `json:"kind"`
			In   []int  `json:"in"`
		}
		get(raw, &c)
		var lx parlex.Lexer
		if c.Form == "simple" {
			was := simplelexer.DefaultErrorString
			simplelexer.DefaultErrorString = strOf(c.Kind)
			l, err := simplelexer.New("x /x/\nsp /\\s+/ -")
			simplelexer.DefaultErrorString = was
			if err != nil {
				panic(driverErr(err.Error()))
			}
			lx = l
		} else {
			l, err := stacklexer.New("== m ==\nx /x/\nsp /\\s+/ -\n")
			if err != nil {
				panic(driverErr(err.Error()))
			}
			l.Error = strOf(c.Kind)
			lx = l
		}
		out := []O{}
		for _, e := range parlex.LexErrors(lx.Lex(strOf(c.In))) {
			l, col := e.Pos()
			out = append(out, O{"k": bytesOf(e.Kind().String()), "v": bytesOf(e.Value()), "l": l, "c": col, "msg": bytesOf(e.Error())})
		}
		return O{"errs": out, "symlen": parlex.SymLen(stringsymbol.Symbol(strOf(c.Kind))), "setlen": parlex.SymLen(setsymbol.New().Str(strOf(c.Kind)))}
	}

	ops["iter"] = func(raw json.RawMessage) interface{} {
		var c struct {
			Ps  [][][]int `json:"ps"`
			How int       `json:"how"`
		}
		get(raw, &c)
		sp := stringsymbol.Productions{}
		for _, q := range c.Ps {
			pr := stringsymbol.Production{}
			for _, s := range q {
				pr = append(pr, stringsymbol.Symbol(strOf(s)))
			}
			sp = append(sp, pr)
		}
		var ps parlex.Productions = sp
		if c.How%2 == 1 {
			ps = setsymbol.New().CastProductions(sp)
		}
		it := ps.Iter()
		if c.How >= 2 {
			it = &parlex.ProductionsIterator{Productions: ps}
		}
		v, after := iterate(ps, it)
		for k := 0; k < 2; k++ { // iterators of nothing
			after += b2i((&parlex.ProductionIterator{}).Next()) + b2i((&parlex.ProductionsIterator{}).Next())
		}
		return O{"visits": v, "after": after}
	}
}

func reducerKeys(r tree.Reducer) []string {
	out := []string{}
	for k := range r {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
