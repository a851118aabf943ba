package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
)

// ---- lexer / parser for contract expressions

type tokKind int

const (
	tkEOF tokKind = iota
	tkIdent
	tkInt
	tkStr
	tkOp
)

type ltok struct {
	k   tokKind
	s   string
	pos int
}

func lex(src string) ([]ltok, error) {
	var out []ltok
	i := 0
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "(", ")", "[", "]", "{", "}", ",", ".", "<", ">", "+", "-", "*", "!", "?", ":", ";"}
loop:
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == 'x' || src[j] >= 'a' && src[j] <= 'f') {
				j++
			}
			out = append(out, ltok{tkInt, src[i:j], i})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(src) && (src[j] == '_' || src[j] == '$' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, ltok{tkIdent, src[i:j], i})
			i = j
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				return nil, err
			}
			out = append(out, ltok{tkStr, s, i})
			i = j + 1
		case c == '\'':
			j := i + 1
			for j < len(src) && src[j] != '\'' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(src[i+1:j], '\'')
			if err != nil {
				return nil, err
			}
			out = append(out, ltok{tkInt, strconv.Itoa(int(r)), i})
			i = j + 1
		default:
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					out = append(out, ltok{tkOp, o, i})
					i += len(o)
					continue loop
				}
			}
			return nil, fmt.Errorf("bad character %q in %q", c, src)
		}
	}
	return append(out, ltok{tkEOF, "", i}), nil
}

// SE is a contract expression.
type SE struct {
	op    string // ident int str call field index forall exists ite unop:.. binop:.. old entry
	name  string
	n     int64
	args  []*SE
	bound []TVar
	pats  [][]*SE
	src   string
}

type sparser struct {
	ts  []ltok
	i   int
	src string
}

func parseExpr(src string) (e *SE, err error) {
	ts, err := lex(src)
	if err != nil {
		return nil, err
	}
	p := &sparser{ts: ts, src: src}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("parse %q: %v", src, r)
		}
	}()
	e = p.expr()
	if p.cur().k != tkEOF {
		panic("trailing input at " + src[p.cur().pos:])
	}
	e.src = src
	return e, nil
}

func (p *sparser) cur() ltok { return p.ts[p.i] }
func (p *sparser) isOp(s string) bool {
	return p.cur().k == tkOp && p.cur().s == s
}
func (p *sparser) acc(s string) bool {
	if p.isOp(s) {
		p.i++
		return true
	}
	return false
}
func (p *sparser) exp(s string) {
	if !p.acc(s) {
		panic(fmt.Sprintf("expected %q at %q", s, p.src[p.cur().pos:]))
	}
}
func (p *sparser) ident() string {
	if p.cur().k != tkIdent {
		panic(fmt.Sprintf("expected identifier at %q", p.src[p.cur().pos:]))
	}
	s := p.cur().s
	p.i++
	return s
}

func (p *sparser) expr() *SE {
	if p.cur().k == tkIdent && (p.cur().s == "forall" || p.cur().s == "exists") {
		op := p.ident()
		var bs []TVar
		for {
			n := p.ident()
			s := p.sortName()
			bs = append(bs, TVar{n, s})
			if !p.acc(",") {
				break
			}
		}
		p.exp("::")
		var pats [][]*SE
		for p.acc("{") {
			var ps []*SE
			for {
				ps = append(ps, p.expr())
				if !p.acc(",") {
					break
				}
			}
			p.exp("}")
			pats = append(pats, ps)
		}
		b := p.expr()
		return &SE{op: op, bound: bs, pats: pats, args: []*SE{b}}
	}
	return p.iff()
}
func (p *sparser) sortName() Sort {
	return Sort(p.ident())
}
func (p *sparser) iff() *SE {
	l := p.imp()
	for p.acc("<==>") {
		l = &SE{op: "iff", args: []*SE{l, p.imp()}}
	}
	return l
}
func (p *sparser) imp() *SE {
	l := p.tern()
	if p.acc("==>") {
		if p.cur().k == tkIdent && (p.cur().s == "forall" || p.cur().s == "exists") {
			return &SE{op: "imp", args: []*SE{l, p.expr()}}
		}
		return &SE{op: "imp", args: []*SE{l, p.imp()}}
	}
	return l
}
func (p *sparser) tern() *SE {
	c := p.or()
	if p.acc("?") {
		a := p.tern()
		p.exp(":")
		b := p.tern()
		return &SE{op: "ite", args: []*SE{c, a, b}}
	}
	return c
}
func (p *sparser) or() *SE {
	l := p.and()
	for p.acc("||") {
		l = &SE{op: "or", args: []*SE{l, p.and()}}
	}
	return l
}
func (p *sparser) and() *SE {
	l := p.cmp()
	for p.acc("&&") {
		l = &SE{op: "and", args: []*SE{l, p.cmp()}}
	}
	return l
}
func (p *sparser) cmp() *SE {
	l := p.add()
	var res *SE
	for {
		var o string
		for _, x := range []string{"==", "!=", "<=", ">=", "<", ">"} {
			if p.isOp(x) {
				o = x
				break
			}
		}
		if o == "" {
			break
		}
		p.i++
		r := p.add()
		c := &SE{op: o, args: []*SE{l, r}}
		if res == nil {
			res = c
		} else {
			res = &SE{op: "and", args: []*SE{res, c}}
		}
		l = r
	}
	if res != nil {
		return res
	}
	return l
}
func (p *sparser) add() *SE {
	l := p.unary()
	for {
		if p.acc("+") {
			l = &SE{op: "+", args: []*SE{l, p.unary()}}
		} else if p.acc("-") {
			l = &SE{op: "-", args: []*SE{l, p.unary()}}
		} else {
			return l
		}
	}
}
func (p *sparser) unary() *SE {
	if p.acc("!") {
		return &SE{op: "not", args: []*SE{p.unary()}}
	}
	if p.acc("-") {
		return &SE{op: "neg", args: []*SE{p.unary()}}
	}
	if p.acc("*") {
		return &SE{op: "deref", args: []*SE{p.unary()}}
	}
	return p.post()
}
func (p *sparser) post() *SE {
	e := p.prim()
	for {
		switch {
		case p.acc("."):
			e = &SE{op: "field", name: p.ident(), args: []*SE{e}}
		case p.acc("["):
			i := p.expr()
			p.exp("]")
			e = &SE{op: "index", args: []*SE{e, i}}
		default:
			return e
		}
	}
}
func (p *sparser) prim() *SE {
	c := p.cur()
	switch c.k {
	case tkInt:
		p.i++
		n, err := strconv.ParseInt(c.s, 0, 64)
		if err != nil {
			panic(err)
		}
		return &SE{op: "int", n: n}
	case tkStr:
		p.i++
		return &SE{op: "str", name: c.s}
	case tkIdent:
		p.i++
		if p.acc("(") {
			var as []*SE
			if !p.acc(")") {
				for {
					as = append(as, p.expr())
					if !p.acc(",") {
						break
					}
				}
				p.exp(")")
			}
			return &SE{op: "call", name: c.s, args: as}
		}
		return &SE{op: "ident", name: c.s}
	}
	if p.acc("(") {
		e := p.expr()
		p.exp(")")
		return e
	}
	panic("unexpected token at " + p.src[c.pos:])
}

// ---- contract files

type Clause struct {
	tags  []string
	label string
	e     *SE
	src   string
}

type LoopTmpl struct {
	vars  []struct{ name, typ string }
	e     *SE
	kind  string // inv | variant | hint
	src   string
	label string
}

type Contract struct {
	name    string // canonical function name
	params  []string
	kind    string // exported, soft, trusted, pure
	req     []Clause
	ens     []Clause
	mod     []*SE
	loops   []LoopTmpl
	noalloc bool
	uses    []string
	file    string
	props   []string
	opts    map[string]bool
}

type MacroDef struct {
	params []string
	e      *SE
	opaque bool // not expanded unless the unit reveals it
}

type ScriptCall struct {
	res  string
	fn   string // function canonical name, or variable holding a func value
	args []string
	kind string // call, shared, start, havoc, assume, global, let
	ress []string
	e    *SE
}

type StateVar struct {
	name, typ, hint string
}

type Iterator struct {
	name      string
	script    []ScriptCall
	state     []StateVar
	req       []Clause
	inv       []Clause
	view      *SE
	end       *SE
	lazyview  *SE
	lazy      []Clause
	post      []Clause // extra step postconditions
	made      []Clause // extra postconditions of construction
	loops     []LoopTmpl
	stream    string
	file      string
	globals   []string
	theorem   bool
	props     []string
	opts      map[string]bool
	globalInv []Clause
}

type Specs struct {
	ghosts    map[string][2]Sort
	ghostList []string
	macros    map[string]MacroDef
	contracts map[string]*Contract
	iters     map[string]*Iterator
	zero      map[string][]struct {
		ghost string
		e     *SE
	}
	aliases   map[string]string // package alias -> path
	pkginv    map[string][]Clause
	order     []string
	iterOrder []string
	structs   map[string][][2]string
	lints     []string
	events    []GhostEvent
}

// GhostEvent: ghost code that runs when a field is written (on pkg.T.f(o, v): ...) or a map is updated
// (on map[K]V(m, k, v): ...). It changes only ghost state.
type GhostEvent struct {
	what string // type.field, or a map type
	vars []string
	set  []struct {
		ghost  string
		ref, e *SE
	}
}

func newSpecs() *Specs {
	return &Specs{ghosts: map[string][2]Sort{}, macros: map[string]MacroDef{}, contracts: map[string]*Contract{}, iters: map[string]*Iterator{},
		zero: map[string][]struct {
			ghost string
			e     *SE
		}{}, aliases: map[string]string{}, pkginv: map[string][]Clause{}, structs: map[string][][2]string{}}
}

// logical lines: a line starting with whitespace followed by a keyword starts a clause; other
// indented lines continue the previous one. Keywords are recognised explicitly.
var topKw = map[string]bool{"package": true, "ghost": true, "def": true, "opaque": true, "func": true, "iterator": true, "zero": true, "pkginv": true, "struct": true, "theorem": true, "on": true}
var subKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "loop": true, "script": true, "state": true, "inv": true, "view": true, "end": true, "lazy": true, "lazyview": true, "post": true, "made": true, "noalloc": true, "uses": true, "variant": true, "option": true, "global": true, "hint": true, "ginv": true, "props": true}

func (sp *Specs) loadFile(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var lines []string
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, "//"); i >= 0 && !strings.Contains(l[:i], "\"") {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t[({"); i >= 0 {
			w = t[:i]
		}
		if topKw[w] && l[0] != ' ' && l[0] != '\t' || subKw[w] {
			lines = append(lines, t)
		} else if len(lines) == 0 {
			return fmt.Errorf("%s: stray %q", path, t)
		} else {
			lines[len(lines)-1] += " " + t
		}
	}
	var con *Contract
	var it *Iterator
	for _, l := range lines {
		w := l
		rest := ""
		if i := strings.IndexAny(l, " \t[({"); i >= 0 {
			w = l[:i]
			rest = strings.TrimSpace(l[i:])
		}
		fail := func(err error) error { return fmt.Errorf("%s: %q: %v", path, l, err) }
		clause := func(r string) (Clause, error) {
			var c Clause
			r = strings.TrimSpace(r)
			if strings.HasPrefix(r, "[") {
				j := strings.IndexByte(r, ']')
				tl := r[1:j]
				if a := strings.IndexByte(tl, '@'); a >= 0 {
					c.label = strings.TrimSpace(tl[a+1:])
					tl = tl[:a]
				}
				for _, t := range strings.Split(tl, ",") {
					if t = strings.TrimSpace(t); t != "" {
						c.tags = append(c.tags, t)
					}
				}
				r = strings.TrimSpace(r[j+1:])
			}
			e, err := parseExpr(r)
			c.e, c.src = e, r
			return c, err
		}
		loopT := func(r string) (LoopTmpl, error) {
			var lt LoopTmpl
			r = strings.TrimSpace(r)
			if strings.HasPrefix(r, "(") {
				j := strings.IndexByte(r, ')')
				for _, v := range strings.Split(r[1:j], ",") {
					v = strings.TrimSpace(v)
					k := strings.IndexByte(v, ' ')
					lt.vars = append(lt.vars, struct{ name, typ string }{v[:k], strings.TrimSpace(v[k+1:])})
				}
				r = strings.TrimSpace(r[j+1:])
			}
			k := strings.IndexByte(r, ' ')
			lt.kind = r[:k]
			e, err := parseExpr(r[k+1:])
			lt.e, lt.src = e, r[k+1:]
			if lt.kind != "inv" && lt.kind != "variant" && lt.kind != "hint" {
				return lt, fmt.Errorf("bad loop clause kind %s", lt.kind)
			}
			return lt, err
		}
		switch w {
		case "package":
			f := strings.Fields(rest)
			sp.aliases[f[0]] = strings.Trim(f[1], "\"")
		case "struct":
			// struct pkg.T name type; name type
			f := strings.SplitN(rest, " ", 2)
			var fs [][2]string
			for _, x := range strings.Split(f[1], ";") {
				y := strings.SplitN(strings.TrimSpace(x), " ", 2)
				fs = append(fs, [2]string{y[0], strings.TrimSpace(y[1])})
			}
			sp.structs[f[0]] = fs
		case "on":
			// on what(vars): g(ref) := e; ...
			i := strings.Index(rest, "):")
			if i < 0 {
				return fail(fmt.Errorf("missing ):"))
			}
			a := strings.LastIndexByte(rest[:i], '(')
			ev := GhostEvent{what: strings.TrimSpace(rest[:a])}
			for _, x := range strings.Split(rest[a+1:i], ",") {
				ev.vars = append(ev.vars, strings.TrimSpace(x))
			}
			for _, x := range strings.Split(rest[i+2:], ";") {
				l, r, ok := strings.Cut(x, ":=")
				if !ok {
					return fail(fmt.Errorf("missing :="))
				}
				le, err := parseExpr(l)
				if err != nil {
					return fail(err)
				}
				re, err := parseExpr(r)
				if err != nil {
					return fail(err)
				}
				if le.op != "call" || len(le.args) != 1 {
					return fail(fmt.Errorf("bad ghost assignment"))
				}
				ev.set = append(ev.set, struct {
					ghost  string
					ref, e *SE
				}{le.name, le.args[0], re})
			}
			sp.events = append(sp.events, ev)
		case "ghost":
			// ghost name(K) V
			i := strings.IndexByte(rest, '(')
			j := strings.IndexByte(rest, ')')
			n := strings.TrimSpace(rest[:i])
			sp.ghosts[n] = [2]Sort{Sort(strings.TrimSpace(rest[i+1 : j])), Sort(strings.TrimSpace(rest[j+1:]))}
			sp.ghostList = append(sp.ghostList, n)
		case "zero":
			// zero strings.Builder buf = expr
			f := strings.SplitN(rest, "=", 2)
			g := strings.Fields(f[0])
			e, err := parseExpr(f[1])
			if err != nil {
				return fail(err)
			}
			sp.zero[g[0]] = append(sp.zero[g[0]], struct {
				ghost string
				e     *SE
			}{g[1], e})
		case "def", "opaque":
			i := strings.IndexByte(rest, '=')
			h := strings.TrimSpace(rest[:i])
			a := strings.IndexByte(h, '(')
			var ps []string
			for _, x := range strings.Split(strings.TrimSuffix(h[a+1:], ")"), ",") {
				if x = strings.TrimSpace(x); x != "" {
					ps = append(ps, x)
				}
			}
			e, err := parseExpr(rest[i+1:])
			if err != nil {
				return fail(err)
			}
			sp.macros[strings.TrimSpace(h[:a])] = MacroDef{ps, e, w == "opaque"}
		case "pkginv":
			f := strings.SplitN(rest, " ", 2)
			c, err := clause(f[1])
			if err != nil {
				return fail(err)
			}
			sp.pkginv[f[0]] = append(sp.pkginv[f[0]], c)
		case "func":
			// func [kind] name(params)
			it = nil
			con = &Contract{kind: "exported", file: path, opts: map[string]bool{}}
			r := rest
			for _, k := range []string{"soft", "trusted", "exported", "funcval", "abstract"} {
				if strings.HasPrefix(r, k+" ") {
					con.kind = k
					r = strings.TrimSpace(r[len(k):])
				}
			}
			i := strings.LastIndexByte(r, '(')
			con.name = strings.TrimSpace(r[:i])
			for _, x := range strings.Split(strings.TrimSuffix(strings.TrimSpace(r[i+1:]), ")"), ",") {
				if x = strings.TrimSpace(x); x != "" {
					con.params = append(con.params, x)
				}
			}
			sp.contracts[con.name] = con
			sp.order = append(sp.order, con.name)
		case "iterator", "theorem":
			con = nil
			it = &Iterator{name: rest, file: path, opts: map[string]bool{}, theorem: w == "theorem"}
			sp.iters[rest] = it
			sp.iterOrder = append(sp.iterOrder, rest)
		case "props":
			if con != nil {
				con.props = strings.Fields(rest)
			} else {
				it.props = strings.Fields(rest)
			}
		case "script":
			for _, s := range strings.Split(rest, ";") {
				s = strings.TrimSpace(s)
				if s == "shared" || s == "start" {
					it.script = append(it.script, ScriptCall{kind: s})
					continue
				}
				if strings.HasPrefix(s, "havoc ") || strings.HasPrefix(s, "assume ") {
					k, r, _ := strings.Cut(s, " ")
					e, err := parseExpr(r)
					if err != nil {
						return fail(err)
					}
					it.script = append(it.script, ScriptCall{kind: k, e: e})
					continue
				}
				if strings.HasPrefix(s, "init ") {
					it.script = append(it.script, ScriptCall{kind: "init", fn: strings.TrimSpace(s[5:])})
					continue
				}
				var c ScriptCall
				c.kind = "call"
				forceLet := strings.HasPrefix(s, "let ")
				s = strings.TrimPrefix(s, "let ")
				if i := strings.Index(s, ":="); i >= 0 {
					for _, x := range strings.Split(s[:i], ",") {
						c.ress = append(c.ress, strings.TrimSpace(x))
					}
					c.res = c.ress[0]
					s = strings.TrimSpace(s[i+2:])
				}
				if strings.HasPrefix(s, "global ") {
					c.kind = "global"
					c.fn = strings.TrimSpace(s[7:])
					it.script = append(it.script, c)
					continue
				}
				if forceLet || !strings.HasSuffix(s, ")") {
					c.kind = "let"
					e, err := parseExpr(s)
					if err != nil {
						return fail(err)
					}
					c.e = e
					it.script = append(it.script, c)
					continue
				}
				i := strings.LastIndexByte(s, '(')
				c.fn = strings.TrimSpace(s[:i])
				for _, x := range strings.Split(strings.TrimSuffix(s[i+1:], ")"), ",") {
					if x = strings.TrimSpace(x); x != "" {
						c.args = append(c.args, x)
					}
				}
				it.script = append(it.script, c)
			}
			it.stream = it.script[len(it.script)-1].res
		case "global":
			it.globals = append(it.globals, strings.Fields(rest)...)
		case "state":
			f := strings.Fields(rest)
			it.state = append(it.state, StateVar{f[0], f[1], strings.Join(f[2:], " ")})
		case "requires", "ensures", "inv", "lazy", "post", "made", "ginv":
			c, err := clause(l[len(w):])
			if err != nil {
				return fail(err)
			}
			switch {
			case w == "requires" && con != nil:
				con.req = append(con.req, c)
			case w == "requires":
				it.req = append(it.req, c)
			case w == "ensures" && con != nil:
				con.ens = append(con.ens, c)
			case w == "ensures":
				it.post = append(it.post, c)
			case w == "inv":
				it.inv = append(it.inv, c)
			case w == "lazy":
				it.lazy = append(it.lazy, c)
			case w == "post":
				it.post = append(it.post, c)
			case w == "made":
				it.made = append(it.made, c)
			case w == "ginv":
				it.globalInv = append(it.globalInv, c)
			}
		case "view", "end", "lazyview":
			e, err := parseExpr(rest)
			if err != nil {
				return fail(err)
			}
			switch w {
			case "view":
				it.view = e
			case "end":
				it.end = e
			default:
				it.lazyview = e
			}
		case "modifies":
			e, err := parseExpr("L(" + rest + ")")
			if err != nil {
				return fail(err)
			}
			con.mod = append(con.mod, e.args...)
		case "loop":
			lt, err := loopT(rest)
			if err != nil {
				return fail(err)
			}
			if con != nil {
				con.loops = append(con.loops, lt)
			} else {
				it.loops = append(it.loops, lt)
			}
		case "noalloc":
			con.noalloc = true
		case "option":
			if con != nil {
				con.opts[rest] = true
			} else {
				it.opts[rest] = true
			}
		case "uses":
			con.uses = append(con.uses, strings.TrimSpace(rest)) // a unit that justifies this contract
		default:
			return fail(fmt.Errorf("unknown keyword %q", w))
		}
	}
	return nil
}
