package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Sort is an SMT-LIB sort, written out.
type Sort string

const (
	sInt  Sort = "Int"
	sBool Sort = "Bool"
	sStr  Sort = "Str"
	sTokD Sort = "TokD"
	sTL   Sort = "TL"
	sSL   Sort = "SL"
	sIL   Sort = "IL"
)

func arrOf(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// arrParts splits "(Array K V)".
func arrParts(s Sort) (Sort, Sort) {
	t := string(s)
	if !strings.HasPrefix(t, "(Array ") {
		panic("not an array sort: " + t)
	}
	t = t[len("(Array ") : len(t)-1]
	depth := 0
	for i := 0; i < len(t); i++ {
		switch t[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(t[:i]), Sort(t[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

// Term is a hash-consed SMT term. Variables and constants have op "const:<name>" (free symbol),
// "bvar:<name>" (bound), integer literals "int:<n>", and "true"/"false".
type Term struct {
	op   string
	args []*Term
	sort Sort
	id   int
	// quantifiers
	bound []*Term
	pats  [][]*Term
	size  int
	h     uint64 // depends only on the term's text: terms are put in order by it, so that queries come out the same on every run
}

func hashOf(s string, ts ...*Term) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	for _, t := range ts {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], t.h)
		h.Write(b[:])
	}
	return h.Sum64()
}

// before is the order of terms
func before(a, b *Term) bool {
	if a.size != b.size {
		return a.size < b.size
	}
	if a.h != b.h {
		return a.h < b.h
	}
	return a.id < b.id
}

type termTab struct {
	mu   sync.Mutex
	m    map[string]*Term
	next int
}

var tt = &termTab{m: map[string]*Term{}}

func rawTerm(op string, sort Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(string(sort))
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	key := b.String()
	tt.mu.Lock()
	defer tt.mu.Unlock()
	if t, ok := tt.m[key]; ok {
		return t
	}
	sz := 1
	for _, a := range args {
		sz += a.size
		if sz > 1<<60 {
			sz = 1 << 60
		}
	}
	tt.next++
	t := &Term{op: op, args: args, sort: sort, id: tt.next, size: sz, h: hashOf(op+"|"+string(sort), args...)}
	tt.m[key] = t
	return t
}

func rawQuant(op string, bound []*Term, pats [][]*Term, body *Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	for _, v := range bound {
		fmt.Fprintf(&b, "!%d", v.id)
	}
	for _, p := range pats {
		b.WriteString("{")
		for _, t := range p {
			fmt.Fprintf(&b, "%d,", t.id)
		}
		b.WriteString("}")
	}
	fmt.Fprintf(&b, "|%d", body.id)
	key := b.String()
	tt.mu.Lock()
	defer tt.mu.Unlock()
	if t, ok := tt.m[key]; ok {
		return t
	}
	tt.next++
	hs := append([]*Term{body}, bound...)
	for _, p := range pats {
		hs = append(hs, p...)
	}
	t := &Term{op: op, args: []*Term{body}, sort: sBool, h: hashOf(op, hs...), id: tt.next, bound: bound, pats: pats, size: body.size + 1}
	tt.m[key] = t
	return t
}

var (
	tTrue  = rawTerm("true", sBool)
	tFalse = rawTerm("false", sBool)
	tZero  = mkInt(0)
	tOne   = mkInt(1)
)

func mkConst(name string, s Sort) *Term { return rawTerm("const:"+name, s) }
func mkBVar(name string, s Sort) *Term  { return rawTerm("bvar:"+name, s) }
func mkInt(n int64) *Term               { return rawTerm("int:"+strconv.FormatInt(n, 10), sInt) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isInt() bool   { return strings.HasPrefix(t.op, "int:") }
func (t *Term) isConst() bool { return strings.HasPrefix(t.op, "const:") }
func (t *Term) isBVar() bool  { return strings.HasPrefix(t.op, "bvar:") }
func (t *Term) name() string {
	i := strings.IndexByte(t.op, ':')
	return t.op[i+1:]
}
func (t *Term) intVal() int64 {
	n, err := strconv.ParseInt(t.op[4:], 10, 64)
	if err != nil {
		panic(err)
	}
	return n
}

// string literals are free constants named str!<quoted>; distinctness is asserted per query
func mkStr(s string) *Term         { return rawTerm("strlit:"+s, sStr) }
func (t *Term) isStrLit() bool     { return strings.HasPrefix(t.op, "strlit:") }
func (t *Term) strVal() string     { return t.op[len("strlit:"):] }
func (t *Term) isQuant() bool      { return t.op == "forall" || t.op == "exists" }
func isApp(t *Term, f string) bool { return t.op == f }

// constructors of datatypes: op -> selectors
var ctors = map[string][]string{
	"mkTok": {"tval", "tpunct", "tspace", "tlemma"},
	"tcons": {"thd", "ttl"},
	"scons": {"shd", "stl"},
	"icons": {"ihd", "itl"},
	"tnil":  nil, "snil": nil, "inil": nil,
}
var selOf = map[string]struct {
	ctor string
	i    int
}{}

func regCtor(name string, sels []string) {
	ctors[name] = sels
	for i, s := range sels {
		selOf[s] = struct {
			ctor string
			i    int
		}{name, i}
	}
}

func init() {
	for c, ss := range ctors {
		regCtor(c, ss)
	}
}

func mkApp(f string, s Sort, args ...*Term) *Term {
	switch f {
	case "=":
		return mkEq(args[0], args[1])
	case "not":
		return mkNot(args[0])
	case "and":
		return mkAnd(args...)
	case "or":
		return mkOr(args...)
	case "=>":
		return mkImp(args[0], args[1])
	case "ite":
		return mkIte(args[0], args[1], args[2])
	case "+":
		return mkAdd(args...)
	case "-":
		if len(args) == 1 {
			return mkMul(-1, args[0])
		}
		return mkSub(args[0], args[1])
	case "<=":
		return mkLe(args[0], args[1])
	case "<":
		return mkLt(args[0], args[1])
	case ">=":
		return mkLe(args[1], args[0])
	case ">":
		return mkLt(args[1], args[0])
	case "select":
		return mkSelect(args[0], args[1])
	case "store":
		return mkStore(args[0], args[1], args[2])
	case "distinct":
		return mkNot(mkEq(args[0], args[1]))
	}
	if so, ok := selOf[f]; ok && args[0].op == so.ctor {
		return args[0].args[so.i]
	}
	return rawTerm(f, s, args...)
}

func mkNot(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	}
	return rawTerm("not", sBool, a)
}

func mkAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == tTrue || seen[t.id] {
			return true
		}
		if t == tFalse {
			return false
		}
		if t.op == "and" {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	for _, o := range out {
		if seen[mkNot(o).id] {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return rawTerm("and", sBool, out...)
}

func mkOr(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a == tFalse || seen[a.id] {
			continue
		}
		if a == tTrue {
			return tTrue
		}
		if a.op == "or" {
			for _, x := range a.args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a.id] = true
		out = append(out, a)
	}
	for _, o := range out {
		if seen[mkNot(o).id] {
			return tTrue
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return rawTerm("or", sBool, out...)
}

func mkImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return mkNot(a)
	}
	if a == b {
		return tTrue
	}
	return rawTerm("=>", sBool, a, b)
}

func mkIff(a, b *Term) *Term { return mkEq(a, b) }

func mkIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == sBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return mkNot(c)
		}
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts %s %s", a, b))
	}
	return rawTerm("ite", a.sort, c, a, b)
}

// ---- linear arithmetic normal form

type lin struct {
	c  *big.Int
	m  map[int]*big.Int
	ts map[int]*Term
}

func linOf(t *Term) lin {
	l := lin{new(big.Int), map[int]*big.Int{}, map[int]*Term{}}
	l.add(t, big.NewInt(1))
	return l
}
func (l *lin) add(t *Term, k *big.Int) {
	switch {
	case t.isInt():
		l.c.Add(l.c, new(big.Int).Mul(k, big.NewInt(t.intVal())))
	case t.op == "+":
		for _, a := range t.args {
			l.add(a, k)
		}
	case t.op == "*" && t.args[0].isInt():
		l.add(t.args[1], new(big.Int).Mul(k, big.NewInt(t.args[0].intVal())))
	default:
		if e, ok := l.m[t.id]; ok {
			e.Add(e, k)
			if e.Sign() == 0 {
				delete(l.m, t.id)
				delete(l.ts, t.id)
			}
		} else if k.Sign() != 0 {
			l.m[t.id] = new(big.Int).Set(k)
			l.ts[t.id] = t
		}
	}
}
func (l lin) term() *Term {
	ids := make([]int, 0, len(l.m))
	for id := range l.m {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return before(l.ts[ids[i]], l.ts[ids[j]]) })
	var parts []*Term
	for _, id := range ids {
		k := l.m[id].Int64()
		if k == 1 {
			parts = append(parts, l.ts[id])
		} else {
			parts = append(parts, rawTerm("*", sInt, mkInt(k), l.ts[id]))
		}
	}
	if l.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, mkInt(l.c.Int64()))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return rawTerm("+", sInt, parts...)
}

func mkAdd(as ...*Term) *Term {
	l := linOf(tZero)
	for _, a := range as {
		if a.sort != sInt {
			panic("add: " + a.String())
		}
		l.add(a, big.NewInt(1))
	}
	return l.term()
}
func mkSub(a, b *Term) *Term {
	l := linOf(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}

var bigNeg1 = big.NewInt(-1)

func mkMul(k int64, a *Term) *Term {
	l := linOf(tZero)
	l.add(a, big.NewInt(k))
	return l.term()
}
func constDiff(a, b *Term) (int64, bool) {
	l := linOf(a)
	l.add(b, big.NewInt(-1))
	if len(l.m) == 0 && l.c.IsInt64() {
		return l.c.Int64(), true
	}
	return 0, false
}
func mkLe(a, b *Term) *Term {
	if d, ok := constDiff(a, b); ok {
		return mkBool(d <= 0)
	}
	return rawTerm("<=", sBool, a, b)
}
func mkLt(a, b *Term) *Term {
	if d, ok := constDiff(a, b); ok {
		return mkBool(d < 0)
	}
	return rawTerm("<", sBool, a, b)
}

func isCtor(t *Term) bool { _, ok := ctors[t.op]; return ok }

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts %s:%s %s:%s", a, a.sort, b, b.sort))
	}
	if a.sort == sInt {
		if d, ok := constDiff(a, b); ok {
			return mkBool(d == 0)
		}
	}
	if a.sort == sBool {
		switch {
		case a == tTrue:
			return b
		case b == tTrue:
			return a
		case a == tFalse:
			return mkNot(b)
		case b == tFalse:
			return mkNot(a)
		}
	}
	if a.isStrLit() && b.isStrLit() {
		return tFalse
	}
	if isCtor(a) && isCtor(b) {
		if a.op != b.op {
			return tFalse
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, mkEq(a.args[i], b.args[i]))
		}
		return mkAnd(cs...)
	}
	if before(b, a) {
		a, b = b, a
	}
	return rawTerm("=", sBool, a, b)
}

func mkSelect(a, i *Term) *Term {
	for a.op == "store" {
		j := a.args[1]
		if j == i {
			return a.args[2]
		}
		if mkEq(i, j) == tFalse {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	_, v := arrParts(a.sort)
	return rawTerm("select", v, a, i)
}

func mkStore(a, i, v *Term) *Term {
	_, vs := arrParts(a.sort)
	if v.sort != vs {
		panic(fmt.Sprintf("store sort: %s into %s", v, a.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return rawTerm("store", a.sort, a, i, v)
}

// constArr is an array holding v everywhere
func constArr(s Sort, v *Term) *Term { return rawTerm("constarr", s, v) }

func mkForall(bound []*Term, pats [][]*Term, body *Term) *Term {
	if body == tTrue {
		return tTrue
	}
	return rawQuant("forall", bound, pats, body)
}
func mkExists(bound []*Term, body *Term) *Term {
	if body == tFalse {
		return tFalse
	}
	return rawQuant("exists", bound, nil, body)
}

// subst replaces terms (by id) and rebuilds with simplification.
func subst(t *Term, m map[int]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[int]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t.id]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *Term
		if t.isQuant() {
			var ps [][]*Term
			for _, p := range t.pats {
				var q []*Term
				for _, x := range p {
					q = append(q, rec(x))
				}
				ps = append(ps, q)
			}
			body := rec(t.args[0])
			if t.op == "forall" {
				r = mkForall(t.bound, ps, body)
			} else {
				r = mkExists(t.bound, body)
			}
		} else {
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = rec(a)
				if args[i] != a {
					ch = true
				}
			}
			if ch {
				r = mkApp(t.op, t.sort, args...)
			} else {
				r = t
			}
		}
		memo[t.id] = r
		return r
	}
	return rec(t)
}

// ---- printing

func quoteSym(s string) string {
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("~!@$%^&*_-+=<>.?/", c) >= 0) {
			ok = false
		}
	}
	if ok && len(s) > 0 && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	var b strings.Builder
	b.WriteByte('|')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '|' || c == '\\' || c < 32 || c > 126 {
			fmt.Fprintf(&b, "#%02x", c)
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('|')
	return b.String()
}

func strLitSym(s string) string { return quoteSym("str!" + s + "!") }

func (t *Term) head() string {
	switch {
	case t.isInt():
		n := t.intVal()
		if n < 0 {
			return "(- " + strconv.FormatInt(-n, 10) + ")"
		}
		return t.op[4:]
	case t.isConst(), t.isBVar():
		return quoteSym(t.name())
	case t.isStrLit():
		return strLitSym(t.strVal())
	case t.op == "constarr":
		return "((as const " + string(t.sort) + ")"
	}
	return t.op
}

func (t *Term) print(b *strings.Builder, names map[int]string) {
	if n, ok := names[t.id]; ok {
		b.WriteString(n)
		return
	}
	if t.isQuant() {
		fmt.Fprintf(b, "(%s (", t.op)
		for i, v := range t.bound {
			if i > 0 {
				b.WriteByte(' ')
			}
			fmt.Fprintf(b, "(%s %s)", quoteSym(v.name()), v.sort)
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		t.args[0].print(b, names)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					x.print(b, names)
				}
				b.WriteByte(')')
			}
			b.WriteByte(')')
		}
		b.WriteByte(')')
		return
	}
	if len(t.args) == 0 {
		b.WriteString(t.head())
		return
	}
	if t.op == "constarr" {
		b.WriteString(t.head())
	} else {
		b.WriteByte('(')
		b.WriteString(t.op)
	}
	for _, a := range t.args {
		b.WriteByte(' ')
		a.print(b, names)
	}
	b.WriteByte(')')
}

func (t *Term) String() string {
	var b strings.Builder
	if t.size > 3000 {
		return fmt.Sprintf("<term of size %d>", t.size)
	}
	t.print(&b, nil)
	return b.String()
}

// walk visits every distinct subterm once.
func walk(ts []*Term, f func(*Term)) {
	seen := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		f(t)
		for _, a := range t.args {
			rec(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				rec(x)
			}
		}
	}
	for _, t := range ts {
		rec(t)
	}
}

func hasBVar(t *Term) bool {
	found := false
	walk([]*Term{t}, func(x *Term) {
		if x.isBVar() {
			found = true
		}
	})
	return found
}
