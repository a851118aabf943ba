package jargon_test

// Bounded checks of the real code: they look for an input on which a property fails. Everything is
// compared with a reference written from the statement of the property; nothing here is counted as proved.

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"unicode"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"github.com/clipperhouse/jargon/filters/contractions"
	"github.com/clipperhouse/jargon/filters/mapper"
	"github.com/clipperhouse/jargon/filters/nba"
	"github.com/clipperhouse/jargon/filters/norm"
	"github.com/clipperhouse/jargon/filters/sigil"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
	"github.com/clipperhouse/jargon/filters/stemmer"
	"github.com/clipperhouse/jargon/filters/stopwords"
	"github.com/clipperhouse/jargon/filters/synonyms"
	"github.com/clipperhouse/jargon/filters/synonyms/trie"
	"github.com/clipperhouse/jargon/filters/twitter"
	"github.com/clipperhouse/jargon/tokenqueue"
	"github.com/clipperhouse/uax29/words"
	"github.com/kljensen/snowball/english"
	"github.com/kljensen/snowball/french"
	"github.com/kljensen/snowball/norwegian"
	"github.com/kljensen/snowball/russian"
	"github.com/kljensen/snowball/spanish"
	"github.com/kljensen/snowball/swedish"
	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
	xnorm "golang.org/x/text/unicode/norm"
)

type V struct {
	*testing.T
	*rand.Rand
	n int
}

func start(t *testing.T) *V {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return &V{T: t, Rand: rand.New(rand.NewSource(int64(seed)))}
}

func (v *V) effort(n int) int {
	e, _ := strconv.Atoi(os.Getenv("VERIF_EFFORT"))
	if e < 1 {
		e = 1
	}
	return n * e
}

func (v *V) done(note string) { fmt.Printf("VERIF-CASES %d %s\n", v.n, note) }

func (v *V) fail(format string, a ...interface{}) {
	v.Helper()
	fmt.Printf("VERIF-FAIL "+format+"\n", a...)
	v.T.Fatalf(format, a...)
}

func (v *V) pick(ss ...string) string { return ss[v.Intn(len(ss))] }

// ---- tokens as data

type tok struct {
	val                 string
	punct, space, lemma bool
}

func dat(t *jargon.Token) tok { return tok{t.String(), t.IsPunct(), t.IsSpace(), t.IsLemma()} }

func refTok(s string, lemma bool) tok {
	t := tok{s, true, true, lemma}
	for _, r := range s {
		if !(unicode.IsPunct(r) || r == '\n' || r == '\r' || r == '\t') {
			t.punct = false
		}
		if !unicode.IsSpace(r) {
			t.space = false
		}
	}
	return t
}

func (t tok) word() bool { return !t.punct && !t.space }

func show(ts []tok) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "%q", t.val)
		for _, f := range []struct {
			b bool
			s string
		}{{t.punct, "p"}, {t.space, "s"}, {t.lemma, "L"}} {
			if f.b {
				b.WriteString(f.s)
			}
		}
		b.WriteString(" ")
	}
	return b.String()
}

func eq(a, b []tok) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func vals(ts []tok) string {
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(t.val)
	}
	return b.String()
}

// ---- sources

var errSrc = errors.New("source failed")

type src struct {
	toks  []*jargon.Token
	d     []tok
	pos   int // tokens delivered
	calls int
	err   error // at the end
}

func (s *src) next() (*jargon.Token, error) {
	s.calls++
	if s.pos < len(s.toks) {
		s.pos++
		return s.toks[s.pos-1], nil
	}
	return nil, s.err
}

func (s *src) stream() *jargon.TokenStream { return jargon.NewTokenStream(s.next) }

func source(err error, ts ...tok) *src {
	s := &src{err: err, d: ts}
	for _, t := range ts {
		s.toks = append(s.toks, jargon.NewToken(t.val, t.lemma))
	}
	return s
}

// read everything with Next; after the end, the end must stay
func drain(st *jargon.TokenStream) ([]tok, []*jargon.Token, error) {
	var out []tok
	var ps []*jargon.Token
	for i := 0; i < 1<<20; i++ {
		t, err := st.Next()
		if err != nil {
			return out, ps, err
		}
		if t == nil {
			for k := 0; k < 2; k++ {
				if t, err := st.Next(); t != nil || err != nil {
					return append(out, tok{val: "(something after the end)"}), ps, err
				}
			}
			return out, ps, nil
		}
		out = append(out, dat(t))
		ps = append(ps, t)
	}
	return append(out, tok{val: "(no end)"}), ps, nil
}

func (v *V) tokens(max int, gen func() string, lemmas bool) []tok {
	n := v.Intn(max + 1)
	var ts []tok
	for i := 0; i < n; i++ {
		ts = append(ts, refTok(gen(), lemmas && v.Intn(4) == 0))
	}
	return ts
}

var mixed = []string{" ", " ", "\n", "\t", "\r\n", "  ", ".", ",", "!", "…", "-", "@", "#", "a", "A", "the", "The", "THE", "foo", "Foo", "café", "CAFÉ", "ﬁ", "Ω", "don't", "DON’T", "Would've", "running", "managers", "ruby", "on", "rails", "node", "js", "$", "+", "日本", "e\u0301", "é", "ｶﾞ", "\u00a0", "\u2028", "_", "x1", "42", "½", "ß", "İ", "\u0301", "Å", "ﬀ"}

func (v *V) mixedVal() string {
	if v.Intn(8) == 0 {
		return mixed[v.Intn(len(mixed))] + mixed[v.Intn(len(mixed))]
	}
	return mixed[v.Intn(len(mixed))]
}

// a filter must give want and then the error (nil: a clean end); with early, an error may come early
func (v *V) expect(what string, f jargon.Filter, in []tok, err error, want []tok, early bool) {
	v.Helper()
	v.n++
	s := source(err, in...)
	st := f(s.stream())
	if s.calls != 0 {
		v.fail("%s: creating the stream reads %d tokens", what, s.calls)
	}
	got, _, gerr := drain(st)
	if gerr != err {
		v.fail("%s: input %s, then error %v: ends with error %v after %s", what, show(in), err, gerr, show(got))
	}
	if early && err != nil && len(got) < len(want) && eq(got, want[:len(got)]) {
		return
	}
	if !eq(got, want) {
		v.fail("%s: input %s (then error %v)\n  gives %s\n  want  %s", what, show(in), err, show(got), show(want))
	}
}

// ---- C01

type chunks struct {
	b    []byte
	size int
	err  error
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, c.err
	}
	n := c.size
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.b) {
		n = len(c.b)
	}
	copy(p, c.b[:n])
	c.b = c.b[n:]
	return n, nil
}

// anErr is an error that reading or a source may end with
func (v *V) anErr() error {
	return []error{errSrc, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, bufio.ErrTooLong, os.ErrDeadlineExceeded, errSrc}[v.Intn(7)]
}

var scraps = []string{"a", "Hello", "world", "don't", "3.14", "1,000", " ", "  ", "\n", "\r\n", "\r", "\t", ".", ",", "…", "é", "e\u0301", "日本語", "カタカナ", "👩‍👩‍👧", "🇺🇸🇬🇧", "\u200d", "\u00a0", "\u2028", "@me", "#tag", "x_y", "C++", "ASP.net", ".Net", "node.js", "-", "'", "\"", "а", "שלום", "שׁ\"ל", "السلام", "ไทย", "\u0301", "\x00", "\ufeff", "ﬁ", "<b>", "&amp;", "&", "<", ">", "a-b", "o’clock", "i.e.", "\u00ad"}

func (v *V) text(n int) string {
	var b strings.Builder
	for i := v.Intn(n + 1); i > 0; i-- {
		switch v.Intn(12) {
		case 0:
			b.WriteRune(rune(v.Intn(0x3000) + 1))
		case 1:
			b.WriteString(strings.Repeat(scraps[v.Intn(len(scraps))], v.Intn(30)))
		default:
			b.WriteString(scraps[v.Intn(len(scraps))])
		}
	}
	return b.String()
}

func refWords(s string) []tok {
	out, _ := refWordsErr(s)
	return out
}

func refWordsErr(s string) ([]tok, error) {
	var out []tok
	sc := words.NewScanner(strings.NewReader(s))
	for sc.Scan() {
		out = append(out, refTok(sc.Text(), false))
	}
	return out, sc.Err()
}

func TestVerifC01(t *testing.T) {
	v := start(t)
	one := func(s string, size int, err error) {
		v.n++
		st := jargon.Tokenize(&chunks{[]byte(s), size, err})
		got, _, gerr := drain(st)
		if err == io.EOF {
			if gerr != nil {
				if errors.Is(gerr, bufio.ErrTooLong) {
					return
				}
				v.fail("Tokenize(%q) in chunks of %d: error %v", s, size, gerr)
			}
			if vals(got) != s {
				v.fail("Tokenize(%q) in chunks of %d gives %s", s, size, show(got))
			}
			if size >= 4096 && !eq(got, refWords(s)) {
				v.fail("Tokenize(%q) in chunks of %d gives %s, the segmentation is %s", s, size, show(got), show(refWords(s)))
			}
		} else {
			if gerr == nil {
				v.fail("Tokenize(%q) in chunks of %d, then %v: ends cleanly after %s", s, size, err, show(got))
			}
			if !strings.HasPrefix(s, vals(got)) {
				v.fail("Tokenize(%q) in chunks of %d, then %v: gives %s", s, size, err, show(got))
			}
		}
		for _, g := range got {
			if g.val == "" {
				v.fail("Tokenize(%q): empty token", s)
			}
			if g != refTok(g.val, false) {
				v.fail("Tokenize(%q): token %s, want %s", s, show([]tok{g}), show([]tok{refTok(g.val, false)}))
			}
		}
	}
	for i := v.effort(1500); i > 0; i-- {
		s := v.text(14)
		one(s, 1+v.Intn(4096), io.EOF)
		if v.Intn(4) == 0 {
			one(s, 1+v.Intn(7), io.EOF)
		}
		if v.Intn(3) == 0 {
			one(s, 1+v.Intn(4096), v.anErr())
		}
		got, _, err := drain(jargon.TokenizeString(s))
		if err != nil || !eq(got, refWords(s)) {
			v.fail("TokenizeString(%q) gives %s, %v", s, show(got), err)
		}
	}
	// many tokens, beyond the scanner's buffers
	for i := v.effort(3); i > 0; i-- {
		var b strings.Builder
		for b.Len() < 200000 {
			b.WriteString(v.text(20))
		}
		one(b.String(), 5000, io.EOF)
		one(b.String(), 5000, errSrc)
	}
	v.done("texts tokenized from readers of various chunk sizes, with and without read errors")
}

// ---- C02

var tags = []string{"<p>", "</p>", "<br/>", "<a href=\"x&amp;y\">", "<A HREF='q'>", "<!-- c -->", "<!---->", "<!DOCTYPE html>", "<script>", "</script>", "<SCRIPT src=x>", "</SCRIPT >", "<style>", "</style>", "</STYLE>", "<script>if(a<b){x()}</script>", "<style>p > a {}</style>", "<title>", "</title>", "<textarea>", "</textarea>", "<noscript>", "</noscript>", "<xmp>", "<iframe>", "</iframe>", "<?php ?>", "</>", "<svg><style>", "<p", "<", "&lt;", "&amp;", "&#65;", "&copy;", "<img src=a alt='b'/>", "<p class=\"a b\"  id=x >", "<!doctype HTML>", "<![CDATA[x]]>", "<plaintext>"}

func TestVerifC02(t *testing.T) {
	v := start(t)
	one := func(s string, rerr error) {
		v.n++
		got, _, gerr := drain(jargon.TokenizeHTML(&chunks{[]byte(s), 1 + v.Intn(200), rerr}))
		var want []tok
		z := html.NewTokenizer(&chunks{[]byte(s), 4096, rerr})
		var parent atom.Atom
		var werr error
		for {
			typ := z.Next()
			raw := string(z.Raw())
			if werr != nil {
				break
			}
			if typ == html.ErrorToken {
				if z.Err() != io.EOF {
					werr = z.Err()
				} else if raw != "" {
					want = append(want, tok{raw, true, false, false})
				}
				break
			}
			x := z.Token()
			switch {
			case typ == html.TextToken && parent != 0:
				want = append(want, tok{raw, false, false, false})
			case typ == html.TextToken:
				ws, e := refWordsErr(raw)
				want = append(want, ws...)
				if e != nil {
					werr = e
				}
			default:
				want = append(want, tok{raw, true, false, false})
				if typ == html.StartTagToken && (x.DataAtom == atom.Script || x.DataAtom == atom.Style) {
					parent = x.DataAtom
				}
				if typ == html.EndTagToken && x.DataAtom == parent {
					parent = 0
				}
			}
		}
		if gerr != werr {
			v.fail("TokenizeHTML(%q) (reading ends with %v): error %v, want %v", s, rerr, gerr, werr)
		}
		if !eq(got, want) {
			v.fail("TokenizeHTML(%q) gives\n  %s\n  want %s", s, show(got), show(want))
		}
		if werr == nil && vals(got) != s {
			v.fail("TokenizeHTML(%q): the values are %q", s, vals(got))
		}
	}
	for i := v.effort(2500); i > 0; i-- {
		var b strings.Builder
		for k := v.Intn(12); k > 0; k-- {
			if v.Intn(2) == 0 {
				b.WriteString(tags[v.Intn(len(tags))])
			} else {
				b.WriteString(v.text(3))
			}
		}
		one(b.String(), io.EOF)
		if v.Intn(4) == 0 {
			one(b.String(), v.anErr())
		}
	}
	// texts with words too long for the scanner: an error, not a silent loss
	for _, s := range []string{"<p>a %s</p>b", "%s<b>", "<p>%s", "<p>a<b>%s b</b>", "a b %s<p>", "<script>%s</script>x", "<!-- %s -->a", "<p title='%s'>x"} {
		one(strings.Replace(s, "%s", strings.Repeat("x", 150000), 1), io.EOF)
	}
	v.done("documents compared with the raw tokens of x/net/html")
}

// ---- C03

func TestVerifC03(t *testing.T) {
	v := start(t)
	one := func(s string, l bool) {
		v.n++
		x := jargon.NewToken(s, l)
		if s == "" {
			if x != nil {
				v.fail("NewToken(\"\", %v) is not nil", l)
			}
			return
		}
		if x == nil {
			v.fail("NewToken(%q, %v) is nil", s, l)
		}
		if dat(x) != refTok(s, l) {
			v.fail("NewToken(%q, %v) is %s, want %s", s, l, show([]tok{dat(x)}), show([]tok{refTok(s, l)}))
		}
	}
	shared := []string{" ", "\r", "\n", "\t", ".", ",", "A", "a", "An", "an", "The", "the", "And", "and", "Or", "or", "Not", "not", "Of", "of", "In", "in", "On", "on", "To", "to", "Be", "be", "Is", "is", "Are", "are", "Has", "has", "Have", "have", "It", "it", "Do", "do"}
	for _, l := range []bool{true, false, true} {
		one("", l)
		for r := rune(0); r <= unicode.MaxRune; r++ {
			one(string(r), l)
			if unicode.IsSpace(r) || unicode.IsPunct(r) {
				one(string(r)+"a", l)
				one("a"+string(r), l)
				one("\n"+string(r), l)
				one(string(r)+"\t", l)
			}
		}
		for _, s := range shared {
			one(s, l)
			one(strings.ToUpper(s), l)
			one(s+s, l)
		}
		for _, s := range mixed {
			one(s, l)
		}
	}
	for i := v.effort(20000); i > 0; i-- {
		s := ""
		for k := v.Intn(4); k >= 0; k-- {
			s += mixed[v.Intn(len(mixed))]
		}
		one(s, v.Intn(2) == 0)
	}
	for i := 0; i < 1000; i++ {
		b := make([]byte, v.Intn(5))
		v.Read(b)
		one(string(b), v.Intn(2) == 0)
	}
	v.done("strings: every single character with both marks, and combinations")
}

// ---- C04

func TestVerifC04(t *testing.T) {
	v := start(t)
	type item struct {
		t *jargon.Token
		e error
	}
	x := jargon.NewToken("x", false)
	errs := []error{nil, errSrc, io.EOF, io.ErrUnexpectedEOF}
	for i := v.effort(4000); i > 0; i-- {
		v.n++
		var script []item
		for k := v.Intn(6); k > 0; k-- {
			switch v.Intn(5) {
			case 0:
				script = append(script, item{nil, errs[v.Intn(4)]})
			case 1:
				script = append(script, item{x, errs[1+v.Intn(3)]}) // a token together with an error
			default:
				script = append(script, item{jargon.NewToken(v.mixedVal(), v.Intn(2) == 0), nil})
			}
		}
		calls := 0
		next := func() (*jargon.Token, error) {
			calls++
			if calls <= len(script) {
				return script[calls-1].t, script[calls-1].e
			}
			return nil, nil
		}
		st := jargon.NewTokenStream(next)
		if calls != 0 || st.Token() != nil || st.Err() != nil {
			v.fail("a new stream has already read, or has a token or an error")
		}
		hist := ""
		for k := 0; k < len(script)+2; k++ {
			var w item
			if k < len(script) {
				w = script[k]
			}
			how := v.Intn(2)
			if how == 0 {
				hist += "Next "
				a, b := st.Next()
				if a != w.t || b != w.e {
					v.fail("source %v, after %s: Next returns %v %v, want %v %v", script, hist, a, b, w.t, w.e)
				}
			} else {
				hist += "Scan "
				if r := st.Scan(); r != (w.t != nil && w.e == nil) {
					v.fail("source %v, after %s: Scan returns %v for item %v %v", script, hist, r, w.t, w.e)
				}
			}
			if calls != k+1 {
				v.fail("source %v, after %s: %d items consumed, want %d", script, hist, calls, k+1)
			}
			for z := 0; z < 2; z++ {
				if st.Token() != w.t || st.Err() != w.e {
					v.fail("source %v, after %s: Token and Err are %v %v, want %v %v", script, hist, st.Token(), st.Err(), w.t, w.e)
				}
			}
			if calls != k+1 {
				v.fail("source %v: Token or Err consumes an item", script)
			}
		}
	}
	v.done("histories of Next and Scan")
}

// ---- C05

type limited struct {
	b     bytes.Buffer
	left  int
	calls int
	bad   int // writes after a failure
	fell  bool
}

var errW = errors.New("writer failed")

func (l *limited) Write(p []byte) (int, error) {
	if l.fell {
		l.bad++
	}
	if l.left < len(p) {
		n := l.left
		l.b.Write(p[:n])
		l.left = 0
		l.fell = true
		return n, errW
	}
	l.left -= len(p)
	l.b.Write(p)
	return len(p), nil
}

func TestVerifC05(t *testing.T) {
	v := start(t)
	for i := v.effort(5000); i > 0; i-- {
		v.n++
		in := v.tokens(9, v.mixedVal, true)
		if v.Intn(40) == 0 {
			in = v.tokens(900, v.mixedVal, true)
		}
		var err error
		if v.Intn(3) == 0 {
			err = errSrc
		}
		// some are read before
		skip := v.Intn(len(in) + 1)
		if v.Intn(2) == 0 {
			skip = 0
		}
		mk := func() *jargon.TokenStream {
			st := source(err, in...).stream()
			for k := 0; k < skip; k++ {
				st.Next()
			}
			return st
		}
		rest := in[skip:]
		sl, e := mk().ToSlice()
		if e != err {
			v.fail("ToSlice of %s then %v: error %v", show(rest), err, e)
		}
		if err == nil {
			var got []tok
			for _, t := range sl {
				if t == nil {
					v.fail("ToSlice of %s: nil token", show(rest))
				}
				got = append(got, dat(t))
			}
			if !eq(got, rest) {
				v.fail("ToSlice of %s: %s", show(rest), show(got))
			}
		} else if len(sl) != 0 {
			v.fail("ToSlice of %s then %v: partial result", show(rest), err)
		}
		s, e := mk().String()
		if e != err || err == nil && s != vals(rest) || err != nil && s != "" {
			v.fail("String of %s then %v: %q %v", show(rest), err, s, e)
		}
		c, e := mk().Count()
		if e != err || c != len(rest) {
			v.fail("Count of %s then %v: %d %v", show(rest), err, c, e)
		}
		total := len(vals(rest))
		w := &limited{left: 1 << 30}
		if v.Intn(2) == 0 {
			w.left = v.Intn(total + 1)
		}
		lim := w.left
		n, e := mk().WriteTo(w)
		if int(n) != w.b.Len() {
			v.fail("WriteTo of %s to a writer accepting %d bytes: returns %d, written %d", show(rest), lim, n, w.b.Len())
		}
		if w.bad > 0 {
			v.fail("WriteTo of %s to a writer accepting %d bytes: writes again after the failure", show(rest), lim)
		}
		if w.fell {
			if e != errW {
				v.fail("WriteTo of %s to a writer accepting %d bytes: error %v", show(rest), lim, e)
			}
		} else {
			if e != err {
				v.fail("WriteTo of %s then %v: error %v", show(rest), err, e)
			}
			if w.b.String() != vals(rest) {
				v.fail("WriteTo of %s: wrote %q", show(rest), w.b.String())
			}
		}
		if !strings.HasPrefix(vals(rest), w.b.String()) {
			v.fail("WriteTo of %s: wrote %q", show(rest), w.b.String())
		}
	}
	v.done("streams collected, printed, written (with failing writers) and counted")
}

// ---- C06

func (v *V) maybeErr() error {
	if v.Intn(3) == 0 {
		if v.Intn(6) == 0 {
			return io.EOF // from a source of tokens, an error like others
		}
		return v.anErr()
	}
	return nil
}

func TestVerifC06(t *testing.T) {
	v := start(t)
	for i := v.effort(4000); i > 0; i-- {
		in := v.tokens(10, v.mixedVal, true)
		if v.Intn(100) == 0 {
			in = v.tokens(400, v.mixedVal, true)
		}
		err := v.maybeErr()
		var words, lemmas, distinct, kept []tok
		seen := map[string]bool{}
		mask := v.Int63()
		for k, x := range in {
			if x.word() {
				words = append(words, x)
			}
			if x.lemma {
				lemmas = append(lemmas, x)
			}
			if !seen[x.val] {
				seen[x.val] = true
				distinct = append(distinct, x)
			}
			if mask>>(k%60)&1 == 0 {
				kept = append(kept, x)
			}
		}
		v.expect("Words", (*jargon.TokenStream).Words, in, err, words, false)
		v.expect("Lemmas", (*jargon.TokenStream).Lemmas, in, err, lemmas, false)
		v.expect("Distinct", (*jargon.TokenStream).Distinct, in, err, distinct, false)
		k := 0
		f := func(s *jargon.TokenStream) *jargon.TokenStream {
			return s.Where(func(t *jargon.Token) bool {
				if k >= len(in) || dat(t) != in[k] {
					v.fail("Where: the predicate's call %d is about %s, input %s", k, show([]tok{dat(t)}), show(in))
				}
				k++
				return mask>>((k-1)%60)&1 == 0
			})
		}
		v.expect("Where", f, in, err, kept, false)
		if k != len(in) {
			v.fail("Where: the predicate was called %d times for %d tokens", k, len(in))
		}
		// unchanged: the very same tokens
		s := source(nil, in...)
		_, ps, _ := drain(s.stream().Where(func(*jargon.Token) bool { return true }))
		for j, p := range ps {
			if p != s.toks[j] {
				v.fail("Where: token %d of %s is not the token that came in", j, show(in))
			}
		}
	}
	// many distinct values, twice
	for _, n := range []int{300, 3000, 70000} {
		var in []tok
		for k := 0; k < 2*n; k++ {
			in = append(in, refTok("w"+strconv.Itoa(k%n), false))
		}
		v.n++
		got, _, err := drain(source(nil, in...).stream().Distinct())
		if err != nil || !eq(got, in[:n]) {
			v.fail("Distinct of %d values twice: %d tokens, %v", n, len(got), err)
		}
	}
	v.done("selections with reference selections")
}

// ---- C07

func TestVerifC07(t *testing.T) {
	v := start(t)
	for i := v.effort(2000); i > 0; i-- {
		v.n++
		n := v.Intn(7)
		order := []int{}
		streams := []*jargon.TokenStream{source(nil).stream()}
		var fs []jargon.Filter
		for k := 0; k < n; k++ {
			k := k
			if v.Intn(4) == 0 && k > 0 { // the same filter again
				fs = append(fs, fs[k-1])
				continue
			}
			fs = append(fs, func(s *jargon.TokenStream) *jargon.TokenStream {
				order = append(order, k)
				if s != streams[len(streams)-1] {
					v.fail("Filter with %d filters: filter %d is not applied to the result before it", n, k)
				}
				r := source(nil).stream()
				streams = append(streams, r)
				return r
			})
		}
		first := streams[0]
		got := first.Filter(fs...)
		if len(order) != n {
			v.fail("Filter with %d filters applies %d", n, len(order))
		}
		if got != streams[len(streams)-1] {
			v.fail("Filter with %d filters does not return the last result", n)
		}
		for k := 1; k < n; k++ {
			if order[k] < order[k-1] {
				v.fail("Filter applies out of order: %v", order)
			}
		}
	}
	v.done("lists of filters")
}

// ---- C08

func TestVerifC08(t *testing.T) {
	v := start(t)
	for i := v.effort(4000); i > 0; i-- {
		v.n++
		const nq = 3
		var q [nq]*tokenqueue.TokenQueue
		var m [nq][]*jargon.Token
		hist := ""
		id := 0
		fresh := func() *jargon.Token { id++; return jargon.NewToken("t"+strconv.Itoa(id), false) }
		for k := range q {
			var ts []*jargon.Token
			for z := v.Intn(4); z > 0; z-- {
				ts = append(ts, fresh())
			}
			q[k] = tokenqueue.New(ts...)
			m[k] = append([]*jargon.Token{}, ts...)
			hist += fmt.Sprintf("q%d := New(%d tokens); ", k, len(ts))
		}
		check := func() {
			for k := range q {
				bad := q[k].Len() != len(m[k]) || q[k].Any() != (len(m[k]) > 0) || len(q[k].Tokens) != len(m[k])
				if !bad {
					for z := range m[k] {
						if q[k].Tokens[z] != m[k][z] {
							bad = true
						}
					}
				}
				if bad {
					v.fail("after %s: q%d holds %v, want %v", hist, k, q[k].Tokens, m[k])
				}
			}
		}
		check()
		for s := v.Intn(25); s > 0; s-- {
			a := v.Intn(nq)
			b := (a + 1 + v.Intn(nq-1)) % nq
			switch v.Intn(6) {
			case 0, 1:
				var ts []*jargon.Token
				for z := v.Intn(4); z > 0; z-- {
					ts = append(ts, fresh())
				}
				hist += fmt.Sprintf("q%d.Push(%d); ", a, len(ts))
				q[a].Push(ts...)
				m[a] = append(m[a], ts...)
			case 2:
				if len(m[a]) > 0 {
					hist += fmt.Sprintf("q%d.Pop; ", a)
					x := q[a].Pop()
					if x != m[a][0] {
						v.fail("%s returned %v, want %v", hist, x, m[a][0])
					}
					m[a] = m[a][1:]
				}
			case 3:
				n := v.Intn(len(m[a]) + 1)
				hist += fmt.Sprintf("q%d.Drop(%d); ", a, n)
				q[a].Drop(n)
				m[a] = m[a][n:]
			case 4:
				if v.Intn(4) == 0 {
					hist += fmt.Sprintf("q%d.Clear; ", a)
					q[a].Clear()
					m[a] = nil
				} else if len(m[a]) > 0 {
					hist += fmt.Sprintf("q%d.PopTo(q%d); ", a, b)
					q[a].PopTo(q[b])
					m[b] = append(m[b][:len(m[b]):len(m[b])], m[a][0])
					m[a] = m[a][1:]
				}
			case 5:
				hist += fmt.Sprintf("q%d.FlushTo(q%d); ", a, b)
				q[a].FlushTo(q[b])
				m[b] = append(m[b][:len(m[b]):len(m[b])], m[a]...)
				m[a] = nil
			}
			check()
		}
	}
	v.done("histories of operations on three queues")
}

// ---- C09

func TestVerifC09(t *testing.T) {
	v := start(t)
	for i := v.effort(3000); i > 0; i-- {
		in := v.tokens(8, v.mixedVal, true)
		n := v.Intn(5)
		var fs []func(*jargon.Token) *jargon.Token
		calls := 0
		for k := 0; k < n; k++ {
			k := k
			keep := v.Intn(3) == 0
			fs = append(fs, func(t *jargon.Token) *jargon.Token {
				if calls%n != k {
					v.fail("mapper with %d functions: call %d is of function %d", n, calls, k)
				}
				calls++
				if keep {
					return t
				}
				return jargon.NewToken(t.String()+strconv.Itoa(k), k%2 == 0)
			})
		}
		var want []tok
		for _, x := range in {
			y := jargon.NewToken(x.val, x.lemma)
			for _, f := range fs {
				y = f(y)
			}
			want = append(want, dat(y))
		}
		calls = 0
		v.expect("mapper", mapper.NewFilter(fs...), in, v.maybeErr(), want, false)
		if calls != n*len(in) {
			v.fail("mapper with %d functions and %d tokens: %d calls", n, len(in), calls)
		}
	}
	v.done("token sequences through lists of functions")
}

// ---- C10

func lucene(v *V) map[rune]string {
	f, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_ROOT"), "contracts", "lucene.tsv"))
	if err != nil {
		v.T.Skip(err)
	}
	m := map[rune]string{}
	for _, l := range strings.Split(string(f), "\n") {
		p := strings.Split(l, "\t")
		if len(p) < 2 {
			continue
		}
		r, err := strconv.Atoi(p[0])
		if err != nil {
			v.T.Skip(err)
		}
		for _, o := range strings.Fields(p[1]) {
			x, _ := strconv.Atoi(o)
			m[rune(r)] += string(rune(x))
		}
	}
	return m
}

func TestVerifC10(t *testing.T) {
	v := start(t)
	m := lucene(v)
	if len(m) < 1000 {
		v.T.Fatal("the table is incomplete")
	}
	ref := func(s string) (string, bool) {
		var b strings.Builder
		any := false
		for _, r := range s {
			if x, ok := m[r]; ok {
				b.WriteString(x)
				any = true
			} else {
				b.WriteRune(r)
			}
		}
		return b.String(), any
	}
	one := func(s string) {
		v.n++
		got, ok := ascii.FoldString(s)
		want, wok := ref(s)
		if ok != wok || got != want {
			v.fail("FoldString(%q) is %q %v, want %q %v", s, got, ok, want, wok)
		}
	}
	var keys []rune
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if r >= 0xD800 && r <= 0xDFFF {
			continue
		}
		one(string(r))
		if r < 0x10000 {
			one("a" + string(r) + "z")
		}
		if _, ok := m[r]; ok {
			keys = append(keys, r)
		}
	}
	one("")
	for i := v.effort(5000); i > 0; i-- {
		s := ""
		for k := v.Intn(6); k >= 0; k-- {
			if v.Intn(2) == 0 {
				s += string(keys[v.Intn(len(keys))])
			} else {
				s += mixed[v.Intn(len(mixed))]
			}
		}
		one(s)
		in := []tok{refTok("x", v.Intn(2) == 0), refTok(s, v.Intn(2) == 0), refTok(" ", false)}
		want := append([]tok{}, in...)
		if f, ok := ref(s); ok {
			want[1] = refTok(f, true)
		}
		v.expect("ascii.Fold", ascii.Fold, in, v.maybeErr(), want, false)
	}
	v.done("strings folded: every character alone and in context, and combinations")
}

// ---- C11

func TestVerifC11(t *testing.T) {
	v := start(t)
	type form struct {
		n string
		f jargon.Filter
		x xnorm.Form
	}
	forms := []form{{"NFC", norm.NFC, xnorm.NFC}, {"NFD", norm.NFD, xnorm.NFD}, {"NFKC", norm.NFKC, xnorm.NFKC}, {"NFKD", norm.NFKD, xnorm.NFKD}}
	type stem struct {
		n string
		f jargon.Filter
		x func(string, bool) string
	}
	stems := []stem{{"English", stemmer.English, english.Stem}, {"French", stemmer.French, french.Stem}, {"Norwegian", stemmer.Norwegian, norwegian.Stem}, {"Russian", stemmer.Russian, russian.Stem}, {"Spanish", stemmer.Spanish, spanish.Stem}, {"Swedish", stemmer.Swedish, swedish.Stem}}
	more := []string{"Running", "flies", "the", "The", "a", "I", "s", "'s", "’", "mangeons", "continuellement", "бегущий", "Я", "и", "corriendo", "años", "husene", "flickorna", "ÅR", "x", "SKIES", "generously", "'", "it's", "ﬁ", "①", "Å", "が", "か\u3099", "\u0344", "ё", "Ё", "<b>", "e", "ed", "ing", "s'", "y", "Y", "café", "cafe\u0301", "é\u0327"}
	gen := func() string {
		if v.Intn(2) == 0 {
			return more[v.Intn(len(more))]
		}
		return v.mixedVal()
	}
	safe := func(f func(string, bool) string, s string) (r string) {
		defer func() {
			if recover() != nil {
				r = "\x00panic"
			}
		}()
		return f(s, true)
	}
	for i := v.effort(1500); i > 0; i-- {
		in := v.tokens(6, gen, true)
		err := v.maybeErr()
		for _, f := range forms {
			var want []tok
			for _, x := range in {
				if f.x.IsNormalString(x.val) {
					want = append(want, x)
				} else {
					want = append(want, refTok(f.x.String(x.val), true))
				}
			}
			v.expect("norm."+f.n, f.f, in, err, want, false)
		}
		for _, f := range stems {
			var want []tok
			bad := false
			for _, x := range in {
				if !x.word() {
					want = append(want, x)
					continue
				}
				s := safe(f.x, x.val)
				if s == "\x00panic" {
					bad = true
					break
				}
				if s == "" || s == x.val {
					want = append(want, x)
				} else {
					want = append(want, refTok(s, true))
				}
			}
			if !bad {
				v.expect("stemmer."+f.n, f.f, in, err, want, false)
			}
		}
	}
	v.done("token sequences normalized and stemmed")
}

// ---- C12

func TestVerifC12(t *testing.T) {
	v := start(t)
	pool := []string{"the", "The", "THE", "a", "A", "foo", "Foo", " ", ".", "İ", "i", "ß", "ẞ", "ſ", "s", "K", "\u212a", "É", "é", "on", "ΑΣ", "ας", "ασ", "@", "don't"}
	for i := v.effort(6000); i > 0; i-- {
		ic := v.Intn(2) == 0
		var ws []string
		set := map[string]bool{}
		for k := v.Intn(5); k > 0; k-- {
			w := pool[v.Intn(len(pool))]
			ws = append(ws, w)
			if ic {
				w = strings.ToLower(w)
			}
			set[w] = true
		}
		in := v.tokens(8, func() string { return pool[v.Intn(len(pool))] }, true)
		var want []tok
		for _, x := range in {
			k := x.val
			if ic {
				k = strings.ToLower(k)
			}
			if !set[k] {
				want = append(want, x)
			}
		}
		v.expect(fmt.Sprintf("stopwords(%q, ignoreCase %v)", ws, ic), stopwords.NewFilter(append([]string{}, ws...), ic), in, v.maybeErr(), want, false)
	}
	v.done("token sequences with stop words")
}

// ---- C13

var contracted = map[string]string{"i'll": "i will", "you'll": "you will", "she'll": "she will", "he'll": "he will", "we'll": "we will", "they'll": "they will", "i'm": "i am", "you're": "you are", "she's": "she is", "he's": "he is", "we're": "we are", "they're": "they are", "i've": "i have", "you've": "you have", "we've": "we have", "they've": "they have", "i'd": "i would", "you'd": "you would", "she'd": "she would", "he'd": "he would", "we'd": "we would", "they'd": "they would", "isn't": "is not", "aren't": "are not", "wasn't": "was not", "don't": "do not", "doesn't": "does not", "didn't": "did not", "haven't": "have not", "hadn't": "had not", "can't": "can not", "won't": "will not", "will've": "will have", "wouldn't": "would not", "would've": "would have", "couldn't": "could not", "could've": "could have", "shouldn't": "should not", "should've": "should have", "mightn't": "might not", "might've": "might have", "mustn't": "must not", "must've": "must have", "gonna": "going to", "gotta": "got to", "wanna": "want to", "gimme": "give me", "cannot": "can not"}

func contractionTable() map[string]string {
	title := func(s string) string { return strings.ToUpper(s[:1]) + s[1:] }
	m := map[string]string{}
	for c, e := range contracted {
		for _, c := range []string{c, strings.ReplaceAll(c, "'", "’")} {
			m[c] = e
			m[title(c)] = title(e)
			m[strings.ToUpper(c)] = strings.ToUpper(e)
		}
	}
	return m
}

func TestVerifC13(t *testing.T) {
	v := start(t)
	table := contractionTable()
	expand := func(in []tok) []tok {
		var want []tok
		for _, x := range in {
			e, ok := table[x.val]
			if !ok {
				e, ok = table[strings.ToLower(x.val)]
			}
			if !ok {
				want = append(want, x)
				continue
			}
			for _, y := range refWords(e) {
				want = append(want, refTok(y.val, true))
			}
		}
		return want
	}
	var keys []string
	for k := range table {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		in := []tok{refTok(k, false), refTok(k, true), refTok("x", false), refTok(k, false)}
		v.expect("contractions.Expand", contractions.Expand, in, nil, expand(in), false)
		for z := 0; z < 3; z++ { // odd case
			b := []rune(k)
			for j := range b {
				if v.Intn(2) == 0 {
					b[j] = unicode.ToUpper(b[j])
				}
			}
			in := []tok{refTok(string(b), false)}
			v.expect("contractions.Expand", contractions.Expand, in, nil, expand(in), false)
		}
		for _, s := range []string{k + "x", "x" + k, k[1:], k[:len(k)-1], strings.NewReplacer("'", "", "’", "").Replace(k), strings.NewReplacer("'", "`", "’", "‘").Replace(k)} {
			if s != "" {
				in := []tok{refTok(s, false)}
				v.expect("contractions.Expand", contractions.Expand, in, nil, expand(in), false)
			}
		}
	}
	for i := v.effort(4000); i > 0; i-- {
		in := v.tokens(8, func() string {
			if v.Intn(2) == 0 {
				return keys[v.Intn(len(keys))]
			}
			return v.mixedVal()
		}, true)
		v.expect("contractions.Expand", contractions.Expand, in, v.maybeErr(), expand(in), false)
	}
	v.done("every contraction in all forms, near misses, and token sequences")
}

// ---- C14

func refSigil(sig string, legal func(string) bool, in []tok) []tok {
	var out []tok
	bound := true
	for i := 0; i < len(in); i++ {
		x := in[i]
		if bound && x.val == sig && i+1 < len(in) && legal(in[i+1].val) {
			x = refTok(sig+in[i+1].val, true)
			i++
		}
		out = append(out, x)
		bound = !x.word()
	}
	return out
}

func refHandle(s string) bool {
	rs := []rune(s)
	if len(rs) > 15 {
		return false
	}
	for _, r := range rs {
		if !(r < 128 && (unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_')) {
			return false
		}
	}
	return true
}

func refTag(s string) bool {
	rs := []rune(s)
	if len(rs) == 1 {
		return unicode.IsLetter(rs[0])
	}
	for _, r := range rs {
		if !unicode.IsLetter(r) && !unicode.IsNumber(r) && r != '_' {
			return false
		}
	}
	return true
}

func TestVerifC14(t *testing.T) {
	v := start(t)
	alpha := []string{"@", "#", "a", "é", "_", "7", "½", " ", ".", "foo_1", "ABCDEFGHIJKLMNO", "ABCDEFGHIJKLMNOP", "日本", "x-y", "\n", "ⅷ", "ééééééééé", "Ａ", "+", "x½", "é1", "\u0301", "1a", "__"}
	h := func(in []tok, err error) {
		v.expect("twitter.Handles", twitter.Handles, in, err, refSigil("@", refHandle, in), true)
		v.expect("twitter.Hashtags", twitter.Hashtags, in, err, refSigil("#", refTag, in), true)
	}
	// all sequences of up to 3, and of 4 over the first few
	var seq func(n, k int, in []tok)
	seq = func(n, k int, in []tok) {
		h(in, nil)
		if n == 0 {
			return
		}
		for _, a := range alpha[:k] {
			seq(n-1, k, append(in[:len(in):len(in)], refTok(a, false)))
		}
	}
	seq(2, len(alpha), nil)
	seq(4, 9, nil)
	for r := rune(0); r < 0x3000; r++ {
		h([]tok{refTok("@", false), refTok(string(r), false)}, nil)
		h([]tok{refTok("#", false), refTok(string(r), false)}, nil)
		h([]tok{refTok("#", false), refTok("a"+string(r), false)}, nil)
		h([]tok{refTok("@", false), refTok("a"+string(r), false)}, nil)
	}
	sigs := []string{"$", "@", "::", "a"}
	for i := v.effort(5000); i > 0; i-- {
		in := v.tokens(10, func() string {
			if v.Intn(3) == 0 {
				return v.pick("@", "#", "$", "::")
			}
			return alpha[v.Intn(len(alpha))]
		}, true)
		err := v.maybeErr()
		h(in, err)
		sg := sigs[v.Intn(len(sigs))]
		mod := v.Intn(3)
		legal := func(s string) bool { return len(s)%3 != mod }
		v.expect("sigil "+sg, sigil.NewFilter(sg, legal), in, err, refSigil(sg, legal, in), true)
	}
	v.done("token sequences with sigils")
}

// ---- C15

func refKey(ic bool, ignore map[rune]bool, s string) string {
	var b strings.Builder
	for _, r := range s {
		if ic {
			r = unicode.ToLower(r)
		}
		if !ignore[r] {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// refSearch: the longest known key among the non-empty prefixes, the shortest prefix having it
func refSearch(m map[string]string, ic bool, ignore map[rune]bool, run []tok) (bool, string, int) {
	found, canon, n, best := false, "", 0, ""
	s := ""
	for i, x := range run {
		s += x.val
		k := refKey(ic, ignore, s)
		if c, ok := m[k]; ok && (!found || k != best) {
			found, canon, n, best = true, c, i+1, k
		}
	}
	return found, canon, n
}

func TestVerifC15(t *testing.T) {
	v := start(t)
	parts := []string{"a", "b", "A", "B", " ", "-", ".", "ab", "ba", "É", "é", "İ", "ruby", "on", "日"}
	igs := [][]rune{nil, {' '}, {'-', '.'}, {'-', ' ', '.'}, {'a'}, {'A'}, {'é'}}
	for i := v.effort(3000); i > 0; i-- {
		v.n++
		ic := v.Intn(2) == 0
		ig := igs[v.Intn(len(igs))]
		igm := map[rune]bool{}
		for _, r := range ig {
			igm[r] = true
		}
		tr := trie.New(ic, ig)
		m := map[string]string{}
		hist := fmt.Sprintf("New(%v, %q); ", ic, string(ig))
		gen := func() string { return parts[v.Intn(len(parts))] }
		for k := v.Intn(7); k > 0; k-- {
			ts := v.tokens(4, gen, false)
			c := v.pick("x", "y", "z", "")
			tr.Add(source(nil, ts...).toks, c)
			m[refKey(ic, igm, vals(ts))] = c
			hist += fmt.Sprintf("Add(%s, %q); ", show(ts), c)
		}
		for k := 0; k < 6; k++ {
			ts := v.tokens(6, gen, false)
			f, c, n := tr.SearchCanonical(source(nil, ts...).toks...)
			wf, wc, wn := refSearch(m, ic, igm, ts)
			if f != wf || n != wn || f && c != wc {
				v.fail("%s SearchCanonical(%s) is %v %q %d, want %v %q %d", hist, show(ts), f, c, n, wf, wc, wn)
			}
		}
	}
	v.done("indexes built and searched")
}

// ---- C16, C17

type refSyn struct {
	m      map[string]string
	ic     bool
	ignore map[rune]bool
	words  int
}

func newRefSyn(mappings map[string]string, ic bool, ig []rune) *refSyn {
	r := &refSyn{map[string]string{}, ic, map[rune]bool{}, 1}
	for _, x := range ig {
		r.ignore[x] = true
	}
	var keys []string
	for k := range mappings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		var cur []tok
		lead := true
		add := func() {
			r.m[refKey(ic, r.ignore, vals(cur))] = mappings[k]
			n := 0
			for _, x := range cur {
				if x.word() {
					n++
				}
			}
			if n > r.words {
				r.words = n
			}
			cur = nil
			lead = true
		}
		for _, x := range refWords(k) {
			switch {
			case lead && x.space:
			case x.val == ",":
				add()
			default:
				lead = false
				cur = append(cur, x)
			}
		}
		add()
	}
	return r
}

// apply gives the output, and for each output token how many input tokens are settled with it
func (r *refSyn) apply(in []tok) ([]tok, []int) {
	var out []tok
	var at []int
	for i := 0; i < len(in); {
		if !in[i].word() {
			out = append(out, in[i])
			i++
			at = append(at, i)
			continue
		}
		var run []tok
		n := 0
		for j := i; j < len(in) && !in[j].punct; j++ {
			run = append(run, in[j])
			if in[j].word() {
				n++
			}
			if n >= r.words {
				break
			}
		}
		f, c, k := refSearch(r.m, r.ic, r.ignore, run)
		if !f {
			out = append(out, in[i])
			i++
			at = append(at, i)
			continue
		}
		i += k
		if c != "" {
			out = append(out, refTok(c, true))
			at = append(at, i)
		}
	}
	return out, at
}

var synParts = []string{"a", "b", "c", "A", "B", " ", " ", " ", "-", ".", "\n", "\t", "ruby", "Ruby", "on", "rails", "rubyonrails", "é", "É", ",", "  "}

func (v *V) synConfig() (map[string]string, bool, []rune) {
	m := map[string]string{}
	for k := v.Intn(5); k > 0; k-- {
		s := ""
		for z := 1 + v.Intn(3); z > 0; z-- {
			switch v.Intn(3) {
			case 0:
				s += v.pick("a", "b", "a b", "a b c", "ruby on rails", "Ruby", "rails", "a-b", "é a", "a  b", "b a")
			case 1:
				s += v.pick("a b c a b", "c", "on rails", "A", "a.b", "-", " ", "b c")
			case 2:
				s += v.pick("ruby", "a b", "c b a", "東京都", "東京", "東 京", "a東b", "a b c a b c a", "ſ a", "a\tb", "😀😀")
			}
			if z > 1 {
				s += v.pick(",", ", ", ",  ", " ,", ",,", " ")
			}
		}
		m[s] = v.pick("X", "Y", "rails", "a b", "", "the")
	}
	igs := [][]rune{nil, {' ', '-', '.', '/'}, {'-', '.', '/'}, {' '}, {'a'}}
	return m, v.Intn(2) == 0, igs[v.Intn(len(igs))]
}

// mention gives the tokens of a synonym, or of something close to one
func (v *V) mention(m map[string]string) []tok {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	parts := strings.Split(keys[v.Intn(len(keys))], ",")
	p := strings.TrimLeft(parts[v.Intn(len(parts))], " ")
	switch v.Intn(5) {
	case 0:
		p = strings.ToUpper(p)
	case 1:
		p = strings.ReplaceAll(p, " ", v.pick("\n", "  ", "-", ""))
	}
	return refWords(p)
}

func lesser(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func clone(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, x := range m {
		r[k] = x
	}
	return r
}

func (v *V) synonyms(prop string) {
	for i := v.effort(5000); i > 0; i-- {
		m, ic, ig := v.synConfig()
		f := synonyms.NewFilter(clone(m), ic, ig)
		r := newRefSyn(m, ic, ig)
		what := fmt.Sprintf("synonyms(%q, ignoreCase %v, ignore %q)", m, ic, string(ig))
		for k := 0; k < 3; k++ {
			in := v.tokens(12, func() string { return synParts[v.Intn(len(synParts))] }, true)
			if k > 0 && len(m) > 0 {
				in = append(in[:v.Intn(len(in)+1):len(in)], v.mention(m)...)
				in = append(in, v.tokens(4, func() string { return synParts[v.Intn(len(synParts))] }, true)...)
			}
			want, _ := r.apply(in)
			v.expect(what, f, in, v.maybeErr(), want, true)
		}
	}
}

func TestVerifC16(t *testing.T) {
	v := start(t)
	v.synonyms("C16")
	for i := v.effort(300); i > 0; i-- { // long inputs
		m, ic, ig := v.synConfig()
		f := synonyms.NewFilter(clone(m), ic, ig)
		r := newRefSyn(m, ic, ig)
		in := v.tokens(200, func() string { return synParts[v.Intn(len(synParts))] }, true)
		want, _ := r.apply(in)
		v.expect(fmt.Sprintf("synonyms(%q, ignoreCase %v, ignore %q)", m, ic, string(ig)), f, in, nil, want, true)
	}
	// the filters made from tables
	for _, s := range []string{"I write Ruby on Rails and node.js, ASP.NET; c++ & C#.", "html5 css3 react js", "nothing here", "ruby on\nrails"} {
		v.n++
		for _, f := range []jargon.Filter{stackoverflow.Tags, nba.CurrentPlayers} {
			var in []tok
			in = append(in, refWords(s)...)
			got, _, err := drain(f(source(nil, in...).stream()))
			if err != nil || len(got) == 0 {
				v.fail("filter of %q: %v, %v", s, got, err)
			}
		}
	}
	v.done("token sequences with synonyms")
}

func TestVerifC17(t *testing.T) {
	v := start(t)
	v.synonyms("C17")
	// collisions: the mapping that sorts last wins, every time
	for i := 0; i < 60; i++ {
		m := map[string]string{}
		for k := 0; k < 6; k++ {
			m[strings.Repeat(" ", k)+"foo bar"] = "c" + strconv.Itoa(k)
			m["foo bar"+strings.Repeat(",z", k)] = "d" + strconv.Itoa(k)
		}
		f := synonyms.NewFilter(clone(m), true, nil)
		in := refWords("z foo bar z")
		want, _ := newRefSyn(m, true, nil).apply(in)
		v.expect(fmt.Sprintf("synonyms(%q)", m), f, in, nil, want, true)
	}
	// a failed build is reported by every stream
	long := strings.Repeat("a", 200000)
	f := synonyms.NewFilter(map[string]string{"x": "y", long: "z"}, true, nil)
	for k := 0; k < 3; k++ {
		v.n++
		_, werr := jargon.TokenizeString(long).ToSlice()
		got, _, err := drain(f(source(nil, refWords("x y")...).stream()))
		if werr != nil && (err == nil || len(got) > 0) {
			v.fail("synonyms with a mapping of %d characters that can not be tokenized: use %d gives %s, %v", len(long), k+1, show(got), err)
		}
	}
	v.done("filters built from mappings, collisions, failing builds")
}

// ---- C24

func TestVerifC24(t *testing.T) {
	v := start(t)
	known := []struct {
		f     jargon.Filter
		words string
		term  string
		seps  []rune
	}{
		{stackoverflow.Tags, "ruby on rails", "ruby-on-rails", []rune(" -./")},
		{stackoverflow.Tags, "node js", "node.js", []rune(" -./")},
		{stackoverflow.Tags, "asp net website", "asp.net", []rune(" -./")},
		{nba.CurrentPlayers, "andre drummond", "Andre Drummond", []rune(" .'-–")},
		{nba.CurrentPlayers, "b j johnson", "B. J. Johnson", []rune(" .'-–")},
		{nba.CurrentPlayers, "ante zizic", "Ante Žižić", []rune(" .'-–")},
	}
	for i := v.effort(2000); i > 0; i-- {
		v.n++
		k := known[v.Intn(len(known))]
		var b strings.Builder
		for _, r := range k.words {
			switch {
			case r == ' ':
				b.WriteRune(k.seps[v.Intn(len(k.seps))])
			case v.Intn(2) == 0:
				b.WriteRune(unicode.ToUpper(r))
			default:
				b.WriteRune(r)
			}
			if v.Intn(6) == 0 {
				b.WriteRune(k.seps[v.Intn(len(k.seps))])
			}
		}
		got, err := k.f(v.one(b.String())).String()
		if err != nil || got != k.term {
			v.fail("the token %q gives %q, %v; want %q", b.String(), got, err, k.term)
		}
	}
	for _, k := range known { // other characters count
		for _, sep := range "_+&,:;@#$%*()=\"\\|~…" {
			if strings.ContainsRune(string(k.seps), sep) {
				continue
			}
			v.n++
			s := strings.Replace(k.words, " ", string(sep), 1)
			got, err := k.f(v.one(s)).String()
			if err != nil || got != s {
				v.fail("the token %q gives %q, %v; want it unchanged", s, got, err)
			}
		}
	}
	v.done("spellings of terms of the bundled filters")
}

// one is a stream of one token
func (v *V) one(s string) *jargon.TokenStream {
	done := false
	return jargon.NewTokenStream(func() (*jargon.Token, error) {
		if done {
			return nil, nil
		}
		done = true
		return jargon.NewToken(s, false), nil
	})
}

// ---- C18

func TestVerifC18(t *testing.T) {
	v := start(t)
	type lazy struct {
		n string
		f jargon.Filter
	}
	one2one := []lazy{{"ascii.Fold", ascii.Fold}, {"norm.NFC", norm.NFC}, {"norm.NFKD", norm.NFKD}, {"stemmer.English", stemmer.English}, {"mapper", mapper.NewFilter(func(t *jargon.Token) *jargon.Token { return t })}}
	for i := v.effort(600); i > 0; i-- {
		in := v.tokens(14, v.mixedVal, true)
		v.n++
		for _, l := range one2one {
			s := source(nil, in...)
			st := l.f(s.stream())
			for k := range in {
				if s.pos != k {
					v.fail("%s: %d tokens of %s read before token %d is asked for", l.n, s.pos, show(in), k)
				}
				st.Next()
			}
		}
		// selections and stop words read no further than the token they return
		stop := stopwords.NewFilter([]string{"the", " "}, true)
		for _, l := range []lazy{{"Words", (*jargon.TokenStream).Words}, {"Lemmas", (*jargon.TokenStream).Lemmas}, {"Distinct", (*jargon.TokenStream).Distinct}, {"stopwords", stop}, {"Where", func(s *jargon.TokenStream) *jargon.TokenStream {
			return s.Where(func(t *jargon.Token) bool { return len(t.String())%2 == 0 })
		}}} {
			s := source(nil, in...)
			st := l.f(s.stream())
			if s.calls != 0 {
				v.fail("%s reads when it is created", l.n)
			}
			for {
				x, _ := st.Next()
				if x == nil {
					break
				}
				if s.toks[s.pos-1] != x {
					v.fail("%s: returning %q has read up to %q (input %s)", l.n, x, s.toks[s.pos-1], show(in))
				}
			}
		}
		// contractions: nothing is read while the expansion is delivered
		{
			s := source(nil, in...)
			st := contractions.Expand(s.stream())
			if s.calls != 0 {
				v.fail("contractions reads when it is created")
			}
			table := contractionTable()
			for k, x := range in {
				n := 1
				e, ok := table[x.val]
				if !ok {
					e, ok = table[strings.ToLower(x.val)]
				}
				if ok {
					n = len(refWords(e))
				}
				for ; n > 0; n-- {
					st.Next()
					if s.pos != k+1 {
						v.fail("contractions: %d tokens read for the first %d of %s", s.pos, k+1, show(in))
					}
				}
			}
		}
		// sigils: at most one token ahead
		for _, l := range []lazy{{"twitter.Handles", twitter.Handles}, {"twitter.Hashtags", twitter.Hashtags}} {
			s := source(nil, in...)
			st := l.f(s.stream())
			if s.calls != 0 {
				v.fail("%s reads when it is created", l.n)
			}
			bytes := 0
			for {
				x, _ := st.Next()
				if x == nil {
					break
				}
				bytes += len(x.String())
				read := 0
				for _, y := range in[:s.pos] {
					read += len(y.val)
				}
				if s.pos > 0 && read-bytes > len(in[s.pos-1].val) {
					v.fail("%s: after %q, %d of the tokens %s are read", l.n, x, s.pos, show(in))
				}
			}
		}
		// synonyms
		m, ic, ig := v.synConfig()
		r := newRefSyn(m, ic, ig)
		f := synonyms.NewFilter(clone(m), ic, ig)
		in = v.tokens(40, func() string { return synParts[v.Intn(len(synParts))] }, true)
		s := source(nil, in...)
		st := f(s.stream())
		if s.calls != 0 {
			v.fail("synonyms reads when it is created")
		}
		want, at := r.apply(in)
		for k := range want {
			x, _ := st.Next()
			if x == nil || dat(x) != want[k] {
				break // C16
			}
			held := 0
			for _, y := range in[lesser(at[k], s.pos):s.pos] {
				if y.word() {
					held++
				}
			}
			if held > r.words {
				v.fail("synonyms(%q): after %d output tokens, %d words of %s are held, the longest synonym has %d", m, k+1, held, show(in), r.words)
			}
		}
		// tokenizers read lazily too
		big := strings.Repeat("word <b>x</b> ", 20000)
		for _, tk := range []func(io.Reader) *jargon.TokenStream{jargon.Tokenize, jargon.TokenizeHTML} {
			if i%200 != 0 {
				continue
			}
			c := &chunks{[]byte(big), 512, io.EOF}
			st := tk(c)
			if len(c.b) != len(big) {
				v.fail("creating a token stream reads %d bytes", len(big)-len(c.b))
			}
			n := 0
			for j := 0; j < 3000; j++ {
				x, _ := st.Next()
				n += len(x.String())
				if len(big)-len(c.b)-n > 70000 {
					v.fail("tokenizing has read %d bytes for %d bytes of tokens", len(big)-len(c.b), n)
				}
			}
		}
	}
	v.done("streams read step by step, with the number of items read from the source")
}

// ---- C19

func TestVerifC19(t *testing.T) {
	v := start(t)
	m := map[string]string{"a b, c": "X", "ruby on rails": "rails", "b": ""}
	mk := func() map[string]jargon.Filter {
		return map[string]jargon.Filter{
			"synonyms": synonyms.NewFilter(clone(m), true, []rune{'-', ' '}), "stopwords": stopwords.NewFilter([]string{"the", "a"}, true),
			"sigil": sigil.NewFilter("@", func(s string) bool { return s != " " }), "mapper": mapper.NewFilter(func(t *jargon.Token) *jargon.Token { return t }),
			"ascii": ascii.Fold, "contractions": contractions.Expand, "handles": twitter.Handles, "tags": twitter.Hashtags,
			"nfc": norm.NFC, "stem": stemmer.English, "distinct": (*jargon.TokenStream).Distinct, "words": (*jargon.TokenStream).Words, "stackoverflow": stackoverflow.Tags,
		}
	}
	filters := mk()
	names := []string{}
	for n := range filters {
		names = append(names, n)
	}
	sort.Strings(names)
	gen := func() string {
		if v.Intn(2) == 0 {
			return synParts[v.Intn(len(synParts))]
		}
		return v.mixedVal()
	}
	// concurrently, before anything else has been done
	{
		var keys []string
		for k := range contractionTable() {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		cold := mk()
		for _, n := range names {
			v.n++
			f := cold[n]
			in := v.tokens(60, gen, true)
			for _, k := range keys {
				in = append(in, refTok(k, false))
			}
			var got [8][]tok
			var wg sync.WaitGroup
			for j := range got {
				wg.Add(1)
				go func(j int) {
					defer wg.Done()
					got[j], _, _ = drain(f(source(nil, in...).stream()))
				}(j)
			}
			wg.Wait()
			for j := range got {
				if !eq(got[j], got[0]) {
					v.fail("%s: input %s gives %s in one goroutine, and %s in another", n, show(in), show(got[0]), show(got[j]))
				}
			}
		}
	}
	for i := v.effort(150); i > 0; i-- {
		for _, n := range names {
			v.n++
			f := filters[n]
			k := 2 + v.Intn(3)
			var ins, want, got [][]tok
			var sts []*jargon.TokenStream
			for j := 0; j < k; j++ {
				in := v.tokens(10, gen, true)
				ins = append(ins, in)
				w, _, _ := drain(f(source(nil, in...).stream()))
				want = append(want, w)
				got = append(got, nil)
			}
			for j := 0; j < k; j++ {
				sts = append(sts, f(source(nil, ins[j]...).stream()))
			}
			open := k
			done := make([]bool, k)
			for open > 0 {
				j := v.Intn(k)
				if done[j] {
					continue
				}
				x, _ := sts[j].Next()
				if x == nil {
					done[j] = true
					open--
					continue
				}
				got[j] = append(got[j], dat(x))
			}
			for j := range got {
				if !eq(got[j], want[j]) {
					v.fail("%s: input %s gives %s alone, but %s when interleaved with other streams of the filter (%v)", n, show(ins[j]), show(want[j]), show(got[j]), ins)
				}
			}
		}
	}
	// concurrently, from filters that have not been used yet
	for i := v.effort(6); i > 0; i-- {
		fresh := mk()
		for _, n := range names {
			v.n++
			f := fresh[n]
			const k = 8
			var ins, want [][]tok
			for j := 0; j < k; j++ {
				in := v.tokens(60, gen, true)
				ins = append(ins, in)
				w, _, _ := drain(filters[n](source(nil, in...).stream()))
				want = append(want, w)
			}
			var wg sync.WaitGroup
			bad := make([][]tok, k)
			for j := 0; j < k; j++ {
				wg.Add(1)
				go func(j int) {
					defer wg.Done()
					s := source(nil, ins[j]...)
					st := f(s.stream())
					var got []tok
					for {
						x, err := st.Next()
						if x == nil || err != nil {
							break
						}
						got = append(got, dat(x))
						runtime.Gosched()
					}
					if !eq(got, want[j]) {
						bad[j] = append([]tok{}, got...)
						bad[j] = append(bad[j], tok{val: "(end)"})
					}
				}(j)
			}
			wg.Wait()
			for j := range bad {
				if bad[j] != nil {
					v.fail("%s: input %s gives %s alone, but %s when used by %d goroutines", n, show(ins[j]), show(want[j]), show(bad[j]), k)
				}
			}
		}
	}
	v.done("sets of streams of one filter, interleaved and concurrent")
}
