H='package %s\n\nimport (\n%s)\n\nfunc TestDemo(t *testing.T) {\n%s}\n'
def go(pkg,imps,body,extra=''):
    return H%(pkg,''.join('\t"%s"\n'%i for i in sorted(set(imps)|{'testing'})),'\n'.join('\t'+l for l in body.strip('\n').split('\n'))+'\n')+extra

bug('s01','C08','tokenqueue/queue.go',[('''	dst.Tokens = append(dst.Tokens, q.Tokens...)
	q.Clear()
''','''	if len(dst.Tokens) == 0 {
		// Optimization: nothing to append to, hand over the tokens
		dst.Tokens = q.Tokens
	} else {
		dst.Tokens = append(dst.Tokens, q.Tokens...)
	}
	q.Clear()
''')],'tokenqueue',go('tokenqueue',['github.com/clipperhouse/jargon'],'''
a, b := New(), New()
a.Push(jargon.NewToken("one", false), jargon.NewToken("two", false))
a.FlushTo(b)
a.Push(jargon.NewToken("three", false))
if got := b.Pop().String(); got != "one" {
	t.Fatalf("expected one, got %s", got)
}
'''),'flushing to an empty queue, and then pushing to the flushed queue','after FlushTo the two queues share storage, so a later push to one overwrites a token of the other')

bug('s02','C05','tokenstream.go',[('''		written += int64(n)

		if err != nil {
			return written, err
		}
''','''		if err != nil {
			return written, err
		}
		written += int64(n)
''')],'.',go('jargon',['errors'],'''
var w short
n, err := TokenizeString("hello world").WriteTo(&w)
if err == nil || int(n) != w.n {
	t.Fatalf("the writer accepted %d bytes, got %d, %v", w.n, n, err)
}
''','''
type short struct{ n int }

func (s *short) Write(p []byte) (int, error) {
	if s.n+len(p) > 8 {
		k := 8 - s.n
		s.n = 8
		return k, errors.New("full")
	}
	s.n += len(p)
	return len(p), nil
}
'''),'a writer that fails in the middle of a token','the bytes of a partial write are not counted')

bug('s03','C06','tokenstream.go',[('''		if !found {
			seen[t.String()] = true
		}
''','''		if !found {
			if len(seen) >= 1<<10 {
				// Don't let memory grow with the input
				seen = map[string]bool{}
			}
			seen[t.String()] = true
		}
''')],'.',go('jargon',['strconv'],'''
i := 0
next := func() (*Token, error) {
	i++
	if i > 3000 {
		return nil, nil
	}
	return NewToken("w"+strconv.Itoa(i%1500), false), nil
}
n, err := NewTokenStream(next).Distinct().Count()
if err != nil || n != 1500 {
	t.Fatalf("expected 1500, got %d, %v", n, err)
}
'''),'a stream with more than 1024 distinct values, one of them recurring','the distinct selection returns a value twice')

bug('s04','C14','filters/sigil/filter.go',[('''		s.previous = handle
		return handle, nil
''','''		return handle, nil
''')],'filters/sigil',go('sigil',['github.com/clipperhouse/jargon'],'''
f := NewFilter("@", func(s string) bool { return s != "@" })
got, err := jargon.TokenizeString("@foo@bar").Filter(f).ToSlice()
if err != nil || len(got) != 3 {
	t.Fatalf("expected @foo, @, bar, got %v, %v", got, err)
}
'''),'a second sigil directly after a joined handle','the boundary rule: a sigil after a word is joined')

bug('s05','C02','tokenizer_html.go',[('''		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
			t.parent = htoken.DataAtom
		}
''','''		if t.parent == 0 && htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
			t.parent = htoken.DataAtom
		} else if t.parent != 0 && htoken.DataAtom != t.parent {
			// Can't have tags inside a script, it must have been left unclosed
			t.parent = 0
		}
''')],'.',go('jargon',['strings'],'''
// inside svg, style is an ordinary element for the parser of some browsers; here it is raw text until it ends
s := "<style>a b</style>x y<script>c d</script><style><!-- z --> e f</style>"
got, err := TokenizeHTML(strings.NewReader(s)).ToSlice()
want := []string{"<style>", "a b", "</style>", "x", " ", "y", "<script>", "c d", "</script>", "<style>", "<!-- z --> e f", "</style>"}
if err != nil || len(got) != len(want) {
	t.Fatalf("got %q, %v", got, err)
}
for i := range want {
	if got[i].String() != want[i] {
		t.Fatalf("got %q, want %q", got, want)
	}
}
'''),'placeholder','placeholder')
B.pop()

bug('s05','C02','tokenizer_html.go',[('''		// Done with text node
		t.ttokens = nil
''','''		// Done with text node, as well as with its parent
		t.ttokens, t.parent = nil, 0
'''),('''		if htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style {
			t.parent = htoken.DataAtom
		}
''','''		if t.parent == 0 && (htoken.DataAtom == atom.Script || htoken.DataAtom == atom.Style) {
			t.parent = htoken.DataAtom
		} else if t.parent != 0 {
			// A tag, so the script or style block was left unclosed
			t.parent = 0
		}
''')],'.',go('jargon',['strings'],'''
s := "<style><script>a b</script>"
got, err := TokenizeHTML(strings.NewReader(s)).String()
if err != nil || got != s {
	t.Fatalf("got %q, %v", got, err)
}
s = "<style></style><SCRIPT></SCRIPT><style></style x><script>if (a < b) c()</script>"
toks, err := TokenizeHTML(strings.NewReader(s)).ToSlice()
if err != nil || toks[len(toks)-2].String() != "if (a < b) c()" {
	t.Fatalf("got %q, %v", toks, err)
}
'''),'placeholder','placeholder')
B.pop()

bug('s05','C02','tokenizer_html.go',[('''	if t.ttokens != nil {
		ttoken, err := t.ttokens.Next()
		if err != nil {
			return nil, err
		}
''','''	if t.ttokens != nil {
		ttoken, err := t.ttokens.Next()
		if err != nil && t.parent == 0 {
			return nil, err
		}
'''),('''	htoken := t.htokenizer.Token()

	switch htoken.Type {
	case html.StartTagToken:
''','''	htoken := t.htokenizer.Token()

	switch htoken.Type {
	case html.SelfClosingTagToken, html.StartTagToken:
''')],'.',go('jargon',['strings'],'''
s := "<style/>a {} <style>b {}</style><script src=x />some words"
got, err := TokenizeHTML(strings.NewReader(s)).ToSlice()
_ = got
if err != nil {
	t.Fatal(err)
}
// x/net/html reads everything after a self-closing style tag as text; it is tokenized
long := "<style/>" + "a b c"
toks, _ := TokenizeHTML(strings.NewReader(long)).ToSlice()
if len(toks) != 6 {
	t.Fatalf("got %q", toks)
}
'''),'placeholder','placeholder')
B.pop()

bug('s05','C02','tokenizer_html.go',[('''			t.ttokens = TokenizeString(raw)
			return t.ttokens.Next()
''','''			t.ttokens = TokenizeString(raw)
			ttoken, err := t.ttokens.Next()
			if ttoken != nil && len(ttoken.value) == len(raw) {
				// That was all of it, no need to ask again
				t.ttokens = nil
			}
			return ttoken, err
'''),('''		ttoken, err := t.ttokens.Next()
		if err != nil {
			return nil, err
		}
		if ttoken != nil {
			return ttoken, nil
		}
''','''		ttoken, err := t.ttokens.Next()
		if ttoken != nil {
			return ttoken, nil
		}
		if err == io.ErrUnexpectedEOF {
			return nil, err
		}
''')],'.',go('jargon',['strings'],'''
s := "<p>" + strings.Repeat("x", 200000) + "</p>"
got, err := TokenizeHTML(strings.NewReader("<p>a " + strings.Repeat("x", 200000) + "</p>")).String()
if err == nil && got != "<p>a "+strings.Repeat("x", 200000)+"</p>" {
	t.Fatalf("%d bytes of text are lost without an error", len(s)-len(got))
}
'''),'a text node whose first word is short and that contains a word too long for the scanner','an error inside a text node is dropped, and with it the rest of that text')

bug('s06','C16','filters/synonyms/filter.go',[('''		found, canonical, consumed := t.filter.trie.SearchCanonical(run...)
		if found {
''','''		head := run[0].String()
		if t.missed[head] {
			// Already looked that up
			t.buffer.PopTo(t.outgoing)
			continue
		}
		found, canonical, consumed := t.filter.trie.SearchCanonical(run...)
		if !found {
			t.missed[head] = true
		}
		if found {
'''),('''	filter   *filter
}

// next returns''','''	filter   *filter
	// words that don't begin a synonym
	missed map[string]bool
}

// next returns'''),('''		filter:   f,
	}

	// Catch''','''		filter:   f,
		missed:   make(map[string]bool),
	}

	// Catch''')],'filters/synonyms',go('synonyms',['github.com/clipperhouse/jargon'],'''
f := NewFilter(map[string]string{"ruby on rails": "rails"}, true, nil)
got, err := jargon.TokenizeString("ruby is nice, ruby on rails too").Filter(f).String()
if err != nil || got != "ruby is nice, rails too" {
	t.Fatalf("got %q, %v", got, err)
}
'''),'a word that first occurs alone and later begins a synonym','the later synonym is not replaced')

bug('s07','C15','filters/synonyms/trie/trie.go',[('''outer:
	for i, token := range tokens {
		for _, r := range token.String() {
			if t.ignoreCase {
				r = unicode.ToLower(r)
			}

			if t.ignore[r] {
				continue
			}
''','''outer:
	for i, token := range tokens {
		for _, r := range token.String() {
			if t.ignore[r] {
				continue
			}

			if t.ignoreCase {
				r = unicode.ToLower(r)
			}
''')],'filters/synonyms/trie',go('trie',['github.com/clipperhouse/jargon'],'''
tr := New(true, []rune{'x'})
tr.Add([]*jargon.Token{jargon.NewToken("aXb", false)}, "c")
found, _, _ := tr.SearchCanonical(jargon.NewToken("AXB", false))
if !found {
	t.Fatal("not found")
}
'''),'ignored characters that have an upper case, and ignoring case','a text is not found under the key it was added with')

bug('s08','C10','filters/ascii/fold.go',[("\t\t\t\t'\\u1E9A', // ả  [LATIN SMALL LETTER A WITH RIGHT HALF RING]\n",'')] ,'filters/ascii',go('ascii',[],'''
if got, ok := FoldString("\\u1e9a"); !ok || got != "a" {
	t.Fatalf("got %q, %v", got, ok)
}
'''),'one character','one character is not folded')

bug('s09','C12','filters/stopwords/filter.go',[('''			key = strings.ToLower(s)
''','''			key = strings.ToUpper(s)
'''),('''			key = strings.ToLower(token.String())
''','''			key = strings.ToUpper(token.String())
''')],'filters/stopwords',go('stopwords',['github.com/clipperhouse/jargon'],'''
f := NewFilter([]string{"s"}, true)
n, err := jargon.TokenizeString("\\u017f").Filter(f).Count()
if err != nil || n != 1 {
	t.Fatalf("long s is not s in lower case, got %d tokens, %v", n, err)
}
'''),'a character whose upper case is that of another lower-case character','words that are not stop words are removed')

bug('s10','C19','filters/contractions/filter.go',[('''	expansion, found := mappings[key]

	if found {
		tokens, err := jargon.TokenizeString(expansion).ToSlice()
		if err != nil {
			return found, err
		}
''','''	expansion, found := mappings[key]

	if found {
		tokens, cached := expansions[key]
		if !cached {
			var err error
			tokens, err = jargon.TokenizeString(expansion).ToSlice()
			if err != nil {
				return found, err
			}
			expansions[key] = tokens
		}
'''),('''type tokens struct {
''','''// expansions are the tokenized mappings that have been used
var expansions = make(map[string][]*jargon.Token)

type tokens struct {
''')],'filters/contractions',go('contractions',['github.com/clipperhouse/jargon','sync'],'''
var wg sync.WaitGroup
for i := 0; i < 8; i++ {
	wg.Add(1)
	go func() {
		defer wg.Done()
		for k := range mappings {
			jargon.TokenizeString(k).Filter(Expand).Count()
		}
	}()
}
wg.Wait()
'''),'streams of the filter in several goroutines (a data race)','the filter writes shared state while it is used')

bug('s11','C04','tokenstream.go',[('''	stream.token, stream.err = stream.Next()
	return stream.token''','''	if stream.err != nil {
		// Already failed
		return false
	}
	stream.token, stream.err = stream.Next()
	return stream.token''')],'.',go('jargon',['errors'],'''
i := 0
st := NewTokenStream(func() (*Token, error) {
	i++
	if i == 1 {
		return nil, errors.New("try again")
	}
	return NewToken("x", false), nil
})
st.Scan()
if !st.Scan() || st.Token() == nil || st.Err() != nil || i != 2 {
	t.Fatalf("the second item is not delivered: %v %v, %d", st.Token(), st.Err(), i)
}
'''),'scanning again after an error, from a source that can recover','a call to scan does not consume an item, and reports an old error')

bug('s12','C01','tokenizer.go',[('''	if err := t.sc.Err(); err != nil {
''','''	if err := t.sc.Err(); err != nil && err != io.ErrUnexpectedEOF {
''')],'.',go('jargon',['io','strings'],'''
r := io.MultiReader(strings.NewReader("some text"), &broken{})
_, err := Tokenize(r).String()
if err == nil {
	t.Fatal("the read error is lost")
}
''','''
type broken struct{}

func (broken) Read(p []byte) (int, error) { return 0, io.ErrUnexpectedEOF }
'''),'a reader that fails with io.ErrUnexpectedEOF (truncated compressed or HTTP data)','a truncated input looks complete')

bug('s13','C09','filters/mapper/filter.go',[('''		token = f(token)
''','''		mapped := f(token)
		if mapped == token {
			// No effect
			break
		}
		token = mapped
''')],'filters/mapper',go('mapper',['github.com/clipperhouse/jargon'],'''
same := func(t *jargon.Token) *jargon.Token { return t }
loud := func(t *jargon.Token) *jargon.Token { return jargon.NewToken(t.String()+"!", true) }
got, err := jargon.TokenizeString("a").Filter(NewFilter(same, loud)).String()
if err != nil || got != "a!" {
	t.Fatalf("got %q, %v", got, err)
}
'''),'several functions, of which an earlier one leaves the token as it is','later functions are not applied')

bug('s14','C11','filters/norm/filter.go',[('''		if form.IsNormalString(token.String()) {
''','''		if latin1(token.String()) || form.IsNormalString(token.String()) {
'''),('''func newFilter(form norm.Form) jargon.Filter {
''','''// latin1 is a quick test: these have no combining characters
func latin1(s string) bool {
	for _, r := range s {
		if r > '\\u00ff' {
			return false
		}
	}
	return true
}

func newFilter(form norm.Form) jargon.Filter {
''')],'filters/norm',go('norm',['github.com/clipperhouse/jargon'],'''
got, err := jargon.TokenizeString("caf\\u00e9").Filter(NFD).String()
if err != nil || got != "cafe\\u0301" {
	t.Fatalf("got %q, %v", got, err)
}
'''),'decomposing a Latin-1 character','a token that is not in normal form passes through unchanged')

bug('s15','C17','filters/synonyms/filter.go',[('''	words := 0
	for _, token := range tokens {
		if''','''	// Words have spaces between them, so there are about half as many
	if len(tokens)/2 < *maxWords {
		return
	}
	words := 0
	for _, token := range tokens {
		if''')],'filters/synonyms',go('synonyms',['github.com/clipperhouse/jargon'],'''
f := NewFilter(map[string]string{"\\u65e5\\u672c\\u8a9e\\u6587": "Japanese"}, true, nil)
got, err := jargon.TokenizeString("x \\u65e5\\u672c\\u8a9e\\u6587").Filter(f).String()
if err != nil || got != "x Japanese" {
	t.Fatalf("got %q, %v", got, err)
}
f = NewFilter(map[string]string{"a b": "X", "\\u65e5\\u672c\\u8a9e": "Y"}, true, nil)
got, err = jargon.TokenizeString("x \\u65e5\\u672c\\u8a9e").Filter(f).String()
if err != nil || got != "x Y" {
	t.Fatalf("got %q, %v", got, err)
}
'''),'a synonym of several words without spaces between them (as in Chinese or Japanese)','the largest number of words is too small, so a synonym is never found')

bug('s16','C20','cmd/jargon/main.go',[('''	for _, arg := range args {
		filter, found := filterMap[arg]
		if found {
''','''	for i, arg := range args {
		filter, found := filterMap[arg]
		if found && (i == 0 || args[i-1] != arg) {
''')],'cmd/jargon',go('main',[],'''
c := config{}
if err := setFilters(&c, []string{"-stem", "-stem"}, "english"); err != nil || len(c.Filters) != 2 {
	t.Fatalf("expected 2 filters, got %d, %v", len(c.Filters), err)
}
'''),'the same filter given twice in a row (stemming a stem again has an effect)','a filter is applied less often than it was named')

bug('s17','C21','cmd/jargon/main.go',[('''	if err := tokens.Err(); err != nil {
		return err
	}

	if err := c.Writer.Flush()''','''	if err := tokens.Err(); err != nil && err != bufio.ErrTooLong {
		return err
	}

	if err := c.Writer.Flush()''')],'cmd/jargon',go('main',['bufio','strings','bytes'],'''
in := "a b " + strings.Repeat("x", 200000) + " c d"
var b bytes.Buffer
c := config{Reader: bufio.NewReader(strings.NewReader(in)), Writer: bufio.NewWriter(&b)}
if err := execute(&c); err == nil && b.String() != in {
	t.Fatalf("reported success, but wrote %d of %d bytes", b.Len(), len(in))
}
'''),'an input with a word longer than the scanner buffer','the output is cut short and the run still succeeds')

bug('s18','C22','cmd/jargon/main.go',[('''		file, err := c.Fs.Create(fileout)
''','''		file, err := c.Fs.OpenFile(fileout, os.O_RDWR|os.O_CREATE, 0644)
''')],'cmd/jargon',go('main',['github.com/spf13/afero'],'''
fs := afero.NewMemMapFs()
afero.WriteFile(fs, "out", []byte("something long"), 0644)
c := config{Fs: fs}
if err := setOutput(&c, "out"); err != nil {
	t.Fatal(err)
}
c.Fileout.Write([]byte("short"))
c.Fileout.Close()
b, _ := afero.ReadFile(fs, "out")
if string(b) != "short" {
	t.Fatalf("got %q", b)
}
'''),'an output file that exists and is longer than the output','the output file ends with old content')

bug('s19','C23','web/main.go',[('''			log.Print(err)
			w.WriteHeader(500)
		}
		if t == nil {
''','''			log.Print(err)
		}
		if t == nil {
''')],'web',go('main',['net/http/httptest','errors'],'''
req := httptest.NewRequest("POST", "/text", failing{})
w := httptest.NewRecorder()
jargonHandler(w, req)
if w.Code != 500 {
	t.Fatalf("expected 500, got %d", w.Code)
}
''','''
type failing struct{}

func (failing) Read(p []byte) (int, error) { return 0, errors.New("connection lost") }
'''),'a request body that fails while it is read','a partial result with status 200')

bug('s20','C18','filters/stopwords/filter.go',[('''type tokens struct {
	filter   *filter
	incoming *jargon.TokenStream
}
''','''type tokens struct {
	filter   *filter
	incoming *jargon.TokenStream
	ahead    *jargon.Token // the next one, already known not to be stopped
	err      error
}
'''),('''func (t *tokens) next() (*jargon.Token, error) {
	for {
''','''func (t *tokens) next() (*jargon.Token, error) {
	token, err := t.ahead, t.err
	t.ahead, t.err = nil, nil
	if token == nil && err == nil {
		token, err = t.unstopped()
	}
	if token != nil {
		t.ahead, t.err = t.unstopped()
	}
	return token, err
}

func (t *tokens) unstopped() (*jargon.Token, error) {
	for {
''')],'filters/stopwords',go('stopwords',['github.com/clipperhouse/jargon'],'''
n := 0
st := jargon.NewTokenStream(func() (*jargon.Token, error) {
	n++
	return jargon.NewToken("x", false), nil
})
NewFilter([]string{"y"}, false)(st).Next()
if n != 1 {
	t.Fatalf("one token was returned, %d were read", n)
}
'''),'reading from a source that delivers slowly (or blocks)','the filter reads beyond the token it returns')

bug('s21','C03','token.go',[('''	switch {
	case s == "\\r\\n":
''','''	switch {
	case len(s) == 1 && s[0] < unicode.MaxASCII:
		// No need to decode
		b := s[0]
		space = b == ' ' || b == '\\t' || b == '\\n' || b == '\\r'
		punct = isPunct(rune(b))
	case s == "\\r\\n":
''')],'.',go('jargon',[],'''
if !NewToken("\\v", false).IsSpace() {
	t.Fatal("vertical tab is white space")
}
'''),'one of the two rare ASCII white space characters','a white space token is not marked as space')

bug('s22','C13','filters/contractions/generated.go',None or [],'filters/contractions','','','')
B.pop()
