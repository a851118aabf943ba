From bb5cea2c80acb92491168a1bbcc5546fd77b1cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:31 +0000
Subject: [PATCH 1/9] fix: TokenizeHTML resumes tokenizing text after a script
 or style block ends

The end tag cleared a field of a local copy instead of the tokenizer's parent,
so every later text node came back as a single token.
---
 tokenizer_html.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index fbedc36..4aa33b4 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -74,7 +74,8 @@ func (t *htokenizer) next() (*Token, error) {
 		}
 	case html.EndTagToken:
 		if htoken.DataAtom == t.parent {
-			htoken.DataAtom = 0
+			// Leaving the script or style block
+			t.parent = 0
 		}
 	}
 
-- 
2.43.0


From c210f18228cf84caec6973d8a508079b0d7f668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:51 +0000
Subject: [PATCH 2/9] fix: TokenizeHTML returns tags, comments, scripts and
 text verbatim

Tokens were rebuilt from the parsed token, which lowercased and requoted tags,
escaped script contents (a<b became a&lt;b), turned ' in text into &#39; and
dropped an unterminated tag at the end of the input, so the original text could
not be reconstructed as documented. Use the raw text.
---
 tokenizer_html.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/tokenizer_html.go b/tokenizer_html.go
index 4aa33b4..3005c0a 100644
--- a/tokenizer_html.go
+++ b/tokenizer_html.go
@@ -41,9 +41,20 @@ func (t *htokenizer) next() (*Token, error) {
 
 	htype := t.htokenizer.Next()
 
+	// The original text; copied, because Token() may overwrite it
+	raw := string(t.htokenizer.Raw())
+
 	if htype == html.ErrorToken {
 		err := t.htokenizer.Err()
 		if err == io.EOF {
+			if raw != "" {
+				// An unterminated tag at the end of the input
+				return &Token{
+					value: raw,
+					punct: true,
+					space: false,
+				}, nil
+			}
 			// No problem
 			return nil, nil
 		}
@@ -63,13 +74,13 @@ func (t *htokenizer) next() (*Token, error) {
 		case atom.Script, atom.Style:
 			// Don't tokenize script and style blocks, just return as one big string
 			token := &Token{
-				value: htoken.String(),
+				value: raw,
 				punct: false,
 				space: false,
 			}
 			return token, nil
 		default:
-			t.ttokens = TokenizeString(htoken.String())
+			t.ttokens = TokenizeString(raw)
 			return t.ttokens.Next()
 		}
 	case html.EndTagToken:
@@ -81,7 +92,7 @@ func (t *htokenizer) next() (*Token, error) {
 
 	// Everything else is punct for our purposes
 	token := &Token{
-		value: htoken.String(),
+		value: raw,
 		punct: true,
 		space: false,
 	}
-- 
2.43.0


From 4b960977ee05595748d5918492aeda23adfe8eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:52 +0000
Subject: [PATCH 3/9] fix: ascii folds U+2053, U+FF5E and U+02A8 as Lucene does

The tilde case did not record that it had folded, so a string with no other
folded character came back unchanged; the TC digraph was folded to tr.
---
 filters/ascii/fold.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filters/ascii/fold.go b/filters/ascii/fold.go
index c40f9b2..8b11245 100644
--- a/filters/ascii/fold.go
+++ b/filters/ascii/fold.go
@@ -1232,7 +1232,7 @@ func FoldString(s string) (string, bool) {
 			case
 				'\u02A8': // ʨ  [LATIN SMALL LETTER TC DIGRAPH WITH CURL]
 				b.WriteRune('t')
-				b.WriteRune('r')
+				b.WriteRune('c')
 				folded = true
 			case
 				'\u00FE', // þ  [LATIN SMALL LETTER THORN]
@@ -2148,6 +2148,7 @@ func FoldString(s string) (string, bool) {
 				'\u2053', // ⁓  [SWUNG DASH]
 				'\uFF5E': // ～  [FULLWIDTH TILDE]
 				b.WriteRune('~')
+				folded = true
 			default:
 				b.WriteRune(r)
 			}
-- 
2.43.0


From 6f081948002fb09d1968d1087bb5cf2267367772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:53 +0000
Subject: [PATCH 4/9] fix: sigil filter examines the token it looked ahead to
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A token read ahead and found illegal was returned without being considered: it
was not tried as a sigil (@@foo) and not recorded as the previous token, so the
filter joined a sigil that directly follows a word (@é@foo).
---
 filters/sigil/filter.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/filters/sigil/filter.go b/filters/sigil/filter.go
index bcc81ba..5f5773f 100644
--- a/filters/sigil/filter.go
+++ b/filters/sigil/filter.go
@@ -39,16 +39,19 @@ type stream struct {
 }
 
 func (s *stream) next() (*jargon.Token, error) {
+	var current *jargon.Token
 	if s.outgoing.Any() {
-		return s.outgoing.Pop(), nil
-	}
-
-	current, err := s.incoming.Next()
-	if err != nil {
-		return nil, err
-	}
-	if current == nil {
-		return nil, nil
+		// A previous lookahead, which may itself be a sigil or a word
+		current = s.outgoing.Pop()
+	} else {
+		var err error
+		current, err = s.incoming.Next()
+		if err != nil {
+			return nil, err
+		}
+		if current == nil {
+			return nil, nil
+		}
 	}
 
 	// Previous token must not be a word
-- 
2.43.0


From 5729a32574459070c788248e2ce9198cfbe1ed64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:54 +0000
Subject: [PATCH 5/9] fix: expanded contractions are lemmas

Tokens which replaced a contraction did not report IsLemma, so Lemmas() (and
jargon -contractions -lemmas) dropped them.
---
 filters/contractions/filter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filters/contractions/filter.go b/filters/contractions/filter.go
index 78a20b4..451a38b 100644
--- a/filters/contractions/filter.go
+++ b/filters/contractions/filter.go
@@ -73,7 +73,10 @@ func (t *tokens) tryExpansion(token *jargon.Token, ignoreCase bool) (bool, error
 		if err != nil {
 			return found, err
 		}
-		t.outgoing.Push(tokens...)
+		for _, token := range tokens {
+			// These replace the original token, so they are lemmas
+			t.outgoing.Push(jargon.NewToken(token.String(), true))
+		}
 	}
 
 	return found, nil
-- 
2.43.0


From c78cb1d247b604f009fd79bb76f992499fc747ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:56 +0000
Subject: [PATCH 6/9] fix: stemmer keeps a token whose stem is empty

The English stemmer strips apostrophes and spaces and can return an empty
string; NewToken then returned nil, which ended the stream.
---
 filters/stemmer/filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters/stemmer/filter.go b/filters/stemmer/filter.go
index f5e930c..5088c3c 100644
--- a/filters/stemmer/filter.go
+++ b/filters/stemmer/filter.go
@@ -40,7 +40,7 @@ func newStemmer(stem func(string, bool) string) jargon.Filter {
 
 		stemmed := stem(token.String(), true)
 
-		if stemmed == token.String() {
+		if stemmed == "" || stemmed == token.String() {
 			// Had no effect, send back the original
 			return token
 		}
-- 
2.43.0


From ef79c82e35ece680fedbc2a6d3d6b5aff8f2834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:55 +0000
Subject: [PATCH 7/9] fix: synonyms filter streams instead of reading its whole
 input first

The first call to next consumed the incoming stream to the end and queued every
token, so memory grew with the input (and time with its square, as each Pop
copies the queue), and tokens preceding an I/O error were never delivered.
Return as soon as there is a token to send.
---
 filters/synonyms/filter.go | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index a25473c..9f9d644 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -137,18 +137,9 @@ type tokens struct {
 
 // next returns the next token; nil indicates end of data
 func (t *tokens) next() (*jargon.Token, error) {
-	// Buffer should be clear after every call to next()
-	if t.buffer.Len() != 0 {
-		return nil, fmt.Errorf("expected buffer to be empty")
-	}
-
-	// Clear out any outgoing
-	if t.outgoing.Any() {
-		return t.outgoing.Pop(), nil
-	}
-
-	// Consume all the words
-	for {
+	// Consume words until there is something to send, don't read the whole stream;
+	// lookahead stays in the buffer
+	for !t.outgoing.Any() {
 		err := t.fill()
 		if err != nil {
 			return nil, err
@@ -184,9 +175,6 @@ func (t *tokens) next() (*jargon.Token, error) {
 		t.buffer.PopTo(t.outgoing)
 	}
 
-	// Queue up the rest of the buffer to go out
-	t.buffer.FlushTo(t.outgoing)
-
 	if t.outgoing.Any() {
 		return t.outgoing.Pop(), nil
 	}
-- 
2.43.0


From 669b6ce9cdb530433aca2eac3fc9905edce00360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:56 +0000
Subject: [PATCH 8/9] fix: synonyms filter reports a failed build on every use,
 not just the first

The error was local to the call which ran the build; later streams from the same
filter found no error and dereferenced a nil trie.
---
 filters/synonyms/filter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index 9f9d644..6d57935 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -16,6 +16,7 @@ type filter struct {
 	// For lazy loading, see build() below
 	config *config
 	once   sync.Once
+	err    error // resulting from build()
 
 	trie     *trie.RuneTrie
 	maxWords int
@@ -102,9 +103,8 @@ func updateMaxWords(tokens []*jargon.Token, maxWords *int) {
 func (f *filter) Filter(incoming *jargon.TokenStream) *jargon.TokenStream {
 	// Lazily build the trie on first call, i.e. don't pay for the construction
 	// unless we use it
-	var err error
 	f.once.Do(func() {
-		err = f.build()
+		f.err = f.build()
 	})
 
 	t := &tokens{
@@ -116,8 +116,8 @@ func (f *filter) Filter(incoming *jargon.TokenStream) *jargon.TokenStream {
 
 	// Catch the error that may have resulted from lazy construction above
 	next := func() (*jargon.Token, error) {
-		if err != nil {
-			return nil, err
+		if f.err != nil {
+			return nil, f.err
 		}
 		return t.next()
 	}
-- 
2.43.0


From e6bd7a20dca1d7082fd9eccb1bd9fabae1164cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:58 +0000
Subject: [PATCH 9/9] fix: synonyms filter is deterministic when synonyms
 collide

Two synonyms which are equal once case and ignored runes are removed were added
in map iteration order, so the canonical term varied between runs.
---
 filters/synonyms/filter.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/filters/synonyms/filter.go b/filters/synonyms/filter.go
index 6d57935..09948cf 100644
--- a/filters/synonyms/filter.go
+++ b/filters/synonyms/filter.go
@@ -4,6 +4,7 @@ package synonyms
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"sync"
 
 	"github.com/clipperhouse/jargon"
@@ -44,7 +45,15 @@ func NewFilter(mappings map[string]string, ignoreCase bool, ignoreRunes []rune)
 func (f *filter) build() error {
 	trie := trie.New(f.config.ignoreCase, f.config.ignoreRunes)
 	maxWords := 1
-	for synonyms, canonical := range f.config.mappings {
+	// Where synonyms collide, the result should not depend on map iteration order
+	keys := make([]string, 0, len(f.config.mappings))
+	for synonyms := range f.config.mappings {
+		keys = append(keys, synonyms)
+	}
+	sort.Strings(keys)
+
+	for _, synonyms := range keys {
+		canonical := f.config.mappings[synonyms]
 		tokens, err := jargon.TokenizeString(synonyms).ToSlice()
 		if err != nil {
 			return err
-- 
2.43.0

