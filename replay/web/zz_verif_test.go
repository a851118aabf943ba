package main

import (
	"errors"
	"fmt"
	"html"
	"io"
	"io/ioutil"
	"log"
	"math/rand"
	"net/http/httptest"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
)

type zbody struct {
	r   io.Reader
	err error
}

func (b *zbody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = b.err
	}
	return n, err
}
func (b *zbody) Close() error { return nil }

func TestVerifC23(t *testing.T) {
	log.SetOutput(ioutil.Discard)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	e, _ := strconv.Atoi(os.Getenv("VERIF_EFFORT"))
	if e < 1 {
		e = 1
	}
	r := rand.New(rand.NewSource(int64(seed)))
	n := 0
	fail := func(format string, a ...interface{}) {
		t.Helper()
		fmt.Printf("VERIF-FAIL "+format+"\n", a...)
		t.Fatalf(format, a...)
	}
	words := []string{"ruby on rails", "Ruby", " ", "\n", "x", "node.js", "<b>", "</b>", "<script>", "a<b", "</script>", "&amp;", "\"", "'", "+", "C++", "<!-- c -->", "HTML 5", ", ", "&", "<p class=\"x\">", "日本", "react native"}
	routes := []string{"/text", "/html", "/text/", "/html/x", "/", "", "/texts", "/Text", "/x/text", "//text", "/htm"}
	for i := 0; i < 600*e; i++ {
		n++
		var b strings.Builder
		for k := r.Intn(12); k > 0; k-- {
			b.WriteString(words[r.Intn(len(words))])
		}
		body := b.String()
		route := routes[r.Intn(len(routes))]
		if r.Intn(2) == 0 {
			route = routes[r.Intn(2)]
		}
		rerr := io.EOF
		if r.Intn(5) == 0 {
			rerr = errors.New("body failed")
		}
		req := httptest.NewRequest("POST", "/", nil)
		req.URL.Path = route
		req.Body = &zbody{strings.NewReader(body), rerr}
		w := httptest.NewRecorder()
		mainHandler(w, req)
		got := w.Body.String()
		p := strings.Split(route, "/")
		var st *jargon.TokenStream
		if len(p) > 1 && p[1] == "text" {
			st = jargon.TokenizeString(body)
		} else if len(p) > 1 && p[1] == "html" {
			st = jargon.TokenizeHTML(strings.NewReader(body))
		}
		if st == nil {
			if w.Code != 404 {
				fail("route %q: status %d", route, w.Code)
			}
			continue
		}
		if rerr != io.EOF {
			if w.Code != 500 {
				fail("route %q, body %q whose reading fails: status %d", route, body, w.Code)
			}
			continue
		}
		ts, err := stackoverflow.Tags(st).ToSlice()
		if err != nil {
			continue
		}
		want := ""
		for _, x := range ts {
			s := esc(x.String())
			if x.IsLemma() {
				s = `<span class="lemma">` + s + `</span>`
			}
			want += s
		}
		if w.Code != 200 || got != want {
			fail("route %q, body %q: status %d\n gives %q\n want  %q", route, body, w.Code, got, want)
		}
	}
	fmt.Printf("VERIF-CASES %d requests\n", n)
}

func esc(s string) string {
	return strings.Replace(html.EscapeString(s), "+", "&#43;", -1)
}
