package main

// Bounded checks of execute with failing readers and writers

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
)

type zread struct {
	b   []byte
	err error
}

func (r *zread) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, r.err
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

type zwrite struct {
	b    bytes.Buffer
	left int
}

func (w *zwrite) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		w.b.Write(p[:n])
		return n, errors.New("writer failed")
	}
	w.left -= len(p)
	return w.b.Write(p)
}

func TestVerifC21Execute(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	n := 0
	for i := 0; i < 3000; i++ {
		n++
		in := strings.Repeat("Ruby on Rails, a b\n<b>x</b> ", r.Intn(4)) + []string{"", "x", " ", "<p", "a, b"}[r.Intn(5)]
		if r.Intn(50) == 0 {
			in = strings.Repeat(in, 2000)
		}
		rerr := io.EOF
		if r.Intn(3) == 0 {
			rerr = errors.New("reader failed")
		}
		w := &zwrite{left: 1 << 30}
		c := config{HTML: r.Intn(2) == 0, Count: r.Intn(4) == 0, Lines: r.Intn(2) == 0}
		rsize := 16 + r.Intn(100)
		c.Reader = bufio.NewReaderSize(&zread{[]byte(in), rerr}, rsize)
		// how a text is segmented may depend on how it is delivered
		ref := bufio.NewReaderSize(&zread{[]byte(in), io.EOF}, rsize)
		size := 16 + r.Intn(200)
		var st *jargon.TokenStream
		if c.HTML {
			st = jargon.TokenizeHTML(ref)
		} else {
			st = jargon.Tokenize(ref)
		}
		for _, f := range []jargon.Filter{(*jargon.TokenStream).Words, (*jargon.TokenStream).Distinct} {
			if r.Intn(4) == 0 {
				c.Filters = append(c.Filters, f)
				st = f(st)
			}
		}
		ts, err := st.ToSlice()
		if err != nil {
			continue
		}
		want := ""
		var b strings.Builder
		for _, x := range ts {
			b.WriteString(x.String())
			if c.Lines {
				b.WriteString("\n")
			}
		}
		want = b.String()
		if c.Count {
			want = strconv.Itoa(len(ts)) + "\n"
		}
		if r.Intn(3) == 0 {
			w.left = r.Intn(len(want) + 1)
		}
		fits := w.left >= len(want)
		c.Writer = bufio.NewWriterSize(w, size)
		gerr := execute(&c)
		desc := fmt.Sprintf("execute with html %v, count %v, lines %v, %d filters, input %.200q ending with %v, a writer accepting %v", c.HTML, c.Count, c.Lines, len(c.Filters), in, rerr, fits)
		bad := ""
		switch {
		case rerr != io.EOF || !fits:
			if gerr == nil {
				bad = "succeeds"
			}
		case gerr != nil:
			bad = "fails: " + gerr.Error()
		case w.b.String() != want:
			bad = fmt.Sprintf("writes %.300q, want %.300q", w.b.String(), want)
		}
		if bad != "" {
			fmt.Printf("VERIF-FAIL %s: %s\n", desc, bad)
			t.Fatal(desc + ": " + bad)
		}
	}
	for _, c := range []*config{{}, {Reader: bufio.NewReader(strings.NewReader(""))}, {Writer: bufio.NewWriter(&bytes.Buffer{})}} {
		if execute(c) == nil {
			fmt.Println("VERIF-FAIL execute without a reader or writer succeeds")
			t.Fatal("execute without a reader or writer succeeds")
		}
	}
	fmt.Printf("VERIF-CASES %d runs of execute with failing readers and writers\n", n)
}
