package main

// Bounded checks of the command, run as a program

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"github.com/clipperhouse/jargon"
	"github.com/clipperhouse/jargon/filters/ascii"
	"github.com/clipperhouse/jargon/filters/contractions"
	"github.com/clipperhouse/jargon/filters/stackoverflow"
	"github.com/clipperhouse/jargon/filters/stemmer"
)

type zv struct {
	*testing.T
	*rand.Rand
	n   int
	dir string
	bin string
}

func zstart(t *testing.T) *zv {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	v := &zv{T: t, Rand: rand.New(rand.NewSource(int64(seed)))}
	d, err := ioutil.TempDir("", "verif")
	if err != nil {
		t.Skip(err)
	}
	v.dir = d
	v.bin = filepath.Join(d, "jargon")
	if out, err := exec.Command("go", "build", "-o", v.bin, ".").CombinedOutput(); err != nil {
		os.RemoveAll(d)
		t.Skip(string(out))
	}
	return v
}

func (v *zv) end(note string) {
	os.RemoveAll(v.dir)
	fmt.Printf("VERIF-CASES %d %s\n", v.n, note)
}

func (v *zv) fail(format string, a ...interface{}) {
	v.Helper()
	os.RemoveAll(v.dir)
	fmt.Printf("VERIF-FAIL "+format+"\n", a...)
	v.T.Fatalf(format, a...)
}

func zeffort(n int) int {
	e, _ := strconv.Atoi(os.Getenv("VERIF_EFFORT"))
	if e < 1 {
		e = 1
	}
	if e > 6 {
		e = 6
	}
	return n * e
}

// run gives what the program wrote to standard output, and whether it succeeded
func (v *zv) run(stdin string, args ...string) (string, string, bool) {
	v.n++
	cmd := exec.Command(v.bin, args...)
	cmd.Dir = v.dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if stdin == "\x00none" {
		f, _ := os.Open("/dev/null") // a character device: no piped input
		defer f.Close()
		cmd.Stdin = f
	} else {
		cmd.Stdin = strings.NewReader(stdin)
	}
	err := cmd.Run()
	return out.String(), errb.String(), err == nil
}

var zstems = map[string]jargon.Filter{"english": stemmer.English, "french": stemmer.French, "norwegian": stemmer.Norwegian, "russian": stemmer.Russian, "spanish": stemmer.Spanish, "swedish": stemmer.Swedish}

func zref(in string, args []string) (string, bool) {
	lang := "english"
	html, count, lines := false, false, false
	for i, a := range args {
		switch a {
		case "-lang":
			lang = args[i+1]
		case "-html":
			html = true
		case "-count":
			count = true
		case "-lines":
			lines = true
		}
	}
	st := jargon.TokenizeString(in)
	if html {
		st = jargon.TokenizeHTML(strings.NewReader(in))
	}
	for _, a := range args {
		switch a {
		case "-ascii":
			st = ascii.Fold(st)
		case "-contractions":
			st = contractions.Expand(st)
		case "-stack":
			st = stackoverflow.Tags(st)
		case "-lemmas":
			st = st.Lemmas()
		case "-distinct":
			st = st.Distinct()
		case "-stem":
			f, ok := zstems[lang]
			if lang == "" {
				f, ok = stemmer.English, true
			}
			if !ok {
				return "", false
			}
			st = f(st)
		}
	}
	ts, err := st.ToSlice()
	if err != nil {
		return "", false
	}
	if count {
		return strconv.Itoa(len(ts)) + "\n", true
	}
	var b strings.Builder
	for _, t := range ts {
		b.WriteString(t.String())
		if lines {
			b.WriteString("\n")
		}
	}
	return b.String(), true
}

var ztexts = []string{"", "x", "I'd write Ruby on Rails in a Café; managers DON'T managers.\n", "les chevaux mangeons continuellement", "<p>We’ll <b>run</b> running</p> node.js &amp; <script>var ruby on rails</script> ASP.net", "corriendo los años, husene flickorna бегущий", "a a b a\n\nb  a", "ruby ruby on rails", strings.Repeat("Ruby on Rails café won't ", 5000)}

func (v *zv) text() string { return ztexts[v.Intn(len(ztexts))] }

func (v *zv) compare(in string, args []string) {
	got, msg, ok := v.run(in, args...)
	want, wok := zref(in, args)
	short := in
	if len(short) > 300 {
		short = short[:300] + "..."
	}
	if ok != wok {
		v.fail("jargon %q with input %q: success %v, want %v (%s)", args, short, ok, wok, msg)
	}
	if wok && got != want {
		if len(got) > 600 {
			got = got[:600]
		}
		if len(want) > 600 {
			want = want[:600]
		}
		v.fail("jargon %q with input %q:\n gives %q\n want  %q", args, short, got, want)
	}
}

func TestVerifC20(t *testing.T) {
	v := zstart(t)
	fs := []string{"-ascii", "-contractions", "-lemmas", "-distinct", "-stack", "-stem"}
	langs := []string{"english", "french", "norwegian", "russian", "spanish", "swedish", "german", ""}
	for _, a := range fs {
		for _, in := range ztexts {
			v.compare(in, []string{a, "-lines"})
		}
		for _, b := range fs {
			for _, in := range ztexts[1:5] {
				v.compare(in, []string{a, b, "-lines"})
			}
		}
	}
	for _, l := range langs {
		for _, in := range ztexts[1:6] {
			v.compare(in, []string{"-stem", "-lang", l, "-lines"})
			v.compare(in, []string{"-lang", l, "-stem", "-lines"})
			v.compare(in, []string{"-lang", l})
		}
	}
	for i := zeffort(150); i > 0; i-- {
		var args []string
		for k := v.Intn(6); k > 0; k-- {
			args = append(args, fs[v.Intn(len(fs))])
		}
		if v.Intn(2) == 0 {
			p := v.Intn(len(args) + 1)
			args = append(args[:p:p], append([]string{"-lang", langs[v.Intn(len(langs))]}, args[p:]...)...)
		}
		args = append(args, "-lines")
		v.compare(v.text(), args)
	}
	v.end("runs of the command with lists of filter arguments")
}

func TestVerifC21(t *testing.T) {
	v := zstart(t)
	flags := []string{"-html", "-count", "-lines", "-ascii", "-contractions", "-lemmas", "-distinct", "-stack"}
	for i := zeffort(250); i > 0; i-- {
		var args []string
		for _, f := range flags {
			if v.Intn(3) == 0 {
				args = append(args, f)
			}
		}
		v.compare(v.text(), args)
	}
	// a word that can not be tokenized is a read error; so is a directory
	long := "a b " + strings.Repeat("x", 200000) + " c"
	if _, err := jargon.TokenizeString(long).ToSlice(); err != nil {
		for _, args := range [][]string{{}, {"-lines"}, {"-count"}, {"-stack", "-distinct"}} {
			if out, _, ok := v.run(long, args...); ok {
				v.fail("jargon %q with a word of 200000 characters: succeeds, output of %d bytes", args, len(out))
			}
		}
	}
	for _, args := range [][]string{{}, {"-lines"}, {"-count"}, {"-html"}, {"-html", "-count"}} {
		if _, _, ok := v.run("\x00none", append([]string{"-file", v.dir}, args...)...); ok {
			v.fail("jargon -file DIRECTORY %q succeeds", args)
		}
	}
	// writing fails
	for _, in := range ztexts {
		for _, args := range [][]string{{}, {"-lines"}, {"-count"}, {"-stack"}} {
			want, _ := zref(in, args)
			if want == "" {
				continue
			}
			if _, _, ok := v.run(in, append([]string{"-out", "/dev/full"}, args...)...); ok {
				v.fail("jargon -out /dev/full %q succeeds for an input of %d bytes", args, len(in))
			}
		}
	}
	v.end("runs of the command with output options, and with failing input and output")
}

func TestVerifC22(t *testing.T) {
	v := zstart(t)
	for i, in := range append(ztexts, strings.Repeat("word ", 300000)) {
		f := filepath.Join(v.dir, "in"+strconv.Itoa(i))
		o := filepath.Join(v.dir, "out"+strconv.Itoa(i))
		if err := ioutil.WriteFile(f, []byte(in), 0644); err != nil {
			v.T.Skip(err)
		}
		if got, msg, ok := v.run("\x00none", "-file", f); !ok || got != in {
			v.fail("jargon -file (of %d bytes): success %v (%s), output of %d bytes", len(in), ok, msg, len(got))
		}
		if got, msg, ok := v.run(in); !ok || got != in {
			v.fail("jargon with piped input of %d bytes: success %v (%s), output of %d bytes", len(in), ok, msg, len(got))
		}
		for k, args := range [][]string{{"-out", o}, {"-out", o, "-file", f}, {"-file", f, "-out", o}} {
			stdin := "\x00none"
			if k == 0 {
				stdin = in
			}
			ioutil.WriteFile(o, []byte("old content that is longer than some of the inputs"), 0644)
			got, msg, ok := v.run(stdin, args...)
			b, _ := ioutil.ReadFile(o)
			if !ok || got != "" || string(b) != in {
				v.fail("jargon %q, input of %d bytes: success %v (%s), %d bytes on standard output, %d bytes in the file", args, len(in), ok, msg, len(got), len(b))
			}
		}
		if got, _, ok := v.run(in, "-file", f); ok || got != "" {
			v.fail("jargon -file with piped input of %d bytes: success %v, output %q", len(in), ok, got)
		}
	}
	if got, msg, _ := v.run("\x00none"); got != "" || !strings.Contains(msg, "-file") {
		v.fail("jargon without input: output %q, message %q", got, msg)
	}
	if got, msg, _ := v.run("\x00none", "-out", filepath.Join(v.dir, "never")); got != "" || !strings.Contains(msg, "-file") {
		v.fail("jargon -out without input: output %q, message %q", got, msg)
	}
	if _, _, ok := v.run("\x00none", "-file", filepath.Join(v.dir, "missing")); ok {
		v.fail("jargon -file MISSING succeeds")
	}
	if _, _, ok := v.run("x", "-file", filepath.Join(v.dir, "missing")); ok {
		v.fail("jargon -file MISSING with piped input succeeds")
	}
	if _, _, ok := v.run("x", "-out", filepath.Join(v.dir, "missing", "out")); ok {
		v.fail("jargon -out in a missing directory succeeds")
	}
	v.end("runs of the command with files and pipes")
}
