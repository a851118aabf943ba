// Contracts of the command

package xflag "github.com/clipperhouse/flag"
package afero "github.com/spf13/afero"

struct cli.config Fs afero.Fs; HTML bool; Count bool; Lines bool; Filters []jargon.Filter; Filein afero.File; Fileout afero.File; Pipedin bool; Pipedout bool; Reader *bufio.Reader; Writer *bufio.Writer

func trusted fmt.Errorf(format, a)
  ensures ret != nil

// ---- filters

def FLAGS() = store(store(store(store(store(store(noArgs, "-ascii", true), "-contractions", true), "-lemmas", true), "-distinct", true), "-stack", true), "-stem", true)
def STEMMER(lang) = lang == "french" ? fun("stemmer.French") : (lang == "norwegian" ? fun("stemmer.Norwegian") : (lang == "russian" ? fun("stemmer.Russian") : (lang == "spanish" ? fun("stemmer.Spanish") : (lang == "swedish" ? fun("stemmer.Swedish") : fun("stemmer.English")))))
def KNOWN(lang) = lang == "" || lang == "english" || lang == "french" || lang == "norwegian" || lang == "russian" || lang == "spanish" || lang == "swedish"
def FILTERS(lang) = store(store(store(store(store(store(noFuns, "-ascii", fun("ascii.Fold")), "-contractions", fun("contractions.Expand")), "-lemmas", fun("(*jargon.TokenStream).Lemmas")), "-distinct", fun("(*jargon.TokenStream).Distinct")), "-stack", fun("stackoverflow.Tags")), "-stem", STEMMER(lang))
def NAMED(lang, l) = filtersOf(FLAGS(), FILTERS(lang), l)

func soft cli.setFilters(c, args, lang)
  props C20
  requires c != nil
  modifies c.Filters, elems(c.Filters)
  ensures [@exactly the filters named, in order] ret == nil ==> elems(c.Filters) == iapp(old(elems(c.Filters)), NAMED(lang, elems(args)))
  ensures [@an unknown language, and nothing else, is an error] (ret != nil) == (inS("-stem", elems(args)) && !KNOWN(lang))
  loop (i idx) inv iapp(elems(c.Filters), NAMED(lang, elemsFrom(args, i))) == iapp(old(elems(c.Filters)), NAMED(lang, elems(args)))
  loop (i idx) inv KNOWN(lang) || inS("-stem", elemsFrom(args, i)) == inS("-stem", elems(args))

// ---- input and output

ghost fopened(Int) Str
ghost fcreated(Int) Str
ghost infile(Int) Int
ghost outfile(Int) Int
ghost fstat(Int) Int
ghost source(Int) Int
ghost dest(Int) Int
ghost bbuf(Int) Str

func trusted (afero.Fs).Open(fs, name)
  modifies infile(0)
  ensures ret1 == nil ==> ret0 != nil && fresh(ret0) && fopened(ret0) == name && infile(0) == ret0
  ensures ret1 != nil ==> ret0 == nil && errid(ret1) == 0 && infile(0) == old(infile(0))
func trusted (afero.Fs).Create(fs, name)
  modifies outfile(0)
  ensures ret1 == nil ==> ret0 != nil && fresh(ret0) && fcreated(ret0) == name && wrote(ret0) == "" && outfile(0) == ret0
  ensures ret1 != nil ==> ret0 == nil && errid(ret1) == 0 && outfile(0) == old(outfile(0))
func trusted (afero.File).Stat(f)
  ensures ret1 == nil ==> ret0 != nil && fstat(ret0) == f
  ensures ret1 != nil ==> errid(ret1) == 0
func trusted (*os.File).Stat(f)
  ensures ret1 == nil ==> ret0 != nil && fstat(ret0) == f
  ensures ret1 != nil ==> errid(ret1) == 0
func trusted (fs.FileInfo).Mode(fi)
  ensures ret == modeOf(fstat(fi))
func trusted bufio.NewReaderSize(rd, size)
  requires [@there is something to read] rd != nil
  ensures ret != nil && fresh(ret) && source(ret) == rd && content(ret) == content(rd) && rerr(ret) == rerr(rd)
func trusted bufio.NewReader(rd)
  requires [@there is something to read] rd != nil
  ensures ret != nil && fresh(ret) && source(ret) == rd && content(ret) == content(rd) && rerr(ret) == rerr(rd)
func trusted bufio.NewWriterSize(w, size)
  requires [@there is something to write to] w != nil
  ensures ret != nil && fresh(ret) && dest(ret) == w && bbuf(ret) == "" && werr(ret) == nil
func trusted bufio.NewWriter(w)
  requires [@there is something to write to] w != nil
  ensures ret != nil && fresh(ret) && dest(ret) == w && bbuf(ret) == "" && werr(ret) == nil

// a buffered writer: what was accepted is what the destination got and what is still in the buffer; once it
// has failed it keeps failing
def ACC(w) = cat(wrote(dest(w)), bbuf(w))
def BUFFERED(w) = L(wrote(dest(w)), bbuf(w), werr(w))
func trusted (*bufio.Writer).WriteString(w, s)
  requires w != nil
  modifies BUFFERED(w)
  ensures ret1 == werr(w) && (old(werr(w)) != nil ==> werr(w) == old(werr(w)))
  ensures werr(w) == nil ==> ACC(w) == cat(old(ACC(w)), s)
func trusted (*bufio.Writer).WriteRune(w, r)
  requires w != nil
  modifies BUFFERED(w)
  ensures ret1 == werr(w) && (old(werr(w)) != nil ==> werr(w) == old(werr(w)))
  ensures werr(w) == nil ==> ACC(w) == cat(old(ACC(w)), rstr(r))
func trusted (*bufio.Writer).WriteByte(w, c)
  requires w != nil && c < 128
  modifies BUFFERED(w)
  ensures ret == werr(w) && (old(werr(w)) != nil ==> werr(w) == old(werr(w)))
  ensures werr(w) == nil ==> ACC(w) == cat(old(ACC(w)), rstr(c))
func trusted (*bufio.Writer).Flush(w)
  requires w != nil
  modifies BUFFERED(w)
  ensures ret == werr(w) && (old(werr(w)) != nil ==> werr(w) == old(werr(w)))
  ensures werr(w) == nil ==> bbuf(w) == "" && wrote(dest(w)) == old(ACC(w))
func trusted strconv.Itoa(i)
  ensures ret == itoa(i)
  noalloc

def PIPED(mode) = bitand(mode, 2097152) == 0

func soft cli.setInput(c, mode, filein)
  props C22
  requires c != nil && c.Fs != nil && c.Filein == nil
  modifies c.Filein, c.Pipedin, infile(0)
  ensures [@neither is a usage error] filein == "" && !PIPED(mode) ==> ret == global("cli.errNoInput")
  ensures [@only neither is a usage error] filein != "" || PIPED(mode) ==> ret != global("cli.errNoInput")
  ensures [@both are an error] filein != "" && PIPED(mode) ==> ret != nil
  ensures [@piped input] filein == "" && PIPED(mode) ==> ret == nil
  ensures ret == nil ==> c.Pipedin == PIPED(mode)
  ensures [@the named file] ret == nil ==> (c.Filein != nil) == (filein != "") && (c.Filein != nil ==> fopened(c.Filein) == filein && infile(0) == c.Filein)

func soft cli.setOutput(c, fileout)
  props C22
  requires c != nil && c.Fs != nil && c.Fileout == nil
  modifies c.Fileout, c.Pipedout, outfile(0)
  ensures [@standard output unless a file is named] fileout == "" ==> ret == nil && c.Pipedout && c.Fileout == nil
  ensures [@the named file] fileout != "" && ret == nil ==> !c.Pipedout && c.Fileout != nil && fcreated(c.Fileout) == fileout && wrote(c.Fileout) == "" && outfile(0) == c.Fileout

func soft cli.setReader(c)
  props C22
  requires c != nil && c.Pipedin == (c.Filein == nil) && global("os.Stdin") != nil
  modifies c.Reader
  ensures [@reads the file, or else standard input] ret == nil ==> c.Reader != nil && source(c.Reader) == (c.Filein == nil ? global("os.Stdin") : c.Filein)

func soft cli.setWriter(c)
  props C22
  requires c != nil && c.Pipedout == (c.Fileout == nil) && global("os.Stdout") != nil
  modifies c.Writer
  ensures [@a reader is required] c.Reader == nil ==> ret != nil
  ensures [@writes the file, or else standard output] ret == nil ==> c.Writer != nil && dest(c.Writer) == (c.Fileout == nil ? global("os.Stdout") : c.Fileout) && bbuf(c.Writer) == "" && werr(c.Writer) == nil

// ---- execution

def RESULT(c, s, n) = foldF(elems(c.Filters), s, n)
def TEXT(count, lines, l) = (count ? cat(itoa(tlen(l)), "\n") : outText(lines, l))
def ANYSTREAM() = L(all("G:rem"), all("G:fin"), all("G:reads"), all("F:jargon.TokenStream.token"), all("F:jargon.TokenStream.err"))

func soft cli.execute(c)
  props C21
  requires c != nil && nonnil(elems(c.Filters))
  modifies tstream(0), thtml(0), filtercalls(0), ANYSTREAM(), BUFFERED(c.Writer)
  ensures [@a reader and a writer are required] c.Reader == nil || c.Writer == nil ==> ret != nil
  ensures [@HTML exactly if requested] ret == nil ==> thtml(0) == c.HTML && tsource(tstream(0)) == c.Reader
  ensures [@the whole result is written and flushed] ret == nil ==> wrote(dest(c.Writer)) == cat(old(ACC(c.Writer)), TEXT(c.Count, c.Lines, frem(RESULT(c, tstream(0), old(filtercalls(0))))))
  ensures [@an error of the stream makes it fail] ret == nil ==> ffin(RESULT(c, tstream(0), old(filtercalls(0)))) == nil
  ensures [@a write error makes it fail] ret == nil ==> werr(c.Writer) == nil
  ensures [@it fails only because of an error] ret != nil ==> c.Reader == nil || c.Writer == nil || werr(c.Writer) != nil || ffin(RESULT(c, tstream(0), old(filtercalls(0)))) != nil
  loop (o *jargon.TokenStream, i idx) inv foldF(elemsFrom(c.Filters, i), o, filtercalls(0)) == foldF(elems(c.Filters), tstream(0), old(filtercalls(0)))
  loop (o *jargon.TokenStream) inv rem(o) == frem(o) && fin(o) == ffin(o)
  loop (o *jargon.TokenStream) inv o != nil
  loop (i idx) inv nonnil(elemsFrom(c.Filters, i))
  loop (o *jargon.TokenStream) inv werr(c.Writer) == nil ==> cat(ACC(c.Writer), outText(c.Lines, rem(o))) == cat(old(ACC(c.Writer)), outText(c.Lines, frem(o)))
  loop (o *jargon.TokenStream) inv fin(o) == ffin(o)
  loop inv werr(c.Writer) == nil
  loop (o *jargon.TokenStream) variant tlen(rem(o))
  loop (i idx) variant len(c.Filters) - i

// ---- the command as a whole

// flags: the name, and the default, of the flag whose value a variable holds; the kinds of the flags declared
// (1: yes/no, 2: text)
ghost flagname(Int) Str
ghost flagdefB(Int) Bool
ghost flagdefS(Int) Str
ghost flagvar(Int) Int
ghost flagkinds(Int) (Array Str Int)

func trusted xflag.Bool(name, value, usage)
  modifies flagkinds(0)
  ensures ret != nil && fresh(ret) && *ret == value && flagvar(ret) == 1 && flagname(ret) == name && flagdefB(ret) == value
  ensures flagkinds(0) == store(old(flagkinds(0)), name, 1)
func trusted xflag.String(name, value, usage)
  modifies flagkinds(0)
  ensures ret != nil && fresh(ret) && *ret == value && flagvar(ret) == 2 && flagname(ret) == name && flagdefS(ret) == value
  ensures flagkinds(0) == store(old(flagkinds(0)), name, 2)
def KIND(name) = select(flagkinds(0), name)
// parsing ends the program when it finds an error
func trusted xflag.Parse()
  requires [@filters and the other yes/no flags are declared as such] KIND("stack") == 1 && KIND("contractions") == 1 && KIND("ascii") == 1 && KIND("stem") == 1 && KIND("lemmas") == 1 && KIND("distinct") == 1 && KIND("html") == 1 && KIND("count") == 1 && KIND("lines") == 1
  requires [@flags with a value are declared as such] KIND("lang") == 2 && KIND("file") == 2 && KIND("out") == 2
  modifies all("C:bool"), all("C:string")
  ensures forall p Int :: {select(heap("C:bool"), p)} flagvar(p) == 1 ==> select(heap("C:bool"), p) == (flagGiven(flagname(p)) ? flagB(flagname(p)) : flagdefB(p))
  ensures forall p Int :: {select(heap("C:string"), p)} flagvar(p) == 2 ==> select(heap("C:string"), p) == (flagGiven(flagname(p)) ? flagS(flagname(p)) : flagdefS(p))
func trusted afero.NewOsFs()
  ensures ret != nil
func trusted os.Exit(code)
  requires [@a failure is reported in the exit status] code != 0
  option noreturn

pkginv ascii fun("ascii.Fold") != nil
pkginv stemmer fun("stemmer.English") != nil && fun("stemmer.French") != nil && fun("stemmer.Norwegian") != nil && fun("stemmer.Russian") != nil && fun("stemmer.Spanish") != nil && fun("stemmer.Swedish") != nil
theorem init ascii
  props C20
  script init ascii
theorem init stemmer
  props C20
  script init stemmer

def FLAGB(n) = flagGiven(n) && flagB(n)
def FLAGS2(n, d) = flagGiven(n) ? flagS(n) : d
def IN() = FLAGS2("file", "")
def OUT() = FLAGS2("out", "")
def STDIN() = global("os.Stdin")
def STDOUT() = global("os.Stdout")
def RUNS() = !FLAGB("version") && (IN() != "" || PIPED(modeOf(STDIN())))
def MADE() = foldF(NAMED(FLAGS2("lang", "english"), elemsFrom(global("os.Args"), 1)), tstream(0), old(filtercalls(0)))

theorem main
  props C20 C21 C22
  script cli.main()
  requires len(global("os.Args")) >= 1 && STDIN() != nil && STDOUT() != nil
  requires forall p Int :: {flagvar(p)} !fresh(p) ==> flagvar(p) == 0
  ensures [C22@both inputs are an error] RUNS() ==> !(IN() != "" && PIPED(modeOf(STDIN())))
  ensures [C22@the named file is read, or else standard input] RUNS() ==> source(tsource(tstream(0))) == (IN() == "" ? STDIN() : infile(0)) && (IN() != "" ==> fopened(infile(0)) == IN())
  ensures [C21@HTML exactly if requested] RUNS() ==> thtml(0) == FLAGB("html")
  ensures [C20,C21@an error of the stream makes it fail] RUNS() ==> ffin(MADE()) == nil
  ensures [C20,C21,C22@the result of the filters named goes to the output named, or else to standard output] RUNS() && OUT() == "" ==> wrote(STDOUT()) == cat(old(wrote(STDOUT())), TEXT(FLAGB("count"), FLAGB("lines"), frem(MADE())))
  ensures [C20,C21,C22@the result of the filters named is the content of the file named] RUNS() && OUT() != "" ==> fcreated(outfile(0)) == OUT() && wrote(outfile(0)) == TEXT(FLAGB("count"), FLAGB("lines"), frem(MADE()))
