// Contracts of the tokenizers

// readers: what they will deliver, and the error they end with (nil: io.EOF)
ghost content(Int) Str
ghost rerr(Int) Int
// how a reader delivers its content in pieces (0: as much as is asked for)
ghost delivery(Int) Int
// scanners of package uax29
ghost screm(Int) SL
ghost scfin(Int) Int
ghost sctext(Int) Str

func trusted strings.NewReader(s)
  ensures ret != nil && fresh(ret) && content(ret) == s && rerr(ret) == nil && delivery(ret) == 0
func trusted bytes.NewReader(b)
  ensures ret != nil && fresh(ret) && content(ret) == bytesOf(b) && rerr(ret) == nil && delivery(ret) == 0
func trusted bytes.NewBufferString(s)
  ensures ret != nil && fresh(ret) && content(ret) == s && buf(ret) == s && rerr(ret) == nil && delivery(ret) == 0
func trusted words.NewScanner(r)
  requires [@the scanner reads a reader] r != nil
  ensures ret != nil && fresh(ret) && screm(ret) == segsOf(content(r), delivery(r)) && scfin(ret) == segErr(content(r), rerr(r), delivery(r))
func trusted (*iterators.Scanner).Scan(sc)
  requires sc != nil
  modifies screm(sc), sctext(sc)
  ensures old(screm(sc)) == snil ==> !ret && screm(sc) == snil
  ensures old(screm(sc)) != snil ==> ret && old(screm(sc)) == scons(sctext(sc), screm(sc))
func trusted (*iterators.Scanner).Text(sc)
  requires sc != nil
  ensures ret == sctext(sc)
  noalloc
func trusted (*iterators.Scanner).Err(sc)
  requires sc != nil
  ensures screm(sc) == snil ==> ret == scfin(sc)
  ensures screm(sc) != snil ==> ret == nil
  noalloc

iterator tokenize
  props C01
  script s := jargon.Tokenize(r)
  requires r != nil
  state sc *iterators.Scanner
  inv allNES(screm(sc))
  view segToks(screm(sc))
  end scfin(sc)
  made [@the tokens' values are exactly the text read] scfin(sc) == nil ==> valcat(segToks(screm(sc))) == content(r) && rerr(r) == nil
  made [@before an error the tokens' values are a beginning of the text] prefix(valcat(segToks(screm(sc))), content(r))
  made [@a read error ends the stream with an error] rerr(r) != nil ==> scfin(sc) != nil
  post [@no token is empty] tok != nil ==> tval(D(tok)) != ""

iterator tokenizestring
  props C01
  script s := jargon.TokenizeString(str)
  option inline jargon.Tokenize
  state sc *iterators.Scanner
  inv allNES(screm(sc))
  view segToks(screm(sc))
  end scfin(sc)
  made [@the tokens of the string] segToks(screm(sc)) == toksOf(str) && scfin(sc) == tokErr(str)
  made [@the tokens' values are exactly the string] scfin(sc) == nil ==> valcat(segToks(screm(sc))) == str

// the tokenizers, seen by their callers; frem and ffin are the tokens and the error of a stream not yet read;
// tstream is the last stream made, thtml whether it is one of HTML, tsource what it reads
ghost tstream(Int) Int
ghost thtml(Int) Bool
ghost tsource(Int) Int

func abstract jargon.Tokenize(r)
  uses iterator tokenize
  requires [@the tokenizer reads a reader] r != nil
  modifies tstream(0), thtml(0)
  ensures ret != nil && fresh(ret)
  ensures rem(ret) == segToks(segsOf(content(r), delivery(r))) && fin(ret) == segErr(content(r), rerr(r), delivery(r))
  ensures frem(ret) == rem(ret) && ffin(ret) == fin(ret)
  ensures tstream(0) == ret && !thtml(0) && tsource(ret) == r

func abstract jargon.TokenizeHTML(r)
  uses iterator tokenizehtml
  requires [@the tokenizer reads a reader] r != nil
  modifies tstream(0), thtml(0)
  ensures ret != nil && fresh(ret)
  ensures rerr(r) == nil ==> rem(ret) == hview(0, hToks(content(r)), hLeft(content(r))) && fin(ret) == hend(0, hToks(content(r)), 0)
  ensures rerr(r) != nil ==> fin(ret) == hend(0, hToks(content(r)), rerr(r))
  ensures frem(ret) == rem(ret) && ffin(ret) == fin(ret)
  ensures tstream(0) == ret && thtml(0) && tsource(ret) == r
func abstract jargon.TokenizeString(s)
  uses iterator tokenizestring
  ensures ret != nil && fresh(ret)
  ensures rem(ret) == toksOf(s) && fin(ret) == tokErr(s)

// package html: the tokens still to come; what is left over at the end; the error it ends with
ghost hrem(Int) HL
ghost hleft(Int) Str
ghost hfin(Int) Int
// current token: original text, type, atom
ghost hcur(Int) Str
ghost hct(Int) Int
ghost hca(Int) Int

func trusted xhtml.NewTokenizer(r)
  requires [@the tokenizer reads a reader] r != nil
  ensures ret != nil && fresh(ret) && hrem(ret) == hToks(content(r)) && hleft(ret) == hLeft(content(r))
  ensures rerr(r) == nil ==> hfin(ret) == global("io.EOF")
  ensures rerr(r) != nil ==> hfin(ret) == rerr(r) && rerr(r) != global("io.EOF")
func trusted (*xhtml.Tokenizer).Next(z)
  requires z != nil
  modifies hrem(z), hleft(z), hcur(z), hct(z), hca(z)
  ensures old(hrem(z)) == hnil ==> ret == 0 && hrem(z) == hnil && hcur(z) == old(hleft(z)) && hleft(z) == ""
  ensures old(hrem(z)) != hnil ==> old(hrem(z)) == hcons(hct(z), hcur(z), hca(z), hrem(z)) && ret == hct(z) && hleft(z) == old(hleft(z))
func trusted (*xhtml.Tokenizer).Raw(z)
  requires z != nil
  ensures bytesOf(ret) == hcur(z)
func trusted (*xhtml.Tokenizer).Err(z)
  requires z != nil
  ensures ret == hfin(z)
  noalloc
func trusted (*xhtml.Tokenizer).Token(z)
  requires z != nil
  modifies hcur(z)
  ensures ret.Type == hct(z) && ret.DataAtom == hca(z)

iterator tokenizehtml
  props C02
  script s := jargon.TokenizeHTML(r)
  requires r != nil
  state z *xhtml.Tokenizer
  state text *jargon.TokenStream
  state parent atom.Atom
  inv allHT(hrem(z))
  inv text != nil ==> allNE(rem(text)) && owned(text)
  option errtok
  view (text == nil ? hview(parent, hrem(z), hfin(z) == global("io.EOF") ? hleft(z) : "") : (fin(text) == nil ? tapp(rem(text), hview(parent, hrem(z), hfin(z) == global("io.EOF") ? hleft(z) : "")) : rem(text)))
  end (text != nil && fin(text) != nil ? fin(text) : hend(parent, hrem(z), hfin(z) == global("io.EOF") ? 0 : hfin(z)))
  made [@the tokens' values are exactly the document] rerr(r) == nil && hend(parent, hrem(z), 0) == nil ==> text == nil && valcat(hview(parent, hrem(z), hleft(z))) == content(r)
  made [@a read error ends the stream with an error] rerr(r) != nil ==> hend(parent, hrem(z), hfin(z)) != nil
