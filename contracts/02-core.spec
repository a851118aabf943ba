// Contracts of package jargon (tokens and streams)

// rem(s): the tokens stream s has yet to deliver; fin(s): the error it ends with (nil: clean end);
// reads(s): how often it was asked
ghost rem(Int) TL
ghost fin(Int) Int
ghost reads(Int) Int
// raw sources: number of calls, last token and error
ghost calls(Int) Int
ghost lastt(Int) Int
ghost laste(Int) Int
// state of a user's predicate; applications of user's filters
ghost pst(Int) Int
ghost filtercalls(Int) Int
// strings.Builder, bytes.Buffer and io.Writer
ghost buf(Int) Str
ghost wrote(Int) Str
ghost werr(Int) Int

struct jargon.TokenStream next func() (*jargon.Token, error); token *jargon.Token; err error

def STREAM(s) = L(rem(s), fin(s), reads(s), s.token, s.err)

// ---- tokens

pkginv jargon forall k Str :: {dom(global("jargon.common"), k)} dom(global("jargon.common"), k) ==> k != "" && at(global("jargon.common"), k) != nil
pkginv jargon forall k Str, b Bool :: {dom(at(global("jargon.common"), k), b)} dom(global("jargon.common"), k) && dom(at(global("jargon.common"), k), b)
    ==> at(at(global("jargon.common"), k), b) != nil && D(at(at(global("jargon.common"), k), b)) == tokOf(k, b)

// the package invariants hold when the package has been initialized
theorem init jargon
  props C03
  script init jargon
  loop (i int, ss []string) inv allNES(elemsFrom(ss, i))

func jargon.NewToken(s, isLemma)
  props C03
  ensures [@the empty string gives no token] s == "" ==> ret == nil
  ensures [@value, punctuation, space and lemma marks are as specified] s != "" ==> ret != nil && D(ret) == tokOf(s, isLemma)
  loop (i iter) inv allP(i) == allP(entry(i))
  loop (i iter) inv allS(i) == allS(entry(i))
  loop (p bool, i iter) inv (p && allP(i)) == (entry(p) && allP(entry(i)))
  loop (p bool, i iter) inv (p && allS(i)) == (entry(p) && allS(entry(i)))
  loop (i iter) inv allR(i)

func trusted unicode.IsPunct(r)
  ensures ret == uPunct(r)
  noalloc
func trusted unicode.IsSpace(r)
  ensures ret == uSpace(r)
  noalloc
func trusted unicode.IsLetter(r)
  ensures ret == uLetter(r)
  noalloc
func trusted unicode.IsNumber(r)
  ensures ret == uNumber(r)
  noalloc
func trusted unicode.IsDigit(r)
  ensures ret == uDigit(r)
  noalloc
func trusted unicode.ToLower(r)
  ensures ret == uLower(r)
  noalloc

// ---- reading streams
// The contract between a stream and its reader. It is what each iterator below establishes for the
// streams this repository makes, and what theorems next and scan carry over to Next and Scan.

func funcval func() (*jargon.Token, error)(f)
  modifies rem(f), fin(f), calls(f), lastt(f), laste(f)
  ensures old(rem(f)) != tnil ==> ret0 != nil && ret1 == nil && old(rem(f)) == tcons(D(ret0), rem(f)) && fin(f) == old(fin(f))
  ensures old(rem(f)) == tnil ==> ret1 == old(fin(f))
  ensures old(rem(f)) == tnil && old(fin(f)) == nil ==> ret0 == nil && rem(f) == tnil && fin(f) == nil
  ensures calls(f) == old(calls(f)) + 1 && lastt(f) == ret0 && laste(f) == ret1

func abstract (*jargon.TokenStream).Next(s)
  uses theorem next
  requires s != nil
  modifies STREAM(s)
  ensures old(rem(s)) != tnil ==> ret0 != nil && ret1 == nil && old(rem(s)) == tcons(D(ret0), rem(s)) && fin(s) == old(fin(s))
  ensures old(rem(s)) == tnil ==> ret1 == old(fin(s))
  ensures cleanS(s) && ret1 != nil ==> ret0 == nil
  ensures old(rem(s)) == tnil && old(fin(s)) == nil ==> ret0 == nil && rem(s) == tnil && fin(s) == nil
  ensures s.token == ret0 && s.err == ret1
  ensures reads(s) == old(reads(s)) + 1

func (*jargon.TokenStream).Scan(s)
  props C04
  requires s != nil
  modifies STREAM(s)
  ensures [@true exactly if there is a token] ret == (old(rem(s)) != tnil)
  ensures [@the token is the next one] ret ==> s.token != nil && s.err == nil && old(rem(s)) == tcons(D(s.token), rem(s)) && fin(s) == old(fin(s))
  ensures [@the error is reported] !ret ==> s.err == old(fin(s))
  ensures [@the end stays the end] !ret && s.err == nil ==> s.token == nil && rem(s) == tnil && fin(s) == nil
  ensures [@one item is consumed] reads(s) == old(reads(s)) + 1

theorem next
  props C04
  script s := jargon.NewTokenStream(f); havoc s.token; havoc s.err; havoc rem(f); havoc fin(f); start; a, b := (*jargon.TokenStream).Next(s); c := (*jargon.TokenStream).Token(s); d := (*jargon.TokenStream).Err(s)
  requires f != nil
  option inline (*jargon.TokenStream).Next
  ensures [@exactly one item of the source is consumed] calls(f) == old(calls(f)) + 1
  ensures [@token and error are the source's] a == lastt(f) && b == laste(f)
  ensures [@current token and error agree with what was returned] c == a && d == b
  ensures [@tokens are delivered in order] old(rem(f)) != tnil ==> a != nil && b == nil && old(rem(f)) == tcons(D(a), rem(f))
  ensures [@the error is delivered] old(rem(f)) == tnil ==> b == old(fin(f))

theorem scan
  props C04
  script s := jargon.NewTokenStream(f); havoc s.token; havoc s.err; havoc rem(f); havoc fin(f); start; r := (*jargon.TokenStream).Scan(s); c := (*jargon.TokenStream).Token(s); d := (*jargon.TokenStream).Err(s)
  requires f != nil
  option inline (*jargon.TokenStream).Next
  ensures [@exactly one item of the source is consumed] calls(f) == old(calls(f)) + 1
  ensures [@current token and error are the source's] c == lastt(f) && d == laste(f)
  ensures [@true exactly if there is a token and no error] r == (c != nil && d == nil)
  ensures [@tokens are delivered in order] old(rem(f)) != tnil ==> r && old(rem(f)) == tcons(D(c), rem(f))
  ensures [@the error is delivered] old(rem(f)) == tnil ==> !r && d == old(fin(f))

// ---- collecting

func (*jargon.TokenStream).ToSlice(s)
  props C05
  requires s != nil
  modifies STREAM(s)
  ensures [@all remaining tokens in order] old(fin(s)) == nil ==> ret1 == nil && mapD(elems(ret0)) == old(rem(s)) && nonnil(elems(ret0))
  ensures [@the stream's error is returned] old(fin(s)) != nil ==> ret1 == old(fin(s)) && len(ret0) == 0
  ensures ret0 == nil || fresh(ret0)
  loop (r []*jargon.Token) inv tapp(mapD(elems(r)), rem(s)) == old(rem(s))
  loop (r []*jargon.Token) inv nonnil(elems(r))
  loop inv fin(s) == old(fin(s))
  loop variant tlen(rem(s))

func (*jargon.TokenStream).String(s)
  props C05
  requires s != nil
  modifies STREAM(s)
  ensures [@the values of all remaining tokens in order] old(fin(s)) == nil ==> ret1 == nil && ret0 == valcat(old(rem(s)))
  ensures [@the stream's error is returned] old(fin(s)) != nil ==> ret1 == old(fin(s)) && ret0 == ""
  loop (b *strings.Builder) inv cat(buf(b), valcat(rem(s))) == valcat(old(rem(s)))
  loop (b *bytes.Buffer) inv cat(buf(b), valcat(rem(s))) == valcat(old(rem(s)))
  loop (b string) inv cat(b, valcat(rem(s))) == valcat(old(rem(s)))
  loop inv fin(s) == old(fin(s))
  loop variant tlen(rem(s))

func (*jargon.TokenStream).Count(s)
  props C05
  requires s != nil
  modifies STREAM(s)
  ensures [@the number of remaining tokens] ret0 == tlen(old(rem(s)))
  ensures [@the stream's error is returned] ret1 == old(fin(s))
  loop (n int) inv n + tlen(rem(s)) == tlen(old(rem(s)))
  loop inv fin(s) == old(fin(s))
  loop variant tlen(rem(s))

func (*jargon.TokenStream).WriteTo(s, w)
  props C05
  requires s != nil && w != nil && werr(w) == nil
  modifies STREAM(s), wrote(w), werr(w)
  ensures [@the number of bytes accepted is returned] ret0 == slen(wrote(w)) - slen(old(wrote(w)))
  ensures [@an error of the writer is returned] werr(w) != nil ==> ret1 == werr(w)
  ensures [@an error of the stream is returned] werr(w) == nil ==> ret1 == old(fin(s))
  ensures [@all remaining tokens are written in order] werr(w) == nil ==> wrote(w) == cat(old(wrote(w)), valcat(old(rem(s))))
  ensures [@what was written before a failure is a beginning of the output] prefix(wrote(w), cat(old(wrote(w)), valcat(old(rem(s)))))
  loop (n int64) inv n == slen(wrote(w)) - slen(old(wrote(w)))
  loop (n int) inv n == slen(wrote(w)) - slen(old(wrote(w)))
  loop inv werr(w) == nil
  loop inv cat(wrote(w), valcat(rem(s))) == cat(old(wrote(w)), valcat(old(rem(s))))
  loop inv fin(s) == old(fin(s))
  loop variant tlen(rem(s))

zero strings.Builder buf = ""
zero bytes.Buffer buf = ""

func trusted (*strings.Builder).WriteString(b, s)
  modifies buf(b)
  ensures buf(b) == cat(old(buf(b)), s) && ret0 == slen(s) && ret1 == nil
func trusted (*strings.Builder).WriteRune(b, r)
  modifies buf(b)
  ensures buf(b) == cat(old(buf(b)), rstr(r)) && ret1 == nil
func trusted (*strings.Builder).String(b)
  ensures ret == buf(b)
  noalloc
func trusted (*strings.Builder).Len(b)
  ensures ret == slen(buf(b))
  noalloc
func trusted (*bytes.Buffer).WriteString(b, s)
  modifies buf(b)
  ensures buf(b) == cat(old(buf(b)), s) && ret0 == slen(s) && ret1 == nil
func trusted (*bytes.Buffer).WriteRune(b, r)
  modifies buf(b)
  ensures buf(b) == cat(old(buf(b)), rstr(r)) && ret1 == nil
func trusted (*bytes.Buffer).String(b)
  ensures ret == buf(b)
  noalloc
func trusted (*bytes.Buffer).Len(b)
  ensures ret == slen(buf(b))
  noalloc

// the documented behaviour of io.Writer; writing again after a failure is not allowed
func trusted (io.Writer).Write(w, p)
  requires [@nothing is written after a failed write] werr(w) == nil
  modifies wrote(w), werr(w)
  ensures 0 <= ret0 && ret0 <= len(p)
  ensures wrote(w) == cat(old(wrote(w)), ssub(bytesOf(p), 0, ret0))
  ensures werr(w) == ret1
  ensures ret1 == nil ==> ret0 == len(p)
func trusted io.WriteString(w, s)
  requires [@nothing is written after a failed write] werr(w) == nil
  modifies wrote(w), werr(w)
  ensures 0 <= ret0 && ret0 <= slen(s)
  ensures wrote(w) == cat(old(wrote(w)), ssub(s, 0, ret0))
  ensures werr(w) == ret1
  ensures ret1 == nil ==> ret0 == slen(s)

// ---- selections

func funcval func(*jargon.Token) bool(f, t)
  requires [@a predicate is only asked about tokens] t != nil
  modifies pst(f)
  ensures ret == pres(f, old(pst(f)), D(t))
  ensures pst(f) == pnext(f, old(pst(f)), D(t))

iterator where
  props C06
  script s := (*jargon.TokenStream).Where(incoming, predicate)
  requires incoming != nil && predicate != nil
  view filtP(predicate, pst(predicate), rem(incoming))
  end fin(incoming)
  lazyview dropP(predicate, pst(predicate), rem(incoming))
  loop variant tlen(rem(incoming))

iterator words
  props C06
  script s := (*jargon.TokenStream).Words(incoming)
  requires incoming != nil
  view wordsOf(rem(incoming))
  end fin(incoming)
  lazyview dropW(rem(incoming))
  loop variant tlen(rem(incoming))

iterator lemmas
  props C06
  script s := (*jargon.TokenStream).Lemmas(incoming)
  requires incoming != nil
  view lemmasOf(rem(incoming))
  end fin(incoming)
  lazyview dropL(rem(incoming))
  loop variant tlen(rem(incoming))

iterator distinct
  props C06
  script s := (*jargon.TokenStream).Distinct(incoming)
  requires incoming != nil
  state seen map[string]bool
  inv [@every remembered value is marked] seen != nil && (forall k Str :: {dom(seen, k)} dom(seen, k) ==> at(seen, k))
  view distinctOf(domset(seen), rem(incoming))
  end fin(incoming)
  lazyview dropD(domset(seen), rem(incoming))
  loop variant tlen(rem(incoming))

// ---- composition

func funcval jargon.Filter(f, incoming)
  modifies filtercalls(0)
  ensures ret == fappl(f, incoming, old(filtercalls(0)))
  ensures ret != nil
  ensures rem(ret) == frem(ret) && fin(ret) == ffin(ret)
  ensures filtercalls(0) == old(filtercalls(0)) + 1

func (*jargon.TokenStream).Filter(s, filters)
  props C07
  requires s != nil && nonnil(elems(filters))
  modifies filtercalls(0)
  ensures [@the last filter applied to ... the first applied to the stream] ret == foldF(old(elems(filters)), s, old(filtercalls(0)))
  ensures [@every filter is applied exactly once] filtercalls(0) == old(filtercalls(0)) + len(filters)
  ensures ret != nil
  ensures rem(s) == frem(s) && fin(s) == ffin(s) ==> rem(ret) == frem(ret) && fin(ret) == ffin(ret)
  loop (o *jargon.TokenStream, i int) inv foldF(elemsFrom(filters, i), o, filtercalls(0)) == foldF(elems(filters), s, old(filtercalls(0)))
  loop (i int) inv filtercalls(0) == old(filtercalls(0)) + i
  loop (i int) inv nonnil(elemsFrom(filters, i))
  loop (o *jargon.TokenStream) inv rem(s) == frem(s) && fin(s) == ffin(s) ==> rem(o) == frem(o) && fin(o) == ffin(o)
