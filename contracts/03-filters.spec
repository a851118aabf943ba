// Contracts of the filters

// a user's mapping function may depend on, and change, the user's state pst(0)
func funcval func(*jargon.Token) *jargon.Token(f, t)
  requires [@a mapping function is only given tokens] t != nil
  modifies pst(0)
  ensures ret != nil
  ensures D(ret) == mres(f, old(pst(0)), D(t))
  ensures pst(0) == mnext(f, old(pst(0)), D(t))

iterator mapper
  props C09
  script f := mapper.NewFilter(funcs); let fs := elems(funcs); shared; s := f(incoming)
  requires incoming != nil && nonnil(elems(funcs))
  view mapAll(fs, pst(0), rem(incoming))
  end fin(incoming)
  lazyview dropOne(rem(incoming))
  loop (i int, t *jargon.Token) inv t != nil && mapF(elemsFrom(funcs, i), pst(0), D(t)) == mapF(fs, old(pst(0)), entry(D(t)))
  loop (i int, t *jargon.Token) inv mapS(elemsFrom(funcs, i), pst(0), D(t)) == mapS(fs, old(pst(0)), entry(D(t)))

// ---- normal forms
func trusted (xnorm.Form).IsNormalString(f, s)
  ensures ret == isNorm(f, s)
  noalloc
func trusted (xnorm.Form).String(f, s)
  ensures ret == normOf(f, s)
  noalloc

iterator NFC
  props C11
  script f := global norm.NFC; shared; s := f(incoming)
  requires incoming != nil
  view normAll(0, rem(incoming))
  end fin(incoming)
  lazyview dropOne(rem(incoming))

iterator NFD
  props C11
  script f := global norm.NFD; shared; s := f(incoming)
  requires incoming != nil
  view normAll(1, rem(incoming))
  end fin(incoming)
  lazyview dropOne(rem(incoming))

iterator NFKC
  props C11
  script f := global norm.NFKC; shared; s := f(incoming)
  requires incoming != nil
  view normAll(2, rem(incoming))
  end fin(incoming)
  lazyview dropOne(rem(incoming))

iterator NFKD
  props C11
  script f := global norm.NFKD; shared; s := f(incoming)
  requires incoming != nil
  view normAll(3, rem(incoming))
  end fin(incoming)
  lazyview dropOne(rem(incoming))

// ---- stems
func trusted english.Stem(word, stemStopWords)
  ensures ret == stemOf(1, word, stemStopWords)
  noalloc

iterator English
  props C11
  script f := global stemmer.English; shared; s := f(incoming)
  requires incoming != nil
  view stemAll(1, rem(incoming))
  end fin(incoming)
  lazyview dropOne(rem(incoming))

func trusted french.Stem(word, stemStopWords)
  ensures ret == stemOf(2, word, stemStopWords)
  noalloc

iterator French
  props C11
  script f := global stemmer.French; shared; s := f(incoming)
  requires incoming != nil
  view stemAll(2, rem(incoming))
  end fin(incoming)
  lazyview dropOne(rem(incoming))

func trusted norwegian.Stem(word, stemStopWords)
  ensures ret == stemOf(3, word, stemStopWords)
  noalloc

iterator Norwegian
  props C11
  script f := global stemmer.Norwegian; shared; s := f(incoming)
  requires incoming != nil
  view stemAll(3, rem(incoming))
  end fin(incoming)
  lazyview dropOne(rem(incoming))

func trusted russian.Stem(word, stemStopWords)
  ensures ret == stemOf(4, word, stemStopWords)
  noalloc

iterator Russian
  props C11
  script f := global stemmer.Russian; shared; s := f(incoming)
  requires incoming != nil
  view stemAll(4, rem(incoming))
  end fin(incoming)
  lazyview dropOne(rem(incoming))

func trusted spanish.Stem(word, stemStopWords)
  ensures ret == stemOf(5, word, stemStopWords)
  noalloc

iterator Spanish
  props C11
  script f := global stemmer.Spanish; shared; s := f(incoming)
  requires incoming != nil
  view stemAll(5, rem(incoming))
  end fin(incoming)
  lazyview dropOne(rem(incoming))

func trusted swedish.Stem(word, stemStopWords)
  ensures ret == stemOf(6, word, stemStopWords)
  noalloc

iterator Swedish
  props C11
  script f := global stemmer.Swedish; shared; s := f(incoming)
  requires incoming != nil
  view stemAll(6, rem(incoming))
  end fin(incoming)
  lazyview dropOne(rem(incoming))

// ---- stop words
func trusted strings.ToLower(s)
  ensures ret == lower(s)
  noalloc

iterator stopwords
  props C12
  script f := stopwords.NewFilter(stopwords, ignoreCase); let w := elems(stopwords); shared; s := f(incoming)
  requires incoming != nil
  state includes map[string]bool
  inv [@exactly the stop words are in the table] includes != nil && (forall k Str :: {dom(includes, k)} (dom(includes, k) && at(includes, k)) == stopped(ignoreCase, w, k))
  inv [@every entry of the table is marked] forall k Str :: {dom(includes, k)} dom(includes, k) ==> at(includes, k)
  loop (m map[string]bool) inv forall k Str :: {dom(m, k)} dom(m, k) ==> at(m, k)
  view unstopped(ignoreCase, w, rem(incoming))
  end fin(incoming)
  lazyview dropStopped(ignoreCase, w, rem(incoming))
  loop (m map[string]bool, i int) inv forall k Str :: {dom(m, k)} {stopped(ignoreCase, elems(stopwords), k)} ((dom(m, k) && at(m, k)) || stopped(ignoreCase, elemsFrom(stopwords, i), k)) == stopped(ignoreCase, elems(stopwords), k)
  loop variant tlen(rem(incoming))

// ---- sigils
func funcval func(string) bool(f, s)
  ensures ret == legalP(f, s)

iterator sigil
  props C14
  script f := sigil.NewFilter(sigil, legal); shared; s := f(incoming)
  requires incoming != nil && legal != nil && sigil != ""
  state previous *jargon.Token
  state q *tokenqueue.TokenQueue
  option errearly
  inv nonnil(Q(q))
  inv [@at most one token is read ahead] ilen(Q(q)) <= 1
  view sig(legal, sigil, previous == nil || nonword(D(previous)), tapp(mapD(Q(q)), rem(incoming)))
  end fin(incoming)

func trusted utf8.RuneCountInString(s)
  ensures ret == ilen(runes(s))
  noalloc
func trusted utf8.DecodeRuneInString(s)
  ensures runes(s) != inil ==> ret0 == ihd(runes(s))
  noalloc

func soft twitter.legalHandle(s)
  ensures [@a legal handle is at most 15 ASCII letters, digits or underscores] ret == legalHandle(runes(s))
  loop (i iter) inv allHR(i) == allHR(entry(i))
  loop (i iter) inv allTR(i) == allTR(entry(i))
  loop (n int, i iter) inv n + ilen(i) == ilen(entry(i))
  loop (n int) inv n <= 15
  loop (p bool, i iter) inv (p && allHR(i)) == (entry(p) && allHR(entry(i)))
  loop (p bool, i iter) inv (p && allTR(i)) == (entry(p) && allTR(entry(i)))
  loop (i iter) inv allR(i)

func soft twitter.legalHashtag(s)
  ensures [@a legal hashtag is all letters, numbers or underscores; one character must be a letter] ret == legalTag(runes(s))
  loop (i iter) inv allHR(i) == allHR(entry(i))
  loop (i iter) inv allTR(i) == allTR(entry(i))
  loop (n int, i iter) inv n + ilen(i) == ilen(entry(i))
  loop (n int) inv n <= 15
  loop (p bool, i iter) inv (p && allHR(i)) == (entry(p) && allHR(entry(i)))
  loop (p bool, i iter) inv (p && allTR(i)) == (entry(p) && allTR(entry(i)))
  loop (i iter) inv allR(i)

iterator Handles
  props C14
  script f := global twitter.Handles; shared; s := f(incoming)
  requires incoming != nil
  state previous *jargon.Token
  state q *tokenqueue.TokenQueue
  option errearly
  inv nonnil(Q(q))
  inv [@at most one token is read ahead] ilen(Q(q)) <= 1
  view sig(-1, "@", previous == nil || nonword(D(previous)), tapp(mapD(Q(q)), rem(incoming)))
  end fin(incoming)
  loop (i iter) inv allHR(i) == allHR(entry(i))
  loop (i iter) inv allTR(i) == allTR(entry(i))
  loop (n int, i iter) inv n + ilen(i) == ilen(entry(i))
  loop (n int) inv n <= 15
  loop (p bool, i iter) inv (p && allHR(i)) == (entry(p) && allHR(entry(i)))
  loop (p bool, i iter) inv (p && allTR(i)) == (entry(p) && allTR(entry(i)))
  loop (i iter) inv allR(i)

iterator Hashtags
  props C14
  script f := global twitter.Hashtags; shared; s := f(incoming)
  requires incoming != nil
  state previous *jargon.Token
  state q *tokenqueue.TokenQueue
  option errearly
  inv nonnil(Q(q))
  inv [@at most one token is read ahead] ilen(Q(q)) <= 1
  view sig(-2, "#", previous == nil || nonword(D(previous)), tapp(mapD(Q(q)), rem(incoming)))
  end fin(incoming)
  loop (i iter) inv allHR(i) == allHR(entry(i))
  loop (i iter) inv allTR(i) == allTR(entry(i))
  loop (n int, i iter) inv n + ilen(i) == ilen(entry(i))
  loop (n int) inv n <= 15
  loop (p bool, i iter) inv (p && allHR(i)) == (entry(p) && allHR(entry(i)))
  loop (p bool, i iter) inv (p && allTR(i)) == (entry(p) && allTR(entry(i)))
  loop (i iter) inv allR(i)

// ---- contractions
pkginv contractions global("contractions.mappings") != nil
pkginv contractions forall k Str :: {dom(global("contractions.mappings"), k)} dom(global("contractions.mappings"), k) ==> slen(at(global("contractions.mappings"), k)) < 60000
theorem init contractions
  props C13
  script init contractions
  option contraction table

iterator contractions
  props C13
  script s := contractions.Expand(incoming)
  requires incoming != nil
  state q *tokenqueue.TokenQueue
  inv nonnil(Q(q))
  loop (i int, ts []*jargon.Token) inv tapp(mapD(Q(q)), lemmatize(mapD(elemsFrom(ts, i)))) == tapp(entry(mapD(Q(q))), lemmatize(mapD(elems(ts))))
  loop (i int, ts []*jargon.Token) inv nonnil(elemsFrom(ts, i)) && allNE(mapD(elemsFrom(ts, i)))
  loop (i int, ts []*jargon.Token) inv mapD(elems(ts)) == entry(mapD(elems(ts)))
  view tapp(mapD(Q(q)), expAll(domset(global("contractions.mappings")), valmap(global("contractions.mappings")), rem(incoming)))
  end fin(incoming)
  lazyview len(q.Tokens) > 0 ? rem(incoming) : dropOne(rem(incoming))
