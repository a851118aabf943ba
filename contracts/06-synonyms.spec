// Contracts of package synonyms

// whether a sync.Once was done
ghost oncedone(Int) Bool
zero sync.Once oncedone = false

struct synonyms.filter config *synonyms.config; once sync.Once; err error; trie *trie.RuneTrie; maxWords int
struct synonyms.config mappings map[string]string; ignoreCase bool; ignoreRunes []rune

func trusted sort.Strings(x)
  modifies elems(x)
  ensures elems(x) == sortedL(old(elems(x)))
  noalloc

def ADDALL(t, v, x, ks) = addAll(t.ignoreCase, domset(t.ignore), valmap(t.ignore), v, x, ks)
def ADDSYNS(t, x, cur, skip, l, c) = addSyns(t.ignoreCase, domset(t.ignore), valmap(t.ignore), x, cur, skip, l, c)
def IX0() = mkIX(keys0, terms0, 1)
def IGN(t, ig) = forall r Int :: {dom(t.ignore, r)} (dom(t.ignore, r) && at(t.ignore, r)) == inI(r, ig)

func soft synonyms.updateMaxWords(tokens, maxWords)
  props C17
  requires maxWords != nil && nonnil(elems(tokens))
  modifies *maxWords
  ensures [@the larger of the two] *maxWords == (old(*maxWords) < wcount(mapD(elems(tokens))) ? wcount(mapD(elems(tokens))) : old(*maxWords))
  noalloc
  loop (n acc, i idx) inv n + wcount(mapD(elemsFrom(tokens, i))) == wcount(mapD(elems(tokens)))
  loop (i idx) inv nonnil(elemsFrom(tokens, i))

func soft (*synonyms.filter).build(f)
  props C17
  requires f != nil && f.config != nil
  modifies f.config, f.trie, f.maxWords, all("F:trie.node.children"), all("F:trie.node.hasCanonical"), all("F:trie.node.canonical"), all("MD:rune,*trie.node"), all("MV:rune,*trie.node")
  ensures [@a failure to tokenize a mapping is reported] ret == addErr(sortedOf(mdom(old(f.config.mappings))))
  ensures ret == nil ==> f.trie != nil && fresh(f.trie) && TRIE(f.trie) && TBOUND(f.trie) && f.trie.ignoreCase == old(f.config.ignoreCase) && IGN(f.trie, old(elems(f.config.ignoreRunes)))
  ensures [@every synonym of every mapping is indexed] ret == nil ==> keys(f.trie) == ixS(ADDALL(f.trie, old(valmap(f.config.mappings)), IX0(), sortedOf(mdom(old(f.config.mappings)))))
  ensures [@under the canonical term of its mapping, the last mapping wins] ret == nil ==> terms(f.trie) == ixT(ADDALL(f.trie, old(valmap(f.config.mappings)), IX0(), sortedOf(mdom(old(f.config.mappings)))))
  ensures [@the longest synonym's number of words is known] ret == nil ==> f.maxWords == ixW(ADDALL(f.trie, old(valmap(f.config.mappings)), IX0(), sortedOf(mdom(old(f.config.mappings))))) && f.maxWords >= 1
  loop (ks []string, c iter) inv forall k Str :: {inS(k, elems(ks))} {select(c, k)} inS(k, elems(ks)) == (select(mdom(f.config.mappings), k) && !select(c, k))
  loop (ks []string) inv nodupS(elems(ks))
  loop (c iter) inv forall k Str :: {select(c, k)} select(c, k) ==> select(mdom(f.config.mappings), k)
  loop inv f.config == old(f.config)
  loop (t *trie.RuneTrie) inv TRIE(t) && TBOUND(t)
  loop (w acc) inv w >= 1
  loop (i idx, ks []string) inv allIn(mdom(f.config.mappings), elemsFrom(ks, i))
  loop (i idx, ks []string) inv elems(ks) == sortedOf(mdom(f.config.mappings))
  loop (i idx, ks []string) inv addErr(elemsFrom(ks, i)) == addErr(elems(ks))
  loop (i idx, ks []string) inv addErr(elemsFrom(ks, i + 1)) == addErr(elems(ks))
  loop (t *trie.RuneTrie, w acc, i idx, ks []string) inv ADDALL(t, valmap(f.config.mappings), mkIX(keys(t), terms(t), w), elemsFrom(ks, i)) == ADDALL(t, valmap(f.config.mappings), IX0(), elems(ks))
  loop (t *trie.RuneTrie, w acc, i idx, ks []string, ts []*jargon.Token, j idx, s acc, p bool) inv ADDALL(t, valmap(f.config.mappings), ADDSYNS(t, mkIX(keys(t), terms(t), w), mapD(elemsRange(ts, s, j)), p, mapD(elemsFrom(ts, j)), select(valmap(f.config.mappings), shd(elemsFrom(ks, i)))), elemsFrom(ks, i + 1)) == ADDALL(t, valmap(f.config.mappings), IX0(), elems(ks))
  loop (s acc, j idx) inv s <= j
  loop (s acc) inv 0 <= s
  loop (s acc, j idx, p bool) inv p ==> s == j
  loop (j idx, ts []*jargon.Token) inv nonnil(elemsFrom(ts, j))
  loop (ts []*jargon.Token) inv nonnil(elems(ts))

def SYN(f, l) = syn(keys(f.trie), terms(f.trie), f.trie.ignoreCase, domset(f.trie.ignore), valmap(f.trie.ignore), f.maxWords, l)
def BUILT(f, ic, ig, D, V) = f.trie.ignoreCase == ic && IGN(f.trie, ig) && mkIX(keys(f.trie), terms(f.trie), f.maxWords) == ADDALL(f.trie, V, IX0(), sortedOf(D))

struct synonyms.tokens incoming *jargon.TokenStream; buffer *tokenqueue.TokenQueue; outgoing *tokenqueue.TokenQueue; filter *synonyms.filter

// the tokens a stream has yet to deliver: those released, then the replacement of those held and those to come
def REST(t) = tapp(mapD(Q(t.outgoing)), SYN(t.filter, tapp(mapD(Q(t.buffer)), rem(t.incoming))))
def WELL(t) = t != nil && t.incoming != nil && t.buffer != nil && t.outgoing != nil && t.buffer != t.outgoing && t.filter != nil && t.filter.trie != nil && t.filter.maxWords >= 1
def WELLQ(t) = nonnil(Q(t.buffer)) && nonnil(Q(t.outgoing)) && (arr(t.buffer.Tokens) != arr(t.outgoing.Tokens) || arr(t.buffer.Tokens) == 0)
def FEW(t) = wcount(mapD(Q(t.buffer))) <= t.filter.maxWords

func soft (*synonyms.tokens).fill(t)
  props C16
  requires WELL(t) && WELLQ(t) && FEW(t)
  modifies STREAM(t.incoming), t.buffer.Tokens, elems(t.buffer.Tokens), t.outgoing.Tokens, elems(t.outgoing.Tokens)
  ensures WELLQ(t) && FEW(t)
  ensures [@nothing is lost, repeated or reordered] ret == nil ==> REST(t) == old(REST(t)) && fin(t.incoming) == old(fin(t.incoming))
  ensures [@the error is the source's] ret == nil || ret == old(fin(t.incoming))
  ensures [@a word comes first] ret == nil && len(t.buffer.Tokens) > 0 ==> isWord(thd(mapD(Q(t.buffer))))
  ensures [@enough is read] ret == nil ==> wcount(mapD(Q(t.buffer))) >= t.filter.maxWords || anyP(mapD(Q(t.buffer))) || rem(t.incoming) == tnil
  ensures [@nothing is held at the end only] ret == nil && len(t.buffer.Tokens) == 0 ==> rem(t.incoming) == tnil && fin(t.incoming) == nil
  ensures ret == nil ==> tlen(tapp(mapD(Q(t.buffer)), rem(t.incoming))) <= old(tlen(tapp(mapD(Q(t.buffer)), rem(t.incoming))))
  ensures arr(t.buffer.Tokens) == old(arr(t.buffer.Tokens)) || fresh(t.buffer.Tokens)
  ensures arr(t.outgoing.Tokens) == old(arr(t.outgoing.Tokens)) || fresh(t.outgoing.Tokens)
  loop inv fin(t.incoming) == old(fin(t.incoming))
  loop inv REST(t) == old(REST(t))
  loop inv WELLQ(t)
  loop inv FEW(t)
  loop (i idx) inv tapp(mapD(Q(t.outgoing)), SYN(t.filter, tapp(mapD(elemsFrom(t.buffer.Tokens, i)), rem(t.incoming)))) == old(REST(t))
  loop (d acc, i idx) inv d == i
  loop (n acc, i idx) inv n + wcount(mapD(elemsFrom(t.buffer.Tokens, i))) == wcount(mapD(Q(t.buffer)))
  loop (n acc) inv n == wcount(mapD(Q(t.buffer)))
  loop inv len(t.buffer.Tokens) == 0 || isWord(thd(mapD(Q(t.buffer))))
  loop inv len(t.buffer.Tokens) == 0
  loop inv len(t.buffer.Tokens) == 0 ==> rem(t.incoming) == tnil
  loop inv tlen(tapp(mapD(Q(t.buffer)), rem(t.incoming))) <= old(tlen(tapp(mapD(Q(t.buffer)), rem(t.incoming))))
  loop variant tlen(rem(t.incoming))

func soft (*synonyms.tokens).wordrun(t)
  props C16
  requires WELL(t) && WELLQ(t)
  ensures [@the run of words and spaces] len(t.buffer.Tokens) > 0 && isWord(thd(mapD(Q(t.buffer)))) ==> ret1 == nil && mapD(elems(ret0)) == runOf(t.filter.maxWords, mapD(Q(t.buffer))) && nonnil(elems(ret0)) && len(ret0) <= len(t.buffer.Tokens)
  loop (w acc, i idx) inv runOf(t.filter.maxWords, mapD(Q(t.buffer))) == tapp(mapD(elemsTo(t.buffer.Tokens, i)), runOf(t.filter.maxWords - w, mapD(elemsFrom(t.buffer.Tokens, i))))
  loop (w acc) inv w < t.filter.maxWords
  loop (d acc, i idx) inv d == i
  noalloc

func soft (*synonyms.tokens).next(t)
  props C16
  requires WELL(t) && WELLQ(t) && FEW(t) && TRIE(t.filter.trie) && TBOUND(t.filter.trie)
  modifies STREAM(t.incoming), t.buffer.Tokens, elems(t.buffer.Tokens), t.outgoing.Tokens, elems(t.outgoing.Tokens)
  ensures WELLQ(t) && FEW(t)
  ensures [@the next token] ret1 == nil && ret0 != nil ==> old(REST(t)) == tcons(D(ret0), REST(t)) && fin(t.incoming) == old(fin(t.incoming))
  ensures [@the end] ret1 == nil && ret0 == nil ==> old(REST(t)) == tnil && old(fin(t.incoming)) == nil && REST(t) == tnil && fin(t.incoming) == nil
  ensures [@the error is the source's] ret1 == nil || ret1 == old(fin(t.incoming)) && ret0 == nil
  ensures arr(t.buffer.Tokens) == old(arr(t.buffer.Tokens)) || fresh(t.buffer.Tokens)
  ensures arr(t.outgoing.Tokens) == old(arr(t.outgoing.Tokens)) || fresh(t.outgoing.Tokens)
  loop inv fin(t.incoming) == old(fin(t.incoming))
  loop inv REST(t) == old(REST(t))
  loop inv WELLQ(t)
  loop inv FEW(t)
  loop variant tlen(tapp(mapD(Q(t.buffer)), rem(t.incoming)))

iterator synonyms
  props C16 C17
  script let D := mdom(mappings); let V := valmap(mappings); let G := elems(ignoreRunes); f := synonyms.NewFilter(mappings, ignoreCase, ignoreRunes); w := f(other); shared; s := f(incoming)
  requires incoming != nil && other != nil && other != incoming
  state filt *synonyms.filter
  state buffer *tokenqueue.TokenQueue
  state outgoing *tokenqueue.TokenQueue
  option errearly
  option inline synonyms.NewFilter
  inv filt.err == nil ==> filt.trie != nil && TRIE(filt.trie) && TBOUND(filt.trie) && filt.maxWords >= 1
  inv [@an error in building is kept] filt.err == addErr(sortedOf(D))
  inv [@the index is that of the mappings] filt.err == nil ==> BUILT(filt, ignoreCase, G, D, V)
  inv nonnil(Q(buffer)) && nonnil(Q(outgoing))
  inv arr(buffer.Tokens) != arr(outgoing.Tokens) || arr(buffer.Tokens) == 0
  inv [C18@the words held are at most as many as the longest synonym has] filt.err == nil ==> wcount(mapD(Q(buffer))) <= filt.maxWords
  view filt.err == nil ? tapp(mapD(Q(outgoing)), SYN(filt, tapp(mapD(Q(buffer)), rem(incoming)))) : tnil
  end filt.err == nil ? fin(incoming) : filt.err

iterator synonyms, first use
  props C16 C17
  script let D := mdom(mappings); let V := valmap(mappings); let G := elems(ignoreRunes); f := synonyms.NewFilter(mappings, ignoreCase, ignoreRunes); s := f(incoming)
  requires incoming != nil
  state filt *synonyms.filter
  state buffer *tokenqueue.TokenQueue
  state outgoing *tokenqueue.TokenQueue
  option errearly
  option inline synonyms.NewFilter
  inv filt.err == nil ==> filt.trie != nil && TRIE(filt.trie) && TBOUND(filt.trie) && filt.maxWords >= 1
  inv [@an error in building is kept] filt.err == addErr(sortedOf(D))
  inv [@the index is that of the mappings] filt.err == nil ==> BUILT(filt, ignoreCase, G, D, V)
  inv nonnil(Q(buffer)) && nonnil(Q(outgoing))
  inv arr(buffer.Tokens) != arr(outgoing.Tokens) || arr(buffer.Tokens) == 0
  inv [C18@the words held are at most as many as the longest synonym has] filt.err == nil ==> wcount(mapD(Q(buffer))) <= filt.maxWords
  view filt.err == nil ? tapp(mapD(Q(outgoing)), SYN(filt, tapp(mapD(Q(buffer)), rem(incoming)))) : tnil
  end filt.err == nil ? fin(incoming) : filt.err

// the filter, seen by those who use it: made of the mappings as they are at its first use, and giving no token
// together with an error (both proved by the iterators above)
func abstract synonyms.NewFilter(mappings, ignoreCase, ignoreRunes)
  uses iterator synonyms
  uses iterator synonyms, first use
  ensures ret != nil && fresh(ret)
  ensures cleanF(ret) && fsynD(ret) == domset(mappings) && fsynV(ret) == valmap(mappings) && fsynC(ret) == ignoreCase && fsynG(ret) == elems(ignoreRunes)

// the filters that come with this repository
def TERMS(f, m) = f != nil && cleanF(f) && fsynC(f) && fsynD(f) == domset(m) && fsynV(f) == valmap(m)
pkginv stackoverflow TERMS(fun("stackoverflow.Tags"), global("stackoverflow.mappings"))
pkginv stackoverflow forall r Int :: {inI(r, fsynG(fun("stackoverflow.Tags")))} inI(r, fsynG(fun("stackoverflow.Tags"))) == (r == 32 || r == 45 || r == 46 || r == 47)
pkginv nba TERMS(fun("nba.CurrentPlayers"), global("nba.mappings"))
pkginv nba forall r Int :: {inI(r, fsynG(fun("nba.CurrentPlayers")))} inI(r, fsynG(fun("nba.CurrentPlayers"))) == (r == 32 || r == 39 || r == 45 || r == 46 || r == 8211)
theorem init stackoverflow
  props C24
  script init stackoverflow
theorem init nba
  props C24
  script init nba
