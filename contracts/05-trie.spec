// Contracts of package trie: the index as a map from keys to canonical terms

package trie "github.com/clipperhouse/jargon/filters/synonyms/trie"

struct trie.RuneTrie root *trie.node; ignore map[rune]bool; ignoreCase bool
struct trie.node children map[rune]*trie.node; hasCanonical bool; canonical string

// the abstract index: which keys are known, and their terms
ghost keys(Int) (Array KL Bool)
ghost terms(Int) (Array KL Str)
// how it is represented: the node of a key (0: none), the key and the index of a node, the node of a children map
ghost nd(Int) (Array KL Int)
ghost nkey(Int) KL
ghost tof(Int) Int
ghost mown(Int) Int

on trie.RuneTrie.root(o, v): nkey(v) := knil; tof(v) := o; nd(o) := store(nd0, knil, v); keys(o) := keys0; terms(o) := terms0
on trie.node.children(o, v): mown(v) := o
on map[rune]*trie.node(m, k, v): nkey(v) := kcons(k, nkey(mown(m))); tof(v) := tof(mown(m)); nd(tof(mown(m))) := store(nd(tof(mown(m))), kcons(k, nkey(mown(m))), v)
on trie.node.hasCanonical(o, v): keys(tof(o)) := store(keys(tof(o)), nkey(o), v)
on trie.node.canonical(o, v): terms(tof(o)) := store(terms(tof(o)), nkey(o), v)

def NODE(t, k) = typed("trie.node", select(nd(t), k))
def CH(n, r) = (n.children != nil && dom(n.children, r) ? at(n.children, r) : 0)
def TNODES(t) = forall k KL :: {select(nd(t), k)} select(nd(t), k) != 0 ==> tof(select(nd(t), k)) == t && nkey(select(nd(t), k)) == k && 0 < select(nd(t), k) && 0 <= NODE(t, k).children && (NODE(t, k).children != nil ==> mown(NODE(t, k).children) == select(nd(t), k))
def TEDGES(t) = forall k KL, r Int :: {select(nd(t), kcons(r, k))} {select(nd(t), k), kcons(r, k)} select(nd(t), kcons(r, k)) == (select(nd(t), k) == 0 ? 0 : CH(NODE(t, k), r))
def TKEYS(t) = forall k KL :: {select(nd(t), k)} {select(keys(t), k)} select(keys(t), k) == (select(nd(t), k) != 0 && NODE(t, k).hasCanonical)
def TTERMS(t) = forall k KL :: {select(keys(t), k)} {select(terms(t), k)} select(keys(t), k) ==> select(terms(t), k) == NODE(t, k).canonical
def TROOT(t) = t.ignore != nil && t.root != nil && select(nd(t), knil) == t.root
// all nodes and their maps are allocated
def TBOUND(t) = forall k KL :: {select(nd(t), k)} select(nd(t), k) != 0 ==> select(nd(t), k) <= mark() && NODE(t, k).children <= mark()
opaque TRIE(t) = TROOT(t) && TNODES(t) && TEDGES(t) && TKEYS(t) && TTERMS(t)
def KEY(t, k, l) = keyT(t.ignoreCase, domset(t.ignore), valmap(t.ignore), k, l)

func trie.New(ignoreCase, ignore)
  props C15
  option reveal TRIE
  ensures ret != nil && fresh(ret)
  ensures TRIE(ret) && TBOUND(ret)
  ensures [@a new index knows nothing] keys(ret) == keys0 && terms(ret) == terms0
  ensures ret.ignoreCase == ignoreCase
  ensures [@exactly the given characters are ignored] forall r Int :: {dom(ret.ignore, r)} ret.ignore != nil && (dom(ret.ignore, r) && at(ret.ignore, r)) == inI(r, elems(ignore))
  loop (m map[rune]bool) inv forall k Int :: {dom(m, k)} dom(m, k) ==> at(m, k)
  loop (m map[rune]bool, i int) inv forall k Int :: {dom(m, k)} {inI(k, elems(ignore))} ((dom(m, k) && at(m, k)) || inI(k, elemsFrom(ignore, i))) == inI(k, elems(ignore))

func (*trie.RuneTrie).Add(t, tokens, canonical)
  props C15
  option reveal TRIE
  requires t != nil && TRIE(t) && TBOUND(t) && nonnil(elems(tokens))
  modifies nd(t), keys(t), terms(t), all("F:trie.node.children"), all("F:trie.node.hasCanonical"), all("F:trie.node.canonical"), all("MD:rune,*trie.node"), all("MV:rune,*trie.node")
  ensures TRIE(t) && TBOUND(t)
  ensures [@the key is known, no other key changes] keys(t) == store(old(keys(t)), KEY(t, knil, mapD(elems(tokens))), true)
  ensures [@the key has the canonical term, no other term changes] terms(t) == store(old(terms(t)), KEY(t, knil, mapD(elems(tokens))), canonical)
  loop inv TROOT(t)
  loop inv TNODES(t)
  loop inv TBOUND(t)
  loop inv TEDGES(t)
  loop inv TKEYS(t)
  loop inv TTERMS(t)
  loop inv keys(t) == old(keys(t)) && terms(t) == old(terms(t))
  loop (n *trie.node) inv n != nil && select(nd(t), nkey(n)) == n && tof(n) == t
  loop (n *trie.node, i idx) inv KEY(t, nkey(n), mapD(elemsFrom(tokens, i))) == KEY(t, knil, mapD(elems(tokens)))
  loop (n *trie.node, i idx, c iter) inv KEY(t, keyR(t.ignoreCase, domset(t.ignore), valmap(t.ignore), nkey(n), c), mapD(elemsFrom(tokens, i + 1))) == KEY(t, knil, mapD(elems(tokens)))
  loop (i idx) inv nonnil(elemsFrom(tokens, i))

def SRCH(t, k, l, i, b, m) = srch(keys(t), t.ignoreCase, domset(t.ignore), valmap(t.ignore), k, l, i, b, m)
def SRCHAT(t, k, l, i, b, m) = srchAt(keys(t), t.ignoreCase, domset(t.ignore), valmap(t.ignore), k, l, i, b, m)
def SRCHK(t, k, l, i, b, m) = srchK(keys(t), t.ignoreCase, domset(t.ignore), valmap(t.ignore), k, l, i, b, m)
def SRCHKAT(t, k, l, i, b, m) = srchKAt(keys(t), t.ignoreCase, domset(t.ignore), valmap(t.ignore), k, l, i, b, m)
def KEYR(t, k, c) = keyR(t.ignoreCase, domset(t.ignore), valmap(t.ignore), k, c)
def MK(m) = (m == nil ? knil : nkey(m))

func (*trie.RuneTrie).SearchCanonical(t, tokens)
  props C15
  option reveal TRIE
  requires t != nil && TRIE(t) && TBOUND(t) && nonnil(elems(tokens))
  ensures [@consumes the shortest prefix with the longest known key] ret2 == SRCH(t, knil, mapD(elems(tokens)), 0, 0, knil)
  ensures [@found exactly if some prefix is known] ret0 == (ret2 != 0)
  ensures [@the term of the longest known key] ret0 ==> ret1 == select(terms(t), SRCHK(t, knil, mapD(elems(tokens)), 0, 0, knil))
  loop inv closed(nd(t), keys(t))
  loop (n *trie.node) inv n != nil && select(nd(t), nkey(n)) == n && tof(n) == t
  loop (m *trie.node) inv m != nil ==> select(nd(t), nkey(m)) == m && tof(m) == t
  loop (i idx) inv nonnil(elemsFrom(tokens, i))
  loop (b acc, m *trie.node) inv (m == nil) == (b == 0)
  loop (b acc, i idx) inv b <= i
  loop (b acc) inv 0 <= b
  loop (b acc, f bool) inv f == (b != 0)
  loop (m *trie.node, s string) inv m != nil ==> s == select(terms(t), nkey(m))
  loop (n *trie.node, i idx, b acc, m *trie.node) inv SRCH(t, nkey(n), mapD(elemsFrom(tokens, i)), i, b, MK(m)) == SRCH(t, knil, mapD(elems(tokens)), 0, 0, knil)
  loop (n *trie.node, i idx, b acc, m *trie.node) inv SRCHK(t, nkey(n), mapD(elemsFrom(tokens, i)), i, b, MK(m)) == SRCHK(t, knil, mapD(elems(tokens)), 0, 0, knil)
  loop (n *trie.node, i idx, b acc, m *trie.node, c iter) inv SRCHAT(t, KEYR(t, nkey(n), c), mapD(elemsFrom(tokens, i + 1)), i, b, MK(m)) == SRCH(t, knil, mapD(elems(tokens)), 0, 0, knil)
  loop (n *trie.node, i idx, b acc, m *trie.node, c iter) inv SRCHKAT(t, KEYR(t, nkey(n), c), mapD(elemsFrom(tokens, i + 1)), i, b, MK(m)) == SRCHK(t, knil, mapD(elems(tokens)), 0, 0, knil)
