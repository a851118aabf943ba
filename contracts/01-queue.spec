// Contracts of package tokenqueue
package jargon "github.com/clipperhouse/jargon"
package cli "github.com/clipperhouse/jargon/cmd/jargon"
package web "github.com/clipperhouse/jargon/web"
package xnorm "golang.org/x/text/unicode/norm"
package xhtml "golang.org/x/net/html"

def Q(q) = elems(q.Tokens)

func tokenqueue.New(tokens)
  props C08
  ensures ret != nil && fresh(ret)
  ensures [@a new queue holds the given tokens] Q(ret) == old(elems(tokens))
  ensures ret.Tokens == tokens
  ensures cap(ret.Tokens) == cap(tokens)

func (*tokenqueue.TokenQueue).Any(q)
  props C08
  requires q != nil
  ensures [@any iff not empty] ret == (len(q.Tokens) > 0)
  noalloc

func (*tokenqueue.TokenQueue).Len(q)
  props C08
  requires q != nil
  ensures [@length] ret == len(q.Tokens)
  noalloc

func (*tokenqueue.TokenQueue).Pop(q)
  props C08
  requires q != nil
  requires len(q.Tokens) > 0
  modifies q.Tokens, elems(q.Tokens)
  ensures [@pop returns the first] old(Q(q)) == icons(ret, Q(q))
  ensures arr(q.Tokens) == old(arr(q.Tokens)) || fresh(q.Tokens)
  ensures len(q.Tokens) == old(len(q.Tokens)) - 1

func (*tokenqueue.TokenQueue).Push(q, tokens)
  props C08
  requires q != nil
  modifies q.Tokens, elems(q.Tokens)
  ensures [@push appends at the end] Q(q) == iapp(old(Q(q)), old(elems(tokens)))
  ensures arr(q.Tokens) == old(arr(q.Tokens)) || fresh(q.Tokens)
  ensures len(q.Tokens) == old(len(q.Tokens)) + len(tokens)

func (*tokenqueue.TokenQueue).Drop(q, n)
  props C08
  requires q != nil
  requires 0 <= n && n <= len(q.Tokens)
  modifies q.Tokens, elems(q.Tokens)
  ensures [@drop removes the first n] old(Q(q)) == iapp(old(elemsTo(q.Tokens, n)), Q(q)) && Q(q) == old(elemsFrom(q.Tokens, n))
  ensures arr(q.Tokens) == old(arr(q.Tokens)) || fresh(q.Tokens)
  ensures len(q.Tokens) == old(len(q.Tokens)) - n

func (*tokenqueue.TokenQueue).Clear(q)
  props C08
  requires q != nil
  modifies q.Tokens, elems(q.Tokens)
  ensures [@clear empties] Q(q) == inil
  ensures arr(q.Tokens) == old(arr(q.Tokens)) || arr(q.Tokens) == 0 || fresh(q.Tokens)
  ensures len(q.Tokens) == 0

func (*tokenqueue.TokenQueue).PopTo(q, dst)
  props C08
  requires q != nil && dst != nil && q != dst
  requires len(q.Tokens) > 0
  requires arr(q.Tokens) != arr(dst.Tokens)
  modifies q.Tokens, elems(q.Tokens), dst.Tokens, elems(dst.Tokens)
  ensures [@moves the first token] old(Q(q)) == icons(ihd(old(Q(q))), Q(q)) && Q(dst) == iapp(old(Q(dst)), icons(ihd(old(Q(q))), inil))
  ensures arr(q.Tokens) == old(arr(q.Tokens)) || fresh(q.Tokens)
  ensures arr(dst.Tokens) == old(arr(dst.Tokens)) || fresh(dst.Tokens)
  ensures len(q.Tokens) == old(len(q.Tokens)) - 1
  ensures len(dst.Tokens) == old(len(dst.Tokens)) + 1
  ensures arr(q.Tokens) != arr(dst.Tokens)

func (*tokenqueue.TokenQueue).FlushTo(q, dst)
  props C08
  requires q != nil && dst != nil && q != dst
  requires arr(q.Tokens) != arr(dst.Tokens) || arr(q.Tokens) == 0
  modifies q.Tokens, elems(q.Tokens), dst.Tokens, elems(dst.Tokens)
  ensures [@moves all tokens] Q(q) == inil && Q(dst) == iapp(old(Q(dst)), old(Q(q)))
  ensures arr(q.Tokens) == old(arr(q.Tokens)) || arr(q.Tokens) == 0 || fresh(q.Tokens)
  ensures arr(dst.Tokens) == old(arr(dst.Tokens)) || fresh(dst.Tokens)
  ensures len(q.Tokens) == 0
  ensures len(dst.Tokens) == old(len(dst.Tokens)) + old(len(q.Tokens))
