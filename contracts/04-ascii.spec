// Contracts of filters/ascii. foldR and foldable are Lucene's table (lucene.tsv, from the bundled Java source)

func ascii.FoldString(s)
  props C10
  ensures [@a change is reported exactly if a character is folded] ret1 == anyFold(runes(s))
  ensures [@every character is replaced as in Lucene's table] ret1 ==> ret0 == foldcat(runes(s))
  ensures [@an unchanged string is returned as it is] !ret1 ==> ret0 == s
  loop (b *bytes.Buffer, i iter) inv cat(buf(b), foldcat(i)) == cat(entry(buf(b)), foldcat(entry(i)))
  loop (b *strings.Builder, i iter) inv cat(buf(b), foldcat(i)) == cat(entry(buf(b)), foldcat(entry(i)))
  loop (f bool, i iter) inv (f || anyFold(i)) == (entry(f) || anyFold(entry(i)))
  loop (i iter) inv allR(i)

iterator Fold
  props C10
  script f := global ascii.Fold; shared; s := f(incoming)
  requires incoming != nil
  view foldAll(rem(incoming))
  end fin(incoming)
  lazyview dropOne(rem(incoming))
