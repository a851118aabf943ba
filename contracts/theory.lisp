; ---- sorts
(sort Str)
(data TokD (mkTok (tval Str) (tpunct Bool) (tspace Bool) (tlemma Bool)))
(data TL (tnil) (tcons (thd TokD) (ttl TL)))
(data IL (inil) (icons (ihd Int) (itl IL)))
(data SL (snil) (scons (shd Str) (stl SL)))

; ---- strings (opaque; facts are about the functions the code uses)
(fun slen (Str) Int)
(ax slen_nonneg ((s Str)) (pat (slen s)) (and (>= (slen s) 0) (=> (= (slen s) 0) (= s |str!!|))))
(fun cat (Str Str) Str)
(ax cat_empty_l ((s Str)) (pat (cat |str!!| s)) (= (cat |str!!| s) s))
(ax cat_empty_r ((s Str)) (pat (cat s |str!!|)) (= (cat s |str!!|) s))
(ax cat_assoc ((a Str) (b Str) (c Str)) (pat (cat (cat a b) c)) (= (cat (cat a b) c) (cat a (cat b c))))
(ax cat_len ((a Str) (b Str)) (pat (slen (cat a b))) (= (slen (cat a b)) (+ (slen a) (slen b))))
(ax cat_nonempty ((a Str) (b Str)) (pat (cat a b)) (= (= (cat a b) |str!!|) (and (= a |str!!|) (= b |str!!|))))
(fun lower (Str) Str)
(fun upper (Str) Str)
(fun runes (Str) IL)
(ax runes_empty ((s Str)) (pat (runes s)) (= (= (runes s) inil) (= s |str!!|)))
(fun rstr (Int) Str)
(fun rcat (IL) Str)
(fun ssub (Str Int Int) Str)
(fun sbyte (Str Int) Int)
(fun slt (Str Str) Bool)
(fun itoa (Int) Str)
(fun bitand (Int Int) Int)
(fun bitor (Int Int) Int)
(fun faddr (Int Int) Int)
(fun fnref (Int) Int)
(ax fnref_pos ((i Int)) (pat (fnref i)) (> (fnref i) 0))

; ---- tokens
(fun D (Int) TokD)
(fun seg ((Array Int Int) Int Int) IL)
(fun segS ((Array Int Str) Int Int) SL)

(fun uPunct (Int) Bool)
(fun uSpace (Int) Bool)
(fun uLetter (Int) Bool)
(fun uNumber (Int) Bool)
(fun uLower (Int) Int)
(def isP ((r Int)) Bool (or (uPunct r) (= r 10) (= r 13) (= r 9)))
(def allP ((l IL)) Bool (ite ((_ is inil) l) true (and (isP (ihd l)) (allP (itl l)))))
(def allS ((l IL)) Bool (ite ((_ is inil) l) true (and (uSpace (ihd l)) (allS (itl l)))))
(def tokOf ((s Str) (lem Bool)) TokD (mkTok s (allP (runes s)) (allS (runes s)) lem))
(def isWord ((t TokD)) Bool (and (not (tpunct t)) (not (tspace t))))

; ---- lists
(def tapp ((a TL) (b TL)) TL (ite ((_ is tnil) a) b (tcons (thd a) (tapp (ttl a) b))))
(lemma tapp_nil ((a TL)) :by a (pat (tapp a tnil)) (= (tapp a tnil) a))
(lemma tapp_assoc ((a TL) (b TL) (c TL)) :by a (pat (tapp (tapp a b) c)) (= (tapp (tapp a b) c) (tapp a (tapp b c))))
(def tlen ((a TL)) Int (ite ((_ is tnil) a) 0 (+ 1 (tlen (ttl a)))))
(lemma tlen_nonneg ((a TL)) :by a (pat (tlen a)) (>= (tlen a) 0))
(lemma tlen_app ((a TL) (b TL)) :by a (pat (tlen (tapp a b))) (= (tlen (tapp a b)) (+ (tlen a) (tlen b))))

(def iapp ((a IL) (b IL)) IL (ite ((_ is inil) a) b (icons (ihd a) (iapp (itl a) b))))
(lemma iapp_nil ((a IL)) :by a (pat (iapp a inil)) (= (iapp a inil) a))
(lemma iapp_assoc ((a IL) (b IL) (c IL)) :by a (pat (iapp (iapp a b) c)) (= (iapp (iapp a b) c) (iapp a (iapp b c))))
(def ilen ((a IL)) Int (ite ((_ is inil) a) 0 (+ 1 (ilen (itl a)))))
(lemma ilen_nonneg ((a IL)) :by a (pat (ilen a)) (>= (ilen a) 0))
(lemma ilen_app ((a IL) (b IL)) :by a (pat (ilen (iapp a b))) (= (ilen (iapp a b)) (+ (ilen a) (ilen b))))

(def sapp ((a SL) (b SL)) SL (ite ((_ is snil) a) b (scons (shd a) (sapp (stl a) b))))
(lemma sapp_nil ((a SL)) :by a (pat (sapp a snil)) (= (sapp a snil) a))
(lemma sapp_assoc ((a SL) (b SL) (c SL)) :by a (pat (sapp (sapp a b) c)) (= (sapp (sapp a b) c) (sapp a (sapp b c))))
(def sslen ((a SL)) Int (ite ((_ is snil) a) 0 (+ 1 (sslen (stl a)))))
(lemma sslen_nonneg ((a SL)) :by a (pat (sslen a)) (>= (sslen a) 0))

; tokens behind references
(def mapD ((l IL)) TL (ite ((_ is inil) l) tnil (tcons (D (ihd l)) (mapD (itl l)))))
(lemma mapD_app ((a IL) (b IL)) :by a (pat (mapD (iapp a b))) (= (mapD (iapp a b)) (tapp (mapD a) (mapD b))))
(lemma mapD_len ((a IL)) :by a (pat (tlen (mapD a))) (= (tlen (mapD a)) (ilen a)))
(def nonnil ((l IL)) Bool (ite ((_ is inil) l) true (and (not (= (ihd l) 0)) (nonnil (itl l)))))
(lemma nonnil_app ((a IL) (b IL)) :by a (pat (nonnil (iapp a b))) (= (nonnil (iapp a b)) (and (nonnil a) (nonnil b))))

; dropping from the front
(def idrop ((n Int) (l IL)) IL (ite (or (<= n 0) ((_ is inil) l)) l (idrop (- n 1) (itl l))))

; ---- collecting
(def valcat ((l TL)) Str (ite ((_ is tnil) l) |str!!| (cat (tval (thd l)) (valcat (ttl l)))))
(lemma valcat_app ((a TL) (b TL)) :by a (pat (valcat (tapp a b))) (= (valcat (tapp a b)) (cat (valcat a) (valcat b))))

; ---- substrings and prefixes
(ax ssub_full ((s Str)) (pat (ssub s 0 (slen s))) (= (ssub s 0 (slen s)) s))
(ax ssub_len ((s Str) (i Int) (j Int)) (pat (slen (ssub s i j))) (=> (and (<= 0 i) (<= i j) (<= j (slen s))) (= (slen (ssub s i j)) (- j i))))
(fun prefix (Str Str) Bool)
(ax prefix_refl ((s Str)) (pat (prefix s s)) (prefix s s))
(ax prefix_cat ((a Str) (b Str)) (pat (prefix a (cat a b))) (prefix a (cat a b)))
(ax prefix_cat2 ((a Str) (b Str) (c Str)) (pat (prefix (cat a b) (cat a c))) (= (prefix (cat a b) (cat a c)) (prefix b c)))
(ax prefix_sub ((s Str) (n Int) (c Str)) (pat (prefix (ssub s 0 n) (cat s c))) (=> (and (<= 0 n) (<= n (slen s))) (prefix (ssub s 0 n) (cat s c))))
(ax prefix_sub1 ((s Str) (n Int)) (pat (prefix (ssub s 0 n) s)) (=> (and (<= 0 n) (<= n (slen s))) (prefix (ssub s 0 n) s)))

(fun uDigit (Int) Bool)
(def allR ((l IL)) Bool (ite ((_ is inil) l) true (and (<= 0 (ihd l)) (<= (ihd l) 1114111) (allR (itl l)))))
(ax runes_range ((s Str)) (pat (runes s)) (allR (runes s)))

; ---- selections
(fun pres (Int Int TokD) Bool)
(fun pnext (Int Int TokD) Int)
(def filtP ((f Int) (p Int) (l TL)) TL (ite ((_ is tnil) l) tnil (ite (pres f p (thd l)) (tcons (thd l) (filtP f (pnext f p (thd l)) (ttl l))) (filtP f (pnext f p (thd l)) (ttl l)))))
(def dropP ((f Int) (p Int) (l TL)) TL (ite ((_ is tnil) l) tnil (ite (pres f p (thd l)) (ttl l) (dropP f (pnext f p (thd l)) (ttl l)))))
(def wordsOf ((l TL)) TL (ite ((_ is tnil) l) tnil (ite (isWord (thd l)) (tcons (thd l) (wordsOf (ttl l))) (wordsOf (ttl l)))))
(def dropW ((l TL)) TL (ite ((_ is tnil) l) tnil (ite (isWord (thd l)) (ttl l) (dropW (ttl l)))))
(def lemmasOf ((l TL)) TL (ite ((_ is tnil) l) tnil (ite (tlemma (thd l)) (tcons (thd l) (lemmasOf (ttl l))) (lemmasOf (ttl l)))))
(def dropL ((l TL)) TL (ite ((_ is tnil) l) tnil (ite (tlemma (thd l)) (ttl l) (dropL (ttl l)))))
(def distinctOf ((S (Array Str Bool)) (l TL)) TL (ite ((_ is tnil) l) tnil (ite (select S (tval (thd l))) (distinctOf S (ttl l)) (tcons (thd l) (distinctOf (store S (tval (thd l)) true) (ttl l))))))
(def dropD ((S (Array Str Bool)) (l TL)) TL (ite ((_ is tnil) l) tnil (ite (select S (tval (thd l))) (dropD S (ttl l)) (ttl l))))

; ---- filters applied one after the other
(fun fappl (Int Int Int) Int)
(def foldF ((l IL) (s Int) (n Int)) Int (ite ((_ is inil) l) s (foldF (itl l) (fappl (ihd l) s n) (+ n 1))))

; ---- mapping functions (of the user): result and next state of the user's world
(fun mres (Int Int TokD) TokD)
(fun mnext (Int Int TokD) Int)
(def mapF ((fs IL) (p Int) (t TokD)) TokD (ite ((_ is inil) fs) t (mapF (itl fs) (mnext (ihd fs) p t) (mres (ihd fs) p t))))
(def mapS ((fs IL) (p Int) (t TokD)) Int (ite ((_ is inil) fs) p (mapS (itl fs) (mnext (ihd fs) p t) (mres (ihd fs) p t))))
(def mapAll ((fs IL) (p Int) (l TL)) TL (ite ((_ is tnil) l) tnil (tcons (mapF fs p (thd l)) (mapAll fs (mapS fs p (thd l)) (ttl l)))))

; ---- normal forms, stems
(fun isNorm (Int Str) Bool)
(ax norm_empty ((k Int)) (pat (isNorm k |str!!|)) (isNorm k |str!!|))
(fun normOf (Int Str) Str)
(ax norm_nonempty ((k Int) (s Str)) (pat (normOf k s)) (=> (not (= s |str!!|)) (not (= (normOf k s) |str!!|))))
(def normT ((k Int) (t TokD)) TokD (ite (isNorm k (tval t)) t (tokOf (normOf k (tval t)) true)))
(def normAll ((k Int) (l TL)) TL (ite ((_ is tnil) l) tnil (tcons (normT k (thd l)) (normAll k (ttl l)))))
(fun stemOf (Int Str Bool) Str)
(def stemT ((k Int) (t TokD)) TokD (ite (or (not (isWord t)) (= (stemOf k (tval t) true) |str!!|) (= (stemOf k (tval t) true) (tval t))) t (tokOf (stemOf k (tval t) true) true)))
(def stemAll ((k Int) (l TL)) TL (ite ((_ is tnil) l) tnil (tcons (stemT k (thd l)) (stemAll k (ttl l)))))

; ---- stop words
(def inS ((k Str) (w SL)) Bool (ite ((_ is snil) w) false (or (= k (shd w)) (inS k (stl w)))))
(def inLower ((k Str) (w SL)) Bool (ite ((_ is snil) w) false (or (= k (lower (shd w))) (inLower k (stl w)))))
(def stopped ((ic Bool) (w SL) (k Str)) Bool (ite ic (inLower k w) (inS k w)))
(def skey ((ic Bool) (s Str)) Str (ite ic (lower s) s))
(def unstopped ((ic Bool) (w SL) (l TL)) TL (ite ((_ is tnil) l) tnil (ite (stopped ic w (skey ic (tval (thd l)))) (unstopped ic w (ttl l)) (tcons (thd l) (unstopped ic w (ttl l))))))
(def dropStopped ((ic Bool) (w SL) (l TL)) TL (ite ((_ is tnil) l) tnil (ite (stopped ic w (skey ic (tval (thd l)))) (dropStopped ic w (ttl l)) (ttl l))))

; ---- sigils
(fun legalP (Int Str) Bool)
(def isHR ((r Int)) Bool (or (and (<= 65 r) (<= r 90)) (and (<= 97 r) (<= r 122)) (and (<= 48 r) (<= r 57)) (= r 95)))
(def allHR ((l IL)) Bool (ite ((_ is inil) l) true (and (isHR (ihd l)) (allHR (itl l)))))
(def isTR ((r Int)) Bool (or (uLetter r) (uNumber r) (= r 95)))
(def allTR ((l IL)) Bool (ite ((_ is inil) l) true (and (isTR (ihd l)) (allTR (itl l)))))
(def legalHandle ((l IL)) Bool (and (<= (ilen l) 15) (allHR l)))
(def legalTag ((l IL)) Bool (ite (= (ilen l) 1) (uLetter (ihd l)) (allTR l)))
; -1: Twitter handles, -2: hashtags, otherwise the user's function
(def legalQ ((f Int) (s Str)) Bool (ite (= f (- 1)) (legalHandle (runes s)) (ite (= f (- 2)) (legalTag (runes s)) (legalP f s))))
(def nonword ((t TokD)) Bool (or (tspace t) (tpunct t)))
(def joins ((f Int) (g Str) (b Bool) (t TokD) (l TL)) Bool (and b (= (tval t) g) ((_ is tcons) l) (legalQ f (tval (thd l)))))
(def joined ((g Str) (t TokD)) TokD (tokOf (cat g (tval t)) true))
(def sig ((f Int) (g Str) (b Bool) (l TL)) TL (ite ((_ is tnil) l) tnil
  (ite (joins f g b (thd l) (ttl l))
    (tcons (joined g (thd (ttl l))) (sig f g (nonword (joined g (thd (ttl l)))) (ttl (ttl l))))
    (tcons (thd l) (sig f g (nonword (thd l)) (ttl l))))))

; ---- tokenizing: segsOf and segErr stand for the segmentation of package uax29 (trusted)
; of the text of a reader: it may depend on how the text is delivered in pieces (0: all that is asked for)
(fun segsOf (Str Int) SL)
(fun segErr (Str Int Int) Int)
(def scat ((l SL)) Str (ite ((_ is snil) l) |str!!| (cat (shd l) (scat (stl l)))))
(def allNES ((l SL)) Bool (ite ((_ is snil) l) true (and (not (= (shd l) |str!!|)) (allNES (stl l)))))
(def segToks ((l SL)) TL (ite ((_ is snil) l) tnil (tcons (tokOf (shd l) false) (segToks (stl l)))))
(lemma segToks_cat ((l SL)) :by l (pat (valcat (segToks l))) (= (valcat (segToks l)) (scat l)))
(ax segs_nonempty ((s Str) (d Int)) (pat (segsOf s d)) (allNES (segsOf s d)))
(ax segs_all ((s Str) (e Int) (d Int)) (pat (segsOf s d) (segErr s e d)) (=> (= (segErr s e d) 0) (and (= e 0) (= (scat (segsOf s d)) s))))
(ax segs_begin ((s Str) (d Int)) (pat (segsOf s d)) (prefix (scat (segsOf s d)) s))
(ax segs_err ((s Str) (e Int) (d Int)) (pat (segErr s e d)) (=> (not (= e 0)) (not (= (segErr s e d) 0))))
(ax segs_short ((s Str) (e Int) (d Int)) (pat (segErr s e d)) (=> (< (slen s) 60000) (= (segErr s e d) e)))
(fun toksOf (Str) TL)
(ax toksOf_def ((s Str)) (pat (toksOf s)) (= (toksOf s) (segToks (segsOf s 0))))
(fun tokErr (Str) Int)
(ax tokErr_def ((s Str)) (pat (tokErr s)) (= (tokErr s) (segErr s 0 0)))
(def allNE ((l TL)) Bool (ite ((_ is tnil) l) true (and (not (= (tval (thd l)) |str!!|)) (allNE (ttl l)))))
(lemma segToks_ne ((l SL)) :by l (pat (allNE (segToks l))) (=> (allNES l) (allNE (segToks l))))
(lemma toks_nonempty ((s Str)) (pat (toksOf s)) (allNE (toksOf s)))
(lemma toks_cat ((s Str)) (pat (toksOf s) (tokErr s)) (=> (= (tokErr s) 0) (= (valcat (toksOf s)) s)))

; ---- contractions
(def lemmaT ((t TokD)) TokD (tokOf (tval t) true))
(def lemmatize ((l TL)) TL (ite ((_ is tnil) l) tnil (tcons (lemmaT (thd l)) (lemmatize (ttl l)))))
(def expn ((S (Array Str Bool)) (V (Array Str Str)) (t TokD)) TL (ite (select S (tval t)) (lemmatize (toksOf (select V (tval t)))) (ite (select S (lower (tval t))) (lemmatize (toksOf (select V (lower (tval t))))) tnil)))
(def expT ((S (Array Str Bool)) (V (Array Str Str)) (t TokD)) TL (ite (= (expn S V t) tnil) (tcons t tnil) (expn S V t)))
(def expAll ((S (Array Str Bool)) (V (Array Str Str)) (l TL)) TL (ite ((_ is tnil) l) tnil (tapp (expT S V (thd l)) (expAll S V (ttl l)))))
(def dropOne ((l TL)) TL (ite ((_ is tnil) l) tnil (ttl l)))

; ---- folding to ASCII; foldR and foldable are tables read from lucene.tsv
(fun foldR (Int) Str)
(fun foldable (Int) Bool)
(ax foldR_uses ((r Int)) (pat (foldR r)) (or true (= (foldR r) (cat (rstr r) (rstr r)))))
(ax foldR_nonempty ((r Int)) (pat (foldR r)) (not (= (foldR r) |str!!|)))
(def foldcat ((l IL)) Str (ite ((_ is inil) l) |str!!| (cat (foldR (ihd l)) (foldcat (itl l)))))
(def anyFold ((l IL)) Bool (ite ((_ is inil) l) false (or (foldable (ihd l)) (anyFold (itl l)))))
(def foldT ((t TokD)) TokD (ite (anyFold (runes (tval t))) (tokOf (foldcat (runes (tval t))) true) t))
(def foldAll ((l TL)) TL (ite ((_ is tnil) l) tnil (tcons (foldT (thd l)) (foldAll (ttl l)))))

; ---- HTML: what package html delivers (type, original text, atom)
(data HL (hnil) (hcons (htyp Int) (hraw Str) (hatom Int) (htl HL)))
(def rawText ((p Int)) Bool (or (= p 137222) (= p 458501)))
(def hpar ((typ Int) (a Int) (p Int)) Int (ite (and (= typ 2) (rawText a)) a (ite (and (= typ 3) (= a p)) 0 p)))
(def hT ((l HL)) TokD (mkTok (hraw l) true false false))
(def hview ((p Int) (l HL) (left Str)) TL (ite ((_ is hnil) l)
  (ite (= left |str!!|) tnil (tcons (mkTok left true false false) tnil))
  (ite (not (= (htyp l) 1))
    (tcons (mkTok (hraw l) true false false) (hview (hpar (htyp l) (hatom l) p) (htl l) left))
    (ite (rawText p) (tcons (mkTok (hraw l) false false false) (hview p (htl l) left))
      (ite (= (tokErr (hraw l)) 0) (tapp (toksOf (hraw l)) (hview p (htl l) left)) (toksOf (hraw l)))))))
(def hend ((p Int) (l HL) (e Int)) Int (ite ((_ is hnil) l) e
  (ite (not (= (htyp l) 1)) (hend (hpar (htyp l) (hatom l) p) (htl l) e)
    (ite (or (rawText p) (= (tokErr (hraw l)) 0)) (hend p (htl l) e) (tokErr (hraw l))))))
(def hcat ((l HL) (left Str)) Str (ite ((_ is hnil) l) left (cat (hraw l) (hcat (htl l) left))))
(def allHT ((l HL)) Bool (ite ((_ is hnil) l) true (and (not (= (hraw l) |str!!|)) (<= 1 (htyp l)) (<= (htyp l) 6) (allHT (htl l)))))
(lemma hview_cat ((l HL) (p Int) (left Str) (e Int)) :by l (pat (hview p l left) (hend p l e)) (=> (= (hend p l e) 0) (= (valcat (hview p l left)) (hcat l left))))
(lemma hend_err ((l HL) (p Int) (e Int)) :by l (pat (hend p l e)) (=> (not (= e 0)) (not (= (hend p l e) 0))))
(fun hToks (Str) HL)
(fun hLeft (Str) Str)
(ax hToks_ok ((s Str)) (pat (hToks s)) (and (allHT (hToks s)) (= (hcat (hToks s) (hLeft s)) s)))
(lemma toks_some ((s Str)) (pat (toksOf s)) (=> (and (not (= s |str!!|)) (= (tokErr s) 0)) (not (= (toksOf s) tnil))))

; ---- the synonym index. Keys are texts without ignored characters (lower case if case is ignored),
; as lists of characters, last character first.
(data KL (knil) (kcons (khd Int) (ktl KL)))
(def keyRune ((ic Bool) (r Int)) Int (ite ic (uLower r) r))
(def ignored ((gd (Array Int Bool)) (gv (Array Int Bool)) (r Int)) Bool (and (select gd r) (select gv r)))
(def keyR ((ic Bool) (gd (Array Int Bool)) (gv (Array Int Bool)) (k KL) (l IL)) KL (ite ((_ is inil) l) k
  (keyR ic gd gv (ite (ignored gd gv (keyRune ic (ihd l))) k (kcons (keyRune ic (ihd l)) k)) (itl l))))
(def keyT ((ic Bool) (gd (Array Int Bool)) (gv (Array Int Bool)) (k KL) (l TL)) KL (ite ((_ is tnil) l) k
  (keyT ic gd gv (keyR ic gd gv k (runes (tval (thd l)))) (ttl l))))
(fun nd0 () (Array KL Int))
(ax nd0_def ((k KL)) (pat (select nd0 k)) (= (select nd0 k) 0))
(fun keys0 () (Array KL Bool))
(ax keys0_def ((k KL)) (pat (select keys0 k)) (not (select keys0 k)))
(def inI ((k Int) (w IL)) Bool (ite ((_ is inil) w) false (or (= k (ihd w)) (inI k (itl w)))))
; searching a sequence of tokens: how many tokens the best match so far has (b, 0: none) and its key (m);
; srchAt continues where key k has just been completed by a token
(def hit ((S (Array KL Bool)) (k KL) (b Int) (m KL)) Bool (and (select S k) (or (= b 0) (not (= m k)))))
(def srch ((S (Array KL Bool)) (ic Bool) (gd (Array Int Bool)) (gv (Array Int Bool)) (k KL) (l TL) (i Int) (b Int) (m KL)) Int (ite ((_ is tnil) l) b
  (srchAt S ic gd gv (keyR ic gd gv k (runes (tval (thd l)))) (ttl l) i b m)))
(def srchAt ((S (Array KL Bool)) (ic Bool) (gd (Array Int Bool)) (gv (Array Int Bool)) (k KL) (l TL) (i Int) (b Int) (m KL)) Int
  (srch S ic gd gv k l (+ i 1) (ite (hit S k b m) (+ i 1) b) (ite (hit S k b m) k m)))
(def srchK ((S (Array KL Bool)) (ic Bool) (gd (Array Int Bool)) (gv (Array Int Bool)) (k KL) (l TL) (i Int) (b Int) (m KL)) KL (ite ((_ is tnil) l) m
  (srchKAt S ic gd gv (keyR ic gd gv k (runes (tval (thd l)))) (ttl l) i b m)))
(def srchKAt ((S (Array KL Bool)) (ic Bool) (gd (Array Int Bool)) (gv (Array Int Bool)) (k KL) (l TL) (i Int) (b Int) (m KL)) KL
  (srchK S ic gd gv k l (+ i 1) (ite (hit S k b m) (+ i 1) b) (ite (hit S k b m) k m)))
; closed: no key extends a key without a node, and such keys are not known
(fun closed ((Array KL Int) (Array KL Bool)) Bool)
(fun closedK ((Array KL Int) (Array KL Bool)) KL)
(fun closedR ((Array KL Int) (Array KL Bool)) Int)
(ax closed_use ((N (Array KL Int)) (S (Array KL Bool)) (k KL)) (pat (closed N S) (select N k)) (=> (and (closed N S) (= (select N k) 0)) (not (select S k))))
(ax closed_use2 ((N (Array KL Int)) (S (Array KL Bool)) (k KL) (r Int)) (pat (closed N S) (select N k) (kcons r k)) (=> (and (closed N S) (= (select N k) 0)) (= (select N (kcons r k)) 0)))
(ax closed_intro ((N (Array KL Int)) (S (Array KL Bool))) (pat (closed N S)) (or (closed N S) (and (= (select N (closedK N S)) 0) (or (select S (closedK N S)) (not (= (select N (kcons (closedR N S) (closedK N S))) 0))))))
(lemma keyR_dead ((l IL) (k KL) (ic Bool) (gd (Array Int Bool)) (gv (Array Int Bool)) (N (Array KL Int)) (S (Array KL Bool))) :by l (pat (closed N S) (keyR ic gd gv k l)) (=> (and (closed N S) (= (select N k) 0)) (= (select N (keyR ic gd gv k l)) 0)))
(lemma srch_dead ((l TL) (k KL) (ic Bool) (gd (Array Int Bool)) (gv (Array Int Bool)) (N (Array KL Int)) (S (Array KL Bool)) (i Int) (b Int) (m KL)) :by l (pat (closed N S) (srch S ic gd gv k l i b m)) (=> (and (closed N S) (= (select N k) 0)) (= (srch S ic gd gv k l i b m) b)))
(lemma srchK_dead ((l TL) (k KL) (ic Bool) (gd (Array Int Bool)) (gv (Array Int Bool)) (N (Array KL Int)) (S (Array KL Bool)) (i Int) (b Int) (m KL)) :by l (pat (closed N S) (srchK S ic gd gv k l i b m)) (=> (and (closed N S) (= (select N k) 0)) (= (srchK S ic gd gv k l i b m) m)))
(lemma srch_bound ((l TL) (S (Array KL Bool)) (ic Bool) (gd (Array Int Bool)) (gv (Array Int Bool)) (k KL) (i Int) (b Int) (m KL)) :by l (pat (srch S ic gd gv k l i b m)) (=> (and (<= 0 b) (<= b i)) (and (<= 0 (srch S ic gd gv k l i b m)) (<= (srch S ic gd gv k l i b m) (+ i (tlen l))))))

; the keys of a map that may be nil
(fun mdomS (Int (Array Str Bool)) (Array Str Bool))
(ax mdomS_def ((m Int) (d (Array Str Bool))) (pat (mdomS m d)) (=> (not (= m 0)) (= (mdomS m d) d)))
(ax mdomS_nil ((d (Array Str Bool)) (k Str)) (pat (select (mdomS 0 d) k)) (not (select (mdomS 0 d) k)))

; ---- building the index from mappings: known keys, their terms, the largest number of words
(fun terms0 () (Array KL Str))
(data IX (mkIX (ixS (Array KL Bool)) (ixT (Array KL Str)) (ixW Int)))
(def wcount ((l TL)) Int (ite ((_ is tnil) l) 0 (+ (ite (isWord (thd l)) 1 0) (wcount (ttl l)))))
(lemma wcount_nonneg ((a TL)) :by a (pat (wcount a)) (and (<= 0 (wcount a)) (<= (wcount a) (tlen a))))
(lemma wcount_app ((a TL) (b TL)) :by a (pat (wcount (tapp a b))) (= (wcount (tapp a b)) (+ (wcount a) (wcount b))))
(def addSyn ((ic Bool) (gd (Array Int Bool)) (gv (Array Int Bool)) (x IX) (l TL) (c Str)) IX
  (mkIX (store (ixS x) (keyT ic gd gv knil l) true) (store (ixT x) (keyT ic gd gv knil l) c) (ite (< (ixW x) (wcount l)) (wcount l) (ixW x))))
(def addSyns ((ic Bool) (gd (Array Int Bool)) (gv (Array Int Bool)) (x IX) (cur TL) (skip Bool) (l TL) (c Str)) IX (ite ((_ is tnil) l) (addSyn ic gd gv x cur c)
  (ite (and skip (tspace (thd l))) (addSyns ic gd gv x cur true (ttl l) c)
    (ite (= (tval (thd l)) |str!,!|) (addSyns ic gd gv (addSyn ic gd gv x cur c) tnil true (ttl l) c)
      (addSyns ic gd gv x (tapp cur (tcons (thd l) tnil)) false (ttl l) c)))))
(def addAll ((ic Bool) (gd (Array Int Bool)) (gv (Array Int Bool)) (V (Array Str Str)) (x IX) (ks SL)) IX (ite ((_ is snil) ks) x
  (addAll ic gd gv V (addSyns ic gd gv x tnil true (toksOf (shd ks)) (select V (shd ks))) (stl ks))))
(def addErr ((ks SL)) Int (ite ((_ is snil) ks) 0 (ite (= (tokErr (shd ks)) 0) (addErr (stl ks)) (tokErr (shd ks)))))
; sorting: the elements of a set in ascending order
(fun sortedOf ((Array Str Bool)) SL)
(fun sortedL (SL) SL)
(def nodupS ((l SL)) Bool (ite ((_ is snil) l) true (and (not (inS (shd l) (stl l))) (nodupS (stl l)))))
(lemma inS_app ((a SL) (b SL) (k Str)) :by a (pat (inS k (sapp a b))) (= (inS k (sapp a b)) (or (inS k a) (inS k b))))
(lemma nodupS_snoc ((a SL) (k Str)) :by a (pat (nodupS (sapp a (scons k snil)))) (= (nodupS (sapp a (scons k snil))) (and (nodupS a) (not (inS k a)))))
(fun sameW (SL (Array Str Bool)) Str)
(ax sorted_set ((l SL) (S (Array Str Bool))) (pat (sortedL l) (sortedOf S)) (or (= (sortedL l) (sortedOf S)) (not (nodupS l)) (not (= (inS (sameW l S) l) (select S (sameW l S))))))

(def allIn ((S (Array Str Bool)) (l SL)) Bool (ite ((_ is snil) l) true (and (select S (shd l)) (allIn S (stl l)))))
(ax sorted_in ((S (Array Str Bool)) (l SL)) (pat (allIn S (sortedL l))) (or (not (= (sortedL l) (sortedOf S))) (allIn S (sortedL l))))

; ---- replacing synonyms. runOf: words and spaces up to punctuation or the n-th word
(def runOf ((n Int) (l TL)) TL (ite ((_ is tnil) l) tnil (ite (tpunct (thd l)) tnil
  (ite (tspace (thd l)) (tcons (thd l) (runOf n (ttl l)))
    (ite (<= n 1) (tcons (thd l) tnil) (tcons (thd l) (runOf (- n 1) (ttl l))))))))
(lemma runOf_len ((l TL) (n Int)) :by l (pat (runOf n l)) (<= (tlen (runOf n l)) (tlen l)))
(def anyP ((l TL)) Bool (ite ((_ is tnil) l) false (or (tpunct (thd l)) (anyP (ttl l)))))
(lemma anyP_app ((a TL) (b TL)) :by a (pat (anyP (tapp a b))) (= (anyP (tapp a b)) (or (anyP a) (anyP b))))
(lemma runOf_enough ((a TL) (b TL) (n Int)) :by a (pat (runOf n (tapp a b))) (=> (and (<= 1 n) (or (<= n (wcount a)) (anyP a) (= b tnil))) (= (runOf n (tapp a b)) (runOf n a))))
(def tdrop ((n Int) (l TL)) TL (ite ((_ is tnil) l) tnil (ite (<= n 0) l (tdrop (- n 1) (ttl l)))))
(lemma tdrop_none ((l TL) (n Int)) :by l (pat (tdrop n l)) (=> (<= n 0) (= (tdrop n l) l)))
(lemma tdrop_app ((a TL) (b TL) (n Int)) :by a (pat (tdrop n (tapp a b))) (=> (= n (tlen a)) (= (tdrop n (tapp a b)) b)))
(def synN ((S (Array KL Bool)) (ic Bool) (gd (Array Int Bool)) (gv (Array Int Bool)) (w Int) (l TL)) Int (srch S ic gd gv knil (runOf w l) 0 0 knil) :when ((m TL)) (runOf w m))
(def synC ((S (Array KL Bool)) (T (Array KL Str)) (ic Bool) (gd (Array Int Bool)) (gv (Array Int Bool)) (w Int) (l TL)) Str (select T (srchK S ic gd gv knil (runOf w l) 0 0 knil)) :when ((m TL)) (runOf w m))
; syn on a list that starts with a word is synW, which unfolds only where runs are talked about
(def syn ((S (Array KL Bool)) (T (Array KL Str)) (ic Bool) (gd (Array Int Bool)) (gv (Array Int Bool)) (w Int) (l TL)) TL (ite ((_ is tnil) l) tnil
  (ite (nonword (thd l)) (tcons (thd l) (syn S T ic gd gv w (ttl l))) (synW S T ic gd gv w l))))
(def synW ((S (Array KL Bool)) (T (Array KL Str)) (ic Bool) (gd (Array Int Bool)) (gv (Array Int Bool)) (w Int) (l TL)) TL (ite (= (synN S ic gd gv w l) 0) (tcons (thd l) (syn S T ic gd gv w (ttl l)))
    (ite (= (synC S T ic gd gv w l) |str!!|) (syn S T ic gd gv w (tdrop (synN S ic gd gv w l) l))
      (tcons (tokOf (synC S T ic gd gv w l) true) (syn S T ic gd gv w (tdrop (synN S ic gd gv w l) l))))) :when ((m TL)) (runOf w m))

; ---- the command
(fun errid (Int) Int)
(fun noArgs () (Array Str Bool))
(ax noArgs_def ((k Str)) (pat (select noArgs k)) (not (select noArgs k)))
(fun noFuns () (Array Str Int))
(def filtersOf ((S (Array Str Bool)) (T (Array Str Int)) (l SL)) IL (ite ((_ is snil) l) inil (ite (select S (shd l)) (icons (select T (shd l)) (filtersOf S T (stl l))) (filtersOf S T (stl l)))))
(lemma filtersOf_nonnil ((S (Array Str Bool)) (T (Array Str Int)) (l SL)) :by l (pat (nonnil (filtersOf S T l))) (=> (forall ((k Str)) (=> (select S k) (not (= (select T k) 0)))) (nonnil (filtersOf S T l))))
(def outText ((lines Bool) (l TL)) Str (ite ((_ is tnil) l) |str!!| (cat (ite lines (cat (tval (thd l)) (rstr 10)) (tval (thd l))) (outText lines (ttl l)))))
(fun flagGiven (Str) Bool)
(fun flagB (Str) Bool)
(fun flagS (Str) Str)
(fun modeOf (Int) Int)
; streams not yet read
(fun frem (Int) TL)
(fun ffin (Int) Int)

; the web demo
(fun splitOf (Str Str) SL)
(fun tmplNorm (Str) Str)
(fun rendered (Str Str) Str)
(def markup ((a Str) (b Str) (l TL)) Str (ite ((_ is tnil) l) |str!!| (cat (rendered (ite (tlemma (thd l)) a b) (tval (thd l))) (markup a b (ttl l)))))

; filters whose streams give no token together with an error; streams of which that is known
(fun cleanF (Int) Bool)
(fun cleanS (Int) Bool)
(ax cleanS_def ((f Int) (s Int) (n Int)) (pat (fappl f s n)) (=> (cleanF f) (cleanS (fappl f s n))))
; what a synonyms filter was made of
(fun fsynD (Int) (Array Str Bool))
(fun fsynV (Int) (Array Str Str))
(fun fsynC (Int) Bool)
(fun fsynG (Int) IL)
