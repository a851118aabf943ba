[
dict(name='fold_row',file='filters/ascii/fold.go',old="""				'\\uFF3F': // ＿  [FULLWIDTH LOW LINE]
				b.WriteRune('_')""",new="""				'\\uFF3F': // ＿  [FULLWIDTH LOW LINE]
				b.WriteRune('-')""",unit='ascii.FoldString',expect='fail'),
dict(name='fold_flag',file='filters/ascii/fold.go',old="""				b.WriteRune('?')
				b.WriteRune('!')
				folded = true""",new="""				b.WriteRune('?')
				b.WriteRune('!')""",unit='ascii.FoldString',expect='fail'),
dict(name='fold_drop',file='filters/ascii/fold.go',old="""				'\\u1EB2', // Ẳ""",new="""				'\\u1EB3' + 0x10000, // Ẳ""",unit='ascii.FoldString',expect='fail'),
dict(name='r_fold_builder',file='filters/ascii/fold.go',old="""var b bytes.Buffer""",new="""var b strings.Builder""",edits=[('filters/ascii/fold.go','import "bytes"','import "strings"'),('filters/ascii/fold.go','var b bytes.Buffer','var b strings.Builder')],unit='ascii.FoldString',expect='ok'),
dict(name='fold_lemma',file='filters/ascii/filter.go',old='jargon.NewToken(fold, true)',new='jargon.NewToken(fold, token.IsLemma())',unit='iterator Fold',expect='fail'),
dict(name='stop_key',file='filters/stopwords/filter.go',old='key = strings.ToLower(token.String())',new='key = strings.ToLower(key[:1]) + key[1:]',unit='stopwords',expect='fail'),
dict(name='stop_build',file='filters/stopwords/filter.go',old='''			key = strings.ToLower(s)
		} else {
			key = s''',new='''			key = s
		} else {
			key = s''',unit='stopwords',expect='fail'),
dict(name='r_stop_helper',edits=[('filters/stopwords/filter.go','''		key := token.String()
		if t.filter.ignoreCase {
			key = strings.ToLower(token.String())
		}

		if t.filter.includes[key] {
			// Word is stopped
			continue
		}

		return token, nil''','''		if !t.filter.stops(token.String()) {
			return token, nil
		}'''),('filters/stopwords/filter.go','type tokens struct','''func (f *filter) stops(s string) bool {
	if f.ignoreCase {
		s = strings.ToLower(s)
	}
	_, found := f.includes[s]
	return found
}

type tokens struct''')],unit='stopwords',expect='ok'),
dict(name='contr_lemma',file='filters/contractions/filter.go',old='jargon.NewToken(token.String(), true)',new='jargon.NewToken(token.String(), !ignoreCase)',unit='iterator contr',expect='fail'),
dict(name='contr_keep',file='filters/contractions/filter.go',old='''	if t.outgoing.Any() {
		return t.outgoing.Pop(), nil
	}

	return token, nil''',new='''	if t.outgoing.Len() > 1 {
		return t.outgoing.Pop(), nil
	}

	return token, nil''',unit='iterator contr',expect='fail'),
dict(name='r_contr',file='filters/contractions/filter.go',old='''	found, err := t.tryExpansion(token, false)
	if err != nil {
		return nil, err
	}
	if !found {
		// Try case-insensitive
		_, err := t.tryExpansion(token, true)
		if err != nil {
			return nil, err
		}
	}
''',new='''	for _, ignoreCase := range []bool{false, true} {
		found, err := t.tryExpansion(token, ignoreCase)
		if err != nil {
			return nil, err
		}
		if found {
			break
		}
	}
''',unit='iterator contr',expect='ok'),
dict(name='sig_prev',file='filters/sigil/filter.go',old='''		s.previous = handle
''',new='''		s.previous = nil
''',unit='iterator sigil',expect='fail'),
dict(name='sig_bound',file='filters/sigil/filter.go',old='s.previous == nil || s.previous.IsSpace() || s.previous.IsPunct()',new='s.previous == nil || s.previous.IsSpace() || s.previous.IsPunct() || s.previous.IsLemma()',unit='iterator sigil',expect='fail'),
dict(name='handle16',file='filters/twitter/filter.go',old='length > 15',new='length > 16',unit='legalHandle',expect='fail'),
dict(name='tag_digit',file='filters/twitter/filter.go',old='unicode.IsNumber(r)',new='unicode.IsDigit(r)',unit='legalHashtag',expect='fail'),
dict(name='stem_lang',file='filters/stemmer/filter.go',old='newStemmer(norwegian.Stem)',new='newStemmer(swedish.Stem)',edits=[('filters/stemmer/filter.go','newStemmer(norwegian.Stem)','newStemmer(swedish.Stem)'),('filters/stemmer/filter.go','	"github.com/kljensen/snowball/norwegian"\n','')],unit='iterator Norw',expect='fail'),
dict(name='stem_stop',file='filters/stemmer/filter.go',old='stem(token.String(), true)',new='stem(token.String(), false)',unit='iterator Engl',expect='fail'),
dict(name='norm_form',file='filters/norm/filter.go',old='newFilter(norm.NFKD)',new='newFilter(norm.NFD)',unit='iterator NFKD',expect='fail'),
dict(name='mapper_rev',file='filters/mapper/filter.go',old='''	for _, f := range t.filter.funcs {
		token = f(token)
	}''',new='''	for i := len(t.filter.funcs) - 1; i >= 0; i-- {
		token = t.filter.funcs[i](token)
	}''',unit='iterator mapper',expect='fail'),
dict(name='r_mapper',file='filters/mapper/filter.go',old='''	for _, f := range t.filter.funcs {
		token = f(token)
	}''',new='''	for i := 0; i != len(t.filter.funcs); i++ {
		token = t.filter.funcs[i](token)
	}''',unit='iterator mapper,iterator NFC',expect='ok'),
dict(name='r_mapper_apply',edits=[('filters/mapper/filter.go','''	for _, f := range t.filter.funcs {
		token = f(token)
	}

	return token, nil
''','''	return t.filter.apply(token), nil
'''),('filters/mapper/filter.go','type tokens struct','''func (f *filter) apply(token *jargon.Token) *jargon.Token {
	for _, fn := range f.funcs {
		token = fn(token)
	}
	return token
}

type tokens struct''')],unit='iterator mapper,iterator English',expect='ok'),
dict(name='r_sigil',edits=[('filters/sigil/filter.go','''	boundaryOK := s.previous == nil || s.previous.IsSpace() || s.previous.IsPunct()
	if !boundaryOK {
		// Just send it back
		s.previous = current
		return current, nil
	}
''','''	if !s.atBoundary() {
		s.previous = current
		return current, nil
	}
'''),('filters/sigil/filter.go','func (s *stream) try(','''func (s *stream) atBoundary() bool {
	p := s.previous
	if p == nil {
		return true
	}
	return p.IsPunct() || p.IsSpace()
}

func (s *stream) try(''')],unit='iterator sigil',expect='ok'),
]
