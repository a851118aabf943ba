[
dict(name='where_err_swallow',file='tokenstream.go',old='''		if err != nil {
			return nil, err
		}
		if token == nil {
			break
		}

		if w.pred''',new='''		if err != nil {
			return nil, nil
		}
		if token == nil {
			break
		}

		if w.pred''',unit='where',expect='fail'),
dict(name='where_twice',file='tokenstream.go',old='if w.predicate(token) {',new='if w.predicate(token) || w.predicate(token) {',unit='where',expect='fail'),
dict(name='distinct_lower',file='tokenstream.go',old='seen[t.String()] = true',new='seen[strings.ToLower(t.String())] = true',unit='distinct',expect='fail'),
dict(name='words_or',file='tokenstream.go',old='!t.IsPunct() && !t.IsSpace()',new='!(t.IsPunct() && t.IsSpace())',unit='words',expect='fail'),
dict(name='write_n',file='tokenstream.go',old='written += int64(n)',new='written += int64(len(token.String()))',unit='WriteTo',expect='fail'),
dict(name='scan_err',file='tokenstream.go',old='return stream.token != nil && stream.err == nil',new='return stream.token != nil',unit='scan',expect='fail'),
dict(name='toslice_err',file='tokenstream.go',old='''	if err := stream.Err(); err != nil {
		return nil, stream.Err()
	}
''',new='',unit='ToSlice',expect='fail'),
dict(name='filter_rev',file='tokenstream.go',old='outgoing = f(outgoing)',new='outgoing = f(stream)',unit='Filter',expect='fail'),
dict(name='newtoken_space',file='token.go',old='if !unicode.IsSpace(r) {',new='if !unicode.IsSpace(r) && r != 0x200b {',unit='NewToken',expect='fail'),
dict(name='newtoken_crlf',file='token.go',old='case s == "\\r\\n":',new='case s == "\\n\\r":',unit='NewToken',expect='ok'),
dict(name='newtoken_lemma',file='token.go',old='lemma: isLemma,',new='lemma: isLemma && !punct,',unit='NewToken',expect='fail'),
dict(name='punct',file='punct.go',old="'@'",new="'%'",unit='NewToken',expect='fail'),
dict(name='queue_pop',file='tokenqueue/queue.go',old='q.tokens[0]',new='q.tokens[len(q.tokens)-1]',unit='Queue',expect='fail'),
dict(name='r_count_loop',file='tokenstream.go',old='''	for stream.Scan() {
		count++
	}

	if err := stream.Err(); err != nil {
		return count, stream.Err()
	}

	return count, nil''',new='''	for {
		if !stream.Scan() {
			break
		}
		count += 1
	}
	return count, stream.Err()''',unit='Count',expect='ok'),
dict(name='r_where_helper',file='tokenstream.go',old='''		if w.predicate(token) {
			return token, nil
		}
	}

	return nil, nil
}''',new='''		if w.keep(token) {
			return token, nil
		}
	}

	return nil, nil
}

func (w *where) keep(t *Token) bool { return w.predicate(t) }''',unit='where,words,distinct,lemmas',expect='ok'),
dict(name='r_distinct',file='tokenstream.go',old='''		found := seen[t.String()]
		if !found {
			seen[t.String()] = true
		}
		return !found''',new='''		key := t.String()
		if _, ok := seen[key]; ok {
			return false
		}
		seen[key] = true
		return true''',unit='distinct',expect='ok'),
dict(name='r_distinct_struct',edits=[('tokenstream.go','''		found := seen[t.String()]
		if !found {
			seen[t.String()] = true
		}
		return !found''','''		key := t.String()
		if _, ok := seen[key]; ok {
			return false
		}
		seen[key] = struct{}{}
		return true'''),('tokenstream.go','map[string]bool{}','map[string]struct{}{}')],file='',unit='distinct',expect='ok'),
dict(name='r_token_helper',file='token.go',old='''		punct = true
		for _, r := range s {
			if !isPunct(r) {
				punct = false
				break
			}
		}

		space = true
		for _, r := range s {
			if !unicode.IsSpace(r) {
				space = false
				break
			}
		}''',new='''		punct, space = true, true
		for _, r := range s {
			punct = punct && isPunct(r)
			space = space && unicode.IsSpace(r)
		}''',unit='NewToken',expect='ok'),
dict(name='r_token_helper2',edits=[('token.go','''		punct = true
		for _, r := range s {
			if !isPunct(r) {
				punct = false
				break
			}
		}

		space = true
		for _, r := range s {
			if !unicode.IsSpace(r) {
				space = false
				break
			}
		}''','''		punct = all(s, isPunct)
		space = all(s, unicode.IsSpace)'''),('token.go','var common =','''func all(s string, p func(rune) bool) bool {
	for _, r := range s {
		if !p(r) {
			return false
		}
	}
	return true
}

var common =''')],unit='NewToken',expect='ok'),
dict(name='r_writeto',file='tokenstream.go',old='n, err := w.Write([]byte(token.String()))',new='n, err := io.WriteString(w, token.String())',unit='WriteTo',expect='ok'),
dict(name='r_filter_idx',file='tokenstream.go',old='''	for _, f := range filters {
		outgoing = f(outgoing)
	}''',new='''	for i := 0; i < len(filters); i++ {
		outgoing = filters[i](outgoing)
	}''',unit='Filter',expect='ok'),
]
