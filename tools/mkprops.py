import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None):
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}}
    if state: d["anchors"]["state"]=state
    P.append(d)
p("C01","Tokenizing plain text is lossless",
  "For every input, the values of the tokens returned by the plain-text tokenizer, concatenated in order, are exactly the bytes that were read: nothing is dropped, repeated, reordered or altered, and no token is empty. If reading fails, the stream ends with that error instead of a clean end of data.",
  ["inputs","fault_sequences"],"every byte sequence (including invalid UTF-8 and empty input), every reader behaviour and read error",
  "TestTokenizer round-trips one string; the input space and reader errors are unbounded.",
  ["tokenizer.go","token.go","tokenstream.go"],[("tokenizer.next turns every scanned segment into one token","tokenizer.go"),("Tokenize/TokenizeString wire the segmenter to a stream","tokenizer.go"),("NewToken keeps its text","token.go")],["Tokenize(r).Next/Scan/String","TokenizeString(s)"])
p("C02","Tokenizing HTML is lossless and keeps markup whole",
  "For every HTML document, the token values concatenated in order are exactly the document. Every tag, comment or doctype is one punctuation token with its original text; the content of a script or style element is one token that is neither punctuation nor space; all other text, including text after a script or style element has ended, is tokenized exactly as plain text. A read error ends the stream with that error.",
  ["inputs","fault_sequences"],"every sequence of HTML tokens the HTML parser can deliver, and every error",
  "TestTokenizeHTML looks for some tokens of one document, ignoring order, repetition and everything it does not list.",
  ["tokenizer_html.go"],[("htokenizer.next","tokenizer_html.go"),("script/style parent tracking","tokenizer_html.go")],["TokenizeHTML(r).Next/ToSlice/String"])
p("C03","A token's kind is determined by its text",
  "A token created from a string has that string as its value and the lemma mark it was given; it is punctuation exactly if every character is Unicode punctuation or one of newline, carriage return and tab, and it is space exactly if every character is Unicode white space. The empty string gives no token. This holds for every string, including the frequent ones that are created once and shared.",
  ["inputs"],"every string and both lemma marks",
  "No test checks the flags at all; the shared-token cache makes particular strings take a different path.",
  ["token.go","punct.go"],[("NewToken","token.go"),("common token cache and its init","token.go"),("isPunct","punct.go")],["NewToken(s, lemma)","Token.IsPunct/IsSpace/IsLemma/String"])
p("C04","Every way of reading a stream sees the same tokens and errors",
  "Each call to get the next token, or to scan, consumes exactly one item of the underlying source and reports it: the returned token and error, the current token and the current error always agree, and scanning reports true exactly when there is a token and no error. An error from the source is delivered to the reader unchanged, and the end of the stream stays the end.",
  ["histories","fault_sequences"],"every source of tokens and errors, every interleaving of Next and Scan calls",
  "Tests only loop to the end of short error-free streams with one style of call.",
  ["tokenstream.go"],[("NewTokenStream wrapper","tokenstream.go"),("Scan/Next/Token/Err","tokenstream.go")],["TokenStream.Next","TokenStream.Scan","TokenStream.Token","TokenStream.Err"])
p("C05","Collecting, printing, writing and counting cover the whole stream",
  "Converting a stream to a slice, to a string, writing it to a writer or counting it accounts for every remaining token exactly once and in order; writing returns the number of bytes the writer accepted. If the stream or the writer fails, that error is returned (and nothing further is written), never a silent partial result.",
  ["inputs","fault_sequences"],"every stream contents, every stream error position, every writer failure",
  "Tests use short error-free streams; WriteTo and Count results are never compared.",
  ["tokenstream.go"],[("ToSlice/String/WriteTo/Count loops","tokenstream.go")],["ToSlice","String","WriteTo","Count"])
p("C06","Selections keep exactly the matching tokens, in order",
  "Selecting by a predicate returns exactly the tokens for which the predicate, called once per token in order, is true, unchanged and in their original order. The words selection keeps exactly the tokens that are neither punctuation nor space, the lemmas selection exactly the lemmas, and the distinct selection exactly the first token of each value. Errors of the underlying stream pass through.",
  ["inputs","histories"],"every stream, every (possibly stateful) predicate",
  "One test of Distinct on one sentence; Where, Words and Lemmas have none.",
  ["tokenstream.go"],[("where.next","tokenstream.go"),("Where/Words/Lemmas/Distinct","tokenstream.go")],["Where","Words","Lemmas","Distinct"])
p("C07","Filters compose left to right",
  "Applying a list of filters to a stream gives the last filter applied to the result of the one before it, and so on back to the first filter applied to the stream: every filter is applied exactly once, in the order given. With no filters the stream itself is returned.",
  ["inputs","programs"],"every list of filters and every stream",
  "Tests apply at most two filters whose order does not matter.",
  ["tokenstream.go"],[("TokenStream.Filter","tokenstream.go")],["TokenStream.Filter(f1, ..., fn)"])
p("C08","The token queue is first in, first out",
  "A token queue is a sequence: pushing appends at the end, popping returns and removes the first, dropping n removes the first n, clearing empties it, and moving one or all tokens to another queue appends them there in order and removes them here. No operation loses, repeats or reorders a token, or changes any other queue.",
  ["histories"],"every sequence of operations on any number of distinct queues, whatever capacity is reused",
  "The queue has no tests; in-place copying and capacity reuse only misbehave after particular histories.",
  ["tokenqueue/queue.go"],[("Pop/Drop compact in place","tokenqueue/queue.go"),("Push/FlushTo append","tokenqueue/queue.go")],["tokenqueue.TokenQueue methods"])
p("C09","Mapping filters are one-to-one and ordered",
  "A filter built from mapping functions returns, for each incoming token, exactly one token: the result of applying the functions in the order given, each once. Order is kept, errors pass through, and the end of the output is the end of the input.",
  ["inputs"],"every stream, every list of mapping functions that return a token",
  "One test with one function on one sentence.",
  ["filters/mapper/filter.go"],[("tokens.next","filters/mapper/filter.go"),("NewFilter","filters/mapper/filter.go")],["mapper.NewFilter(fs...)(stream)"])
p("C10","ASCII folding agrees with the Lucene table for every character",
  "Folding a valid string replaces every character that the bundled Lucene ASCIIFoldingFilter folds by Lucene's replacement and leaves every other character, including all ASCII, as it is; it reports a change exactly if some character was replaced. The fold filter returns the folded text marked as a lemma for tokens that changed, and other tokens untouched.",
  ["inputs"],"every valid UTF-8 string; all 1,114,112 code points",
  "TestLatin1Accents folds one short list of Latin-1 letters; about 1,200 table rows are never exercised.",
  ["filters/ascii/fold.go","filters/ascii/filter.go","filters/ascii/ASCIIFoldingFilter.java"],[("FoldString switch","filters/ascii/fold.go"),("folder","filters/ascii/filter.go")],["ascii.FoldString","ascii.Fold"])
p("C11","Normalizing and stemming change only what they should and mark it",
  "The normalization filters replace a token exactly when it is not already in the filter's normal form, by its normal form. The stemmers never change punctuation or white space, and replace any other token exactly when its stem is non-empty and differs from it, by that stem. Replacements are marked as lemmas, everything else is passed through untouched, and the filters are one-to-one.",
  ["inputs"],"every stream, every token text, all four forms and six languages",
  "One test of the English stemmer on two phrases; normalization has no tests.",
  ["filters/norm/filter.go","filters/stemmer/filter.go","filters/mapper/filter.go"],[("newFilter","filters/norm/filter.go"),("newStemmer","filters/stemmer/filter.go")],["norm.NFC/NFD/NFKC/NFKD","stemmer.English/French/Norwegian/Russian/Spanish/Swedish"])
p("C12","Stop words, and nothing else, are removed",
  "The stop word filter removes exactly the tokens whose value equals one of the given words (when case is ignored: whose lower case equals the lower case of one of them), and passes every other token through unchanged and in order. Errors pass through.",
  ["inputs","configurations"],"every stop word list, both case settings, every stream",
  "Two fixed lists on two sentences.",
  ["filters/stopwords/filter.go"],[("NewFilter builds the set","filters/stopwords/filter.go"),("tokens.next","filters/stopwords/filter.go")],["stopwords.NewFilter(words, ignoreCase)(stream)"])
p("C13","Contractions are expanded, everything else passes through",
  "A token whose value is in the contraction table (or failing that, whose lower-case value is) is replaced by the tokens of its expansion, in order and marked as lemmas; every other token passes through unchanged and in order, and errors pass through. The table contains every listed contraction in lower, Title and UPPER case, with straight and curly apostrophes, with the expansion in matching case.",
  ["inputs"],"every stream; every entry of the table",
  "One sentence with seven contractions is tested.",
  ["filters/contractions/filter.go","filters/contractions/generated.go","filters/contractions/generate/main.go"],[("tokens.next and tryExpansion","filters/contractions/filter.go"),("mappings","filters/contractions/generated.go")],["contractions.Expand(stream)"])
p("C14","Handles and hashtags are joined by the boundary and legality rules",
  "The sigil filter joins a sigil token with the token directly after it into one lemma, with their texts concatenated, exactly if that following token is legal and the token before the sigil is not a word; all other tokens pass through unchanged and in order, so the concatenated text of the stream is always preserved. A legal handle is at most 15 characters, all ASCII letters, digits or underscore; a legal hashtag is all letters, numbers or underscores, and if it is a single character it is a letter.",
  ["inputs"],"every stream, every sigil, every legality rule; every handle and hashtag text",
  "The sigil test is empty and the twitter test asserts nothing about the result.",
  ["filters/sigil/filter.go","filters/twitter/filter.go"],[("stream.next and try","filters/sigil/filter.go"),("legalHandle/legalHashtag","filters/twitter/filter.go")],["sigil.NewFilter(sigil, legal)(stream)","twitter.Handles","twitter.Hashtags"])
p("C15","The synonym index finds the longest known term",
  "The index behaves as a map from texts to canonical terms in which texts that are equal after removing ignored characters (and, if configured, folding to lower case) are the same key: adding a text sets the canonical term of its key, and of no other key. Searching a sequence of tokens finds a term exactly if some non-empty prefix of it is a known key, returns the canonical term of the longest such key, and consumes the shortest prefix having that key.",
  ["histories","inputs"],"every sequence of additions, every search, every ignore set and both case settings",
  "The index has no tests of its own; only a few lookups through filters are sampled.",
  ["filters/synonyms/trie/trie.go"],[("RuneTrie.Add","filters/synonyms/trie/trie.go"),("RuneTrie.SearchCanonical","filters/synonyms/trie/trie.go")],["trie.New","RuneTrie.Add","RuneTrie.SearchCanonical"])
p("C16","Synonym replacement touches only matched runs of words",
  "Reading left to right, at each word the filter takes the longest run of words and spaces from there, stopping before punctuation and after as many words as the longest synonym has, and searches it: if a term is found, exactly the tokens it matched are replaced by one lemma with the canonical term (by nothing if that is empty); otherwise the word passes through. All other tokens pass through unchanged, none is lost, repeated or reordered, and errors pass through.",
  ["inputs"],"every stream and every set of synonyms",
  "A handful of sentences; the interplay of lookahead, buffers and end of input depends on where matches, punctuation and the end fall.",
  ["filters/synonyms/filter.go","filters/synonyms/trie/trie.go","tokenqueue/queue.go"],[("tokens.next","filters/synonyms/filter.go"),("tokens.fill","filters/synonyms/filter.go"),("tokens.wordrun","filters/synonyms/filter.go")],["synonyms.NewFilter(...)(stream)","stackoverflow.Tags","nba.CurrentPlayers"])
p("C17","A synonyms filter is built from all its mappings, once, deterministically",
  "Before its first use a synonyms filter indexes every comma-separated synonym of every mapping, with leading spaces removed, under that mapping's canonical term, and knows the largest number of words in any of them; where synonyms collide the mapping whose text sorts last wins, so the result depends only on the configuration. If building fails, every stream of the filter reports that error.",
  ["configurations","histories"],"every set of mappings, every number of uses of the filter",
  "Tests build three small dictionaries and use each filter once.",
  ["filters/synonyms/filter.go"],[("filter.build","filters/synonyms/filter.go"),("filter.Filter lazy build","filters/synonyms/filter.go"),("updateMaxWords","filters/synonyms/filter.go")],["synonyms.NewFilter(...)"])
p("C18","Streams are lazy: filters read ahead only a bounded amount",
  "Creating or filtering a stream reads nothing from the source. Returning a token reads no further than that token, except that the sigil filter may read one token ahead, and the synonyms filter may hold at most as many words as its longest synonym has (and the spaces and punctuation between them) beyond those it has released.",
  ["inputs","histories"],"every stream and every point of its consumption",
  "Tests only look at the complete output, never at how much was read to get it.",
  ["tokenstream.go","filters/synonyms/filter.go","filters/sigil/filter.go","filters/mapper/filter.go","filters/stopwords/filter.go","filters/contractions/filter.go"],[("next functions","filters/*/filter.go"),("fill stops after enough words","filters/synonyms/filter.go")],["Reader/stream consumption when Next returns"])
p("C19","A filter value can be shared by any number of streams",
  "Applying a filter, and reading a filtered stream, changes only the state of that stream and of the streams it reads from: the filter, its tables, previously created tokens and package-level data are never written after the filter's one-time build. So streams made from the same filter do not affect each other's output, whether interleaved or used from several goroutines.",
  ["schedules","histories"],"every number of streams of the same filter and every interleaving of their use",
  "No test uses a filter for two streams at once.",
  ["filters/synonyms/filter.go","filters/synonyms/trie/trie.go","filters/mapper/filter.go","filters/stopwords/filter.go","filters/sigil/filter.go","filters/contractions/filter.go","token.go","tokenstream.go"],[("per-stream state structs","filters/*/filter.go"),("sync.Once guarded build","filters/synonyms/filter.go")],["two streams from one jargon.Filter"])
p("C20","The command line applies exactly the requested filters in order",
  "The filters applied by the command are exactly those named by its arguments, in the order of the arguments and as often as they occur; the stemmer is the one for the chosen language, and an unknown language is an error. Arguments that are not filter flags add no filter.",
  ["inputs","configurations"],"every argument list and language",
  "Three argument lists are tested, and all stemmers look the same to the comparison used.",
  ["cmd/jargon/main.go"],[("setFilters, filterMap, stemmerMap","cmd/jargon/main.go")],["jargon -stack -stem ... "])
p("C21","The command writes the whole result, or fails",
  "The command's output is exactly the tokens of its input after the filters, in order, each followed by a line break if lines were requested, or just their number and a line break if a count was requested; the input is parsed as HTML exactly if requested. Everything is flushed before success is reported, and any read or write error makes the run fail.",
  ["inputs","fault_sequences","configurations"],"every input, filter list, option combination and I/O failure",
  "No test runs the execution step at all.",
  ["cmd/jargon/main.go"],[("execute","cmd/jargon/main.go")],["jargon output, exit status"])
p("C22","The command reads and writes where it was told to",
  "Input comes from the named file if there is one and otherwise from the piped standard input; neither is a usage error and both are an error, as is a file that cannot be opened. Output goes to the named file if there is one and otherwise to standard output, and nothing proceeds without a reader and a writer.",
  ["configurations","fault_sequences"],"every combination of file arguments, stdin mode, and open/create/stat failure",
  "Tests cover opening but not which reader and writer are finally used.",
  ["cmd/jargon/main.go"],[("setInput/setOutput/setReader/setWriter","cmd/jargon/main.go")],["jargon -file -out and pipes"])
p("C23","The web demo marks up every token of the body",
  "For a text or html route, the response body is the request body's tokens after the Stack Overflow filter, in order, each rendered once: lemmas with the lemma template, all others with the plain template. Any other route is not found, and a failure while reading or rendering gives status 500.",
  ["inputs","fault_sequences"],"every request path and body, every read or render failure",
  "One request is tested for two substrings.",
  ["web/main.go"],[("jargonHandler","web/main.go")],["HTTP response"])
p("C24","The bundled term filters recognize their terms as documented",
  "The Stack Overflow filter and the NBA players filter are synonyms filters over exactly the mappings that come with their packages, whatever the case of the text and regardless of exactly the characters they are documented to ignore: spaces, hyphens, dots and forward slashes for Stack Overflow tags; spaces, periods, apostrophes, hyphens and en dashes for players' names. Nothing changes those mappings after the package has been initialized.",
  ["inputs","histories"],"every text, and every use of the filters before it",
  "A handful of phrases are tested for Stack Overflow tags and none for players.",
  ["filters/stackoverflow/filter.go","filters/stackoverflow/generated.go","filters/nba/filter.go","filters/nba/generated.go"],[("Tags","filters/stackoverflow/filter.go"),("CurrentPlayers","filters/nba/filter.go")],["stackoverflow.Tags and nba.CurrentPlayers on any stream"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
