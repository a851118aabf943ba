// Contracts of the web demo

package xtemplate "html/template"

// the status of a response (0: none set, so 200); the text of a template; whether rendering or writing failed
ghost wstatus(Int) Int
ghost ttext(Int) Str
ghost rfailed(Int) Bool

func trusted strings.Split(s, sep)
  requires sep != ""
  ensures elems(ret) == splitOf(s, sep) && len(ret) >= 1
  ensures (len(ret) >= 2) == (stl(splitOf(s, sep)) != snil) && (len(ret) >= 2 ==> ret[1] == shd(stl(splitOf(s, sep))))
func trusted http.NotFound(w, r)
  requires w != nil
  modifies wstatus(w), wrote(w)
  ensures wstatus(w) == (old(wstatus(w)) == 0 ? 404 : old(wstatus(w)))
func trusted http.Error(w, error, code)
  requires w != nil
  modifies wstatus(w), wrote(w)
  ensures wstatus(w) == (old(wstatus(w)) == 0 ? code : old(wstatus(w)))
func trusted (http.ResponseWriter).WriteHeader(w, code)
  modifies wstatus(w)
  ensures wstatus(w) == (old(wstatus(w)) == 0 ? code : old(wstatus(w)))
func trusted (http.ResponseWriter).Write(w, b)
  modifies wrote(w), rfailed(0)
  ensures ret1 == nil ==> wrote(w) == cat(old(wrote(w)), bytesOf(b)) && rfailed(0) == old(rfailed(0))
  ensures ret1 != nil ==> rfailed(0)
func trusted xtemplate.New(name)
  ensures ret != nil && fresh(ret)
func trusted (*xtemplate.Template).Parse(t, text)
  requires t != nil
  modifies ttext(t)
  ensures ret1 == nil ==> ret0 == t && ttext(t) == text
func trusted xtemplate.Must(t, err)
  ensures ret == t && err == nil
// a template is rendered into a buffer or a response
func trusted (*xtemplate.Template).Execute(t, wr, data)
  requires t != nil && wr != nil
  modifies buf(wr), wrote(wr), rfailed(0)
  ensures ret == nil ==> buf(wr) == cat(old(buf(wr)), rendered(tmplNorm(ttext(t)), shown(data))) && wrote(wr) == cat(old(wrote(wr)), rendered(tmplNorm(ttext(t)), shown(data))) && rfailed(0) == old(rfailed(0))
  ensures ret != nil ==> rfailed(0)
func trusted (*bytes.Buffer).WriteTo(b, w)
  requires b != nil && w != nil
  modifies buf(b), wrote(w), rfailed(0)
  ensures ret1 == nil ==> wrote(w) == cat(old(wrote(w)), old(buf(b))) && rfailed(0) == old(rfailed(0))
  ensures ret1 != nil ==> rfailed(0)
func trusted (*bytes.Buffer).Bytes(b)
  ensures bytesOf(ret) == buf(b)

def LEMMA() = "<span class=\"lemma\">{{.}}</span>"
def PLAIN() = "{{.}}"
pkginv web global("web.lemma") != nil && tmplNorm(ttext(global("web.lemma"))) == LEMMA()
pkginv web global("web.plain") != nil && tmplNorm(ttext(global("web.plain"))) == PLAIN()
theorem init web
  props C23
  script init web

def PARTS(r) = splitOf(r.URL.Path, "/")
def ROUTE(r, name) = stl(PARTS(r)) != snil && shd(stl(PARTS(r))) == name
def MARKED(n) = foldF(icons(fun("stackoverflow.Tags"), inil), tstream(0), n)
def RESPONSE(w) = L(tstream(0), thtml(0), filtercalls(0), ANYSTREAM(), wstatus(w), wrote(w), rfailed(0))

func soft web.jargonHandler(w, r)
  props C23
  requires w != nil && r != nil && r.URL != nil && r.Body != nil && wstatus(w) == 0 && !rfailed(0) && fun("stackoverflow.Tags") != nil && cleanF(fun("stackoverflow.Tags"))
  requires global("web.lemma") != nil && tmplNorm(ttext(global("web.lemma"))) == LEMMA() && global("web.plain") != nil && tmplNorm(ttext(global("web.plain"))) == PLAIN()
  modifies RESPONSE(w)
  ensures [@any other route is not found] !ROUTE(r, "text") && !ROUTE(r, "html") ==> wstatus(w) == 404
  ensures [@the body is read, as HTML for the html route] ROUTE(r, "text") || ROUTE(r, "html") ==> thtml(0) == ROUTE(r, "html") && tsource(tstream(0)) == r.Body
  ensures [@a failure gives status 500] ROUTE(r, "text") || ROUTE(r, "html") ==> wstatus(w) == (ffin(MARKED(old(filtercalls(0)))) != nil || rfailed(0) ? 500 : 0)
  ensures [@every token is rendered once, in order] (ROUTE(r, "text") || ROUTE(r, "html")) && wstatus(w) == 0 ==> wrote(w) == cat(old(wrote(w)), markup(LEMMA(), PLAIN(), frem(MARKED(old(filtercalls(0))))))
  loop (b *bytes.Buffer, o *jargon.TokenStream) inv cat(buf(b), markup(LEMMA(), PLAIN(), rem(o))) == markup(LEMMA(), PLAIN(), frem(o))
  loop (b *strings.Builder, o *jargon.TokenStream) inv cat(buf(b), markup(LEMMA(), PLAIN(), rem(o))) == markup(LEMMA(), PLAIN(), frem(o))
  loop (o *jargon.TokenStream) inv fin(o) == ffin(o)
  loop inv wstatus(w) == 0
  loop inv !rfailed(0)
  loop inv wrote(w) == old(wrote(w))
  loop (o *jargon.TokenStream) variant tlen(rem(o))

theorem web
  props C23
  script web.mainHandler(w, r)
  requires w != nil && r != nil && r.URL != nil && r.Body != nil && wstatus(w) == 0 && !rfailed(0)
  ensures [@any other route is not found] r.Method != "OPTIONS" && !ROUTE(r, "text") && !ROUTE(r, "html") ==> wstatus(w) == 404
  ensures [@the body is read, as HTML for the html route] r.Method != "OPTIONS" && (ROUTE(r, "text") || ROUTE(r, "html")) ==> thtml(0) == ROUTE(r, "html") && tsource(tstream(0)) == r.Body
  ensures [@a failure gives status 500] r.Method != "OPTIONS" && (ROUTE(r, "text") || ROUTE(r, "html")) ==> wstatus(w) == (ffin(MARKED(old(filtercalls(0)))) != nil || rfailed(0) ? 500 : 0)
  ensures [@every token is rendered once, in order] r.Method != "OPTIONS" && (ROUTE(r, "text") || ROUTE(r, "html")) && wstatus(w) == 0 ==> wrote(w) == cat(old(wrote(w)), markup(LEMMA(), PLAIN(), frem(MARKED(old(filtercalls(0))))))
