package main

import (
	"bytes"
	"fmt"
	"html"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"regexp/syntax"
	"slices"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
)

func init() {
	register(&Prop{ID: "C19", Quick: 1440, Thorough: 12000, Run: runC19, Init: startWebFirst, Fini: stopWeb,
		Rule:     "file contents, names, queries and filters full of markup characters, entities, quotes and tags; every page of csearch -html (all flags) and of csweb (search, bad query, bad filter, file and directory view, error) is tokenized strictly: only the fixed tags and attributes may occur, and the unescaped text must equal the plain-text result; non-trivial: a page on which a markup character had to be escaped; distinct by page content",
		Assume:   []string{"-h has no meaning with -html", "a file is not text if it has a NUL byte in its first 1000 bytes"},
		MinEvent: map[string]int64{"pages": 2500, "web_pages": 500, "tags": 10000, "escaped_pages": 1200, "bad_query_pages": 20, "file_views": 60}})
	register(&Prop{ID: "C20", Quick: 42, Thorough: 900, Procs: 1, Run: runC20, Init: startWeb, Fini: stopWeb, Stall: 150 * time.Second,
		Rule:     "csweb built with the race detector answers searches (with and without file filter, in archives, at the match limit) and file views, one at a time and from 8 clients at once while cindex updates the index; each answer, stripped and unescaped, must equal what the reference says csearch prints for an index that was current at some moment between request and answer; mappings held by the server are counted; non-trivial: an answered concurrent request; distinct by query and index",
		Assume:   []string{"the searched files themselves do not change while the index is updated", "-reset deletes the index and is not an update"},
		MinEvent: map[string]int64{"requests": 1500, "concurrent_requests": 1000, "during_update": 150, "new_answers": 100, "old_answers": 100, "file_views": 100, "limit_cases": 2}})
}

type web struct {
	cmd  *exec.Cmd
	errf string
	dead chan bool
}

var server *web

const webAddr = "127.0.0.1:2473"

// startWebFirst starts a server in the first child only: its port is fixed.
func startWebFirst(c *C) {
	if c.First {
		startWeb(c)
	}
}

func startWeb(c *C) {
	w := newWorld(c, "w")
	for try := 0; ; try++ {
		s := &web{errf: filepath.Join(c.Tmp, "csweb.err"), dead: make(chan bool)}
		f, err := os.Create(s.errf)
		if err != nil {
			harness("%v", err)
		}
		s.cmd = w.cmd("csweb")
		s.cmd.Env = append(s.cmd.Env, "GORACE=halt_on_error=1")
		s.cmd.Dir = c.Tmp
		s.cmd.Stderr = f
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := s.cmd.Start(); err != nil {
			harness("%v", err)
		}
		f.Close()
		go func() { s.cmd.Wait(); close(s.dead) }()
		for range 200 {
			select {
			case <-s.dead:
			default:
				if conn, err := net.Dial("tcp", webAddr); err == nil {
					conn.Close()
					time.Sleep(20 * time.Millisecond)
					if s.alive() { // it is this server that answered
						server = s
						return
					}
				}
				time.Sleep(25 * time.Millisecond)
				continue
			}
			break
		}
		s.cmd.Process.Kill()
		if try == 60 {
			b, _ := os.ReadFile(s.errf)
			harness("cannot start csweb: %s", b)
		}
		time.Sleep(500 * time.Millisecond)
	}
}

func (s *web) alive() bool {
	select {
	case <-s.dead:
		return false
	default:
		return true
	}
}

func stopWeb(c *C) {
	if server != nil {
		server.cmd.Process.Kill()
		<-server.dead
	}
}

func (s *web) log() string {
	b, _ := os.ReadFile(s.errf)
	if i := bytes.Index(b, []byte("WARNING: DATA RACE")); i >= 0 {
		b = b[i:]
		return string(b[:min(len(b), 6000)])
	}
	return string(b[max(0, len(b)-3000):])
}

// check fails if the server died or reported a race.
func (s *web) check(c *C, what string) {
	if !s.alive() {
		c.Fail("%s: csweb died: %s", what, s.log())
	}
	if b, _ := os.ReadFile(s.errf); bytes.Contains(b, []byte("DATA RACE")) || bytes.Contains(b, []byte("panic serving")) {
		c.Fail("%s: csweb reports: %s", what, s.log())
	}
}

type page struct {
	status int
	ctype  string
	sniff  string
	body   []byte
}

var client = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 16},
	CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}

func (s *web) get(target string) (page, error) {
	r, err := client.Get("http://" + webAddr + target)
	if err != nil {
		return page{}, err
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	return page{r.StatusCode, r.Header.Get("Content-Type"), r.Header.Get("X-Content-Type-Options"), b}, err
}

func (s *web) must(c *C, target string) page {
	p, err := s.get(target)
	if err != nil {
		s.check(c, target)
		c.Fail("GET %s: %v\n%s", target, err, s.log())
	}
	return p
}

func searchURL(q, f string) string {
	v := url.Values{"q": {q}}
	if f != "" {
		v.Set("f", f)
	}
	return "/?" + v.Encode()
}

func showURL(p string) string {
	l := strings.Split(p, "/")
	for i := range l {
		l[i] = url.PathEscape(l[i])
	}
	return "/show" + strings.Join(l, "/")
}

// A token is a tag or a text.
type token struct {
	name  string // of a tag; "" for text
	text  string // unescaped
	attrs map[string]string
}

var okAttrs = map[string]string{"!doctype": "html", "html": "", "head": "", "link": "rel type href", "script": "src", "title": "",
	"body": "onload", "p": "", "form": "action", "input": "type name value", "hr": "", "pre": "", "a": "href", "small": "", "span": "id"}

// tokenize parses HTML strictly: anything that is not one of the known tags
// with known attributes and quoted values is a problem.
func tokenize(b string) (l []token, problem string) {
	for len(b) > 0 {
		i := strings.IndexByte(b, '<')
		if i < 0 {
			i = len(b)
		}
		if i > 0 {
			l = append(l, token{text: html.UnescapeString(b[:i])})
			b = b[i:]
			continue
		}
		full := b
		bad := func(why string) ([]token, string) {
			return l, fmt.Sprintf("%s: %.150q", why, full)
		}
		b = b[1:]
		j := strings.IndexFunc(b, func(r rune) bool { return !(r == '/' || r == '!' || 'a' <= r|0x20 && r|0x20 <= 'z') })
		if j < 0 {
			return bad("unfinished tag")
		}
		t := token{name: strings.ToLower(b[:j]), attrs: map[string]string{}}
		b = b[j:]
		ok, known := okAttrs[strings.TrimPrefix(t.name, "/")]
		if !known && t.name != "/b" { // (there is a stray </b> in the page)
			return bad("markup that is not part of the page")
		}
		for {
			sp := len(b)
			b = strings.TrimLeft(b, " \n\t")
			sp -= len(b)
			if strings.HasPrefix(b, ">") {
				b = b[1:]
				break
			}
			if strings.HasPrefix(b, "/>") {
				b = b[2:]
				break
			}
			k := strings.IndexFunc(b, func(r rune) bool { return !('a' <= r && r <= 'z') })
			if k <= 0 || sp == 0 {
				return bad("malformed tag")
			}
			name := b[:k]
			b = b[k:]
			if t.name[0] == '/' || !slices.Contains(strings.Fields(ok), name) || t.attrs[name] != "" {
				return bad("unexpected attribute " + name)
			}
			if t.name == "!doctype" {
				continue
			}
			if !strings.HasPrefix(b, `="`) {
				return bad("unquoted attribute")
			}
			b = b[2:]
			e := strings.IndexByte(b, '"')
			if e < 0 {
				return bad("unfinished attribute")
			}
			t.attrs[name] = html.UnescapeString(b[:e])
			b = b[e+1:]
		}
		for name, want := range map[string]string{"onload": "highlight()", "src": "/_static/viewer.js", "rel": "stylesheet"} {
			if v, ok := t.attrs[name]; ok && v != want {
				return bad("unexpected value of " + name)
			}
		}
		if v, ok := t.attrs["href"]; ok && !strings.HasPrefix(v, "/show") && !strings.HasPrefix(v, "show/") && v != "/" && !strings.HasSuffix(v, "_static/viewer.css") {
			return bad("unexpected link")
		}
		l = append(l, t)
	}
	return l, ""
}

func plainText(l []token) string {
	var b strings.Builder
	for _, t := range l {
		b.WriteString(t.text)
	}
	return b.String()
}

func countTags(l []token) map[string]int {
	m := map[string]int{}
	for _, t := range l {
		if t.name != "" {
			m[t.name]++
		}
	}
	return m
}

// results judges a list of search results.
func (c *C) htmlResults(what, body, want string, links int, names []string) {
	l, problem := tokenize(body)
	if problem != "" {
		c.Fail("%s: %s", what, problem)
	}
	m := countTags(l)
	for _, n := range m {
		c.Count("tags", n)
	}
	for name := range m {
		if name != "a" && name != "/a" {
			c.Fail("%s: tag <%s> among the results", what, name)
		}
	}
	if m["a"] != links || m["/a"] != links {
		c.Fail("%s: %d <a> and %d </a>, want %d: %.300q", what, m["a"], m["/a"], links, body)
	}
	for i, t := range l {
		if t.name != "a" {
			continue
		}
		// The link names the file, and the text of the link starts with it.
		if i+1 >= len(l) || l[i+1].name != "" {
			c.Fail("%s: link without text", what)
		}
		ok := false
		for _, n := range names {
			if strings.HasPrefix(l[i+1].text, n) && hrefNames(t.attrs["href"], n) {
				ok = true
				break
			}
		}
		if !ok {
			c.Fail("%s: link to %q with text %q", what, t.attrs["href"], l[i+1].text)
		}
	}
	if d := firstDiff([]byte(plainText(l)), []byte(want)); d != "" {
		c.Fail("%s: stripped and unescaped: %s", what, d)
	}
	if strings.ContainsAny(want, "<>&\"'") {
		c.Count("escaped_pages", 1)
		c.Seen(body)
	}
}

// hrefNames reports whether the link mentions the name, escaped or not (C33
// judges where it leads).
func hrefNames(href, n string) bool {
	if strings.Contains(href, n) || strings.Contains(href, strings.ReplaceAll(n, "#", ">")) {
		return true
	}
	p := href
	if i := strings.IndexAny(p, "?#"); i >= 0 {
		p = p[:i]
	}
	p, err := url.PathUnescape(p)
	return err == nil && strings.Contains(p, n)
}

var htmlBits = []string{"<script>alert(1)</script>", "<b>", "</pre>", "</a>", "<", ">", "&", "&lt;", "&amp;lt;", "&#39;", "&#x3c;b>", "\"", "'", "\" onmouseover=\"x", "' x='", "<!--", "-->", "<a href=\"x\">", "]]>", "x", "foo", "text", " ", "if a < b && c > d", "<p", "&copy", "&quot;", "\t", "=", "é", "世界", "</span>", "</title><b>"}

func hostile(c *C, n int) string {
	var b strings.Builder
	for range n {
		b.WriteString(pick(c, htmlBits))
	}
	return b.String()
}

func hostileTree(c *C, w *world) {
	for range 2 + c.IntN(8) {
		p := ""
		for d := c.IntN(3); d > 0; d-- {
			p += strings.ReplaceAll(hostile(c, 1), "/", "") + "d/"
		}
		name := strings.Map(func(r rune) rune {
			if r == '/' || r < ' ' {
				return '_'
			}
			return r
		}, hostile(c, 1+c.IntN(3)))
		if refHidden(name) {
			name = "x" + name + "x"
		}
		if c.Chance(4) {
			name = pick(c, []string{"a#b", "a?b", "a%41", "a+b", "q\"q", "it's", "<b>", "&lt;", "C:\\x", "javascript:x"})
		}
		var b strings.Builder
		for n := c.IntN(12); n > 0; n-- {
			b.WriteString(hostile(c, c.IntN(5)))
			if n > 1 || c.Chance(2) {
				b.WriteByte('\n')
			}
		}
		w.tryWrite(p+name, b.String())
	}
	if c.Chance(3) {
		w.tryWrite("h.zip", string(makeZip([]member{{"<i>&\"'.txt", hostile(c, 8) + "\n" + hostile(c, 3), false}, {"plain", "foo\n", true}})))
	}
}

var webExprs = []string{"<", ">", "&", "\"", "'", "&lt;", "<b>", "<script>", "foo|<", "[<>&]", "x", "text", "</a>|b", "&#39;", "\" on", ".", "^", "alert\\(1\\)", "a < b", "é|世", "(?i)FOO", "zzz", "&amp;"}

func runC19(c *C) {
	w := newWorld(c, "w")
	hostileTree(c, w)
	w.must("cindex", "-zip", w.tree)
	m := &idxModel{}
	m.update([]string{w.tree}, true)
	var names []string
	for _, d := range m.docs {
		names = append(names, d.name)
	}
	for range 5 {
		e := pick(c, webExprs)
		o := grepOpts{n: true}
		var args []string
		ctx := false
		switch c.IntN(5) {
		case 0:
			o.l = true
		case 1:
			o.c = true
		case 2:
			o.before, o.after = c.IntN(3), 1+c.IntN(2)
			ctx = true
		}
		args = append(o.flags(), "-html", "--", e)
		r := w.run("csearch", args...)
		what := fmt.Sprintf("csearch %q", args)
		c.Count("pages", 1)
		c.Sample("%s: %d bytes", what, len(r.out))
		full := "(?m)" + e
		if ctx {
			l, problem := tokenize(string(r.out))
			if problem == "" && len(countTags(l)) > 0 {
				problem = fmt.Sprint("unexpected tags ", countTags(l))
			}
			rest := []byte(plainText(l))
			ast := mustParse(full)
			for _, d := range m.docs {
				if problem != "" {
					break
				}
				rest, _, problem = newGrepText(ast, d.name, d.data).checkContext(rest, o, -1)
			}
			if problem == "" && len(rest) > 0 {
				problem = fmt.Sprintf("unexpected output %.200q", rest)
			}
			if problem != "" {
				c.Fail("%s: %s", what, problem)
			}
			c.Count("escaped_pages", 1)
			continue
		}
		want, matched, _ := grepDocs(m.docs, full, o)
		links := bytes.Count(want.Bytes(), []byte("\n"))
		if o.l || o.c {
			links = matched
		}
		c.htmlResults(what, string(r.out), want.String(), links, names)
		if (r.code == 0) != (matched > 0) {
			c.Fail("%s: exit status %d with %d matching files", what, r.code, matched)
		}
	}
	if server == nil || c.Case%8 != 0 {
		return
	}
	for range 16 {
		q, f := pick(c, webExprs), ""
		if c.Chance(4) {
			f = pick(c, []string{"<", "&", "\"", "d/", "'", "(", "[", "<b>("})
		}
		if c.Chance(3) {
			q = pick(c, []string{"(<b>", "[\"", "<script>alert(1)</script>(", "*&lt;", "x{2,1}'", "\\pX<i>", "(?P<a", "'\"><img src=x onerror=alert(1)>", "\" autofocus onfocus=\"alert(1)", "QUERY", "%41", "a+b", "\xff<b>"})
		}
		c.webSearch(m.docs, q, f)
	}
	for range 3 {
		if len(m.docs) == 0 {
			break
		}
		d := pick(c, m.docs)
		c.webShow(d)
	}
	c.webRaw(w)
	c.webRaw(w)
	// Without an expression there is the form and nothing else.
	for _, u := range []string{"/", "/?q=", "/?f=" + url.QueryEscape(pick(c, htmlBits)), "/?q=&f=d/", "/?x=" + url.QueryEscape(hostile(c, 2))} {
		pg := server.must(c, u)
		c.Count("pages", 1)
		c.Count("web_pages", 1)
		what := fmt.Sprintf("csweb %s", u)
		l, problem := tokenize(string(pg.body))
		if pg.status != 200 || !strings.HasPrefix(pg.ctype, "text/html") || problem != "" {
			c.Fail("%s: status %d, type %s: %s", what, pg.status, pg.ctype, problem)
		}
		for _, t := range l {
			if strings.HasPrefix(t.attrs["href"], "/show") || strings.HasPrefix(t.attrs["href"], "show") || t.attrs["name"] == "q" && t.attrs["value"] != "" || strings.Contains(t.text, w.dir) {
				c.Fail("%s: the page of no search shows %q %q", what, t.attrs, t.text)
			}
		}
	}
	c.webLong(w)
	// Directories and errors.
	filepath.Walk(w.tree, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.IsDir() && c.Chance(2) {
			pg := server.must(c, showURL(p))
			c.Count("pages", 1)
			c.Count("web_pages", 1)
			l, problem := tokenize(string(pg.body))
			if problem != "" {
				c.Fail("directory view of %q: %s", p, problem)
			}
			var want, got []string
			ents, _ := os.ReadDir(p)
			for _, e := range ents {
				want = append(want, e.Name())
			}
			for _, line := range strings.Split(plainText(l), "\n") {
				if slices.Contains(want, line) {
					got = append(got, line)
				}
			}
			if !slices.Equal(got, want) {
				c.Fail("directory view of %q shows %q, want %q", p, got, want)
			}
		}
		return nil
	})
	bad := w.tree + "/" + strings.ReplaceAll(hostile(c, 3), "/", "") + "missing"
	pg := server.must(c, showURL(bad))
	c.Count("pages", 1)
	c.Count("web_pages", 1)
	if pg.status < 400 {
		c.Fail("view of the missing %q: status %d", bad, pg.status)
	}
	if strings.HasPrefix(pg.ctype, "text/plain") {
		if pg.sniff != "nosniff" {
			c.Fail("error page for %q may be taken for HTML (%s, %q): %q", bad, pg.ctype, pg.sniff, pg.body)
		}
	} else if l, problem := tokenize(string(pg.body)); problem != "" || !strings.Contains(plainText(l), "missing") {
		c.Fail("error page for %q: %s: %q", bad, problem, pg.body)
	}
	server.check(c, "after C19 pages")
}

// webPage splits the page of a search into header and results.
func (c *C) webPage(what, q string, pg page) (results string) {
	if pg.status != 200 || !strings.HasPrefix(pg.ctype, "text/html") {
		c.Fail("%s: status %d, type %s", what, pg.status, pg.ctype)
	}
	head, results, ok := strings.Cut(string(pg.body), "<pre>\n")
	if !ok {
		c.Fail("%s: no results in %.300q", what, pg.body)
	}
	l, problem := tokenize(head)
	if problem != "" {
		c.Fail("%s: %s", what, problem)
	}
	for _, t := range l {
		if t.name == "input" && t.attrs["name"] == "q" {
			// What is not valid in HTML (NUL and the like) is not tested.
			if t.attrs["value"] != q {
				c.Fail("%s: the input field shows %q", what, t.attrs["value"])
			}
		}
	}
	if s := strings.TrimSpace(plainText(l)); s != "Code Search" {
		c.Fail("%s: text %q before the results", what, s)
	}
	if n := countTags(l); n["input"] != 2 || n["form"] != 1 || n["script"] != 0 {
		c.Fail("%s: tags %v before the results", what, n)
	}
	return results
}

// webWant is what the page must show for the query, as plain text without the
// last lines, and the number of matches.
func webWant(docs []doc, q, f string) (want string, n int, names []string) {
	if f != "" {
		fre := mustParse(f)
		docs = slices.DeleteFunc(slices.Clone(docs), func(d doc) bool { return refMatch(fre, d.name, true, true) < 0 })
	}
	b, _, _ := grepDocs(docs, "(?m)"+q, grepOpts{n: true})
	for _, d := range docs {
		names = append(names, d.name)
	}
	return b.String(), bytes.Count(b.Bytes(), []byte("\n")), names
}

func validExpr(e string) bool {
	_, err := syntax.Parse(e, syntax.Perl)
	return err == nil
}

// webQuery makes an expression, often of text from the documents, with any
// blanks and signs at its ends.
func webQuery(c *C, docs []doc, exprs []string) string {
	e := pick(c, exprs)
	switch c.IntN(4) {
	case 0:
		return e
	case 1:
		e, _ = newRegexGen(c.Rand).gen("(?m)")
		e = strings.TrimPrefix(e, "(?m)")
	default:
		d := pick(c, docs).data
		if len(d) == 0 {
			break
		}
		i := c.IntN(len(d))
		if c.Chance(2) { // at a word or line
			i = max(0, strings.LastIndexAny(d[:i], " \t\n"))
		}
		j := min(len(d), i+1+c.IntN(12))
		for i > 0 && !utf8.RuneStart(d[i]) {
			i--
		}
		for j < len(d) && !utf8.RuneStart(d[j]) {
			j++
		}
		e = regexp.QuoteMeta(strings.Trim(d[i:j], "\n"))
		if i := strings.IndexByte(e, '\n'); i >= 0 {
			e = e[:i]
		}
	}
	if c.Chance(2) {
		blank := []string{" ", "\t", "  ", "\r", "\u00a0", " *", "+", "[ ]", "&", "%20", "#", ";", "="}
		if c.Chance(2) {
			e = strings.TrimLeft(pick(c, blank), "*+") + e
		} else {
			e += pick(c, blank)
		}
	}
	if !utf8.ValidString(e) || !validExpr("(?m)"+e) || e == "" {
		return pick(c, exprs)
	}
	return e
}

func (c *C) webSearch(docs []doc, q, f string) {
	pg := server.must(c, searchURL(q, f))
	what := fmt.Sprintf("csweb q=%q f=%q", q, f)
	c.Count("pages", 1)
	c.Count("web_pages", 1)
	c.Count("requests", 1)
	results := c.webPage(what, q, pg)
	for _, x := range []struct{ e, full, msg string }{{q, "(?m)" + q, "Bad query: "}, {f, f, "Bad -f flag: "}} {
		if validExpr(x.full) {
			continue
		}
		c.Count("bad_query_pages", 1)
		c.Seen(results)
		l, problem := tokenize(results)
		if problem == "" && len(countTags(l)) > 0 {
			problem = "tags in the message"
		}
		if problem != "" {
			c.Fail("%s: %s", what, problem)
		}
		_, err := syntax.Parse(x.full, syntax.Perl)
		if s := plainText(l); !strings.HasPrefix(s, x.msg) || utf8.ValidString(x.full) && !strings.Contains(s, err.(*syntax.Error).Expr) {
			c.Fail("%s: message %q", what, s)
		}
		return
	}
	want, n, names := webWant(docs, q, f)
	body, rest, ok := cutLast(results, fmt.Sprintf("\n%d matches in ", n))
	if !ok {
		c.Fail("%s: no count of %d matches at the end of %.500q", what, n, results[max(0, len(results)-500):])
	}
	if strings.Contains(rest, "limit") || strings.Count(rest, "\n") != 1 {
		c.Fail("%s: %d matches, but the page ends %q", what, n, rest)
	}
	c.htmlResults(what, body, want, n, names)
}

func cutLast(s, sep string) (before, after string, ok bool) {
	i := strings.LastIndex(s, sep)
	if i < 0 {
		return s, "", false
	}
	return s[:i], s[i+len(sep):], true
}

// webShow judges the view of a text file.
func (c *C) webShow(d doc) {
	if strings.Contains(d.name, "\x01") || !viewable(d.data) {
		return
	}
	pg := server.must(c, showURL(d.name))
	what := fmt.Sprintf("csweb view of %q", d.name)
	c.Count("pages", 1)
	c.Count("web_pages", 1)
	c.Count("file_views", 1)
	if pg.status != 200 || !strings.HasPrefix(pg.ctype, "text/html") {
		c.Fail("%s: status %d, type %s", what, pg.status, pg.ctype)
	}
	l, problem := tokenize(string(pg.body))
	if problem != "" {
		c.Fail("%s: %s", what, problem)
	}
	lines := refLines(d.data)
	if n := countTags(l); n["span"] != len(lines) || n["/span"] != len(lines) || n["script"] != 1 || n["title"] != 1 || n["/b"] > 1 {
		c.Fail("%s: %d lines, tags %v", what, len(lines), n)
	}
	title, i := "", 0
	for j, t := range l {
		switch t.name {
		case "title":
			title = l[j+1].text
		case "span":
			// The number, blanks, the line.
			s := strings.TrimLeft(l[j+1].text, " ")
			want := fmt.Sprintf("%d  %s\n", i+1, lines[i])
			if t.attrs["id"] != fmt.Sprintf("L%d", i+1) || s != want {
				c.Fail("%s: line %d is shown as %q (id %q), want %q", what, i+1, s, t.attrs["id"], want)
			}
			i++
		}
	}
	if title != d.name+" - code search" {
		c.Fail("%s: title %q", what, title)
	}
	if strings.ContainsAny(d.data, "<>&\"'") {
		c.Seen(string(pg.body))
		c.Count("escaped_pages", 1)
	}
}

// webRaw judges the view of files that are not text: they are sent as they
// are, but never as a page.
func (c *C) webRaw(w *world) {
	p := filepath.Join(w.dir, fmt.Sprintf("raw%d", c.IntN(3)))
	data := pick(c, []string{"<script>alert(1)</script>", "<!DOCTYPE html><title>x</title>", "\n \t<HTML>", "<?xml version=\"1.0\"?><svg xmlns=\"http://www.w3.org/2000/svg\"><script/></svg>", "<!-- x -->", "<b>", "\x89PNG\r\n\x1a\n", "%PDF-1.4\n", "\x1f\x8b", "GIF89a", "\xff\xfe<\x00b\x00>\x00", "\xef\xbb\xbf<html>", "plain", "", "<a href=x>", "<iframe src=x>"})
	data += strings.Repeat(pick(c, []string{" ", "x", "<p>\n"}), c.IntN(200)) + "\x00zzzz" + strings.Repeat(pick(c, []string{"<script>\n", "y\n", "\xff\x01"}), c.IntN(3000))
	if err := os.WriteFile(p, []byte(data), 0o666); err != nil {
		harness("%v", err)
	}
	pg := server.must(c, showURL(p))
	what := fmt.Sprintf("csweb view of a file that is not text (%.40q)", data)
	c.Count("web_pages", 1)
	c.Count("raw_views", 1)
	if pg.status != 200 || string(pg.body) != data {
		c.Fail("%s: status %d, %d bytes (file has %d): %s", what, pg.status, len(pg.body), len(data), firstDiff(pg.body, []byte(data)))
	}
	ct, _, _ := strings.Cut(strings.ToLower(pg.ctype), ";")
	if ct = strings.TrimSpace(ct); ct == "" && pg.sniff != "nosniff" || strings.HasSuffix(ct, "html") || strings.HasSuffix(ct, "xml") {
		c.Fail("%s is sent as a page (type %q)", what, pg.ctype)
	}
}

// webLong judges views of large texts and of texts with very long lines.
func (c *C) webLong(w *world) {
	var b strings.Builder
	for n := 1 + c.IntN(40); n > 0; n-- {
		switch c.IntN(6) {
		case 0:
			b.WriteString(strings.Repeat(pick(c, []string{"a", "<b>", "é", "世界 "}), []int{500, 5000, 40000, 70000, 300000}[c.IntN(5)]))
		case 1:
			b.WriteString(strings.Repeat(pick(c, []string{"\n", "x\n", "\t&\n"}), c.IntN(3000)))
		case 2:
			b.WriteString(strings.Repeat("\n", c.IntN(4)))
		default:
			b.WriteString(someText(c))
		}
		if c.Chance(2) {
			b.WriteString("\n")
		}
	}
	d := doc{filepath.Join(w.dir, "long"), b.String()}
	if c.Chance(2) { // of a size that buffers and prefixes have
		n := pick(c, []int{512, 1024, 1024, 1024, 2048, 4096, 8192, 32768, 65536})
		switch c.IntN(8) {
		case 0:
			n--
		case 1:
			n++
		case 2:
			n += 2
		}
		if s := strings.Repeat(d.data+"\n", n/(len(d.data)+1)+1); true {
			for !utf8.RuneStart(s[n]) {
				n--
			}
			d.data = s[:n]
		}
		c.Count("views_of_even_sizes", 1)
	}
	if !viewable(d.data) {
		return
	}
	if err := os.WriteFile(d.name, []byte(d.data), 0o666); err != nil {
		harness("%v", err)
	}
	c.Count("long_views", 1)
	c.webShow(d)
}

// viewable reports whether a text has only characters that all agree are text.
func viewable(s string) bool {
	for _, r := range s {
		if r == utf8.RuneError || r < ' ' && r != '\n' && r != '\t' {
			return false
		}
	}
	return true
}

// ---- C20

func runC20(c *C) {
	w := newWorld(c, "w")
	switch c.Case {
	case 3:
		c.webLimit(w)
		return
	}
	tops := []string{"a", "b", "foo", "foo.bar"}
	for _, t := range tops {
		for i := range 2 + c.IntN(6) {
			data := genContent(c, 20+c.IntN(400))
			if c.Chance(6) {
				data = hostile(c, 6) + "\n" + data
			}
			w.tryWrite(fmt.Sprintf("%s/%s%d", t, w.genName(50), i), data)
		}
	}
	w.tryWrite("a/z.zip", string(w.genZip()))
	w.tryWrite("b/z.zip", string(w.genZip()))
	for i := range 8 { // text on which some expressions need very many states
		b := make([]byte, 30000)
		for j := range b {
			b[j] = "abababc"[c.IntN(7)]
			if j%80 == 79 {
				b[j] = '\n'
			}
		}
		w.tryWrite(fmt.Sprintf("a/rand%d", i), string(b))
	}
	if c.Chance(3) {
		w.bulk("b", 3)
	}
	// Two indexes: the second has more roots, and files that the first missed.
	r0 := []string{w.tree + "/a", w.tree + "/foo"}
	w.must("cindex", append([]string{"-zip"}, r0...)...)
	m0 := &idxModel{}
	m0.update(r0, true)
	for i := range 4 {
		w.tryWrite(fmt.Sprintf("a/late%d", i), "late "+genContent(c, 200))
	}
	old, err := os.ReadFile(w.idx)
	if err != nil {
		c.Fail("no index: %v", err)
	}
	upd := []string{"-zip", w.tree + "/a", w.tree + "/b"}
	m1 := &idxModel{roots: m0.roots, docs: m0.docs}
	m1.update(upd[1:], true)

	exprs := []string{"e", "late", "hello", "abc", "[a-z]+", "foo|bar", "return", "^", "(?i)INT", "世", "zzzz", "t$", "<", "a.*b"}
	filters := []string{"", "", "", "/a/", "foo", "late", "zip", "[0-4]$"}
	// One at a time.
	for range 12 {
		q, f := webQuery(c, m0.docs, exprs), pick(c, filters)
		c.webSearch(m0.docs, q, f)
		if c.Chance(3) {
			// The commands agree with the reference, too.
			args := []string{"-n"}
			if f != "" {
				args = append(args, "-f", f)
			}
			want, n, _ := webWant(m0.docs, q, f)
			checkGrepRun(c, fmt.Sprintf("csearch %q", args), w.run("csearch", append(args, "--", q)...), []byte(want), n > 0)
		}
	}
	for range 6 {
		c.webShow(pick(c, m0.docs))
	}
	big := doc{w.tree + "/big.txt", ""}
	if c.Chance(2) {
		big.data = strings.Repeat("line of <text> & more\n", 50+c.IntN(12000)) + pick(c, []string{"", "end", "\n\n"})
		w.tryWrite("big.txt", big.data)
		c.webShow(big)
	}
	for range 3 {
		c.webLong(w)
		c.webRaw(w)
	}
	// All at once, with updates.
	type query struct {
		q, f string
		want [2]string
		n    [2]int
	}
	var queries []query
	for range 10 {
		x := query{q: pick(c, exprs), f: pick(c, filters)}
		x.want[0], x.n[0], _ = webWant(m0.docs, x.q, x.f)
		x.want[1], x.n[1], _ = webWant(m1.docs, x.q, x.f)
		queries = append(queries, x)
	}
	type answer struct {
		x        int
		from, to time.Time
		pg       page
		err      error
	}
	type period struct { // an index was current at most from .. to
		version  int
		from, to time.Time
	}
	start := time.Now()
	periods := []period{{version: 0, from: start}}
	var answers []answer
	var mu sync.Mutex
	var wg sync.WaitGroup
	stop := make(chan bool)
	const clients = 8
	var picks [clients][]int
	for i := range picks {
		for range 400 {
			picks[i] = append(picks[i], c.IntN(len(queries)))
		}
	}
	for i := range clients {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, k := range picks[i] {
				select {
				case <-stop:
					return
				default:
				}
				a := answer{x: k, from: time.Now()}
				a.pg, a.err = server.get(searchURL(queries[k].q, queries[k].f))
				a.to = time.Now()
				mu.Lock()
				answers = append(answers, a)
				mu.Unlock()
				if a.err != nil {
					return
				}
			}
		}()
	}
	for range 2 {
		time.Sleep(time.Duration(c.IntN(40)) * time.Millisecond)
		t0 := time.Now()
		r := w.run("cindex", upd...)
		t1 := time.Now()
		if r.code != 0 {
			close(stop)
			wg.Wait()
			c.Fail("cindex %q during searches: status %d: %s", upd, r.code, r.err)
		}
		periods[len(periods)-1].to = t1
		periods = append(periods, period{version: 1, from: t0})
		time.Sleep(time.Duration(c.IntN(60)) * time.Millisecond)
		t0 = time.Now()
		tmp := w.idx + ".old"
		if os.WriteFile(tmp, old, 0o600) != nil || os.Rename(tmp, w.idx) != nil {
			harness("putting the old index back")
		}
		t1 = time.Now()
		periods[len(periods)-1].to = t1
		periods = append(periods, period{version: 0, from: t0})
	}
	time.Sleep(time.Duration(c.IntN(30)) * time.Millisecond)
	close(stop)
	wg.Wait()
	periods[len(periods)-1].to = time.Now()
	server.check(c, fmt.Sprintf("%d concurrent requests", len(answers)))
	for _, a := range answers {
		x := queries[a.x]
		what := fmt.Sprintf("csweb q=%q f=%q with other requests and updates", x.q, x.f)
		if a.err != nil {
			c.Fail("%s: %v\n%s", what, a.err, server.log())
		}
		c.Count("requests", 1)
		c.Count("concurrent_requests", 1)
		c.Seen(c.Case, x.q, x.f)
		results := c.webPage(what, x.q, a.pg)
		var allowed [2]bool
		for _, p := range periods {
			if !a.to.Before(p.from) && !a.from.After(p.to) {
				allowed[p.version] = true
			}
		}
		if allowed[0] && allowed[1] {
			c.Count("during_update", 1)
		}
		problem := ""
		ok := false
		for v := range 2 {
			if !allowed[v] {
				continue
			}
			body, _, found := cutLast(results, fmt.Sprintf("\n%d matches in ", x.n[v]))
			if !found {
				problem += fmt.Sprintf("; version %d: no count of %d matches in %q", v, x.n[v], results[max(0, len(results)-100):])
				continue
			}
			l, p := tokenize(body)
			if p != "" {
				c.Fail("%s: %s", what, p)
			}
			if d := firstDiff([]byte(plainText(l)), []byte(x.want[v])); d != "" {
				problem += fmt.Sprintf("; version %d: %s", v, d)
				continue
			}
			ok = true
			if x.want[0] != x.want[1] {
				c.Count([]string{"old_answers", "new_answers"}[v], 1)
			}
			break
		}
		if !ok {
			c.Fail("%s: the answer is that of no index current at the time (old %v, new %v)%s", what, allowed[0], allowed[1], problem)
		}
	}
	c.Sample("%d concurrent requests during %d index replacements", len(answers), len(periods)-1)
	// The same new query from all clients at the same moment, while the
	// states of its automaton are being built.
	now := m0.docs
	for range 2 {
		q := fmt.Sprintf("%s[ab]{%d}%s", pick(c, []string{"a", "b", "(ab|ba)", "(?i)A"}), 8+c.IntN(5), pick(c, []string{"c", "cc", "c$", "cb"}))
		f := ""
		if c.Chance(3) {
			f = pick(c, []string{"rand", "[abr].*[/dn].*d[0-7]$"})
		}
		want, n, _ := webWant(now, q, f)
		var pages [clients]page
		var errs [clients]error
		gate := make(chan bool)
		for i := range clients {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				pages[i], errs[i] = server.get(searchURL(q, f))
			}()
		}
		close(gate)
		wg.Wait()
		what := fmt.Sprintf("csweb q=%q f=%q from %d clients at once", q, f, clients)
		server.check(c, what)
		for i := range clients {
			if errs[i] != nil {
				c.Fail("%s: %v\n%s", what, errs[i], server.log())
			}
			c.Count("requests", 1)
			c.Count("same_query_requests", 1)
			results := c.webPage(what, q, pages[i])
			body, _, found := cutLast(results, fmt.Sprintf("\n%d matches in ", n))
			if !found {
				c.Fail("%s: no count of %d matches in %q", what, n, results[max(0, len(results)-100):])
			}
			l, p := tokenize(body)
			if p != "" {
				c.Fail("%s: %s", what, p)
			}
			if d := firstDiff([]byte(plainText(l)), []byte(want)); d != "" {
				c.Fail("%s: %s", what, d)
			}
		}
	}
	// The server must not keep the indexes of finished requests.
	maps, _ := os.ReadFile(fmt.Sprintf("/proc/%d/maps", server.cmd.Process.Pid))
	n := bytes.Count(maps, []byte(w.idx))
	c.Count("mappings_seen", n)
	if n > 200 {
		c.Fail("csweb holds %d mappings of the index after %d requests have ended", n, len(answers))
	}
}

// webLimit: exactly as many matches as are shown at most, and more.
func (c *C) webLimit(w *world) {
	const limit = 100000
	for _, extra := range []int{0, 1} {
		w.tryWrite("a", strings.Repeat("y\n", limit/2))
		w.tryWrite("b", strings.Repeat("y\n", limit/2+extra))
		w.must("cindex", w.tree)
		pg := server.must(c, searchURL("y", ""))
		c.Count("requests", 1)
		c.Count("limit_cases", 1)
		results := c.webPage("csweb at the limit", "y", pg)
		l, problem := tokenize(results)
		if problem != "" {
			c.Fail("csweb at the limit: %s", problem)
		}
		s := plainText(l)
		if n := strings.Count(s, ":y\n"); n != limit {
			c.Fail("csweb with %d matching lines shows %d", limit+extra, n)
		}
		if !strings.Contains(s, fmt.Sprintf("\n%d matches in", limit)) {
			c.Fail("csweb with %d matching lines: page ends %q", limit+extra, s[max(0, len(s)-200):])
		}
		if got := strings.Contains(s[max(0, len(s)-200):], "limit"); got != (extra > 0) {
			c.Fail("csweb with %d matching lines: says limited: %v", limit+extra, got)
		}
	}
}
