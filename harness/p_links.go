package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"maps"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"time"
)

func init() {
	register(&Prop{ID: "C33", Quick: 144, Thorough: 2500, Procs: 1, Run: runC33, Init: startWeb, Fini: stopWeb,
		Rule:     "trees with names full of characters that mean something in links, in HTML and in expressions; every link on the pages of csearch -html, csweb searches, file views and directory views is resolved as a browser does and followed on the real server; the page it leads to must be the view of the file, directory or line that the link names; non-trivial: a followed link; distinct by link",
		Assume:   []string{"csweb has no view of a member of an archive (marked TODO in the source): those links are not followed", "relative links of csearch -html are relative to the top of the server, as csweb's own are"},
		MinEvent: map[string]int64{"links": 1500, "line_links": 400, "file_links": 150, "dir_links": 300, "crumbs": 150, "odd_links": 500, "redirects": 50}})
}

var follower = &http.Client{Timeout: 60 * time.Second, Transport: client.Transport}

// follow resolves a link found on the page base and returns the page it leads to.
func (c *C) follow(what, base, href string) (page, *url.URL) {
	b, err := url.Parse("http://" + webAddr + base)
	if err != nil {
		harness("%v", err)
	}
	u, err := b.Parse(href)
	if err != nil {
		c.Fail("%s: link %q: %v", what, href, err)
	}
	if u.Host != b.Host || u.Scheme != "http" {
		c.Fail("%s: link %q leads off to %s", what, href, u)
	}
	r, err := follower.Get(u.String())
	if err != nil {
		server.check(c, what)
		c.Fail("%s: following %q: %v", what, href, err)
	}
	defer r.Body.Close()
	body, err := io.ReadAll(r.Body)
	if err != nil {
		c.Fail("%s: following %q: %v", what, href, err)
	}
	c.Count("links", 1)
	if r.Request.URL.Path != u.Path {
		c.Count("redirects", 1)
	}
	if strings.ContainsAny(href, "%&+?") {
		c.Count("odd_links", 1)
	}
	c.Seen(href)
	return page{r.StatusCode, r.Header.Get("Content-Type"), r.Header.Get("X-Content-Type-Options"), body}, u
}

// view splits a view into title and lines by id; ok is false if the page is
// not one.
func view(pg page) (title string, lines map[string]string, ok bool) {
	if !bytes.HasPrefix(pg.body, []byte("<!DOCTYPE html>\n<head>")) {
		return "", nil, false
	}
	l, problem := tokenize(string(pg.body))
	if problem != "" {
		return "", nil, false
	}
	lines = map[string]string{}
	for i, t := range l {
		if i+1 >= len(l) || l[i+1].name != "" {
			continue
		}
		switch t.name {
		case "title":
			title = strings.TrimSuffix(l[i+1].text, " - code search")
		case "span":
			lines[t.attrs["id"]] = l[i+1].text
		}
	}
	return title, lines, true
}

// leadsTo judges the page that a link led to: the file or directory p.
func (c *C) leadsTo(what, href, p string, pg page) (lines map[string]string) {
	if pg.status != 200 {
		c.Fail("%s: link %q: status %d: %.200q", what, href, pg.status, pg.body)
	}
	info, err := os.Stat(p)
	if err != nil {
		harness("%v", err)
	}
	if !info.IsDir() {
		data, _ := os.ReadFile(p)
		if string(pg.body) == string(data) && !viewable(string(data)) {
			return nil // shown as it is
		}
	}
	title, lines, ok := view(pg)
	if !ok || title != p {
		c.Fail("%s: link %q leads to a page titled %q, not to %q", what, href, title, p)
	}
	return lines
}

var linkNames = []string{"a#b", "a?b", "100%", "a%41", "a%2fb", "%", "a+b", "\xff\xfe", "q\"q", "it's", "<b>", "&lt;", "&amp", "C:\\x", "javascript:x", "a b", " ", "a;b=c", "é", "世界", "http:", "a&b", "a@b", "x\x7f", "x\ty", "{}", "[1]", "^|`", "~", "*", "a:b", "?", "?q=x", "#L1", "a#L2", "-n", ">", "a>b", "..x", "x..", "...", "a,b", "$1", "=", "a=b&c=d"}

func (c *C) linkName() string {
	n := pick(c, linkNames)
	if c.Chance(3) {
		n += pick(c, linkNames)
	}
	if refHidden(n) {
		n = "x" + n + "x"
	}
	return n
}

// oddLines is a text with lines that are hard to see.
func oddLines(c *C) string {
	var b strings.Builder
	for n := 3 + c.IntN(30); n > 0; n-- {
		b.WriteString(pick(c, []string{"", "", "\f", "\f\f", "\fx", "x\f", " ", "\t", "a", "x &", "<e>", "text é", "  x  ", strings.Repeat("e", 1+c.IntN(400))}))
		b.WriteString("\n")
	}
	if b.Len() > 1100 && c.Chance(2) {
		b.WriteString(pick(c, []string{"x\r\ne\r\n\r\ny", "a\x01\ne", "x\v\n\v\ne\n"}))
	}
	return strings.TrimSuffix(b.String(), pick(c, []string{"\n", ""}))
}

// browser runs the script of a page as a browser does once the page is loaded,
// for a page with the given elements, and prints the elements that are marked.
const browser = `
const {script, onload, views} = JSON.parse(require("fs").readFileSync(0, "utf8"))
const vm = require("vm")
const out = []
for (const {ids, hash} of views) {
	const els = new Map(ids.map(id => {
		const set = new Set()
		return [id, {
			id, style: {}, scrollIntoView() {}, focus() {},
			classList: {add: (...l) => l.forEach(x => set.add(x)), remove: (...l) => l.forEach(x => set.delete(x)), toggle: x => set.has(x) ? !set.delete(x) : !!set.add(x), contains: x => set.has(x)},
			get className() { return [...set].join(" ") },
			set className(v) { set.clear(); v.split(" ").filter(x => x).forEach(x => set.add(x)) },
		}]
	}))
	const later = []
	const listen = (kind, f) => { if (kind == "load" || kind == "DOMContentLoaded") later.push(f) }
	const location = {hash, href: "http://h/show/x" + hash, pathname: "/show/x", search: ""}
	const get = id => els.get(id) || null
	const document = {
		location, addEventListener: listen, body: {},
		getElementById: get,
		querySelector: s => s[0] == "#" ? get(s.slice(1)) : null,
		querySelectorAll: s => s == "span" ? [...els.values()] : s == ".sel" ? [...els.values()].filter(e => e.classList.contains("sel")) : [],
	}
	const g = {location, document, addEventListener: listen, console}
	g.window = g
	vm.createContext(g)
	vm.runInContext(script, g)
	later.forEach(f => f({}))
	if (g.onload) g.onload({})
	vm.runInContext(onload, g)
	out.push([...els.values()].filter(e => e.className || Object.keys(e.style).length).map(e => [e.id, e.className, Object.keys(e.style).length]))
}
console.log(JSON.stringify(out))
`

type marked struct {
	Ids  []string `json:"ids"`
	Hash string   `json:"hash"`
}

// checkMarks judges which lines the pages mark when they are loaded.
func (c *C) checkMarks(views []marked) {
	node, err := exec.LookPath("node")
	if err != nil || len(views) == 0 {
		return
	}
	script := server.must(c, "/_static/viewer.js")
	css := string(server.must(c, "/_static/viewer.css").body)
	in, _ := json.Marshal(map[string]any{"script": string(script.body), "onload": "highlight()", "views": views})
	cmd := exec.Command(node, "-e", browser)
	cmd.Stdin = bytes.NewReader(in)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		c.Fail("the script of the page fails: %v\n%.600s", err, stderr.Bytes())
	}
	var got [][][]any
	if err := json.Unmarshal(out, &got); err != nil || len(got) != len(views) {
		harness("node: %v: %.300q", err, out)
	}
	for i, v := range views {
		want := strings.TrimPrefix(v.Hash, "#")
		if !slices.Contains(v.Ids, want) {
			want = ""
		}
		ok := want == "" && len(got[i]) == 0
		if want != "" && len(got[i]) == 1 && got[i][0][0] == want {
			for _, class := range strings.Fields(got[i][0][1].(string)) {
				ok = ok || strings.Contains(css, "."+class)
			}
			ok = ok || got[i][0][2].(float64) > 0
		}
		if !ok {
			c.Fail("a view of %d lines opened at %q marks %v", len(v.Ids), v.Hash, got[i])
		}
		c.Count("lines_marked", 1)
	}
}

func runC33(c *C) {
	var marks []marked
	w := newWorld(c, "w")
	hostileTree(c, w)
	for range 4 + c.IntN(6) {
		p := ""
		for d := c.IntN(3); d > 0; d-- {
			p += c.linkName() + "/"
		}
		w.tryWrite(p+c.linkName(), pick(c, []string{genContent(c, c.IntN(300)), "x\n" + hostile(c, 4) + "\nx &\ntext", "a\nb", oddLines(c)}))
	}
	w.tryWrite(c.linkName()+"dir/raw", "x\x01\x02\ny") // not shown as text
	if c.Chance(3) {                                   // line numbers of many digits
		var b strings.Builder
		for i, n := 1, pick(c, []int{999, 1002, 1234, 10001, 12345}); i <= n; i++ {
			if i == n || c.Chance(n/5) {
				b.WriteString("#yt<&e")
			}
			b.WriteString("\n")
		}
		w.tryWrite("long", b.String())
	}
	w.must("cindex", "-zip", w.tree)
	m := &idxModel{}
	m.update([]string{w.tree}, true)
	docs := map[string]doc{}
	for _, d := range m.docs {
		docs[d.name] = d
	}
	exprs := []string{"x", "<", "a|b", "e", "&", "\"|'", "[+]|text", "a +|x", "t$|#", "#yt", "%|e", "x|;", "é|x", "a|\\?"}

	// results follows the links of search results, n at most.
	results := func(what, base, body, expr string, n int) {
		l, problem := tokenize(body)
		if problem != "" {
			c.Fail("%s: %s", what, problem)
		}
		var links []int
		for i, t := range l {
			if t.name == "a" && i+1 < len(l) && l[i+1].name == "" {
				links = append(links, i)
			}
		}
		c.Shuffle(len(links), func(i, j int) { links[i], links[j] = links[j], links[i] })
		for _, i := range links[:min(n, len(links))] {
			href, text := l[i].attrs["href"], l[i+1].text
			name, line := text, ""
			if _, ok := docs[name]; !ok {
				j := strings.LastIndex(text, ":")
				if j < 0 {
					c.Fail("%s: link text %q", what, text)
				}
				name, line = text[:j], text[j+1:]
			}
			d, ok := docs[name]
			if !ok {
				c.Fail("%s: link text %q names no file", what, text)
			}
			if strings.Contains(name, "\x01") {
				continue
			}
			pg, u := c.follow(what, base, href)
			lines := c.leadsTo(what, href, name, pg)
			if u.RawQuery != "" {
				q := u.Query()
				if len(q) != 1 || len(q["q"]) != 1 || !strings.HasSuffix(q.Get("q"), expr) {
					c.Fail("%s: link %q carries %v, not the query %q", what, href, q, expr)
				}
				c.Count("queries", 1)
			}
			if line == "" {
				c.Count("file_links", 1)
				continue
			}
			c.Count("line_links", 1)
			if u.Fragment != "L"+line {
				c.Fail("%s: link %q with text %q has the fragment %q", what, href, text, u.Fragment)
			}
			if lines == nil {
				continue
			}
			// The text after the link is the line.
			shown := ""
			if i+3 < len(l) && l[i+2].name == "/a" {
				shown, _, _ = strings.Cut(strings.TrimPrefix(l[i+3].text, ":"), "\n")
			}
			want := fmt.Sprintf("%s  %s\n", line, shown)
			if got, ok := lines[u.Fragment]; !ok || strings.TrimLeft(got, " ") != want {
				c.Fail("%s: link %q leads to the line %q of %q, not %q", what, href, got, d.name, want)
			}
			marks = append(marks, marked{slices.Sorted(maps.Keys(lines)), "#" + u.Fragment})
		}
	}
	for range 3 {
		e := pick(c, exprs)
		pg := server.must(c, searchURL(e, ""))
		what := fmt.Sprintf("csweb q=%q", e)
		results(what, searchURL(e, ""), c.webPage(what, e, pg), e, 12)
		args := []string{"-html", pick(c, []string{"-n", "-l", "-c", "-h"}), "--", e}
		r := w.run("csearch", args...)
		results(fmt.Sprintf("csearch %q", args), "/", string(r.out), e, 8)
	}

	// page follows the links of a view: those of the head, and of the entries.
	viewPage := func(p string) {
		info, err := os.Stat(p)
		if err != nil {
			harness("%v", err)
		}
		target := showURL(p)
		pg := server.must(c, target)
		what := fmt.Sprintf("view of %q", p)
		if !info.IsDir() {
			if data, _ := os.ReadFile(p); !viewable(string(data)) {
				return
			}
		}
		c.leadsTo(what, target, p, pg)
		l, problem := tokenize(string(pg.body))
		if problem != "" {
			c.Fail("%s: %s", what, problem)
		}
		var entries []string
		if info.IsDir() {
			ents, _ := os.ReadDir(p)
			for _, e := range ents {
				entries = append(entries, e.Name())
			}
		}
		crumbs := strings.Split(p, "/") // "", "tmp", ...
		var got []string
		k, n := 0, 0
		for i, t := range l {
			if t.name == "link" || t.name == "script" {
				href := t.attrs["href"] + t.attrs["src"]
				if s, _ := c.follow(what, target, href); s.status != 200 || len(s.body) == 0 {
					c.Fail("%s: link %q: status %d", what, href, s.status)
				}
				continue
			}
			if t.name != "a" {
				continue
			}
			text := ""
			if i+1 < len(l) && l[i+1].name == "" {
				text = l[i+1].text
			}
			href := t.attrs["href"]
			switch {
			case href == "/" && text == "about":
				if s, _ := c.follow(what, target, href); s.status != 200 || !bytes.Contains(s.body, []byte("<form")) {
					c.Fail("%s: no search page behind %q", what, href)
				}
			case k < len(crumbs):
				if text != crumbs[k] {
					c.Fail("%s: part %d of the name is shown as %q", what, k, text)
				}
				k++
				if k < len(crumbs)-3 && !c.Chance(4) { // the scratch directory
					continue
				}
				s, _ := c.follow(what, target, href)
				c.leadsTo(what, href, filepath.Clean("/"+strings.Join(crumbs[:k], "/")), s)
				c.Count("crumbs", 1)
			default:
				got = append(got, text)
				n++
				if n > 15 {
					continue
				}
				s, _ := c.follow(what, target, href)
				if st, err := os.Stat(p + "/" + text); err == nil && (st.IsDir() || st.Mode().IsRegular()) {
					c.leadsTo(what, href, p+"/"+text, s)
					c.Count("dir_links", 1)
				}
			}
		}
		if k != len(crumbs) || !slices.Equal(got, entries) {
			c.Fail("%s: %d links to the parts of the name, entries %q, want %q", what, k, got, entries)
		}
	}
	viewPage(w.tree)
	for range 3 {
		if d := pick(c, m.docs); !strings.Contains(d.name, "\x01") {
			viewPage(d.name)
			viewPage(filepath.Dir(d.name))
		}
	}
	if len(marks) > 0 {
		marks = append(marks, marked{marks[0].Ids, ""}, marked{marks[0].Ids, "#L0"}, marked{marks[0].Ids, "#other"})
	}
	c.checkMarks(marks)
	server.check(c, "after C33 pages")
}
