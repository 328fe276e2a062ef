package main

import (
	"bufio"
	"bytes"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"
)

func init() {
	register(&Prop{ID: "C38", Quick: 80, Thorough: 1500, Procs: 1, Run: runC38, Init: startWeb, Fini: stopWeb, Stall: 150 * time.Second,
		Rule:     "requests of all kinds (searches in files and archives, with filters, of bad expressions, at the limit; views of files, directories, missing and unreadable names; static files; clients that go away in the middle of an answer; an index replaced in between) to one csweb; after each answer has arrived whole, the files and mappings that the server holds are read from /proc and none may lie in the searched trees or be the index; descriptors, threads and anonymous memory must not grow over the run; non-trivial: a request that opened files; distinct by request",
		Assume:   []string{"after a client has gone away the server may take 20 s to notice"},
		MinEvent: map[string]int64{"requests": 2500, "quiet_after_request": 2500, "archive_searches": 300, "aborted_requests": 100, "error_pages": 200, "limit_cases": 2}})
}

// held lists the open files and mappings of the server below dir.
func (s *web) held(dir string) (l []string, fds, threads int) {
	p := fmt.Sprintf("/proc/%d/", s.cmd.Process.Pid)
	ents, _ := os.ReadDir(p + "fd")
	for _, e := range ents {
		t, err := os.Readlink(p + "fd/" + e.Name())
		if err != nil {
			continue
		}
		fds++
		if strings.HasPrefix(t, dir+"/") {
			l = append(l, "open file "+t)
		}
	}
	maps, _ := os.ReadFile(p + "maps")
	for _, m := range bytes.Split(maps, []byte("\n")) {
		if i := bytes.Index(m, []byte(dir+"/")); i >= 0 {
			l = append(l, "mapping of "+string(m[i:]))
		}
	}
	st, _ := os.ReadFile(p + "status")
	if _, b, ok := bytes.Cut(st, []byte("Threads:")); ok {
		fmt.Sscan(string(b), &threads)
	}
	return
}

// settle waits until csweb has come to all requests it was sent: none of its
// connections waits to be accepted, and it has none open.
func (s *web) settle() bool {
	client.CloseIdleConnections()
	p := fmt.Sprintf("/proc/%d/fd", s.cmd.Process.Pid)
	for end := time.Now().Add(30 * time.Second); time.Now().Before(end); time.Sleep(10 * time.Millisecond) {
		listen, waiting := map[string]bool{}, 0
		for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
			b, _ := os.ReadFile(f)
			for _, row := range strings.Split(string(b), "\n") {
				// sl local remote state tx:rx tr:tm retransmits uid timeout inode
				if f := strings.Fields(row); len(f) > 9 && strings.HasSuffix(f[1], fmt.Sprintf(":%04X", 2473)) && f[3] == "0A" {
					listen["socket:["+f[9]+"]"] = true
					if !strings.HasSuffix(f[4], ":00000000") {
						waiting++
					}
				}
			}
		}
		open := 0
		ents, _ := os.ReadDir(p)
		for _, e := range ents {
			if t, _ := os.Readlink(p + "/" + e.Name()); strings.HasPrefix(t, "socket:") && !listen[t] {
				open++
			}
		}
		if waiting == 0 && open == 0 {
			return true
		}
	}
	return false
}

// gone sends a request, reads a little and closes the connection.
func (c *C) gone(target string, read int) {
	conn, err := net.Dial("tcp", webAddr)
	if err != nil {
		c.Fail("csweb does not accept a connection: %v\n%s", err, server.log())
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n", target)
	if read > 0 {
		r := bufio.NewReaderSize(conn, 16)
		r.Discard(read)
	}
}

// base is what the server held at rest before the first case.
var webBase struct {
	fds, threads int
	mem          int64
}

func runC38(c *C) {
	w := newWorld(c, "w")
	for _, t := range []string{"a", "b"} {
		for i := range 3 + c.IntN(6) {
			w.tryWrite(fmt.Sprintf("%s/%s%d", t, w.genName(20), i), genContent(c, 200+c.IntN(3000)))
		}
	}
	for i := range 2 + c.IntN(3) {
		w.tryWrite(fmt.Sprintf("a/z%d.zip", i), string(w.genZip()))
	}
	big := w.tree + "/b/big"
	w.tryWrite("b/big", strings.Repeat("line of return text\n", 20000))
	w.tryWrite("b/bad.zip", "PK\x03\x04 not really")
	w.must("cindex", "-zip", w.tree)
	docs := refWalk(w.tree, true)
	quiet := func(what string, wait time.Duration) {
		server.check(c, what)
		end := time.Now().Add(wait)
		for {
			l, fds, threads := server.held(w.dir)
			if len(l) == 0 && fds > 0 && threads < 100 {
				c.Count("quiet_after_request", 1)
				return
			}
			if time.Now().After(end) {
				c.Fail("%s: after the request, csweb still holds %q (%d descriptors, %d threads)", what, l, fds, threads)
			}
			time.Sleep(20 * time.Millisecond)
		}
	}
	exprs := []string{"e", "hello", "abc", "[a-z]+", "foo|bar", "return", "^", "(?i)INT", "世", "zzzz", "t$", "member", "", "(", "a**", "[z-a]"}
	filters := []string{"", "", "zip", "/a/", "[0-4]$", "big", "(", "nosuch"}
	static := []string{"/_static/viewer.css", "/_static/viewer.js", "/_static/", "/_static/nosuch"}
	if c.Chance(8) { // more matches than are shown
		w.tryWrite("a/many", strings.Repeat("e\n", 60000))
		w.tryWrite("b/more", strings.Repeat("e\n", 60000))
		w.must("cindex", w.tree+"/a", w.tree+"/b")
		c.Count("limit_cases", 1)
	}
	for i := range 80 {
		var t string
		// Clients go away in the last requests only: the server may come to
		// such a request when it is already answering a later one.
		before, aborted := time.Duration(0), false
		kind := c.IntN(10)
		if i < 60 && (kind == 4 || kind == 5) {
			kind = 6
		} else if i >= 60 {
			before = 20 * time.Second
		}
		switch kind {
		case 0: // a view
			t = showURL(strings.SplitN(pick(c, docs).name, "\x01", 2)[0])
		case 1:
			t = showURL(pick(c, []string{w.tree, w.tree + "/a", w.tree + "/b/", w.dir}))
		case 2: // nothing to view
			t = showURL(w.dir + "/" + pick(c, []string{"nosuch", "src/a/none", "ix/index/x", strings.Repeat("n", 300)}))
			c.Count("error_pages", 1)
		case 3:
			t = pick(c, static)
		case 4, 5: // the client goes away
			aborted = true
			t = searchURL(pick(c, exprs[:8]), "")
			if c.Chance(3) {
				t = showURL(big)
			}
			c.gone(t, pick(c, []int{0, 1, 100, 5000, 100000}))
			c.Count("aborted_requests", 1)
		default:
			q, f := pick(c, exprs), pick(c, filters)
			if c.Chance(2) {
				q, f = pick(c, exprs[:12]), "zip"
				c.Count("archive_searches", 1)
			}
			t = searchURL(q, f)
			if i%20 == 7 { // an update in between
				w.tryWrite(fmt.Sprintf("a/new%d", i), genContent(c, 100))
				w.must("cindex", "-zip", w.tree+"/a")
			}
		}
		if !aborted {
			pg := server.must(c, t)
			if pg.status != 200 {
				c.Count("error_pages", 1)
			}
		}
		c.Count("requests", 1)
		c.Seen(c.Case, t)
		quiet(fmt.Sprintf("request %d (%.200s)", i, t), before)
	}
	if server.settle() {
		c.Count("settled", 1)
	}
	quiet("the last request", 20*time.Second)
	// Over the run nothing may pile up. Connections that are idle, and freed
	// memory that the runtime keeps, are no leak.
	client.CloseIdleConnections()
	var fds, threads int
	for range 50 {
		time.Sleep(20 * time.Millisecond)
		_, fds, threads = server.held(w.dir)
		if webBase.fds == 0 || fds <= webBase.fds+8 {
			break
		}
	}
	mem := anonMB(server.cmd.Process.Pid)
	if webBase.fds == 0 {
		webBase.fds, webBase.threads, webBase.mem = fds, threads, mem
	}
	c.Sample("%d descriptors, %d threads, %d MB after case %d", fds, threads, mem, c.Case)
	if fds > webBase.fds+16 || threads > webBase.threads+64 || mem > webBase.mem+400 {
		c.Fail("csweb at rest holds %d descriptors, %d threads and %d MB; after the first requests it was %d, %d and %d MB", fds, threads, mem, webBase.fds, webBase.threads, webBase.mem)
	}
	os.RemoveAll(filepath.Join(w.dir, "src"))
	if webAsked += 80; c.Case%40 == 39 {
		goroutines(c)
	}
}

// webAsked is the number of requests to the server that is running.
var webAsked int

// goroutines has the server, at rest, print what its goroutines do (which ends
// it) and starts another.
func goroutines(c *C) {
	client.CloseIdleConnections()
	time.Sleep(300 * time.Millisecond)
	server.cmd.Process.Signal(syscall.SIGQUIT)
	select {
	case <-server.dead:
	case <-time.After(20 * time.Second):
		harness("csweb does not stop for SIGQUIT")
	}
	out, _ := os.ReadFile(server.errf)
	l := regexp.MustCompile(`(?m)^goroutine \d+ .*\n.*$`).FindAllString(string(out), -1)
	if len(l) == 0 {
		harness("csweb prints no goroutines for SIGQUIT: %.500s", out)
	}
	c.Count("goroutine_dumps", 1)
	c.Sample("%d goroutines after %d requests", len(l), webAsked)
	if len(l) > 40+webAsked/16 {
		c.Fail("csweb at rest has %d goroutines after %d requests; one of them: %s", len(l), webAsked, l[len(l)/2])
	}
	webAsked = 0
	webBase.fds = 0
	startWeb(c)
}
