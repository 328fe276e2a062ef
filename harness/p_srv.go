package main

// C43: csweb serves this machine only, and no request stops it.

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register(&Prop{ID: "C43", Quick: 60, Thorough: 1500, Procs: 1, Run: runC43, Init: startWeb, Fini: stopWeb, Stall: 240 * time.Second,
		Rule:     "raw bytes, malformed and odd requests (methods, headers, bodies, uploads, paths, escapes, sizes), connections that stay silent or stop in the middle, views of devices, pipes, sockets and links to them, and expressions made to explode, one after the other and together; meanwhile other clients must get the right answer to a search; the memory of the server is watched, the addresses it listens on are read from /proc, and the tree, the index and the temporary directory are compared before and after; distinct by request",
		Assume:   []string{"memory for automaton states while a very large text is searched is not limited", "a request is answered within 60 s"},
		MinEvent: map[string]int64{"raw_requests": 700, "valid_requests": 600, "special_views": 400, "explosive_queries": 400, "probes": 2000, "listening_sockets": 50, "slow_clients": 400, "uploads": 80}})
}

// listening lists the addresses on which the server accepts connections.
func (s *web) listening() (l []string) {
	p := fmt.Sprintf("/proc/%d/", s.cmd.Process.Pid)
	mine := map[string]bool{}
	ents, _ := os.ReadDir(p + "fd")
	for _, e := range ents {
		t, _ := os.Readlink(p + "fd/" + e.Name())
		if rest, ok := strings.CutPrefix(t, "socket:["); ok {
			mine[strings.TrimSuffix(rest, "]")] = true
		}
	}
	for _, f := range []string{"tcp", "tcp6", "udp", "udp6"} {
		b, _ := os.ReadFile(p + "net/" + f)
		for _, line := range strings.Split(string(b), "\n") {
			f := strings.Fields(line)
			if len(f) > 9 && mine[f[9]] && (f[3] == "0A" || f[3] == "07") {
				l = append(l, f[1])
			}
		}
	}
	return
}

// raw sends bytes and returns what comes back until the server closes the
// connection or says nothing for the given time.
func (c *C) raw(data []byte, closeWrite bool, wait time.Duration) []byte {
	conn, err := net.DialTimeout("tcp", webAddr, 30*time.Second)
	if err != nil {
		server.check(c, "connection")
		c.Fail("csweb does not accept a connection: %v\n%s", err, server.log())
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	conn.Write(data) // the server may refuse to read all of it
	if closeWrite {
		conn.(*net.TCPConn).CloseWrite()
	}
	var b []byte
	buf := make([]byte, 64<<10)
	for len(b) < 64<<20 {
		conn.SetReadDeadline(time.Now().Add(wait))
		n, err := conn.Read(buf)
		b = append(b, buf[:n]...)
		if err != nil {
			break
		}
	}
	return b
}

// The tree and the index stay: a request that is no longer waited for may
// still be at work in the next case.
var srv struct {
	w      *world
	marker string
	want   string
	names  []string
	files  []string
	before map[string]string
}

var (
	viewSizes = []int{0, 1, 2, 3, 4, 5, 63, 64, 65, 255, 256, 257, 511, 512, 513, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 1028, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 1<<20 - 1, 1 << 20, 1<<20 + 1}
	viewTexts = []string{"a", "line\n", "é", "世", "😀\n", "a世", "\xff", "\n", "x"}
)

func startC43(c *C) {
	rnd := c.Rand
	c.Rand = caseRand("C43/world", c.Seed, 0)
	defer func() { c.Rand = rnd }()
	w := newWorld(c, "w")
	for i := range 4 + c.IntN(8) {
		w.tryWrite(fmt.Sprintf("a/%s%d", w.genName(20), i), genContent(c, 200+c.IntN(2000)))
	}
	w.tryWrite("a/z.zip", string(w.genZip()))
	// Pages that fit in no socket buffer, for clients that do not read.
	w.tryWrite("a/wide", strings.Repeat(strings.Repeat("wide ", 300)+"\n", 12_000))
	marker := fmt.Sprintf("marker%dx", c.IntN(1e6))
	w.write("a/marked", "text\nthe "+marker+" line\n")
	for _, target := range []string{"/?q=" + marker, "/?q=.&f=a", "/", "/show" + w.tree, "/?q=("} {
		what := "before there is an index: " + target
		pg, err := server.get(target)
		server.check(c, what)
		if err != nil {
			c.Fail("%s: not answered: %v", what, err)
		}
		if strings.Contains(string(pg.body), " matches in ") {
			c.Fail("%s: the answer is %.1000q", what, pg.body)
		}
	}
	// Files of every kind whose sizes are those of buffers and prefixes.
	os.Mkdir(w.dir+"/views", 0o777)
	for _, n := range viewSizes {
		for k, s := range viewTexts {
			b := []byte(strings.Repeat(s, n/len(s)+1)[:n])
			if k == len(viewTexts)-1 && n > 0 {
				b[n-1] = 0
			}
			if err := os.WriteFile(fmt.Sprintf("%s/views/%d-%d", w.dir, k, n), b, 0o666); err != nil {
				harness("%v", err)
			}
		}
	}
	w.must("cindex", "-zip", w.tree)
	docs := refWalk(w.tree, true)
	want, _, names := webWant(docs, marker, "")
	special := w.dir + "/special"
	os.Mkdir(special, 0o777)
	syscall.Mkfifo(special+"/pipe", 0o666)
	net.Listen("unix", special+"/sock")
	for name, to := range map[string]string{"zero": "/dev/zero", "random": "/dev/urandom", "full": "/dev/full", "null": "/dev/null", "loop": "loop", "dangling": "nowhere", "topipe": "pipe", "dir": ".", "stdin": "/dev/null"} {
		os.Symlink(to, special+"/"+name)
	}
	files := []string{special + "/pipe", special + "/sock", special + "/zero", special + "/random", special + "/full", special + "/null", special + "/loop", special + "/dangling", special + "/topipe", special + "/dir/dir/dir/zero",
		"/dev/zero", "/dev/null", "/dev/full", "/dev/urandom", special, special + "/", special + "/dir", w.tree + "/a/marked/", w.tree + "/a/../a//marked", w.dir + "/src/./a", w.dir + "/" + strings.Repeat("x/", 3000), w.dir + "/\x00", w.dir + "/\xff"}
	before := snapshot(w.dir, func(p string) bool { return strings.Contains(p, "/special") })
	srv.w, srv.marker, srv.want, srv.names, srv.files, srv.before = w, marker, want, names, files, before
}

func runC43(c *C) {
	if srv.w == nil {
		startC43(c)
	}
	w, marker, want, names, files, before := srv.w, srv.marker, srv.want, srv.names, srv.files, srv.before

	// The memory of the server is watched all the time.
	var most atomic.Int64
	stop := make(chan bool)
	watched := make(chan bool)
	go func() {
		defer close(watched)
		for {
			select {
			case <-stop:
				return
			case <-time.After(10 * time.Millisecond):
			}
			m := anonMB(server.cmd.Process.Pid)
			most.Store(max(most.Load(), m))
			if m > 1500 {
				server.cmd.Process.Kill()
				return
			}
		}
	}()
	defer func() { close(stop); <-watched }()
	check := func(what string) {
		if m := most.Load(); m > 1500 {
			c.Fail("%s: csweb needs %d MB", what, m)
		}
		server.check(c, what)
	}
	probe := func(what string) {
		check(what)
		pg, err := server.get(searchURL(marker, ""))
		if err != nil {
			check(what)
			c.Fail("%s: then csweb does not answer a search: %v\n%s", what, err, server.log())
		}
		if pg.status != 200 {
			c.Fail("%s: then a search is answered with status %d", what, pg.status)
		}
		n := strings.Count(want, "\n")
		body, _, ok := cutLast(c.webPage(what+": search", marker, pg), fmt.Sprintf("\n%d matches in ", n))
		if !ok {
			c.Fail("%s: then a search yields %.1000q", what, pg.body)
		}
		c.htmlResults(what+": search", body, want, n, names)
		check(what)
		c.Count("probes", 1)
	}
	var open []net.Conn // slow clients
	defer func() {
		for _, conn := range open {
			conn.Close()
		}
	}()
	esc := func(s string) string { return url.QueryEscape(s) }
	for i := range 60 {
		var what string
		switch kind := c.IntN(12); kind {
		case 0, 1, 2: // bytes that are no request, or an odd one
			var b []byte
			switch c.IntN(10) {
			case 0:
				b = make([]byte, c.IntN(3000))
				for i := range b {
					b[i] = byte(c.Uint32())
				}
			case 1:
				b = []byte(pick(c, []string{"\r\n\r\n", "GET\r\n\r\n", "GET /\r\n\r\n", "GET / HTTP/9.9\r\n\r\n", "GET / HTTP/0.9\r\n\r\n", "get / http/1.1\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "GET  / HTTP/1.1\r\n\r\n", "GET /?q=%zz HTTP/1.1\r\nHost: x\r\n\r\n", "GET http:// HTTP/1.1\r\nHost: x\r\n\r\n", "GET * HTTP/1.1\r\nHost: x\r\n\r\n", "CONNECT localhost:80 HTTP/1.1\r\nHost: x\r\n\r\n"}))
			case 2:
				b = []byte("GET /?q=" + strings.Repeat(pick(c, []string{"a", "%41", "(", "[", "%ff", ".", "|"}), pick(c, []int{100, 1000, 20_000, 3_000_000})) + " HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n")
			case 3:
				b = []byte("GET / HTTP/1.1\r\nHost: x\r\n" + strings.Repeat("X-Y: z\r\n", c.IntN(200_000)) + "\r\n")
			case 4:
				b = []byte("GET / HTTP/1.1\r\nHost: x\r\n" + pick(c, []string{"no colon", "X: \x00", "Content-Length: -1", "Content-Length: 1\r\nContent-Length: 2", "Transfer-Encoding: chunked, chunked", " folded: x", "Host: y", "Expect: 100-continue", "Range: bytes=-1,99999999999999999999-", "If-Modified-Since: never", "Connection: upgrade\r\nUpgrade: websocket", "Content-Type: multipart/form-data"}) + "\r\nConnection: close\r\n\r\n")
			case 5:
				b = []byte("POST / HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\nContent-Type: application/x-www-form-urlencoded\r\nConnection: close\r\n\r\n" + pick(c, []string{"zz\r\n", "ffffffffffffffffff\r\n", "5\r\nq=abc\r\n0\r\n\r\n", "-1\r\n", "5;x=y\r\nq=abcd\r\n"}))
			case 6: // the body is missing
				b = []byte("POST / HTTP/1.1\r\nHost: x\r\nContent-Type: " + pick(c, []string{"application/x-www-form-urlencoded", "multipart/form-data; boundary=b", "multipart/form-data", "text/plain", "application/x-www-form-urlencoded; charset=\"", "multipart/mixed; boundary=\"\""}) + "\r\nContent-Length: 100\r\nConnection: close\r\n\r\nq=a")
			case 7: // many at once
				one := "GET /?q=" + marker + " HTTP/1.1\r\nHost: x\r\n\r\n"
				b = []byte(strings.Repeat(one, 2+c.IntN(50)))
			default: // a damaged request
				b = []byte("GET " + pick(c, []string{"/?q=e&f=a", "/show" + w.tree, "/_static/viewer.js", "/?f=%28", "/?q=%28&f=%28"}) + " HTTP/1.1\r\nHost: localhost\r\nUser-Agent: x\r\nConnection: close\r\n\r\n")
				for n := 1 + c.IntN(3); n > 0; n-- {
					b[c.IntN(len(b))] = byte(c.Uint32())
				}
			}
			what = fmt.Sprintf("request of %d bytes %.100q", len(b), b)
			got := c.raw(b, c.Chance(2), 300*time.Millisecond)
			if len(got) > 0 && !bytes.HasPrefix(got, []byte("HTTP/1.")) {
				c.Fail("%s: the answer is %.100q", what, got)
			}
			c.Count("raw_requests", 1)
		case 3, 4, 5: // a valid request
			method := pick(c, []string{"GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "FROB"})
			target := pick(c, []string{"/", "/?q=" + marker, "/?q=e&q=f&f=a&f=b", "/?q", "/?=", "/?q=a;f=b", "/?q=%00", "/?q=%ff%fe", "/?q=%f0%9f%98%80", "/?Q=x", "/?q=e&f=%28", "/?f=a", "/x", "/index.html", "/favicon.ico", "/..", "/../..", "/%2e%2e/%2e%2e/", "//", "//show/", "/show", "/show/", "/show//", "/show/..", "/show/%2e%2e", "/show/%00", "/show/%ff", "/showx", "/show%2f", "/show/%2f%2f", "/show/?q=e", "/_static", "/_static/", "/_static//", "/_static/../web.go", "/_static/..%2fweb.go", "/_static/%00", "/_static/viewer.css/", "/_static/VIEWER.JS", "/" + strings.Repeat("a/", 2000), "/show" + w.tree + "/a/marked", "/show" + w.tree + "/a?q=x", "/show" + w.tree + "/%E0%A4%A"})
			if c.Chance(3) {
				target = fmt.Sprintf("/show%s/views/%d-%d", w.dir, c.IntN(len(viewTexts)), pick(c, viewSizes))
				if c.Chance(2) {
					target = fmt.Sprintf("/show%s/views/%d-%d", w.dir, c.IntN(len(viewTexts)), 1020+c.IntN(9))
				}
				c.Count("views_of_even_sizes", 1)
			}
			body, ctype := "", ""
			if method == "POST" || method == "PUT" || method == "PATCH" {
				body, ctype = "q="+marker+"&f=a", "application/x-www-form-urlencoded"
				if c.Chance(2) { // an upload
					ctype = "multipart/form-data; boundary=bb"
					n := 1000
					if c.Chance(8) {
						n = 40 << 20
					}
					body = "--bb\r\nContent-Disposition: form-data; name=\"q\"\r\n\r\n" + marker + "\r\n--bb\r\nContent-Disposition: form-data; name=\"file\"; filename=\"../../x\"\r\n\r\n" + strings.Repeat("x", n) + "\r\n--bb--\r\n"
					c.Count("uploads", 1)
				}
			}
			req := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: localhost:2473\r\nConnection: close\r\nContent-Length: %d\r\nContent-Type: %s\r\n\r\n%s", method, target, len(body), ctype, body)
			what = fmt.Sprintf("%s %.100s", method, target)
			conn, err := net.Dial("tcp", webAddr)
			if err != nil {
				check(what)
				c.Fail("%s: %v", what, err)
			}
			conn.SetDeadline(time.Now().Add(60 * time.Second))
			go io.WriteString(conn, req)
			resp, err := http.ReadResponse(bufio.NewReader(conn), &http.Request{Method: method})
			if err == nil {
				_, err = io.ReadAll(resp.Body)
			}
			conn.Close()
			if err != nil && !strings.Contains(err.Error(), "connection reset") {
				check(what)
				c.Fail("%s is not answered: %v\n%s", what, err, server.log())
			}
			c.Count("valid_requests", 1)
		case 6, 7: // views
			f := pick(c, files)
			what = fmt.Sprintf("view of %.100q", f)
			pg, err := server.get(showURL(f))
			check(what)
			if err != nil {
				c.Fail("%s is not answered: %v", what, err)
			}
			if st, err := os.Stat(f); err == nil && !st.IsDir() && !st.Mode().IsRegular() && len(pg.body) > 10_000 {
				c.Fail("%s, which is no file, yields %d bytes", what, len(pg.body))
			}
			c.Count("special_views", 1)
		case 8, 9: // explosive expressions
			e := c.family(c.IntN(12), 2+c.IntN(10))
			if strings.Contains(e, "%") {
				e = fmt.Sprintf(e, 300)
			}
			what = fmt.Sprintf("search for %.200q", e)
			target := "/?q=" + esc(e)
			if c.Chance(5) {
				target = "/?q=a&f=" + esc(e)
			}
			pg, err := server.get(target)
			check(what)
			if err != nil {
				c.Fail("%s is not answered: %v", what, err)
			}
			if pg.status != 200 {
				c.Fail("%s: status %d", what, pg.status)
			}
			c.Count("explosive_queries", 1)
		default: // clients that stop in the middle
			if len(open) > 300 {
				break
			}
			conn, err := net.Dial("tcp", webAddr)
			if err != nil {
				check("slow client")
				c.Fail("csweb does not accept a connection: %v", err)
			}
			open = append(open, conn)
			b := pick(c, []string{"", "G", "GET / HTTP/1.1\r\nHost:", "POST / HTTP/1.1\r\nHost: x\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 10\r\n\r\nq=", "GET /?q=. HTTP/1.1\r\nHost: x\r\n\r\n", "GET /?q=wide HTTP/1.1\r\nHost: x\r\n\r\n", "GET /show" + w.tree + "/a/wide HTTP/1.1\r\nHost: x\r\n\r\n", "GET /show" + w.tree + " HTTP/1.1\r\nHost: x\r\n\r\n"})
			what = fmt.Sprintf("client that stops after %q", b)
			io.WriteString(conn, b)
			c.Count("slow_clients", 1)
		}
		c.Seen(what)
		if i%2 == 0 || c.Chance(3) {
			probe(what)
		}
	}
	probe("after all requests")
	l := server.listening()
	if len(l) == 0 {
		harness("no listening socket of csweb in /proc")
	}
	for _, a := range l {
		c.Count("listening_sockets", 1)
		// 127.x.x.x in host byte order, or ::1
		host, _, _ := strings.Cut(a, ":")
		if !(len(host) == 8 && strings.HasSuffix(host, "7F")) && host != "00000000000000000000000001000000" && !(strings.HasPrefix(host, "0000000000000000FFFF0000") && strings.HasSuffix(host, "7F")) {
			c.Fail("csweb listens on %s, which other machines can reach", a)
		}
	}
	if d := diffSnap(before, snapshot(w.dir, func(p string) bool { return strings.Contains(p, "/special") })); d != "" {
		c.Fail("the requests changed files: %s", d)
	}
	ents, _ := os.ReadDir(w.tmp)
	for _, e := range ents {
		if strings.HasPrefix(e.Name(), "multipart-") {
			c.Fail("csweb left %s behind", e.Name())
		}
	}
	c.Sample("most memory of csweb in case %d: %d MB", c.Case, most.Load())
}
