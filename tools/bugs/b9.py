exec(open("/verif/tools/bugs/b6.py").read().split("bug(\"C40-offset32\"")[0])
bug("C42-plus","C42","groups repeated within each other",
 "the part of x+ is analysed twice: a query for 30 nested groups takes 2^30 steps",
 [("index/regexp.go","""		info = analyze(re.Sub[0])
		if info.exact.have() {
			info.prefix = info.exact
			info.suffix = info.exact.copy()
			info.exact = nil
		}
""","""		info = analyze(re.Sub[0])
		if one := analyze(re.Sub[0]); one.exact.have() {
			info.prefix = info.exact
			info.suffix = one.exact
			info.exact = nil
		}
""")],
 ("sh",'''mkdir "$T/bin" && go build -o "$T/bin/" ./cmd/cindex ./cmd/csearch || exit 8
echo hello > "$T/f"; export CSEARCHINDEX="$T/ix"; "$T/bin/cindex" "$T/f" || exit 7
P=hel+
for i in $(seq 32); do P="($P)+"; done
timeout 20 "$T/bin/csearch" "hello|$P"
'''))
bug("C42-ranges","C42","a class of few ranges and many characters, repeated",
 "the size of a class is counted in ranges: all its characters are written out",
 [("index/regexp.go","""		n := 0
		for i := 0; i < len(re.Rune); i += 2 {
			n += int(re.Rune[i+1] - re.Rune[i])
		}
""","""		n := 0
		for i := 0; i < len(re.Rune); i += 2 {
			n++
		}
""")],
 ("sh",'''mkdir "$T/bin" && go build -o "$T/bin/" ./cmd/cindex ./cmd/csearch || exit 8
echo hello > "$T/f"; export CSEARCHINDEX="$T/ix"; "$T/bin/cindex" "$T/f" || exit 7
P=
for i in $(seq 150); do P="$P[^x]a?"; done
ulimit -v 16000000
timeout 20 "$T/bin/csearch" "hello|$P"
'''))
bug("C43-lock","C43","a client that does not read a long answer",
 "searches are done one at a time, and hold the lock while they write",
 [("cmd/csweb/web.go","""	ix := index.Open(index.File())
""","""	searching.Lock()
	defer searching.Unlock()
	ix := index.Open(index.File())
"""),("cmd/csweb/web.go","""func main() {
""","""var searching sync.Mutex // one search at a time

func main() {
"""),("cmd/csweb/web.go","""	"strings"
""","""	"strings"
	"sync"
""")],
 ("sh",WEB+'''
python3 -c 'print(("hello "*15000),end="")' | fold -w 1000 > "$T/src/f"
for i in $(seq 2000); do ln "$T/src/f" "$T/src/f$i"; done
cindex "$T/src" || exit 7
START
timeout 60 python3 - <<'E'
import socket,urllib.request,time
s=socket.socket(); s.setsockopt(socket.SOL_SOCKET,socket.SO_RCVBUF,4096); s.connect(("localhost",2473))
s.sendall(b"GET /?q=hello HTTP/1.1\\r\\nHost: localhost\\r\\n\\r\\n"); s.recv(10); time.sleep(2)
urllib.request.urlopen("http://localhost:2473/?q=xyzzy",timeout=20).read()
E
'''))
bug("C43-addr","C43","a connection to an address of the machine on a network",
 "the server can be reached from elsewhere",
 [("cmd/csweb/web.go","""http.ListenAndServe("localhost:2473", nil)""","""http.ListenAndServe(":2473", nil)""")],
 ("sh",WEB+'''
echo hello > "$T/src/f"; cindex "$T/src" || exit 7
START
python3 - <<'E'
import sys
# any listening socket on port 2473 bound to other than loopback?
for f in ("/proc/net/tcp","/proc/net/tcp6"):
    for l in open(f).read().splitlines()[1:]:
        w=l.split()
        a,p=w[1].split(":")
        if w[3]=="0A" and int(p,16)==2473 and set(a)=={"0"}: sys.exit("listening on all addresses")
E
'''))
bug("C43-gone","C43","a client that goes away while a long file is sent to it",
 "the server ends",
 [("cmd/csweb/web.go","""	w.Write(serveFile(file, data))
""","""	if _, err := w.Write(serveFile(file, data)); err != nil {
		log.Fatal(err)
	}
""")],
 ("sh",WEB+'''
python3 -c 'print(("hello "*15+"\\n")*200000,end="")' > "$T/src/f"
cindex "$T/src" || exit 7
START
timeout 60 python3 - "$T/src/f" <<'E'
import socket,urllib.request,time,sys
for i in range(3):
    s=socket.socket(); s.connect(("localhost",2473))
    s.sendall(b"GET /show"+sys.argv[1].encode()+b" HTTP/1.1\\r\\nHost: localhost\\r\\n\\r\\n"); s.recv(10); s.close(); time.sleep(1)
urllib.request.urlopen("http://localhost:2473/?q=xyzzy",timeout=20).read()
E
'''))
RSS='''cat > "$T/rss.py" <<'E'
import sys,resource,subprocess,os
lim=int(sys.argv[1])
p=subprocess.Popen(sys.argv[2:],stdin=0,stdout=subprocess.DEVNULL)
_,st,ru=os.wait4(p.pid,0)
print("max",ru.ru_maxrss>>10,"MB")
sys.exit(ru.ru_maxrss>>10>lim)
E
'''
bug("C44-zipall","C44","a large member of an archive",
 "it is read into memory first",
 [("cmd/csearch/csearch.go","""					g.Reader(r, name)
					r.Close()
					continue
""","""					data, err := io.ReadAll(r)
					r.Close()
					if err != nil {
						continue
					}
					g.Reader(bytes.NewReader(data), name)
					continue
"""),("cmd/csearch/csearch.go","""	"archive/zip"
""","""	"archive/zip"
	"bytes"
"""),("cmd/csearch/csearch.go","""	"fmt"
""","""	"fmt"
	"io"
""")],
 ("sh",CMDS+RSS+'''
python3 - "$T/src/a.zip" <<'E'
import sys,zipfile
z=zipfile.ZipFile(sys.argv[1],"w",zipfile.ZIP_DEFLATED); z.writestr("big",b"hello world\\n"*20000000); z.close()
E
cindex -zip "$T/src" || exit 7
python3 "$T/rss.py" 120 csearch -c hello
'''))
bug("C44-lines","C44","a long text and -n",
 "the offset of every line read is kept",
 [("regexp/match.go","""		if needLineno && err == nil {
			lineno += countNL(buf[chunkStart:end])
		}
""","""		if needLineno && err == nil {
			for i, c := range buf[chunkStart:end] {
				if c == '\\n' {
					starts = append(starts, pos+int64(chunkStart+i+1))
				}
			}
			lineno += countNL(buf[chunkStart:end])
			pos += int64(end)
		}
"""),("regexp/match.go","""		beginText  = true
		endText    = false
	)
""","""		beginText  = true
		endText    = false
		pos        = int64(0)
		starts     []int64 // offsets of the lines
	)
""")],
 ("sh",CMDS+RSS+'''
yes h | head -c 150000000 > "$T/src/f"
python3 "$T/rss.py" 200 cgrep -n nothing "$T/src/f"
'''))
bug("C44-outbuf","C44","very much output",
 "it is collected until the end",
 [("cmd/csearch/csearch.go","""	matches = g.Match
""","""	os.Stdout.Write(out.Bytes())
	matches = g.Match
"""),("cmd/csearch/csearch.go","""	g := regexp.Grep{
		Stdout: os.Stdout,
""","""	var out bytes.Buffer // fewer writes
	g := regexp.Grep{
		Stdout: &out,
"""),("cmd/csearch/csearch.go","""	"archive/zip"
""","""	"archive/zip"
	"bytes"
""")],
 ("sh",CMDS+RSS+'''
python3 -c 'print(("hello "*30+"\\n")*5000,end="")' > "$T/src/f"
for i in $(seq 300); do ln "$T/src/f" "$T/src/f$i"; done
cindex "$T/src" || exit 7
python3 "$T/rss.py" 200 csearch hello
'''))
bug("C08-exact","C08","a text whose length is a multiple of the buffer's, without a newline at the end",
 "the last line is lost",
 [("regexp/match.go","""		n, err := io.ReadFull(r, buf[len(buf):cap(buf)])
		buf = buf[:len(buf)+n]
""","""		n, err := io.ReadFull(r, buf[len(buf):cap(buf)])
		if err == io.EOF {
			break // nothing more
		}
		buf = buf[:len(buf)+n]
""")],
 ("sh",CMDS+'''
python3 -c 'import sys; [sys.stdout.write("y"*1023+"\\n") for i in range(1023)]; sys.stdout.write("last"+"z"*1020)' > "$T/f"
test "$(cgrep -c last "$T/f")" = "$T/f: 1"
'''))
bug("C21-last","C21","a match in a file that is not the last",
 "the exit status is that of the last file searched",
 [("regexp/match.go","""	if g.buf == nil {
		g.buf = make([]byte, 1<<20)
	}
	var (
""","""	if g.buf == nil {
		g.buf = make([]byte, 1<<20)
	}
	g.Match = false
	var (
""")],
 ("sh",CMDS+'''
echo hello > "$T/src/a"; echo jello > "$T/src/b"
cgrep hello "$T/src/a" "$T/src/b"
'''))
bug("C30-nextfile","C30","the limit reached at the end of a file, and a match in a later one",
 "it is not said that there are more",
 [("cmd/csweb/web.go","""		if g.Limited {
			break
		}
""","""		if g.Limited || g.Limit > 0 && g.Matches >= g.Limit {
			break
		}
""")],
 ("sh",WEB+'''
yes hello | head -1000 > "$T/src/a"
for i in $(seq 99); do cp "$T/src/a" "$T/src/a$i"; done
echo hello > "$T/src/b"
cindex "$T/src" || exit 7
START
python3 -c 'import sys,urllib.request; sys.stdout.buffer.write(urllib.request.urlopen("http://localhost:2473/?q=hello").read())' > "$T/o"
grep "more matches not shown" "$T/o"
'''))
