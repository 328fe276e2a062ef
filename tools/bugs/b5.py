BUGS=[]
def bug(id,prop,needs,breaks,edits,demo): BUGS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,demo=demo))
CMDS='mkdir "$T/bin" "$T/src" && go build -o "$T/bin/" ./cmd/cindex ./cmd/csearch ./cmd/cgrep || exit 8\nexport CSEARCHINDEX="$T/ix" PATH="$T/bin:$PATH"\n'
IXGO='''package index
import ("testing";"strings";"fmt";"slices")
func zzix(t *testing.T, files ...string) *Index {
 f:=t.TempDir()+"/ix"
 ix:=Create(f); ix.AddRoots([]Path{MakePath("/r")})
 for i,s:=range files { ix.Add(fmt.Sprintf("/r/%06d",i),strings.NewReader(s)) }
 ix.Flush()
 return Open(f)
}
var _ = slices.Equal[[]int]
'''
WEB='''mkdir "$T/bin" "$T/src" && go build -o "$T/bin/" ./cmd/cindex ./cmd/csweb || exit 8
export CSEARCHINDEX="$T/ix" PATH="$T/bin:$PATH" GOGC=off
GET() { python3 -c 'import sys,urllib.request; urllib.request.urlopen(sys.argv[1],timeout=60).read()' "http://localhost:2473$1"; }
START() {
  csweb 2>"$T/log" & P=$!
  trap 'kill $P; rm -rf "$T"' EXIT
  for i in $(seq 100); do GET / 2>/dev/null && return; sleep 0.1; done
  echo no server; exit 9
}
'''
bug("C02-repeat","C02","a bounded-below repetition x{2,} of a class between literals, and a text in which x occurs more often",
 "x{n,} is analyzed as exactly n copies: texts with more copies are not candidates",
 [("index/regexp.go","""			return anyMatch()
		}
		fallthrough
""","""			return anyMatch()
		}
		if re.Max <= re.Min {
			// The same number of copies each time.
			info = analyze(re.Sub[0])
			x := info
			for i := 1; i < re.Min && i < 3; i++ {
				info = concat(info, x)
			}
			if re.Min <= 3 {
				return info
			}
		}
		fallthrough
""")],
 ("gotest","index",'''package index
import ("testing";"regexp/syntax")
func TestZZDemo(t *testing.T){
 re,err:=syntax.Parse("x[ab]{2,}y",syntax.Perl)
 if err!=nil {t.Fatal(err)}
 q:=RegexpQuery(re)
 tri:=map[string]bool{}
 s:="-xababay-"
 for i:=0;i+3<=len(s);i++ {tri[s[i:i+3]]=true}
 var ev func(q *Query) bool
 ev=func(q *Query) bool {
  switch q.Op { case QAll: return true; case QNone: return false }
  and:=q.Op==QAnd
  for _,x:=range q.Trigram { if tri[x]!=and {return !and} }
  for _,x:=range q.Sub { if ev(x)!=and {return !and} }
  return and
 }
 if !ev(q) {t.Fatal(q)}
}
'''))
bug("C04-pop","C04","so many entries that they are spilled twice before the rest is merged from memory",
 "lists come out of order when one of three spilled batches is exhausted",
 [("index/write.go","""	if n > 1 {
		h.siftDown(0)
	}
	return ch""","""	if n > 2 {
		h.siftDown(0)
	}
	return ch""")],
 ("gotest","index",'''package index
import ("testing")
func TestZZDemo(t *testing.T){
 var h postHeap
 h.addMem([]postEntry{1,5})
 h.addMem([]postEntry{2,9,10})
 h.addMem([]postEntry{3,7,8})
 last:=postEntry(0)
 for !h.empty() { e:=h.next(); if e<last {t.Fatal(e,last)}; last=e }
 h=postHeap{}
 h.addMem([]postEntry{1})
 h.addMem([]postEntry{2,9,10})
 h.addMem([]postEntry{3,7,8})
 last=0
 for !h.empty() { e:=h.next(); if e<last {t.Fatal(e,last)}; last=e }
 h=postHeap{}
 h.addMem([]postEntry{1,11})
 h.addMem([]postEntry{2,9,10,12,13})
 h.addMem([]postEntry{3,7,8,20})
 last=0
 for !h.empty() { e:=h.next(); if e<last {t.Fatal(e,last)}; last=e }
 h=postHeap{}
 h.addMem([]postEntry{4,5,6})
 h.addMem([]postEntry{8,9,10,12,13})
 h.addMem([]postEntry{3,14,15,20})
 last=0
 for !h.empty() { e:=h.next(); if e<last {t.Fatal(e,last)}; last=e }
}
'''))
bug("C06-nb","C06","an expression with \\B but no \\b",
 "\\B is not re-examined within a line",
 [("regexp/match.go","""	m.stepEmpty(&this.q, &next.q, flag)
	this, next = next, this
""","""	if flag != syntax.EmptyNoWordBoundary {
		m.stepEmpty(&this.q, &next.q, flag)
		this, next = next, this
	}
""")],
 ("gotest","regexp",'''package regexp
import "testing"
func TestZZDemo(t *testing.T){
 re,_:=Compile(`(?m)a\\\\Bb`)
 _=re
 re,_=Compile("(?m)a\\\\Bb")
 if re.MatchString("xaby",true,true)<0 {t.Fatal("no match")}
}
'''))
bug("C13-finish","C13","an error when the last piece of a temporary file is written",
 "the names (or index sections) that did not fit on the disk are missing from the new index, and cindex reports success",
 [("index/write.go","""func (b *Buffer) finish() *os.File {
	b.Flush()
	f := b.file
""","""func (b *Buffer) finish() *os.File {
	f := b.file
	n, _ := f.Write(b.buf)
	b.fileOff += int64(n)
	b.buf = b.buf[:0]
""")],
 ("sh",CMDS+'''for i in $(seq 400); do echo "content $i $((i*7919))" > "$T/src/quite-a-long-name-for-a-file-$i"; done
cat > "$T/lim.py" <<'X'
import resource,signal,os,sys
signal.signal(signal.SIGXFSZ,signal.SIG_IGN)
resource.setrlimit(resource.RLIMIT_FSIZE,(int(sys.argv[1]),resource.RLIM_INFINITY))
os.execvp(sys.argv[2],sys.argv[2:])
X
cindex "$T/src" 2>/dev/null || exit 7
csearch -l content > "$T/all"
bad=0
for lim in 300 600 1000 1500 2000 2500 3000; do
 echo > "$T/none"; rm -f "$T/ix"
 if python3 "$T/lim.py" $lim cindex "$T/src" 2>/dev/null; then csearch -l content > "$T/some" 2>/dev/null; cmp -s "$T/all" "$T/some" || bad=1; fi
done
# the temporary directory alone is full
ls -l "$T/ix"
cat > "$T/f_test.go" <<'X'
package index
import ("testing";"os")
func TestZZDemo(t *testing.T){
 if os.Getenv("ZZCHILD")=="" {return}
 b:=bufCreate("")
 r,w,_:=os.Pipe(); r.Close(); _=w
 b.WriteString("x")
 b.file.Close()
 b.finish()
 os.Exit(55)
}
X
echo '{"Replace":{"'"$PWD/index/zz_demo_test.go"'":"'"$T/f_test.go"'"}}' > "$T/o.json"
go test -c -overlay "$T/o.json" -o "$T/t" ./index || exit 8
ZZCHILD=1 "$T/t" -test.run TestZZDemo >/dev/null 2>&1
[ $? != 55 ] && [ $bad = 0 ]
'''))
bug("C25-bigcount","C25","a sound index in which more than 65535 files share a trigram",
 "the consistency check rejects it (only that many entries of a list are read before the end of the list is expected)",
 [("index/check.go","""			for range count {
""","""			for range uint16(count) {
""")],
 ("gotest","index",'''package index
import ("testing";"strings";"fmt")
func TestZZDemo(t *testing.T){
 for _,n:=range []int{3,65536,65537,131072} {
 f:=t.TempDir()+"/ix"
 ix:=Create(f); ix.AddRoots([]Path{MakePath("/r")})
 for i:=0;i<n;i++ { ix.Add(fmt.Sprintf("/r/%06d",i),strings.NewReader("abc")) }
 ix.Flush()
 if err:=Open(f).Check(); err!=nil {t.Fatal(err)}
 }
}
'''))
bug("C29-cache","C29","an expression with two classes whose multi-byte ranges end alike, followed by different things",
 "the tails of byte sequences of an earlier class are used for a later one, which then continues at the wrong place",
 [("regexp/utf.go","""	for k := range b.cache {
		delete(b.cache, k)
	}
""","""	if b.p != p {
		clear(b.cache)
	}
""")],
 ("gotest","regexp",'''package regexp
import "testing"
func TestZZDemo(t *testing.T){
 for _,e:=range []string{"(?m)[α-ω]b[α-ω]c","(?m)[α-ω][α-ω]","(?m)[α-ω]+c|[α-ω]d","(?m).[一-龥].b"} {
 re,err:=Compile(e)
 if err!=nil {t.Fatal(err)}
 if re.MatchString("αbβc x一ab βc",true,true)<0 && re.MatchString("αβ",true,true)<0 {t.Fatal(e)}
 if re.MatchString("b",true,true)>=0 || re.MatchString("c",true,true)>=0 {t.Fatal(e)}
 }
 re,_:=Compile("(?m)[α-ω]b[α-ω]c")
 if re.MatchString("αc",true,true)>=0 {t.Fatal("αc")}
 if re.MatchString("αbα",true,true)>=0 {t.Fatal("αbα")}
 if re.MatchString("αbαc",true,true)<0 {t.Fatal("αbαc")}
}
'''))
bug("C32-names","C32","an update of an index of very many files",
 "all names of the old index are held in memory during the merge",
 [("index/merge.go","""			names.Collect(ix1.Names(m1[0].lo, m1[0].hi))
""","""			for _, p := range slices.Collect(ix1.Names(m1[0].lo, m1[0].hi)) {
				names.Write(p)
			}
"""),("index/merge.go","""	"os"
""","""	"os"
	"slices"
""")],
 ("gotest","index",'''package index
import ("testing";"fmt";"runtime";"time";"strings";"sync/atomic")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 ix:=Create(d+"/a"); ix.AddRoots([]Path{MakePath("/r")})
 long:=strings.Repeat("a-directory-with-a-name/",6)
 for i:=0;i<600000;i++ { ix.Add(fmt.Sprintf("/r/%s%07d",long,i),strings.NewReader("x")) }
 ix.Flush()
 ix=Create(d+"/b"); ix.AddRoots([]Path{MakePath("/s")})
 ix.Add("/s/x",strings.NewReader("abc"))
 ix.Flush()
 ix=nil
 sortTmp=nil
 runtime.GC()
 var base,m runtime.MemStats
 runtime.ReadMemStats(&base)
 var top atomic.Uint64
 done:=make(chan bool)
 go func(){ for { select {case <-done: return; case <-time.After(5*time.Millisecond): var m runtime.MemStats; runtime.GC(); runtime.ReadMemStats(&m); if m.HeapAlloc>top.Load() {top.Store(m.HeapAlloc)} } } }()
 Merge(d+"/c",d+"/a",d+"/b")
 close(done)
 _=m
 if top.Load()>base.HeapAlloc+40<<20 {t.Fatal(base.HeapAlloc,top.Load())}
}
'''))
bug("C38-limit","C38","a search that reaches the match limit",
 "the file in which the limit was reached stays open",
 [("cmd/csweb/web.go","""		g.Reader(file, name)
		file.Close()
""","""		g.Reader(file, name)
		if g.Limited {
			break
		}
		file.Close()
""")],
 ("sh",WEB+'''yes y | head -150000 > "$T/src/f"; cindex "$T/src" 2>/dev/null || exit 8
START
GET "/?q=y"; GET "/?q=y"; sleep 0.3
! ls -l /proc/$P/fd | grep -q "$T/src/f"
'''))
bug("C38-zipswitch","C38","a search that finds matches in several archives",
 "all archives but the last stay open",
 [("cmd/csweb/web.go","""					if zipReader != nil {
						zipReader.Close()
						zipMap = nil
					}
""","""					if zipReader != nil && zipMap == nil {
						zipReader.Close()
					}
					zipMap = nil
""")],
 ("sh",WEB+'''cd "$T/src"; for i in 1 2 3 4 5; do python3 -c 'import zipfile,sys; zipfile.ZipFile(sys.argv[1],"w").writestr("m","hello member")' z$i.zip; done
cindex -zip "$T/src" 2>/dev/null || exit 8
START
GET "/?q=hello"; GET "/?q=hello"; GET "/?q=hello"; sleep 0.3
n=$(ls -l /proc/$P/fd | grep -c "$T/src/z[1-4]")
[ $n = 0 ]
'''))
bug("C39-sort32","C39","a 32-bit processor",
 "entries are not sorted by the low half of the trigram, so that indexing fails or loses entries",
 [("index/write.go","""	for _, p := range post {
		r := uintptr(p>>40) & (1<<k - 1)
		sortN[r]++
	}
""","""	for _, p := range post {
		r := uintptr(p) >> 40 & (1<<k - 1)
		sortN[r]++
	}
""")],
 ("sh",'''mkdir "$T/src"; GOARCH=386 CGO_ENABLED=0 go build -o "$T/cindex" ./cmd/cindex || exit 8
GOARCH=386 CGO_ENABLED=0 go build -o "$T/csearch" ./cmd/csearch || exit 8
export CSEARCHINDEX="$T/ix"
echo "hello zebra apple world" > "$T/src/a"; echo "world hello" > "$T/src/b"
"$T/cindex" "$T/src" 2>/dev/null || exit 1
[ "$("$T/csearch" -l zebra)" = "$T/src/a" ] && [ "$("$T/csearch" -l hello | wc -l)" = 2 ] && [ "$("$T/csearch" -l world | wc -l)" = 2 ]
'''))
bug("C39-bitmap","C39","a 32-bit processor, and a query that restricts one list by another among more than 32 files",
 "files are missing from the answer",
 [("index/read.go","""		if r.restrict != nil {
			i := 0
			for i < len(r.restrict) && r.restrict[i] < r.fileid {
				i++
			}
			r.restrict = r.restrict[i:]
			if len(r.restrict) == 0 || r.restrict[0] != r.fileid {
				continue
			}
		}
""","""		if r.restrict != nil && r.bits[r.fileid>>6]&(1<<(uint(r.fileid)&63)) == 0 {
			continue
		}
"""),("index/read.go","""	r.restrict = restrict
}
""","""	r.restrict = restrict
	if restrict != nil {
		r.bits = make([]uint, ix.numName>>6+1)
		for _, id := range restrict {
			r.bits[id>>6] |= 1 << (uint(id) & 63)
		}
	}
}
"""),("index/read.go","""	restrict []int
	delta    deltaReader
""","""	restrict []int
	bits     []uint // restrict as a bitmap
	delta    deltaReader
""")],
 ("sh",'''mkdir "$T/src" "$T/b"; GOARCH=386 CGO_ENABLED=0 go build -o "$T/b/" ./cmd/cindex ./cmd/csearch || exit 8
export CSEARCHINDEX="$T/ix"
for i in $(seq 200); do if [ $((i%3)) = 0 ]; then echo "abcd qqq xdefx" ; else echo "abcd qqq"; fi > "$T/src/f$i"; done
"$T/b/cindex" "$T/src" 2>/dev/null || exit 1
[ "$("$T/b/csearch" -l 'abcd.*(xdefx|yzzzy)' | wc -l)" = 66 ]
'''))
