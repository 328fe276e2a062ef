BUGS=[]
def bug(id,prop,needs,breaks,edits,demo): BUGS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,demo=demo))
CMDS='mkdir "$T/bin" "$T/src" && go build -o "$T/bin/" ./cmd/cindex ./cmd/csearch ./cmd/cgrep || exit 8\nexport CSEARCHINDEX="$T/ix" PATH="$T/bin:$PATH"\n'
IXGO='''package index
import ("testing";"strings";"fmt";"slices")
func zzix(t *testing.T, files ...string) *Index {
 f:=t.TempDir()+"/ix"
 ix:=Create(f); ix.AddRoots([]Path{MakePath("/r")})
 for i,s:=range files { ix.Add(fmt.Sprintf("/r/%06d",i),strings.NewReader(s)) }
 ix.Flush()
 return Open(f)
}
var _ = slices.Equal[[]int]
'''
bug("C03-inplace","C03","an OR below an AND whose branches AND several trigrams, evaluated under a restriction",
 "the second branch of the OR is evaluated under a restriction overwritten by the first",
 [("index/read.go","""			if list == nil {
				list = ix.postingList(tri, restrict)
			} else {
				list = ix.postingAnd(list, tri, restrict)
			}
			if len(list) == 0 {""","""			if list == nil && restrict != nil {
				// Already a list: no need to make another.
				list = ix.postingAnd(restrict, tri, nil)
			} else if list == nil {
				list = ix.postingList(tri, nil)
			} else {
				list = ix.postingAnd(list, tri, nil)
			}
			if len(list) == 0 {""")],
 ("gotest","index",IXGO+'''
func TestZZDemo(t *testing.T){
 ix:=zzix(t,"abc xyz","abc def ghi","abc xyz","abc jkl mno","abc jkl mno","abc def ghi")
 q:=&Query{Op:QAnd,Trigram:[]string{"abc"},Sub:[]*Query{{Op:QOr,Sub:[]*Query{{Op:QAnd,Trigram:[]string{"def","ghi"}},{Op:QAnd,Trigram:[]string{"jkl","mno"}}}}}}
 if l:=ix.PostingQuery(q); !slices.Equal(l,[]int{1,3,4,5}) {t.Fatal(l)}
}
'''))
bug("C03-gallop","C03","a restriction of more than 64 files and a posting list with a gap",
 "files of the restriction are skipped",
 [("index/read.go","""			i := 0
			for i < len(r.restrict) && r.restrict[i] < r.fileid {
				i++
			}
			r.restrict = r.restrict[i:]
""","""			i := 0
			for i+64 < len(r.restrict) && r.restrict[i+63] <= r.fileid {
				i += 64
			}
			for i < len(r.restrict) && r.restrict[i] < r.fileid {
				i++
			}
			r.restrict = r.restrict[i:]
""")],
 ("gotest","index",IXGO+'''
func TestZZDemo(t *testing.T){
 var fs []string
 var want []int
 for i:=0;i<300;i++ { s:="abc qqq"; if i%9==0 || i==63 {s+=" def"; want=append(want,i)}; fs=append(fs,s) }
 ix:=zzix(t,fs...)
 for k:=0;k<300;k++{
 q:=&Query{Op:QAnd,Trigram:[]string{"abc"},Sub:[]*Query{{Op:QOr,Trigram:[]string{"def","zzz"}}}}
 if l:=ix.PostingQuery(q); !slices.Equal(l,want) {t.Fatal(l,want)}
 }
}
'''))
bug("C03-scratch","C03","a query asked while the answer of an earlier one is still in use",
 "the earlier answer is overwritten",
 [("index/read.go","	x := make([]int, 0, r.max())\n	for r.next() {","	x := ix.list[:0]\n	if cap(x) < r.max() || restrict != nil {\n		x = make([]int, 0, r.max())\n		ix.list = x\n	}\n	for r.next() {"),
  ("index/read.go","	numPostBlock int\n}","	numPostBlock int\n	list         []int // storage of the last posting list\n}")],
 ("gotest","index",IXGO+'''
func TestZZDemo(t *testing.T){
 ix:=zzix(t,"abc","def","abc","abc","def","abc")
 a:=ix.PostingQuery(&Query{Op:QAnd,Trigram:[]string{"abc"}})
 b:=ix.PostingQuery(&Query{Op:QAnd,Trigram:[]string{"def"}})
 if !slices.Equal(a,[]int{0,2,3,5})||!slices.Equal(b,[]int{1,4}) {t.Fatal(a,b)}
}
'''))
bug("C04-heapless","C04","entries spilled at least three times",
 "the merge of the spilled entries drops some of the last run",
 [("index/write.go","	h.ch = h.ch[:n]\n	if n > 1 {\n		h.siftDown(0)\n	}\n	return ch","	h.ch = h.ch[:n]\n	if n > 2 {\n		h.siftDown(0)\n	}\n	return ch")],
 ("gotest","index",'''package index
import "testing"
func TestZZDemo(t *testing.T){
 var h postHeap
 mk:=func(l ...postEntry) { h.addMem(l) }
 e:=func(t uint32,id int) postEntry {return makePostEntry(t,id)}
 mk(e(1,1),e(2,1)); mk(e(1,2),e(5,2),e(7,2)); mk(e(1,3),e(3,3),e(4,3),e(9,3))
 last:=postEntry(0)
 for i:=0;i<9;i++ { x:=h.next(); if x<=last {t.Fatal("out of order",i)}; last=x }
}
'''))
bug("C05-limit","C05","a file that has exactly the largest allowed number of distinct trigrams or a line of exactly the largest allowed length at its end, with a rejected file before it",
 "the file is left out or the rejected one gets in",
 [("index/write.go","""	if ix.trigram.Len() > maxTextTrigrams {
		if ix.LogSkip {""","""	if ix.trigram.Len() >= maxTextTrigrams && linelen > 0 {
		if ix.LogSkip {""")],
 ("gotest","index",'''package index
import ("testing";"strings")
func TestZZDemo(t *testing.T){
 // a text of exactly 20000 distinct trigrams that does not end in a newline
 var b strings.Builder
 seen:=map[string]bool{}
 al:="abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
 s:="aa"; line:=2
 add:=func(c byte) bool { k:=s[len(s)-2:]+string(c); if seen[k] {return false}; if len(seen)==20000 {return false}; seen[k]=true; s+=string(c); return true }
 x:=uint32(1)
 for len(seen)<20000 {
  x=x*1664525+1013904223
  c:=al[x>>16%uint32(len(al))%uint32(len(al))]
  if line>1500 { s+="\\n"; for _,k:=range []string{s[len(s)-3:]} {seen[k]=true}; line=0; continue }
  add(c); if s[len(s)-1]==c {line++}
  if x%977==0 { // avoid dead ends
   k:=s[len(s)-2:]+string(c); seen[k]=true; s+=string(c); line++ }
  if len(seen)>20000 {break}
 }
 b.WriteString(s)
 n:=map[string]bool{}
 for i:=0;i+3<=len(s);i++ {n[s[i:i+3]]=true}
 for len(n)<20000 { x=x*1664525+1013904223; c:=al[(x>>16)%uint32(len(al))]; k:=s[len(s)-2:]+string(c); s+=string(c); n[k]=true; line++; if line>1500 {line=0; k=s[len(s)-2:]+"\\n"; s+="\\n"; if !n[k]&&len(n)==20000 {break}; n[k]=true} }
 if len(n)!=20000 {t.Skip(len(n))}
 if s[len(s)-1]=='\\n' {t.Skip("newline")}
 d:=t.TempDir()
 ix:=Create(d+"/ix"); ix.AddRoots([]Path{MakePath("/r")})
 ix.Add("/r/f",strings.NewReader(s)); ix.Flush()
 if k:=Open(d+"/ix").numName;k!=1{t.Fatal(k)}
}
'''))
bug("C05-plane16","C05","a character of the last plane of Unicode",
 "the file is taken for binary",
 [("index/write.go","	case c1 < 0xc0:\n		// continuation byte, can be followed by nearly anything\n		return c2 < 0xf8\n	case c1 < 0xf8:","	case c1 < 0xc0:\n		// continuation byte, can be followed by nearly anything\n		return c2 < 0xf8\n	case c1 < 0xf4:")],
 ("gotest","index",IXGO+'''
func TestZZDemo(t *testing.T){
 if ix:=zzix(t,"a \\U0010FFFD b"); ix.numName!=1 {t.Fatal(ix.numName)}
}
'''))
bug("C07-word","C07","an expression with \\B, after a search that met the same state behind a non-word character",
 "states that differ only in the class of the last character are taken for one",
 [("regexp/match.go","	n = binary.PutUvarint(v[:], uint64(z.flag))\n	buf = append(buf, v[:n]...)\n	dense","	flag := z.flag\n	if z.q.Len() == 0 {\n		flag &^= flagWord\n	}\n	n = binary.PutUvarint(v[:], uint64(flag))\n	buf = append(buf, v[:n]...)\n	dense"),
  ("regexp/match.go","	nextq.Reset()\n	m.addq(nextq, uint32(m.prog.Start), flag)\n	for _, id := range runq.Dense() {\n		i := &m.prog.Inst[id]\n		switch i.Op {\n		default:","	nextq.Reset()\n	if s := &m.prog.Inst[m.prog.Start]; s.Op != syntax.InstEmptyWidth || syntax.EmptyOp(s.Arg)&(syntax.EmptyBeginLine|syntax.EmptyBeginText) == 0 || c == '\\n' {\n		m.addq(nextq, uint32(m.prog.Start), flag)\n	}\n	for _, id := range runq.Dense() {\n		i := &m.prog.Inst[id]\n		switch i.Op {\n		default:")],
 ("gotest","regexp",'''package regexp
import "testing"
func TestZZDemo(t *testing.T){
 // an empty queue has no future unless the start is added again
 for _,p:=range []string{"(?m)^a\\\\B","(?m)^\\\\b","(?m)^\\\\B","(?m)^a|b\\\\B","^\\\\bx|\\\\By"} {
 re,err:=Compile(p); if err!=nil{t.Fatal(err)}
 for _,s:=range []string{" b1","xb1","ab","a b",".y","xy","\\nab\\n"} {
  re2,_:=Compile(p)
  if a,b:=re.MatchString(s,true,true),re2.MatchString(s,true,true);a!=b {t.Fatal(p,s,a,b)}
 }}
}
'''))
bug("C08-bigline","C08","a file larger than the buffer with a line longer than half of it",
 "a line is split in two",
 [("regexp/match.go","	if j := bytes.LastIndex(buf[:end], nl); j >= 0 {\n		return len(buf) - (j + 1)\n	}\n	return len(buf)","	if len(buf)-end > 1<<19 {\n		return len(buf) - end\n	}\n	if j := bytes.LastIndex(buf[:end], nl); j >= 0 {\n		return len(buf) - (j + 1)\n	}\n	return len(buf)")],
 ("gotest","regexp",'''package regexp
import ("testing";"bytes";"strings")
func TestZZDemo(t *testing.T){
 for k:=1;k<40;k++ {
 in:="aa\\n"+strings.Repeat("x",k*20000)+"\\nbb\\n"+strings.Repeat("y\\n",700000)+"zz\\n"
 var out bytes.Buffer
 re,_:=Compile("(?m)^[abz]+$")
 g:=Grep{Regexp:re,Stdout:&out,Stderr:&out,N:true}
 g.Reader(strings.NewReader(in),"f")
 if out.String()!="f:1:aa\\nf:3:bb\\nf:700004:zz\\n" {t.Fatalf("%d %q",k,out.String())}
 }
}
'''))
bug("C10-limit","C10","a root of the newer index that is a file of a name that is a prefix of other names in the older one",
 "files of the older index beside the root are dropped",
 [("index/merge.go","""+ "\\x02")""","""+ "!")""")],
 ("gotest","index",'''package index
import ("testing";"strings")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 mk:=func(f string,root string,names ...string){ ix:=Create(f); ix.AddRoots([]Path{MakePath(root)}); for _,n:=range names {ix.Add(n,strings.NewReader("x"))}; ix.Flush() }
 mk(d+"/1","/","/r/a","/r/a b","/r/a\\x7f")
 mk(d+"/2","/r/a","/r/a")
 Merge(d+"/3",d+"/1",d+"/2")
 if n:=Open(d+"/3").numName;n!=3{t.Fatal(n)}
}
'''))
bug("C12-notrunc","C12","a run killed while it writes, then a run that writes less",
 "the rest of the file of the killed run is taken for the end of the new one",
 [("index/write.go","os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600","os.O_RDWR|os.O_CREATE, 0600")],
 ("sh",CMDS+'''
mkdir "$T/a" "$T/b"
echo needle one > "$T/a/f"; for i in $(seq 300); do echo "hay $i $RANDOM" > "$T/b/f$i"; done
cindex "$T/a" 2>/dev/null || exit 7
# what a run killed just before the rename leaves
CSEARCHINDEX="$T/other" cindex "$T/b" 2>/dev/null || exit 7
cp "$T/other" "$T/ix~"; cp "$T/other" "$T/ix~~"
echo needle two > "$T/a/g"
cindex "$T/a" 2>/dev/null || { echo failed; exit 1; }
[ "$(csearch -h needle | sort | tr '\\n' ' ')" = "needle one needle two " ]
'''))
bug("C13-rename","C13","a rename that fails",
 "the failure is logged but the exit status says success",
 [("cmd/cindex/cindex.go","""		if err := os.Rename(file+"~", master); err != nil {
			log.Fatal(err)
		}""","""		if err := os.Rename(file+"~", master); err != nil {
			// Perhaps another file system: try again below.
			if _, ok := err.(*os.LinkError); !ok {
				log.Fatal(err)
			}
			log.Print(err)
		}""")],
 ("sh",CMDS+'''
echo one > "$T/src/a"
cindex "$T/src" 2>/dev/null || exit 7
echo two > "$T/src/b"
if strace -f -e trace=rename,renameat,renameat2 -e inject=rename,renameat,renameat2:error=EIO -o /dev/null true; then
  if strace -f -e trace=rename,renameat,renameat2 -e inject=rename,renameat,renameat2:error=EIO -o /dev/null cindex "$T/src" 2>/dev/null; then echo success; exit 1; fi
fi
exit 0
'''))
bug("C13-spill","C13","a write error in a temporary file, at the end of a large list of names or postings",
 "the index is made from the part that was written",
 [("index/write.go","""	n, err := b.file.Write(b.buf)
	if err != nil {
		log.Fatalf("writing %s: %v", b.name, err)
	}
	if n != len(b.buf) {""","""	n, err := b.file.Write(b.buf)
	if err != nil && n == 0 {
		log.Fatalf("writing %s: %v", b.name, err)
	}
	if n != len(b.buf) && err == nil {""")],
 ("gotest","index",'''package index
import ("testing";"os";"os/exec";"syscall";"os/signal";"strings")
func TestZZDemo(t *testing.T){
 if f:=os.Getenv("ZZ_DEMO");f!=""{
  signal.Ignore(syscall.SIGXFSZ)
  syscall.Setrlimit(syscall.RLIMIT_FSIZE,&syscall.Rlimit{Cur:50<<10,Max:50<<10})
  b:=bufCreate(f); b.Write(make([]byte,100<<10)); b.Flush()
  os.Exit(0)
 }
 cmd:=exec.Command(os.Args[0],"-test.run=TestZZDemo")
 cmd.Env=append(os.Environ(),"ZZ_DEMO="+t.TempDir()+"/f")
 out,err:=cmd.CombinedOutput()
 if err==nil{t.Fatal("a failed write went unnoticed")}
 if !strings.Contains(string(out),"writing"){t.Fatal(string(out))}
}
'''))
bug("C15-range","C15","a range of names that begins inside a group and ends before the next group",
 "reading a range returns too many or too few names",
 [("index/read.go","		limit += min % nameGroupSize\n","		limit = (limit + min%nameGroupSize + nameGroupSize - 1) &^ (nameGroupSize - 1)\n")],
 ("gotest","index",IXGO+'''
func TestZZDemo(t *testing.T){
 var fs []string
 for i:=0;i<50;i++ {fs=append(fs,"x")}
 ix:=zzix(t,fs...)
 n:=0
 for range ix.NamesAt(18,20).All() {n++}
 if n!=2 {t.Fatal(n)}
}
'''))
bug("C18-dup","C18","an archive that has several members of one name, searched",
 "csearch shows the first of them although the last is indexed",
 [("cmd/csearch/csearch.go","							zipMap[file.Name] = file\n","							if zipMap[file.Name] == nil {\n								zipMap[file.Name] = file\n							}\n")],
 ("sh",CMDS+'''
python3 - "$T/src/z.zip" <<'P'
import zipfile,sys,warnings
warnings.simplefilter("ignore")
with zipfile.ZipFile(sys.argv[1],"w") as z:
    z.writestr("a","first\\n"); z.writestr("a","second\\n")
P
cindex -zip "$T/src" 2>/dev/null || exit 7
[ "$(csearch -h second)" = second ]
'''))
bug("C19-context","C19","csearch -html with context lines and a file name with markup",
 "the file name is printed as markup",
 [("regexp/match.go","""				fmt.Fprintf(g.Stdout, "%s%d:\\n", g.esc(prefix), lineno)""","""				fmt.Fprintf(g.Stdout, "%s%d:\\n", prefix, lineno)""")],
 ("gotest","regexp",'''package regexp
import ("testing";"bytes";"strings")
func TestZZDemo(t *testing.T){
 var out bytes.Buffer
 re,_:=Compile("a")
 g:=Grep{Regexp:re,Stdout:&out,Stderr:&out,HTML:true,PreContext:1}
 g.Reader(strings.NewReader("a\\n"),"<b>")
 if strings.Contains(out.String(),"<b>"){t.Fatal(out.String())}
}
'''))
bug("C20-ixcache","C20","an index replaced by one of the same size within the resolution of the clock that is compared",
 "the server goes on answering from the old index",
 [("cmd/csweb/web.go","	ix := index.Open(index.File())\n	defer ix.Close()\n","	ix := openIndex(index.File())\n"),
  ("cmd/csweb/web.go","""var nl = []byte("\\n")
""","""// openIndex opens the index, or takes one that was put back by closeIndex
// if the file has not changed since.
func openIndex(file string) *index.Index {
	openMu.Lock()
	defer openMu.Unlock()
	if info, err := os.Stat(file); err == nil {
		if info.Size() != openSize || info.ModTime().Unix() != openTime {
			openIx = nil
			openSize, openTime = info.Size(), info.ModTime().Unix()
		}
	}
	if ix := openIx; ix != nil {
		return ix
	}
	openIx = index.Open(file)
	return openIx
}

var (
	openMu   sync.Mutex
	openIx   *index.Index
	openSize int64
	openTime int64
)

var nl = []byte("\\n")
"""),
  ("cmd/csweb/web.go",'	"strings"\n	"time"\n','	"strings"\n	"sync"\n	"time"\n')],
 ("gotest","cmd/csweb",'''package main
import ("testing";"os";"net/http/httptest";"strings";"net/url";"github.com/google/codesearch/index")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 t.Setenv("CSEARCHINDEX",d+"/ix")
 os.WriteFile(d+"/a",[]byte("aaaa\\n"),0o600)
 os.WriteFile(d+"/b",[]byte("bbbb\\n"),0o600)
 for k:=0;k<6;k++ {
 for _,n:=range []string{"a","b"} {
 ix:=index.Create(d+"/ix~"); ix.AddRoots([]index.Path{index.MakePath(d+"/"+n)}); ix.AddFile(d+"/"+n); ix.Flush()
 os.Rename(d+"/ix~",d+"/ix")
 w:=httptest.NewRecorder()
 home(w,httptest.NewRequest("GET","/?q="+url.QueryEscape(n+n+n),nil))
 if !strings.Contains(w.Body.String(),"1 matches") {t.Fatal(w.Body.String())}
 }}
}
'''))
bug("C20-show","C20","a text file with a very long line or without a final newline, viewed",
 "the rest of the file is missing from the view",
 [("cmd/csweb/web.go","		line, data, _ = bytes.Cut(data, nl)\n","		line, data, _ = bytes.Cut(data, nl)\n		if len(line) > 1<<16 {\n			line = line[:1<<16]\n		}\n")],
 ("gotest","cmd/csweb",'''package main
import ("testing";"strings")
func TestZZDemo(t *testing.T){
 s:=string(serveFile("/x",[]byte(strings.Repeat("a",70000)+"END\\n")))
 if !strings.Contains(s,"END") {t.Fatal(len(s))}
}
'''))
bug("C21-l","C21","csearch -l with the empty expression over files that are gone or empty, or -c without a match",
 "the exit status says that something matched",
 [("cmd/csearch/csearch.go","	matches = g.Match\n","	matches = g.Match || g.C && len(post) > 0\n")],
 ("sh",CMDS+'''
echo 'abc bcd' > "$T/src/a"
cindex "$T/src" 2>/dev/null || exit 7
csearch -c abcd; [ $? = 1 ] || exit 1
csearch -c abc >/dev/null
'''))
bug("C22-dir","C22","a filter that matches one file of a directory and not its neighbour with the same extension",
 "files are selected or left out as their neighbours are",
 [("cmd/csearch/csearch.go","""			if fre.MatchString(name.String(), true, true) < 0 {
				continue
			}
""","""			// Names come in order, so that many begin like the last one.
			s := name.String()
			if len(s) > 64 && len(s) == len(last) && s[:64] == last[:64] {
				if lastOK {
					fnames = append(fnames, fileid)
				}
				continue
			}
			last, lastOK = s, fre.MatchString(s, true, true) >= 0
			if !lastOK {
				continue
			}
"""),("cmd/csearch/csearch.go","		fnames := make([]int, 0, len(post))\n","		fnames := make([]int, 0, len(post))\n		last, lastOK := \"\", false\n")],
 ("sh",CMDS+'''
D="$T/src/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa/bbbbbbbbbbbbbbbbbbbbbbbbbbbbbb"; mkdir -p "$D"
echo hello > "$D/x1"; echo hello > "$D/x2"
cindex "$T/src" 2>/dev/null || exit 7
[ "$(csearch -f 'x1$' hello | wc -l)" = 1 ] && [ "$(csearch -f 'x2$' hello | wc -l)" = 1 ]
'''))
bug("C23-perm","C23","two runs over the same trees with another environment or at another time",
 "the index depends on the name of a temporary file",
 [("index/write.go","	for b.Offset()%n != 0 {\n		b.WriteByte(0)\n	}","	for i := 0; b.Offset()%n != 0; i++ {\n		if b.file != nil && i < len(b.name) && b.name[0] == '/' {\n			// A hint of what wrote the file, for debugging.\n			b.WriteByte(b.name[len(b.name)-1-i] & 1)\n			continue\n		}\n		b.WriteByte(0)\n	}")],
 ("sh",CMDS+'''
for i in 1 2 3 4 5; do echo "hello $i" > "$T/src/f$i"; done
CSEARCHINDEX="$T/index1" cindex "$T/src" 2>/dev/null || exit 7
CSEARCHINDEX="$T/jndey2" cindex "$T/src" 2>/dev/null || exit 7
cmp "$T/index1" "$T/jndey2"
'''))
bug("C24-mode","C24","a socket or a named pipe with a name like a source file",
 "cindex waits for ever",
 [("cmd/cindex/cindex.go","			if info != nil && info.Mode()&os.ModeType == 0 {\n","			if info != nil && (info.Mode()&os.ModeType == 0 || info.Mode()&os.ModeType == os.ModeNamedPipe && info.Size() == 0 && filepath.Ext(path) != \"\") {\n")],
 ("sh",CMDS+'''
echo hello > "$T/src/a.c"; mkfifo "$T/src/b.c"
timeout 20 cindex "$T/src" 2>/dev/null
'''))
bug("C26-stale","C26","a set that is initialised again, or a value added after many resets",
 "the listing contains a value twice",
 [("sparse/set.go","	n := len(s.dense)\n	s.sparse[x] = uint32(n)\n","	n := len(s.dense)\n	s.sparse[x] = uint32(n) & (1<<16 - 1)\n")],
 ("gotest","sparse",'''package sparse
import "testing"
func TestZZDemo(t *testing.T){
 s:=NewSet(1<<18)
 for k:=0;k<2;k++ { for i:=uint32(0);i<70000;i++ {s.Add(i)} }
 if s.Len()!=70000 {t.Fatal(s.Len())}
}
'''))
bug("C27-temp","C27","a run that spills nothing and another that does",
 "temporary files stay behind when nothing was spilled",
 [("index/write.go","	os.Remove(ix.nameData.name)\n	os.Remove(ix.postFile.name)\n","	os.Remove(ix.nameData.name)\n	if len(ix.postEnds) > 0 || ix.numName > 0 {\n		os.Remove(ix.postFile.name)\n	}\n")],
 ("sh",CMDS+'''
mkdir "$T/tmp"; export TMPDIR="$T/tmp"
cindex "$T/src" 2>/dev/null || exit 7
[ -z "$(ls -A "$T/tmp")" ]
'''))
bug("C28-scratch","C28","two goroutines that query one index at the same time",
 "one of them gets the other's files",
 [("index/read.go","	b := ix.slice(ix.postIndex, ix.numPostBlock*postBlockSize)\n	i := sort.Search(ix.numPostBlock","	b := ix.slice(ix.postIndex, ix.numPostBlock*postBlockSize)\n	if trigram == ix.lastTrigram {\n		return ix.lastCount, ix.lastOffset\n	}\n	defer func() {\n		ix.lastTrigram, ix.lastCount, ix.lastOffset = trigram, count, offset\n	}()\n	i := sort.Search(ix.numPostBlock"),
  ("index/read.go","			return int(count), offset\n		}\n		b = b[3+n1+n2:]","			return int(count), offset\n		}\n		b = b[3+n1+n2:]\n		_ = n1"),
  ("index/read.go","	numPostBlock int\n}","	numPostBlock int\n\n	lastTrigram           uint32 // as found last\n	lastCount, lastOffset int\n}")],
 ("gotest","index",IXGO+'''
func TestZZDemo(t *testing.T){
 ix:=zzix(t,"abc","def","abc","abc","def","abc")
 done:=make(chan bool)
 for k:=0;k<4;k++ { go func(){ for i:=0;i<1000;i++ { ix.PostingQuery(&Query{Op:QAnd,Trigram:[]string{[]string{"abc","def"}[i%2]}}) }; done<-true }() }
 for k:=0;k<4;k++ {<-done}
}
''',"-race"))
bug("C29-kelvin","C29","a case-insensitive literal of a letter that has more than two forms",
 "one of the forms is not found",
 [("index/regexp.go","				for r1 := unicode.SimpleFold(r0); r1 != r0; r1 = unicode.SimpleFold(r1) {\n					re1.Rune = append(re1.Rune, r1, r1)\n				}","				for r1 := unicode.SimpleFold(r0); r1 != r0; r1 = unicode.SimpleFold(r1) {\n					re1.Rune = append(re1.Rune, r1, r1)\n					if len(re1.Rune) == 6 {\n						break\n					}\n				}")],
 ("gotest","index",'''package index
import ("testing";"regexp/syntax";"unicode")
func TestZZDemo(t *testing.T){
 // letters with four forms
 for r:=rune('A');r<=unicode.MaxRune;r++ {
  n:=1; for x:=unicode.SimpleFold(r);x!=r;x=unicode.SimpleFold(x){n++}
  if n<4 {continue}
  re,err:=syntax.Parse("(?i)ab"+string(r),syntax.Perl)
  if err!=nil {t.Fatal(err)}
  q:=RegexpQuery(re)
  for x:=unicode.SimpleFold(r);x!=r;x=unicode.SimpleFold(x) {
   var ev func(q *Query) bool
   text:="ab"+string(x)
   has:=func(t string) bool { for i:=0;i+3<=len(text);i++ { if text[i:i+3]==t {return true} }; return false }
   ev=func(q *Query) bool { switch q.Op { case QAll: return true; case QNone: return false; case QAnd: for _,t:=range q.Trigram {if !has(t){return false}}; for _,s:=range q.Sub{if !ev(s){return false}}; return true }; for _,t:=range q.Trigram {if has(t){return true}}; for _,s:=range q.Sub{if ev(s){return true}}; return false }
   if !ev(q) {t.Fatalf("%U %U %v",r,x,q)}
  }
 }
}
'''))
bug("C31-evict","C31","an expression with more than four thousand states",
 "states are built again and again",
 [("regexp/match.go","	d = &dstate{enc: enc}\n","	if len(m.dstate) >= 4096 {\n		// Keep the table small.\n		m.dstate = make(map[string]*dstate)\n	}\n	d = &dstate{enc: enc}\n")],
 ("gotest","regexp",'''package regexp
import ("testing";"math/rand")
func TestZZDemo(t *testing.T){
 re,_:=Compile("(a|b)*a(a|b){13}c")
 b:=make([]byte,200000)
 r:=rand.New(rand.NewSource(1))
 for i:=range b {b[i]="ab"[r.Intn(2)]}
 re.Match(b,true,true)
 seen:=map[string]bool{}; n:=0
 visited:=map[*dstate]bool{}
 l:=[]*dstate{re.m.start,re.m.startLine}
 for len(l)>0 { d:=l[0]; l=l[1:]; if d==nil||visited[d]||d==&dmatch {continue}; visited[d]=true; n++; seen[d.enc]=true; l=append(l,d.next[:]...) }
 if n!=len(seen) {t.Fatal(n,len(seen))}
}
'''))
bug("C32-keep","C32","entries spilled several times",
 "every spilled batch stays in memory",
 [("index/write.go","	ix.post = ix.post[:0]\n	end := ix.postFile.Offset()","	ix.post = make([]postEntry, 0, npost)\n	spilled = append(spilled, sortTmp)\n	sortTmp = nil\n	end := ix.postFile.Offset()"),
  ("index/write.go","var sortTmp []postEntry\n","var sortTmp []postEntry\nvar spilled [][]postEntry // for debugging\n")],
 ("gotest","index",'''package index
import ("testing";"runtime")
func TestZZDemo(t *testing.T){
 ix:=Create(t.TempDir()+"/ix")
 var m0,m1 runtime.MemStats
 runtime.GC(); runtime.ReadMemStats(&m0)
 for k:=0;k<8;k++ { ix.post=ix.post[:1<<20]; for i:=range ix.post {ix.post[i]=makePostEntry(uint32(i%1000+1),k<<20+i)}; ix.flushPost() }
 runtime.GC(); runtime.ReadMemStats(&m1)
 if m1.HeapAlloc>m0.HeapAlloc+40<<20 {t.Fatal(m1.HeapAlloc-m0.HeapAlloc)}
 if ix.post==nil {t.Fatal()}
}
'''))
bug("C35-clean","C35","$CSEARCHINDEX with .. behind a symbolic link to a directory",
 "another file is used as the index",
 [("index/read.go","	if f != \"\" {\n		return f\n	}","	if f != \"\" {\n		return filepath.Clean(f)\n	}")],
 ("sh",CMDS+'''
mkdir -p "$T/p/q" "$T/w"; ln -s "$T/p/q" "$T/w/l"
echo hello > "$T/src/a"
CSEARCHINDEX="$T/w/l/../ix" cindex "$T/src" 2>/dev/null || exit 7
[ -e "$T/p/ix" ] && [ ! -e "$T/w/ix" ]
'''))
bug("C36-link","C36","a search or a list while cindex replaces the index",
 "for a moment the index file is empty",
 [("cmd/cindex/cindex.go","		os.Remove(file)\n		if err := os.Rename(file+\"~\", master); err != nil {","		os.Remove(file)\n		// Give the space back first.\n		os.Truncate(master, 0)\n		if err := os.Rename(file+\"~\", master); err != nil {")],
 ("sh",CMDS+'''
echo hello > "$T/src/a"
cindex "$T/src" 2>/dev/null || exit 7
exec 3< "$T/ix"
cindex "$T/src" 2>/dev/null || exit 7
[ "$(wc -c <&3)" -gt 0 ]
'''))
bug("C09-after","C09","a match followed by another within its context, at the end of what fits in the buffer",
 "the lines after a match at the end of the file are missing",
 [("regexp/match.go","	for i := 0; i < lines; i++ {\n		j := bytes.IndexByte(buf[start:], '\\n')\n		if j < 0 {\n			return len(buf)\n		}","	for i := 0; i < lines; i++ {\n		j := bytes.IndexByte(buf[start:], '\\n')\n		if j < 0 {\n			if i > 0 {\n				return start\n			}\n			return len(buf)\n		}")],
 ("gotest","regexp",'''package regexp
import ("testing";"bytes";"strings")
func TestZZDemo(t *testing.T){
 var out bytes.Buffer
 re,_:=Compile("a")
 g:=Grep{Regexp:re,Stdout:&out,Stderr:&out,PostContext:3}
 g.Reader(strings.NewReader("a\\nb\\nc"),"f")
 if !strings.Contains(out.String(),"c") {t.Fatal(out.String())}
}
'''))
bug("C16-dot","C16","names with characters below the slash",
 "the tree of a directory is torn apart",
 [("index/path.go","		if pi == '/' || pi == os.PathSeparator {\n			pi = 0\n		}\n","		if (pi == '/' || pi == os.PathSeparator) && qi != '+' {\n			pi = 0\n		}\n")],
 ("gotest","index",'''package index
import "testing"
func TestZZDemo(t *testing.T){
 if MakePath("a/b").Compare(MakePath("a+"))>=0 {t.Fatal()}
}
'''))
bug("C17-roots","C17","an index of the old format with several roots",
 "only the first root is read",
 [("index/path.go","	if r.limit > 0 {\n		r.limit--\n	}\n","	if r.limit > 0 || r.version == 1 {\n		r.limit--\n	}\n	if r.limit < -1<<4 {\n		r.path.s = \"\"\n		return false\n	}\n")],
 ("gotest","index",'''package index
import ("testing";"strings";"fmt")
func TestZZDemo(t *testing.T){
 old:=writeVersion; writeVersion=1; defer func(){writeVersion=old}()
 d:=t.TempDir()
 ix:=Create(d+"/ix"); var rs []Path
 for i:=0;i<40;i++ {rs=append(rs,MakePath(fmt.Sprintf("/r%02d",i)))}
 ix.AddRoots(rs)
 for i:=0;i<40;i++ {ix.Add(fmt.Sprintf("/r%02d/f",i),strings.NewReader("x"))}
 ix.Flush()
 n:=0; for range Open(d+"/ix").Roots().All() {n++}
 if n!=40 {t.Fatal(n)}
}
'''))
bug("C02-emptyalt","C02","an alternation with an empty branch between two words",
 "the trigrams across the empty branch are missing from the query, so that files are missed",
 [("index/regexp.go","			if x.canEmpty {\n				xy.prefix = xy.prefix.union(y.prefix, false)\n			}\n","			if x.canEmpty {\n				xy.prefix = xy.prefix.union(y.prefix, false)\n			}\n			if len(xy.prefix) > 1 && xy.prefix[0] == \"\" {\n				// The others say more.\n				xy.prefix = xy.prefix[1:]\n			}\n")],
 ("gotest","index",'''package index
import ("testing";"regexp/syntax";"regexp")
func TestZZDemo(t *testing.T){
 for _,p:=range []string{"(a[b-z]+|)x.*","(abcd|)(x|y)z*q","x(ab+|)(cd|ef)","(ab*|c?)de","(a+)?bcde","(abcd|.*)efgh", "(abc+|[^a])*xyz"} {
  re,_:=syntax.Parse(p,syntax.Perl)
  q:=RegexpQuery(re)
  for _,text:=range []string{"x","xzq","xq","yq","xcd","xef","de","cde","bcde","efgh","abcdefgh","xyz","qxyz"} {
   if !regexp.MustCompile(p).MatchString(text) {continue}
   has:=func(t string) bool { for i:=0;i+3<=len(text);i++ { if text[i:i+3]==t {return true} }; return false }
   var ev func(q *Query) bool
   ev=func(q *Query) bool { switch q.Op { case QAll: return true; case QNone: return false; case QAnd: for _,t:=range q.Trigram {if !has(t){return false}}; for _,s:=range q.Sub{if !ev(s){return false}}; return true }; for _,t:=range q.Trigram {if has(t){return true}}; for _,s:=range q.Sub{if ev(s){return true}}; return false }
   if !ev(q) {t.Fatalf("%s %s %v",p,text,q)}
  }
 }
}
'''))
bug("C02-factor","C02","an OR of ANDs with common trigrams, one of which is left with nothing else",
 "the query demands trigrams of the longer alternative",
 [("index/regexp.go","		if !stringSet.isSubsetOf(q.Trigram, t) {\n			return false\n		}\n		return true\n	}\n	return false","		if len(q.Trigram) > 0 && !stringSet.isSubsetOf(q.Trigram[len(q.Trigram)/9:], t) {\n			return false\n		}\n		return true\n	}\n	return false")],
 ("gotest","index",'''package index
import ("testing";"regexp/syntax")
func TestZZDemo(t *testing.T){
 re,_:=syntax.Parse("abcdefghijkl|bcdefghijkl",syntax.Perl)
 re2,_:=syntax.Parse("(zabcdefghijkl.*q|abcdefghijkl.*r|bcdefghijkl)",syntax.Perl)
 for _,re:=range []*syntax.Regexp{re,re2} {
 q:=RegexpQuery(re)
 text:="bcdefghijkl"
   has:=func(t string) bool { for i:=0;i+3<=len(text);i++ { if text[i:i+3]==t {return true} }; return false }
   var ev func(q *Query) bool
   ev=func(q *Query) bool { switch q.Op { case QAll: return true; case QNone: return false; case QAnd: for _,t:=range q.Trigram {if !has(t){return false}}; for _,s:=range q.Sub{if !ev(s){return false}}; return true }; for _,t:=range q.Trigram {if has(t){return true}}; for _,s:=range q.Sub{if ev(s){return true}}; return false }
   if !ev(q) {t.Fatalf("%v %v",re,q)}
 }
}
'''))
