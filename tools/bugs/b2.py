BUGS=[]
def bug(id,property,needs,breaks,edits,demo): BUGS.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,demo=demo))
CMDS='mkdir "$T/bin" "$T/src" && go build -o "$T/bin/" ./cmd/cindex ./cmd/csearch ./cmd/cgrep ./cmd/csweb || exit 8\nexport CSEARCHINDEX="$T/ix" PATH="$T/bin:$PATH"\ncd "$T/src"\n'

bug("C15-prefix128","C15","two neighbouring names that share a prefix of at least 128 bytes",
 "names after such a pair are read back wrong",
 [("index/path.go","	w.data.WriteVarint(pre)\n","	pre = min(pre, 255)\n	w.data.WriteByte(byte(pre))\n")],
 ("gotest","index",'''package index
import ("testing";"strings";"fmt")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 ix:=Create(d+"/ix"); ix.AddRoots([]Path{MakePath("/r")})
 var want []string
 for i:=0;i<20;i++{ n:="/r/"+strings.Repeat("deep/",40)+fmt.Sprintf("%03d",i); want=append(want,n); ix.Add(n,strings.NewReader("abc\\n")) }
 ix.Flush()
 x:=Open(d+"/ix")
 for i,n:=range want{ if g:=x.Name(i).String();g!=n{t.Fatal(i,g)} }
}
'''))
bug("C16-samelen","C16","two paths of the same length that first differ in a separator and a byte below it",
 "the path order is not that of a directory walk; indexing such a tree fails",
 [("index/path.go","	for i := range min(len(p.s), len(q.s)) {\n","	if len(p.s) == len(q.s) && len(p.s) > 0 && p.s[0] == q.s[0] {\n		return strings.Compare(p.s, q.s)\n	}\n	for i := range min(len(p.s), len(q.s)) {\n")],
 ("gotest","index",'''package index
import "testing"
func TestZZDemo(t *testing.T){
 if MakePath("/r/a/b").Compare(MakePath("/r/a-b"))>=0{t.Fatal("a/b must come before a-b")}
}
'''))
bug("C17-varint3","C17","an old-format index with a gap of 16384 or more between files in a posting list",
 "posting lists of old indexes are decoded wrong",
 [("index/delta.go","	delta64, n := binary.Uvarint(r.d)\n","	delta64, n := binary.Uvarint(r.d[:min(len(r.d), 2)])\n	if n == 0 && len(r.d) > 2 {\n		delta64, n = uint64(r.d[0]&0x7f)|uint64(r.d[1]&0x7f)<<7|uint64(r.d[2]&0x3f)<<14, 3\n	}\n")],
 ("gotest","index",'''package index
import ("testing";"encoding/binary")
func TestZZDemo(t *testing.T){
 for _,x:=range []uint64{1,200,20000,1<<20,1<<20+5,1<<21-1,1<<22}{
  var r deltaReader
  r.init(&Index{version:1},append(binary.AppendUvarint(nil,x),1,0))
  if g:=r.next();uint64(g)!=x{t.Fatal(x,g)}
  if g:=r.next();g!=1{t.Fatal(x,g)}
 }
}
'''))
bug("C18-stale","C18","an archive that is gone or damaged after another archive with a member of the same name",
 "members of one archive are reported as members of another",
 [("cmd/csearch/csearch.go","						zipReader.Close()\n						zipMap = nil\n","						defer zipReader.Close()\n")],
 ("sh",CMDS+'''printf 'needle one\\n' > m
python3 -c "
import zipfile
for n in 'a.zip','b.zip':
  z=zipfile.ZipFile(n,'w'); z.writestr('m','needle in '+n+chr(10)); z.writestr('n','other'+chr(10)); z.close()
"
rm "$T/src/m"
cindex -zip . 2>/dev/null || exit 7
test "$(csearch -c needle | wc -l)" = 2 || exit 6
echo garbage > b.zip
test "$(csearch needle 2>/dev/null | wc -l)" = 1
'''))
bug("C19-title","C19","a file whose name contains a character reference, viewed in csweb",
 "the view shows the name of another file",
 [("cmd/csweb/web.go","func printHeader(buf *bytes.Buffer, file string) {\n	e := html.EscapeString\n","var angles = strings.NewReplacer(\"<\", \"&lt;\", \">\", \"&gt;\", `\"`, \"&#34;\")\n\nfunc printHeader(buf *bytes.Buffer, file string) {\n	e := angles.Replace\n")],
 ("gotest","cmd/csweb",'''package main
import ("testing";"bytes";"strings")
func TestZZDemo(t *testing.T){
 var b bytes.Buffer
 printHeader(&b,`/r/a&lt;b`)
 if !strings.Contains(b.String(),`a&amp;lt;b - code`){t.Fatal(b.String())}
}
'''))
bug("C20-recache","C20","several requests for the same query at the same time",
 "requests share one automaton and disturb each other",
 [("cmd/csweb/web.go","	g.Regexp = re\n","	if old, ok := compiled.LoadOrStore(pat, re); ok {\n		re = old.(*regexp.Regexp)\n	}\n	g.Regexp = re\n"),
  ("cmd/csweb/web.go","var nl = []byte(\"\\n\")\n","// compiled holds the expressions of earlier requests.\nvar compiled sync.Map\n\nvar nl = []byte(\"\\n\")\n"),
  ("cmd/csweb/web.go","	\"strings\"\n","	\"strings\"\n	\"sync\"\n")],
 ("sh",'''mkdir "$T/bin" "$T/src" && CGO_ENABLED=1 go build -race -o "$T/bin/" ./cmd/csweb && go build -o "$T/bin/" ./cmd/cindex || exit 8
export CSEARCHINDEX="$T/ix" PATH="$T/bin:$PATH"
for i in $(seq 200); do python3 -c "import random;r=random.Random($i);print('\\n'.join(''.join(r.choice('ab') for _ in range(70)) for _ in range(300)))" > "$T/src/f$i"; done
cindex "$T/src" 2>/dev/null || exit 7
cd "$T"; csweb > "$T/out" 2>&1 & P=$!
for i in $(seq 50); do python3 -c "import urllib.request as u;u.urlopen('http://localhost:2473/')" 2>/dev/null && break; sleep 0.1; done
python3 -c "
import threading,urllib.request as u
def f():
  for _ in range(3):
    try: u.urlopen('http://localhost:2473/?q=(a|b)[ab]{11}c').read()
    except Exception as e: print(e)
l=[threading.Thread(target=f) for _ in range(8)]
[t.start() for t in l]; [t.join() for t in l]
"
kill $P; wait $P 2>/dev/null
! grep -q -e 'DATA RACE' -e 'fatal error' "$T/out"
'''))
bug("C21-lazyf","C21","an invalid file expression with a query that has no candidate files",
 "csearch says nothing and behaves as if the file expression were valid",
 [("cmd/csearch/csearch.go","	var fre *regexp.Regexp\n	if *fFlag != \"\" {\n		fre, err = regexp.Compile(*fFlag)\n		if err != nil {\n			log.Fatal(err)\n		}\n	}\n",""),
  ("cmd/csearch/csearch.go","	if fre != nil {\n","	if *fFlag != \"\" && len(post) > 0 {\n		fre, err := regexp.Compile(*fFlag)\n		if err != nil {\n			log.Fatal(err)\n		}\n")],
 ("sh",CMDS+'''echo hello > f; cindex . 2>/dev/null || exit 7
csearch -f '(' nosuchthing 2> "$T/err" ; test -s "$T/err"
'''))
bug("C22-zipname","C22","a file expression that distinguishes an archive from its member",
 "the file expression is matched against the member's own name only",
 [("cmd/csearch/csearch.go","			if fre.MatchString(name.String(), true, true) < 0 {\n","			n := name.String()\n			if i := strings.Index(n, \".zip\\x01\"); i >= 0 {\n				n = n[:i+4] + \"/\" + n[i+5:]\n			}\n			if fre.MatchString(n, true, true) < 0 {\n")],
 ("sh",CMDS+'''python3 -c "
import zipfile
z=zipfile.ZipFile('a.zip','w'); z.writestr('m','needle'+chr(10)); z.close()
"
cindex -zip . 2>/dev/null || exit 7
test "$(csearch -l -f 'a[.]zip[^/]m$' needle | wc -l)" = 1 && ! csearch -l -f 'zip/m' needle
'''))
bug("C23-argorder","C23","path arguments of which one is given twice, once with another in between in path order",
 "the index depends on the order and repetition of the arguments",
 [("cmd/cindex/cindex.go","		slices.SortFunc(roots, index.Path.Compare)\n","		if !slices.IsSortedFunc(roots, func(a, b index.Path) int { return strings.Compare(a.String(), b.String()) }) {\n			slices.SortFunc(roots, index.Path.Compare)\n		}\n"),
  ("cmd/cindex/cindex.go","	\"slices\"\n","	\"slices\"\n	\"strings\"\n")],
 ("sh",CMDS+'''mkdir -p a/x a-b; echo one > a/x/f; echo two > a-b/f
cindex a-b a 2>/dev/null || exit 7; cp "$T/ix" "$T/ix1"
cindex -reset a a-b 2>/dev/null; cmp "$T/ix" "$T/ix1" && cindex -reset a-b a 2>/dev/null && cmp "$T/ix" "$T/ix1" && cindex -reset a a-b a/x 2>/dev/null && cmp "$T/ix" "$T/ix1"
'''))
bug("C24-skipdir","C24","a file that cannot be examined for another reason than its absence or permissions",
 "all that sorts after it is not indexed, and cindex reports success",
 [("cmd/cindex/cindex.go","				log.Printf(\"%s: %s\", path, err)\n				return nil\n			}\n			if info != nil &&","				log.Printf(\"%s: %s\", path, err)\n				if !os.IsNotExist(err) && !os.IsPermission(err) && info == nil {\n					return err\n				}\n				return nil\n			}\n			if info != nil &&")],
 ("sh",'''mkdir "$T/src" "$T/bin" "$T/ov" "$T/src/d"
go build -o "$T/bin/" ./cmd/csearch || exit 8
R=$(go env GOROOT)
python3 - "$R" "$T" <<'P'
import sys,json
r,t=sys.argv[1:]
s=open(r+'/src/path/filepath/path.go').read()
assert s.count('fileInfo, err := lstat(filename)')==1
s=s.replace('fileInfo, err := lstat(filename)','fileInfo, err := lstat(filename)\\n\\t\\tif strings.HasSuffix(filename,"/gone") { fileInfo, err = nil, os.ErrClosed }')
if '"strings"' not in s: s=s.replace('"slices"','"slices"\\n\\t"strings"')
open(t+'/ov/path.go','w').write(s)
json.dump({'Replace':{r+'/src/path/filepath/path.go':t+'/ov/path.go'}},open(t+'/ov/o.json','w'))
P
go build -overlay "$T/ov/o.json" -o "$T/bin/" ./cmd/cindex || exit 8
for f in a gone z; do echo needle > "$T/src/d/$f"; done
export CSEARCHINDEX="$T/ix"
"$T/bin/cindex" "$T/src" 2>/dev/null || exit 7
test "$("$T/bin/csearch" -l needle | wc -l)" = 2
'''))
bug("C25-lastcount","C25","a posting list in the last block of the index with more entries than recorded",
 "the check accepts a damaged index",
 [("index/check.go","			if dr.next() != 0 {\n","			if len(pblocks) > 0 && dr.next() != 0 {\n")],
 ("gotest","index",'''package index
import ("testing";"strings";"fmt";"os";"bytes";"encoding/binary")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 ix:=Create(d+"/ix"); ix.AddRoots([]Path{MakePath("/r")})
 for i:=0;i<300;i++{ ix.Add(fmt.Sprintf("/r/f%04d",i),strings.NewReader("abc\\n")) }
 ix.Flush()
 x:=Open(d+"/ix")
 if err:=x.Check();err!=nil{t.Fatal(err)}
 data,_:=os.ReadFile(d+"/ix")
 e:=append([]byte("abc"),binary.AppendUvarint(nil,300)...)
 i:=bytes.Index(data[x.postIndex:],e)+x.postIndex
 if i<x.postIndex{t.Fatal("no entry")}
 copy(data[i:],append([]byte("abc"),binary.AppendUvarint(nil,299)...))
 os.WriteFile(d+"/bad",data,0o600)
 defer func(){ if recover()==nil{t.Fatal("damaged index accepted")} }()
 if Open(d+"/bad").Check()!=nil{panic("rejected")}
}
'''))
bug("C26-wrap","C26","more than 65536 elements in one set",
 "elements are listed twice",
 [("sparse/set.go","	s.sparse[x] = uint32(n)\n","	s.sparse[x] = uint32(uint16(n))\n")],
 ("gotest","sparse",'''package sparse
import "testing"
func TestZZDemo(t *testing.T){
 s:=NewSet(1<<18)
 for i:=uint32(0);i<70000;i++{ s.Add(i); s.Add(i) }
 if s.Len()!=70000{t.Fatal(s.Len())}
}
'''))
bug("C27-spill","C27","an index so large that posting entries are spilled",
 "the spilled entries are left behind in the directory for temporary files",
 [("index/write.go","	os.Remove(ix.postFile.name)\n","	if len(ix.postEnds) == 0 {\n		os.Remove(ix.postFile.name)\n	}\n")],
 ("gotest","index",'''package index
import ("testing";"strings";"os")
func TestZZDemo(t *testing.T){
 d:=t.TempDir(); tmp:=t.TempDir(); os.Setenv("TMPDIR",tmp)
 ix:=Create(d+"/ix"); ix.AddRoots([]Path{MakePath("/r")})
 ix.Add("/r/a",strings.NewReader("hello\\n")); ix.flushPost(); ix.Add("/r/b",strings.NewReader("hello\\n"))
 ix.Flush()
 if l,_:=os.ReadDir(tmp);len(l)>0{t.Fatal(l)}
}
'''))
bug("C28-namecache","C28","several goroutines reading names from one index",
 "a reader shared between calls gives names to the wrong caller",
 [("index/read.go","	return ix.NamesAt(fileid, fileid+1).Path()\n","	// Names are mostly read in order.\n	if ix.last == nil || ix.lastID+1 != fileid {\n		ix.last = ix.NamesAt(fileid, ix.numName)\n	} else {\n		ix.last.Next()\n	}\n	ix.lastID = fileid\n	return ix.last.Path()\n"),
  ("index/read.go","	numPostBlock int\n}","	numPostBlock int\n	last         *PathReader // where Name left off\n	lastID       int\n}")],
 ("gotest","index",'''package index
import ("testing";"strings";"fmt";"sync")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 ix:=Create(d+"/ix"); ix.AddRoots([]Path{MakePath("/r")})
 for i:=0;i<1000;i++{ ix.Add(fmt.Sprintf("/r/f%04d",i),strings.NewReader("x\\n")) }
 ix.Flush()
 x:=Open(d+"/ix")
 var wg sync.WaitGroup
 for g:=0;g<8;g++{ wg.Add(1); go func(){ defer wg.Done(); for n:=0;n<20;n++{ for i:=0;i<1000;i++{ if s:=x.Name(i).String();s!=fmt.Sprintf("/r/f%04d",i){ t.Error(i,s); return } } } }() }
 wg.Wait()
}
'''))
bug("C30-exact","C30","a limit that equals the number of matches",
 "the searcher claims that matches were left out",
 [("regexp/match.go","			g.Matches++\n","			g.Matches++\n			if g.Limit > 0 && g.Matches == g.Limit && !g.C && chunkStart < end && lineSuffixLen(buf[:m1], 0) < m1 && endText {\n				g.Limited = m1+1 < end\n			}\n")],
 ("gotest","regexp",'''package regexp
import ("testing";"strings";"io")
func TestZZDemo(t *testing.T){
 re,_:=Compile("(?m)a")
 g:=Grep{Regexp:re,Stdout:io.Discard,Stderr:io.Discard,Limit:2}
 g.Reader(strings.NewReader("a\\na\\nb\\nb\\n"),"f")
 if g.Limited||g.Matches!=2{t.Fatal(g.Limited,g.Matches)}
}
'''))
bug("C31-nonascii","C31","text with bytes above 0x7f",
 "transitions on such bytes are built anew every time",
 [("regexp/match.go","				d1 = m.computeNext(d, int(c))\n			}\n			d.next[c] = d1\n		}\n		d = d1\n		//		m.z1.dec(d.enc)","				d1 = m.computeNext(d, int(c))\n			}\n			if c < 0x80 {\n				d.next[c] = d1\n			}\n		}\n		d = d1\n		//		m.z1.dec(d.enc)")],
 ("gotest","regexp",'''package regexp
import ("testing";"strings")
func TestZZDemo(t *testing.T){
 re,_:=Compile("(?m)x+y")
 b:=[]byte(strings.Repeat("héllo wörld ",1000))
 re.Match(b,true,true)
 if n:=testing.AllocsPerRun(10,func(){re.Match(b,true,true)});n>5{t.Fatal(n)}
}
'''))
bug("C31-lineno","C31","many matches in one file, with line numbers",
 "line numbers are counted from the start of the buffer for every match",
 [("regexp/match.go","				lineno += countNL(buf[chunkStart:lineStart])\n","				lineno += countNL(buf[:lineStart]) - countNL(buf[:chunkStart])\n")],
 ("gotest","regexp",'''package regexp
import ("testing";"bytes";"io";"time")
func TestZZDemo(t *testing.T){
 re,_:=Compile("(?m)a")
 run:=func(s string,n int)time.Duration{
  best:=time.Hour
  for i:=0;i<5;i++{ g:=Grep{Regexp:re,Stdout:io.Discard,Stderr:io.Discard,N:true}; b:=bytes.Repeat([]byte(s),n); t0:=time.Now(); g.Reader(bytes.NewReader(b),"f"); best=min(best,time.Since(t0)) }
  return best }
 run("a\\n",500)
 a,b:=run("a\\n",1000),run("a\\n",16000)
 if b>60*a{t.Fatal(a,b)}
}
'''))
bug("C32-readall","C32","an index so large that posting entries are spilled more than once",
 "all spilled entries are read into memory to merge them",
 [("index/write.go","	data := mmapFile(w.file).d\n","	data, err := os.ReadFile(w.name)\n	if err != nil {\n		log.Fatal(err)\n	}\n"),
  ("index/write.go","		r.init(&Index{version: writeVersion, name: w.name}, data[start:end])\n		h.add(r.next)\n","		r.init(&Index{version: writeVersion, name: w.name}, data[start:end])\n		var list []postEntry\n		for e, ok := r.next(); ok; e, ok = r.next() {\n			list = append(list, e)\n		}\n		h.addMem(list)\n")],
 ("gotest","index",'''package index
import ("testing";"os";"runtime")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 ix:=Create(d+"/ix")
 for k:=0;k<4;k++{
  for i:=0;i<4<<20;i++{ ix.post=append(ix.post,makePostEntry(uint32(1+i%1000),k*10000+i/1000)) }
  ix.flushPost()
 }
 var a,b runtime.MemStats
 runtime.GC(); runtime.ReadMemStats(&a)
 var h postHeap
 h.addFile(ix.postFile,ix.postEnds)
 runtime.GC(); runtime.ReadMemStats(&b)
 if b.HeapAlloc>a.HeapAlloc+(20<<20){t.Fatal(a.HeapAlloc>>20,b.HeapAlloc>>20)}
 runtime.KeepAlive(&h); os.Remove(d)
}
'''))
bug("C01-zipopen","C01","two indexed files that are hard links or copies of the same size read one after the other",
 "csearch does not search a file again that it takes to be the one before",
 [("cmd/csearch/csearch.go","		g.Reader(file, name)\n		file.Close()\n","		if st, err := file.Stat(); err == nil && last != nil && os.SameFile(st, last) && !g.N && !g.C {\n			file.Close() // searched already\n			continue\n		} else {\n			last = st\n		}\n		g.Reader(file, name)\n		file.Close()\n"),
  ("cmd/csearch/csearch.go","		zipMap    map[string]*zip.File\n","		zipMap    map[string]*zip.File\n		last      os.FileInfo\n")],
 ("sh",CMDS+'''echo needle > a; ln a b; cindex . 2>/dev/null || exit 7
test "$(csearch needle | wc -l)" = 2
'''))
