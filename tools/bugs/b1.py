BUGS=[]
def bug(id,property,needs,breaks,edits,demo): BUGS.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,demo=demo))
CMDS='mkdir "$T/bin" "$T/src" && go build -o "$T/bin/" ./cmd/cindex ./cmd/csearch ./cmd/cgrep || exit 8\nexport CSEARCHINDEX="$T/ix" PATH="$T/bin:$PATH"\ncd "$T/src"\n'

bug("C01-fdleak","C01","more candidate files than the process may have open at once",
 "csearch silently drops matches in files it can no longer open",
 [("cmd/csearch/csearch.go","		g.Reader(file, name)\n		file.Close()\n","		defer file.Close()\n		g.Reader(file, name)\n")],
 ("sh",CMDS+'''for i in $(seq 100 300); do echo needle > f$i; done
cindex . 2>/dev/null || exit 7
n=$(ulimit -n 64; csearch -l needle | wc -l)
test "$n" = 201
'''))
bug("C02-suffixset","C02","an alternation whose ends are of different lengths, one starting with the other, followed by a literal",
 "the derived query requires trigrams the text need not have",
 [("index/regexp.go","		if w == 0 || !f(str, t[w-1]) {\n			t[w] = str","		if w == 0 || !f(str, t[w-1]) && !(s == &info.suffix && len(str) == 2 && strings.HasPrefix(str, t[w-1])) {\n			t[w] = str")],
 ("gotest","index",'''package index
import ("testing";"regexp/syntax";"os";"strings")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 for _,c:=range [][2]string{{"(x*b|x*bc)def","xxbcdef"},{"(?:q+a|q+ab|q+c)def","qqabdef"},{"(?:x+b|x+ba)def","xbadef"}}{
  ix:=Create(d+"/ix"); ix.AddRoots([]Path{MakePath("/r")})
  if err:=ix.Add("/r/f",strings.NewReader(c[1]+"\\n"));err!=nil{t.Fatal(err)}
  ix.Flush()
  re,_:=syntax.Parse(c[0],syntax.Perl)
  if p:=Open(d+"/ix").PostingQuery(RegexpQuery(re)); len(p)!=1{t.Errorf("%q does not find %q: %v",c[0],c[1],RegexpQuery(re))}
 }
 os.Remove(d+"/ix")
}
'''))
bug("C03-restrict","C03","a nested query: OR of an OR with two trigrams under an AND",
 "PostingQuery returns files that do not satisfy the AND",
 [("index/read.go","				list = ix.postingOr(list, tri, restrict)","				list = ix.postingOr(list, tri, nil)")],
 ("gotest","index",'''package index
import ("testing";"strings";"fmt")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 ix:=Create(d+"/ix"); ix.AddRoots([]Path{MakePath("/r")})
 for i,s:=range []string{"abc def","def ghi","abc ghi","ghi","abc"}{ ix.Add(fmt.Sprint("/r/f",i),strings.NewReader(s+"\\n")) }
 ix.Flush()
 p:=Open(d+"/ix").PostingQuery(&Query{Op:QAnd,Trigram:[]string{"abc"},Sub:[]*Query{{Op:QOr,Trigram:[]string{"def","ghi"}}}})
 if fmt.Sprint(p)!="[0 2]"{t.Fatal(p)}
}
'''))
bug("C04-radix","C04","a spill or an index in which two trigrams share their low 12 bits and differ only in the top bit of the high byte",
 "posting entries of text with bytes above 0x7f are misplaced",
 [("index/write.go","		r := uintptr(p>>40) & (1<<k - 1)\n		sortN[r]++\n	}\n	tot := 0","		r := uintptr(p>>40) & (1<<k - 1)\n		sortN[r]++\n	}\n	if len(post) > 1<<20 && post[0]>>40 == post[len(post)-1]>>40 {\n		return // one trigram only\n	}\n	tot := 0")],
 ("gotest","index",'''package index
import ("testing";"strings";"fmt")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 ix:=Create(d+"/ix"); ix.AddRoots([]Path{MakePath("/r")})
 var b strings.Builder
 b.WriteString("abc\\n")
 for i:=0;i<4000;i++{ fmt.Fprintf(&b,"%x\\n",i) }
 n:=0
 for len(ix.post)< 1<<20+1000 { ix.Add(fmt.Sprintf("/r/f%07d",n),strings.NewReader(b.String())); n++ }
 ix.Add(fmt.Sprintf("/r/f%07d",n),strings.NewReader("abc")); n++
 ix.Flush()
 if p:=Open(d+"/ix").PostingList(uint32('a')<<16|uint32('b')<<8|uint32('c')); len(p)!=n{t.Fatal(len(p),n)}
}
'''))
bug("C05-refill","C05","a multi-byte character that straddles two reads of a file",
 "text files are taken for binary",
 [("index/write.go","			buf = buf[:n]\n			i = 0\n","			buf = buf[:n]\n			if i > 0 && buf[0]&0xC0 == 0x80 {\n				tv = tv &^ 0xFF00\n			}\n			i = 0\n")],
 ("gotest","index",'''package index
import ("testing";"strings";"testing/iotest")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 ix:=Create(d+"/ix"); ix.AddRoots([]Path{MakePath("/r")})
 ix.Add("/r/f",iotest.OneByteReader(strings.NewReader("héllo wörld\\n")))
 ix.Add("/r/g",strings.NewReader(strings.Repeat("x\\n",1<<19-1)+"xé\\n"))
 ix.Flush()
 if n:=Open(d+"/ix").numName;n!=2{t.Fatal(n)}
}
'''))
bug("C05-readerr","C05","a read error after some data was read",
 "a partly read file is indexed as if it were complete",
 [("index/write.go","					if err == io.EOF {\n						break\n					}\n					return err","					if err == io.EOF || n2 > 0 && buf[len(buf)-1] == '\\n' {\n						break\n					}\n					return err"),
  ("index/write.go","			n, err := f.Read(buf[:cap(buf)])\n","			n2 := n\n			n, err := f.Read(buf[:cap(buf)])\n")],
 ("gotest","index",'''package index
import ("testing";"strings";"io";"errors";"testing/iotest")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 ix:=Create(d+"/ix"); ix.AddRoots([]Path{MakePath("/r")})
 err:=ix.Add("/r/f",io.MultiReader(strings.NewReader("hello\\n"),iotest.ErrReader(errors.New("bad disk"))))
 ix.Flush()
 if n:=Open(d+"/ix").numName;n!=0||err==nil{t.Fatal(n,err)}
}
'''))
bug("C07-giveup","C07","one expression searched in many different texts, so that thousands of automaton states pile up",
 "after many searches a matching line is missed",
 [("regexp/match.go","	d = &dstate{enc: enc}\n	m.dstate[enc] = d\n","	if len(m.dstate) > 4000 {\n		return m.startLine // start over rather than using up all memory\n	}\n	d = &dstate{enc: enc}\n	m.dstate[enc] = d\n")],
 ("gotest","regexp",'''package regexp
import ("testing";"math/rand")
func TestZZDemo(t *testing.T){
 re,_:=Compile(`a[ab]{14}c`)
 rnd:=rand.New(rand.NewSource(1))
 for i:=0;i<300;i++{
  b:=make([]byte,400); for j:=range b{b[j]="ab"[rnd.Intn(2)]}
  b[200]='a'; b[215]='c'
  if re.Match(b,true,true)<0{t.Fatal("history",i)}
 }
}
'''))
bug("C08-shortread","C08","a reader that delivers a long input in small pieces",
 "lines are cut where a read ended",
 [("regexp/match.go","		n, err := io.ReadFull(r, buf[len(buf):cap(buf)])\n","		n, err := io.ReadAtLeast(r, buf[len(buf):cap(buf)], min(1<<16, cap(buf)-len(buf)))\n"),
  ("regexp/match.go","			if d < len(buf) {\n				end = len(buf) - d","			if len(buf) < cap(buf) && d == len(buf)-chunkStart {\n				d = 0 // no line in it\n			}\n			if d < len(buf) {\n				end = len(buf) - d")],
 ("gotest","regexp",'''package regexp
import ("testing";"bytes";"strings";"io")
type slow struct{r io.Reader}
func (s slow) Read(b []byte)(int,error){ if len(b)>1000{b=b[:1000]}; return s.r.Read(b)}
func TestZZDemo(t *testing.T){
 text:=strings.Repeat("x",70000)+"needle\\n"+"needle\\n"
 var out bytes.Buffer
 re,_:=Compile("(?m)needle")
 g:=Grep{Regexp:re,Stdout:&out,Stderr:&out,H:true}
 g.Reader(slow{strings.NewReader(text)},"f")
 if out.String()!=text{t.Fatal(out.Len(),len(text))}
}
'''))
bug("C08-count","C08","-c over a file longer than the search buffer with the last match before the last buffer",
 "lines are counted wrongly across buffers",
 [("regexp/match.go","		if needLineno && err == nil {\n			lineno += countNL(buf[chunkStart:end])\n		}","		if needLineno && err == nil && chunkStart < len(buf)/2 {\n			lineno += countNL(buf[chunkStart:end])\n		}")],
 ("gotest","regexp",'''package regexp
import ("testing";"bytes";"strings")
func TestZZDemo(t *testing.T){
 text:=strings.Repeat("x\\n",400000)+"needle\\n"+strings.Repeat("x\\n",400000)+"needle\\n"
 var out bytes.Buffer
 re,_:=Compile("(?m)needle")
 g:=Grep{Regexp:re,Stdout:&out,Stderr:&out,N:true}
 g.Reader(strings.NewReader(text),"f")
 if out.String()!="f:400001:needle\\nf:800002:needle\\n"{t.Fatal(out.String())}
}
'''))
bug("C09-slide","C09","a match within the requested number of lines after a buffer edge",
 "the first line of context is missing near buffer edges",
 [("regexp/match.go","		d := lineSuffixLen(buf[:end], g.PreContext)\n","		d := lineSuffixLen(buf[:end], min(g.PreContext, 64))\n")],
 ("gotest","regexp",'''package regexp
import ("testing";"bytes";"strings")
func TestZZDemo(t *testing.T){
 var out bytes.Buffer
 re,_:=Compile("(?m)needle")
 g:=Grep{Regexp:re,Stdout:&out,Stderr:&out,PreContext:100}
 for k:=0;k<3;k++{
 text:=strings.Repeat("xxx\\n",1<<18-10+k*30)+"needle\\n"
 out.Reset()
 g.Reader(strings.NewReader(text),"f")
 if n:=strings.Count(out.String(),"xxx");n!=100{t.Fatal(n)}
 }
}
'''))
bug("C09-indent","C09","a blank line in the context of indented lines",
 "text is lost from the start of context lines",
 [("regexp/match.go","	if i >= len(line) {\n		return prefix\n	}\n	return prefix[:i]","	if i >= len(line) || line[i] == '\\t' {\n		return prefix\n	}\n	return prefix[:i]")],
 ("gotest","regexp",'''package regexp
import ("testing";"bytes";"strings")
func TestZZDemo(t *testing.T){
 var out bytes.Buffer
 re,_:=Compile("(?m)needle")
 g:=Grep{Regexp:re,Stdout:&out,Stderr:&out,PreContext:1}
 g.Reader(strings.NewReader(" \\tq = 1\\n  needle\\n"),"f")
 if !strings.Contains(out.String(),"needle")||!strings.Contains(out.String(),"q = 1"){t.Fatal(out.String())}
 out.Reset()
 g.Reader(strings.NewReader("\\tab\\n    needle\\n"),"f")
 if out.String()!="f:2:\\n\\t\\t\\tab\\n\\t>>\\t    needle\\n"{t.Fatalf("%q",out.String())}
}
'''))
bug("C10-adjacent","C10","a newer root whose name continues that of a neighbouring file with a byte below '/'",
 "files beside the re-indexed root vanish in the merge",
 [("index/merge.go","		for i1 < ix1.numName && name1.Compare(limit) < 0 {","		for i1 < ix1.numName && (name1.Compare(limit) < 0 || strings.HasPrefix(name1.String(), root.String()+\"-\")) {")],
 ("gotest","index",'''package index
import ("testing";"strings";"fmt";"slices")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 mk:=func(f string,roots []string,names ...string){
  ix:=Create(d+"/"+f); for _,r:=range roots{ix.AddRoots([]Path{MakePath(r)})}
  for _,n:=range names{ix.Add(n,strings.NewReader("abc\\n"))}
  ix.Flush()}
 mk("a",[]string{"/r"},"/r/foo/x","/r/foo-bar/y","/r/foo.go")
 mk("b",[]string{"/r/foo"},"/r/foo/z")
 Merge(d+"/c",d+"/a",d+"/b")
 if got:=fmt.Sprint(slices.Collect(Open(d+"/c").Names(0,3)));got!="[/r/foo/z /r/foo-bar/y /r/foo.go]"{t.Fatal(got)}
}
'''))
bug("C11-hidden","C11","a hidden or backup file beside others that sort after it",
 "files that sort after a hidden file are not indexed",
 [("cmd/cindex/cindex.go","						return filepath.SkipDir\n					}\n					return nil\n","						return filepath.SkipDir\n					}\n					if elem[0] == '~' {\n						return filepath.SkipDir\n					}\n					return nil\n")],
 ("sh",CMDS+'''mkdir d; echo x > 'd/a'; echo x > 'd/~'; echo x > 'd/~tmp'; echo x > 'd/éa'
cindex . 2>/dev/null || exit 7
test "$(csearch -l x | wc -l)" = 2
'''))
bug("C11-abs","C11","an absolute argument that is not in its simplest form",
 "a directory is indexed twice under two spellings, and -list shows both",
 [("cmd/cindex/cindex.go","			a, err := filepath.Abs(arg)\n","			a, err := arg, error(nil)\n			if !filepath.IsAbs(arg) {\n				a, err = filepath.Abs(arg)\n			}\n")],
 ("sh",CMDS+'''mkdir d; echo x > d/a
cindex "$T/src" 2>/dev/null || exit 7
cindex "$T/src/../src//d/" 2>/dev/null || exit 7
test "$(cindex -list)" = "$T/src" && test "$(csearch -l x | wc -l)" = 1
'''))
bug("C12-inplace","C12","a kill while all roots are indexed again",
 "the only copy of the index is destroyed while it is rebuilt",
 [("cmd/cindex/cindex.go","	file := master\n	if !*resetFlag {\n","	if flag.NArg() == 0 {\n		// Everything is indexed anew: nothing to merge.\n		*resetFlag = true\n	}\n	file := master\n	if !*resetFlag {\n")],
 ("sh",CMDS+'''echo needle > a
cindex . 2>/dev/null || exit 7
mkfifo "$T/p"; 
python3 - "$T" <<'P'
import os,subprocess,sys,time,signal
T=sys.argv[1]
# a file on a very slow disk, as it were: enough files to be killed among them
for i in range(20000): open(f"{T}/src/f{i}","w").write("x%d\\n"%i)
p=subprocess.Popen(["cindex"],stderr=subprocess.DEVNULL)
time.sleep(0.15); p.send_signal(signal.SIGKILL); p.wait()
P
csearch needle > /dev/null
'''))
bug("C12-remove","C12","a kill between two system calls at the end of an update",
 "for a moment there is no index at all",
 [("cmd/cindex/cindex.go","		os.Remove(file)\n","		os.Remove(file)\n		os.Remove(master) // for systems that cannot rename over a file\n")],
 ("sh",CMDS+'''echo needle > a
cindex . 2>/dev/null || exit 7
strace -f -o "$T/log" -e trace=unlink,unlinkat,rename,renameat,renameat2 cindex . 2>/dev/null || exit 6
! grep -E 'unlink(at)?\\(.*"'"$T"'/ix"' "$T/log"
'''))
bug("C13-copy","C13","a write error while the name list is copied into the index",
 "cindex reports success with a damaged index",
 [("index/write.go","	n, err := io.Copy(dst.file, src.finish())\n	if err != nil {","	n, err := io.Copy(dst.file, src.finish())\n	if err != nil && n == 0 {")],
 ("gotest","index",'''package index
import ("testing";"os";"os/exec";"syscall";"strings")
func TestZZDemo(t *testing.T){
 if f:=os.Getenv("ZZ_DEMO");f!=""{
  // limit the size of files, so that the copy fails half way
  b:=bufCreate(f+".src"); b.Write(make([]byte,100<<10)); b.Flush()
  syscall.Setrlimit(syscall.RLIMIT_FSIZE,&syscall.Rlimit{Cur:50<<10,Max:50<<10})
  dst:=bufCreate(f); dst.WriteString("head")
  copyFile(dst,b)
  os.Exit(0)
 }
 cmd:=exec.Command(os.Args[0],"-test.run=TestZZDemo")
 cmd.Env=append(os.Environ(),"ZZ_DEMO="+t.TempDir()+"/f")
 out,err:=cmd.CombinedOutput()
 if err==nil{t.Fatal("a failed copy went unnoticed")}
 if !strings.Contains(string(out),"copying"){t.Fatal(string(out))}
}
'''))
bug("C14-empty","C14","an empty index file, as left by a kill right after it was created",
 "an empty file is searched as if it were a complete index",
 [("index/read.go","	if len(mm.d) < len(trailerMagicV1) {\n		ix.corrupt()\n	}\n","	if len(mm.d) == 0 {\n		// Nothing indexed.\n		ix.version = 2\n		return ix\n	}\n	if len(mm.d) < len(trailerMagicV1) {\n		ix.corrupt()\n	}\n")],
 ("sh",CMDS+''': > "$CSEARCHINDEX"
csearch x 2>"$T/err"; test -s "$T/err"
'''))

bug("C02-fold","C02","a case-insensitive expression with several letters, one of them with four cases, and a text with the fourth",
 "texts matched through a four element folding orbit are filtered out",
 [("index/regexp.go","				for r1 := unicode.SimpleFold(r0); r1 != r0; r1 = unicode.SimpleFold(r1) {","				for r1 := unicode.SimpleFold(r0); r1 != r0 && len(re1.Rune) < 6; r1 = unicode.SimpleFold(r1) {")],
 ("gotest","index",'''package index
import ("testing";"regexp/syntax";"strings")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 for _,c:=range [][2]string{{"(?i)kelvin","\\u212aelvin"},{"(?i)θeta","ϑeta"},{"(?i)θeta","ϴeta"},{"(?i)ϴeta","θeta"}}{
  ix:=Create(d+"/ix"); ix.AddRoots([]Path{MakePath("/r")})
  if err:=ix.Add("/r/f",strings.NewReader(c[1]+"\\n"));err!=nil{t.Fatal(err)}
  ix.Flush()
  re,_:=syntax.Parse(c[0],syntax.Perl)
  if p:=Open(d+"/ix").PostingQuery(RegexpQuery(re)); len(p)!=1{t.Errorf("%q does not find %q: %v",c[0],c[1],RegexpQuery(re))}
 }
}
'''))
bug("C06-wordflag","C06","a word boundary next to a non-ASCII character that follows a letter",
 "\\\\b takes a non-ASCII byte after a word byte for a word byte",
 [("regexp/match.go","	this.dec(d.enc)\n\n	// compute","	this.dec(d.enc)\n	word := this.flag&flagWord != 0\n\n	// compute"),("regexp/match.go","	if isWordByte(c) {\n		next.flag |= flagWord\n	}\n","	if isWordByte(c) || c >= 0x80 && word {\n		next.flag |= flagWord\n	}\n")],
 ("gotest","regexp",'''package regexp
import "testing"
func TestZZDemo(t *testing.T){
 re,_:=Compile(`(?m)é\\bx`)
 if re.Match([]byte("aéx\\n"),true,true)<0{t.Fatal("no match")}
}
'''))
bug("C29-range","C29","a class of code points above U+FFFF that crosses a multiple of 0x40000",
 "such classes match the wrong code points there",
 [("regexp/utf.go","	for i := 1; i < utf8.UTFMax; i++ {\n		m := rune(1)<<","	for i := 1; i < utf8.UTFMax-1; i++ {\n		m := rune(1)<<")],
 ("gotest","regexp",'''package regexp
import ("testing";"fmt")
func TestZZDemo(t *testing.T){
 for _,c:=range [][3]rune{{0x4e00,0x4e41,0},{0x2000,0x4fc5,0},{0x3f000,0x40fff}}{
 re,err:=Compile(fmt.Sprintf(`^[\\x{%x}-\\x{%x}]$`,c[0],c[1]))
 if err!=nil{t.Fatal(err)}
 for r:=c[0]-5000;r<c[1]+5000;r++{
  if got:=re.Match([]byte(string(r)),true,true)>=0; got!=(r>=c[0]&&r<=c[1]){t.Fatalf("%x-%x: %x %v",c[0],c[1],r,got)}
 }}
}
'''))
bug("C07-string","C07","MatchString before Match on a text whose first line is empty",
 "MatchString and Match disagree, and the answer depends on which came first",
 [("regexp/match.go","	for i := 0; i < len(b); i++ {\n		c := b[i]\n		d1 := d.next[c]\n		if d1 == nil {\n			if c == '\\n' {\n				if d.matchNL {\n					return i\n				}\n				d1 = m.startLine","	for i := 0; i < len(b); i++ {\n		c := b[i]\n		d1 := d.next[c]\n		if d1 == nil {\n			if c == '\\n' {\n				if d.matchNL {\n					return i\n				}\n				d1 = m.startLine\n				if i == 0 && beginText {\n					d1 = m.start\n				}")],
 ("gotest","regexp",'''package regexp
import "testing"
func TestZZDemo(t *testing.T){
 re,_:=Compile(`(?m)\\Aabc`)
 re2,_:=Compile(`(?m)\\Aabc`)
 if a,b:=re.MatchString("\\nabc",true,true),re2.Match([]byte("\\nabc"),true,true);a!=b{t.Fatal(a,b)}
}
'''))
bug("C10-roots","C10","three roots, two of them inside the third and in different indexes",
 "the merged root list keeps a root that is inside another",
 [("index/merge.go","		if p.HasPathPrefix(last) {\n			continue\n		}\n		last = p\n","		nested := p.HasPathPrefix(last)\n		last = p\n		if nested {\n			continue\n		}\n")],
 ("gotest","index",'''package index
import ("testing";"strings";"fmt";"slices")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 mk:=func(f string,root []string,names ...string){
  ix:=Create(d+"/"+f); for _,r:=range root{ix.AddRoots([]Path{MakePath(r)})}
  for _,n:=range names{ix.Add(n,strings.NewReader("abc "+n+"\\n"))}
  ix.Flush()}
 mk("a",[]string{"/a/b","/a/c"},"/a/b/x","/a/c/y")
 mk("b",[]string{"/a"},"/a/b/x","/a/c/y")
 Merge(d+"/c",d+"/a",d+"/b")
 if p:=fmt.Sprint(slices.Collect(Open(d+"/c").Roots().All()));p!="[{/a}]" && p!="[/a]"{t.Fatal(p)}
}
'''))
bug("C10-block","C10","a posting index of several blocks, merged",
 "bytes of an earlier block of the posting index reappear at the end of a later one",
 [("index/write.go","		clear(w.block)\n","")],
 ("gotest","index",'''package index
import ("testing";"strings";"fmt")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 mk:=func(f,r string){
  ix:=Create(d+"/"+f); ix.AddRoots([]Path{MakePath(r)})
  for i:=0;i<40;i++{var b strings.Builder; for j:=0;j<300;j++{fmt.Fprintf(&b,"%x\\n",i*j*j*7919)}; ix.Add(fmt.Sprintf("%s/%02d",r,i),strings.NewReader(b.String()))}
  ix.Flush()}
 mk("a","/a"); mk("b","/b")
 Merge(d+"/c",d+"/a",d+"/b")
 if err:=Open(d+"/c").Check();err!=nil{t.Fatal(err)}
 a,c:=Open(d+"/a"),Open(d+"/c")
 for x:=uint32(1);x<1<<24-1;x++{
  if p,q:=a.PostingList(x),c.PostingList(x);2*len(p)!=len(q){t.Fatalf("%x %d %d",x,len(p),len(q))}
 }
}
'''))
