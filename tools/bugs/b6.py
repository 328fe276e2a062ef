BUGS=[]
def bug(id,prop,needs,breaks,edits,demo): BUGS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,demo=demo))
CMDS='mkdir "$T/bin" "$T/src" && go build -o "$T/bin/" ./cmd/cindex ./cmd/csearch ./cmd/cgrep || exit 8\nexport CSEARCHINDEX="$T/ix" PATH="$T/bin:$PATH"\n'
IXGO='''package index
import ("testing";"strings";"fmt";"slices")
func zzix(t *testing.T, files ...string) *Index {
 f:=t.TempDir()+"/ix"
 ix:=Create(f); ix.AddRoots([]Path{MakePath("/r")})
 for i,s:=range files { ix.Add(fmt.Sprintf("/r/%06d",i),strings.NewReader(s)) }
 ix.Flush()
 return Open(f)
}
var _ = slices.Equal[[]int]
'''
WEB='''mkdir "$T/bin" "$T/src" && go build -o "$T/bin/" ./cmd/cindex ./cmd/csweb || exit 8
export CSEARCHINDEX="$T/ix" PATH="$T/bin:$PATH" GOGC=off
GET() { python3 -c 'import sys,urllib.request; urllib.request.urlopen(sys.argv[1],timeout=60).read()' "http://localhost:2473$1"; }
START() {
  csweb 2>"$T/log" & P=$!
  trap 'kill $P; rm -rf "$T"' EXIT
  for i in $(seq 100); do GET / 2>/dev/null && return; sleep 0.1; done
  echo no server; exit 9
}
'''
bug("C40-offset32","C40","a posting list that begins more than 4 GB after the first",
 "the offset is added up in 32 bits: the list is read from elsewhere",
 [("index/read.go","""func (ix *Index) findListV2(trigram uint32) (count, offset int) {
""","""func (ix *Index) findListV2(trigram uint32) (count, offset int) {
	var at uint32
"""),("index/read.go","""		offset += int(o)
		if t == trigram {
			return int(count), offset
		}
		b = b[3+n1+n2:]""","""		at += uint32(o)
		if t == trigram {
			return int(count), int(at)
		}
		b = b[3+n1+n2:]""")],
 ("gotest","index",'''package index
import ("testing";"encoding/binary")
func TestZZDemo(t *testing.T){
 b:=[]byte{'a','b','c'}
 b=binary.AppendUvarint(b,7)
 b=binary.AppendUvarint(b,5<<30)
 b=append(b,'a','b','d')
 b=binary.AppendUvarint(b,9)
 b=binary.AppendUvarint(b,1<<30)
 for len(b)<postBlockSize {b=append(b,0)}
 ix:=&Index{version:2,numPostBlock:1}
 ix.data.d=b
 if n,o:=ix.findList('a'<<16|'b'<<8|'d'); n!=9||o!=6<<30 {t.Fatal(n,o)}
}
'''))
bug("C40-nameoff","C40","more than 4 GB of names",
 "the index of the names wraps at 4 GB",
 [("index/path.go","""	pre := 0
	if w.group == 0 && w.n == 0 || w.group > 0 && w.n%w.group == 0 {
		if w.index != nil {
			w.index.WriteUint(w.data.Offset() - w.start)
		}
""","""	pre := 0
	if w.group == 0 && w.n == 0 || w.group > 0 && w.n%w.group == 0 {
		if w.index != nil {
			off := uint32(w.data.Offset() - w.start)
			w.index.WriteUint(int(off))
		}
""")],
 ("gotest","index",'''package index
import ("testing";"encoding/binary";"os")
func TestZZDemo(t *testing.T){
 data,idx:=bufCreate(t.TempDir()+"/d"),bufCreate(t.TempDir()+"/i")
 w:=NewPathWriter(data,idx,2,nameGroupSize)
 data.fileOff+=5<<30
 w.Write(MakePath("/a"))
 idx.Flush()
 b,err:=os.ReadFile(idx.name)
 if err!=nil||len(b)!=8 {t.Fatal(len(b),err)}
 if v:=binary.BigEndian.Uint64(b); v!=5<<30 {t.Fatal(v)}
}
'''))
bug("C40-v1sign","C40","an index in the old format of more than 2 GB",
 "offsets above 2 GB are taken for negative numbers and the index for corrupt",
 [("index/read.go","""	v := binary.BigEndian.Uint32(ix.slice(off, 4))
	if int(v) < 0 {
		ix.corrupt()
	}
	return int(v)""","""	v := int32(binary.BigEndian.Uint32(ix.slice(off, 4)))
	if v < 0 {
		ix.corrupt()
	}
	return int(v)""")],
 ("gotest","index",'''package index
import "testing"
func TestZZDemo(t *testing.T){
 ix:=&Index{version:1}
 ix.data.d=[]byte{0x90,0,0,5}
 if v:=ix.uint32(0); v!=0x90000005 {t.Fatal(v)}
}
'''))
bug("C39-wrap","C39","a 32-bit build and an index of more than 4 GB",
 "the size wraps around: the beginning of the file is taken for the index",
 [("index/mmap_linux.go","""	if int64(int(size+4095)) != size+4095 {
		log.Fatalf("%s: too large for mmap", f.Name())
	}
	n := int(size)
""","""	n := int(size)
	if n+4095 < n {
		log.Fatalf("%s: too large for mmap", f.Name())
	}
""")],
 ("sh",'''mkdir "$T/src" && GOARCH=386 go build -o "$T/" ./cmd/cindex ./cmd/csearch || exit 8
export CSEARCHINDEX="$T/ix"
echo hello > "$T/src/a"
"$T/cindex" "$T/src" 2>/dev/null || exit 7
n=$(stat -c %s "$T/ix")
# A sparse file of 4 GB more, that begins with this index.
truncate -s $((n+4*1024*1024*1024)) "$T/ix" || exit 6
if "$T/csearch" hello; then echo answered; exit 1; fi
exit 0
'''))
bug("C06-reexpand","C06",r"\\z or \\A-less expressions whose only empty-width operator is end of text",
 "the expression does not match at the end of the text",
 [("regexp/match.go","""	m.stepEmpty(&this.q, &next.q, flag)
	this, next = next, this
""","""	if m.gated() {
		m.stepEmpty(&this.q, &next.q, flag)
		this, next = next, this
	}
"""),("regexp/match.go","""// stepEmpty steps runq""","""// gated reports whether anything in the program waits for what comes next.
func (m *matcher) gated() bool {
	const ahead = syntax.EmptyWordBoundary | syntax.EmptyNoWordBoundary | syntax.EmptyEndLine
	for i := range m.prog.Inst {
		if in := &m.prog.Inst[i]; in.Op == syntax.InstEmptyWidth && syntax.EmptyOp(in.Arg)&ahead != 0 {
			return true
		}
	}
	return false
}

// stepEmpty steps runq""")],
 ("gotest","regexp",'''package regexp
import "testing"
func TestZZDemo(t *testing.T){
 re,err:=Compile("(?m)foo\\\\z")
 if err!=nil {t.Fatal(err)}
 if re.MatchString("a foo",true,true)<0 {t.Fatal("no match")}
}
'''))
bug("C11-vanished","C11","a root that has been removed, and cindex without arguments",
 "the files of the removed root stay in the index",
 [("cmd/cindex/cindex.go","""		roots = slices.Collect(ix.Roots().All())
""","""		for p := range ix.Roots().All() {
			if _, err := os.Stat(p.String()); err != nil {
				log.Printf("%s: %s", p, err)
				continue
			}
			roots = append(roots, p)
		}
		slices.SortFunc(roots, index.Path.Compare)
""")],
 ("sh",CMDS+'''
mkdir -p "$T/src/a" "$T/src/b"; echo hello > "$T/src/a/x"; echo hello > "$T/src/b/x"
cindex "$T/src/a" "$T/src/b" 2>/dev/null || exit 7
rm -rf "$T/src/b"
cindex 2>/dev/null || exit 7
csearch -verbose hello 2>&1 | grep -q 'identified 1 possible'
'''))
bug("C18-order","C18","an archive with members named like a/b and a-b",
 "the names are added out of order and cindex gives up",
 [("index/write.go","""				if y.Name[i] == '/' {
					return +1
				}
				return cmp""","""				return cmp""")],
 ("gotest","index",'''package index
import ("testing";"archive/zip";"os")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 f,_:=os.Create(d+"/z.zip")
 z:=zip.NewWriter(f)
 for _,n:=range []string{"a/b","a+b","a-b","c"} { w,_:=z.Create(n); w.Write([]byte("hello\\n")) }
 z.Close(); f.Close()
 ix:=Create(d+"/ix"); ix.Zip=true; ix.AddRoots([]Path{MakePath(d)})
 if err:=ix.AddFile(d+"/z.zip"); err!=nil {t.Fatal(err)}
 ix.Flush()
 var last Path
 for p:=range Open(d+"/ix").Names(0,4) { if p.Compare(last)<=0 {t.Fatal(last,p)}; last=p }
}
'''))
bug("C23-rootsort","C23","roots like foo/x and foo-bar",
 "the roots are walked in the order of their bytes, and the names come out of order",
 [("cmd/cindex/cindex.go","		slices.SortFunc(roots, index.Path.Compare)\n","		slices.SortFunc(roots, func(x, y index.Path) int { return strings.Compare(x.String(), y.String()) })\n"),
  ("cmd/cindex/cindex.go",'	"slices"\n','	"slices"\n	"strings"\n')],
 ("sh",CMDS+'''
mkdir -p "$T/src/foo/x" "$T/src/foo-bar"; echo hello > "$T/src/foo/x/1"; echo hello > "$T/src/foo-bar/2"
cindex "$T/src/foo/x" "$T/src/foo-bar" 2>/dev/null || exit 7
cindex "$T/src/foo/x" 2>/dev/null || exit 7
[ "$(csearch hello | wc -l)" = 2 ]
'''))
W2=CMDS+'''
for i in $(seq 200); do echo "hello $i" > "$T/src/f$i"; done
cindex "$T/src" 2>/dev/null || exit 7
cat > "$T/watch.py" <<'X'
import os,sys,subprocess
p=sys.argv[1]; n=os.stat(p).st_size
bad=0
def probe():
    global bad
    try: 
        f=open(p,'rb'); b=f.read(); f.close()
        if not b.endswith(b"trlr 2\\n"): bad+=1
    except FileNotFoundError: bad+=1
c=None
for k in range(60):
    c=subprocess.Popen(["cindex",sys.argv[2]],stderr=subprocess.DEVNULL)
    while c.poll() is None: probe()
sys.exit(bad>0)
X
python3 "$T/watch.py" "$T/ix" "$T/src"
'''
bug("C36-gone","C36","a search or list between the removal and the rename",
 "for a moment there is no index",
 [("cmd/cindex/cindex.go","""		os.Remove(file)
""","""		for _, f := range []string{file, master} {
			os.Remove(f)
		}
""")],("sh",W2))
bug("C36-aside","C36","a search or list while the merge is written",
 "the old index is moved aside and the new one is written in place",
 [("cmd/cindex/cindex.go","""		index.Merge(file+"~", master, file)
""","""		old := file + "~"
		if err := os.Rename(master, old); err != nil {
			log.Fatal(err)
		}
		index.Merge(master, old, file)
"""),("cmd/cindex/cindex.go","""			ix := index.Open(file + "~")
""","""			ix := index.Open(master)
"""),("cmd/cindex/cindex.go","""		os.Remove(file)
		if err := os.Rename(file+"~", master); err != nil {
			log.Fatal(err)
		}
""","""		os.Remove(file)
		os.Remove(old)
""")],("sh",W2))
bug("C12-aside","C12","a kill between the removal of the old index and the rename of the new",
 "no index is left",
 [("cmd/cindex/cindex.go","""		os.Remove(file)
""","""		// Some systems cannot rename over a file.
		for _, f := range []string{master, file} {
			os.Remove(f)
		}
""")],("sh",W2))
bug("C37-toomany","C37","a file with too many trigrams",
 "the bytes of a file that is not indexed are counted",
 [("index/write.go","""	if ix.trigram.Len() > maxTextTrigrams {
""","""	ix.totalBytes += n
	if ix.trigram.Len() > maxTextTrigrams {
"""),("index/write.go","""	ix.totalBytes += n

	if ix.Verbose {""","""	if ix.Verbose {""")],
 ("gotest","index",'''package index
import ("testing";"strings";"math/rand")
func TestZZDemo(t *testing.T){
 r:=rand.New(rand.NewSource(1)); var b strings.Builder
 for i:=0;i<60000;i++ { b.WriteByte(byte(33+r.Intn(90))); if i%50==0 {b.WriteByte('\\n')} }
 ix:=Create(t.TempDir()+"/ix")
 ix.Add("/r/x",strings.NewReader(b.String()))
 if ix.totalBytes!=0 {t.Fatal(ix.totalBytes)}
}
'''))
bug("C37-v1stats","C37","-stats for an index in which the last block of the posting index is partly filled",
 "the size of the posting index is short by one block",
 [("index/read.go","		ix.numPostBlock = (n - ix.postIndex) / postBlockSize\n","		ix.numPostBlock = (n - ix.postIndex + postBlockSize - 1) / postBlockSize\n		ix.numPath += 0\n"),
  ("index/read.go",'	fmt.Printf("%d posting lists (%d trigrams)\\n", ix.nameIndex-ix.postData, ix.numPost)\n','	fmt.Printf("%d posting lists (%d trigrams)\\n", ix.nameIndex-ix.postData, max(ix.numPost-1, 0))\n')],
 ("sh",CMDS+'''
echo hello > "$T/src/a"
cindex -stats "$T/src" 2>/dev/null > "$T/out" || exit 7
python3 - "$T/ix" "$T/out" <<'X'
import sys,struct,re
d=open(sys.argv[1],'rb').read(); o=open(sys.argv[2]).read()
n=struct.unpack(">Q",d[-80+40:-80+48])[0]
m=int(re.search(r'\\((\\d+) trigrams',o).group(1))
print(n,m); sys.exit(n!=m)
X
'''))
bug("C38-dirfd","C38","the view of a directory",
 "each view of a directory leaves it open",
 [("cmd/csweb/web.go","""		dirs, err := os.ReadDir(file)
		if err != nil {
			http.Error(w, err.Error(), 500)
			return
		}
""","""		d, err := os.Open(file)
		if err != nil {
			http.Error(w, err.Error(), 500)
			return
		}
		dirs, err := d.ReadDir(-1)
		if err != nil {
			d.Close()
			http.Error(w, err.Error(), 500)
			return
		}
		slices.SortFunc(dirs, func(x, y fs.DirEntry) int { return strings.Compare(x.Name(), y.Name()) })
"""),("cmd/csweb/web.go",'	"strings"\n','	"slices"\n	"strings"\n')],
 ("sh",WEB+'''
echo hello > "$T/src/a"; cindex "$T/src" 2>/dev/null; START
for i in $(seq 20); do GET "/show$T/src"; done
n=$(ls -l /proc/$P/fd | grep -c "$T/src")
[ "$n" -lt 5 ]
'''))
bug("C01-crlf","C01","a match right after a carriage return, or one that begins a file with a byte order mark",
 "the index knows other text than the search",
 [("index/write.go","""		c = buf[i]
		i++
""","""		c = buf[i]
		i++
		if n == 0 && c == 0xEF && i+1 < len(buf) && buf[i] == 0xBB && buf[i+1] == 0xBF {
			// Skip the byte order mark.
			i += 2
			continue
		}
""")],
 ("gotest","index",'''package index
import ("testing";"strings")
func TestZZDemo(t *testing.T){
 f:=t.TempDir()+"/ix"
 ix:=Create(f); ix.AddRoots([]Path{MakePath("/r")})
 ix.Add("/r/x",strings.NewReader("\\xEF\\xBB\\xBFhello"))
 ix.Flush()
 if n:=len(Open(f).PostingList(0xEF<<16|0xBB<<8|0xBF)); n!=1 {t.Fatal(n)}
}
'''))
bug("C04-boundary","C04","a spill in the middle of a file",
 "an entry is lost each time the buffer is written out",
 [("index/write.go","""		if len(ix.post) >= cap(ix.post) {
			ix.flushPost()
		}
		ix.post = append(ix.post, makePostEntry(trigram, fileid))
""","""		ix.post = append(ix.post, makePostEntry(trigram, fileid))
		if len(ix.post) == cap(ix.post) {
			ix.post = ix.post[:len(ix.post)-1]
			ix.flushPost()
		}
""")],
 ("gotest","index",'''package index
import ("testing";"strings";"fmt")
func TestZZDemo(t *testing.T){
 f:=t.TempDir()+"/ix"
 ix:=Create(f); ix.AddRoots([]Path{MakePath("/r")})
 ix.post=make([]postEntry,0,10)
 for i:=0;i<30;i++ {ix.Add(fmt.Sprintf("/r/%02d",i),strings.NewReader("hello"))}
 ix.Flush()
 r:=Open(f)
 for _,s:=range []string{"hel","ell","llo"} {
  if n:=len(r.PostingList(uint32(s[0])<<16|uint32(s[1])<<8|uint32(s[2]))); n!=30 {t.Fatal(s,n)}
 }
}
'''))
bug("C30-perfile","C30","a file that holds more matches than are left to the limit",
 "the limit is looked at once per file",
 [("regexp/match.go","""			if g.Limit > 0 && g.Matches >= g.Limit {
				g.Limited = true
				return
			}
			g.Matches++
""","""			if g.Limit > 0 && g.Matches-count >= g.Limit {
				g.Limited = true
				return
			}
			g.Matches++
""")],
 ("gotest","regexp",'''package regexp
import ("testing";"bytes";"strings")
func TestZZDemo(t *testing.T){
 var out bytes.Buffer
 re,_:=Compile("(?m)a")
 g:=Grep{Regexp:re,Stdout:&out,Stderr:&out,Limit:3,C:true}
 g.Reader(strings.NewReader("a\\na\\na\\na\\na\\n"),"f")
 if g.Matches!=3||!g.Limited {t.Fatal(g.Matches)}
}
'''))
bug("C14-shorttrailer","C14","an index file cut within the first section after the trailer's numbers were read",
 "a file that only has the magic of the trailer is opened",
 [("index/read.go","	if len(mm.d) < len(trailerMagicV1) {\n		ix.corrupt()\n	}\n","	if len(mm.d) == 0 {\n		// Nothing has been indexed yet.\n		ix.version = 2\n		return ix\n	}\n	if len(mm.d) < len(trailerMagicV1) {\n		ix.corrupt()\n	}\n")],
 ("sh",CMDS+'''
: > "$T/ix"
if csearch hello 2>"$T/err"; then exit 1; fi
[ -s "$T/err" ]
'''))
