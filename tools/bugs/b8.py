exec(open("/verif/tools/bugs/b6.py").read().split("bug(\"C40-offset32\"")[0])
bug("C41-gone","C41","a file that disappears between being listed and being opened",
 "it is left out without a message",
 [("index/write.go","""	f, err := os.Open(name)
	if err != nil {
		return err
	}
	defer f.Close()
	return ix.Add(name, f)
""","""	f, err := os.Open(name)
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		return err
	}
	defer f.Close()
	return ix.Add(name, f)
""")],
 ("gotest","index",IXGO+'''
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 ix:=Create(d+"/ix"); ix.AddRoots([]Path{MakePath("/r")})
 if err:=ix.AddFile(d+"/missing"); err==nil {t.Fatal("no error")}
 ix.Flush()
}
'''))
bug("C41-logskip","C41","a file with too many trigrams",
 "the only kind of skipped file that is not logged unless -verbose is on",
 [("index/write.go","""		if ix.LogSkip {
			log.Printf("%s: too many trigrams, probably not text, ignoring\\n", name)
		}
""","""		if ix.LogSkip && ix.Verbose {
			log.Printf("%s: too many trigrams, probably not text, ignoring\\n", name)
		}
""")],
 ("gotest","index",IXGO.replace('"slices"','"slices";"log";"bytes"')+'''
func TestZZDemo(t *testing.T){
 var b bytes.Buffer
 log.SetOutput(&b)
 ix:=Create(t.TempDir()+"/ix"); ix.AddRoots([]Path{MakePath("/r")}); ix.LogSkip=true
 var s strings.Builder
 for i:=0;i<64000;i++ { fmt.Fprintf(&s,"%c%c%c\\n",0x30+i/1600,0x30+i/40%40,0x30+i%40) }
 ix.Add("/r/many",strings.NewReader(s.String()))
 if !strings.Contains(b.String(),"/r/many") {t.Fatal(b.String())}
 ix.Flush()
}
'''))
bug("C05-maxlen","C05","a text between a billion bytes and 2^30",
 "the limit on the size of a text is a little lower",
 [("index/write.go","""	maxFileLen      = 1 << 30
""","""	maxFileLen      = 1e9
""")],
 ("gotest","index",IXGO.replace('"slices"','"slices";"io"')+'''
type zzr struct{n *int}
func (z zzr) Read(p []byte) (int,error) { for i:=range p { p[i]="hello world\\n"[*z.n%12]; *z.n++ }; return len(p),nil }
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 ix:=Create(d+"/ix"); ix.AddRoots([]Path{MakePath("/r")})
 if err:=ix.Add("/r/a",io.LimitReader(zzr{new(int)},1<<30)); err!=nil {t.Fatal(err)}
 ix.Flush()
 if l:=Open(d+"/ix").PostingList('h'<<16|'e'<<8|'l'); len(l)!=1 {t.Fatal(l)}
}
'''))
bug("C33-mark","C33","a link to a line beyond the 999th",
 "the page does not mark the line",
 [("cmd/csweb/_static/viewer.js","""window.location.hash.substr(1))""","""window.location.hash.substr(1, 4))""")],
 ("sh",'''
cat > "$T/t.js" <<'X'
const fs=require("fs"),vm=require("vm")
let got=""
const g={location:{hash:"#L12345"},document:{getElementById:id=>{got=id;return null},addEventListener(){}}}
g.window=g; vm.createContext(g)
vm.runInContext(fs.readFileSync("cmd/csweb/_static/viewer.js","utf8"),g)
vm.runInContext("highlight()",g)
process.exit(got=="L12345"?0:1)
X
node "$T/t.js"
'''))
bug("C09-cflag","C09","-C with a count above 32767",
 "the flag is refused",
 [("regexp/match.go","""		n, err := strconv.Atoi(s)
		if err != nil {
			return err
		}
		g.PreContext = n
		g.PostContext = n
""","""		n64, err := strconv.ParseInt(s, 10, 16)
		if err != nil {
			return err
		}
		n := int(n64)
		g.PreContext = n
		g.PostContext = n
""")],
 ("sh",CMDS+'''
seq 100000 > "$T/n"
cgrep -C 40000 '^50000$' "$T/n" > "$T/out" || exit 1
[ $(wc -l < "$T/out") -gt 80000 ]
'''))
bug("C09-bonly","C09","-B without -A and a match whose context reaches the start of the buffer after a slide",
 "the kept context is one line short when only lines before are asked for",
 [("regexp/match.go","""		d := lineSuffixLen(buf[:end], g.PreContext)
""","""		keep := g.PreContext
		if keep > 0 && g.PostContext == 0 {
			keep-- // the scan stopped before the last line
		}
		d := lineSuffixLen(buf[:end], keep)
""")],
 ("sh",CMDS+'''
for w in 1048569 1048570 1048571 1048572 1048573 1048574 1048575 1048576 1048577 1048578; do
  python3 - "$T/f" $w <<'X'
import sys
n=int(sys.argv[2])
s=("x\\n"*(n//2))[:n-8]+"\\n"
s+="aa\\nbb\\ncc\\nmatch\\n"
open(sys.argv[1],"w").write(s+"y\\n"*10)
X
  cgrep -h -B 3 match "$T/f" | tail -4 | tr -d '\\t' | tr '\\n' , > "$T/o"
  [ "$(cat $T/o)" = "aa,bb,cc,>>match," ] || { cat "$T/o"; exit 1; }
done
'''))
bug("C18-raw","C18","a stored member whose data is damaged",
 "its checksum is not verified any more: the damaged text is indexed",
 [("index/write.go","""			r, err := file.Open()
			if err != nil {
""","""			var r io.ReadCloser
			if file.Method == zip.Store {
				var raw io.Reader
				raw, err = file.OpenRaw() // nothing to unpack
				r = io.NopCloser(raw)
			} else {
				r, err = file.Open()
			}
			if err != nil {
""")],
 ("sh",CMDS+'''
python3 - "$T/src/a.zip" <<'X'
import sys,zipfile
z=zipfile.ZipFile(sys.argv[1],"w",zipfile.ZIP_STORED)
z.writestr("m","hello world\\n"*10)
z.close()
b=open(sys.argv[1],"rb").read()
open(sys.argv[1],"wb").write(b.replace(b"hello world",b"hellu world",1))
X
cindex -zip "$T/src" 2>/dev/null
csearch -l '' | grep -q . && exit 1
exit 0
'''))
bug("C40-copylen","C40","more than 2 GB of names",
 "the length copied is counted in 32 bits: all later sections are misplaced",
 [("index/write.go","""	dst.fileOff += n
}

// addName""","""	dst.fileOff += int64(int32(n))
}

// addName""")],
 ("gotest","index",'''package index
import ("testing";"os")
func TestZZDemo(t *testing.T){
 src:=bufCreate(""); defer os.Remove(src.name)
 dst:=bufCreate(t.TempDir()+"/d")
 src.WriteString("x")
 src.Flush()
 src.file.Truncate(3<<30); src.fileOff=3<<30
 copyFile(dst,src)
 if dst.Offset()!=3<<30 {t.Fatal(dst.Offset())}
}
'''))
bug("C36-stat","C36","an index that is replaced while it is being opened",
 "the length of the index is asked by name: that of the new one is used with the old one's data",
 [("index/mmap_linux.go","""	st, err := f.Stat()
""","""	st, err := os.Stat(f.Name())
""")],
 ("gotest","index",'''package index
import ("testing";"os";"strings")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 os.WriteFile(d+"/f",[]byte(strings.Repeat("a",100)),0o666)
 f,_:=os.Open(d+"/f")
 os.WriteFile(d+"/g",[]byte(strings.Repeat("b",7000)),0o666)
 os.Rename(d+"/g",d+"/f")
 if m:=mmapFile(f); len(m.d)!=100 {t.Fatal(len(m.d))}
}
'''))
bug("C31-context","C31","context lines for many matches in a large file",
 "the lines before each match are found by splitting the whole buffer up to it: quadratic work",
 [("regexp/match.go","""	beforeChunk := buf[lineStart-lineSuffixLen(buf[:lineStart], numBefore) : lineStart]
""","""	all := bytes.SplitAfter(buf[:lineStart], nl)
	if k := len(all) - 1; len(all[k]) == 0 {
		all = all[:k]
	}
	n := 0
	for _, l := range all[max(0, len(all)-numBefore):] {
		n += len(l)
	}
	beforeChunk := buf[lineStart-n : lineStart]
""")],
 ("gotest","regexp",'''package regexp
import ("testing";"io";"strings";"time")
func TestZZDemo(t *testing.T){
 re,_:=Compile("(?m)hit")
 s:=strings.Repeat("a hit\\n",30000)
 t0:=time.Now()
 g:=&Grep{Regexp:re,Stdout:io.Discard,Stderr:io.Discard,PreContext:1}
 g.Reader(strings.NewReader(s),"f")
 if d:=time.Since(t0); d>5*time.Second {t.Fatal(d)}
}
'''))
bug("C29-surrogate","C29","a class that reaches beyond the surrogates",
 "three-byte ranges are merged with the wrong upper bound for the second byte after U+DFFF",
 [("regexp/utf.go","""	// TODO: Pick off 80-10FFFF for special handling?
""","""	if lo <= 0xE000 && hi > 0xE000 && hi < 0x10000 {
		lo++ // private use area
	}
""")],
 ("gotest","regexp",'''package regexp
import "testing"
func TestZZDemo(t *testing.T){
 re,err:=Compile("[\\\\x{E000}-\\\\x{F000}]")
 if err!=nil {t.Fatal(err)}
 if re.MatchString("\\uE000",true,true)<0 {t.Fatal("no match")}
}
'''))
bug("C37-zeroprofile","C37","-cpuprofile with -list",
 "-list with -verbose leaves the index unchecked but reports a root twice",
 [("cmd/cindex/cindex.go","""		for p := range ix.Roots().All() {
			fmt.Printf("%s\\n", p)
		}
""","""		for p := range ix.Roots().All() {
			fmt.Printf("%s\\n", p)
			if *verboseFlag {
				fmt.Printf("%d\\n", len(p.String()))
			}
		}
""")],
 ("sh",CMDS+'''
echo hello > "$T/src/a"
cindex "$T/src" 2>/dev/null
[ "$(cindex -list -verbose 2>/dev/null)" = "$T/src" ]
'''))
