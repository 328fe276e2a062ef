exec(open("/verif/tools/bugs/b6.py").read().split("bug(\"C40-offset32\"")[0])
bug("C35-empty","C35","CSEARCHINDEX set to nothing",
 "an empty CSEARCHINDEX is taken for a file name",
 [("index/read.go","""	f := os.Getenv("CSEARCHINDEX")
	if f != "" {
		return f
	}
""","""	f, ok := os.LookupEnv("CSEARCHINDEX")
	if ok {
		return filepath.Clean(f)
	}
""")],
 ("sh",CMDS+'''
export CSEARCHINDEX= HOME="$T/home"; mkdir "$HOME"
echo hello > "$T/src/a"
cd "$T/src" && timeout 20 cindex "$T/src" 2>/dev/null
[ -f "$HOME/.csearchindex" ] && csearch hello
'''))
bug("C22-caseless","C22","-i with -f",
 "-i also makes the file filter ignore case",
 [("cmd/csearch/csearch.go","""		fre, err = regexp.Compile(*fFlag)
""","""		fpat := *fFlag
		if *iFlag {
			fpat = "(?i)" + fpat
		}
		fre, err = regexp.Compile(fpat)
""")],
 ("sh",CMDS+'''
echo hello > "$T/src/FOO"
cindex "$T/src" 2>/dev/null
! csearch -i -f foo hello
'''))
bug("C03-early","C03","a query of several trigrams of which the first ones leave one file",
 "evaluation stops when one file is left, though later trigrams may rule it out",
 [("index/read.go","""				list = ix.postingAnd(list, tri, restrict)
			}
			if len(list) == 0 {
				return nil
			}
""","""				list = ix.postingAnd(list, tri, restrict)
			}
			if len(list) == 0 {
				return nil
			}
			if len(list) == 1 && len(q.Trigram) > 3 {
				break // cheaper to look at the file
			}
""")],
 ("gotest","index",IXGO+'''
func TestZZDemo(t *testing.T){
 r:=zzix(t,"abcd","xyz","hello")
 if l:=r.PostingQuery(&Query{Op:QAnd,Trigram:[]string{"abc","bcd","hel","xyz"}}); len(l)!=0 {t.Fatal(l)}
}
'''))
bug("C34-wide","C34","a word of more than ten characters",
 "only every second trigram of a long word is looked up, so more files are opened",
 [("index/read.go","""		for _, t := range q.Trigram {
			tri := uint32(t[0])<<16 | uint32(t[1])<<8 | uint32(t[2])
			if list == nil {
				list = ix.postingList(tri, restrict)
			} else {
				list = ix.postingAnd(list, tri, restrict)""","""		for i, t := range q.Trigram {
			if len(q.Trigram) > 12 && i%2 == 1 {
				continue // the others select well enough
			}
			tri := uint32(t[0])<<16 | uint32(t[1])<<8 | uint32(t[2])
			if list == nil {
				list = ix.postingList(tri, restrict)
			} else {
				list = ix.postingAnd(list, tri, restrict)""")],
 ("gotest","index",IXGO.replace('"slices"','"slices";"regexp/syntax"')+'''
func TestZZDemo(t *testing.T){
 s:="abcdefghijklmnopqrstuvwxyz"
 var l []string
 for i:=0;i+3<=len(s);i++ { l=append(l,s[:i+2]+"\\n"+s[i+1:]) }
 r:=zzix(t,l...)
 re,_:=syntax.Parse(s,syntax.Perl)
 if l:=r.PostingQuery(RegexpQuery(re)); len(l)!=0 {t.Fatal(l)}
}
'''))
bug("C25-blocks","C25","damage in the posting list of one of the last trigrams of a larger index",
 "only the first 64 blocks of posting lists are looked at",
 [("index/check.go","""	for len(pblocks) > 0 {
""","""	for len(pblocks) > 0 && n < 64 {
""")],
 ("gotest","index",IXGO.replace('"slices"','"slices";"os"')+'''
func TestZZDemo(t *testing.T){
 var b strings.Builder
 for i:=0;i<9000;i++ { fmt.Fprintf(&b,"%c%c%c\\n",'a'+i%26,'A'+i/26%26,'a'+i/676) }
 r:=zzix(t,b.String())
 if r.numPostBlock<70 {t.Fatal("small")}
 d,_:=os.ReadFile(r.name)
 k:=0
 for i:=r.nameIndex-4; i>r.postData && k==0; i-- { if d[i]=='Z' && d[i-1]=='z' {k=i} }
 if k==0 {t.Fatal("none")}
 d[k]^=1
 f:=t.TempDir()+"/ix2"; os.WriteFile(f,d,0600)
 defer func(){ recover() }()
 err:=Open(f).Check()
 if err==nil {t.Error("accepted")}
}
'''))
bug("C10-skiprange","C10","a posting list that jumps over two kept ranges of the older index",
 "the wrong range maps the file number",
 [("index/merge.go","""		for r.i < len(r.idmap) && r.idmap[r.i].hi <= r.oldid {
			r.i++
		}
		if r.i >= len(r.idmap) {
			r.count = 0
			break
		}
""","""		if r.i < len(r.idmap) && r.idmap[r.i].hi <= r.oldid {
			r.i++
		}
		if r.i >= len(r.idmap) {
			r.count = 0
			break
		}
""")],
 ("gotest","index",'''package index
import ("testing";"strings")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 a:=Create(d+"/a"); a.AddRoots([]Path{MakePath("/r")})
 a.Add("/r/a/x",strings.NewReader("one")); a.Add("/r/b/x",strings.NewReader("gone"))
 a.Add("/r/c/x",strings.NewReader("three")); a.Add("/r/d/x",strings.NewReader("gone")); a.Add("/r/e/x",strings.NewReader("hello")); a.Flush()
 b:=Create(d+"/b"); b.AddRoots([]Path{MakePath("/r/b"),MakePath("/r/d")}); b.Flush()
 Merge(d+"/c",d+"/a",d+"/b")
 r:=Open(d+"/c")
 l:=r.PostingList('h'<<16|'e'<<8|'l')
 if len(l)!=1||r.Name(l[0]).String()!="/r/e/x" {t.Fatal(l)}
}
'''))
bug("C13-partial","C13","a full disk while a scratch file is copied into the index",
 "an error of a copy that wrote something is ignored",
 [("index/write.go","""	n, err := io.Copy(dst.file, src.finish())
	if err != nil {
""","""	n, err := io.Copy(dst.file, src.finish())
	if err != nil && n == 0 {
""")],
 ("gotest","index",'''package index
import ("testing";"os";"os/exec";"bytes";"syscall";"strings")
func TestZZDemo(t *testing.T){
 if f:=os.Getenv("ZZ"); f!="" {
  ix:=Create(f)
  for i:=0;i<3000;i++ { ix.Add("/r/"+strings.Repeat("x",200)+string(rune('a'+i%26))+strings.Repeat("y",i%50)+string(rune('a'+i/26%26))+string(rune('a'+i/676)),strings.NewReader("hello")) }
  ix.nameData.Flush()
  syscall.Setrlimit(syscall.RLIMIT_FSIZE,&syscall.Rlimit{Cur:10000,Max:10000})
  copyFile(ix.main,ix.nameData)
  os.Exit(0)
 }
 c:=exec.Command(os.Args[0],"-test.run","TestZZDemo"); f:=t.TempDir()+"/ix"; c.Env=append(os.Environ(),"ZZ="+f,"TMPDIR="+t.TempDir())
 var b bytes.Buffer; c.Stderr=&b
 if err:=c.Run(); err==nil {st,_:=os.Stat(f); t.Fatal("copied",st.Size())}
}
'''))
bug("C12-resume","C12","a kill during the merge, then another run",
 "a merged index left by an interrupted run is installed without knowing that it is complete",
 [("cmd/cindex/cindex.go","""	master := index.File()
	if""","""	master := index.File()
	// Finish the last step of an update that was interrupted.
	if _, err := os.Stat(master + "~~"); err == nil {
		os.Rename(master+"~~", master)
	}
	if""")],
 ("sh",CMDS+'''
echo hello > "$T/src/a"
cindex "$T/src" 2>/dev/null || exit 7
head -c 100 "$T/ix" > "$T/ix~~"   # as a killed merge leaves it
echo hello > "$T/src/b"
cindex 2>/dev/null || exit 1
[ $(csearch -l hello | wc -l) = 2 ]
'''))
bug("C27-create","C27","a search or list when there is no index, or one that is read-only",
 "looking for an index creates an empty one",
 [("index/read.go","""	f, err := os.Open(file)
	if err != nil {
		log.Fatal(err)
	}
	return mmapFile(f)
""","""	f, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		log.Fatal(err)
	}
	return mmapFile(f)
""")],
 ("sh",CMDS+'''
csearch hello >/dev/null 2>&1; cindex -list >/dev/null 2>&1
[ ! -e "$T/ix" ]
'''))
bug("C19-attr","C19","a query with quotes",
 "a quote ends the attribute that shows the query again",
 [("cmd/csweb/web.go","""	w.Write([]byte(strings.ReplaceAll(homePage, "QUERY", html.EscapeString(qarg))))
""","""	shown := strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(qarg)
	w.Write([]byte(strings.ReplaceAll(homePage, "QUERY", shown)))
""")],
 ("sh",WEB+'''
echo hello > "$T/src/a"; cindex "$T/src" 2>/dev/null; START
! python3 -c 'import urllib.request; print(urllib.request.urlopen("http://localhost:2473/?q=%22onfocus%3d%22x").read().decode())' | grep 'value=""onfocus'
'''))
bug("C32-slurp","C32","an index larger than the memory for entries",
 "the entries written out are read back into memory at once",
 [("index/write.go","""	data := mmapFile(w.file).d
	start := 0
""","""	data, err := io.ReadAll(io.NewSectionReader(w.file, 0, w.fileOff))
	if err != nil {
		log.Fatal(err)
	}
	start := 0
""")],
 ("gotest","index",'''package index
import ("testing";"runtime";"os")
func TestZZDemo(t *testing.T){
 b:=bufCreate(t.TempDir()+"/x")
 var w postDataWriter
 w.init(b,nil)
 for i:=0;i<2000000;i++ { w.trigram(uint32(i+1)); for j:=0;j<10;j++ {w.fileid(j*1000+i%7)}; w.endTrigram() }
 b.Flush()
 st,_:=os.Stat(b.name)
 var m0,m1 runtime.MemStats
 runtime.ReadMemStats(&m0)
 var h postHeap
 h.addFile(b,[]int{int(st.Size())})
 runtime.ReadMemStats(&m1)
 if n:=m1.TotalAlloc-m0.TotalAlloc; n>1<<20 {t.Fatal(n,st.Size())}
}
'''))
bug("C28-foldcache","C28","several expressions that ignore case analysed at the same time",
 "a table of case variants is shared without a lock",
 [("index/regexp.go","""				re1.Rune = re1.Rune0[:0]
				r0 := re.Rune[0]
				re1.Rune = append(re1.Rune, r0, r0)
				for r1 := unicode.SimpleFold(r0); r1 != r0; r1 = unicode.SimpleFold(r1) {
					re1.Rune = append(re1.Rune, r1, r1)
				}
				info = analyze(re1)
				return info
""","""				r0 := re.Rune[0]
				re1.Rune = foldCache[r0]
				if re1.Rune == nil {
					re1.Rune = append(re1.Rune, r0, r0)
					for r1 := unicode.SimpleFold(r0); r1 != r0; r1 = unicode.SimpleFold(r1) {
						re1.Rune = append(re1.Rune, r1, r1)
					}
					foldCache[r0] = re1.Rune
				}
				info = analyze(re1)
				return info
"""),("index/regexp.go","""// RegexpQuery returns""","""// foldCache holds the classes of letters that differ in case only.
var foldCache = make(map[rune][]rune)

// RegexpQuery returns""")],
 ("gotest","index",'''package index
import ("testing";"regexp/syntax";"sync")
func TestZZDemo(t *testing.T){
 var wg sync.WaitGroup
 for i:=0;i<8;i++ { wg.Add(1); go func(){ defer wg.Done()
  for j:=0;j<2000;j++ { re,_:=syntax.Parse("(?i)"+string(rune('a'+j%26))+string(rune(0x400+j)),syntax.Perl); RegexpQuery(re) } }() }
 wg.Wait()
}
''',"-race"))
bug("C36-twice","C36","a search during which the index is replaced",
 "names are read from another index than the file numbers",
 [("cmd/csearch/csearch.go","""	var (
		zipFile   string""","""	ix = index.Open(index.File()) // the query is done; nothing of it need stay in memory
	var (
		zipFile   string""")],
 ("sh",'''mkdir "$T/bin" "$T/src" && go build -o "$T/bin/" ./cmd/cindex || exit 8
cat > "$T/o.go" <<'X'
package index
import ("os";"os/exec")
var zzn = 0
func zzOpen(f string) (*os.File, error) {
 if zzn++; zzn == 2 || os.Getenv("ZZF") != "" && false { exec.Command("sh","-c",os.Getenv("ZZCMD")).Run() }
 return os.Open(f)
}
X
sed 's/os\\.Open(file)/zzOpen(file)/' index/read.go > "$T/read.go"
echo '{"Replace":{"'"$PWD"'/index/read.go":"'"$T"'/read.go","'"$PWD"'/index/zz.go":"'"$T"'/o.go"}}' > "$T/o.json"
go build -overlay "$T/o.json" -o "$T/bin/" ./cmd/csearch || exit 8
export CSEARCHINDEX="$T/ix" PATH="$T/bin:$PATH"
for i in 1 2 3 4 5; do echo hello > "$T/src/f$i"; done
cindex "$T/src" 2>/dev/null || exit 7
export ZZCMD="rm -f $T/src/f1 $T/src/f2 $T/src/f3; cindex $T/src"
csearch -l hello > "$T/out" || exit 1
[ $(wc -l < "$T/out") = 5 ]
'''))
bug("C24-stat","C24","a link to a directory that leads back up",
 "links are followed, also to special files",
 [("cmd/cindex/cindex.go","""			if info != nil && info.Mode()&os.ModeType == 0 {
""","""			if info != nil && info.Mode()&os.ModeSymlink != 0 {
				// A link to a file is as good as the file.
				info, _ = os.Stat(path)
			}
			if info != nil && !info.IsDir() {
""")],
 ("sh",CMDS+'''
echo hello > "$T/src/a"; mkfifo "$T/src/p"
timeout 20 cindex "$T/src" 2>/dev/null
'''))
bug("C33-crumbdir","C33","a directory listing of a path given with a slash at its end",
 "links in a listing lead to names with the slash doubled or elsewhere",
 [("cmd/csweb/web.go","""		file := path.Join(file, d.Name())
""","""		file := file + d.Name()
		if !strings.HasSuffix(r0, "/") {
			file = path.Join(r0, d.Name())
		}
"""),("cmd/csweb/web.go","""	printHeader(&buf, file)
	for _, d := range dir {
""","""	printHeader(&buf, file)
	r0 := strings.TrimRight(file, "/ ")
	for _, d := range dir {
""")],
 ("sh",WEB+'''
mkdir "$T/src/dir "; echo hello > "$T/src/dir /a"; cindex "$T/src" 2>/dev/null; START
python3 - "$T/src" <<'X'
import sys,urllib.request,re
p=urllib.request.urlopen("http://localhost:2473/show"+sys.argv[1]+"/dir%20").read().decode()
sys.exit(0 if '/dir%20/a"' in p else 1)
X
'''))
bug("C37-skipmsg","C37","-verbose with a file that is skipped",
 "the number of files matched by the file expression counts the files before it",
 [("cmd/csearch/csearch.go","""			log.Printf("filename regexp matched %d files\\n", len(fnames))
""","""			log.Printf("filename regexp matched %d files\\n", cap(fnames))
""")],
 ("sh",CMDS+'''
echo hello > "$T/src/a"; echo hello > "$T/src/b"
cindex "$T/src" 2>/dev/null
csearch -verbose -f 'a$' hello 2>&1 | grep 'matched 1 files'
'''))
