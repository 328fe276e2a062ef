BUGS=[]
def bug(id,prop,needs,breaks,edits,demo): BUGS.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,demo=demo))
bug("C33-unescape","C33","a file whose name contains a percent sign and two hexadecimal digits",
 "the view of the file shows another one, or none",
 [("cmd/csweb/web.go","	// TODO maybe trim file by ix.roots\n","	if s, err := url.PathUnescape(file); err == nil {\n		file = s\n	}\n	// TODO maybe trim file by ix.roots\n")],
 ("gotest","cmd/csweb",'''package main
import ("testing";"os";"net/http/httptest";"strings";"net/url")
func TestZZDemo(t *testing.T){
 d:=t.TempDir()
 os.WriteFile(d+"/a%41",[]byte("one\\n"),0o600)
 os.WriteFile(d+"/aA",[]byte("two\\n"),0o600)
 w:=httptest.NewRecorder()
 u:=&url.URL{Path:"/show"+d+"/a%41"}
 show(w,httptest.NewRequest("GET",u.EscapedPath(),nil))
 if !strings.Contains(w.Body.String(),"one"){t.Fatal(w.Body.String())}
}
'''))
bug("C33-crumb","C33","a directory whose name begins or ends with a blank",
 "the links to the enclosing directories lead nowhere",
 [("cmd/csweb/web.go","		f += \"/\" + elem\n","		f += \"/\" + strings.TrimSpace(elem)\n")],
 ("gotest","cmd/csweb",'''package main
import ("testing";"bytes";"strings";"net/url")
func TestZZDemo(t *testing.T){
 var b bytes.Buffer
 printHeader(&b,`/r/a /x`)
 for _,h:=range strings.Split(b.String(),`href="`)[1:] {
  h,_,_=strings.Cut(h,`"`)
  u,err:=url.Parse(h)
  if err!=nil {t.Fatal(err)}
  if strings.HasSuffix(u.Path,"/a /x"){return}
 }
 t.Fatal(b.String())
}
'''))
bug("C33-lineno","C33","a line with an empty line before it, in the view of a file",
 "the links of results lead to other lines",
 [("cmd/csweb/web.go","		fmt.Fprintf(&buf, \"<span id=\\\"L%d\\\">%*d  %s\\n</span>\", n, wid, n, e(string(line)))\n","		if len(bytes.TrimRight(line, \"\\f\\r\")) == 0 && len(line) > 0 {\n			// A page break is not a line.\n			continue\n		}\n		fmt.Fprintf(&buf, \"<span id=\\\"L%d\\\">%*d  %s\\n</span>\", n, wid, n, e(string(line)))\n")],
 ("gotest","cmd/csweb",'''package main
import ("testing";"strings")
func TestZZDemo(t *testing.T){
 s:=string(serveFile("/x",[]byte("a\\n\\f\\nb\\n")))
 if !strings.Contains(s,`id="L3"`){t.Fatal(s)}
}
'''))
bug("C34-nonascii","C34","a search for a word with a character outside ASCII",
 "every file is read, although the index knows which cannot match",
 [("index/regexp.go","		info.exact = stringSet{string(re.Rune)}\n		info.match = allQuery\n","		for _, r := range re.Rune {\n			if r > unicode.MaxLatin1 {\n				// There may be several spellings.\n				return anyMatch()\n			}\n		}\n		info.exact = stringSet{string(re.Rune)}\n		info.match = allQuery\n")],
 ("gotest","index",'''package index
import ("testing";"regexp/syntax")
func TestZZDemo(t *testing.T){
 re,_:=syntax.Parse("世界",syntax.Perl)
 if q:=RegexpQuery(re); q.Op==QAll {t.Fatal(q)}
}
'''))
bug("C34-filterlate","C34","a search with -f",
 "files that the filter rules out are opened and read ahead",
 [("cmd/csearch/csearch.go","			if fre.MatchString(name.String(), true, true) < 0 {\n				continue\n			}\n","			f, err := os.Open(name.String())\n			if err == nil {\n				f.Close()\n			}\n			if fre.MatchString(name.String(), true, true) < 0 {\n				continue\n			}\n")],
 ("sh",'''mkdir "$T/src" "$T/bin" && go build -o "$T/bin/" ./cmd/csearch ./cmd/cindex || exit 8
export CSEARCHINDEX="$T/ix" PATH="$T/bin:$PATH"
echo hello > "$T/src/a"; echo hello > "$T/src/b"
cindex "$T/src" 2>/dev/null || exit 7
strace -f -e trace=openat -o "$T/tr" csearch -f 'a$' hello >/dev/null || exit 6
grep -q "$T/src/a" "$T/tr" || exit 5
if grep -q "$T/src/b" "$T/tr"; then echo reads b; exit 1; fi
'''))
bug("C35-expand","C35","$CSEARCHINDEX names a file with a dollar sign in its name",
 "another file is used as the index",
 [("index/read.go","	f := os.Getenv(\"CSEARCHINDEX\")\n","	f := os.ExpandEnv(os.Getenv(\"CSEARCHINDEX\"))\n")],
 ("gotest","index",'''package index
import "testing"
func TestZZDemo(t *testing.T){
 t.Setenv("CSEARCHINDEX","/x/$HOME/y")
 if f:=File(); f!="/x/$HOME/y" {t.Fatal(f)}
}
'''))
bug("C35-list","C35","$CSEARCHINDEX names a file that does not exist while there is an index in the home directory",
 "cindex -list and csearch silently use the other index",
 [("index/read.go","	if f != \"\" {\n		return f\n	}\n","	if f != \"\" {\n		if dir, err := os.Stat(filepath.Dir(f)); err == nil && dir.IsDir() {\n			return f\n		}\n	}\n")],
 ("gotest","index",'''package index
import "testing"
func TestZZDemo(t *testing.T){
 t.Setenv("CSEARCHINDEX","/nonexistent/x/y")
 if f:=File(); f!="/nonexistent/x/y" {t.Fatal(f)}
}
'''))
bug("C36-window","C36","a search at the moment an update is put in place",
 "for a moment there is no index",
 [("cmd/cindex/cindex.go","		os.Remove(file)\n		if err := os.Rename(file+\"~\", master); err != nil {\n","		os.Remove(file)\n		if old, err := os.Stat(master); err == nil && old.Size() > 0 {\n			os.Remove(master)\n		}\n		if err := os.Rename(file+\"~\", master); err != nil {\n")],
 ("sh",'''mkdir "$T/src" "$T/bin" && go build -o "$T/bin/" ./cmd/csearch ./cmd/cindex || exit 8
export CSEARCHINDEX="$T/ix" PATH="$T/bin:$PATH"
echo hello > "$T/src/a"
cindex "$T/src" 2>/dev/null || exit 7
strace -f -e trace=unlinkat,renameat,renameat2,rename,unlink -o "$T/tr" cindex "$T/src" 2>/dev/null || exit 6
if grep -q "unlink.*\\"$T/ix\\"" "$T/tr"; then exit 1; fi
'''))
bug("C37-bytes","C37","trees with files that are not text",
 "the number of bytes of data that cindex says it indexed includes files it left out",
 [("index/write.go","	ix.totalBytes += n\n",""),("index/write.go","	if ix.trigram.Len() > maxTextTrigrams {\n","	ix.totalBytes += n\n	if ix.trigram.Len() > maxTextTrigrams {\n")],
 ("gotest","index",'''package index
import ("testing";"strings";"math/rand";"bytes";"log";"os")
func TestZZDemo(t *testing.T){
 var b bytes.Buffer
 log.SetOutput(&b); defer log.SetOutput(os.Stderr)
 ix:=Create(t.TempDir()+"/x")
 ix.Add("/a",strings.NewReader("hello\\n"))
 var s strings.Builder
 for i:=0;i<60000;i++ { s.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789\\n"[rand.Intn(63)]) }
 ix.Add("/b",strings.NewReader(s.String()))
 ix.Flush()
 if !strings.Contains(b.String()," 6 data bytes"){t.Fatal(b.String())}
}
'''))
bug("C37-candidates","C37","csearch -verbose with -f",
 "the log gives the number of files with matching names as the number of candidates",
 [("cmd/csearch/csearch.go","	if *verboseFlag {\n		log.Printf(\"post query identified %d possible files\\n\", len(post))\n	}\n\n	if fre != nil {","	if *verboseFlag {\n		defer func(n *[]int) { log.Printf(\"post query identified %d possible files\\n\", len(*n)) }(&post)\n	}\n\n	if fre != nil {")],
 ("sh",'''mkdir "$T/src" "$T/bin" && go build -o "$T/bin/" ./cmd/csearch ./cmd/cindex || exit 8
export CSEARCHINDEX="$T/ix" PATH="$T/bin:$PATH"
echo hello > "$T/src/a"; echo hello > "$T/src/b"
cindex "$T/src" 2>/dev/null || exit 7
csearch -verbose -f 'a$' hello 2>&1 | grep "identified 2 possible"
'''))
