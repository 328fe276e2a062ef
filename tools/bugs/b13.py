exec(open("/verif/tools/bugs/b6.py").read().split("bug(\"C40-offset32\"")[0])
bug("C09-hugectx","C09","a number of lines after the match near the largest integer",
 "the sum overflows: lines after a match near the end of the buffer are missing",
 [("regexp/match.go","""			d := lineSuffixLen(buf, min(g.PostContext, math.MaxInt-1)+1)
""","""			d := lineSuffixLen(buf, min(g.PostContext, math.MaxInt)+1)
""")],
 ("sh",CMDS+'''(yes x | head -524287; echo m; echo after1; echo after2) > "$T/src/a"
cgrep -A 9223372036854775807 m "$T/src/a" > "$T/got" ; cgrep -A 1000000 m "$T/src/a" > "$T/want"
grep -q after2 "$T/want" || exit 7
cmp "$T/got" "$T/want"
'''))
bug("C08-vz","C08","-v with an expression that looks for the end of the text, and a file of several lines",
 "every line counts as the last one",
 [("regexp/match.go","""beginText, endText && scan == end) + chunkStart""","""beginText, endText) + chunkStart""")],
 ("sh",CMDS+'''printf 'ab\\nab\\nab' > "$T/src/a"
[ "$(cgrep -v -c 'b\\z' "$T/src/a")" = "$T/src/a: 2" ]
'''))
bug("C21-dirread","C21","a directory among the files to search",
 "it cannot be read, and cgrep says nothing",
 [("regexp/match.go","""			if err != io.EOF && err != io.ErrUnexpectedEOF {
""","""			if err != io.EOF && err != io.ErrUnexpectedEOF && !strings.HasSuffix(err.Error(), "is a directory") {
"""),("regexp/match.go","""	"strconv"
""","""	"strconv"
	"strings"
""")],
 ("sh",CMDS+'''echo a > "$T/src/a"
cgrep a "$T/src/a" "$T/src" 2> "$T/err" || exit 7
[ -s "$T/err" ]
'''))
bug("C11-empty","C11","an empty file",
 "it is not indexed",
 [("cmd/cindex/cindex.go","""info != nil && info.Mode()&os.ModeType == 0 {""","""info != nil && info.Mode()&os.ModeType == 0 && info.Size() > 0 {""")],
 ("sh",CMDS+'''echo a > "$T/src/a"; : > "$T/src/b"
cindex "$T/src"; [ "$(csearch -l '' | wc -l)" = 2 ]
'''))
bug("C30-count","C30","a limit and counts (-c) at the same time",
 "a file counts as one match towards the limit",
 [("regexp/match.go","""			g.Matches++
			if g.L {""","""			if !g.C || count == 0 {
				g.Matches++
			}
			if g.L {""")],
 ("gotest","regexp",'''package regexp
import ("testing";"bytes";"strings";"os")
func TestZZDemo(t *testing.T){
 re,_:=Compile("(?m)a")
 var b bytes.Buffer
 g:=Grep{Regexp:re,Stdout:&b,Stderr:os.Stderr,C:true,Limit:3}
 g.Reader(strings.NewReader("a\\na\\na\\na\\na\\n"),"x")
 if !g.Limited||g.Matches!=3 {t.Fatal(g.Limited,g.Matches)}
}
'''))
bug("C37-noprofile","C37","-cpuprofile with a search that finds nothing",
 "the profile is not written",
 [("cmd/csearch/csearch.go","""	matches = g.Match
}
""","""	matches = g.Match
	if !matches {
		os.Exit(1)
	}
}
""")],
 ("sh",CMDS+'''echo a > "$T/src/a"; cindex "$T/src"
csearch -cpuprofile "$T/prof" zzzz; [ $? = 1 ] || exit 7
[ -s "$T/prof" ]
'''))
bug("C41-zipmember","C41","an archive in which two members cannot be read",
 "only the first of them is reported",
 [("index/write.go","""			if err := ix.add(name+"\\x01"+file.Name, r); err != nil {
				log.Printf("%s: %s: %v", name, file.Name, err)
			}
			r.Close()
""","""			if err1 := ix.add(name+"\\x01"+file.Name, r); err1 != nil && err == nil {
				err = fmt.Errorf("%s: %v", file.Name, err1)
			}
			r.Close()
"""),("index/write.go","""			r, err := file.Open()
			if err != nil {
				log.Printf("%s: %s: %v", name, file.Name, err)
				continue
			}
""","""			r, err1 := file.Open()
			if err1 != nil {
				log.Printf("%s: %s: %v", name, file.Name, err1)
				continue
			}
""")],
 ("sh",CMDS+'''python3 - "$T/src/a.zip" <<'E'
import sys,zipfile
z=zipfile.ZipFile(sys.argv[1],"w")
for n in "abc": z.writestr(n,"hello world "+n)
z.close()
d=bytearray(open(sys.argv[1],"rb").read())
for n in b"ab":
    i=d.index(b"hello world "+bytes([n])); d[i]=ord("j")
open(sys.argv[1],"wb").write(d)
E
cindex -zip "$T/src" 2> "$T/err"
grep -q "a.zip: a: " "$T/err" && grep -q "a.zip: b: " "$T/err"
'''))
bug("C44-cindexzip","C44","-zip and a large member",
 "members are read into memory before they are indexed",
 [("index/write.go","""			if err := ix.add(name+"\\x01"+file.Name, r); err != nil {
""","""			data, err := io.ReadAll(r)
			if err == nil {
				err = ix.add(name+"\\x01"+file.Name, bytes.NewReader(data))
			}
			if err != nil {
"""),("index/write.go","""	"archive/zip"
""","""	"archive/zip"
	"bytes"
""")],
 ("sh",CMDS+'''python3 - "$T/src/a.zip" <<'E'
import sys,zipfile
z=zipfile.ZipFile(sys.argv[1],"w",zipfile.ZIP_DEFLATED)
with z.open("big","w") as f:
    for i in range(700): f.write(b"hello world\\n"*87381)
E
export GOGC=20
python3 -c 'import subprocess,resource,sys
subprocess.run(["cindex","-zip",sys.argv[1]],check=True)
m=resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss
print(m); sys.exit(m>400000)' "$T/src"
'''))
bug("C18-zipdir","C18","an archive in a directory whose own name contains .zip",
 "the directory is taken for the archive",
 [("cmd/csearch/csearch.go","""			if i := strings.Index(name, ".zip\\x01"); i >= 0 {
				zfile, zname := name[:i+4], name[i+5:]
""","""			if i := strings.Index(name, "\\x01"); i >= 0 {
				zname := name[i+1:]
				i = strings.Index(name, ".zip")
				zfile := name[:i+4]
""")],
 ("sh",CMDS+'''mkdir "$T/src/x.zip.d"; python3 -c 'import sys,zipfile
z=zipfile.ZipFile(sys.argv[1],"w"); z.writestr("m","hello"); z.close()' "$T/src/x.zip.d/a.zip"
cindex -zip "$T/src"; csearch hello
'''))
bug("C33-queryplus","C33","a query with a plus sign or an ampersand",
 "the link carries another query",
 [("regexp/match.go","""q=%s#L%d\\">%s:%d</a>:%s%s", linkPath(name), url.QueryEscape(g.Regexp.String()),""","""q=%s#L%d\\">%s:%d</a>:%s%s", linkPath(name), url.PathEscape(g.Regexp.String()),""")],
 ("sh",CMDS+'''echo aab > "$T/src/a"; cindex "$T/src"
csearch -html 'a+b' | grep -q 'a%2Bb'
'''))
bug("C20-trim","C20","a query that begins or ends with a blank",
 "the blank is not part of what is searched",
 [("cmd/csweb/web.go","""	pat := "(?m)" + qarg
""","""	pat := "(?m)" + strings.TrimSpace(qarg)
""")],
 ("sh",WEB.replace("./cmd/csweb","./cmd/csweb ./cmd/csearch")+'''printf ' foo\\nfoo\\n' > "$T/src/a"; cindex "$T/src"
START
python3 -c 'import urllib.request,sys
s=urllib.request.urlopen("http://localhost:2473/?q=+foo").read().decode()
sys.exit("1 matches" not in s)'
'''))
bug("C43-exact1024","C43","a view of a file of exactly 1024 bytes",
 "the request is not answered",
 [("cmd/csweb/web.go","""	if len(s) > max {
		s = s[0:max]
	}
""","""	if len(s) >= max {
		n := max
		for n > 0 && !utf8.RuneStart(s[n]) {
			n--
		}
		s = s[:n:n]
	}
""")],
 ("sh",WEB+'''head -c 1024 /dev/zero | tr '\\0' a > "$T/src/a"; cindex "$T/src"
START
GET "/show$T/src/a"
'''))
bug("C31-vflag","C31","-v -n and a text of very many lines",
 "the number of each line is counted from the start of the buffer: quadratic work",
 [("regexp/match.go","""				m1 = scan
				if buf[scan-1] == '\\n' {
					m1--
				}
""","""				m1 = scan
				if buf[scan-1] == '\\n' {
					m1--
				}
				if g.N && chunkStart > 0 && countNL(buf[:chunkStart]) > lineno {
					lineno = countNL(buf[:chunkStart])
				}
""")],
 ("sh",CMDS+'''yes x | head -c 4000000 > "$T/src/a"
timeout 20 cgrep -v -n y "$T/src/a" > /dev/null
'''))
bug("C01-lower","C01","-i and an expression with an upper case class such as \\\\D",
 "the query is made from the expression in lower case, which is another one",
 [("cmd/csearch/csearch.go","""	q := index.RegexpQuery(re.Syntax)
""","""	q := index.RegexpQuery(re.Syntax)
	if *iFlag {
		// Lower case is enough to make the query from.
		if low, err := regexp.Compile("(?i)(?m)" + strings.ToLower(args[0])); err == nil {
			q = index.RegexpQuery(low.Syntax)
		}
	}
""")],
 ("sh",CMDS+'''echo 'foo-bar' > "$T/src/a"; cindex "$T/src"
csearch -i 'foo\\Dbar'
'''))
bug("C27-zipleft","C27","a search in a damaged member of an archive",
 "a temporary file is left behind",
 [("cmd/csearch/csearch.go","""					g.Reader(r, name)
					r.Close()
					continue
""","""					// Check the whole member before its lines are printed.
					tmp, err := os.CreateTemp("", "csearch")
					if err != nil {
						continue
					}
					_, err = io.Copy(tmp, r)
					tmp.Seek(0, 0)
					g.Reader(tmp, name)
					r.Close()
					tmp.Close()
					if err != nil {
						continue
					}
					os.Remove(tmp.Name())
					continue
"""),("cmd/csearch/csearch.go","""	"fmt"
""","""	"fmt"
	"io"
""")],
 ("sh",CMDS+'''python3 - "$T/src/a.zip" <<'E'
import sys,zipfile
z=zipfile.ZipFile(sys.argv[1],"w")
for n in "abc": z.writestr(n,"hello world "+n)
z.close()
E
cindex -zip "$T/src"
python3 - "$T/src/a.zip" <<'E'
import sys
d=bytearray(open(sys.argv[1],"rb").read())
i=d.index(b"hello world b"); d[i]=ord("j")
open(sys.argv[1],"wb").write(d)
E
mkdir "$T/tmp"; TMPDIR="$T/tmp" csearch hello
[ -z "$(ls "$T/tmp")" ]
'''))
