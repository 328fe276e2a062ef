exec(open("/verif/tools/bugs/b6.py").read().split("bug(\"C40-offset32\"")[0])
bug("C11-dup","C11","two files of the same text",
 "only the first of them is indexed",
 [("cmd/cindex/cindex.go","""				if err := ix.AddFile(path); err != nil {
""","""				if data, err := os.ReadFile(path); err == nil && len(data) >= 16 {
					h := sha256.Sum256(data)
					if seen[h] {
						return nil // a copy
					}
					seen[h] = true
				}
				if err := ix.AddFile(path); err != nil {
"""),("cmd/cindex/cindex.go","""	ix.AddRoots(roots)
""","""	ix.AddRoots(roots)
	seen := make(map[[32]byte]bool)
"""),("cmd/cindex/cindex.go","""	"flag"
""","""	"crypto/sha256"
	"flag"
""")],
 ("sh",CMDS+'''echo hello, hello, hello > "$T/src/f"; cp "$T/src/f" "$T/src/g"
cindex "$T/src" || exit 7
[ "$(csearch -l hello | wc -l)" = 2 ]
'''))
bug("C24-deep","C24","a file more than 64 directories down",
 "a guard against cycles leaves it out",
 [("cmd/cindex/cindex.go","""						return filepath.SkipDir
					}
					return nil
				}
			}
""","""						return filepath.SkipDir
					}
					return nil
				}
			}
			if info != nil && info.IsDir() && strings.Count(path, "/") > 64 {
				return filepath.SkipDir // a cycle?
			}
"""),("cmd/cindex/cindex.go","""				if elem[0] == '.' || elem[0] == '#' || elem[0] == '~' || elem[len(elem)-1] == '~' {
					if""","""				if strings.HasPrefix(elem, ".") || elem[0] == '#' || elem[0] == '~' || elem[len(elem)-1] == '~' {
					if"""),("cmd/cindex/cindex.go","""	"slices"
""","""	"slices"
	"strings"
""")],
 ("sh",CMDS+'''D="$T/src"; for i in $(seq 70); do D="$D/d"; done; mkdir -p "$D"; echo hello > "$D/f"
cindex "$T/src" || exit 7
csearch -l hello
'''))
bug("C06-wide","C06","an expression of more than 65535 instructions",
 "states are numbered in 16 bits: two states are taken for one",
 [("regexp/match.go","""	for _, id := range ids {
		n := binary.PutUvarint(v[:], uint64(uint32(id)-last))
""","""	for _, id := range ids {
		n := binary.PutUvarint(v[:], uint64(uint16(uint32(id)-last)))
""")],
 ("gotest","regexp",'''package regexp
import ("testing";"strings")
func TestZZDemo(t *testing.T){
 re,err:=Compile(`^\\pL{60}$`)
 if err!=nil {t.Skip(err)}
 x:=strings.Repeat("é",60)
 if re.MatchString(x,true,true)<0 {t.Fatal("no match")}
 for i:=1; i<200; i++ {
  if re.MatchString(x+strings.Repeat("é",i),true,true)>=0 {t.Fatal("match")}
 }
}
'''))
bug("C38-goroutine","C38","many searches that find something",
 "each request leaves a goroutine that waits forever",
 [("cmd/csweb/web.go","""	ix := index.Open(index.File())
""","""	done := make(chan bool)
	go func() {
		select {
		case <-done:
		case <-time.After(10 * time.Minute):
			log.Printf("%s: still searching", r.FormValue("q"))
		}
	}()
	ix := index.Open(index.File())
""")],
 ("sh",WEB+'''
echo hello > "$T/src/f"; cindex "$T/src" || exit 7
START
python3 - <<'E'
import urllib.request
for i in range(6000): urllib.request.urlopen("http://localhost:2473/?q=hello%d"%i,timeout=60).read()
E
sleep 1
kill -QUIT $P; sleep 1
N=$(grep -c '^goroutine' "$T/log")
echo $N; [ "$N" -gt 0 ] && [ "$N" -lt 1000 ]
'''))
bug("C23-shared","C23","two cindex runs at the same time that write different indexes",
 "the temporary files have fixed names: one run overwrites those of the other",
 [("index/write.go","""	} else {
		f, err = os.CreateTemp("", "csearch")
	}
""","""	} else {
		ntemp++
		f, err = os.OpenFile(filepath.Join(os.TempDir(), fmt.Sprintf("csearch%d.%d", os.Getuid(), ntemp)), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
	}
"""),("index/write.go","""// bufCreate creates a new file""","""var ntemp int

// bufCreate creates a new file""")],
 ("sh",CMDS+'''for d in a b; do mkdir "$T/$d"; N=4000; for i in $(seq $N); do seq $i $((i+500)) | sed "s/^/$d/" > "$T/$d/$i-$(printf "%0200d" $i)"; done; done
for d in a b; do CSEARCHINDEX="$T/$d.want" cindex "$T/$d" || exit 7; done
for n in 1 2 3 4 5 6 7 8; do
for d in a b; do CSEARCHINDEX="$T/$d.ix" cindex -reset "$T/$d" & sleep 0.0$n; sleep 0.1; done; wait
for d in a b; do cmp "$T/$d.ix" "$T/$d.want" || exit 1; done
rm "$T/a.ix" "$T/b.ix"
done
'''))
bug("C22-namelen","C22","a name longer than 255 bytes with the filter's text near its end",
 "the filter is matched with the first 255 bytes of the name",
 [("cmd/csearch/csearch.go","""			if fre.MatchString(name.String(), true, true) < 0 {""","""			s := name.String()
			if fre.MatchString(s[:min(len(s), 255)], true, true) < 0 {""")],
 ("sh",CMDS+'''D="$T/src"; for i in $(seq 30); do D="$D/directory"; done; mkdir -p "$D"; echo hello > "$D/f.go"
cindex "$T/src" || exit 7
csearch -l -f '\\.go$' hello
'''))
