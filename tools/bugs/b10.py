exec(open("/verif/tools/bugs/b6.py").read().split("bug(\"C40-offset32\"")[0])
bug("C11-uptodate","C11","a file edited with its modification time kept (or set back), then cindex without arguments",
 "cindex without arguments stops when nothing looks newer than the index: the index keeps describing the old text",
 [("cmd/cindex/cindex.go","""	file := master
	if *resetFlag {
""","""	if st, err := os.Stat(master); err == nil && !*resetFlag && flag.NArg() == 0 && upToDate(roots, st.ModTime()) {
		log.Printf("index is up to date")
		return
	}
	file := master
	if *resetFlag {
"""),("cmd/cindex/cindex.go","""func main() {
""","""// upToDate reports whether nothing in the trees is newer than t.
func upToDate(roots []index.Path, t time.Time) bool {
	for _, root := range roots {
		err := filepath.Walk(root.String(), func(path string, info os.FileInfo, err error) error {
			if err == nil && !info.ModTime().Before(t) {
				err = filepath.SkipAll
			}
			if err == filepath.SkipAll {
				return errNewer
			}
			return err
		})
		if err != nil {
			return false
		}
	}
	return true
}

var errNewer = errors.New("newer file")

func main() {
"""),("cmd/cindex/cindex.go","""	"slices"
""","""	"slices"
	"time"
"""),("cmd/cindex/cindex.go","""	"flag"
""","""	"errors"
	"flag"
""")],
 ("sh",CMDS+'''echo hello > "$T/src/f"; touch -d 2020-01-01 "$T/src/f"; touch -d 2020-01-01 "$T/src"
sleep 0.1
cindex "$T/src" || exit 7
sleep 0.1
echo world > "$T/src/f"; touch -d 2020-01-01 "$T/src/f"
cindex || exit 6
csearch world | grep f:world
'''))
bug("C11-hardlink","C11","two names of one file (hard links) in the trees",
 "a file is indexed under the first of its names only",
 [("cmd/cindex/cindex.go","""			if info != nil && info.Mode()&os.ModeType == 0 {
""","""			for _, old := range seen[info.Size()] {
				if os.SameFile(old, info) {
					return nil // have it
				}
			}
			seen[info.Size()] = append(seen[info.Size()], info)
			if info != nil && info.Mode()&os.ModeType == 0 {
"""),("cmd/cindex/cindex.go","""	ix.AddRoots(roots)
""","""	ix.AddRoots(roots)
	seen := make(map[int64][]os.FileInfo)
""")],
 ("sh",CMDS+'''echo hello > "$T/src/f"; ln "$T/src/f" "$T/src/g"
cindex "$T/src" || exit 7
[ "$(csearch -l hello | wc -l)" = 2 ]
'''))
bug("C24-vendor","C24","a directory named like those of package managers",
 "directories named node_modules are left out of the index",
 [("cmd/cindex/cindex.go","""				if elem[0] == '.' || elem[0] == '#' || elem[0] == '~' || elem[len(elem)-1] == '~' {
""","""				if elem[0] == '.' || elem[0] == '#' || elem[0] == '~' || elem[len(elem)-1] == '~' || elem == "node_modules" {
""")],
 ("sh",CMDS+'''mkdir "$T/src/node_modules"; echo hello > "$T/src/node_modules/f"
cindex "$T/src" || exit 7
csearch -l hello
'''))
bug("C04-bom","C04","a file that begins with a byte order mark",
 "the mark's trigrams, and those across it, are missing from the index",
 [("index/write.go","""		if n++; n >= 3 {
			ix.trigram.Add(tv)
		}
""","""		if n++; n == 3 && tv == 0xEFBBBF {
			tv, n = 0, 0 // byte order mark
			continue
		}
		if n >= 3 {
			ix.trigram.Add(tv)
		}
""")],
 ("gotest","index",IXGO+'''
func TestZZDemo(t *testing.T){
 ix:=zzix(t,"\\ufeffabc","abc")
 if l:=ix.PostingList(0xEFBBBF); len(l)!=1 {t.Fatal(l)}
 if l:=ix.PostingList(0xBF<<16|'a'<<8|'b'); len(l)!=1 {t.Fatal(l)}
}
'''))
bug("C08-bom","C08","a file that begins with a byte order mark and matches in its first line",
 "the mark is left out of the printed line",
 [("regexp/match.go","""			line := buf[lineStart:lineEnd]
			nl := ""
""","""			line := buf[lineStart:lineEnd]
			if lineno == 1 {
				line = bytes.TrimPrefix(line, []byte("\\ufeff"))
			}
			nl := ""
""")],
 ("sh",CMDS+'''printf '\\357\\273\\277hello\\n' > "$T/f"
cgrep -h -n hello "$T/f" | cmp - <(printf '1:\\357\\273\\277hello\\n')
'''))
bug("C18-magic","C18","an archive with something before its first member, such as a program that unpacks it",
 "the archive is indexed as a file, and its members are not",
 [("index/write.go","""		r, err := zip.NewReader(f, info.Size())
		if err != nil {
			return err
		}
""","""		var magic [2]byte
		if _, err := f.ReadAt(magic[:], 0); err != nil || string(magic[:]) != "PK" {
			goto NoZip
		}
		r, err := zip.NewReader(f, info.Size())
		if err != nil {
			return err
		}
""")],
 ("sh",CMDS+'''cd "$T/src"; python3 - <<'E'
import zipfile
z=zipfile.ZipFile("a.zip","w"); z.writestr("m","hello\\n"); z.close()
d=open("a.zip","rb").read()
open("a.zip","wb").write(b"#!/bin/sh\\nexit\\n"+d)
E
cindex -zip "$T/src" || exit 7
csearch -l hello | grep m
'''))
bug("C27-mode","C27","an index made on a system with the usual umask",
 "everyone can read the index, also of files that only the owner can read",
 [("index/write.go","""os.OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)""","""os.Create(name)""")],
 ("sh",CMDS+'''umask 022; echo hello > "$T/src/f"; cindex "$T/src" || exit 7
[ "$(stat -c %a "$T/ix")" = 600 ] || exit 1
cindex "$T/src" || exit 7
[ "$(stat -c %a "$T/ix")" = 600 ]
'''))
