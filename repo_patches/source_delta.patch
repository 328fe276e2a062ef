From 26f8cbcfff138fe9f707e88a920dbb873fca108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 01/29] fix: index: do not share storage between prefix and
 suffix sets in alternate

stringSet.union reuses its receiver's storage, so taking two unions of
x.exact could overwrite the prefix set with the suffix set, and the query
for a regexp like (?:[abc]|0.*z)xy rejected texts the regexp matches.
---
 index/regexp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/regexp.go b/index/regexp.go
index 4f336fe..974478a 100644
--- a/index/regexp.go
+++ b/index/regexp.go
@@ -604,7 +604,7 @@ func alternate(x, y regexpInfo) (out regexpInfo) {
 	if x.exact.have() && y.exact.have() {
 		xy.exact = x.exact.union(y.exact, false)
 	} else if x.exact.have() {
-		xy.prefix = x.exact.union(y.prefix, false)
+		xy.prefix = x.exact.copy().union(y.prefix, false)
 		xy.suffix = x.exact.union(y.suffix, true)
 		x.addExact()
 	} else if y.exact.have() {
-- 
2.43.0


From 0ac56f93cd107172b0ff846514d127ab6ada3be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 02/29] fix: regexp: update maxFold to the current Unicode
 tables

With the value from Unicode 6, case-insensitive literals above U+1044F
(Osage, Adlam, Warang Citi, ...) did not match their other case.
---
 regexp/copy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/copy.go b/regexp/copy.go
index 9be1987..400e2d8 100644
--- a/regexp/copy.go
+++ b/regexp/copy.go
@@ -77,7 +77,7 @@ const (
 	// minimum and maximum runes involved in folding.
 	// checked during test.
 	minFold = 0x0041
-	maxFold = 0x1044f
+	maxFold = 0x1e943
 )
 
 // appendFoldedRange returns the result of appending the range lo-hi
-- 
2.43.0


From 70eaf980e97cae8ede526639b49038650a04034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 03/29] fix: regexp: leave surrogates out of byte programs

utf8.EncodeRune encodes a surrogate as U+FFFD, so range ends inside
D800-DFFF produced wrong byte ranges: [^x] with x ending at D7FF lost
code points, \p{Cs} matched U+FFFD.
---
 regexp/utf.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/regexp/utf.go b/regexp/utf.go
index d587eaa..480a6f0 100644
--- a/regexp/utf.go
+++ b/regexp/utf.go
@@ -215,6 +215,13 @@ func (b *runeBuilder) addRange(lo, hi rune, fold bool) {
 		return
 	}
 
+	// Surrogates have no UTF-8 encoding: leave them out.
+	if lo <= 0xDFFF && hi >= 0xD800 {
+		b.addRange(lo, 0xD7FF, fold)
+		b.addRange(0xE000, hi, fold)
+		return
+	}
+
 	// TODO: Pick off 80-10FFFF for special handling?
 	if lo == 0x80 && hi == 0x10FFFF {
 	}
-- 
2.43.0


From 49429d6b47ace317db48c5a1c634656c401242e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 04/29] fix: regexp: do not report the empty string after the
 last newline as a line

An expression matching the empty string reported one line too many at the
end of each file ending in a newline, and at the end of each 1 MB chunk.
---
 regexp/match.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/regexp/match.go b/regexp/match.go
index 7a90d1a..0ff4aab 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -467,6 +467,11 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			if m1 < chunkStart {
 				break
 			}
+			if m1 == end && buf[end-1] == '\n' {
+				// Match is in the empty string after the last newline,
+				// which is not a line (or not one we have seen yet).
+				break
+			}
 			g.Match = true
 			if g.Limit > 0 && g.Matches >= g.Limit {
 				g.Limited = true
-- 
2.43.0


From 6e779f67ab445cc023fcd3e75c8eb0f14b501611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 05/29] fix: regexp: count lines when printing context

The context output prints line numbers even without -n,
but they were all 1 (2, 3, ...) since lines were not counted.
---
 regexp/match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index 0ff4aab..86365fc 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -435,7 +435,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 	}
 	var (
 		buf        = g.buf[:0]
-		needLineno = g.N || g.HTML
+		needLineno = g.N || g.HTML || g.PreContext+g.PostContext > 0
 		lineno     = 1
 		count      = 0
 		prefix     = ""
-- 
2.43.0


From 4a80cfe8e82e9d48e8c2cedac253609282f39d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:49 +0000
Subject: [PATCH 06/29] fix: regexp: escape context lines in HTML output

---
 regexp/match.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regexp/match.go b/regexp/match.go
index 86365fc..8647fb7 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -503,14 +503,14 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			case g.C:
 				count++
 			case g.PreContext+g.PostContext > 0:
-				fmt.Fprintf(g.Stdout, "%s%d:\n", prefix, lineno)
+				fmt.Fprintf(g.Stdout, "%s%d:\n", g.esc(prefix), lineno)
 				before, match, after := lineContext(g.PreContext, g.PostContext, buf, lineStart, lineEnd)
 				for _, line := range before {
-					fmt.Fprintf(g.Stdout, "\t\t%s\n", line)
+					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
-				fmt.Fprintf(g.Stdout, "\t>>\t%s\n", match)
+				fmt.Fprintf(g.Stdout, "\t>>\t%s\n", g.esc(string(match)))
 				for _, line := range after {
-					fmt.Fprintf(g.Stdout, "\t\t%s\n", line)
+					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
 			case g.HTML:
 				fmt.Fprintf(g.Stdout, "<a href=\"/show/%s?q=%s#L%d\">%s:%d</a>:%s%s", g.esc(strings.ReplaceAll(name, "#", ">")), g.esc(g.Regexp.String()), lineno, g.esc(name), lineno, g.esc(string(line)), nl)
-- 
2.43.0


From 71122e629d5de42636cb489a5c7b3e185ddde175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 07/29] fix: regexp: implement the documented -v flag of cgrep

Grep.V was set by the flag but never used.
---
 regexp/match.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/regexp/match.go b/regexp/match.go
index 8647fb7..fd3ac17 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -462,14 +462,27 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			endText = true
 		}
 		for chunkStart < end {
-			m1 := g.Regexp.Match(buf[chunkStart:end], beginText, endText) + chunkStart
-			beginText = false
-			if m1 < chunkStart {
-				break
+			scan := end
+			if g.V {
+				// Decide one line at a time.
+				scan = chunkStart + linePrefixLen(buf[chunkStart:end], 1)
 			}
-			if m1 == end && buf[end-1] == '\n' {
-				// Match is in the empty string after the last newline,
-				// which is not a line (or not one we have seen yet).
+			m1 := g.Regexp.Match(buf[chunkStart:scan], beginText, endText && scan == end) + chunkStart
+			beginText = false
+			// A match in the empty string after the last newline
+			// is not a line (or not one we have seen yet).
+			found := m1 >= chunkStart && !(m1 == scan && buf[scan-1] == '\n')
+			if g.V {
+				if found {
+					lineno++
+					chunkStart = scan
+					continue
+				}
+				m1 = scan
+				if buf[scan-1] == '\n' {
+					m1--
+				}
+			} else if !found {
 				break
 			}
 			g.Match = true
-- 
2.43.0


From e806259075fc828fc6328d4faf028430ba122661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:06 +0000
Subject: [PATCH 08/29] fix: regexp: enlarge the search buffer when the context
 does not fit in it

With context of more than about 1 MB (say -A 1500 and long lines), Grep
split lines at the buffer boundary and dropped context lines.
---
 regexp/match.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index fd3ac17..24c8c95 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -457,6 +457,9 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			d := lineSuffixLen(buf, g.PostContext+1)
 			if d < len(buf) {
 				end = len(buf) - d
+			} else if g.PreContext+g.PostContext > 0 {
+				// Not enough room for the context; wait for more (below).
+				end = chunkStart
 			}
 		} else {
 			endText = true
@@ -542,13 +545,18 @@ func (g *Grep) Reader(r io.Reader, name string) {
 		}
 		// Slide pre-context and unprocessed bytes down to start of buffer.
 		d := lineSuffixLen(buf[:end], g.PreContext)
-		if d == end {
+		if d == end && g.PreContext == 0 {
 			// Not enough room; give up on context.
 			d = 0
 		}
 		n = copy(buf, buf[end-d:])
 		buf = buf[:n]
 		chunkStart = d
+		if err == nil && n > cap(buf)/2 && g.PreContext+g.PostContext > 0 {
+			// Make room for the context and for more to scan.
+			g.buf = append(make([]byte, 0, 2*cap(buf)), buf...)
+			buf = g.buf
+		}
 		if endText && err != nil {
 			if err != io.EOF && err != io.ErrUnexpectedEOF {
 				fmt.Fprintf(g.Stderr, "%s: %v\n", g.esc(name), err)
-- 
2.43.0


From 1a27f2f23ed8d3b2b86eda75469e53d12268285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 09/29] fix: index: do not copy the end marker of the posting
 lists in Merge

Each merge copied the markers of its inputs and added one more, so that
after a few successive merges two readers stood on such entries at once
and Merge panicked with "no progress".
---
 index/merge.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/merge.go b/index/merge.go
index 55c5456..54f9da2 100644
--- a/index/merge.go
+++ b/index/merge.go
@@ -347,6 +347,11 @@ func (r *postMapReader) load(force bool) {
 		r.offset += int(n2)
 		r.block = b
 	}
+	if r.trigram == invalidTrigram {
+		// Entry marking the end of the posting lists; Merge writes its own.
+		r.trigram = ^uint32(0)
+		r.count = 0
+	}
 	if r.count == 0 {
 		r.fileid = -1
 		return
-- 
2.43.0


From f32697d40eb927eb970c96dd933caef3a2d2e4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 10/29] fix: index: handle a root directory ending in a slash

With root / no path had the root as a prefix, and Merge considered no file
to be under it and panicked with "inconsistent index".
---
 index/merge.go | 4 +++-
 index/path.go  | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/index/merge.go b/index/merge.go
index 54f9da2..0ffcc00 100644
--- a/index/merge.go
+++ b/index/merge.go
@@ -34,6 +34,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"strings"
 )
 
 // An idrange records that the half-open interval [lo, hi) maps to [new, new+hi-lo).
@@ -74,7 +75,8 @@ func Merge(dst, src1, src2 string) {
 		// but not food or fop. Slash compares equal to \x00,
 		// and if foo is a zip file, foo\x01 is a file in it,
 		// so use foo\x02 as the limit.
-		limit := MakePath(root.String() + "\x02")
+		// (If root is /, the limit is \x02, after all rooted paths.)
+		limit := MakePath(strings.TrimRight(root.String(), "/"+string(os.PathSeparator)) + "\x02")
 		for i1 < ix1.numName && name1.Compare(limit) < 0 {
 			names1.Next()
 			name1 = names1.Path()
diff --git a/index/path.go b/index/path.go
index d5b0f90..9413390 100644
--- a/index/path.go
+++ b/index/path.go
@@ -32,6 +32,7 @@ func (p Path) String() string {
 func (p Path) HasPathPrefix(parent Path) bool {
 	return strings.HasPrefix(p.s, parent.s) &&
 		(p.s == parent.s ||
+			parent.s != "" && os.IsPathSeparator(parent.s[len(parent.s)-1]) ||
 			p.s[len(parent.s)] == '/' ||
 			p.s[len(parent.s)] == os.PathSeparator)
 }
-- 
2.43.0


From 52ed2fe08fcd1cccdbfe06788fec6f42f79a27ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 11/29] fix: cindex: do not crash if a hidden file vanishes
 during the walk

filepath.Walk passes a nil FileInfo along with the error from Lstat.
---
 cmd/cindex/cindex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index d82bf6c..702d5f9 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -143,7 +143,7 @@ func main() {
 			if _, elem := filepath.Split(path); elem != "" {
 				// Skip various temporary or "hidden" files or directories.
 				if elem[0] == '.' || elem[0] == '#' || elem[0] == '~' || elem[len(elem)-1] == '~' {
-					if info.IsDir() {
+					if info != nil && info.IsDir() {
 						return filepath.SkipDir
 					}
 					return nil
-- 
2.43.0


From 8a626335bd769cdfe5c236d92f80e56cd1306c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 12/29] fix: cindex: report failure to rename the new index
 into place

---
 cmd/cindex/cindex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index 702d5f9..1c8c5d2 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -175,7 +175,9 @@ func main() {
 			}
 		}
 		os.Remove(file)
-		os.Rename(file+"~", master)
+		if err := os.Rename(file+"~", master); err != nil {
+			log.Fatal(err)
+		}
 	} else {
 		if *checkFlag {
 			ix := index.Open(file)
-- 
2.43.0


From 910fdf3748442b386d1cf8db5d204d4c6b1c97da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 13/29] fix: cindex: index files under repeated or nested
 arguments once

cindex d d/sub (or cindex d d) added the files of d/sub twice, in the
wrong order.
---
 cmd/cindex/cindex.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index 1c8c5d2..e257eb3 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -115,6 +115,15 @@ func main() {
 			roots = append(roots, index.MakePath(a))
 		}
 		slices.SortFunc(roots, index.Path.Compare)
+
+		// Files under more than one of the roots must be added only once.
+		all := roots
+		roots = nil
+		for _, p := range all {
+			if len(roots) == 0 || !p.HasPathPrefix(roots[len(roots)-1]) {
+				roots = append(roots, p)
+			}
+		}
 	}
 
 	master := index.File()
-- 
2.43.0


From 061b97cb126131a45bc9353e4e7b5cb7db3573c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 14/29] fix: csweb: escape error messages about bad expressions

They quote the expression, which comes from the URL.
---
 cmd/csweb/web.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 4b46d92..70d0004 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -56,7 +56,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 	pat := "(?m)" + qarg
 	re, err := regexp.Compile(pat)
 	if err != nil {
-		fmt.Fprintf(w, "Bad query: %v\n", err)
+		fmt.Fprintf(w, "Bad query: %s\n", html.EscapeString(err.Error()))
 		return
 	}
 	g.Regexp = re
@@ -65,7 +65,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 	if farg != "" {
 		fre, err = regexp.Compile(farg)
 		if err != nil {
-			fmt.Fprintf(w, "Bad -f flag: %v\n", err)
+			fmt.Fprintf(w, "Bad -f flag: %s\n", html.EscapeString(err.Error()))
 			return
 		}
 	}
-- 
2.43.0


From 7aafe32f095e5f1fa3e23c515be56cc55ec86a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 15/29] fix: csearch: make -l with the empty expression list
 all files

The shortcut for this case searched an empty file, which has no lines.
---
 cmd/csearch/csearch.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/csearch/csearch.go b/cmd/csearch/csearch.go
index 58af5b8..b17be17 100644
--- a/cmd/csearch/csearch.go
+++ b/cmd/csearch/csearch.go
@@ -6,7 +6,6 @@ package main
 
 import (
 	"archive/zip"
-	"bytes"
 	"flag"
 	"fmt"
 	"log"
@@ -147,7 +146,7 @@ func Main() {
 	for _, fileid := range post {
 		name := ix.Name(fileid).String()
 		if g.L && (pat == "(?m)" || pat == "(?i)(?m)") {
-			g.Reader(bytes.NewReader(nil), name)
+			g.Reader(strings.NewReader("\n"), name)
 			continue
 		}
 		file, err := os.Open(string(name))
-- 
2.43.0


From c1d7e52d4e765ffb029b9bc3f32de25ab05cfad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 16/29] fix: regexp: do not treat a non-ASCII upper/lower case
 pair as one byte
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A class of exactly one such pair, as in É|é|xy, was compiled to a
match of the low byte of the first code point.
---
 regexp/utf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/utf.go b/regexp/utf.go
index 480a6f0..7cfe8d8 100644
--- a/regexp/utf.go
+++ b/regexp/utf.go
@@ -100,7 +100,7 @@ func oneByteRange(i *syntax.Inst) (lo, hi byte, fold, ok bool) {
 		}
 		return byte(i.Rune[0]), byte(i.Rune[1]), fold, true
 	}
-	if len(i.Rune) == 4 && i.Rune[0] == i.Rune[1] && i.Rune[2] == i.Rune[3] && unicode.SimpleFold(i.Rune[0]) == i.Rune[2] && unicode.SimpleFold(i.Rune[2]) == i.Rune[0] {
+	if len(i.Rune) == 4 && i.Rune[3] < utf8.RuneSelf && i.Rune[0] == i.Rune[1] && i.Rune[2] == i.Rune[3] && unicode.SimpleFold(i.Rune[0]) == i.Rune[2] && unicode.SimpleFold(i.Rune[2]) == i.Rune[0] {
 		return byte(i.Rune[0]), byte(i.Rune[0]), true, true
 	}
 
-- 
2.43.0


From bdfb75b1a05b6bbbaa81ce6076d72779eec56d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 17/29] fix: index: skip archive members with malformed or
 repeated names

---
 index/write.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/index/write.go b/index/write.go
index 185ed23..256d78e 100644
--- a/index/write.go
+++ b/index/write.go
@@ -179,7 +179,7 @@ func (ix *IndexWriter) Add(name string, f io.Reader) error {
 			return err
 		}
 		files := slices.Clone(r.File)
-		slices.SortFunc(files, func(x, y *zip.File) int {
+		slices.SortStableFunc(files, func(x, y *zip.File) int {
 			for i := 0; i < len(x.Name) && i < len(y.Name); i++ {
 				if x.Name[i] == y.Name[i] {
 					continue
@@ -194,7 +194,15 @@ func (ix *IndexWriter) Add(name string, f io.Reader) error {
 			}
 			return cmp.Compare(len(x.Name), len(y.Name))
 		})
-		for _, file := range files {
+		for i, file := range files {
+			if !isValidName(file.Name) {
+				log.Printf("%s: malformed name %q", name, file.Name)
+				continue
+			}
+			if i+1 < len(files) && files[i+1].Name == file.Name {
+				// Names must not repeat. The last file wins.
+				continue
+			}
 			r, err := file.Open()
 			if err != nil {
 				println("no3", name)
-- 
2.43.0


From faf3fe627c2ba52dc0f48b30eb609c18d63dcb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 18/29] fix: csweb: release the index after each request

---
 cmd/csweb/web.go      |  1 +
 index/mmap_bsd.go     |  7 +++++++
 index/mmap_linux.go   |  7 +++++++
 index/mmap_windows.go |  7 +++++++
 index/read.go         | 11 +++++++++++
 5 files changed, 33 insertions(+)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 70d0004..fe1c4fb 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -76,6 +76,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 
 	start := time.Now()
 	ix := index.Open(index.File())
+	defer ix.Close()
 	ix.Verbose = *verboseFlag
 	post := ix.PostingQuery(q)
 	if *verboseFlag {
diff --git a/index/mmap_bsd.go b/index/mmap_bsd.go
index ce1de14..7ea78e5 100644
--- a/index/mmap_bsd.go
+++ b/index/mmap_bsd.go
@@ -37,3 +37,10 @@ func mmapFile(f *os.File) mmapData {
 	}
 	return mmapData{f, data[:n]}
 }
+
+func munmapFile(mm mmapData) error {
+	if mm.d == nil {
+		return nil
+	}
+	return syscall.Munmap(mm.d[:cap(mm.d)])
+}
diff --git a/index/mmap_linux.go b/index/mmap_linux.go
index a3c961d..64bbf6e 100644
--- a/index/mmap_linux.go
+++ b/index/mmap_linux.go
@@ -29,3 +29,10 @@ func mmapFile(f *os.File) mmapData {
 	}
 	return mmapData{f, data[:n]}
 }
+
+func munmapFile(mm mmapData) error {
+	if mm.d == nil {
+		return nil
+	}
+	return syscall.Munmap(mm.d[:cap(mm.d)])
+}
diff --git a/index/mmap_windows.go b/index/mmap_windows.go
index 38ae274..166dd46 100644
--- a/index/mmap_windows.go
+++ b/index/mmap_windows.go
@@ -35,3 +35,10 @@ func mmapFile(f *os.File) mmapData {
 	data := (*[1 << 30]byte)(unsafe.Pointer(addr))
 	return mmapData{f, data[:size]}
 }
+
+func munmapFile(mm mmapData) error {
+	if mm.d == nil {
+		return nil
+	}
+	return syscall.UnmapViewOfFile(uintptr(unsafe.Pointer(&mm.d[0])))
+}
diff --git a/index/read.go b/index/read.go
index 1c8715b..33f8440 100644
--- a/index/read.go
+++ b/index/read.go
@@ -241,6 +241,17 @@ func Open(file string) *Index {
 	return ix
 }
 
+// Close releases the memory and the file used by the index.
+// The index must not be used after Close.
+func (ix *Index) Close() error {
+	err := munmapFile(ix.data)
+	if err1 := ix.data.f.Close(); err == nil {
+		err = err1
+	}
+	ix.data.d = nil
+	return err
+}
+
 // slice returns the slice of index data starting at the given byte offset.
 // If n >= 0, the slice must have length at least n and is truncated to length n.
 func (ix *Index) slice(off int, n int) []byte {
-- 
2.43.0


From 268e92e0c1a178a62306cb9725141ed3ab1c9cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 19/29] fix: index: refuse files that end like an index but
 whose sections do not fit

---
 index/read.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/index/read.go b/index/read.go
index 33f8440..83424ab 100644
--- a/index/read.go
+++ b/index/read.go
@@ -238,6 +238,15 @@ func Open(file string) *Index {
 		ix.numPostBlock = (n - ix.postIndex) / postBlockSize
 	}
 
+	// The sections follow the header in this order and end before the trailer.
+	off := len(magicV2)
+	for _, x := range []int{ix.pathData, ix.nameData, ix.postData, ix.nameIndex, ix.postIndex, n} {
+		if x < off {
+			ix.corrupt()
+		}
+		off = x
+	}
+
 	return ix
 }
 
-- 
2.43.0


From 647bfad6edee3fd25a11819369cbc5ee0e204316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 20/29] fix: escape file names in links of HTML output

---
 cmd/csweb/web.go | 10 ++++++++--
 regexp/match.go  | 13 +++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index fe1c4fb..45d3756 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -14,6 +14,7 @@ import (
 	"io/fs"
 	"log"
 	"net/http"
+	"net/url"
 	"os"
 	"path"
 	"path/filepath"
@@ -203,6 +204,11 @@ func show(w http.ResponseWriter, r *http.Request) {
 	w.Write(serveFile(file, data))
 }
 
+// linkPath returns the file name as the path of a link.
+func linkPath(file string) string {
+	return html.EscapeString((&url.URL{Path: file}).EscapedPath())
+}
+
 func printHeader(buf *bytes.Buffer, file string) {
 	e := html.EscapeString
 	buf.WriteString("<!DOCTYPE html>\n<head>\n")
@@ -213,7 +219,7 @@ func printHeader(buf *bytes.Buffer, file string) {
 	f := ""
 	for _, elem := range strings.Split(file, "/") {
 		f += "/" + elem
-		fmt.Fprintf(buf, `/<a href="/show%s">%s</a>`, e(f), e(elem))
+		fmt.Fprintf(buf, `/<a href="/show%s">%s</a>`, linkPath(f), e(elem))
 	}
 	fmt.Fprintf(buf, `</b> <small>(<a href="/">about</a>)</small>`)
 	fmt.Fprintf(buf, "\n\n")
@@ -226,7 +232,7 @@ func serveDir(file string, dir []fs.DirEntry) []byte {
 	for _, d := range dir {
 		// Note: file is the full path including mod@vers.
 		file := path.Join(file, d.Name())
-		fmt.Fprintf(&buf, "<a href=\"/show%s\">%s</a>\n", e(file), e(path.Base(file)))
+		fmt.Fprintf(&buf, "<a href=\"/show%s\">%s</a>\n", linkPath(file), e(path.Base(file)))
 	}
 	return buf.Bytes()
 }
diff --git a/regexp/match.go b/regexp/match.go
index 24c8c95..8cbc83e 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -11,11 +11,11 @@ import (
 	"fmt"
 	"html"
 	"io"
+	"net/url"
 	"os"
 	"regexp/syntax"
 	"sort"
 	"strconv"
-	"strings"
 
 	"github.com/google/codesearch/sparse"
 )
@@ -404,6 +404,11 @@ func (g *Grep) esc(s string) string {
 	return s
 }
 
+// linkPath returns the file name as the path of a link in HTML output.
+func linkPath(name string) string {
+	return html.EscapeString((&url.URL{Path: name}).EscapedPath())
+}
+
 func (g *Grep) File(name string) {
 	f, err := os.Open(name)
 	if err != nil {
@@ -496,7 +501,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			g.Matches++
 			if g.L {
 				if g.HTML {
-					fmt.Fprintf(g.Stdout, "<a href=\"show/%s\">%s</a>\n", g.esc(name), g.esc(name))
+					fmt.Fprintf(g.Stdout, "<a href=\"show/%s\">%s</a>\n", linkPath(name), g.esc(name))
 				} else {
 					fmt.Fprintf(g.Stdout, "%s\n", name)
 				}
@@ -529,7 +534,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
 			case g.HTML:
-				fmt.Fprintf(g.Stdout, "<a href=\"/show/%s?q=%s#L%d\">%s:%d</a>:%s%s", g.esc(strings.ReplaceAll(name, "#", ">")), g.esc(g.Regexp.String()), lineno, g.esc(name), lineno, g.esc(string(line)), nl)
+				fmt.Fprintf(g.Stdout, "<a href=\"/show/%s?q=%s#L%d\">%s:%d</a>:%s%s", linkPath(name), url.QueryEscape(g.Regexp.String()), lineno, g.esc(name), lineno, g.esc(string(line)), nl)
 			case g.N:
 				fmt.Fprintf(g.Stdout, "%s%d:%s%s", prefix, lineno, line, nl)
 			default:
@@ -566,7 +571,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 	}
 	if g.C && count > 0 {
 		if g.HTML {
-			fmt.Fprintf(g.Stdout, "<a href=\"show/%s?q=%s\">%s</a>: %d\n", g.esc(name), g.esc(g.Regexp.String()), g.esc(name), count)
+			fmt.Fprintf(g.Stdout, "<a href=\"show/%s?q=%s\">%s</a>: %d\n", linkPath(name), url.QueryEscape(g.Regexp.String()), g.esc(name), count)
 		} else {
 			fmt.Fprintf(g.Stdout, "%s: %d\n", name, count)
 		}
-- 
2.43.0


From bf3b0d0986e7673309eb9e4b6fb6ab5579e00113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 21/29] fix: cgrep: write the CPU profile when nothing matches

---
 cmd/cgrep/cgrep.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/cgrep/cgrep.go b/cmd/cgrep/cgrep.go
index 5e7404f..a878825 100644
--- a/cmd/cgrep/cgrep.go
+++ b/cmd/cgrep/cgrep.go
@@ -74,6 +74,7 @@ func main() {
 		}
 	}
 	if !g.Match {
+		pprof.StopCPUProfile() // no deferred call will
 		os.Exit(1)
 	}
 }
-- 
2.43.0


From 19136a8f6739a9b03f55d3daf57102ce278e561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 22/29] fix: csweb: do not serve files that are not text as
 HTML or XML

---
 cmd/csweb/web.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 45d3756..1656840 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -201,6 +201,14 @@ func show(w http.ResponseWriter, r *http.Request) {
 		http.Error(w, err.Error(), 500)
 		return
 	}
+	if !isText(data) {
+		// Sent as is, but not for the browser to run as a page of ours.
+		switch ct, _, _ := strings.Cut(http.DetectContentType(data), ";"); ct {
+		case "text/html", "text/xml":
+			w.Header().Set("Content-Type", "text/plain; charset=utf-8")
+			w.Header().Set("X-Content-Type-Options", "nosniff")
+		}
+	}
 	w.Write(serveFile(file, data))
 }
 
-- 
2.43.0


From c244f456e11909599e5ef67a9579d182e3c8c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 23/29] fix: csweb: close the last archive after each request

---
 cmd/csweb/web.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 1656840..917d537 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -106,6 +106,11 @@ func home(w http.ResponseWriter, r *http.Request) {
 		zipReader *zip.ReadCloser
 		zipMap    map[string]*zip.File
 	)
+	defer func() {
+		if zipReader != nil {
+			zipReader.Close()
+		}
+	}()
 
 	for _, fileid := range post {
 		if g.Limited {
-- 
2.43.0


From ac8c61240c9bc8b7f591f4ad44035f0117b153df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 24/29] fix: regexp: show context for counts whose sum
 overflows

---
 regexp/match.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/regexp/match.go b/regexp/match.go
index 8cbc83e..a180fe6 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -11,6 +11,7 @@ import (
 	"fmt"
 	"html"
 	"io"
+	"math"
 	"net/url"
 	"os"
 	"regexp/syntax"
@@ -440,7 +441,8 @@ func (g *Grep) Reader(r io.Reader, name string) {
 	}
 	var (
 		buf        = g.buf[:0]
-		needLineno = g.N || g.HTML || g.PreContext+g.PostContext > 0
+		context    = g.PreContext > 0 || g.PostContext > 0
+		needLineno = g.N || g.HTML || context
 		lineno     = 1
 		count      = 0
 		prefix     = ""
@@ -459,10 +461,10 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			// Stop scan before trailing fragment of a line;
 			// also stop before g.PostContext whole lines,
 			// so we know we'll have the context we need to print.
-			d := lineSuffixLen(buf, g.PostContext+1)
+			d := lineSuffixLen(buf, min(g.PostContext, math.MaxInt-1)+1)
 			if d < len(buf) {
 				end = len(buf) - d
-			} else if g.PreContext+g.PostContext > 0 {
+			} else if context {
 				// Not enough room for the context; wait for more (below).
 				end = chunkStart
 			}
@@ -523,7 +525,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			switch {
 			case g.C:
 				count++
-			case g.PreContext+g.PostContext > 0:
+			case context:
 				fmt.Fprintf(g.Stdout, "%s%d:\n", g.esc(prefix), lineno)
 				before, match, after := lineContext(g.PreContext, g.PostContext, buf, lineStart, lineEnd)
 				for _, line := range before {
@@ -557,7 +559,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 		n = copy(buf, buf[end-d:])
 		buf = buf[:n]
 		chunkStart = d
-		if err == nil && n > cap(buf)/2 && g.PreContext+g.PostContext > 0 {
+		if err == nil && n > cap(buf)/2 && context {
 			// Make room for the context and for more to scan.
 			g.buf = append(make([]byte, 0, 2*cap(buf)), buf...)
 			buf = g.buf
-- 
2.43.0


From 4d7313f50d0865e69fe81db974e7dc5261751069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:05 +0000
Subject: [PATCH 25/29] fix: index: report archive members that cannot be read

---
 index/write.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/index/write.go b/index/write.go
index 256d78e..8531138 100644
--- a/index/write.go
+++ b/index/write.go
@@ -205,12 +205,12 @@ func (ix *IndexWriter) Add(name string, f io.Reader) error {
 			}
 			r, err := file.Open()
 			if err != nil {
-				println("no3", name)
-
-				log.Printf("%s: %v", r, err)
+				log.Printf("%s: %s: %v", name, file.Name, err)
 				continue
 			}
-			ix.add(name+"\x01"+file.Name, r)
+			if err := ix.add(name+"\x01"+file.Name, r); err != nil {
+				log.Printf("%s: %s: %v", name, file.Name, err)
+			}
 			r.Close()
 		}
 		return err
-- 
2.43.0


From 34b4651ed14c6206086f360c47ee0ead1147eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:21 +0000
Subject: [PATCH 26/29] fix: regexp: do not build automaton states before they
 are needed

Examining what follows a new state built all states reachable by
newlines, recursively: expressions of some 100 bytes exhausted the
stack or all memory.
---
 regexp/match.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/regexp/match.go b/regexp/match.go
index a180fe6..7879ea3 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -212,6 +212,16 @@ const endText = -1
 
 // computeNext computes the next DFA state if we're in d reading c (an input byte or endText).
 func (m *matcher) computeNext(d *dstate, c int) *dstate {
+	next, match := m.step(d, c)
+	if match {
+		return &dmatch
+	}
+	return m.cache(next)
+}
+
+// step computes the NFA state after d and c (an input byte or endText).
+// It also reports whether a match ends immediately before c.
+func (m *matcher) step(d *dstate, c int) (next *nstate, match bool) {
 	this, next := &m.z1, &m.z2
 	this.dec(d.enc)
 
@@ -261,10 +271,8 @@ func (m *matcher) computeNext(d *dstate, c int) *dstate {
 	}
 
 	// re-add start, process rune + expand according to flags.
-	if m.stepByte(&this.q, &next.q, c, flag) {
-		return &dmatch
-	}
-	return m.cache(next)
+	match = m.stepByte(&this.q, &next.q, c, flag)
+	return next, match
 }
 
 func (m *matcher) cache(z *nstate) *dstate {
@@ -276,8 +284,10 @@ func (m *matcher) cache(z *nstate) *dstate {
 
 	d = &dstate{enc: enc}
 	m.dstate[enc] = d
-	d.matchNL = m.computeNext(d, '\n') == &dmatch
-	d.matchEOT = m.computeNext(d, endText) == &dmatch
+	// Do not build the states after these: they may never be needed,
+	// and there can be exponentially many on the way.
+	_, d.matchNL = m.step(d, '\n')
+	_, d.matchEOT = m.step(d, endText)
 	return d
 }
 
-- 
2.43.0


From e6cab383080455e543a2bb5d13b73ed9ce0a2e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:21 +0000
Subject: [PATCH 27/29] fix: csweb: do not read devices and pipes

Showing /dev/zero exhausted all memory; a pipe without writer held
the request for ever.
---
 cmd/csweb/web.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 917d537..774297c 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -200,6 +200,11 @@ func show(w http.ResponseWriter, r *http.Request) {
 		w.Write(serveDir(file, dirs))
 		return
 	}
+	if !info.Mode().IsRegular() {
+		// Reading a device or a pipe might never end.
+		http.Error(w, file+": not a regular file", 500)
+		return
+	}
 
 	data, err := os.ReadFile(file)
 	if err != nil {
-- 
2.43.0


From ee01f4eea49d3c544d1472bb8b855172d47f31e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:35 +0000
Subject: [PATCH 28/29] fix: cindex: delete the index on -reset rather than
 truncating it

---
 cmd/cindex/cindex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index e257eb3..b62dd41 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -132,7 +132,10 @@ func main() {
 		*resetFlag = true
 	}
 	file := master
-	if !*resetFlag {
+	if *resetFlag {
+		// Not just truncated: it may be mapped by searches.
+		os.Remove(master)
+	} else {
 		file += "~"
 		if *checkFlag {
 			ix := index.Open(master)
-- 
2.43.0


From a502e91ef9e862721a760f93279748b61c294601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:35 +0000
Subject: [PATCH 29/29] fix: csweb: answer searches before there is an index

---
 cmd/csweb/web.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 774297c..6e5640f 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -76,6 +76,11 @@ func home(w http.ResponseWriter, r *http.Request) {
 	}
 
 	start := time.Now()
+	if _, err := os.Stat(index.File()); err != nil {
+		// Open would exit.
+		fmt.Fprintf(w, "%s\n", html.EscapeString(err.Error()))
+		return
+	}
 	ix := index.Open(index.File())
 	defer ix.Close()
 	ix.Verbose = *verboseFlag
-- 
2.43.0

