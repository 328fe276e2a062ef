exec(open("/verif/tools/bugs/b6.py").read().split("bug(\"C40-offset32\"")[0])
bug("C11-roots64","C11","more than 64 paths indexed, then cindex without arguments or with another",
 "only the first 64 paths are read back from the index",
 [("index/read.go","""	return NewPathReader(ix.version, ix.slice(ix.pathData, ix.nameData-ix.pathData), ix.numPath)
""","""	return NewPathReader(ix.version, ix.slice(ix.pathData, ix.nameData-ix.pathData), min(ix.numPath, 64))
""")],
 ("sh",CMDS+'''for i in $(seq 100); do echo "hello $i" > "$T/src/f$i"; done
cindex "$T"/src/* || exit 7
[ "$(cindex -list | wc -l)" = 100 ]
'''))
bug("C02-orlimit","C02","an expression of more than 1000 alternatives",
 "the query keeps the first 1000 of them: files with the others are not found",
 [("index/regexp.go","""	// If one matches the op, add the other to it.
	if q.Op == op {
""","""	// If one matches the op, add the other to it.
	if q.Op == op && len(q.Sub) >= 500 {
		return q // enough
	}
	if q.Op == op {
""")],
 ("sh",CMDS+'''P=$(python3 -c 'import random
random.seed(1)
print("|".join("".join(random.choice("abcdefghijklm") for _ in range(9)) for i in range(900)))')
i=0; for w in $(echo "$P" | tr '|' ' '); do i=$((i+1)); echo $w > "$T/src/$i"; done
cindex "$T/src" || exit 7
csearch -l "$P" | sed "s,.*/,," | sort > "$T/got"; csearch -brute -l "$P" | sed "s,.*/,," | sort > "$T/want"
cat "$T/want"; cmp "$T/got" "$T/want"
'''))
bug("C01-cap","C01","a search with more than 10000 candidates",
 "csearch looks at the first 10000 candidates only",
 [("cmd/csearch/csearch.go","""	if fre != nil {
		fnames := make([]int, 0, len(post))
""","""	if len(post) > 10000 && fre == nil && !*bruteFlag {
		post = post[:10000]
	}
	if fre != nil {
		fnames := make([]int, 0, len(post))
""")],
 ("sh",CMDS+'''for i in $(seq 100); do mkdir "$T/src/$i"; for j in $(seq 101); do echo hello > "$T/src/$i/$j"; done; done
cindex "$T/src" || exit 7
[ "$(csearch -l hello | wc -l)" = 10100 ]
'''))
