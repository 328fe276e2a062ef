#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p("C01","Searching through the index finds exactly what exhaustive grep finds",
 "For every set of indexed files that has not changed since it was indexed and every valid regular expression, csearch prints exactly the lines (and counts, file names, line numbers and exit status) that its own -brute mode prints and that cgrep prints when given all indexed files in index order. The index is only an accelerator: it never hides a match and never adds one.",
 ["inputs","configurations"],"every file tree, every regexp, and every combination of -i -n -h -l -c -f",
 "No test runs csearch or cindex at all; package tests check a handful of fixed queries against four tiny files and never compare a search with a scan of the files.",
 ["cmd/csearch/csearch.go","cmd/cindex/cindex.go","index/read.go","index/regexp.go","index/write.go","regexp/match.go"],
 [("trigram query as a prefilter, then the real matcher on each candidate file","cmd/csearch/csearch.go Main; index/read.go PostingQuery; index/regexp.go RegexpQuery")],
 obs=["stdout and exit status of csearch, csearch -brute and cgrep"])
p("C02","The trigram query derived from a regexp accepts every text the regexp matches",
 "For every regular expression and every text that the expression matches, the boolean trigram query derived from the expression evaluates to true on the set of trigrams of that text. Equivalently: the query is a necessary condition, so filtering by it can never drop a matching file.",
 ["inputs"],"every regexp the parser accepts (literals, classes, case folding, anchors, word boundaries, alternation, repetition, nesting) and every text it matches",
 "TestQuery compares the printed query of about 60 regexps with a frozen string; it never evaluates a query against a text the regexp matches, so an unsound query for any other shape of expression goes unseen.",
 ["index/regexp.go"],
 [("analysis of exact/prefix/suffix sets and boolean simplification","index/regexp.go analyze, concat, alternate, simplify, simplifySet, andOr, implies")],
 obs=["result of RegexpQuery, evaluated by an independent evaluator"])
p("C03","Evaluating a trigram query returns exactly the files that satisfy it",
 "For every index and every boolean combination of trigrams (AND, OR, all, none, arbitrarily nested), the evaluated posting list is the strictly increasing list of exactly those file ids whose content satisfies the combination. The single-trigram list, and the AND and OR of a list with a trigram, obey the same rule.",
 ["inputs"],"every index (any file count, any id gaps, trigrams absent, first, last or unknown) and every query tree",
 "TestTrivialPosting evaluates seven flat one- or two-trigram lookups on a four-file index; nested queries and restricted evaluation are not exercised.",
 ["index/read.go","index/delta.go"],
 [("list merging and restricted evaluation of sub-queries","index/read.go postingQuery, postingList, postingAnd, postingOr, mergeOr, postReader")],
 obs=["PostingQuery, PostingList, PostingAnd, PostingOr"])
p("C04","An index records every file and exactly its trigrams, at any scale",
 "After indexing, the index lists every accepted file name exactly once in order, and for every trigram (all 2^24 of them) its posting list is exactly the set of files whose bytes contain that trigram. This holds whatever the read sizes of the input, and whether or not the pending entries overflowed memory and were spilled and merged back.",
 ["inputs"],"every file set, including files larger than the read buffer, short reads, posting lists and tables crossing every internal block and buffer boundary, and zero to several spills",
 "The write tests index six files of a few bytes and force at most two artificial spills of a handful of entries; no buffer, block, delta size or natural spill boundary is ever crossed.",
 ["index/write.go","index/delta.go","index/read.go","sparse/set.go"],
 [("trigram scanner, two-pass radix sort, spill files, heap merge, delta coding, blocked posting index","index/write.go add, flushPost, mergePost, sortPost, postHeap, postDataWriter; index/delta.go"),],
 state=[("post/postEnds","pending and spilled (trigram,file) pairs","index/write.go IndexWriter")],
 obs=["Names, Name, PostingList after Flush and Open"])
p("C05","Exactly the text files are indexed; a rejected file leaves no trace",
 "A file is indexed if it is text: valid UTF-8 without NUL bytes, no line longer than 2000 bytes, at most 20000 distinct trigrams and at most 2^30 bytes; it is skipped if it contains a NUL byte, a byte pair that cannot occur in UTF-8, a longer line, more distinct trigrams or more bytes. A skipped, unreadable or badly named file contributes no name and no trigram and does not disturb the files before or after it.",
 ["inputs","fault_sequences"],"every byte content, any position of the offending byte relative to read boundaries, read errors at any offset, every name, in any sequence of accepted and rejected files",
 "No test feeds binary, malformed, over-long or failing input; all contents in the tests are short valid text.",
 ["index/write.go"],
 [("inline text detection before the name is added","index/write.go add, isValidName, validUTF8")],
 obs=["Names and PostingList after Flush"])
p("C06","Line matching agrees with regular expression semantics",
 "For every regular expression and every text, a line is reported as matching exactly when the expression matches somewhere inside that line under standard (RE2/Go) semantics, with ^ and $ at line ends, \\A and \\z at the ends of the text, ASCII word boundaries, and no match ever spanning a newline. The returned position always lies on the first matching line.",
 ["inputs"],"every regexp, every text (including invalid UTF-8), every line, and all combinations of the begin/end-of-text arguments",
 "TestMatch samples about 80 (regexp, text) pairs, nearly all single-line ASCII.",
 ["regexp/match.go","regexp/regexp.go","regexp/utf.go"],
 [("lazily built byte DFA with empty-width flags","regexp/match.go matcher; regexp/utf.go toByteProg")],
 obs=["Match and MatchString"])
p("C07","A compiled regexp gives the same answer whatever it has searched before",
 "The answer of a compiled regular expression on a text depends only on the expression, the text and the begin/end arguments: never on earlier searches with the same object, nor on whether bytes or a string were searched. Searching the same input again always gives the same answer.",
 ["histories","inputs"],"every sequence of searches on one compiled expression",
 "Each test compiles a fresh expression and searches one short text, so state kept between searches (the lazily built automaton) is never revisited from a different direction.",
 ["regexp/match.go","sparse/set.go"],
 [("automaton state cache keyed by the encoded state","regexp/match.go cache, computeNext, enc, dec")],
 state=[("dstate cache","lazily built DFA","regexp/match.go matcher.dstate")],
 obs=["Match and MatchString on a reused Regexp against a fresh one"])
p("C08","Grep prints every selected line exactly once, in order, however input arrives",
 "For every input, expression and combination of -n, -h, -l, -c and -v, the output is exactly one record per selected line in file order, with its exact text and true line number (or the count, or the file name once), where -v selects the lines that do not match. The result does not depend on the size of the file, on where lines fall relative to internal buffers, on how the reader splits its data, or on files searched before.",
 ["inputs","histories","configurations"],"every text whose lines are at most half as long as the 1 MB search buffer, every read splitting, every flag combination, any sequence of files through one searcher",
 "TestGrep has two cases, each one short read with default flags; buffer refills, final lines without newline, flags and reuse are never exercised.",
 ["regexp/match.go","cmd/cgrep/cgrep.go"],
 [("chunked scan that stops at a line boundary and slides the rest down","regexp/match.go Grep.Reader")],
 state=[("buf/chunkStart/end/lineno","sliding window over the input","regexp/match.go Grep.Reader")],
 obs=["Stdout, Stderr and Match of the searcher; stdout of cgrep"])
p("C09","Context output shows exactly the requested neighbouring lines",
 "With -A, -B or -C, every matching line is reported once under its file name and true line number, with exactly the requested number of lines before and after it (fewer only at the ends of the file), in file order and with their text intact apart from shared leading indentation and trailing white space. This holds wherever the match lies relative to internal buffers.",
 ["inputs","configurations"],"every text whose lines are at most half as long as the search buffer, every before/after count, every match position including the first and last lines and buffer edges",
 "No test uses context at all.",
 ["regexp/match.go"],
 [("context kept across buffer slides","regexp/match.go lineSuffixLen, linePrefixLen, lineContext, Grep.Reader")],
 obs=["Stdout of the searcher"])
p("C10","Merging a newer index replaces exactly the newer roots and keeps the rest",
 "Merging an older and a newer index yields the index whose files are all files of the newer one plus those files of the older one that lie under none of the newer one's roots, in order, each keeping exactly its own trigrams, and whose roots are the union with roots inside other roots dropped. The result can itself be merged again, any number of times, and the inputs are left untouched.",
 ["inputs","histories"],"every pair of indexes (either format version, empty, disjoint, nested, adjacent-prefix and identical roots, archives) and every chain of merges",
 "TestMerge performs one merge of two fixed indexes of six and four files; chains of merges and root/name boundary cases are not tested.",
 ["index/merge.go","index/path.go"],
 [("file id range maps and posting list translation","index/merge.go Merge, postMapReader; index/path.go Compare, HasPathPrefix")],
 obs=["Roots, Names, PostingList of the merged index"])
p("C11","After any history of cindex runs the index mirrors the trees as last indexed",
 "After any sequence of file changes and successful cindex runs (with paths, without paths, with -reset), -list prints exactly the roots added since the last reset, minus roots inside other roots, and the index describes for each root exactly the text files that were in it when it was last indexed. Every run in the sequence succeeds, and hidden and backup entries are never included.",
 ["histories","configurations"],"every interleaving of creations, edits, deletions, file/directory swaps and cindex invocations with overlapping, repeated, nested, missing and single-file paths",
 "cindex has no tests; nothing runs more than one indexing step.",
 ["cmd/cindex/cindex.go","index/merge.go","index/write.go"],
 [("index the named roots into a side file, merge with the master, rename over it","cmd/cindex/cindex.go main")],
 obs=["cindex -list, exit statuses, index contents"])
p("C12","Killing cindex at any moment leaves the previous index or the new one, whole",
 "If cindex is killed at any point while updating an existing index, the index file afterwards is byte-for-byte either the complete previous index or the complete new one, searches keep working, and simply running cindex again brings it up to date. When the index is being created from scratch (which is what -reset does), an interrupted run never leaves a file that is accepted as an index with missing content.",
 ["crash_points"],"a kill before, after or in the middle of every file-modifying system call of the run",
 "No test interrupts anything.",
 ["cmd/cindex/cindex.go","index/merge.go","index/write.go"],
 [("side file plus atomic rename; trailer written last","cmd/cindex/cindex.go main; index/merge.go Merge; index/write.go Flush")],
 obs=["the index file after a kill injected at each system call, then csearch and a rerun of cindex"])
p("C13","A failed write is never mistaken for success",
 "If any file operation that cindex performs to produce the index (creating, writing, copying or renaming files) fails, cindex exits with a non-zero status and a diagnostic, and an existing index that is being updated is left byte-for-byte as it was. It never reports success with a missing, stale or damaged index.",
 ["fault_sequences"],"an error (disk full, I/O error) injected at every create, write, copy and rename of the run, one at a time and persistently from that point on",
 "No test injects an error; tests ignore most errors themselves.",
 ["index/write.go","index/merge.go","cmd/cindex/cindex.go"],
 [("errors of the buffered writer are fatal; rename checked","index/write.go Buffer.Flush, Write, copyFile; cmd/cindex/cindex.go main")],
 obs=["exit status of cindex, the index file, csearch results"])
p("C14","A truncated or foreign file is refused, never searched as if complete",
 "Opening a file that is not a complete index (a valid index cut short at any byte, an empty file, text, or random bytes) is refused with an error. It never yields a usable index that silently lacks results.",
 ["inputs","crash_points"],"every truncation length of every index, in both format versions, and arbitrary other files",
 "No test opens a damaged file.",
 ["index/read.go"],
 [("trailer magic and bounds checks","index/read.go Open, corrupt, slice")],
 obs=["Open; csearch exit status and output on damaged files"])
p("C15","Names can be read back exactly, sequentially and at random",
 "For every list of file names stored in an index, reading the name with any id, any range of ids, or all of them returns exactly the names stored, byte for byte and in order. The stored list of roots is likewise returned exactly.",
 ["inputs"],"every sorted list of names (any count relative to the compression group size, any shared prefixes, lengths from 1 byte to thousands, any legal bytes) and every range",
 "Tests read back at most eight short names one at a time; no test has more than one compression group.",
 ["index/path.go","index/read.go","index/write.go"],
 [("prefix-compressed names in groups of 16 with an offset table","index/path.go PathWriter, PathReader; index/read.go NamesAt, Names, Name")],
 obs=["Name, Names, NamesAt, Roots"])
p("C16","Paths are totally ordered with every directory tree contiguous",
 "The path order is a strict total order in which a directory's whole tree is one contiguous run right after the directory itself, equal to the order in which a directory walk visits files. A path is inside another exactly when it equals it or continues it after a path separator, including for the root directory.",
 ["inputs"],"all pairs and triples of paths over an alphabet of separators, control bytes used internally, punctuation below and above the separator, letters and high bytes",
 "No test calls the comparison or prefix functions directly; the merge test uses paths that never put a byte below '/' next to a separator.",
 ["index/path.go"],
 [("comparison with separators as the smallest byte","index/path.go Compare, HasPathPrefix")],
 obs=["Path.Compare, Path.HasPathPrefix, order of a real directory walk"])
p("C17","Indexes in the old format keep giving the same answers",
 "An index in the older version 1 format answers every name lookup, root listing, posting lookup and query exactly as a version 2 index of the same files does. It can be merged with a version 2 index on either side with the same result as if both were version 2.",
 ["inputs","configurations"],"every file set encoded in the documented version 1 format by an independent encoder",
 "The tests compare the version 1 bytes written for one fixed file set and merge one version 1 index; reading and querying version 1 is barely touched.",
 ["index/read.go","index/merge.go","index/path.go","index/delta.go"],
 [("version switch in the reader","index/read.go Open, findList, postIndexEntry, NamesAt; index/path.go PathReader; index/merge.go postMapReader")],
 obs=["all read operations on version 1 files"])
p("C18","Archive members are indexed and searched like files",
 "With -zip, every text member of a readable zip file under the indexed paths is indexed under the archive's name and its own, and csearch reports its matching lines exactly as grepping the extracted member would, whatever other archives, missing archives or damaged members lie around it (of members with the same name the last counts, and members with malformed names are skipped). Without -zip, or for files that are not archives, member content is not indexed.",
 ["inputs","histories"],"every set of archives (nested directories, binary members, stored and deflated, corrupt members, deleted or replaced archives, many archives interleaved with plain files)",
 "TestZip builds one in-memory archive and checks a few posting lists; csearch's reading of archives is never run.",
 ["index/write.go","cmd/csearch/csearch.go","cmd/cindex/cindex.go"],
 [("members named archive, separator byte, member; archive reader cache in csearch","index/write.go Add; cmd/csearch/csearch.go Main")],
 obs=["index names, csearch output"])
p("C19","HTML output never lets content, names or queries become markup",
 "In every HTML page produced by csearch -html or by csweb for a search, an error or a text file view, all bytes that come from file contents, file names, the query or error messages appear only as escaped text or quoted attribute values; a file shown that is not text is never sent as a page (HTML or XML). Stripping the fixed markup and unescaping yields exactly the plain-text result.",
 ["inputs","configurations"],"every content, file name and query string, in all output modes (lines, counts, file lists, context, errors, directory and file views)",
 "No test produces HTML.",
 ["regexp/match.go","cmd/csweb/web.go","cmd/csearch/csearch.go"],
 [("escaping at each print","regexp/match.go Grep.esc; cmd/csweb/web.go home, serveFile, serveDir, printHeader")],
 obs=["HTML bytes, tokenised and compared with plain output"])
p("C20","The web server answers like csearch, also under concurrent requests and updates",
 "For every query and file filter, the csweb result page lists exactly the lines csearch prints, and a file view shows every line of a text file, numbered and intact, and sends any other file byte for byte. This also holds for many simultaneous requests and while the index is being updated by cindex (each answer is then that of the old or of the new index, the files themselves being unchanged), free of data races.",
 ["schedules","inputs"],"every query, every interleaving of concurrent requests with each other and with index updates",
 "csweb has no tests.",
 ["cmd/csweb/web.go","index/read.go","regexp/match.go"],
 [("per-request regexp, searcher and index mapping","cmd/csweb/web.go home, show")],
 obs=["HTTP responses of a race-detector build"])
p("C21","Exit status and diagnostics tell the truth",
 "cgrep and csearch exit 0 exactly when at least one line was selected and 1 when none was; wrong usage or an invalid expression gives a non-zero status, a message on standard error and nothing on standard output. A file that cannot be read is reported by cgrep on standard error, once, without affecting the results for the other files.",
 ["inputs","configurations","fault_sequences"],"every expression (valid or not), flag combination and list of existing, missing and unreadable files",
 "No command is run by any test.",
 ["cmd/cgrep/cgrep.go","cmd/csearch/csearch.go","regexp/match.go"],
 [("Match flag, usage and log.Fatal paths","cmd/cgrep/cgrep.go main; cmd/csearch/csearch.go main; regexp/match.go Grep.File")],
 obs=["exit status, stdout, stderr"])
p("C22","The file name filter selects exactly the files whose names match",
 "With -f, csearch prints exactly those records of the unfiltered search whose full indexed name matches the file expression, in the same order, and nothing else. The filter is independent of the content expression and of -i.",
 ["inputs"],"every pair of content and name expressions and every set of file names",
 "No command is run by any test.",
 ["cmd/csearch/csearch.go"],
 [("filter over candidate names before reading files","cmd/csearch/csearch.go Main")],
 obs=["csearch output with and without -f"])
p("C23","The index is a deterministic function of the indexed trees",
 "Indexing the same unchanged trees from scratch always produces byte-identical index files, whatever the order, repetition or nesting of the path arguments, however often it is repeated, and whatever other indexes are built at the same time. Re-indexing without changes leaves the set of files, roots and postings as it was.",
 ["inputs","configurations"],"every tree and every permutation, duplication or nesting of the arguments",
 "No test runs cindex or compares two indexes of the same data.",
 ["cmd/cindex/cindex.go","index/write.go","index/merge.go"],
 [("sorted, de-duplicated roots and a sorted walk","cmd/cindex/cindex.go main")],
 obs=["bytes of the index file"])
p("C24","Hostile or changing trees cannot make indexing fail or lose other files",
 "Whatever the indexed tree contains (unreadable or vanishing files and directories, dangling or cyclic links, pipes, sockets, odd or hidden names), cindex terminates successfully, indexes every regular text file that stayed readable, and skips the rest. It never blocks on or follows special files.",
 ["inputs","fault_sequences","schedules"],"every mix of special entries, and entries disappearing or failing between being listed, examined, opened and read",
 "No test walks a directory.",
 ["cmd/cindex/cindex.go","index/write.go"],
 [("walk callback skipping and error handling","cmd/cindex/cindex.go main; index/write.go AddFile")],
 obs=["exit status of cindex, index contents, with faults injected at stat/open/read"])
p("C25","The consistency check accepts every sound index and reports damaged postings",
 "The index check accepts every index that indexing or merging produces. It rejects an index in which a posting list was damaged so that a list no longer starts with its trigram, has fewer or more entries than recorded, or is not terminated.",
 ["inputs"],"every index built or merged, and every such damage at any list",
 "No test calls the check.",
 ["index/check.go"],
 [("full scan of names and posting lists","index/check.go Check")],
 obs=["Check, cindex -check"])
p("C26","The sparse set behaves as a mathematical set",
 "After any sequence of add and reset operations the set contains exactly the values added since the last reset, membership answers are exact, and the listing contains each once in insertion order. This holds for every capacity and across any number of resets.",
 ["histories"],"every operation sequence and capacity",
 "The package has no tests of its own and is exercised only indirectly.",
 ["sparse/set.go"],
 [("sparse/dense cross-checked arrays","sparse/set.go Add, Has, Reset")],
 obs=["Has, Dense, Len"])
p("C27","Tools leave nothing behind and touch nothing they should only read",
 "A successful cindex run leaves no temporary or intermediate file behind and changes no file other than the index; the index is readable by its owner only. Searching never modifies the index, the searched files or anything else.",
 ["histories","configurations"],"every tree, every sequence of index, update, reset, list and search commands",
 "Unit tests ignore leftover files.",
 ["index/write.go","index/merge.go","cmd/cindex/cindex.go","cmd/csearch/csearch.go"],
 [("removal of temporary files at the end of writing and merging","index/write.go Flush; index/merge.go Merge; cmd/cindex/cindex.go main")],
 obs=["directory snapshots before and after; traced file-modifying system calls"])
p("C28","Concurrent searches do not interfere",
 "Any number of goroutines may query one open index, or each its own, at the same time, each with its own compiled expression, and every one gets the answer it would get alone. No data race occurs. (The diagnostic consistency check is not a query.)",
 ["schedules"],"every interleaving of lookups, queries, name reads and matches",
 "No test starts a goroutine.",
 ["index/read.go","index/path.go","regexp/match.go","index/regexp.go"],
 [("read-only index structures; no shared mutable package state on the read path","index/read.go Index, package variables of index and regexp")],
 obs=["results and race detector reports"])
p("C29","Character classes and case folding are exact over all of Unicode",
 "For every code point, a literal, a character class, a negated class, a range and a case-insensitive literal match exactly the code points the standard semantics prescribe, in their UTF-8 encoding, and nothing else. The trigram query derived from such an expression accepts all of them.",
 ["inputs"],"all 0x110000 code points, all case-folding orbits, all Unicode classes known to the parser, and ranges with ends at every encoding boundary",
 "Tests contain four non-ASCII patterns.",
 ["regexp/utf.go","regexp/copy.go","index/regexp.go"],
 [("translation of rune ranges to byte automata; folding","regexp/utf.go toByteProg, addRange, oneByteRange; regexp/copy.go appendFoldedRange")],
 obs=["Match on every encoded code point; RegexpQuery"])
p("C30","The match limit stops exactly at the limit and says so",
 "With a limit of k > 0, a searcher prints exactly the first k matching lines over all files and reports that it was limited exactly when at least one more match existed; without a limit it prints all and reports the true number of matches.",
 ["inputs","histories"],"every limit, every distribution of matches over files and positions",
 "No test sets a limit.",
 ["regexp/match.go","cmd/csweb/web.go"],
 [("counter checked before each report","regexp/match.go Grep.Reader; cmd/csweb/web.go home")],
 obs=["output, Matches and Limited"])
p("C31","Search work is linear in the text and pattern states are built once",
 "Searching takes work proportional to the length of the text for every expression, including those that make backtracking matchers explode; once an input has been searched, searching it again does no further construction work. The number of automaton states built never depends on how often the same kind of text is repeated.",
 ["inputs","histories"],"every expression and text, measured in allocations and states rather than time",
 "Tests match short texts once and measure nothing.",
 ["regexp/match.go"],
 [("memoised transitions","regexp/match.go match, matchString, cache")],
 obs=["allocations counted by the runtime during repeated searches"])
p("C32","Indexing memory stays bounded however large the input",
 "Peak memory while indexing is bounded by a constant plus the size of the largest single input structures: it does not grow in proportion to the number of posting entries, because entries are spilled to temporary files. The spilled entries are all in the final index.",
 ["inputs"],"corpora from a fraction of one in-memory batch to many batches",
 "No test exceeds a few dozen entries.",
 ["index/write.go"],
 [("fixed-capacity entry buffer flushed to temporary storage","index/write.go add, flushPost, mergePost")],
 obs=["peak resident memory of cindex and spill writes, for growing corpora"])
p("C33","Every link on an HTML page leads to what it names",
 "Whatever characters a name contains, the link of a search result in HTML output (of csweb and of csearch -html) leads, resolved and followed as a browser does, to csweb's view of exactly that file, and to the line that is shown, which the page then marks, carrying the query unchanged; the links of a file or directory view lead to the views of the enclosing directories and of exactly the entries they name. Links of archive members have no view to lead to.",
 ["inputs"],"every file and directory name: with #, ?, %, +, quotes, markup, invalid UTF-8, and every query",
 "No test looks at a link.",
 ["cmd/csweb/web.go","regexp/match.go","cmd/csearch/csearch.go"],
 [("links of results","regexp/match.go Grep.Reader (HTML output)"),("links of views and what a request names","cmd/csweb/web.go printHeader, serveDir, show")],
 obs=["pages and the responses behind their links"])
p("C34","An indexed search reads only files that the index cannot rule out",
 "Searching for a word of at least three characters (in any script, ignoring case or not), for several words with anything between them, or for one of a few alternatives of these, csearch opens only files that contain every trigram of the words of some alternative and whose name passes the -f filter; it opens each such file once. An expression that nothing can match opens no file.",
 ["inputs"],"every set of files and every combination of words, alternatives and filters",
 "Tests compare a table of queries with strings; nothing measures what a search reads.",
 ["index/regexp.go","index/read.go","cmd/csearch/csearch.go"],
 [("query derivation keeps the required trigrams","index/regexp.go analyze, concat, alternate, simplify"),("posting evaluation and name filter before files are opened","index/read.go postingQuery; cmd/csearch/csearch.go Main")],
 obs=["open calls of the real csearch"])
p("C35","Every command uses exactly the index file the documentation names",
 "cindex and csearch use the file named by $CSEARCHINDEX (relative names from the current directory, any characters taken literally), or $HOME/.csearchindex if that is unset or empty: for creating, updating, listing, resetting and searching. They never read, create or change another index, and fail with a message when there is none at that place.",
 ["inputs","histories"],"every environment, working directory and set of other indexes lying around",
 "No test sets the environment.",
 ["index/read.go","cmd/cindex/cindex.go","cmd/csearch/csearch.go"],
 [("location of the index","index/read.go File; cmd/cindex/cindex.go main; cmd/csearch/csearch.go Main")],
 obs=["files created and changed, results of searches and lists"])
p("C36","A search that runs while the index is updated answers from one whole index",
 "Every csearch or cindex -list that runs while cindex updates the index succeeds and gives, byte for byte, the answer of the index before the update or of the one after it: never an error for a missing or incomplete index, never a mixture. An answer that starts after cindex has ended is that of the new index. While cindex -reset writes the index anew there may be none, and a search then fails with a message, but an answer it gives is still that of the old or the new index.",
 ["schedules"],"every interleaving of a search with the file operations of an update",
 "No test runs two commands.",
 ["cmd/cindex/cindex.go","index/merge.go","index/read.go","index/mmap_linux.go"],
 [("new index built aside and put in place by one rename","cmd/cindex/cindex.go main; index/merge.go Merge"),("index mapped once per search","index/read.go Open; index/mmap_linux.go")],
 obs=["output and status of searches with their start and end times, times of updates"])
p("C37","Diagnostic flags never change results, and what they print is true",
 "-verbose, -check, -stats and -cpuprofile change neither the index nor the standard output (but for -stats) nor the exit status of any command. The numbers printed (bytes and trigrams of each indexed file, total bytes indexed, size of the index, numbers of roots, names and posting lists, of candidate files and of files with matching names) are the true ones, and a profile is written.",
 ["inputs"],"every tree, command and combination of these flags",
 "No test runs a command.",
 ["cmd/cindex/cindex.go","cmd/csearch/csearch.go","cmd/cgrep/cgrep.go","index/write.go","index/read.go"],
 [("logging and statistics","index/write.go Add, Flush; index/read.go PrintStats; main of each command")],
 obs=["standard output, standard error, exit status, index bytes, profile file"])
p("C38","csweb keeps nothing of a finished request",
 "After csweb has answered a request, or its client has gone away, it holds no file of the searched trees, no archive and no index open or mapped. Its open descriptors, threads and memory do not grow with the number of requests it has served.",
 ["inputs","histories"],"every sequence of requests: searches, views, errors, limits, broken connections, updates of the index in between",
 "No test runs the server.",
 ["cmd/csweb/web.go","regexp/match.go","index/read.go"],
 [("index, files and archives opened for a request","cmd/csweb/web.go search, show"),("index mapping released","index/read.go Close")],
 obs=["open files, mappings, threads and memory of the server in /proc after each answer"])
p("C39","32-bit builds write the same indexes and give the same answers",
 "The commands build for 32-bit processors. There they write, byte for byte, the index that a 64-bit build writes from the same tree, read each other's indexes (old format included), and give the same answers; the packages keep their guarantees.",
 ["inputs"],"every tree, index and query that fits into the address space",
 "The tests run on the processor of the machine only.",
 ["index/write.go","index/read.go","index/merge.go","index/mmap_linux.go","regexp/match.go"],
 [("offsets and counts kept in int","index/read.go; index/write.go"),("posting entries packed into uint64 and sorted","index/write.go")],
 obs=["index bytes and outputs of 32-bit and 64-bit builds from the same trees"])
p("C40","Indexes larger than 2 and 4 GB are written, merged and read right",
 "Names, posting lists and searches of an index whose sections and lists lie beyond 2 GB and 4 GB are those of the files indexed, whether the index was written by the index writer, by an update, by a merge, or (up to 4 GB) in the old format.",
 ["inputs"],"every index too large for 31 or 32 bits",
 "Tests write indexes of a few kilobytes.",
 ["index/write.go","index/read.go","index/merge.go"],
 [("offsets of names and lists","index/write.go PathWriter, postDataWriter, Buffer; index/read.go NamesAt, findListV2, slice"),("old 32-bit offsets","index/read.go uint32, postIndexEntry")],
 obs=["sections of the index file decoded by an independent reader, names, posting lists and search results around the 2 and 4 GB marks"])
p("C41","What cindex leaves out, it reports",
 "Every regular file and directory under the indexed paths, and with -zip every archive and archive member, that cindex cannot read or whose name it cannot record is named on standard error; nothing that it indexes is. An index writer that is told to log what it skips names every file it skips for not being text, once, and no other.",
 ["inputs","fault_sequences"],"every tree, every damage of an archive, every call failing while the tree is read",
 "No test looks at a message of cindex.",
 ["cmd/cindex/cindex.go","index/write.go"],
 [("errors during the walk","cmd/cindex/cindex.go Main"),("archives and members that cannot be read, LogSkip","index/write.go Add, add")],
 obs=["standard error of cindex compared with what is missing from the index"])
p("C42","Every expression is prepared in bounded time and memory",
 "Every expression that Go's regexp package accepts is accepted, with the same meaning on ASCII lines, and its index query admits every text with a match; every other is refused with an error. Compiling it, deriving its query and starting to match never crash, and take time and memory in proportion to the expression with its counts written out (large classes and folding included), not exponentially more; matching builds states only as the text leads to them.",
 ["inputs"],"every expression, including those made to explode",
 "The tests hold some hundred small expressions.",
 ["regexp/regexp.go","regexp/match.go","regexp/utf.go","index/regexp.go"],
 [("compilation to a byte program","regexp/regexp.go Compile, regexp/utf.go"),("states of the automaton","regexp/match.go computeNext, step, cache"),("limits on exact and match sets of the query","index/regexp.go simplify, simplifySet, maxExact, maxSet")],
 obs=["bytes allocated, CPU time and results of Compile, RegexpQuery and the first match"])
p("C43","csweb serves this machine only and no request stops or exhausts it",
 "csweb accepts connections on loopback addresses only. Whatever it is sent (malformed, huge, truncated or slow requests, any method, uploads, searches before there is an index, views of devices, pipes, sockets or looping links, expressions made to explode), it goes on answering other clients correctly, within bounded memory; every well-formed request is answered; no request changes a file of the trees, the index, or leaves one behind.",
 ["inputs","histories"],"every sequence of requests, well-formed or not",
 "No test runs the server.",
 ["cmd/csweb/web.go","regexp/match.go"],
 [("listening address","cmd/csweb/web.go main"),("views of files","cmd/csweb/web.go show"),("searches","cmd/csweb/web.go home, search")],
 obs=["answers to other clients, memory and listening sockets of the server, files before and after"])
p("C44","Searching and indexing need memory independent of the size of the texts",
 "The memory that cgrep and csearch need depends neither on the length of the texts they read (files, standard input, members of archives however well compressed), nor on the number of files, matches or the amount of output, nor on how fast the output is read; cindex's does not depend on the length of a text. However long the text, every matching line is reported.",
 ["inputs"],"every text length, number of files and output flag; without context also lines that never end",
 "The tests' texts have a few lines.",
 ["regexp/match.go","cmd/cgrep/cgrep.go","cmd/csearch/csearch.go","index/write.go","index/read.go"],
 [("window over the text","regexp/match.go Grep.Reader"),("archive members are streamed","cmd/csearch/csearch.go, index/write.go Add")],
 obs=["anonymous memory of the commands, sampled; number of lines printed"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
