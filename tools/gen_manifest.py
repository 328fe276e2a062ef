#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
T={
"C01":("differential monitoring of csearch, csearch -brute, cgrep and a reference grep over generated trees",""),
"C02":("runtime oracle: derived query evaluated on texts the expression matches",""),
"C03":("runtime oracle: posting evaluation compared with a naive evaluation",""),
"C04":("runtime oracle: the written index decoded by an independent decoder and compared with the files",""),
"C05":("runtime oracle: text policy model over hostile contents, read splits and injected read errors",""),
"C06":("runtime oracle: set-based reference matcher over generated expressions and texts",""),
"C07":("history monitor: reused against fresh compiled expressions",""),
"C08":("runtime oracle: reference grep over split readers, flags and file sequences",""),
"C09":("runtime oracle: reference grep with context at buffer edges",""),
"C10":("runtime oracle: model of merging, independent decoder, chains of merges",""),
"C11":("history monitor: model of cindex over random command histories",""),
"C12":("crash injection at every file-modifying system call, oracle on the index left behind","fault_enumeration"),
"C13":("fault injection at every file-modifying system call, oracle on status and index","fault_enumeration"),
"C14":("runtime oracle: every truncation of generated indexes and foreign files",""),
"C15":("runtime oracle: names read back in all ways and compared with the stored list",""),
"C16":("runtime oracle: order laws on generated pairs and triples, and a real directory walk",""),
"C17":("runtime oracle: independent version 1 encoder, differential with version 2",""),
"C18":("runtime oracle: model of archives, decoder and reference grep",""),
"C19":("runtime oracle: HTML tokenised, compared with plain results; real server and command",""),
"C20":("race detector on the real server, oracle on every response under concurrent requests and index updates",""),
"C21":("runtime oracle: model of exit status and diagnostics of the real commands",""),
"C22":("runtime oracle: filtered against unfiltered records",""),
"C23":("differential monitoring: index bytes under permuted, repeated and nested arguments",""),
"C24":("hostile trees and fault injection at every stat, open and read of the walk, oracle on the index","fault_enumeration"),
"C25":("runtime oracle: check on sound indexes and on damaged posting lists",""),
"C26":("history monitor: set compared with a map model",""),
"C27":("system call trace and directory snapshots of the real commands",""),
"C28":("race detector and result oracle on concurrent queries",""),
"C29":("runtime oracle over all code points and folding orbits",""),
"C30":("runtime oracle: reference grep with limits",""),
"C31":("allocation and work monitor of repeated and growing searches",""),
"C32":("memory monitor of the real indexer on growing corpora, oracle on the spilled index",""),
"C34":("file opens of the real csearch recorded and compared with what the trigrams of the files allow",""),
"C35":("history monitor: index location model over environments with decoy indexes",""),
"C36":("oracle on every answer of real searches running during delayed updates of the index",""),
"C37":("differential monitoring with and without diagnostic flags; printed numbers compared with a reference count",""),
"C38":("resource monitor: open files, mappings, threads and memory of the real server after each request",""),
"C39":("differential monitoring of 32-bit and 64-bit builds; the other oracles run on 32-bit code",""),
"C40":("runtime oracle: indexes of 2 to 5 GB written, updated, merged and read, compared with their sources by an independent decoder",""),
"C41":("messages of the real indexer compared with what is missing, with damaged archives and injected faults","fault_enumeration"),
"C42":("allocation and CPU monitor of compilation and query derivation on hostile expressions, oracle on results",""),
"C43":("hostile requests to the real server; monitor of its memory, sockets and files, oracle on other clients' answers",""),
"C44":("memory monitor of the real commands on streams far larger than the limit, oracle on the number of lines",""),
"C33":("runtime oracle: every link of the pages of the real server and command followed",""),
}
COMMON="Holds on everything executed, judged by an oracle written from the documentation; the evidence file counts what the monitors saw. Trusts Go's regexp/syntax parser, the Go runtime and the kernel."
NOTE={
"C12":"Every file-modifying system call of each sampled run is a kill point (before, after, and half way through writes); a kill of the process, not a power failure: what was written is assumed to be kept by the kernel.",
"C13":"Every file-modifying system call of each sampled run fails once and from then on. Failures of removals of temporary files, and errors reported only by close, are not in scope.",
"C24":"Every stat, open, directory read and file read of each sampled run fails once; special files are real. The replacement of a file by a pipe between being examined and opened is not covered.",
"C28":"Sees the races the race detector sees in the executed interleavings, and wrong results in them.",
"C20":"Sees the races the race detector sees in the executed interleavings, and wrong or broken responses in them.",
"C29":"All 0x110000 code points are run, for classes and folding exhaustively and for ranges at all encoding boundaries.",
"C36":"Sees the interleavings that occur with injected pauses before every modifying call of cindex.",
"C38":"Sees what /proc shows once the answer has arrived (20 s of grace after a broken connection).",
"C39":"386 stands for all 32-bit processors; it runs on this machine's processor.",
"C40":"A few indexes per run; lists and names are sampled, densely around the 2 and 4 GB marks. Needs 16 GB of disk.",
"C42":"The budgets have a margin of ten over the largest need seen; growth below that goes unseen.",
"C44":"Measures anonymous resident memory every 2 ms; a need below about 30 MB in texts of 80 MB and more would go unseen.",
"C32":"Measures anonymous resident memory of the process every 3 ms; a proportional need below about 3 bytes per entry would go unseen.",
}
checks=[]
for k,(t,l) in sorted(T.items()):
    checks.append(dict(property=k,quick_cmd=f"./run.sh {k}",thorough_cmd=f"VERIF_TIER=thorough ./run.sh {k}",
      evidence_file=f"evidence/{k}.json",technique=t,level=l or "exploration",level_note=NOTE.get(k,"")+(" " if k in NOTE else "")+COMMON))
ids=[json.loads(x)["id"] for x in open("/verif/properties.jsonl")]
assert sorted(T)==sorted(ids),set(T)^set(ids)
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=[],
  notes="No hooks in /repo: faults are injected through an overlay of the Go standard library made at build time."),
  open("/verif/MANIFEST.json","w"),indent=1)
