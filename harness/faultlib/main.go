// Faultlib writes a build overlay that replaces parts of the Go standard
// library's syscall package with versions that can record file system calls
// and make a chosen one fail, or kill the process at it. It is generated from
// the installed Go; programs built with "go build -overlay DIR/overlay.json"
// behave as usual unless VERIF_TRACE or VERIF_FAULT is set. See hook.go.txt.
package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

//go:embed hook.go.txt
var hook string

func main() {
	log.SetFlags(0)
	log.SetPrefix("faultlib: ")
	if len(os.Args) != 2 {
		log.Fatal("usage: faultlib dir")
	}
	dir, err := filepath.Abs(os.Args[1])
	if err != nil {
		log.Fatal(err)
	}
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		log.Fatal(err)
	}
	root := filepath.Join(strings.TrimSpace(string(out)), "src")
	if err := os.MkdirAll(dir, 0o777); err != nil {
		log.Fatal(err)
	}
	repl := map[string]string{}
	put := func(name, text string) {
		f := filepath.Join(dir, strings.ReplaceAll(name, "/", "_"))
		if err := os.WriteFile(f, []byte(text), 0o666); err != nil {
			log.Fatal(err)
		}
		repl[filepath.Join(root, name)] = f
	}
	get := func(name string) string {
		b, err := os.ReadFile(filepath.Join(root, name))
		if err != nil {
			log.Fatal(err)
		}
		return string(b)
	}
	const z = "syscall/zsyscall_linux_amd64.go"
	text := get(z)
	for _, f := range []string{"fchmodat", "linkat", "openat", "symlinkat", "unlinkat", "utimensat", "Close", "Fchmod", "Getdents", "Mkdirat", "read", "write", "Fchown", "Fstat", "Ftruncate", "pread", "pwrite", "Renameat", "sendfile", "Truncate", "fstatat", "Fsync"} {
		old := "\nfunc " + f + "("
		if strings.Count(text, old) != 1 {
			log.Fatalf("%s: no unique %s", z, f)
		}
		text = strings.Replace(text, old, "\nfunc vf_"+f+"(", 1)
	}
	put(z, text)
	put("syscall/verif_fault_linux.go", hook)

	const c = "internal/syscall/unix/copy_file_range_unix.go"
	text = get(c)
	const head = "len int, flags int) (n int, err error) {\n"
	if strings.Count(text, head) != 1 {
		log.Fatalf("%s: unexpected text", c)
	}
	text = strings.Replace(text, head, head+"\tif len, err = syscall.VerifWrite(\"copyrange\", wfd, len); err != nil {\n\t\treturn 0, err\n\t}\n\tif n, err, done := syscall.VerifRead(\"copyread\", rfd); done {\n\t\treturn n, err\n\t}\n", 1)
	put(c, text)

	data, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(dir, "overlay.json"), data, 0o666); err != nil {
		log.Fatal(err)
	}
	fmt.Println(len(repl), "files")
}
