package main

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"syscall"
)

func rss(ru any) int64 {
	if u, ok := ru.(*syscall.Rusage); ok {
		return int64(u.Maxrss) // kilobytes
	}
	return 0
}

// anonMB is the resident memory of a process that is not mapped from a file.
func anonMB(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", pid))
	if err != nil {
		return 0
	}
	_, b, ok := bytes.Cut(b, []byte("RssAnon:"))
	if !ok {
		return 0
	}
	f := bytes.Fields(b)
	kb, _ := strconv.ParseInt(string(f[0]), 10, 64)
	return kb >> 10
}
