// Package main is the verification harness: a supervisor that runs the cases
// of one property in child processes, watches them, and writes the verdict.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// A Prop is one property: how its cases are made, run and judged.
type Prop struct {
	ID       string
	Quick    int // number of cases in the quick tier
	Thorough int // number of cases in the thorough tier
	Procs    int // child processes (default 8)
	Level    string
	Rule     string // how cases are made, what makes one non-trivial
	Assume   []string
	MinEvent map[string]int64 // monitors that must have observed at least this much (quick and thorough)
	Stall    time.Duration    // CPU/wall budget of one case before it counts as not terminating
	Run      func(c *C)
	Init     func(c *C) // once per child, before its first case
	Fini     func(c *C)
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Procs == 0 {
		p.Procs = 8
	}
	if p.Level == "" {
		p.Level = "exploration"
	}
	if p.Stall == 0 {
		p.Stall = 90 * time.Second
	}
	props[p.ID] = p
}

// C is the context of one child process and its current case.
type C struct {
	*rand.Rand
	P        *Prop
	Case     int
	Seed     uint64
	Thorough bool
	Work     string // directory shared by the run (binaries in Work/bin)
	First    bool   // the child that runs case 0
	Tmp      string // scratch directory of this child, emptied on request

	counts  map[string]int64
	fps     map[uint64]bool
	samples []string
	nontriv bool
}

type violation struct{ msg string }

// Fail reports a violation of the property and ends the case.
func (c *C) Fail(format string, args ...any) {
	panic(violation{fmt.Sprintf(format, args...)})
}

// Count adds n observed events of the given kind.
func (c *C) Count(kind string, n int) { c.counts[kind] += int64(n) }

// Seen records a distinct non-trivial case by its key.
func (c *C) Seen(parts ...any) {
	h := fnv.New64a()
	for _, p := range parts {
		switch p := p.(type) {
		case string:
			io.WriteString(h, p)
		case []byte:
			h.Write(p)
		default:
			fmt.Fprint(h, p)
		}
		h.Write([]byte{0})
	}
	c.fps[h.Sum64()] = true
}

// Sample keeps a few cases, written out, for the evidence file.
func (c *C) Sample(format string, args ...any) {
	if len(c.samples) < 3 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.samples = append(c.samples, s)
	}
}

// Dir makes a fresh empty directory under the child's scratch directory.
func (c *C) Dir(name string) string {
	d := filepath.Join(c.Tmp, name)
	os.RemoveAll(d)
	if err := os.MkdirAll(d, 0o777); err != nil {
		harness("mkdir: %v", err)
	}
	return d
}

func (c *C) Bin(name string) string { return filepath.Join(c.Work, "bin", name) }

// Chance reports true with probability 1/n.
func (c *C) Chance(n int) bool { return c.IntN(n) == 0 }

func pick[T any](c *C, list []T) T { return list[c.IntN(len(list))] }

// harness stops the run because the machinery itself failed (not a verdict).
func harness(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", args...)
	os.Exit(97)
}

func caseRand(id string, seed uint64, k int) *rand.Rand {
	h := fnv.New64a()
	io.WriteString(h, id)
	return rand.New(rand.NewPCG(seed^h.Sum64(), uint64(k)*0x9E3779B97F4A7C15+1))
}

type childReport struct {
	Done    int
	Counts  map[string]int64
	FPs     []uint64
	Samples []string
	Viol    string
	ViolK   int
}

// runChild runs cases from, from+step, ... below total and writes its report.
func runChild(p *Prop, seed uint64, thorough bool, work string, from, step, total int, out string) {
	tmp, err := os.MkdirTemp(work, "c")
	if err != nil {
		harness("%v", err)
	}
	os.MkdirAll(filepath.Join(tmp, "tmp"), 0o777)
	os.Setenv("TMPDIR", filepath.Join(tmp, "tmp"))
	log.SetFlags(0)
	c := &C{First: from == 0, P: p, Seed: seed, Thorough: thorough, Work: work, Tmp: tmp, counts: map[string]int64{}, fps: map[uint64]bool{}}
	state, err := os.Create(out + ".state")
	if err != nil {
		harness("%v", err)
	}
	rep := childReport{Counts: c.counts}
	finish := func() {
		for f := range c.fps {
			rep.FPs = append(rep.FPs, f)
		}
		rep.Samples = c.samples
		data, _ := json.Marshal(rep)
		if err := os.WriteFile(out, data, 0o666); err != nil {
			harness("%v", err)
		}
		os.RemoveAll(tmp)
	}
	if p.Init != nil {
		c.Rand = caseRand(p.ID+"/init", seed, from)
		p.Init(c)
	}
	var buf [8]byte
	for k := from; k < total; k += step {
		binary.LittleEndian.PutUint64(buf[:], uint64(k)+1)
		state.WriteAt(buf[:], 0)
		c.Case = k
		c.Rand = caseRand(p.ID, seed, k)
		msg := runCase(p, c)
		rep.Done++
		if msg != "" {
			rep.Viol, rep.ViolK = msg, k
			finish()
			os.Exit(0)
		}
	}
	if p.Fini != nil {
		p.Fini(c)
	}
	finish()
	os.Exit(0)
}

func runCase(p *Prop, c *C) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			if v, ok := e.(violation); ok {
				msg = v.msg
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	p.Run(c)
	return ""
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

type outcome struct {
	rep    childReport
	ok     bool   // report was read
	viol   string // violation seen from outside (crash, no progress)
	violK  int
	errmsg string // machinery failure
}

// supervise runs one child and watches that every case makes progress.
func supervise(p *Prop, seed uint64, thorough bool, work string, from, step, total int, tag string) outcome {
	out := filepath.Join(work, "rep-"+tag)
	errf, _ := os.Create(out + ".err")
	cmd := exec.Command(os.Args[0], "child", p.ID, strconv.FormatUint(seed, 10), strconv.FormatBool(thorough), work,
		strconv.Itoa(from), strconv.Itoa(step), strconv.Itoa(total), out)
	cmd.Stderr = errf
	cmd.Stdout = errf
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread() // Pdeathsig is tied to the thread that forks
	if err := cmd.Start(); err != nil {
		return outcome{errmsg: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	current := func() int {
		b, err := os.ReadFile(out + ".state")
		if err != nil || len(b) < 8 {
			return -1
		}
		return int(binary.LittleEndian.Uint64(b)) - 1
	}
	last, since := -2, time.Now()
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	var werr error
wait:
	for {
		select {
		case werr = <-done:
			break wait
		case <-tick.C:
			if m := anonMB(cmd.Process.Pid); m > 4000 {
				k := current()
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				return outcome{viol: fmt.Sprintf("the case needs %d MB of memory", m), violK: k}
			}
			if k := current(); k != last {
				last, since = k, time.Now()
			} else if time.Since(since) > p.Stall {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
				time.Sleep(300 * time.Millisecond)
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				return outcome{viol: fmt.Sprintf("no progress: the case did not finish within %v\n%s", p.Stall, tail(out+".err")), violK: last}
			}
		}
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) // leftovers of the group
	if werr == nil {
		data, err := os.ReadFile(out)
		var o outcome
		if err != nil {
			return outcome{errmsg: "no report: " + err.Error() + "\n" + tail(out+".err")}
		}
		if err := json.Unmarshal(data, &o.rep); err != nil {
			return outcome{errmsg: err.Error()}
		}
		o.ok = true
		return o
	}
	if ee, ok := werr.(*exec.ExitError); ok {
		if ee.ExitCode() == 97 {
			return outcome{errmsg: tail(out + ".err")}
		}
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			return outcome{errmsg: "child was killed from outside"}
		}
	}
	return outcome{viol: fmt.Sprintf("process died (%v) while running the case\n%s", werr, tail(out+".err")), violK: current()}
}

func tail(file string) string {
	b, _ := os.ReadFile(file)
	// Prefer the start of a panic or fatal error over the end of its traces.
	for _, mark := range []string{"\npanic: ", "\nfatal error: ", "\nSIGQUIT", "WARNING: DATA RACE", "HARNESS-ERROR"} {
		if i := bytes.Index(append([]byte("\n"), b...), []byte(mark)); i >= 0 {
			b = b[max(0, i-1):]
			if len(b) > 3500 {
				b = b[:3500]
			}
			return string(b)
		}
	}
	if len(b) > 2000 {
		b = b[len(b)-2000:]
	}
	return string(b)
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "child" {
		a := os.Args[2:]
		seed, _ := strconv.ParseUint(a[1], 10, 64)
		from, _ := strconv.Atoi(a[4])
		step, _ := strconv.Atoi(a[5])
		total, _ := strconv.Atoi(a[6])
		runChild(props[a[0]], seed, a[2] == "true", a[3], from, step, total, a[7])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "list" {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	var (
		id    = flag.String("p", "", "property")
		work  = flag.String("work", "", "work directory with bin/")
		verif = flag.String("verif", "/verif", "verif directory")
		only  = flag.Int("case", -1, "run only this case")
		n     = flag.Int("n", 0, "override number of cases")
	)
	flag.Parse()
	p := props[*id]
	if p == nil {
		harness("unknown property %q", *id)
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			h := fnv.New64a()
			io.WriteString(h, s)
			v = h.Sum64() >> 1
		}
		seed = v
	}
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	total := p.Quick
	if thorough {
		total = p.Thorough
	}
	if *n > 0 {
		total = *n
	}
	start := time.Now()
	var outs []outcome
	if *only >= 0 {
		outs = []outcome{supervise(p, seed, thorough, *work, *only, 1<<30, *only+1, "only")}
	} else {
		procs := min(p.Procs, total)
		outs = make([]outcome, procs)
		var wg sync.WaitGroup
		for i := range procs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for try := 0; try < 3; try++ {
					outs[i] = supervise(p, seed, thorough, *work, i, procs, total, fmt.Sprintf("%d-%d", i, try))
					if outs[i].errmsg == "" {
						break
					}
				}
			}()
		}
		wg.Wait()
	}

	counts := map[string]int64{}
	fps := map[uint64]bool{}
	samples := []string{}
	done := 0
	type viol struct {
		k   int
		msg string
	}
	var viols []viol
	errs := []string{}
	for _, o := range outs {
		switch {
		case o.errmsg != "":
			errs = append(errs, o.errmsg)
		case o.viol != "":
			viols = append(viols, viol{o.violK, o.viol})
		case o.rep.Viol != "":
			viols = append(viols, viol{o.rep.ViolK, o.rep.Viol})
		}
		if o.ok {
			done += o.rep.Done
			for k, v := range o.rep.Counts {
				counts[k] += v
			}
			for _, f := range o.rep.FPs {
				fps[f] = true
			}
			if len(samples) < 4 {
				samples = append(samples, o.rep.Samples...)
			}
		}
	}
	if len(samples) > 4 {
		samples = samples[:4]
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].k < viols[j].k })

	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	cov := map[string]any{
		"evaluations":         done,
		"distinct_nontrivial": len(fps),
		"rule":                p.Rule,
		"samples":             samples,
		"observed":            counts,
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": cov, "assumptions": p.Assume,
		"wall_s": float64(int(time.Since(start).Seconds()*100)) / 100, "violations": len(viols),
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	evdir := filepath.Join(*verif, "evidence")
	os.MkdirAll(evdir, 0o777)
	if *only < 0 {
		data, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(evdir, p.ID+".json"), append(data, '\n'), 0o666); err != nil {
			harness("%v", err)
		}
	}
	keys := []string{}
	for k := range counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s: %d cases, %d distinct non-trivial, %.1fs;", p.ID, done, len(fps), time.Since(start).Seconds())
	for _, k := range keys {
		fmt.Printf(" %s=%d", k, counts[k])
	}
	fmt.Println()
	for _, v := range viols {
		path := filepath.Join(evdir, fmt.Sprintf("replay-%s-%d.txt", p.ID, v.k))
		text := fmt.Sprintf("property %s, case %d, seed %d, tier %s\nreplay: VERIF_SEED=%d VERIF_TIER=%s %s/run.sh %s -case %d\n\n%s\n",
			p.ID, v.k, seed, tier, seed, tier, *verif, p.ID, v.k, v.msg)
		os.WriteFile(path, []byte(text), 0o666)
		msg := v.msg
		if len(msg) > 1500 {
			msg = msg[:1500] + "..."
		}
		fmt.Printf("--- case %d\n%s\n", v.k, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	if len(viols) > 0 {
		os.Exit(1)
	}
	if len(errs) > 0 {
		fmt.Printf("INCONCLUSIVE: %s\n", strings.Join(errs, "\n"))
		os.Exit(3)
	}
	if *only < 0 && *n == 0 {
		for k, want := range p.MinEvent {
			if counts[k] < want {
				fmt.Printf("INCONCLUSIVE: monitor %q observed %d events, needs %d\n", k, counts[k], want)
				os.Exit(3)
			}
		}
	}
}
