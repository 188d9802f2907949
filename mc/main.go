package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func allStacks() string {
	b := make([]byte, 1<<20)
	return string(b[:runtime.Stack(b, true)])
}

type checkDef struct {
	level  string
	run    func(c *Check)
	assume []string
	rule   string
	quickS int // seconds after which the quick tier starts no new work
	thorS  int
	single bool // one exploring process only
}

var checks = map[string]checkDef{}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: mc ID")
		os.Exit(3)
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	if len(os.Args) > 2 && os.Args[1] == "child" {
		os.Exit(child(os.Args[2], root))
	}
	if len(os.Args) > 3 && os.Args[1] == "instrument" {
		if err := instrument(os.Args[2], os.Args[3]); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		os.Exit(0)
	}
	if len(os.Args) > 3 && os.Args[1] == "cheap-scrypt" {
		if err := cheapScrypt(os.Args[2], os.Args[3]); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		os.Exit(0)
	}
	if _, found := checks[os.Args[1]]; !found {
		fmt.Println("no check for", os.Args[1])
		os.Exit(3)
	}
	os.Exit(parent(os.Args[1], root))
}

func newCheck(id, root string) *Check {
	def := checks[id]
	tier := or(os.Getenv("VERIF_TIER"), "quick")
	seed, _ := strconv.Atoi(or(os.Getenv("VERIF_SEED"), "1"))
	c := &Check{ID: id, Tier: tier, Seed: seed, Start: time.Now(), R: newResult(), complete: true, shards: 1,
		Level: def.level, Assume: def.assume, Rule: def.rule}
	if c.Assume == nil {
		c.Assume = []string{}
	}
	lim := def.quickS
	if !c.quick() {
		lim = def.thorS
	}
	if s := os.Getenv("MC_LIMIT"); s != "" {
		lim, _ = strconv.Atoi(s)
	}
	c.Deadline = c.Start.Add(time.Duration(lim) * time.Second)
	c.known = loadKnown(filepath.Join(root, "known_findings.txt"))
	return c
}

// shared is a directory all exploring processes of this run see.
var shared string

func child(id, root string) int {
	shared = os.Getenv("MC_SHARED")
	k := os.Getenv("MC_SHARD")
	scratch = filepath.Join(shared, "s"+k)
	os.MkdirAll(scratch, 0o755)
	journalFile = filepath.Join(shared, "journal"+k)
	c := newCheck(id, root)
	c.shard, _ = strconv.Atoi(k)
	c.shards, _ = strconv.Atoi(os.Getenv("MC_SHARDS"))
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(3 << 30)
	if p := os.Getenv("MC_PROF"); p != "" && k == "0" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	checks[id].run(c)
	f, err := os.Create(filepath.Join(shared, "result"+k))
	if err != nil {
		fmt.Println(err)
		return 3
	}
	if err := gob.NewEncoder(f).Encode(&c.R); err != nil {
		fmt.Println(err)
		return 3
	}
	f.Close()
	return 0
}

type limitedWriter struct {
	w *bytes.Buffer
	n int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(p)
	}
	return len(p), nil
}

// parent runs the exploration in child processes, so that a crash of the code under test (a panic in one of
// its own goroutines cannot be recovered) is reported as what it is.
func parent(id, root string) int {
	cleanup := initScratch()
	defer cleanup()
	shared = scratch
	self, err := os.Executable()
	if err != nil {
		fmt.Println(err)
		return 3
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if s := os.Getenv("MC_WORKERS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	if checks[id].single {
		n = 1
	}
	c := newCheck(id, root)
	type kid struct {
		cmd *exec.Cmd
		err error
		out bytes.Buffer
	}
	kids := make([]*kid, n)
	done := make(chan int, n)
	for i := range kids {
		k := &kid{}
		k.cmd = exec.Command(self, "child", id)
		k.cmd.Env = append(os.Environ(), "MC_SHARED="+shared, fmt.Sprintf("MC_SHARD=%d", i), fmt.Sprintf("MC_SHARDS=%d", n), "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(shared, "race"))
		k.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		k.cmd.Stdout = &limitedWriter{&k.out, 1 << 20}
		k.cmd.Stderr = k.cmd.Stdout
		kids[i] = k
		started := make(chan error)
		go func(i int) {
			runtime.LockOSThread() // Pdeathsig is tied to the thread
			err := k.cmd.Start()
			started <- err
			if err == nil {
				k.err = k.cmd.Wait()
			} else {
				k.err = err
			}
			done <- i
		}(i)
		<-started
	}
	kill := func() {
		for _, k := range kids {
			if k.cmd.Process != nil {
				k.cmd.Process.Kill()
			}
		}
	}
	crashed := -1
	hard := time.After(time.Until(c.Deadline) + 240*time.Second)
	for left := n; left > 0; {
		select {
		case i := <-done:
			left--
			if kids[i].err != nil && crashed < 0 {
				crashed = i
				kill()
			}
		case <-hard:
			fmt.Println("the exploring processes did not end in time")
			kill()
			return 3
		}
	}
	if crashed >= 0 {
		st := kids[crashed].out.String()
		crash := (strings.Contains(st, "panic:") || strings.Contains(st, "fatal error:")) &&
			(strings.Contains(st, "pojntfx/stfs/pkg/") || strings.Contains(st, "pojntfx/stfs/internal/")) &&
			!strings.Contains(st, "out of memory")
		if !crash {
			fmt.Println("exploring process ended abnormally:", kids[crashed].err)
			fmt.Println(firstLines(st, 80))
			return 3
		}
		b, _ := os.ReadFile(filepath.Join(shared, fmt.Sprintf("journal%d", crashed)))
		c.complete = false
		c.R.Samples = []string{string(b)}
		for _, k := range []string{"evaluations", "states", "transitions", "histories"} {
			c.R.Counts[k] = 1
		}
		c.saw("distinct_nontrivial", string(b))
		c.R.Viol = []Violation{{Key: "crash: " + string(b), Sub: "process crash", Ops: []string{string(b)}, Detail: "the code under test crashed the process:\n" + firstLines(st, 200)}}
		return c.finish(root)
	}
	for i := range kids {
		f, err := os.Open(filepath.Join(shared, fmt.Sprintf("result%d", i)))
		if err != nil {
			fmt.Println(err)
			return 3
		}
		var r Result
		err = gob.NewDecoder(f).Decode(&r)
		f.Close()
		if err != nil {
			fmt.Println(err)
			return 3
		}
		c.R.merge(&r)
		if s := kids[i].out.String(); s != "" {
			fmt.Print(firstLines(s, 20))
		}
	}
	return c.finish(root)
}
