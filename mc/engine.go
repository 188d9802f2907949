package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Check is the state of one check in one process. The exploring processes (shards) split every space between
// them; the parent merges what they report.
type Check struct {
	ID       string
	Tier     string
	Seed     int
	Level    string
	Start    time.Time
	Deadline time.Time // no new work is started after this
	Assume   []string
	Rule     string

	shard, shards int

	firsts map[string]bool // calls which begin by taking a lock
	tape   []byte          // an existing tape

	mu       sync.Mutex
	R        Result
	known    []Known
	complete bool
}

// Result is what a shard hands to the parent.
type Result struct {
	Viol     []Violation
	KnownHit map[string]int
	Counts   map[string]int64
	Distinct map[string]map[uint64]bool
	Spaces   map[string]*Space
	Order    []string
	Samples  []string
	Notes    []string
}

// Space is one completely enumerated space: how many of its elements were executed.
type Space struct {
	What  string
	Total int64
	Done  int64
	Cut   bool // the deadline or enough violations ended it early
	Sum   bool // the total is the sum of those of the shards
}

type Violation struct {
	Key    string   `json:"key"` // stable identification of what failed
	Sub    string   `json:"sub"`
	Cfg    string   `json:"cfg,omitempty"`
	Ops    []string `json:"history,omitempty"`
	Detail string   `json:"detail"`
}

type Known struct{ Property, Key, Text string }

func (c *Check) quick() bool { return c.Tier != "thorough" }
func (c *Check) over() bool  { return time.Now().After(c.Deadline) }

// pick returns q in the quick tier and t in the thorough one.
func (c *Check) pick(q, t int) int {
	if c.quick() {
		return q
	}
	return t
}

func (c *Check) add(k string, n int64) {
	c.mu.Lock()
	c.R.Counts[k] += n
	c.mu.Unlock()
}

func h64(v string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(v))
	return h.Sum64()
}

// saw counts v as one distinct element of a set.
func (c *Check) saw(set, v string) {
	c.mu.Lock()
	if c.R.Distinct[set] == nil {
		c.R.Distinct[set] = map[uint64]bool{}
	}
	c.R.Distinct[set][h64(v)] = true
	c.mu.Unlock()
}

func (c *Check) nviol() int { c.mu.Lock(); defer c.mu.Unlock(); return len(c.R.Viol) }

func (c *Check) sample(format string, a ...interface{}) {
	c.mu.Lock()
	if len(c.R.Samples) < 6 {
		c.R.Samples = append(c.R.Samples, fmt.Sprintf(format, a...))
	}
	c.mu.Unlock()
}

func (c *Check) note(s string) {
	c.mu.Lock()
	if len(c.R.Notes) < 20 {
		c.R.Notes = append(c.R.Notes, s)
	}
	c.mu.Unlock()
}

func (c *Check) space(name, what string, total int64) *Space {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := c.R.Spaces[name]
	if s == nil {
		s = &Space{What: what, Total: total}
		c.R.Spaces[name] = s
		c.R.Order = append(c.R.Order, name)
	}
	return s
}

// report records a violation unless it is a listed known finding. It returns true if it counts.
func (c *Check) report(v Violation) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.known {
		if k.Property == c.ID && k.Key == v.Key {
			c.R.KnownHit[k.Key]++
			return false
		}
	}
	if len(c.R.Viol) < 50 {
		c.R.Viol = append(c.R.Viol, v)
	}
	return true
}

// isKnown says whether a violation with that key is listed.
func (c *Check) isKnown(key string) bool {
	for _, k := range c.known {
		if k.Property == c.ID && k.Key == key {
			return true
		}
	}
	return false
}

func loadKnown(file string) []Known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []Known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " | ", 3)
		if len(f) == 3 {
			out = append(out, Known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
		}
	}
	return out
}

// ---- crash journal: what this shard is executing, so that the parent can name it if the process dies

var journalFile string

func journal(s string) {
	if journalFile != "" {
		os.WriteFile(journalFile, []byte(s), 0o644)
	}
}

// guarded runs f, turning panics into an outcome and hangs into an outcome.
var hangLimit = 60 * time.Second

func guarded(f func() Out) Out {
	ch := make(chan Out, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- Out{Step: "panic", Class: fmt.Sprintf("panic: %v", r), Info: string(debug.Stack())}
			}
		}()
		ch <- f()
	}()
	t := time.NewTimer(hangLimit)
	defer t.Stop()
	select {
	case o := <-ch:
		return o
	case <-t.C:
		return Out{Step: "hang", Class: "hang: call did not return within " + hangLimit.String(), Info: allStacks()}
	}
}

// guardS is guarded for a function which returns a description of what is wrong.
func guardS(f func() string) string {
	var d string
	o := guarded(func() Out { d = f(); return ok() })
	if o.Class != "ok" {
		return o.Class + "\n" + o.Info
	}
	return d
}

func isHang(o Out) bool { return o.Step == "hang" }

// each runs f for every i in [0,n) that belongs to this shard, until the deadline.
func (c *Check) each(name, what string, n int64, f func(i int64)) {
	sp := c.space(name, what, n)
	if only := os.Getenv("MC_ONLY"); only != "" && !strings.Contains(name, only) { // for development
		sp.Cut = true
		return
	}
	// Short spaces start at different shards.
	first := (int64(c.shard) + int64(h64(name+what)%64)) % int64(c.shards)
	for i := first; i < n; i += int64(c.shards) {
		if c.over() || c.nviol() >= maxViol {
			sp.Cut = true
			return
		}
		f(i)
		sp.Done++
	}
}

// ---- exhaustive enumeration of operation sequences

// Oracle follows one execution.
type Oracle interface {
	// Step is called after each operation; check says whether to do the expensive comparison (the last
	// operations of a history; what happened before has been checked by a shorter or sibling history).
	// It returns a description of what is wrong, or "".
	Step(in *Inst, op Op, out Out, check bool) string
	// State names the state reached, for counting.
	State() string
}

type SeqSpec struct {
	Name     string
	Cfg      Cfg
	Ops      []Op
	Depth    int
	Setup    []Op // executed first
	DB       string
	Oracle   func(in *Inst) Oracle
	Opt      Opt
	FreshOpt func() Opt                    // options made anew for each instance
	Live     func(in *Inst) (*Inst, error) // what the calls are made on, given a fresh instance
}

func opNames(ops []Op) []string {
	var s []string
	for _, o := range ops {
		s = append(s, o.Name)
	}
	return s
}

// runSeq executes one history; returns -2 or the index of the failing step, and a description.
func runSeq(c *Check, sp *SeqSpec, seq []Op, checkFrom int) (int, string, string) {
	opt := sp.Opt
	if sp.FreshOpt != nil {
		opt = sp.FreshOpt()
	}
	in, err := freshInst(sp.Cfg, sp.DB, opt)
	if err != nil {
		return -1, "initialize failed: " + err.Error(), ""
	}
	hung := false
	defer func() {
		if !hung {
			in.Destroy()
		}
	}()
	if sp.Live != nil {
		fresh := in
		if in, err = sp.Live(fresh); err != nil {
			in = fresh
			return -1, "preparing failed: " + err.Error(), ""
		}
	}
	or := sp.Oracle(in)
	var trace []string
	for i, op := range seq {
		op := op
		out := guarded(func() Out { return op.Do(in) })
		trace = append(trace, out.Class)
		if c != nil {
			c.add("transitions", 1)
		}
		if isHang(out) || out.Step == "panic" {
			hung = true
			return i, out.Class, out.Info
		}
		var d string
		op.Look = op.Look || i == checkFrom-1
		o2 := guarded(func() Out { d = or.Step(in, op, out, i >= checkFrom); return ok() })
		if o2.Class != "ok" {
			hung = true
			return i, "while observing: " + o2.Class, o2.Info
		}
		if d != "" {
			return i, d, ""
		}
		if c != nil && i >= checkFrom {
			c.saw("states", or.State())
		}
	}
	return -2, strings.Join(trace, ","), ""
}

// exploreSeqs runs every sequence of exactly Depth operations (and so every shorter prefix).
func (c *Check) exploreSeqs(sp *SeqSpec) {
	n := len(sp.Ops)
	total := int64(1)
	for i := 0; i < sp.Depth; i++ {
		total *= int64(n)
	}
	what := fmt.Sprintf("all %d^%d call sequences after %d set-up calls under %s", n, sp.Depth, len(sp.Setup), sp.Cfg.norm())
	c.each(sp.Name+" "+sp.Cfg.keyPart()+fmt.Sprint(sp.Cfg.norm().RS), what, total, func(k int64) {
		idx := make([]int, sp.Depth)
		r := k
		for i := sp.Depth - 1; i >= 0; i-- {
			idx[i] = int(r % int64(n))
			r /= int64(n)
		}
		// A prefix is checked only by the sequence that continues it with first operations.
		from := sp.Depth - 1
		for from > 0 && idx[from] == 0 {
			from--
		}
		seq := append([]Op{}, sp.Setup...)
		for _, j := range idx {
			seq = append(seq, sp.Ops[j])
		}
		journal(sp.Name + " " + sp.Cfg.norm().String() + " [" + strings.Join(opNames(seq), "; ") + "]")
		at, d, info := runSeq(c, sp, seq, len(sp.Setup)+from)
		c.add("histories", 1)
		if at == -2 {
			c.saw("outcome vectors", sp.Name+d)
			if k%997 == 1 {
				c.sample("%s %s: %s -> %s", sp.Name, sp.Cfg.norm(), strings.Join(opNames(seq), "; "), d)
			}
			return
		}
		c.confirmSeq(sp, seq, at, d, info)
	})
}

var maxViol = 2

// confirmSeq re-runs and minimises a violating history before reporting it.
func (c *Check) confirmSeq(sp *SeqSpec, seq []Op, at int, d, info string) {
	if at >= 0 && at < len(seq) {
		seq = seq[:at+1]
	}
	if !strings.Contains(d, "hang:") {
		hits := 0
		for i := 0; i < 3; i++ {
			if a, _, _ := runSeq(nil, sp, seq, 0); a != -2 {
				hits++
			}
		}
		if hits < 2 {
			c.add("unreproduced", 1)
			c.note("not reproduced: " + strings.Join(opNames(seq), "; ") + ": " + d)
			return
		}
		// Greedy shrink: drop operations while some violation at the last operation remains.
		for changed := true; changed; {
			changed = false
			for i := 0; i < len(seq)-1; i++ {
				cand := append(append([]Op{}, seq[:i]...), seq[i+1:]...)
				if a, dd, inf := runSeq(nil, sp, cand, 0); a == len(cand)-1 {
					seq, d, info, changed = cand, dd, inf, true
					break
				}
			}
		}
	}
	det := d
	if info != "" {
		det += "\n" + info
	}
	names := opNames(seq)
	c.report(Violation{
		Key: sp.Cfg.keyPart() + strings.Join(names, "; "), Sub: sp.Name, Cfg: sp.Cfg.norm().String(),
		Ops: names, Detail: det,
	})
}

func (c Cfg) keyPart() string {
	if c.Comp == "" && c.Enc == "" && c.Sig == "" {
		return ""
	}
	return "[" + c.Comp + "," + c.Enc + "," + c.Sig + "] "
}

// ---- finishing (in the parent)

func newResult() Result {
	return Result{KnownHit: map[string]int{}, Counts: map[string]int64{}, Distinct: map[string]map[uint64]bool{}, Spaces: map[string]*Space{}}
}

func (r *Result) merge(o *Result) {
	r.Viol = append(r.Viol, o.Viol...)
	for k, v := range o.KnownHit {
		r.KnownHit[k] += v
	}
	for k, v := range o.Counts {
		r.Counts[k] += v
	}
	for k, m := range o.Distinct {
		if r.Distinct[k] == nil {
			r.Distinct[k] = map[uint64]bool{}
		}
		for x := range m {
			r.Distinct[k][x] = true
		}
	}
	for _, n := range o.Order {
		s := o.Spaces[n]
		if t := r.Spaces[n]; t == nil {
			r.Spaces[n] = s
			r.Order = append(r.Order, n)
		} else {
			t.Done += s.Done
			t.Cut = t.Cut || s.Cut
			if t.Sum {
				t.Total += s.Total
			} else if s.Total > t.Total {
				t.Total = s.Total
			}
		}
	}
	if len(r.Samples) < 16 {
		r.Samples = append(r.Samples, o.Samples...)
	}
	if len(r.Notes) < 40 {
		r.Notes = append(r.Notes, o.Notes...)
	}
}

func (c *Check) finish(root string) int {
	cov := map[string]interface{}{}
	for k, v := range c.R.Counts {
		cov[k] = v
	}
	for k, v := range c.R.Distinct {
		if k == "states" || k == "distinct_nontrivial" {
			cov[k] = len(v)
		} else {
			cov["distinct "+k] = len(v)
		}
	}
	var spaces []string
	for _, n := range c.R.Order {
		s := c.R.Spaces[n]
		spaces = append(spaces, fmt.Sprintf("%s: %s: %d of %d", n, s.What, s.Done, s.Total))
		if s.Cut {
			c.complete = false
		}
	}
	cov["spaces"] = spaces
	if h, okh := cov["histories"]; okh {
		if c.Level == "model_checking" {
			delete(cov, "histories")
			cov["traces_validated_against_impl"] = h
		}
	}
	need := []string{"evaluations", "distinct_nontrivial"}
	if c.Level == "model_checking" {
		need = []string{"states", "transitions", "traces_validated_against_impl"}
	}
	for _, k := range need {
		if _, has := cov[k]; !has {
			cov[k] = 0
		}
	}
	cov["rule"] = c.Rule
	if len(c.R.Notes) > 0 {
		cov["notes"] = c.R.Notes
	}
	if len(c.R.Samples) == 0 {
		c.R.Samples = spaces
	}
	if len(c.R.Samples) > 16 {
		c.R.Samples = c.R.Samples[:16]
	}
	cov["samples"] = c.R.Samples
	cov["exhaustive"] = c.complete && len(c.R.Viol) == 0
	kh := []string{}
	for k, n := range c.R.KnownHit {
		kh = append(kh, fmt.Sprintf("%s (%d times)", k, n))
	}
	sort.Strings(kh)
	if len(kh) > 0 {
		cov["known_findings_met"] = kh
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"wall_s": time.Since(c.Start).Seconds(), "violations": len(c.R.Viol), "assumptions": c.Assume,
	}
	os.MkdirAll(filepath.Join(root, "evidence", "replays"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(root, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 3
	}
	for _, k := range c.known {
		if k.Property == c.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, k.Key, k.Text)
		}
	}
	fmt.Printf("%s %s: %.1f s, exhaustive=%v\n  %s\n", c.ID, c.Tier, time.Since(c.Start).Seconds(), cov["exhaustive"], strings.Join(spaces, "\n  "))
	if len(c.R.Viol) == 0 {
		return 0
	}
	for i, v := range c.R.Viol {
		p := filepath.Join(root, "evidence", "replays", fmt.Sprintf("%s-%d.json", c.ID, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		if i < 5 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
			fmt.Printf("  %s %s history=[%s]\n  %s\n", v.Sub, v.Cfg, strings.Join(v.Ops, "; "), firstLines(v.Detail, 12))
		}
	}
	return 1
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n  ")
}
