package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"database/sql"
	"encoding/gob"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// dumpDB renders every table but the migration log, row by row, sorted; skip names columns to leave out.
func dumpDB(db *sql.DB, skip ...string) string {
	drop := map[string]bool{}
	for _, s := range skip {
		drop[s] = true
	}
	var tables []string
	rows, err := db.QueryContext(context.Background(), "select name from sqlite_master where type='table' order by name")
	if err != nil {
		return "ERR " + err.Error()
	}
	for rows.Next() {
		var n string
		rows.Scan(&n)
		if !strings.Contains(n, "migrations") && !strings.HasPrefix(n, "sqlite_") {
			tables = append(tables, n)
		}
	}
	rows.Close()
	var lines []string
	for _, t := range tables {
		rows, err := db.QueryContext(context.Background(), "select * from "+t)
		if err != nil {
			return "ERR " + err.Error()
		}
		cols, _ := rows.Columns()
		for rows.Next() {
			vals := make([]interface{}, len(cols))
			ptr := make([]interface{}, len(cols))
			for i := range vals {
				ptr[i] = &vals[i]
			}
			rows.Scan(ptr...)
			var b strings.Builder
			b.WriteString(t)
			for i, c := range cols {
				if drop[c] {
					continue
				}
				switch x := vals[i].(type) {
				case []byte:
					fmt.Fprintf(&b, " %s=%q", c, x)
				case time.Time:
					fmt.Fprintf(&b, " %s=%d", c, x.UnixNano())
				default:
					fmt.Fprintf(&b, " %s=%v", c, x)
				}
			}
			lines = append(lines, b.String())
		}
		rows.Close()
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

var volatileCols = []string{"record", "lastknownrecord", "block", "lastknownblock", "modtime", "accesstime", "changetime", "paxrecords"}

// gnode is node in a form gob can write.
type gnode struct {
	Dir          bool
	Perm         uint32
	UID, GID     int
	Mtime, Atime int64
	Data         []byte
	Own, Touched bool
}

func (m *Model) save() map[string]gnode {
	out := map[string]gnode{}
	for k, n := range m.n {
		out[k] = gnode{n.dir, uint32(n.perm), n.uid, n.gid, n.mtime, n.atime, n.data, n.own, n.touched}
	}
	return out
}

func loadModel(s map[string]gnode) *Model {
	m := &Model{n: map[string]*node{}}
	for k, n := range s {
		m.n[k] = &node{dir: n.Dir, perm: os.FileMode(n.Perm), uid: n.UID, gid: n.GID, mtime: n.Mtime, atime: n.Atime, data: n.Data, own: n.Own, touched: n.Touched}
	}
	return m
}

// snap is one state of the search: the two files the code keeps, the reference, and how it was reached.
type snap struct {
	Tape, DB []byte
	M        map[string]gnode
	Path     []int
}

type BFSSpec struct {
	Name  string
	Cfg   Cfg
	Ops   []Op
	Depth int
	Model bool // judge every call by the reference file system
	NoDB  bool // every call is made on an instance rebuilt from the tape alone
	Setup []Op
	// Extra is checked after every transition.
	Extra func(in *Inst, before *snap, op Op, out Out) string
	Until time.Time
}

func (s *snap) open(cfg Cfg, opt Opt) (*Inst, error) {
	d := newDir()
	if err := os.WriteFile(filepath.Join(d, "t.tar"), s.Tape, 0o600); err != nil {
		panic(err)
	}
	if s.DB != nil {
		if err := os.WriteFile(filepath.Join(d, "i.db"), s.DB, 0o600); err != nil {
			panic(err)
		}
	}
	in, err := openInst(cfg, filepath.Join(d, "t.tar"), filepath.Join(d, "i.db"), opt)
	if err != nil {
		return nil, err
	}
	in.Dir = d
	if _, err := in.FS.Initialize("/", os.ModePerm); err != nil {
		in.Destroy()
		return nil, fmt.Errorf("initialize: %w", err)
	}
	return in, nil
}

// snapshot closes the instance's index and copies its files.
func (in *Inst) snapshot() (t, db []byte) {
	in.Close()
	db, err := os.ReadFile(in.DB)
	if err != nil {
		panic(err)
	}
	return in.Tape(), db
}

func hashS(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:12])
}

// exploreBFS searches the states reachable by at most Depth calls, each call made on an instance opened on the
// (tape, index) pair of the state before. States with the same index rows (tombstones included, positions and
// volatile times left out) and the same reference state are merged.
func (c *Check) exploreBFS(sp *BFSSpec) {
	dir := filepath.Join(shared, "bfs-"+hashS(sp.Name))
	os.MkdirAll(dir, 0o755)
	over := func() bool {
		return c.over() || (!sp.Until.IsZero() && time.Now().After(sp.Until)) || c.nviol() >= maxViol
	}
	var mine []string
	// claim is true for the one process that reaches a state first.
	claim := func(key string, s *snap) bool {
		f, err := os.OpenFile(filepath.Join(dir, key), os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o600)
		if err != nil {
			return false
		}
		var b bytes.Buffer
		gob.NewEncoder(&b).Encode(s)
		f.Write(b.Bytes())
		f.Close()
		return true
	}
	if c.shard == 0 {
		in, err := freshInst(sp.Cfg, "", Opt{})
		if err != nil {
			c.report(Violation{Key: "initialize", Sub: sp.Name, Cfg: sp.Cfg.String(), Detail: err.Error()})
		} else {
			m := newModel()
			for _, op := range sp.Setup {
				op.Do(in)
				op.Mod(m)
			}
			if d := m.compare(walkLight(in, "/", true)); sp.Model && d != "" {
				c.report(Violation{Key: "initialize", Sub: sp.Name, Cfg: sp.Cfg.String(), Detail: d})
			}
			t, db := in.snapshot()
			in.Destroy()
			if sp.NoDB {
				db = nil
			}
			claim("root", &snap{Tape: t, DB: db, M: m.save()})
			mine = append(mine, "root")
			c.saw("states", sp.Name+"root")
		}
	}
	for level := 0; ; level++ {
		// Meet: everybody publishes what it found, everybody reads all of it.
		me := filepath.Join(dir, fmt.Sprintf("level-%d-%d", level, c.shard))
		flag := "go\n"
		if over() {
			flag = "stop\n"
		}
		os.WriteFile(me+".tmp", []byte(flag+strings.Join(mine, "\n")), 0o600)
		os.Rename(me+".tmp", me)
		var frontier []string
		stop := false
		for k := 0; k < c.shards; k++ {
			p := filepath.Join(dir, fmt.Sprintf("level-%d-%d", level, k))
			for {
				b, err := os.ReadFile(p)
				if err == nil {
					l := strings.Split(string(b), "\n")
					if l[0] == "stop" {
						stop = true
					}
					for _, x := range l[1:] {
						if x != "" {
							frontier = append(frontier, x)
						}
					}
					break
				}
				time.Sleep(2 * time.Millisecond)
			}
		}
		sort.Strings(frontier)
		if len(frontier) == 0 || level == sp.Depth {
			return
		}
		spc := c.space(fmt.Sprintf("%s level %d", sp.Name, level), fmt.Sprintf("transitions by %d calls from every state first reached by %d calls under %s", len(sp.Ops), level, sp.Cfg.norm()), int64(len(frontier)*len(sp.Ops)))
		mine = nil
		if stop {
			spc.Cut = true
			return
		}
		for i := c.shard; i < len(frontier); i += c.shards {
			p := filepath.Join(dir, frontier[i])
			b, err := os.ReadFile(p)
			if err != nil {
				panic(err)
			}
			var s snap
			if err := gob.NewDecoder(bytes.NewReader(b)).Decode(&s); err != nil {
				panic(err)
			}
			os.Truncate(p, 0)
			for oi, op := range sp.Ops {
				if over() {
					spc.Cut = true
					break
				}
				spc.Done++
				if key, ns := c.bfsStep(sp, &s, oi, op); ns != nil && claim(key, ns) {
					mine = append(mine, key)
					c.saw("states", sp.Name+key)
				}
			}
		}
	}
}

func (sp *BFSSpec) names(path []int) []Op {
	var out []Op
	for _, i := range path {
		out = append(out, sp.Ops[i])
	}
	return out
}

func (c *Check) bfsStep(sp *BFSSpec, s *snap, oi int, op Op) (string, *snap) {
	path := append(append([]int{}, s.Path...), oi)
	hist := opNames(sp.names(path))
	journal(sp.Name + " [" + strings.Join(hist, "; ") + "]")
	c.add("transitions", 1)
	c.add("histories", 1)
	full := append(opNames(sp.Setup), hist...)
	how := " (index reopened before every call)"
	if sp.NoDB {
		how = " (index rebuilt from the tape before every call)"
	}
	once := func() (d string, key string, ns *snap) {
		d = guardS(func() string {
			in, err := s.open(sp.Cfg, Opt{})
			if err != nil {
				return "reopen before the last call: " + err.Error()
			}
			defer in.Destroy()
			out := op.Do(in)
			state := ""
			var m *Model
			if sp.Model {
				m = loadModel(s.M)
				m.touch(op.Path)
				want := op.Mod(m)
				m.touch(op.Path)
				if d := judge(want, out); d != "" {
					return d
				}
				if d := m.compare(walkLight(in, "/", true)); d != "" {
					return "after " + op.Name + " (" + out.Class + "): " + d
				}
				state = m.String()
			} else {
				state = walk(in, "/", true).stable()
			}
			if sp.Extra != nil {
				if d := sp.Extra(in, s, op, out); d != "" {
					return "after " + op.Name + " (" + out.Class + "): " + d
				}
			}
			key = hashS(dumpDB(rawDB(in.MP), volatileCols...) + state)
			ns = &snap{Path: path}
			if m != nil {
				ns.M = m.save()
			}
			ns.Tape, ns.DB = in.snapshot()
			if sp.NoDB {
				ns.DB = nil
			}
			return ""
		})
		return
	}
	d, key, ns := once()
	if d == "" {
		return key, ns
	}
	if d2, _, _ := once(); d2 == "" {
		c.add("unreproduced", 1)
		c.note("not reproduced: " + strings.Join(hist, "; ") + ": " + d)
		return key, nil
	}
	c.report(Violation{Key: sp.Cfg.keyPart() + strings.Join(full, "; ") + how, Sub: sp.Name + how, Cfg: sp.Cfg.norm().String(), Ops: full, Detail: d})
	return key, nil
}
