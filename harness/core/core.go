package core

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is the check of one property.
type Prop struct {
	ID    string
	Rule  string // how cases are made and what makes one non-trivial (for the evidence)
	Level string // exploration if empty
	Quick int    // number of cases
	Thoro int
	Race  bool // the binary must be built with the race detector
	// Workers limits the number of processes (0: one per core).
	Workers int
	Case    func(c *C)
	// Setup prepares the scratch directory of a run, before the workers start.
	Setup func(dir, repo string) error
	// Must names the events without which a run has not observed anything relevant.
	Must   []string
	Assume []string
	// CPU is the limit of CPU seconds of a case (default 40), Wall that of real time (default 240).
	CPU, Wall int
}

var Props = map[string]*Prop{}

// Aux holds the programs that checks run as processes of their own.
var Aux = map[string]func(args []string){}

func Register(p *Prop) { Props[p.ID] = p }

// C is one case.
type C struct {
	*Rand
	Idx  int
	Tier string
	Dict *Dict
	Tmp  string // scratch directory of the worker
	Dir  string // scratch directory of the run
	// Info describes the input, for replay files and samples.
	Info func() string

	st *stats
}

// AuxC makes the source of choices of a process that runs on its own.
func AuxC(dict string, seed uint64, tmp string) *C {
	return &C{Rand: NewRand(seed, HashStr("aux"), 0), Tier: "quick", Dict: LoadDict(dict), Tmp: tmp, st: &stats{Events: map[string]int{}, Distinct: map[uint64]struct{}{}}}
}

type stats struct {
	mu       sync.Mutex
	Cases    int
	Events   map[string]int
	Distinct map[uint64]struct{}
	Samples  []string
}

// Ev counts an observed event.
func (c *C) Ev(name string) { c.EvN(name, 1) }

func (c *C) EvN(name string, n int) {
	c.st.mu.Lock()
	c.st.Events[name] += n
	c.st.mu.Unlock()
}

// Seen records a distinct, non-trivial case.
func (c *C) Seen(h uint64) {
	c.st.mu.Lock()
	if len(c.st.Distinct) < 3000000 {
		c.st.Distinct[h] = struct{}{}
	}
	c.st.mu.Unlock()
}

func (c *C) SeenStr(s string) { c.Seen(HashStr(s)) }

type failure struct{ msg string }

// Fail reports a violation and ends the case.
func (c *C) Fail(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Thorough is true in the thorough tier.
func (c *C) Thorough() bool { return c.Tier == "thorough" }

// ---------------------------------------------------------------------------

type violation struct {
	Property string
	Case     int
	Tier     string
	Seed     uint64
	Kind     string
	Message  string
	Input    string
	Stack    string
}

type result struct {
	Cases    int
	Events   map[string]int
	Distinct []uint64
	Samples  []string
	Viol     *violation
	Done     bool
}

const (
	memLimit = 3 << 30
)

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func cpu() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Worker runs the cases first, first+step, ... below n and writes its result to a file.
func Worker(p *Prop, tier string, seed uint64, first, step, n int, dir string, id int) int {

	debug.SetMaxStack(512 << 20)
	tmp := filepath.Join(dir, "w"+strconv.Itoa(id))
	os.MkdirAll(tmp, 0777)
	out := filepath.Join(dir, "r"+strconv.Itoa(id)+".json")
	journal, _ := os.Create(filepath.Join(dir, "j"+strconv.Itoa(id)))
	st := &stats{Events: map[string]int{}, Distinct: map[uint64]struct{}{}}
	dict := LoadDict(filepath.Join(dir, "dict.json"))

	var cur, start, wall int64
	atomic.StoreInt64(&cur, -1)
	cpuLim := p.CPU
	if cpuLim == 0 {
		cpuLim = 40
	}
	wallLim := p.Wall
	if wallLim == 0 {
		wallLim = 240
	}

	var curC atomic.Value
	write := func(v *violation, done bool) {
		r := result{Cases: st.Cases, Events: st.Events, Samples: st.Samples, Viol: v, Done: done}
		for h := range st.Distinct {
			r.Distinct = append(r.Distinct, h)
		}
		b, _ := json.Marshal(r)
		os.WriteFile(out+".tmp", b, 0666)
		os.Rename(out+".tmp", out)
	}

	// watchdog
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			i := atomic.LoadInt64(&cur)
			if i < 0 {
				continue
			}
			kind := ""
			if time.Duration(int64(cpu())-atomic.LoadInt64(&start)) > time.Duration(cpuLim)*time.Second {
				kind = "hang (CPU time)"
			} else if time.Since(time.Unix(0, atomic.LoadInt64(&wall))) > time.Duration(wallLim)*time.Second {
				kind = "hang (no progress)"
			} else if rss() > memLimit {
				kind = "memory"
			}
			if kind != "" && atomic.LoadInt64(&cur) == i {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				v := &violation{p.ID, int(i), tier, seed, kind, kind + " limit exceeded", info(curC.Load().(*C)), string(buf)}
				b, _ := json.Marshal(result{Viol: v})
				os.WriteFile(out, b, 0666)
				os.Exit(1)
			}
		}
	}()

	for i := first; i < n; i += step {
		c := &C{Rand: NewRand(seed, HashStr(p.ID), uint64(i)), Idx: i, Tier: tier, Dict: dict, Tmp: tmp, Dir: dir, st: st}
		curC.Store(c)
		journal.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
		atomic.StoreInt64(&wall, time.Now().UnixNano())
		atomic.StoreInt64(&start, int64(cpu()))
		atomic.StoreInt64(&cur, int64(i))
		v := runCase(p, c, seed)
		atomic.StoreInt64(&cur, -1)
		if v != nil {
			write(v, false)
			return 1
		}
		st.Cases++
		if len(st.Samples) < 3 && (i/step)%7 == 3 && c.Info != nil {
			st.Samples = append(st.Samples, clip(info(c), 1500))
		}
	}
	write(nil, true)
	return 0
}

func info(c *C) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprint("(input cannot be printed: ", e, ")")
		}
	}()
	if c == nil || c.Info == nil {
		return ""
	}
	return c.Info()
}

func runCase(p *Prop, c *C, seed uint64) (v *violation) {
	defer func() {
		if e := recover(); e != nil {
			v = &violation{Property: p.ID, Case: c.Idx, Tier: c.Tier, Seed: seed}
			if f, ok := e.(failure); ok {
				v.Kind, v.Message = "oracle", f.msg
			} else {
				v.Kind, v.Message = "panic", fmt.Sprint(e)
				v.Stack = string(debug.Stack())
			}
			v.Input = info(c)
		}
	}()
	p.Case(c)
	return nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

// Sample formats a string for Info.
func Sample(s string) string { return clip(strconv.Quote(s), 20000) }

func sortedKeys(m map[string]int) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
