package core

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// Options of a run.
type Options struct {
	Prop   *Prop
	Tier   string
	Seed   uint64
	Root   string // /verif
	Repo   string
	Cases  int // overrides the number of cases if > 0
	Single int // runs one case only, if >= 0
}

type proc struct {
	id    int
	cmd   *exec.Cmd
	errb  *bytes.Buffer
	done  chan error
	alone bool
}

// Run runs a check and returns its exit code.
func Run(o Options) int {

	t0 := time.Now()
	p := o.Prop
	dir, err := os.MkdirTemp("", "vh-"+p.ID+"-")
	if err != nil {
		fmt.Println("cannot create a scratch directory:", err)
		return 2
	}
	os.Chmod(dir, 0777)
	defer os.RemoveAll(dir)

	SaveDict(filepath.Join(dir, "dict.json"), o.Repo)

	if p.Setup != nil {
		if err := p.Setup(dir, o.Repo); err != nil {
			fmt.Println("cannot prepare the check:", err)
			return 2
		}
	}

	n := p.Quick
	if o.Tier == "thorough" {
		n = p.Thoro
	}
	if o.Cases > 0 {
		n = o.Cases
	}
	w := runtime.NumCPU()
	if p.Workers > 0 && p.Workers < w {
		w = p.Workers
	}
	if w > n {
		w = n
	}
	first := 0
	if o.Single >= 0 {
		w, first, n = 1, o.Single, o.Single+1
	}

	limit := 800 * time.Second
	if o.Tier == "thorough" {
		limit = 4 * time.Hour
	}
	deadline := time.Now().Add(limit)

	var procs []*proc
	for i := 0; i < w; i++ {
		procs = append(procs, start(o, dir, i, first+i, w, n))
	}

	tot := result{Events: map[string]int{}}
	distinct := map[uint64]struct{}{}
	var viol *violation
	truncated, stopped := false, false

	for _, q := range procs {
		var err error
		select {
		case err = <-q.done:
		case <-time.After(time.Until(deadline)):
			truncated = true
			q.cmd.Process.Kill()
			err = <-q.done
		}
		r := readResult(dir, q.id)
		if r == nil && err == nil {
			err = fmt.Errorf("no result")
		}
		if r != nil {
			merge(&tot, r, distinct)
			if r.Viol != nil && viol == nil {
				viol = r.Viol
				if strings.HasPrefix(viol.Kind, "hang") || viol.Kind == "memory" {
					viol = confirm(o, dir, viol)
				}
			}
		}
		if err != nil && (r == nil || r.Viol == nil) && viol == nil && !truncated && !stopped {
			viol = crash(o, dir, q, err)
		}
		if viol != nil && !stopped {
			stopped = true
			for _, k := range procs {
				if k.cmd.ProcessState == nil {
					k.cmd.Process.Kill()
				}
			}
		}
	}

	ev := map[string]interface{}{}
	cov := map[string]interface{}{
		"evaluations":         tot.Cases,
		"distinct_nontrivial": len(distinct),
		"rule":                p.Rule,
		"samples":             tot.Samples,
		"events":              tot.Events,
		"workers":             w,
		"truncated":           truncated,
	}
	if tot.Samples == nil {
		cov["samples"] = []string{"(no case was completed)"}
	}
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	nv := 0
	if viol != nil {
		nv = 1
	}
	seed := int64(o.Seed)
	ev["property"] = p.ID
	ev["tier"] = o.Tier
	ev["seed"] = seed
	ev["level"] = level
	ev["coverage"] = cov
	ev["assumptions"] = append([]string{}, p.Assume...)
	ev["wall_s"] = time.Since(t0).Seconds()
	ev["violations"] = nv
	if o.Single < 0 {
		os.MkdirAll(filepath.Join(o.Root, "evidence"), 0777)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(o.Root, "evidence", p.ID+".json"), b, 0666); err != nil {
			fmt.Println(err)
			return 2
		}
	}

	fmt.Printf("%s: %d cases, %d distinct non-trivial, %.1fs\n", p.ID, tot.Cases, len(distinct), time.Since(t0).Seconds())
	for _, k := range sortedKeys(tot.Events) {
		fmt.Printf("  %-40s %d\n", k, tot.Events[k])
	}
	if truncated {
		fmt.Println("  stopped at the time limit")
	}

	if viol != nil {
		return report(o, viol)
	}
	if o.Single < 0 && !truncated {
		for _, m := range p.Must {
			if tot.Events[m] == 0 {
				fmt.Printf("%s: nothing observed for %q: the check is not working\n", p.ID, m)
				return 3
			}
		}
	}
	return 0
}

// shown makes text fit for a terminal.
func shown(s string) string {
	s = strings.ToValidUTF8(clip(s, 3000), "\\?")
	return strings.Map(func(r rune) rune {
		if r < ' ' && r != '\n' && r != '\t' || r >= 0x7f && r < 0xa0 {
			return '.'
		}
		return r
	}, s)
}

func report(o Options, v *violation) int {
	d := filepath.Join(o.Root, "replays")
	os.MkdirAll(d, 0777)
	f := filepath.Join(d, fmt.Sprintf("%s-%s-%d-%d.json", v.Property, v.Tier, v.Seed, v.Case))
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(f, b, 0666)
	fmt.Printf("%s case %d (%s): %s\n", v.Property, v.Case, v.Kind, shown(v.Message))
	if v.Input != "" {
		fmt.Printf("input: %s\n", shown(v.Input))
	}
	if v.Stack != "" {
		fmt.Printf("%s\n", shown(v.Stack))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, f)
	return 1
}

func start(o Options, dir string, id, first, step, n int) *proc {
	self, _ := os.Executable()
	q := &proc{id: id, errb: &bytes.Buffer{}, done: make(chan error, 1)}
	q.cmd = exec.Command(self, "worker", "-prop", o.Prop.ID, "-tier", o.Tier, "-seed", strconv.FormatUint(o.Seed, 10),
		"-first", strconv.Itoa(first), "-step", strconv.Itoa(step), "-n", strconv.Itoa(n), "-dir", dir, "-id", strconv.Itoa(id))
	q.cmd.Stderr = &limited{b: q.errb}
	q.cmd.Stdout = q.cmd.Stderr
	gomax := "2"
	if o.Prop.Workers > 0 && o.Prop.Workers < 4 {
		gomax = "8"
	}
	q.cmd.Env = append(os.Environ(), "GOMAXPROCS="+gomax, "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66 history_size=3")
	if err := q.cmd.Start(); err != nil {
		q.done <- err
		return q
	}
	go func() { q.done <- q.cmd.Wait() }()
	return q
}

// limited keeps the first part of what a worker prints.
type limited struct {
	b *bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func readResult(dir string, id int) *result {
	b, err := os.ReadFile(filepath.Join(dir, "r"+strconv.Itoa(id)+".json"))
	if err != nil {
		return nil
	}
	r := &result{}
	if json.Unmarshal(b, r) != nil {
		return nil
	}
	return r
}

func merge(t, r *result, d map[uint64]struct{}) {
	t.Cases += r.Cases
	for k, v := range r.Events {
		t.Events[k] += v
	}
	for _, h := range r.Distinct {
		d[h] = struct{}{}
	}
	if len(t.Samples) < 8 {
		t.Samples = append(t.Samples, r.Samples...)
	}
}

func journalled(dir string, id int) int {
	b, err := os.ReadFile(filepath.Join(dir, "j"+strconv.Itoa(id)))
	if err != nil {
		return -1
	}
	n, err := strconv.Atoi(strings.TrimSpace(string(b)))
	if err != nil {
		return -1
	}
	return n
}

// confirm runs a case that exceeded a limit again, alone.
func confirm(o Options, dir string, v *violation) *violation {
	os.Remove(filepath.Join(dir, "r1000.json"))
	q := start(o, dir, 1000, v.Case, 1, v.Case+1)
	<-q.done
	r := readResult(dir, 1000)
	if r != nil && r.Done {
		fmt.Printf("case %d exceeded a limit (%s) but not when run alone: ignored\n", v.Case, v.Kind)
		return nil
	}
	return v
}

// crash finds out why a worker ended without a result.
func crash(o Options, dir string, q *proc, err error) *violation {
	out := q.errb.String()
	i := journalled(dir, q.id)
	v := &violation{Property: o.Prop.ID, Case: i, Tier: o.Tier, Seed: o.Seed, Kind: "crash", Message: err.Error(), Stack: clip(out, 20000)}
	switch {
	case strings.Contains(out, "WARNING: DATA RACE"):
		v.Kind, v.Message = "data race", "the race detector reported a data race"
		return v
	case strings.Contains(out, "fatal error: ") || strings.Contains(out, "panic: "):
		// An unrecoverable crash (stack overflow, concurrent map access, panic in a goroutine...)
		v.Message = firstLine(out, "fatal error: ", "panic: ", "runtime: goroutine stack exceeds")
		return v
	}
	// Killed from outside, or no explanation: believe it only if it happens again.
	q2 := start(o, dir, 1001, i, 1, i+1)
	err = <-q2.done
	r := readResult(dir, 1001)
	if r != nil && r.Done {
		fmt.Printf("worker %d ended at case %d (%v), but the case is fine when run alone\n", q.id, i, err)
		return nil
	}
	if r != nil && r.Viol != nil {
		return r.Viol
	}
	return v
}

func firstLine(s string, keys ...string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, k := range keys {
			if strings.Contains(l, k) {
				return l
			}
		}
	}
	return ""
}
