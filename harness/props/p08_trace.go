package props

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

var (
	reCall = regexp.MustCompile(`^(?:\d+ +)?(\w+)\((.*)$`)
	rePid  = regexp.MustCompile(`^(\d+) `)
	reRes  = regexp.MustCompile(`^(?:\d+ +)?<\.\.\. (\w+) resumed>.*\) += (-?\d+)`)
	reRet  = regexp.MustCompile(`\) += (-?\d+)`)
	reFd   = regexp.MustCompile(`^(\d+)<([^>]*)>`)
)

// traceLog runs a process that appends to a log under strace, and checks the order of the
// system calls: those that write and flush the object must have returned before the append
// returns.
func traceLog(c *C) {
	st, err := exec.LookPath("strace")
	if err != nil {
		c.Ev("strace not available")
		return
	}
	self, _ := os.Executable()
	log, marks, out := filepath.Join(c.Tmp, "tlog"), filepath.Join(c.Tmp, "marks"), filepath.Join(c.Tmp, "trace")
	for _, f := range []string{log, marks, out} {
		os.Remove(f)
	}
	n := 12
	mode := strconv.Itoa(c.Idx / 300 % 5)
	cmd := exec.Command(st, "-f", "-y", "-s", "64", "-o", out, "-e", "trace=openat,write,pwrite64,writev,pwritev,fsync,fdatasync,sync,syncfs,msync", self, "aux", "log", log, marks, strconv.Itoa(n), mode)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	msg, err := cmd.CombinedOutput()
	b, _ := os.ReadFile(out)
	if err != nil || len(b) == 0 {
		// tracing is not possible here
		c.Ev("strace not usable")
		_ = msg
		return
	}
	c.Info = func() string { return "mode " + mode + "\n" + string(b) }

	pend := map[string]string{} // calls that have begun, by process
	cur, size, written, flushed := -1, 0, 0, false
	syncOpen := false
	ended := 0
	done := func(name, args string, ret int) {
		if ret < 0 {
			return
		}
		m := reFd.FindStringSubmatch(args)
		switch {
		case name == "openat" && strings.Contains(args, log):
			syncOpen = strings.Contains(args, "SYNC")
		case m != nil && m[2] == marks && name == "write":
			a := args[strings.Index(args, "\"")+1:]
			a = a[:strings.Index(a, "\"")]
			f := strings.Fields(a)
			k, _ := strconv.Atoi(f[1])
			if f[0] == "begin" {
				cur, written, flushed = k, 0, false
				size, _ = strconv.Atoi(f[2])
				return
			}
			if written < size {
				c.Fail("append %d returns after writing %d of %d bytes", k, written, size)
			}
			if !flushed && !syncOpen {
				c.Fail("append %d returns before its bytes are flushed", k)
			}
			ended++
			cur = -1
		case cur >= 0 && m != nil && m[2] == log && strings.Contains(name, "write"):
			written += ret
			flushed = false
		case cur >= 0 && (name == "sync" || m != nil && m[2] == log && strings.Contains(name, "sync")):
			flushed = true
		}
	}
	for _, line := range strings.Split(string(b), "\n") {
		pid := ""
		if m := rePid.FindStringSubmatch(line); m != nil {
			pid = m[1]
		}
		if m := reRes.FindStringSubmatch(line); m != nil {
			ret, _ := strconv.Atoi(m[2])
			done(m[1], pend[pid], ret)
			continue
		}
		m := reCall.FindStringSubmatch(line)
		if m == nil {
			continue
		}
		if strings.Contains(m[2], "<unfinished") {
			pend[pid] = m[2]
			continue
		}
		if r := reRet.FindAllStringSubmatch(m[2], -1); len(r) > 0 {
			ret, _ := strconv.Atoi(r[len(r)-1][1])
			done(m[1], m[2], ret)
		}
	}
	if ended != n {
		c.Ev("strace not usable")
		return
	}
	c.EvN("appends traced", ended)
	if mode >= "3" {
		c.EvN("explicit syncs traced", ended)
	}
	c.SeenStr(fmt.Sprint("trace ", mode))
}
