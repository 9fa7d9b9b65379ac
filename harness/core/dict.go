package core

import (
	"encoding/json"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Dict holds the literals found in the current source of the library. They are mixed
// into the generated inputs, since a change that treats some value specially has to
// name it.
type Dict struct {
	Strs []string
	Nums []int
	Chrs []string
}

func SaveDict(file, repo string) {
	strs, nums, chrs := map[string]bool{}, map[int]bool{}, map[string]bool{}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() && strings.HasPrefix(fi.Name(), ".") && p != repo {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		var s scanner.Scanner
		fs := token.NewFileSet()
		s.Init(fs.AddFile(p, -1, len(b)), b, func(token.Position, string) {}, 0)
		for {
			_, t, lit := s.Scan()
			if t == token.EOF {
				break
			}
			switch t {
			case token.STRING:
				if v, err := strconv.Unquote(lit); err == nil && len(v) > 0 && len(v) < 40 {
					strs[v] = true
				}
			case token.CHAR:
				if v, err := strconv.Unquote(lit); err == nil {
					chrs[v] = true
				}
			case token.INT:
				if v, err := strconv.ParseInt(lit, 0, 64); err == nil && v >= 0 && v <= 1<<40 {
					nums[int(v)] = true
				}
			}
		}
		return nil
	})
	d := Dict{}
	for k := range strs {
		d.Strs = append(d.Strs, k)
	}
	for k := range chrs {
		d.Chrs = append(d.Chrs, k)
	}
	for k := range nums {
		d.Nums = append(d.Nums, k)
	}
	sort.Strings(d.Strs)
	sort.Strings(d.Chrs)
	sort.Ints(d.Nums)
	b, _ := json.Marshal(d)
	os.WriteFile(file, b, 0666)
}

func LoadDict(file string) *Dict {
	d := &Dict{}
	b, err := os.ReadFile(file)
	if err == nil {
		json.Unmarshal(b, d)
	}
	if len(d.Strs) == 0 {
		d.Strs = []string{"_"}
	}
	if len(d.Nums) == 0 {
		d.Nums = []int{0}
	}
	if len(d.Chrs) == 0 {
		d.Chrs = []string{"x"}
	}
	return d
}

// Num returns a number of the source, or next to one, or a random one, up to max.
func (c *C) Num(max int) int {
	if c.P(40) {
		n := c.Dict.Nums[c.Intn(len(c.Dict.Nums))] + c.Range(-1, 1)
		if n >= 0 && n <= max {
			return n
		}
	}
	return c.Size(max)
}

// DictStr returns a string of the source.
func (c *C) DictStr() string { return c.Dict.Strs[c.Intn(len(c.Dict.Strs))] }
