package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"

	"verif/core"
	_ "verif/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vh run|worker|replay|list|case ...")
		os.Exit(2)
	}
	if os.Args[1] == "aux" {
		core.Aux[os.Args[2]](os.Args[3:])
		return
	}
	fs := flag.NewFlagSet("vh", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	first := fs.Int("first", 0, "")
	step := fs.Int("step", 1, "")
	n := fs.Int("n", 0, "")
	dir := fs.String("dir", "", "")
	id := fs.Int("id", 0, "")
	root := fs.String("root", "/verif", "")
	repo := fs.String("repo", "/repo", "")
	one := fs.Int("case", -1, "")
	fs.Parse(os.Args[2:])

	switch os.Args[1] {
	case "list":
		var ids []string
		for k := range core.Props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			fmt.Println(k)
		}
		return
	case "replay":
		b, err := os.ReadFile(fs.Arg(0))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var v struct {
			Property, Tier string
			Seed           uint64
			Case           int
		}
		json.Unmarshal(b, &v)
		*prop, *tier, *seed, *one = v.Property, v.Tier, v.Seed, v.Case
	}
	p := core.Props[*prop]
	if p == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	if os.Args[1] == "worker" {
		if f := os.Getenv("VH_PROFILE"); f != "" {
			w, _ := os.Create(f + "." + strconv.Itoa(*id))
			pprof.StartCPUProfile(w)
			core.Worker(p, *tier, *seed, *first, *step, *n, *dir, *id)
			pprof.StopCPUProfile()
			return
		}
		os.Exit(core.Worker(p, *tier, *seed, *first, *step, *n, *dir, *id))
	}
	os.Exit(core.Run(core.Options{Prop: p, Tier: *tier, Seed: *seed, Root: *root, Repo: *repo, Cases: *n, Single: *one}))
}
