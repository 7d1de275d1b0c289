// Command harness runs the monitors. See ../DESIGN.md.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"

	"verif/harness/mon"
	_ "verif/harness/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: harness run ID TIER | replay FILE | list")
		os.Exit(2)
	}
	atoi := func(s string) int { n, _ := strconv.Atoi(s); return n }
	switch os.Args[1] {
	case "child": // ID tier seed shard shards only path
		a := os.Args[2:]
		seed, _ := strconv.ParseInt(a[2], 10, 64)
		mon.Child(a[0], a[1], seed, atoi(a[3]), atoi(a[4]), atoi(a[5]), a[6])
	case "run":
		tier := os.Args[3]
		seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		if seed == 0 {
			seed = 1
		}
		os.Exit(mon.Parent(mon.Opts{ID: os.Args[2], Tier: tier, Seed: seed, Root: root(), Only: -1, Race: os.Getenv("MON_RACE") == "1"}))
	case "replay":
		var r struct {
			Property, Tier string
			Seed           int64
			Case           int
		}
		b, err := os.ReadFile(os.Args[2])
		if err != nil || json.Unmarshal(b, &r) != nil {
			fmt.Println("cannot read replay file", os.Args[2], err)
			os.Exit(2)
		}
		os.Exit(mon.Parent(mon.Opts{ID: r.Property, Tier: r.Tier, Seed: r.Seed, Root: root(), Only: r.Case, Race: os.Getenv("MON_RACE") == "1"}))
	case "list":
		var ids []string
		for id := range mon.Props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	default:
		os.Exit(2)
	}
}

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}
