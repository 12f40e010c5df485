// vmon runs the monitors of this repository.
//
//	vmon run C01 [-seed n] [-tier quick|thorough] [-verif dir] [-variant name] [-only idx]
package main

import (
	"flag"
	"fmt"
	"os"

	"verif/harness/core"
	_ "verif/harness/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println(core.IDs())
		return
	}
	mode := os.Args[1]
	if len(os.Args) < 3 {
		os.Exit(3)
	}
	id := os.Args[2]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	verif := fs.String("verif", "/verif", "")
	variant := fs.String("variant", "", "")
	only := fs.Int("only", -1, "")
	shard := fs.Int("shard", 0, "")
	of := fs.Int("of", 1, "")
	total := fs.Int("total", 0, "")
	fs.Parse(os.Args[3:])
	switch mode {
	case "run":
		os.Exit(core.Supervise(id, *seed, *tier, *verif, *variant, *only))
	case "variants":
		for _, v := range core.Variants(id) {
			fmt.Println(v)
		}
	case "worker":
		core.Worker(id, *seed, *tier, *shard, *of, *total, *only)
	default:
		os.Exit(3)
	}
}
