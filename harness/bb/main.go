// Package bb holds the monitors; its Main runs the monitors of one property (or lists them).
package bb

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/henrydcase/nobs/utils"

	"vharness/mon"
	"vharness/probe"
)

// Main is the entry point of the command.
func Main() {
	if len(os.Args) > 2 && os.Args[1] == "-fakecpu" {
		os.Exit(traceSelf(os.Args[2], os.Args[3:]))
	}
	if len(os.Args) == 2 && os.Args[1] == "-cpuflags" {
		printFlags()
		return
	}
	if len(os.Args) == 3 && os.Args[1] == "-firstuse" && firstUseHook != nil {
		seed, _ := strconv.ParseUint(os.Args[2], 10, 64)
		firstUseHook(seed)
		return
	}
	if strings.Contains(","+os.Getenv("VERIF_CPU")+",", ",noaes,") {
		utils.X86.HasAES = false
	}
	if f := os.Getenv("VERIF_POISON"); f != "" {
		if err := poison(f); err != nil {
			fmt.Println("VERIF_UNRUNNABLE: instructions cannot be removed here:", err)
			os.Exit(3)
		}
	}
	var cfg mon.Config
	streams := flag.String("streams", "", "comma separated stream names")
	list := flag.Bool("list", false, "list streams")
	probes := flag.Bool("probes", false, "list probes")
	flag.StringVar(&cfg.Prop, "prop", "", "property id")
	flag.StringVar(&cfg.Tier, "tier", "quick", "")
	flag.Uint64Var(&cfg.Seed, "seed", 1, "")
	flag.IntVar(&cfg.Shard, "shard", 0, "")
	flag.IntVar(&cfg.Of, "of", 1, "")
	flag.IntVar(&cfg.Only, "only", -1, "run only this case")
	flag.Float64Var(&cfg.Scale, "scale", 1, "")
	flag.Float64Var(&cfg.CaseCPU, "casecpu", 240, "")
	flag.Float64Var(&cfg.Budget, "budget", 0, "")
	flag.StringVar(&cfg.Out, "out", "/dev/stdout", "")
	flag.Parse()
	if *list {
		for _, s := range mon.StreamNames(cfg.Prop) {
			fmt.Println(s)
		}
		return
	}
	if *probes {
		n := probe.Names()
		sort.Strings(n)
		fmt.Println(strings.Join(n, "\n"))
		return
	}
	if *streams != "" {
		cfg.Streams = map[string]bool{}
		for _, s := range strings.Split(*streams, ",") {
			cfg.Streams[s] = true
		}
	}
	os.Exit(mon.Run(cfg))
}
