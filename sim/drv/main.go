// Command simdrv runs the simulations: see /verif/DESIGN.md
package main

import (
	"flag"
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simdrv check|batch|replay ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Uint64("seed", 1, "seed")
	vr := fs.String("variant", "", "variant of the search")
	from := fs.Int("from", 0, "first case")
	to := fs.Int("to", 1, "case after the last one")
	js := fs.Bool("json", false, "print the result as JSON")
	var o checkOpts
	fs.StringVar(&o.tier, "tier", "quick", "tier")
	fs.IntVar(&o.secs, "secs", 45, "seconds to search")
	fs.IntVar(&o.shrinkSecs, "shrink", 40, "seconds to shrink")
	fs.StringVar(&o.evidence, "evidence", "/dev/null", "evidence file")
	fs.StringVar(&o.known, "known", "", "file of known findings")
	fs.StringVar(&o.replays, "replays", ".", "folder for replay files")
	fs.StringVar(&o.raceBin, "race", "", "race enabled binary")
	fs.Parse(os.Args[2:])
	o.prop, o.seed = *prop, *seed
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(o))
	case "probe":
		os.Exit(probeMain(fs.Arg(0)))
	case "batch":
		batch(*prop, *vr, *seed, *from, *to)
	case "replay":
		replay(fs.Arg(0), *js)
	case "gen":
		os.Stdout.Write(genCase(*prop, *vr, *seed, *from, false).json())
	case "texts":
		for _, x := range genCase(*prop, *vr, *seed, *from, false).Stmts {
			fmt.Println(x.Text())
		}
	default:
		os.Exit(2)
	}
}
