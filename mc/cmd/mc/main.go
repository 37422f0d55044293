// Command mc runs the check of one property.
package main

import (
	"flag"
	"io"
	"os"
	"runtime/debug"
	"strconv"
	"time"

	"verif/mc/chk"
)

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	dir := flag.String("dir", "/verif", "directory of the framework")
	space := flag.String("space", "", "only the spaces with this prefix")
	bound := flag.Int("bound", -1, "deviation bound (with -debug)")
	secs := flag.Int("secs", 0, "budget in seconds")
	dbg := flag.Bool("debug", false, "print all differences")
	work := flag.String("work", "", "scratch directory")
	one := flag.Bool("one", false, "parse the text on stdin")
	replay := flag.String("replay", "", "replay file")
	flag.Parse()
	if *one {
		debug.SetMaxStack(1000000000)
		b, _ := io.ReadAll(os.Stdin)
		chk.Parse(string(b))
		return
	}
	if *dbg {
		chk.Debug(*prop, *space, *bound, time.Duration(*secs)*time.Second, 8)
		return
	}
	cfg := chk.Config{Prop: *prop, Tier: *tier, Dir: *dir, Space: *space, Work: *work}
	cfg.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	cfg.Budget = 150 * time.Second
	if *tier == "thorough" {
		cfg.Budget = 20 * time.Minute
	}
	if *secs > 0 {
		cfg.Budget = time.Duration(*secs) * time.Second
	}
	if *replay != "" {
		os.Exit(chk.Replay(cfg, *replay))
	}
	if os.Getenv("VERIF_SLOTS") == "" {
		os.Exit(chk.Supervise(cfg, os.Args[1:]))
	}
	os.Exit(chk.Main(cfg))
}
