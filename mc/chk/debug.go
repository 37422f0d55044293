package chk

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/mc/explore"
	"verif/mc/ref"
)

var allProps = []string{"P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P16"}

// Debug explores spaces and prints what differs.
func Debug(prop, space string, bound int, d time.Duration, workers int) {
	for _, sp := range spaces {
		name := sp.Name
		if space != "" && !strings.HasPrefix(name, space) {
			continue
		}
		bound := bound
		if bound < 0 {
			bound = sp.Quick
		}
		var mu sync.Mutex
		seen := map[string]bool{}
		hist := map[string]int{}
		ex := map[string][]string{}
		st, _ := explore.Run(func(c *explore.Ctl) string {
			s := sp.Gen(c)
			mu.Lock()
			dup := seen[s]
			seen[s] = true
			mu.Unlock()
			if dup {
				return ""
			}
			res, why := ref.Analyze(s)
			o := Parse(s)
			var class, msg string
			switch {
			case o.Panic != "":
				class, msg = "panic", o.Panic
			case res == nil && o.Err == nil:
				class = "impl accepts"
				if why != nil {
					msg = why.Prop + why.Msg
				}
			case res != nil && o.Err != nil:
				class, msg = "impl rejects", o.Err.Error()
			case res == nil:
				class = "both reject"
			default:
				class = "both accept"
				for _, p := range allProps {
					res, _ := ref.Analyze(s)
					if m := Compare(p, s, res, o.Q); m != "" {
						class, msg = p, m
						break
					}
				}
			}
			mu.Lock()
			hist[class]++
			if msg != "" && len(ex[class]) < 3 {
				ex[class] = append(ex[class], s+"\n      "+msg)
			}
			mu.Unlock()
			return ""
		}, bound, workers, time.Now().Add(d))
		fmt.Printf("%-18s b=%d ex=%v %d runs, %d texts %v\n", name, bound, st.Exhaustive, st.Executions, len(seen), hist)
		var ks []string
		for k := range ex {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			for _, e := range ex[k] {
				fmt.Println("  ", k, e)
			}
		}
	}
}
