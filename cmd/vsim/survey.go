package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// survey runs a property's search without stopping at violations and lists
// every distinct signature with its frequency and first seed (development).
func survey(args []string) int {
	b, clean := binary()
	defer clean()
	secs := 20
	if len(args) > 1 {
		secs, _ = strconv.Atoi(args[1])
	}
	base := uint64(1)
	if len(args) > 2 {
		base, _ = strconv.ParseUint(args[2], 10, 64)
	}
	type hit struct {
		n    int
		seed uint64
		msg  string
		ops  int
	}
	for _, prop := range strings.Split(args[0], ",") {
		hits := map[string]*hit{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		runs, broken := 0, 0
		counts := map[string]int64{}
		faults := map[string]int64{}
		deadline := time.Now().Add(time.Duration(secs) * time.Second)
		next := uint64(0)
		var wall time.Duration
		var maxWall time.Duration
		var maxSeed uint64
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for time.Now().Before(deadline) {
					mu.Lock()
					i := next
					next++
					mu.Unlock()
					seed := mix(mix(base)^i*0x9e3779b97f4a7c15^strHash(prop)) >> 1
					p := planFor(b, prop, seed)
					r := run(b.bin, p)
					mu.Lock()
					runs++
					wall += r.wall
					if r.wall > maxWall {
						maxWall, maxSeed = r.wall, seed
					}
					for k, v := range r.Counts {
						counts[k] += v
					}
					for k, v := range r.Faults {
						faults[k] += v
					}
					if r.broken != "" {
						broken++
						if hits["broken:"+r.broken] == nil {
							hits["broken:"+r.broken] = &hit{seed: seed, msg: r.broken}
						}
						hits["broken:"+r.broken].n++
					}
					for _, v := range r.Violations {
						k := strings.Join(v.Props, ",") + " | " + v.Sig
						if hits[k] == nil {
							hits[k] = &hit{seed: seed, msg: v.Msg}
						}
						h := hits[k]
						h.n++
						if len(v.Msg) < len(h.msg) {
							h.seed, h.msg = seed, v.Msg
						}
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		fmt.Printf("== %s: %d runs, %d broken, avg %v, max %v (seed %d)\n", prop, runs, broken, wall/time.Duration(runs+1), maxWall, maxSeed)
		var l []string
		for k := range counts {
			l = append(l, fmt.Sprintf("%s=%d", k, counts[k]))
		}
		for k := range faults {
			l = append(l, fmt.Sprintf("FAULT-%s=%d", k, faults[k]))
		}
		sort.Strings(l)
		fmt.Println("  ", strings.Join(l, " "))
		var ks []string
		for k := range hits {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return hits[ks[i]].n > hits[ks[j]].n })
		for _, k := range ks {
			m := hits[k].msg
			if len(m) > 700 {
				m = m[:700]
			}
			fmt.Printf("  %6d  %s  seed=%d\n          %s\n", hits[k].n, k, hits[k].seed, m)
		}
	}
	return 0
}

var _ = os.Exit
