package main

import (
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"
)

// hunt PROPS SECS: searches several properties in turns and stops at the
// first violation (used to judge changed copies of the repository).
func hunt(args []string) int {
	b, clean := binary()
	defer clean()
	secs, _ := strconv.Atoi(args[1])
	list := strings.Split(args[0], ",")
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	t0 := time.Now()
	var mu sync.Mutex
	var wg sync.WaitGroup
	var next uint64
	runs, broken, hit := 0, 0, ""
	for _, p := range list {
		warmup(b, p)
	}
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				done := hit != "" || time.Now().After(deadline)
				mu.Unlock()
				if done {
					return
				}
				prop := list[i%uint64(len(list))]
				seed := mix(mix(1)^(i/uint64(len(list)))*0x9e3779b97f4a7c15^strHash(prop)) >> 1
				r := run(b.bin, planFor(b, prop, seed))
				mu.Lock()
				runs++
				if r.broken != "" {
					broken++
				}
				for _, v := range r.Violations {
					if has(v.Props, prop) && hit == "" {
						m := v.Msg
						if len(m) > 200 {
							m = m[:200]
						}
						hit = fmt.Sprintf("%s %s seed=%d: %s", prop, v.Sig, seed, strings.ReplaceAll(m, "\n", " "))
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	fmt.Printf("hunt: %d runs, %d broken, %.1fs\n", runs, broken, time.Since(t0).Seconds())
	if hit != "" {
		fmt.Println("HIT", hit)
		return 1
	}
	return 0
}
