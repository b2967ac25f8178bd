package main

// Sessions run at the same time, each by its own goroutine on its own signals.

import (
	"math/rand"
	"sync"
)

// parallel runs n sessions of the profiles ps in rounds of k goroutines.
func parallel(r *recorder, syn *syntax, ps []string, n, k int, seed int64) {
	done := 0
	for round := int64(0); done < n; round++ {
		xs := make([]*session, k)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < k; i++ {
			wg.Add(1)
			g := &gen{Rand: rand.New(rand.NewSource(seed*1000003 + round*1009 + int64(i))), syn: syn}
			if round%3 == 2 { // all the same calls at the same time
				g = &gen{Rand: rand.New(rand.NewSource(seed*1000003 + round*1009)), syn: syn}
			}
			p := profiles[ps[(done+i)%len(ps)]]
			if round%3 != 1 { // or at least the same kind of calls
				p = profiles[ps[int(round)%len(ps)]]
			}
			x := newSession(p.slots, &watch{})
			xs[i] = x
			go func() {
				defer wg.Done()
				g.mode()
				<-start
				p.run(g, x)
			}()
		}
		close(start)
		wg.Wait()
		for _, x := range xs {
			r.add(x)
		}
		done += k
	}
}
