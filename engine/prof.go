package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"time"
)

// profile counts decisions by place; SYMGO_PROF=1 prints it.
type profile struct {
	mu sync.Mutex
	m  map[string]*profRow
}

type profRow struct {
	n, forks int
	d        time.Duration
}

var forkProf *profile

func init() {
	if os.Getenv("SYMGO_PROF") != "" {
		forkProf = &profile{m: map[string]*profRow{}}
	}
}

func (p *profile) note(at string, fork bool, d time.Duration) {
	p.mu.Lock()
	defer p.mu.Unlock()
	r := p.m[at]
	if r == nil {
		r = &profRow{}
		p.m[at] = r
	}
	r.n++
	r.d += d
	if fork {
		r.forks++
	}
}

func (p *profile) print() {
	if p == nil {
		return
	}
	var ks []string
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return p.m[ks[i]].d > p.m[ks[j]].d })
	for i, k := range ks {
		if i == 25 {
			break
		}
		r := p.m[k]
		fmt.Fprintf(os.Stderr, "PROF n=%d forks=%d %.1fs %s\n", r.n, r.forks, r.d.Seconds(), k)
	}
}
