package workload_test

// Replay harness for property P10: random operation mixes are validated against the rule, and valid ones are run with
// the real engine while every operation records its own executions.

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/blueprint-uservices/blueprint/runtime/core/workload"
)

func p10mix(r *rand.Rand, valid bool) []int {
	n := 1 + r.Intn(5)
	mix := make([]int, n)
	if !valid && r.Intn(3) == 0 {
		for i := range mix {
			mix[i] = r.Intn(120) - 20
		}
		return mix
	}
	left := 100
	for i := 0; i < n-1; i++ {
		mix[i] = r.Intn(left + 1)
		if r.Intn(3) == 0 {
			mix[i] = r.Intn(3)
		}
		if mix[i] > left {
			mix[i] = left
		}
		left -= mix[i]
	}
	mix[n-1] = left
	r.Shuffle(n, func(i, j int) { mix[i], mix[j] = mix[j], mix[i] })
	if !valid {
		d := 1 + r.Intn(5)
		switch r.Intn(3) {
		case 0:
			mix[r.Intn(n)] += d
		case 1:
			mix[r.Intn(n)] -= d
		case 2:
			mix[0] += 100
			mix = append(mix, -100)
		}
	}
	return mix
}

func p10accepts(mix []int) bool {
	sum := 0
	for _, p := range mix {
		if p < 0 {
			return false
		}
		sum += p
	}
	return sum == 100
}

func p10validate(r *rand.Rand) error {
	mix := p10mix(r, r.Intn(2) == 0)
	w := workload.NewWorkload()
	for i, p := range mix {
		if err := w.AddAPI(fmt.Sprint(i), func(context.Context) workload.Stat { return workload.Stat{} }, p); err != nil && p >= 0 {
			return fmt.Errorf("mix %v: AddAPI(%d): %v", mix, p, err)
		}
	}
	want := p10accepts(mix)
	if got := w.IsValid(); got != want {
		return fmt.Errorf("mix %v: IsValid is %v, want %v", mix, got, want)
	}
	dur := []string{"1s", "10ms", "", "x"}[r.Intn(4)]
	e, err := workload.NewEngine("out", 10, dur, w)
	if ok := want && (dur == "1s" || dur == "10ms"); (err == nil) != ok || (e != nil) != ok {
		return fmt.Errorf("mix %v, duration %q: NewEngine returned %v, %v", mix, dur, e, err)
	}
	return nil
}

func p10run(r *rand.Rand, dir string, tput int64, dur time.Duration, mix []int) (int, error) {
	w := workload.NewWorkload()
	counts := make([]int64, len(mix))
	var ids, active int64
	slow := r.Intn(3) == 0
	for i, p := range mix {
		i := i
		w.AddAPI(fmt.Sprintf("op%d", i), func(ctx context.Context) workload.Stat {
			atomic.AddInt64(&active, 1)
			defer atomic.AddInt64(&active, -1)
			id := atomic.AddInt64(&ids, 1)
			k := atomic.AddInt64(&counts[i], 1)
			if slow && id%100 == 0 {
				time.Sleep(30 * time.Millisecond)
			}
			return workload.Stat{Start: id, Duration: int64(i)*1000000 + k, IsError: (id+k)%3 == 0}
		}, p)
	}
	out := filepath.Join(dir, "stats.csv")
	os.WriteFile(out, []byte(strings.Repeat("old content\n", 1000)), 0644)
	e, err := workload.NewEngine(out, tput, dur.String(), w)
	if err != nil {
		return 0, fmt.Errorf("mix %v: NewEngine: %v", mix, err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	if r.Intn(4) == 0 {
		time.AfterFunc(dur/2, cancel)
	}
	done := make(chan struct{})
	go func() { e.RunOpenLoop(ctx); close(done) }()
	select {
	case <-done:
	case <-time.After(dur + 60*time.Second):
		return 0, fmt.Errorf("mix %v: RunOpenLoop has not returned a minute after its duration", mix)
	}
	if n := atomic.LoadInt64(&active); n != 0 {
		return 0, fmt.Errorf("mix %v: RunOpenLoop returned while %d requests were running", mix, n)
	}
	total := 0
	for i, c := range counts {
		total += int(c)
		if mix[i] == 0 && c != 0 {
			return 0, fmt.Errorf("mix %v: operation %d has no share and was executed %d times", mix, i, c)
		}
	}
	if len(e.Stats) != total {
		return 0, fmt.Errorf("mix %v: %d requests were executed and %d records kept", mix, total, len(e.Stats))
	}
	stats := append([]workload.Stat{}, e.Stats...)
	sort.Slice(stats, func(i, j int) bool { return stats[i].Start < stats[j].Start })
	per := make([]map[int64]bool, len(mix))
	for i := range per {
		per[i] = map[int64]bool{}
	}
	for i, s := range stats {
		op, k := s.Duration/1000000, s.Duration%1000000
		if s.Start != int64(i+1) || op >= int64(len(mix)) || per[op][k] || k < 1 || k > counts[op] || s.IsError != ((s.Start+k)%3 == 0) {
			return 0, fmt.Errorf("mix %v: record %d is %+v", mix, i, s)
		}
		per[op][k] = true
	}
	for i, c := range counts {
		p := float64(mix[i]) / 100
		want := float64(total) * p
		if math.Abs(float64(c)-want) > 8*math.Sqrt(float64(total)*p*(1-p))+8 {
			return 0, fmt.Errorf("mix %v: operation %d was executed %d times of %d", mix, i, c, total)
		}
	}
	// the output file
	old := os.Stdout
	null, _ := os.Open(os.DevNull)
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
		defer f.Close()
	}
	err = e.PrintStats()
	os.Stdout = old
	null.Close()
	if err != nil {
		return 0, fmt.Errorf("PrintStats: %v", err)
	}
	data, err := os.ReadFile(out)
	if err != nil {
		return 0, err
	}
	want := []string{"Start,Duration,IsError"}
	for _, s := range e.Stats {
		want = append(want, fmt.Sprintf("%d,%d,%t", s.Start, s.Duration, s.IsError))
	}
	if got := strings.TrimRight(string(data), "\n"); got != strings.Join(want, "\n") {
		return 0, fmt.Errorf("mix %v: the output file has %d bytes, want %d records", mix, len(data), len(e.Stats))
	}
	return total, nil
}

func TestVerifP10Workload(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget := 8 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		budget = 90 * time.Second
	}
	defer func() {
		if p := recover(); p != nil {
			t.Errorf("FAILING-INPUT: panic: %v", p)
		}
	}()
	r := rand.New(rand.NewSource(seed))
	for i := 0; i < 20000; i++ {
		if err := p10validate(r); err != nil {
			t.Errorf("FAILING-INPUT: seed %d: %v", seed, err)
			return
		}
	}
	dir := t.TempDir()
	start, runs, total := time.Now(), 0, 0
	fixed := [][]int{{1, 99}, {99, 1}, {50, 50}, {1, 1, 98}, {100}, {0, 100}, {25, 25, 25, 25}, {2, 49, 49}}
	for ; time.Since(start) < budget; runs++ {
		mix := p10mix(r, true)
		if runs < len(fixed) {
			mix = fixed[runs]
		}
		n, err := p10run(r, dir, 20000, 600*time.Millisecond, mix)
		if err != nil {
			t.Errorf("FAILING-INPUT: seed %d: %v", seed, err)
			return
		}
		total += n
	}
	fmt.Printf("COVERED: 20000 random mixes validated; %d open-loop runs with %d requests\n", runs, total)
}
