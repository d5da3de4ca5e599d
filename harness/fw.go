// Package main is the runtime monitor of go-sqlparser: it drives the real
// library, built from /repo's working tree, with generated workloads and
// decides each property with an oracle over what it observes.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one observed violation of a property.
type Violation struct {
	Kind   string
	Detail string
}

// Run is one run of the monitor of one property.
type Run struct {
	Prop string
	Tier string
	Seed int64

	mu       sync.Mutex
	evals    int64
	trivial  int64
	distinct map[uint64]struct{}
	samples  []string
	events   map[string]int64
	viols    []Violation
	nviol    int64
	known    map[string]string
	knownHit map[string]bool
	progress atomic.Int64
	current  sync.Map // goroutine slot -> description of the running case
	Rule     string
	Assume   []string
}

const maxViolations = 25

// quickScale raises the number of cases of cheap monitors in the quick tier.
var quickScale = map[string]int{
	"C02": 2, "C03": 12, "C05": 4, "C11": 12, "C12": 12, "C13": 12, "C14": 3, "C15": 25, "C16": 10, "C17": 6, "C18": 3, "C19": 2, "C20": 3, "C21": 2, "C23": 3, "C24": 8,
}

// N scales the number of cases with the tier.
func (r *Run) N(quick, thorough int) int {
	if s, ok := quickScale[r.Prop]; ok {
		quick *= s
	}
	if r.Tier == "thorough" {
		return max(quick, thorough)
	}
	if scale != 1 {
		quick = max(1, int(float64(quick)*scale))
	}
	return quick
}

// scale changes the number of cases of the quick tier, for experiments.
var scale = 1.0

// RNG returns the generator of the specified stream; the stream only depends on the seed, so that every case can be replayed.
func (r *Run) RNG(stream string, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", r.Seed, r.Prop, stream, i)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// Case records one evaluated case. An empty signature is a trivial case.
func (r *Run) Case(sig string) {
	r.progress.Add(1)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals++
	if sig == "" {
		r.trivial++
		return
	}
	h := fnv.New64a()
	h.Write([]byte(sig))
	k := h.Sum64()
	if _, ok := r.distinct[k]; ok {
		return
	}
	r.distinct[k] = struct{}{}
	n := len(r.distinct)
	// Keep samples spread over the run: the first ones and then powers of two.
	if n <= 4 || (n&(n-1)) == 0 {
		s := sig
		if 600 < len(s) {
			s = s[:600] + "..."
		}
		r.samples = append(r.samples, s)
	}
}

// Ev counts an observed event.
func (r *Run) Ev(name string) { r.EvN(name, 1) }

// EvN counts observed events.
func (r *Run) EvN(name string, n int) {
	r.mu.Lock()
	r.events[name] += int64(n)
	r.mu.Unlock()
}

// Fail records a violation.
func (r *Run) Fail(kind string, format string, args ...any) {
	d := fmt.Sprintf(format, args...)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.nviol++
	if len(r.viols) < maxViolations {
		r.viols = append(r.viols, Violation{kind, d})
	}
}

// Failed returns whether enough violations were seen to stop early.
func (r *Run) Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return maxViolations <= r.nviol
}

// Known reports a defect that is listed by its key in the known findings; a reproduced defect that is not listed is a violation.
func (r *Run) Known(key string, reproduced bool, detail string) {
	r.mu.Lock()
	what, listed := r.known[r.Prop+"/"+key]
	if reproduced && listed {
		if !r.knownHit[key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, what)
		}
		r.knownHit[key] = true
	}
	r.mu.Unlock()
	if reproduced && !listed {
		r.Fail(key, "%s", detail)
	}
}

// Guard runs the function and records a panic as a violation. It returns false when the function panicked.
func (r *Run) Guard(desc string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			ok = false
			r.Fail("panic", "%s\npanic: %v\n%s", desc, e, stackOf())
		}
	}()
	f()
	return true
}

func stackOf() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	if 60 < len(lines) {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

// Parallel runs n cases on all cores; each gets its own generator.
func (r *Run) Parallel(stream string, n int, f func(i int, rng *rand.Rand)) {
	workers := runtime.GOMAXPROCS(0)
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if n <= i || r.Failed() {
					return
				}
				slot := fmt.Sprintf("%s#%d", stream, w)
				r.current.Store(slot, fmt.Sprintf("stream=%s case=%d", stream, i))
				r.Guard(fmt.Sprintf("stream=%s case=%d", stream, i), func() { f(i, r.RNG(stream, i)) })
				r.current.Delete(slot)
				r.progress.Add(1)
			}
		}(w)
	}
	wg.Wait()
}

// Serial runs n cases one after another.
func (r *Run) Serial(stream string, n int, f func(i int, rng *rand.Rand)) {
	for i := 0; i < n; i++ {
		if r.Failed() {
			return
		}
		r.Guard(fmt.Sprintf("stream=%s case=%d", stream, i), func() { f(i, r.RNG(stream, i)) })
		r.progress.Add(1)
	}
}

var checks = map[string]func(r *Run){}

// many returns a number below n, and now and then one well beyond, so that limits on the size of lists show.
func many(rng *rand.Rand, n int) int {
	if rng.Intn(70) == 0 {
		return []int{9, 17, 33, 65, 129, 260}[rng.Intn(6)] + rng.Intn(9)
	}
	return rng.Intn(n)
}

func register(id string, f func(r *Run)) { checks[id] = f }

func loadKnown(path string) map[string]string {
	known := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return known
	}
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		var prop, key string
		fields := strings.Fields(strings.TrimPrefix(line, "known: "))
		rest := []string{}
		for _, f := range fields {
			switch {
			case prop == "" && strings.HasPrefix(f, "property="):
				prop = strings.TrimPrefix(f, "property=")
			case key == "" && strings.HasPrefix(f, "key="):
				key = strings.TrimPrefix(f, "key=")
			default:
				rest = append(rest, f)
			}
		}
		known[prop+"/"+key] = strings.Join(rest, " ")
	}
	return known
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	verif := flag.String("verif", "/verif", "verif directory")
	list := flag.Bool("list", false, "list properties")
	flag.Float64Var(&scale, "scale", 1, "factor of the number of cases of the quick tier")
	flag.Parse()
	if *list {
		ids := []string{}
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	f, ok := checks[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	// The parser prints syntax errors to os.Stderr; keep the log of the run clean. Runtime crashes still go to fd 2.
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = null
	}
	r := &Run{
		Prop: *prop, Tier: *tier, Seed: *seed,
		distinct: map[uint64]struct{}{}, events: map[string]int64{},
		known: loadKnown(filepath.Join(*verif, "known_findings.txt")), knownHit: map[string]bool{},
	}
	start := time.Now()
	done := make(chan struct{})
	go func() {
		r.Guard("monitor of "+*prop, func() { f(r) })
		close(done)
	}()
	// Watchdog: no case completed for a very long time means that the library does not return.
	last, lastAt := int64(-1), time.Now()
	tick := time.NewTicker(time.Second)
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			if p := r.progress.Load(); p != last {
				last, lastAt = p, time.Now()
			} else if stallLimit < time.Since(lastAt) {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				cur := []string{}
				r.current.Range(func(k, v any) bool { cur = append(cur, fmt.Sprint(k, ": ", v)); return true })
				r.Fail("no progress", "no case finished for %v; running:\n%s\n%s", stallLimit, strings.Join(cur, "\n"), buf)
				break loop
			}
		}
	}
	os.Exit(r.finish(*verif, time.Since(start)))
}

const stallLimit = 150 * time.Second

func (r *Run) finish(verif string, wall time.Duration) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.nviol == 0 && r.evals == 0 {
		fmt.Println("inconclusive: the monitor observed nothing")
		return 3
	}
	evDir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	ev := map[string]any{
		"property": r.Prop,
		"tier":     r.Tier,
		"seed":     r.Seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         r.evals,
			"distinct_nontrivial": len(r.distinct),
			"rule":                r.Rule,
			"samples":             r.samples,
			"events":              r.events,
		},
		"wall_s":     wall.Seconds(),
		"violations": r.nviol,
	}
	if 0 < len(r.Assume) {
		ev["assumptions"] = r.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(evDir, r.Prop+".json"), append(b, '\n'), 0o644)
	if r.nviol == 0 {
		fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs\n", r.Prop, r.Tier, r.Seed, r.evals, len(r.distinct), wall.Seconds())
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s violated: %d violations, the first %d follow\nreplay: VERIF_SEED=%d /verif/check.sh %s %s\n\n", r.Prop, r.nviol, len(r.viols), r.Seed, r.Prop, r.Tier)
	for i, v := range r.viols {
		fmt.Fprintf(&sb, "--- violation %d: %s\n%s\n\n", i+1, v.Kind, v.Detail)
	}
	replay := filepath.Join(evDir, fmt.Sprintf("replay-%s-%s.txt", r.Prop, r.Tier))
	_ = os.WriteFile(replay, []byte(sb.String()), 0o644)
	first := r.viols[0]
	fmt.Printf("%s: %s\n", first.Kind, clip(first.Detail, 2000))
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	return 1
}

func clip(s string, n int) string {
	if n < len(s) {
		return s[:n] + "..."
	}
	return s
}
