// Package harness runs seeded simulations of a world in several worker processes, minimises and
// replays failures, and writes the evidence file.
package harness

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/sim/simrt"
)

// World is the simulation that decides one property.
type World struct {
	Prop string
	// Config draws the run's configuration (it may use src.W only).
	Config func(src *simrt.Src) simrt.Config
	// Root is the first task of the run.
	Root func(s *simrt.Sim)
	// After examines the finished run (deadlock, step budget, history).
	After           func(s *simrt.Sim)
	Real            []string // components that ran real code
	Stub            []string // components that were simulated
	Rule            string   // what makes a run non-trivial
	State           string   // what the distinct-state measure counts
	Assume          []string
	Quick, Thorough int // seconds of exploration
}

// Failure is one violating run.
type Failure struct {
	Prop    string         `json:"property"`
	Class   string         `json:"class"`
	Msg     string         `json:"message"`
	Seed    uint64         `json:"verif_seed"`
	Run     int64          `json:"run"`
	Choices *simrt.Choices `json:"choices"`
	Orig    int            `json:"original_choices"`
	Shrunk  int            `json:"minimised_choices"`
	Hash    string         `json:"event_hash"`
	SimTime string         `json:"sim_time"`
	Trace   []string       `json:"trace"`
}

type result struct {
	Runs       int64
	Nontrivial int64
	Hashes     []uint64
	ILs        []uint64
	States     []uint64
	SimNS      float64
	Steps      int64
	Switches   int64
	Preempts   int64
	Faults     map[string]int64
	FaultRuns  map[string]int64
	Probes     map[string]int64
	Other      map[string]int64
	Failures   []*Failure
	Known      map[string]int64 // runs that showed a listed finding
	DetChecked int64
	Err        string
	Samples    []any
	Wall       float64
}

var worlds = map[string]*World{}

// Register adds a world.
func Register(w *World) { worlds[w.Prop] = w }

var siteNames []string

func siteName(id uint32) string {
	i := int(id) - 16
	if i >= 0 && i < len(siteNames) {
		return siteNames[i]
	}
	switch id {
	case 1:
		return "blocking primitive"
	}
	return fmt.Sprint("site", id)
}

// Execute performs one run.
func Execute(w *World, src *simrt.Src, verbose bool) *simrt.Sim {
	cfg := w.Config(src)
	cfg.Verbose = verbose
	cfg.SiteName = siteName
	s := simrt.Run(src, cfg, w.Root)
	if w.After != nil && s.HarnessErr == "" {
		w.After(s)
	}
	return s
}

func runSeed(w *World, seed uint64, run int64) uint64 {
	h := fnv.New64a()
	h.Write([]byte(w.Prop))
	return simrt.Mix(seed, h.Sum64(), uint64(run))
}

func pickViolation(s *simrt.Sim, prop string) *simrt.Violation {
	for i := range s.Violations {
		if s.Violations[i].Prop == prop {
			return &s.Violations[i]
		}
	}
	return nil
}

// watchdog ends the process when a single run takes far too long in real time.
var heartbeat = make(chan string, 1)
var lastBeat time.Time

func watchdog(limit time.Duration) {
	go func() {
		heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(100 * time.Millisecond)
			if metrics.Read(heap); heap[0].Value.Uint64() > 3<<30 {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "watchdog: a run needs more than 3 GB of memory\n%s\n", buf[:n])
				os.Exit(3)
			}
			if t := beat(); !t.IsZero() && time.Since(t) > limit {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "watchdog: a run exceeded %v of real time\n%s\n", limit, buf[:n])
				os.Exit(3)
			}
		}
	}()
}

func beat() time.Time { return lastBeat }

func worker(w *World, seed uint64, id, of int, dur time.Duration, minRuns, maxRuns int64, detEvery int64) *result {
	res := &result{Faults: map[string]int64{}, FaultRuns: map[string]int64{}, Probes: map[string]int64{}, Other: map[string]int64{}, Known: map[string]int64{}}
	hs, ils, sts := map[uint64]struct{}{}, map[uint64]struct{}{}, map[uint64]struct{}{}
	start := time.Now()
	classes := map[string]bool{}
	const capN = 400000
	for run := int64(id); ; run += int64(of) {
		el := time.Since(start)
		if el > dur && (res.Runs >= minRuns || el > 6*dur) {
			break
		}
		if maxRuns > 0 && res.Runs >= maxRuns {
			break
		}
		lastBeat = time.Now()
		src := simrt.NewSrc(runSeed(w, seed, run))
		s := Execute(w, src, false)
		res.Runs++
		if s.HarnessErr != "" {
			res.Err = fmt.Sprintf("harness error in run %d (seed %d): %s", run, seed, s.HarnessErr)
			return res
		}
		for _, v := range s.Violations {
			if v.Prop == "HARNESS" {
				res.Err = fmt.Sprintf("harness error in run %d (seed %d): %s: %s", run, seed, v.Class, v.Msg)
				return res
			}
		}
		if res.DetChecked*detEvery < res.Runs {
			res.DetChecked++
			s2 := Execute(w, simrt.ReplaySrc(src.Recorded()), false)
			if s2.Hash() != s.Hash() {
				res.Err = fmt.Sprintf("run %d (seed %d) is not deterministic: %x then %x (steps %d/%d, now %d/%d)", run, seed, s.Hash(), s2.Hash(), s.Steps(), s2.Steps(), s.Now(), s2.Now())
				return res
			}
		}
		res.SimNS += float64(s.Now())
		res.Steps += s.Steps()
		res.Switches += s.Switches
		res.Preempts += s.Preempts
		for k, v := range s.Faults {
			res.Faults[k] += v
			res.FaultRuns[k]++
		}
		for k, v := range s.Probes {
			res.Probes[k] += v
		}
		if s.Probes["nontrivial"] > 0 {
			res.Nontrivial++
			if len(hs) < capN {
				hs[s.Hash()] = struct{}{}
			}
		}
		if len(ils) < capN {
			ils[s.Interleaving()] = struct{}{}
		}
		for h := range s.Distinct {
			if len(sts) < capN {
				sts[h] = struct{}{}
			}
		}
		if len(res.Samples) < 2 && s.Probes["nontrivial"] > 0 {
			res.Samples = append(res.Samples, sample(w, src, seed, run, s))
		}
		for i := range s.Violations { // listed findings do not end the search
			if v := &s.Violations[i]; v.Prop == w.Prop {
				if what := knownFindings.match(v.Prop, v.Class, v.Msg); what != "" {
					res.Known[what]++
					v.Prop = "KNOWN"
				}
			}
		}
		if v := pickViolation(s, w.Prop); v != nil {
			if !classes[v.Class] && len(res.Failures) < 6 {
				classes[v.Class] = true
				f := &Failure{Prop: w.Prop, Class: v.Class, Msg: v.Msg, Seed: seed, Run: run, Choices: src.Recorded()}
				f.Orig = f.Choices.Len()
				res.Failures = append(res.Failures, f)
				// one class is enough for the verdict; look a little further for others
				if d := el + 3*time.Second; d < dur {
					dur = d
				}
				minRuns = 0
			}
		}
		for _, v := range s.Violations {
			if v.Prop != w.Prop && v.Prop != "KNOWN" {
				res.Other[v.Prop+"/"+v.Class]++
			}
		}
	}
	for h := range hs {
		res.Hashes = append(res.Hashes, h)
	}
	for h := range ils {
		res.ILs = append(res.ILs, h)
	}
	for h := range sts {
		res.States = append(res.States, h)
	}
	res.Wall = time.Since(start).Seconds()
	return res
}

func sample(w *World, src *simrt.Src, seed uint64, run int64, s *simrt.Sim) any {
	v := Execute(w, simrt.ReplaySrc(src.Recorded()), true)
	tr := v.Trace
	if len(tr) > 60 {
		tr = append(append([]string{}, tr[:40]...), append([]string{fmt.Sprintf("... %d more events ...", len(tr)-60)}, tr[len(tr)-20:]...)...)
	}
	for i := range tr {
		if len(tr[i]) > 160 {
			tr[i] = tr[i][:160] + "..."
		}
	}
	return map[string]any{"run": run, "verif_seed": seed, "choices": src.Recorded().Len(), "sim_time_ms": s.Now() / 1e6, "faults": s.Faults, "events": tr}
}

func same(w *World, c *simrt.Choices, class string) (*simrt.Sim, *simrt.Violation) {
	lastBeat = time.Now()
	s := Execute(w, simrt.ReplaySrc(c), false)
	if s.HarnessErr != "" {
		return nil, nil
	}
	for i := range s.Violations {
		if s.Violations[i].Prop == "HARNESS" {
			return nil, nil
		}
	}
	for i := range s.Violations {
		if s.Violations[i].Prop == w.Prop && s.Violations[i].Class == class {
			return s, &s.Violations[i]
		}
	}
	return nil, nil
}

// shrink minimises a failing choice sequence while the same class of violation persists.
func shrink(w *World, f *Failure, limit time.Duration) {
	deadline := time.Now().Add(limit)
	cur := f.Choices
	if s, _ := same(w, cur, f.Class); s == nil {
		return
	}
	get := func(c *simrt.Choices, k int) *[]uint32 {
		switch k {
		case 0:
			return &c.S
		case 1:
			return &c.F
		}
		return &c.W
	}
	clone := func(c *simrt.Choices) *simrt.Choices {
		cp := func(x []uint32) []uint32 { return append([]uint32(nil), x...) }
		return &simrt.Choices{W: cp(c.W), F: cp(c.F), S: cp(c.S)}
	}
	try := func(c *simrt.Choices) bool {
		if time.Now().After(deadline) {
			return false
		}
		if s, v := same(w, c, f.Class); s != nil {
			cur = s.Src.Recorded()
			if cur.Len() > c.Len() {
				cur = c
			}
			f.Msg = v.Msg
			return true
		}
		return false
	}
	for pass := 0; pass < 8; pass++ {
		before := cur.Len()
		sum := weight(cur)
		for k := 0; k < 3; k++ {
			// drop everything, then tails
			for frac := 0; frac < 6; frac++ {
				c := clone(cur)
				a := get(c, k)
				n := len(*a) * frac / 6
				*a = (*a)[:n]
				if len(*a) < len(*get(cur, k)) && try(c) {
					break
				}
			}
			for sz := len(*get(cur, k)) / 2; sz >= 1; sz /= 2 {
				for i := 0; i < len(*get(cur, k)); {
					if time.Now().After(deadline) {
						break
					}
					a := *get(cur, k)
					j := i + sz
					if j > len(a) {
						j = len(a)
					}
					// delete
					c := clone(cur)
					b := get(c, k)
					*b = append(append([]uint32(nil), a[:i]...), a[j:]...)
					if try(c) {
						continue
					}
					// zero
					nz := false
					for _, x := range a[i:j] {
						nz = nz || x != 0
					}
					if nz {
						c = clone(cur)
						b = get(c, k)
						for x := i; x < j; x++ {
							(*b)[x] = 0
						}
						try(c)
					}
					i += sz
				}
			}
			for i := 0; i < len(*get(cur, k)) && i < 400; i++ {
				for tries := 0; tries < 6; tries++ {
					a := *get(cur, k)
					if i >= len(a) || a[i] == 0 {
						break
					}
					c := clone(cur)
					(*get(c, k))[i] = a[i] / 2
					if !try(c) {
						c = clone(cur)
						(*get(c, k))[i] = a[i] - 1
						if !try(c) {
							break
						}
					}
				}
			}
		}
		if cur.Len() == before && weight(cur) == sum || time.Now().After(deadline) {
			break
		}
	}
	f.Choices = cur
}

func weight(c *simrt.Choices) uint64 {
	var t uint64
	for _, a := range [][]uint32{c.W, c.F, c.S} {
		for _, x := range a {
			t += uint64(x)
		}
	}
	return t
}

// traceFailure completes the replay file of a failure.
func traceFailure(w *World, f *Failure) {
	f.Shrunk = f.Choices.Len()
	lastBeat = time.Now()
	s := Execute(w, simrt.ReplaySrc(f.Choices), true)
	f.Hash = fmt.Sprintf("%016x", s.Hash())
	f.SimTime = fmt.Sprintf("%.6f ms", float64(s.Now())/1e6)
	tr := s.Trace
	if len(tr) > 4000 {
		tr = append(append([]string{}, tr[:1000]...), append([]string{fmt.Sprintf("... %d lines omitted ...", len(tr)-4000)}, tr[len(tr)-3000:]...)...)
	}
	for i := range tr {
		if len(tr[i]) > 600 {
			tr[i] = tr[i][:600] + "..."
		}
	}
	f.Trace = tr
}

// Known is the known-findings file.
type Known struct {
	Findings []struct {
		Property string `json:"property"`
		Class    string `json:"class"`
		Match    string `json:"match"` // regular expression on the message
		What     string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

var knownFindings = &Known{}

// match returns the description of the listed finding a violation is an instance of.
func (k *Known) match(prop, class, msg string) string {
	for _, f := range k.Findings {
		if f.Property == prop && f.Class == class {
			if re, err := regexp.Compile(f.Match); err == nil && re.MatchString(msg) {
				return f.What
			}
		}
	}
	return ""
}

func loadKnown(verif string) *Known {
	k := &Known{}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, k); err != nil {
			die("known-findings.json: %v", err)
		}
	}
	return k
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	fmt.Printf("ERROR "+f+"\n", a...)
	os.Exit(2)
}

// Main is the entry point of a driver.
func Main() {
	if len(os.Args) < 2 {
		die("usage: driver check|worker|replay|list|determinism ...")
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	id := fs.Int("worker", 0, "")
	of := fs.Int("of", 8, "")
	dur := fs.Float64("dur", 0, "seconds")
	tier := fs.String("tier", "quick", "")
	verif := fs.String("verif", "/verif", "")
	sites := fs.String("sites", "", "")
	minRuns := fs.Int64("min", 0, "")
	maxRuns := fs.Int64("max", 0, "")
	run := fs.Int64("run", 0, "")
	file := fs.String("file", "", "")
	det := fs.Int64("det", 50, "determinism check once per this many runs")
	fs.Parse(os.Args[2:])
	if *sites != "" {
		if b, err := os.ReadFile(*sites); err == nil {
			_ = json.Unmarshal(b, &siteNames)
		}
	}
	debug.SetGCPercent(400)
	w := worlds[*prop]
	switch mode {
	case "list":
		var ps []string
		for p := range worlds {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		fmt.Println(strings.Join(ps, " "))
		return
	case "replay":
		b, err := os.ReadFile(*file)
		if err != nil {
			die("%v", err)
		}
		f := &Failure{}
		if err := json.Unmarshal(b, f); err != nil {
			die("%v", err)
		}
		w = worlds[f.Prop]
		if w == nil {
			die("no world for %s in this driver", f.Prop)
		}
		runtime.GOMAXPROCS(1)
		s := Execute(w, simrt.ReplaySrc(f.Choices), true)
		for _, l := range s.Trace {
			fmt.Println(l)
		}
		if s.HarnessErr != "" {
			die("%s", s.HarnessErr)
		}
		for _, v := range s.Violations {
			if v.Prop == f.Prop && v.Class == f.Class {
				fmt.Printf("reproduced: property=%s class=%s: %s\n", v.Prop, v.Class, v.Msg)
				if h := fmt.Sprintf("%016x", s.Hash()); h != f.Hash {
					fmt.Printf("note: event hash %s differs from the recorded %s (the code changed since)\n", h, f.Hash)
				} else {
					fmt.Printf("event hash %s as recorded: exact replay\n", h)
				}
				fmt.Printf("VIOLATION property=%s replay=%s\n", f.Prop, *file)
				os.Exit(1)
			}
		}
		fmt.Printf("not reproduced (status %s, %d violations)\n", s.Status, len(s.Violations))
		os.Exit(0)
	}
	if w == nil {
		die("no world for property %q", *prop)
	}
	switch mode {
	case "one": // run a single seed verbosely
		runtime.GOMAXPROCS(1)
		watchdog(120 * time.Second)
		lastBeat = time.Now()
		s := Execute(w, simrt.NewSrc(runSeed(w, *seed, *run)), true)
		for _, l := range s.Trace {
			fmt.Println(l)
		}
		fmt.Printf("status=%s steps=%d now=%v hash=%016x faults=%v probes=%v\n", s.Status, s.Steps(), time.Duration(s.Now()), s.Hash(), s.Faults, s.Probes)
		if s.HarnessErr != "" {
			fmt.Println("HARNESS ERROR", s.HarnessErr)
		}
		for _, v := range s.Violations {
			fmt.Printf("violation %s/%s: %s\n", v.Prop, v.Class, v.Msg)
		}
	case "hashes": // event hashes of a range of runs, for determinism comparisons
		runtime.GOMAXPROCS(1)
		watchdog(120 * time.Second)
		for r := int64(*id); r < *maxRuns; r += int64(*of) {
			lastBeat = time.Now()
			s := Execute(w, simrt.NewSrc(runSeed(w, *seed, r)), false)
			fmt.Printf("%d %016x %d %d\n", r, s.Hash(), s.Now(), len(s.Violations))
		}
	case "worker":
		runtime.GOMAXPROCS(1)
		watchdog(120 * time.Second)
		if *verif != "" {
			knownFindings = loadKnown(*verif)
		}
		res := worker(w, *seed, *id, *of, time.Duration(*dur*float64(time.Second)), *minRuns, *maxRuns, *det)
		for i, f := range res.Failures {
			if i < 2 {
				traceFailure(w, f)
			}
		}
		enc := json.NewEncoder(os.Stdout)
		enc.Encode(res)
		for i, f := range res.Failures { // minimising may go wrong where the search did not
			if i < 2 {
				shrink(w, f, 25*time.Second)
				traceFailure(w, f)
				enc.Encode(&result{Failures: res.Failures})
			}
		}
	case "probe": // run until the first violation and say only which; used to try many small changes
		if *verif != "" {
			knownFindings = loadKnown(*verif)
		}
		runtime.GOMAXPROCS(1)
		watchdog(120 * time.Second)
		end := time.Now().Add(time.Duration(*dur * float64(time.Second)))
		most := int64(0)
		for r := int64(0); time.Now().Before(end) || r < 12; r++ {
			lastBeat = time.Now()
			s := Execute(w, simrt.NewSrc(runSeed(w, *seed, r)), false)
			if s.HarnessErr != "" {
				fmt.Println("ERROR", strings.ReplaceAll(s.HarnessErr, "\n", " "))
				return
			}
			most = max(most, s.Steps())
			for i := range s.Violations {
				if v := &s.Violations[i]; v.Prop == w.Prop && knownFindings.match(v.Prop, v.Class, v.Msg) != "" {
					v.Prop = "KNOWN"
				}
			}
			if v := pickViolation(s, w.Prop); v != nil {
				fmt.Printf("CAUGHT %s run %d %s\n", v.Class, r, strings.ReplaceAll(v.Msg, "\n", " "))
				return
			}
		}
		fmt.Printf("QUIET, at most %d steps in a run\n", most)
	case "check":
		check(w, *seed, *tier, *verif, *sites, *dur, *of, *det)
	default:
		die("unknown mode %q", mode)
	}
}

func check(w *World, seed uint64, tier, verif, sites string, dur float64, of int, det int64) {
	start := time.Now()
	if dur == 0 {
		dur = float64(w.Quick)
		if dur == 0 {
			dur = 20
		}
		if tier == "thorough" {
			dur = float64(w.Thorough)
			if dur == 0 {
				dur = 420
			}
		}
	}
	self, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	type out struct {
		res *result
		err error
		se  string
	}
	ch := make(chan out, of)
	for i := 0; i < of; i++ {
		go func(i int) {
			c := exec.Command(self, "worker", "-prop", w.Prop, "-seed", strconv.FormatUint(seed, 10), "-worker", strconv.Itoa(i), "-of", strconv.Itoa(of),
				"-dur", fmt.Sprint(dur), "-sites", sites, "-verif", verif, "-min", "12", "-det", strconv.FormatInt(det, 10))
			c.Env = append(os.Environ(), "GOMAXPROCS=1")
			var so, se bytes.Buffer
			c.Stdout, c.Stderr = &so, &se
			err := c.Run()
			r := &result{}
			dec := json.NewDecoder(&so)
			if e := dec.Decode(r); e == nil {
				err = nil
				for m := new(result); dec.Decode(m) == nil; m = new(result) {
					r.Failures = m.Failures
				}
			} else if err == nil {
				err = e
			}
			ch <- out{r, err, se.String()}
		}(i)
	}
	total := &result{Faults: map[string]int64{}, FaultRuns: map[string]int64{}, Probes: map[string]int64{}, Other: map[string]int64{}, Known: map[string]int64{}}
	hs, ils, sts := map[uint64]struct{}{}, map[uint64]struct{}{}, map[uint64]struct{}{}
	add := func(m map[string]int64, n map[string]int64) {
		for k, v := range n {
			m[k] += v
		}
	}
	var troubles []string // they matter if no violation can be shown
	for i := 0; i < of; i++ {
		o := <-ch
		if o.err != nil {
			tail := o.se
			if len(tail) > 6000 {
				tail = tail[:6000]
			}
			troubles = append(troubles, fmt.Sprintf("worker failed: %v\n%s", o.err, tail))
			continue
		}
		r := o.res
		if r.Err != "" {
			troubles = append(troubles, r.Err)
		}
		total.Runs += r.Runs
		total.Nontrivial += r.Nontrivial
		total.SimNS += r.SimNS
		total.Steps += r.Steps
		total.Switches += r.Switches
		total.Preempts += r.Preempts
		total.DetChecked += r.DetChecked
		if r.Wall > total.Wall {
			total.Wall = r.Wall
		}
		add(total.Faults, r.Faults)
		add(total.FaultRuns, r.FaultRuns)
		add(total.Probes, r.Probes)
		add(total.Other, r.Other)
		add(total.Known, r.Known)
		for _, h := range r.Hashes {
			hs[h] = struct{}{}
		}
		for _, h := range r.ILs {
			ils[h] = struct{}{}
		}
		for _, h := range r.States {
			sts[h] = struct{}{}
		}
		total.Failures = append(total.Failures, r.Failures...)
		if len(total.Samples) < 2 {
			total.Samples = append(total.Samples, r.Samples...)
		}
	}
	if len(total.Samples) > 2 {
		total.Samples = total.Samples[:2]
	}
	for what := range total.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", w.Prop, what)
	}
	sort.Slice(total.Failures, func(i, j int) bool {
		a, b := total.Failures[i], total.Failures[j]
		if (a.Trace != nil) != (b.Trace != nil) {
			return a.Trace != nil
		}
		if a.Shrunk != b.Shrunk {
			return a.Shrunk < b.Shrunk
		}
		return a.Run < b.Run
	})
	reported := map[string]bool{}
	nviol := 0
	var lines []string
	for _, f := range total.Failures {
		if f.Trace == nil || reported[f.Class] {
			continue
		}
		dir := filepath.Join(verif, "replays")
		_ = os.MkdirAll(dir, 0755)
		name := fmt.Sprintf("%s-%s-seed%d-run%d.json", f.Prop, regexp.MustCompile(`[^A-Za-z0-9]+`).ReplaceAllString(f.Class, "_"), f.Seed, f.Run)
		if len(name) > 120 {
			name = name[:110] + ".json"
		}
		path := filepath.Join(dir, name)
		b, _ := json.MarshalIndent(f, "", " ")
		if err := os.WriteFile(path, b, 0644); err != nil {
			die("%v", err)
		}
		// the file must reproduce in a fresh process
		c := exec.Command(self, "replay", "-file", path, "-sites", sites)
		c.Env = append(os.Environ(), "GOMAXPROCS=1")
		o, err := c.Output()
		if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 1 || !bytes.Contains(o, []byte("exact replay")) {
			troubles = append(troubles, fmt.Sprintf("the replay file %s does not reproduce in a fresh process", path))
			continue
		}
		reported[f.Class] = true
		nviol++
		fmt.Printf("%s/%s: %s\n", f.Prop, f.Class, f.Msg)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", f.Prop, path))
	}
	if nviol == 0 && len(total.Failures) > 0 && len(reported) == 0 {
		troubles = append(troubles, "a worker reported a violation that could not be reproduced")
	}
	if nviol == 0 && len(troubles) > 0 {
		die("%s", troubles[0])
	}
	for _, t := range troubles {
		fmt.Println("NOTE", strings.SplitN(t, "\n", 2)[0])
	}
	zero := []string{}
	for k := range total.Probes {
		if total.Probes[k] == 0 {
			zero = append(zero, k)
		}
	}
	cov := map[string]any{
		"evaluations":                       total.Runs,
		"distinct_nontrivial":               len(hs),
		"rule":                              "one evaluation is one simulated execution decided by (VERIF_SEED, run number); it is non-trivial if " + w.Rule + "; distinct by the hash of its event history (operations, deliveries, faults, with simulated times) and task switches",
		"samples":                           total.Samples,
		"simulated_runs_and_seeds_per_hour": int64(float64(total.Runs) / total.Wall * 3600),
		"simulated_time_s":                  total.SimNS / 1e9,
		"simulated_per_real_s":              total.SimNS / 1e9 / total.Wall,
		"statements_executed":               total.Steps,
		"task_switches":                     total.Switches,
		"preemptions_at_statement":          total.Preempts,
		"distinct_interleavings":            len(ils),
		"distinct_states":                   len(sts),
		"distinct_states_measure":           w.State,
		"faults_fired":                      total.Faults,
		"runs_with_fault":                   total.FaultRuns,
		"probes":                            total.Probes,
		"determinism_rechecks":              total.DetChecked,
		"components_real":                   w.Real,
		"components_simulated":              w.Stub,
		"workers":                           of,
	}
	if len(total.Other) > 0 {
		cov["violations_of_other_properties_seen"] = total.Other
	}
	ev := map[string]any{"property": w.Prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": w.Assume, "wall_s": time.Since(start).Seconds(), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", w.Prop+".json"), b, 0644); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s: %d runs (%d distinct non-trivial), %d interleavings, %.1f simulated s, %d fault kinds, %d violations, %.1fs\n",
		w.Prop, total.Runs, len(hs), len(ils), total.SimNS/1e9, len(total.Faults), nviol, time.Since(start).Seconds())
	for _, l := range lines {
		fmt.Println(l)
	}
	if nviol > 0 {
		os.Exit(1)
	}
	if total.Nontrivial == 0 {
		die("no run was non-trivial")
	}
}
