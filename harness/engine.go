package main

// The case engine: a case is a pure function of a sequence of recorded
// choices, which makes runs reproducible from VERIF_SEED and lets every
// failure shrink by deleting and lowering choices.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// G hands out choices. 0 is always the simplest one.
type G struct {
	state  uint64
	replay []uint64
	fixed  bool // replay only
	rec    []uint64
	I      int // case index inside an enumerated part
	Tier   string
	labels map[string]int
}

func mix64(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (g *G) next() uint64 {
	g.state += 0x9e3779b97f4a7c15
	z := g.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Draw returns a value in [0,n); n==0 means any 64-bit value.
func (g *G) Draw(n uint64) uint64 {
	var v uint64
	if g.fixed {
		if len(g.rec) < len(g.replay) {
			v = g.replay[len(g.rec)]
			if n > 0 && v >= n {
				v = v % n
			}
		}
	} else {
		v = g.next()
		if n > 0 {
			v %= n
		}
	}
	if len(g.rec) > 200000 {
		panic("harness: generator does not end")
	}
	g.rec = append(g.rec, v)
	if dumpChoices != nil {
		fmt.Fprintln(dumpChoices, v)
	}
	return v
}

func (g *G) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(g.Draw(uint64(n)))
}

// Range returns lo..hi inclusive.
func (g *G) Range(lo, hi int) int { return lo + g.Intn(hi-lo+1) }

// Chance is true with probability num/den; the simplest choice is false.
func (g *G) Chance(num, den int) bool { return g.Intn(den) >= den-num }

// Weighted picks an index with the given weights.
func (g *G) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := g.Intn(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}

func pickS(g *G, xs ...string) string { return xs[g.Intn(len(xs))] }

func (g *G) Label(s string) {
	if g.labels != nil {
		g.labels[s]++
	}
}

// Res is the outcome of one case.
type Res struct {
	Fail       string // what went wrong ("" = held)
	Sig        string // class of failure, for grouping
	NonTrivial bool
	Key        string // identity of the case, for counting distinct ones
	Sample     string // the case written out
	Skip       bool   // outside the domain; counted apart
	Evals      int    // executions inside the case beyond the first
	Known      string // id of a listed known finding that this case runs into
}

type Part struct {
	Name     string
	Enum     func(tier string) int // deterministic cases 0..n-1 via g.I
	Quick    int                   // random cases
	Thorough int
	Run      func(g *G) Res
}

type Prop struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Parts       []Part
	Init        func()
	Findings    map[string]func() string // known finding id -> reproduction; "" when gone
}

var verifProps = map[string]*Prop{}

func register(p *Prop) { verifProps[p.ID] = p }

type caseFailure struct {
	Property string   `json:"property"`
	Part     string   `json:"part"`
	Index    int      `json:"index"`
	Choices  []uint64 `json:"choices"`
	Message  string   `json:"message"`
	Sig      string   `json:"sig"`
	Case     string   `json:"case"`
}

type shardReport struct {
	Property    string            `json:"property"`
	Level       string            `json:"level"`
	Rule        string            `json:"rule"`
	Assumptions []string          `json:"assumptions"`
	Cases       int               `json:"cases"`
	Evaluations int               `json:"evaluations"`
	Nontrivial  int               `json:"nontrivial"`
	Skipped     int               `json:"skipped"`
	Planned     int               `json:"planned"`
	Exhausted   bool              `json:"time_capped"`
	Parts       map[string]int    `json:"parts"`
	Labels      map[string]int    `json:"labels"`
	KnownHits   map[string]int    `json:"known_hits"`
	Samples     []string          `json:"samples"`
	Failures    []caseFailure     `json:"failures"`
	HarnessErr  string            `json:"harness_error"`
	KnownState  map[string]string `json:"known_state"`
}

// curFile tells the parent which case was running when a process died.
type curFile struct{ f *os.File }

func (c *curFile) note(part int, index int64, seed uint64) {
	if c.f == nil {
		return
	}
	var b [24]byte
	binary.LittleEndian.PutUint64(b[0:], uint64(part)+1)
	binary.LittleEndian.PutUint64(b[8:], uint64(index))
	binary.LittleEndian.PutUint64(b[16:], seed)
	c.f.WriteAt(b[:], 0)
}

var caseClock int64 // unix nano of the running case's start; 0 = idle

// libraryPanic tells a panic raised inside the library from one in the harness.
func libraryPanic(stack string) bool {
	seen := false
	for _, ln := range strings.Split(stack, "\n") {
		if strings.HasPrefix(ln, "panic(") {
			seen = true
			continue
		}
		if !seen || !strings.HasPrefix(ln, "\t") {
			continue
		}
		if strings.Contains(ln, "/runtime/") {
			continue
		}
		if strings.Contains(ln, "zz_verif") || strings.Contains(ln, "/verif/harness/") {
			return false
		}
		return true
	}
	return false
}

func runCase(p *Part, g *G) (res Res, harnessErr string) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if libraryPanic(st) {
				res.Fail = fmt.Sprintf("panic out of the library: %v\n%s", e, trimStack(st))
				res.Sig = fmt.Sprintf("panic: %v", e)
				res.NonTrivial = true
				return
			}
			harnessErr = fmt.Sprintf("part %s: harness panic: %v\n%s", p.Name, e, st)
		}
	}()
	return p.Run(g), ""
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	out := []string{}
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
		}
		if seen {
			out = append(out, l)
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func envInt(name string, def int) int {
	if s := os.Getenv(name); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			return v
		}
	}
	return def
}

func shrinkCase(part *Part, index int, tier string, rec []uint64, sig string, deadline time.Time) ([]uint64, Res) {
	best := rec
	var bestRes Res
	tries := 0
	try := func(c []uint64) bool {
		tries++
		if tries > 6000 || time.Now().After(deadline) {
			return false
		}
		g := &G{fixed: true, replay: c, I: index, Tier: tier}
		caseClockSet()
		r, he := runCase(part, g)
		caseClock = 0
		if he != "" || r.Fail == "" || r.Sig != sig {
			return false
		}
		n := g.rec
		// drop what was not read, and zeros at the end (missing means zero)
		if len(n) > len(c) {
			n = n[:len(c)]
		}
		for len(n) > 0 && n[len(n)-1] == 0 {
			n = n[:len(n)-1]
		}
		if less(n, best) {
			best = append([]uint64(nil), n...)
			bestRes = r
			return true
		}
		if bestRes.Fail == "" {
			bestRes = r
		}
		return false
	}
	try(append([]uint64(nil), rec...))
	for improved := true; improved && time.Now().Before(deadline) && tries < 6000; {
		improved = false
		for size := 64; size >= 1; size /= 2 {
			for i := len(best) - size; i >= 0; i-- {
				if i+size > len(best) {
					continue
				}
				c := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if try(c) {
					improved = true
				}
			}
		}
		for i := 0; i < len(best); i++ {
			if i < len(best) && best[i] != 0 {
				c := append([]uint64(nil), best...)
				c[i] = 0
				if try(c) {
					improved = true
					continue
				}
				lo, hi := uint64(0), uint64(0)
				if i < len(best) {
					hi = best[i]
				}
				for lo+1 < hi && i < len(best) {
					m := lo + (hi-lo)/2
					c := append([]uint64(nil), best...)
					c[i] = m
					if try(c) {
						improved = true
						hi = m
					} else {
						lo = m
					}
				}
			}
		}
	}
	return best, bestRes
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func caseClockSet() { caseClock = time.Now().UnixNano() }

func main() {
	if os.Getenv("VERIF_CHILD20") != "" {
		c20Init()
		c20child()
	}
	id := os.Getenv("VERIF_PROP")
	outPath := os.Getenv("VERIF_OUT")
	p := verifProps[id]
	rep := &shardReport{Property: id, Parts: map[string]int{}, Labels: map[string]int{}, KnownHits: map[string]int{}, KnownState: map[string]string{}}
	finish := func(code int) {
		b, _ := json.Marshal(rep)
		os.WriteFile(outPath+".tmp", b, 0o644)
		os.Rename(outPath+".tmp", outPath)
		os.Exit(code)
	}
	if p == nil {
		rep.HarnessErr = "no such property " + id
		finish(3)
	}
	rep.Level, rep.Rule, rep.Assumptions = p.Level, p.Rule, p.Assumptions
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed := uint64(envInt("VERIF_SEED", 1))
	shard, shards := envInt("VERIF_SHARD", 0), envInt("VERIF_SHARDS", 1)
	maxFail := envInt("VERIF_MAXFAIL", 1)
	capS := envInt("VERIF_CAP_S", 100)
	caseLimit := time.Duration(envInt("VERIF_CASE_S", 30)) * time.Second
	scale := envInt("VERIF_SCALE_PCT", 100)
	cur := &curFile{}
	if f, err := os.Create(os.Getenv("VERIF_CUR")); err == nil {
		cur.f = f
	}
	if s := os.Getenv("VERIF_MAXSTACK_MB"); s != "" {
		debug.SetMaxStack(envInt("VERIF_MAXSTACK_MB", 1000) << 20)
	}
	go func() { // watchdog: one case must not run for ever
		for {
			time.Sleep(250 * time.Millisecond)
			c := caseClock
			if c != 0 && time.Since(time.Unix(0, c)) > caseLimit {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				os.WriteFile(outPath+".hang", buf[:n], 0o644)
				os.Exit(97)
			}
		}
	}()
	if p.Init != nil {
		p.Init()
	}
	rep.Labels = map[string]int{}
	start := time.Now()
	keys := map[uint64]struct{}{}
	sigs := map[string]bool{}
	onePart := os.Getenv("VERIF_PART")

	listed := map[string]bool{}
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		listed[k] = true
	}
	one := func(pi int, part *Part, g *G, index int) bool {
		g.Tier, g.I, g.labels = tier, index, rep.Labels
		caseClockSet()
		res, he := runCase(part, g)
		caseClock = 0
		if he != "" {
			rep.HarnessErr = he
			finish(3)
		}
		rep.Cases++
		rep.Evaluations += 1 + res.Evals
		rep.Parts[part.Name]++
		if res.Skip {
			rep.Skipped++
			return true
		}
		if res.Known != "" && listed[res.Known] {
			rep.KnownHits[res.Known]++
			return true
		}
		if res.NonTrivial {
			h := fnv.New64a()
			h.Write([]byte(part.Name))
			h.Write([]byte(res.Key))
			k := h.Sum64()
			if _, ok := keys[k]; !ok {
				keys[k] = struct{}{}
				rep.Nontrivial++
				n := len(rep.Samples)
				if n < 6 && res.Sample != "" && (len(keys)&(len(keys)-1)) == 0 {
					rep.Samples = append(rep.Samples, part.Name+": "+clip(res.Sample, 1200))
				}
			}
		}
		if res.Fail != "" {
			if sigs[part.Name+res.Sig] {
				return true
			}
			sigs[part.Name+res.Sig] = true
			rec := append([]uint64(nil), g.rec...)
			final := res
			if os.Getenv("VERIF_NOSHRINK") == "" && len(rec) > 0 {
				best, br := shrinkCase(part, index, tier, rec, res.Sig, time.Now().Add(time.Duration(envInt("VERIF_SHRINK_S", 25))*time.Second))
				if br.Fail != "" {
					rec, final = best, br
				}
			}
			rep.Failures = append(rep.Failures, caseFailure{id, part.Name, index, rec, final.Fail, final.Sig, final.Sample})
			if len(rep.Failures) >= maxFail {
				return false
			}
		}
		return true
	}

	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		b, err := os.ReadFile(rp)
		var cf caseFailure
		if err == nil {
			err = json.Unmarshal(b, &cf)
		}
		if err != nil {
			rep.HarnessErr = "bad replay file: " + err.Error()
			finish(3)
		}
		for pi := range p.Parts {
			part := &p.Parts[pi]
			if part.Name != cf.Part {
				continue
			}
			g := &G{fixed: true, replay: cf.Choices}
			os.Setenv("VERIF_NOSHRINK", "1")
			one(pi, part, g, cf.Index)
		}
		finish(0)
	}
	if os.Getenv("VERIF_CASE") != "" { // part,index,seed: rerun one case
		var pi, idx int
		var cs uint64
		fmt.Sscanf(os.Getenv("VERIF_CASE"), "%d,%d,%d", &pi, &idx, &cs)
		g := &G{state: cs}
		if dump := os.Getenv("VERIF_DUMP_CHOICES"); dump != "" {
			// choices drawn before the process dies are noted as they are made
			f, _ := os.Create(dump)
			dumpChoices = f
		}
		if os.Getenv("VERIF_CHOICES") != "" { // given choices in place of the seed
			g = &G{fixed: true}
			for _, f := range strings.Fields(os.Getenv("VERIF_CHOICES")) {
				v, _ := strconv.ParseUint(f, 10, 64)
				g.replay = append(g.replay, v)
			}
		}
		one(pi, &p.Parts[pi], g, idx)
		finish(0)
	}

	if shard == 0 && onePart == "" {
		ids := []string{}
		for fid := range p.Findings {
			ids = append(ids, fid)
		}
		sort.Strings(ids)
		for _, fid := range ids {
			rep.KnownState[fid] = p.Findings[fid]()
		}
	}

	stop := false
	for pi := range p.Parts {
		part := &p.Parts[pi]
		if onePart != "" && part.Name != onePart {
			continue
		}
		if part.Enum != nil {
			n := part.Enum(tier)
			for i := shard; i < n && !stop; i += shards {
				rep.Planned++
				cs := mix64(seed*1000003 + uint64(i)*7919 + uint64(pi))
				cur.note(pi, int64(i), cs)
				g := &G{state: cs}
				if !one(pi, part, g, i) {
					stop = true
				}
			}
		}
	}
	// random parts take turns, so that a time cap cuts all of them alike
	type rp struct{ pi, n, done int }
	var rps []*rp
	for pi := range p.Parts {
		part := &p.Parts[pi]
		if onePart != "" && part.Name != onePart {
			continue
		}
		n := part.Quick
		if tier == "thorough" {
			n = part.Thorough
		}
		n = n * scale / 100
		if n > 0 {
			rps = append(rps, &rp{pi, (n + shards - 1) / shards, 0})
			rep.Planned += (n + shards - 1) / shards
		}
	}
	slices := 50
	for s := 1; s <= slices && !stop; s++ {
		for _, r := range rps {
			upto := r.n * s / slices
			for r.done < upto && !stop {
				if r.done%64 == 0 && time.Since(start) > time.Duration(capS)*time.Second {
					rep.Exhausted = true
					stop = true
					break
				}
				cs := mix64(mix64(seed)*31 + uint64(r.pi)*1e12 + uint64(shard) + uint64(r.done)*uint64(shards))
				cur.note(r.pi, int64(-1), cs)
				g := &G{state: cs}
				if !one(r.pi, &p.Parts[r.pi], g, -1) {
					stop = true
				}
				r.done++
			}
		}
	}
	b := make([]byte, 0, 8*len(keys))
	for k := range keys {
		b = binary.LittleEndian.AppendUint64(b, k)
	}
	os.WriteFile(outPath+".keys", b, 0o644)
	finish(0)
}

var dumpChoices *os.File

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// note leaves what is about to run for the driver, in case the process does
// not survive it; only when a single case is run.
func note(text string) {
	if os.Getenv("VERIF_CASE") != "" {
		os.WriteFile(os.Getenv("VERIF_OUT")+".case", []byte(text), 0o644)
	}
}
