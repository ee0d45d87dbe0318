package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// P13: the schedules of spec/Conc.tla on the real objects, and the same
// evaluations running free under the race detector.

// schedule is one interleaving: process p evaluates object o on row r, and
// sched lists whose step comes next.
type schedule struct {
	Procs []struct {
		O int `json:"o"`
		R int `json:"r"`
	} `json:"procs"`
	Sched []int `json:"sched"`
}

func goid() int64 {
	buf := make([]byte, 64)
	buf = buf[:runtime.Stack(buf, false)]
	buf = bytes.TrimPrefix(buf, []byte("goroutine "))
	n, _ := strconv.ParseInt(string(buf[:bytes.IndexByte(buf, ' ')]), 10, 64)
	return n
}

// director holds evaluations at their gates until the schedule lets them go on.
type director struct {
	mu      sync.Mutex
	open    bool
	ids     map[int64]int
	release []chan bool
	events  []chan string
}

func newDirector(n int) *director {
	d := &director{ids: map[int64]int{}}
	for i := 0; i < n; i++ {
		d.release = append(d.release, make(chan bool, 1))
		d.events = append(d.events, make(chan string, 4))
	}
	return d
}

// arrive is called where an evaluation reads a gated value.
func (d *director) arrive() {
	id := goid()
	d.mu.Lock()
	p, known := d.ids[id]
	open := d.open
	d.mu.Unlock()
	if !known || open {
		return
	}
	select {
	case d.events[p] <- "gate":
	default:
	}
	<-d.release[p]
}

// gate is a row value that stops whoever reads its text.
type gate struct {
	text string
	d    *director
	seen *int64
}

func (g *gate) String() string {
	atomic.AddInt64(g.seen, 1)
	if g.d != nil {
		g.d.arrive()
	}
	return g.text
}

// gatedRow has gates for the values of text fields.
func gatedRow(doc Doc, r Row, d *director, seen *int64) evaluation.DataRow {
	out := goRow(r)
	for _, f := range doc.DD {
		if v, ok := r[f.Name]; ok && f.Type == "string" && v.K == "str" {
			out[f.Name] = evaluation.NewValue(&gate{v.S, d, seen})
		}
	}
	return out
}

// objects: 1 and 3 are built from the first model, 2 from the second.
type objects struct {
	doc *models.PMML
	m   map[int]evaluation.Model
}

func pairText(p *pair) string {
	return renderAll(p.cs[0].Doc, p.cs[0].Doc.Model, p.cs[1].Doc.Model, p.cs[0].Doc.Ver, p.cs[1].Doc.Ver)
}

func makeObjects(p *pair) (*objects, string) {
	doc, err := load(pairText(p))
	if err != nil || len(doc.Models) != 2 {
		return nil, fmt.Sprintf("the document does not load: %v, %d models", err, len(doc.Models))
	}
	o := &objects{doc, map[int]evaluation.Model{}}
	for i, mi := range map[int]int{1: 0, 2: 1, 3: 0} {
		m, err := evaluation.NewModel(&doc.DataDictionary, &doc.TransformationDictionary, doc.Models[mi])
		if err != nil {
			for _, e := range p.es[mi].Evals {
				if e.St != "err" && e.St != "undef" && !p.es[mi].Early {
					return nil, "the model does not build: " + err.Error()
				}
			}
			return nil, ""
		}
		o.m[i] = m
	}
	return o, ""
}

func (p *pair) expected(o, r int) Outcome {
	if o == 2 {
		return p.es[1].Evals[r-1]
	}
	return p.es[0].Evals[r-1]
}

func directly(m evaluation.Model, row evaluation.DataRow) (g got) {
	defer func() {
		if r := recover(); r != nil {
			g = got{St: "panic", Msg: fmt.Sprint(r)}
		}
	}()
	out, err := m.Evaluate(row)
	switch {
	case err != nil:
		return got{St: "err", Msg: err.Error()}
	case len(out) == 0:
		return got{St: "null"}
	}
	return got{St: "ok", Out: out}
}

var slowSteps int64

// conduct runs one schedule.
func conduct(p *pair, s schedule, stats map[string]int) []string {
	o, why := makeObjects(p)
	if o == nil {
		if why != "" {
			return []string{why}
		}
		stats["rejected documents"]++
		return nil
	}
	n := len(s.Procs)
	d := newDirector(n)
	seen := int64(0)
	rows := map[int]evaluation.DataRow{}
	alone := make([]got, n)
	gated := false
	for i, pr := range s.Procs {
		var k int64
		alone[i] = evalGot(o.m[pr.O], goRow(p.cs[0].Rows[pr.R-1]))
		if why := mismatch(p.expected(pr.O, pr.R), alone[i]); why != "" {
			return []string{fmt.Sprintf("object %d row %d alone: %s", pr.O, pr.R, why)}
		}
		g := evalGot(o.m[pr.O], gatedRow(p.cs[0].Doc, p.cs[0].Rows[pr.R-1], nil, &k))
		if rows[pr.R] == nil {
			rows[pr.R] = gatedRow(p.cs[0].Doc, p.cs[0].Rows[pr.R-1], d, &seen)
		}
		if mismatch(p.expected(pr.O, pr.R), g) != "" {
			rows[pr.R] = goRow(p.cs[0].Rows[pr.R-1])
		} else if k > 0 {
			gated = true
		}
	}
	if gated {
		stats["gated"]++
	}
	before := map[int]map[string]interface{}{}
	for r, row := range rows {
		before[r] = rowCopy(row)
	}
	results := make([]got, n)
	state := make([]string, n)
	var wg sync.WaitGroup
	wait := func(q int) {
		limit := 200 * time.Millisecond
		if atomic.LoadInt64(&slowSteps) > 20 {
			limit = 2 * time.Millisecond
		}
		timer := time.NewTimer(limit)
		defer timer.Stop()
		select {
		case state[q] = <-d.events[q]:
		case <-timer.C:
			// held up by another process, perhaps at a lock: the schedule is only advice
			atomic.AddInt64(&slowSteps, 1)
			state[q] = "held"
		}
	}
	start := func(q int) {
		wg.Add(1)
		state[q] = "running"
		go func() {
			defer wg.Done()
			id := goid()
			d.mu.Lock()
			d.ids[id] = q
			d.mu.Unlock()
			results[q] = directly(o.m[s.Procs[q].O], rows[s.Procs[q].R])
			d.events[q] <- "done"
		}()
	}
	for _, q1 := range s.Sched {
		q := q1 - 1
		switch state[q] {
		case "":
			start(q)
			wait(q)
			stats["steps"]++
		case "gate":
			d.release[q] <- true
			wait(q)
			stats["steps"]++
		case "held":
			wait(q)
		}
	}
	d.mu.Lock()
	d.open = true
	d.mu.Unlock()
	for q := range state {
		if state[q] == "" {
			start(q)
		}
		select {
		case d.release[q] <- true:
		default:
		}
	}
	finished := make(chan bool)
	go func() { wg.Wait(); close(finished) }()
	timer := time.NewTimer(60 * time.Second)
	defer timer.Stop()
	select {
	case <-finished:
	case <-timer.C:
		return []string{"no result 60 s after the last step of the schedule"}
	}
	bad := []string{}
	for q, pr := range s.Procs {
		if why := mismatch(p.expected(pr.O, pr.R), results[q]); why != "" {
			bad = append(bad, fmt.Sprintf("process %d (object %d row %d): %s", q+1, pr.O, pr.R, why))
		} else if !identical(alone[q], results[q]) && p.expected(pr.O, pr.R).St != "undef" {
			bad = append(bad, fmt.Sprintf("process %d (object %d row %d): alone %v, here %v", q+1, pr.O, pr.R, alone[q], results[q]))
		}
	}
	for r, row := range rows {
		if after := rowCopy(row); !sameRow(before[r], after) {
			bad = append(bad, fmt.Sprintf("row %d changed from %v to %v", r, before[r], after))
		}
	}
	return bad
}

// schedReplay runs every schedule, walking round the documents.
func schedReplay(hists, cases, expected, out string) {
	pairs := loadPairs(cases, expected)
	// documents whose evaluations have gates come first
	good := []*pair{}
	for _, p := range pairs {
		o, _ := makeObjects(p)
		if o == nil {
			continue
		}
		var k int64
		for _, i := range []int{1, 2} {
			for r := range p.cs[0].Rows[:2] {
				evalGot(o.m[i], gatedRow(p.cs[0].Doc, p.cs[0].Rows[r], nil, &k))
			}
		}
		if k >= 4 {
			good = append(good, p)
		}
	}
	if len(good) == 0 {
		good = pairs
	}
	type job struct {
		s     schedule
		p     *pair
		bad   []string
		stats map[string]int
	}
	jobs := []*job{}
	readLines(hists, func(line []byte) {
		var s schedule
		if tlcLine(line, &s) {
			jobs = append(jobs, &job{s: s, p: good[len(jobs)%len(good)], stats: map[string]int{}})
		}
	})
	pool(len(jobs), func(i int) {
		current(out, i, jobs[i].p)
		jobs[i].bad = conduct(jobs[i].p, jobs[i].s, jobs[i].stats)
	})
	res := newResult()
	for i, j := range jobs {
		for k, v := range j.stats {
			res.Stats[k] += v
		}
		res.add("schedules", fmt.Sprintf("schedule-%s-%d", strings.TrimSuffix(j.p.cs[0].ID, "/1"), i), map[string]interface{}{"schedule": j.s, "cases": j.p.cs, "document": pairText(j.p)}, j.bad)
	}
	res.Stats["held steps"] = int(slowSteps)
	res.write(out)
}

var currentMu sync.Mutex

// current leaves a note of what is running, for when the process dies.
func current(out string, i int, p *pair) {
	if i%8 != 0 {
		return
	}
	currentMu.Lock()
	defer currentMu.Unlock()
	os.WriteFile(out+".current", toJSON(map[string]interface{}{"cases": p.cs, "document": pairText(p)}), 0o644)
}

// stress lets evaluations run free: the race detector watches them and their
// results are compared with what the specification prescribes.
func stress(seed int64, cases, expected, out string, per int) {
	pairs := loadPairs(cases, expected)
	res := newResult()
	const workers = 8
	for i, p := range pairs {
		current(out, 0, p)
		o, why := makeObjects(p)
		if o == nil {
			if why != "" {
				res.add("documents", p.cs[0].ID, p.cs, []string{why})
			}
			continue
		}
		shared := []evaluation.DataRow{}
		before := []map[string]interface{}{}
		for _, r := range p.cs[0].Rows {
			row := goRow(r)
			shared = append(shared, row)
			before = append(before, rowCopy(row))
		}
		type call struct {
			o, r int
			g    got
		}
		calls := make([][]call, workers)
		begin := make(chan bool)
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			rng := rand.New(rand.NewSource(seed*7919 + int64(i*workers+w)))
			for k := 0; k < per; k++ {
				ob := 1 + rng.Intn(3)
				if i%2 == 0 {
					ob = 1
				}
				calls[w] = append(calls[w], call{o: ob, r: 1 + rng.Intn(len(shared))})
			}
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-begin
				for k := range calls[w] {
					c := &calls[w][k]
					row := shared[c.r-1]
					if (k+w)%3 == 0 {
						row = goRow(p.cs[0].Rows[c.r-1])
					}
					c.g = directly(o.m[c.o], row)
					kept := evaluation.DataRow{}
					for name, v := range c.g.Out {
						kept[name] = v
					}
					// the result belongs to the caller
					for name := range c.g.Out {
						c.g.Out[name] = evaluation.NewValue(w)
					}
					c.g.Out = kept
				}
			}(w)
		}
		close(begin)
		wg.Wait()
		bad := []string{}
		for w := range calls {
			for _, c := range calls[w] {
				res.Stats["evaluations"]++
				if why := mismatch(p.expected(c.o, c.r), c.g); why != "" && len(bad) < 5 {
					bad = append(bad, fmt.Sprintf("object %d row %d: %s", c.o, c.r, why))
				}
			}
		}
		for r, row := range shared {
			if after := rowCopy(row); !sameRow(before[r], after) {
				bad = append(bad, fmt.Sprintf("row %d changed from %v to %v", r+1, before[r], after))
			}
		}
		res.add("documents", "stress-"+p.cs[0].ID, map[string]interface{}{"cases": p.cs, "document": pairText(p)}, bad)
	}
	res.write(out)
}

// together loads, builds, verifies and evaluates independent documents at the same time.
func together(seed int64, cases, expected, out string) {
	pairs := loadPairs(cases, expected)
	res := newResult()
	bads := make([][]string, len(pairs))
	texts := make([]string, len(pairs))
	for i, p := range pairs {
		texts[i] = pairText(p)
	}
	const workers = 8
	begin := make(chan bool)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-begin
			for i := w; i < len(pairs); i += workers {
				p := pairs[i]
				o, why := makeObjects(p)
				if o == nil {
					if why != "" {
						bads[i] = []string{why}
					}
					continue
				}
				for _, ob := range []int{1, 2, 3} {
					for r := range p.cs[0].Rows {
						if why := mismatch(p.expected(ob, r+1), directly(o.m[ob], goRow(p.cs[0].Rows[r]))); why != "" {
							bads[i] = append(bads[i], fmt.Sprintf("object %d row %d: %s", ob, r+1, why))
						}
					}
				}
			}
		}(w)
	}
	close(begin)
	wg.Wait()
	for i, p := range pairs {
		res.add("independent documents", "together-"+p.cs[0].ID, map[string]interface{}{"cases": p.cs, "document": texts[i]}, bads[i])
	}
	res.write(out)
}
