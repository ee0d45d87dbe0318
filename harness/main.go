package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
)

type gen func(*G) Case

var gens = map[string]gen{"P02": genP02, "P03": genP03, "P04": genP04, "P05": genP05, "P06": genP06, "P07": genP07, "P08": genP08, "P09": genP09, "P10": genP10, "P11": genP11, "P15": genP15}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func readLines(path string, f func([]byte)) {
	file, err := os.Open(path)
	fatal(err)
	defer file.Close()
	sc := bufio.NewScanner(file)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			f(sc.Bytes())
		}
	}
	fatal(sc.Err())
}

// pool runs work(0..n-1) on all cores.
func pool(n int, work func(int)) {
	var wg sync.WaitGroup
	next := int64(-1)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n {
					return
				}
				work(i)
			}
		}()
	}
	wg.Wait()
}

// parallel runs work on every line TLC emitted, on all cores, and done on the
// results in their order.
func parallel[C any](path string, work func(C) []string, done func(C, []string)) {
	type job struct {
		c   C
		bad []string
	}
	jobs := []*job{}
	readLines(path, func(line []byte) {
		j := &job{}
		if tlcLine(line, &j.c) {
			jobs = append(jobs, j)
		}
	})
	pool(len(jobs), func(i int) { jobs[i].bad = work(jobs[i].c) })
	for _, j := range jobs {
		done(j.c, j.bad)
	}
}

// tlcLine undoes PrintT("@@" \o ToJson(x)); it skips TLC's other output.
func tlcLine(line []byte, v interface{}) bool {
	if !bytes.HasPrefix(line, []byte(`"@@`)) {
		return false
	}
	var s string
	fatal(json.Unmarshal(line, &s))
	fatal(json.Unmarshal([]byte(s[2:]), v))
	return true
}

func main() {
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Int64("seed", 1, "seed")
	n := fs.Int("n", 100, "cases")
	in := fs.String("cases", "", "cases file")
	exp := fs.String("expected", "", "expected outcomes written by TLC")
	hist := fs.String("hist", "", "histories written by TLC")
	per := fs.Int("per", 1, "documents per history")
	schemaFile := fs.String("schema", "", "schema.json")
	out := fs.String("out", "", "output file")
	verify := fs.Bool("verify", false, "compare Verify as well")
	junk := fs.Bool("junk", false, "also evaluate unusable rows")
	fatal(fs.Parse(os.Args[2:]))

	loadDict()
	switch cmd {
	case "literals":
		writeLiterals(*out)
	case "gen":
		f, err := os.Create(*out)
		fatal(err)
		w := bufio.NewWriter(f)
		for i := 0; i < *n; i++ {
			g := &G{r: rand.New(rand.NewSource(*seed*1000003 + int64(i)))}
			if g.p(0.015) {
				g.wide, g.huge = true, []int{65, 101, 128, 129, 255, 256, 257, 258, 300}[g.n(9)]
			} else if g.p(0.1) {
				g.wide = true
				if g.p(0.7) {
					g.extra = 8 + g.n(32)
				} else {
					g.deep = 3 + g.n(10)
				}
			}
			g.steer()
			var c Case
			if scalable[*prop] && g.p(0.08) {
				c = g.scaled(gens[*prop])
			} else {
				c = gens[*prop](g)
			}
			var d Doc
			fatal(json.Unmarshal(toJSON(c.Doc), &d)) // generators may share slices
			c.Doc = d
			if g.p(0.3) {
				g.alias(&c)
			}
			if g.p(0.5) {
				g.rename(&c)
			}
			c.ID = fmt.Sprintf("%s-%d-%d", *prop, *seed, i)
			w.Write(toJSON(c))
			w.WriteByte('\n')
		}
		fatal(w.Flush())
		fatal(f.Close())
	case "verifgen":
		verifgen(*seed, *in, *exp, *out)
	case "replay":
		replayAll(*in, *exp, *out, *verify, *junk)
	case "convgen":
		convGen(*seed, *n, *out)
	case "conv":
		convReplay(*in, *out)
	case "sessgen":
		sessGen(*seed, *n, *out)
	case "session":
		sessReplay(*hist, *in, *exp, *out, *per)
	case "life":
		lifeReplay(*hist, *in, *exp, *out, *per)
	case "sched":
		schedReplay(*hist, *in, *exp, *out)
	case "stress":
		stress(*seed, *in, *exp, *out, *per)
	case "together":
		together(*seed, *in, *exp, *out)
	case "load", "loadgen":
		readSchema(*schemaFile)
		if cmd == "load" {
			loadReplay(*in, *out)
		} else {
			loadGen(*seed, *n, *out)
		}
	case "factory":
		factoryReplay(*in, *out)
	case "arraygen":
		arrayGen(*seed, *n, *out)
	case "array":
		arrayReplay(*in, *out)
	case "render":
		readLines(*in, func(b []byte) {
			var c Case
			fatal(json.Unmarshal(b, &c))
			fmt.Println(render(c.Doc))
		})
	default:
		fatal(fmt.Errorf("unknown command %s", cmd))
	}
}

// Failure is one disagreement, enough to reproduce it.
type Failure struct {
	ID       string          `json:"id"`
	Problems []string        `json:"problems"`
	Document string          `json:"document"`
	Case     json.RawMessage `json:"case"`
	Expected json.RawMessage `json:"expected"`
}

// Emitted is a case TLC enumerated together with its outcome.
type Emitted struct {
	Case Case     `json:"case"`
	Exp  Expected `json:"exp"`
}

func replayAll(cases, expected, out string, verify, junk bool) {
	type job struct {
		Emitted
		bad   []string
		stats map[string]int
	}
	jobs := []*job{}
	if expected == "" {
		readLines(cases, func(b []byte) {
			j := &job{}
			if !tlcLine(b, &j.Emitted) {
				return
			}
			if j.Case.ID == "" {
				j.Case.ID = fmt.Sprintf("enumerated-%d", len(jobs)+1)
			}
			jobs = append(jobs, j)
		})
	} else {
		byID := map[string]Expected{}
		readLines(expected, func(b []byte) {
			var e Expected
			if tlcLine(b, &e) {
				byID[e.ID] = e
			}
		})
		readLines(cases, func(b []byte) {
			j := &job{}
			fatal(json.Unmarshal(b, &j.Case))
			e, ok := byID[j.Case.ID]
			if !ok {
				fatal(fmt.Errorf("no expected outcome for %s", j.Case.ID))
			}
			j.Exp = e
			jobs = append(jobs, j)
		})
	}
	pool(len(jobs), func(i int) {
		j := jobs[i]
		j.stats = map[string]int{}
		j.bad = replay(j.Case, j.Exp, j.stats, verify, junk)
	})
	stats := map[string]int{}
	fails := []Failure{}
	compared := 0
	samples := []json.RawMessage{}
	for i, j := range jobs {
		compared += len(j.Case.Rows)
		for k, v := range j.stats {
			stats[k] += v
		}
		if i%997 == 0 && len(samples) < 2 {
			s := j.Case
			if len(s.Rows) > 2 {
				s.Rows = s.Rows[:2]
			}
			samples = append(samples, toJSON(map[string]interface{}{"case": s, "document": render(j.Case.Doc), "expected": describeAll(j.Exp)}))
		}
		if len(j.bad) > 0 && len(fails) < 50 {
			fails = append(fails, Failure{j.Case.ID, j.bad, render(j.Case.Doc), toJSON(j.Case), toJSON(j.Exp)})
		}
	}
	f, err := os.Create(out)
	fatal(err)
	enc := json.NewEncoder(f)
	fatal(enc.Encode(map[string]interface{}{"cases": len(jobs), "stats": stats, "failures": fails, "compared": compared, "samples": samples}))
	fatal(f.Close())
}

func describeAll(e Expected) []string {
	out := []string{}
	for i, o := range e.Evals {
		if i < 2 {
			out = append(out, o.St+" "+describe(o))
		}
	}
	return out
}
