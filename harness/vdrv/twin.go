package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strings"

	"github.com/sonirico/visigoth"

	"vharness/vsync"
)

type twinLine struct {
	I    int                    `json:"i"`
	R    int                    `json:"r"`
	C    Call                   `json:"c"`
	Res  json.RawMessage        `json:"res"`
	Q1   []int                  `json:"q1"`
	Q2   []int                  `json:"q2"`
	Al   []AlMap                `json:"al"`
	Show []map[string]*NameView `json:"show"`
}

// canonical makes a concretization render a token sequence as the one text it
// renders it as everywhere: repositories with different pipelines then see the
// same texts.
func canonical(seed int64, spanish bool) *Conc {
	c := NewConc(seed, "spanish", false)
	c.noise, c.canon = nil, true
	for i := range c.words {
		c.words[i] = c.words[i][:1]
	}
	if !spanish {
		var fs []visigoth.Filter
		if seed%3 > 0 {
			fs = append(fs, visigoth.NewLowerCaseTokenizer())
		}
		c.tok = visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer(), fs...)
	}
	return c
}

type twin struct {
	sys   []*Sys
	build []visigoth.Builder
	free  []*Conc // concretizations for the repositories to use at the same time
}

// newTwin makes n repositories; the last shares its builder with the first,
// they all have the same names, identifiers and texts.
func newTwin(n int, seed int64) *twin {
	t := &twin{}
	share := seed%2 == 0 // one pipeline per builder, or one for all that can share it
	var pipes [2]*Conc
	for i := range pipes {
		pipes[i] = canonical(seed, i == 1)
	}
	for i := 0; i < n; i++ {
		c := canonical(seed, i%2 == 1)
		if share || i == n-1 {
			c.tok = pipes[i%2].tok
		}
		b := visigoth.NewMemoryIndexBuilder(c.tok)
		if i == n-1 && (n-1)%2 == 0 {
			b = t.build[0]
		}
		t.build = append(t.build, b)
		t.sys = append(t.sys, &Sys{c: c, repo: visigoth.NewIndexRepo(b)})
	}
	return t
}

// do performs one call on repository r.
func (t *twin) do(r int, c Call) Res {
	s := t.sys[r]
	if c.K != "direct" {
		return s.Do(c)
	}
	var rows []Row
	pan, stuck := s.guard(func() {
		ix := t.build[r](s.c.name(c.N))
		for range ix.Search("", visigoth.NoopAllSearch) {
			rows = append(rows, Row{-1, -1, -1})
		}
		ix = ix.Put(s.c.again(c.D))
		for _, x := range ix.Search("", visigoth.NoopAllSearch) {
			rows = append(rows, s.c.row(x))
		}
	})
	return Res{Kind: "search", Rows: rows, Panic: pan, Stuck: stuck}
}

func twinExp(l twinLine) Res {
	c := l.C
	if c.K == "direct" {
		var rows []Row
		if err := json.Unmarshal(l.Res, &rows); err != nil {
			die("direct: %v", err)
		}
		return Res{Kind: "search", Rows: rows}
	}
	e, err := decodeRes(c, l.Res)
	if err != nil {
		die("result: %v", err)
	}
	return e
}

// twinSeq performs a walk call by call and looks at every repository after
// each.  With solo >= 0 only the calls of that repository are performed.
func twinSeq(ls []twinLine, seed int64, solo int) (bad []string, repo, at int) {
	n := len(ls[0].Show)
	t := newTwin(n, seed)
	names := sortedKeys(ls[0].Show[0])
	for i, l := range ls {
		r := l.R - 1
		if solo >= 0 && (r != solo || l.C.K == "direct") {
			continue
		}
		rep.count("steps", 1)
		for _, d := range diffRes(l.C, twinExp(l), t.do(r, l.C)) {
			bad = append(bad, fmt.Sprintf("repository %d: %v", r+1, d))
		}
		if len(bad) > 0 {
			return bad, r, i
		}
		for x := 0; x < n; x++ {
			if solo >= 0 && x != solo {
				continue
			}
			ds := compare(l.Show[x], l.Al[x], t.sys[x].Observe(names, l.Q1, l.Q2), names)
			for _, d := range ds {
				bad = append(bad, fmt.Sprintf("after %v on repository %d, repository %d: %v", l.C, r+1, x+1, d))
			}
			if len(bad) > 0 {
				return bad, x, i
			}
		}
	}
	return nil, 0, 0
}

// twinPar gives every repository a thread of its own.
func twinPar(ls []twinLine, seed int64, rng *rand.Rand, solo int) (bad []string, repo int, races int) {
	n := len(ls[0].Show)
	t := newTwin(n, seed)
	names := sortedKeys(ls[0].Show[0])
	got := make([]Res, len(ls))
	at := -1
	var ops []func()
	for r := 0; r < n; r++ {
		r := r
		if solo >= 0 && r != solo {
			continue
		}
		ops = append(ops, func() {
			for i, l := range ls {
				if l.R-1 != r || l.C.K == "direct" {
					continue
				}
				func() {
					defer func() {
						if p := recover(); p != nil {
							got[i] = Res{Panic: fmt.Sprint(p)}
						}
					}()
					got[i], _ = t.sys[r].do(l.C, false)
				}()
			}
		})
	}
	was := vsync.RaceErrors()
	if native {
		if nativeRun(ops) {
			return []string{"the calls never return"}, 0, 0
		}
	} else {
		seed := uint64(rng.Int63())
		o := vsync.Run(ops, func(n, cur int) int { return twinChoice(&seed, n, cur) }, false)
		if o.Stuck {
			return []string{"the calls never return: " + strings.Join(o.Blocked, ", ")}, -1, 0
		}
		if len(o.Panics) > 0 {
			return []string{o.Panics[0]}, -1, 0
		}
	}
	races = vsync.RaceErrors() - was
	rep.count("concurrent", 1)
	last := make([]int, n)
	for i, l := range ls {
		r := l.R - 1
		if solo >= 0 && r != solo || l.C.K == "direct" {
			continue
		}
		last[r] = i
		if d := diffRes(l.C, twinExp(l), got[i]); len(d) > 0 {
			return []string{fmt.Sprintf("repository %d, step %d: %v", r+1, i, d[0])}, r, races
		}
	}
	_ = at
	end := ls[len(ls)-1]
	for r := 0; r < n; r++ {
		if solo >= 0 && r != solo {
			continue
		}
		if ds := compare(end.Show[r], end.Al[r], t.sys[r].Observe(names, end.Q1, end.Q2), names); len(ds) > 0 {
			return []string{fmt.Sprintf("repository %d at the end: %v", r+1, ds[0])}, r, races
		}
	}
	return nil, 0, races
}

//
//go:norace
func twinChoice(seed *uint64, n, cur int) int {
	*seed = *seed*6364136223846793005 + 1442695040888963407
	return int(*seed>>33) % n
}

func cmdTwin() {
	var walks [][]twinLine
	lines(*fIn, func(b []byte) {
		var l twinLine
		if err := json.Unmarshal(b, &l); err != nil {
			die("twin line: %v: %.300s", err, b)
		}
		if l.I == 0 {
			walks = append(walks, nil)
		}
		walks[len(walks)-1] = append(walks[len(walks)-1], l)
	})
	if len(walks) == 0 {
		die("no walks")
	}
	seedOf := func(i int) int64 { return *fSeed*100019 + int64(i) }
	if strings.HasPrefix(*fMode, "solo:") {
		// the calls of one repository alone, in a process of their own
		var w, r int
		fmt.Sscanf(*fMode, "solo:%d:%d", &w, &r)
		bad, _, _ := twinSeq(walks[w], seedOf(w), r)
		if len(bad) > 0 {
			rep.count("deviates", 1)
		}
		for k := 0; k < 20 && len(bad) == 0; k++ {
			b, _, races := twinPar(walks[w], seedOf(w), rand.New(rand.NewSource(int64(k))), r)
			if len(b) > 0 || races > 0 {
				rep.count("deviates", 1)
				break
			}
		}
		return
	}
	for w, ls := range walks {
		if w%*fShards != *fShard {
			continue
		}
		if overBudget() {
			rep.count("cut", 1)
			continue
		}
		seed := seedOf(w)
		rep.count("walks", 1)
		bad, r, at := twinSeq(ls, seed, -1)
		what := "separate repositories are not apart"
		races := 0
		if len(bad) == 0 {
			rng := rand.New(rand.NewSource(seed))
			for k := 0; k < *fReps && len(bad) == 0 && races == 0; k++ {
				bad, r, races = twinPar(ls, seed, rng, -1)
				at = len(ls) - 1
			}
			if len(bad) > 0 {
				what = "separate repositories used at the same time are not apart"
			}
			if races > 0 {
				what = "data race between separate repositories"
			}
		}
		if len(bad) == 0 && races == 0 {
			continue
		}
		// a repository that does the same when it is alone is another
		// property's business
		alone := false
		for x := range ls[0].Show {
			if r >= 0 && x != r && races == 0 {
				continue
			}
			d, ok := soloDeviates(w, x)
			if !ok {
				die("solo run failed")
			}
			alone = alone || d
		}
		if alone {
			rep.count("not_by_others", 1)
			continue
		}
		var cs []string
		for _, l := range ls[:at+1] {
			cs = append(cs, fmt.Sprintf("%d: %v", l.R, l.C))
		}
		rep.violation(Violation{"C24", what, bad, map[string]any{"calls": cs, "seed": seed}})
	}
}

func soloDeviates(w, r int) (bool, bool) {
	f, err := os.CreateTemp("", "solo")
	if err != nil {
		return false, false
	}
	f.Close()
	defer os.Remove(f.Name())
	args := []string{"twin", "-out", f.Name(), "-seed", fmt.Sprint(*fSeed), "-in", *fIn, "-mode", fmt.Sprintf("solo:%d:%d", w, r)}
	if native {
		args = append(args, "-native")
	}
	if err := exec.Command(os.Args[0], args...).Run(); err != nil {
		return false, false
	}
	b, err := os.ReadFile(f.Name())
	if err != nil {
		return false, false
	}
	var m struct {
		Counts map[string]int `json:"counts"`
	}
	if json.Unmarshal(b, &m) != nil {
		return false, false
	}
	return m.Counts["deviates"] > 0, true
}
