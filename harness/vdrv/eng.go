package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/sonirico/vago/slices"
	"github.com/sonirico/visigoth"

	"vharness/vsync"
)

type calledRow struct {
	P int `json:"p"`
	H int `json:"h"`
}
type calledView struct {
	Docs []struct {
		ID  int `json:"id"`
		Raw int `json:"raw"`
	} `json:"docs"`
	Post [][]int     `json:"post"`
	Ans  []calledRow `json:"ans"`
}
type calledLine struct {
	I     int             `json:"i"`
	C     Call            `json:"c"`
	R     json.RawMessage `json:"r"`
	N     string          `json:"n"`
	Q     []int           `json:"q"`
	E     string          `json:"e"`
	NTok  int             `json:"ntok"`
	Plain struct {
		Err  bool  `json:"err"`
		Rows []Row `json:"rows"`
	} `json:"plain"`
	Views []calledView `json:"views"`
	Res   struct {
		Err  bool  `json:"err"`
		Rows []Row `json:"rows"`
	} `json:"res"`
}

// engCaller is an engine of the caller's: it looks at what it is shown and
// answers as the specification says it does.
type engCaller struct {
	mu    sync.Mutex
	c     *Conc
	l     calledLine
	toks  []string // tokens 1.. of the specification
	used  []bool
	bad   []string
	table []visigoth.SearchResult // all answers are windows of it
	copy  []visigoth.SearchResult
	want  []visigoth.SearchResult // the answers in the order of the views
	at    [][2]int                // window of each view
	mode  int
}

func newEngCaller(c *Conc, l calledLine, mode int) *engCaller {
	e := &engCaller{c: c, l: l, used: make([]bool, len(l.Views)), mode: mode}
	for t := 1; t <= l.NTok; t++ {
		// the token of the specification as the pipeline names it
		if w := c.tok.Tokenize(c.words[(t-1)%len(c.words)][0]); len(w) == 1 {
			e.toks = append(e.toks, w[0])
		} else {
			e.toks = append(e.toks, "")
		}
	}
	for _, v := range l.Views {
		from := len(e.table)
		for _, a := range v.Ans {
			d := visigoth.NewDoc("an identifier of the engine's", fmt.Sprint("row ", a.H))
			if a.P > 0 {
				d = visigoth.NewDoc(c.ids[v.Docs[a.P-1].ID], c.raws[v.Docs[a.P-1].Raw])
			}
			e.table = append(e.table, visigoth.SearchResult{Document: d, Hits: a.H})
		}
		e.want = append(e.want, e.table[from:]...)
		e.at = append(e.at, [2]int{from, len(e.table)})
		// what lies behind an answer is the engine's
		e.table = append(e.table, make([]visigoth.SearchResult, 1+mode%3)...)
	}
	e.copy = append(e.copy, e.table...)
	return e
}

func (e *engCaller) fail(f string, a ...any) { e.bad = append(e.bad, fmt.Sprintf(f, a...)) }

func (e *engCaller) engine(tokens []string, ix visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
	yieldPoint()
	n := ix.Len()
	docs := make([]visigoth.Doc, n)
	for i := range docs {
		k := i
		if e.mode%2 == 1 {
			k = n - 1 - i
		}
		docs[k] = ix.Document(k)
	}
	posts := make([][]int, len(e.toks))
	for t, s := range e.toks {
		posts[t] = ix.Indexed(s)
	}
	none := ix.Indexed("no token of any text!")
	yieldPoint()
	e.mu.Lock()
	defer e.mu.Unlock()
	var want []string
	for _, t := range e.l.Q {
		want = append(want, e.toks[t-1])
	}
	if strings.Join(want, "\x00") != strings.Join(tokens, "\x00") || len(want) != len(tokens) {
		e.fail("the engine is given the tokens %.200q instead of %.200q", tokens, want)
	}
	if len(none) > 0 {
		e.fail("the view lists positions %v for a token of no document", none)
	}
	why := "no designated index is left to show"
	for v, x := range e.l.Views {
		if e.used[v] {
			continue
		}
		if d := e.differs(x, docs, posts); d != "" {
			why = d
			continue
		}
		e.used[v] = true
		w := e.at[v]
		if w[0] == w[1] && e.mode%3 == 0 {
			return nil
		}
		return e.table[w[0]:w[1]]
	}
	e.fail("the engine is shown %d documents: %s", n, why)
	return nil
}

// differs compares a view with one the specification has.
func (e *engCaller) differs(x calledView, docs []visigoth.Doc, posts [][]int) string {
	if len(docs) != len(x.Docs) {
		return fmt.Sprintf("the index has %d", len(x.Docs))
	}
	for i, d := range docs {
		if d != visigoth.NewDoc(e.c.ids[x.Docs[i].ID], e.c.raws[x.Docs[i].Raw]) {
			return fmt.Sprintf("document %d is %.60q", i, d.Raw())
		}
	}
	for t, p := range posts {
		want := x.Post[t]
		same := len(p) == len(want)
		for i := 0; same && i < len(p); i++ {
			same = p[i] == want[i]-1
		}
		if !same {
			return fmt.Sprintf("token %d is said to be at %v, it is at %v (counted from 1)", t+1, p, want)
		}
	}
	return ""
}

// engWalk performs a behaviour of Eng.tla.
func engWalk(ls []calledLine, seed int64) (bad []string, at int, other bool) {
	c := NewConc(seed, []string{"plain", "spanish"}[seed%2], false)
	s := NewSys(c, false)
	rng := rand.New(rand.NewSource(seed))
	for i, l := range ls {
		e, err := decodeRes(l.C, l.R)
		if err != nil {
			die("result: %v", err)
		}
		if l.C.K == "put" {
			_, _ = s.guard(func() { s.repo.Put(c.name(l.C.N), c.again(l.C.D)) })
		} else if len(diffRes(l.C, e, s.Do(l.C))) > 0 {
			return nil, i, true
		}
		rep.count("calls", 1)
		// what is stored is other properties' business
		var plain Res
		_, stuck := s.guard(func() {
			st, err := s.repo.Search(c.name(l.N), c.text(l.Q), visigoth.NoopAllSearch)
			plain = Res{Err: err != nil}
			if err == nil {
				plain.Rows = s.drain(st)
			}
		})
		if stuck || plain.Err != l.Plain.Err || !sameRows(plain.Rows, l.Plain.Rows) {
			return nil, i, true
		}
		call := newEngCaller(c, l, rng.Intn(6))
		var got []visigoth.SearchResult
		var rows []Row
		var serr error
		body := func() {
			st, err := s.repo.Search(c.name(l.N), c.text(l.Q), call.engine)
			serr = err
			if err == nil {
				for st.Next() {
					got = append(got, st.Data())
					rows = append(rows, c.row(st.Data()))
				}
			}
		}
		var pan string
		if native {
			pan, stuck = s.guard(body)
		} else {
			pick := uint64(rng.Int63())
			o := vsync.Run([]func(){body}, func(n, cur int) int { return twinChoice(&pick, n, cur) }, false)
			stuck = o.Stuck
			if len(o.Panics) > 0 {
				pan = o.Panics[0]
			}
		}
		rep.count("searches", 1)
		switch {
		case stuck:
			return []string{"the search never returns"}, i, false
		case pan != "":
			return []string{"the search panics: " + pan}, i, false
		case (serr != nil) != l.Res.Err:
			return []string{fmt.Sprintf("error expected %v, got %v", l.Res.Err, serr)}, i, false
		}
		bad = call.bad
		for v := range call.used {
			if !call.used[v] {
				bad = append(bad, fmt.Sprintf("designated index %d of %d is not shown to the engine", v+1, len(call.used)))
			}
		}
		if len(bad) == 0 {
			same := len(got) == len(call.want)
			for j := 0; same && j < len(got); j++ {
				same = got[j] == call.want[j]
			}
			if !same || !sameRows(rows, l.Res.Rows) {
				bad = append(bad, fmt.Sprintf("the engine answered %.300v in all, the search returns %.300v", call.want, got))
			}
			for j := range call.table {
				if call.table[j] != call.copy[j] {
					bad = append(bad, fmt.Sprintf("row %d of the engine's own rows was %.100v and is now %.100v", j, call.copy[j], call.table[j]))
					break
				}
			}
		}
		if len(bad) > 0 {
			return bad, i, false
		}
	}
	return nil, 0, false
}

func cmdEng() {
	var walks [][]calledLine
	lines(*fIn, func(b []byte) {
		var l calledLine
		if err := json.Unmarshal(b, &l); err != nil {
			die("eng line: %v: %.300s", err, b)
		}
		if l.I == 0 {
			walks = append(walks, nil)
		}
		walks[len(walks)-1] = append(walks[len(walks)-1], l)
	})
	if len(walks) == 0 {
		die("no walks")
	}
	for w, ls := range walks {
		if w%*fShards != *fShard {
			continue
		}
		for k := 0; k < *fReps; k++ {
			seed := *fSeed*100019 + int64(w)*16 + int64(k)
			rep.count("walks", 1)
			bad, at, other := engWalk(ls, seed)
			if other {
				rep.count("not_by_engine", 1)
				continue
			}
			if len(bad) == 0 {
				continue
			}
			again, _, _ := engWalk(ls, seed)
			if len(again) == 0 {
				rep.count("not_confirmed", 1)
				continue
			}
			var cs []string
			for _, l := range ls[:at+1] {
				cs = append(cs, l.C.String())
			}
			rep.violation(Violation{"C25", "a caller's engine is not called as it should, or its answer is not returned", bad,
				map[string]any{"calls": cs, "search": fmt.Sprintf("search(%s, %s, %v)", ls[at].N, ls[at].E, ls[at].Q), "seed": seed}})
			break
		}
	}
}
