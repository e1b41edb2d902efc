package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync/atomic"

	"github.com/sonirico/vago/slices"
	"github.com/sonirico/vago/streams"
	"github.com/sonirico/visigoth"

	"vharness/vsync"
)

// strLine is a step of Stream.tla: a repository call or one on a stream.
type strLine struct {
	I    int             `json:"i"`
	K    string          `json:"k"`
	S    int             `json:"s"`
	C    Call            `json:"c"`
	Res  json.RawMessage `json:"res"`
	More bool            `json:"more"`
	Row  Row             `json:"row"`
	Left []Row           `json:"left"`
	exp  Res
}

type resStream = streams.ReadStream[visigoth.SearchResult]

// strWorld is a repository and the streams the caller has open.
type strWorld struct {
	sys   *Sys
	open  map[int]resStream
	rows  map[int][]Row // what each is to deliver, and how much of it has been
	at    map[int]int
	eager bool
	crowd []crowd // further streams of the same searches, read at the end
}

type crowd struct {
	st   resStream
	rows []Row
	c    Call
}

func newStrWorld(seed int64, eager bool) *strWorld {
	p := []string{"spanish", "plain"}[seed%2]
	return &strWorld{sys: NewSys(NewConc(seed, p, false), false), open: map[int]resStream{}, rows: map[int][]Row{}, at: map[int]int{}, eager: eager}
}

// search opens a stream. An eager world reads it at once and keeps the rows;
// where one index is reached they are those its engine returned.
func (w *strWorld) search(c Call) (st resStream, failed bool, pan string, stuck bool) {
	pan, stuck = w.sys.guard(func() {
		var rows []visigoth.SearchResult
		var calls atomic.Int32
		eng := engine(c.M)
		if w.eager {
			eng = func(tokens []string, in visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
				got := engine(c.M)(tokens, in)
				if calls.Add(1) == 1 {
					rows = append(rows, got...)
				}
				return got
			}
		}
		r, err := w.sys.repo.Search(w.sys.c.name(c.N), w.sys.c.text(c.Q), eng)
		if err != nil {
			failed = true
			return
		}
		st = r
		if w.eager {
			var read []visigoth.SearchResult
			for len(read) < 20000 && r.Next() {
				read = append(read, r.Data())
			}
			if calls.Load() != 1 {
				rows = read
			}
			st = streams.MemReader(rows, nil)
		}
	})
	return
}

// step performs one step; bad says what is wrong with it.
func (w *strWorld) step(l strLine) (bad string) {
	st := w.open[l.S]
	switch l.K {
	case "call":
		if d := diffRes(l.C, l.exp, w.sys.Do(l.C)); len(d) > 0 {
			return fmt.Sprintf("%v: %v", l.C, d[0])
		}
		return ""
	case "open":
		st, failed, pan, stuck := w.search(l.C)
		switch {
		case pan != "" || stuck:
			return fmt.Sprintf("%v: panic %q, does not return: %v", l.C, pan, stuck)
		case failed != l.exp.Err:
			return fmt.Sprintf("%v: error %v instead of %v", l.C, failed, l.exp.Err)
		}
		if !failed {
			w.open[l.S], w.rows[l.S], w.at[l.S] = st, l.exp.Rows, 0
			if w.sys.c.rng.Intn(8) == 0 {
				k := 1 + w.sys.c.rng.Intn(100)
				if len(w.crowd) < 3000 && len(l.exp.Rows) < 50 && w.sys.c.rng.Intn(6) == 0 {
					k *= 20
				}
				for ; k > 0; k-- {
					st, failed, pan, stuck := w.search(l.C)
					if failed || pan != "" || stuck {
						return fmt.Sprintf("%v, again: error %v, panic %q, does not return: %v", l.C, failed, pan, stuck)
					}
					w.crowd = append(w.crowd, crowd{st, l.exp.Rows, l.C})
				}
			}
		}
		return ""
	}
	if st == nil {
		die("stream %d is not open", l.S)
	}
	say := func(f string, a ...any) { bad = fmt.Sprintf("stream %d: ", l.S) + fmt.Sprintf(f, a...) }
	pan, stuck := w.sys.guard(func() {
		switch l.K {
		case "next":
			if got := st.Next(); got != l.More {
				say("there is more: %v instead of %v (after %d of %d rows)", got, l.More, w.at[l.S], len(w.rows[l.S]))
			}
			w.at[l.S] = min(w.at[l.S]+1, len(w.rows[l.S])+1)
		case "data":
			for k := 0; k <= w.sys.c.rng.Intn(3) && bad == ""; k++ {
				if got := w.sys.c.row(st.Data()); got != l.Row {
					say("the current row is %v instead of %v (asked %d times)", got, l.Row, k+1)
				}
			}
		case "err":
			if err := st.Err(); err != nil {
				say("it reports the error %v", err)
			}
		case "close":
			for k := 0; k <= w.sys.c.rng.Intn(2); k++ {
				if err := st.Close(); err != nil {
					say("closing reports the error %v", err)
				}
			}
			delete(w.open, l.S)
		case "rest":
			got := []Row{}
			for len(got) <= len(l.Left) && st.Next() {
				got = append(got, w.sys.c.row(st.Data()))
			}
			if !sameRows(got, l.Left) {
				say("the rest of the rows is %v instead of %v", got, l.Left)
			} else if st.Next() || st.Err() != nil {
				say("after its end there is more, or an error")
			}
			w.at[l.S] = len(w.rows[l.S]) + 1
		default:
			die("step %q", l.K)
		}
	})
	if pan != "" || stuck {
		say("%s: panic %q, does not return: %v", l.K, pan, stuck)
	}
	return bad
}

// rest reads the crowd, a row of each stream in turn.
func (w *strWorld) rest() (bad string) {
	pan, stuck := w.sys.guard(func() {
		for k := 0; ; k++ {
			more := false
			for i, x := range w.crowd {
				if k > len(x.rows)+1 {
					continue
				}
				more = true
				n := x.st.Next()
				if n != (k < len(x.rows)) {
					bad = fmt.Sprintf("stream %d of %d held, of %v: there is more: %v after %d of %d rows", i, len(w.crowd), x.c, n, k, len(x.rows))
				} else if n && w.sys.c.row(x.st.Data()) != x.rows[k] {
					bad = fmt.Sprintf("stream %d of %d held, of %v: row %d is %v instead of %v", i, len(w.crowd), x.c, k, w.sys.c.row(x.st.Data()), x.rows[k])
				} else if x.st.Err() != nil {
					bad = fmt.Sprintf("stream %d of %d held, of %v: it reports the error %v", i, len(w.crowd), x.c, x.st.Err())
				}
				if bad != "" {
					return
				}
			}
			if !more {
				return
			}
		}
	})
	if pan != "" || stuck {
		return fmt.Sprintf("reading %d held streams: panic %q, does not return: %v", len(w.crowd), pan, stuck)
	}
	rep.count("crowd", len(w.crowd))
	return
}

// strSeq performs the steps of a walk one by one.
func strSeq(ls []strLine, seed int64, eager bool) (bad string, at int) {
	w := newStrWorld(seed, eager)
	for i, l := range ls {
		rep.count("steps", 1)
		if bad := w.step(l); bad != "" {
			return bad, i
		}
	}
	return w.rest(), len(ls)
}

// strPar performs a walk up to step k, and then reads every open stream in a
// thread of its own while another performs the remaining calls.
func strPar(ls []strLine, seed int64, k int, rng *rand.Rand, eager bool) (bad string, races int) {
	w := newStrWorld(seed, eager)
	for _, l := range ls[:k] {
		if w.step(l) != "" {
			return "", 0 // seen by strSeq
		}
	}
	type reader struct {
		st   resStream
		got  []visigoth.SearchResult
		pan  string
		want []Row
		s    int
	}
	var rs []*reader
	for s := 1; s < 100; s++ {
		if st := w.open[s]; st != nil {
			rows := w.rows[s]
			rs = append(rs, &reader{st: st, s: s, want: rows[min(w.at[s], len(rows)):]})
		}
	}
	if len(rs) == 0 {
		return "", 0
	}
	ops := []func(){func() {
		for _, l := range ls[k:] {
			switch l.K {
			case "call":
				if r, _ := w.sys.do(l.C, false); bad == "" {
					if d := diffRes(l.C, l.exp, r); len(d) > 0 {
						bad = fmt.Sprintf("while streams are read, %v: %v", l.C, d[0])
					}
				}
			case "open":
				r, err := w.sys.repo.Search(w.sys.c.name(l.C.N), w.sys.c.text(l.C.Q), engine(l.C.M))
				if bad == "" && (err != nil) != l.exp.Err {
					bad = fmt.Sprintf("while streams are read, %v: error %v", l.C, err)
				}
				if err == nil && bad == "" {
					if got := w.sys.drain(r); !sameRows(got, l.exp.Rows) {
						bad = fmt.Sprintf("while streams are read, %v: %v instead of %v", l.C, got, l.exp.Rows)
					}
				}
			}
		}
	}}
	for _, r := range rs {
		r := r
		ops = append(ops, func() {
			defer func() {
				if p := recover(); p != nil {
					r.pan = fmt.Sprint(p)
				}
			}()
			for len(r.got) <= len(r.want) && r.st.Next() {
				r.got = append(r.got, r.st.Data())
				if len(r.got)%2 == 1 {
					r.st.Err()
					if !native {
						vsync.Yield()
					}
				}
			}
			r.st.Close()
		})
	}
	was := vsync.RaceErrors()
	if native {
		if nativeRun(ops) {
			return "reading streams while calls are made never ends", 0
		}
	} else {
		sd := uint64(rng.Int63())
		o := vsync.Run(ops, func(n, cur int) int { return twinChoice(&sd, n, cur) }, false)
		if o.Stuck {
			return "reading streams while calls are made never ends: " + strings.Join(o.Blocked, ", "), 0
		}
		if len(o.Panics) > 0 {
			return "panic while streams are read: " + o.Panics[0], 0
		}
	}
	races = vsync.RaceErrors() - was
	rep.count("concurrent", 1)
	for _, r := range rs {
		got := []Row{}
		for _, x := range r.got {
			got = append(got, w.sys.c.row(x))
		}
		if bad == "" && (r.pan != "" || !sameRows(got, r.want)) {
			bad = fmt.Sprintf("stream %d, read by a goroutine of its own, delivers %v instead of %v (panic %q)", r.s, got, r.want, r.pan)
		}
	}
	if bad == "" && races > 0 {
		bad = fmt.Sprintf("data race between the reader of a stream and another goroutine (%d)", races)
	}
	return
}

// cmdStream performs the behaviours of Stream.tla.
func cmdStream() {
	var walks [][]strLine
	lines(*fIn, func(b []byte) {
		var l strLine
		if err := json.Unmarshal(b, &l); err != nil {
			die("stream line: %v: %.300s", err, b)
		}
		if l.K == "call" || l.K == "open" {
			e, err := decodeRes(l.C, l.Res)
			if err != nil {
				die("stream result: %v: %.300s", err, b)
			}
			l.exp = e
		}
		if l.I == 0 {
			walks = append(walks, nil)
		}
		walks[len(walks)-1] = append(walks[len(walks)-1], l)
	})
	if len(walks) == 0 {
		die("no walks")
	}
	for i, ls := range walks {
		if i%*fShards != *fShard {
			continue
		}
		if overBudget() {
			rep.count("cut", 1)
			continue
		}
		seed := *fSeed*100003 + int64(i)
		rep.count("walks", 1)
		if i < 2 {
			var cs []string
			for _, l := range ls[:min(len(ls), 60)] {
				cs = append(cs, fmt.Sprintf("%s %d", l.K, l.S))
			}
			rep.sample(2, strings.Join(cs, "; "))
		}
		bad, at := strSeq(ls, seed, false)
		alone := func() bool { b, _ := strSeq(ls, seed, true); return b != "" }
		if bad == "" {
			rng := rand.New(rand.NewSource(seed))
			for k := 0; k < *fReps && bad == ""; k++ {
				at = rng.Intn(len(ls))
				bad, _ = strPar(ls, seed, at, rng, false)
			}
			cut := at
			alone = func() bool {
				for k := 0; k < 20; k++ {
					if b, _ := strPar(ls, seed, cut, rng, true); b != "" {
						return true
					}
				}
				return false
			}
		} else if again, _ := strSeq(ls, seed, false); again == "" {
			rep.count("unconfirmed", 1)
			continue
		}
		if bad == "" {
			continue
		}
		// what also happens when every stream is read at once is another
		// property's business
		if alone() {
			rep.count("not_by_streams", 1)
			continue
		}
		var cs []string
		for _, l := range ls[:min(at+1, len(ls))] {
			if l.K == "call" || l.K == "open" {
				cs = append(cs, fmt.Sprintf("%s %d %v", l.K, l.S, l.C))
			} else {
				cs = append(cs, fmt.Sprintf("%s %d", l.K, l.S))
			}
		}
		rep.violation(Violation{"C28", bad, nil, map[string]any{"steps": cs, "seed": seed}})
	}
}
