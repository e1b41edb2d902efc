package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

type wline struct {
	I    int                  `json:"i"`
	Pre  State                `json:"pre"`
	C    Call                 `json:"c"`
	R    json.RawMessage      `json:"r"`
	T    State                `json:"t"`
	Q1   []int                `json:"q1"`
	Q2   []int                `json:"q2"`
	Dix  []string             `json:"dix"`
	Dal  []string             `json:"dal"`
	Show map[string]*NameView `json:"show"`
	Ds   []Doc                `json:"ds"`
	Cs   []Call               `json:"cs"`    // many calls in one step, all of which succeed
	N    int                  `json:"times"` // how often, 0 and 1: once
	R2   json.RawMessage      `json:"r2"`    // the result from the second time on
}

type keptRes struct {
	h     *Held
	exp   Res
	step  int
	clean bool
}

// cmdWalk performs the random behaviours of RepoSim on the real code.
func cmdWalk() {
	var walks [][]wline
	lines(*fIn, func(b []byte) {
		var l wline
		if err := json.Unmarshal(b, &l); err != nil {
			die("walk line: %v: %.300s", err, b)
		}
		if l.I == 0 {
			walks = append(walks, nil)
		}
		walks[len(walks)-1] = append(walks[len(walks)-1], l)
	})
	if len(walks) == 0 {
		die("no walks")
	}
	stuck := 0
	for w, ls := range walks {
		if w%*fShards != *fShard {
			continue
		}
		if overBudget() || native && stuck > 2 {
			rep.count("cut", 1)
			continue
		}
		seed := *fSeed*100003 + int64(w)
		m, at := runWalk(ls, seed)
		rep.count("walks", 1)
		if len(m) == 0 {
			if len(ls) > 10 {
				var cs []string
				for _, l := range ls[:10] {
					cs = append(cs, l.C.String())
				}
				rep.sample(1, map[string]any{"walk": cs, "length": len(ls), "final": ls[len(ls)-1].T.String()})
			}
			continue
		}
		m2, _ := runWalk(ls, seed)
		for r := 0; r < 8 && len(m2) == 0; r++ {
			m2, _ = runWalk(ls, seed)
		}
		if len(m2) == 0 {
			rep.count("unconfirmed", 1)
			continue
		}
		if p, ok := strings.CutPrefix(*fMode, "fault:"); ok {
			// the same without the faults
			m3, _ := runWalk(without(ls), seed)
			for r := 0; r < 3 && len(m3) == 0; r++ {
				m3, _ = runWalk(without(ls), seed)
			}
			if len(m3) > 0 {
				rep.count("not_by_fault", 1)
				continue
			}
			all := map[string][]string{}
			for _, q := range propsOf(m) {
				all[p] = append(all[p], m[q]...)
			}
			m = all
		}
		if len(m["C03"]) > 0 {
			stuck++
		}
		var cs []string
		for _, l := range ls[:at+1] {
			cs = append(cs, l.C.String())
		}
		for _, p := range propsOf(m) {
			rep.violation(Violation{p, fmt.Sprintf("%v in %v", ls[at].C, ls[at].Pre), m[p],
				map[string]any{"calls": cs, "concretization_seed": seed, "profile": profOf(seed)}})
		}
	}
}

// faults are the calls in which something of the caller's panics.
var faults = map[string]bool{"panicsearch": true, "panicquery": true, "panicbuild": true, "panicdoc": true}

func without(ls []wline) []wline {
	var out []wline
	for _, l := range ls {
		if !faults[l.C.K] {
			out = append(out, l)
		}
	}
	return out
}

func profOf(seed int64) string {
	if *fProfile != "" {
		return *fProfile
	}
	if seed%3 == 0 {
		return "spanish"
	}
	return "plain"
}

func runWalk(ls []wline, seed int64) (map[string][]string, int) {
	if len(ls) == 0 {
		return nil, 0
	}
	conc := NewConc(seed, profOf(seed), false)
	sys := NewSys(conc, false)
	names := sortedKeys(ls[0].Show)
	var kept []keptRes
	for i, l := range ls {
		rep.count("steps", 1)
		exp, err := decodeRes(l.C, l.R)
		if err != nil {
			die("result: %v", err)
		}
		// a read: one result is compared at once, another is kept unread
		isRead := l.C.K == "search" || l.C.K == "list" || l.C.K == "listal"
		var got Res
		if len(l.Ds) > 0 { // many puts in one step
			for _, d := range l.Ds {
				c := l.C
				c.D = d
				got = sys.Do(c)
				if got.Stuck || got.Panic != "" {
					break
				}
			}
			rep.count("bulk_puts", len(l.Ds))
		} else if len(l.Cs) > 0 {
			for _, c := range l.Cs {
				got = sys.Do(c)
				if got.Stuck || got.Panic != "" || len(diffRes(c, exp, got)) > 0 {
					break
				}
			}
			rep.count("mass_calls", len(l.Cs))
		} else {
			got = sys.Do(l.C)
		}
		ds := diffRes(l.C, exp, got)
		if l.N > 1 && len(ds) == 0 {
			exp2, err := decodeRes(l.C, l.R2)
			if err != nil {
				die("result: %v", err)
			}
			for k := 1; k < l.N && len(ds) == 0; k++ {
				got = sys.Do(l.C)
				ds = diffRes(l.C, exp2, got)
			}
			rep.count("repeated_calls", l.N-1)
		}
		if faults[l.C.K] {
			rep.count("faults", max(1, l.N))
		}
		if got.Stuck {
			return blame(l.C, l.Pre, false, l.Dix, l.Dal, ds), i
		}
		if isRead {
			h, r := sys.Keep(l.C)
			if r.Stuck || r.Panic != "" {
				ds = append(ds, diffRes(l.C, exp, r)...)
			} else if len(ds) == 0 {
				kept = append(kept, keptRes{h, exp, i, true})
			}
		}
		v := sys.Observe(names, l.Q1, l.Q2)
		rep.count("observations", 1)
		d1 := compare(l.Show, l.T.Al, v, names)
		ds = append(ds, d1...)
		m := map[string][]string{}
		if len(d1) == 0 {
			// reads change nothing: a second look shows the same
			if d2 := compare(l.Show, l.T.Al, sys.Observe(names, l.Q1, l.Q2), names); len(d2) > 0 {
				for _, d := range d2 {
					addTo(m, "C13", "a second look shows something else: %v", d)
					if d.Cat == "rank" || d.Cat == "order" || d.Cat == "resord" {
						addTo(m, "C11", "a second look shows something else: %v", d)
					}
				}
			}
		}
		if len(ds) > 0 {
			for p, x := range blame(l.C, l.Pre, string(l.R) == "false", l.Dix, l.Dal, ds) {
				m[p] = append(m[p], x...)
			}
			if faults[l.C.K] && len(m) == 0 {
				addTo(m, "C18", "the call that panics: %v", ds)
			}
		}
		// kept results: some are read now, all at the end
		if len(m) == 0 {
			last := i == len(ls)-1
			var rest []keptRes
			for _, k := range kept {
				if !last && conc.rng.Intn(6) != 0 {
					rest = append(rest, k)
					continue
				}
				if k.step == i {
					rest = append(rest, k)
					continue
				}
				var r Res
				r.Panic, r.Stuck = sys.guard(func() { r = sys.readHeld(k.h) })
				rep.count("kept_results", 1)
				if d := diffRes(k.h.c, k.exp, r); len(d) > 0 {
					addTo(m, "C13", "the result of step %d, read after step %d: %v", k.step, i, d)
				}
				if k.h.c.K != "search" && len(rest) < 200 {
					rest = append(rest, k)
				}
			}
			kept = rest
		}
		if len(m) > 0 {
			return m, i
		}
	}
	return nil, 0
}
