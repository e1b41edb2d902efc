package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
)

// Trans is one transition of the specification's state graph.
type Trans struct {
	C   Call            `json:"c"`
	R   json.RawMessage `json:"r"`
	T   State           `json:"t"`
	Inb bool            `json:"inb"`
	Dix []string        `json:"dix"`
	Dal []string        `json:"dal"`
}

type gline struct {
	S    State           `json:"s"`
	Show json.RawMessage `json:"show"`
	Tr   []Trans         `json:"tr"`
}

type edge struct {
	from int
	c    Call
}

type node struct {
	st    State
	show  map[string]*NameView
	tr    []Trans
	preds []edge
	depth int
}

// Graph is a state graph printed by TLC.
type Graph struct {
	nodes []*node
	idx   map[string]int
	names []string
	rng   *rand.Rand
}

func loadGraph(files string) *Graph {
	g := &Graph{idx: map[string]int{}, rng: rand.New(rand.NewSource(*fSeed*7919 + int64(*fShard)))}
	var ls []gline
	lines(files, func(b []byte) {
		var l gline
		if err := json.Unmarshal(b, &l); err != nil {
			die("graph line: %v: %.300s", err, b)
		}
		ls = append(ls, l)
	})
	keys := make([]string, len(ls))
	for i := range ls {
		keys[i] = ls[i].S.key()
	}
	ord := make([]int, len(ls))
	for i := range ord {
		ord[i] = i
	}
	sort.Slice(ord, func(a, b int) bool { return keys[ord[a]] < keys[ord[b]] })
	for _, i := range ord {
		if _, ok := g.idx[keys[i]]; ok {
			continue
		}
		var show map[string]*NameView
		if err := json.Unmarshal(ls[i].Show, &show); err != nil {
			die("show: %v", err)
		}
		tr := ls[i].Tr
		tkey := func(t Trans) string { return fmt.Sprintf("%v|%v", t.C, t.C.D) }
		sort.Slice(tr, func(a, b int) bool { return tkey(tr[a]) < tkey(tr[b]) })
		g.idx[keys[i]] = len(g.nodes)
		g.nodes = append(g.nodes, &node{st: ls[i].S, show: show, tr: tr, depth: -1})
	}
	if len(g.nodes) == 0 {
		die("empty graph")
	}
	g.names = sortedKeys(g.nodes[0].show)
	// breadth first from the empty repository
	root, ok := g.idx[State{IxMap{}, AlMap{}}.key()]
	if !ok {
		die("graph has no initial state")
	}
	g.nodes[root].depth = 0
	queue := []int{root}
	for len(queue) > 0 {
		i := queue[0]
		queue = queue[1:]
		n := g.nodes[i]
		for _, t := range n.tr {
			if !t.Inb {
				continue
			}
			j, ok := g.idx[t.T.key()]
			if !ok {
				die("graph is not closed: %v", t.T)
			}
			m := g.nodes[j]
			if m.depth < 0 {
				m.depth = n.depth + 1
				queue = append(queue, j)
			}
			if m.depth == n.depth+1 {
				m.preds = append(m.preds, edge{i, t.C})
			}
		}
	}
	return g
}

// path is a shortest history leading to node i, chosen at random.
func (g *Graph) path(i int) []Call {
	var p []Call
	for g.nodes[i].depth > 0 {
		e := g.nodes[i].preds[g.rng.Intn(len(g.nodes[i].preds))]
		p = append(p, e.c)
		i = e.from
	}
	for a, b := 0, len(p)-1; a < b; a, b = a+1, b-1 {
		p[a], p[b] = p[b], p[a]
	}
	return p
}

// runCase replays a history on a fresh repository, checks that the state is
// as specified, then performs pre (unchecked calls), then the call.
type gcase struct {
	History []Call   `json:"history"`
	Pre     []Call   `json:"then,omitempty"`
	C       Call     `json:"call"`
	Profile string   `json:"profile"`
	CSeed   int64    `json:"concretization_seed"`
	Calls   []string `json:"calls"`
}

func (k gcase) describe() gcase {
	for _, c := range append(append(append([]Call(nil), k.History...), k.Pre...), k.C) {
		if c.K == "" {
			continue
		}
		k.Calls = append(k.Calls, c.String())
	}
	return k
}

// empty are calls that take a state apart: every index dropped, in any order,
// aliases removed before or left to vanish with their indices.
func (g *Graph) empty(s State) []Call {
	var cs []Call
	if g.rng.Intn(3) == 0 {
		for _, a := range sortedKeys(s.Al) {
			cs = append(cs, Call{K: "unalias", N: a})
		}
	}
	ns := sortedKeys(s.Ix)
	g.rng.Shuffle(len(ns), func(a, b int) { ns[a], ns[b] = ns[b], ns[a] })
	for _, n := range ns {
		cs = append(cs, Call{K: "drop", N: n})
	}
	return cs
}

// reaches reports whether a history leads to state i as specified; before
// counts calls after which the repository must be empty.
func (g *Graph) reaches(k gcase, hist []Call, before, i int) (ds []Diff, ok bool) {
	conc := NewConc(k.CSeed, k.Profile, false)
	sys := NewSys(conc, false)
	root := g.nodes[g.idx[State{IxMap{}, AlMap{}}.key()]]
	for j, c := range hist {
		if r := sys.Do(c); r.Stuck || r.Panic != "" {
			return nil, false
		}
		if before > 0 && j == before-1 && len(compare(root.show, root.st.Al, sys.Observe(g.names, gq1, gq2), g.names)) > 0 {
			return nil, false
		}
	}
	return compare(g.nodes[i].show, g.nodes[i].st.Al, sys.Observe(g.names, gq1, gq2), g.names), true
}

// detour reaches a state, drops everything, and then does what leads to state
// i from an empty repository: whatever existed before leaves no trace (C08).
func (g *Graph) detour(x, i int) {
	j := g.rng.Intn(len(g.nodes))
	if g.nodes[j].depth < 0 {
		return
	}
	a, b := g.path(j), g.path(i)
	a = append(a, g.empty(g.nodes[j].st)...)
	k := gcase{History: append(append([]Call(nil), a...), b...), CSeed: *fSeed*7000003 + int64(x), Profile: "plain"}
	if len(a) == 0 || len(b) == 0 {
		return
	}
	ds, ok := g.reaches(k, k.History, len(a), i)
	rep.count("detours", 1)
	if !ok {
		rep.count("detours_skipped", 1)
		return
	}
	if len(ds) == 0 {
		return
	}
	if d0, ok := g.reaches(k, b, 0, i); !ok || len(d0) > 0 {
		rep.count("detours_skipped", 1) // deviates without anything dropped
		return
	}
	if d2, ok := g.reaches(k, k.History, len(a), i); !ok || len(d2) == 0 {
		rep.count("unconfirmed", 1)
		return
	}
	var det []string
	for _, d := range ds {
		det = append(det, d.String())
	}
	rep.violation(Violation{"C08", fmt.Sprintf("%v reached after all of %v was dropped", g.nodes[i].st, g.nodes[j].st), det, k.describe()})
}

var gq1, gq2 = []int{1}, []int{1, 2}

// exec returns the differences of the case's last call, and whether the state
// before it was reached as specified.
func (g *Graph) exec(k gcase, i int, t Trans, probe bool) (ds []Diff, reached bool) {
	conc := NewConc(k.CSeed, k.Profile, false)
	sys := NewSys(conc, false)
	for _, c := range k.History {
		if r := sys.Do(c); r.Stuck || r.Panic != "" {
			return nil, false
		}
	}
	n := g.nodes[i]
	if len(compare(n.show, n.st.Al, sys.Observe(g.names, gq1, gq2), g.names)) > 0 {
		return nil, false
	}
	for _, c := range k.Pre {
		if r := sys.Do(c); r.Stuck || r.Panic != "" {
			return diffRes(c, Res{Kind: "none"}, r), true
		}
	}
	exp, err := decodeRes(t.C, t.R)
	if err != nil {
		die("result: %v", err)
	}
	got := sys.Do(t.C)
	ds = diffRes(t.C, exp, got)
	if got.Stuck {
		return ds, true
	}
	if t.Inb {
		m := g.nodes[g.idx[t.T.key()]]
		v := sys.Observe(g.names, gq1, gq2)
		ds = append(ds, compare(m.show, m.st.Al, v, g.names)...)
		if v.Stuck {
			return ds, true
		}
	} else if v := sys.Observe(g.names, gq1, gq2); v.Stuck {
		return append(ds, Diff{"stuck", "", "a read never returns"}), true
	}
	if probe {
		for _, c := range probes(g.names) {
			r := sys.Do(c)
			if r.Stuck {
				return append(ds, Diff{"stuck", c.N, fmt.Sprintf("after %v: %v never returns", t.C, c)}), true
			}
		}
	}
	return ds, true
}

// probes: every further call, reading or writing, on every name.
func probes(names []string) []Call {
	d := Doc{ID: 3, Raw: 90, Toks: []int{1}}
	ps := []Call{{K: "string"}}
	for i, n := range names {
		d.Raw = 90 + i
		ps = append(ps, Call{K: "put", N: n, D: d}, Call{K: "search", N: n, M: "hits", Q: []int{1}})
	}
	for _, n := range names {
		ps = append(ps, Call{K: "alias", N: "u", M: n}, Call{K: "listal"}, Call{K: "unalias", N: "u", M: n},
			Call{K: "unalias", N: "u", M: n}, Call{K: "unalias", N: "u"},
			Call{K: "rename", N: n, M: "v"}, Call{K: "rename", N: "v", M: n}, Call{K: "rename", N: "c", M: n},
			Call{K: "list"}, Call{K: "hasalias", N: n}, Call{K: "has", N: n}, Call{K: "string"})
	}
	for _, n := range names {
		ps = append(ps, Call{K: "search", N: n, M: "linear", Q: []int{1}}, Call{K: "drop", N: n}, Call{K: "drop", N: n}, Call{K: "search", N: n, M: "all"}, Call{K: "put", N: n, D: d})
	}
	return ps
}

func cmdGraph() {
	g := loadGraph(*fIn)
	rep.Counts["graph_states"] = len(g.nodes)
	type item struct{ i, t int }
	var items []item
	for i, n := range g.nodes {
		if n.depth < 0 {
			continue
		}
		for t := range n.tr {
			items = append(items, item{i, t})
		}
	}
	// order at random so that a budget cuts evenly
	rand.New(rand.NewSource(*fSeed)).Shuffle(len(items), func(a, b int) { items[a], items[b] = items[b], items[a] })
	stuck := 0
	for x, it := range items {
		if x%*fShards != *fShard {
			continue
		}
		if overBudget() || stuck > 20 || native && stuck > 2 {
			rep.count("cut", 1)
			continue
		}
		n := g.nodes[it.i]
		t := n.tr[it.t]
		k := gcase{History: g.path(it.i), C: t.C, CSeed: *fSeed*1000003 + int64(x)}
		switch {
		case *fProfile != "":
			k.Profile = *fProfile
		case x%3 == 0:
			k.Profile = "spanish"
		default:
			k.Profile = "plain"
		}
		if *fMode == "detour" && x%4 == 0 {
			g.detour(x, it.i)
		}
		ds, ok := g.exec(k, it.i, t, *fMode == "probe")
		rep.count("transitions", 1)
		if !ok {
			rep.count("skipped", 1)
			continue
		}
		expFalse := string(t.R) == "false"
		var m map[string][]string
		if len(ds) > 0 {
			m = blame(t.C, n.st, expFalse, t.Dix, t.Dal, ds)
		}
		if *fMode == "panic" {
			if len(ds) > 0 {
				continue // broken without any panic
			}
			m = g.panicCase(&k, it.i, t)
		}
		if len(m) > 0 {
			confirm := 0
			for r := 0; r < 10 && confirm == 0; r++ {
				if d2, ok2 := g.exec(k, it.i, t, *fMode == "probe"); ok2 && len(d2) > 0 {
					confirm++
				}
			}
			if confirm == 0 {
				rep.count("unconfirmed", 1)
				continue
			}
			for _, d := range ds {
				if d.Cat == "stuck" {
					stuck++
				}
			}
			what := fmt.Sprintf("%v in %v", t.C, n.st)
			for _, p := range propsOf(m) {
				rep.violation(Violation{p, what, m[p], k.describe()})
			}
		} else if len(k.History) > 2 {
			rep.sample(2, map[string]any{"history": k.describe().Calls, "successor": t.T.String(), "result": t.R})
		}
	}
}

// panicCase repeats the transition with a panicking search, recovered by its
// caller, before the call: nothing may change.
func (g *Graph) panicCase(k *gcase, i int, t Trans) map[string][]string {
	n := g.nodes[i]
	for _, name := range g.names {
		targets := 0
		if _, ok := n.st.Ix[name]; ok {
			targets = 1
		} else {
			targets = len(n.st.Al[name])
		}
		if targets != 1 {
			continue
		}
		k.Pre = []Call{{K: "panicsearch", N: name}}
		ds, ok := g.exec(*k, i, t, true)
		if !ok {
			continue
		}
		rep.count("panic_cases", 1)
		if len(ds) > 0 {
			m := map[string][]string{}
			for _, d := range ds {
				addTo(m, "C18", "after a search of %s whose engine panicked: %v", name, d)
			}
			return m
		}
	}
	return nil
}
