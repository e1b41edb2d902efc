package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/sonirico/vago/slices"
	"github.com/sonirico/vago/streams"
	"github.com/sonirico/visigoth"

	"vharness/vsync"
)

// Prog is a concurrent program of the specification: a state to start from
// and the calls of each thread.
type Prog struct {
	S    State    `json:"s"`
	Th   [][]Call `json:"th"`
	Conf int      `json:"conf,omitempty"`
	From string   `json:"from,omitempty"`
}

type pairLine struct {
	Calls []Call   `json:"calls"`
	S     State    `json:"s"`
	Pairs [][3]int `json:"pairs"`
	Th    [][]Call `json:"th"`
	Wide  bool     `json:"wide"`
}

// loadProgs reads the programs of RepoPar and RepoProg; every selects how many
// of the pairs to keep (of commuting pairs a third as many).
func loadProgs(files string) []Prog {
	var calls []Call
	var pl []pairLine
	var ps []Prog
	lines(files, func(b []byte) {
		var l pairLine
		if err := json.Unmarshal(b, &l); err != nil {
			die("program: %v: %.300s", err, b)
		}
		switch {
		case l.Calls != nil:
			calls = l.Calls
		case l.Pairs != nil:
			pl = append(pl, l)
		case l.Th != nil:
			from := "random"
			if l.Wide {
				from = "wide"
			}
			ps = append(ps, Prog{S: l.S, Th: l.Th, Conf: 1, From: from})
		}
	})
	for _, l := range pl {
		for _, p := range l.Pairs {
			a, b := calls[p[0]-1], calls[p[1]-1]
			if b.K == "put" {
				b.D.Raw = 12
			}
			ps = append(ps, Prog{S: l.S, Th: [][]Call{{a}, {b}}, Conf: p[2], From: "pair"})
		}
	}
	key := make([]string, len(ps))
	for i, p := range ps {
		key[i] = p.From + p.S.key() + fmt.Sprint(p.Th)
	}
	ord := make([]int, len(ps))
	for i := range ord {
		ord[i] = i
	}
	sort.Slice(ord, func(a, b int) bool { return key[ord[a]] < key[ord[b]] })
	out := make([]Prog, 0, len(ps))
	for n, i := range ord {
		if n > 0 && key[i] == key[ord[n-1]] {
			continue
		}
		out = append(out, ps[i])
	}
	return out
}

// setup calls that build a state.
func setupCalls(s State) []Call {
	var cs []Call
	for _, n := range sortedKeys(s.Ix) {
		for _, d := range s.Ix[n] {
			cs = append(cs, Call{K: "put", N: n, D: d})
		}
	}
	for _, a := range sortedKeys(s.Al) {
		for _, n := range s.Al[a] {
			cs = append(cs, Call{K: "alias", N: a, M: n})
		}
	}
	return cs
}

// slot holds what a call returned, unread by the harness until the run ends.
type slot struct {
	call, ret int
	done      bool
	b         bool
	list      []string
	al        visigoth.AliasesResult
	rows      []visigoth.SearchResult
	err       bool
	pan       string
}

// prepared is a call with concrete arguments.
type prepared struct {
	c    Call
	n, m string
	req  visigoth.DocRequest
	text string
	eng  visigoth.Engine
}

func prepare(cc *Conc, c Call) prepared {
	p := prepared{c: c, n: cc.name(c.N), m: c.M}
	if c.M != "" {
		p.m = cc.name(c.M)
	}
	switch c.K {
	case "put":
		p.req = cc.request(c.D)
	case "search":
		p.text = cc.text(c.Q)
		p.eng = engine(c.M)
	case "panicsearch", "panicquery":
		p.text = cc.text(c.Q)
	}
	return p
}

func (p prepared) run(r *visigoth.IndexRepo, s *slot) {
	switch p.c.K {
	case "put":
		r.Put(p.n, p.req)
		s.b = true
	case "alias":
		s.b = r.Alias(p.n, p.m)
	case "unalias":
		s.b = r.UnAlias(p.n, p.m)
	case "rename":
		s.b = r.Rename(p.n, p.m)
	case "drop":
		s.b = r.Drop(p.n)
	case "has":
		s.b = r.Has(p.n)
	case "hasalias":
		s.b = r.HasAlias(p.n)
	case "string":
		_ = r.String()
		s.b = true
	case "list":
		s.list = r.List()
	case "listal":
		s.al = r.ListAliases()
	case "search":
		var st streams.ReadStream[visigoth.SearchResult]
		st, err := r.Search(p.n, p.text, p.eng)
		s.err = err != nil
		s.ret = now()
		if err == nil {
			yieldPoint()
			for st.Next() {
				s.rows = append(s.rows, st.Data())
			}
		}
		return
	case "panicsearch", "panicquery":
		s.b = true
		defer func() { _ = recover() }()
		me, text := goid(), p.text
		if p.c.K == "panicquery" {
			text = faultMark + me + " " + text
		}
		_, _ = r.Search(p.n, text, func(tokens []string, ix visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
			yieldPoint()
			if p.c.K == "panicsearch" && goid() == me { // one that runs for itself would end the process
				panic(errEngine)
			}
			return nil
		})
	default:
		panic("harness: unknown call " + p.c.K)
	}
}

// goid is the number of the running goroutine.
func goid() string {
	b := make([]byte, 40)
	return strings.Fields(string(b[:runtime.Stack(b, false)]))[1]
}

func faulty(p Prog) bool { return has(p, "panicsearch") || has(p, "panicquery") }

// strip removes the calls that panic.
func strip(p Prog) Prog {
	q := Prog{S: p.S, Conf: p.Conf, From: p.From}
	for _, t := range p.Th {
		var l []Call
		for _, c := range t {
			if !faults[c.K] {
				l = append(l, c)
			}
		}
		if len(l) > 0 {
			q.Th = append(q.Th, l)
		}
	}
	return q
}

func (p prepared) exec(r *visigoth.IndexRepo, s *slot) {
	defer func() {
		if x := recover(); x != nil {
			s.pan = fmt.Sprintf("%v\n%s", x, debug.Stack())
		}
	}()
	s.call = now()
	p.run(r, s)
	if s.ret == 0 {
		s.ret = now()
	}
	s.done = true
}

// dfs enumerates schedules with at most bound preemptions.
type choice struct{ n, cur, pick int }

type dfs struct {
	path  []choice
	pos   int
	bound int
	rng   uint64 // not zero: random schedule
	few   bool   // random: preemptions only at two points
	at    [2]int
}

// intn is free of race-detector instrumentation: choosers run on every thread.
//
//go:norace
func (d *dfs) intn(n int) int {
	d.rng ^= d.rng << 13
	d.rng ^= d.rng >> 7
	d.rng ^= d.rng << 17
	return int((d.rng >> 11) % uint64(n))
}

//
//go:norace
func order(cur, i int) int {
	// position of the i-th alternative: the current thread first
	if cur < 0 {
		return i
	}
	if i == 0 {
		return cur
	}
	if i <= cur {
		return i - 1
	}
	return i
}

//go:norace
func (d *dfs) choose(n, cur int) int {
	if d.rng != 0 {
		p := 0
		if d.few {
			if k := len(d.path); cur < 0 || k == d.at[0] || k == d.at[1] {
				p = d.intn(n)
			}
		} else if cur < 0 || d.intn(3) == 0 {
			p = d.intn(n)
		}
		d.path = append(d.path, choice{n, cur, p})
		return order(cur, p)
	}
	if d.pos < len(d.path) {
		c := &d.path[d.pos]
		d.pos++
		c.n, c.cur = n, cur
		if c.pick >= n {
			c.pick = n - 1
		}
		return order(cur, c.pick)
	}
	d.path = append(d.path, choice{n, cur, 0})
	d.pos++
	return order(cur, 0)
}

// next moves to the next schedule; false when there is none.
func (d *dfs) next() bool {
	d.path = d.path[:d.pos]
	d.pos = 0
	for len(d.path) > 0 {
		i := len(d.path) - 1
		c := &d.path[i]
		if c.pick+1 < c.n {
			cost := 0
			for _, x := range d.path[:i] {
				if x.cur >= 0 && x.pick > 0 {
					cost++
				}
			}
			if c.cur < 0 || cost+1 <= d.bound {
				c.pick++
				return true
			}
		}
		d.path = d.path[:i]
	}
	return false
}

func picks(p []choice) []int {
	r := make([]int, len(p))
	for i, c := range p {
		r[i] = c.pick
	}
	return r
}

type execution struct {
	slots  []*slot
	pr     []prepared
	stuck  bool
	block  []string
	crash  []string
	fin    *View
	find   []*slot // the searches made at the end
	findBy []prepared
	races  int
	broken bool // the state to start from was not reached
}

// final is what is left after a program: listings and contents, read by one
// thread.
func (s *Sys) final() *View {
	v := &View{Names: map[string]*NameView{}, Pan: map[string]string{}}
	v.Panic, v.Stuck = s.guard(func() {
		l := s.repo.List()
		v.List = s.listRes(l)
		v.Al, v.AlDup = s.alRes(s.repo.ListAliases())
		for _, n := range l {
			st, err := s.repo.Search(n, "", visigoth.NoopAllSearch)
			if err != nil {
				continue
			}
			v.Names[s.c.unname(n)] = &NameView{All: s.drain(st)}
		}
	})
	return v
}

// nowCount is the native clock.
var nativeClock chan int

func now() int {
	if native {
		return <-nativeClock
	}
	return vsync.Now()
}

func init() {
	nativeClock = make(chan int)
	go func() {
		for i := 1; ; i++ {
			nativeClock <- i
		}
	}()
}

// execute runs a program once under the chooser.
func execute(cc *Conc, p Prog, setup []prepared, pr [][]prepared, names []string, find []prepared, wrap bool, ch vsync.Chooser) *execution {
	e := &execution{findBy: find}
	sys := NewSys(cc, wrap)
	races := vsync.RaceErrors()
	pan, stuck := sys.guard(func() {
		var s slot
		for _, q := range setup {
			q.run(sys.repo, &s)
		}
	})
	if pan != "" || stuck {
		e.broken = true
		return e
	}
	var ops []func()
	for _, th := range pr {
		var ss []*slot
		for _, q := range th {
			s := &slot{}
			ss = append(ss, s)
			e.slots = append(e.slots, s)
			e.pr = append(e.pr, q)
		}
		th := th
		ops = append(ops, func() {
			for i, q := range th {
				q.exec(sys.repo, ss[i])
				if ss[i].pan != "" {
					return
				}
			}
		})
	}
	if native {
		e.stuck = nativeRun(ops)
	} else {
		o := vsync.Run(ops, ch, false)
		e.stuck, e.block, e.crash = o.Stuck, o.Blocked, o.Panics
		rep.count("sched_steps", o.Steps)
	}
	e.races = vsync.RaceErrors() - races
	if e.stuck || len(e.crash) > 0 {
		return e
	}
	for _, s := range e.slots {
		if s.pan != "" {
			e.crash = append(e.crash, s.pan)
		}
	}
	if len(e.crash) > 0 {
		return e
	}
	e.fin = sys.final()
	if e.fin.Stuck {
		e.stuck = true
		e.block = []string{"a read after the program"}
		return e
	}
	pan, stuck = sys.guard(func() {
		for _, q := range find {
			f := &slot{}
			q.run(sys.repo, f)
			e.find = append(e.find, f)
		}
	})
	if stuck {
		e.stuck = true
		e.block = []string{"a search after the program"}
	}
	if pan != "" {
		e.fin.Panic = pan
	}
	return e
}

// lastSearches are the searches made after a program: of the names its calls
// mention and of some others, aliases first.
func lastSearches(cc *Conc, p Prog, said, names []string) []prepared {
	var l []string
	add := func(ns []string, most int) {
		for _, n := range ns {
			if len(l) < most && !in(l, n) {
				l = append(l, n)
			}
		}
	}
	add(said, 8)
	add(sortedKeys(p.S.Al), 10)
	add(names, 10)
	var out []prepared
	for _, n := range l {
		out = append(out, prepare(cc, Call{K: "search", N: n, M: "all"}), prepare(cc, Call{K: "search", N: n, M: "hits", Q: []int{1}}))
	}
	return out
}

// reaches: afterwards a search by name reaches what the listings say (C06).
func reaches(e *execution, sys *Sys) string {
	for i, q := range e.findBy {
		if q.c.M != "all" {
			continue
		}
		ix := e.fin.Al[q.c.N]
		if in(e.fin.List, q.c.N) {
			ix = []string{q.c.N}
		}
		var want, got []string
		for _, n := range ix {
			if v := e.fin.Names[n]; v != nil {
				for _, r := range v.All {
					want = append(want, fmt.Sprint(r.Raw))
				}
			}
		}
		for _, r := range e.find[i].rows {
			got = append(got, fmt.Sprint(sys.c.row(r).Raw))
		}
		sort.Strings(got)
		sort.Strings(want)
		if e.find[i].err != (len(ix) == 0) || fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("afterwards a search of %s, which stands for the indices %v, gives %v (error: %v) instead of %v", q.c.N, ix, got, e.find[i].err, want)
		}
	}
	return ""
}

func nativeRun(ops []func()) bool {
	done := make(chan struct{}, len(ops))
	start := make(chan struct{})
	for _, f := range ops {
		f := f
		go func() { <-start; f(); done <- struct{}{} }()
	}
	close(start)
	t := time.After(callTimeout)
	for range ops {
		select {
		case <-done:
		case <-t:
			return true
		}
	}
	return false
}

type jpair [2]any

// history is the recorded trace, as Lin.tla reads it.
type jop struct {
	C    Call           `json:"c"`
	Call int            `json:"call"`
	Ret  int            `json:"ret"`
	Res  map[string]any `json:"res"`
}
type history struct {
	S   map[string]any `json:"s"`
	Ops []jop          `json:"ops"`
	Fin map[string]any `json:"fin"`
}

func jstate(s State) map[string]any {
	ix, al := []jpair{}, []jpair{}
	for _, n := range sortedKeys(s.Ix) {
		ix = append(ix, jpair{n, s.Ix[n]})
	}
	for _, n := range sortedKeys(s.Al) {
		al = append(al, jpair{n, s.Al[n]})
	}
	return map[string]any{"ix": ix, "al": al}
}

func jal(m map[string][]string) []jpair {
	al := []jpair{}
	for _, n := range sortedKeys(m) {
		t := m[n]
		if t == nil {
			t = []string{}
		}
		al = append(al, jpair{n, t})
	}
	return al
}

func (e *execution) history(cc *Conc, p Prog, sys *Sys) history {
	h := history{S: jstate(p.S)}
	// logical times as ranks
	var ts []int
	for _, s := range e.slots {
		ts = append(ts, s.call, s.ret)
	}
	sort.Ints(ts)
	rank := map[int]int{}
	for _, t := range ts {
		if _, ok := rank[t]; !ok {
			rank[t] = len(rank) + 1
		}
	}
	for i, s := range e.slots {
		c := e.pr[i].c
		if c.Q == nil {
			c.Q = []int{}
		}
		if c.D.Toks == nil {
			c.D.Toks = []int{}
		}
		r := map[string]any{}
		switch c.K {
		case "list":
			r["list"] = sys.listRes(s.list)
		case "listal":
			m, dup := sys.alRes(s.al)
			x := jal(m)
			if dup {
				x = append(x, jpair{"?dup", []string{}})
			}
			r["al"] = x
		case "search":
			rows := []Row{}
			for _, x := range s.rows {
				rows = append(rows, cc.row(x))
			}
			r["err"], r["rows"] = s.err, rows
		default:
			r["b"] = s.b
		}
		h.Ops = append(h.Ops, jop{c, rank[s.call], rank[s.ret], r})
	}
	ix := []jpair{}
	for _, n := range e.fin.List {
		raws := []int{}
		if v := e.fin.Names[n]; v != nil {
			for _, r := range v.All {
				raws = append(raws, r.Raw)
			}
		}
		ix = append(ix, jpair{n, raws})
	}
	se := []jop{}
	for i, f := range e.find {
		rows := []Row{}
		for _, x := range f.rows {
			rows = append(rows, cc.row(x))
		}
		c := e.findBy[i].c
		if c.Q == nil {
			c.Q = []int{}
		}
		if c.D.Toks == nil {
			c.D.Toks = []int{}
		}
		se = append(se, jop{C: c, Res: map[string]any{"err": f.err, "rows": rows}})
	}
	h.Fin = map[string]any{"ix": ix, "al": jal(e.fin.Al), "se": se}
	return h
}

// sequential reports whether no two operations overlapped.
func (e *execution) sequential() bool {
	type iv struct{ a, b int }
	var v []iv
	for _, s := range e.slots {
		v = append(v, iv{s.call, s.ret})
	}
	sort.Slice(v, func(i, j int) bool { return v[i].a < v[j].a })
	for i := 1; i < len(v); i++ {
		if v[i].a < v[i-1].b {
			return false
		}
	}
	return true
}

type traceLine struct {
	Prog  int      `json:"prog"`
	Seq   bool     `json:"seq"`
	Calls []string `json:"calls"`
	Sched []int    `json:"sched"`
	Wrap  bool     `json:"wrap"`
	CSeed int64    `json:"concretization_seed"`
	H     history  `json:"h"`
	P     *Prog    `json:"p,omitempty"`
}

func (p Prog) describe() []string {
	out := []string{"start: " + p.S.String()}
	for t, cs := range p.Th {
		var l []string
		for _, c := range cs {
			l = append(l, c.String())
		}
		out = append(out, fmt.Sprintf("thread %d: %s", t+1, strings.Join(l, "; ")))
	}
	return out
}

func has(p Prog, k string) bool {
	for _, t := range p.Th {
		for _, c := range t {
			if c.K == k {
				return true
			}
		}
	}
	return false
}

// cmdPar explores the schedules of concurrent programs on the real code.
// Stuck runs are C03, races and panics C04; everything else is recorded as a
// history for Lin.tla.
func cmdPar() {
	progs := loadProgs(*fIn)
	rng := rand.New(rand.NewSource(*fSeed))
	rng.Shuffle(len(progs), func(a, b int) { progs[a], progs[b] = progs[b], progs[a] })
	// conflicting pairs and random programs first, commuting ones at one in four
	var first, rest []Prog
	for _, p := range progs {
		if p.Conf == 1 || rng.Intn(4) == 0 {
			first = append(first, p)
		} else {
			rest = append(rest, p)
		}
	}
	progs = append(spread(first), rest...)
	if *fMode == "strip" {
		for i := range progs {
			progs[i] = strip(progs[i])
		}
	}
	if *fMode == "put" {
		// documents are what is at stake: programs with a put
		var l []Prog
		for _, p := range progs {
			if has(p, "put") || has(p, "rename") && len(p.S.Ix) > 0 && rng.Intn(4) == 0 {
				l = append(l, p)
			}
		}
		progs = l
	}
	if ks, ok := strings.CutPrefix(*fMode, "kinds:"); ok {
		// pairs with one of the calls
		var l []Prog
		for _, p := range progs {
			for _, k := range strings.Split(ks, ",") {
				if has(p, k) {
					l = append(l, p)
					break
				}
			}
		}
		progs = l
	}
	rep.Counts["programs_generated"] = len(progs)
	if *fMax > 0 && len(progs) > *fMax {
		progs = progs[:*fMax]
	}
	var tf *os.File
	if *fTrace != "" {
		var err error
		if tf, err = os.Create(*fTrace); err != nil {
			die("%v", err)
		}
		defer tf.Close()
	}
	for i, p := range progs {
		if i%*fShards != *fShard {
			continue
		}
		if overBudget() {
			rep.count("programs_cut", 1)
			continue
		}
		if !explore(i, p, tf) {
			rep.Notes = append(rep.Notes, "stopped after too many stuck runs")
			break
		}
	}
}

// shape is a program up to the naming of what it touches.
func shape(p Prog) string {
	if p.From != "pair" {
		return "random"
	}
	var b strings.Builder
	num := map[string]int{}
	name := func(n string) {
		if n == "" {
			return
		}
		k, ok := num[n]
		if !ok {
			k = len(num) + 1
			num[n] = k
			refs := 0
			for _, l := range p.S.Al {
				for _, m := range l {
					if m == n {
						refs++
					}
				}
			}
			_, ix := p.S.Ix[n]
			fmt.Fprintf(&b, "[%v%v%v]", ix, len(p.S.Al[n]) > 0, refs > 0)
		}
		fmt.Fprintf(&b, "%d ", k)
	}
	for _, t := range p.Th {
		c := t[0]
		b.WriteString(c.K + " ")
		name(c.N)
		if c.K != "search" {
			name(c.M)
		}
	}
	return b.String()
}

// spread orders programs so that every shape comes early.
func spread(ps []Prog) []Prog {
	groups := map[string][]Prog{}
	var keys []string
	for _, p := range ps {
		k := shape(p)
		if groups[k] == nil {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], p)
	}
	rep.Counts["program_shapes"] = len(keys)
	out := make([]Prog, 0, len(ps))
	for r := 0; len(out) < len(ps); r++ {
		for _, k := range keys {
			if r < len(groups[k]) {
				out = append(out, groups[k][r])
			}
		}
	}
	return out
}

// integrity of the aliases after a program and in its listings (C05).
func integrity(e *execution, sys *Sys) string {
	shape := func(al map[string][]string) string {
		for _, a := range sortedKeys(al) {
			seen := map[string]bool{}
			for _, n := range al[a] {
				if seen[n] {
					return fmt.Sprintf("alias %s lists %s twice", a, n)
				}
				seen[n] = true
			}
			if len(al[a]) == 0 {
				return fmt.Sprintf("alias %s is empty", a)
			}
		}
		return ""
	}
	if m := shape(e.fin.Al); m != "" {
		return "afterwards " + m
	}
	for _, a := range sortedKeys(e.fin.Al) {
		for _, n := range e.fin.Al[a] {
			if !in(e.fin.List, n) {
				return fmt.Sprintf("afterwards alias %s lists %s, which does not exist", a, n)
			}
		}
	}
	for i, s := range e.slots {
		if e.pr[i].c.K == "listal" {
			al, _ := sys.alRes(s.al)
			if m := shape(al); m != "" {
				return "in a listing " + m
			}
		}
	}
	return ""
}

// frame: what no call of the program can designate is as it was (C20).
func frame(p Prog, e *execution) string {
	ix, al := map[string]bool{}, map[string]bool{}
	for _, t := range p.Th {
		for _, c := range t {
			switch c.K {
			case "put":
				ix[c.N] = true
				for _, n := range p.S.Al[c.N] {
					ix[n] = true
				}
				for _, t := range p.Th { // associations made meanwhile
					for _, d := range t {
						if d.K == "alias" && d.N == c.N {
							ix[d.M] = true
						}
						if d.K == "rename" {
							ix[d.M] = true
						}
					}
				}
			case "alias", "unalias":
				al[c.N] = true
			case "rename", "drop":
				ix[c.N] = true
				if c.K == "rename" {
					ix[c.M] = true
				}
				for a, l := range p.S.Al {
					if in(l, c.N) || c.K == "rename" && in(l, c.M) {
						al[a] = true
					}
				}
			}
		}
	}
	// a rename moves names: what listed any renamed index may list its new name
	for _, t := range p.Th {
		for _, c := range t {
			if c.K == "rename" || c.K == "drop" {
				for a, l := range p.S.Al {
					for _, n := range l {
						if ix[n] {
							al[a] = true
						}
					}
				}
			}
		}
	}
	for _, n := range sortedKeys(p.S.Ix) {
		if ix[n] {
			continue
		}
		if !in(e.fin.List, n) {
			return fmt.Sprintf("afterwards index %s, which no call designates, is gone", n)
		}
		if v := e.fin.Names[n]; v != nil {
			var got, want []int
			for _, r := range v.All {
				got = append(got, r.Raw)
			}
			for _, d := range p.S.Ix[n] {
				want = append(want, d.Raw)
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return fmt.Sprintf("afterwards index %s, which no call designates, has the documents %v instead of %v", n, got, want)
			}
		}
	}
	for _, n := range e.fin.List {
		if _, ok := p.S.Ix[n]; !ok && !ix[n] {
			return fmt.Sprintf("afterwards there is an index %s, which no call designates", n)
		}
	}
	for _, a := range sortedKeys(p.S.Al) {
		if !al[a] && !sameSet(e.fin.Al[a], p.S.Al[a]) {
			return fmt.Sprintf("afterwards alias %s, which no call designates, lists %v instead of %v", a, e.fin.Al[a], p.S.Al[a])
		}
	}
	for _, a := range sortedKeys(e.fin.Al) {
		if _, ok := p.S.Al[a]; !ok && !al[a] {
			return fmt.Sprintf("afterwards there is an alias %s, which no call designates", a)
		}
	}
	return ""
}

var stuckRuns int

// explore runs all schedules of one program; false stops the whole run.
func explore(i int, p Prog, tf *os.File) bool {
	rng := rand.New(rand.NewSource(*fSeed*31 + int64(i)))
	cseed := *fSeed*1000033 + int64(i)
	prof := "plain"
	if i%4 == 0 {
		prof = "spanish"
	}
	wrap := i%2 == 0
	cc := NewConc(cseed, prof, false)
	var setup []prepared
	for _, c := range setupCalls(p.S) {
		setup = append(setup, prepare(cc, c))
	}
	nm, said := map[string]bool{}, map[string]bool{}
	note := func(s string) {
		if s != "" {
			nm[s] = true
		}
	}
	for n := range p.S.Ix {
		note(n)
	}
	for n := range p.S.Al {
		note(n)
	}
	var pr [][]prepared
	ncalls := 0
	for _, th := range p.Th {
		var l []prepared
		for _, c := range th {
			q := prepare(cc, c)
			l = append(l, q)
			ncalls++
			note(c.N)
			if c.K == "alias" || c.K == "unalias" || c.K == "rename" {
				note(c.M)
				if c.M != "" {
					said[c.M] = true
				}
			}
			if c.N != "" {
				said[c.N] = true
			}
		}
		pr = append(pr, l)
	}
	names := sortedKeys(nm)
	find := lastSearches(cc, p, sortedKeys(said), names)
	rep.count("programs", 1)
	sys := &Sys{c: cc}
	hist := map[string]bool{}
	found := map[string]bool{}
	d := &dfs{bound: *fBound}
	runs, random := 0, 0
	max := *fCap
	if native {
		random, max = 1, 12
	}
	if p.From == "wide" && !native {
		d = &dfs{rng: rng.Uint64() | 1}
		random = 1
	}
	if ncalls > 2 && !native {
		d.bound = *fBound - 1
		if d.bound < 1 {
			d.bound = 1
		}
	}
	for {
		d.pos = 0
		e := execute(cc, p, setup, pr, names, find, wrap, d.choose)
		runs++
		if e.broken {
			rep.count("programs_broken", 1)
			break
		}
		sched := picks(d.path)
		viol := func(prop, what string, detail ...string) {
			if found[prop] {
				return
			}
			found[prop] = true
			rep.violation(Violation{prop, what + ": " + strings.Join(p.describe(), " | "), detail,
				map[string]any{"program": p, "schedule": sched, "wrap": wrap, "concretization_seed": cseed}})
		}
		if (e.stuck || len(e.crash) > 0) && faulty(p) {
			// only if the same without the calls that panic does not
			q := strip(p)
			n := len(rep.Violations)
			explore(i, q, nil)
			other := len(rep.Violations) > n
			rep.Violations = rep.Violations[:n]
			if other {
				rep.count("not_by_fault", 1)
				return true
			}
			if prop, ok := strings.CutPrefix(*fMode, "fault:"); ok {
				viol(prop, "calls never return or crash", append(e.block, e.crash...)...)
				return true
			}
		}
		if e.stuck {
			viol("C03", "calls never return", e.block...)
			stuckRuns++
			if stuckRuns > 200 || native && stuckRuns > 3 {
				return false
			}
		}
		if len(e.crash) > 0 {
			viol("C04", "a call panics", short(e.crash[0], 1500))
		}
		if e.races > 0 {
			viol("C04", "data race", fmt.Sprintf("%d races reported", e.races))
		}
		if !e.stuck && len(e.crash) == 0 {
			if e.fin.Panic != "" || len(e.fin.Pan) > 0 {
				viol("C04", "a read after the program panics", e.fin.Panic, short(fmt.Sprint(e.fin.Pan), 500))
			} else {
				if m := integrity(e, sys); m != "" {
					viol("C05", m)
				}
				if m := frame(p, e); m != "" {
					viol("C20", m)
				}
				if m := reaches(e, sys); m != "" {
					viol("C06", m)
				}
			}
			if tf != nil && e.fin.Panic == "" && len(e.fin.Pan) == 0 {
				h := e.history(cc, p, sys)
				b, err := json.Marshal(h)
				if err != nil {
					die("%v", err)
				}
				if !hist[string(b)] {
					hist[string(b)] = true
					t := traceLine{Prog: i, Seq: e.sequential(), Calls: p.describe(), Sched: sched, Wrap: wrap, CSeed: cseed, H: h}
					if faulty(p) {
						t.P = &p
					}
					x, _ := json.Marshal(t)
					tf.Write(append(x, '\n'))
					rep.count("histories", 1)
				}
			}
		}
		if runs >= max {
			if random == 0 {
				rep.count("programs_capped", 1)
				// beyond the cap: random schedules
				d = &dfs{rng: rng.Uint64() | 1}
				random = 1
				max = runs + *fCap/4 + 1
				continue
			}
			break
		}
		if random > 0 {
			if d.few = runs%2 == 0; d.few {
				d.at = [2]int{rng.Intn(len(d.path) + 1), rng.Intn(len(d.path) + 1)}
			}
			d.path = nil
			continue
		}
		if !d.next() {
			rep.count("programs_exhausted", 1)
			break
		}
	}
	rep.count("schedules", runs)
	if i%97 == 0 {
		rep.sample(2, map[string]any{"program": p.describe(), "schedules": runs, "distinct_histories": len(hist)})
	}
	return true
}
