package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/sonirico/vago/slices"
	"github.com/sonirico/vago/streams"
	"github.com/sonirico/visigoth"

	"vharness/vsync"
)

// native: the code under test is not instrumented; calls run on plain
// goroutines and a call that takes longer than callTimeout counts as stuck.
var native bool

const callTimeout = 10 * time.Second

// Sys is a real repository driven by abstract calls.
type Sys struct {
	c    *Conc
	repo *visigoth.IndexRepo
	wrap bool
	dead bool // a call got stuck

	buildFault int // what the builder does: 1 panic, 2 build and panic
}

// faultMark in a text makes the pipeline panic.
const faultMark = "\x00\x01fault "

type fTok struct {
	t interface{ Tokenize(string) []string }
}

func (f fTok) Tokenize(s string) []string {
	if x, ok := strings.CutPrefix(s, faultMark); ok {
		// one that runs for itself would end the process
		if who, _, ok := strings.Cut(x, " "); !ok || who == "" || who == goid() {
			panic(errEngine)
		}
	}
	return f.t.Tokenize(s)
}

// builder is the repository's builder; it panics on demand.
func (s *Sys) builder(b visigoth.Builder) visigoth.Builder {
	return func(name string) visigoth.Index {
		if s.buildFault == 1 {
			panic(errEngine)
		}
		in := b(name)
		if s.buildFault == 2 {
			panic(errEngine)
		}
		return in
	}
}

// fault performs a call in which the caller's code panics and recovers; it
// reports whether nothing was stored.
func (s *Sys) fault(c Call, n string) bool {
	attempt := func(f func()) {
		defer func() { _ = recover() }()
		f()
	}
	switch c.K {
	case "panicsearch":
		attempt(func() { _, _ = s.repo.Search(n, s.c.text([]int{1}), panicEngine(s.c.rng.Intn(3))) })
	case "panicquery":
		attempt(func() { _, _ = s.repo.Search(n, faultMark+" "+s.c.text(c.Q), visigoth.NoopAllSearch) })
	case "panicbuild":
		s.buildFault = 1 + s.c.rng.Intn(2)
		attempt(func() { s.repo.Put(n, s.c.request(c.D)) })
		s.buildFault = 0
	case "panicdoc":
		req := s.c.request(c.D)
		req = visigoth.NewDocRequestWith(req.ID(), req.Raw(), faultMark+" "+req.Statement())
		attempt(func() { s.repo.Put(n, req) })
		if st, err := s.repo.Search(n, "", visigoth.NoopAllSearch); err == nil && st.Next() {
			return false
		}
		s.repo.Drop(n)
	}
	return true
}

// NewSys makes an empty repository.  With wrap, indices, tokenizer and engines
// are wrapped to add scheduling points.
func NewSys(c *Conc, wrap bool) *Sys {
	s := &Sys{c: c, wrap: wrap}
	if !wrap {
		s.repo = visigoth.NewIndexRepo(s.builder(visigoth.NewMemoryIndexBuilder(fTok{c.tok})))
		return s
	}
	b := visigoth.NewMemoryIndexBuilder(yTok{fTok{c.tok}})
	s.repo = visigoth.NewIndexRepo(func(name string) visigoth.Index {
		yieldPoint()
		return &yIndex{b(name)}
	})
	return s
}

func yieldPoint() {
	if native {
		nativeYield()
		return
	}
	vsync.Yield()
}

type yTok struct {
	t interface{ Tokenize(string) []string }
}

func (y yTok) Tokenize(s string) []string {
	yieldPoint()
	return y.t.Tokenize(s)
}

type yIndex struct{ in visigoth.Index }

func (y *yIndex) Put(d visigoth.DocRequest) visigoth.Index {
	yieldPoint()
	y.in.Put(d)
	yieldPoint()
	return y
}

func (y *yIndex) Search(t string, e visigoth.Engine) slices.Slice[visigoth.SearchResult] {
	yieldPoint()
	r := y.in.Search(t, func(tokens []string, ix visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
		yieldPoint()
		return e(tokens, ix)
	})
	yieldPoint()
	return r
}

func (y *yIndex) String() string { return fmt.Sprint(y.in) }

//
//go:norace
func dflt(n, cur int) int {
	if cur >= 0 {
		return cur
	}
	return 0
}

// guard runs f as one thread; it reports a panic and whether f got stuck.
func (s *Sys) guard(f func()) (pan string, stuck bool) {
	body := func() {
		defer func() {
			if r := recover(); r != nil {
				pan = fmt.Sprint(r)
			}
		}()
		f()
	}
	if native {
		done := make(chan struct{})
		go func() { defer close(done); body() }()
		select {
		case <-done:
		case <-time.After(callTimeout):
			s.dead = true
			return "", true
		}
		return pan, false
	}
	o := vsync.Run([]func(){body}, dflt, false)
	if len(o.Panics) > 0 {
		// a goroutine of the repository panicked: the process would be gone
		return "crash: " + o.Panics[0], false
	}
	if o.Stuck {
		s.dead = true
		return "", true
	}
	return pan, false
}

func engine(e string) visigoth.Engine {
	switch e {
	case "hits":
		return visigoth.HitsSearch
	case "linear":
		return visigoth.LinearSearch
	case "zero":
		return visigoth.NoopZeroSearch
	}
	return visigoth.NoopAllSearch
}

var errEngine = errors.New("engine failure")

// panicEngine panics at one of several points of its work.
func panicEngine(mode int) visigoth.Engine {
	return func(tokens []string, ix visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
		if mode%3 == 1 {
			for _, t := range tokens {
				ix.Indexed(t)
			}
		}
		if mode%3 == 2 {
			for i := 0; i < ix.Len(); i++ {
				ix.Document(i)
			}
		}
		panic(errEngine)
	}
}

// scribble uses and then overwrites everything an engine is given.
func scribble(tokens []string, ix visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
	for _, t := range append([]string(nil), tokens...) {
		p := ix.Indexed(t)
		for i := range p {
			p[i] = 0
		}
		if cap(p) > len(p) {
			p = p[:cap(p)]
			p[len(p)-1] = 0
		}
	}
	for _, e := range []visigoth.Engine{visigoth.HitsSearch, visigoth.LinearSearch, visigoth.NoopAllSearch} {
		rows := e(append([]string(nil), tokens...), ix)
		for i := range rows {
			rows[i].Document.Name, rows[i].Document.Content, rows[i].Hits = "SCRIBBLE", "SCRIBBLE", -7
		}
	}
	for i := range tokens {
		tokens[i] = "SCRIBBLE"
	}
	return nil
}

func (s *Sys) drain(st streams.ReadStream[visigoth.SearchResult]) []Row {
	rows := []Row{}
	for st.Next() {
		rows = append(rows, s.c.row(st.Data()))
	}
	if st.Err() != nil {
		rows = append(rows, Row{-9, -9, -9})
	}
	return rows
}

func (s *Sys) listRes(l []string) []string {
	out := make([]string, len(l))
	for i, n := range l {
		out[i] = s.c.unname(n)
	}
	sort.Strings(out)
	return out
}

func (s *Sys) alRes(a visigoth.AliasesResult) (map[string][]string, bool) {
	m := map[string][]string{}
	dup := false
	for _, r := range a.Aliases {
		n := s.c.unname(r.Alias)
		if _, ok := m[n]; ok {
			dup = true
		}
		t := make([]string, len(r.Indices))
		for i, x := range r.Indices {
			t[i] = s.c.unname(x)
		}
		m[n] = t
	}
	return m, dup
}

// Held is a result the caller keeps unread.
type Held struct {
	c      Call
	list   []string
	al     *visigoth.AliasesResult
	stream streams.ReadStream[visigoth.SearchResult]
	err    bool
}

// read returns what the kept result shows now.
func (s *Sys) readHeld(h *Held) Res {
	switch h.c.K {
	case "list":
		return Res{Kind: "list", List: s.listRes(h.list)}
	case "listal":
		m, d := s.alRes(*h.al)
		return Res{Kind: "listal", Al: m, AlDup: d}
	}
	r := Res{Kind: "search", Err: h.err, Rows: []Row{}}
	if h.stream != nil {
		r.Rows = s.drain(h.stream)
	}
	return r
}

// do performs one call inline (the caller runs it as a thread).  With keep it
// returns the unread result.
func (s *Sys) do(c Call, keep bool) (Res, *Held) {
	n, m := s.c.name(c.N), c.M
	if m != "" {
		m = s.c.name(m)
	}
	b := func(v bool) (Res, *Held) { return Res{Kind: "bool", B: v}, nil }
	switch c.K {
	case "put":
		s.repo.Put(n, s.c.request(c.D))
		return b(true)
	case "alias":
		return b(s.repo.Alias(n, m))
	case "unalias":
		return b(s.repo.UnAlias(n, m))
	case "rename":
		return b(s.repo.Rename(n, m))
	case "drop":
		return b(s.repo.Drop(n))
	case "has":
		return b(s.repo.Has(n))
	case "hasalias":
		return b(s.repo.HasAlias(n))
	case "string":
		_ = s.repo.String()
		return b(true)
	case "list":
		h := &Held{c: c, list: s.repo.List()}
		if keep {
			return Res{}, h
		}
		return s.readHeld(h), nil
	case "listal":
		l := s.repo.ListAliases()
		h := &Held{c: c, al: &l}
		if keep {
			return Res{}, h
		}
		return s.readHeld(h), nil
	case "scriblist":
		l := s.repo.List()
		for i := range l {
			l[i] = "SCRIBBLE"
		}
		a := s.repo.ListAliases()
		// a row may grow: the others are not its room
		var was []string
		for _, r := range a.Aliases {
			was = append(was, r.Alias+"\x00"+strings.Join(r.Indices, "\x00"))
		}
		for i := range a.Aliases {
			_ = append(a.Aliases[i].Indices, "SCRIBBLE", "SCRIBBLE")
		}
		for i, r := range a.Aliases {
			if was[i] != r.Alias+"\x00"+strings.Join(r.Indices, "\x00") {
				return b(false)
			}
		}
		for i := range a.Aliases {
			x := a.Aliases[i].Indices
			for j := range x {
				x[j] = "SCRIBBLE"
			}
			if cap(x) > len(x) {
				x = x[:cap(x)]
				x[len(x)-1] = "SCRIBBLE"
			}
			a.Aliases[i].Alias = "SCRIBBLE"
			a.Aliases[i].Indices = append(x[:0], "SCRIBBLE")
		}
		return b(true)
	case "scribeng":
		_, _ = s.repo.Search(n, s.c.text(c.Q), scribble)
		return b(true)
	case "panicsearch", "panicquery", "panicbuild", "panicdoc":
		return b(s.fault(c, n))
	case "search":
		st, err := s.repo.Search(n, s.c.text(c.Q), engine(c.M))
		h := &Held{c: c, stream: st, err: err != nil}
		if err != nil {
			h.stream = nil
		}
		if keep {
			return Res{}, h
		}
		return s.readHeld(h), nil
	}
	panic("harness: unknown call " + c.K)
}

// Do performs one call on its own thread.
func (s *Sys) Do(c Call) Res {
	var r Res
	p, st := s.guard(func() { r, _ = s.do(c, false) })
	r.Panic, r.Stuck = p, st
	return r
}

// Keep performs a read and returns its unread result.
func (s *Sys) Keep(c Call) (*Held, Res) {
	var h *Held
	p, st := s.guard(func() { _, h = s.do(c, true) })
	return h, Res{Panic: p, Stuck: st}
}

// View is everything observed of a repository.
type View struct {
	List  []string
	Al    map[string][]string
	AlDup bool
	Has   map[string]bool
	HasA  map[string]bool
	Names map[string]*NameView
	Pan   map[string]string // searches that panicked
	Panic string
	Stuck bool
}

// Observe reads everything that is observable.
func (s *Sys) Observe(names []string, q1, q2 []int) *View {
	v := &View{Has: map[string]bool{}, HasA: map[string]bool{}, Names: map[string]*NameView{}, Pan: map[string]string{}}
	// a panicking search of one name must not hide the others
	t1, t2 := s.c.text(q1), s.c.text(q2)
	v.Panic, v.Stuck = s.guard(func() {
		v.List = s.listRes(s.repo.List())
		v.Al, v.AlDup = s.alRes(s.repo.ListAliases())
		for _, n := range names {
			v.Has[n] = s.repo.Has(s.c.name(n))
			v.HasA[n] = s.repo.HasAlias(s.c.name(n))
		}
	})
	if v.Panic != "" || v.Stuck {
		return v
	}
	for _, n := range names {
		nv := &NameView{}
		v.Names[n] = nv
		p, st := s.guard(func() {
			get := func(t string, e visigoth.Engine) []Row {
				st, err := s.repo.Search(s.c.name(n), t, e)
				if err != nil {
					nv.Err = true
					if st != nil {
						return s.drain(st)
					}
					return []Row{}
				}
				return s.drain(st)
			}
			nv.All = get("", visigoth.NoopAllSearch)
			if nv.Err {
				return
			}
			nv.H1 = get(t1, visigoth.HitsSearch)
			nv.L1 = get(t1, visigoth.LinearSearch)
			nv.H2 = get(t2, visigoth.HitsSearch)
		})
		nv.IsX, nv.IsA = v.Has[n], v.HasA[n]
		if p != "" {
			v.Pan[n] = p
		}
		if st {
			v.Stuck = true
			return v
		}
	}
	return v
}

// Diff is one difference between specification and code.
type Diff struct {
	Cat    string
	Name   string
	Detail string
}

func (d Diff) String() string { return d.Cat + "(" + d.Name + "): " + d.Detail }

// compare lists the differences between the specified and the real view.
func compare(exp map[string]*NameView, al map[string][]string, v *View, names []string) []Diff {
	var ds []Diff
	add := func(cat, n, f string, a ...any) { ds = append(ds, Diff{cat, n, fmt.Sprintf(f, a...)}) }
	if v.Stuck {
		add("stuck", "", "a read never returns")
		return ds
	}
	if v.Panic != "" {
		add("panic", "", "%s", v.Panic)
		return ds
	}
	inList := map[string]int{}
	for _, n := range v.List {
		inList[n]++
	}
	known := map[string]bool{}
	for _, n := range names {
		known[n] = true
	}
	for n, k := range inList {
		if k > 1 {
			add("listdup", n, "listed %d times", k)
		}
		if !known[n] {
			add("exist", n, "unexpected index listed")
		}
	}
	if v.AlDup {
		add("listdup", "", "an alias is listed twice")
	}
	for a := range v.Al {
		if !known[a] {
			add("alias", a, "unexpected alias listed")
		}
	}
	for _, n := range names {
		e := exp[n]
		if v.Has[n] != (inList[n] > 0) {
			add("inconsistent", n, "existence query says %v, index listing says %v", v.Has[n], inList[n] > 0)
		}
		if v.Has[n] != e.IsX || (inList[n] > 0) != e.IsX {
			d := 0
			if e.IsX {
				d = len(e.All)
			}
			add("exist", n, "index expected %v (with %d documents), got %v", e.IsX, d, v.Has[n])
		}
		t, ok := v.Al[n]
		if v.HasA[n] != ok {
			add("inconsistent", n, "alias existence query says %v, alias listing says %v", v.HasA[n], ok)
		}
		if ok {
			if len(t) == 0 {
				add("integrity", n, "alias with no index")
			}
			seen := map[string]bool{}
			for _, x := range t {
				if seen[x] {
					add("integrity", n, "alias lists %s twice", x)
				}
				seen[x] = true
				if inList[x] == 0 {
					add("integrity", n, "alias lists %s, which does not exist", x)
				}
			}
		}
		if ok != e.IsA || v.HasA[n] != e.IsA || ok && !sameSet(t, al[n]) {
			add("alias", n, "expected %v %v, got %v %v", e.IsA, al[n], ok, t)
		} else if ok && !sameSeq(t, al[n]) {
			if len(t) == len(al[n]) {
				add("aliasord", n, "expected order %v, got %v", al[n], t)
			} else {
				add("alias", n, "expected %v, got %v", al[n], t)
			}
		}
	}
	for _, n := range names {
		e, g := exp[n], v.Names[n]
		if p, ok := v.Pan[n]; ok {
			if e.IsX {
				add("content", n, "search panics: %s", p)
			} else {
				add("resolve", n, "search panics: %s", p)
			}
			add("panic", n, "%s", p)
			continue
		}
		if g.Err == (v.Has[n] || v.HasA[n]) {
			add("inconsistent", n, "listings say known=%v, search error=%v", v.Has[n] || v.HasA[n], g.Err)
		}
		if !e.IsX && !v.Has[n] {
			// an alias, or nothing: judged against the code's own listings and
			// the contents its indices show
			ds = append(ds, resolveDiffs(n, e, g, v)...)
			continue
		}
		if !e.IsX {
			continue // reported as "exist"
		}
		cat, ord := "content", "order"
		for _, r := range g.All {
			if r.ID < 0 || r.Raw < 0 {
				add("verbatim", n, "a document nobody put: id %d content %d", r.ID, r.Raw)
			}
		}
		switch {
		case g.Err != e.Err:
			add(cat, n, "search error expected %v, got %v", e.Err, g.Err)
			continue
		case g.Err && len(g.All) > 0:
			add(cat, n, "results with an error")
		case !sameBag(g.All, e.All):
			add(cat, n, "expected documents %v, got %v", e.All, g.All)
			continue
		case !sameRows(g.All, e.All):
			add(ord, n, "expected sequence %v, got %v", e.All, g.All)
		}
		for _, x := range []struct {
			w    string
			e, g []Row
		}{{"hits q1", e.H1, g.H1}, {"linear q1", e.L1, g.L1}, {"hits q2", e.H2, g.H2}} {
			if !sameBag(x.e, x.g) {
				add("match", n, "%s: expected %v, got %v", x.w, x.e, x.g)
			} else if !sameRows(x.e, x.g) {
				add("rank", n, "%s: expected %v, got %v", x.w, x.e, x.g)
			}
		}
	}
	return ds
}

// resolveDiffs: a search by a name that is no index reaches exactly the
// indices the alias of that name lists, in that order.
func resolveDiffs(n string, e, g *NameView, v *View) []Diff {
	var ds []Diff
	add := func(cat, f string, a ...any) { ds = append(ds, Diff{cat, n, fmt.Sprintf(f, a...)}) }
	t, known := v.Al[n]
	if g.Err != !known {
		if g.Err {
			add("resolve", "search by the alias returns an error")
		} else {
			add("resolve", "search by an unknown name returns no error")
		}
		return ds
	}
	if g.Err {
		if len(g.All) > 0 {
			add("resolve", "results with an error")
		}
		return ds
	}
	for _, x := range []struct {
		w   string
		g   []Row
		get func(*NameView) []Row
	}{{"match-all", g.All, func(w *NameView) []Row { return w.All }},
		{"hits q1", g.H1, func(w *NameView) []Row { return w.H1 }},
		{"linear q1", g.L1, func(w *NameView) []Row { return w.L1 }},
		{"hits q2", g.H2, func(w *NameView) []Row { return w.H2 }}} {
		var want []Row
		for _, i := range t {
			w := v.Names[i]
			if w == nil || w.Err || v.Pan[i] != "" {
				return ds // reported as integrity or as a difference of that index
			}
			want = append(want, x.get(w)...)
		}
		if !sameBag(want, x.g) {
			add("resolve", "%s search by the alias of %v: expected %v, got %v", x.w, t, want, x.g)
			return ds
		}
		if !sameRows(want, x.g) {
			add("resord", "%s search by the alias of %v: expected %v, got %v", x.w, t, want, x.g)
			return ds
		}
	}
	return ds
}

// diffRes compares results of one call.
func diffRes(c Call, e, g Res) []Diff {
	one := func(cat, f string, a ...any) []Diff { return []Diff{{cat, c.N, fmt.Sprintf(f, a...)}} }
	if g.Stuck {
		return one("stuck", "%v never returns", c)
	}
	if g.Panic != "" {
		return one("panic", "%v: %s", c, g.Panic)
	}
	switch e.Kind {
	case "bool":
		if e.B != g.B {
			return one("res", "%v: expected %v, got %v", c, e.B, g.B)
		}
	case "list":
		if !sameSeq(e.List, g.List) {
			return one("reslist", "listing: expected %v, got %v", e.List, g.List)
		}
	case "listal":
		bad := len(e.Al) != len(g.Al) || g.AlDup
		for a, t := range e.Al {
			u, ok := g.Al[a]
			if !ok || !sameSet(t, u) || len(t) != len(u) {
				bad = true
			}
		}
		if bad {
			return one("reslist", "alias listing: expected %v, got %v", e.Al, g.Al)
		}
	case "search":
		switch {
		case e.Err != g.Err:
			return one("ressearch", "%v: error expected %v, got %v", c, e.Err, g.Err)
		case !sameBag(e.Rows, g.Rows):
			return one("match", "%v: expected %v, got %v", c, e.Rows, g.Rows)
		case !sameRows(e.Rows, g.Rows):
			return one("rank", "%v: expected %v, got %v", c, e.Rows, g.Rows)
		}
	}
	return nil
}
