package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/sonirico/vago/slices"
	"github.com/sonirico/visigoth"
)

type custLine struct {
	I    int      `json:"i"`
	C    Call     `json:"c"`
	New  bool     `json:"new"`
	Err  bool     `json:"err"`
	Del  []int    `json:"del"`
	Born []string `json:"born"`
	Own  []int    `json:"own"`
}

// custIndex is an index of the caller's own making.
type custIndex struct {
	visigoth.Index
	visigoth.Indexer
	n    int
	w    *custWorld
	name string
}

type custEvent struct {
	ix   *custIndex
	kind string
	req  visigoth.DocRequest
	text string
	bad  string
}

type custWorld struct {
	mu     sync.Mutex
	rng    *rand.Rand
	made   []*custIndex
	events []custEvent
	gave   map[*custIndex][]visigoth.SearchResult // what each answered, as a copy
	given  map[*custIndex]slices.Slice[visigoth.SearchResult]
	serial int
	none   bool // the search at hand was given no engine
}

func (w *custWorld) build(name string) visigoth.Index {
	w.mu.Lock()
	defer w.mu.Unlock()
	x := &custIndex{n: []int{0, 3}[len(w.made)%2], w: w, name: name}
	w.made = append(w.made, x)
	return x
}

func (x *custIndex) Put(d visigoth.DocRequest) visigoth.Index {
	x.w.mu.Lock()
	defer x.w.mu.Unlock()
	x.w.events = append(x.w.events, custEvent{ix: x, kind: "put", req: d})
	// what it gives back is its caller's to use or not; it is the index that was built
	switch x.w.rng.Intn(6) {
	case 0:
		return nil
	case 1:
		return &custIndex{n: x.n, w: x.w, name: x.name + "?"}
	case 2:
		return x.w.made[x.w.rng.Intn(len(x.w.made))]
	}
	return x
}

// Len, Indexed and Document: what a custom index shows an engine.
func (x *custIndex) Len() int                    { return x.n }
func (x *custIndex) Indexed(k string) []int      { return []int{len(k)} }
func (x *custIndex) Document(i int) visigoth.Doc { return visigoth.NewDoc(x.name, fmt.Sprint(i)) }

func (x *custIndex) Search(text string, e visigoth.Engine) slices.Slice[visigoth.SearchResult] {
	// the engine handed over works as the caller's does, or is none
	bad := ""
	if e == nil != x.w.none {
		bad = fmt.Sprintf("index %q: an engine was given to the search: %v, to the index: %v", x.name, !x.w.none, e != nil)
	}
	var rows []visigoth.SearchResult
	if e != nil {
		rows = e([]string{"t1", text}, x)
	}
	if e != nil && (len(rows) != 1 || rows[0].Document.Name != "engine:"+x.name || rows[0].Document.Content != "t1|"+text || rows[0].Hits != x.n) {
		bad = fmt.Sprintf("the engine handed to index %q answers %v", x.name, rows)
	}
	w := x.w
	w.mu.Lock()
	defer w.mu.Unlock()
	// an answer in no order, with any hits, with repeats, with room behind it
	n := w.rng.Intn(4)
	out := make(slices.Slice[visigoth.SearchResult], n, n+w.rng.Intn(4))
	for i := range out {
		w.serial++
		out[i] = visigoth.SearchResult{Document: visigoth.NewDoc(fmt.Sprint(w.rng.Intn(5)), fmt.Sprintf("%s row %d", x.name, w.serial)),
			Hits: []int{0, -3, 1, 7, 1 << 40}[w.rng.Intn(5)]}
		if i > 0 && w.rng.Intn(4) == 0 {
			out[i] = out[i-1]
		}
	}
	if n == 0 && w.rng.Intn(2) == 0 {
		out = nil
	}
	w.gave[x] = append([]visigoth.SearchResult(nil), out...)
	w.given[x] = out
	w.events = append(w.events, custEvent{ix: x, kind: "search", text: text, bad: bad})
	return out
}

// String is what a custom index has to say in the repository's textual form.
func (x *custIndex) String() string {
	for i, y := range x.w.made {
		if x == y {
			return fmt.Sprintf("<index %d\nof %d>", i, len(x.name))
		}
	}
	return "<unknown>"
}

// custForm compares the repository's textual form with the indices it holds.
func custForm(got string, held []visigoth.Index) string {
	n, times := 0, map[string]int{}
	for _, x := range held {
		s := fmt.Sprintln(x)
		n += len(s)
		times[s]++
	}
	for s, k := range times {
		if strings.Count(got, s) != k {
			return fmt.Sprintf("the textual form shows %d times instead of %d: %.200q", strings.Count(got, s), k, s)
		}
	}
	if n != len(got) {
		return fmt.Sprintf("the textual form of %d indices is %.300q", len(held), got)
	}
	return ""
}

type oneTok struct{}

func (oneTok) Tokenize(string) []string { return []string{"tok"} }

// custWalk performs a behaviour of Custom.tla on a repository of custom indices.
func custWalk(ls []custLine, seed int64) (out []string, at int) {
	fail := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	w := &custWorld{rng: rand.New(rand.NewSource(seed)), gave: map[*custIndex][]visigoth.SearchResult{}, given: map[*custIndex]slices.Slice[visigoth.SearchResult]{}}
	cc := NewConc(seed, "plain", false)
	// the indices are the driver's or, to see the textual form, the usual ones
	var mem visigoth.Builder
	var made []visigoth.Index // by the call at hand
	holds := map[int]visigoth.Index{}
	if *fMode == "form" && seed%2 == 0 {
		mem = visigoth.NewMemoryIndexBuilder(oneTok{})
	}
	repo := visigoth.NewIndexRepo(func(name string) visigoth.Index {
		if mem != nil {
			made = append(made, mem(name))
			return made[len(made)-1]
		}
		return w.build(name)
	})
	inst := map[int]*custIndex{} // instance number of the specification -> object
	for i, l := range ls {
		at = i
		c := l.C
		n, m := cc.name(c.N), c.M
		if m != "" {
			m = cc.name(m)
		}
		w.events = w.events[:0]
		var req visigoth.DocRequest
		text := junk[w.rng.Intn(len(junk))]
		var got []visigoth.SearchResult
		switch c.K {
		case "put":
			id, raw := junk[w.rng.Intn(len(junk))], junk[w.rng.Intn(len(junk))]+fmt.Sprint(i)
			switch w.rng.Intn(3) {
			case 0:
				req = visigoth.NewDocRequest(id, raw)
			case 1:
				req = visigoth.NewDocRequestWith(id, raw, text)
			default:
				req = visigoth.NewDocRequestWithMime(id, raw, visigoth.MimeType(w.rng.Intn(5)))
			}
			repo.Put(n, req)
		case "search":
			eng := visigoth.Engine(func(t []string, ix visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
				return slices.Slice[visigoth.SearchResult]{{Document: visigoth.NewDoc("engine:"+ix.Document(0).ID(), strings.Join(t, "|")), Hits: ix.Len()}}
			})
			if w.none = mem == nil && w.rng.Intn(8) == 0; w.none {
				eng = nil
			}
			st, err := repo.Search(n, text, eng)
			if (err != nil) != l.Err {
				fail("%v: error expected %v, got %v", c, l.Err, err)
				return
			}
			if err == nil {
				for st.Next() {
					got = append(got, st.Data())
				}
			}
		case "alias":
			repo.Alias(n, m)
		case "unalias":
			repo.UnAlias(n, m)
		case "rename":
			repo.Rename(n, m)
		case "drop":
			repo.Drop(n)
		}
		rep.count("calls", 1)
		if *fMode == "form" {
			if l.New && len(w.events) == 1 {
				inst[l.Del[0]] = w.events[0].ix
			}
			if l.New {
				for _, x := range made {
					if len(x.Search("", visigoth.NoopAllSearch)) > 0 {
						holds[l.Del[0]] = x
					}
				}
			}
			made = nil
			var held []visigoth.Index
			for _, k := range l.Own {
				if mem != nil && holds[k] != nil {
					held = append(held, holds[k])
				} else if mem == nil && inst[k] != nil {
					held = append(held, inst[k])
				} else {
					return nil, i // other properties' business
				}
			}
			if d := custForm(repo.String(), held); d != "" {
				fail("after %v: %s", c, d)
				return
			}
			continue
		}
		if c.K != "put" && c.K != "search" {
			// indices may be looked at, but no document goes anywhere
			for _, e := range w.events {
				if e.kind == "put" {
					fail("%v puts a document into the index built for %q", c, e.ix.name)
				}
			}
			if len(out) > 0 {
				return
			}
			continue
		}
		if l.New {
			k := l.Del[0]
			if len(w.events) != 1 || w.events[0].kind != "put" {
				fail("%v of an unknown name: %d deliveries", c, len(w.events))
				return
			}
			inst[k] = w.events[0].ix
			for o, x := range inst {
				if o != k && x == inst[k] {
					fail("%v of an unknown name goes to an index that existed before", c)
				}
			}
			if inst[k].name != cc.name(l.Born[k-1]) {
				fail("%v creates an index built for the name %q", c, inst[k].name)
			}
		}
		want := map[*custIndex]int{}
		for _, k := range l.Del {
			if inst[k] == nil {
				die("custom: instance %d unknown", k)
			}
			want[inst[k]]++
		}
		for _, e := range w.events {
			if e.kind != c.K {
				fail("%v causes a %s on the index built for %q", c, e.kind, e.ix.name)
				continue
			}
			want[e.ix]--
			if e.bad != "" {
				fail("%v: %s", c, e.bad)
			}
			if c.K == "put" && e.req != req {
				fail("%v: the index built for %q is given the request %+.100q instead of %+.100q", c, e.ix.name, e.req, req)
			}
			if c.K == "search" && e.text != text {
				fail("%v: the index built for %q is given the text %.100q instead of %.100q", c, e.ix.name, e.text, text)
			}
		}
		for x, k := range want {
			if k != 0 {
				fail("%v reaches the index built for %q %d times too %s", c, x.name, max(k, -k), map[bool]string{true: "few", false: "many"}[k > 0])
			}
		}
		if c.K == "search" && len(out) == 0 {
			var exp []visigoth.SearchResult
			for _, k := range l.Del {
				exp = append(exp, w.gave[inst[k]]...)
			}
			same := len(exp) == len(got)
			for j := 0; same && j < len(exp); j++ {
				same = exp[j] == got[j]
			}
			if !same {
				fail("%v: the indices answered %.300v, the search returns %.300v", c, exp, got)
			}
			for _, k := range l.Del {
				g, h := w.given[inst[k]], w.gave[inst[k]]
				for j := range h {
					if g[j] != h[j] {
						fail("%v: the answer of an index was changed from %.200v to %.200v", c, h, g)
						break
					}
				}
			}
		}
		if len(out) > 0 {
			return
		}
	}
	return
}

func cmdCustom() {
	var walks [][]custLine
	lines(*fIn, func(b []byte) {
		var l custLine
		if err := json.Unmarshal(b, &l); err != nil {
			die("custom line: %v: %.300s", err, b)
		}
		if l.I == 0 {
			walks = append(walks, nil)
		}
		walks[len(walks)-1] = append(walks[len(walks)-1], l)
	})
	kinds := map[string]int{}
	multi := 0
	for _, ls := range walks {
		for _, l := range ls {
			kinds[l.C.K]++
			if len(l.Del) > 1 {
				multi++
			}
		}
	}
	if len(walks) == 0 || len(kinds) < 6 || multi == 0 {
		die("walks say nothing: %v", kinds)
	}
	rep.count("deliveries_to_several", multi)
	for i, ls := range walks {
		if i%*fShards != *fShard {
			continue
		}
		seed := *fSeed*15485863 + int64(i)
		rep.count("walks", 1)
		m, at := custRun(ls, seed)
		if len(m) == 0 {
			continue
		}
		m2, _ := custRun(ls, seed)
		for k := 0; k < 10 && len(m2) == 0; k++ {
			m2, _ = custRun(ls, seed)
		}
		if len(m2) == 0 {
			rep.count("unconfirmed", 1)
			continue
		}
		var cs []string
		for _, l := range ls[:at+1] {
			cs = append(cs, l.C.String())
		}
		rep.violation(Violation{map[string]string{"": "C21", "form": "C26"}[*fMode], m[0], m[1:], map[string]any{"calls": cs, "seed": seed}})
	}
}

func custRun(ls []custLine, seed int64) (m []string, at int) {
	defer func() {
		if r := recover(); r != nil {
			m = []string{fmt.Sprintf("panic: %v", r)}
			at = len(ls) - 1
		}
	}()
	return custWalk(ls, seed)
}

type keyLine struct {
	ID []int `json:"id"`
	C  int   `json:"c"`
}

// cmdKeys takes the hash keys of the documents of Keys.tla.
func cmdKeys() {
	var ls []keyLine
	lines(*fIn, func(b []byte) {
		var l keyLine
		if err := json.Unmarshal(b, &l); err != nil {
			die("key line: %v", err)
		}
		ls = append(ls, l)
	})
	if len(ls) == 0 {
		die("no documents")
	}
	block := strings.Repeat("0123456789abcdef", 8)
	big := strings.Repeat("x", 5000)
	letters := [][]string{{"a", "b", "c"}, {"a", "A", "\x00"}, {"\x00", "\x01", "\xff"}, {"ñ", "n\u0303", "n"}, {block + "0", block + "1", "1" + block},
		{"doc-", "doc-0", "0"}, {" ", "\t", ""}, {big, big + "y", "y" + big}, {"/", "//", "é"}, {"日", "本", "\U0001F600"}}
	for li, al := range letters {
		if li%*fShards != *fShard {
			continue
		}
		of := map[visigoth.HashKey]string{}
		key := map[string]visigoth.HashKey{}
		repo := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer())))
		viol := func(f string, a ...any) {
			rep.violation(Violation{"C22", fmt.Sprintf(f, a...), nil, map[string]any{"letters": li}})
		}
		for i, l := range ls {
			var b strings.Builder
			for _, x := range l.ID {
				b.WriteString(al[x-1])
			}
			id := b.String()
			raw := junk[(l.C*7+i)%len(junk)]
			d := visigoth.NewDoc(id, raw)
			if i%50 == 0 {
				// one that went through the repository
				ix := fmt.Sprint("ix", i)
				repo.Put(ix, visigoth.NewDocRequestWith(id, raw, "x"))
				st, err := repo.Search(ix, "x", visigoth.HitsSearch)
				if err == nil && st.Next() {
					d = st.Data().Doc()
				}
			}
			var h visigoth.Hashable = d
			k := h.Hash()
			rep.count("keys", 1)
			if k != d.Hash() || k != visigoth.NewDoc(strings.Clone(id), "").Hash() {
				viol("two keys of one identifier %.60q differ", id)
			}
			if old, ok := key[id]; ok && old != k {
				viol("documents of the identifier %.60q with different contents have different keys", id)
			}
			if old, ok := of[k]; ok && old != id {
				viol("identifiers %.60q and %.60q have the same key", old, id)
			}
			key[id], of[k] = k, id
		}
		// numbered identifiers: a short key would show
		for n := 0; n < 150000 && len(al[0]) < 40; n++ {
			id := fmt.Sprintf("%s%d", al[n%3], n)
			k := visigoth.NewDoc(id, "").Hash()
			rep.count("keys", 1)
			if old, ok := of[k]; ok && old != id {
				viol("identifiers %.60q and %.60q have the same key", old, id)
				break
			}
			of[k] = id
		}
		// keys taken by several goroutines at once
		ids := sortedKeys(key)
		var bad [4]string
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for r := 0; r < 4; r++ {
					for i := range ids {
						id := ids[(i*(2*g+1)+r)%len(ids)]
						if visigoth.NewDoc(id, "").Hash() != key[id] {
							bad[g] = id
						}
					}
				}
			}(g)
		}
		wg.Wait()
		rep.count("keys", 16*len(ids))
		for _, b := range bad {
			if b != "" {
				viol("taken by several goroutines at once, the key of %.60q differs", b)
			}
		}
	}
}
