package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"github.com/sonirico/vago/slices"
	"github.com/sonirico/visigoth"
)

// tabTok is a tokenizer that reads token numbers after the last bar of a text
// and yields arbitrary strings for them: the index must not care what tokens
// look like.
type tabTok struct{ words []string }

func (t tabTok) Tokenize(s string) []string {
	s = s[strings.LastIndexByte(s, '|')+1:]
	var out []string
	for _, f := range strings.Split(s, ",") {
		n, err := strconv.Atoi(f)
		if err != nil {
			continue
		}
		if n <= len(t.words) {
			out = append(out, t.words[n-1])
		} else {
			out = append(out, "t"+strconv.Itoa(n))
		}
	}
	return out
}

func tabText(q []int) string {
	var b strings.Builder
	b.WriteByte('|')
	for i, t := range q {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(strconv.Itoa(t))
	}
	return b.String()
}

var oddTokens = []string{"", " ", "a", "A", "aa", "aaa", "\x00", "\xff\xfe", strings.Repeat("z", 3000), "ñ", "n\u0303", "a b", "0", "00", "-", "|", "a\n", strings.Repeat("z", 3000) + "y", "\u65e5", "\u65e5\u672c"}

// tokens that are like each other
var tokenFamilies = [][]string{
	{long60 + "a" + long60, long60 + "b" + long60, long60 + "c" + long60, long60 + "aa" + long60, long60 + long60},
	{strings.Repeat(long60, 90) + "1" + long60, strings.Repeat(long60, 90) + "2" + long60, strings.Repeat(long60, 90) + long60, long60 + "1" + strings.Repeat(long60, 90)},
	{"a" + long60, "b" + long60, "A" + long60, "a" + long60 + " ", long60},
	{"ñ", "n\u0303", "Ñ", "n", "\u00f1 ", "\u00f1\u00f1", "\xf1"},
	{"", " ", "\x00", "\x00\x00", "\n", "\t", "\u00a0", "\u200b"},
	{"0", "00", "000", "1", "01", "1.0", "\u0661", "10", "100"},
	{"straße", "strasse", "STRASSE", "Straße", "stra\u017fse", "\u017f", "s", "\u1e9e", "ß"},
	{"I", "i", "\u0130", "\u0131", "k", "\u212a", "K"},
	{"ab", "ba", "abab", "aab", "abb", "bab", "a", "b"},
	{"\xff", "\xfe", "\ufffd", "\xff\xfe", "\xc3", "\xc3\xa9", "\xa9"},
}
var long60 = strings.Repeat("xyz", 20)

type engQ struct {
	Q []int    `json:"q"`
	H [][2]int `json:"h"` // identifier and content of each row
	L [][2]int `json:"l"`
}
type engLine struct {
	Docs []Doc   `json:"docs"`
	Post [][]int `json:"post"`
	Qs   []engQ  `json:"qs"`
}

var (
	accented   = strings.NewReplacer("a", "á", "e", "é", "i", "í", "o", "ó", "u", "ú", "n", "ñ")
	unaccented = strings.NewReplacer("á", "a", "é", "e", "í", "i", "ó", "o", "ú", "u", "ü", "u", "ñ", "n", "Ñ", "N")
)

// strangers looks up tokens that are like tokens of the index but occur nowhere.
func strangers(ix visigoth.Indexer, present map[string]bool, rng *rand.Rand, fail func(string, string, ...any)) {
	var l []string
	for t, in := range present {
		if in {
			l = append(l, t)
		}
	}
	sort.Strings(l)
	rng.Shuffle(len(l), func(a, b int) { l[a], l[b] = l[b], l[a] })
	for _, t := range l[:min(len(l), 3)] {
		h := len(t) / 2
		for _, v := range []string{strings.ToUpper(t), strings.ToLower(t), strings.Title(t), accented.Replace(t), unaccented.Replace(t), t + "s", t + "es", t + " ", " " + t, t + "\x00",
			t + t, t[:h], t[h:], t + "a", "x" + t, strings.TrimSpace(t), strings.TrimRight(t, "aeos"), strings.ToValidUTF8(t, ""), strings.ToValidUTF8(t, "\ufffd"), "\"" + t + "\"", t + "*", "", "*"} {
			if present[v] {
				continue
			}
			if got := ix.Indexed(v); len(got) > 0 {
				fail("C12", "token %q, which occurs nowhere (%q does): positions %v", short(v, 30), short(t, 30), got)
			}
		}
	}
}

// engIndex is a real index filled with abstract documents.
type engIndex struct {
	ix    visigoth.Index
	text  func([]int) string
	token func(t int) string // what token t analyses to
	ids   func(d int) string
	raws  []string
	docs  []Doc
	back  map[string]int // concrete content -> abstract
	idOf  map[string]int
	desc  string
}

type engFail struct{ prop, msg string }

func (e *engIndex) rows(q []int, name string) (out []Row, pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprint(r)
		}
	}()
	for _, r := range e.ix.Search(e.text(q), engine(name)) {
		k, ok := e.back[r.Document.Raw()]
		if !ok {
			k = -1
		}
		id, ok := e.idOf[r.Document.ID()]
		if !ok {
			id = -1
		}
		out = append(out, Row{id, k, r.Hits})
	}
	return
}

// capture calls f with the index's own reader interface.
func (e *engIndex) capture(f func(visigoth.Indexer)) {
	e.ix.Search(e.text(nil), func(_ []string, ix visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
		f(ix)
		return nil
	})
}

// scribble searches with an engine that overwrites the tokens it is given.
func (e *engIndex) scribble(q []int) bool {
	e.ix.Search(e.text(q), func(toks []string, ix visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
		for i := range toks {
			toks[i] = "overwritten"
		}
		return nil
	})
	return len(q) > 0
}

func newEngIndex(docs []Doc, seed int64, profile string, onPut func(e *engIndex, n int)) *engIndex {
	e := &engIndex{docs: docs, back: map[string]int{}, idOf: map[string]int{}}
	var req func(d Doc) visigoth.DocRequest
	rng := rand.New(rand.NewSource(seed))
	if profile == "table" {
		words := append([]string(nil), oddTokens...)
		rng.Shuffle(len(words), func(a, b int) { words[a], words[b] = words[b], words[a] })
		if rng.Intn(2) == 0 {
			f := append([]string(nil), tokenFamilies[rng.Intn(len(tokenFamilies))]...)
			rng.Shuffle(len(f), func(a, b int) { f[a], f[b] = f[b], f[a] })
			for _, w := range words {
				if !in(f, w) {
					f = append(f, w)
				}
			}
			words = f
		}
		tk := tabTok{words}
		e.ix = visigoth.NewMemoryIndexBuilder(tk)("t")
		e.text = tabText
		e.token = func(t int) string { return tk.Tokenize(tabText([]int{t}))[0] }
		e.ids = func(d int) string { return fmt.Sprintf("doc-%04d", d) }
		if rng.Intn(2) == 0 {
			// identifiers ordered by their last byte only
			p := strings.Repeat("id", rng.Intn(40))
			e.ids = func(d int) string { return p + string(rune('0'+d)) }
		}
		known := map[int]string{}
		req = func(d Doc) visigoth.DocRequest {
			if raw, ok := known[d.Raw]; ok { // the same content again
				e.raws = append(e.raws, raw)
				if raw == fmt.Sprintf("content %d ", d.Raw)+tabText(d.Toks) && rng.Intn(2) == 0 {
					return visigoth.NewDocRequest(e.ids(d.ID), raw)
				}
				return visigoth.NewDocRequestWith(e.ids(d.ID), raw, tabText(d.Toks))
			}
			raw := fmt.Sprintf("content %d ", d.Raw)
			defer func() { known[d.Raw] = raw }()
			if rng.Intn(2) == 0 {
				raw += tabText(d.Toks)
				e.raws = append(e.raws, raw)
				return visigoth.NewDocRequest(e.ids(d.ID), raw)
			}
			e.raws = append(e.raws, raw)
			return visigoth.NewDocRequestWith(e.ids(d.ID), raw, tabText(d.Toks))
		}
	} else {
		c := NewConc(seed, profile, false)
		e.ix = visigoth.NewMemoryIndexBuilder(c.tok)("t")
		e.text = c.text
		e.ids = func(d int) string { return c.ids[d] }
		req = func(d Doc) visigoth.DocRequest {
			r := c.again(d)
			e.raws = append(e.raws, r.Raw())
			return r
		}
	}
	e.desc = fmt.Sprintf("profile %s seed %d", profile, seed)
	for i, d := range docs {
		e.ix.Put(req(d))
		e.back[e.raws[i]] = d.Raw
		e.idOf[e.ids(d.ID)] = d.ID
		if onPut != nil {
			onPut(e, i+1)
		}
	}
	return e
}

// engCheck builds one index and compares everything observable in it.
func engCheck(l engLine, seed int64, profile string) (fails []engFail) {
	fail := func(p, f string, a ...any) {
		if len(fails) < 20 {
			fails = append(fails, engFail{p, fmt.Sprintf(f, a...)})
		}
	}
	defer func() {
		if r := recover(); r != nil {
			fail("C10", "panic: %v", r)
			fail("C12", "panic: %v", r)
		}
	}()
	docAt := func(ix visigoth.Indexer, e *engIndex, i int) bool {
		d := ix.Document(i)
		return d.ID() == e.ids(l.Docs[i].ID) && d.Raw() == e.raws[i]
	}
	between := rand.New(rand.NewSource(seed))
	look := between.Intn(3) > 0
	e := newEngIndex(l.Docs, seed, profile, func(e *engIndex, n int) {
		if len(l.Docs) > 60 && n%17 != 0 && n != len(l.Docs) {
			return
		}
		if look && len(l.Qs) > 0 {
			// searches between the puts leave nothing behind
			for _, x := range []string{"hits", "linear"} {
				e.rows(l.Qs[between.Intn(len(l.Qs))].Q, x)
			}
			if e.token != nil {
				t := 1 + between.Intn(len(l.Post)+1)
				var want []int
				if t <= len(l.Post) {
					for _, p := range l.Post[t-1] {
						if p <= n {
							want = append(want, p)
						}
					}
				}
				e.capture(func(ix visigoth.Indexer) {
					if got := ix.Indexed(e.token(t)); !samePos(want, got) {
						fail("C12", "after %d puts token %q: positions %v expected, got %v", n, short(e.token(t), 20), minus1(want), got)
					}
				})
			}
		}
		e.capture(func(ix visigoth.Indexer) {
			if ix.Len() != n {
				fail("C12", "after %d puts the index has %d positions", n, ix.Len())
				return
			}
			for i := 0; i < n; i++ {
				if !docAt(ix, e, i) {
					fail("C12", "after %d puts position %d is not put number %d", n, i, i+1)
				}
			}
		})
	})
	if e.token != nil {
		e.capture(func(ix visigoth.Indexer) {
			for t := 1; t <= len(l.Post)+2; t++ {
				var want []int
				if t <= len(l.Post) {
					want = l.Post[t-1]
				}
				got := ix.Indexed(e.token(t))
				if !samePos(want, got) {
					fail("C12", "token %q: positions %v expected, got %v", short(e.token(t), 20), minus1(want), got)
				}
				got0 := append([]int(nil), got...)
				for i := range got {
					got[i] = -1
				}
				if again := ix.Indexed(e.token(t)); !samePos(want, again) {
					fail("C12", "token %q: positions %v expected, second reading got %v", short(e.token(t), 20), minus1(want), again)
					if samePos(want, got0) {
						fail("C13", "token %q: positions %v, and after the reader overwrote what it was given %v", short(e.token(t), 20), minus1(want), again)
					}
				}
			}
			present := map[string]bool{}
			for t, p := range l.Post {
				present[e.token(t+1)] = len(p) > 0
			}
			strangers(ix, present, between, fail)
		})
	} else {
		// the tokens an analysing index stores are read off its queries
		present := map[string]bool{}
		for t := 1; t <= len(l.Post); t++ {
			var seen []string
			var got [][]int
			e.ix.Search(e.text([]int{t}), func(toks []string, ix visigoth.Indexer) slices.Slice[visigoth.SearchResult] {
				seen = toks
				for _, s := range toks {
					got = append(got, ix.Indexed(s))
				}
				return nil
			})
			if len(seen) != 1 || !samePos(l.Post[t-1], got[0]) {
				fail("C12", "token %d (%q): positions %v expected, got %v", t, seen, minus1(l.Post[t-1]), got)
			}
			for _, s := range seen {
				present[s] = len(l.Post[t-1]) > 0
			}
		}
		e.capture(func(ix visigoth.Indexer) { strangers(ix, present, between, fail) })
	}
	for _, q := range l.Qs {
		for _, x := range []struct {
			n    string
			want [][2]int
		}{{"hits", q.H}, {"linear", q.L}} {
			got, pan := e.rows(q.Q, x.n)
			if pan != "" {
				fail("C10", "%s search of %v panics: %s", x.n, q.Q, pan)
				continue
			}
			engRows(fail, x.n, q.Q, x.want, got, len(q.Q))
			again, _ := e.rows(q.Q, x.n)
			if sameRows(got, again) && e.scribble(q.Q) {
				if third, _ := e.rows(q.Q, x.n); !sameRows(got, third) {
					fail("C13", "%s search of %v: %v, and after an engine overwrote its tokens %v", x.n, q.Q, got, third)
				}
			}
			if !sameRows(got, again) {
				fail("C11", "%s search of %v repeated: %v, then %v", x.n, q.Q, got, again)
			}
		}
	}
	if e.token != nil {
		engOwn(l, e, seed, fail)
	}
	var every [][2]int
	for _, d := range l.Docs {
		every = append(every, [2]int{d.ID, d.Raw})
	}
	for i, q := range l.Qs {
		if i >= 2 {
			break
		}
		got, pan := e.rows(q.Q, "all")
		if pan != "" {
			fail("C10", "match-all search panics: %s", pan)
		} else {
			engRows(fail, "match-all", q.Q, every, got, 0)
		}
		if got, _ := e.rows(q.Q, "zero"); len(got) > 0 {
			fail("C10", "match-none search returns %v", got)
		}
	}
	rep.count("queries", len(l.Qs))
	return
}

// ownIndexer is a reader of the driver's own making, filled with the postings
// of the specification: the engines may rely on nothing but its interface.
type ownIndexer struct {
	visigoth.Indexer
	docs []visigoth.Doc
	post map[string][]int
	none []int // for tokens that occur nowhere
}

func (o *ownIndexer) Len() int                    { return len(o.docs) }
func (o *ownIndexer) Document(i int) visigoth.Doc { return o.docs[i] }
func (o *ownIndexer) Indexed(k string) []int {
	l, ok := o.post[k]
	if !ok {
		return o.none
	}
	return append([]int(nil), l...)
}

// engOwn searches such a reader with the real engines.
func engOwn(l engLine, e *engIndex, seed int64, fail func(string, string, ...any)) {
	o := &ownIndexer{post: map[string][]int{}}
	if seed%3 == 0 {
		o.none = []int{}
	}
	for i, d := range l.Docs {
		o.docs = append(o.docs, visigoth.NewDoc(e.ids(d.ID), e.raws[i]))
	}
	for t, p := range l.Post {
		if len(p) > 0 {
			o.post[e.token(t+1)] = minus1(p)
		}
	}
	run := func(f visigoth.Engine, toks []string) (out []Row, pan string) {
		defer func() {
			if r := recover(); r != nil {
				pan = fmt.Sprint(r)
			}
		}()
		for _, r := range f(toks, o) {
			k, ok := e.back[r.Document.Raw()]
			id, ok2 := e.idOf[r.Document.ID()]
			if !ok || !ok2 {
				k, id = -1, -1
			}
			out = append(out, Row{id, k, r.Hits})
		}
		return
	}
	for _, q := range l.Qs {
		for _, x := range []struct {
			n    string
			f    visigoth.Engine
			want [][2]int
		}{{"hits", visigoth.HitsSearch, q.H}, {"linear", visigoth.LinearSearch, q.L}} {
			var toks []string
			for _, t := range q.Q {
				toks = append(toks, e.token(t))
			}
			got, pan := run(x.f, toks)
			if pan != "" {
				fail("C10", "%s engine on %v panics over an index of the caller's: %s", x.n, q.Q, pan)
				continue
			}
			engRows(func(p, f string, a ...any) { fail(p, "over an index of the caller's: "+f, a...) }, x.n, q.Q, x.want, got, len(q.Q))
		}
	}
	rep.count("own_readers", 1)
}

// engRows compares result rows: the set of documents is C10, their order and
// hits C11, their identifiers C16.
func engRows(fail func(string, string, ...any), n string, q []int, want [][2]int, got []Row, hits int) {
	g, w := make([]int, len(got)), make([]int, len(want))
	cnt := map[int]int{}
	pairs := map[[2]int]int{}
	for i, r := range got {
		g[i] = r.Raw
		cnt[r.Raw]++
		pairs[[2]int{r.ID, r.Raw}]++
	}
	same, ids := len(want) == len(got), true
	for i, x := range want {
		w[i] = x[1]
		cnt[x[1]]--
		same = same && cnt[x[1]] >= 0
		pairs[x]--
		ids = ids && pairs[x] >= 0
	}
	if !same {
		fail("C10", "%s search of %v: expected documents %v, got %v", n, shortInts(q), shortInts(w), shortInts(g))
		return
	}
	if !ids {
		fail("C16", "%s search of %v: expected identifiers and contents %.300v, got %.300v", n, shortInts(q), want, got)
		return
	}
	for i := range g {
		if g[i] != w[i] || got[i].ID != want[i][0] {
			fail("C11", "%s search of %v: expected order %v, got %v", n, shortInts(q), shortInts(w), shortInts(g))
			return
		}
		if got[i].Hits != hits {
			fail("C11", "%s search of %v (%d tokens): result with %d hits", n, shortInts(q), len(q), got[i].Hits)
			return
		}
	}
}

func shortInts(l []int) string {
	if len(l) > 30 {
		return fmt.Sprint(l[:30]) + fmt.Sprintf("... (%d)", len(l))
	}
	return fmt.Sprint(l)
}

func minus1(l []int) []int {
	r := make([]int, len(l))
	for i := range l {
		r[i] = l[i] - 1
	}
	return r
}

func samePos(want, got []int) bool {
	if len(want) != len(got) {
		return false
	}
	for i := range want {
		if want[i]-1 != got[i] {
			return false
		}
	}
	return true
}

var engProfiles = []string{"table", "plain", "spanish"}

// cmdEngines fills real indices as Engines.tla says and compares postings and
// the answers of every engine.
func cmdEngines() {
	switch *fMode {
	case "big":
		cmdEnginesBig()
		return
	case "wide":
		cmdEnginesWide()
		return
	}
	n := 0
	lines(*fIn, func(b []byte) {
		i := n
		n++
		if i%*fShards != *fShard {
			return
		}
		var l engLine
		if err := json.Unmarshal(b, &l); err != nil {
			die("engines line: %v: %.300s", err, b)
		}
		for r := 0; r < *fReps; r++ {
			seed := *fSeed*7919 + int64(i)*31 + int64(r)
			prof := engProfiles[(i+r)%3]
			if prof != "table" {
				max := 0
				for _, d := range l.Docs {
					if d.ID > max {
						max = d.ID
					}
				}
				if len(l.Post) >= 15 || max > 11 {
					prof = "table"
				}
			}
			fails := engCheck(l, seed, prof)
			rep.count("indices", 1)
			if len(fails) > 0 {
				again := map[string]bool{}
				for _, f := range engCheck(l, seed, prof) {
					again[f.prop] = true
				}
				m := map[string][]string{}
				for _, f := range fails {
					if again[f.prop] {
						m[f.prop] = append(m[f.prop], f.msg)
					} else {
						rep.count("unconfirmed", 1)
					}
				}
				for _, p := range propsOf(m) {
					rep.violation(Violation{p, m[p][0], m[p][1:], map[string]any{"docs": l.Docs, "seed": seed, "profile": prof}})
				}
			}
		}
		if i%911 == 0 {
			rep.sample(2, map[string]any{"docs": len(l.Docs), "queries": len(l.Qs)})
		}
	})
	if n == 0 {
		die("no indices")
	}
}

type wideLine struct {
	N int   `json:"n"`
	W int   `json:"w"`
	Q []int `json:"q"`
	L []int `json:"l"`
}

// cmdEnginesWide: documents with very many tokens.
func cmdEnginesWide() {
	var e *engIndex
	n := 0
	lines(*fIn, func(b []byte) {
		var l wideLine
		if err := json.Unmarshal(b, &l); err != nil {
			die("wide line: %v", err)
		}
		n++
		if e == nil {
			var docs []Doc
			rng := rand.New(rand.NewSource(*fSeed))
			for i := 1; i <= l.N; i++ {
				d := Doc{ID: i, Raw: i}
				for t := i; t <= l.W; t += i {
					d.Toks = append(d.Toks, t)
				}
				rng.Shuffle(len(d.Toks), func(a, b int) { d.Toks[a], d.Toks[b] = d.Toks[b], d.Toks[a] })
				docs = append(docs, d)
			}
			e = newEngIndex(docs, *fSeed+int64(l.N), "table", nil)
		}
		m := map[string][]string{}
		fail := func(p, f string, a ...any) {
			m[p] = append(m[p], fmt.Sprintf("%d documents of up to %d tokens: ", l.N, l.W)+fmt.Sprintf(f, a...))
		}
		var want [][2]int
		for _, i := range l.L {
			want = append(want, [2]int{i, i})
		}
		for _, x := range []string{"hits", "linear"} {
			got, pan := e.rows(l.Q, x)
			if pan != "" {
				fail("C10", "%s search panics: %s", x, pan)
				continue
			}
			engRows(fail, x, l.Q, want, got, len(l.Q))
			rep.count("queries", 1)
		}
		if len(l.Q) == 1 {
			e.capture(func(ix visigoth.Indexer) {
				if !samePos(l.L, ix.Indexed(e.token(l.Q[0]))) {
					fail("C12", "token %d: positions %v expected, got %v", l.Q[0], minus1(l.L), ix.Indexed(e.token(l.Q[0])))
				}
			})
		}
		for _, p := range propsOf(m) {
			rep.violation(Violation{p, m[p][0], m[p][1:], map[string]any{"n": l.N, "w": l.W, "query": l.Q}})
		}
	})
	if n == 0 {
		die("no queries")
	}
}

type bigLine struct {
	N    int   `json:"n"`
	Toks []int `json:"toks"`
	NID  int   `json:"nid"`
	Mul  int   `json:"mul"`
	Q    []int `json:"q"`
	Long int   `json:"long"`
	L    []int `json:"l"`
	H    []int `json:"h"`
}

// bigHolds is Holds of EnginesBig.tla.
func bigHolds(t, i, n int) bool {
	switch {
	case t < 10000:
		return i%t == 0
	case t < 20000:
		return i%(t-10000) != 0
	case t < 30000:
		return i <= t-20000
	}
	return i > n-(t-30000)
}

func cmdEnginesBig() {
	cache := map[int]*engIndex{}
	n := 0
	lines(*fIn, func(b []byte) {
		i := n
		n++
		if i%*fShards != *fShard {
			return
		}
		var l bigLine
		if err := json.Unmarshal(b, &l); err != nil {
			die("big line: %v", err)
		}
		e := cache[l.N]
		if e == nil {
			var docs []Doc
			brng := rand.New(rand.NewSource(*fSeed + int64(l.N)))
			for k := 1; k <= l.N; k++ {
				d := Doc{ID: (k * l.Mul) % l.NID, Raw: k}
				for _, t := range l.Toks {
					if bigHolds(t, k, l.N) {
						d.Toks = append(d.Toks, t)
					}
				}
				switch brng.Intn(3) { // some again
				case 0:
					d.Toks = append(d.Toks, d.Toks...)
				case 1:
					if len(d.Toks) > 0 {
						for r := 1 + brng.Intn(2); r > 0; r-- {
							d.Toks = append(d.Toks, d.Toks[brng.Intn(len(d.Toks))])
						}
					}
				}
				brng.Shuffle(len(d.Toks), func(a, b int) { d.Toks[a], d.Toks[b] = d.Toks[b], d.Toks[a] })
				docs = append(docs, d)
			}
			e = newEngIndex(docs, *fSeed+int64(l.N), "table", nil)
			cache[l.N] = e
			kept := map[string]int{}
			for _, r := range e.ix.Search("", visigoth.NoopAllSearch) {
				kept[r.Document.Raw()]++
			}
			for k, raw := range e.raws {
				if kept[raw]--; kept[raw] < 0 {
					rep.violation(Violation{"C02", fmt.Sprintf("of %d documents put to an index, the document %d is not in it", l.N, k+1), nil, map[string]any{"n": l.N}})
					break
				}
			}
			rep.count("stored", l.N)
		}
		m := map[string][]string{}
		fail := func(p, f string, a ...any) {
			m[p] = append(m[p], fmt.Sprintf("%d documents: ", l.N)+fmt.Sprintf(f, a...))
		}
		rng := rand.New(rand.NewSource(*fSeed + int64(i)))
		long := make([]int, l.Long)
		for k := range long {
			long[k] = l.Q[rng.Intn(len(l.Q))]
		}
		copy(long, l.Q)
		qs := [][]int{l.Q, long}
		for k := 0; k < 2 && len(l.Q) > 1; k++ { // in other orders
			o := append([]int(nil), l.Q...)
			if k == 0 {
				sort.Sort(sort.Reverse(sort.IntSlice(o)))
			} else {
				rng.Shuffle(len(o), func(a, b int) { o[a], o[b] = o[b], o[a] })
			}
			qs = append(qs, o)
		}
		pair := func(l2 []int) (r [][2]int) {
			for _, k := range l2 {
				r = append(r, [2]int{(k * l.Mul) % l.NID, k})
			}
			return
		}
		for _, q := range qs {
			for _, x := range []struct {
				n    string
				want [][2]int
			}{{"hits", pair(l.H)}, {"linear", pair(l.L)}} {
				got, pan := e.rows(q, x.n)
				if pan != "" {
					fail("C10", "%s search panics: %s", x.n, pan)
					continue
				}
				engRows(fail, x.n, q, x.want, got, len(q))
				if len(m) == 0 && l.N < 5000 && e.scribble(q) {
					got, _ := e.rows(q, x.n)
					engRows(func(p, f string, a ...any) { fail("C13", "an engine overwrote its tokens: "+f, a...) }, x.n, q, x.want, got, len(q))
				}
				rep.count("queries", 1)
			}
		}
		if len(l.Q) == 1 {
			e.capture(func(ix visigoth.Indexer) {
				got := ix.Indexed(e.token(l.Q[0]))
				if !samePos(l.L, got) {
					fail("C12", "token %d: wrong positions", l.Q[0])
				} else {
					for k := range got {
						got[k] = -1
					}
					got = append(got, -1)
					if !samePos(l.L, ix.Indexed(e.token(l.Q[0]))) {
						fail("C13", "token %d: other positions after the reader overwrote those it was given", l.Q[0])
					}
				}
				if ix.Len() != l.N {
					fail("C12", "%d positions", ix.Len())
				}
			})
		}
		for _, p := range propsOf(m) {
			rep.violation(Violation{p, m[p][0], m[p][1:], map[string]any{"n": l.N, "query": l.Q}})
		}
	})
	if n == 0 {
		die("no indices")
	}
}
