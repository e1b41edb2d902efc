package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"unicode"

	"github.com/kljensen/snowball/spanish"
	"github.com/sonirico/visigoth"
)

type anTerm struct {
	C []int    `json:"c"`
	O []string `json:"o"`
}
type anFilter struct {
	F   string   `json:"f"`
	Set []anTerm `json:"set"`
}
type anLine struct {
	Text  []int      `json:"text"`
	Preds [][]int    `json:"preds"`
	Fs    []anFilter `json:"fs"`
	Log   [][]anTerm `json:"log"`
}

// lower and upper forms, one to one
var letterPairs = [][2]string{{"a", "A"}, {"b", "B"}, {"o", "O"}, {"s", "S"}, {"z", "Z"}, {"i", "I"}, {"e", "E"},
	{"ñ", "Ñ"}, {"á", "Á"}, {"ü", "Ü"}, {"ç", "Ç"}, {"é", "É"}, {"ж", "Ж"}, {"σ", "Σ"}, {"ÿ", "Ÿ"}, {"ⱥ", "Ⱥ"}, {"ɐ", "Ɐ"},
	{"ǆ", "Ǆ"}, {"\U00010428", "\U00010400"}, {"ա", "Ա"}, {"ｘ", "Ｘ"}, {"đ", "Đ"}}
var numberPool = []string{"0", "1", "7", "9", "٣", "½", "²", "〇", "߃", "७", "①", "\U0001D7D8"}
var caselessPool = []string{"日", "ا", "ª", "ʰ", "ㅎ", "ก", "א", "\U00020000", "々", "ヶ"}
var sepPool = []string{" ", "\t", "\n", ".", ",", "-", "_", "@", "#", "+", "\u0301", "€", "\x00", "\ufffd", "😀", "\u200d", "\u00a0", "\u2028", "·", "'", "’", "\"", "%", "/", "\\", "|", "~", "\x7f", "\u20e3", "＿", "\ue000", "ः"}

type anConc struct {
	of    map[int]string
	class map[rune]int
}

// pieces of Spanish words: with them letters stand for whole syllables, so that
// the stemmer has something to do
var syllables = []string{"a", "ci", "ón", "es", "mente", "ar", "or", "os", "gat", "niñ", "iendo", "log", "ía", "adora", "ist", "ible", "per", "que", "güe", "s", "yendo", "ido", "amos", "ll", "nación", "libr", "idad", "selo", "ísimo", "x",
	// words the stemmer leaves alone or not, according to its setting
	"estaban", "nosotros", "tuvimos", "nuestras", "estamos", "hubiera", "también"}

// injective reports whether different uninterpreted tokens look different.
func (a *anConc) injective(l anLine) bool {
	seen := map[string]string{}
	ok := true
	see := func(t anTerm) {
		k := fmt.Sprint(t.C)
		s := a.str(t.C, nil)
		if o, dup := seen[s]; dup && o != k {
			ok = false
		}
		seen[s] = k
	}
	for _, ts := range l.Log {
		for _, t := range ts {
			see(t)
		}
	}
	for _, f := range l.Fs {
		for _, t := range f.Set {
			see(t)
		}
	}
	return ok
}

func newAnConc(rng *rand.Rand, l anLine) *anConc {
	if rng.Intn(2) == 0 {
		return newAnConc1(rng)
	}
	a := newAnConc1(rng)
	plain := *a
	b := &anConc{of: map[int]string{}, class: map[rune]int{}}
	p := rng.Perm(len(syllables))
	for c, s := range a.of {
		if c < 30 {
			s = syllables[p[c%10]]
			if c >= 20 {
				s = strings.ToUpper(s)
			}
		}
		b.of[c] = s
		for _, r := range s {
			b.class[r] = c / 10
		}
	}
	if b.injective(l) {
		return b
	}
	return &plain
}

func newAnConc1(rng *rand.Rand) *anConc {
	a := &anConc{of: map[int]string{}, class: map[rune]int{}}
	put := func(code int, s string) {
		a.of[code] = s
		for _, r := range s {
			a.class[r] = code / 10
		}
	}
	p := rng.Perm(len(letterPairs))
	for k := 0; k < 4; k++ {
		put(10+k, letterPairs[p[k]][0])
		put(20+k, letterPairs[p[k]][1])
	}
	p = rng.Perm(len(numberPool))
	for k := 0; k < 4; k++ {
		put(30+k, numberPool[p[k]])
	}
	p = rng.Perm(len(caselessPool))
	for k := 0; k < 4; k++ {
		put(40+k, caselessPool[p[k]])
	}
	p = rng.Perm(len(sepPool))
	for k := 0; k < 12; k++ {
		put((5+k/4)*10+k%4, sepPool[p[k]])
	}
	if rng.Intn(25) == 0 {
		// very long words
		k := rng.Intn(4)
		n := []int{300, 5000, 40000}[rng.Intn(3)]
		a.of[10+k], a.of[20+k] = strings.Repeat(a.of[10+k], n), strings.Repeat(a.of[20+k], n)
	}
	return a
}

func (a *anConc) str(cs []int, invalid *rand.Rand) string {
	var b strings.Builder
	for _, c := range cs {
		if invalid != nil && c/10 == 5 && invalid.Intn(6) == 0 {
			b.WriteString([]string{"\xff", "\xc3", "\xed\xa0\x80", "\xf0\x9f"}[invalid.Intn(4)])
			continue
		}
		b.WriteString(a.of[c])
	}
	return b.String()
}

func stemOracle(tok string, stop bool) string { return spanish.Stem(tok, stop) }

// lowerOracle lower-cases one character at a time, as the alphabet defines.
func (a *anConc) term(t anTerm) string {
	s := a.str(t.C, nil)
	for _, o := range t.O {
		switch o {
		case "lower":
			s = strings.ToLower(s)
		case "stem0":
			s = stemOracle(s, false)
		case "stem1":
			s = stemOracle(s, true)
		case "mark1", "mark2":
			s += "<" + o[4:]
		}
	}
	return s
}

func (a *anConc) terms(ts []anTerm) []string {
	r := make([]string, len(ts))
	for i, t := range ts {
		r[i] = a.term(t)
	}
	return r
}

// filters of the harness
type fnFilter func([]string) []string

func (f fnFilter) Filter(t []string) []string { return f(t) }

type anRec struct {
	ref  []string // the slice itself
	copy []string
}

// filter builds the filter of one step.
func (a *anConc) filter(f anFilter) (visigoth.Filter, visigoth.StopWords) {
	switch f.F {
	case "lower":
		return visigoth.NewLowerCaseTokenizer(), nil
	case "stop":
		sw := visigoth.StopWords{}
		for _, t := range f.Set {
			sw[a.term(t)] = struct{}{}
		}
		return visigoth.NewStopWordsFilter(sw), sw
	case "stem0":
		return visigoth.NewSpanishStemmer(false), nil
	case "stem1":
		return visigoth.NewSpanishStemmer(true), nil
	case "mark1", "mark2":
		return fnFilter(func(t []string) []string {
			var r []string
			for _, s := range t {
				r = append(r, s+"<"+f.F[4:])
			}
			return r
		}), nil
	case "dup":
		return fnFilter(func(t []string) []string {
			var r []string
			for _, s := range t {
				r = append(r, s, s)
			}
			return r
		}), nil
	case "rev":
		return fnFilter(func(t []string) []string {
			var r []string
			for i := range t {
				r = append(r, t[len(t)-1-i])
			}
			return r
		}), nil
	case "first":
		return fnFilter(func(t []string) []string {
			if len(t) == 0 {
				return nil
			}
			return t[:1]
		}), nil
	}
	return fnFilter(func(t []string) []string { return t }), nil
}

func (a *anConc) tokenizer(preds [][]int, builtin bool) visigoth.Tokenizer {
	if builtin {
		return visigoth.NewKeepAlphanumericTokenizer()
	}
	one := func(p []int) func(rune) bool {
		return func(r rune) bool {
			for _, c := range p {
				if a.class[r] == c {
					return true
				}
			}
			return false
		}
	}
	// the predicate type is not exported: a few arities cover all
	switch len(preds) {
	case 0:
		t := visigoth.NewCleanTokenizer()
		return &t
	case 1:
		t := visigoth.NewCleanTokenizer(one(preds[0]))
		return &t
	case 2:
		t := visigoth.NewCleanTokenizer(one(preds[0]), one(preds[1]))
		return &t
	case 3:
		t := visigoth.NewCleanTokenizer(one(preds[0]), one(preds[1]), one(preds[2]))
		return &t
	}
	die("too many predicates")
	return nil
}

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func fnames(fs []anFilter) string {
	var l []string
	for _, f := range fs {
		l = append(l, f.F)
	}
	return strings.Join(l, ",")
}

func anCheck(l anLine, seed int64) (out []string) {
	fail := func(f string, x ...any) {
		if len(out) < 6 {
			out = append(out, fmt.Sprintf(f, x...))
		}
	}
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	rng := rand.New(rand.NewSource(seed))
	a := newAnConc(rng, l)
	alnum := len(l.Preds) == 1 && sameInts(l.Preds[0], []int{1, 2, 3, 4})
	// bytes that are no character, where no predicate keeps those
	inv := rng
	for _, p := range l.Preds {
		for _, c := range p {
			if c == 5 || c == a.class['\ufffd'] {
				inv = nil
			}
		}
	}
	text := a.str(l.Text, inv)
	exp := make([][]string, len(l.Log))
	for i, ts := range l.Log {
		exp[i] = a.terms(ts)
	}
	builtins := []bool{false}
	if alnum {
		builtins = []bool{true, false}
	}
	for _, bi := range builtins {
		got := a.tokenizer(l.Preds, bi).Tokenize(text)
		if !sameStrs(got, exp[0]) {
			fail("tokenizing %q (classes kept %v, built in %v): expected %q, got %q", text, l.Preds, bi, exp[0], got)
			return
		}
	}
	// each filter alone, on an input with room behind it
	for i, f := range l.Fs {
		flt, sw := a.filter(f)
		in := make([]string, len(exp[i]), len(exp[i])+4)
		copy(in, exp[i])
		room := in[:cap(in)]
		for k := len(in); k < cap(in); k++ {
			room[k] = "room"
		}
		n := len(sw)
		got := flt.Filter(in)
		if !sameStrs(got, exp[i+1]) {
			fail("filter %s on %q: expected %q, got %q", f.F, exp[i], exp[i+1], got)
			return
		}
		for k := range got {
			got[k] = strings.Clone(got[k])
		}
		if !sameStrs(in, exp[i]) {
			fail("filter %s changed its input %q into %q", f.F, exp[i], in)
		}
		for k := len(in); k < cap(in); k++ {
			if room[k] != "room" {
				fail("filter %s wrote behind its input", f.F)
			}
		}
		if len(sw) != n {
			fail("filter %s changed its word list", f.F)
		}
		// filters of other settings, given the same
		for _, stop := range []bool{true, false} {
			var want []string
			for _, t := range exp[i] {
				want = append(want, stemOracle(t, stop))
			}
			if got := visigoth.NewSpanishStemmer(stop).Filter(in); !sameStrs(got, want) {
				fail("stemmer(%v) on %q: expected %q, got %q", stop, exp[i], want, got)
			}
		}
		if got := visigoth.NewStopWordsFilter(visigoth.StopWords{}).Filter(in); !sameStrs(got, exp[i]) {
			fail("no stop words on %q: got %q", exp[i], got)
		}
		if len(in) > 0 {
			var want []string
			for _, t := range exp[i] {
				if t != in[0] {
					want = append(want, t)
				}
			}
			if got := visigoth.NewStopWordsFilter(visigoth.StopWords{in[0]: {}}).Filter(in); !sameStrs(got, want) {
				fail("stop word %q on %q: expected %q, got %q", in[0], exp[i], want, got)
			}
		}
		if again := flt.Filter(in); !sameStrs(again, exp[i+1]) {
			fail("filter %s on %q, again: expected %q, got %q", f.F, exp[i], exp[i+1], again)
		}
	}
	// the pipeline, plain and with recorders between its filters
	want := exp[len(exp)-1]
	for _, rec := range []bool{false, true} {
		var recs []*anRec
		var fs []visigoth.Filter
		add := func() {
			if rec {
				fs = append(fs, fnFilter(func(t []string) []string {
					recs = append(recs, &anRec{t, append([]string(nil), t...)})
					return t
				}))
			}
		}
		add()
		for _, f := range l.Fs {
			flt, _ := a.filter(f)
			fs = append(fs, flt)
			add()
		}
		p := visigoth.NewTokenizationPipeline(a.tokenizer(l.Preds, alnum && rng.Intn(2) == 0), fs...)
		var first []string
		for r := 0; r < 2; r++ {
			recs = nil
			got := p.Tokenize(text)
			if r == 0 {
				first = got
			} else if !sameStrs(first, want) {
				fail("pipeline [%s]: its output %q for %q became %q while it analysed other texts", fnames(l.Fs), want, text, first)
			}
			if !sameStrs(got, want) {
				fail("pipeline [%s] on %q (run %d): expected %q, got %q", fnames(l.Fs), text, r+1, want, got)
				return
			}
			for i, x := range recs {
				if i < len(exp) && !sameStrs(x.copy, exp[i]) {
					fail("pipeline [%s] on %q: after %d filters expected %q, got %q", fnames(l.Fs), text, i, exp[i], x.copy)
				}
				if !sameStrs(x.ref, x.copy) {
					fail("pipeline [%s] on %q: the output of filter %d was changed later: %q to %q", fnames(l.Fs), text, i, x.copy, x.ref)
				}
			}
			if rec && len(recs) != len(exp) {
				fail("pipeline [%s]: %d of %d filters ran", fnames(l.Fs), len(recs), len(exp))
			}
			if r == 0 {
				// other work between the two runs
				p.Tokenize(a.str([]int{11, 51, 21, 31, 53, 41, 12}, nil))
			}
		}
	}
	// from several goroutines at once
	if rng.Intn(30) == 0 {
		var fs []visigoth.Filter
		for _, f := range l.Fs {
			flt, _ := a.filter(f)
			fs = append(fs, flt)
		}
		p := visigoth.NewTokenizationPipeline(a.tokenizer(l.Preds, alnum), fs...)
		other := a.str([]int{11, 51, 21, 31, 53, 41, 12}, nil)
		wantOther := p.Tokenize(other)
		errs := make(chan string, 8)
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs <- fmt.Sprint("panic: ", r)
					}
				}()
				for k := 0; k < 25; k++ {
					t, w := text, want
					if (k+g)%2 == 0 {
						t, w = other, wantOther
					}
					if got := p.Tokenize(t); !sameStrs(got, w) {
						errs <- fmt.Sprintf("expected %q, got %q", w, got)
						return
					}
				}
			}()
		}
		wg.Wait()
		rep.count("concurrent", 1)
		select {
		case m := <-errs:
			fail("pipeline [%s] used by four goroutines at once: %s", fnames(l.Fs), m)
		default:
		}
	}
	// the text many times over
	wise := len(l.Text) > 0 && len(text) < 5000 && rng.Intn(8) == 0
	for _, f := range l.Fs {
		wise = wise && f.F != "rev" && f.F != "first"
	}
	sep := a.of[50]
	for _, p := range l.Preds {
		for _, c := range p {
			wise = wise && c != 5 && c != a.class[[]rune(sep)[0]]
		}
	}
	if wise {
		n := []int{2, 40, 300, 1500}[rng.Intn(4)]
		var fs []visigoth.Filter
		for _, f := range l.Fs {
			flt, _ := a.filter(f)
			fs = append(fs, flt)
		}
		var long []string
		for i := 0; i < n; i++ {
			long = append(long, want...)
		}
		p := visigoth.NewTokenizationPipeline(a.tokenizer(l.Preds, alnum && rng.Intn(2) == 0), fs...)
		if got := p.Tokenize(strings.Repeat(text+sep, n)); !sameStrs(got, long) {
			fail("pipeline [%s] on %d times %q: expected %d tokens %.300q, got %d %.300q", fnames(l.Fs), n, text, len(long), long, len(got), got)
		}
	}
	// a pipeline is a tokenizer: split it in two
	if k := len(l.Fs); k > 0 {
		var f1, f2 []visigoth.Filter
		cut := rng.Intn(k + 1)
		for i, f := range l.Fs {
			flt, _ := a.filter(f)
			if i < cut {
				f1 = append(f1, flt)
			} else {
				f2 = append(f2, flt)
			}
		}
		p := visigoth.NewTokenizationPipeline(visigoth.NewTokenizationPipeline(a.tokenizer(l.Preds, false), f1...), f2...)
		if got := p.Tokenize(text); !sameStrs(got, want) {
			fail("nested pipeline [%s] on %q: expected %q, got %q", fnames(l.Fs), text, want, got)
		}
	}
	return
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// runeClass is the class of a character.
func runeClass(r rune) int {
	switch {
	case unicode.IsNumber(r) && unicode.ToLower(r) != r:
		return 2 // Roman numerals have case
	case unicode.IsLetter(r):
		if unicode.ToLower(r) != r {
			return 2
		}
		if unicode.ToUpper(r) != r {
			return 1
		}
		return 4
	case unicode.IsNumber(r):
		return 3
	}
	return 5
}

// sweep realises the middle character of a line by every character there is.
func sweep(l anLine) {
	c := l.Text[1]
	tk := visigoth.NewKeepAlphanumericTokenizer()
	lo := visigoth.NewLowerCaseTokenizer()
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if r >= 0xd800 && r < 0xe000 || int(r)%*fShards != *fShard || runeClass(r) != c/10 {
			continue
		}
		a := &anConc{of: map[int]string{11: "a", 12: "b", c: string(r)}, class: map[rune]int{}}
		if c == 11 {
			a.of[11] = string(r)
		}
		if c == 21 {
			a.of[11] = string(unicode.ToLower(r))
		}
		rep.count("characters", 1)
		text := a.str(l.Text, nil)
		got := tk.Tokenize(text)
		if want := a.terms(l.Log[0]); !sameStrs(got, want) {
			rep.violation(Violation{"C14", fmt.Sprintf("tokenizing %+q: expected %+q, got %+q", text, want, got), nil, nil})
			continue
		}
		if want, got := a.terms(l.Log[1]), lo.Filter(got); !sameStrs(got, want) {
			rep.violation(Violation{"C14", fmt.Sprintf("lower-casing the tokens of %+q: expected %+q, got %+q", text, want, got), nil, nil})
		}
	}
}

// cmdAnalyze compares tokenizers, filters and pipelines with Analyze.tla.
func cmdAnalyze() {
	n := 0
	lines(*fIn, func(b []byte) {
		i := n
		n++
		if i%*fShards != *fShard && *fMode != "sweep" {
			return
		}
		var l anLine
		if err := json.Unmarshal(b, &l); err != nil {
			die("analyze line: %v: %.300s", err, b)
		}
		if *fMode == "sweep" {
			sweep(l)
			return
		}
		for r := 0; r < *fReps; r++ {
			seed := *fSeed*104729 + int64(i)*17 + int64(r)
			rep.count("texts", 1)
			if m := anCheck(l, seed); len(m) > 0 {
				m2 := anCheck(l, seed)
				for k := 0; k < 20 && len(m2) == 0; k++ {
					m2 = anCheck(l, seed)
				}
				if len(m2) == 0 {
					rep.count("unconfirmed", 1)
					continue
				}
				rep.violation(Violation{"C14", short(m[0], 600), m[1:], map[string]any{"line": l, "seed": seed}})
			}
		}
		if i%1009 == 0 {
			rep.sample(2, map[string]any{"text": l.Text, "filters": fnames(l.Fs)})
		}
	})
	if n == 0 {
		die("no texts")
	}
}
