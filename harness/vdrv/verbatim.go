package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/sonirico/visigoth"
)

type vbReq struct {
	Ctor string `json:"ctor"`
	ID   []int  `json:"id"`
	C    []int  `json:"c"`
	S    []int  `json:"s"`
}
type vbLine struct {
	Reqs []vbReq `json:"reqs"`
	Qs   []struct {
		Q []int `json:"q"`
		M []int `json:"m"`
	} `json:"qs"`
}

// strings with no word of the vocabulary in them, to be kept byte for byte
var junk = []string{"", " ", "\x00", "\xff\xfe\xfd", "\r\n", "\ufeff", "e\u0301\u0327", "<b>&amp;</b>", "\\u0041 \\n", "\"}],", "{\"id\": null}", "\t\t  ", "%s%d%!", "\u2028\u2029", "\ud7ff\ue000\ufffd", "\xed\xa0\x80", "😀👩‍👩‍👧", "zzqx", "\u202eabz\u202c", "' OR 1=1 --", "../../zq", strings.Repeat("zq ", 2000), strings.Repeat("\x80", 70000), "\xc3", "ß ẞ İ ı ſ", "ñññ", "￿\U0010ffff", "\x7f\x1b[0m", "null"}

func vbText(rng *rand.Rand, words []string, toks []int, seps []string) string {
	if rng.Intn(4) == 0 {
		var ws []string
		for _, t := range toks {
			ws = append(ws, words[t-1])
		}
		return shaped(rng, ws)
	}
	var b strings.Builder
	j := func() {
		if rng.Intn(2) == 0 {
			b.WriteString(seps[rng.Intn(len(seps))])
			b.WriteString(junk[rng.Intn(len(junk))])
		}
		b.WriteString(seps[rng.Intn(len(seps))])
	}
	if len(toks) == 0 && rng.Intn(3) == 0 {
		return ""
	}
	if rng.Intn(2) == 0 {
		j()
	}
	for i, t := range toks {
		if i > 0 {
			j()
		}
		w := words[t-1]
		if rng.Intn(3) == 0 {
			w = strings.ToUpper(w)
		}
		b.WriteString(w)
	}
	if rng.Intn(2) == 0 {
		b.WriteString(seps[rng.Intn(len(seps))])
		j()
	}
	return b.String()
}

func vbCheck(l vbLine, seed int64) (out []string) {
	fail := func(f string, x ...any) {
		if len(out) < 6 {
			out = append(out, fmt.Sprintf(f, x...))
		}
	}
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	rng := rand.New(rand.NewSource(seed))
	words := []string{"java", "curso", "biblioteca", "2024"}
	if rng.Intn(2) == 0 {
		words = []string{"árbol", "ñandú", "x", "php8"}
	}
	fs := []visigoth.Filter{visigoth.NewLowerCaseTokenizer()}
	if rng.Intn(3) == 0 {
		fs = append(fs, visigoth.NewStopWordsFilter(visigoth.StopWords{"zzqx": {}, "de": {}}))
	}
	if rng.Intn(3) == 0 {
		fs = append(fs, visigoth.NewSpanishStemmer(true))
	}
	tk := visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer(), fs...)
	repo := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(tk))
	repo.Put("one", visigoth.NewDocRequest("seed", "zzzz"))
	repo.Put("two", visigoth.NewDocRequest("seed", "zzzz"))
	// texts that are long, of one length and differ only in the middle
	pre, post, mid := strings.Repeat("zq ", 100+rng.Intn(400)), strings.Repeat(" qz", 100+rng.Intn(400)), 100+rng.Intn(300)
	inside := func(s string) string {
		if rng.Intn(3) > 0 || len(s) > mid {
			return s
		}
		fill := []byte(strings.Repeat(" ", mid-len(s)))
		if len(fill) > 0 && rng.Intn(2) == 0 {
			fill[rng.Intn(len(fill))] = "\n\t.,"[rng.Intn(4)]
		}
		return pre + s + string(fill) + post
	}
	ends := rng.Intn(3) == 0
	if !ends {
		inside = func(s string) string { return s }
	}
	target := "one"
	if rng.Intn(2) == 0 {
		repo.Alias("al", "one")
		target = "al"
	}
	sp := []string{" ", "/", " - ", "\n", "\xff ", "\x00", "(", "__"}
	type pair struct{ id, raw string }
	var subm []pair
	for i, r := range l.Reqs {
		id := inside(vbText(rng, words, r.ID, sp))
		raw := inside(vbText(rng, words, r.C, sp))
		if i > 0 && rng.Intn(4) == 0 && sameInts(r.ID, l.Reqs[i-1].ID) {
			id = subm[i-1].id
		}
		if i > 0 && rng.Intn(6) == 0 && sameInts(r.C, l.Reqs[i-1].C) {
			raw = subm[i-1].raw
		}
		subm = append(subm, pair{strings.Clone(id), strings.Clone(raw)})
		var q visigoth.DocRequest
		switch r.Ctor {
		case "plain":
			q = visigoth.NewDocRequest(id, raw)
		case "with":
			q = visigoth.NewDocRequestWith(id, raw, vbText(rng, words, r.S, sp))
			if rng.Intn(3) == 0 {
				q.MimeType = visigoth.MimeType(rng.Intn(256))
			}
		case "mime1":
			q = visigoth.NewDocRequestWithMime(id, raw, visigoth.MimeText)
		default:
			q = visigoth.NewDocRequestWithMime(id, raw, []visigoth.MimeType{visigoth.MimeJSON, 0, 255}[rng.Intn(3)])
		}
		if q.ID() != id || q.Raw() != raw || q.Name != id || q.Content != raw {
			fail("a %s request made of %q and %q says it has identifier %q and content %q", r.Ctor, id, raw, q.ID(), q.Raw())
		}
		repo.Put(target, q)
	}
	check := func(what, name string, e visigoth.Engine, text string, want []int) {
		st, err := repo.Search(name, text, e)
		if err != nil {
			fail("%s: %v", what, err)
			return
		}
		var got, exp []string
		for st.Next() {
			r := st.Data()
			d := r.Document
			if r.Doc() != d || r.GetDoc() != d || r.GetHits() != r.Hits || d.Name != d.ID() || d.Content != d.Raw() {
				fail("%s: a result shows different documents: %q %q %q", what, d, r.Doc(), r.GetDoc())
			}
			if d.ID() == "seed" {
				continue
			}
			got = append(got, fmt.Sprintf("%q: %q", d.ID(), d.Raw()))
		}
		for _, i := range want {
			exp = append(exp, fmt.Sprintf("%q: %q", subm[i-1].id, subm[i-1].raw))
		}
		sort.Strings(got)
		sort.Strings(exp)
		if !sameStrs(got, exp) {
			fail("%s: expected %s, got %s", what, short(strings.Join(exp, " | "), 400), short(strings.Join(got, " | "), 400))
		}
	}
	var every []int
	for i := range l.Reqs {
		every = append(every, i+1)
	}
	check("match-all", target, visigoth.NoopAllSearch, "", every)
	for _, q := range l.Qs {
		var ws []string
		for _, t := range q.Q {
			ws = append(ws, words[t-1])
		}
		text := strings.Join(ws, sp[rng.Intn(4)])
		if rng.Intn(4) == 0 {
			text = shaped(rng, ws)
		}
		for _, e := range []string{"hits", "linear"} {
			var desc []string
			for i, r := range l.Reqs {
				desc = append(desc, fmt.Sprintf("%s(id words %v, content words %v, text words %v)", r.Ctor, r.ID, r.C, r.S))
				if i > 2 {
					break
				}
			}
			check(fmt.Sprintf("%s search of words %v among %s", e, q.Q, strings.Join(desc, " ")), target, engine(e), text, q.M)
			rep.count("queries", 1)
		}
	}
	repo.Rename("one", "three")
	if target == "one" {
		target = "three"
	}
	check("match-all after a rename", target, visigoth.NoopAllSearch, "", every)
	return
}

// cmdVerbatim submits the requests of Verbatim.tla and compares what matches
// and what comes back.
func cmdVerbatim() {
	n := 0
	lines(*fIn, func(b []byte) {
		i := n
		n++
		if i%*fShards != *fShard {
			return
		}
		var l vbLine
		if err := json.Unmarshal(b, &l); err != nil {
			die("verbatim line: %v: %.300s", err, b)
		}
		for r := 0; r < *fReps; r++ {
			seed := *fSeed*32452843 + int64(i)*11 + int64(r)
			rep.count("request_lists", 1)
			if m := vbCheck(l, seed); len(m) > 0 {
				if m2 := vbCheck(l, seed); len(m2) == 0 {
					rep.count("unconfirmed", 1)
					continue
				}
				rep.violation(Violation{"C16", m[0], m[1:], map[string]any{"line": l, "seed": seed}})
			}
		}
		if i%499 == 0 {
			rep.sample(2, map[string]any{"requests": l.Reqs})
		}
	})
	if n == 0 {
		die("no requests")
	}
}
