package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/sonirico/visigoth"
)

type dumpRow struct {
	ID  int `json:"id"`
	Raw int `json:"raw"`
}
type dumpShow struct {
	Form struct {
		Indexed  []dumpRow `json:"indexed"`
		Inverted []struct {
			T int   `json:"t"`
			P []int `json:"p"`
		} `json:"inverted"`
	} `json:"form"`
	Found []Row `json:"found"`
	Hits  []Row `json:"hits"`
}
type dumpLine struct {
	I    int        `json:"i"`
	K    string     `json:"k"`
	S    int        `json:"s"`
	D    Doc        `json:"d"`
	Q    []int      `json:"q"`
	NTok int        `json:"ntok"`
	Show []dumpShow `json:"show"`
}

// barTok takes the parts of a text between bars for its tokens.
type barTok struct{}

func (barTok) Tokenize(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, "|")
}

// strings that are valid UTF-8 and need care in a JSON text
var dumpJunk = []string{"", " ", "a", "A", "null", "\"", "\\", "\\u0041", "</script>", "&", "\u2028", "\x00", "\x1f", "\x7f", "ñ", "n\u0303", "\U0001F600", "{}", "[]", ",", ":",
	"indexed", "inverted", "id", "raw", "\ufeff", "\ufffd", "0", "-1", "%s", "[token=x,length=(1)]=[0]", strings.Repeat("largo ", 3000), "\r\n", "'", "\t"}

type dumpConc struct {
	toks, ids []string
	raws      map[int]string
	rng       *rand.Rand
}

func (c *dumpConc) text(q []int) string {
	var p []string
	for _, t := range q {
		p = append(p, c.toks[t-1])
	}
	return strings.Join(p, "|")
}

func (c *dumpConc) raw(n int) string {
	if s, ok := c.raws[n]; ok {
		return s
	}
	s := dumpJunk[c.rng.Intn(len(dumpJunk))]
	if c.rng.Intn(3) > 0 {
		s += fmt.Sprint(" ", n)
	}
	c.raws[n] = s
	return s
}

// dumpForm compares the JSON form of an index with the specification's.
func dumpForm(c *dumpConc, b []byte, x dumpShow) string {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var top map[string]json.RawMessage
	if err := dec.Decode(&top); err != nil {
		return fmt.Sprintf("the JSON form does not decode: %v: %.100s", err, b)
	}
	if len(top) != 2 || top["indexed"] == nil || top["inverted"] == nil {
		return fmt.Sprintf("the JSON form has the fields %v", sortedKeys(top))
	}
	var docs []map[string]any
	if err := json.Unmarshal(top["indexed"], &docs); err != nil {
		return fmt.Sprintf("indexed: %v", err)
	}
	if len(docs) != len(x.Form.Indexed) {
		return fmt.Sprintf("indexed has %d documents instead of %d", len(docs), len(x.Form.Indexed))
	}
	for i, d := range docs {
		w := x.Form.Indexed[i]
		if len(d) != 2 || d["id"] != any(c.ids[w.ID-1]) || d["raw"] != any(c.raw(w.Raw)) {
			return fmt.Sprintf("document %d is written as %.150v", i, d)
		}
	}
	var inv map[string][]int
	if err := json.Unmarshal(top["inverted"], &inv); err != nil {
		return fmt.Sprintf("inverted: %v", err)
	}
	for _, e := range x.Form.Inverted {
		got, ok := inv[c.toks[e.T-1]]
		delete(inv, c.toks[e.T-1])
		same := ok && len(got) == len(e.P)
		for i := 0; same && i < len(got); i++ {
			same = got[i] == e.P[i]-1
		}
		if !same {
			return fmt.Sprintf("token %.40q is written with the positions %v instead of %v (counted from 1)", c.toks[e.T-1], got, e.P)
		}
	}
	for t, p := range inv {
		if len(p) > 0 {
			return fmt.Sprintf("token %.40q of no document is written", t)
		}
	}
	return ""
}

// dumpString compares the textual form.
func dumpString(c *dumpConc, name, s string, x dumpShow) string {
	want := []string{"{\n\tname=" + name, "\n}"}
	for _, e := range x.Form.Inverted {
		p := make([]int, len(e.P))
		for i := range p {
			p[i] = e.P[i] - 1
		}
		want = append(want, fmt.Sprintf("\n\t[token=%s,length=(%d)]=%v", c.toks[e.T-1], len(p), p))
	}
	n := 0
	for _, w := range want {
		n += len(w)
		if !strings.Contains(s, w) {
			return fmt.Sprintf("the textual form lacks %.80q", w)
		}
	}
	if n != len(s) || !strings.HasPrefix(s, want[0]) || !strings.HasSuffix(s, want[1]) {
		return fmt.Sprintf("the textual form has %d bytes instead of %d: %.200q", len(s), n, s)
	}
	return ""
}

// dumpAnswers compares what the engines find.
func dumpAnswers(c *dumpConc, mi visigoth.Index, q []int, x dumpShow) string {
	rows := func(e visigoth.Engine) (out []visigoth.SearchResult) {
		for _, r := range mi.Search(c.text(q), e) {
			out = append(out, r)
		}
		return
	}
	cmp := func(what string, got []visigoth.SearchResult, want []Row) string {
		same := len(got) == len(want)
		for i := 0; same && i < len(got); i++ {
			same = got[i] == visigoth.SearchResult{Document: visigoth.NewDoc(c.ids[want[i].ID-1], c.raw(want[i].Raw)), Hits: want[i].Hits}
		}
		if !same {
			return fmt.Sprintf("%s search of %v: expected %d rows %v, got %.300v", what, q, len(want), want, got)
		}
		return ""
	}
	var all []Row
	for _, d := range x.Form.Indexed {
		all = append(all, Row{d.ID, d.Raw, 0})
	}
	for _, s := range []string{cmp("all", rows(visigoth.NoopAllSearch), all), cmp("linear", rows(visigoth.LinearSearch), x.Found), cmp("hits", rows(visigoth.HitsSearch), x.Hits)} {
		if s != "" {
			return s
		}
	}
	return ""
}

func dumpWalk(ls []dumpLine, seed int64) (bad []string, at int, other bool) {
	rng := rand.New(rand.NewSource(seed))
	c := &dumpConc{raws: map[int]string{}, rng: rng}
	p := rng.Perm(len(dumpJunk))
	for _, i := range p {
		if s := dumpJunk[i]; s != "" {
			c.toks = append(c.toks, s)
		}
	}
	for len(c.toks) < ls[0].NTok {
		c.toks = append(c.toks, fmt.Sprint("tok", len(c.toks)))
	}
	ids := append([]string(nil), dumpJunk...)
	for i := 0; i < 5; i++ {
		ids = append(ids, fmt.Sprint("doc-", i))
	}
	perm := rng.Perm(len(ids))[:12]
	for _, i := range perm {
		c.ids = append(c.ids, ids[i])
	}
	// the specification's identifiers are ordered
	sort.Strings(c.ids)
	n := len(ls[0].Show)
	mis := make([]*visigoth.MemoryIndex, n)
	names := make([]string, n)
	fresh := make([]bool, n) // never read from a written form
	for i := range mis {
		names[i] = dumpJunk[rng.Intn(len(dumpJunk))]
		mis[i] = visigoth.NewMemoryIndex(names[i], barTok{})
		fresh[i] = true
	}
	saved, _ := json.Marshal(visigoth.NewMemoryIndex("", barTok{}))
	for i, l := range ls {
		s := l.S - 1
		switch l.K {
		case "put":
			mis[s].Put(visigoth.NewDocRequestWith(c.ids[l.D.ID-1], c.raw(l.D.Raw), c.text(l.D.Toks)))
		case "save":
			b, err := json.Marshal(mis[s])
			if err != nil {
				return []string{fmt.Sprintf("no JSON form: %v", err)}, i, false
			}
			saved = b
		case "load":
			names[s] = dumpJunk[rng.Intn(len(dumpJunk))]
			mis[s] = visigoth.NewMemoryIndex(names[s], barTok{})
			fresh[s] = false
			if err := json.Unmarshal(saved, mis[s]); err != nil {
				return []string{fmt.Sprintf("the JSON form is not read back: %v", err)}, i, false
			}
		}
		for x := range mis {
			rep.count("looks", 1)
			// an index that was never written has other properties to answer for
			if d := dumpAnswers(c, mis[x], l.Q, l.Show[x]); d != "" {
				if fresh[x] && l.K == "put" {
					return nil, i, true
				}
				return []string{fmt.Sprintf("index %d: %s", x+1, d)}, i, false
			}
			before := mis[x].String()
			b, err := json.Marshal(mis[x])
			if err != nil {
				return []string{fmt.Sprintf("no JSON form: %v", err)}, i, false
			}
			for _, d := range []string{dumpForm(c, b, l.Show[x]), dumpString(c, names[x], before, l.Show[x]), dumpString(c, names[x], fmt.Sprint(mis[x]), l.Show[x]),
				dumpAnswers(c, mis[x], l.Q, l.Show[x])} {
				if d != "" {
					return []string{fmt.Sprintf("index %d: %s", x+1, d)}, i, false
				}
			}
		}
	}
	return nil, 0, false
}

func cmdDump() {
	var walks [][]dumpLine
	lines(*fIn, func(b []byte) {
		var l dumpLine
		if err := json.Unmarshal(b, &l); err != nil {
			die("dump line: %v: %.300s", err, b)
		}
		if l.I == 0 {
			walks = append(walks, nil)
		}
		walks[len(walks)-1] = append(walks[len(walks)-1], l)
	})
	if len(walks) == 0 {
		die("no walks")
	}
	run := func(ls []dumpLine, seed int64) (bad []string, at int, other bool) {
		defer func() {
			if r := recover(); r != nil {
				bad, at = []string{fmt.Sprintf("panic: %v", r)}, len(ls)-1
			}
		}()
		return dumpWalk(ls, seed)
	}
	for w, ls := range walks {
		if w%*fShards != *fShard {
			continue
		}
		for k := 0; k < *fReps; k++ {
			seed := *fSeed*100057 + int64(w)*16 + int64(k)
			rep.count("walks", 1)
			bad, at, other := run(ls, seed)
			if other {
				rep.count("not_by_form", 1)
			}
			if len(bad) == 0 {
				continue
			}
			for n := 0; n < 10; n++ {
				if again, _, _ := run(ls, seed); len(again) > 0 {
					var cs []string
					for _, l := range ls[:at+1] {
						cs = append(cs, fmt.Sprintf("%s(%d, id%d raw%d toks%v)", l.K, l.S, l.D.ID, l.D.Raw, l.D.Toks))
					}
					rep.violation(Violation{"C26", "the written form of an index is not what it holds", bad, map[string]any{"calls": cs, "seed": seed}})
					break
				}
			}
			break
		}
	}
}
