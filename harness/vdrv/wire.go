package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/sonirico/visigoth"
)

type wNode struct {
	T string   `json:"t"`
	S int      `json:"s"`
	N int      `json:"n"`
	F []wField `json:"f"`
}
type wField struct {
	K string `json:"k"`
	V wNode  `json:"v"`
}
type wLine struct {
	V wNode `json:"v"`
	M struct {
		Err  bool `json:"err"`
		ID   int  `json:"id"`
		Raw  int  `json:"raw"`
		Hits int  `json:"hits"`
	} `json:"m"`
}

// valid UTF-8 of every kind
var wStrings = []string{"", "a", "el lenguaje java", `"`, `\`, `\\"`, `\u0041`, "\x00", "\x01\x02\x1f", "\n\r\t\b\f", "\x7f", "\u0080", "\u00a0", "ñandú", "日本語",
	"\u2028", "\u2029", "a\u2028b\u2029", "\ufeff", "\ufffd", "\uffff", "\ue000", "\ud7ff", "\U0001F600", "\U0010FFFF", "👩‍👩‍👧", "<script>&amp;</script>", "'", "/", "</",
	`{"doc":{"id":"x"}}`, `","raw":"`, "null", "true", "0", "[1]", " lead", "trail ", "\u202e", "e\u0301", strings.Repeat("x", 5000), strings.Repeat("é\"\\\n", 700),
	strings.Repeat("y", 127), strings.Repeat("y", 128), strings.Repeat("z", 511) + "\"", strings.Repeat("\u2028", 300), strings.Repeat("k", 70000), "\x00\x00", "a\x00b", "%s%!d", "\u007f\u0000é"}
var wInts = []int{0, 1, 2, 3, 7, 9, 10, 99, 100, 1 << 15, 1 << 16, 1<<31 - 1, 1 << 31, 1 << 32, 1<<53 + 1, math.MaxInt64 - 1, math.MaxInt64, 123456789012345678}

// strings the specification's decoder reads: any
func wRandString(rng *rand.Rand) string {
	if rng.Intn(2) == 0 {
		return wStrings[rng.Intn(len(wStrings))]
	}
	var b strings.Builder
	for k := rng.Intn(12); k >= 0; k-- {
		switch rng.Intn(6) {
		case 0:
			b.WriteString(wStrings[rng.Intn(len(wStrings)-14)])
		case 1:
			b.WriteRune(rune(rng.Intn(0x80)))
		case 2:
			b.WriteRune(rune(0x80 + rng.Intn(0x780)))
		case 3:
			r := rune(0x800 + rng.Intn(0xf7ff))
			if r >= 0xd800 && r < 0xe000 {
				r -= 0x1000
			}
			b.WriteRune(r)
		case 4:
			b.WriteRune(rune(0x10000 + rng.Intn(0x100000)))
		default:
			b.WriteString("abc")
		}
	}
	return b.String()
}

// wQuote writes a string as JSON, choosing freely among the ways to do so.
func wQuote(rng *rand.Rand, s string) string {
	var b strings.Builder
	style := rng.Intn(4) // 0 plain, 1 escape everything, 2.. mixed
	hex := "%04x"
	if rng.Intn(2) == 0 {
		hex = "%04X"
	}
	u := func(r rune) {
		if r >= 0x10000 {
			x, y := utf16.EncodeRune(r)
			fmt.Fprintf(&b, `\u`+hex+`\u`+hex, x, y)
			return
		}
		fmt.Fprintf(&b, `\u`+hex, r)
	}
	b.WriteByte('"')
	for _, r := range s {
		short := strings.IndexRune("\"\\/\b\f\n\r\t", r)
		if style == 1 || style > 1 && rng.Intn(3) == 0 {
			if short >= 0 && rng.Intn(2) == 0 {
				b.WriteByte('\\')
				b.WriteByte(`"\/bfnrt`[short])
			} else {
				u(r)
			}
			continue
		}
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < 0x20:
			if short >= 0 {
				b.WriteByte('\\')
				b.WriteByte(`"\/bfnrt`[short])
			} else {
				u(r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

type wWriter struct {
	rng *rand.Rand
	b   strings.Builder
	ws  int
}

func (w *wWriter) space() {
	if w.ws > 0 && w.rng.Intn(3) < w.ws {
		for k := w.rng.Intn(3); k >= 0; k-- {
			w.b.WriteByte(" \n\t\r"[w.rng.Intn(4)])
		}
	}
}

// any writes an arbitrary value.
func (w *wWriter) any(depth int) {
	r := w.rng
	switch k := r.Intn(8); {
	case k == 0:
		w.b.WriteString("null")
	case k == 1:
		w.b.WriteString([]string{"true", "false"}[r.Intn(2)])
	case k == 2:
		w.b.WriteString([]string{"0", "-1", "12", "1.5", "-0.25e+3", "1e400", "18446744073709551616", "2E-7"}[r.Intn(8)])
	case k <= 4 || depth == 0:
		w.b.WriteString(wQuote(r, wRandString(r)))
	case k == 5:
		w.b.WriteByte('[')
		for i, n := 0, r.Intn(4); i < n; i++ {
			if i > 0 {
				w.b.WriteByte(',')
			}
			w.space()
			w.any(depth - 1)
			w.space()
		}
		w.b.WriteByte(']')
	default:
		w.b.WriteByte('{')
		for i, n := 0, r.Intn(4); i < n; i++ {
			if i > 0 {
				w.b.WriteByte(',')
			}
			w.space()
			w.b.WriteString(wQuote(r, []string{"doc", "hits", "id", "raw", "", "}", "k", wStrings[r.Intn(20)]}[r.Intn(8)]))
			w.space()
			w.b.WriteByte(':')
			w.space()
			w.any(depth - 1)
			w.space()
		}
		w.b.WriteByte('}')
	}
}

// wrong writes a value no decoder of the field accepts.
func (w *wWriter) wrong(field string) {
	c := map[string][]string{
		"top":  {`"x"`, "7", "true", "[]", `[{"doc":{},"hits":1}]`, "false", "-1"},
		"doc":  {`"x"`, "7", "true", "[]", `["id"]`, "1.5", `"{}"`, "false"},
		"id":   {"7", "true", "{}", "[]", `["x"]`, `{"id":"x"}`, "0", "false", "1.5"},
		"raw":  {"7", "true", "{}", "[]", `["x"]`, `{"raw":"x"}`, "0", "false", "1.5"},
		"hits": {`"x"`, `""`, "true", "{}", "[]", "[1]", "1.5", "false", `"1"`, "9223372036854775808"},
	}[field]
	w.b.WriteString(c[w.rng.Intn(len(c))])
}

// the names no decoder knows
var wUnknown = []string{"x", "score", "_", "", "doc2", "ids", "rawr", "hitsx", "d\u00f6c", "do", "hit", " id", "doc ", "meta\"data", "\\doc", "\U0001F600", "Doc", "DOC", "Hits", "HITS", "hitS", "Id", "ID", "iD", "Raw", "RAW", "raW", "h\u0131ts", "hit\u017f"}

func (w *wWriter) tree(field string, v wNode, id, raw string, hits int) {
	switch v.T {
	case "null":
		w.b.WriteString("null")
	case "str":
		if field == "id" {
			w.b.WriteString(wQuote(w.rng, id))
		} else {
			w.b.WriteString(wQuote(w.rng, raw))
		}
	case "int":
		w.b.WriteString(strconv.Itoa(hits))
	case "other":
		if field == "x" || field == "y" {
			w.any(3)
		} else {
			w.wrong(field)
		}
	case "obj":
		w.b.WriteByte('{')
		u := w.rng.Intn(len(wUnknown))
		for i, f := range v.F {
			if i > 0 {
				w.b.WriteByte(',')
			}
			w.space()
			switch k := f.K; k {
			case "x", "y":
				if field == "x" || field == "y" {
					w.b.WriteString(wQuote(w.rng, k))
				} else {
					w.b.WriteString(wQuote(w.rng, wUnknown[u]))
				}
			default:
				if w.rng.Intn(6) == 0 {
					w.b.WriteString(wQuote(w.rng, k))
				} else {
					w.b.WriteString(`"` + k + `"`)
				}
			}
			w.space()
			w.b.WriteByte(':')
			w.space()
			f2 := f.K
			if field == "x" || field == "y" {
				f2 = "x" // nothing known in there
			}
			if f2 == "x" && f.V.T == "str" || f2 == "x" && f.V.T == "int" {
				w.any(0)
			} else {
				w.tree(f2, f.V, id, raw, hits)
			}
			w.space()
		}
		w.b.WriteByte('}')
	default:
		die("node %q", v.T)
	}
}

// decoders: the ways to read one result
var wDecoders = map[string]func([]byte) (visigoth.SearchResult, error){
	"UnmarshalJSON": func(b []byte) (r visigoth.SearchResult, err error) {
		err = r.UnmarshalJSON(b)
		return
	},
	"json.Unmarshal": func(b []byte) (r visigoth.SearchResult, err error) {
		err = json.Unmarshal(b, &r)
		return
	},
	"json.Decoder": func(b []byte) (r visigoth.SearchResult, err error) {
		err = json.NewDecoder(bytes.NewReader(b)).Decode(&r)
		return
	},
	"list": func(b []byte) (visigoth.SearchResult, error) {
		var rs []visigoth.SearchResult
		x := append(append([]byte(`[ {"hits":4,"doc":{"id":"before","raw":"p"}},`), b...), `,{"doc":{"raw":"q","id":"after"}, "hits":5} ]`...)
		if err := json.Unmarshal(x, &rs); err != nil {
			return visigoth.SearchResult{}, err
		}
		if len(rs) != 3 || rs[0].Document.ID() != "before" || rs[0].Document.Raw() != "p" || rs[0].Hits != 4 || rs[2].Document.ID() != "after" || rs[2].Document.Raw() != "q" || rs[2].Hits != 5 {
			return visigoth.SearchResult{}, fmt.Errorf("WRONG neighbours: %v", rs)
		}
		return rs[1], nil
	},
}
var wDecNames = []string{"UnmarshalJSON", "json.Unmarshal", "json.Decoder", "list"}

func wDecode(how string, b []byte) (r visigoth.SearchResult, err error, pan string) {
	defer func() {
		if x := recover(); x != nil {
			pan = fmt.Sprint(x)
		}
	}()
	r, err = wDecoders[how](b)
	return
}

func wShow(r visigoth.SearchResult) string {
	return fmt.Sprintf("{id %s raw %s hits %d}", short(fmt.Sprintf("%q", r.Document.ID()), 80), short(fmt.Sprintf("%q", r.Document.Raw()), 80), r.Hits)
}

// wTruncated: no proper prefix that is not itself a JSON value decodes.
func wTruncated(text []byte, fail func(string, ...any)) {
	step := 1
	if len(text) > 600 {
		step = 1 + len(text)/300
	}
	for n := 0; n < len(text); n += step {
		p := text[:n:n]
		if json.Valid(p) {
			continue
		}
		for _, how := range wDecNames[:2] {
			_, err, pan := wDecode(how, append([]byte(nil), p...))
			rep.count("truncations", 1)
			if pan != "" {
				fail("%s of truncated input panics: %s: %s", how, pan, short(string(p), 200))
			} else if err == nil {
				fail("%s of truncated input gives no error: %s", how, short(fmt.Sprintf("%q", p), 200))
			}
		}
	}
}

func wCheck(l wLine, seed int64, trunc bool) (out []string) {
	fail := func(f string, x ...any) {
		if len(out) < 6 {
			out = append(out, fmt.Sprintf(f, x...))
		}
	}
	rng := rand.New(rand.NewSource(seed))
	// the strings and numbers of the tree: distinct values
	strs := []string{"", wRandString(rng), wRandString(rng)}
	for strs[2] == strs[1] {
		strs[2] = wRandString(rng)
	}
	ints := []int{0, wInts[rng.Intn(len(wInts))], rng.Intn(1 << 40)}
	pick := func(v wNode, k string) wNode {
		for _, f := range v.F {
			if f.K == k {
				return f.V
			}
		}
		return wNode{}
	}
	id, raw, hits := strs[pick(pick(l.V, "doc"), "id").S], strs[pick(pick(l.V, "doc"), "raw").S], ints[pick(l.V, "hits").N]
	w := &wWriter{rng: rng, ws: rng.Intn(3)}
	w.tree("top", l.V, id, raw, hits)
	text := w.b.String()
	if !json.Valid([]byte(text)) {
		die("not JSON: %s", text)
	}
	lead := []string{"", " ", "\n\t"}[rng.Intn(3)]
	text = lead + text + []string{"", " ", "\r\n"}[rng.Intn(3)]
	for _, how := range wDecNames {
		in := []byte(text)
		r, err, pan := wDecode(how, in)
		rep.count("decodings", 1)
		shown := short(text, 300)
		switch {
		case pan != "":
			fail("%s panics (%s) on %s", how, pan, shown)
		case err != nil && strings.HasPrefix(err.Error(), "WRONG"):
			fail("%s: %v around %s", how, err, shown)
		case l.M.Err && err == nil:
			fail("%s: a field of the wrong type gives no error but %s: %s", how, wShow(r), shown)
		case !l.M.Err && err != nil:
			fail("%s: error %v: %s", how, err, shown)
		case !l.M.Err:
			var e visigoth.SearchResult
			if l.M.Hits != 0 {
				e.Hits = hits
			}
			var ei, er string
			if l.M.ID != 0 {
				ei = id
			}
			if l.M.Raw != 0 {
				er = raw
			}
			for i := range in { // the result must not hang on to the input
				in[i] = 'X'
			}
			if r.Document.ID() != ei || r.Document.Raw() != er || r.Hits != e.Hits {
				fail("%s gives %s, expected id %s raw %s hits %d: %s", how, wShow(r), short(fmt.Sprintf("%q", ei), 80), short(fmt.Sprintf("%q", er), 80), e.Hits, shown)
			}
		}
	}
	if trunc {
		wTruncated([]byte(text), fail)
	}
	return
}

// wResult obtains a result with the given contents from a search.
func wResult(id, raw string, hits int) visigoth.SearchResult {
	var r visigoth.SearchResult
	repo := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer())))
	repo.Put("x", visigoth.NewDocRequest(id, raw))
	st, err := repo.Search("x", "", visigoth.NoopAllSearch)
	if err != nil || !st.Next() {
		die("match-all returns nothing")
	}
	r = st.Data()
	r.Hits = hits
	return r
}

func wExact(b []byte, id, raw string, hits int) string {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var o map[string]any
	if !json.Valid(b) {
		return "not valid JSON"
	}
	if err := d.Decode(&o); err != nil {
		return err.Error()
	}
	doc, ok := o["doc"].(map[string]any)
	if len(o) != 2 || !ok || len(doc) != 2 {
		return "not exactly the fields doc {id, raw} and hits"
	}
	if bytes.Count(b, []byte(`"hits":`)) > 1 && !strings.Contains(id+raw, "hits") {
		return "a field occurs twice"
	}
	n, ok := o["hits"].(json.Number)
	if !ok || n.String() != strconv.Itoa(hits) {
		return fmt.Sprintf("hits is %v, not %d", o["hits"], hits)
	}
	if s, ok := doc["id"].(string); !ok || s != id {
		return fmt.Sprintf("id is %q, not %q", doc["id"], id)
	}
	if s, ok := doc["raw"].(string); !ok || s != raw {
		return fmt.Sprintf("raw is %q, not %q", doc["raw"], raw)
	}
	return ""
}

func wRound(id, raw string, hits int, trunc bool) (out []string) {
	fail := func(f string, x ...any) {
		if len(out) < 6 {
			out = append(out, fmt.Sprintf(f, x...))
		}
	}
	defer func() {
		if x := recover(); x != nil {
			fail("panic on id %q raw %q hits %d: %v", short(id, 100), short(raw, 100), hits, x)
		}
	}()
	r := wResult(id, raw, hits)
	if r.Document.ID() != id || r.Document.Raw() != raw {
		return // another property's business
	}
	encs := map[string][]byte{}
	for _, how := range []string{"MarshalJSON", "json.Marshal", "pointer", "indented", "in a list"} {
		var b []byte
		var err error
		switch how {
		case "MarshalJSON":
			b, err = r.MarshalJSON()
		case "json.Marshal":
			b, err = json.Marshal(r)
		case "pointer":
			b, err = json.Marshal(&r)
		case "indented":
			b, err = json.MarshalIndent(r, "", "\t")
		case "in a list":
			var l []json.RawMessage
			if b, err = json.Marshal([]visigoth.SearchResult{r, r}); err == nil {
				if err = json.Unmarshal(b, &l); err == nil && len(l) != 2 {
					err = fmt.Errorf("%d elements", len(l))
				}
				if err == nil {
					b = l[1]
				}
			}
		}
		if err != nil {
			fail("encoding %s fails for %s: %v", how, wShow(r), err)
			continue
		}
		if m := wExact(b, id, raw, hits); m != "" {
			fail("encoding %s of %s: %s: %s", how, wShow(r), m, short(string(b), 300))
		}
		encs[how] = b
	}
	var hows []string
	for how := range encs {
		hows = append(hows, how)
	}
	sort.Strings(hows)
	for _, how := range hows {
		for _, dec := range wDecNames {
			got, err, pan := wDecode(dec, append([]byte(nil), encs[how]...))
			rep.count("round_trips", 1)
			if pan != "" || err != nil {
				fail("%s of the encoding of %s: %v %s", dec, wShow(r), err, pan)
			} else if got != r {
				fail("%s of the encoding of %s gives %s", dec, wShow(r), wShow(got))
			}
		}
	}
	if trunc {
		wTruncated(encs["MarshalJSON"], fail)
	}
	return
}

// wNoise: whatever the input, decoding does not panic.
func wNoise(rng *rand.Rand) (out []string) {
	r := wResult(wRandString(rng), wRandString(rng), wInts[rng.Intn(len(wInts))])
	b, err := r.MarshalJSON()
	if err != nil || len(b) > 2000 {
		return
	}
	for k := rng.Intn(4); k >= 0; k-- {
		i := rng.Intn(len(b))
		switch rng.Intn(4) {
		case 0:
			b[i] = byte(rng.Intn(256))
		case 1:
			b[i] = `{}[]",:\u0nt `[rng.Intn(13)]
		case 2:
			b = append(b[:i:i], b[min(len(b), i+1+rng.Intn(6)):]...)
		default:
			b = append(b[:i:i], append([]byte([]string{"{", "}", "null", `"`, "[[", "1e", `\u12`, "\xff"}[rng.Intn(8)]), b[i:]...)...)
		}
		if len(b) == 0 {
			b = []byte(" ")
		}
	}
	for _, how := range wDecNames[:2] {
		rep.count("noise", 1)
		if _, _, pan := wDecode(how, append([]byte(nil), b...)); pan != "" {
			out = append(out, fmt.Sprintf("%s panics (%s) on %s", how, pan, short(fmt.Sprintf("%q", b), 300)))
		}
	}
	return
}

// cmdWire decodes the trees of Wire.tla and round-trips results.
func cmdWire() {
	viol := func(m []string, replay any) {
		if len(m) > 0 {
			rep.violation(Violation{"C19", m[0], m[1:], replay})
		}
	}
	n := 0
	lines(*fIn, func(b []byte) {
		i := n
		n++
		if i%*fShards != *fShard {
			return
		}
		var l wLine
		if err := json.Unmarshal(b, &l); err != nil {
			die("wire line: %v: %.300s", err, b)
		}
		for r := 0; r < *fReps; r++ {
			seed := *fSeed*6700417 + int64(i)*13 + int64(r)
			rep.count("trees", 1)
			viol(wCheck(l, seed, r%8 == 0), map[string]any{"line": l, "seed": seed})
		}
		if i%999 == 0 {
			rep.sample(2, map[string]any{"tree": l.V, "meaning": l.M})
		}
	})
	if n == 0 {
		die("no trees")
	}
	rng := rand.New(rand.NewSource(*fSeed*31 + int64(*fShard)))
	i := 0
	for _, a := range wStrings {
		for _, b := range wStrings {
			i++
			if i%*fShards == *fShard {
				h := wInts[rng.Intn(len(wInts))]
				viol(wRound(a, b, h, i%5 == 0), map[string]any{"id": short(a, 200), "raw": short(b, 200), "hits": h})
			}
		}
	}
	for k := 0; k < 600**fReps; k++ {
		a, b, h := wRandString(rng), wRandString(rng), int(rng.Int63()>>uint(rng.Intn(63)))
		if k < len(wInts) {
			h = wInts[k]
		}
		viol(wRound(a, b, h, k%7 == 0), map[string]any{"id": short(a, 200), "raw": short(b, 200), "hits": h})
		viol(wNoise(rng), nil)
	}
}
