package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/kljensen/snowball/spanish"
	"github.com/sonirico/visigoth"
)

// Conc maps abstract names, identifiers, contents and tokens to concrete ones.
type Conc struct {
	rng     *rand.Rand
	profile string
	names   map[string]string
	back    map[string]string
	ids     []string // ascending; identifier k is ids[k]
	idBack  map[string]int
	raws    map[int]string
	rawBack map[string]int
	words   [][]string // token k -> words that analyse to it
	noise   []string   // words that analyse to nothing
	tok     interface{ Tokenize(string) []string }
	lower   bool
	texts   map[int]string
	toks    map[int][]int
	canon   bool // one text per token sequence
}

var namePool = []string{"cursos", "dedos:latest", "ñandú", "a b", "índice/1", "Cursos", "x", "v2", "huevos:latest", "日本", "cursos ", "_", "dedos_v2", "\t", "x\x00y", "naïve", "X", "cur", "%s", "null",
	strings.Repeat("largo", 60) + "1", strings.Repeat("largo", 60) + "2", strings.Repeat("ñ", 5000), "nai\u0308ve", "\xff\xfe", "\xff", "CURSOS", "a", "\u00c0"}

var idPool = []string{"", " ", "!", "/course/go", "/course/java", "0", "00", "1", "10", "2", "A", "Z", "_", "a", "aa", "ab", "b", "doc-1", "doc-10", "doc-2", "doc1", "z", "zz\x00", "zzz", "~", "\u00e1rbol", "\u00f1", "\u65e5\u672c", "\U0001F600", "\xff\xfe"}

var wordsPlain = [][]string{{"java"}, {"curso"}, {"go"}, {"x"}, {"año"}, {"42"}, {"php8"}, {"ñu"}, {"programación"}, {"aa"}, {"curs"}, {"un"}, {"éxito"}, {"z9"}, {"日本"}, {"b"}}

// several inflections with one stem
var wordsSpanish = [][]string{{"programación", "programacion"}, {"curso", "cursos"}, {"java"}, {"camión", "camiones"}, {"canción", "canciones"}, {"niño", "niños"}, {"php"}, {"libro", "libros"}, {"2024"}, {"golang"}, {"árbol"}, {"ciudad", "ciudades"}, {"rojo", "rojos", "roja"}, {"web"}, {"mesa", "mesas"}, {"lápiz"}}

var noiseSpanish = []string{"de", "la", "en", "para", "los", "con", "El", "una", "que"}

var seps = []string{" ", "  ", ", ", "-", ".\n", " — ", "\t", "/", "(", ") ", "_", "! ", " \u00a0", "@", "\u2003"}

// NewConc makes a concretization; profile is "plain" or "spanish".
func NewConc(seed int64, profile string, plainNames bool) *Conc {
	c := &Conc{rng: rand.New(rand.NewSource(seed)), profile: profile,
		names: map[string]string{}, back: map[string]string{}, idBack: map[string]int{},
		raws: map[int]string{}, rawBack: map[string]int{}, texts: map[int]string{}, toks: map[int][]int{}, lower: true}
	if !plainNames {
		p := c.rng.Perm(len(namePool))
		for i, n := range []string{"x", "y", "z", "w", "v", "a", "b", "c", "u"} {
			c.names[n] = namePool[p[i]]
		}
		// further names: the rest of the pool; see alike for more
		for i := 1; i+8 < len(p); i++ {
			c.names[fmt.Sprintf("n%02d", i)] = namePool[p[i+8]]
		}
		for a, b := range c.names {
			c.back[b] = a
		}
	}
	p := c.rng.Perm(len(idPool))[:12]
	var ids []string
	for _, i := range p {
		ids = append(ids, idPool[i])
	}
	sort.Strings(ids)
	c.ids = ids
	for i, s := range ids {
		c.idBack[s] = i
	}
	src := wordsPlain
	if profile == "spanish" {
		src = wordsSpanish
		c.noise = noiseSpanish
		c.tok = visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer(),
			visigoth.NewLowerCaseTokenizer(), visigoth.NewStopWordsFilter(visigoth.SpanishStopWords),
			visigoth.NewSpanishStemmer(true))
	} else {
		c.tok = visigoth.NewTokenizationPipeline(visigoth.NewKeepAlphanumericTokenizer(), visigoth.NewLowerCaseTokenizer())
	}
	for _, i := range c.rng.Perm(len(src)) {
		c.words = append(c.words, src[i])
	}
	return c
}

// checkWords keeps, of the harness's own word lists, the inflections the
// stemming library gives one stem, independently of the code under test.
func checkWords() error {
	seen := map[string]int{}
	for i, ws := range wordsSpanish {
		first := spanish.Stem(ws[0], true)
		if j, ok := seen[first]; ok {
			return fmt.Errorf("words %d and %d share stem %s", i, j, first)
		}
		seen[first] = i
		var keep []string
		for _, w := range ws {
			if spanish.Stem(w, true) == first {
				keep = append(keep, w)
			}
		}
		wordsSpanish[i] = keep
	}
	for _, w := range noiseSpanish {
		if _, ok := seen[spanish.Stem(strings.ToLower(w), true)]; ok {
			return fmt.Errorf("stop word %s has the stem of a word", w)
		}
	}
	return nil
}

// alike are names like each other, for n01, n02, ... and a01, a02, ...
var alike, alikeBack = func() (map[string]string, map[string]string) {
	m, b := map[string]string{}, map[string]string{}
	for i := 1; i <= 1200; i++ {
		m[fmt.Sprintf("n%02d", i)] = fmt.Sprintf([]string{"idx-%d", "cursos:%d", "índice %d", "%dº"}[i%4], i)
		m[fmt.Sprintf("a%02d", i)] = fmt.Sprintf([]string{"alias-%d", "dedos:%d", "último %d", "%da"}[i%4], i)
	}
	for k, v := range m {
		b[v] = k
	}
	return m, b
}()

func (c *Conc) name(n string) string {
	if s, ok := c.names[n]; ok {
		return s
	}
	if s, ok := alike[n]; ok && len(c.names) > 0 {
		return s
	}
	return n
}

func (c *Conc) unname(s string) string {
	if s == "" {
		return s // the empty name stands for itself
	}
	if n, ok := c.back[s]; ok {
		return n
	}
	if len(c.back) > 0 {
		if n, ok := alikeBack[s]; ok && c.name(n) == s {
			return n
		}
		return "?" + s
	}
	return s
}

func (c *Conc) cased(w string) string {
	if !c.lower {
		return w
	}
	switch c.rng.Intn(4) {
	case 0:
		return strings.ToUpper(w)
	case 1:
		r := []rune(w)
		return strings.ToUpper(string(r[:1])) + string(r[1:])
	}
	return w
}

// shapes of texts: what opens, follows odd words, follows even words, closes
var shapes = [][4]string{{"{\"", "\": \"", "\", \"", "\"}"}, {"{\n  \"", "\" : [\"", "\"],\n  \"", "\"\n}\n"}, {"[\"", "\",\"", "\",\"", "\"]"}, {"<", ">", "</", ">"}, {"<!-- ", " --> <", "/> <", "/>"},
	{"?", "=", "&", ""}, {"\"", "\";\"", "\";\"", "\""}, {"", ": ", "\r\n", "\r\n\r\n"}, {"/* ", " */ ", "; // ", ""}, {"# ", "\n## ", "\n\n- ", "\n"}, {"/", "/", "/", "/"}, {"{{", "}} ${", "} {{", ""},
	{"**", "** `", "` [", "](…)"}, {"---\n", ": |\n  ", "\n", "\n---\n"}, {"+", " -", " +", ""}, {"(", " | ", ") && !(", ")"}, {"\"", " ", " ", "\""}, {"", "* ", "~ ", "^"}, {"#", " @", " #", "!"}, {"'", "' '", "' \"", "\"'"},
	{"\\", "\\", "\\\\", "\\"}, {"(?:", ")|(", ").*?(", ")$"}, {"¿", "? ¡", "! ¿", "…"}, {"«", "», ‹", "›; “", "”"}, {"--", "=\"", "\" --", "\""}, {"\ufeff", "\t", "\n", "\n"}, {"<![[", "]]><![[", "]]> ", ">"}}

// shaped renders words as a text of some such kind; what it adds are no words.
func shaped(rng *rand.Rand, ws []string) string {
	f := shapes[rng.Intn(len(shapes))]
	var b strings.Builder
	b.WriteString(f[0])
	for i, w := range ws {
		if i > 0 {
			b.WriteString(f[2-i%2])
		}
		b.WriteString(w)
	}
	b.WriteString(f[3])
	return b.String()
}

// text renders a token sequence as text whose analysis is that sequence.
func (c *Conc) text(toks []int) string {
	if c.canon {
		var ws []string
		for _, t := range toks {
			ws = append(ws, c.words[(t-1)%len(c.words)][0])
		}
		return strings.Join(ws, " ")
	}
	if c.rng.Intn(7) == 0 {
		var ws []string
		for _, t := range toks {
			w := c.words[(t-1)%len(c.words)]
			ws = append(ws, c.cased(w[c.rng.Intn(len(w))]))
		}
		return shaped(c.rng, ws)
	}
	var b strings.Builder
	sep := func() { b.WriteString(seps[c.rng.Intn(len(seps))]) }
	if c.rng.Intn(3) == 0 {
		sep()
	}
	for i, t := range toks {
		if i > 0 {
			sep()
		}
		for len(c.noise) > 0 && c.rng.Intn(4) == 0 {
			b.WriteString(c.noise[c.rng.Intn(len(c.noise))])
			sep()
		}
		ws := c.words[(t-1)%len(c.words)]
		b.WriteString(c.cased(ws[c.rng.Intn(len(ws))]))
	}
	if c.rng.Intn(3) == 0 {
		sep()
	}
	return b.String()
}

// mark renders a number with characters no tokenizer keeps.
func mark(n int) string {
	var b strings.Builder
	b.WriteString("#")
	for ; n > 0; n /= 4 {
		b.WriteByte("!?*+"[n%4])
	}
	return b.String()
}

// request builds the put request of an abstract document.
func (c *Conc) request(d Doc) visigoth.DocRequest {
	if t, ok := c.texts[d.Raw]; ok {
		return visigoth.NewDocRequestWith(c.ids[d.ID], c.raws[d.Raw], t)
	}
	text := c.text(d.Toks)
	id := c.ids[d.ID]
	var raw string
	var rq visigoth.DocRequest
	switch d.Raw % 3 {
	case 0: // the content is the search text
		raw = text + " " + mark(d.Raw)
		rq = visigoth.NewDocRequest(id, raw)
		text = raw
	case 1: // separate search text; the content says something else
		raw = c.text([]int{1 + c.rng.Intn(8), 1 + c.rng.Intn(8)}) + mark(d.Raw) + "\x00\xff"
		rq = visigoth.NewDocRequestWith(id, raw, text)
	default:
		raw = text + mark(d.Raw) + "\r\n"
		text = raw
		rq = visigoth.NewDocRequestWithMime(id, raw, visigoth.MimeJSON)
	}
	c.raws[d.Raw], c.rawBack[raw], c.texts[d.Raw] = raw, d.Raw, text
	return rq
}

// again is request, for documents that may carry the content of an earlier
// one, with whatever search text.
func (c *Conc) again(d Doc) visigoth.DocRequest {
	raw, ok := c.raws[d.Raw]
	if !ok {
		c.toks[d.Raw] = d.Toks
		return c.request(d)
	}
	if fmt.Sprint(c.toks[d.Raw]) == fmt.Sprint(d.Toks) {
		if c.texts[d.Raw] == raw && c.rng.Intn(2) == 0 {
			return visigoth.NewDocRequest(c.ids[d.ID], raw)
		}
		return c.request(d)
	}
	return visigoth.NewDocRequestWith(c.ids[d.ID], raw, c.text(d.Toks))
}

func (c *Conc) row(r visigoth.SearchResult) Row {
	raw, ok := c.rawBack[r.Document.Raw()]
	if !ok {
		raw = -1
	}
	id, ok := c.idBack[r.Document.ID()]
	if !ok {
		id = -1
	}
	// every way to read a result shows the same
	d := r.Document
	if r.GetDoc() != d || r.Doc() != d || r.GetHits() != r.Hits || d.Name != d.ID() || d.Content != d.Raw() {
		id, raw = -1, -1
	}
	return Row{id, raw, r.Hits}
}
