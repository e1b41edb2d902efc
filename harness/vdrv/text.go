package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode"

	"github.com/sonirico/visigoth"
)

type surface struct {
	W int `json:"w"`
	C int `json:"c"`
}
type txDoc struct {
	ID  int       `json:"id"`
	Raw int       `json:"raw"`
	Ws  []surface `json:"ws"`
}
type txLine struct {
	Feat []string  `json:"feat"`
	Docs []txDoc   `json:"docs"`
	Sel  []surface `json:"sel"`
	Sub  int       `json:"sub"`
	Kept bool      `json:"kept"`
}

var contentWords = strings.Fields(`curso programación java golang desarrollo biblioteca árbol camión ciudad mesa
lápiz canción universidad nación libertad rápido rápidamente corriendo comido niño niña niños señor pingüino
cigüeña vergüenza quijote mancha hidalgo caballero lanza molino viento gigante gallina huevo oveja lana
río montaña país guerra paz historia filosofía matemáticas química física biología geografía ingeniería
computación algoritmo búsqueda índice documento palabra frase texto consulta resultado servidor cliente red
ordenador teclado ratón pantalla impresora papel tinta azul rojo verde amarillo negro blanco naranja ii
xilófono zapato yegua ñandú ñu queso wáter kilo whisky taxi éxito examen oxígeno inteligentísimo
incomprensiblemente electroencefalografista otorrinolaringólogo 2024 42 php8 3d web2 1a2b3c 007 ½ ⅔
привет мир σοφια אבג 日本語 中文字 ｘｙｚ đuro žaba čaša łódka ⱥⱥⱥ ɐbc 𐐨𐐨`)

// oneToOne reports whether every letter of a word has a one-to-one mapping
// between the cases.
func oneToOne(w string) bool {
	for _, r := range w {
		u, l := unicode.ToUpper(r), unicode.ToLower(r)
		if l != r || u != r && (unicode.ToLower(u) != r || strings.ToLower(string(u)) != string(r)) || strings.ToUpper(string(r)) != string(u) {
			return false
		}
	}
	return true
}

func randWord(rng *rand.Rand) string {
	n := 1 + rng.Intn(8)
	switch rng.Intn(6) {
	case 0:
		n = 10 + rng.Intn(60)
	case 1:
		n = 60 + rng.Intn(400)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch rng.Intn(8) {
		case 0:
			b.WriteString(letterPairs[rng.Intn(len(letterPairs))][0])
		case 1:
			b.WriteString(numberPool[rng.Intn(6)])
		case 2, 3:
			b.WriteString(syllables[rng.Intn(len(syllables))])
		default:
			b.WriteByte(byte('a' + rng.Intn(26)))
		}
	}
	return b.String()
}

type txConc struct {
	words map[int]string
	noise []string
	stops visigoth.StopWords
	rng   *rand.Rand
	space bool // words may contain punctuation; only blanks separate
}

func newTxConc(rng *rand.Rand, noise map[int]bool, max int, space bool) *txConc {
	c := &txConc{words: map[int]string{}, rng: rng, space: space}
	custom := rng.Intn(2) == 0
	var pool []string
	if custom {
		c.stops = visigoth.StopWords{}
	} else {
		c.stops = visigoth.SpanishStopWords
		for w := range c.stops {
			if !strings.ContainsAny(w, " ") && oneToOne(w) && strings.ToUpper(w) != w {
				pool = append(pool, w)
			}
		}
		sort.Strings(pool)
	}
	used := map[string]bool{}
	for w := 1; w <= max; w++ {
		for try := 0; ; try++ {
			var s string
			switch {
			case noise[w] && custom:
				s = contentWords[rng.Intn(len(contentWords))]
				if rng.Intn(4) == 0 {
					s = string(rune('a' + rng.Intn(26)))
				}
			case noise[w]:
				s = pool[rng.Intn(len(pool))]
			case rng.Intn(3) == 0:
				s = randWord(rng)
			default:
				s = contentWords[rng.Intn(len(contentWords))]
			}
			if space && rng.Intn(3) == 0 && !noise[w] {
				s += []string{"-", "_x", "'s", "@b", ".", "#"}[rng.Intn(6)]
			}
			if used[s] || !oneToOne(s) || noise[w] && unicode.ToUpper([]rune(s)[0]) == []rune(s)[0] {
				continue
			}
			if _, stop := c.stops[s]; stop && !noise[w] {
				continue
			}
			used[s] = true
			c.words[w] = s
			break
		}
		if noise[w] && custom {
			c.stops[c.words[w]] = struct{}{}
		}
	}
	return c
}

func (c *txConc) surface(s surface) string {
	w := c.words[s.W]
	switch s.C {
	case 1:
		return strings.ToUpper(w)
	case 2:
		r := []rune(w)
		return string(unicode.ToUpper(r[0])) + string(r[1:])
	}
	return w
}

var txSeps = []string{" ", "  ", "\n", "\t", " \u00a0", "\u2003"}

func (c *txConc) text(ws []surface) string {
	sp := seps
	if c.space {
		sp = txSeps
	} else if c.rng.Intn(6) == 0 {
		var p []string
		for _, w := range ws {
			p = append(p, c.surface(w))
		}
		return shaped(c.rng, p)
	}
	var b strings.Builder
	if c.rng.Intn(3) == 0 {
		b.WriteString(sp[c.rng.Intn(len(sp))])
	}
	for i, w := range ws {
		if i > 0 {
			for k := 1 + c.rng.Intn(2); k > 0; k-- {
				b.WriteString(sp[c.rng.Intn(len(sp))])
			}
		}
		b.WriteString(c.surface(w))
	}
	if c.rng.Intn(3) == 0 {
		b.WriteString(sp[c.rng.Intn(len(sp))])
	}
	return b.String()
}

// padded makes some texts long: the words are found all the same.
func (c *txConc) padded(ws []surface, t string) string {
	if len(ws) == 0 || c.rng.Intn(12) > 0 {
		return t
	}
	n := []int{70, 300, 1100, 4200}[c.rng.Intn(4)]
	var b strings.Builder
	pad := c.surface(ws[c.rng.Intn(len(ws))])
	if len(pad) > 60 || c.rng.Intn(2) == 0 {
		pad = ""
	}
	for i := 0; i < n; i++ {
		if pad != "" {
			b.WriteString(pad)
		} else {
			fmt.Fprintf(&b, "zq%d", i)
		}
		b.WriteByte(' ')
	}
	if c.rng.Intn(3) == 0 {
		return t + " " + b.String()
	}
	return b.String() + t
}

// wordFilter is a caller's filter that maps single words.
func wordFilter(k int) visigoth.Filter {
	return fnFilter(func(t []string) []string {
		var r []string
		for _, s := range t {
			if k == 1 {
				q := []rune(s)
				if len(q) > 3 {
					q = q[:3]
				}
				s = string(q)
			} else {
				s = s + "·" + s
			}
			r = append(r, s)
		}
		return r
	})
}

func txCheck(l txLine, seed int64, noise map[int]bool, max int) (out []string) {
	defer func() {
		if r := recover(); r != nil {
			out = append(out, fmt.Sprintf("panic: %v", r))
		}
	}()
	rng := rand.New(rand.NewSource(seed))
	c := newTxConc(rng, noise, max, rng.Intn(5) == 0)
	f := map[string]bool{}
	for _, x := range l.Feat {
		f[x] = true
	}
	var fs []visigoth.Filter
	if f["lower"] {
		fs = append(fs, visigoth.NewLowerCaseTokenizer())
	}
	if f["stop"] {
		fs = append(fs, visigoth.NewStopWordsFilter(c.stops))
	}
	desc := fmt.Sprint(l.Feat)
	if f["merge"] {
		switch rng.Intn(4) {
		case 0:
			fs = append(fs, visigoth.NewSpanishStemmer(true))
		case 1:
			fs = append(fs, visigoth.NewSpanishStemmer(false))
		case 2:
			fs = append(fs, wordFilter(1), visigoth.NewSpanishStemmer(true))
		case 3:
			fs = append(fs, wordFilter(1+rng.Intn(2)))
		}
	}
	var tk visigoth.Tokenizer = visigoth.NewKeepAlphanumericTokenizer()
	if c.space {
		t := visigoth.NewCleanTokenizer(func(r rune) bool { return !unicode.IsSpace(r) })
		tk = &t
		desc += " blanks"
	}
	b := visigoth.NewMemoryIndexBuilder(visigoth.NewTokenizationPipeline(tk, fs...))
	repo := visigoth.NewIndexRepo(b)
	// optionally the documents are spread over two indices of one alias
	two := rng.Intn(3) == 0
	name := "i1"
	var texts []string
	back := map[string]int{}
	for i, d := range l.Docs {
		t := c.padded(d.Ws, c.text(d.Ws))
		id := fmt.Sprintf("id%d", d.ID)
		in := "i1"
		if two && rng.Intn(2) == 0 {
			in = "i2"
		}
		var rq visigoth.DocRequest
		var raw string
		switch rng.Intn(3) {
		case 0:
			raw = t + strings.Repeat(" ", i+1)
			rq = visigoth.NewDocRequest(id, raw)
		case 1:
			raw = fmt.Sprintf("content %d", i)
			rq = visigoth.NewDocRequestWith(id, raw, t)
		default:
			raw = t + strings.Repeat("\n", i+1)
			rq = visigoth.NewDocRequestWithMime(id, raw, visigoth.MimeJSON)
		}
		back[raw] = i + 1
		texts = append(texts, t)
		repo.Put(in, rq)
	}
	if two {
		repo.Put("i1", visigoth.NewDocRequest("z", ""))
		repo.Put("i2", visigoth.NewDocRequest("z", ""))
		repo.Alias("both", "i2")
		repo.Alias("both", "i1")
		name = "both"
	}
	// the documents that contain all selected words
	want := []int{l.Sub}
	for i, d := range l.Docs {
		set := map[surface]bool{}
		for _, w := range d.Ws {
			set[w] = true
		}
		all := true
		for _, w := range l.Sel {
			all = all && set[w]
		}
		if all && i+1 != l.Sub {
			want = append(want, i+1)
		}
	}
	q := c.text(l.Sel)
	for _, e := range []string{"hits", "linear"} {
		st, err := repo.Search(name, q, engine(e))
		if err != nil {
			out = append(out, fmt.Sprintf("search fails: %v", err))
			continue
		}
		got := map[int]bool{}
		for st.Next() {
			got[back[st.Data().Document.Raw()]] = true
		}
		for _, w := range want {
			if !got[w] {
				out = append(out, fmt.Sprintf("%s search for %q (analysis %s) does not find the text %q", e, short(q, 300), desc, short(texts[w-1], 600)))
			}
		}
	}
	rep.count("queries", 2)
	return
}

// cmdText asks real repositories for documents by their own words, as Text.tla
// chooses them.  -profile lists the stop words of the specification.
func cmdText() {
	noise := map[int]bool{}
	for _, s := range strings.Split(*fProfile, ",") {
		var k int
		if _, err := fmt.Sscan(s, &k); err == nil {
			noise[k] = true
		}
	}
	n := 0
	lines(*fIn, func(b []byte) {
		i := n
		n++
		if i%*fShards != *fShard {
			return
		}
		var l txLine
		if err := json.Unmarshal(b, &l); err != nil {
			die("text line: %v: %.300s", err, b)
		}
		if !l.Kept {
			rep.count("nothing_left", 1)
			return
		}
		for r := 0; r < *fReps; r++ {
			seed := *fSeed*15485863 + int64(i)*13 + int64(r)
			m := txCheck(l, seed, noise, 24)
			if len(m) > 0 {
				if m2 := txCheck(l, seed, noise, 24); len(m2) == 0 {
					rep.count("unconfirmed", 1)
					continue
				}
				rep.violation(Violation{"C15", m[0], m[1:], map[string]any{"line": l, "seed": seed}})
			}
		}
		if i%499 == 0 {
			rep.sample(2, map[string]any{"features": l.Feat, "documents": len(l.Docs), "selection": l.Sel})
		}
	})
	if n == 0 {
		die("no texts")
	}
}
