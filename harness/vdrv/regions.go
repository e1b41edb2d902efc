package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/sonirico/visigoth"
)

type rgLine struct {
	W      []string `json:"w"`
	R1     int      `json:"r1"`
	R2     int      `json:"r2"`
	RV     int      `json:"rv"`
	Vowels []int    `json:"vowels"`
	Others []int    `json:"others"`
}

// letters outside the Spanish alphabet that are no Spanish vowels
var foreign = []string{"日", "ж", "ß", "\U00010428", "א", "ł", "þ", "ﬁ", "\U00020000"}

// regCheck compares the regions of one word.
func regCheck(word []string, l rgLine) (msg string) {
	w := strings.Join(word, "")
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprintf("%q: panic: %v", w, r)
		}
	}()
	from := func(k int) string { return strings.Join(word[k-1:], "") }
	e1, e2, ev := from(l.R1), from(l.R2), from(l.RV)
	in := []byte(w)
	r1, r2, rv := visigoth.R1R2RV(in)
	switch {
	case string(r1) != e1:
		return fmt.Sprintf("%q: R1 expected %q, got %q", w, e1, r1)
	case string(r2) != e2:
		return fmt.Sprintf("%q: R2 expected %q, got %q", w, e2, r2)
	case string(rv) != ev:
		return fmt.Sprintf("%q: RV expected %q, got %q", w, ev, rv)
	case !bytes.Equal(in, []byte(w)):
		return fmt.Sprintf("%q: the word was changed into %q", w, in)
	}
	for _, x := range [][]byte{r1, r2, rv} {
		if !bytes.HasSuffix(in, x) {
			return fmt.Sprintf("%q: %q is no suffix", w, x)
		}
	}
	return ""
}

// cmdRegions compares R1R2RV with Regions.tla: random words of every pattern,
// and every word of up to -bound letters over the alphabet of the
// specification.
func cmdRegions() {
	var pats []rgLine
	byPat := map[string]rgLine{}
	var vowels, others []string
	lines(*fIn, func(b []byte) {
		var l rgLine
		if err := json.Unmarshal(b, &l); err != nil {
			die("regions line: %v: %.300s", err, b)
		}
		if l.Vowels != nil {
			for _, c := range l.Vowels {
				vowels = append(vowels, string(rune(c)))
			}
			for _, c := range l.Others {
				others = append(others, string(rune(c)))
			}
			return
		}
		pats = append(pats, l)
		byPat[strings.Join(l.W, "")] = l
	})
	if len(pats) == 0 || len(vowels) == 0 {
		die("no patterns")
	}
	viol := func(m string) { rep.violation(Violation{"C17", m, nil, map[string]any{"check": m}}) }
	rng := rand.New(rand.NewSource(*fSeed))
	for i, l := range pats {
		if i%*fShards != *fShard {
			continue
		}
		for r := 0; r < *fReps; r++ {
			word := make([]string, len(l.W))
			for k, c := range l.W {
				if c == "v" {
					word[k] = vowels[rng.Intn(len(vowels))]
				} else if rng.Intn(6) == 0 {
					word[k] = foreign[rng.Intn(len(foreign))]
				} else {
					word[k] = others[rng.Intn(len(others))]
				}
			}
			if m := regCheck(word, l); m != "" {
				viol(m)
			}
			rep.count("words", 1)
		}
		if i%101 == 0 {
			rep.sample(2, map[string]any{"pattern": strings.Join(l.W, ""), "r1": l.R1, "r2": l.R2, "rv": l.RV})
		}
	}
	// all words over the alphabet
	letters := append(append([]string(nil), vowels...), others...)
	n := 0
	var word []string
	var rec func(pat string)
	rec = func(pat string) {
		n++
		if n%*fShards == *fShard {
			l, ok := byPat[pat]
			if !ok {
				die("no pattern %q", pat)
			}
			if m := regCheck(word, l); m != "" {
				viol(m)
			}
			rep.count("words", 1)
		}
		if len(word) == *fBound {
			return
		}
		for i, c := range letters {
			word = append(word, c)
			if i < len(vowels) {
				rec(pat + "v")
			} else {
				rec(pat + "c")
			}
			word = word[:len(word)-1]
		}
	}
	if *fBound > 0 {
		rec("")
	}
}
