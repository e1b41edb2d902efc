package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/sonirico/visigoth"
)

type sortLine struct {
	In  [][3]int `json:"in"`
	Out [][3]int `json:"out"`
}

// ascending sequences of identifiers
var sortIDs = [][]string{
	{"a", "b", "c", "d", "e", "f", "g", "h"},
	{"", "\x00", " ", "0", "A", "a", "é", "\U0001F600"},
	{"doc", "doc-1", "doc-10", "doc-2", "doc1", "doc10", "doc2", "docs"},
	{"A", "B", "Z", "a", "b", "z", "\u00c1", "\u00e1"},
	{"same0", "same00", "same01", "same1", "same10", "same\x7f", "same\x80", "same\xff"},
}

// ascending hit counts
var sortHits = [][]int{
	{-2, -1, 0, 1, 2, 3, 4},
	{math.MinInt64, -1 << 40, 0, 1, 1 << 31, 1 << 40, math.MaxInt64},
	{-1000, -255, 0, 255, 256, 257, 65536},
	{math.MinInt64, math.MinInt64 + 1, 0, 1 << 32, 1<<32 + 1, math.MaxInt64 - 1, math.MaxInt64},
}

func sortCheck(l sortLine, seed int64) (m []string) {
	defer func() {
		if r := recover(); r != nil {
			m = append(m, fmt.Sprint("panic: ", r))
		}
	}()
	rng := rand.New(rand.NewSource(seed))
	ids, hs := sortIDs[rng.Intn(len(sortIDs))], sortHits[rng.Intn(len(sortHits))]
	pre := strings.Repeat([]string{"p", "é", "0"}[rng.Intn(3)], []int{0, 0, 7, 64, 130, 300, 4100}[rng.Intn(7)])
	conc := func(r [3]int) visigoth.SearchResult {
		// equal rows differ in contents alone
		return visigoth.SearchResult{Document: visigoth.NewDoc(pre+ids[r[1]-1], fmt.Sprint("row ", r[2]*7919%1000, " ", r[2])), Hits: hs[r[0]]}
	}
	var in, want visigoth.SearchResults
	for _, r := range l.In {
		in = append(in, conc(r))
	}
	for _, r := range l.Out {
		want = append(want, conc(r))
	}
	if in.Len() != len(l.In) {
		return []string{fmt.Sprintf("%d results are said to be %d", len(l.In), in.Len())}
	}
	same := func(a visigoth.SearchResults) bool {
		for i := range a {
			if a[i] != want[i] {
				return false
			}
		}
		return len(a) == len(want)
	}
	st := append(visigoth.SearchResults(nil), in...)
	sort.Stable(st)
	if !same(st) {
		m = append(m, fmt.Sprintf("sorting %.900v: expected %.900v, got %.900v", in, want, st))
		return
	}
	// unstable sorting: equal ones in any order
	un := append(visigoth.SearchResults(nil), in...)
	sort.Sort(un)
	seen := map[visigoth.SearchResult]int{}
	for i := range un {
		seen[un[i]]++
		seen[in[i]]--
		if un[i].Hits != want[i].Hits || un[i].Document.Name != want[i].Document.Name {
			m = append(m, fmt.Sprintf("sorting %.900v: expected %.900v, got %.900v", in, want, un))
			return
		}
	}
	for r, k := range seen {
		if k != 0 {
			m = append(m, fmt.Sprintf("sorting %.900v changes result %v: %.900v", in, r, un))
			return
		}
	}
	if !sort.IsSorted(st) {
		m = append(m, fmt.Sprintf("sorted results are not in order: %.900v", st))
	}
	// the order itself, of any two
	for i := range l.In {
		j := rng.Intn(len(l.In))
		a, b := l.In[i], l.In[j]
		if want := a[0] > b[0] || a[0] == b[0] && a[1] < b[1]; in.Less(i, j) != want {
			m = append(m, fmt.Sprintf("%v before %v: expected %v", in[i], in[j], want))
		}
		a1, b1 := in[i], in[j]
		in.Swap(i, j)
		if in[i] != b1 || in[j] != a1 {
			m = append(m, fmt.Sprintf("exchanging %v and %v leaves %v and %v", a1, b1, in[i], in[j]))
		}
		in.Swap(i, j)
	}
	return
}

// cmdSort sorts the results of Sort.tla.
func cmdSort() {
	n := 0
	lines(*fIn, func(b []byte) {
		i := n
		n++
		if i%*fShards != *fShard {
			return
		}
		var l sortLine
		if err := json.Unmarshal(b, &l); err != nil {
			die("sort line: %v: %.300s", err, b)
		}
		for r := 0; r < *fReps; r++ {
			rep.count("collections", 1)
			seed := *fSeed*373587883 + int64(i)*13 + int64(r)
			if m := sortCheck(l, seed); len(m) > 0 {
				rep.violation(Violation{"C23", m[0], m[1:], map[string]any{"line": l, "seed": seed}})
			}
		}
	})
	if n == 0 {
		die("no collections")
	}
}
