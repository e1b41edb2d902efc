package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
)

// Doc is an abstract document of the specification.
type Doc struct {
	ID   int   `json:"id"`
	Raw  int   `json:"raw"`
	Toks []int `json:"toks"`
}

// Call is an abstract call of the specification.
type Call struct {
	K string `json:"k"`
	N string `json:"n"`
	M string `json:"m"`
	D Doc    `json:"d"`
	Q []int  `json:"q"`
}

func (c Call) String() string {
	switch c.K {
	case "put":
		return fmt.Sprintf("put(%s, id%d raw%d toks%v)", c.N, c.D.ID, c.D.Raw, c.D.Toks)
	case "search":
		return fmt.Sprintf("search(%s, %s, %v)", c.N, c.M, c.Q)
	case "drop", "has", "hasalias", "panicsearch", "panicquery", "panicbuild", "panicdoc", "scribeng":
		return fmt.Sprintf("%s(%s)", c.K, c.N)
	case "list", "listal", "string", "scriblist":
		return c.K + "()"
	}
	return fmt.Sprintf("%s(%s, %q)", c.K, c.N, c.M)
}

// Row is an abstract search result.
type Row struct {
	ID   int `json:"id"`
	Raw  int `json:"raw"`
	Hits int `json:"hits"`
}

// IxMap decodes a TLA+ function with string domain (an empty one is printed
// as an empty array).
type IxMap map[string][]Doc

func (m *IxMap) UnmarshalJSON(b []byte) error {
	*m = IxMap{}
	if string(b) == "[]" {
		return nil
	}
	return json.Unmarshal(b, (*map[string][]Doc)(m))
}

// AlMap decodes a TLA+ function from strings to sequences of strings.
type AlMap map[string][]string

func (m *AlMap) UnmarshalJSON(b []byte) error {
	*m = AlMap{}
	if string(b) == "[]" {
		return nil
	}
	return json.Unmarshal(b, (*map[string][]string)(m))
}

// State is an abstract repository state.
type State struct {
	Ix IxMap `json:"ix"`
	Al AlMap `json:"al"`
}

func (s State) key() string {
	b, err := json.Marshal(struct {
		I map[string][]Doc
		A map[string][]string
	}{s.Ix, s.Al})
	if err != nil {
		panic(err)
	}
	return string(b)
}

func (s State) String() string {
	var p []string
	for _, n := range sortedKeys(s.Ix) {
		var d []string
		for _, x := range s.Ix[n] {
			d = append(d, fmt.Sprintf("raw%d", x.Raw))
		}
		p = append(p, fmt.Sprintf("%s=[%s]", n, strings.Join(d, " ")))
	}
	for _, a := range sortedKeys(s.Al) {
		p = append(p, fmt.Sprintf("%s->%v", a, s.Al[a]))
	}
	return "{" + strings.Join(p, ", ") + "}"
}

// NameView is what the specification says is visible under one name.
type NameView struct {
	Err bool  `json:"err"`
	IsX bool  `json:"isx"`
	IsA bool  `json:"isa"`
	All []Row `json:"all"`
	H1  []Row `json:"h1"`
	L1  []Row `json:"l1"`
	H2  []Row `json:"h2"`
}

// Res is a decoded expected or actual result of a call.
type Res struct {
	Kind  string              // bool list listal search none
	B     bool                //
	List  []string            // sorted, duplicates kept
	Al    map[string][]string //
	AlDup bool                // some alias listed twice
	Err   bool
	Rows  []Row
	Panic string
	Stuck bool
}

func sortedKeys[V any](m map[string]V) []string {
	k := make([]string, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// decodeRes decodes the specification's result of call c.
func decodeRes(c Call, raw json.RawMessage) (Res, error) {
	var r Res
	switch c.K {
	case "list":
		r.Kind = "list"
		err := json.Unmarshal(raw, &r.List)
		sort.Strings(r.List)
		return r, err
	case "listal":
		r.Kind = "listal"
		var rows []json.RawMessage
		if err := json.Unmarshal(raw, &rows); err != nil {
			return r, err
		}
		r.Al = map[string][]string{}
		for _, x := range rows {
			var pair []json.RawMessage
			if err := json.Unmarshal(x, &pair); err != nil {
				return r, err
			}
			var a string
			var t []string
			if err := json.Unmarshal(pair[0], &a); err != nil {
				return r, err
			}
			if err := json.Unmarshal(pair[1], &t); err != nil {
				return r, err
			}
			r.Al[a] = t
		}
		return r, nil
	case "search":
		r.Kind = "search"
		var s struct {
			Err  bool  `json:"err"`
			Rows []Row `json:"rows"`
		}
		err := json.Unmarshal(raw, &s)
		r.Err, r.Rows = s.Err, s.Rows
		return r, err
	}
	r.Kind = "bool"
	err := json.Unmarshal(raw, &r.B)
	return r, err
}

func rowKey(r Row) string { return fmt.Sprintf("%d/%d", r.ID, r.Raw) }

// sameBag compares rows as multisets of documents (hits ignored).
func sameBag(a, b []Row) bool {
	if len(a) != len(b) {
		return false
	}
	n := map[string]int{}
	for _, x := range a {
		n[rowKey(x)]++
	}
	for _, x := range b {
		n[rowKey(x)]--
		if n[rowKey(x)] < 0 {
			return false
		}
	}
	return true
}

func sameRows(a, b []Row) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameDocSeq(a, b []Row) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].ID != b[i].ID || a[i].Raw != b[i].Raw {
			return false
		}
	}
	return true
}

func sameSet(a, b []string) bool {
	x := map[string]bool{}
	for _, s := range a {
		x[s] = true
	}
	y := map[string]bool{}
	for _, s := range b {
		y[s] = true
		if !x[s] {
			return false
		}
	}
	return len(x) == len(y)
}

func sameSeq(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func in(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
