package main

// blame says which properties the differences of one transition break: c is
// the call, pre the (verified) abstract state before it, expFalse whether the
// specification says it reports failure, dix and dal the indices and aliases
// it designates.
func blame(c Call, pre State, expFalse bool, dix, dal []string, diffs []Diff) map[string][]string {
	m := map[string][]string{}
	isIx := func(n string) bool { _, ok := pre.Ix[n]; return ok }
	isAl := func(n string) bool { _, ok := pre.Al[n]; return ok }
	read := false
	switch c.K {
	case "list", "listal", "has", "hasalias", "search", "string", "scriblist", "scribeng", "panicsearch", "panicquery", "panicbuild", "panicdoc":
		read = true
	}
	for _, d := range diffs {
		t := d.String()
		switch d.Cat {
		case "stuck":
			addTo(m, "C03", "%s", t)
			continue
		case "panic":
			addTo(m, "C04", "%s", t)
		case "integrity":
			addTo(m, "C05", "%s", t)
		case "inconsistent", "listdup", "reslist":
			addTo(m, "C09", "%s", t)
		case "verbatim":
			addTo(m, "C16", "%s", t)
		case "match":
			addTo(m, "C10", "%s", t)
		case "rank", "order", "resord", "aliasord":
			addTo(m, "C11", "%s", t)
		case "resolve", "ressearch":
			addTo(m, "C06", "%s", t)
		case "exist":
			if isIx(d.Name) && !(c.K == "rename" || c.K == "drop") || c.K == "put" {
				addTo(m, "C02", "%s", t)
			}
			if c.K == "put" {
				addTo(m, "C06", "%s", t)
			}
			if c.K == "alias" || c.K == "unalias" {
				addTo(m, "C09", "%s", t)
			}
		case "content":
			if c.K != "drop" || d.Name != c.N {
				addTo(m, "C02", "%s", t)
			}
			if c.K == "put" || isAl(d.Name) {
				addTo(m, "C06", "%s", t)
			}
		case "alias":
			switch {
			case c.K == "drop" || c.K == "rename":
				addTo(m, "C05", "%s", t)
			case c.K == "unalias":
				if c.M != "" {
					addTo(m, "C05", "%s", t)
				}
				addTo(m, "C09", "%s", t)
			case c.K == "alias":
				if !isIx(c.M) {
					addTo(m, "C05", "%s", t)
				}
				addTo(m, "C09", "%s", t)
			default:
				addTo(m, "C09", "%s", t)
			}
		case "res":
			switch c.K {
			case "alias", "unalias", "has", "hasalias":
				addTo(m, "C09", "%s", t)
			case "scriblist":
				addTo(m, "C13", "a row of a listing that grows changes the others: %s", t)
			}
		}
		switch c.K {
		case "rename":
			addTo(m, "C07", "%s", t)
		case "drop":
			addTo(m, "C08", "%s", t)
		}
		if read && d.Cat != "reslist" && d.Cat != "ressearch" && d.Cat != "res" && d.Cat != "match" && d.Cat != "rank" && d.Cat != "resord" && d.Cat != "panic" {
			addTo(m, "C13", "%s", t)
		}
		if !read && d.Cat != "res" && d.Cat != "panic" && d.Cat != "inconsistent" && d.Cat != "listdup" {
			switch {
			case expFalse && (c.K == "alias" || c.K == "unalias" || c.K == "rename" || c.K == "drop"):
				addTo(m, "C20", "a failing %s changed something: %s", c.K, t)
			case d.Cat == "alias" || d.Cat == "aliasord" || d.Cat == "integrity":
				if d.Name != "" && !in(dal, d.Name) {
					addTo(m, "C20", "%s", t)
				}
			case d.Cat == "exist" || d.Cat == "content" || d.Cat == "order":
				if d.Name != "" && !in(dix, d.Name) {
					addTo(m, "C20", "%s", t)
				}
			case d.Cat == "match" || d.Cat == "rank":
				if isIx(d.Name) && !in(dix, d.Name) {
					addTo(m, "C20", "%s", t)
				}
			}
		}
	}
	return m
}
