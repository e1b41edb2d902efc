From 6214943b003a6da3c4376d2ecf3fd26a03cee4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:08 +0000
Subject: [PATCH 01/12] fix: release both locks on every return path of UnAlias

Un-aliasing an unknown index or from an unknown alias returned with a lock
held, so a later call blocked forever. Holding both also makes the existence
checks and the removal one atomic step.
---
 repos_repo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 659ec0d..f69d4b3 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -111,11 +111,12 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 	}
 	// only remove an index-alias association
 	h.indicesMu.RLock()
+	defer h.indicesMu.RUnlock()
 	if _, ok := h.indices[index]; !ok {
 		return false
 	}
-	h.indicesMu.RUnlock()
 	h.aliasesMu.Lock()
+	defer h.aliasesMu.Unlock()
 	indices, ok := h.aliases[alias]
 	if !ok {
 		return false
@@ -131,7 +132,6 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 	if len(newIndices) != len(indices) {
 		h.aliases[alias] = newIndices
 	}
-	h.aliasesMu.Unlock()
 	return true
 }
 
-- 
2.43.0


From 369b6e448feae4ea2b3b114c3cfaa5c4f1056d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:09 +0000
Subject: [PATCH 02/12] fix: remove an alias when UnAlias takes its last index

As Drop does. The empty alias was kept, and documents put through it were
silently lost.
---
 repos_repo.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos_repo.go b/repos_repo.go
index f69d4b3..45ec095 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -129,7 +129,9 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 			newIndices = append(newIndices, aliasedIndexName)
 		}
 	}
-	if len(newIndices) != len(indices) {
+	if len(newIndices) < 1 {
+		delete(h.aliases, alias)
+	} else if len(newIndices) != len(indices) {
 		h.aliases[alias] = newIndices
 	}
 	return true
-- 
2.43.0


From 473eb3781bf4d97b79881380ac3a5ba21a7b1946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:09 +0000
Subject: [PATCH 03/12] fix: do not destroy an index renamed to its own name

---
 repos_repo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/repos_repo.go b/repos_repo.go
index 45ec095..fe63b66 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -146,6 +146,10 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 		h.indicesMu.Unlock()
 		return false
 	}
+	if old == new {
+		h.indicesMu.Unlock()
+		return true
+	}
 	// 2. Perform the swap
 	h.indices[new] = index
 	delete(h.indices, old)
-- 
2.43.0


From 0641180703476f9622b2df1789ce56da9fdd8b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:09 +0000
Subject: [PATCH 04/12] fix: hold the aliases lock while Rename rewrites
 aliases

Rename iterated and wrote the aliases without it: a data race, and a fatal
concurrent map iteration and map write, with any concurrent alias operation.
---
 repos_repo.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos_repo.go b/repos_repo.go
index fe63b66..00bb496 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -154,6 +154,7 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 	h.indices[new] = index
 	delete(h.indices, old)
 	// 3. Update indices to
+	h.aliasesMu.Lock()
 	for _, indices := range h.aliases {
 		for i, indexName := range indices {
 			if indexName == old {
@@ -161,6 +162,7 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 			}
 		}
 	}
+	h.aliasesMu.Unlock()
 	h.indicesMu.Unlock()
 	return true
 }
-- 
2.43.0


From 9269a049bb03e849ec8d3bc4282f9cb19e414e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:09 +0000
Subject: [PATCH 05/12] fix: keep alias entries unique when Rename replaces an
 index

An alias of both the old and the new name listed the new one twice: searches
returned, and puts stored, every document twice.
---
 repos_repo.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 00bb496..95b61f1 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -155,12 +155,22 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 	delete(h.indices, old)
 	// 3. Update indices to
 	h.aliasesMu.Lock()
-	for _, indices := range h.aliases {
-		for i, indexName := range indices {
+	for alias, indices := range h.aliases {
+		newIndices := make([]string, 0, len(indices))
+		hasNew := false
+		for _, indexName := range indices {
 			if indexName == old {
-				indices[i] = new
+				indexName = new
+			}
+			if indexName == new {
+				if hasNew {
+					continue
+				}
+				hasNew = true
 			}
+			newIndices = append(newIndices, indexName)
 		}
+		h.aliases[alias] = newIndices
 	}
 	h.aliasesMu.Unlock()
 	h.indicesMu.Unlock()
-- 
2.43.0


From 77b3d9ee2fba5fff27f7a1f3b294164ec80b368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:10 +0000
Subject: [PATCH 06/12] fix: resolve the target of Put and store in one
 critical section

Two concurrent first puts to a name both saw no index, and the second replaced
the index the first had created, losing its document.
---
 repos_repo.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 95b61f1..65da41d 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -232,15 +232,15 @@ func (h *IndexRepo) Search(
 }
 
 func (h *IndexRepo) Put(indexName string, doc DocRequest) {
-	indices, ok := h.getIndices(indexName)
 	h.indicesMu.Lock()
+	defer h.indicesMu.Unlock()
+	indices, ok := h.getIndices(indexName)
 	if !ok {
 		// TODO sanitize name
 		// TODO parametrize index engine
 		in := h.indexBuilder(indexName)
 		h.indices[indexName] = in
 		in.Put(doc)
-		h.indicesMu.Unlock()
 		return
 	}
 	var wg sync.WaitGroup
@@ -252,7 +252,6 @@ func (h *IndexRepo) Put(indexName string, doc DocRequest) {
 		}(in)
 	}
 	wg.Wait()
-	h.indicesMu.Unlock()
 }
 
 func (h *IndexRepo) Drop(indexName string) bool {
@@ -298,12 +297,11 @@ func (h *IndexRepo) ListAliases() AliasesResult {
 	return AliasesResult{Aliases: aliases}
 }
 
+// getIndices must be called with indicesMu held
 func (h *IndexRepo) getIndices(name string) ([]Index, bool) {
 	// 1. Search on indices directly
-	h.indicesMu.RLock()
 	in, ok := h.indices[name]
 	if ok {
-		h.indicesMu.RUnlock()
 		return []Index{in}, true
 	}
 	// 2. If not found, search on aliases
@@ -311,14 +309,12 @@ func (h *IndexRepo) getIndices(name string) ([]Index, bool) {
 	aliasedIndices, ok := h.aliases[name]
 	if !ok {
 		h.aliasesMu.RUnlock()
-		h.indicesMu.RUnlock()
 		return nil, false
 	}
 	res := make([]Index, len(aliasedIndices))
 	for i, index := range aliasedIndices {
 		res[i] = h.indices[index]
 	}
-	h.indicesMu.RUnlock()
 	h.aliasesMu.RUnlock()
 	return res, true
 }
-- 
2.43.0


From 41cc64c2310fa4b9b56daa7e0fade54feb485ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:10 +0000
Subject: [PATCH 07/12] fix: check and drop an index in one critical section

Two concurrent drops of one index both succeeded, and a drop succeeded without
effect when a rename came between its check and its deletion.
---
 repos_repo.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 65da41d..2d327f7 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -255,14 +255,12 @@ func (h *IndexRepo) Put(indexName string, doc DocRequest) {
 }
 
 func (h *IndexRepo) Drop(indexName string) bool {
-	h.indicesMu.RLock()
+	h.indicesMu.Lock()
 	_, ok := h.indices[indexName]
 	if !ok {
-		h.indicesMu.RUnlock()
+		h.indicesMu.Unlock()
 		return false
 	}
-	h.indicesMu.RUnlock()
-	h.indicesMu.Lock()
 	h.aliasesMu.Lock()
 	// Drop references to index
 	for alias, indices := range h.aliases {
-- 
2.43.0


From 2a783a93c2d46c41351bc2ed809c64ed91e8c2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:10 +0000
Subject: [PATCH 08/12] fix: return copies of the alias entries from
 ListAliases

The rows shared memory with the repository: later operations changed them, and
a caller writing to them changed the aliases.
---
 repos_repo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos_repo.go b/repos_repo.go
index 2d327f7..1ee8f05 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -288,7 +288,7 @@ func (h *IndexRepo) ListAliases() AliasesResult {
 	aliases := make([]AliasesResultRow, len(h.aliases))
 	i := 0
 	for k, v := range h.aliases {
-		aliases[i] = AliasesResultRow{Alias: k, Indices: v}
+		aliases[i] = AliasesResultRow{Alias: k, Indices: slices.Copy(v)}
 		i++
 	}
 	h.aliasesMu.RUnlock()
-- 
2.43.0


From a2e9f547a54bc277db3b269b8a015d0485430470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:11 +0000
Subject: [PATCH 09/12] fix: count hits per stored document, not per identifier
 hash

Documents sharing an identifier were counted as one: HitsSearch returned
documents lacking a query token, and the first content in place of the others.
---
 search_hits_search.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/search_hits_search.go b/search_hits_search.go
index ab7cb97..65b7f65 100644
--- a/search_hits_search.go
+++ b/search_hits_search.go
@@ -45,8 +45,8 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 	// A document must contain ALL tokens to be included in results
 	threshold := len(tokens)
 
-	// Map to count hits per document (using document hash as key for uniqueness)
-	docHits := make(map[HashKey]SearchResult)
+	// Map to count hits per document (by document index: identifiers may repeat)
+	docHits := make(map[int]SearchResult)
 
 	// Phase 1: Count hits for each document
 	for _, token := range tokens {
@@ -59,15 +59,14 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 		// For each document containing this token, increment its hit count
 		for _, index := range indexed {
 			doc := indexer.Document(index)
-			hashKey := doc.Hash()
 
-			if result, exists := docHits[hashKey]; exists {
+			if result, exists := docHits[index]; exists {
 				// Document already seen - increment hit count
 				result.Hits++
-				docHits[hashKey] = result
+				docHits[index] = result
 			} else {
 				// First time seeing this document - initialize with 1 hit
-				docHits[hashKey] = SearchResult{
+				docHits[index] = SearchResult{
 					Document: doc,
 					Hits:     1,
 				}
@@ -81,11 +80,8 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 	// Iterate through documents in index order to ensure deterministic results
 	// This prevents random ordering when documents have the same hit count
 	for i := 0; i < indexer.Len(); i++ {
-		doc := indexer.Document(i)
-		hashKey := doc.Hash()
-
 		// Only include documents that have ALL tokens (hits >= threshold)
-		if result, exists := docHits[hashKey]; exists && result.Hits >= threshold {
+		if result, exists := docHits[i]; exists && result.Hits >= threshold {
 			results = append(results, result)
 		}
 	}
-- 
2.43.0


From 6b2e3de1f510f9589fa56a2fa1cb37ddce614d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:11 +0000
Subject: [PATCH 10/12] fix: keep document order between equally ranked hits

With more than twelve results an unstable sort shuffled documents sharing an
identifier.
---
 search_hits_search.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search_hits_search.go b/search_hits_search.go
index 65b7f65..0f2cb9c 100644
--- a/search_hits_search.go
+++ b/search_hits_search.go
@@ -87,7 +87,7 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 	}
 
 	// Phase 3: Sort by relevance (hit count descending, then by document order for ties)
-	sort.Sort(results)
+	sort.Stable(results)
 
 	return slices.Slice[SearchResult](results)
 }
-- 
2.43.0


From d9325c8ce72d5586c88d77cf7747ea30c6c2ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:11 +0000
Subject: [PATCH 11/12] fix: return the results of an alias search in a
 deterministic order

They came in the order in which the goroutines finished.
---
 repos_repo.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 1ee8f05..82bc308 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -217,17 +217,17 @@ func (h *IndexRepo) Search(
 	)
 	wg.Add(len(indices))
 
-	rl := new(sync.Mutex)
-	for _, index := range indices {
-		go func(idx Index) {
+	results := make([]slices.Slice[SearchResult], len(indices))
+	for i, index := range indices {
+		go func(i int, idx Index) {
 			defer wg.Done()
-			sr := idx.Search(terms, engine)
-			rl.Lock()
-			result.AppendVector(sr)
-			rl.Unlock()
-		}(index)
+			results[i] = idx.Search(terms, engine)
+		}(i, index)
 	}
 	wg.Wait()
+	for _, sr := range results {
+		result.AppendVector(sr)
+	}
 	return streams.MemReader(result, nil), nil
 }
 
-- 
2.43.0


From c29361270169552667a4956df5c1f02b5261fc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:11 +0000
Subject: [PATCH 12/12] fix: compute RV for words without an R1 region
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

RV does not depend on R1: in "creía" R1 is empty and RV is "ía".
---
 stemmer_spanish_snowball.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/stemmer_spanish_snowball.go b/stemmer_spanish_snowball.go
index a78d696..ec590c8 100644
--- a/stemmer_spanish_snowball.go
+++ b/stemmer_spanish_snowball.go
@@ -49,9 +49,6 @@ func R1R2RV(w []byte) (r1 []byte, r2 []byte, rv []byte) {
 			foundVowel = true
 		}
 	}
-	if r1 == nil {
-		return
-	}
 	// R2
 	foundVowel = false
 	foundNonVowel = false
-- 
2.43.0

