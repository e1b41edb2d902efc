#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
R="repos_repo.go"; M="index_memory_index.go"; H="search_hits_search.go"; L="search_linear_search.go"
P=[]
def p(id,title,statement,over,qtext,why,files,mechanism,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
           why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mechanism]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title)); P.append(d)
ST=[("indices","index name -> index (documents in insertion order)",R),("aliases","alias -> ordered list of index names",R)]
MU=[("indices lock","reader/writer lock over the index table; "+R),("aliases lock","reader/writer lock over the alias table; "+R)]

p("C01","Concurrent repository calls take effect one at a time",
 "Whatever repository calls (put, search, alias, un-alias, rename, drop, has, listings) run concurrently from several goroutines, there is one order of them, consistent with real time, in which every call returns what it would return executed alone, and the repository ends in the state that order produces. In particular two drops of one index cannot both succeed, a put through an alias of several indices is seen by a search in all of them or in none, and no search or listing observes a half-done operation.",
 ["schedules","histories"],"every interleaving of the goroutines' synchronisation steps, every set of concurrent calls, every repository state they start from",
 "All existing repository tests are single-threaded: no interleaving at all is exercised.",[R],MU,ST,["call/return of every Repo method"])
p("C02","An accepted document is never lost, duplicated or misplaced",
 "When a put returns, the document is stored exactly once in each index its target name designated (the index of that name, else every index of the alias of that name, else a new index created under that name), also when several puts race to create the same index. It stays there, unchanged and visible to every later search of that index, until that index is dropped or replaced by a rename.",
 ["schedules","histories","inputs"],"every sequence or concurrent set of operations around the put, including racing first puts, alias changes, renames and drops of other indices",
 "Tests put a handful of documents sequentially and mostly only check that a search returns no error.",[R,M],[("put resolves its target and stores",R),("append to documents and postings",M)],ST,["Put, then Search(name, any, match-all engine)"])
p("C03","No repository call ever blocks forever",
 "Any finite collection of repository calls, issued in any order from any number of goroutines, all terminate, including calls that fail or change nothing (unknown index, unknown alias, association already absent). Afterwards the repository still answers every further call, reading or writing.",
 ["schedules","histories"],"every call in every state followed by every other call, and every interleaving of concurrent calls",
 "A leaked or inverted lock only shows when a particular later or concurrent call needs it; tests never call anything after a failed un-alias and never run calls concurrently.",[R],MU,None,["return of every Repo method"])
p("C04","Concurrent repository use has no data races and no crashes",
 "Any mix of repository calls from several goroutines, including searches and listings while others write, never makes two goroutines access the same memory unsynchronised, at least one writing, and never panics or crashes the process.",
 ["schedules"],"every pair (and sampled triples) of operations in every small state, over their interleavings",
 "Tests run under the race detector but start no goroutines except inside one call.",[R,M],MU,ST,["happens-before of memory accesses while Repo methods run"])
p("C05","An alias names only existing indices, each once, and is never empty",
 "At every moment each alias lists at least one index, lists no index twice, and lists only indices that exist: attaching to an unknown index is refused, dropping an index detaches it everywhere, a rename is followed by every alias, and removing the last index of an alias removes the alias.",
 ["histories"],"every sequence of put, alias, un-alias, rename and drop",
 "Tests apply at most two alias operations per repository and never look at the alias table.",[R],[("alias, un-alias, rename and drop maintain the alias table",R)],ST,["ListAliases, HasAlias, List, Has after every call"])
p("C06","A name reaches its index, else its alias's indices, else nothing",
 "A put or search addressed to a name reaches the index of that name if it exists, even when an alias has the same name; otherwise exactly the indices currently attached to the alias of that name, a search returning the concatenation of each one's results. If the name is neither, a search returns an error and no results, and a put creates a new index under that name.",
 ["histories","inputs"],"every repository state and every name, including names that are both index and alias",
 "Tests search by alias but only check the absence of an error, or membership for one two-index alias; shadowing and error cases are not tested.",[R],[("name resolution of put and search",R)],ST,["Search/Put by every name after every call"])
p("C07","A rename moves an index, its contents and its aliases, and nothing else",
 "Renaming an existing index succeeds and afterwards the new name holds exactly the documents the old name held, the old name is no longer an index (unless both names are equal, when nothing changes), and every alias that listed the old name lists the new one instead, exactly once. If the new name was another index, that index is replaced. Renaming an unknown index returns false and changes nothing.",
 ["histories","inputs"],"every state and every pair of names, including equal names, names of other indices and names of aliases",
 "Tests rename once and only check that a later search by alias gives no error.",[R],[("rename swaps the table entry and rewrites aliases",R)],ST,["Rename result, then the whole observable state"])
p("C08","A drop removes exactly one index and every reference to it",
 "Dropping an existing index succeeds, makes its name unknown as an index, removes its documents from every search, direct or by alias, and detaches it from every alias, an alias left with nothing disappearing; re-creating the name starts empty. Dropping an unknown name (an alias's name included) returns false and changes nothing.",
 ["histories","inputs"],"every state and every name",
 "Tests drop a repository's only index.",[R],[("drop filters aliases and deletes the table entry",R)],ST,["Drop result, then the whole observable state"])
p("C09","Answers and listings report the repository's true state",
 "The index listing contains every existing index exactly once and nothing else, the alias listing every alias with exactly its attached indices, and the two existence queries agree with them. Attaching an alias returns true exactly when it adds a new association to an existing index; removing a whole alias returns whether it existed; removing one index from an alias returns true exactly when both the index and the alias exist, and a removed association is gone.",
 ["histories","inputs"],"every state, every operation and argument",
 "Tests check a few return values in one or two states and never call the listings.",[R],[("return values of alias/un-alias; listings; existence queries",R)],ST,["return values of every Repo method"])
p("C10","A search returns exactly the documents containing every query token",
 "For any index contents and any non-empty query, both real search engines return every stored document whose analysed search text contains all tokens of the analysed query, once per stored document, and no other document; a query with no tokens returns nothing. This holds also when documents share an identifier, when query tokens repeat, and for any number of documents and tokens; the match-all engine returns every document and the match-none engine none.",
 ["inputs","histories"],"every collection of documents (including repeated identifiers), every query (including repeated and unknown tokens)",
 "Tests use at most four documents with distinct identifiers and at most three distinct tokens.",[H,L,"search_noop_search.go",M],[("hit counting and threshold",H),("posting-list intersection",L)],None,["results of Search with each engine"])
p("C11","Result order and hit counts follow from contents alone",
 "The hits engine returns results in non-increasing order of hits, equal hits in ascending document identifier, equal identifiers in insertion order; the linear and match-all engines return insertion order; a search by alias concatenates its indices' results in the order they were attached. Every result of either real engine carries as hits the number of tokens of the analysed query (repeats counted), match-all results carry zero. Repeating a search with no change between gives the identical sequence.",
 ["inputs","histories","schedules"],"every collection of documents, every query, and every schedule of the per-index goroutines of a search by alias",
 "Determinism is tested for one index with four documents; ordering for three documents already in order; alias searches never.",[H,L,"search_result.go",R],[("result sorting","search_result.go"),("collection of per-index results",R)],None,["sequence returned by Search"])
p("C12","An index maps each token to exactly the documents containing it",
 "After any sequence of puts an index exposes one position per put in insertion order, never changing or removing earlier ones, and for each token a strictly ascending list of exactly the positions whose analysed search text contains that token (once even if the token repeats), and nothing for a token that occurs nowhere.",
 ["histories","inputs"],"every sequence of documents and every token",
 "Tests only count map entries before and after searches.",[M],[("put appends document and postings",M)],[("documents","stored documents by position",M),("postings","token -> positions",M)],["Len, Document, Indexed as seen by an engine"])
p("C13","Searches and listings are read-only, isolated snapshots",
 "No search, listing or existence query changes what any later call returns, and what they returned never changes afterwards, whatever operations follow. A caller that modifies a listing it received, or an engine that modifies the posting list or token list it was given, does not affect the repository, an index, or any other result.",
 ["histories"],"every history of operations interleaved with reads whose results are kept (and overwritten by the caller)",
 "Tests read each result immediately and once.",[R,M],[("copying of listings and posting lists",R+", "+M)],ST,["results kept and re-read after later operations"])
p("C14","Text analysis is exactly tokenise, then each filter in order",
 "A pipeline's output is its tokenizer's output passed through its filters in the given order, for any number of filters, deterministically and without modifying its inputs. The alphanumeric tokenizer yields the maximal runs of letters and numbers of the text in order (a custom one, of the characters any of its predicates keep), the lower-case filter lower-cases each token in place, the stop-word filter removes exactly the listed words keeping the order of the rest, and the stemming filter replaces each token by its own stem.",
 ["inputs","configurations"],"every text over letters, accented letters, digits, other numbers, symbols and spaces; every pipeline composition",
 "Tests use one pipeline on a few Spanish phrases and never inspect tokens.",["analyze_clean_tokenizer.go","analyze_compose.go","analyze_lowercase_filter.go","analyze_stem_filter.go","analyze_stopwords_filter.go"],[("field splitting","analyze_clean_tokenizer.go"),("filter composition","analyze_compose.go")],None,["Tokenize / Filter outputs"])
p("C15","A document is found by any words of its own search text",
 "With any analysis pipeline, documents and queries are analysed identically: any non-empty selection of a document's words, in any order, with repeats, with any separators between them and (with the lower-case filter, for letters with a one-to-one case mapping) in either letter case, finds that document with both real engines, provided the analysis leaves at least one of the selected words.",
 ["inputs","configurations"],"every document text, every selection of its words, every rendering, each standard pipeline",
 "Tests query one to three literal words of hand-picked texts.",[M,"analyze_compose.go"],[("same tokenizer for put and search",M)],None,["Search(words of the document)"])
p("C16","Documents are matched by search text and returned verbatim",
 "A result's document carries byte for byte the identifier and content submitted with the put that stored it, whatever they contain. Matching depends only on the search text (the content itself, or the separate text if one was supplied), never on the identifier, the media type, or the stored content when a separate search text was given.",
 ["inputs"],"every identifier, content, search text and media type, including empty ones and repeated identifiers",
 "Tests check identifiers of a few results, content never, and never use a separate search text.",["entities_doc.go","entities_request.go",M,H,L],[("request to document conversion",M),("request constructors","entities_request.go")],None,["documents in search results"])
p("C17","Stemming regions follow the Spanish Snowball definition",
 "For every lower-case word, R1 is the part after the first non-vowel that follows a vowel, R2 the same within R1, and RV: if the second letter is a consonant, the part after the next following vowel; if the first two letters are vowels, the part after the next consonant; otherwise the part after the third letter; each empty when its position does not exist, and RV never depending on R1 or R2. Accented vowels and multi-byte letters count as single letters, and each region is a suffix of the word.",
 ["inputs"],"every word over vowels and consonants, single- and multi-byte",
 "Four words are tested.",["stemmer_spanish_snowball.go"],[("region scan","stemmer_spanish_snowball.go")],None,["the three returned regions"])
p("C18","A search engine that panics does not disable the repository",
 "If a caller-supplied engine panics during a search that reaches one index and the caller recovers, the repository's state is unchanged and every later call, reading or writing, still returns and behaves as if that search had not happened.",
 ["fault_sequences","histories"],"a panic of the engine in any search that reaches a single index (by name or alias), in any state, any number of times, followed by any calls or while others run",
 "No test makes an engine panic.",[R],[("deferred release of the lock in search",R)],None,["calls after a recovered panic"])
p("C19","Search results survive a JSON round trip",
 "Encoding a search result to JSON yields one valid JSON object with exactly the fields doc (with exactly id and raw) and hits, and decoding it, directly or inside a list, gives back an equal result for every valid UTF-8 identifier and content and every hit count. Decoding ignores unknown fields, accepts the fields in any order, treats null and missing fields as leaving the value unset, and reports truncated input or a field of the wrong type as an error without panicking.",
 ["inputs"],"every identifier and content (quotes, control characters, HTML characters, line separators, multi-byte text) and every count",
 "No test encodes or decodes a result.",["search_result_easyjson.go","search_result.go","entities_doc.go"],[("generated encoder and decoder","search_result_easyjson.go")],None,["MarshalJSON / UnmarshalJSON"])
p("C20","An operation affects only the indices and aliases it designates",
 "Put, alias, un-alias, rename and drop leave the existence, documents, document order and search results of every index they do not designate, and every alias they do not designate or that does not list a dropped or renamed index, exactly as they were; a put adds nothing to any index other than those its name designates, and an operation that reports failure changes nothing at all.",
 ["histories","inputs"],"every state with several indices and aliases, every operation",
 "Tests rarely hold more than two indices and never re-check the ones not involved.",[R],[("per-name table updates",R)],ST,["whole observable state before and after each call"])
p("C21","Any index implementation receives its calls and answers for itself",
 "Whatever index implementation the builder supplies, a put that creates an index stores, under that name, an index the builder made for that name, and a rename or drop moves or forgets that very index. Every put and search is passed on, its request, text and engine unchanged, exactly once to each index its name designates and to no other. A search returns exactly the rows those indices returned, in attachment order, none lost, merged, reordered, filtered or altered, and what an index handed over is left as it was.",
 ["histories","configurations"],"every sequence of calls on a repository of caller-supplied indices answering anything (unordered, repeated, negative hits, nothing)",
 "Tests build every repository over the same in-memory index, whose regular answers hide what the repository does to them.",[R,"index_index.go"],[("index creation through the builder; fan-out and collection",R)],ST,["calls received by the builder's indices; results of Search"])
p("C22","A document's hash key is a function of its identifier alone",
 "Documents with the same identifier have equal hash keys, whatever their contents and whenever, however often and from however many goroutines the key is taken. Documents with different identifiers (prefixes, permutations, case variants and very long ones included) have different keys, up to accidental collisions of a 64-bit hash.",
 ["inputs","schedules"],"every pair of documents",
 "No test takes a hash key.",["entities_hash.go"],[("hash of the identifier","entities_hash.go")],None,["Doc.Hash"])
p("C23","Sorted results are in order of hits, then identifier",
 "Sorting any collection of search results orders them by non-increasing hits and, for equal hits, by ascending identifier compared byte by byte, for every hit count (zero, negative and extreme ones included) and every identifier. The comparison is a consistent strict order on any two results, and sorting, also stably, neither loses, duplicates nor alters a result.",
 ["inputs"],"every collection of results",
 "Tests sort what one engine produced: a few positive, mostly equal hit counts and short identifiers.",["search_result.go"],[("comparison and exchange","search_result.go")],None,["sort.Sort and sort.Stable over search results"])
p("C24","Separate repositories and indices share nothing",
 "Repositories, and indices made by an index builder outside of any repository, never affect one another: whatever is called on one leaves the contents, aliases, listings and every answer of the others as if it had not been called, even when they share a builder or a tokenization pipeline and use the same names, identifiers, texts and queries. Separate repositories can be used at the same time from different goroutines with the same outcome as each alone, without data races or panics.",
 ["histories","schedules","configurations"],"every interleaving of calls on several repositories, whatever they share",
 "Every test makes one repository and looks at no other.",[R,M,"analyze_compose.go"],[("state per repository and index",R),("index construction",M)],None,["observable state of each repository after calls on another"])
p("C25","A caller-supplied engine decides what a search returns",
 "A search with any engine function calls it exactly once for each index the searched name designates and for no other, with the tokens the index's pipeline makes of the query text, in order and with repetitions, and with a view of that index: all its documents in order of insertion and, for every token, exactly the positions of the documents containing it, ascending. The search's results are exactly the rows the engine returned, in its order, index by index in order of attachment, whatever they are, and what the engine returned is left as it was.",
 ["histories","inputs"],"every sequence of calls followed by a search with an engine answering anything",
 "Tests only search with the built-in engines, whose regular answers hide what is done to them.",[R,M,"search_search.go"],[("engine call on the tokens and the index",M),("collection of the answers",R)],ST,["arguments the engine receives; results of Search"])
p("C26","The written forms of an index show exactly what it holds",
 "An in-memory index encodes to a JSON object with exactly the fields indexed (its documents, each with exactly id and raw, in order of insertion) and inverted (for each token the ascending positions of exactly the documents containing it), and decoding that into a fresh index with the same pipeline gives one that holds the same documents, answers every query of every engine alike and takes further puts alike, for all valid UTF-8 text. Its textual form shows its name and, once for each token, the number and the positions of these documents; a repository's consists of those of the indices it currently holds, each once. Producing either form changes nothing.",
 ["inputs","histories"],"every sequence of puts, encodings and decodings, every identifier, content and token",
 "No test encodes an index or reads its textual form.",[M,R,"entities_doc.go"],[("field names and tags; String",M),("String",R)],None,["encoding/json of a MemoryIndex; String"])
p("C27","A builder or pipeline that panics does not disable the repository",
 "When the caller's builder panics while a document is put to an unknown name, or the caller's pipeline panics while that document is analysed, or while the query of a search that reaches one index is, and the caller recovers, every later call, reading or writing, still returns. No document has been stored, and no index or alias has changed or come into being, except that a pipeline's panic may leave an empty index of the new name; everything behaves as if the call had not happened, however often it does.",
 ["fault_sequences","histories","schedules"],"any number of panics of the builder or the pipeline, in any state, followed by any calls, or while others run",
 "No test makes a builder or a pipeline panic.",[R,M],[("deferred release of the lock in Put and Search",R),("analysis before anything is stored",M)],None,["calls after a recovered panic"])
p("C28","A search's result stream delivers its results once, in order, then ends",
 "The stream of a successful search delivers exactly the search's results as of the search, each once and in order, however its reads are interleaved with those of other streams and with repository calls, and then reports its end, without error, however often asked. The current result can be taken any number of times, and reading, abandoning or closing a stream, from whatever goroutine, changes nothing for another stream, blocks no call and races with none.",
 ["histories","schedules"],"every interleaving of reads of any number of streams with repository calls",
 "Tests read one stream to its end at once, with nothing else happening.",[R,M],[("Search assembles the stream",R),("Search of an index",M)],None,["Next, Data, Err and Close of the stream Search returns"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
open(out,"w").write("".join(json.dumps(d,ensure_ascii=False)+"\n" for d in P)); print(len(P))
import re
for d in P:
    n=len(re.findall(r"[.](\s|$)",d["statement"])); 
    if n>3: print(d["id"],n,"sentences")
