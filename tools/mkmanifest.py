#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
RE = "TLC enumerates the specification's state graph; every transition is replayed into the real repository and the observed state compared; random behaviours (tlc -simulate) likewise"
PA = "TLC generates concurrent programs; their schedules are enumerated against the real code under a controlled scheduler; "
T = {
 "C01": (PA + "recorded histories are validated by TLC against Lin.tla (linearizability)", "all schedules up to the preemption bound for every generated pair of calls, samples of longer programs"),
 "C02": (RE + "; concurrent histories validated by TLC (content mode of Lin.tla)", "exhaustive within constants; schedules bounded by preemptions"),
 "C03": (RE + " with a probe of every call afterwards; " + PA + "a schedule with no runnable thread is a violation", "exhaustive within constants; schedules bounded by preemptions"),
 "C04": (PA + "race detector and panic monitor on each schedule", "happens-before races on every explored schedule; bounded preemptions"),
 "C05": (RE, "exhaustive within the model's constants"), "C06": (RE, "exhaustive within the model's constants"),
 "C07": (RE, "exhaustive within the model's constants"), "C08": (RE, "exhaustive within the model's constants"),
 "C09": (RE, "exhaustive within the model's constants"),
 "C10": ("TLC checks the engines' algorithms against the declarative definition for all small indices and queries (Engines.tla); all of them, random and closed-form large ones replayed into the real engines", "exhaustive within constants"),
 "C11": ("as C10, order and hits compared exactly; repository graphs and walks; concurrent histories validated by TLC in exact mode", "exhaustive within constants"),
 "C12": ("TLC checks posting lists put by put (Engines.tla); behaviours replayed into the real index, its postings compared", "exhaustive within constants"),
 "C13": (RE + "; results kept and rechecked at the end of each behaviour, listings and engine arguments overwritten", "exhaustive within constants; scribbling at every state of the graph"),
 "C14": ("TLC checks scanning and filter composition (Analyze.tla) for all short texts; all of them and random ones replayed into the real pipeline", "exhaustive over character classes up to the text length; characters per class sampled"),
 "C15": ("TLC checks and generates documents and selections of their words (Text.tla); replayed into the real code", "exhaustive for tiny vocabularies, sampled beyond"),
 "C16": ("TLC checks and generates request lists (Verbatim.tla); replayed, identifiers, contents and matches compared; repository walks", "exhaustive for tiny requests, sampled beyond"),
 "C17": ("TLC proves the reading machine equal to the definition on all vowel/consonant patterns up to the bound (Regions.tla); all words up to 4-5 letters and words of every pattern replayed", "exhaustive up to the bound"),
 "C18": ("TLC enumerates the state graph (RepoMC); at every state an engine panics inside a search and every further call is compared with the specification; random behaviours with up to hundreds of panics (Fault.tla) and concurrent programs with panicking searches (RepoFault.tla) likewise, histories validated by TLC", "exhaustive within constants for one panic; sampled histories; schedules bounded by preemptions"),
 "C28": ("TLC checks small instances of the stream machine exhaustively (Stream.tla: a read moves its own cursor only) and generates behaviours of streams read between repository calls; replayed step by step with every answer compared, with crowds of further streams, and with one goroutine per stream under the controlled scheduler and the race detector", "exhaustive in the specification for tiny instances; sampled behaviours and schedules"),
 "C27": ("TLC generates random behaviours with panics of the builder and the pipeline, up to hundreds (Fault.tla), and concurrent programs with a panicking search (RepoFault.tla); replayed, every state observed, histories validated by TLC", "sampled histories; schedules bounded by preemptions"),
 "C19": ("TLC checks a decoder machine against the meaning of every JSON tree of the grammar (Wire.tla); all trees replayed as texts into the real decoder, encodings round-tripped", "exhaustive over tree shapes; strings, numbers and layouts sampled"),
 "C20": (RE, "exhaustive within the model's constants"),
 "C21": ("TLC enumerates the deliveries of every call to instances the builder made (Custom.tla); random behaviours replayed on a repository of recording indices, deliveries and answers compared", "exhaustive in the specification within constants, sampled in the replay"),
 "C22": ("TLC enumerates identifiers and contents (Keys.tla: the key is an injective function of the identifier); all of them realised as identifiers in several alphabets and hashed by the real code", "exhaustive up to the length bound; collisions beyond the identifiers taken are not searched for"),
 "C23": ("TLC checks that any order of adjacent exchanges ends in the declarative order (Sort.tla); all small and random larger collections sorted by the real code and compared", "exhaustive for small collections, sampled beyond"),
 "C24": ("TLC generates behaviours of several repositories side by side (Twin.tla: a call on one is a stuttering step of the others); replayed call by call with all of them observed after each, and one thread per repository under the controlled scheduler with the race detector", "sampled behaviours and schedules"),
 "C26": ("TLC checks that the written form determines the index (Dump.tla); random behaviours of puts, writing and reading back replayed, JSON and textual forms and every engine's answers compared; the repository's form along behaviours of Custom.tla", "sampled behaviours; exhaustive in the specification for tiny indices"),
 "C25": ("TLC generates behaviours of a repository searched with engines answering any rows (Eng.tla: what each call of the engine is shown, what the search returns); replayed with a recording engine", "sampled behaviours"),
}
checks = []
for p, (t, n) in T.items():
    checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                   "technique": "TLA+ specification checked by TLC, bound to the code by conformance: " + t, "level": "model_checking",
                   "level_note": n + ". Trusts the driver's abstraction (harness/vdrv) and TLC."})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup",
           "hooks": {"guard": "none: /repo holds no hooks", "enable": "the checks replace package sync by a scheduler (harness/vsync) through 'go build -overlay', made from the working tree by harness/instr at each run", "source_commits": []},
           "checks": checks, "not_applicable": [],
           "notes": "TLA+ with TLC. KNOWN_FINDINGS lists the defects that were repaired; none is left open."}, open("MANIFEST.json", "w"), indent=1)
