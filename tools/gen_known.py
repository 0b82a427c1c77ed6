#!/usr/bin/env python3
"""Source of known_findings.json: defects of ldmbouge/CODD that the checks found. 'open' ones are reported as KNOWN-FINDING, 'fixed' ones suppress nothing."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("f36f0aa","C01","search never reopened a state reached again with a strictly better value, so the optimum through it was lost"),
 ("ebae4f3","C10","after widening, the node was dropped instead of being processed again: wrong optimum or no progress"),
 ("83a7eb1","C07","exact solutions reaching the sink early in an inexact relaxed diagram were neither published nor covered by the cutset"),
 ("cd247f2","C04","exact compilation pruned with bounds that were not yet computed"),
 ("b8bf008","C11","the solution callback registered by a search kept a dangling reference to a local variable"),
 ("827851d","C09","the final report did not state correctly whether the limit was hit"),
 ("1b19eb0","C17","GNSet::insert into a set with zero storage never terminated (doubling zero)"),
 ("3573eb1","C17","GNSet::removeAbove trusted a stale largest-value field: it kept values above the limit or indexed past the storage"),
 ("4fbd892","C17","moved-from GNSet kept its capacity and crashed on reuse"),
 ("dcff164","C17","GNSet iteration truncated elements above 32767 to short"),
 ("f099661","C18","hash of equal GNSets depended on their capacity"),
 ("bf09e37","C16","reflection (ofs - S) of NatSet wrong across words"),
 ("0a6c006","C16","NatSet(lb,ub) assertion failed on valid full-capacity intervals"),
 ("1edf6ae","C26","revBitsOfWord left one byte of its result uninitialised"),
 ("e9991d8","C21","hash tables of requested capacity 0 or 1 crashed"),
 ("01fd9c5","C22","Pool::allocate asserted on valid requests above the segment size from an empty segment"),
 ("3cd8980","C25","UnionFind::merge of two elements of one set returned nothing (undefined value)"),
 ("e4bdc7a","C19","Heap::find looked at slots beyond the held elements (stale or null handles)"),
 ("9c40e2b","C26","moved-from FArray could not be assigned again"),
 ("94e6784","C23","moved-from Vec could not be reused"),
 ("ee4bd9c","C14","dominance could replace the sink by an ordinary node and lose the solution"),
 ("47b5321","C28","display(): the forked child returned into the caller when the viewer program is missing"),
 ("97499d9","C12","search leaked open nodes, their states and its pools"),
 ("2561c4a","C08","reset() kept the root of an earlier apply() (dangling)"),
 ("b5f397d","C06","a node dropped earlier in the compilation blocked merging, exceeding the width"),
 ("8b5439f","C20","CQueue of initial size 0 shared one slot between elements"),
 ("19355c1","C19","Heap::decrease only floated up, losing order for keys that get worse"),
 ("3505af9","C24","mergeSort put its auxiliary array on the stack (overflow for large inputs)"),
 ("5d86648","C17","iteration over a copied set without storage ran past the end"),
]
head = subprocess.run(["git","-C","/repo","log","--format=%h"],capture_output=True,text=True).stdout.split()
for c,_,_ in F: assert any(h.startswith(c) or c.startswith(h) for h in head), c
json.dump(dict(open=[], fixed=[f"fixed: property={p} {c} {w}" for c,p,w in F]), open(os.path.join(H,"known_findings.json"),"w"), indent=1)
