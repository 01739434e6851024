#!/usr/bin/env python3
"""Writes /verif/known_findings.json: each entry with the plan that shows it."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
K = []
POOL = {"Policy": 0, "Seed": 0, "Drop": 0, "Scribble": False}
def plan(prop, setup, tasks, probe=None):
    return {"prop": prop, "seed": 0, "kind": "probe", "pool": POOL, "sched": {"mode": 0, "seed": 0}, "setup": setup, "tasks": tasks, "probe": probe or []}
def new(o, t): return {"k": "new", "o": o, "t": t}
def dec(o, d): return {"k": "dec", "o": o, "d": "t:" + d}
def known(prop, check, sig, what, plan): K.append({"property": prop, "check": check, "sig": sig, "what": what, "plan": plan})
def fixed(prop, commit, what): K.append({"property": prop, "what": what, "fixed": "fixed: property=%s %s %s" % (prop, commit, what)})
def channel(t, *msgs):
    send, recv = [], []
    for m, d in enumerate(msgs):
        send.append({"k": "send", "o": 0, "m": m, "d": "t:" + d})
        recv.append({"k": "recv", "o": 100, "m": m})
    return plan("C06", [new(0, t), new(100, t)], [send, recv])
def recycled(t, history, doc):
    z = [{"k": "zero", "o": 0}, {"k": "zero", "o": 1}]
    e = lambda r: [{"k": "enc", "o": 0, "r": r, "x": "pair"}, {"k": "enc", "o": 1, "r": r, "x": "pair"}]
    return plan("C04", [new(0, t)], [history], [new(1, t), {"k": "reset", "o": 0}] + z + e(5) + [dec(0, doc), dec(1, doc)] + e(9))

known("C06", "intact-rejected", r"^bench\.Status$",
  "a struct whose first written field is a nil pointer without omitempty encodes as {\"a\":null\"b\":... (no comma), which no decoder accepts",
  channel("bench.Status", "{}"))
known("C06", "intact-rejected", r"^shape\.Holder:sb$",
  "a nil named slice in a field without omitempty encodes as null, which its own decoder refuses (\"value doesn't contain array\")",
  channel("shape.Holder", '{"by":"AA==","b8":"AAAAAAAAAAA=","mi":{"a":1},"a3":[1,2,3],"ti":1,"mf":{},"mu":{}}'))
known("C06", "intact-rejected", r"^shape\.Holder:mi$",
  "a nil named map in a field without omitempty encodes as null, which its own decoder refuses (\"value doesn't contain object\")",
  channel("shape.Holder", '{"by":"AA==","b8":"AAAAAAAAAAA=","sb":[],"a3":[1,2,3],"ti":1,"mf":{},"mu":{}}'))
p = plan("C06", [new(0, "shape.Bytes8"), new(100, "shape.Bytes8")],
  [[{"k": "send", "o": 0, "m": 0, "d": 't:"AAAAAAAAAAA="'}], [{"k": "recv", "o": 100, "m": 0, "x": "corrupt", "d": 't:"' + "AAAA" * 8 + '"'}]])
known("C06", "intact-rejected", r"^kf\.Note:r$",
  "a nil named pointer in a field without omitempty encodes as null, which its own decoder refuses (\"value doesn't contain string\")",
  channel("kf.Note", '{"n":1}'))
known("C06", "panic", r"^shape\.Bytes8$",
  "decoding a base64 text that is too long into a [N]byte panics (index out of range)", p)
known("C06", "value-lost", r"^kf\.Visit\.P\.At\[\]$",
  "IsZero of a named array of time.Time answers the wrong way round, so an omitempty struct holding only such an array is left out when the array is set",
  channel("kf.Visit", '{"p":{"at":["2020-01-01T00:00:00Z","2021-01-01T00:00:00Z"],"n":0},"n":1}'))
known("C04", "reset-state", r"^shape\.MapI$",
  "Reset of a named map keeps its keys",
  recycled("shape.MapI", [dec(0, '{"a":1}')], '{"b":2}'))
known("C04", "reset-dec", r"^bench\.Entities\.Hashtags\[\]\.(Text|Indices)$",
  "elements of a slice of structs that a second decode pushed behind the end of the slice are not cleared by Reset and show through in a later decode",
  recycled("bench.Entities", [dec(0, '{"hashtags":[{"text":"old","indices":[1]}]}'), dec(0, '{"hashtags":[]}')], '{"hashtags":[{}]}'))
fixed("C06", "e1b03cd", "encoding a nil pointer to uuid, time or an array panicked or wrote a zero value")
fixed("C08", "1a1a393", "a malformed element of a slice or array of times, uuids or maps ended the loop without an error")
fixed("C09", "224e073", "a type of another package that is declared in several files was resolved in map order")
fixed("C10", "05a06d3", "an unreadable imported package was taken for one without the type, with success reported")
fixed("C10", "57f229e", "errors of formatting and of closing the output files were dropped, with success reported")
fixed("C11", "57f229e", "a killed run left truncated output files, which the next run could not parse")
fixed("C06", "86a2e59", "a time with a layout given by the name of a constant was encoded with the name as its layout")
fixed("C06", "c43abe6", "a time layout containing a comma was cut off at the comma, so that most of the time was lost")
fixed("C09", "fb5b3a4", "packages imported by one source stayed known in the process and ended up in what was generated for another module or another source")
fixed("C12", "005e56a", "an output that is a symbolic link was replaced by a file when the link could not be read")
fixed("C10", "ac1159a", "a source that vanished while its package was being read was ignored, with half of the code made without it")
fixed("C06", "7d14463", "a time whose layout contains quotes was encoded without escaping them, which no decoder accepts")
json.dump(K, open(OUT, "w"), indent=1, ensure_ascii=False)
print(len(K), "entries")
