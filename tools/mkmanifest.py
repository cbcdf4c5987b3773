#!/usr/bin/env python3
# Writes MANIFEST.json. The properties without a level note aren't claimed.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "runtime monitoring of instrumented handlers, middlewares and response writers against an online reference model"
NOTE = {
 "C01": "Sampled trees and requests; trusts the reference model of routing and net/url.",
 "C02": "Sampled trees and requests; only templates that split a string in one way are used, so that the values are decided.",
 "C03": "Sampled; counts the writes to the response writer and the terminal answers.",
 "C04": "Sampled histories of setting and wrapping, each ended by a request of every known method.",
 "C05": "Sampled trees and requests; TLS is told by the request's TLS state.",
 "C06": "Sampled trees and requests; trusts the reference model of the policies.",
 "C07": "Sampled; every canonical redirect is followed. Locations are compared by their decoded segments.",
 "C08": "Sampled; every redirect is repeated. Locations are compared by their decoded segments.",
 "C09": "Sampled trees and requests; the remaining path is compared by its decoded segments.",
 "C10": "Sampled; the order and nesting of every middleware call and return is compared.",
 "C11": "Sampled trees and bulk operations; every handler in scope is run and its middlewares counted.",
 "C13": "Sampled conversions and requests, concurrent ones included.",
 "C12": "Sampled trees, requests and places of stopping.",
 "C14": "Sampled histories, malformed, panicking and argument storing requests included; every request is compared with the reference and with a fresh tree.",
 "C15": "Sampled schedules under the race detector with injected yields and sleeps; in-process and through a real server with keep-alive.",
 "C16": "Sampled and fuzzed texts; trusts Go's regexp for what a pattern is.",
 "C17": "Sampled templates and strings. Soundness is checked for any template, completeness for those that split a string in at most one way.",
 "C18": "Sampled templates that split a string in at most one way, with valid, invalid and missing values.",
 "C19": "Sampled groups of related templates, compared pairwise and on common strings.",
 "C20": "Sampled trees, responders and values; every URL is served and compared with the reference.",
 "C21": "Sampled trees and lookups; the identity of every returned object and the set of all responders are compared.",
 "C22": "Sampled trees, cuts and orders of registration; identities, relations and answers are compared with what the documentation decides.",
 "C23": "Sampled trees and illegal operations; every rejection is followed by requests compared with the unchanged reference.",
 "C24": "Sampled histories; every configuration is read after every operation and the answers at the end.",
 "C31": "Sampled trees and requests; trusts the reference model.",
 "C26": "Sampled scripts of setting and getting with keys of many types, compared with a map.",
 "C27": "Sampled histories of setting and wrapping on two trees; one request at a time, since the handlers are process-wide.",
 "C29": "130 generated types in sampled histories; the language's own type assertions tell the expected methods.",
 "C28": "Sampled hostile requests; the handlers that ran are judged apart from the model, and by the model where it decides.",
 "C30": "Sampled trees, each built along several routes; the answers and arguments of every request are compared between the routes.",
 "C32": "Sampled trees, templates and ways of registering; the parents, the host and the answers are compared with the reference after each.",
 "C33": "Sampled histories of setters and getters; all the properties are read back after each step, the last census covers all the responders.",
 "C34": "Sampled trees and histories; what is passed and returned is spoiled here and in the other checks, and trees built in turns are compared with the same ones built alone.",
 "C36": "Sampled schedules under the race detector; goroutines begin together and yield at random; setting process-wide handlers concurrently isn't promised.",
 "C35": "Sampled trees and requests; retention is judged by finalizers and the heap after collections, time by a limit far above what linear work takes and far below quadratic work.",
 "C25": "Sampled; every handler and middleware observes its arguments on entry and exit.",
}
TECH = {"C36": "Go race detector over goroutines that build and use routers and templates at the same time, each result compared with its sequential one", "C15": "Go race detector and per-request monitors under concurrent stress with injected yields, each request compared with its sequential prediction"}
exec(open(os.path.join(root, "tools", "notes.py")).read()) if os.path.exists(os.path.join(root, "tools", "notes.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in NOTE:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}",
          "thorough_cmd": f"bash check.sh {i} thorough", "evidence_file": f"evidence/{i}.json",
          "technique": TECH.get(i, T), "level": "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": "The check isn't built yet."})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: the monitors are instrumented handlers, middlewares, implementations and response writers on the public API. VERIF_TIER=thorough deepens every check."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
