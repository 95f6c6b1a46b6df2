#!/usr/bin/env python3
"""Evaluates the schemas emitted by mc/src/bin/c20.rs on every enumerated document.
  python3-vt schema_check.py EMITTED TIER OUT [FAMILY INDEX]
With FAMILY INDEX only that case is evaluated (replay)."""
import json, multiprocessing, re, sys, time
import jsonschema

SETTINGS = ["draft07", "draft2019_09", "openapi3", "inlined"]
HEX = "0123456789abcdefABCDEF"
NOTHEX = [chr(c) for c in range(0x20, 0x7F) if chr(c) not in HEX] + ["\t", "\n", "\0", "\x7f", "\u00e9", "\u0661", "\uff11", "\uff21", "\u20ac", "\U0001f600"]


def validator(schema):
    # OpenAPI documents keep shared schemas elsewhere; put them where the references point.
    if "definitions" in schema:
        schema = dict(schema, components={"schemas": schema["definitions"]})
    cls = jsonschema.Draft7Validator
    cls.check_schema(schema)
    return cls(schema)


def type_cases(name, n, tier):
    """(description, instance, expected validity or None)"""
    top = {"quick": 4 * n + 8, "thorough": 16 * n + 40}[tier]
    for l in range(top + 1):
        for fill in HEX if tier == "thorough" or l <= 2 * n + 4 else "0aF":
            yield "hex string of length %d" % l, fill * l, l == 2 * n
        if l != 2 * n:
            yield "mixed hex string of length %d" % l, ("0123456789abcdefABCDEF" * (l // 22 + 1))[:l], False
            yield "string of length %d without hex digits" % l, ("xyzg-" * (l // 5 + 1))[:l], False
    for c in NOTHEX:
        yield "%d times %r" % (2 * n, c), c * (2 * n), False
        for d in NOTHEX if tier == "thorough" else NOTHEX[:12]:
            yield "alternating %r and %r" % (c, d), (c + d) * n, False
    for other in (None, True, False, 0, 1, -1, 1.5, 2 * n, [], ["0" * (2 * n)], [0] * (2 * n), {}, {"0" * (2 * n): 1}):
        yield "non-string %r" % (other,), other, False


def jobs(docs, tier):
    """(family, index, schemas, [(desc, instance, expected)])"""
    types = {d["name"]: d for d in docs if d["kind"] == "type"}
    for d in docs:
        if d["kind"] == "type":
            yield "type-" + d["name"], 0, d["schemas"], list(type_cases(d["name"], d["n"], tier))
        elif d["kind"] == "values":
            t = types[d["name"]]
            yield "values-" + d["name"], d["back"] * t["n"] + d["pos"], t["schemas"], [("serialized value", v, True) for v in d["values"]]
        elif d["kind"] == "wrap":
            n = d["n"]
            s = json.dumps(d["value"])
            good = d["value"]
            txt = re.search(r'"([0-9a-f]{%d})"' % (2 * n), s)
            c = [("serialized %s" % d["how"], good, True)]
            for bad in ("0" * (2 * n - 1), "0" * (2 * n + 1), "z" * (2 * n), ""):
                if txt:
                    c.append(("%s holding %r" % (d["how"], bad), json.loads(s.replace(txt.group(1), bad)), False))
            yield "container-" + d["name"], ["option", "vec", "array", "box", "map"].index(d["how"]), d["schemas"], c
        elif d["kind"] == "pair":
            na, nb = d["na"], d["nb"]
            c = [("serialized (%s, %s)" % (d["a"], d["b"]), d["value"], True), ("serialized (%s, %s)" % (d["b"], d["a"]), d["swapped"], na == nb)]
            for x, y in ((na, nb + 1), (na + 1, nb), (nb + 1, na), (0, nb), (na, 0)):
                c.append(("strings of %d and %d digits" % (2 * x, 2 * y), ["0" * (2 * x), "0" * (2 * y)], x == na and y == nb))
            yield "pair-" + d["a"], list(types).index(d["b"]), d["schemas"], c


def run(job):
    fam, idx, schemas, cases = job
    n = 0
    for name, s in zip(SETTINGS, schemas):
        try:
            v = validator(s)
        except Exception as e:
            return fam, idx, n, "not a valid JSON schema (%s): %s" % (name, e)
        for desc, inst, exp in cases:
            n += 1
            got = v.is_valid(inst)
            if got != exp:
                return fam, idx, n, "%s schema: %s (%s) is %s, must be %s; schema %s" % (name, desc, json.dumps(inst)[:200], "valid" if got else "invalid", "valid" if exp else "invalid", json.dumps(s)[:600])
        if fam.startswith("type-") and s.get("type") != "string" and name != "inlined":
            return fam, idx, n, "%s schema does not describe a string: %s" % (name, json.dumps(s)[:600])
    return fam, idx, n, None


def main():
    t0 = time.time()
    docs = [json.loads(l) for l in open(sys.argv[1])]
    tier = sys.argv[2]
    js = list(jobs(docs, tier))
    if len(sys.argv) > 4:
        js = [j for j in js if j[0] == sys.argv[4] and j[1] == int(sys.argv[5])]
        if not js:
            print("ERROR no such case")
            sys.exit(3)
    fams, trans, vio = {}, 0, None
    for j in js:
        fams.setdefault(j[0], [0, 0])[0] += 1
    with multiprocessing.Pool(8) as p:
        for fam, idx, n, err in p.imap(run, js, chunksize=8):
            trans += n
            if err is None:
                fams[fam][1] += 1
            elif vio is None:
                vio = {"family": fam, "index": idx, "message": err}
    seen = set()
    for j in js:
        for s in j[2]:
            h = hash(json.dumps(s, sort_keys=True))
            for c in j[3]:
                seen.add(hash((h, json.dumps(c[1], sort_keys=True))))
    samples = ["%s#%d: %s %s -> %s" % (j[0], j[1], c[0], json.dumps(c[1])[:120], "valid" if c[2] else "invalid") for j in js[:: max(1, len(js) // 20)] for c in j[3][len(j[3]) // 2:][:1]]
    res = {"property": "C20", "kat": 0, "states": len(seen), "states_capped": False, "outcomes": 2, "transitions": trans, "traces": len(js), "complete": vio is None,
           "families": [{"name": k, "size": v[0], "visited": v[1], "secs": 0} for k, v in fams.items()], "samples": samples, "violation": vio, "secs": round(time.time() - t0, 2)}
    json.dump(res, open(sys.argv[3], "w"))
    if vio:
        print(("REPLAY violation: " if len(sys.argv) > 4 else "FOUND ") + vio["message"])
        sys.exit(1)
    if len(sys.argv) > 4:
        print("REPLAY ok")


main()
