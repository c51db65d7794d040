#!/usr/bin/env python3
"""writes harness/abi/wide.abi (one function and one event per type, arities, names) and harness/src/c19w.rs (what its bindings are checked with)"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def rust(t):
    m = re.match(r"(.*)\[(\d*)\]$", t)
    if m:
        return "Vec<%s>" % rust(m.group(1)) if not m.group(2) else "[%s; %s]" % (rust(m.group(1)), m.group(2))
    if t == "address": return "H160"
    if t == "bool": return "bool"
    if t == "string": return "String"
    if t == "bytes": return "Vec<u8>"
    if t == "bytes32": return "H256"
    if t.startswith("bytes"): return "[u8; %s]" % t[5:]
    return "U256"
def hashed(t): return t in ("string", "bytes") or t.endswith("]")
groups = {
    "bytes": ["bytes%d" % n for n in list(range(1, 33)) + [33, 40, 64]],
    "uints": ["uint%d" % n for n in range(8, 257, 8)],
    "ints": ["int%d" % n for n in range(8, 257, 8)],
    "fixed": ["uint8[%d]" % n for n in (1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 32, 33)] + ["string[%d]" % n for n in (1, 3, 4, 5, 8, 9)] + ["bytes4[3]", "bytes32[4]", "int8[5]", "address[7]", "bool[9]", "bytes[4]"],
    "deep": ["bool[][][]", "uint8[2][2][2]", "string[][][]", "bytes4[2][][3]", "bytes32[][2][]", "address[3][]", "int128[][3]", "bytes[][]", "string[2][2]", "bool[4][3][2]", "bytes31[][]", "bytes33[]", "address[]", "int8[]", "bytes[]", "bytes1[2]", "uint64[][][][]", "bytes32[3][2]"],
}
cyc = ["uint256", "string", "bool", "address", "bytes3", "uint8[]", "bytes", "bytes32", "int16", "string[2]", "bytes32[]", "int256[3]"]
abi, body = [], []
def P(t, name=""): return {"name": name, "type": t}
def ident(t): return re.sub(r"\W+", "x", t.replace("[]", "Q").replace("[", "K").replace("]", "")).lower()
h = []
cases = {}
for g, ts in groups.items():
    for t in ts:
        n = "f" + ident(t)
        abi.append({"type": "function", "name": n, "inputs": [P(t, "a")], "outputs": [P(t)]})
        cases.setdefault(g + "_in", []).append('one!(%s, "%s", "%s", %s, false)' % (n, n, t, rust(t)))
        cases.setdefault(g + "_out", []).append('one!(%s, "%s", "%s", %s, true)' % (n, n, t, rust(t)))
        e = "E" + ident(t)
        abi.append({"type": "event", "name": e, "anonymous": False, "inputs": [dict(P(t, "a"), indexed=True), dict(P(t, "b"), indexed=False)]})
        cases.setdefault(g + "_log", []).append('ev!(%s, event("%s", false, &[("a", "%s", true), ("b", "%s", false)]), a, b)' % (e.lower(), e, t, t))
        cases.setdefault(g + "_filter", []).append('fl!(%s, event("%s", false, &[("a", "%s", true), ("b", "%s", false)]), %s)' % (e.lower(), e, t, t, rust(t)))
# arities
for n in range(0, 13):
    for shift in (0, 5):
        ts = [cyc[(i * 5 + shift) % 12] for i in range(n)]
        os_ = [cyc[(i * 7 + 3 + shift) % 12] for i in range(n)]
        f = "many%dx%d" % (n, shift)
        names = ["", "a_b", "cD", "x", "_y", "z_", "T0", "kind", "data", "u8", "Self1", "n12"]
        abi.append({"type": "function", "name": f, "inputs": [P(t, names[(i + shift) % 12] if n % 2 else "") for i, t in enumerate(ts)], "outputs": [P(t, "r" * (i % 3)) for i, t in enumerate(os_)]})
        vs = ["v%d" % i for i in range(n)]
        c = "{\n\t\t\tlet ts = types(&[%s]);\n" % ", ".join('"%s"' % t for t in ts)
        for v, t in zip(vs, ts): c += "\t\t\tlet %s: %s = Val::some();\n" % (v, rust(t))
        c += "\t\t\tlet v: Vec<Token> = vec![%s];\n" % ", ".join("%s.tok(&ts[%d])" % (v, i) for i, v in enumerate(vs))
        c += '\t\t\tcheck!(same_call("%s", &ts, &v, &wide::functions::%s::encode_input(%s)), "bytes of a call");\n' % (f, f, ", ".join(v + ".clone()" for v in vs))
        c += '\t\t\tcheck!(same_call("%s", &ts, &v, &wide::functions::%s::call(%s).0), "bytes of a call");\n\t\t}' % (f, f, ", ".join(vs))
        cases.setdefault("many_in", []).append(c)
        if n > 1:
            c = "{\n\t\t\tlet ts = types(&[%s]);\n\t\t\tlet data = some(&ts);\n" % ", ".join('"%s"' % t for t in os_)
            c += "\t\t\tlet got = wide::functions::%s::decode_output(&data);\n" % f
            c += '\t\t\tcheck!(same_out(&ts, &data, got.map(|r| vec![%s]).map_err(|_| ())), "decoded output");\n\t\t}' % ", ".join("r.%d.tok(&ts[%d])" % (i, i) for i in range(n))
            cases.setdefault("many_out", []).append(c)
# events: every pattern of up to three indexed among up to six parameters (a selection), anonymous or not
k = 0
for n in range(1, 8):
    for pat in sorted(set([0, 1, 2 ** n - 1, 2 ** (n - 1), 5 % 2 ** n, 6 % 2 ** n, 2 ** n - 2, 0b1010101 % 2 ** n])):
        if bin(pat).count("1") > 3: continue
        k += 1
        anon = k % 3 == 0
        e = "M%dp%d" % (n, pat)
        ps = []
        for i in range(n):
            t = cyc[(i * 5 + k) % 12]
            nm = "" if (k + i) % 4 == 0 else "p%d" % i
            ps.append((nm, t, bool(pat >> i & 1)))
        abi.append({"type": "event", "name": e, "anonymous": anon, "inputs": [dict(P(t, nm), indexed=x) for nm, t, x in ps]})
        fs = [nm or ("topic%d" if x else "param%d") % i for i, (nm, t, x) in enumerate(ps)]
        d = 'event("%s", %s, &[%s])' % (e, str(anon).lower(), ", ".join('("%s", "%s", %s)' % (nm, t, str(x).lower()) for nm, t, x in ps))
        cases.setdefault("many_log", []).append("ev!(%s, %s, %s)" % (e.lower(), d, ", ".join(fs)))
        cases.setdefault("many_filter", []).append("fl!(%s, %s, %s)" % (e.lower(), d, ", ".join(rust(t) for nm, t, x in ps if x)))
for f, mod in (("setURL", "set_url"), ("_hidden", "hidden"), ("ABCDef", "abc_def"), ("x1y2", "x1y2"), ("get_Value", "get_value"), ("Capital", "capital"), ("trailing_", "trailing"), ("two__parts", "two_parts"), ("aVeryLongFunctionNameThatGoesOnAndOnUntilItIsLongerThanAnyBlockOfAnythingThatAnybodyWouldUseForNames", "a_very_long_function_name_that_goes_on_and_on_until_it_is_longer_than_any_block_of_anything_that_anybody_would_use_for_names")):
    abi.append({"type": "function", "name": f, "inputs": [P("bool", f)], "outputs": [P("bool")], "constant": len(f) % 2 == 0, "stateMutability": ["pure", "view", "payable", "nonpayable"][len(f) % 4]})
    cases.setdefault("names_in", []).append('one!(%s, "%s", "bool", bool, false)' % (mod, f))
    cases.setdefault("names_out", []).append('one!(%s, "%s", "bool", bool, true)' % (mod, f))
abi.append({"type": "constructor", "inputs": [P(t, "" if i % 2 else "c%d" % i) for i, t in enumerate(cyc[:9])]})
docs = {
    "names": "functions with names of 9 styles (capitals, digits, underscores, long)",
    "bytes": "fixed bytes of every size 1 to 33, 40 and 64", "uints": "unsigned numbers of every width 8 to 256", "ints": "signed numbers of every width 8 to 256",
    "fixed": "fixed arrays of 27 types, of 1 to 33 elements", "deep": "arrays of 18 types, nested up to 4 deep", "many": "0 to 12 parameters of 12 types (events: 1 to 7, several patterns of indexed ones, anonymous or not)",
    "in": "calls with symbolic arguments", "out": "decoding symbolic results, whole, cut by a byte or empty, and unconstrained words", "log": "logs of an event with an indexed and a data parameter: own, cut, with a missing, extra or foreign topic", "filter": "filters: unrestricted, one value, two alternatives at every position",
}
out = open(R + "/tools/c19w.in.rs").read()
for c, v in cases.items():
    g, w = c.split("_")
    out += "/// generated bindings for %s: %s\npub fn %s() {\n\tmatch rt::choose(%d) {\n" % (docs[g], docs[w], c, len(v))
    for i, x in enumerate(v):
        out += "\t\t%s => %s,\n" % (i if i + 1 < len(v) else "_", x)
    out += "\t}\n}\n"
ts = cyc[:9]
vs = ["v%d" % i for i in range(9)]
out += "/// a generated constructor with 9 parameters\npub fn many_ctor() {\n\tlet code = rt::bytes(rt::pick(&[0, 33]));\n\tlet ts = types(&[%s]);\n" % ", ".join('"%s"' % t for t in ts)
for v, t in zip(vs, ts): out += "\tlet %s: %s = Val::some();\n" % (v, rust(t))
out += "\tlet v: Vec<Token> = vec![%s];\n" % ", ".join("%s.tok(&ts[%d])" % (v, i) for i, v in enumerate(vs))
out += "\tlet got = wide::constructor(code.clone(), %s);\n\tmatch (ethabi::Constructor { inputs: gen::params(&ts) }).encode_input(code, &v) {\n\t\tOk(w) => check!(rt::same(&got, &w), \"bytes of a constructor call\"),\n\t\tErr(_) => check!(false, \"the library rejects the arguments\"),\n\t}\n}\n" % ", ".join(vs)
open(R + "/harness/src/c19w.rs", "w").write(out)
json.dump(abi, open(R + "/harness/abi/wide.abi", "w"), indent=0)
names = list(cases) + ["many_ctor"]
src = open(R + "/harness/src/c19.rs").read()
new = "".join("/// %s\nfn c19_%s() {\n\tc19w::%s();\n}\n" % (("generated bindings for %s: %s" % (docs[n.split("_")[0]], docs[n.split("_")[1]])) if n in cases else "a generated constructor with 9 parameters, all arguments symbolic", n, n) for n in names)
a = src.index("// generated by tools/gen_bindings.py\n")
b = src.index("// end\n", a)
src = src[:a] + "// generated by tools/gen_bindings.py\n" + new + src[b:]
open(R + "/harness/src/c19.rs", "w").write(src)
