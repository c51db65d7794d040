#!/usr/bin/env python3
"""writes harness/abi/cli<n>.abi and the table of what is in it to harness/src/c20w.rs: overloads by arity, type, outputs and order, names alike, parameters without names, many types"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F, E = [], []
def f(name, ins, outs=()): F.append((name, list(ins), list(outs)))
def e(name, ps, anon=False): E.append((name, anon, [p if isinstance(p, tuple) else ("p%d" % i, p, False) for i, p in enumerate(ps)]))
ALL = ["bool", "string", "bytes", "address", "uint256", "uint8", "int256", "int64", "bytes1", "bytes32", "bool[]", "string[]", "bool[2]", "string[2]", "(bool,string)", "(bool,uint8)[]", "bool[][2]", "((bool),string[])"]
for i, t in enumerate(ALL):
    f("one%d" % i, [t], [t])
    e("One%d" % i, [("a", t, True), ("b", t, False)])
    e("Anon%d" % i, [("", t, False), ("", t, True)], True)
# overloads: as many parameters, alike in all but one type, one a prefix of the other, differing in outputs only
for a, b in (("bool", "uint8"), ("uint256", "int256"), ("string", "bytes"), ("bool[]", "bool[2]"), ("(bool,string)", "(bool,bytes)"), ("bytes1", "bytes32")):
    n = "twin" + str(len(F))
    f(n, [a], ["bool"]); f(n, [b], ["uint8"])
    e("T" + n[1:], [a]); e("T" + n[1:], [b])
    n = "nest" + str(len(F))
    f(n, ["bool", a]); f(n, ["bool", b]); f(n, ["bool"]); f(n, ["bool", a, b])
    e("N" + n[1:], ["bool", a]); e("N" + n[1:], ["bool", b]); e("N" + n[1:], ["bool"]); e("N" + n[1:], ["bool", a, b])
    n = "outs" + str(len(F))
    f(n, ["bool"], [a]); f(n, ["bool"], [b]); f(n, ["bool"], []); f(n, ["bool"], [a, b])
    n = "anon" + str(len(E))
    e(n, [a], True); e(n, [b], True)
# names alike
for n in ("name", "Name", "NAME", "nam", "names", "name_", "_name", "name1", "$name", "n"):
    f(n, ["bool"], ["bool"]); e(n, ["bool"])
# many parameters
for n in (2, 3, 4, 5, 8, 13):
    f("many%d" % n, [ALL[(i * 5) % 18] for i in range(n)], [ALL[(i * 7 + 1) % 18] for i in range(n)])
    e("Many%d" % n, [("" if i % 3 else "x%d" % i, ALL[(i * 5) % 18], i in (1, 2, 4)) for i in range(n)])
    e("Few%d" % n, [("y", ALL[(i * 7) % 18], i == n - 1) for i in range(n)], True)
def P(t, name, **k):
    d = {"name": name, "type": t}
    if t.startswith("("):
        depth, cut, parts, i = 0, 1, [], 0
        for i, c in enumerate(t):
            if c == "(": depth += 1
            if c in ",)" and depth == 1: parts.append(t[cut:i]); cut = i + 1
            if c == ")":
                depth -= 1
                if depth == 0: break
        d["type"] = "tuple" + t[i + 1:]
        d["components"] = [P(x, "c%d" % j) for j, x in enumerate(parts)]
    d.update(k)
    return d
# one file per few families
import itertools
def size(xs): return sum(len(x[1]) + len(x[2]) for x in xs) if isinstance(xs[0][1], list) else sum(len(x[2]) for x in xs)
files, where = [[]], {}
for kind, xs in (("f", F), ("e", E)):
    like = lambda x: "name" if x[0].lower().strip("_$1s") in ("name", "nam", "n") else x[0]
    for k, g in itertools.groupby(xs, like):
        g = list(g)
        if len(files[-1]) + len(g) > 8: files.append([])
        for x in g:
            files[-1].append((kind, x))
            where[kind, k] = len(files) - 1
for i, es in enumerate(files):
    abi = [{"type": "function", "name": x[0], "inputs": [P(t, "") for t in x[1]], "outputs": [P(t, "o") for t in x[2]]} if k == "f" else
           {"type": "event", "name": x[0], "anonymous": x[1], "inputs": [P(t, n, indexed=j) for n, t, j in x[2]]} for k, x in es]
    open(os.path.join(R, "harness/abi/cli%d.abi" % i), "w").write(json.dumps(abi, separators=(",", ":")) + "\n")
at = lambda k, n: where[k, "name" if n.lower().strip("_$1s") in ("name", "nam", "n") else n]
q = lambda l: "&[" + ", ".join('"%s"' % t for t in l) + "]"
o = "// written by tools/gen_cli.py\nmacro_rules! file {\n\t($n:expr) => {\n\t\tconcat!(env!(\"CARGO_MANIFEST_DIR\"), \"/../harness/abi/cli\", $n, \".abi\")\n\t};\n}\n/// name, inputs, outputs, how many functions of that name, file\npub const FUNCTIONS: &[(&str, &[&str], &[&str], usize, &str)] = &[\n"
for n, i, u in F: o += '\t("%s", %s, %s, %d, file!(%d)),\n' % (n, q(i), q(u), sum(x[0] == n for x in F), at("f", n))
o += "];\n/// name, anonymous, parameters, how many events of that name, file\npub const EVENTS: &[(&str, bool, &[(&str, &str, bool)], usize, &str)] = &[\n"
for n, a, ps in E: o += '\t("%s", %s, &[%s], %d, file!(%d)),\n' % (n, str(a).lower(), ", ".join('("%s", "%s", %s)' % (x, t, str(i).lower()) for x, t, i in ps), sum(x[0] == n for x in E), at("e", n))
o += "];\n"
open(os.path.join(R, "harness/src/c20w.rs"), "w").write(o)
