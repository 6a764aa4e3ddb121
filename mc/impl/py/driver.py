"""Reads documents (4 bytes of length, then text) and answers one line for each: the tree or an error."""
import json, sys, os
sys.path.insert(0, sys.argv[1])
import styx
sys.setrecursionlimit(5000)

def q(s): return json.dumps(s, ensure_ascii=True).replace("\\u007f", "\x7f")
def payload(p):
    s = f"{p.span.start},{p.span.end}"
    if isinstance(p, styx.Scalar): return f"s{p.kind.value} {s} {q(p.text)}"
    if isinstance(p, styx.Sequence): return f"({s}" + "".join(" " + value(i) for i in p.items) + ")"
    return "{" + s + "".join(" " + entry(e) for e in p.entries) + "}"
def value(v):
    if v.tag is not None:
        return f"@{q(v.tag.name)} {v.span.start},{v.span.end}" + ("" if v.payload is None else " " + payload(v.payload))
    if v.payload is None: return f"@ {v.span.start},{v.span.end}"
    return payload(v.payload)
def entry(e): return f"[{value(e.key)} {value(e.value)}]"
inp, out = sys.stdin.buffer, sys.stdout
while True:
    n = inp.read(4)
    if len(n) < 4: break
    src = inp.read(int.from_bytes(n, "little")).decode("utf-8")
    try:
        r = "ok " + " ".join(entry(e) for e in styx.parse(src).entries)
    except styx.ParseError as e:
        r = f"error {e.span.start},{e.span.end} {q(e.message)}"
    except BaseException as e:
        r = "crash " + q(repr(e))
    out.write(r + "\n")
    out.flush()
