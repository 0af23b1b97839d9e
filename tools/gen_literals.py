#!/usr/bin/env python3
"""Writes harness/src/literals.rs: in-source literals and the same animations as file text."""
import random, os
R = random.Random(18)
CH = ["Xposition", "Yposition", "Zposition", "Xrotation", "Yrotation", "Zrotation"]

def num():
    return R.choice(["0.0", "1.0", "-1.0", "0.1", "-2.5", "33.333", "1e3", "-0.0", "12345.678", "0.000001", "16777217.0", "1.5e-7"])

def joint(name, ch, kids, end):
    return dict(name=name, ch=ch, kids=kids, end=end, off=[num() for _ in range(3)], e=[num() for _ in range(3)])

def emit(j, kw, d, out):
    out.append((d, f"{kw} {j['name']}"))
    out.append((d, "{"))
    out.append((d + 1, "OFFSET " + " ".join(j["off"])))
    out.append((d + 1, f"CHANNELS {len(j['ch'])} " + " ".join(j["ch"])))
    for k in j["kids"]:
        emit(k, "JOINT", d + 1, out)
    if j["end"]:
        out.append((d + 1, "End Site"))
        out.append((d + 1, "{"))
        out.append((d + 2, "OFFSET " + " ".join(j["e"])))
        out.append((d + 1, "}"))
    out.append((d, "}"))

def total(j):
    return len(j["ch"]) + sum(total(k) for k in j["kids"])

def doc(root, frames, time):
    out = [(0, "HIERARCHY")]
    emit(root, "ROOT", 0, out)
    out += [(0, "MOTION"), (0, f"Frames: {frames}"), (0, f"Frame Time: {time}")]
    for _ in range(frames):
        out.append((0, " ".join(num() for _ in range(total(root)))))
    return out

n = [0]
def nm():
    n[0] += 1
    return R.choice(["Hips", "arm_L", "End", "J", "Site", "Root2", "Xposition", "offset"]) + str(n[0])

def ch(k):
    return [R.choice(CH) for _ in range(k)]

docs = []
# every number of channels, on the root and on a child
for k in range(10):
    j = joint(nm(), ch(9 - k), [], k % 2 == 0)
    r = joint(nm(), ch(k), [j], False)
    docs.append(doc(r, k % 3, R.choice(["0.0333333", "1.0", "0.0", "0.008333333333", "2.5e-3"])))
# shapes
docs.append(doc(joint("Only", ch(3), [], False), 1, "0.1"))
docs.append(doc(joint("OnlyEnd", ch(2), [], True), 2, "0.1"))
docs.append(doc(joint("W", ch(1), [joint(nm(), ch(i % 3), [], i % 2 == 0) for i in range(5)], False), 1, "0.02"))
def chain(d):
    return joint(nm(), ch(1), [chain(d - 1)] if d else [], d == 0)
docs.append(doc(chain(6), 3, "0.04"))
def rnd(d):
    kids = [rnd(d - 1) for _ in range(R.randrange(3))] if d else []
    return joint(nm(), ch(R.randrange(4)), kids, not kids and R.random() < .7)
for s in range(8):
    r = rnd(4)
    docs.append(doc(r, 1 if total(r) else 0, R.choice(["0.0333333", "0.016666", "3.25"])))

o = ["// Written by tools/gen_literals.py.", "use bvh_anim::{bvh, Bvh};", "",
     f"pub const COUNT: usize = {len(docs)};", ""]
for i, d in enumerate(docs):
    o.append(f"fn lit{i}() -> Bvh {{")
    o.append("    bvh! {")
    for (k, l) in d:
        o.append("        " + "    " * k + l)
    o.append("    }")
    o.append("}")
o.append("pub fn literal(i: usize) -> Bvh {")
o.append("    match i {")
for i in range(len(docs) - 1):
    o.append(f"        {i} => lit{i}(),")
o.append(f"        _ => lit{len(docs)-1}(),")
o.append("    }")
o.append("}")
o.append("pub const TEXT: [&str; COUNT] = [")
for d in docs:
    o.append('    "' + "".join("\\t" * k + l.strip() + "\\n" for k, l in d) + '",')
o.append("];")
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "literals.rs")
open(p, "w").write("\n".join(o) + "\n")
