#!/usr/bin/env python3
"""rt_overlay.py GOROOT OUTDIR OVERLAY.json: adds to the overlay a copy of the Go runtime in which the beginning of every
iteration over a map and the shift of the clock are set by the harness (no other source of disorder is left in the
application: it starts no goroutines). Prints "no" if this toolchain's sources are not as expected."""
import json, os, sys
root, out, ov = sys.argv[1:]
rt = os.path.join(root, "src/runtime")
d = os.path.join(out, "rt")
os.makedirs(d, exist_ok=True)
r = {}
ok = True
def edit(path, subs, tail=""):
    global ok
    s = open(path).read()
    for a, b in subs:
        if a not in s:
            ok = False
        s = s.replace(a, b)
    f = os.path.join(d, path[len(root):].strip("/").replace("/", "_"))
    open(f, "w").write(s + tail)
    r[path] = f
edit(os.path.join(rt, "map.go"), [("h.hash0 = uint32(rand())", "h.hash0 = rand32()"),
     ("r := uintptr(rand())", "r := uintptr(verifMapOrder)"), ("r := int(rand())", "r := int(verifMapOrder)")], """
var verifMapOrder uint32

// VerifSetMapOrder sets where iterations begin.
func VerifSetMapOrder(n uint32) { verifMapOrder = n }
""")
for f in ("map_fast32.go", "map_fast64.go", "map_faststr.go"):
    edit(os.path.join(rt, f), [("h.hash0 = uint32(rand())", "h.hash0 = rand32()")])
edit(os.path.join(rt, "rand.go"), [("func rand32() uint32 {\n\treturn uint32(rand())\n}", "func rand32() uint32 {\n\treturn 0x5bd1e995\n}")])
edit(os.path.join(root, "src/time/time.go"), [("sec, nsec, mono := now()\n\tmono -= startNano\n", "sec, nsec, mono := now()\n\tsec += verifShift\n\tmono -= startNano\n")], """
var verifShift int64

// VerifSetShift shifts the clock by s seconds.
func VerifSetShift(s int64) { verifShift = s }
""")
if ok:
    j = json.load(open(ov))
    j["Replace"].update(r)
    json.dump(j, open(ov, "w"))
print("yes" if ok else "no")
