"""writes known_findings.json: repaired defects (suppress nothing) and open findings (matched by key)"""
import json, subprocess
FIX = [  # property, commit subject prefix, what failed
 ("P01", "Montgomery points map to u", "Montgomery curves with B != 1 used a wrong map to Weierstrass form: every operation left the curve"),
 ("P01", "point addition on curves of even order", "P + Q gave the invalid point (0:0:0), reported as neutral, when P - Q has order two"),
 ("P06", "curves over different fields", "mpECurve_cmp of same-type curves over different fields aborted in mpFp_cmp"),
 ("P21", "Edwards addition no longer overwrites", "Edwards/twisted Edwards addition copied the operand's curve over the curve object the result pointed to"),
 ("P21", "adding to a neutral point keeps", "neutral + P made the result point to P's curve object, left dangling when that is released"),
 ("P02", "scalar multiplication uses every bit", "scalar bits above the bit size of the field prime were ignored on curves whose order is longer than the prime"),
 ("P14", "square roots in fields where", "1 << (m-i-1) overflowed int in Tonelli-Shanks when 2^32 divides p-1 (wrong root)"),
 ("P08", "compressed export of Montgomery", "compressed export took the parity of the internal Weierstrass y, so importing gave the negated point when B != 1"),
 ("P07", "point import refuses encodings", "mpECP_set_bytes accepted points off the curve, non-canonical coordinates and aborted on x with a zero denominator"),
 ("P07", "point import refuses text", "mpECP_set_str accepted signs, blanks and prefixes as hexadecimal digits"),
 ("P11", "signature import refuses text", "signature text import accepted signs, blanks and prefixes as hexadecimal digits"),
 ("P09", "ECDSA signing retries", "a retry of signing used a digest destroyed by the previous attempt; r = n was not rejected as zero"),
 ("P10", "ECDSA refuses keys", "signing/verifying with a key of another order or curve aborted; a neutral public key or point was not rejected"),
 ("P04", "curve definition from text", "text setters ignored parse failures of all parameters but the prime"),
 ("P12", "ElGamal decryption accepts equal", "decryption aborted when key and ciphertext refer to distinct but equal curve objects"),
 ("P16", "random bytes are not buffered", "buffered reads of /dev/urandom shared random bytes between forked processes"),
 ("P17", "erasing allocator survives", "wiping before free was removed by the optimiser, and shrinking did not wipe the tail"),
 ("P17", "random and imported signature bytes", "buffers with random or imported signature bytes were released without erasure"),
 ("P26", "Python integers of 2048 bits", "a Python integer of 2048 bits or more was written past the end of the conversion buffer"),
 ("P26", "field arithmetic with an unconvertible", "adding, subtracting or multiplying by an integer that cannot be converted used zero instead of raising"),
 ("P26", "ECPoint from unconvertible", "a point made from integers that cannot be converted used zero coordinates instead of raising"),
 ("P36", "ECDSA signing and verifying released", "each Sign or Verify of a bytes message dropped a reference of the caller's object (use after free)"),
 ("P21", "a swapped base table refers", "mpECP_swap left precomputed table entries that referred to the curve object of the other point"),
]
OPEN = []
try: exec(open("/verif/tools/open_findings.py").read())
except FileNotFoundError: pass
log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()]
out = []
for p, s, w in FIX:
    c = [h for h, t in log if t.startswith("fix: " + s)]
    assert len(c) == 1, s
    out.append({"property": p, "status": "fixed", "record": f"fixed: property={p} {c[0]} {w}", "commit": c[0], "what": w})
out += OPEN
json.dump({"findings": out}, open("/verif/known_findings.json", "w"), indent=1)
print(len(out), "entries")
