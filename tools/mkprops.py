import json
P = []
def p(id, title, st, over, q, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], **({"observe_at": observe} if observe else {}), "hook_needed": None}})

PT, CV, FD = "src/ecpoint.c", "src/ecurve.c", "src/field.c"
p("P01", "Point arithmetic is the group law on every curve type",
  "For every curve of each of the four equation types and every pair of points on it, addition, subtraction, negation and doubling return exactly the point the curve's group law defines. This includes neutral operands, equal and opposite operands and operands that differ by a point of order two, and holds whatever internal scaling the operands carry and whether or not the result object is one of the operands.",
  ["inputs"], "all curves, all pairs of points, all representations, all aliasing patterns of the result",
  "tests add a few random multiples of a generator; exceptional pairs, aliased results and curves with unusual coefficients have probability zero in them",
  [PT], [("complete addition formulas", PT + " addition, doubling, subtraction, negation")], ["affine coordinates of the result"])
p("P02", "Scalar multiplication computes the exact multiple",
  "For every point and every scalar, multiplying a point by a scalar (generic or through a precomputed base table, scalar given as field element or integer) returns the point added to itself that many times, the scalar being taken modulo the group order. Every bit of the scalar contributes, also on curves whose group order is longer than the field prime, and both ways of multiplying agree.",
  ["inputs"], "all points, all scalars below the group order, all curves including those with order longer than the field",
  "tests try a handful of random scalars on named curves; the top bit of a group order longer than the prime is set with negligible probability",
  [PT], [("ladder", PT + " scalar multiplication"), ("windowed base table", PT + " base multiplication and its setup")])
p("P03", "Coordinates read back are the coordinates of the point",
  "Setting a point from affine coordinates and reading its affine coordinates gives the same values reduced modulo the field prime, on all four curve types and through every setter and accessor. Reading coordinates, comparing or exporting a point never changes which point it denotes.",
  ["inputs"], "all curves, all coordinate pairs, all internal scalings of the point",
  "tests read coordinates of generators and random multiples on named curves only, all of which have Montgomery coefficient B = 1",
  [PT, CV], [("affine normalisation and Montgomery transform", PT)])
p("P04", "Curves are accepted exactly when their generator satisfies the equation",
  "Defining a curve succeeds exactly when the given generator satisfies the equation of the requested type with the given coefficients, and the membership test reports true exactly for points that satisfy it. An accepted curve carries every supplied parameter, with derived constants consistent with them; defining it from text and from integers gives the same curve, and text that is not a number is refused.",
  ["inputs"], "all parameter sets of all four types, both input forms, reuse of an already initialised curve object",
  "tests define named curves and a few corrupted ones; they never vary one coefficient of each type independently",
  [CV], [("setters and membership test", CV)])
p("P05", "Every built-in curve has valid domain parameters",
  "Each curve in the built-in table has a prime field, a non-singular equation satisfied by its generator, a prime group order that annihilates the generator and, with the cofactor, lies in the Hasse interval, and a bit size equal to that of its field. Edwards-form entries satisfy the condition that makes the addition law complete. Selecting a curve by name gives exactly the parameters published in the table under that name, and an unknown name is refused.",
  ["configurations"], "all entries of the built-in tables, all columns, all names",
  "tests check that the generator satisfies the equation and that a few multiplications agree; they do not establish primality, order, cofactor or completeness",
  [CV], [("curve tables", CV + " standard curve arrays"), ("lookup by name", CV)])
p("P06", "Equality of curves and points is exact",
  "Two curves compare equal exactly when they have the same type, field, coefficients, order, cofactor and generator. Two points compare equal exactly when their curves are equal and they are the same group element, whatever their internal scaling. Points from different curves never compare equal and are never combined silently.",
  ["inputs"], "all pairs of curves (same or different field, one parameter changed at a time) and all pairs of points",
  "tests compare identical curves or curves of obviously different type; equal coefficients over different fields, or a single changed parameter, are not tried",
  [CV, PT], [("curve comparison", CV), ("point comparison", PT)])
p("P07", "Imported point encodings are validated",
  "Reading a point from bytes or hexadecimal text succeeds only for a well-formed encoding of exactly the right length whose coordinates are canonical and denote a point on the given curve. A compressed encoding yields the point with that x coordinate whose y has the requested parity; anything else is refused without aborting the process.",
  ["inputs"], "all byte strings and all texts, all curve types",
  "tests import what the library exported; off-curve coordinates, wrong lengths, x with no point, non-hex text are infinite in number and mostly untested",
  [PT], [("point import", PT)])
p("P08", "Exported points have canonical fixed-length form and decode to the same point",
  "Every point on every curve exports to exactly the announced number of bytes or characters, compressed or uncompressed, with left-padded coordinates and a prefix telling the form and the parity of y. Importing that encoding on the same curve gives back the same point; the neutral element has one encoding.",
  ["inputs"], "all points of all curves, both forms, bytes and text, coordinates with leading zero bytes",
  "tests round-trip random points; coordinates with several leading zero bytes, and curves where the internal form differs from the external one, are not reached",
  [PT], [("point export and length functions", PT)])
p("P09", "ECDSA signing follows the signature equation with a fresh nonce",
  "Every signature produced satisfies the ECDSA equation for the given key and message digest: r is the x coordinate of the nonce multiple of the generator modulo the order, s is the digest plus r times the key, divided by the nonce; both are non-zero. The nonce is drawn afresh uniformly for each attempt from the library's random source and used for nothing else, and the digest used is that of the message on every attempt.",
  ["inputs", "fault_sequences"], "all keys, messages, curves, hash lengths, and all retry paths",
  "the retry paths (zero nonce, zero r, zero s) occur with probability about 2^-256, so no test runs them",
  ["src/ecdsa.c"], [("signing", "src/ecdsa.c")])
p("P10", "ECDSA verification accepts exactly valid signatures",
  "Verification accepts a signature if and only if r and s are non-zero residues of the group order and the point digest/s times the generator plus r/s times the public key has x coordinate congruent to r. Malformed input (empty message, key or signature belonging to another curve, neutral public key) is rejected with a status and does not abort.",
  ["inputs"], "all signatures, public keys, messages, curves and hash lengths",
  "tests verify honest signatures and a few corruptions; they cannot enumerate the acceptance set",
  ["src/ecdsa.c"], [("verification", "src/ecdsa.c")])
p("P11", "Serialised signatures round-trip and are range checked",
  "Exporting a signature gives a fixed-width encoding of r then s, each left-padded to the byte length of the group order, and importing that encoding gives back an equal signature. Import in either form accepts only input of exactly that length with both values in 1..order-1, and text only if every character is a hexadecimal digit.",
  ["inputs"], "all signatures, all byte strings and texts, all orders",
  "tests round-trip random signatures; values with leading zero bytes, boundary values and malformed text are not covered",
  ["src/ecdsa.c"], [("signature import and export", "src/ecdsa.c")])
p("P12", "ElGamal decryption inverts encryption",
  "For every key pair, plaintext point and nonce, decrypting the encryption of the point gives the point back; the ciphertext is the nonce times the generator paired with the plaintext plus the nonce times the public key, with a fresh non-zero nonce each time. Keys or points of different curves are refused with a status, not an abort, and inputs are unchanged.",
  ["inputs"], "all keys, plaintexts and nonces, all curves",
  "tests try random samples, mostly with every object sharing a single curve object",
  ["src/ecelgamal.c"], [("encryption and decryption", "src/ecelgamal.c")])
p("P13", "Field arithmetic returns the canonical residue of the exact result",
  "Every field operation (set, add, subtract, multiply, square, negate, power, with field or machine-integer operand) stores the residue of the exact result in the range 0..p-1, stored at the field's full width, for every prime of up to 1024 bits. It does so whether or not the result object is an operand, and swapping exchanges whole values.",
  ["inputs"], "all primes up to the supported size, all residues, all aliasing patterns, primes of exactly a multiple of the machine word and of a single word",
  "tests sample random residues of a few primes; carries, borrows, sums in [p, 2^k) and single-word fields are rarely or never reached",
  [FD], [("word-level add, subtract, reduce, pad", FD)])
p("P14", "Inverse and square root are correct or report failure",
  "For every odd prime, inversion of every non-zero residue and square root of every quadratic residue succeed and return a value whose product with the input is one, or whose square is the input; zero has no inverse and non-residues no root, and these are reported through the status. The result is canonical, and primes of every form (in particular with large powers of two dividing p-1) are handled.",
  ["inputs"], "all odd primes, all residues; all exponents of two in p-1",
  "tests use a few primes; the loop count and shift width depend on the prime",
  [FD], [("inversion", FD), ("Tonelli-Shanks square root", FD)])
p("P15", "One field descriptor per modulus",
  "Looking up the field of a modulus always returns the same descriptor for equal moduli and different descriptors for different ones, over any history of lookups, and descriptors stay valid until the process ends. Elements of one field therefore always interoperate.",
  ["histories"], "all sequences of field lookups",
  "tests use a handful of fields in one order",
  [FD], [("field registry", FD)])
p("P16", "Random values come only from complete, unbiased reads of the system source",
  "Every random integer, field element and point is derived from at least twice as many bytes as the range needs, all obtained successfully from the system random device for that call alone and reduced to the range. A short read or missing device never yields a value, and no random bytes are shared between calls or processes.",
  ["fault_sequences", "histories"], "all failures of the random device, all process histories including fork",
  "tests never fail the device and never fork; statistical quality cannot show shared state",
  ["src/mpzurandom.c", FD], [("random source", "src/mpzurandom.c")])
p("P17", "Sensitive memory is erased before it is released",
  "Clearing a field element, point or curve, and releasing or growing any big integer once the clean allocator is enabled, overwrites the old contents before the memory can be reused, and the erasure survives compiler optimisation. Buffers that held imported signature or random bytes are erased as well.",
  ["configurations", "histories"], "all allocation histories and optimisation levels",
  "a test cannot read memory after release without undefined behaviour, and correctness depends on the compiler's output",
  ["src/safememory.c", FD, PT, CV], [("erasing allocator", "src/safememory.c"), ("clear functions", "src/*.c")])
p("P18", "Scalar multiplication does not branch or index on secret bits",
  "The sequence of group operations and swaps performed by generic scalar multiplication, and of word operations performed by the conditional swap, depends only on the curve, never on the value of the scalar: secret bits reach data selection only, not conditional control flow or memory addresses outside a fixed two-entry choice.",
  ["inputs"], "all scalars and points",
  "functional tests cannot observe control flow; the result is the same either way",
  [PT, FD], [("ladder and conditional swap", PT), ("conditional swap of limbs", FD)])
p("P19", "Every library object is initialised once and cleared once on all paths",
  "On every path through every library function, including error returns, each temporary big integer, field element, point and buffer is initialised before use, released exactly once and never used afterwards. Objects handed to the caller are fully initialised exactly when success is reported.",
  ["inputs", "fault_sequences"], "all paths of all library functions, error paths included",
  "leak tests run the success paths and a few failures; most error returns are never executed",
  ["src/*.c"], [("init/clear pairing", "src/*.c")])
p("P20", "Fixed-size buffers are large enough for every admissible input",
  "No operation writes beyond the stack arrays, output buffers or tables it uses: field widths are bounded by one limit shared by all users and enforced when a field is created, and exported data fits the announced length.",
  ["inputs", "configurations"], "all field sizes, all points and signatures",
  "tests use fields of at most 521 bits and do not approach the limit",
  [FD, PT, "src/ecdsa.c"], [("limb limit", FD + " and " + PT)])
p("P21", "Operations leave their inputs and shared objects unchanged",
  "No operation on points, curves, signatures or ciphertexts changes the mathematical value of an input that is not also its output, or of a curve object that other objects refer to. A result belongs to the curve of its first operand and stays valid when the other operand and its curve object are released.",
  ["inputs", "histories"], "all operations, all aliasing of curve objects between operands, all release orders",
  "tests let all points share one curve object, so writes through the wrong one are invisible",
  [PT, CV, "src/ecelgamal.c", "src/ecdsa.c"], [("assignment of curve references", PT)])
p("P22", "A precomputed base table always matches its point and curve",
  "The multiples stored for base multiplication are those of the point's current value and curve: any assignment to a point discards its table with the size it was built with, and base multiplication never reads outside the table.",
  ["histories"], "all sequences of setting, table building, multiplication, swapping and clearing",
  "tests build a table once and multiply; they do not reassign points with tables to other curves",
  [PT], [("table setup and cleanup", PT)])
PY = "python/*.c"
p("P23", "Python extension leaks neither references nor C objects",
  "On every path of every extension function, success or error, each reference obtained is released or handed over, and every C-level object is cleared. Allocation and conversion results are checked before use.",
  ["inputs", "fault_sequences"], "all paths of all extension functions, including failing allocations and wrong argument types",
  "tests follow success paths and cannot see a wrong reference count",
  [PY], [("reference handling", PY)])
p("P24", "Python callers get exceptions, never process aborts",
  "No sequence of calls from Python with arguments of any type or value reaches an abort in the C library: operands of different fields or curves, keys of the wrong order, malformed text and out-of-range values raise an exception. A function that reports failure has set an exception, and one that succeeded has not.",
  ["inputs"], "all argument types and values of every Python-visible operation",
  "an abort kills the test process, so tests avoid the inputs; mismatched operand combinations are numerous",
  [PY, "src/*.c"], [("argument checks", PY)])
p("P25", "Python and Go objects keep the curve and objects they refer to alive",
  "A Python or Go point, signature scheme, signature or ciphertext keeps every curve or scheme object its C part refers to alive as long as it exists, over any order of creation, use and collection.",
  ["histories", "schedules"], "all object graphs and collection orders",
  "garbage collection timing hides dangling references in tests",
  [PY, "ecgo/*.go"], [("references held by wrapper objects", PY + ", ecgo/*.go")])
p("P26", "Python operators compute the operation they name",
  "Each Python operator, method and attribute calls the library operation of the same meaning with operands in the right order, and converts integers in both directions without changing their value; an integer that cannot be converted never yields a result.",
  ["inputs"], "all operators, all integers of any size and sign",
  "tests use small or random positive values of a few sizes",
  [PY], [("operator tables and conversions", PY)])
p("P27", "Go calls do not modify the caller's values",
  "No Go operation changes a big integer, point, field element or curve passed to it other than its receiver, including negative integers and error returns.",
  ["inputs"], "all arguments of all exported Go functions, negative values included",
  "tests pass non-negative fresh values and do not look at arguments afterwards",
  ["ecgo/*.go"], [("integer conversion", "ecgo/field.go")])
p("P28", "Go bindings release every C allocation exactly once",
  "Every C allocation and initialised C object made by a Go call is released exactly once, immediately or by the finaliser of the Go object that owns it, on success and error paths alike.",
  ["inputs", "histories"], "all paths of all Go functions",
  "leaks of C memory are invisible to Go tests",
  ["ecgo/*.go"], [("free calls and finalisers", "ecgo/*.go")])
EX = "examples/*.c"
p("P29", "Example key and ciphertext files are written and read consistently",
  "Whatever the example tools write as a private key, public key or ciphertext file, the reading code decodes to the same curve, key or points, for every named or explicit curve type. A malformed file yields an error status and never uninitialised or freed memory.",
  ["inputs"], "all keys, curves, files",
  "the example tools have no tests",
  ["examples/*"], [("DER import and export", "examples/*der*.c")])
p("P30", "Example file and text helpers stay within bounds and end on errors",
  "The file, base64 and stream helpers of the example tools write only inside the buffers they allocate, for every size including empty and very short data, and return with an error on read or write failures instead of looping.",
  ["inputs", "fault_sequences"], "all data sizes, all failure points of input and output",
  "the example tools have no tests",
  ["examples/*"], [("base64 and file helpers", "examples/*.c")])
p("P31", "Failure statuses are never dropped",
  "Every status returned by a library operation that can fail on the given input (parsing, import, inversion, square root, verification, allocation) is examined before the result is used, in the library, the Python extension, the Go bindings and the example tools.",
  ["inputs", "fault_sequences"], "all call sites of operations that can fail",
  "failures at a given site need inputs that tests do not construct",
  ["src/*.c", PY, "ecgo/*.go", EX], [("status checks", "all components")])
p("P32", "Limb-level big-number arithmetic is numerically exact",
  "The multi-precision primitives underneath return the exact sum, product, quotient and power for every operand.",
  ["inputs"], "all operands", "the operand space is infinite", [FD], [("GMP calls", FD)])
p("P33", "Concurrent use of separate objects from several threads is safe",
  "Threads that work on disjoint objects never corrupt one another's results, including the first use of a field or of the random source.",
  ["schedules"], "all interleavings of threads", "tests are single-threaded", [FD, "src/mpzurandom.c"], [("global registry and random device handle", FD)])
p("P34", "Operation time does not depend on secret values",
  "The time taken by operations on secret keys and nonces does not depend on their values.",
  ["inputs"], "all secrets", "timing is not observable in tests", [PT, FD], [("ladder", PT)])
p("P35", "Go methods compute the operation they name",
  "Each Go method calls the library operation of the same meaning with operands in the right order, and converts integers in both directions without changing their value.",
  ["inputs"], "all methods, all integers of any size and sign",
  "tests use small or random positive values of a few sizes",
  ["ecgo/*.go"], [("cgo calls and conversions", "ecgo/*.go")])
p("P36", "The Python extension never gives up a reference it does not own",
  "After any call of the extension, and after the object it returned has been collected, every argument and every curve, scheme or module the arguments refer to has at least the references it had before. No object is released while another object still refers to it.",
  ["inputs", "histories"], "all operations, operand types and outcomes, release of the results in any order",
  "a missing reference only shows when the last other owner goes away",
  [PY], [("reference handling", PY)])
open("/verif/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P), max(len(x["title"]) for x in P))
