# Writes ../properties.jsonl
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    P.append(d)
R,S="ristretto.go","scalar.go"
E="edwards25519/"
cur,ell,fld,r51,m64,gen,tab,var=[E+x for x in ("curve.go","elligator.go","field.go","field_radix51.go","field_mul64.go","field_generic.go","table.go","vartime.go")]
tabs=[E+"table_radix51.go",E+"table_generic.go"]

p("C01","Point Add, Sub, Double, Neg, Set, SetZero, SetBase obey the group law",
 "For every pair of valid points, including equal points, opposite points and the identity, adding, subtracting, doubling, negating and copying return a valid representation of exactly the corresponding element of the Edwards25519 group, and the zero and base setters return the identity and the standard Ristretto base element. This holds with both field arithmetic back ends and whatever internal coordinates the operands have reached through earlier operations.",
 ["inputs","histories","configurations"],"all points, all projective representations, both back ends",
 "The tests compare about a thousand random sums with a reference; they do not reach exceptional inputs (P+P, P+(-P), identity, unusual coordinates) nor all internal representations.",
 [R,cur,fld,r51,m64,gen],[("complete twisted Edwards addition and doubling formulas",cur),("conversion between coordinate systems",cur)],
 obs=["Point.Add","Point.Sub","Point.Double","Point.Neg","Point.Set","Point.SetZero","Point.SetBase"])
p("C02","Constant-time scalar multiplication computes s*Q for every scalar and point",
 "For every scalar produced by the library and every valid point, the ordinary scalar multiplication (variable point, precomputed table and base point variants) returns exactly s times that point. No scalar value, such as 0, 1, the group order minus one or one with extreme digit patterns, gives another result.",
 ["inputs","configurations"],"all 2^252 scalars, all points, both back ends",
 "Tests try 100 to 1000 random scalars; recoding edge cases (a carry into the top digit, a digit at the end of its range, runs of ones) have negligible probability in a random sample.",
 [R,cur,tab]+tabs,[("signed 5-bit window recoding and lookup table",cur),("signed 4-bit window and 32x8 table lookup",tab)],
 obs=["Point.ScalarMult","Point.ScalarMultTable","Point.ScalarMultBase"])
p("C03","Public (variable-time) scalar multiplication gives the same result",
 "For every scalar produced by the library and every valid point, each variable-time scalar multiplication (variable point, precomputed table, base point) returns exactly s times the point, that is the same group element as its constant-time counterpart.",
 ["inputs","configurations"],"all scalars, all points, both back ends",
 "Tests compare a few hundred random scalars; the non-adjacent-form recoding has data-dependent control flow whose rare paths random scalars do not reach.",
 [R,var,tab],[("width-5 NAF recoding and double-and-add loop",var),("variable-time table lookup",tab)],
 obs=["Point.PublicScalarMult","Point.PublicScalarMultTable","Point.PublicScalarMultBase"])
p("C04","Precomputed multiplication tables hold the right multiples of their point",
 "Filling a multiplication table for any valid point stores, at each position, exactly the multiple of the point that the table multiplications rely on. The built-in base point table holds these multiples of the base point in both back ends, and the numeric curve constants equal the values defined by the curve equation.",
 ["inputs","configurations"],"every table entry, every point, both back ends",
 "Tests exercise random scalars over the table in one build at a time and compare only a part of the constants; they do not quantify over the point.",
 [tab,r51,gen]+tabs,[("table computation",tab),("literal base table",tabs[0]),("literal base table",tabs[1]),("field constants",r51),("field constants",gen)],
 obs=["ScalarMultTable.Compute","BaseScalarMultTable"])
p("C05","Point encoding is the Ristretto encoding of RFC 9496 for every point",
 "For every valid point, in whatever internal coordinates, encoding to bytes returns the 32 bytes that the ENCODE function of RFC 9496 defines for that group element, and does not change the point.",
 ["inputs","histories","configurations"],"all points and representations, both back ends",
 "Test vectors cover 16 multiples of the base point and random points; the sign and torsion branches for special points (x=0, y=0, unreduced coordinates) are not sampled.",
 [R,cur,fld],[("encoding formulas with conditional rotation and sign choices",cur),("inverse square root",fld),("canonical field encoding",r51)],
 obs=["Point.Bytes","Point.BytesInto","Point.MarshalBinary"])
p("C06","Decoding accepts exactly the canonical Ristretto encodings",
 "Decoding 32 bytes reports success if and only if they are a canonical encoding as defined by the DECODE function of RFC 9496: field value below the modulus with the top bit clear, non-negative, and passing the square, sign and non-zero checks. On success the point set is exactly the one that function defines.",
 ["inputs","configurations"],"all 2^256 byte strings, both back ends",
 "Tests use a fixed list of bad encodings and random round trips; non-canonical values (p..2^255-1, top bit set) and single failing checks are astronomically rare in random input.",
 [R,cur,fld],[("canonicity comparison and rejection flags",cur),("square root check",fld)],
 obs=["Point.SetBytes","Point.UnmarshalBinary"])
p("C07","Point equality holds exactly for equal Ristretto group elements",
 "For every two valid points, equality reports true if and only if they represent the same Ristretto group element, that is if they differ by one of the four torsion points; it is independent of internal coordinates and of operand order.",
 ["inputs","histories","configurations"],"all pairs of points and representations, both back ends",
 "Tests check a thousand random points and their torsion translates, not special points (zero coordinates) nor all coordinate scalings.",
 [R,cur,fld],[("cross-multiplied comparison",cur),("field equality through canonical bytes",fld)],obs=["Point.Equals","Point.EqualsI"])
p("C08","Hash-to-point maps follow the Ristretto Elligator specification",
 "For every 32-byte input the Elligator setter returns the point that the MAP function of RFC 9496 defines for it (top bit ignored, values reduced modulo the field prime). Deriving a point from data applies this map to the first half of the SHA-512 digest, and the dalek-compatible derivation returns the sum of the maps of both halves.",
 ["inputs","configurations"],"all inputs, both back ends",
 "Test vectors cover a handful of inputs; degenerate field values and both sign branches for each residue class are not covered.",
 [R,ell,fld],[("Elligator 2 map through the Jacobi quartic",ell),("inverse square root of a or i*a",fld)],
 obs=["Point.SetElligator","Point.Derive","Point.DeriveDalek"])
p("C09","Lizard embeds 16 bytes and decodes exactly what was embedded",
 "Embedding 16 bytes maps the field element made of the data and its SHA-256 check bits through Elligator. Decoding a point returns data if and only if exactly one of the field elements that Elligator maps to that point carries consistent check bits, and then that element's data, otherwise an error; so whatever it returns embeds to that point, and embedded data is returned unless another preimage carries consistent check bits too.",
 ["inputs","configurations"],"all 2^128 payloads, all points including those without payload, both back ends",
 "Tests embed random payloads; the special points (zero coordinates), preimage masks and multiple-preimage outcomes are not sampled.",
 [R,ell],[("payload layout and check bits",R),("inverse Elligator over the four torsion translates and their duals",ell)],
 obs=["Point.SetLizard","Point.Lizard","Point.LizardInto"])
p("C10","Scalar arithmetic is exact modulo the group order and fully reduced",
 "For all reduced scalars, addition, subtraction, negation, multiplication, squaring, multiply-add, multiply-subtract and inversion return the unique representative in [0, l) of the mathematically exact result modulo l. Comparison and zero tests are exact on such values.",
 ["inputs"],"all reduced scalars",
 "Tests compare 1000 random triples with big integers; missing carries and missing final reductions show only for rare operands near 0, l or limb boundaries.",
 [S],[("borrow-and-add-back subtraction",S),("21-bit limb multiplication with two-stage folding",S),("addition chain for inversion",S)],
 obs=["Scalar.Add","Scalar.Sub","Scalar.Neg","Scalar.Mul","Scalar.Square","Scalar.MulAdd","Scalar.MulSub","Scalar.Inverse","Scalar.Equals","Scalar.IsNonZeroI"])
p("C11","Scalar decoding, reduction and encoding are exact for every byte string",
 "Setting a scalar from 32 bytes gives the little-endian value with its top three bits ignored, reduced modulo l; from 64 bytes the full value modulo l; from an integer that integer; the derivations apply this to the SHA-512 digest. The strict decoder succeeds if and only if the value is below l and otherwise leaves the scalar unchanged; encoding a scalar returns its 32-byte little-endian value.",
 ["inputs"],"all 32-byte and 64-byte strings, all uint64",
 "Tests use random buffers; boundary values (l-1, l, l+1, 2^253-1, all ones) and partial-failure states are sampled by hand only.",
 [S],[("word loads, masking and conditional subtraction",S),("two-stage folding of 512-bit values",S)],
 obs=["Scalar.SetBytes","Scalar.SetBytesStrict","Scalar.SetReduced","Scalar.SetUint64","Scalar.Derive","Scalar.DeriveShort","Scalar.Bytes","Scalar.BytesInto"])
p("C12","Results do not change when the receiver is also an operand",
 "Every arithmetic method of points and scalars gives the same result when the receiver is the same variable as one or more of its operands as when all variables are distinct.",
 ["programs","inputs"],"every aliasing pattern of receiver and operands, all values",
 "Tests use a few aliasing patterns on random values; a write before the last read of an aliased operand shows only in the untested patterns.",
 [R,S,cur,ell,fld,tab,var],[("temporaries in each method; reads completed before the receiver is written",cur)],
 obs=["every method of Point and Scalar taking operands of the receiver's type"])
p("C13","Operations not marked public run in constant time with respect to secrets",
 "Apart from the operations documented as variable-time (the Public methods, big integer conversions, text and string conversion), no branch, loop bound, memory index or variable-latency operation depends on the value of a scalar, a point, a field element, hash output or random data. Only the final accept or reject outcome of a decoder may steer control flow.",
 ["inputs","configurations"],"all secrets, all call paths, both back ends",
 "Functional tests cannot observe timing or memory access patterns at all.",
 [R,S,cur,ell,fld,r51,m64,gen,tab],[("mask arithmetic, conditional set, full table scans",tab)],
 obs=["control flow and memory indices in every exported operation"])
p("C14","Operations write only their receiver and outputs; reads are race-free",
 "An operation modifies only its receiver and the output buffers it documents: never its other operands, nor the receiver of a read-only query, nor package-level state, and results never alias operands or shared storage. Hence concurrent calls that share only operands and tables they read are free of data races.",
 ["schedules","programs","histories"],"all interleavings of calls sharing read operands",
 "Tests are single-threaded and do not compare operands before and after; a benign-looking normalisation of an operand goes unnoticed.",
 [R,S,cur,ell,fld,r51,m64,gen,tab,var],[("value semantics and local temporaries",cur)],
 state=[("package-level constants and base table","read-only after initialisation",r51)],
 obs=["memory effects of every exported function"])
p("C15","No input makes the library panic",
 "No exported operation panics, indexes out of range or dereferences nil for any byte contents, any length of variable-length input and any reachable point or scalar; malformed input is reported through the documented error or boolean result. The only panic is failure of the system's random source.",
 ["inputs"],"all lengths and contents of input slices, all reachable values",
 "Tests feed well-formed input and a few short buffers; overlong or malformed text is not tried.",
 [R,S,var,tab],[("length checks before decoding",R),("bounded window digits used as indices",var)],
 obs=["every exported function"])
p("C16","Random points and scalars use full-width secure randomness, fail closed",
 "Generating a random scalar or point draws its complete input (64 respectively 32 bytes) from the operating system's cryptographic random source on each call and uses all of it. If the source reports an error the call panics and never returns a value.",
 ["fault_sequences","inputs"],"every failure of the random source, every call",
 "Tests never make the random source fail and cannot tell a full-entropy draw from a truncated or cached one.",
 [R,S],[("crypto/rand read and error check",R),("crypto/rand read and error check",S)],obs=["Point.Rand","Scalar.Rand"])
p("C17","Field arithmetic is exact modulo 2^255-19 in both back ends",
 "In both back ends every field operation (addition, subtraction, negation, multiplication, squaring, inversion, square roots, absolute value, comparison, byte conversion) is exact modulo 2^255-19 on all representations within the limb bounds that library operations can produce, and byte output is always the canonical value below the modulus.",
 ["inputs","histories","configurations"],"all limb representations reachable through any operation history, both back ends",
 "Tests compare random canonical values with big integers; limb values near their bounds, values between p and 2^255 and lost carries have negligible sampling probability.",
 [fld,r51,m64,gen],[("limb multiplication and carry chains",m64),("limb multiplication and carry chains",gen),("full reduction before output",r51)],
 obs=["exported FieldElement methods"])
p("C18","Limb values never overflow across any sequence of operations",
 "Starting from any constructor and applying any sequence of exported point operations, every intermediate machine-word computation stays within its type, so no carry or high bit is ever lost.",
 ["histories","inputs","configurations"],"all finite sequences of exported operations, both back ends",
 "Overflow needs limbs near their maximum after particular chains of unreduced additions, which random tests do not reach.",
 [cur,ell,fld,r51,m64,gen,tab,var],[("bounded lazy additions followed by reducing multiplications",cur)],
 state=[("limb bounds of stored points","largest limb any operation leaves in a point",cur)],obs=["every integer operation reachable from Point methods"])
p("C19","Binary and text marshalling is exact and length-checked",
 "Binary and text unmarshalling return an error for every input of the wrong length or malformed text, and otherwise set exactly the value that the 32 decoded bytes encode, rejecting non-points. Marshalling gives the 32-byte encoding, respectively its unpadded URL-safe base64 form, so unmarshalling what was marshalled restores the value; a point's text may also be 64 hex digits.",
 ["inputs"],"all byte strings and texts of every length",
 "Tests do one round trip each; other lengths, alphabets and error paths are not covered.",
 [R,S],[("length checks and error propagation",R),("length checks and error propagation",S)],
 obs=["MarshalBinary","UnmarshalBinary","MarshalText","UnmarshalText of Point and Scalar"])
p("C20","Conditional assignment is all-or-nothing",
 "For a condition of 1 the conditional assignment of scalars and points makes the receiver exactly equal to the other operand in every part, and for 0 leaves it bit for bit unchanged, for all values.",
 ["inputs","configurations"],"all values, both conditions, both back ends",
 "Tests check a few random values; a mask that is wrong in one word or for one sign shows only on particular values.",
 [R,S,r51,gen,cur],[("mask arithmetic",r51)],obs=["Scalar.ConditionalSet","Point.ConditionalSet"])
p("C21","Big integer conversions of scalars and field elements are exact",
 "Converting a scalar or field element to a big integer gives its exact value, and setting one from any big integer, negative or arbitrarily large, gives that integer modulo the group order respectively the field prime.",
 ["inputs","configurations"],"all integers",
 "Tests convert random integers below the modulus; negative, huge and short integers with leading zero bytes are not covered.",
 [S,fld],[("reduction by math/big and byte reversal",S),("reduction by math/big and byte reversal",fld)],
 obs=["Scalar.BigInt","Scalar.SetBigInt","FieldElement.BigInt","FieldElement.SetBigInt"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
