-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic and small dense linear algebra.               *)
(*                                                                         *)
(* TLC integers are 32 bits wide and TLC has no reals, so the values of    *)
(* this module are rationals represented as TLC integers (when they fit)   *)
(* or as strings: "n", "n/d", or "mpE" meaning m*2^E (the exact value of   *)
(* an IEEE double as logged by the drivers).  "nan", "inf" and "-inf" are  *)
(* accepted; every comparison with them is FALSE and arithmetic on them    *)
(* gives "nan".                                                            *)
(*                                                                         *)
(* Every operator is evaluated by TLC through tools/Rat.java (a module     *)
(* override of the same name, exact BigInteger arithmetic).  The TLA+      *)
(* bodies below are the meaning of the operators when the arguments are    *)
(* TLC integers.  No operator loses precision except RTrim and RSqrt.      *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

RAdd(a, b) == a + b
RSub(a, b) == a - b
RMul(a, b) == a * b
RDiv(a, b) == CHOOSE c : RMul(b, c) = a
RNeg(a) == 0 - a
RAbs(a) == IF a < 0 THEN 0 - a ELSE a
RPow(a, n) == a ^ n                       \* n a natural number
REq(a, b) == a = b
RLt(a, b) == a < b
RLe(a, b) == a <= b
RGt(a, b) == RLt(b, a)
RGe(a, b) == RLe(b, a)
RSgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
RMax(a, b) == IF a < b THEN b ELSE a
RMin(a, b) == IF a < b THEN a ELSE b
RIsNum(a) == a \in Int                    \* neither nan nor infinite
RNum(a) == a                              \* canonical representation
RStr(a) == a                              \* canonical, always a string (so that = means equality)
VStr(a) == a
RFloor(a) == a                            \* greatest integer not above a
RTrim(a, n) == a                          \* a rounded to n significant bits
RSqrt(a) == CHOOSE c : RMul(c, c) = a     \* to 200 bits
RFmt(a) == a                              \* decimal string for messages

\* |a-b| <= ta + tr*max(|a|,|b|)
RClose(a, b, ta, tr) == RLe(RAbs(RSub(a, b)), RAdd(ta, RMul(tr, RMax(RAbs(a), RAbs(b)))))

\* Vectors: sequences of rationals. Matrices: sequences of rows.
VAdd(a, b) == [i \in DOMAIN a |-> RAdd(a[i], b[i])]
VSub(a, b) == [i \in DOMAIN a |-> RSub(a[i], b[i])]
VScale(s, a) == [i \in DOMAIN a |-> RMul(s, a[i])]
VAxpy(s, a, b) == VAdd(VScale(s, a), b)   \* s*a + b
VTrim(a, n) == [i \in DOMAIN a |-> RTrim(a[i], n)]
VNum(a) == [i \in DOMAIN a |-> RNum(a[i])]
VDot(a, b) == CHOOSE s : TRUE             \* sum of a[i]*b[i]
VSum(a) == CHOOSE s : TRUE
VInfNorm(a) == CHOOSE s : TRUE            \* max |a[i]|, 0 for <<>>
VEq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : REq(a[i], b[i])
VAllNum(a) == \A i \in DOMAIN a : RIsNum(a[i])
VZero(n) == [i \in 1..n |-> 0]
\* equal lengths and |a[i]-b[i]| <= ta + tr*max(|a|,|b|) with the infinity norms
VClose(a, b, ta, tr) ==
    /\ Len(a) = Len(b)
    /\ \A i \in DOMAIN a :
        RLe(RAbs(RSub(a[i], b[i])), RAdd(ta, RMul(tr, RMax(VInfNorm(a), VInfNorm(b)))))
MVec(m, v) == [i \in DOMAIN m |-> VDot(m[i], v)]
MMul(a, b) == CHOOSE c : TRUE             \* matrix product
MTrans(a) == CHOOSE c : TRUE              \* transpose (of a non-empty matrix)
\* The solution of m*x = v, or <<>> if m is singular
MSolve(m, v) == CHOOSE x : MVec(m, x) = v
MDet(m) == CHOOSE d : TRUE
\* Polynomials in several variables: a polynomial is a sequence of terms
\* [c |-> coefficient, p |-> <<exponents>>]; value at point x (a sequence).
PolyEval(poly, x) == CHOOSE y : TRUE
\* The polynomials of the sequence polys at the point <<t>> \o x, each trimmed to bits
PolyMap(polys, t, x, bits) == [i \in DOMAIN polys |-> RTrim(PolyEval(polys[i], <<t>> \o x), bits)]
\* x0 + sum of coefs[k]*vecs[k]
VComb(x0, coefs, vecs) == CHOOSE y : TRUE
\* The real n-th root of a non-negative number, to 200 bits
RRoot(a, n) == CHOOSE c : RPow(c, n) = a
=============================================================================
