------------------------------- MODULE Real64 -------------------------------
(***************************************************************************)
(* The real numbers of the specification.  A real is a pair <<hi, lo>>:    *)
(* the two signed 32-bit halves of an IEEE-754 binary64 number (TLC's own  *)
(* integers are 32-bit).  TLC evaluates the operators below with the Java  *)
(* module override java/Real64.java; the definitions given here are only   *)
(* their signatures.  Nothing here depends on numpy or scipy.              *)
(* Arithmetic and elementary functions also work elementwise on sequences  *)
(* of reals, a single real or integer being combined with every element.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL INSTANCE TLC
LOCAL Undefined == CHOOSE r \in {<<0, 0>>} : TRUE

RInt(n) == Undefined          \* the integer n as a real
RDec(s) == Undefined          \* a decimal literal, e.g. RDec("0.525")
RStr(a) == "?"                \* text of a real, for verdicts
RFloor(a) == 0                \* floor, as an integer
RCeil(a) == 0
RF32(a) == Undefined          \* nearest binary32 number

RAdd(a, b) == Undefined
RSub(a, b) == Undefined
RMul(a, b) == Undefined
RDiv(a, b) == Undefined
RPow(a, b) == Undefined
RAbs(a) == Undefined
RLt(a, b) == FALSE
RLe(a, b) == FALSE
REq(a, b) == FALSE
RFinite(a) == TRUE
RIsNaN(a) == FALSE
RSum(s) == Undefined          \* sum of a sequence of reals
RSort(s) == s                 \* increasing rearrangement of a sequence of reals
RMaxOf(s) == Undefined        \* largest and smallest element of a sequence of reals
RMinOf(s) == Undefined
RIota(n) == <<>>              \* the sequence of reals 1, ..., n
RRev(s) == s                  \* the sequence reversed
RCum(s) == s                  \* partial sums

RSqrt(a) == Undefined
RLog(a) == Undefined
RLog1p(a) == Undefined
RExp(a) == Undefined
RExpm1(a) == Undefined
RSin(a) == Undefined
RCos(a) == Undefined
RAtan(a) == Undefined
RAsin(a) == Undefined

RLGamma(a) == Undefined       \* log Gamma(a)
RDigamma(a) == Undefined
PhiCdf(x) == Undefined        \* standard normal distribution function
PhiInv(p) == Undefined
GammaP(a, x) == Undefined     \* regularised lower incomplete gamma
GammaQ(a, x) == Undefined
GammaPInv(a, p) == Undefined
BetaI(a, b, x) == Undefined   \* regularised incomplete beta
BetaIInv(a, b, p) == Undefined
TCdf(df, x) == Undefined      \* Student distribution function
TInv(df, p) == Undefined
RiceStdCdf(nu, x) == Undefined

-----------------------------------------------------------------------------
\* F(v) with v evaluated once (TLC re-evaluates a LET at every use)
With(v, F(_)) == CHOOSE y \in {F(x) : x \in {TLCEval(v)}} : TRUE
a (+) b == RAdd(a, b)
a (-) b == RSub(a, b)
a (.) b == RMul(a, b)
a (/) b == RDiv(a, b)
a \prec b == RLt(a, b)
a \preceq b == RLe(a, b)

Zero == RInt(0)
One == RInt(1)
Two == RInt(2)
Half == RDec("0.5")
Pi == RDec("3.14159265358979323846")
RNeg(a) == RSub(RInt(0), a)
RRat(n, d) == RDiv(RInt(n), RInt(d))
RMax2(a, b) == IF RLt(a, b) THEN b ELSE a
RMin2(a, b) == IF RLt(b, a) THEN b ELSE a
Sq(a) == RMul(a, a)
Cube(a) == RMul(a, RMul(a, a))
RECURSIVE PowI(_, _)
PowI(a, k) == IF k = 0 THEN RInt(1) ELSE RMul(a, PowI(a, k - 1))

\* |a - b| <= tol * max(1, |b|), and non-finite values only match themselves
CloseTol(a, b, tol) ==
  IF RFinite(a) /\ RFinite(b)
  THEN RLe(RAbs(RSub(a, b)), RMul(tol, RMax2(RInt(1), RAbs(b))))
  ELSE REq(a, b) \/ (RIsNaN(a) /\ RIsNaN(b))
Close(a, b) == CloseTol(a, b, RDec("1e-9"))
\* successive differences
RDiff(s) == RSub(Tail(s), SubSeq(s, 1, Len(s) - 1))
RDot(a, b) == RSum(RMul(a, b))
RMean(s) == RDiv(RSum(s), RInt(Len(s)))
\* the elements i..j of s
Sub(s, i, j) == SubSeq(s, i, j)
=============================================================================
