-------------------------------- MODULE Num --------------------------------
(* 64-bit numbers do not fit TLC's 32-bit integers.  The harness encodes each of them, order-preserving, *)
(* as three limbs <<22 bits, 21 bits, 21 bits>>: an f64 by flipping its sign (or all) bits, an i64 by    *)
(* adding 2^63.  Lexicographic order of limbs is then the numeric order.                                 *)
EXTENDS Integers, Sequences

LexLeq(a, b) == \/ a[1] < b[1]
                \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3]))

ILeq(a, b) == LexLeq(a, b)
ILt(a, b)  == ~LexLeq(b, a)

FNegZero == <<2097151, 2097151, 2097151>>
FZero    == <<2097152, 0, 0>>
FOne     == <<3144704, 0, 0>>          \* 1.0
FMax     == <<4193279, 2097151, 2097151>>   \* f64::MAX

\* -0.0 and 0.0 are the same number (but different limbs, so that bit-identity can be stated too)
FNorm(a)  == IF a = FNegZero THEN FZero ELSE a
FLeq(a, b) == LexLeq(FNorm(a), FNorm(b))
FLt(a, b)  == ~FLeq(b, a)
FEq(a, b)  == FNorm(a) = FNorm(b)

\* optional numbers are sequences of length 0 or 1
OptOk(o, P(_)) == o = <<>> \/ P(o[1])
=============================================================================
