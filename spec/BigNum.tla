------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Real numbers as exact radix-2^15 floating-point triples.                *)
(*                                                                         *)
(*   a number is <<s, e, m>>: s in {-1, 0, 1} the sign, e the exponent (in *)
(*   limbs), m a little-endian tuple of limbs in 0..B-1, and its value is  *)
(*        s * (m[1] + m[2] B + ... + m[n] B^(n-1)) * B^e                   *)
(*                                                                         *)
(* The representation is canonical (no zero limb at either end of m, zero  *)
(* is <<0, 0, << >> >>), so equal numbers are equal TLA+ values.  Results  *)
(* are truncated towards zero to P limbs, i.e. to a relative error below   *)
(* 2^-(15 (P-1)).  Every IEEE-754 double is such a number exactly.         *)
(*                                                                         *)
(* TLC's own integers are 32 bits wide, so the definitions below only ever *)
(* compute with values below 2^31.  TLC evaluates NAdd, NMul, NDiv, NSqrt, *)
(* NCmp and NFloor through java/BigNum.java, which computes the same       *)
(* functions; BigNumPure/MCBigNum check that it does.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

B == 32768          \* limb base
P == 9              \* limbs kept: at least 121 significant bits

Zero == <<0, 0, <<>>>>
-----------------------------------------------------------------------------
(* Naturals as little-endian limb sequences.                               *)

MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b

Limb(x, i) == IF i >= 1 /\ i <= Len(x) THEN x[i] ELSE 0

RECURSIVE StripHi(_)
StripHi(x) == IF x = <<>> THEN <<>>
              ELSE IF x[Len(x)] = 0 THEN StripHi(SubSeq(x, 1, Len(x) - 1))
              ELSE x

RECURSIVE LowZeros(_, _)
LowZeros(x, i) == IF i < Len(x) /\ x[i + 1] = 0 THEN LowZeros(x, i + 1) ELSE i

Shl(x, k) == IF x = <<>> THEN <<>> ELSE [i \in 1..k |-> 0] \o x

RECURSIVE NatCmpAt(_, _, _)
NatCmpAt(x, y, i) ==
  IF i = 0 THEN 0
  ELSE IF Limb(x, i) < Limb(y, i) THEN -1
  ELSE IF Limb(x, i) > Limb(y, i) THEN 1
  ELSE NatCmpAt(x, y, i - 1)
NatCmp(x, y) == NatCmpAt(x, y, MaxI(Len(x), Len(y)))

RECURSIVE NatAddAt(_, _, _, _, _)
NatAddAt(x, y, i, n, c) ==
  IF i > n THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET t == Limb(x, i) + Limb(y, i) + c
       IN  <<t % B>> \o NatAddAt(x, y, i + 1, n, t \div B)
NatAdd(x, y) == NatAddAt(x, y, 1, MaxI(Len(x), Len(y)), 0)

RECURSIVE NatSubAt(_, _, _, _, _)           \* requires x >= y
NatSubAt(x, y, i, n, b) ==
  IF i > n THEN <<>>
  ELSE LET t == Limb(x, i) - Limb(y, i) - b
       IN  IF t < 0 THEN <<t + B>> \o NatSubAt(x, y, i + 1, n, 1)
                    ELSE <<t>> \o NatSubAt(x, y, i + 1, n, 0)
NatSub(x, y) == StripHi(NatSubAt(x, y, 1, Len(x), 0))

RECURSIVE NatMulLimb(_, _, _, _)
NatMulLimb(x, d, i, c) ==
  IF i > Len(x) THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET t == x[i] * d + c
       IN  <<t % B>> \o NatMulLimb(x, d, i + 1, t \div B)

RECURSIVE NatMulAt(_, _, _)
NatMulAt(x, y, j) ==
  IF j > Len(y) THEN <<>>
  ELSE NatAdd(Shl(NatMulLimb(x, y[j], 1, 0), j - 1), NatMulAt(x, y, j + 1))
NatMul(x, y) == StripHi(NatMulAt(x, y, 1))

\* The largest d in lo..hi with d * y <= x, by bisection.
RECURSIVE QDigit(_, _, _, _)
QDigit(x, y, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN  IF NatCmp(StripHi(NatMulLimb(y, mid, 1, 0)), x) <= 0
           THEN QDigit(x, y, mid, hi) ELSE QDigit(x, y, lo, mid - 1)

RECURSIVE NatDivAt(_, _, _, _)              \* schoolbook long division
NatDivAt(x, y, i, r) ==
  IF i = 0 THEN <<>>
  ELSE LET r1 == StripHi(<<x[i]>> \o r)
           d  == QDigit(r1, y, 0, B - 1)
           r2 == NatSub(r1, StripHi(NatMulLimb(y, d, 1, 0)))
       IN  NatDivAt(x, y, i - 1, r2) \o <<d>>
NatDiv(x, y) == StripHi(NatDivAt(x, y, Len(x), <<>>))

\* floor(sqrt(x)), one limb of the root at a time, most significant first.
RECURSIVE RDigit(_, _, _, _)
RDigit(x, r, lo, hi) ==                     \* r: root so far, shifted by a limb
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
           c   == NatAdd(r, IF mid = 0 THEN <<>> ELSE <<mid>>)
       IN  IF NatCmp(NatMul(c, c), x) <= 0
           THEN RDigit(x, r, mid, hi) ELSE RDigit(x, r, lo, mid - 1)
RECURSIVE NatSqrtAt(_, _, _)
NatSqrtAt(x, k, r) ==
  IF k < 0 THEN r
  ELSE LET top == StripHi(SubSeq(x, 2 * k + 1, Len(x)))
           d   == RDigit(top, Shl(r, 1), 0, B - 1)
       IN  NatSqrtAt(x, k - 1, NatAdd(Shl(r, 1), IF d = 0 THEN <<>> ELSE <<d>>))
NatSqrt(x) == StripHi(NatSqrtAt(x, (Len(x) + 1) \div 2, <<>>))
-----------------------------------------------------------------------------
(* Canonical form and truncation to P limbs.                               *)

Norm(s, e, nat) ==
  LET x == StripHi(nat)
  IN  IF x = <<>> \/ s = 0 THEN Zero
      ELSE LET drop == MaxI(0, Len(x) - P)
               y    == SubSeq(x, drop + 1, Len(x))
               z    == LowZeros(y, 0)
           IN  <<s, e + drop + z, SubSeq(y, z + 1, Len(y))>>

Top(a) == a[2] + Len(a[3])                  \* value < B^Top(a)
-----------------------------------------------------------------------------
NNeg(a) == <<-a[1], a[2], a[3]>>
NAbs(a) == <<IF a[1] = 0 THEN 0 ELSE 1, a[2], a[3]>>

NCmpAbs(a, b) ==
  IF Top(a) # Top(b) THEN IF Top(a) < Top(b) THEN -1 ELSE 1
  ELSE LET e == MinI(a[2], b[2])
       IN  NatCmp(Shl(a[3], a[2] - e), Shl(b[3], b[2] - e))

NCmp(a, b) ==
  IF a[1] # b[1] THEN IF a[1] < b[1] THEN -1 ELSE 1
  ELSE IF a[1] = 0 THEN 0
  ELSE a[1] * NCmpAbs(a, b)

NAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF Top(a) > Top(b) + P + 2 THEN a
  ELSE IF Top(b) > Top(a) + P + 2 THEN b
  ELSE LET e == MinI(a[2], b[2])
           x == Shl(a[3], a[2] - e)
           y == Shl(b[3], b[2] - e)
       IN  IF a[1] = b[1] THEN Norm(a[1], e, NatAdd(x, y))
           ELSE LET c == NatCmp(x, y)
                IN  IF c = 0 THEN Zero
                    ELSE IF c > 0 THEN Norm(a[1], e, NatSub(x, y))
                    ELSE Norm(b[1], e, NatSub(y, x))

NMul(a, b) ==
  IF a[1] = 0 \/ b[1] = 0 THEN Zero
  ELSE Norm(a[1] * b[1], a[2] + b[2], NatMul(a[3], b[3]))

NDiv(a, b) ==                               \* requires b # Zero
  IF a[1] = 0 THEN Zero
  ELSE LET k == MaxI(0, P + 1 + Len(b[3]) - Len(a[3]))
       IN  Norm(a[1] * b[1], a[2] - k - b[2], NatDiv(Shl(a[3], k), b[3]))

NSqrt(a) ==                                 \* requires a >= 0
  IF a[1] = 0 THEN Zero
  ELSE LET k0 == MaxI(0, 2 * (P + 1) - Len(a[3]))
           k  == IF (a[2] - k0) % 2 = 0 THEN k0 ELSE k0 + 1
       IN  Norm(1, (a[2] - k) \div 2, NatSqrt(Shl(a[3], k)))

NFloor(a) ==       \* the floor, as a TLC integer; requires |a| < 2^30
  IF a[1] = 0 THEN 0
  ELSE LET n  == Len(a[3])
           F[i \in 0..n] == IF i = 0 THEN 0
                            ELSE IF a[2] + i - 1 >= 0
                                 THEN F[i - 1] + a[3][i] * (B ^ (a[2] + i - 1))
                                 ELSE F[i - 1]
           t  == F[n]
           fr == a[2] < 0
       IN  IF a[1] > 0 THEN t ELSE IF fr THEN -t - 1 ELSE -t
-----------------------------------------------------------------------------
NSub(a, b) == NAdd(a, NNeg(b))

NLt(a, b) == NCmp(a, b) < 0
NLe(a, b) == NCmp(a, b) <= 0
NMin(a, b) == IF NLe(a, b) THEN a ELSE b
NMax(a, b) == IF NLe(a, b) THEN b ELSE a

NInt(i) ==                                   \* from a TLC integer
  IF i = 0 THEN Zero
  ELSE LET u == IF i < 0 THEN -i ELSE i
       IN  Norm(IF i < 0 THEN -1 ELSE 1, 0,
                <<u % B, (u \div B) % B, u \div (B * B)>>)

Pow2(k) == <<1, k \div 15, <<2 ^ (k % 15)>>>>
NShift(a, k) == NMul(a, Pow2(k))             \* a * 2^k, exactly

\* bits of a natural below 2^31
RECURSIVE BitLen(_)
BitLen(t) == IF t = 0 THEN 0 ELSE 1 + BitLen(t \div 2)

One == <<1, 0, <<1>>>>
Two == <<1, 0, <<2>>>>
Half == Pow2(-1)

NRat(p, q) == NDiv(NInt(p), NInt(q))

RECURSIVE NPowNat(_, _)                      \* a^n, n a TLC natural
NPowNat(a, n) ==
  IF n = 0 THEN One
  ELSE LET h == NPowNat(a, n \div 2)
           h2 == NMul(h, h)
       IN  IF n % 2 = 0 THEN h2 ELSE NMul(h2, a)

NPow10(k) == IF k >= 0 THEN NPowNat(NInt(10), k)
             ELSE NDiv(One, NPowNat(NInt(10), -k))
=============================================================================
