------------------------------ MODULE MCBigNum ------------------------------
(***************************************************************************)
(* TLC evaluates the arithmetic of BigNum through java/BigNum.java.  Pure  *)
(* is the same text without that override (the runner copies BigNum.tla    *)
(* under another name): both have to give the same values, and these have  *)
(* to be the arithmetic they claim to be.                                  *)
(***************************************************************************)
EXTENDS BigNum, TLC, FiniteSets
Pure == INSTANCE BigNumPure

CONSTANTS Depth
\* short operands: every combination of extreme limbs, and long ones
Limbs == {0, 1, 2, 16384, 32767}
Short == {Norm(s, e, m) : s \in {-1, 1}, e \in {-2, 0, 1}, m \in {<<x, y>> : x \in {0, 1, 32767}, y \in {1, 16384, 32767}}}
Lcg[i \in 0..400] == IF i = 0 THEN 12345 ELSE (Lcg[i - 1] * 1103 + 12347) % 32768
Long == {Norm(IF k % 2 = 0 THEN 1 ELSE -1, k - 12, [i \in 1..(1 + (k % 10)) |-> Lcg[7 * k + i]]) : k \in 1..Depth}
Edge == {Zero, One, Two, Half, Pow2(-1074), Pow2(1023), NInt(-7), NInt(1000000007),
         Norm(1, -9, [i \in 1..9 |-> 32767]), Norm(-1, -8, [i \in 1..9 |-> 32767]),
         Norm(1, -9, [i \in 1..9 |-> IF i = 9 THEN 1 ELSE 0]), Norm(1, 0, <<1, 0, 0, 0, 0, 0, 0, 0, 0, 1>>)}
Nums == Short \cup Long \cup Edge

VARIABLES a, b
Init == a \in Nums /\ b = Zero
Next == b = Zero /\ b' \in Nums /\ UNCHANGED a

Ints == {0, 1, -1, 2, 32767, 32768, -32769, 65535, 1073741823, -1073741824 + 1, 2147483647}
ASSUME \A i \in Ints : NInt(i) = Pure!NInt(i) /\ (i >= 0 => BitLen(i) = Pure!BitLen(i))

Same == /\ NAdd(a, b) = Pure!NAdd(a, b)
        /\ NMul(a, b) = Pure!NMul(a, b)
        /\ NCmp(a, b) = Pure!NCmp(a, b)
        /\ b # Zero => NDiv(a, b) = Pure!NDiv(a, b)
        /\ a[1] >= 0 /\ b = Zero => NSqrt(a) = Pure!NSqrt(a)
        /\ b = Zero /\ Top(a) <= 1 => NFloor(a) = Pure!NFloor(a)
\* canonical form, and a few laws of a field with an order
Canonical(x) == \/ x = Zero
                \/ /\ x[1] \in {-1, 1} /\ Len(x[3]) \in 1..P
                   /\ x[3][1] # 0 /\ x[3][Len(x[3])] # 0
                   /\ \A i \in 1..Len(x[3]) : x[3][i] \in 0..(B - 1)
Small(x, y) == NLe(NAbs(x), NMul(NAbs(y), Pow2(-119)))
Laws == /\ Canonical(NAdd(a, b)) /\ Canonical(NMul(a, b))
        /\ NAdd(a, b) = NAdd(b, a) /\ NMul(a, b) = NMul(b, a)
        /\ NCmp(a, b) = -NCmp(b, a) /\ ((NCmp(a, b) = 0) <=> (a = b))
        /\ NCmp(a, b) = NSub(a, b)[1]
        /\ b # Zero => LET q == NDiv(a, b) IN Canonical(q) /\ Small(NSub(NMul(q, b), a), a)
        /\ b = Zero /\ a[1] >= 0 => LET r == NSqrt(a) IN Canonical(r) /\ Small(NSub(NMul(r, r), a), a)
        /\ Small(NSub(NSub(NAdd(a, b), b), a), NMax(NAbs(a), NMax(NAbs(b), NAbs(NAdd(a, b)))))
=============================================================================
