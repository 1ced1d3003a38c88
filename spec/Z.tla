---------------------------------- MODULE Z ----------------------------------
(***************************************************************************)
(* Unbounded integers for TLC, written as decimal strings ("-12345"), and  *)
(* a few services the other modules share: reading and writing decimal     *)
(* literals, a splittable pseudo-random function for scenario generation,  *)
(* output of scenarios and counting of exercised cases.                    *)
(*                                                                         *)
(* TLC evaluates these operators with java/tlc2/overrides/ZOverrides.java. *)
(* ZSelfTest.tla checks those evaluations against TLC's own integers and   *)
(* against algebraic laws on large numbers before any result is used.      *)
(* An argument that is an integer may be a TLC integer or a string.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

ZI(a) == "override"            \* the string of an integer
ZInt(a) == 0                   \* the TLC integer of a (small) number
ZAdd(a, b) == "override"
ZSub(a, b) == "override"
ZMul(a, b) == "override"
ZDiv(a, b) == "override"       \* floor(a / b)
ZMod(a, b) == "override"       \* a mod b, b > 0
ZModInt(a, b) == 0             \* the same as a TLC integer
ZDivR(a, b) == "override"      \* nearest to a / b, ties away from zero
ZNeg(a) == "override"
ZAbs(a) == "override"
ZCmp(a, b) == 0                \* -1, 0, 1
ZPow(a, n) == "override"       \* a^n, n a natural TLC integer
ZShl(a, n) == "override"       \* floor(a * 2^n), n of either sign
ZSqrt(a) == "override"         \* floor of the square root
ZBits(a) == 0                  \* number of binary digits of |a|
ZDigits(a) == 0                \* number of decimal digits of |a|
ZAnd(a, b) == "override"
ZOr(a, b) == "override"
ZXor(a, b) == "override"
ZHex(a) == "override"          \* base 16 text
ZDec(s) == <<"0", 0>>          \* <<m, e>>: the literal s denotes m * 10^-e
ZShow(m, e) == "override"      \* the literal of m * 10^-e
ZMix(h, k) == 0                \* pseudo-random function to 0..2^31-1
ZRandBits(h, n) == "override"  \* pseudo-random number of n bits
ZHash(s, n) == 0               \* hash of a text to 0..n-1
ZContains(s, t) == FALSE       \* t occurs in s
ZEmit(f, s) == TRUE            \* write a line
ZCount(s) == TRUE              \* count an exercised case

ZLt(a, b) == ZCmp(a, b) < 0
ZLe(a, b) == ZCmp(a, b) <= 0
ZEq(a, b) == ZCmp(a, b) = 0
ZSgn(a) == ZCmp(a, "0")
ZMax(a, b) == IF ZLt(a, b) THEN b ELSE a
ZMin(a, b) == IF ZLt(a, b) THEN a ELSE b
ZPow10(n) == ZPow("10", n)
ZPow2(n) == ZPow("2", n)

\* Uniform choice from 0..n-1, and of an element of a sequence, from h.
Pick(h, n) == ZMix(h, 17) % n
PickSeq(h, s) == s[Pick(h, Len(s)) + 1]
\* The k-th independent generator derived from h.
Split(h, k) == ZMix(h, 1000 + k)
===============================================================================
