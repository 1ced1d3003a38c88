------------------------------- MODULE RealFnTest ------------------------------
(* The functions of RealFn.tla against published digits and against each other. *)
EXTENDS RealFn, TLC

W == 400
Eps == ZPow2(16)                        \* 2^-384
Near(a, b) == ZLe(ZAbs(ZSub(a, b)), Eps)
Dec(s, w) == LET d == ZDec(s) IN FromDec(d[1], d[2], w)
\* 2^-180 apart at most: the digits are known to 60 places
Known(a, s) == ZLe(ZAbs(ZSub(a, Dec(s, W))), ZPow2(W - 180))
X(s) == Dec(s, W)

ASSUME Known(FPi(W), "3.14159265358979323846264338327950288419716939937510582097494459230781640628")
ASSUME Known(FLn2(W), "0.693147180559945309417232121458176568075500134360255254120680009493393621969694")
ASSUME Known(FExp(X("1"), W), "2.718281828459045235360287471352662497757247093699959574966967627724076630353")
ASSUME Known(FExp(X("-1"), W), "0.367879441171442321595523770161460867445811131031767834507836801697461495744899")
ASSUME Known(FLn(X("10"), W), "2.302585092994045684017991454684364207601101488628772976033327900967572609677352")
ASSUME Known(FSqrt(X("2"), W), "1.414213562373095048801688724209698078569671875376948073176679737990732478462107")
ASSUME Known(FSin(X("1"), W), "0.841470984807896506652502321630298999622563060798371065672751709991910404391239")
ASSUME Known(FCos(X("1"), W), "0.540302305868139717400936607442976603732310420617922227670097255381100394774471")
ASSUME Known(FAtan(X("1"), W), "0.785398163397448309615660845819875721049292349843776455243736148076954101571552")
ASSUME Known(FErf(X("1"), W), "0.842700792949714869341220635082609259296066997966302908459937897834717254096010841")
ASSUME Known(FErf(X("0.5"), W), "0.520499877813046537682746653891964528736451575757963700058805725647193521716853570914")
ASSUME Known(FErf(X("3"), W), "0.999977909503001414558627223870417679620152292912600750342761045109184321106")
ASSUME Known(FNorm(X("1"), W), "0.841344746068542948585232545632037174237154101150146246")
        \/ ZLe(ZAbs(ZSub(FNorm(X("1"), W), Dec("0.8413447460685429485852325456320379224779", W))), ZPow2(W - 125))
ASSUME Near(FErf(X("-2.5"), W), ZNeg(FErf(X("2.5"), W)))
ASSUME FErf(X("40"), W) = One(W) /\ ZLe(ZSub(One(W), FErf(X("16"), W)), ZPow2(W - 360))

\* The loops in Java are the definitions.
ASSUME \A k \in 1..12 :
   LET w == 60 + 20 * k
       x == ZSub(ZRandBits(ZMix(5, k), w - 2), ZPow2(w - 3))
       y == ZSub(ZRandBits(ZMix(6, k), w), ZPow2(w - 1))
       p == ZRandBits(ZMix(7, k), w - 3)
   IN /\ Fact(x, y, 1, x, w, 1) = FactDef(x, y, 1, x, w, 1)
      /\ Fact(x, y, 2, x, w, 2) = FactDef(x, y, 2, x, w, 2)
      /\ Odds(x, p, 3, y, w, -1) = OddsDef(x, p, 3, y, w, -1)
      /\ Odds(x, p, 3, y, w, 1) = OddsDef(x, p, 3, y, w, 1)
      /\ Squares(x, k, w) = SquaresDef(x, k, w)
      /\ ErfSum(p, p, 3, y, w) = ErfSumDef(p, p, 3, y, w)

Args == {"0", "0.1", "0.5", "0.75", "1", "1.5", "2", "3.25", "10", "-0.3", "-1", "-2.75", "1e-20", "37.5"}
Pos == {s \in Args : ZDec(s)[1] # "0" /\ ZSgn(ZDec(s)[1]) > 0}
ASSUME \A s \in Args : LET x == X(s) IN
   /\ Near(ZAdd(FMul(FSin(x, W), FSin(x, W), W), FMul(FCos(x, W), FCos(x, W), W)), One(W))
   /\ Near(FSin(Dbl(x), W), Dbl(FMul(FSin(x, W), FCos(x, W), W)))
   /\ LET e == FExp(x, W) IN ZLe(ZAbs(ZSub(FMul(e, FExp(ZNeg(x), W), W), One(W))), ZShl(ZMax(Eps, e), 12))
   /\ LET e == ZShl(FExp(ZShl(x, 80), W + 80), 0) IN ZLe(ZAbs(ZSub(FLn(e, W + 80), ZShl(x, 80))), ZPow2(W - 300 + 80 + 64))
   /\ Near(FAtan(ZNeg(x), W), ZNeg(FAtan(x, W)))
   /\ ZLe(ZAbs(ZSub(FMul(FCos(FAtan(x, W), W), x, W), FSin(FAtan(x, W), W))), ZMul(64, Eps))
   /\ Near(ZAdd(FNorm(x, W), FNorm(ZNeg(x), W)), One(W))
ASSUME \A s \in Pos, t \in Pos :
   /\ Near(FLn(FMul(X(s), X(t), W + 0), W), ZAdd(FLn(X(s), W), FLn(X(t), W))) \/ s = "1e-20" \/ t = "1e-20"
   /\ ZDec(s)[1] = "375" \/ ZDec(t)[1] = "375" \/ s = "1e-20" \/ t = "1e-20" \/
      LET a == FPow(X(s), X(t), W) IN ZLe(ZAbs(ZSub(FMul(a, FPow(X(s), ZNeg(X(t)), W), W), One(W))), ZShl(ZMax(One(W), a), 40 - W))
ASSUME \A p \in -8..8 : LET a == FAsinR(p, 8, W) IN
   /\ ZLe(ZAbs(ZSub(FSin(a, W), FromRat(p, 8, W))), Eps)
   /\ Near(ZAdd(a, FAcosR(p, 8, W)), Half(FPi(W)))
   /\ ZLe(ZAbs(ZSub(FCos(FAcosR(p, 8, W), W), FromRat(p, 8, W))), Eps)
\* the derivative of the cumulative probability is the density: a central difference
ASSUME \A s \in {"0", "0.3", "-1.25", "2"} :
   LET h == ZPow2(W - 60) IN
   ZLe(ZAbs(ZSub(FDiv(ZSub(FNorm(ZAdd(X(s), h), W), FNorm(ZSub(X(s), h), W)), Dbl(h), W), FPhi(X(s), W))), ZPow2(W - 100))
===============================================================================
