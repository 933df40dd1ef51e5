-------------------------------- MODULE BigNum --------------------------------
(* The big-integer operators used by every other module.  Defined by           *)
(* BigNumRef; TLC evaluates them with java.math.BigInteger when                *)
(* BigNumOverrides is on its class path (a pure speed-up, see BigNumCheck).    *)
LOCAL R == INSTANCE BigNumRef
BAdd(a, b) == R!BAdd(a, b)
BSub(a, b) == R!BSub(a, b)
BMul(a, b) == R!BMul(a, b)
BDiv(a, b) == R!BDiv(a, b)
BMod(a, b) == R!BMod(a, b)
BCmp(a, b) == R!BCmp(a, b)
BGcd(a, b) == R!BGcd(a, b)
BPow(a, n) == R!BPow(a, n)
BIsqrt(a) == R!BIsqrt(a)
BNeg(a) == R!BNeg(a)
BAbs(a) == R!BAbs(a)
BSign(a) == R!BSign(a)
BToInt(a) == R!BToInt(a)
BHorner(p, x) == R!BHorner(p, x)
BDot(a, b, c, d) == R!BDot(a, b, c, d)
===============================================================================
