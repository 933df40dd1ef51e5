-------------------------------- MODULE Consts --------------------------------
(* The target constants.  The state is the working precision, which every          *)
(* requester shares; a request may set it.  What a request returns is the named     *)
(* number, rounded to the working precision, as far as digits of it are stored.     *)
EXTENDS Reals

Plain == {"pi", "e", "phi", "euler", "apery"}
Indexed == [zeta |-> 2..20, percolation |-> 0..1, feig |-> 0..3]
HasIndex(name) == name \in DOMAIN Indexed
Exists(name, i) == name \in Plain \/ (HasIndex(name) /\ i \in Indexed[name])

\* the significant digits that are available of each (pi and e are given to thousands and kept to 150)
Digits(name, i) ==
    CASE name \in {"pi", "e"} -> 150
      [] name = "phi" -> 105
      [] name = "euler" -> 99
      [] name = "apery" \/ (name = "zeta" /\ i = 3) -> 108
      [] name \in {"zeta", "percolation"} -> 99
      [] name = "feig" -> IF i <= 1 THEN 105 ELSE 104

(* the numbers, as certified enclosures in units of 10^-CD *)
CD == 175
CPi == IPi(CD)
CE == IE(CD)
CPhi == IPhi(CD)
CEuler == IEuler(CD)
CZeta == TLCEval([s \in 2..20 |-> IZeta(s, CD)])
CSin == ISinPi18(CD)
\* no series of these is at hand: the published digits of the four Feigenbaum-type numbers
FeigDigits == <<
  "0832367236905316424849095446276104487378444151012251178801815537790651149061721299210574967325072848966217",
  "183125898493713148534217339787378162744129809037623796547741164647029628921518197466402695607431535931144",
  "28315090047407180144993675864514825103861092055443549309368086842363044614290970217463629831538000035030",
  "15546180470640874386344153591097097603679027104799317816179366813305881904302037128542124779889011575139">>
FeigPlaces == <<105, 104, 103, 103>>
IFeig(i) == LET u == BPow("10", CD - FeigPlaces[i + 1])
                m == BMul(BAdd(FeigDigits[i + 1], "0"), u)
            IN <<BSub(m, u), BAdd(m, u)>>
Number(name, i) ==
    CASE name = "pi" -> CPi [] name = "e" -> CE [] name = "phi" -> CPhi [] name = "euler" -> CEuler
      [] name = "apery" -> CZeta[3]
      [] name = "zeta" -> CZeta[i]
      [] name = "percolation" -> IF i = 0 THEN ISub(IFrom(ROne, CD), IScale(CSin, "2")) ELSE IScale(CSin, "2")
      [] name = "feig" -> IFeig(i)

---------------------------------------------------------------------------
(* requests; prec 0 stands for none given *)
After(dps, prec) == IF prec = 0 THEN dps ELSE prec
\* how far the returned number may be off: one unit in the last digit of those there are, and one of the working precision
Slack(n, name, i, dps) == LET E == DecExp(ILo(n, CD)) IN RAdd(Ten(E - Digits(name, i)), Ten(E - dps))
\* q may be returned for the constant at working precision dps
MayReturn(name, i, dps, q) ==
    LET n == Number(name, i)
        w == Slack(n, name, i, dps)
    IN RLe(RSub(ILo(n, CD), w), q) /\ RLe(q, RAdd(IHi(n, CD), w))
==============================================================================
