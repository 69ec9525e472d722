------------------------------- MODULE FitMC ---------------------------------
(* The fits of spec/Fit.tla against what defines them, for all data of a     *)
(* small scope: points are added one at a time in any order of x.            *)
EXTENDS Fit, TLC
CONSTANTS MaxX, MaxY, MaxN
VARIABLE ps
Init == ps = <<>>
Next == /\ Len(ps) < MaxN
        /\ \E x \in 1..MaxX, y \in -MaxY..MaxY :
             /\ \A k \in DOMAIN ps : ps[k][1] # x
             /\ ps' = Append(ps, <<x, y>>)
Spec == Init /\ [][Next]_ps
Two == Distinct(ps) >= 2
\* the line leaves nothing of the data behind that a line could explain
Orthogonal == Two => /\ SumSq([k \in DOMAIN ps |-> Res(ps, k)]) = 0
                     /\ SumSq([k \in DOMAIN ps |-> ps[k][1] * Res(ps, k)]) = 0
\* the general fit of degree one is that line
LineAgrees == Two => LET f == PolyFit(ps, 1) IN f[2] # 0 /\ f[1] * LineD(ps) = f[2] * LineN(ps, 0)
\* a constant fit is the mean
MeanAgrees == Len(ps) >= 1 => LET f == PolyFit(ps, 0) IN f[1] * Len(ps) = f[2] * Sy(ps)
\* data on a line or parabola give its value at zero, whatever larger degree is fitted
Exact == \A d \in 1..3 : Len(ps) > d =>
    /\ ((Two /\ \A k \in DOMAIN ps : Res(ps, k) = 0) => LET f == PolyFit(ps, d) IN f[1] * LineD(ps) = f[2] * LineN(ps, 0))
    /\ ((d >= 2 /\ Distinct(ps) >= 3 /\ OnParabola(ps)) =>
          LET f == PolyFit(ps, d) t == Three(ps) IN f[1] * ParD(t) = f[2] * ParN(t, 0))
\* three points determine a parabola
Three3 == Len(ps) = 3 => LET f == PolyFit(ps, 2) IN f[1] * ParD(ps) = f[2] * ParN(ps, 0)
\* the order of the points does not matter
AnyOrder == \A d \in 0..2 : PolyFit(ps, d) = PolyFit(Reverse(ps), d)
=============================================================================
