-------------------------------- MODULE Fit ----------------------------------
(* Fits with whole numbers: values are fractions N / D.                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt
Xs(ps) == {ps[k][1] : k \in DOMAIN ps}
Distinct(ps) == Cardinality(Xs(ps))
Sum2(f(_), ps) == FoldLeft(LAMBDA acc, p : acc + f(p), 0, ps)
SumSq(s) == FoldLeft(LAMBDA acc, v : acc + v, 0, s)
Sx(ps) == Sum2(LAMBDA p : p[1], ps)
Sy(ps) == Sum2(LAMBDA p : p[2], ps)
Sxx(ps) == Sum2(LAMBDA p : p[1] * p[1], ps)
Sxy(ps) == Sum2(LAMBDA p : p[1] * p[2], ps)
\* least squares line at x
Det(ps) == Len(ps) * Sxx(ps) - Sx(ps) * Sx(ps)
Cov(ps) == Len(ps) * Sxy(ps) - Sx(ps) * Sy(ps)
LineN(ps, x) == Sy(ps) * Det(ps) + Cov(ps) * (Len(ps) * x - Sx(ps))
LineD(ps) == Len(ps) * Det(ps)
\* least squares property: residuals sum to nothing, and so do residuals times x
Res(ps, k) == ps[k][2] * LineD(ps) - LineN(ps, ps[k][1])
\* parabola through three points with different x, at x
Three(ps) == LET S == CHOOSE S \in SUBSET DOMAIN ps : Cardinality(S) = 3 /\ Cardinality({ps[k][1] : k \in S}) = 3
             IN SetToSeq({ps[k] : k \in S})
ParD(t) == (t[1][1] - t[2][1]) * (t[1][1] - t[3][1]) * (t[2][1] - t[3][1])
ParN(t, x) == t[1][2] * (x - t[2][1]) * (x - t[3][1]) * (t[2][1] - t[3][1])
            - t[2][2] * (x - t[1][1]) * (x - t[3][1]) * (t[1][1] - t[3][1])
            + t[3][2] * (x - t[1][1]) * (x - t[2][1]) * (t[1][1] - t[2][1])
OnParabola(ps) == LET t == Three(ps) IN \A k \in DOMAIN ps : ps[k][2] * ParD(t) = ParN(t, ps[k][1])

(* Least squares polynomial of degree d at zero: the mean of the             *)
(* interpolations through every d + 1 of the points, weighted by the square  *)
(* of the product of the differences of their x (Cauchy-Binet).              *)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Vand(t) == Prod(FlattenSeq([a \in DOMAIN t |-> [b \in 1..(a - 1) |-> t[a][1] - t[b][1]]]))
\* interpolation through t at zero, times Vand(t)
Interp(t) == FoldLeftDomain(LAMBDA acc, k :
    acc + (IF k % 2 = 1 THEN 1 ELSE -1) * t[k][2] * Prod([j \in DOMAIN RemoveAt(t, k) |-> RemoveAt(t, k)[j][1]]) * Vand(RemoveAt(t, k)),
    0, t)
Tuples(ps, d) == {SetToSortSeq(S, <) : S \in {S \in SUBSET DOMAIN ps : Cardinality(S) = d + 1}}
Pick(ps, k) == [j \in DOMAIN k |-> ps[k[j]]]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(v) == IF v < 0 THEN -v ELSE v
Low(v) == LET g == Gcd(Abs(v[1]), Abs(v[2])) s == IF v[2] < 0 THEN -1 ELSE 1
          IN IF v[2] = 0 THEN v ELSE <<s * ((Abs(v[1]) \div g) * (IF v[1] < 0 THEN -1 ELSE 1)), Abs(v[2]) \div g>>
\* <<numerator, denominator>> in lowest terms; denominator zero if there are too few points
PolyFit(ps, d) ==
  IF Len(ps) < d + 1 THEN <<0, 0>>
  ELSE IF Len(ps) = d + 1 THEN Low(<<Interp(ps), Vand(ps)>>)
  ELSE LET T == SetToSeq(Tuples(ps, d))
       IN Low(FoldLeft(LAMBDA acc, k : LET t == Pick(ps, k) v == Vand(t)
                                       IN <<acc[1] + v * Interp(t), acc[2] + v * v>>, <<0, 0>>, T))
=============================================================================
