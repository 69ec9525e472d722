------------------------------ MODULE Spectral -------------------------------
(* Landscapes on a grid of n values (n = 2 or 4) for each of k symbols, as   *)
(* whole numbers in row-major order, and their Fourier coefficients as whole *)
(* complex numbers <<re, im>>.                                               *)
EXTENDS Naturals, Integers, Sequences, SequencesExt
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
\* coordinates of position x in 0..n^k-1, most significant first
Coord(n, k, x) == [j \in 1..k |-> (x \div Pow(n, k - j)) % n]
Index(n, k, c) == FoldLeftDomain(LAMBDA acc, j : acc * n + c[j], 0, c)
\* quarter turns of u.x
Turn(n, k, u, x) == LET cu == Coord(n, k, u) cx == Coord(n, k, x)
                    IN (FoldLeftDomain(LAMBDA acc, j : acc + cu[j] * cx[j], 0, cu) * (4 \div n)) % 4
\* z times i^t
Rot(z, t) == CASE t % 4 = 0 -> z [] t % 4 = 1 -> <<-z[2], z[1]>> [] t % 4 = 2 -> <<-z[1], -z[2]>> [] OTHER -> <<z[2], -z[1]>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
SumC(N, f(_)) == FoldLeft(LAMBDA acc, j : Plus(acc, f(j)), <<0, 0>>, [j \in 1..N |-> j - 1])
Fourier(n, k, v) == [u \in 1..Pow(n, k) |-> SumC(Pow(n, k), LAMBDA x : Rot(<<v[x + 1], 0>>, 4 - Turn(n, k, u - 1, x)))]
\* n^k times the landscape of coefficients F at position x
Restore(n, k, F, x) == SumC(Pow(n, k), LAMBDA u : Rot(F[u + 1], Turn(n, k, u, x)))
Keep(z, tol) == z[1] * z[1] + z[2] * z[2] >= tol * tol
Filter(F, tol) == [u \in DOMAIN F |-> IF Keep(F[u], tol) THEN F[u] ELSE <<0, 0>>]
=============================================================================
