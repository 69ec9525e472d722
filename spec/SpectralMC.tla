----------------------------- MODULE SpectralMC ------------------------------
(* Filtering as designed, on all small landscapes and tolerances.            *)
EXTENDS Spectral, TLC
CONSTANTS V
Dims == {<<2, 1>>, <<2, 2>>, <<4, 1>>}
VARIABLES v, tol, dim, F
Init == /\ dim \in Dims /\ tol \in 0..(2 * V)
        /\ v \in [1..Pow(dim[1], dim[2]) -> -V..V]
        /\ F = Fourier(dim[1], dim[2], v)
Apply == /\ F' = Filter(F, tol) /\ UNCHANGED <<v, tol, dim>>
Spec == Init /\ [][Apply]_<<v, tol, dim, F>>
N == Pow(dim[1], dim[2])
\* a filter that changes nothing gives back the landscape
Lossless == tol = 0 => \A x \in 1..N : Restore(dim[1], dim[2], F, x - 1) = <<N * v[x], 0>>
\* the landscape stays real, and filtering twice is filtering once
Real == \A x \in 1..N : Restore(dim[1], dim[2], F, x - 1)[2] = 0
Twice == Filter(Filter(F, tol), tol) = Filter(F, tol)
\* positions and coordinates are inverse to each other
Places == \A x \in 0..(N - 1) : Index(dim[1], dim[2], Coord(dim[1], dim[2], x)) = x
=============================================================================
