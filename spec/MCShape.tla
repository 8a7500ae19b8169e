------------------------------- MODULE MCShape ------------------------------
(* Polygon membership against the half-plane definition on every triangle,    *)
(* and the masking of a list of variables that may have missing elements:     *)
(* one mask from the shape, or-ed into each variable in turn.                 *)
EXTENDS Shape
CONSTANTS N, NV
VARIABLES a, b, c, p, hole, miss, vi, out
vars == <<a, b, c, p, hole, miss, vi, out>>
Pt == (0..N) \X (0..N)
Cross(u, v, w) == (v[1] - u[1]) * (w[2] - u[2]) - (v[2] - u[2]) * (w[1] - u[1])
Tri == << <<a, b, c>> >>
HalfPlanes == LET s == {Cross(a, b, p), Cross(b, c, p), Cross(c, a, p)} IN (\A x \in s : x > 0) \/ (\A x \in s : x < 0)
Init == /\ a \in Pt /\ b \in Pt /\ c \in Pt /\ Cross(a, b, c) # 0 /\ p \in Pt
        /\ hole = FALSE /\ miss \in [1..NV -> BOOLEAN] /\ vi = 1 /\ out = <<>>
Apply == /\ vi <= NV
         /\ out' = Append(out, miss[vi] \/ ~Inside(Tri, p))
         /\ vi' = vi + 1 /\ UNCHANGED <<a, b, c, p, hole, miss>>
Spec == Init /\ [][Apply]_vars
Convex == Inside(Tri, p) <=> HalfPlanes
Invariances == /\ Inside(Tri, p) <=> Inside(<< <<b, c, a>> >>, p)
               /\ Inside(Tri, p) <=> Inside(<< <<c, b, a>> >>, p)
               /\ Inside(Tri, p) => (MinX(Tri) < p[1] /\ p[1] < MaxX(Tri) /\ MinY(Tri) < p[2] /\ p[2] < MaxY(Tri))
               /\ ~(Inside(Tri, p) /\ OnBoundary(Tri, p))
Masks == \A k \in 1..Len(out) : out[k] = FALSE <=> (~miss[k] /\ HalfPlanes)
=============================================================================
