----------------------------- MODULE MeshRepair ------------------------------
(* Automatic repair of a mesh file.                                           *)
(*                                                                            *)
(* A file is a sequence of entities [t |-> element type, g |-> tags,          *)
(* n |-> nodes].  The first two tags are the physical and the geometric one;  *)
(* the solver works with the geometric one.                                   *)
EXTENDS Integers, Sequences

Points == {15}
Lines == {1, 8, 26, 27, 28}
Surfaces == {2, 9, 20, 21, 3, 10, 16}
Volumes == {4, 11, 29, 5, 12, 17}

DimOf(t) == CASE t \in Points -> 0 [] t \in Lines -> 1 [] t \in Surfaces -> 2 [] OTHER -> 3

Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE DimUpTo(_, _)
DimUpTo(f, k) == IF k = 0 THEN 1 ELSE Max2(DimOf(f[k].t), DimUpTo(f, k - 1))
Dim(f) == DimUpTo(f, Len(f))

(* Volume elements and boundary elements stay, anything of lower dimension    *)
(* goes.                                                                      *)
Stays(f, e) == DimOf(e.t) >= Dim(f) - 1

Retag(e) == [e EXCEPT !.g = [i \in DOMAIN e.g |-> IF i = 1 THEN e.g[2] ELSE e.g[i]]]

RECURSIVE Sift(_, _)
Sift(f, k) == IF k = 0 THEN <<>>
              ELSE IF Stays(f, f[k]) THEN Append(Sift(f, k - 1), Retag(f[k]))
              ELSE Sift(f, k - 1)
Repaired(f) == Sift(f, Len(f))

VARIABLES file, loads
vars == <<file, loads>>

Idle == file = <<>> /\ loads = 0
Given(f) == file' = f /\ loads' = 0
(* Every load repairs the file in place before reading it.                    *)
Load == file' = Repaired(file) /\ loads' = loads + 1

(* -------------------------------------------------------------------------- *)
Once == loads > 0 => Repaired(file) = file
OnlyMeshEntities == loads > 0 => \A k \in DOMAIN file :
   /\ DimOf(file[k].t) \in {Dim(file), Dim(file) - 1}
   /\ file[k].g[1] = file[k].g[2]
=============================================================================
