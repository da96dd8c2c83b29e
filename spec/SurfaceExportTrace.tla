-------------------------- MODULE SurfaceExportTrace --------------------------
(* Files written by the real exporter, rank by rank, and far fields computed  *)
(* by the real post-processor from these files or from their beginnings.      *)
EXTENDS SurfaceExport, TraceBase
VARIABLES case, files, refs

tvars == <<case, files, refs, l>>
TraceInit == l = 1 /\ case = <<>> /\ files = <<>> /\ refs = <<>>
Begin == Consume("begin") /\ case' = Ev.p /\ files' = <<>> /\ refs' = <<>>
Exported == Consume("exported") /\ Len(Ev.ranks) >= 1 /\ UNCHANGED <<case, files, refs>>

(* ---- what was written ---------------------------------------------------- *)
N == Len(case.snaps)
File == /\ Consume("file") /\ Ev.dim = case.dim /\ Ev.bytes = FileBytes(Ev, N)
        /\ files' = Append(files, [dim |-> Ev.dim, points |-> Ev.points, dofs |-> Ev.dofs, planes |-> Ev.planes, got |-> 0])
        /\ UNCHANGED <<case, refs>>
Affine(c, at) == 16 * c[1] + c[2] * at[1] + (IF case.dim > 1 THEN c[3] * at[2] ELSE 0) + (IF case.dim > 2 THEN c[4] * at[3] ELSE 0)
Snapshot ==
  /\ Consume("snapshot") /\ files # <<>>
  /\ LET f == files[Len(files)]
         s == case.snaps[Ev.k]
     IN /\ Ev.k = f.got + 1 /\ Ev.k <= N /\ Ev.time = 16 * s.t
        /\ Len(Ev.at) = f.dofs
        /\ \A i \in 1..f.dofs : \A c \in 1..6 : Ev.v[i][c] = Affine(s.c[c], Ev.at[i])
  /\ files' = [files EXCEPT ![Len(files)].got = @ + 1] /\ UNCHANGED <<case, refs>>

\* the geometry of all ranks together is the surface, seen from one side
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Over(op(_), S) == LET RECURSIVE G(_)
                      G(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN op(x) + G(T \ {x})
                  IN G(S)
WrittenAt(d, at, side, what(_)) ==
  Sum([i \in DOMAIN files |-> Sum([j \in DOMAIN files[i].planes |->
        LET p == files[i].planes[j] IN IF p.axis = d - 1 /\ p.at = 16 * at /\ p.side = side THEN what(p) ELSE 0], Len(files[i].planes))], Len(files))
AllFaces == UNION {{[b |-> b, d |-> d, f |-> f] : f \in FacesAcross(case.dim, case.boxes[b], d)} : b \in DOMAIN case.boxes, d \in 1..case.dim}
Planes == {<<x.d, x.f.at, x.f.side>> : x \in AllFaces}
GeometryFits(sign) ==
  /\ \A i \in DOMAIN files : \A j \in DOMAIN files[i].planes :
       LET p == files[i].planes[j] IN p.axis >= 0 /\ p.at % 16 = 0 /\ <<p.axis + 1, p.at \div 16, sign * p.side>> \in Planes
  /\ \A q \in Planes :
       LET mine == {x \in AllFaces : <<x.d, x.f.at, x.f.side>> = q}
           area(x) == 16 * x.f.area
       IN /\ WrittenAt(q[1], q[2], sign * q[3], LAMBDA p : p.area) = Over(area, mine)
          /\ \A i \in 1..case.dim : LET mom(x) == 24 * x.f.area * x.f.mid2[i]
                                    IN WrittenAt(q[1], q[2], sign * q[3], LAMBDA p : p.moment[i]) = Over(mom, mine)
AllWritten == files # <<>> /\ (\A i \in DOMAIN files : files[i].got = N) /\ (GeometryFits(1) \/ GeometryFits(-1))

(* ---- what was made of it ------------------------------------------------- *)
Counts == [i \in DOMAIN files |-> Complete(files[i], Ev.sizes[i])]
\* -1 also if a requested maximum time leaves nothing
UsedNow == LET n == Usable(Counts) IN IF n < 1 THEN 0 ELSE Len(UsedSnaps(case.snaps, n, Ev.upto))

\* interrupted exports: the same as an uninterrupted run of that length
Exact(n) == \A i \in DOMAIN files : Ev.sizes[i] = FileBytes(files[i], n)
Interrupted ==
  /\ Consume("post") /\ case.judge = "length" /\ AllWritten
  /\ LET n == UsedNow IN
     IF n = 0 THEN Ev.refused /\ UNCHANGED refs
     ELSE /\ ~Ev.refused /\ Ev.filed
          /\ IF n \in DOMAIN refs THEN Ev.raw = refs[n] /\ UNCHANGED refs
             ELSE /\ Exact(n)
                  /\ refs' = [k \in DOMAIN refs \cup {n} |-> IF k = n THEN Ev.raw ELSE refs[k]]
  /\ UNCHANGED <<case, files>>

\* whole exports: the far field of the closed surface
PulseIn(snaps) == \E k \in DOMAIN snaps : snaps[k].t = case.peak
Judged ==
  /\ Consume("post") /\ case.judge = "value" /\ AllWritten
  /\ LET n == Usable(Counts)
         snaps == UsedSnaps(case.snaps, n, Ev.upto)
     IN IF n < 1 \/ snaps = <<>> THEN Ev.refused
        ELSE /\ ~Ev.refused /\ Ev.filed
             /\ \A a \in DOMAIN case.angles : \A m \in DOMAIN case.m :
                  LET w == Power(case.dim, case.boxes, snaps, case.angles[a], case.m[m])
                  IN /\ Ev.out[a][m].far = w * (144 \div (Len(snaps) * Len(snaps)))
                     /\ PulseIn(snaps) => Ev.out[a][m].rcs = w
  /\ UNCHANGED <<case, files, refs>>

TraceNext == Begin \/ Exported \/ File \/ Snapshot \/ Interrupted \/ Judged
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
