---------------------------- MODULE RegionsTrace -----------------------------
(* Cases loaded by the real driver, judged by the rates of change of states   *)
(* on boxes: these show the material of every cell and the condition on every *)
(* face.  The scenario carries the declarations and the tags, nothing else.   *)
EXTENDS Regions, DgScheme, TraceBase
VARIABLE case
TraceInit == l = 1 /\ case = <<>>
Begin == Consume("begin") /\ case' = Ev.p
Range(q) == {q[i] : i \in DOMAIN q}
CellTags == Range(case.ctag)
FaceTags == UNION {Range(case.ftag[c]) : c \in DOMAIN case.ftag} \ {0}
Fits == Acceptable(case.mats, case.bds, CellTags, FaceTags)
Mat(c) == MaterialOf(case.mats, case.ctag[c])
Grid == [dim |-> case.g.dim, order |-> case.g.order, alpha2 |-> case.g.alpha2, S |-> case.g.S, len |-> case.g.len, nb |-> case.g.nb,
         x |-> case.g.x,
         wall |-> [c \in DOMAIN case.ctag |-> [f \in DOMAIN case.ftag[c] |->
                     WallOf(case.bds, case.ftag[c][f], case.g.nb[c][f] = 0)]],
         eps |-> [c \in DOMAIN case.ctag |-> Mat(c).eps],
         mu |-> [c \in DOMAIN case.ctag |-> Mat(c).mu],
         sig |-> [c \in DOMAIN case.ctag |-> Mat(c).sig]]
Loaded == Consume("boxes") /\ Fits /\ BoxesRight(Grid, Ev.r) /\ UNCHANGED case
Refused == Consume("throw") /\ ~Fits /\ UNCHANGED case
TraceNext == Begin \/ Loaded \/ Refused
TraceSpec == TraceInit /\ [][TraceNext]_<<case, l>>
=============================================================================
