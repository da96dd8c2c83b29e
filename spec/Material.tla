------------------------------ MODULE Material -------------------------------
(* A shelf of materials.  A material is made from a relative permittivity, a  *)
(* relative permeability and a conductivity, or copied from another one, and  *)
(* can then be asked for what it holds and for what follows from it.          *)
(*                                                                            *)
(* A number is [n, d, p, ulp]: n/d times 2^p, one unit in the last place      *)
(* above or below it when ulp is 1 or -1.  A conductivity only enters by its  *)
(* sign s and by which of the given conductivities it is.                     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Slots

VARIABLE shelf

Empty == [made |-> FALSE]
Idle == shelf = [s \in Slots |-> Empty]

(* x < 1; numbers with p # 0 are chosen above one.                            *)
BelowOne(x) == x.p = 0 /\ (x.n < x.d \/ (x.n = x.d /\ x.ulp < 0))
Allowed(e, m, g) == ~BelowOne(e) /\ ~BelowOne(m) /\ g.s >= 0

Make(k, e, m, g) ==
  /\ Allowed(e, m, g)
  /\ shelf' = [shelf EXCEPT ![k] = [made |-> TRUE, e |-> e, m |-> m, g |-> g]]

Refuse(k, e, m, g) == ~Allowed(e, m, g) /\ UNCHANGED shelf

Copy(a, b) == shelf[a].made /\ shelf' = [shelf EXCEPT ![b] = shelf[a]]

Lossless(k) == shelf[k].made /\ shelf[k].g.s = 0
Lossy(k) == shelf[k].made /\ shelf[k].g.s > 0

(* The squares of the derived quantities as reduced fractions <<num, den>>,   *)
(* without their powers of two, which are <<impedance, admittance, speed>>.   *)
Impedance2(x) == <<x.m.n * x.e.d, x.m.d * x.e.n>>
Admittance2(x) == <<x.e.n * x.m.d, x.e.d * x.m.n>>
Speed2(x) == <<x.e.d * x.m.d, x.e.n * x.m.n>>
Powers(x) == <<x.m.p - x.e.p, x.e.p - x.m.p, -x.e.p - x.m.p>>

Is(q, num, den) == q[1] * den = num * q[2]
Product(a, b) == <<a[1] * b[1], a[2] * b[2]>>

(* The relations the user relies on, for whatever is on the shelf.            *)
Consistent ==
  \A k \in Slots : Lossless(k) =>
    LET x == shelf[k] IN
    /\ Is(Product(Impedance2(x), Admittance2(x)), 1, 1)
    /\ Is(Product(Speed2(x), Product(<<x.e.n, x.e.d>>, <<x.m.n, x.m.d>>)), 1, 1)
    /\ Powers(x)[1] + Powers(x)[2] = 0
    /\ Powers(x)[3] + x.e.p + x.m.p = 0
OnlyAllowed == \A k \in Slots : shelf[k].made => Allowed(shelf[k].e, shelf[k].m, shelf[k].g)
=============================================================================
