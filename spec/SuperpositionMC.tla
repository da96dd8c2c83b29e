--------------------------- MODULE SuperpositionMC ---------------------------
(* A problem of one unknown is set up and its sources are taken up one after  *)
(* the other, each adding its effect, in every order.                         *)
EXTENDS Superposition, FiniteSets, TLC
CONSTANTS N, Values
VARIABLES nature,     \* the effect of each source
          pending, acc, order
mvars == <<kinds, base, alone, nature, pending, acc, order>>
Ids == 1..N
Effect(k, ks, v) == [init |-> <<IF ks[k] = "initial" THEN v ELSE 0>>,
                     rates |-> <<<<1 + IF ks[k] = "total" THEN v ELSE 0>>>>]
MCInit == /\ kinds \in [Ids -> {"initial", "total"}]
          /\ nature \in [Ids -> Values]
          /\ base = Unknown /\ alone = [k \in {} |-> 0]
          /\ pending = {} /\ acc = [init |-> <<0>>, rates |-> <<<<1>>>>] /\ order = <<>>
AskNothing == Nothing([init |-> <<0>>, rates |-> <<<<1>>>>]) /\ UNCHANGED <<nature, pending, acc, order>>
AskAlone == \E k \in Ids \ DOMAIN alone : Alone(k, Effect(k, kinds, nature[k])) /\ UNCHANGED <<nature, pending, acc, order>>
Choose == /\ DOMAIN alone = Ids /\ order = <<>> /\ pending = {}
          /\ pending' \in {s \in SUBSET Ids : Cardinality(s) >= 2}
          /\ UNCHANGED <<kinds, base, alone, nature, acc, order>>
Take == \E k \in pending :
          /\ pending' = pending \ {k}
          /\ order' = Append(order, k)
          /\ acc' = [init |-> <<acc.init[1] + alone[k].init[1]>>,
                     rates |-> <<<<acc.rates[1][1] + alone[k].rates[1][1] - base[1][1]>>>>]
          /\ UNCHANGED <<kinds, base, alone, nature>>
Judge == /\ pending = {} /\ order # <<>> /\ Together(order, acc)
         /\ order' = <<>> /\ acc' = [init |-> <<0>>, rates |-> <<<<1>>>>]
         /\ UNCHANGED <<nature, pending>>
MCNext == AskNothing \/ AskAlone \/ Choose \/ Take \/ Judge
MCSpec == MCInit /\ [][MCNext]_mvars
RECURSIVE Total(_, _)
Total(s, f) == IF s = {} THEN 0 ELSE LET k == CHOOSE x \in s : TRUE IN f[k] + Total(s \ {k}, f)
Taken == {order[j] : j \in DOMAIN order}
OrderFree == order # <<>> =>
   /\ acc.init[1] = Total({k \in Taken : kinds[k] = "initial"}, nature)
   /\ acc.rates[1][1] = 1 + Total({k \in Taken : kinds[k] = "total"}, nature)
(* the result of taking all sources is always one the specification allows *)
NeverRefused == pending = {} /\ order # <<>> => ENABLED Judge
StartAndLater == \A k \in DOMAIN alone : IF kinds[k] = "total" THEN Zero(alone[k].init) ELSE alone[k].rates = base
=============================================================================
