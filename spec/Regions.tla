------------------------------ MODULE Regions --------------------------------
(* How declarations by tag land on cells and faces.                           *)
(*                                                                            *)
(* A case declares materials and conditions for lists of tags; cells and      *)
(* faces of the mesh carry tags.  A declaration for a tag the mesh does not   *)
(* have is refused.                                                           *)
EXTENDS Integers, Sequences

Vacuum == [eps |-> 1, mu |-> 1, sig |-> 0]
ListedIn(list, t) == {i \in DOMAIN list : \E k \in DOMAIN list[i].tags : list[i].tags[k] = t}
Entry(list, t) == list[CHOOSE i \in ListedIn(list, t) : TRUE]
Tags(list) == UNION {{list[i].tags[k] : k \in DOMAIN list[i].tags} : i \in DOMAIN list}

MaterialOf(mats, t) == IF ListedIn(mats, t) = {} THEN Vacuum
                       ELSE LET m == Entry(mats, t) IN [eps |-> m.eps, mu |-> m.mu, sig |-> m.sig]
(* t is 0 for a face without a tag *)
WallOf(bds, t, atBorder) == IF t # 0 /\ ListedIn(bds, t) # {} THEN Entry(bds, t).type
                            ELSE IF atBorder THEN "none" ELSE ""
Acceptable(mats, bds, cellTags, faceTags) == Tags(mats) \subseteq cellTags /\ Tags(bds) \subseteq faceTags
=============================================================================
