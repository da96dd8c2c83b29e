------------------------------ MODULE StepSize -------------------------------
(* The time step that is selected when none is declared.                      *)
(*                                                                            *)
(* A mesh is made of parts; every part has a limit that depends on its shape  *)
(* and on the order, not on where it lies, how it is numbered or what stands  *)
(* beside it.  The step is the Courant number times the smallest limit, and   *)
(* the limits grow with the mesh.  Every rank looks at what it holds; all go  *)
(* by the smallest of what they found.                                        *)
EXTENDS Integers, Sequences, FiniteSets

Least(S) == CHOOSE x \in S : \A y \in S : x <= y

(* An ask: parts (a set), order, scale <<num, den>>, cfl in hundredths, given *)
(* (a declared step, 0 for none).  Limits are known for scale 1.              *)
(* Steps are numbers num over 100 * scale[2].                                 *)
Num(ask, limit) == ask.cfl * ask.scale[1] * Least({limit[q][ask.order] : q \in ask.parts})
Den(ask) == 100 * ask.scale[2]
(* limits do not grow with the order *)
Finer(limit) == \A q \in DOMAIN limit : \A a, b \in DOMAIN limit[q] : a < b => limit[q][b] <= limit[q][a]
=============================================================================
