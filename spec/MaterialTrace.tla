---------------------------- MODULE MaterialTrace ----------------------------
(* Materials made, copied and asked by the real code.                         *)
(* Derived quantities arrive squared, with the power of two taken out and     *)
(* multiplied by the denominator the specification expects: only the          *)
(* numerator remains, as an integer (or a number no fraction has).            *)
EXTENDS Material, TraceBase

TraceInit == Idle /\ l = 1
Begin == Consume("begin") /\ shelf' = [s \in Slots |-> Empty]

Made == Consume("made") /\ Make(Ev.k, Ev.in.e, Ev.in.m, Ev.in.g)
Refused == Consume("refused") /\ Refuse(Ev.k, Ev.in.e, Ev.in.m, Ev.in.g)
Copied == Consume("copied") /\ Copy(Ev.a, Ev.b)

(* Stored values come back bit for bit, also through copies.                  *)
Holds == /\ Consume("holds")
         /\ shelf[Ev.k].made
         /\ Ev.eps = shelf[Ev.k].e /\ Ev.mu = shelf[Ev.k].m /\ Ev.sigma = shelf[Ev.k].g
         /\ UNCHANGED shelf

Answer(x, what) == CASE what = "impedance" -> Impedance2(x)
                     [] what = "admittance" -> Admittance2(x)
                     [] what = "speed" -> Speed2(x)

Asked == /\ Consume("asked")
         /\ Lossless(Ev.k)
         /\ Ev.den = Answer(shelf[Ev.k], Ev.what)[2]
         /\ Ev.num = Answer(shelf[Ev.k], Ev.what)[1]
         /\ UNCHANGED shelf

Declined == Consume("declined") /\ Lossy(Ev.k) /\ UNCHANGED shelf

Pair == /\ Consume("pair")
        /\ Lossless(Ev.k)
        /\ Ev.zy = 1000000 /\ Ev.v = 1000000 /\ Ev.positive
        /\ UNCHANGED shelf

TraceNext == Begin \/ Made \/ Refused \/ Copied \/ Holds \/ Asked \/ Declined \/ Pair
TraceSpec == TraceInit /\ [][TraceNext]_<<shelf, l>>
=============================================================================
