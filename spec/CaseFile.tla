------------------------------ MODULE CaseFile ------------------------------
(* What a case file means.                                                  *)
(*                                                                          *)
(* A JSON value is written <<kind, value>>: <<"s", string>>, <<"b", TRUE>>, *)
(* <<"i", integer>>, <<"n", a real in thousandths>>, <<"a", sequence>> and  *)
(* <<"o", record>>.  A load ends in one of two ways: the file is refused,   *)
(* or it is understood, and then Meaning says as what.                      *)
EXTENDS Integers, Sequences, FiniteSets

Is(v, k) == v[1] = k
Str(v) == Is(v, "s")
Num(v) == Is(v, "i")
Bool(v) == Is(v, "b")
Real(v) == v[1] \in {"i", "n"}
Milli(v) == IF v[1] = "i" THEN 1000 * v[2] ELSE v[2]
Obj(v) == Is(v, "o")
Arr(v) == Is(v, "a")
Items(v) == v[2]
Has(o, k) == k \in DOMAIN o[2]
At(o, k) == o[2][k]
Among(v, S) == Str(v) /\ v[2] \in S

(* Entry k of object o is required / optional, and is as P wants it.        *)
Must(o, k, P(_)) == Has(o, k) /\ P(At(o, k))
May(o, k, P(_)) == Has(o, k) => P(At(o, k))

All(v, P(_)) == Arr(v) /\ \A i \in DOMAIN Items(v) : P(Items(v)[i])
Some1(v, P(_)) == All(v, P) /\ Items(v) # <<>>
Ints(v) == All(v, Num)
Ints1(v) == Some1(v, Num)
Reals(v) == All(v, Real)
Vector(v) == Reals(v) /\ Len(Items(v)) <= 3       \* a direction or place in space
TagsIn(v, S) == Ints1(v) /\ \A i \in DOMAIN Items(v) : Items(v)[i][2] \in S
TagList(v) == [i \in DOMAIN Items(v) |-> Items(v)[i][2]]
TagSet(v) == {Items(v)[i][2] : i \in DOMAIN Items(v)}

Get(o, k, otherwise) == IF Has(o, k) THEN At(o, k)[2] ELSE otherwise
GetMilli(o, k, otherwise) == IF Has(o, k) THEN Milli(At(o, k)) ELSE otherwise
Nothing == <<"o", [x \in {} |-> x]>>
Sub(o, k) == IF Has(o, k) THEN At(o, k) ELSE Nothing
List(o, k) == IF Has(o, k) THEN Items(At(o, k)) ELSE <<>>

-----------------------------------------------------------------------------
(* solver_options                                                           *)

Operators == {"maxwell", "global", "hesthaven"}
Integrators == 0 .. 6

OptionsOk(o) ==
  /\ Obj(o)
  /\ May(o, "evolution_operator", LAMBDA v : Among(v, Operators))
  /\ May(o, "upwind_alpha", Real)
  /\ May(o, "final_time", LAMBDA v : Real(v) /\ Milli(v) >= 0)
  /\ May(o, "time_step", LAMBDA v : Real(v) /\ Milli(v) >= 0)
  /\ May(o, "cfl", LAMBDA v : Real(v) /\ Milli(v) > 0 /\ Milli(v) <= 1000)
  /\ May(o, "order", LAMBDA v : Num(v) /\ v[2] >= 0)
  /\ May(o, "spectral", Bool)
  /\ May(o, "export_operator", Bool)
  /\ May(o, "basis_type", Num)
  /\ May(o, "ode_type", LAMBDA v : Num(v) /\ v[2] \in Integrators)

Options(o) ==
  [op |-> Get(o, "evolution_operator", "global"), alpha |-> GetMilli(o, "upwind_alpha", 1000),
   final |-> GetMilli(o, "final_time", 2000), dt |-> GetMilli(o, "time_step", 0), cfl |-> GetMilli(o, "cfl", 1000),
   order |-> Get(o, "order", 2), spectral |-> Get(o, "spectral", FALSE), export |-> Get(o, "export_operator", FALSE),
   basis |-> Get(o, "basis_type", 1), ode |-> Get(o, "ode_type", 0)]

-----------------------------------------------------------------------------
(* probes                                                                   *)

Often(o) == /\ May(o, "steps", LAMBDA v : Num(v) /\ v[2] >= 1)
            /\ May(o, "saves", Num)
            /\ May(o, "name", Str)

ProbesOk(p) ==
  /\ Obj(p)
  /\ May(p, "exporter", LAMBDA v : Obj(v) /\ Often(v))
  /\ May(p, "domain_snapshot", LAMBDA v : Obj(v) /\ Often(v))
  /\ May(p, "point", LAMBDA v : All(v, LAMBDA x : Obj(x) /\ Often(x) /\ Must(x, "position", Reals)))
  /\ May(p, "field", LAMBDA v : All(v, LAMBDA x :
       /\ Obj(x) /\ Often(x) /\ Must(x, "position", Reals)
       /\ Must(x, "field_type", LAMBDA y : Among(y, {"electric", "magnetic"}))
       /\ Must(x, "polarization", LAMBDA y : Among(y, {"X", "Y", "Z"}))))
  /\ May(p, "farfield", LAMBDA v : All(v, LAMBDA x : Obj(x) /\ Often(x) /\ Must(x, "tags", Ints)))
  /\ May(p, "rcssurface", LAMBDA v : All(v, LAMBDA x : Obj(x) /\ Often(x) /\ Must(x, "tags", Ints)))
  /\ May(p, "mor_state", LAMBDA v : All(v, LAMBDA x :
       Obj(x) /\ Must(x, "record_time_start", Real) /\ Must(x, "record_time_final", Real) /\ Must(x, "saves", Num) /\ May(x, "name", Str)))

(* Every how many steps a probe records, in a run of so many.               *)
Every(x, total) ==
  IF Has(x, "steps") THEN At(x, "steps")[2]
  ELSE IF Has(x, "saves") THEN LET q == total \div At(x, "saves")[2] IN IF q < 1 THEN 1 ELSE q
  ELSE 1

Place(x) == [i \in DOMAIN Items(At(x, "position")) |-> Milli(Items(At(x, "position"))[i])]
Each(p, k, F(_)) == [i \in DOMAIN List(p, k) |-> F(List(p, k)[i])]
Single(p, k, F(_)) == IF Has(p, k) THEN <<F(At(p, k))>> ELSE <<>>

Timed(x, total, name) == [name |-> Get(x, "name", name), every |-> Every(x, total), saves |-> Get(x, "saves", 0)]
Surface(x, total, name) == [name |-> Get(x, "name", name), every |-> Every(x, total), saves |-> Get(x, "saves", 0),
                            tags |-> TagList(At(x, "tags"))]

ProbesOf(p, total, filename) ==
  [exporter |-> Single(p, "exporter", LAMBDA x : Timed(x, total, filename)),
   domain_snapshot |-> Single(p, "domain_snapshot", LAMBDA x : Timed(x, total, filename)),
   farfield |-> Each(p, "farfield", LAMBDA x : Surface(x, total, "NearFieldProbe")),
   rcssurface |-> Each(p, "rcssurface", LAMBDA x : Surface(x, total, "RCSSurfaceProbe")),
   mor_state |-> Each(p, "mor_state", LAMBDA x :
     [name |-> Get(x, "name", "MORState"), from |-> GetMilli(x, "record_time_start", 0), to |-> GetMilli(x, "record_time_final", 0),
      saves |-> Get(x, "saves", 10)]),
   point |-> Each(p, "point", LAMBDA x : [at |-> Place(x), every |-> Every(x, total)]),
   field |-> Each(p, "field", LAMBDA x :
     [at |-> Place(x), every |-> Every(x, total), f |-> At(x, "field_type")[2], d |-> At(x, "polarization")[2]])]

-----------------------------------------------------------------------------
(* model                                                                    *)

MediumOk(m) == /\ Obj(m)
               /\ May(m, "relative_permittivity", LAMBDA v : Real(v) /\ Milli(v) >= 1000)
               /\ May(m, "relative_permeability", LAMBDA v : Real(v) /\ Milli(v) >= 1000)
               /\ May(m, "bulk_conductivity", LAMBDA v : Real(v) /\ Milli(v) >= 0)

LayerOk(m) == MediumOk(m) /\ Has(m, "bulk_conductivity") /\ Must(m, "material_width", Real)

BoundaryOk(b, mesh) ==
  /\ Obj(b)
  /\ Must(b, "tags", LAMBDA v : TagsIn(v, mesh.bdr))
  /\ Must(b, "type", LAMBDA v : Among(v, {"PEC", "PMC", "SMA", "SGBC"}))
  /\ At(b, "type")[2] = "SGBC" =>
       /\ Has(b, "material") \/ Has(b, "layers")
       /\ May(b, "material", LayerOk)
       /\ May(b, "layers", LAMBDA v : Some1(v, LayerOk))
       /\ May(b, "sgbc_boundaries", LAMBDA v : /\ Obj(v)
                                               /\ May(v, "left", LAMBDA s : Among(s, {"PEC", "PMC", "SMA"}))
                                               /\ May(v, "right", LAMBDA s : Among(s, {"PEC", "PMC", "SMA"})))

ModelOk(m, mesh) ==
  /\ Obj(m)
  /\ Must(m, "filename", Str)
  /\ May(m, "refinement", Num)
  /\ Must(m, "materials", LAMBDA v : Some1(v, LAMBDA x : MediumOk(x) /\ Must(x, "tags", LAMBDA t : TagsIn(t, mesh.vol))))
  /\ Must(m, "boundaries", LAMBDA v : Some1(v, LAMBDA x : BoundaryOk(x, mesh)))

(* How a folder, the case file in it and the mesh it names are called.      *)
NamesOk(m, files) == /\ files.folder = files.json
                     /\ At(m, "filename")[2] = files.folder \o ".msh"
                     /\ files.msh = files.folder \o ".msh"

-----------------------------------------------------------------------------
(* sources                                                                  *)

Injected(s) == At(s, "type")[2] \in {"planewave", "dipole"}

SourceOk(s, mesh) ==
  /\ Obj(s)
  /\ Must(s, "type", LAMBDA v : Among(v, {"initial", "planewave", "dipole"}))
  /\ Must(s, "magnitude", Obj)
  /\ At(s, "type")[2] = "initial" =>
       /\ Must(s, "field_type", LAMBDA v : Among(v, {"electric", "magnetic"}))
       /\ Must(s, "polarization", Vector)
       /\ Must(At(s, "magnitude"), "type", LAMBDA v : Among(v, {"gaussian", "resonant", "besselj6_2D", "besselj6_3D"}))
       /\ At(At(s, "magnitude"), "type")[2] = "gaussian" =>
            /\ Must(At(s, "magnitude"), "spread", Real)
            /\ Must(s, "center", Reals)
            /\ Must(s, "dimension", LAMBDA v : Num(v) /\ v[2] \in 1 .. Len(Items(At(s, "center"))))
       /\ At(At(s, "magnitude"), "type")[2] = "resonant" => Must(At(s, "magnitude"), "modes", Ints)
  /\ Injected(s) => Must(s, "tags", LAMBDA v : TagsIn(v, mesh.bdr)) /\ Must(At(s, "magnitude"), "spread", Real)
  /\ At(s, "type")[2] = "planewave" =>
       /\ Must(s, "polarization", Vector)
       /\ Must(s, "propagation", Vector)
       /\ May(At(s, "magnitude"), "mean", Vector)
       /\ May(At(s, "magnitude"), "frequency", Real)
  /\ At(s, "type")[2] = "dipole" => Must(At(s, "magnitude"), "length", Real) /\ May(At(s, "magnitude"), "mean", Real)

(* There is one total-field region: the injected sources share its surface. *)
OneRegion(ss) == \A i, j \in DOMAIN ss : Injected(ss[i]) /\ Injected(ss[j]) => TagSet(At(ss[i], "tags")) = TagSet(At(ss[j], "tags"))

SourcesOk(v, mesh) == Some1(v, LAMBDA s : SourceOk(s, mesh)) /\ OneRegion(Items(v))

TotalField(ss) == UNION {TagSet(At(ss[i], "tags")) : i \in {j \in DOMAIN ss : Injected(ss[j])}}

(* The amplitude of a source where it was looked at: at its centre, one     *)
(* spread away, at a node of its carrier or mode, half way up a mode.       *)
Level(w) == CASE w = "peak" -> 1000 [] w = "shoulder" -> 607 [] w = "node" -> 0 [] w = "half" -> 500 [] w = "trough" -> -1000

Three(v) == [d \in 1 .. 3 |-> IF d \in DOMAIN Items(v) THEN Milli(Items(v)[d]) ELSE 0]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
(* Directions given by the length of the vector in thousandths, 0 for whole vectors of length one or more *)
Along(v, len) == [d \in 1 .. 3 |-> (Three(v)[d] * 1000) \div len]

(* The six components, in thousandths of a unit amplitude, times a thousand. *)
Shape(s, len) ==
  LET p == Three(At(s, "polarization"))
      kilo == [d \in 1 .. 3 |-> 1000 * p[d]]
      zero == <<0, 0, 0>>
  IN IF At(s, "type")[2] = "planewave" THEN kilo \o Cross(Along(At(s, "propagation"), len), p)
     ELSE IF At(s, "field_type")[2] = "electric" THEN kilo \o zero ELSE zero \o kilo

Abs(x) == IF x < 0 THEN -x ELSE x
SeenRight(s, look, seen) ==
  IF "same" \in DOMAIN seen THEN seen.same
  ELSE /\ Len(seen.v) = Len(look.what)
       /\ \A i \in DOMAIN look.what : \A q \in 1 .. 6 :
            Abs(1000 * seen.v[i][q] - Level(look.what[i]) * (Shape(s, look.len)[q] \div 1000)) <= 1500

-----------------------------------------------------------------------------
(* the whole file                                                           *)

Sections == <<"names", "options", "probes", "model", "sources", "together">>

OneSectionOk(k, c, g) ==
  CASE k = "names"   -> Must(c, "model", LAMBDA m : Obj(m) /\ Must(m, "filename", Str) /\ NamesOk(m, g.files))
    [] k = "options" -> May(c, "solver_options", OptionsOk)
    [] k = "probes"  -> May(c, "probes", ProbesOk)
    [] k = "model"   -> Must(c, "model", LAMBDA m : ModelOk(m, g.mesh))
    [] k = "sources" -> Must(c, "sources", LAMBDA s : SourcesOk(s, g.mesh))

(* Open walls and the element-wise formulation need some upwinding.         *)
Compatible(c) ==
  ~ /\ Options(Sub(c, "solver_options")).op = "hesthaven"
    /\ Options(Sub(c, "solver_options")).alpha = 0
    /\ \E i \in DOMAIN List(Sub(c, "model"), "boundaries") :
         At(List(Sub(c, "model"), "boundaries")[i], "type") = <<"s", "SMA">>

SectionOk(k, c, g) ==
  IF k = "together" THEN OneSectionOk("options", c, g) /\ OneSectionOk("model", c, g) => Compatible(c)
  ELSE OneSectionOk(k, c, g)

Understood(c, g) == \A i \in DOMAIN Sections : SectionOk(Sections[i], c, g)

(* r is a report of what the loader made of file c.                         *)
Faithful(c, g, r) ==
  LET o == Options(Sub(c, "solver_options"))
      total == IF o.dt > 0 THEN (o.final + o.dt - 1) \div o.dt ELSE r.total
      file == At(At(c, "model"), "filename")[2]
      want == ProbesOf(Sub(c, "probes"), total, file)
      got == r.probes
      ss == List(c, "sources")
  IN /\ r.opts = o
     /\ o.dt > 0 => r.total = total /\ r.step = o.dt
     /\ got.mor_state = want.mor_state /\ got.point = want.point /\ got.field = want.field
     \* how often the others record is only settled once the step is known
     /\ \A k \in {"exporter", "domain_snapshot", "farfield", "rcssurface"} :
          /\ Len(got[k]) = Len(want[k])
          /\ \A i \in DOMAIN want[k] :
               IF o.dt > 0 \/ want[k][i].saves = 0 THEN got[k][i] = want[k][i]
               ELSE [got[k][i] EXCEPT !.every = 1] = [want[k][i] EXCEPT !.every = 1]
     /\ {r.tfsf[i] : i \in DOMAIN r.tfsf} = TotalField(ss)
     /\ r.cells = g.mesh.cells * g.mesh.split ^ Get(At(c, "model"), "refinement", 0)
     /\ Len(r.sources) = Len(ss)
     /\ \A i \in DOMAIN ss : SeenRight(ss[i], g.look[i], r.sources[i])
=============================================================================
