------------------------------- MODULE Lasam -------------------------------
(***************************************************************************)
(* The BMI-level behaviour of one LASAM instance: what each call does to   *)
(* the instance and what it may report, built from Fronts (the soil        *)
(* column) and Config (what a configuration means).                        *)
(***************************************************************************)
EXTENDS Fronts, Config

(* ---------------------------------------------------------------- time *)
(* The timestep and the number of timesteps of one Update. *)
TimestepRule(c, pr, pond) ==
  LET dt0  == Hours(c.ts)
      fres == Hours(c.fr)
      ad   == IF Lt(FromInt(10), pr) \/ Lt(N0, pond) THEN dt0
              ELSE IF Lt(N0, pr) THEN dt0 \otimes N2
              ELSE fres
  IN IF Flag(c.adapt) THEN Min(ad, fres) ELSE dt0

Steps(c, pr, pond) ==
  LET dt   == TimestepRule(c, pr, pond)
      fres == Hours(c.fr)
      n    == Floor((fres \oslash dt) \oplus FromStr("1e-8"))
  IN IF Lt(FromStr("1e-8"), fres \ominus (FromInt(n) \otimes dt))
     THEN [n |-> n + 1, dt |-> fres \oslash FromInt(n + 1)]
     ELSE [n |-> n, dt |-> dt]

(* An Update stops at the timestep that reaches the end time. *)
RECURSIVE Executed(_, _, _, _, _)
Executed(j, n, t, dts, end) ==
  IF j = n \/ Leq(end, t \oplus dts) THEN [m |-> j, t |-> t \oplus dts]
  ELSE Executed(j + 1, n, t \oplus dts, dts, end)

(* ---------------------------------------------------------------- GIUH *)
(* Runoff is spread over the coming forcing timesteps by the unit hydrograph; q[i] leaves i-1 Updates from now. *)
Route(q, ord, ro) ==
  LET p == [i \in 1..Len(ord) |-> q[i] \oplus (ro \otimes ord[i])]
  IN [out |-> p[1], q |-> [i \in 1..Len(ord) |-> IF i < Len(ord) THEN p[i + 1] ELSE N0]]

(* ------------------------------------------------- freeze - thaw coupling *)
(* Cells of the temperature profile that lie in layer l: below the previous layer's cells, down to the layer's bottom. *)
CellsOf(z, cum, l) == {i \in 1..Len(z) : Leq(z[i], cum[l]) /\ (l = 1 \/ ~ Leq(z[i], cum[l - 1]))}
RECURSIVE SumSet(_, _)
SumSet(S, T) == IF S = {} THEN N0
                ELSE LET i == CHOOSE j \in S : \A h \in S : h <= j IN SumSet(S \ {i}, T) \oplus T[i]
FrozenFactor(z, cum, l, T) ==
  LET S   == CellsOf(z, cum, l)
      avg == SumSet(S, T) \oslash FromInt(Cardinality(S))
  IN Max(Min(Exp(FromInt(-10) \otimes (FromStr("273.15") \ominus avg)), N1), FromStr("0.05"))

(* ----------------------------------------------------------- calibration *)
(* Parameters set through the BMI take effect at the next Update with the calibration switch on: every layer gets
   its own values, heads are kept, water contents follow, and the change of storage is accounted for. *)
CalSoil(p) == Derived(p.smcmin, p.smcmax, p.van_genuchten_alpha, p.van_genuchten_n, p.hydraulic_conductivity)
CalOf(s) == [smcmin |-> s.tr, smcmax |-> s.te, van_genuchten_alpha |-> s.a, van_genuchten_n |-> s.n, hydraulic_conductivity |-> s.ks]
Recalibrated(soils, F) == [i \in 1..Len(F) |-> [F[i] EXCEPT !.t = Theta(F[i].p, soils[F[i].l])]]

(***************************************************************************)
(* One Update of an instance, as the specification would do it.  The state *)
(* of an instance: c configuration, e environment in force, F, pond, pp,   *)
(* q and ord of the routing, t and nts, cal/calfc/calpm/on calibration,    *)
(* T temperatures, tot the totals.                                         *)
(***************************************************************************)
Flows == {"pr", "pet", "aet", "ro", "giuh", "q", "in", "perc", "gw"}
NoFlow == [k \in Flows |-> N0]
AddFlows(a, b) == [k \in Flows |-> a[k] \oplus b[k]]

NewState(c) ==
  LET e == EnvOf(c)
      ord == Ordinates(c)
      F == InitialFronts(c)
  IN [c |-> c, e |-> e, F |-> F, pond |-> N0, pp |-> N0, ord |-> ord, q |-> [i \in 1..Len(ord) |-> N0], t |-> N0, nts |-> 0,
      cal |-> [L \in 1..e.nl |-> CalOf(e.soil[L])], calfc |-> e.fc, calpm |-> e.pmax, on |-> Flag(c.calib),
      T |-> [j \in 1..Len(c.z) |-> N0], start |-> Mass(e, F), chg |-> N0, tot |-> NoFlow, out |-> NoFlow, irr |-> {}, ev |-> {}]

(* the environment in force during an Update: calibration values if switched on, frozen factors of the temperatures set *)
InForce(i) ==
  [i.e EXCEPT !.soil = IF i.on THEN [L \in 1..i.e.nl |-> CalSoil(i.cal[L])] ELSE @,
              !.fc = IF i.on THEN i.calfc ELSE @,
              !.pmax = IF i.on THEN i.calpm ELSE @,
              !.ff = IF Flag(i.c.sft)
                     THEN LET z == [j \in 1..Len(i.c.z) |-> Num(i.c.z[j])] IN [L \in 1..i.e.nl |-> FrozenFactor(z, i.e.cum, L, i.T)]
                     ELSE @]

RECURSIVE RunStepsZ(_, _, _, _, _, _, _, _)
RunStepsZ(e, st, rate, pet, dt, k, acc, za) ==
  IF k = 0 \/ st.irr # {} THEN [st |-> st, o |-> acc]
  ELSE LET law == AetLaw(e, st.F, pet, dt)
           r   == Substep(e, [st EXCEPT !.pond = IF Lt(FromStr("1e-12"), @) THEN @ ELSE N0], rate, dt, law, <<>>, za)
           brim == Leq(MaxMass(e), Mass(e, r.F) \oplus FromStr("1e-6")) \/ Leq(MaxMass(e), (Mass(e, st.F) \oplus r.in) \oplus FromStr("1e-6"))
           o   == [NoFlow EXCEPT !.pr = rate \otimes dt, !.pet = pet \otimes dt, !.aet = r.aet, !.ro = r.ro, !.in = r.in, !.perc = r.perc]
       IN RunStepsZ(e, [F |-> r.F, pond |-> r.pond, pp |-> r.pp, irr |-> r.irr, ev |-> (st.ev \cup r.ev) \cup (IF brim THEN {"brim"} ELSE {})], rate, pet, dt, k - 1, AddFlows(acc, o), za)
RunSteps(e, st, rate, pet, dt, k, acc) == RunStepsZ(e, st, rate, pet, dt, k, acc, FALSE)

(* pr, pet in mm/h *)
UpdateOf(i, pr, pet) ==
  LET e  == InForce(i)
      F0 == IF i.on THEN Recalibrated(e.soil, i.F) ELSE i.F
      sp == Steps(i.c, pr, i.pond)
      ex == Executed(1, sp.n, i.t, sp.dt \otimes FromInt(3600), EndOf(i.c))
      r  == RunSteps(e, [F |-> F0, pond |-> i.pond, pp |-> i.pp, irr |-> {}, ev |-> {}], pr \otimes FromStr("0.1"), pet \otimes FromStr("0.1"), sp.dt, ex.m, NoFlow)
      rt == Route(i.q, i.ord, r.o.ro)
      o  == [r.o EXCEPT !.giuh = rt.out, !.q = rt.out]
  IN [i EXCEPT !.e = e, !.F = r.st.F, !.pond = r.st.pond, !.pp = r.st.pp, !.q = rt.q, !.t = ex.t, !.nts = @ + ex.m, !.on = FALSE,
               !.chg = IF i.on THEN @ \oplus (Mass(e, F0) \ominus Mass(i.e, i.F)) ELSE @,
               !.tot = AddFlows(@, o), !.out = o, !.irr = r.st.irr, !.ev = r.st.ev]

(***************************************************************************)
(* Invariants of a profile.                                                *)
(***************************************************************************)
Tiny == FromStr("1e-9")
LayerFronts(F, l) == {i \in 1..Len(F) : F[i].l = l}

Numbered(F)     == \A i \in 1..Len(F) : F[i].n = i
LayersInOrder(e, F) == /\ Len(F) >= e.nl /\ F[1].l = 1 /\ F[Len(F)].l = e.nl
                       /\ \A i \in 1..(Len(F) - 1) : F[i + 1].l \in {F[i].l, F[i].l + 1}
DepthsOrdered(F) == /\ Lt(N0, F[1].d)
                    /\ \A i \in 1..(Len(F) - 1) : Leq(F[i].d, F[i + 1].d \oplus Tiny)
InOwnLayer(e, F) == \A i \in 1..Len(F) : Leq(Base(e, F[i].l) \ominus Tiny, F[i].d) /\ Leq(F[i].d, e.cum[F[i].l] \oplus Tiny)
BottomFronts(e, F) == \A i \in 1..Len(F) :
                        IF i < Len(F) /\ F[i].l = F[i + 1].l THEN F[i].b = 0
                        ELSE F[i].b = 1 /\ Close(F[i].d, e.cum[F[i].l], Tiny, N0)
WetOverDry(F)   == \A i \in 1..(Len(F) - 1) : F[i].l = F[i + 1].l => Lt(F[i + 1].t, F[i].t)
SpeedsSane(F)   == \A i \in 1..Len(F) : Leq(N0, F[i].z) /\ (F[i].b = 1 => EqD(F[i].z, N0))

InPores(e, F)   == \A i \in 1..Len(F) : LET s == SoilOf(e, F[i]) IN Leq(s.tr \ominus Tiny, F[i].t) /\ Leq(F[i].t, s.te \oplus Tiny)
HeadsFinite(F)  == \A i \in 1..Len(F) : Leq(N0, F[i].p) /\ ~ IsInf(F[i].p)
OnCurve(e, F)   == \A i \in 1..Len(F) : Close(Theta(F[i].p, SoilOf(e, F[i])), F[i].t, Tiny, N0)
SameHead(e, F)  == \A i \in 1..(Len(F) - 1) : F[i].l # F[i + 1].l =>
                     Close(F[i].t, Theta(F[i + 1].p, SoilOf(e, F[i])), FromStr("1e-7"), N0)
KOnCurve(e, F)  == \A i \in 1..Len(F) : LET s == SoilOf(e, F[i])
                     IN Close(F[i].k, KAt(Min(F[i].t, s.te), s, e.ff[F[i].l]), FromStr("1e-6") \otimes s.ks, N0)
=============================================================================
