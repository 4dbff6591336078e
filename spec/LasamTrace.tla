----------------------------- MODULE LasamTrace -----------------------------
(***************************************************************************)
(* Trace validation: a behaviour recorded from the real BmiLGAR (one event *)
(* per BMI call, harness/recorder.cxx) must be a behaviour of Lasam.       *)
(*                                                                         *)
(* The specification state of an instance is                               *)
(*   c, e     its intended configuration and the environment from it       *)
(*   s        the last observed state (the step relation of Fronts is      *)
(*            evaluated from it, so that rounding does not accumulate)     *)
(*   q        the unit-hydrograph queue, sum the cumulative water ledger,  *)
(*   pr, pe, T  the inputs set so far, cal/calfc/calpm the calibration     *)
(*            values set so far, on the calibration switch                 *)
(*   t, nts   time and number of timesteps, acc outputs since a mark,      *)
(*   last, laststo  the latest outputs, rows all outputs (if c.keep)       *)
(* A step that the specification does not allow adds the violated clause   *)
(* to `bad`, and the check goes on from the observed state.                *)
(* PROPS selects the properties whose clauses are evaluated.               *)
(***************************************************************************)
EXTENDS Lasam, Json, IOUtils

ToSet(s) == {s[j] : j \in 1..Len(s)}
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})

Trace == ndJsonDeserialize(IOEnv.TRACE)
Props == ToSet(JsonDeserialize(IOEnv.PROPS))

VARIABLES l, inst, scen, bad, cov, saved
vars == <<l, inst, scen, bad, cov, saved>>
Where == l                  \* a recorded trace is one behaviour: its position identifies the state

Chk(p, name, ok) == IF ~ ok THEN {[p |-> p, c |-> name]} ELSE {}
On(p) == p \in Props

Z9  == FromStr("1e-9")
Z12 == FromStr("1e-12")
C100 == FromInt(100)
Cm(x) == x \otimes C100
Near(a, b) == Close(a, b, Z9, Z12)
NearR(a, b) == Close(a, b, Z12, FromStr("1e-10"))

(* recorded output variables, by name, in cm *)
Out(ev) == LET o == ev.out
           IN [pr |-> Cm(o[1]), pet |-> Cm(o[2]), aet |-> Cm(o[3]), ro |-> Cm(o[4]), giuh |-> Cm(o[5]), sto |-> Cm(o[6]),
               q |-> Cm(o[7]), in |-> Cm(o[8]), perc |-> Cm(o[9]), gw |-> Cm(o[10]), mb |-> Cm(o[11])]

(* ------------------------------------------------------------------ init *)
RecSoil(ev, L) == LET o == (L - 1) * 9
                  IN [tr |-> ev.soil[o + 1], te |-> ev.soil[o + 2], a |-> ev.soil[o + 3], n |-> ev.soil[o + 4], m |-> ev.soil[o + 5],
                      ks |-> ev.soil[o + 6], lam |-> ev.soil[o + 7], pb |-> ev.soil[o + 8], hm |-> ev.soil[o + 9]]
SoilEq(a, b) == /\ NearR(a.tr, b.tr) /\ NearR(a.te, b.te) /\ NearR(a.a, b.a) /\ NearR(a.n, b.n) /\ NearR(a.m, b.m)
                /\ NearR(a.ks, b.ks) /\ NearR(a.lam, b.lam) /\ NearR(a.pb, b.pb) /\ NearR(a.hm, b.hm)
SeqNear(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearR(a[i], b[i])

FrontNear(f, g) == f.l = g.l /\ f.b = g.b /\ Near(f.d, g.d) /\ Near(f.t, g.t) /\ Close(f.p, g.p, Z9, Z9)

ZeroOut == [pr |-> N0, pet |-> N0, aet |-> N0, ro |-> N0, giuh |-> N0, q |-> N0, in |-> N0, perc |-> N0, gw |-> N0]

(* Beyond a head of 1e6 cm the retention curves are flat to the last digits and the search for a water content stops early:
   then the bound is the one the model itself aborts at. *)
VeryDry(F) == \E j \in 1..Len(F) : Lt(FromStr("1e6"), F[j].p)

NewInst(c, ev) ==
  LET e == EnvOf(c)
      inv == InvalidSoil(c)
      ord == Ordinates(c)
      m0 == IF inv THEN N0 ELSE Mass(e, InitialFronts(c))
  IN [c |-> c, e |-> e, inv |-> inv, ord |-> ord, s |-> ev, q |-> [i \in 1..Len(ord) |-> N0],
      pr |-> FromInt(-1), pe |-> FromInt(-1),
      T |-> IF Flag(c.sft) THEN [j \in 1..Len(c.z) |-> N0] ELSE <<N0>>,
      cal |-> IF inv THEN <<>> ELSE [L \in 1..e.nl |-> CalOf(e.soil[L])], calfc |-> e.fc, calpm |-> e.pmax, on |-> Flag(c.calib),
      t |-> N0, nts |-> 0, sum |-> [start |-> m0, end |-> m0, on |-> N0, calib |-> N0, o |-> ZeroOut],
      acc |-> ZeroOut, last |-> ZeroOut, laststo |-> m0, rows |-> <<>>, u |-> FALSE, ever |-> FALSE, dry |-> ~ inv /\ VeryDry(ev.F)]

InitClauses(i, ev) ==
  LET c == i.c
      e == i.e
  IN UNION {
    IF On("P17") THEN
      Chk("P17", "number of layers", ev.nl = e.nl)
      \cup Chk("P17", "layer depths", SeqNear(ev.cum, e.cum))
      \cup Chk("P17", "initial psi", Near(ev.psi0, Num(c.psi0)))
      \cup Chk("P17", "wilting point", Near(ev.wp, Num(c.wp)))
      \cup Chk("P17", "field capacity", Near(ev.fc, Num(c.fc)))
      \cup Chk("P17", "ponded depth max", Near(ev.pmax, e.pmax))
      \cup Chk("P17", "timestep", NearR(ev.dt, Hours(c.ts)))
      \cup Chk("P17", "forcing resolution", NearR(ev.fres, Hours(c.fr)))
      \cup Chk("P17", "end time", NearR(ev.end, Seconds(c.et)))
      \cup Chk("P17", "time step reported", NearR(ev.step, Seconds(c.fr)))
      \cup Chk("P17", "closed form switch", (ev.closed = 1) = Flag(c.closed))
      \cup Chk("P17", "adaptive switch", (ev.adapt = 1) = Flag(c.adapt))
      \cup Chk("P17", "freeze-thaw switch", (ev.sft = 1) = Flag(c.sft))
      \cup Chk("P17", "invalid soil type", (ev.bad = 1) = i.inv)
      \cup Chk("P17", "calibration switch", (ev.flag = 1) = Flag(c.calib))
      \cup Chk("P17", "soil parameters", i.inv \/ \A L \in 1..e.nl : SoilEq(RecSoil(ev, L), e.soil[L]))
      \cup Chk("P17", "temperature cells", Flag(c.sft) => ev.ncell = Len(c.z))
    ELSE {},
    IF On("P03") THEN Chk("P03", "unit hydrograph ordinates", SeqNear(ev.ord, i.ord)) ELSE {},
    IF On("P21") /\ ~ i.inv THEN
      LET F == InitialFronts(c)
      IN Chk("P21", "initial fronts", Len(ev.F) = Len(F) /\ \A j \in 1..Len(F) : FrontNear(ev.F[j], F[j]))
         \cup Chk("P21", "initial conductivity", \A j \in 1..Len(ev.F) : ev.F[j].l \in 1..e.nl /\ Close(ev.F[j].k, KAt(ev.F[j].t, SoilOf(e, ev.F[j]), N1), N0, FromStr("1e-6")))
         \cup Chk("P21", "initial speeds", \A j \in 1..Len(ev.F) : EqD(ev.F[j].z, N0))
         \cup Chk("P21", "initial storage", Near(ev.led[1], Mass(e, F)))
         \cup Chk("P21", "numbering", Numbered(ev.F))
    ELSE {},
    IF On("P21") THEN
      Chk("P21", "initial ledger", \A j \in {2, 3, 5, 6, 7, 8, 9, 10, 11, 12} : EqD(ev.led[j], N0))
      \cup Chk("P21", "no ponded water, no rain before", EqD(ev.pond, N0) /\ EqD(ev.pp, N0))
      \cup Chk("P21", "time starts at zero", EqD(ev.time, N0) /\ ev.nts = 0)
    ELSE {} }

(* ---------------------------------------------------------------- update *)
OutKeys == DOMAIN ZeroOut
AddOut(a, o) == [k \in OutKeys |-> a[k] \oplus o[k]]

(* the environment in force during an Update, and the profile it starts from *)
EnvNow(i) == InForce(i)
StartF(i, e) == IF i.on THEN Recalibrated(e.soil, i.s.F) ELSE i.s.F

ConsTol(i, ev) == IF i.c.cls = "std" /\ ~ VeryDry(i.s.F) /\ ~ VeryDry(ev.F) THEN FromStr("1e-6") ELSE FromStr("1e-4")

(* one-timestep Updates: the step relation *)
ThTol == FromStr("1e-7")
(* depth tolerance: a water amount of 1e-7 cm over the contrast of the front *)
FNear(e, F, G, tol) ==
  /\ Len(F) = Len(G)
  /\ \A j \in 1..Len(F) :
       /\ F[j].l = G[j].l /\ F[j].b = G[j].b
       /\ LET con == IF SameLayer(G, j) THEN Abs(G[j].t \ominus G[j + 1].t) ELSE N1
          IN Close(F[j].t, G[j].t, tol \oplus (tol \oslash Max(F[j].d \ominus Base(e, F[j].l), tol)), N0)
             /\ Close(F[j].d, G[j].d, (tol \otimes FromInt(10)) \oplus (tol \oslash Max(con, Z12)), N0)

StepOf(e, st, pr, dt, aet, in, za) == Substep(e, st, pr \otimes FromStr("0.1"), dt, aet, in, za)

(* Whether two fronts just meet, or a front just reaches a boundary, can hang on the last bits of a number: a step that
   matches for an amount of water or a speed that differs by rounding is accepted. *)
Nudge == {FromStr("1e-9"), FromStr("-1e-9")}
(* a front that ends exactly at the bottom of the column may be recorded as having left it or not *)
Settled(e, F) == IF Len(F) > 1 /\ F[Len(F) - 1].l = e.nl /\ Leq(e.cum[e.nl] \ominus Z9, F[Len(F) - 1].d)
                 THEN RemoveAt([F EXCEPT ![Len(F)].t = F[Len(F) - 1].t], Len(F) - 1) ELSE F
Faster(F, x) == [j \in 1..Len(F) |-> [F[j] EXCEPT !.z = @ \otimes (N1 \oplus x)]]

(* the step relation also says what a step with calibrated parameters (P14) or frozen layers (P18) has to do *)
OnL(p) == On(p) \/ On("P14") \/ On("P18")
LawClauses(i, ev, e, F0, sp) ==
  LET o    == Out(ev)
      dt   == sp.dt
      st   == [F |-> F0, pond |-> IF Lt(Z12, i.s.pond) THEN i.s.pond ELSE N0, pp |-> i.s.pp]
      rate == ev.pr \otimes FromStr("0.1")
      rain == rate \otimes dt
      pet  == ev.pe \otimes FromStr("0.1")
      law  == AetLaw(e, F0, pet, dt)
      new  == Creates(e, st, rain)
      pond0 == rain \oplus st.pond
      cap  == Capacity(e, F0, pond0, rain, dt, law)
      part == IF Lt(N0, pond0) THEN Partition(e, pond0, cap) ELSE [in |-> N0, pond |-> N0, ro |-> N0]
      F1   == ev.F
      spd  == IF new THEN (IF Lt(ev.pond, e.pmax) THEN N0 ELSE e.pmax) ELSE ev.pond
      run(za, F, w) == Move(e, F, IF new THEN N0 ELSE w, law, dt, za)
      base == run(FALSE, F0, o.in)
      alt  == run(TRUE, F0, o.in)
      (* a new front that reaches below the first front joins it at once: then only the whole profile can be compared *)
      full(r) == new /\ Leq(SoilOf(e, r.F[1]).te, r.F[1].t \oplus Z12)      \* saturated by the motion: no front is created
      joins(r) == new /\ (full(r) \/ Lt(r.F[1].d, DryDepth(e, r.F, dt)))
      want(r) == IF joins(r) THEN NewFront(e, r.F, pond0, dt).F ELSE r.F
      ok(r, tol) == LET A == IF new /\ ~ joins(r) THEN Tail(F1) ELSE F1
                        B == want(r)
                    IN FNear(e, A, B, tol) \/ (Len(A) # Len(B) /\ FNear(e, Settled(e, A), Settled(e, B), tol))
      tol  == IF i.c.cls = "std" THEN FromStr("1e-7") ELSE FromStr("1e-5")
  IN [new |-> new, base |-> base, alt |-> alt, law |-> law, part |-> part, bad |-> UNION {
    IF OnL("P07") /\ ~ new THEN
      Chk("P07", "infiltration", Near(o.in, part.in))
      \cup Chk("P07", "ponding", Near(ev.pond, part.pond))
      \cup Chk("P07", "runoff", Near(o.ro, part.ro))
    ELSE {},
    IF OnL("P08") THEN
      Chk("P08", "actual evapotranspiration",
          IF base.irr = {} THEN Close(o.aet, base.aet, FromStr("1e-6"), N0) \/ Close(o.aet, alt.aet, FromStr("1e-6"), N0)
          ELSE Leq(o.aet, law \oplus FromStr("1e-6")))
    ELSE {},
    IF OnL("P09") THEN
      IF new THEN
        LET short == ~ joins(base) /\ Len(F1) < 2
            G  == IF joins(base) \/ short THEN base.F ELSE Tail(F1)
            nf == NewFront(e, G, pond0, dt)
            rest == Partition(e, nf.pond, N0)
            f  == F1[1]
            reltol == IF joins(base) THEN FromStr("1e-6") ELSE FromStr("1e-8")
        IN IF base.irr # {} THEN {}
           ELSE IF short \/ Len(F1) # Len(nf.F) THEN Chk("P09", "front not created", FALSE)
           ELSE Chk("P09", "new front depth", Close(f.d, nf.F[1].d, Z9, reltol))
                \cup Chk("P09", "new front water content", Close(f.t, nf.F[1].t, reltol, N0))
                \cup Chk("P09", "new front layer", f.l = nf.F[1].l /\ f.b = nf.F[1].b)
                \cup Chk("P09", "infiltration at creation", Close(o.in, nf.in, reltol, N0))
                \cup Chk("P09", "ponding at creation", Close(ev.pond, rest.pond, reltol, N0))
                \cup Chk("P09", "runoff at creation", Close(o.ro, rest.ro, reltol, N0))
      ELSE Chk("P09", "front created without cause", Len(F1) <= Len(F0))
    ELSE {},
    IF OnL("P10") THEN
      Chk("P10", "front speeds",
          \A j \in 1..(Len(F1) - 1) : F1[j].b = 0 => (j < Len(F1) /\ F1[j].l \in 1..e.nl /\ Close(F1[j].z, Speed(e, F1, j, spd), Z12, FromStr("1e-7"))))
      \cup Chk("P10", "front motion", base.irr # {} \/ ok(base, tol) \/ ok(alt, tol)
                 \/ (\E x \in Nudge : \E za \in BOOLEAN : ok(run(za, F0, o.in \oplus x), tol))
                 \/ (\E y \in Nudge : ok(run(FALSE, Faster(F0, y), o.in), tol)))
    ELSE {},
    IF OnL("P11") THEN
      Chk("P11", "percolation", base.irr # {} \/ Close(o.perc, base.flux, FromStr("1e-6"), N0) \/ Close(o.perc, alt.flux, FromStr("1e-6"), N0))
    ELSE {} }]

(* Updates of several timesteps: the whole step relation, run from the observed state.  Small differences (which front
   passes which first, when the column is full) can grow over the timesteps: an Update is judged where the specification's
   own result does not hang on the last digits, that is where runs with an amount or a speed that differs by rounding agree. *)
Nudges == {FromStr(x) : x \in {"1e-9", "-1e-9", "1e-7", "-1e-7"}}
ManyClauses(i, ev, e, F0, sp, ex) ==
  LET o    == Out(ev)
      rate == ev.pr \otimes FromStr("0.1")
      pet  == ev.pe \otimes FromStr("0.1")
      run(F, r, za) == RunStepsZ(e, [F |-> F, pond |-> i.s.pond, pp |-> i.s.pp, irr |-> {}, ev |-> {}], r, pet, sp.dt, ex.m, NoFlow, za)
      base == run(F0, rate, FALSE)
      tol  == IF i.c.cls = "std" THEN FromStr("1e-6") ELSE FromStr("1e-4")
      near(a, b) == Close(a, b, tol, FromStr("1e-6"))
      flows(r) == near(o.in, r.o.in) /\ near(o.ro, r.o.ro) /\ near(ev.pond, r.st.pond) /\ near(o.aet, r.o.aet) /\ near(o.perc, r.o.perc)
      same(F, G) == FNear(e, F, G, tol) \/ (Len(F) # Len(G) /\ FNear(e, Settled(e, F), Settled(e, G), tol))
      front(r) == same(ev.F, r.st.F)
      ok(r) == r.st.irr # {} \/ (flows(r) /\ front(r))
      agree(r) == /\ r.st.irr = {} /\ r.st.ev = base.st.ev /\ same(r.st.F, base.st.F) /\ near(r.st.pond, base.st.pond)
                  /\ \A k \in {"in", "ro", "aet", "perc"} : near(r.o[k], base.o[k])
      (* once a front is saturated or at a boundary, rounding can decide what the next timestep does *)
      sound == /\ base.st.ev \cap {"brim", "full", "satdepth", "cross", "pinned"} = {} /\ agree(run(F0, rate, TRUE))
               /\ \A x \in Nudges : agree(run(Faster(F0, x), rate, FALSE)) /\ agree(run(F0, rate \otimes (N1 \oplus x), FALSE))
  IN IF ok(base) \/ ~ sound THEN [st |-> base.st, bad |-> {}]
     ELSE [st |-> base.st, bad |->
       (IF OnL("P07") THEN Chk("P07", "surface water over several timesteps", near(o.in, base.o.in) /\ near(o.ro, base.o.ro) /\ near(ev.pond, base.st.pond)) ELSE {})
       \cup (IF OnL("P08") THEN Chk("P08", "evapotranspiration over several timesteps", near(o.aet, base.o.aet)) ELSE {})
       \cup (IF OnL("P09") THEN Chk("P09", "number of fronts after several timesteps", Len(ev.F) = Len(base.st.F) \/ Len(Settled(e, ev.F)) = Len(Settled(e, base.st.F))) ELSE {})
       \cup (IF OnL("P10") THEN Chk("P10", "profile after several timesteps", front(base)) ELSE {})
       \cup (IF OnL("P11") THEN Chk("P11", "percolation over several timesteps", near(o.perc, base.o.perc)) ELSE {})]

Finite(x) == ~ IsNaN(x) /\ ~ IsInf(x)
(* an undefined soil has no hydraulics, so its fronts say nothing *)
FiniteObs(ev, inv) == /\ \A j \in 1..Len(ev.out) : Finite(ev.out[j])
                 /\ (inv \/ \A j \in 1..Len(ev.F) : LET f == ev.F[j] IN Finite(f.d) /\ Finite(f.t) /\ Finite(f.p) /\ Finite(f.k) /\ Finite(f.z))
                 /\ Finite(ev.pond) /\ Finite(ev.time) /\ \A j \in 1..Len(ev.led) : Finite(ev.led[j])

UpdClauses(i, ev, e, F0, sp, ex, lw, lost) ==
  LET o    == Out(ev)
      F1   == ev.F
      s0   == Mass(e, F0)
      s1   == Mass(e, F1)
      m    == FromInt(ex.m)
      rain == (ev.pr \otimes FromStr("0.1")) \otimes sp.dt \otimes m
      pet  == (ev.pe \otimes FromStr("0.1")) \otimes sp.dt \otimes m
      pond0 == i.s.pond
      soilres == ((s0 \oplus o.in) \ominus (o.aet \oplus o.perc)) \ominus s1
      surfres == ((rain \oplus pond0) \ominus (o.in \oplus o.ro)) \ominus ev.pond
      ok == LayersInOrder(e, F1)
      r  == Route(i.q, i.ord, o.ro)
      su == AddOut(i.sum.o, [k \in OutKeys |-> o[k]])
      cal == IF i.on THEN s0 \ominus Mass(i.e, i.s.F) ELSE N0
      one == ex.m = 1
  IN UNION {
    IF On("P01") THEN
      Chk("P01", "soil water balance", Close(soilres, N0, ConsTol(i, ev), N0))
      \cup Chk("P01", "surface water balance", Close(surfres, N0, Z9, N0))
      \cup Chk("P01", "precipitation reported", Near(o.pr, rain))
      \cup Chk("P01", "potential evapotranspiration reported", Near(o.pet, pet))
      \cup Chk("P01", "storage reported", Near(o.sto, s1))
      \cup Chk("P01", "discharge is routed runoff", Near(o.q, o.giuh \oplus o.gw) /\ EqD(o.gw, N0))
      \cup Chk("P01", "reported balance error", IF one THEN Near(o.mb, soilres \oplus surfres) ELSE Close(o.mb, soilres \oplus surfres, ConsTol(i, ev), N0))
    ELSE {},
    IF On("P02") THEN
      LET g == ev.led
      IN Chk("P02", "initial water", Near(g[1], i.sum.start))
         \cup Chk("P02", "total precipitation", Near(g[2], su.pr)) \cup Chk("P02", "total infiltration", Near(g[3], su.in))
         \cup Chk("P02", "final water", Near(g[4], s1)) \cup Chk("P02", "ponded water", Near(g[5], ev.pond))
         \cup Chk("P02", "total runoff", Near(g[6], su.ro)) \cup Chk("P02", "total routed runoff", Near(g[7], su.giuh))
         \cup Chk("P02", "total discharge", Near(g[8], su.q)) \cup Chk("P02", "total evapotranspiration", Near(g[9], su.aet))
         \cup Chk("P02", "total potential evapotranspiration", Near(g[10], su.pet)) \cup Chk("P02", "total percolation", Near(g[11], su.perc))
         \cup Chk("P02", "calibration change", Near(g[12], i.sum.calib \oplus cal))
    ELSE {},
    IF On("P03") THEN
      Chk("P03", "routed runoff", Near(o.giuh, r.out))
      \cup Chk("P03", "discharge", Near(o.q, r.out))
    ELSE {},
    IF On("P04") THEN
      Chk("P04", "fronts are numbered in order", Numbered(F1))
      \cup Chk("P04", "layers in order", ok)
      \cup Chk("P04", "depths in order", DepthsOrdered(F1))
      \cup Chk("P04", "front within its layer", ok => InOwnLayer(e, F1))
      \cup Chk("P04", "layer bottoms", ok => BottomFronts(e, F1))
      \cup Chk("P04", "wetter above drier", WetOverDry(F1))
      \cup Chk("P04", "speeds", SpeedsSane(F1))
    ELSE {},
    IF On("P05") /\ ok THEN
      Chk("P05", "water content within pores", InPores(e, F1))
      \cup Chk("P05", "heads finite and non-negative", HeadsFinite(F1))
      \cup Chk("P05", "water content and head on the retention curve", OnCurve(e, F1))
      \cup Chk("P05", "same head across layers", SameHead(e, F1))
      \cup Chk("P05", "conductivity on the curve", KOnCurve(e, F1))
    ELSE {},
    IF On("P06") THEN
      Chk("P06", "runoff non-negative", Leq(N0, o.ro))
      \cup Chk("P06", "infiltration non-negative", Leq(Opp(Z12), o.in))
      \cup Chk("P06", "infiltration at most the water on the surface", Leq(o.in, (rain \oplus pond0) \oplus Z9))
      \cup Chk("P06", "ponding within its limit", Leq(N0, ev.pond) /\ Leq(ev.pond, e.pmax \oplus Z12))
      \cup Chk("P06", "runoff only from a full surface store", one => (Lt(Z12, o.ro) => Close(ev.pond, e.pmax, Z12, N0)))
      \cup Chk("P06", "surface balance", Close(surfres, N0, Z9, N0))
      \cup Chk("P06", "storage at most the pore space", Leq(s1, MaxMass(e) \oplus Z9))
    ELSE {},
    IF On("P08") THEN
      Chk("P08", "within potential evapotranspiration", Leq(Opp(Z9), o.aet) /\ Leq(o.aet, pet \oplus FromStr("1e-6")))
    ELSE {},
    IF On("P11") THEN
      Chk("P11", IF lost THEN "percolation non-negative: head lost at saturation" ELSE "percolation non-negative", Leq(FromStr("-1e-7"), o.perc))
    ELSE {},
    IF On("P12") THEN
      Chk("P12", "timestep rule", Near(ev.dt, sp.dt))
      \cup Chk("P12", "number of timesteps", ev.nts = i.nts + ex.m)
      \cup Chk("P12", "time", Close(ev.time, ex.t, FromStr("1e-6"), Z12))
    ELSE {},
    IF On("P13") THEN
      Chk("P13", "number of fronts", ev.nw = Len(F1))
      \cup Chk("P13", "front water contents", Len(ev.wt) = Len(F1) /\ \A j \in 1..Len(F1) : EqD(ev.wt[j], F1[j].t))
      \cup Chk("P13", "front depths", Len(ev.wd) = Len(F1) /\ \A j \in 1..Len(F1) : NearR(Cm(ev.wd[j]), F1[j].d))
      \cup Chk("P13", "storage", Near(o.sto, s1))
    ELSE {},
    IF On("P14") THEN
      Chk("P14", "soil parameters in force", \A L \in 1..e.nl : SoilEq(RecSoil(ev, L), e.soil[L]))
      \cup Chk("P14", "field capacity in force", Near(ev.fc, e.fc))
      \cup Chk("P14", "ponding limit in force", Near(ev.pmax, e.pmax))
      \cup Chk("P14", "switch returns to off", ev.flag = 0)
      \cup Chk("P14", "storage change accounted for", Near(ev.led[12], i.sum.calib \oplus cal))
      \cup Chk("P14", "soil water balance", Close(soilres, N0, ConsTol(i, ev), N0))
    ELSE {},
    IF On("P18") THEN
      Chk("P18", "frozen factors", SeqNear(ev.ff, e.ff))
      \cup Chk("P18", "conductivity scaled", ok => KOnCurve(e, F1))
    ELSE {},
    IF On("P20") THEN Chk("P20", "finite numbers", FiniteObs(ev, i.inv)) ELSE {},
    IF one THEN lw ELSE {} }

InvalidClauses(i, ev) ==
  LET o == Out(ev)
      rain == (ev.pr \otimes FromStr("0.1")) \otimes Hours(i.c.fr)
      su == AddOut(i.sum.o, [k \in OutKeys |-> o[k]])
  IN UNION {
    IF On("P20") THEN Chk("P20", "finite numbers", FiniteObs(ev, i.inv)) ELSE {},
    IF On("P19") THEN
      Chk("P19", "precipitation", Near(o.pr, rain)) \cup Chk("P19", "runoff", Near(o.ro, rain)) \cup Chk("P19", "discharge", Near(o.q, rain))
      \cup Chk("P19", "nothing else", \A k \in {"pet", "aet", "giuh", "in", "perc", "gw"} : EqD(o[k], N0))
      \cup Chk("P19", "no storage, no balance error", EqD(o.sto, N0) /\ EqD(o.mb, N0))
      \cup Chk("P19", "time", Close(ev.time, i.t \oplus Seconds(i.c.fr), FromStr("1e-6"), Z12))
      \cup Chk("P19", "totals", Near(ev.led[2], su.pr) /\ Near(ev.led[6], su.ro) /\ Near(ev.led[8], su.q))
    ELSE {} }

Row(i, ev) == IF i.c.keep THEN Append(i.rows, [out |-> ev.out, F |-> ev.F]) ELSE i.rows

AfterInvalid(i, ev) ==
  LET o == Out(ev)
  IN [i EXCEPT !.s = ev, !.t = ev.time, !.sum.o = AddOut(@, [k \in OutKeys |-> o[k]]), !.last = [k \in OutKeys |-> o[k]],
               !.acc = AddOut(@, [k \in OutKeys |-> o[k]]), !.rows = Row(i, ev)]

AfterUpd(i, ev, e, F0, ex) ==
  LET o == Out(ev)
      s0 == Mass(e, F0)
      s1 == Mass(e, ev.F)
      oo == [k \in OutKeys |-> o[k]]
  IN [i EXCEPT !.e = [e EXCEPT !.ff = IF Flag(i.c.sft) THEN @ ELSE i.e.ff], !.s = ev, !.q = Route(@, i.ord, o.ro).q,
               !.t = ex.t, !.nts = @ + ex.m, !.on = FALSE, !.ever = @ \/ i.on, !.dry = @ \/ VeryDry(ev.F),
               !.sum = [@ EXCEPT !.end = s1, !.on = ev.pond, !.o = AddOut(@, oo),
                                 !.calib = IF i.on THEN @ \oplus (s0 \ominus Mass(i.e, i.s.F)) ELSE @],
               !.acc = AddOut(@, oo), !.last = oo, !.laststo = s1, !.rows = Row(i, ev)]

Inc(c, S) == [k \in DOMAIN c \cup S |-> (IF k \in DOMAIN c THEN c[k] ELSE 0) + (IF k \in S THEN 1 ELSE 0)]

Mark(S) == { [line |-> l, scen |-> scen, p |-> x.p, c |-> x.c] : x \in S }

NeedLaw == \E p \in {"P07", "P08", "P09", "P10", "P11", "P14", "P18"} : On(p)
LawsOf(i, S) == { x \in S : On(x.p) }
                \cup (IF On("P14") /\ (i.on \/ i.ever) THEN { [p |-> "P14", c |-> "step with the calibrated parameters: " \o x.c] : x \in S } ELSE {})
                \cup (IF On("P18") /\ Flag(i.c.sft) THEN { [p |-> "P18", c |-> "step with frozen layers: " \o x.c] : x \in S } ELSE {})

UpdOne(i, ev) ==
  LET e  == EnvNow(i)
      F0 == StartF(i, e)
      sp == Steps(i.c, ev.pr, i.s.pond)
      ex == Executed(1, sp.n, i.t, sp.dt \otimes FromInt(3600), EndOf(i.c))
      lw == IF NeedLaw /\ ex.m = 1 THEN LawClauses(i, ev, e, F0, sp) ELSE [bad |-> {}]
      mw == IF NeedLaw /\ ex.m > 1 THEN ManyClauses(i, ev, e, F0, sp, ex) ELSE [bad |-> {}]
      lost == NeedLaw /\ "headlost" \in (IF ex.m = 1 THEN lw.base.ev ELSE mw.st.ev)
      bd == UpdClauses(i, ev, e, F0, sp, ex, LawsOf(i, lw.bad), lost) \cup LawsOf(i, mw.bad)
  IN [bad |-> bd, i |-> AfterUpd(i, ev, e, F0, ex),
      cov |-> {"update"} \cup (IF ex.m = 1 THEN {"update1"} ELSE {"updateN"})
              \cup (IF NeedLaw /\ ex.m = 1 THEN { "ev:" \o x : x \in lw.base.ev } \cup { "irr:" \o x : x \in lw.base.irr } \cup (IF lw.new THEN {"ev:create"} ELSE {}) ELSE {})
              \cup (IF NeedLaw /\ ex.m > 1 THEN { "evN:" \o x : x \in mw.st.ev } \cup { "irrN:" \o x : x \in mw.st.irr } ELSE {})
              \cup (IF Lt(Z12, ev.out[4]) THEN {"runoff"} ELSE {}) \cup (IF Lt(Z12, ev.pond) THEN {"ponded"} ELSE {})
              \cup (IF Lt(Z12, ev.out[9]) THEN {"perc"} ELSE {}) \cup (IF i.on THEN {"calibrated"} ELSE {})
              \cup (IF Len(ev.F) > e.nl + 1 THEN {"multifront"} ELSE {}) \cup (IF Flag(i.c.sft) THEN {"frozen"} ELSE {})]

(* ------------------------------------------------------------- BMI access *)
Layered == {"smcmax", "smcmin", "van_genuchten_n", "van_genuchten_alpha", "hydraulic_conductivity"}
OutName == [precipitation |-> "pr", potential_evapotranspiration |-> "pet", actual_evapotranspiration |-> "aet", surface_runoff |-> "ro",
            giuh_runoff |-> "giuh", total_discharge |-> "q", infiltration |-> "in", percolation |-> "perc",
            groundwater_to_stream_recharge |-> "gw"]

(* the value of variable v, as the caller must see it now *)
Value(i, v) ==
  IF v = "precipitation_rate" THEN <<i.pr>>
  ELSE IF v = "potential_evapotranspiration_rate" THEN <<i.pe>>
  ELSE IF v = "soil_temperature_profile" THEN i.T
  ELSE IF v \in Layered THEN [L \in 1..i.e.nl |-> i.cal[L][v]]
  ELSE IF v = "field_capacity" THEN <<i.calfc>>
  ELSE IF v = "ponded_depth_max" THEN <<i.calpm>>
  ELSE IF v \in DOMAIN OutName THEN <<i.last[OutName[v]] \oslash C100>>
  ELSE IF v = "soil_storage" THEN <<i.laststo \oslash C100>>
  ELSE IF v = "soil_depth_layers" THEN [L \in 1..i.e.nl |-> i.e.cum[L] \oslash C100]
  ELSE IF v = "soil_moisture_wetting_fronts" THEN [j \in 1..Len(i.s.F) |-> i.s.F[j].t]
  ELSE IF v = "soil_depth_wetting_fronts" THEN [j \in 1..Len(i.s.F) |-> i.s.F[j].d \oslash C100]
  ELSE <<>>

Assign(i, v, x) ==
  IF v = "precipitation_rate" THEN [i EXCEPT !.pr = x[1]]
  ELSE IF v = "potential_evapotranspiration_rate" THEN [i EXCEPT !.pe = x[1]]
  ELSE IF v = "soil_temperature_profile" THEN [i EXCEPT !.T = x]
  ELSE IF v \in Layered THEN [i EXCEPT !.cal = [L \in 1..i.e.nl |-> [i.cal[L] EXCEPT ![v] = x[L]]]]
  ELSE IF v = "field_capacity" THEN [i EXCEPT !.calfc = x[1]]
  ELSE IF v = "ponded_depth_max" THEN [i EXCEPT !.calpm = x[1]]
  ELSE i

RECURSIVE Scatter(_, _, _, _)
Scatter(a, ix, x, j) == IF j > Len(ix) THEN a ELSE Scatter([a EXCEPT ![ix[j] + 1] = x[j]], ix, x, j + 1)

SeqEq(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : EqD(a[j], b[j])

InVars == <<"precipitation_rate", "potential_evapotranspiration_rate", "soil_temperature_profile">>
OutVars == <<"soil_moisture_wetting_fronts", "soil_depth_layers", "soil_depth_wetting_fronts", "soil_num_wetting_fronts",
             "precipitation", "potential_evapotranspiration", "actual_evapotranspiration", "surface_runoff", "giuh_runoff",
             "soil_storage", "total_discharge", "infiltration", "percolation", "groundwater_to_stream_recharge", "mass_balance">>
UnitOf(v) == IF v \in {"precipitation_rate", "potential_evapotranspiration_rate"} THEN "mm h^-1"
             ELSE IF v = "soil_temperature_profile" THEN "K"
             ELSE IF v \in {"soil_moisture_wetting_fronts", "soil_num_wetting_fronts"} THEN "none" ELSE "m"
SizeOf(i, v) == IF v \in {"soil_moisture_wetting_fronts", "soil_depth_wetting_fronts"} THEN Len(i.s.F)
                ELSE IF v \in Layered \cup {"soil_depth_layers"} THEN i.e.nl
                ELSE IF v = "soil_temperature_profile" THEN (IF Flag(i.c.sft) THEN Len(i.c.z) ELSE 1)
                ELSE 1
MetaClauses(i, ev) ==
  IF ~ On("P13") THEN {} ELSE
  Chk("P13", "input and output names", ToSet(ev.in) = ToSet(InVars) /\ ToSet(ev.outn) = ToSet(OutVars) /\ ev.nin = Len(InVars) /\ ev.nout = Len(OutVars)
                                       /\ Len(ev.in) = ev.nin /\ Len(ev.outn) = ev.nout)
  \cup Chk("P13", "time metadata", EqD(ev.t0, N0) /\ ev.tu = "s")
  \cup UNION { LET m == ev.vars[j]
                   isint == m.v = "soil_num_wetting_fronts"
                   known == m.v \in ToSet(InVars) \cup ToSet(OutVars)
               IN Chk("P13", "type of " \o m.v, m.ty = (IF isint THEN "int" ELSE "double") /\ m.is = (IF isint THEN 4 ELSE 8))
                  \cup Chk("P13", "units of " \o m.v, known => m.u = UnitOf(m.v))
                  \cup Chk("P13", "location of " \o m.v, known => m.loc = "node")
                  \cup Chk("P13", "size of " \o m.v, m.gr = 1 /\ m.gs = SizeOf(i, m.v) /\ m.nb = m.is * SizeOf(i, m.v))
                  \cup Chk("P13", "shape of " \o m.v, m.g \in {2, 3, 4} => m.sh[1] = SizeOf(i, m.v))
             : j \in 1..Len(ev.vars) }

FinClauses(i, ev) ==
  LET g == ev.sum
      o == i.sum.o
      giuh == SumSeq(i.q)
      bal == (((i.sum.start \oplus o.pr) \ominus o.ro) \ominus (o.aet \oplus i.sum.on)) \ominus ((o.perc \oplus i.sum.end) \ominus i.sum.calib)
      near(a, b) == Close(a, b, FromStr("1e-8"), Z12)
  IN UNION {
    IF On("P02") THEN
      Chk("P02", "summary: initial water", i.inv \/ near(g[1], i.sum.start)) \cup Chk("P02", "summary: precipitation", near(g[2], o.pr))
      \cup Chk("P02", "summary: infiltration", near(g[3], o.in)) \cup Chk("P02", "summary: final water", i.inv \/ near(g[4], i.sum.end))
      \cup Chk("P02", "summary: ponded water", near(g[5], i.sum.on)) \cup Chk("P02", "summary: runoff", near(g[6], o.ro))
      \cup Chk("P02", "summary: routed runoff", near(g[7], o.giuh)) \cup Chk("P02", "summary: water in the hydrograph queue", near(g[8], giuh))
      \cup Chk("P02", "summary: percolation", near(g[9], o.perc)) \cup Chk("P02", "summary: evapotranspiration", near(g[10], o.aet))
      \cup Chk("P02", "summary: potential evapotranspiration", near(g[11], o.pet)) \cup Chk("P02", "summary: discharge", near(g[12], o.q))
      \cup Chk("P02", "summary: calibration", near(g[13], i.sum.calib)) \cup Chk("P02", "summary: balance", i.inv \/ near(g[14], bal))
      \cup Chk("P02", "water is conserved over the run", i.inv \/ Close(bal, N0, (IF i.c.cls = "std" /\ ~ i.dry THEN FromStr("1e-6") ELSE FromStr("1e-4")) \otimes FromInt(1 + i.nts), N0))
    ELSE {},
    IF On("P03") THEN Chk("P03", "water in the hydrograph queue", near(g[8], giuh)) ELSE {},
    IF On("P03") /\ ~ i.inv /\ Close(SumSeq(i.ord), N1, Z9, N0) THEN
      Chk("P03", "runoff is discharged or still queued", near(o.ro, o.q \oplus giuh)) ELSE {} }

(* ------------------------------------------------------ comparing instances *)
SnapEq(a, b) == /\ a.s.F = b.s.F /\ EqD(a.s.pond, b.s.pond) /\ EqD(a.s.time, b.s.time) /\ a.s.nts = b.s.nts /\ a.s.led = b.s.led
                /\ a.s.out = b.s.out
FNear9(F, G) == Len(F) = Len(G) /\ \A j \in 1..Len(F) : FrontNear(F[j], G[j]) /\ Close(F[j].z, G[j].z, Z9, FromStr("1e-6"))

SameClauses(p, what, a, b) ==
  IF ~ On(p) THEN {}
  ELSE IF what = "exact" THEN Chk(p, "identical to its twin", SnapEq(a, b))
  ELSE Chk(p, "same profile as its twin", FNear9(a.s.F, b.s.F))
       \cup Chk(p, "same time as its twin", Close(a.s.time, b.s.time, FromStr("1e-6"), Z12))
       \cup Chk(p, "same ponding as its twin", Near(a.s.pond, b.s.pond))
       \cup Chk(p, "same totals as its twin", \A k \in OutKeys \ {"giuh", "q"} : Close(a.sum.o[k], b.sum.o[k], FromStr("1e-8"), N0))
       \cup Chk(p, "outputs are the sum over the timesteps", \A k \in OutKeys \ {"giuh", "q"} : Close(a.acc[k], b.acc[k], FromStr("1e-8"), N0))

(* ------------------------------------------------------------------ next *)
Ev == Trace[l]
K == Ev.k

Step(newinst, b, c) == /\ inst' = newinst
                       /\ bad' = bad \o SetToSeq(Mark(b))
                       /\ cov' = Inc(cov, c)
                       /\ l' = l + 1 /\ UNCHANGED <<scen, saved>>

Put(k, v) == [x \in DOMAIN inst \cup {k} |-> IF x = k THEN v ELSE inst[x]]

Init == l = 1 /\ inst = [x \in {} |-> 0] /\ scen = "" /\ bad = <<>> /\ cov = [x \in {} |-> 0] /\ saved = [x \in {} |-> 0]

Scen == /\ Ev.e = "scen" /\ scen' = Ev.id /\ inst' = [x \in {} |-> 0] /\ l' = l + 1 /\ cov' = Inc(cov, {"scenario"}) /\ UNCHANGED <<bad, saved>>

Cfg == /\ Ev.e = "cfg"
       /\ Step(Put(K, [c |-> Ev.c]), {}, {})

New == /\ Ev.e = "init"
       /\ LET c == inst[K].c
          IN IF ~ Complete(c) THEN Step(inst, IF On("P17") THEN {[p |-> "P17", c |-> "incomplete configuration accepted"]} ELSE {}, {"init"})
             ELSE LET i == NewInst(c, Ev) IN Step(Put(K, i), InitClauses(i, Ev), {"init"})

Set == /\ Ev.e = "set"
       /\ Step(Put(K, Assign(inst[K], Ev.v, Ev.x)),
               IF On("P13") THEN Chk("P13", "set then get " \o Ev.v, SeqEq(Ev.back, Ev.x)) ELSE {}, {"set"})

SetIx == /\ Ev.e = "setix"
         /\ LET i == inst[K]
            IN Step(Put(K, Assign(i, Ev.v, Scatter(Value(i, Ev.v), Ev.ix, Ev.x, 1))),
                    IF On("P13") THEN Chk("P13", "set then get at indices " \o Ev.v, SeqEq(Ev.back, Ev.x)) ELSE {}, {"setix"})

Get == /\ Ev.e = "get"
       /\ Step(inst, IF On("P13") THEN
                       Chk("P13", "value of " \o Ev.v, LET w == Value(inst[K], Ev.v)
                                                       IN Len(w) = Len(Ev.x) /\ \A j \in 1..Len(w) : Close(w[j], Ev.x[j], FromStr("1e-11"), Z12))
                       \cup Chk("P13", "value at indices and by pointer " \o Ev.v,
                                /\ Len(Ev.ptr) = Len(Ev.x) /\ Len(Ev.rev) = Len(Ev.x)
                                /\ \A j \in 1..Len(Ev.x) : Ev.ptr[j] = Ev.x[j] /\ Ev.rev[Len(Ev.x) + 1 - j] = Ev.x[j])
                       \cup Chk("P13", "value of some entries " \o Ev.v, Len(Ev.some) = Len(Ev.ix) /\ \A j \in 1..Len(Ev.ix) : Ev.some[j] = Ev.x[Ev.ix[j] + 1])
                       \cup Chk("P13", "value by a pointer obtained once " \o Ev.v, Ev.held = Ev.x)
                     ELSE {}, {"get"})

GetI == /\ Ev.e = "geti"
        /\ Step(inst, IF On("P13") THEN Chk("P13", "value of " \o Ev.v, LET w == <<Len(inst[K].s.F)>> IN Ev.x = w /\ Ev.rev = w /\ Ev.ptr = w /\ Ev.held = w) ELSE {}, {"get"})

Try == /\ Ev.e = "try"
       /\ Step(inst, IF On("P13") THEN Chk("P13", "unknown variable refused", Ev.r = "error" /\ Ev.w = "error") ELSE {}, {"try"})

SetFlag == /\ Ev.e = "flag"
           /\ Step(Put(K, [inst[K] EXCEPT !.on = (Ev.f = 1)]), {}, {})

Meta == /\ Ev.e = "meta" /\ Step(inst, MetaClauses(inst[K], Ev), {"meta"})

Upd == /\ Ev.e = "upd"
       /\ LET i == inst[K]
              pb == IF On("P13") THEN Chk("P13", "inputs kept until the update", EqD(i.pr, Ev.pr) /\ EqD(i.pe, Ev.pe)) ELSE {}
          IN IF i.inv THEN Step(Put(K, AfterInvalid(i, Ev)), InvalidClauses(i, Ev) \cup pb, {"update", "invalid"})
             ELSE LET u == UpdOne(i, Ev) IN Step(Put(K, u.i), u.bad \cup pb, u.cov)

(* UpdateUntil: as many Updates as it takes to reach the time; what they did is compared with a twin (Same). *)
RECURSIVE Reach(_, _, _)
Reach(t, dt, goal) == IF Lt(FromStr("1e-6"), goal \ominus t) THEN Reach(t \oplus dt, dt, goal) ELSE t
Until == /\ Ev.e = "until"
         /\ LET i == inst[K]
            IN Step(Put(K, [i EXCEPT !.s = Ev, !.t = Ev.time, !.nts = Ev.nts, !.u = TRUE]),
                    IF On("P12") THEN Chk("P12", "time reached by UpdateUntil", Close(Ev.time, Reach(i.t, Seconds(i.c.fr), Ev.until), FromStr("1e-5"), Z12)) ELSE {},
                    {"until"})

Obs == /\ Ev.e = "obs" /\ Step(inst, {}, {})

Same == /\ Ev.e = "same"
        /\ LET a == inst[Ev.a]
               b == inst[Ev.b]
           IN Step([x \in DOMAIN inst |-> IF x \in {Ev.a, Ev.b} THEN [inst[x] EXCEPT !.acc = ZeroOut] ELSE inst[x]], SameClauses(Ev.p, Ev.what, a, b), {"same:" \o Ev.what})

(* runs in different processes: the first keeps its rows, the others must repeat them *)
Save == /\ Ev.e = "save"
        /\ saved' = [x \in DOMAIN saved \cup {Ev.name} |-> IF x = Ev.name THEN inst[K].rows ELSE saved[x]]
        /\ l' = l + 1 /\ UNCHANGED <<inst, scen, bad, cov>>
Cmp == /\ Ev.e = "cmp"
       /\ Step(inst, IF On(Ev.p) /\ Ev.name \in DOMAIN saved THEN Chk(Ev.p, "same run as " \o Ev.what, saved[Ev.name] = inst[K].rows) ELSE {}, {"cmp"})

(* the standalone program's files, row by row *)
Csv == /\ Ev.e = "csv"
       /\ Step(inst, IF On("P16") THEN
                       Chk("P16", "variables file", Ev.row \in 1..Len(inst[K].rows)
                           /\ LET r == inst[K].rows[Ev.row].out IN Len(Ev.x) = 11 /\ \A j \in 1..11 : Close(Ev.x[j], r[j], FromStr("1e-14"), Z12))
                       \cup Chk("P16", "time stamps", Ev.time = Ev.want)
                     ELSE {}, {"csv"})
Lay == /\ Ev.e = "lay"
       /\ Step(inst, IF On("P16") THEN
                       Chk("P16", "layers file heading", Ev.head) \cup
                       Chk("P16", "layers file", Ev.row \in 1..Len(inst[K].rows)
                           /\ LET F == inst[K].rows[Ev.row].F
                                  t == FromStr("6e-7")
                              IN Len(Ev.F) = Len(F) /\ \A j \in 1..Len(F) :
                                   /\ Close(Ev.F[j].d, F[j].d \otimes FromInt(10), t, N0) /\ Close(Ev.F[j].t, F[j].t, t, N0)
                                   /\ Ev.F[j].l = F[j].l /\ Ev.F[j].n = F[j].n /\ Close(Ev.F[j].p, F[j].p \otimes FromInt(10), t, Z12))
                     ELSE {}, {"lay"})
Rows == /\ Ev.e = "rows"
        /\ Step(inst, IF On("P16") THEN Chk("P16", "number of rows", Ev.csv = Len(inst[K].rows) /\ Ev.lay = Len(inst[K].rows))
                                       \cup Chk("P16", "header", Ev.header) \cup Chk("P16", "program ends normally", Ev.rc = 0) ELSE {}, {"rows"})

Fin == /\ Ev.e = "fin"
       /\ Step(inst, IF inst[K].u THEN {} ELSE FinClauses(inst[K], Ev), {"fin"})

End == /\ Ev.e = "end" /\ Step(inst, {}, {})

Exc == /\ Ev.e = "exc"
       /\ IF Ev.at = "NEW" /\ ~ Complete(inst[K].c) THEN Step(inst, {}, {"refused"})
          ELSE Step(inst, { [p |-> p, c |-> "unexpected error"] : p \in Props }, {"exception"})

Crash == /\ Ev.e = "crash"
         /\ IF Ev.why \in {"abort", "exit"} /\ \E k \in DOMAIN inst : ~ Complete(inst[k].c) THEN Step(inst, {}, {"refused"})
            ELSE Step(inst, { [p |-> p, c |-> "crash: " \o Ev.why] : p \in Props }, {"crash"})

Done == /\ l = Len(Trace) + 1
        /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, cov |-> cov, lines |-> Len(Trace)])
        /\ l' = l + 1 /\ UNCHANGED <<inst, scen, bad, cov, saved>>

Next == IF l <= Len(Trace)
        THEN \/ Scen \/ Cfg \/ New \/ Set \/ SetIx \/ Get \/ GetI \/ Try \/ SetFlag \/ Meta \/ Upd \/ Until \/ Obs \/ Same
             \/ Save \/ Cmp \/ Csv \/ Lay \/ Rows \/ Fin \/ End \/ Exc \/ Crash
        ELSE Done
Spec == Init /\ [][Next]_vars
=============================================================================
