----------------------------- MODULE UnitsTrace ----------------------------
(***************************************************************************)
(* Trace validation of what harness/units.cxx recorded: the soil hydraulic *)
(* relations against module Soil (P22), the list of fronts against module  *)
(* FrontList (P23).                                                        *)
(***************************************************************************)
EXTENDS Soil, TLC, Json, IOUtils
FL == INSTANCE FrontList WITH L <- <<>>, C <- <<>>, h <- <<>>, done <- FALSE, g <- <<>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
Props == LET p == JsonDeserialize(IOEnv.PROPS) IN {p[j] : j \in 1..Len(p)}
VARIABLES l, scen, bad, cov, s, pts, L, C
vars == <<l, scen, bad, cov, s, pts, L, C>>
Where == l                  \* a recorded trace is one behaviour: its position identifies the state
On(p) == p \in Props
Chk(p, name, ok) == IF ~ ok THEN {[p |-> p, c |-> name]} ELSE {}
Inc(c, S) == [k \in DOMAIN c \cup S |-> (IF k \in DOMAIN c THEN c[k] ELSE 0) + (IF k \in S THEN 1 ELSE 0)]
Ev == Trace[l]
Step(S, cv) == /\ bad' = bad \o (IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN << [line |-> l, scen |-> scen, p |-> x.p, c |-> x.c] >>)
               /\ cov' = Inc(cov, cv) /\ l' = l + 1

Init == l = 1 /\ scen = "" /\ bad = <<>> /\ cov = [scenario |-> 0, update |-> 0] /\ s = <<>> /\ pts = <<>> /\ L = <<>> /\ C = <<>>
Scen == Ev.e = "scen" /\ scen' = Ev.s /\ s' = <<>> /\ pts' = <<>> /\ L' = <<>> /\ C' = <<>> /\ Step({}, {"scenario"})
SoilEv == Ev.e = "soil" /\ s' = Derived(Ev.x[1], Ev.x[2], Ev.x[3], Ev.x[4], Ev.x[5]) /\ pts' = <<>> /\ Step({}, {}) /\ UNCHANGED <<scen, L, C>>

(* ------------------------------------------------- soil hydraulic relations *)
Z == FromStr("1e-12")
(* the relative error that rounding in the exponentials can make *)
Rel == FromStr("1e-9")
Funs == {"THETA", "SEH", "HSE", "SET", "KSE", "GEFF"}
Want == LET x == Ev.x IN
  IF Ev.e = "THETA" THEN Theta(x[1], s) ELSE IF Ev.e = "SEH" THEN SeOfPsi(x[1], s) ELSE IF Ev.e = "HSE" THEN PsiOf(x[1], s)
  ELSE IF Ev.e = "SET" THEN SeOf(x[1], s) ELSE IF Ev.e = "KSE" THEN KOf(x[1], s, N1) ELSE Geff(EqD(x[1], N1), x[2], x[3], s)
Between(a, x, b) == Leq(a \ominus Z, x) /\ Leq(x, b \oplus Z)
Falls(f) == \A j \in 1..Len(pts) : pts[j].e = f /\ Lt(pts[j].x[1], Ev.x[1]) => Leq(Ev.y, pts[j].y \otimes (N1 \oplus Z))
Rises(f) == \A j \in 1..Len(pts) : pts[j].e = f /\ Lt(pts[j].x[1], Ev.x[1]) => Leq(pts[j].y, Ev.y \otimes (N1 \oplus Z) \oplus Z)
Fun == /\ Ev.e \in Funs
       /\ pts' = Append(pts, Ev)
       /\ Step(IF ~ On("P22") THEN {} ELSE
          LET x == Ev.x[1]
              y == Ev.y
          IN UNION {
          (IF Ev.e \in {"HSE", "KSE"} /\ Lt(FromStr("0.999999"), x) THEN {} ELSE   \* next to saturation the last digits are lost
             Chk("P22", "value of " \o Ev.e, Close(y, Want, FromStr("1e-14"), Rel))),
          (IF Ev.e = "THETA" THEN Chk("P22", "water content within residual and saturated", Between(s.tr, y, s.te)) \cup Chk("P22", "water content falls with the head", Falls("THETA"))
                                  \cup Chk("P22", "saturated at zero head", EqD(x, N0) => EqD(y, s.te))
           ELSE IF Ev.e = "SEH" THEN Chk("P22", "saturation within 0 and 1", Between(N0, y, N1)) \cup Chk("P22", "saturation falls with the head", Falls("SEH"))
           ELSE IF Ev.e = "HSE" THEN Chk("P22", "head non-negative", Leq(N0, y)) \cup Chk("P22", "head falls with the saturation", Falls("HSE"))
                                  \cup Chk("P22", "head is the inverse of the retention curve", Close(SeOfPsi(y, s), x, FromStr("1e-9"), FromStr("1e-6")))
           ELSE IF Ev.e = "KSE" THEN Chk("P22", "conductivity within 0 and saturated", Between(N0, y, s.ks \otimes (N1 \oplus Z))) \cup Chk("P22", "conductivity rises with the saturation", Rises("KSE"))
                                  \cup Chk("P22", "saturated conductivity", EqD(x, N1) => Close(y, s.ks, N0, Z))
           ELSE IF Ev.e = "GEFF" THEN Chk("P22", "capillary drive non-negative", Leq(Opp(Z), y))
           ELSE {}) }, {"update", "fun:" \o Ev.e})
       /\ UNCHANGED <<scen, s, L, C>>

(* the drive against the integral it stands for, for inputs kept in the corpus *)
GInt == /\ Ev.e = "GINT"
        /\ Step(IF On("P22") THEN Chk("P22", "numerical capillary drive near the integral of the conductivity", Close(Ev.y, DriveIntegral(Ev.x[2], Ev.x[3], s), N0, FromStr("0.25"))) ELSE {}, {"gint"})
        /\ UNCHANGED <<scen, s, pts, L, C>>

(* ------------------------------------------------------- the list of fronts *)
Tags(X) == [j \in 1..Len(X) |-> X[j].t]
Lists == {"FIRST", "INS", "DEL", "COPY"}
NewL == IF Ev.e = "FIRST" THEN FL!InsertFirst(L, Ev.t) ELSE IF Ev.e = "INS" THEN FL!Inserted(L, Ev.k, Ev.t) ELSE IF Ev.e = "DEL" THEN FL!DeleteAt(L, Ev.k) ELSE L
Result == IF Ev.e \in {"FIRST", "INS"} THEN (IF NewL = L THEN 0 ELSE Ev.t) ELSE IF Ev.e = "DEL" THEN FL!AfterDelete(L, Ev.k) ELSE 0
ListOp == /\ Ev.e \in Lists
          /\ L' = NewL /\ C' = IF Ev.e = "COPY" THEN L ELSE C
          /\ Step(IF ~ On("P23") THEN {} ELSE
             LET new(f) == Ev.e \in {"FIRST", "INS"} /\ f.t = Ev.t
             IN UNION {
               Chk("P23", "fronts in the list after " \o Ev.e, Tags(Ev.L) = NewL),
               Chk("P23", "numbered from the surface down after " \o Ev.e, \A j \in 1..Len(Ev.L) : Ev.L[j].n = j),
               Chk("P23", "fields of the fronts after " \o Ev.e, \A j \in 1..Len(Ev.L) : Ev.L[j].whole = 1 /\ (IF new(Ev.L[j]) THEN Ev.L[j].z0 = 1 ELSE Ev.L[j].filled = 1)),
               Chk("P23", "front returned by " \o Ev.e, Ev.r = Result),
               Chk("P23", "length", Ev.len = Len(NewL)),
               Chk("P23", "finding a front by its number", Ev.find = [j \in 1..(Len(NewL) + 2) |-> FL!Find(NewL, j - 1)]),
               Chk("P23", "finding a front in the copy", NewL = <<>> \/ C' = <<>> \/ Ev.findc = [j \in 1..(Len(C') + 2) |-> FL!Find(C', j - 1)]),
               Chk("P23", "the copy is complete and independent", Tags(Ev.C) = C' /\ \A j \in 1..Len(Ev.C) : Ev.C[j].n = j /\ Ev.C[j].whole = 1 /\ Ev.C[j].filled = 1) },
             {"update", "list:" \o Ev.e})
          /\ UNCHANGED <<scen, s, pts>>

End == Ev.e = "end" /\ Step({}, {}) /\ UNCHANGED <<scen, s, pts, L, C>>
Crash == Ev.e = "crash" /\ Step({ [p |-> p, c |-> "crash: " \o Ev.why] : p \in Props }, {"crash"}) /\ UNCHANGED <<scen, s, pts, L, C>>
Done == l = Len(Trace) + 1 /\ JsonSerialize(IOEnv.OUT, [bad |-> bad, cov |-> cov, lines |-> Len(Trace)]) /\ l' = l + 1 /\ UNCHANGED <<scen, bad, cov, s, pts, L, C>>
Next == IF l <= Len(Trace) THEN Scen \/ SoilEv \/ Fun \/ GInt \/ ListOp \/ End \/ Crash ELSE Done
Spec == Init /\ [][Next]_vars
=============================================================================
