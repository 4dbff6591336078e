------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* What a configuration means.  A configuration is the record the scenario *)
(* generator (module Scenario) writes out as a configuration file and a    *)
(* soil table; numbers are the decimal strings that appear in those files: *)
(*   lt layer thicknesses   st soil type of every layer                    *)
(*   tab soil table rows <<theta_r, theta_e, alpha, n, Ks>>                *)
(*   maxst max_valid_soil_types ("" if not given)   psi0 initial head      *)
(*   ts, et, fr  <<number, unit>> of timestep, endtime, forcing resolution *)
(*   pm ponded_depth_max   wp, fc heads   giuh hourly ordinates            *)
(*   closed, adapt, sft, calib  "true", "false", ... or "" if not given    *)
(*   z  depths of the soil temperature cells                               *)
(*   table  "missing" if soil_params_file is not given                     *)
(*   cls  "std": soils of the shipped table; "any": arbitrary soils        *)
(***************************************************************************)
EXTENDS Soil, TLC, IOUtils

Num(s) == FromStr(s)

Hours(x) ==   \* <<number, unit>> in hours
  LET v == Num(x[1])
  IN IF x[2] \in {"", "[s]", "[sec]"} THEN v \oslash FromInt(3600)
     ELSE IF x[2] \in {"[min]", "[minute]"} THEN v \oslash FromInt(60)
     ELSE IF x[2] \in {"[d]", "[day]"} THEN v \otimes FromInt(24)
     ELSE v
Seconds(x) ==
  LET v == Num(x[1])
  IN IF x[2] \in {"", "[s]", "[sec]"} THEN v
     ELSE IF x[2] \in {"[min]", "[minute]"} THEN v \otimes FromInt(60)
     ELSE IF x[2] \in {"[d]", "[day]"} THEN v \otimes FromInt(86400)
     ELSE v \otimes FromInt(3600)

Flag(s) == s \in {"true", "1"}

RECURSIVE CumFrom(_, _, _)
CumFrom(lt, i, acc) == IF i > Len(lt) THEN <<>>
                       ELSE LET c == acc \oplus Num(lt[i]) IN <<c>> \o CumFrom(lt, i + 1, c)

MaxTypes(c) == IF c.maxst = "" THEN 15 ELSE Floor(Num(c.maxst))
InvalidSoil(c) == \E i \in 1..Len(c.st) : c.st[i] > MaxTypes(c)

TableSoil(row) == Derived(Num(row[1]), Num(row[2]), Num(row[3]), Num(row[4]), Num(row[5]))

(***************************************************************************)
(* Unit hydrograph per forcing timestep, from the hourly ordinates: the    *)
(* ordinates of the hours within a longer forcing timestep are added up,   *)
(* an hour that holds several forcing timesteps is split evenly.           *)
(***************************************************************************)
Ordinates(c) ==
  LET h    == [i \in 1..Len(c.giuh) |-> Num(c.giuh[i])]
      fres == Hours(c.fr)
      eps  == FromStr("1e-8")
      hrs  == Floor(fres \oplus eps)
      cnt  == (Len(h) + hrs - 1) \div hrs
      lump == IF hrs <= 1 THEN h
              ELSE [i \in 1..cnt |-> SumSeq([j \in 1..(IF i * hrs <= Len(h) THEN hrs ELSE Len(h) - (i - 1) * hrs) |-> h[(i - 1) * hrs + j]])]
      per  == LET q == Floor((N1 \oslash fres) \oplus eps) IN IF q < 1 THEN 1 ELSE q
  IN [i \in 1..(per * Len(lump)) |-> lump[(i - 1) \div per + 1] \oslash FromInt(per)]

(* Built for the framework the model has no end: the framework decides how far to run. *)
Framework == "FRAMEWORK" \in DOMAIN IOEnv
EndOf(c) == IF Framework THEN FromStr("1e300") ELSE Seconds(c.et)

(* A configuration without one of the required settings, or with a switch that is neither on nor off, is refused. *)
Switch(v) == v \in {"", "true", "false"}
Complete(c) ==
  /\ Switch(c.closed) /\ Switch(c.sft) /\ Switch(c.calib) /\ (Switch(c.adapt) \/ c.adapt \in {"0", "1"})
  /\ c.lt # <<>> /\ c.st # <<>> /\ c.table # "missing" /\ c.giuh # <<>>
  /\ c.psi0 # "" /\ c.ts[1] # "" /\ c.et[1] # "" /\ c.fr[1] # "" /\ c.wp # "" /\ c.fc # ""
  /\ (Flag(c.sft) => c.z # <<>>)

(* environment of the model steps (module Fronts) *)
EnvOf(c) ==
  LET nl == Len(c.lt)
  IN [nl |-> nl, cum |-> CumFrom(c.lt, 1, N0),
      soil |-> IF InvalidSoil(c) THEN <<>> ELSE [l \in 1..nl |-> TableSoil(c.tab[c.st[l]])],
      ff |-> [l \in 1..nl |-> N1], closed |-> Flag(c.closed), fc |-> Num(c.fc), wp |-> Num(c.wp),
      pmax |-> IF c.pm = "" THEN N0 ELSE Max(Num(c.pm), N0)]

(* profile at the start: one front per layer, all at the initial head *)
InitialFronts(c) ==
  LET e == EnvOf(c)
      p == Num(c.psi0)
  IN [l \in 1..e.nl |-> LET t == Theta(p, e.soil[l])
                        IN [d |-> e.cum[l], t |-> t, p |-> p, k |-> KAt(t, e.soil[l], N1), z |-> N0, l |-> l, b |-> 1]]
=============================================================================
