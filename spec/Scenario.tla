------------------------------ MODULE Scenario ------------------------------
(***************************************************************************)
(* Behaviours of the environment: which configurations a user writes and   *)
(* which BMI calls a driver makes, in which order, with which inputs.      *)
(* TLC generates them (simulation mode, seeded); tools/concretise.py only  *)
(* spells them out as files and recorder commands.                         *)
(*                                                                         *)
(* In the families that make one model step per Update the specification's *)
(* own step (Fronts!Substep) runs along, so that inputs can be aimed at    *)
(* the boundaries of its case distinctions: rain that exactly meets the    *)
(* infiltration capacity, that exactly fills the surface store, that       *)
(* exactly fills the soil, a dry step after rain, and so on.               *)
(*                                                                         *)
(* Randomness is TLC's RandomElement, always bound through a one-element   *)
(* set so that it is evaluated once.  (Dummy parameters keep TLC from      *)
(* evaluating a random choice once and for all as a constant.)             *)
(***************************************************************************)
EXTENDS Lasam, Json, IOUtils, TLC

Fam  == IOEnv.FAMILY
NUpd == atoi(IOEnv.NUPD)
Cls  == IOEnv.CLS           \* "std": soils of the shipped table only; "any": arbitrary soils as well

VARIABLES ph,      \* what comes next
          c,       \* configurations, one per instance
          ops,     \* calls so far: <<name, instance, arguments...>>
          n,       \* Updates made
          wx,      \* weather: [m |-> kind of weather, T |-> temperature regime]
          st       \* model state that runs along ([ok |-> FALSE] if none does)
vars == <<ph, c, ops, n, wx, st>>

Pick(s) == s[RandomElement(1..Len(s))]
Chance(k) == RandomElement(1..100) <= k
One(S) == CHOOSE x \in S : TRUE

RECURSIVE Perm(_)
Perm(S) == IF S = {} THEN <<>> ELSE One({ <<x>> \o Perm(S \ {x}) : x \in {RandomElement(S)} })
RECURSIVE RepSeq(_, _)
RepSeq(x, k) == IF k = 0 THEN <<>> ELSE <<x>> \o RepSeq(x, k - 1)

(* ------------------------------------------------------------- configurations *)
StdSoils == <<
  <<"0.1", "0.46", "1.00E-02", "1.25", "0.612">>, <<"0.08", "0.44", "2.00E-02", "1.42", "0.3348">>,
  <<"0.06", "0.4", "1.00E-02", "1.47", "0.504">>, <<"0.05", "0.39", "3.00E-02", "1.75", "4.32">>,
  <<"0.05", "0.38", "4.00E-02", "3.18", "26.64">>, <<"0.12", "0.39", "3.00E-02", "1.21", "0.468">>,
  <<"0.06", "0.38", "2.00E-02", "1.33", "0.54">>, <<"0.04", "0.39", "3.00E-02", "1.45", "1.584">>,
  <<"0.05", "0.49", "1.00E-02", "1.68", "1.836">>, <<"0.11", "0.48", "2.00E-02", "1.32", "0.432">>,
  <<"0.09", "0.48", "1.00E-02", "1.52", "0.468">>, <<"0.07", "0.44", "1.00E-02", "1.66", "0.756">>,
  <<"0.0648", "0.4513", "0.0031297", "1.6858", "0.45">>, <<"0.0831", "0.4773", "0.0083272", "1.299", "0.07">>,
  <<"0.0668", "0.4617", "0.0037454", "1.6151", "0.45">>, <<"0.0649", "0.4481", "0.009567", "1.3579", "0.07">>,
  <<"0.0672", "0.4760", "0.005288", "1.5276", "0.02">>, <<"0.0823", "0.4782", "0.004467", "1.4585", "0.20">> >>

Digits(a, b) == ToString(RandomElement(a..b))
AnySoil(x) == << Pick(<<"0.0" \o Digits(10, 99), "0.0" \o Digits(10, 99), "0.0" \o Digits(10, 99), "0", "0.00" \o Digits(1, 9), "0." \o Digits(10, 25)>>), "0." \o Digits(310, 790),
              Pick(<<"0.00" \o Digits(10, 99), "0.0" \o Digits(10, 99), "0." \o Digits(10, 30)>>),
              Pick(<<"1." \o Digits(10, 60), "1." \o Digits(11, 99), "2." \o Digits(10, 99)>>),
              Pick(<<"0.0" \o Digits(10, 99), "0." \o Digits(10, 99), Digits(1, 9) \o "." \o Digits(1, 99), Digits(10, 40), "0.00" \o Digits(10, 99), Digits(41, 120)>>) >>
ExtremeSoil(x) == << "0.0" \o Digits(10, 99), "0." \o Digits(350, 650), Pick(<<"0.00" \o Digits(10, 99), "0.0" \o Digits(10, 99)>>),
                    Pick(<<"1." \o Digits(10, 20), "2." \o Digits(50, 99), "3." \o Digits(10, 99), "1.1">>),
                    Pick(<<"0.0" \o Digits(10, 99), "0." \o Digits(10, 99), Digits(10, 40)>>) >>
Soils(x) == IF Cls = "std" THEN StdSoils
         ELSE One({ [i \in 1..k |-> IF Chance(40) THEN Pick(StdSoils) ELSE IF Fam = "wet" THEN ExtremeSoil(0) ELSE AnySoil(0)] : k \in {RandomElement(1..5)} })

Thick == <<"5", "5", "10", "10", "20", "20", "44", "80", "131", "15.5", "7.25", "1.5", "0.75", "240">>
Numbers(k) == [i \in 1..k |-> Pick(Thick)]

(* spellings of a duration given in seconds; days are for the end time only *)
SpellIn(sec, day) ==
  LET s == ToString(sec)
      base == << <<s, "[sec]">>, <<s, "[s]">>, <<s, "">> >>
      mins == IF sec % 60 = 0 THEN << <<ToString(sec \div 60), "[min]">>, <<ToString(sec \div 60), "[minute]">> >> ELSE <<>>
      hrs  == IF sec % 3600 = 0 THEN << <<ToString(sec \div 3600), "[hr]">>, <<ToString(sec \div 3600), "[h]">> >>
              ELSE IF sec = 1800 THEN << <<"0.5", "[hr]">> >> ELSE IF sec = 900 THEN << <<"0.25", "[h]">> >> ELSE <<>>
      days == IF day /\ sec % 86400 = 0 THEN << <<ToString(sec \div 86400), "[d]">>, <<ToString(sec \div 86400), "[day]">> >> ELSE <<>>
      per(u) == Str(FromInt(sec) \oslash FromInt(u))      \* also fractions of a minute, an hour, a day
      frac == << <<per(60), "[min]">>, <<per(3600), "[hr]">>, <<per(3600), "[h]">>, <<per(1), "[s]">> >> \o (IF day THEN << <<per(86400), "[d]">>, <<per(86400), "[day]">> >> ELSE <<>>)
  IN IF Chance(20) THEN frac ELSE base \o mins \o hrs \o days

Spell(sec) == SpellIn(sec, FALSE)
(* any end time, in any unit *)
AnyEnd(x) == << Pick(<<Digits(1, 40), Digits(1, 40) \o "." \o Digits(1, 99), "0." \o Digits(11, 99), Digits(1, 9) \o "e2", Digits(100, 99999)>>),
                Pick(<<"[s]", "[sec]", "", "[min]", "[minute]", "[h]", "[hr]", "[d]", "[day]">>) >>
AnyHead(x) == Pick(<<Digits(0, 30) \o "." \o Digits(1, 99), "0.0" \o Digits(1, 9), "0." \o Digits(1, 99), Digits(1000, 9000) \o "." \o Digits(1, 9), Digits(1, 9) \o "e" \o Digits(1, 3)>>)

Hydrographs == << <<"0.06", "0.51", "0.28", "0.12", "0.03">>, <<"1.0">>, <<"0.5", "0.5">>, <<"0.1", "0.2", "0.4", "0.2", "0.1">>,
                  <<"0.25", "0.25", "0.25", "0.15", "0.05", "0.03", "0.02">>, <<"0.0", "0.3", "0.0", "0.7">>, <<"0.4", "0.3", "0.2">> >>

(* hydrographs of many ordinates: a ramp up and down, and equal shares *)
LongHydrograph(k) == LET w(i) == IF 2 * i <= k THEN i ELSE k + 1 - i
                         RECURSIVE all(_)
                         all(i) == IF i = 0 THEN 0 ELSE w(i) + all(i - 1)
                     IN Pick(<< [i \in 1..k |-> Str(FromInt(w(i)) \oslash FromInt(all(k)))], [i \in 1..k |-> Str(N1 \oslash FromInt(k))] >>)

Keys == <<"verbosity", "forcing_file", "soil_params_file", "layer_thickness", "initial_psi", "timestep", "endtime", "forcing_resolution",
          "ponded_depth_max", "use_closed_form_G", "layer_soil_type", "max_valid_soil_types", "wilting_point_psi", "field_capacity_psi",
          "giuh_ordinates", "adaptive_timestep", "sft_coupled", "soil_z", "calib_params">>
PlainStyle == [order |-> Keys, cm |-> "[cm]", names |-> "plain", verb |-> "none", num |-> "plain", fill |-> "none"]

Layers(x) == IF Fam \in {"config", "bmi", "calib", "csv"} THEN Pick(<<1, 2, 3, 4>>)
          ELSE IF Fam \in {"long", "mixed"} THEN Pick(<<1, 2, 3, 4, 5, 6, 7, 8, 10>>)
          ELSE Pick(<<1, 1, 2, 2, 3, 3, 4, 5>>)
StepSeconds == <<300, 300, 300, 600, 900, 1800, 3600, 60, 7200, 10800>>

(* A configuration with the given timestep and forcing resolution in seconds.  (Values that are used more than once are
   first stored in the state: TLC evaluates functions and definitions lazily, and RandomElement anew each time.) *)
Config(dt, fres, nl, tab, ms) ==
  [lt |-> Numbers(nl), st |-> [i \in 1..nl |-> RandomElement(1..(IF Len(tab) > 15 /\ ms # "20" THEN 15 ELSE Len(tab)))], tab |-> tab,
   maxst |-> ms, psi0 |-> Pick(<<"10", "50", "100", "500", "2000", "2000", "3000", "10000", "20000", "5">>),
   ts |-> Pick(Spell(dt)), et |-> Pick(SpellIn(86400 * 4000, TRUE)), fr |-> Pick(Spell(fres)),
   pm |-> Pick(<<"0", "0", "0", "1.1", "2", "5", "0.5", "0.01", "20", "">>), wp |-> Pick(<<"15495.0", "15495.0", "10000", "3000.5">>), fc |-> Pick(<<"340.9", "103.3", "500", "33", "1200">>),
   giuh |-> Pick(Hydrographs), closed |-> Pick(<<"false", "false", "true", "">>), adapt |-> Pick(<<"false", "true", "", "0", "1">>),
   sft |-> "", calib |-> "", z |-> <<>>, cls |-> Cls, keep |-> FALSE, table |-> "", x |-> PlainStyle]

Base0(dt, fres) == One({ One({ One({ Config(dt, fres, nl, tab, ms) : ms \in {Pick(<<"15", "15", "", "20">>)} }) : nl \in {Layers(0)} }) : tab \in {Soils(0)} })

(* the soil temperature cells: every layer gets at least one, ending at the layer's bottom or within it; some profiles go on
   below the column *)
RECURSIVE CellsFrom(_, _, _)
CellsFrom(cf, e, L) ==
  IF L > Len(cf.lt) THEN (IF Chance(20) THEN <<Str(e[Len(e)] \oplus N1), Str(e[Len(e)] \oplus FromInt(50))>> ELSE <<>>)
  ELSE One({ One({ [h \in 1..per |-> Str((IF L = 1 THEN N0 ELSE e[L - 1]) \oplus ((Num(cf.lt[L]) \otimes (FromInt(h) \ominus mid)) \oslash FromInt(per)))]
                   : mid \in {Pick(<<N0, N0, FromStr("0.5"), FromStr("0.01")>>)} }) : per \in {Pick(<<1, 2, 2, 3, 5>>)} })
       \o CellsFrom(cf, e, L + 1)
CellsFor(cf) == CellsFrom(cf, CumFrom(cf.lt, 1, N0), 1)
Frozen(cf) == [cf EXCEPT !.sft = "true", !.z = CellsFor(cf)]

TwinDts == << <<300, 3600>>, <<300, 600>>, <<300, 900>>, <<600, 3600>>, <<900, 3600>>, <<900, 1800>>, <<1800, 3600>>, <<3600, 7200>>, <<3600, 10800>>,
              <<300, 1200>>, <<600, 1800>> >>
MultiDts == << <<300, 3600>>, <<300, 900>>, <<600, 3600>>, <<900, 3600>>, <<1800, 3600>>, <<3600, 7200>>, <<300, 1000>>, <<700, 3600>>, <<900, 2000>>,
               <<3600, 10800>>, <<1800, 5400>>, <<2400, 3600>>, <<3600, 3600>>, <<7200, 3600>>, <<300, 300>>, <<3600, 86400>>, <<1800, 43200>> >>
GiuhDts == << <<300, 300>>, <<900, 900>>, <<1800, 1800>>, <<3600, 3600>>, <<3600, 7200>>, <<3600, 10800>>, <<3600, 21600>>, <<1200, 1200>>, <<300, 3600>>,
              <<1800, 3600>>, <<3600, 18000>>, <<3600, 28800>>, <<3600, 43200>>, <<3600, 86400>> >>

Missing(cf, k) ==
  IF k = 1 THEN [cf EXCEPT !.lt = <<>>] ELSE IF k = 2 THEN [cf EXCEPT !.st = <<>>] ELSE IF k = 3 THEN [cf EXCEPT !.table = "missing"]
  ELSE IF k = 4 THEN [cf EXCEPT !.giuh = <<>>] ELSE IF k = 5 THEN [cf EXCEPT !.psi0 = ""] ELSE IF k = 6 THEN [cf EXCEPT !.ts = <<"", "">>]
  ELSE IF k = 7 THEN [cf EXCEPT !.et = <<"", "">>] ELSE IF k = 8 THEN [cf EXCEPT !.fr = <<"", "">>] ELSE IF k = 9 THEN [cf EXCEPT !.wp = ""]
  ELSE IF k = 10 THEN [cf EXCEPT !.fc = ""] ELSE IF k = 11 THEN [cf EXCEPT !.sft = "true", !.z = <<>>] ELSE IF k = 12 THEN [cf EXCEPT !.closed = "yes"]
  ELSE IF k = 13 THEN [cf EXCEPT !.adapt = "maybe"] ELSE IF k = 14 THEN [cf EXCEPT !.sft = "on"] ELSE [cf EXCEPT !.calib = "True"]

Respelled(cf) == [cf EXCEPT !.et = IF Chance(60) THEN AnyEnd(0) ELSE @, !.psi0 = IF @ # "" /\ Chance(60) THEN AnyHead(0) ELSE @,
                            !.pm = IF @ # "" /\ Chance(40) THEN Pick(<<"0." \o Digits(1, 99), Digits(1, 9) \o "e-1", "-1", "12.125">>) ELSE @,
                            !.wp = IF Chance(30) THEN Digits(9000, 20000) \o "." \o Digits(1, 99) ELSE @,
                            !.fc = IF Chance(30) THEN Digits(30, 900) \o "." \o Digits(1, 999) ELSE @,
                            !.lt = [i \in 1..Len(@) |-> IF Chance(30) THEN Digits(2, 60) \o "." \o Digits(1, 999) ELSE @[i]]]
Styled(cf) == [cf EXCEPT !.x = [order |-> One({ [i \in 1..Len(p) |-> Keys[p[i]]] : p \in {Perm(1..Len(Keys))} }),
                                cm |-> Pick(<<"[cm]", "[cm]", "">>), names |-> Pick(<<"plain", "spaces", "bare", "long">>), verb |-> Pick(<<"none", "low", "high">>),
                                (* spelling of numbers, spaces after commas; comment lines, unknown settings, no newline at the end *)
                                num |-> Pick(<<"plain", "plain", "sci", "spaced">>), fill |-> Pick(<<"none", "none", "lines", "noeol">>)]]

InvalidOf(cf) == One({ [cf EXCEPT !.maxst = Pick(<<"15", "", "20">>), !.st = [cf.st EXCEPT ![k] = Pick(<<21, 22, 30, 99>>)]] : k \in {RandomElement(1..Len(cf.st))} })

(* thin, nearly saturated columns of contrasting soils *)
Wet(cf) == [cf EXCEPT !.psi0 = Pick(<<"0", "0.001", "0.01", "0.1", "1", "3", "10", "30">>), !.pm = Pick(<<"0", "0.5", "3", "10">>),
                      !.lt = [i \in 1..Len(@) |-> Pick(<<"2", "3.5", "5", "5", "10", "20">>)]]

(* a duration that ends within the run, also in the middle of a forcing timestep *)
ShortEnd(fres) == <<ToString((fres * (RandomElement(2..NUpd))) \div Pick(<<1, 1, 2, 3>>)), "[sec]">>

(* timestep and forcing resolution *)
PickDts(x) == IF Fam \in {"step", "wet", "thin"} THEN One({ <<d, d>> : d \in {IF Fam = "wet" /\ Cls = "any" THEN Pick(SubSeq(StepSeconds, 1, 8)) ELSE Pick(StepSeconds)} })
           ELSE IF Fam = "giuh" THEN Pick(GiuhDts)
           ELSE IF Fam = "twin" THEN Pick(TwinDts)
           ELSE IF Fam = "long" THEN Pick(<< <<3600, 3600>>, <<3600, 3600>>, <<1800, 1800>>, <<900, 900>>, <<1800, 3600>>, <<3600, 7200>> >>)
           ELSE IF Fam = "mixed" THEN Pick(IF Chance(40) THEN GiuhDts ELSE MultiDts \o << <<300, 300>>, <<900, 900>>, <<1800, 1800>>, <<600, 600>> >>)
           ELSE IF Fam = "frozen" THEN Pick(<< <<300, 300>>, <<900, 900>>, <<3600, 3600>>, <<300, 3600>> >>)
           ELSE IF Fam = "calib" THEN Pick(<< <<300, 300>>, <<300, 3600>>, <<3600, 3600>>, <<900, 900>> >>)
           ELSE IF Fam = "csv" /\ Chance(30) THEN Pick(<< <<252, 252>>, <<1860, 1860>>, <<900, 1980>>, <<360, 360>>, <<57, 57>> >>)
           ELSE Pick(MultiDts)

RECURSIVE LongLayers(_)
LongLayers(k) == IF k = 0 THEN <<>> ELSE One({ <<x>> : x \in {Pick(<<"15", "20", "30", "40", "60">>)} }) \o LongLayers(k - 1)

(* thin layers, which fronts cross several at a time *)
RECURSIVE ThinLayers(_)
ThinLayers(k) == IF k = 0 THEN <<>> ELSE One({ <<x>> : x \in {Pick(<<"0.5", "1", "1.5", "2", "3", "4", "6", "10">>)} }) \o ThinLayers(k - 1)

(* second stage: b is the (stored) base configuration, p its timestep and forcing resolution *)
Refine(b, p) ==
  IF Fam = "multi" THEN <<IF Chance(IF Framework THEN 80 ELSE 25) THEN [b EXCEPT !.et = ShortEnd(p[2])] ELSE b>>
  ELSE IF Fam = "giuh" THEN <<[b EXCEPT !.psi0 = "10", !.pm = Pick(<<"0", "0", "0.5">>), !.giuh = IF Chance(30) THEN LongHydrograph(RandomElement(8..30)) ELSE @]>>
  ELSE IF Fam = "long" THEN <<One({ IF Chance(25) THEN Frozen(d) ELSE d : d \in {[b EXCEPT !.giuh = IF Chance(50) THEN LongHydrograph(RandomElement(8..40)) ELSE @, !.psi0 = Pick(<<"100", "500", "2000", "10000", "15000">>),
                                        !.lt = LongLayers(Len(@))]} })>>
  ELSE IF Fam = "thin" THEN <<[b EXCEPT !.lt = ThinLayers(Len(@)), !.psi0 = Pick(<<"20", "100", "500", "2000", "10000">>)]>>
  ELSE IF Fam = "mixed" THEN (* every option with every other *)
    <<One({ One({ IF Chance(40) THEN Frozen(f) ELSE f : f \in {IF Chance(25) THEN [d EXCEPT !.et = ShortEnd(p[2])] ELSE d} })
            : d \in {[b EXCEPT !.giuh = IF Chance(30) THEN LongHydrograph(RandomElement(8..30)) ELSE @, !.calib = Pick(<<"true", "false", "">>),
                               !.psi0 = IF Chance(20) THEN Pick(<<"0", "0.01", "1", "3", "20">>) ELSE @,
                               !.lt = IF Chance(20) THEN ThinLayers(Len(@)) ELSE IF Chance(30) THEN LongLayers(Len(@)) ELSE @]} })>>
  ELSE IF Fam = "twin" THEN (* k timesteps per Update, and one *)
    << [b EXCEPT !.adapt = "false", !.ts = <<ToString(p[1]), "[sec]">>], [b EXCEPT !.adapt = "false", !.ts = <<ToString(p[1]), "[sec]">>, !.fr = <<ToString(p[1]), "[sec]">>] >>
  ELSE IF Fam = "until" THEN <<b, b>>
  ELSE IF Fam = "frozen" THEN <<Frozen(b)>>
  ELSE IF Fam = "calib" THEN <<[b EXCEPT !.calib = Pick(<<"true", "false", "">>), !.psi0 = IF Chance(30) THEN Pick(<<"0", "0.01", "0.1", "1", "3", "20">>) ELSE @]>>
  ELSE IF Fam = "invalid" THEN <<InvalidOf(b)>>
  ELSE IF Fam = "bmi" THEN <<IF Chance(40) THEN Frozen(b) ELSE b>>
  ELSE IF Fam = "config" THEN
    One({ <<Styled(IF k <= 25 THEN One({ Missing(b, m) : m \in {RandomElement(1..15)} }) ELSE IF k <= 30 THEN b ELSE IF k <= 45 THEN Frozen(b) ELSE IF k <= 55 THEN InvalidOf(b)
                   ELSE IF k <= 75 THEN [b EXCEPT !.calib = Pick(<<"true", "false">>)] ELSE b)>> : k \in {RandomElement(1..100)} })
  ELSE IF Fam = "csv" THEN (* the forcing file may go on after the end time, and the end time need not be a multiple of the forcing step *)
    <<[b EXCEPT !.keep = TRUE, !.et = IF p[2] = 360 THEN <<ToString(NUpd \div 10) \o "." \o ToString(NUpd % 10), "[h]">>
                                        ELSE <<ToString(p[2] * NUpd + Pick(<<0, 0, p[2] \div 2, p[2] - 1>>)), "[sec]">>, !.x.verb = Pick(<<"none", "none", "low", "high">>)]>>
  ELSE <<b>>

(* ------------------------------------------------------------------- weather *)
Rains == << <<"0">>, <<"0.2", "0.5", "1", "2", "3.7", "0.01", "0.001">>, <<"4", "6", "8", "10", "10.5", "12", "15", "25">>, <<"40", "60", "90", "120">>, <<"200", "400", "700", "2000">> >>
NextMode(m) == IF Fam = "long" THEN (IF m = 0 THEN (IF Chance(85) THEN 0 ELSE Pick(<<1, 1, 1, 2, 2, 3>>)) ELSE IF Chance(30) THEN m ELSE 0)
               ELSE IF Chance(IF Fam = "thin" THEN 30 ELSE 65) THEN m ELSE Pick(<<0, 0, 0, 1, 1, 2, 2, 3, 3, 4>>)
WetPet(x) == Pick(<<"0", Digits(1, 9) \o "e-" \o Digits(2, 8), "0." \o Digits(1, 99), Digits(1, 9) \o "." \o Digits(1, 9)>>)
(* a thin column that is dried out anew in every one of many timesteps takes the code minutes (its search for the head goes to 1e7 cm
   in steps of 10 cm), so the strongest evapotranspiration is for short forcing steps *)
ShortSteps == \A k \in 1..Len(c) : Lt(Hours(c[k].fr), FromInt(4))
Pets == <<"0", "0", "0", "0", "0.05", "0.1", "0.3", "1", "3", "0.001">> \o (IF Cls = "std" /\ ShortSteps THEN <<"8", "25">> ELSE <<>>)

(* Inputs aimed at a case boundary of the step, from the model state. *)
Aimed(s, pet) ==
  LET e   == s.e
      law == AetLaw(e, s.F, Num(pet) \otimes FromStr("0.1"), s.dt)
      cap == Capacity(e, s.F, s.pond, N0, s.dt, law)
      mm(x) == (x \oslash s.dt) \otimes FromInt(10)
      k   == RandomElement(1..7)
      eps == FromStr(Pick(<<"1e-3", "1e-4", "1e-5", "1e-6", "1e-7", "1e-8", "1e-10">>))
      w   == IF k = 6 THEN (cap \ominus s.pond) \oplus eps                       \* a trace stays ponded (or runs off)
             ELSE IF k = 7 THEN ((cap \oplus e.pmax) \ominus s.pond) \oplus eps   \* a trace runs off
             ELSE IF k = 1 THEN cap \ominus s.pond
             ELSE IF k = 2 THEN (cap \oplus e.pmax) \ominus s.pond
             ELSE IF k = 3 THEN (MaxMass(e) \ominus Mass(e, s.F)) \ominus s.pond
             ELSE IF k = 4 THEN eps
             ELSE (cap \ominus s.pond) \oplus (e.pmax \oslash N2)
  IN IF ~ Lt(N0, w) THEN "0" ELSE Str(Min(mm(w), FromInt(500)))

(* weather of kind m: <<rain rate, PET rate>> *)
Weather(m, aim) == One({ <<IF aim THEN Aimed(st, pet) ELSE Pick(Rains[m + 1]), pet>> : pet \in {IF Fam = "wet" THEN WetPet(0) ELSE Pick(Pets)} })

StartModel(cf) ==
  IF Fam \in {"step", "wet", "thin"} THEN [ok |-> TRUE, e |-> EnvOf(cf), F |-> InitialFronts(cf), pond |-> N0, pp |-> N0, dt |-> Hours(cf.fr)]
  ELSE [ok |-> FALSE]

(* x: <<rain rate, PET rate>> *)
ModelTry(s, x) ==
  LET rate == Num(x[1]) \otimes FromStr("0.1")
      law == AetLaw(s.e, s.F, Num(x[2]) \otimes FromStr("0.1"), s.dt)
  IN Substep(s.e, s, rate, s.dt, law, <<>>, FALSE)
ModelStep(s, r) == IF ~ s.ok THEN s ELSE IF r.irr # {} THEN [ok |-> FALSE] ELSE [s EXCEPT !.F = r.F, !.pond = r.pond, !.pp = r.pp]

(***************************************************************************)
(* Novelty.  Of a few candidate inputs the one is taken whose step lies in *)
(* the situation reached least often so far (TLC register 1 counts them    *)
(* over all behaviours of the run).                                        *)
(***************************************************************************)
Mag(x) == IF ~ Lt(N0, x) THEN 0 ELSE IF Lt(x, FromStr("1e-8")) THEN 1 ELSE IF Lt(x, FromStr("1e-6")) THEN 2 ELSE IF Lt(x, FromStr("1e-4")) THEN 3
          ELSE IF Lt(x, FromStr("1e-2")) THEN 4 ELSE 5
Situation(r) == ToString(<<r.ev, r.irr, Mag(r.perc), Mag(r.ro), Mag(r.pond), IF Len(r.F) > 6 THEN 6 ELSE Len(r.F)>>)
Seen(k) == LET m == TLCGet(1) IN IF k \in DOMAIN m THEN m[k] ELSE 0
Note(k) == TLCSet(1, (k :> (Seen(k) + 1)) @@ TLCGet(1))
ASSUME TLCSet(1, <<>>)

(* ------------------------------------------------------------------ the calls *)
RECURSIVE Times(_, _)
Times(o, k) == IF k = 0 THEN <<>> ELSE <<o>> \o Times(o, k - 1)

(* one forcing step of the weather for instance k *)
ForceOp(k, pr, pet) == <<"F", ToString(k), pr, pet>>

CalNames == <<"smcmax", "smcmin", "van_genuchten_n", "van_genuchten_alpha", "hydraulic_conductivity", "field_capacity", "ponded_depth_max">>
CalValue(v) == IF v = "smcmax" THEN "0." \o Digits(35, 59) ELSE IF v = "smcmin" THEN "0.0" \o Digits(10, 99)
               ELSE IF v = "van_genuchten_n" THEN "1." \o Digits(20, 99) ELSE IF v = "van_genuchten_alpha" THEN "0.0" \o Digits(10, 49)
               ELSE IF v = "hydraulic_conductivity" THEN Pick(<<"0." \o Digits(10, 99), Digits(1, 9) \o "." \o Digits(1, 9)>>)
               ELSE IF v = "field_capacity" THEN Pick(<<"103.3", "340.9", "250", "500", "40", "900.5">>) ELSE Pick(<<"0", "1.1", "2", "0.5", "0.05", "12">>)
CalLen(v, nl) == IF v \in {"field_capacity", "ponded_depth_max"} THEN 1 ELSE nl
SetCal(v, nl) == <<"SET", "0", v>> \o [i \in 1..CalLen(v, nl) |-> CalValue(v)]

Temps(nc, regime) ==
  [j \in 1..nc |-> IF regime = 1 THEN Pick(<<"260", "268.5", "272.9", "273.0">>) ELSE IF regime = 2 THEN Pick(<<"273.15", "273.2", "280", "290.5">>)
                   ELSE Pick(<<"272.9", "273.0", "273.1", "273.15", "273.2", "285">>)]

OutNames == <<"soil_moisture_wetting_fronts", "soil_depth_layers", "soil_depth_wetting_fronts", "soil_num_wetting_fronts",
              "precipitation", "potential_evapotranspiration", "actual_evapotranspiration", "surface_runoff", "giuh_runoff",
              "soil_storage", "total_discharge", "infiltration", "percolation", "groundwater_to_stream_recharge",
              "precipitation_rate", "potential_evapotranspiration_rate", "smcmax", "smcmin", "van_genuchten_n", "van_genuchten_alpha",
              "hydraulic_conductivity", "field_capacity", "ponded_depth_max">>

(* index, value pairs for some of the entries 0..k-1, in any order *)
AtSome(k, V(_)) == One({ [i \in 1..(2 * j) |-> IF i % 2 = 1 THEN ToString(p[(i + 1) \div 2]) ELSE V(i)] : p \in {Perm(0..(k - 1))}, j \in {RandomElement(1..k)} })

BmiOp(cf) ==
  LET k == RandomElement(1..12)
      nl == Len(cf.lt)
      nc == Len(cf.z)
  IN IF k <= 5 THEN <<"GET", "0", Pick(OutNames)>>
     ELSE IF k = 6 THEN <<"META", "0">>
     ELSE IF k = 7 THEN <<"TRY", "0", Pick(<<"no_such_variable", "Precipitation_rate", "soil_moisture", "QINSUR", "precipitation_rate_", "soil_storage_model", "van_genuchten_m", "smc", "soil_temperature">>)>>
     ELSE IF k = 8 THEN <<"SET", "0", "precipitation_rate", Pick(Rains[RandomElement(1..4)])>>
     ELSE IF k = 9 THEN (IF nc > 0 THEN <<"SET", "0", "soil_temperature_profile">> \o Temps(nc, RandomElement(1..3))
                         ELSE <<"SETIX", "0", "precipitation_rate", "0", Pick(Rains[RandomElement(1..4)])>>)
     ELSE IF k = 10 THEN (IF nc > 0 THEN <<"SETIX", "0", "soil_temperature_profile">> \o AtSome(nc, LAMBDA j : Pick(<<"270", "273.0", "281">>))
                          ELSE <<"SETIX", "0", "potential_evapotranspiration_rate", "0", Pick(Pets)>>)
     ELSE IF k = 11 THEN One({ <<"SETIX", "0", v>> \o AtSome(nl, LAMBDA j : CalValue(v)) : v \in {Pick(SubSeq(CalNames, 1, 5))} })
     ELSE One({ SetCal(v, nl) : v \in {Pick(CalNames)} })

(* ---------------------------------------------------------------- behaviours *)
Emit(scens) == Serialize(ToJson([fam |-> Fam, scens |-> scens]) \o "\n", IOEnv.OUT,
                         [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0

Init == ph = "config" /\ c = <<>> /\ ops = <<>> /\ n = 0 /\ wx = [m |-> 0, T |-> 1, p |-> <<0, 0>>] /\ st = [ok |-> FALSE]

Configure ==
  /\ ph = "config" /\ ph' = "refine"
  /\ \E p \in {PickDts(0)} :
       /\ c' = IF Fam = "iso" THEN <<[Base0(p[1], p[2]) EXCEPT !.keep = TRUE, !.calib = Pick(<<"true", "false">>)],
                                      One({ [Base0(q[1], q[2]) EXCEPT !.keep = TRUE] : q \in {PickDts(0)} }),
                                      One({ [Base0(q[1], q[2]) EXCEPT !.keep = TRUE, !.calib = "true"] : q \in {PickDts(0)} })>>
               ELSE IF Fam = "again" THEN [k \in 1..2 |-> One({ [Base0(q[1], q[2]) EXCEPT !.keep = TRUE, !.calib = Pick(<<"true", "false">>)] : q \in {PickDts(0)} })]
               ELSE IF Fam = "config" THEN One({ <<Respelled(b)>> : b \in {Base0(p[1], p[2])} })
               ELSE IF Fam = "wet" THEN One({ <<Wet(b)>> : b \in {Base0(p[1], p[2])} })
               ELSE <<Base0(p[1], p[2])>>
       /\ wx' = [m |-> Pick(<<0, 1, 2, 3>>), T |-> RandomElement(1..3), p |-> p]
  /\ UNCHANGED <<ops, n, st>>

Refined ==
  /\ ph = "refine" /\ ph' = "start"
  /\ c' = IF Fam \in {"iso", "again"} THEN c ELSE Refine(c[1], wx.p)
  /\ UNCHANGED <<ops, n, wx, st>>

Start ==
  /\ ph = "start"
  /\ st' = StartModel(c[1])
  /\ ops' = IF Fam = "bmi" THEN << <<"META", "0">> >> ELSE <<>>
  /\ ph' = IF ~ Complete(c[1]) THEN "emit" ELSE "run"
  /\ UNCHANGED <<c, n, wx>>

(* how many Updates of the second instance correspond to one of the first *)
Ratio == Floor((Hours(c[1].fr) \oslash Hours(c[2].fr)) \oplus FromStr("0.5"))

Run ==
  /\ ph = "run" /\ n < NUpd
  /\ \E m \in {NextMode(wx.m)} : \E x1 \in {Weather(m, st.ok /\ Chance(12))} :
     \E x2 \in {IF st.ok THEN Weather(Pick(<<0, 0, 1, 2, 3>>), Chance(30)) ELSE x1} : \E x3 \in {IF st.ok THEN Weather(Pick(<<0, 1, 2, 3, 4>>), Chance(30)) ELSE x1} :
     \E r1 \in {IF st.ok THEN ModelTry(st, x1) ELSE <<>>} : \E guided \in {st.ok /\ Chance(50)} :
     \E r2 \in {IF guided THEN ModelTry(st, x2) ELSE <<>>} : \E r3 \in {IF guided THEN ModelTry(st, x3) ELSE <<>>} :
     \E w \in {IF ~ guided THEN 1
              ELSE LET s1 == Seen(Situation(r1)) s2 == Seen(Situation(r2)) s3 == Seen(Situation(r3))
                   IN IF s1 <= s2 /\ s1 <= s3 THEN 1 ELSE IF s2 <= s3 THEN 2 ELSE 3} :
     \E x \in {<<x1, x2, x3>>[w]} : \E pr \in {x[1]} : \E pet \in {x[2]} : \E r \in {<<r1, r2, r3>>[w]} :
       /\ wx' = [wx EXCEPT !.m = IF w = 1 THEN m ELSE @, !.T = IF Chance(15) THEN RandomElement(1..3) ELSE @]
       /\ st' = ModelStep(st, r)
       /\ IF st.ok THEN Note(Situation(r)) ELSE TRUE
       /\ \E o \in { IF Fam = "twin" THEN << ForceOp(0, pr, pet) >> \o Times(ForceOp(1, pr, pet), Ratio) \o << <<"SAME", "0", "1", "P12", "sum">> >>
                     ELSE IF Fam = "until" THEN
                       One({ << <<"SET", "0", "precipitation_rate", pr>>, <<"SET", "0", "potential_evapotranspiration_rate", pet>>,
                                <<"SET", "1", "precipitation_rate", pr>>, <<"SET", "1", "potential_evapotranspiration_rate", pet>>,
                                <<"REACH", "0", "1", ToString(k[1]), k[2]>>, <<"SAME", "0", "1", "P12", "exact">> >>
                             : k \in {<<RandomElement((IF n = 0 THEN 1 ELSE 0)..(IF Chance(5) THEN 30 ELSE 4)), Pick(<<"0", "0", "0.3", "0.5", "0.999", "0.0001", "0.000001", "-0.5">>)>>} })
                     ELSE IF Fam = "bmi" THEN << BmiOp(c[1]) >> \o (IF Chance(40) THEN << ForceOp(0, pr, pet) >> ELSE <<>>)
                     ELSE IF Fam = "calib" THEN
                       (IF Chance(12) THEN One({ [j \in 1..k |-> One({ SetCal(v, Len(c[1].lt)) : v \in {Pick(CalNames)} })] : k \in {RandomElement(1..4)} })
                                           \o (IF Chance(80) THEN << <<"FLAG", "0", "1">> >> ELSE <<>>) ELSE <<>>)
                       \o << ForceOp(0, pr, pet) >>
                     ELSE IF Fam = "mixed" THEN
                       (IF c[1].sft # "" /\ (n = 0 \/ Chance(15)) THEN << <<"SET", "0", "soil_temperature_profile">> \o Temps(Len(c[1].z), wx.T) >> ELSE <<>>)
                       \o (IF Chance(6) THEN One({ [j \in 1..k |-> One({ SetCal(v, Len(c[1].lt)) : v \in {Pick(CalNames)} })] : k \in {RandomElement(1..3)} })
                                             \o << <<"FLAG", "0", "1">> >> ELSE <<>>)
                       \o (IF Chance(15) THEN << BmiOp(c[1]) >> ELSE <<>>)
                       \o (IF Chance(2) THEN << <<"AGAIN", "0", "0">> >> ELSE <<>>)
                       \o << ForceOp(0, pr, pet) >>
                     ELSE IF Fam = "long" THEN
                       (IF c[1].sft # "" /\ (n = 0 \/ Chance(5)) THEN << <<"SET", "0", "soil_temperature_profile">> \o Temps(Len(c[1].z), wx.T) >> ELSE <<>>)
                       \o (IF Chance(1) THEN << One({ SetCal(v, Len(c[1].lt)) : v \in {Pick(CalNames)} }), <<"FLAG", "0", "1">> >> ELSE <<>>)
                       \o << ForceOp(0, pr, pet) >>
                     ELSE IF Fam = "frozen" THEN
                       (IF n = 0 \/ Chance(30) THEN << <<"SET", "0", "soil_temperature_profile">> \o Temps(Len(c[1].z), wx.T) >> ELSE <<>>) \o << ForceOp(0, pr, pet) >>
                     ELSE IF Fam = "iso" THEN One({ << ForceOp(k - 1, pr, pet) >> : k \in {RandomElement(1..3)} })
                     ELSE IF Fam = "again" THEN
                       One({ IF Chance(12) THEN << <<"AGAIN", ToString(k), ToString(RandomElement(0..1))>> >> \o [j \in 1..3 |-> <<"GET", ToString(k), Pick(OutNames)>>]
                             ELSE << ForceOp(k, pr, pet) >> \o (IF Chance(10) THEN << <<"GET", ToString(k), Pick(OutNames)>> >> ELSE <<>>) : k \in {RandomElement(0..1)} })
                     ELSE << ForceOp(0, pr, pet) >> } : ops' = ops \o o
  /\ n' = n + 1
  /\ UNCHANGED <<ph, c>>

RunEnd == /\ ph = "run" /\ n = NUpd /\ ph' = "emit" /\ UNCHANGED <<c, ops, n, wx, st>>

(* of an instance that was initialized again, the last initialization and what follows *)
RECURSIVE LastFrom(_, _)
LastFrom(s, j) == IF j = 0 THEN 0 ELSE IF s[j][1] = "AGAIN" THEN j ELSE LastFrom(s, j - 1)
OnlyOf(k) == SelectSeq(ops, LAMBDA o : o[2] = ToString(k))
Loud(cf) == [cf EXCEPT !.x.verb = Pick(<<"high", "low">>)]
Write ==
  /\ ph = "emit" /\ ph' = "done"
  /\ LET fin == [k \in 1..Len(c) |-> <<"FIN", ToString(k - 1)>>]
         all == [ins |-> c, ops |-> ops \o fin]
         save == [k \in 1..Len(c) |-> <<"SAVE", ToString(k - 1)>>]
         (* the same calls of one instance, alone in its own process, or with the other verbosity *)
         alone(k) == [ins |-> [j \in 1..Len(c) |-> IF j = k THEN (IF Chance(50) THEN Loud(c[j]) ELSE c[j]) ELSE [c[j] EXCEPT !.table = "unused"]],
                      ops |-> OnlyOf(k - 1) \o << <<"CMP", ToString(k - 1), "P15", "alone">>, <<"FIN", ToString(k - 1)>> >>]
         again == [ins |-> [j \in 1..Len(c) |-> c[j]],
                   ops |-> OnlyOf(2) \o << <<"FIN", "2">> >> \o OnlyOf(1) \o << <<"FIN", "1">> >> \o OnlyOf(0)
                           \o << <<"CMP", "0", "P15", "other order">>, <<"CMP", "1", "P15", "other order">>, <<"CMP", "2", "P15", "other order">>, <<"FIN", "0">> >>]
         at(k) == LastFrom(OnlyOf(k), Len(OnlyOf(k)))
         tail(k) == SubSeq(OnlyOf(k), at(k) + 1, Len(OnlyOf(k)))
         lastc(k) == IF at(k) = 0 THEN c[k + 1] ELSE IF OnlyOf(k)[at(k)][3] = "0" THEN c[1] ELSE c[2]
         fresh == [ins |-> <<lastc(0), lastc(1)>>,
                   ops |-> tail(0) \o tail(1) \o << <<"CMP", "0", "P15", "initialized again">>, <<"CMP", "1", "P15", "initialized again">> >> \o fin]
     IN Emit(IF Fam = "again" THEN << [ins |-> c, ops |-> ops \o save \o fin], fresh >>
             ELSE IF Fam = "iso" THEN << [ins |-> c, ops |-> ops \o save \o fin], alone(1), alone(2), alone(3), again >>
             ELSE IF Fam = "csv" THEN << [ins |-> c, ops |-> ops \o << <<"CSV", "0", Pick(<<"0", "1", "5", "25">>), Pick(<<"\n", "">>), Pick(<<"", "", ",7.5", ",1,2">>)>> >> \o fin] >>
             ELSE << all >>)
  /\ UNCHANGED <<c, ops, n, wx, st>>

Next == Configure \/ Refined \/ Start \/ Run \/ RunEnd \/ Write
Spec == Init /\ [][Next]_vars
=============================================================================
