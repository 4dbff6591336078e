----------------------------- MODULE SelfTest ------------------------------
(***************************************************************************)
(* Evaluates the soil operators at a grid of points.  tools/selftest.py    *)
(* runs this with and without java/Soil.java and compares the results, so  *)
(* that the overrides compute what the definitions in Soil.tla say.        *)
(***************************************************************************)
EXTENDS Soil, TLC, Json, IOUtils
Soils == << Derived(FromStr("0.06"), FromStr("0.4"), FromStr("0.01"), FromStr("1.47"), FromStr("0.504")),
            Derived(FromStr("0.05"), FromStr("0.38"), FromStr("0.04"), FromStr("3.18"), FromStr("26.64")),
            Derived(FromStr("0.1"), FromStr("0.46"), FromStr("0.0057"), FromStr("1.13"), FromStr("0.06")) >>
Heads == <<"0", "1e-11", "1e-6", "0.01", "0.7", "3", "12.5", "100", "340.9", "2000", "15495", "1e6">>
Sats  == <<"1", "0.999999", "0.98", "0.8", "0.5", "0.2", "0.03", "0.001">>
At(x, s) == s.tr \oplus (FromStr(x) \otimes (s.te \ominus s.tr))
All == [i \in 1..3 |-> LET s == Soils[i] IN
  << [j \in 1..Len(Heads) |-> <<Theta(FromStr(Heads[j]), s), SeOfPsi(FromStr(Heads[j]), s)>>],
     [j \in 1..Len(Sats) |-> <<PsiOf(FromStr(Sats[j]), s), KOf(FromStr(Sats[j]), s, N1), SeOf(At(Sats[j], s), s)>>],
     [j \in 2..5 |-> << Geff(TRUE, At(Sats[j + 1], s), At(Sats[j], s), s), Geff(FALSE, At(Sats[j + 1], s), At(Sats[j], s), s) >>],
     DriveIntegral(At("0.5", s), At("0.98", s), s),
     [j \in 1..5 |-> LET r == MassRoot(FromStr(<<"0.4", "1.5", "3.0", "5.1", "40">>[j]), <<FromInt(3), FromInt(9)>>, <<s.tr, N0>>, <<s, Soils[(i % 3) + 1]>>)
                     IN <<r.psi, r.kind>>] >>]
ASSUME JsonSerialize(IOEnv.OUT, All)
VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
=============================================================================
