-------------------------------- MODULE Soil --------------------------------
(***************************************************************************)
(* Soil hydraulics of LASAM.  A soil is a record                           *)
(*   tr  residual water content       te  saturated water content          *)
(*   a   van Genuchten alpha [1/cm]   n, m = 1 - 1/n  van Genuchten shape  *)
(*   ks  saturated conductivity [cm/h]                                     *)
(*   lam, pb   Brooks-Corey lambda and psi_b [cm], derived from n and a    *)
(*   hm  effective capillary drive limit [cm], derived                     *)
(* all of them numbers of module Dbl.                                      *)
(*                                                                         *)
(* Theta, SeOfPsi, SeOf, PsiOf, KOf, Geff and MassRoot are evaluated by    *)
(* TLC through java/Soil.java when that class is on the class path; the    *)
(* definitions here are the meaning (self test: tools/selftest.py runs     *)
(* TLC with and without it and compares).                                  *)
(***************************************************************************)
EXTENDS Dbl

(* retention curve: water content at capillary head psi >= 0 *)
Theta(psi, s) == IF EqD(psi, N0) THEN s.te ELSE (N1 \oslash Pow(N1 \oplus Pow(s.a \otimes psi, s.n), s.m)) \otimes (s.te \ominus s.tr) \oplus s.tr

(* effective saturation *)
SeOf(th, s) == (th \ominus s.tr) \oslash (s.te \ominus s.tr)
SeOfPsi(psi, s) == IF Lt(psi, FromStr("1e-10")) THEN N1
                   ELSE N1 \oslash Pow(N1 \oplus Pow(s.a \otimes psi, s.n), s.m)

(* capillary head at effective saturation se: the inverse of the retention curve *)
PsiOf(se, s) == (N1 \oslash s.a) \otimes Pow(Pow(se, FromInt(-1) \oslash s.m) \ominus N1, N1 \oslash s.n)
PsiAt(th, s) == PsiOf(SeOf(th, s), s)

(* Mualem - van Genuchten conductivity; ff is the frozen-soil factor *)
KOf(se, s, ff) == (s.ks \otimes ff) \otimes Sqrt(se)
                  \otimes Pow(N1 \ominus Pow(N1 \ominus Pow(se, N1 \oslash s.m), s.m), N2)
KAt(th, s, ff) == KOf(SeOf(th, s), s, ff)

(* parameters derived from n and alpha (Morel-Seytoux et al. 1996) *)
Derived(tr, te, a, n, ks) ==
  LET m   == N1 \ominus (N1 \oslash n)
      p   == N1 \oplus (N2 \oslash m)
      lam == N2 \oslash (p \ominus N3)
      pb  == ((p \oplus N3) \otimes (FromStr("147.8") \oplus FromStr("8.1") \otimes p \oplus FromStr("0.092") \otimes p \otimes p))
             \oslash (N2 \otimes a \otimes p \otimes (p \ominus N1) \otimes (FromStr("55.6") \oplus FromStr("7.4") \otimes p \oplus p \otimes p))
      q   == N3 \oslash lam
  IN [tr |-> tr, te |-> te, a |-> a, n |-> n, m |-> m, ks |-> ks, lam |-> lam, pb |-> pb,
      hm |-> pb \otimes ((N2 \oplus q) \oslash (N1 \oplus q))]

(***************************************************************************)
(* Effective capillary drive G between water contents t1 (below) and t2.   *)
(* Closed form: Brooks-Corey.  Otherwise the integral of K(h)/Ks between   *)
(* the two heads by the model's adaptive trapezoidal rule: the panel width *)
(* dh starts at 1e-2/120 of the range, is halved while K changes by more   *)
(* than 2 percent over a panel and is multiplied by ten otherwise.         *)
(***************************************************************************)
RECURSIVE GeffPanels(_, _, _, _, _, _)
GeffPanels(h2, hi, dh, k1, acc, s) ==
  IF ~ Lt(h2, hi) THEN acc
  ELSE LET k2  == KOf(SeOfPsi(h2, s), s, N1)
           dh2 == IF Lt(FromStr("0.02"), (k1 \ominus k2) \oslash k2) THEN dh \otimes FromStr("0.5") ELSE dh \otimes FromInt(10)
       IN GeffPanels(h2 \oplus dh2, hi, dh2, k2, acc \oplus ((k1 \oplus k2) \otimes (dh2 \oslash N2)), s)

Geff(closed, t1, t2, s) ==
  IF closed
  THEN LET sf == SeOf(t1, s)
           si == SeOf(t2, s)
           hc == s.pb \otimes ((N2 \oplus (N3 \otimes s.lam)) \oslash (N1 \oplus (N3 \otimes s.lam)))
           x  == N3 \oplus (N1 \oslash s.lam)
           g  == (hc \otimes (Pow(si, x) \ominus Pow(sf, x))) \oslash (N1 \ominus Pow(sf, x))
       IN IF IsInf(g) \/ IsNaN(g) THEN hc ELSE g
  ELSE LET si == SeOf(t1, s)
           hi == PsiOf(si, s)
           hf == PsiOf(SeOf(t2, s), s)
           dh == ((hi \ominus hf) \oslash FromInt(120)) \otimes FromStr("0.01")
       IN Abs(GeffPanels(hf \oplus dh, hi, dh, KOf(si, s, N1), N0, s) \oslash s.ks)

(* What the drive stands for: the integral of K(h)/Ks between the two heads (trapezoidal rule, panels refined towards the
   smaller head). *)
DriveIntegral(t1, t2, s) ==
  LET hi == PsiOf(SeOf(t1, s), s)
      hf == PsiOf(SeOf(t2, s), s)
      P  == 400
      h(j) == hf \oplus (Pow(FromInt(j) \oslash FromInt(P), N3) \otimes (hi \ominus hf))
      k(j) == KOf(SeOfPsi(h(j), s), s, N1)
  IN SumSeq([j \in 1..P |-> ((k(j - 1) \oplus k(j)) \oslash N2) \otimes (h(j) \ominus h(j - 1))]) \oslash s.ks

(***************************************************************************)
(* The head psi >= 0 at which a column of layers, all at that head, holds  *)
(* the water `mass` above the water contents `below`:                      *)
(*   sum_k thick[k] * (Theta(psi, soils[k]) - below[k]) = mass.            *)
(* The sum decreases with psi.  kind: "ok"; "sat" when the layers cannot   *)
(* hold that much; "dry" when even psi = 1e7 cm leaves more than `mass`.   *)
(* (The code reaches it by an iterative search; the specification only     *)
(* states what is searched for.)                                           *)
(***************************************************************************)
ColumnMass(psi, thick, below, soils) ==
  SumSeq([k \in 1..Len(thick) |-> thick[k] \otimes (Theta(psi, soils[k]) \ominus below[k])])

RECURSIVE Bisect(_, _, _, _, _, _, _)
Bisect(lo, hi, n, mass, thick, below, soils) ==
  LET mid == (lo \oplus hi) \oslash N2
  IN IF n = 0 THEN mid
     ELSE IF Lt(mass, ColumnMass(mid, thick, below, soils)) THEN Bisect(mid, hi, n - 1, mass, thick, below, soils)
     ELSE Bisect(lo, mid, n - 1, mass, thick, below, soils)

MassRoot(mass, thick, below, soils) ==
  LET tol == FromStr("1e-12")
      big == FromStr("1e7")
      psi == Bisect(N0, big, 90, mass, thick, below, soils)
  IN IF Lt(ColumnMass(N0, thick, below, soils) \oplus tol, mass) THEN [psi |-> N0, kind |-> "sat"]
     ELSE IF Lt(mass, ColumnMass(big, thick, below, soils) \ominus tol) THEN [psi |-> big, kind |-> "dry"]
     ELSE [psi |-> psi, kind |-> "ok"]
=============================================================================
