------------------------------- MODULE Fronts -------------------------------
(***************************************************************************)
(* The wetting-front profile and how one model timestep transforms it.     *)
(*                                                                         *)
(* A profile is a sequence of fronts, from the surface down.  A front is   *)
(*   d depth of its lower end [cm]   t water content   p capillary head    *)
(*   k conductivity  z speed dZ/dt [cm/h]   l soil layer                   *)
(*   b 1 if it fills its layer down to the bottom, 0 if it moves           *)
(* Within a layer water content decreases downwards; the last front of     *)
(* every layer is a "bottom" front; a front of layer l > 1 extends to the  *)
(* surface with the same head, so the bottom fronts above it carry its     *)
(* head.                                                                   *)
(*                                                                         *)
(* e is the environment of a step: nl, cum (depths of the layer bottoms),  *)
(* soil (one per layer), ff (frozen factor per layer), closed (closed-form *)
(* capillary drive), fc, wp (field capacity and wilting point heads),      *)
(* pmax (maximum ponded depth).                                            *)
(***************************************************************************)
EXTENDS Soil, FiniteSets, TLC

Base(e, l)      == IF l = 1 THEN N0 ELSE e.cum[l - 1]
Thickness(e, l) == e.cum[l] \ominus Base(e, l)
SoilOf(e, f)    == e.soil[f.l]
SameLayer(F, i) == i < Len(F) /\ F[i].l = F[i + 1].l
RemoveAt(F, i)  == SubSeq(F, 1, i - 1) \o SubSeq(F, i + 1, Len(F))

(* water held by the profile [cm] *)
Mass(e, F) ==
  SumSeq([i \in 1..Len(F) |->
    (F[i].d \ominus Base(e, F[i].l)) \otimes (IF SameLayer(F, i) THEN F[i].t \ominus F[i + 1].t ELSE F[i].t)])
MaxMass(e) == SumSeq([l \in 1..e.nl |-> e.soil[l].te \otimes Thickness(e, l)])

(* The front that takes infiltration and evapotranspiration: the topmost one that moves, or the deepest one. *)
RECURSIVE FreeDrainFrom(_, _)
FreeDrainFrom(F, i) == IF i >= Len(F) \/ SameLayer(F, i) THEN i ELSE FreeDrainFrom(F, i + 1)
FreeDrain(F) == FreeDrainFrom(F, 1)

(***************************************************************************)
(* Interactions between fronts.                                            *)
(***************************************************************************)
(* A front that has passed the moving front below it absorbs it; the water of the two is kept. *)
RECURSIVE MergeFrom(_, _, _)
MergeFrom(e, F, i) ==
  IF i >= Len(F) THEN F
  ELSE IF SameLayer(F, i) /\ F[i + 1].b = 0 /\ Lt(F[i + 1].d, F[i].d)
  THEN LET c == F[i]
           n == F[i + 1]
           w == F[i + 2]
           d == ((c.d \otimes (c.t \ominus n.t)) \oplus (n.d \otimes (n.t \ominus w.t))) \oslash (c.t \ominus w.t)
       IN MergeFrom(e, RemoveAt([F EXCEPT ![i].d = d, ![i].p = PsiAt(c.t, SoilOf(e, c))], i + 1), i)
  ELSE MergeFrom(e, F, i + 1)
Merge(e, F) == MergeFrom(e, F, 1)

(* A front that has passed the bottom of its layer becomes a moving front of the next layer with the same head,
   as deep as its overshoot of water requires; the layer it left is filled to its bottom. *)
RECURSIVE CrossFrom(_, _, _)
CrossFrom(e, F, i) ==
  IF i >= Len(F) THEN F
  ELSE LET c == F[i]
           n == F[i + 1]
       IN IF c.l # e.nl /\ Lt(e.cum[c.l], c.d) /\ EqD(n.d, e.cum[c.l])
          THEN LET s  == SoilOf(e, c)
                   p  == PsiAt(c.t, s)
                   t2 == Theta(p, e.soil[c.l + 1])
                   z  == ((c.d \ominus n.d) \otimes (Min(s.te, c.t) \ominus n.t)) \oslash (t2 \ominus F[i + 2].t)
                   zz == IF IsInf(z) THEN e.cum[c.l + 1] \oslash FromInt(1000) ELSE z
               IN CrossFrom(e, [F EXCEPT ![i] = [c EXCEPT !.d = e.cum[c.l], !.p = p, !.z = N0, !.b = 1],
                                         ![i + 1] = [n EXCEPT !.t = t2, !.p = p, !.d = e.cum[c.l] \oplus zz, !.l = c.l + 1,
                                                              !.z = c.z, !.b = 0]], i + 1)
          ELSE CrossFrom(e, F, i + 1)
Cross(e, F) == CrossFrom(e, F, 1)

(* The deepest moving front leaves through the bottom of the column: the overshoot is percolation. *)
LeavesDomain(e, F) == Len(F) > 1 /\ Leq(e.cum[e.nl], F[Len(F) - 1].d)
DomainFlux(e, F) ==
  IF LeavesDomain(e, F)
  THEN LET c == F[Len(F) - 1]
           n == F[Len(F)]
       IN (c.t \ominus n.t) \otimes (c.d \ominus n.d)
  ELSE N0
CrossDomain(e, F) ==
  IF LeavesDomain(e, F)
  THEN LET c == F[Len(F) - 1]
           q == Len(F)
       IN RemoveAt([F EXCEPT ![q].t = c.t, ![q].p = PsiAt(c.t, SoilOf(e, c))], q - 1)
  ELSE F

(* A front drier than the one below it in its layer disappears; the water this adds to or takes from the profile
   is accounted for in evapotranspiration (r.mc). *)
DryOverWet(F) == \E i \in 1..Len(F) : SameLayer(F, i) /\ Leq(F[i].t, F[i + 1].t)
RECURSIVE Lead(_, _, _)
Lead(F, l, j) == IF F[j].l < l THEN Lead(F, l, j + 1) ELSE j - 1
RECURSIVE FixDryFrom(_, _, _)
FixDryFrom(e, r, i) ==
  LET F == r.F
  IN IF i >= Len(F) THEN r
     ELSE IF SameLayer(F, i) /\ Leq(F[i].t, F[i + 1].t)
     THEN LET l  == F[i].l
              G  == RemoveAt(F, i)
              p  == PsiAt(G[i].t, e.soil[l])
              j  == Lead(G, l, 1)
              H  == IF l = 1 THEN G
                    ELSE [q \in 1..Len(G) |-> IF q <= j THEN [G[q] EXCEPT !.p = p, !.t = Theta(p, e.soil[G[q].l])]
                                              ELSE IF q = i THEN [G[q] EXCEPT !.p = p] ELSE G[q]]
          IN FixDryFrom(e, [r EXCEPT !.F = H, !.mc = @ \oplus Abs(Mass(e, H) \ominus Mass(e, F)),
                                     !.ev = @ \cup {IF l = 1 THEN "dryfix" ELSE "dryfixdeep"}], i + 1)
     ELSE FixDryFrom(e, r, i + 1)
FixDry(e, r) == IF DryOverWet(r.F) THEN FixDryFrom(e, r, 1) ELSE r

Overlap(F) == \E i \in 1..Len(F) : SameLayer(F, i) /\ Lt(F[i + 1].d, F[i].d)

DoMerge(e, r)  == LET G == Merge(e, r.F) IN [r EXCEPT !.F = G, !.ev = IF Len(G) # Len(r.F) THEN @ \cup {"merge"} ELSE @]
DoCross(e, r)  == LET G == Cross(e, r.F)
                  IN [r EXCEPT !.F = G, !.ev = IF G # r.F THEN @ \cup {"cross"} ELSE @]
DoDomain(e, r) == [r EXCEPT !.F = CrossDomain(e, r.F), !.flux = @ \oplus DomainFlux(e, r.F),
                            !.ev = IF LeavesDomain(e, r.F) THEN @ \cup {"percolate"} ELSE @]

RECURSIVE Untangle(_, _, _)
Untangle(e, r, n) ==
  IF n = 0 \/ ~ Overlap(r.F) THEN r
  ELSE Untangle(e, DoDomain(e, DoMerge(e, FixDry(e, DoCross(e, DoMerge(e, r))))), n - 1)

(***************************************************************************)
(* Motion.  r carries the step's working state: F, aet (what evapotrans-   *)
(* piration takes), flux (percolation), mc (water moved by FixDry), irr    *)
(* (numerical corner cases met, see NOTE), ev (what happened), w (infil-   *)
(* trated water), dt, m0 (storage before the step), F0 (profile before).   *)
(* NOTE: the code's searches give up in some extreme states; what it does  *)
(* then is not specified further than the invariants, and irr says so.     *)
(***************************************************************************)
Clamp(x, s) == Max(s.tr, Min(x, s.te))

(* water content of front i such that the column above it, at its head, holds prior + w - aet *)
RootTheta(e, r, i, prior, thick, below, zeroAet) ==
  LET f    == r.F[i]
      s    == SoilOf(e, f)
      root == MassRoot(prior, thick, below, SubSeq(e.soil, 1, f.l))
      t    == Clamp(Theta(root.psi, s), s)
      full == root.kind = "sat" \/ Leq(s.te, t \oplus FromStr("1e-15"))
  IN [r EXCEPT !.F = [@ EXCEPT ![i].t = t, ![i].p = PsiAt(t, s)],
               !.aet = IF full /\ zeroAet THEN N0 ELSE @,
               !.ev  = IF full THEN @ \cup {"full"} ELSE @,
               !.irr = IF root.kind = "dry" THEN @ \cup {"dry"} ELSE @]

MoveOne(e, r, i, fd, zeroAet) ==
  LET F == r.F
      f == F[i]
      s == SoilOf(e, f)
      N == Len(F)
      inp == IF fd = i THEN r.w \ominus r.aet ELSE N0
      d2 == f.d \oplus (f.z \otimes r.dt)
      L == f.l
  IN IF i < N /\ F[i + 1].l # L
     THEN (* bottom front of a layer: takes the head of the layer below *)
          [r EXCEPT !.F = [@ EXCEPT ![i].p = F[i + 1].p, ![i].t = Theta(F[i + 1].p, s)]]
     ELSE IF i = N
     THEN IF N # e.nl THEN r      \* the background below moving fronts does not change
          ELSE LET prior == SumSeq([k \in 1..L |-> IF k = L THEN (r.F0[i].d \ominus Base(e, L)) \otimes r.F0[i].t
                                                   ELSE Thickness(e, k) \otimes Theta(r.F0[i].p, e.soil[k])]) \oplus inp
                   thick == [k \in 1..L |-> IF k = L THEN d2 \ominus Base(e, L) ELSE Thickness(e, k)]
               IN RootTheta(e, r, i, prior, thick, [k \in 1..L |-> N0], zeroAet)
     ELSE IF L = 1
     THEN LET prior == (r.F0[i].d \otimes (r.F0[i].t \ominus r.F0[i + 1].t)) \oplus inp
              d  == Min(d2, e.cum[e.nl])
              t  == (prior \oslash d) \oplus F[i + 1].t
              tc == Clamp(t, s)
          IN IF EqD(f.z, N0) THEN [r EXCEPT !.irr = @ \cup {"still"}]
             ELSE IF Lt(t, s.tr) THEN [r EXCEPT !.irr = @ \cup {"residual"}]
             ELSE [r EXCEPT !.F = [@ EXCEPT ![i].d = d, ![i].t = tc, ![i].p = PsiAt(tc, s)]]
     ELSE LET old == r.F0
              prior == SumSeq([k \in 1..L |->
                         IF k = L THEN (old[i].d \ominus Base(e, L)) \otimes (old[i].t \ominus old[i + 1].t)
                         ELSE Thickness(e, k) \otimes (Theta(old[i].p, e.soil[k]) \ominus Theta(old[i + 1].p, e.soil[k]))]) \oplus inp
              thick == [k \in 1..L |-> IF k = L THEN d2 \ominus Base(e, L) ELSE Thickness(e, k)]
              below == [k \in 1..L |-> IF k = L THEN F[i + 1].t ELSE Theta(F[i + 1].p, e.soil[k])]
          IN RootTheta(e, [r EXCEPT !.F = [@ EXCEPT ![i].d = d2]], i, prior, thick, below, zeroAet)

RECURSIVE MoveAll(_, _, _, _, _)
MoveAll(e, r, i, fd, zeroAet) == IF i = 0 \/ r.irr # {} THEN r ELSE MoveAll(e, MoveOne(e, r, i, fd, zeroAet), i - 1, fd, zeroAet)

(* FINDING "headlost": when the water content of the deepest layer is saturated to the last digit at a small positive head,
   the head is lost; the layers above are then filled up, and the water this adds is taken as (negative) percolation. *)
(* A saturated front that took more water than its pores hold grows deeper until the water fits. *)
SaturatedDepth(e, r) ==
  LET F  == r.F
      fd == FreeDrain(F)
      f  == F[fd]
      tgt == (r.m0 \oplus r.w) \ominus r.aet
      err == tgt \ominus Mass(e, F)
  IN IF ~ Lt(Abs(f.t \ominus e.soil[fd].te), FromStr("1e-15")) \/ Leq(Abs(err), FromStr("2e-10")) THEN r
     ELSE IF fd = Len(F)    \* the column is full: it keeps what evapotranspiration cannot take, and what does not fit percolates
     THEN LET a == IF Lt(err, N0) THEN Max(r.aet \oplus err, N0) ELSE r.aet
          IN [r EXCEPT !.aet = a, !.flux = @ \oplus (((r.m0 \oplus r.w) \ominus a) \ominus Mass(e, F)), !.ev = @ \cup {"pinned"} \cup (IF Lt(r.aet \oplus err, N0) THEN {"headlost"} ELSE {})]
     ELSE [r EXCEPT !.F = [@ EXCEPT ![fd].d = f.d \oplus (err \oslash (f.t \ominus F[fd + 1].t))],
                    !.ev = @ \cup {"satdepth"},
                    !.irr = IF Lt(f.t \ominus F[fd + 1].t, FromStr("1e-6")) THEN @ \cup {"flat"} ELSE @]

(* heads are recomputed from water contents where that is well conditioned *)
RefreshPsi(e, F) ==
  [i \in 1..Len(F) |-> IF i < Len(F) /\ Lt(N1, F[i].p) THEN [F[i] EXCEPT !.p = PsiAt(F[i].t, SoilOf(e, F[i]))] ELSE F[i]]

(* The fronts advance dt hours while w enters and aet leaves. *)
Move(e, F, w, aet, dt, zeroAet) ==
  LET r0 == [F |-> F, F0 |-> F, aet |-> aet, flux |-> N0, mc |-> N0, irr |-> {}, ev |-> {}, w |-> w, dt |-> dt, m0 |-> Mass(e, F)]
      r1 == MoveAll(e, r0, Len(F), FreeDrain(F), zeroAet)
      r2 == SaturatedDepth(e, DoCross(e, r1))
      r3 == DoDomain(e, DoMerge(e, FixDry(e, DoCross(e, DoMerge(e, FixDry(e, r2))))))
      r4 == FixDry(e, Untangle(e, r3, Len(F) + e.nl))
      r5 == [r4 EXCEPT !.aet = IF Lt(FromStr("1e-7"), Abs(r4.mc)) THEN @ \ominus r4.mc ELSE @]
      G  == RefreshPsi(e, r5.F)
  IN IF r1.irr # {} \/ r2.irr # {} THEN [r2 EXCEPT !.irr = r1.irr \cup r2.irr]
     ELSE [r5 EXCEPT !.F = IF Len(G) = 1 THEN [G EXCEPT ![1].d = e.cum[1]] ELSE G]

(***************************************************************************)
(* Speeds.  hp is the head of ponded water.                                *)
(***************************************************************************)
Speed(e, F, i, hp) ==
  LET f  == F[i]
      s  == SoilOf(e, f)
      L  == f.l
      dth == f.t \ominus F[i + 1].t
      g  == Geff(e.closed, F[i + 1].t, f.t, s)
      ks == s.ks \otimes e.ff[L]
      kf == KAt(f.t, s, e.ff[L])
      drive == (ks \otimes (g \oplus hp)) \oslash f.d
      resist == SumSeq([k \in 1..L |-> IF k = L THEN (f.d \ominus Base(e, L)) \oslash kf
                                       ELSE Thickness(e, k) \oslash KAt(Theta(f.p, e.soil[k]), e.soil[k], e.ff[k])])
      v  == IF ~ Lt(N0, dth) THEN N0
            ELSE IF L = 1 THEN (N1 \oslash dth) \otimes (drive \oplus kf)
            ELSE (N1 \oslash dth) \otimes ((f.d \oslash resist) \oplus drive)
  IN Min(IF EqD(v, N0) THEN FromStr("1e-9") ELSE v, FromStr("1e4"))

WithSpeeds(e, F, hp) ==
  [i \in 1..Len(F) |->
    LET f == [F[i] EXCEPT !.k = KAt(F[i].t, SoilOf(e, F[i]), e.ff[F[i].l])]
    IN IF i = Len(F) THEN f
       ELSE IF f.b = 1 THEN [f EXCEPT !.z = N0]
       ELSE [f EXCEPT !.z = Speed(e, F, i, hp)]]

(***************************************************************************)
(* Water entering the soil.                                                *)
(***************************************************************************)
(* actual evapotranspiration demand [cm]: S-shaped reduction of PET with the head at the surface *)
AetLaw(e, F, petRate, dt) ==
  LET s   == SoilOf(e, F[1])
      tfc == Theta(e.fc, s)
      twp == Theta(e.wp, s)
      p50 == PsiAt((tfc \ominus twp) \oslash N2 \oplus twp, s)
      a   == (petRate \otimes (N1 \oslash (N1 \oplus Pow(F[1].p \oslash p50, N3)))) \otimes dt
  IN IF ~ Lt(N0, petRate) THEN N0 ELSE Max(N0, Min(a, petRate \otimes dt))

(* infiltration capacity over dt [cm]; pond: water on the surface incl. this step's rain, rain: this step's rain *)
Capacity(e, F, pond, rain, dt, aet) ==
  LET hp == Max(pond \ominus rain, N0)
      i  == FreeDrain(F)
      f  == F[i]
      L  == f.l
      s  == e.soil[L]
      one == Len(F) = e.nl
      g  == IF one THEN N0 ELSE Geff(e.closed, F[i + 1].t, s.te, s)
      ks == s.ks \otimes e.ff[L]
      resist == SumSeq([k \in 1..L |-> IF k = L THEN (f.d \ominus Base(e, L)) \oslash ks
                                       ELSE Thickness(e, k) \oslash (e.soil[k].ks \otimes e.ff[k])])
      f1 == IF L = 1 THEN ks \otimes (N1 \oplus ((g \oplus hp) \oslash f.d))
            ELSE (f.d \oslash resist) \oplus (((g \oplus hp) \otimes ks) \oslash f.d)
      f2 == IF L = e.nl /\ one /\ EqD(f.t, e.soil[1].te) THEN Min(f1, aet \oslash dt) ELSE f1
  IN Min(f2, (MaxMass(e) \ominus Mass(e, F)) \oslash dt) \otimes dt

(* split of the surface water into infiltration, ponding and runoff *)
Partition(e, pond, cap) ==
  LET left == Max(pond \ominus cap, N0)
  IN IF Lt(e.pmax, left) THEN [in |-> cap, pond |-> e.pmax, ro |-> left \ominus e.pmax]
     ELSE [in |-> Min(pond, cap), pond |-> pond \ominus Min(pond, cap), ro |-> N0]

(* depth of a new front at the surface *)
DryDepth(e, F, dt) ==
  LET s   == SoilOf(e, F[1])
      tau == (dt \otimes (s.ks \otimes e.ff[F[1].l])) \oslash (s.te \ominus F[1].t)
      g   == Geff(e.closed, F[1].t, s.te, s)
  IN Min(e.cum[F[1].l], FromStr("0.5") \otimes (tau \oplus Sqrt((tau \otimes tau) \oplus (FromInt(4) \otimes tau \otimes g))))

NewFront(e, F, pond, dt) ==
  LET s  == e.soil[1]
      dd == DryDepth(e, F, dt)
      room == dd \otimes (s.te \ominus F[1].t)
      all == Lt(pond, room)
      t  == IF all THEN Min(F[1].t \oplus (pond \oslash dd), s.te) ELSE s.te
      f  == [d |-> dd, t |-> t, p |-> PsiAt(t, s), k |-> N0, z |-> N0, l |-> 1, b |-> 0]
      G  == <<f>> \o F
  IN IF Leq(s.te, F[1].t \oplus FromStr("1e-12"))    \* the top has just become saturated: nothing fits in
     THEN [F |-> F, in |-> N0, pond |-> pond]
     ELSE [F |-> IF Lt(F[1].d, dd) THEN Cross(e, Merge(e, G)) ELSE G,
      in |-> IF all THEN pond ELSE room, pond |-> IF all THEN N0 ELSE pond \ominus room]

(***************************************************************************)
(* One model timestep.  st: F, pond (water ponded), pp (rain of the        *)
(* previous timestep).  rain, pet: rates [cm/h].  ovIn: the infiltration   *)
(* to use instead of the capacity law ("none": use the law), aet: demand.  *)
(***************************************************************************)
Creates(e, st, rain) ==
  /\ EqD(st.pp, N0) /\ Lt(N0, rain)
  /\ Lt(st.F[1].t \oplus FromStr("1e-12"), SoilOf(e, st.F[1]).te)
  /\ ~ Lt(FromStr("1e-12"), st.pond)

Substep(e, st, rate, dt, aet, ovIn, zeroAet) ==
  LET rain  == rate \otimes dt
      pond0 == rain \oplus st.pond
      new   == Creates(e, st, rain)
      mv0   == Move(e, st.F, N0, aet, dt, zeroAet)
      nf    == NewFront(e, mv0.F, pond0, dt)
      cap   == Capacity(e, st.F, pond0, rain, dt, aet)
      part  == Partition(e, pond0, cap)
      in    == IF ~ Lt(N0, pond0) THEN N0 ELSE IF ovIn = <<>> THEN part.in ELSE ovIn[1]
      mv1   == Move(e, st.F, in, aet, dt, zeroAet)
      rest  == Partition(e, nf.pond, N0)
  IN IF new
     THEN [F |-> WithSpeeds(e, nf.F, IF Lt(nf.pond, e.pmax) THEN N0 ELSE e.pmax),
           in |-> nf.in, pond |-> rest.pond, ro |-> rest.ro, aet |-> mv0.aet, perc |-> mv0.flux, new |-> TRUE,
           irr |-> mv0.irr, ev |-> mv0.ev \cup {"create"}, pp |-> rain]
     ELSE LET pq == IF Lt(N0, pond0) THEN part ELSE [in |-> N0, pond |-> pond0, ro |-> N0]
          IN [F |-> WithSpeeds(e, mv1.F, pq.pond),
           in |-> pq.in, pond |-> pq.pond, ro |-> pq.ro, aet |-> mv1.aet, perc |-> mv1.flux, new |-> FALSE,
           irr |-> mv1.irr, ev |-> mv1.ev \cup {IF Lt(N0, pond0) THEN "insert" ELSE "noprecip"}, pp |-> rain]
=============================================================================
