---------------------------- MODULE MC_Daylight -----------------------------
(***************************************************************************)
(* A traveller going north and south while the days pass.  The day length  *)
(* follows the sun's side of the equator, which changes at two equinoxes.  *)
(***************************************************************************)
EXTENDS Meteo, TraceIO, IOUtils
CONSTANTS HalfLats, Step, LastDay
LSeq == SetToSeqInt(HalfLats \union {-l : l \in HalfLats})
VARIABLES day, at, sun     \* day of the year, place in LSeq, side of the sun ("n", "s")
vars == <<day, at, sun>>
Init == day = 1 /\ at = 1 /\ sun = "s"
Tomorrow == day + Step <= LastDay /\ day' = day + Step /\ UNCHANGED at
            /\ sun' = (IF day' < 81 THEN "s" ELSE IF day' <= 263 THEN "n" ELSE "s")
North == at < Len(LSeq) /\ at' = at + 1 /\ UNCHANGED <<day, sun>>
Spec == Init /\ [][Tomorrow \/ North]_vars
L == LSeq[at]
D(l) == MaxDaylight(day, l)
SideInv == sun = (IF RLt(0, Declination(day)) THEN "n" ELSE "s")
SymmetryInv == IF RIsNaN(D(L)) THEN RIsNaN(D(-L)) ELSE RLe(RAbs(RSub(24, RAdd(D(L), D(-L)))), "1e-25")
RangeInv == RIsNaN(D(L)) \/ (RLe(0, D(L)) /\ RLe(D(L), 24))
(* half a day at the equator, more than that on the sun's side              *)
HalfInv == /\ L = 0 => RLe(RAbs(RSub(D(0), 12)), "1e-25")
           /\ (L # 0 /\ ~RIsNaN(D(L))) => (RLt(12, D(L)) <=> (L > 0) = (sun = "n"))
(* polar day and night only beyond the polar circles (66.57 degrees)         *)
PolarInv == RIsNaN(D(L)) => (L >= 66 \/ L <= -66)
(* going north, days get longer while the sun is north                        *)
NorthProp == [][(North /\ ~RIsNaN(D(L)) /\ ~RIsNaN(MaxDaylight(day, LSeq[at + 1]))) =>
                 IF sun = "n" THEN RLt(D(L), MaxDaylight(day, LSeq[at + 1]))
                 ELSE RLt(MaxDaylight(day, LSeq[at + 1]), D(L))]_vars
EmitCase == Emit(IOEnv.VP_CASES, [kind |-> "day", day |-> day, lat |-> L])
=============================================================================
