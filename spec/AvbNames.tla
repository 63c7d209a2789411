------------------------------ MODULE AvbNames ------------------------------
(***************************************************************************)
(* The named views of an object: what its stored codes are called, which   *)
(* of its parts they stand for.  A view is a function of the stored record *)
(* alone: whatever was done before, it is what the codes say now.          *)
(***************************************************************************)
EXTENDS AvbBin, AvbParamNames

Named(tab, n, other) == LET t == TLCEval(tab)  k == { j \in 1..Len(t) : t[j][1] = n } IN IF k = {} THEN other ELSE t[CHOOSE j \in k : TRUE][2]
S16(w) == LET n == BEInt(w) IN IF n > 32767 THEN n - 65536 ELSE n
MobTypes == << << 1, "CompositionMob" >>, << 2, "MasterMob" >>, << 3, "SourceMob" >> >>
Usages == << << 0, "none" >>, << 1, "precompute" >>, << 2, "subclip" >>, << 3, "effect" >>, << 4, "group" >>, << 5, "groupoofter" >>,
             << 6, "motion" >>, << 7, "mastermob" >>, << 9, "precompute_file" >> >>
Interps == << << 2, "ConstantInterp" >>, << 3, "LinearInterp" >>, << 5, "BezierInterpolator" >>, << 6, "CubicInterpolator" >> >>
Types == << << 1, "int" >>, << 2, "double" >>, << 4, "reference" >> >>
PointNames == << << 5, "PP_IN_TANGENT_POS_U" >>, << 6, "PP_IN_TANGENT_VAL_U" >>, << 7, "PP_OUT_TANGENT_POS_U" >>,
                 << 8, "PP_OUT_TANGENT_VAL_U" >>, << 9, "PP_TANGENT_MODE_U" >>, << 14, "PP_BASE_FRAME_U" >> >>
\* a 32 bit code: the large ones have no name
S32Named(t, w, other) == IF w[1] = 0 /\ w[2] = 0 THEN Named(t, BEInt(w), other) ELSE other

Hex == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f" >>
RECURSIVE HexText(_, _)
HexText(b, j) == IF j > Len(b) THEN "" ELSE
  (IF j \in {5, 7, 9, 11} THEN "-" ELSE "") \o Hex[(b[j] \div 16) + 1] \o Hex[(b[j] % 16) + 1] \o HexText(b, j + 1)
ParamName(u) == LET x == HexText(u, 1) IN Named(ParamNames, x, x)

\* tracks: one flag for each part that is there
TrackFlag(t) == LET bit == [j \in 1..Len(TrackFields) |-> IF TrackFields[j][2] \in DOMAIN t THEN 2 ^ TrackFields[j][1] ELSE 0] IN
  LET RECURSIVE Sum(_)
      Sum(j) == IF j > Len(bit) THEN 0 ELSE bit[j] + Sum(j + 1)
  IN Sum(1)
TrackKind(h, t) == IF "component" \notin DOMAIN t THEN "none"
  ELSE LET x == BEInt(t["component"]) IN IF x = 0 \/ x \notin DOMAIN h \/ "media_kind_id" \notin DOMAIN h[x].r THEN "none"
       ELSE KindName(S16(h[x].r["media_kind_id"]))
TrackPart(t) == IF "component" \in DOMAIN t THEN BEInt(t["component"]) ELSE 0

\* points of a curve: names and types of their properties, and the values by name
PPNames(pp) == [j \in 1..Len(pp) |-> << Named(PointNames, S16(pp[j]["code"]), "none"), Named(Types, S16(pp[j]["type"]), "unknown") >>]
PPOf(pp, n) == { j \in 1..Len(pp) : Named(PointNames, S16(pp[j]["code"]), "none") = n }
\* got: pairs name, value; every named property is there, with (one of) its values
ByNameBad(pp, got) ==
  \/ { got[j][1] : j \in 1..Len(got) } # { Named(PointNames, S16(pp[j]["code"]), "none") : j \in 1..Len(pp) } \ {"none"}
  \/ \E j \in 1..Len(got) : ~\E k \in PPOf(pp, got[j][1]) : pp[k]["value"] = got[j][2]
BaseBad(pp, got) == LET k == PPOf(pp, "PP_BASE_FRAME_U") IN
  IF k = {} THEN got # << 0, 0, 0, 0 >> ELSE ~\E j \in k : pp[j]["value"] = got
\* a tangent is a double, a whole number is given as four bytes as well
TangentBad(pp, name, got) == LET k == PPOf(pp, name) IN
  IF k = {} THEN got.w # << 0, 0, 0, 0 >> ELSE ~\E j \in k : pp[j]["value"] \in {got.w, got.d}
TangentNames == << "PP_IN_TANGENT_POS_U", "PP_IN_TANGENT_VAL_U", "PP_OUT_TANGENT_POS_U", "PP_OUT_TANGENT_VAL_U" >>

Wrong(c, s) == IF c THEN << "names: " \o s >> ELSE <<>>
Knows(v, n) == n \in DOMAIN v
\* v: the views the code gave of object x
NamesBad(h, x, v) ==
  LET r == h[x].r IN
  Wrong(Knows(v, "kind") /\ v.kind # KindName(S16(r["media_kind_id"])), "media kind")
  \o Wrong(Knows(v, "mobtype") /\ v.mobtype # Named(MobTypes, BEInt(r["mob_type_id"]), "raises"), "mob type")
  \o Wrong(Knows(v, "usage") /\ v.usage # S32Named(Usages, r["usage_code"], "unknown"), "usage")
  \o Wrong(Knows(v, "interp") /\ v.interp # S32Named(Interps, r["interp_kind"], "unknown"), "interpolation")
  \o Wrong(Knows(v, "vtype") /\ v.vtype # Named(Types, S16(r["value_type"]), "unknown"), "value type")
  \o Wrong(Knows(v, "param") /\ v.param # ParamName(r["uuid"]), "parameter name")
  \o (IF ~Knows(v, "tracks") THEN <<>> ELSE
        Wrong(Len(v.tracks) # Len(r["tracks"]), "tracks")
        \o Wrong(\E j \in 1..Len(r["tracks"]) : j <= Len(v.tracks) /\ v.tracks[j][1] # TrackFlag(r["tracks"][j]), "track flags")
        \o Wrong(\E j \in 1..Len(r["tracks"]) : j <= Len(v.tracks) /\ v.tracks[j][2] # TrackKind(h, r["tracks"][j]), "track media kind"))
  \o (IF ~Knows(v, "parts") THEN <<>> ELSE
        LET ts == r["tracks"] IN
        Wrong(Len(v.parts) # Len(ts) \/ \E j \in 1..Len(ts) : j <= Len(v.parts) /\
                (v.parts[j] = -1 \/ TrackPart(ts[v.parts[j] + 1]) # TrackPart(ts[j])), "components of a selector"))
  \o (IF ~Knows(v, "points") THEN <<>> ELSE
        LET cp == r["control_points"] IN
        IF Len(cp) # Len(v.points) THEN << "names: control points" >> ELSE
        Wrong(\E j \in 1..Len(cp) : v.points[j].names # PPNames(cp[j]["pp"]), "names of point properties")
        \o Wrong(\E j \in 1..Len(cp) : ByNameBad(cp[j]["pp"], v.points[j].byname), "point properties by name")
        \o Wrong(\E j \in 1..Len(cp) : BaseBad(cp[j]["pp"], v.points[j].base), "base frame")
        \o Wrong(\E j \in 1..Len(cp) : \E k \in 1..4 : TangentBad(cp[j]["pp"], TangentNames[k], v.points[j].tangents[k]), "tangents"))
=============================================================================
