---------------------------- MODULE AvbCreate -----------------------------
(***************************************************************************)
(* What a new object of every class consists of.  Values are tagged: <<    *)
(* "none" >>, << "int", n >>, << "list", seq >>, << "obj", [class, doc,    *)
(* properties...] >> ...; << "any", tag >> stands for a generated value.   *)
(* Objects hold their parts: two objects never share one, so a new object  *)
(* is a tree, and an edit changes one place of one tree.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == << "none" >>
I(n) == << "int", n >>
B(x) == << "bool", x >>
T(s) == << "text", s >>
L(s) == << "list", s >>
Ints(s) == L([j \in 1..Len(s) |-> I(s[j])])
Some(t) == << "any", t >>
Obj(c, d, p) == << "obj", [class |-> c, doc |-> d] @@ p >>
Map(d) == Obj("Attributes", d, [items |-> << "dict", <<>> >>])

Component(d) == [left_bob |-> None, right_bob |-> None, media_kind_id |-> I(0), edit_rate |-> I(25), name |-> None,
  effect_id |-> None, session_attrs |-> None, precomputed |-> None, attributes |-> Map(d)]
Clip(d) == Component(d) @@ [length |-> I(0)]
TrackGroup(d) == Component(d) @@ [mc_mode |-> I(0), length |-> I(0), num_scalars |-> I(0), tracks |-> L(<<>>)]
Media == [mob_kind |-> I(0), locator |-> None, intermediate |-> B(FALSE), physical_media |-> None]
MediaFile == Media @@ [edit_rate |-> I(25), length |-> I(0), is_omfi |-> I(0), data_offset |-> I(0)]
Image == MediaFile @@ [stored_height |-> I(1080), stored_width |-> I(1920), sampled_height |-> I(1080), sampled_width |-> I(1920),
  sampled_x_offset |-> I(0), sampled_y_offset |-> I(0), display_height |-> I(1080), display_width |-> I(1920),
  display_x_offset |-> I(0), display_y_offset |-> I(0), frame_layout |-> I(0), aspect_ratio |-> Ints(<< 16, 9 >>),
  line_map |-> Ints(<< 42, 0 >>), alpha_transparency |-> I(0), uniformness |-> B(FALSE), did_image_size |-> I(108511232),
  next_did_desc |-> None, compress_method |-> << "bytes", << 65, 86, 72, 68 >> >>, resolution_id |-> I(1237),
  image_alignment_factor |-> I(8192)]
Component422 == Image @@ [horizontal_subsampling |-> I(2), vertical_subsampling |-> I(1), component_width |-> I(8), color_sitting |-> I(4),
  black_ref_level |-> I(16), white_ref_level |-> I(235), color_range |-> I(255), frame_index_offset |-> I(0)]
Column(title, form, type) == << "dict", << << "title", T(title) >>, << "format", I(form) >>, << "type", I(type) >>, << "hidden", B(FALSE) >> >> >>
Columns == L(<< Column("Color", 105, 51), Column("   ", 0, 200), Column("Name", 20, 201), Column("Creation Date", 102, 12),
  Column("Duration", 100, 4), Column("Drive", 2, 14), Column("IN-OUT", 100, 7), Column("Mark IN", 100, 5), Column("Mark OUT", 100, 6),
  Column("Tracks", 2, 1), Column("Start", 100, 2), Column("Tape", 2, 8), Column("Video", 2, 13), Column("Plug-in", 2, 133),
  Column("TapeID", 2, 50), Column("Audio SR", 2, 11), Column("Comments", 2, 40) >>)
Sift == [method |-> I(1), string |-> T(""), column |-> T("Any")]
View(d) == [attr_count |-> I(1), attr_type |-> I(20), name |-> T("Untitled"), kind |-> T("Bin View"), attributes |-> Map(d),
  format_descriptors |-> L(<<>>), columns |-> Columns]
BinOf(d) == [large_bin |-> B(FALSE), display_mask |-> I(98999), display_mode |-> I(0), sifted |-> B(FALSE), mac_font |-> I(1),
  mac_font_size |-> I(11), mac_image_scale |-> I(5), home_rect |-> Ints(<< 0, 0, 300, 600 >>),
  background_color |-> Ints(<< 45568, 45568, 45568 >>), forground_color |-> Ints(<< 3328, 3328, 3328 >>), ql_image_scale |-> I(6),
  was_iconic |-> B(FALSE), view_setting |-> Obj("BinViewSetting", d, View(d)), uid |-> Some("big"), items |-> L(<<>>), sort_columns |-> L(<<>>),
  sifted_settings |-> L([j \in 1..6 |-> Obj("SiftItem", d, Sift)]), attributes |-> Map(d)]
ItemsOnly == [items |-> L(<<>>)]
Blank == [j \in 1..32 |-> 0]

TrackGroups == { "TrackGroup", "TrackEffect", "PanVolumeEffect", "AudioSuitePluginEffect", "EqualizerMultiBand", "CaptureMask",
  "StrobeEffect", "MotionEffect", "Repeat", "EssenceGroup", "TransitionEffect", "Selector" }
Clips == { "Filler", "Edgecode", "ParamClip", "ControlClip" }
MediaFiles == { "MediaFileDescriptor", "AIFCDescriptor", "ANCDataDescriptor", "DataDescriptor", "MPGADescriptor", "MultiDescriptor",
  "PCMADescriptor", "WaveDescriptor" }
Medias == { "MediaDescriptor", "FilmDescriptor", "NagraDescriptor" }
Images == { "DIDDescriptor", "RGBADescriptor" }
Subsampled == { "CDCIDescriptor", "JPEGDescriptor", "MPGIDescriptor" }
\* classes whose objects start without any property
Bare == { "ASPIPluginChunk", "BOBPosition", "BinRef", "CFUserParam", "ColorCorrectionEffect", "ControlPoint", "ControlPointProperty",
  "DIDPosition", "EffectParam", "EffectParamList", "EqualizerBand", "GraphicEffect", "MPGPosition", "MSMLocator", "MacFileLocator", "Marker",
  "MobRef", "ParamControlPoint", "ParamControlPointProperty", "ParameterItem", "Position", "ShapeList", "Track", "TrackerData",
  "TrackerDataSlot", "TrackerManager", "TrackerParameter", "TrackerParameterSlot", "URLLocator", "WinFileLocator" }
Components == TrackGroups \cup Clips \cup { "Composition", "Sequence", "SourceClip", "Timecode", "TrackRef" }

Kinds == [nothing |-> 0, picture |-> 1, sound |-> 2, timecode |-> 3, edgecode |-> 4, attribute |-> 5, effectdata |-> 6,
          DescriptiveMetadata |-> 7, DataEssenceTrack |-> 16]
MobTypes == [CompositionMob |-> 1, MasterMob |-> 2, SourceMob |-> 3]

Parts(c, d) ==
  CASE c \in TrackGroups -> TrackGroup(d)
    [] c \in Clips -> Clip(d)
    [] c = "Sequence" -> Component(d) @@ [components |-> L(<<>>)]
    [] c = "SourceClip" -> Clip(d) @@ [track_id |-> I(0), start_time |-> I(0), mob_id |-> << "mobid", Blank >>]
    [] c = "Timecode" -> Clip(d) @@ [flags |-> I(0), fps |-> I(25), start |-> I(0)]
    [] c = "TrackRef" -> Clip(d) @@ [relative_scope |-> I(0), relative_track |-> I(-1)]
    [] c = "Composition" -> [name |-> T("Mob")] @@ TrackGroup(d) @@ [last_modified |-> Some("date"), mob_type_id |-> I(2), usage_code |-> I(0),
         descriptor |-> None, mob_id |-> Some("mobid"), creation_time |-> Some("date")]
    [] c \in MediaFiles -> MediaFile
    [] c \in Medias -> Media
    [] c = "TapeDescriptor" -> Media @@ [cframe |-> I(0)]
    [] c \in Images -> Image
    [] c \in Subsampled -> Component422
    [] c = "Bin" -> BinOf(d)
    [] c = "BinFirst" -> BinOf(d) @@ [unknown_s32 |-> I(0)]
    [] c = "BinViewSetting" -> View(d)
    [] c = "BinItem" -> [x |-> I(-30000), y |-> I(-30000), keyframe |-> I(0), user_placed |-> B(TRUE)]
    [] c = "SiftItem" -> Sift
    [] c = "ASPIPlugin" -> [chunks |-> L(<<>>)]
    [] c = "Attributes" -> [items |-> << "dict", <<>> >>]
    [] c \in { "ParameterList", "TimeCrumbList", "AVBRefList" } -> ItemsOnly
    [] OTHER -> [x \in {} |-> 0]
\* arguments of the call: edit_rate and media_kind of components, name and mob_type of mobs
Given(c, a) ==
  (IF c = "Composition" THEN (IF "name" \in DOMAIN a THEN [name |-> T(a.name)] ELSE [x \in {} |-> 0])
                             @@ (IF "mob_type" \in DOMAIN a THEN [mob_type_id |-> I(MobTypes[a.mob_type])] ELSE [x \in {} |-> 0])
   ELSE IF c \in Components THEN (IF "edit_rate" \in DOMAIN a THEN [edit_rate |-> I(a.edit_rate)] ELSE [x \in {} |-> 0])
                             @@ (IF "media_kind" \in DOMAIN a THEN [media_kind_id |-> I(Kinds[a.media_kind])] ELSE [x \in {} |-> 0])
   ELSE [x \in {} |-> 0])
New(c, d, a) == Obj(c, d, Given(c, a) @@ Parts(c, d))

RECURSIVE Match(_, _)
Match(m, g) ==
  IF m[1] = "any" THEN g[1] = m[2]
  ELSE IF m[1] # g[1] THEN FALSE
  ELSE CASE m[1] = "obj" -> /\ DOMAIN m[2] = DOMAIN g[2] /\ m[2].class = g[2].class /\ m[2].doc = g[2].doc
                            /\ \A x \in DOMAIN m[2] \ { "class", "doc" } : Match(m[2][x], g[2][x])
         [] m[1] = "list" -> Len(m[2]) = Len(g[2]) /\ \A j \in 1..Len(m[2]) : Match(m[2][j], g[2][j])
         [] m[1] = "dict" -> Len(m[2]) = Len(g[2]) /\ \A j \in 1..Len(m[2]) : m[2][j][1] = g[2][j][1] /\ Match(m[2][j][2], g[2][j][2])
         [] OTHER -> m = g

(***************************************************************************)
(* Edits: at the place a path leads to (steps [at, s, n]: a property, a    *)
(* place in a list, a key), put a value, add one at the end of a list, or  *)
(* take out the last.                                                      *)
(***************************************************************************)
RECURSIVE Edit(_, _, _)
KeyOf(ps, s) == LET K == { j \in 1..Len(ps) : ps[j][1] = s } IN IF K = {} THEN 0 ELSE CHOOSE j \in K : TRUE
Edit(t, path, e) ==
  IF path = <<>> THEN
    CASE e.how = "put" -> e.v
      [] e.how = "append" -> << "list", Append(t[2], e.v) >>
      [] e.how = "drop" -> << "list", SubSeq(t[2], 1, Len(t[2]) - 1) >>
      [] e.how = "byte" -> << t[1], [t[2] EXCEPT ![e.n] = e.b] >>
  ELSE LET p == path[1] q == Tail(path) IN
    CASE p.at = "prop" -> << "obj", IF p.s \in DOMAIN t[2] THEN [t[2] EXCEPT ![p.s] = Edit(@, q, e)] ELSE t[2] @@ (p.s :> e.v) >>
      [] p.at = "place" -> << "list", [t[2] EXCEPT ![p.n] = Edit(@, q, e)] >>
      [] p.at = "key" -> LET k == KeyOf(t[2], p.s) IN
           << "dict", IF k = 0 THEN Append(t[2], << p.s, e.v >>) ELSE [t[2] EXCEPT ![k] = << p.s, Edit(@[2], q, e) >>] >>
=============================================================================
