---------------------------- MODULE AvbSchema ----------------------------
(***************************************************************************)
(* The binary layout of every class of object stored in an Avid bin (.avb) *)
(* file, as data.  A class is a sequence of sections (one per class of its *)
(* inheritance chain); a section is a marker 02, a version, fixed items    *)
(* and possibly optional sections (01 tag ...); 03 ends the object.        *)
(* AvbWire interprets this table; the Python harness obtains its field     *)
(* names, types and ranges from this table too (exported as JSON).         *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* ---- items ------------------------------------------------------------
Lit(b)          == [op |-> "lit",   b |-> b]               \* fixed bytes, checked on reading
LitT(t, b)      == [op |-> "litt",  t |-> t, b |-> b]      \* fixed number of type t, checked
Skip(k)         == [op |-> "skip",  k |-> k]               \* k zero bytes, ignored on reading
F(n, t)         == [op |-> "fld",   n |-> n, t |-> t]      \* a property of scalar type t
Tup(n, ts)      == [op |-> "tup",   n |-> n, ts |-> ts]    \* fixed list of scalars
Grid(n, k)      == [op |-> "grid",  n |-> n, k |-> k]      \* k pairs of marked s32 (bounds box)
Refs(n, c)      == [op |-> "refs",  n |-> n, c |-> c]      \* counted list of references
Recs(n, c, i, s)== [op |-> "recs",  n |-> n, c |-> c, items |-> i, shape |-> s]
Data(n, c)      == [op |-> "data",  n |-> n, c |-> c]      \* counted bytes
Raw(n, k)       == [op |-> "raw",   n |-> n, k |-> k]      \* exactly k bytes
LenOf(n, c, a)    == [op |-> "len",   n |-> n, c |-> c, add |-> a] \* length of bytes n, plus a
Body(n)         == [op |-> "body",  n |-> n]               \* the bytes whose Len came before
Ints(n, c)      == [op |-> "ints",  n |-> n, c |-> c]      \* s32 list counted in bytes
Case(n, on, al) == [op |-> "case",  n |-> n, on |-> on, alts |-> al] \* type chosen by s16 field on
Legacy(n, pre)  == [op |-> "legacy", n |-> n, pre |-> pre] \* old 2x32 bit mob id, derived, ignored on reading
Special(k, n)   == [op |-> k, n |-> n]
Ext(tag, need, items) == [tag |-> tag, need |-> need, items |-> items]
\* optional section holding one marked scalar
X(tag, mark, n, t) == Ext(tag, <<n>>, <<Lit(<<mark>>), F(n, t)>>)
XId(tag, n)     == Ext(tag, <<n>>, <<F(n, "mobid")>>)
Sec(v, items, exts) == [v |-> v, items |-> items, exts |-> exts]
S0(v, items)    == Sec(v, items, <<>>)

Rat(n)          == Tup(n, <<"s32", "s32">>)

\* ---- shared sections --------------------------------------------------
CompS == Sec(3, << F("left_bob", "ref"), F("right_bob", "ref"), F("media_kind_id", "s16"),
                   F("edit_rate", "exp10"), F("name", "nstr"), F("effect_id", "nstr"),
                   F("attributes", "ref"), F("session_attrs", "ref"), F("precomputed", "ref") >>,
                << X(1, 72, "param_list", "ref") >>)
ClipS == S0(1, << F("length", "u32") >>)
TrkgS == Sec(8, << F("mc_mode", "u8"), F("length", "s32"), F("num_scalars", "s32"),
                   Special("tracks", "tracks") >>,
                << Ext(1, <<"#tracks">>, << Special("locks", "tracks") >>) >>)
EffectInfo == << F("left_length", "s32"), F("right_length", "s32"), F("info_version", "s16"),
                 F("info_current", "s32"), F("info_smooth", "s32"), F("info_color_item", "s16"),
                 F("info_quality", "s16"), F("info_is_reversed", "s8"), F("info_aspect_on", "bool"),
                 F("keyframes", "ref"), F("info_force_software", "bool"),
                 F("info_never_hardware", "bool") >>
TkfxS == Sec(6, EffectInfo, << X(2, 72, "trackman", "ref") >>)
WarpS == S0(2, << F("phase_offset", "s32") >>)
MdesS == Sec(3, << F("mob_kind", "u8"), F("locator", "ref"), F("intermediate", "bool"),
                   F("physical_media", "ref") >>,
                << Ext(1, <<"uuid">>, << Lit(<<65>>), LitT("s32", <<0,0,0,16>>), F("uuid", "uuid") >>),
                   Ext(2, <<"wchar">>, << Lit(<<65>>), Data("wchar", "s32") >>),
                   X(3, 72, "attributes", "ref") >>)
MdflS == S0(3, << F("edit_rate", "exp10"), F("length", "s32"), F("is_omfi", "s16"),
                  F("data_offset", "s32") >>)
DiddS == Sec(2, << F("stored_height", "s32"), F("stored_width", "s32"), F("sampled_height", "s32"),
                   F("sampled_width", "s32"), F("sampled_x_offset", "s32"), F("sampled_y_offset", "s32"),
                   F("display_height", "s32"), F("display_width", "s32"), F("display_x_offset", "s32"),
                   F("display_y_offset", "s32"), F("frame_layout", "s16"), Rat("aspect_ratio"),
                   Ints("line_map", "s32"), F("alpha_transparency", "s32"), F("uniformness", "bool"),
                   F("did_image_size", "s32"), F("next_did_desc", "ref"), F("compress_method", "fourcc"),
                   F("resolution_id", "s32"), F("image_alignment_factor", "s32") >>,
                << X(1, 69, "frame_index_byte_order", "s16"),
                   X(2, 71, "frame_sample_size", "s32"),
                   X(3, 71, "first_frame_offset", "s32"),
                   Ext(4, <<"client_fill_start", "client_fill_end">>,
                       << Lit(<<71>>), F("client_fill_start", "s32"), Lit(<<71>>), F("client_fill_end", "s32") >>),
                   X(5, 71, "offset_to_rle_frame_index", "s32"),
                   X(6, 71, "frame_start_offset", "s32"),
                   Ext(8, <<"valid_box", "essence_box", "source_box">>,
                       << Grid("valid_box", 4), Grid("essence_box", 4), Grid("source_box", 4) >>),
                   Ext(9, <<"framing_box", "reformatting_option">>,
                       << Grid("framing_box", 4), Lit(<<71>>), F("reformatting_option", "s32") >>),
                   X(10, 80, "transfer_characteristic", "uuid"),
                   Ext(11, <<"color_primaries", "coding_equations">>,
                       << Lit(<<80>>), F("color_primaries", "uuid"), Lit(<<80>>), F("coding_equations", "uuid") >>),
                   X(12, 80, "essence_compression", "uuid"),
                   X(14, 68, "essence_element_size_kind", "u8"),
                   X(15, 66, "frame_checked_with_mapper", "bool") >>)
CdciS == Sec(2, << F("horizontal_subsampling", "u32"), F("vertical_subsampling", "u32"),
                   F("component_width", "s32"), F("color_sitting", "s16"), F("black_ref_level", "u32"),
                   F("white_ref_level", "u32"), F("color_range", "u32"), F("frame_index_offset", "s64") >>,
                << X(1, 72, "alpha_sampled_width", "u32"), X(2, 72, "ignore_bw", "u32") >>)
DatdS == S0(1, << F("is_offset_to_frame_indexes_valid", "bool"), F("offset_to_frame_indexes", "u64"),
                  F("first_frame_offset", "s32"), F("min_sample_size", "s32"), F("max_sample_size", "s32") >>)
AposS == Sec(1, << Legacy("mob_id", 0) >>, << XId(1, "mob_id") >>)
AbobS == S0(1, << F("sample_num", "s32"), F("length", "s32"), F("track_type", "s16"), F("track_index", "s16") >>)
DidpS == S0(1, << F("strip", "s32"), F("offset", "u64"), F("byte_length", "u64"), F("spos_invalid", "bool") >>)
McmrS == Sec(1, << Legacy("mob_id", 0), F("position", "s32") >>, << XId(1, "mob_id") >>)
FileS == Sec(2, << F("path", "str") >>,
                << X(1, 76, "path_posix", "str"), X(2, 76, "path_utf8", "ustr"), X(3, 76, "path2_utf8", "ustr") >>)
AsetS == S0(6, << F("name", "str"), F("kind", "str"), F("attr_count", "s16"), F("attr_type", "s16"),
                  F("attributes", "ref") >>)
SiftItems == << F("method", "s16"), F("string", "str"), F("column", "str") >>
AbinItems == << Special("binver", "large_bin"), F("view_setting", "ref"), F("uid", "u64"),
                Special("binitems", "items"),
                F("display_mask", "s32"), F("display_mode", "s16"), F("sifted", "bool"),
                Special("sift6", "sifted_settings"),
                Recs("sort_columns", "s16", << F("#0", "u8"), F("#1", "str") >>, "list"),
                F("mac_font", "s16"), F("mac_font_size", "s16"), F("mac_image_scale", "s16"),
                LitT("s16", <<0,1>>), Tup("home_rect", <<"s16", "s16", "s16", "s16">>),
                LitT("s16", <<0,1>>), Tup("background_color", <<"u16", "u16", "u16">>),
                LitT("s16", <<0,1>>), Tup("forground_color", <<"u16", "u16", "u16">>),
                F("ql_image_scale", "s16"), F("attributes", "ref"), F("was_iconic", "bool") >>
BinItemItems == << F("mob", "ref"), F("x", "s16"), F("y", "s16"), F("keyframe", "s32"), F("user_placed", "bool") >>
TrackFields == << \* bit of the flag word, name, type; in file order
    << 0, "index", "s16" >>, << 1, "attributes", "ref" >>, << 9, "session_attr", "ref" >>,
    << 2, "component", "ref" >>, << 3, "filler_proxy", "ref" >>, << 4, "bob_data", "ref" >>,
    << 5, "control_code", "s16" >>, << 6, "control_sub_code", "s16" >>, << 7, "start_pos", "s32" >>,
    << 8, "read_only", "bool" >> >>
PPItems == << F("code", "s16"), F("type", "s16"),
              Case("value", "type", << <<2, "double">>, <<1, "s32">> >>) >>
PointItems == << Rat("offset"), F("timescale", "s32"),
                 Case("value", "^value_type", << <<1, "s32">>, <<2, "double">>, <<4, "ref">> >>),
                 Recs("pp", "s16", PPItems, "ParamControlPointProperty") >>
CtrlItems == << Rat("offset"), F("time_scale", "s32"), Lit(<<1>>), Rat("value"),
                Recs("pp", "s16", << F("code", "s16"), Rat("value") >>, "ControlPointProperty") >>
ChunkItems == << LenOf("data", "s32", 0), F("version", "s32"), F("manufacturer_id", "u32"),
                 F("product_id", "u32"), F("plugin_id", "u32"), F("chunk_id", "u32"),
                 F("name", "str"), Body("data") >>
PluginItems == << F("name", "str"), F("manufacturer_id", "u32"), F("product_id", "u32"),
                  F("plugin_id", "u32"), Recs("chunks", "s32", ChunkItems, "ASPIPluginChunk") >>
BandItems == << F("type", "s32"), F("freq", "s32"), F("gain", "s32"), F("q", "s32"), F("enable", "bool") >>
ParamItems == << F("percent_time", "s32"), F("level", "s32"), F("pos_x", "s32"), F("floor_x", "s32"),
                 F("ceil_x", "s32"), F("pos_y", "s32"), F("floor_y", "s32"), F("ceil_y", "s32"),
                 F("scale_x", "s32"), F("scale_y", "s32"), F("crop_left", "s32"), F("crop_right", "s32"),
                 F("crop_top", "s32"), F("crop_bottom", "s32"),
                 Tup("box", <<"s32", "s32", "s32", "s32">>),
                 F("box_xscale", "bool"), F("box_yscale", "bool"), F("box_xpos", "bool"), F("box_ypos", "bool"),
                 F("border_width", "s32"), F("border_soft", "s32"),
                 F("splill_gain2", "s16"), F("splill_gain", "s16"), F("splill_soft2", "s16"), F("splill_soft", "s16"),
                 F("enable_key_flags", "s8"),
                 Recs("colors", "s32", << F("#", "s32") >>, "scalar"),
                 Data("user_param", "s32"), F("selected", "bool") >>
ColumnItems == << F("title", "str"), F("format", "s16"), F("type", "s16"), F("hidden", "bool") >>
TrackClip == << CompS, ClipS >>
Group == << CompS, TrkgS >>
Effect == Group \o << TkfxS >>
Warp == Group \o << WarpS >>
MFile == << MdesS, MdflS >>
DIDs == MFile \o << DiddS >>
CDCIs == DIDs \o << CdciS >>

\* ---- the classes ------------------------------------------------------
C(py, secs) == [py |-> py, secs |-> secs]

Classes == [
  ATTR |-> C("Attributes",      << S0(1, << Special("attrs", "items") >>) >>),
  PRLS |-> C("ParameterList",   << S0(1, << Refs("items", "s32") >>) >>),
  TMCS |-> C("TimeCrumbList",   << S0(1, << Refs("items", "s16") >>) >>),
  BVst |-> C("BinViewSetting",  << AsetS, Sec(10, << Recs("columns", "u16", ColumnItems, "dict") >>,
                 << Ext(1, <<"format_descriptors">>, << Lit(<<69>>), Special("fmtdesc", "format_descriptors") >>) >>) >>),
  ABIN |-> C("Bin",             << S0(256, AbinItems) >>),
  BINF |-> C("BinFirst",        << S0(256, AbinItems), S0(1, << F("unknown_s32", "s32") >>) >>),
  SEQU |-> C("Sequence",        << CompS, S0(3, << Refs("components", "u32") >>) >>),
  SCLP |-> C("SourceClip",      << CompS, ClipS,
                 Sec(3, << Legacy("mob_id", 0), F("track_id", "s16"), F("start_time", "s32") >>, << XId(1, "mob_id") >>) >>),
  TCCP |-> C("Timecode",        << CompS, ClipS,
                 S0(1, << F("flags", "u32"), F("fps", "u16"), Skip(6), F("start", "u32") >>) >>),
  ECCP |-> C("Edgecode",        << CompS, ClipS,
                 S0(1, << Raw("header", 8), F("film_kind", "u8"), F("code_format", "u8"), F("base_perf", "u16"),
                          Skip(4), F("start_ec", "s32") >>) >>),
  TRKR |-> C("TrackRef",        << CompS, ClipS, S0(1, << F("relative_scope", "s16"), F("relative_track", "s16") >>) >>),
  PRCL |-> C("ParamClip",       << CompS, ClipS,
                 Sec(1, << F("interp_kind", "s32"), F("value_type", "s16"),
                           Recs("control_points", "s32", PointItems, "ParamControlPoint") >>,
                        << X(1, 71, "extrap_kind", "s32"), X(2, 71, "fields", "s32") >>) >>),
  CTRL |-> C("ControlClip",     << CompS, ClipS,
                 S0(3, << F("interp_kind", "s32"), Recs("control_points", "s32", CtrlItems, "ControlPoint") >>) >>),
  FILL |-> C("Filler",          << CompS, ClipS, S0(1, <<>>) >>),
  TKFX |-> C("TrackEffect",     Effect),
  PVOL |-> C("PanVolumeEffect", Effect \o << Sec(5, << F("level", "s32"), F("pan", "s32"),
                   F("suppress_validation", "bool"), F("level_set", "bool"), F("pan_set", "bool") >>,
                << X(1, 71, "supports_seperate_gain", "s32"), X(2, 71, "is_trim_gain_effect", "s32") >>) >>),
  ASPI |-> C("AudioSuitePluginEffect", Effect \o << Sec(1, << Special("plugin1", "plugins") >>,
                << Ext(1, <<"mob_id">>, << Legacy("mob_id", 71) >>),
                   XId(8, "mob_id"),
                   X(2, 77, "mark_in", "s64"), X(3, 77, "mark_out", "s64"),
                   X(4, 72, "tracks_to_affect", "s32"), X(5, 71, "rendering_mode", "s32"),
                   X(6, 71, "padding_secs", "s32"),
                   Ext(9, <<"preset_path">>, << Lit(<<72>>), Special("path9", "preset_path") >>) >>) >>),
  EQMB |-> C("EqualizerMultiBand", Effect \o << S0(5, << Recs("bands", "s32", BandItems, "EqualizerBand"),
                F("effect_enable", "bool"), F("filter_name", "str") >>) >>),
  MASK |-> C("CaptureMask",     Warp \o << S0(1, << F("is_double", "bool"), F("mask_bits", "u32") >>) >>),
  STRB |-> C("StrobeEffect",    Warp \o << S0(1, << F("strobe_value", "s32") >>) >>),
  SPED |-> C("MotionEffect",    Warp \o << Sec(3, << Rat("speed_ratio") >>,
                << X(1, 75, "offset_adjust", "double"), X(2, 72, "source_param_list", "ref"),
                   X(3, 66, "new_source_calculation", "bool") >>) >>),
  REPT |-> C("Repeat",          Warp \o << S0(1, <<>>) >>),
  RSET |-> C("EssenceGroup",    Group \o << Sec(1, <<>>, << X(1, 71, "rep_set_type", "s32") >>) >>),
  TNFX |-> C("TransitionEffect", Group \o << S0(1, << F("cutpoint", "s32") >>),
                Sec(5, EffectInfo, << X(1, 72, "trackman", "ref") >>) >>),
  SLCT |-> C("Selector",        Group \o << S0(1, << F("is_ganged", "bool"), Special("selected", "selected") >>) >>),
  CMPO |-> C("Composition",     Group \o << Sec(2, << Legacy("mob_id", 0), F("last_modified", "time"),
                   F("mob_type_id", "u8"), F("usage_code", "s32"), F("descriptor", "ref") >>,
                << X(1, 71, "creation_time", "time"), XId(2, "mob_id") >>) >>),
  FILE |-> C("MacFileLocator",  << FileS >>),
  WINF |-> C("WinFileLocator",  << FileS >>),
  URLL |-> C("URLLocator",      <<>>),
  GRFX |-> C("GraphicEffect",   << S0(1, << Data("pict_data", "s32") >>) >>),
  SHLP |-> C("ShapeList",       << S0(1, << Data("shape_data", "s32") >>) >>),
  CCFX |-> C("ColorCorrectionEffect", << S0(1, << Data("color_correction", "s16") >>) >>),
  FXPS |-> C("EffectParamList", << S0(18, << F("orig_length", "s32"), F("window_offset", "s32"),
                Special("count32", "parameters"), F("keyframe_size", "s32"),
                [op |-> "recbody", n |-> "parameters", items |-> ParamItems, shape |-> "EffectParam"] >>) >>),
  AVUP |-> C("CFUserParam",     << S0(1, << F("byte_order", "x4949"), F("uuid", "uuid"),
                LenOf("data", "s32", 4), LenOf("data", "s32", 0), Body("data") >>) >>),
  PRIT |-> C("ParameterItem",   << Sec(2, << F("uuid", "uuid"), F("value_type", "s16"),
                Case("value", "value_type", << <<1, "s32">>, <<2, "double">>, <<4, "ref">> >>),
                F("name", "pstr"), F("enable", "bool"), F("control_track", "ref") >>,
                << X(1, 66, "contribs_to_sig", "bool") >>) >>),
  MSML |-> C("MSMLocator",      << Sec(2, << Legacy("mob_id", 0), F("last_known_volume", "str") >>,
                << X(1, 71, "domain_type", "s32"), XId(2, "mob_id"), X(3, 76, "last_known_volume_utf8", "ustr") >>) >>),
  APOS |-> C("Position",        << AposS >>),
  ABOB |-> C("BOBPosition",     << AposS, AbobS >>),
  DIDP |-> C("DIDPosition",     << AposS, AbobS, DidpS >>),
  MPGP |-> C("MPGPosition",     << AposS, AbobS, DidpS,
                S0(1, << F("trailing_discards", "s16"), F("need_seq_hdr", "bool"), Special("mpgfields", "fields") >>) >>),
  MCBR |-> C("BinRef",          << Sec(1, << F("uid_high", "s32"), F("uid_low", "s32"), F("name", "str") >>,
                << X(1, 76, "name_utf8", "ustr") >>) >>),
  MCMR |-> C("MobRef",          << McmrS >>),
  TMBC |-> C("Marker",          << McmrS, Sec(3, << F("comp_offset", "s32"), F("attributes", "ref"),
                LitT("s16", <<0,1>>), Tup("color", <<"u16", "u16", "u16">>) >>,
                << X(1, 66, "handled_codes", "bool") >>) >>),
  TKMN |-> C("TrackerManager",  << S0(1, << F("data_slots", "ref"), F("param_slots", "ref") >>) >>),
  TKDS |-> C("TrackerDataSlot", << Sec(1, << Refs("tracker_data", "s32") >>, << X(1, 66, "track_fg", "bool") >>) >>),
  TKPS |-> C("TrackerParameterSlot", << S0(1, << Data("settings", "s16"), Refs("params", "s32") >>) >>),
  TKDA |-> C("TrackerData",     << Sec(1, << Data("settings", "s16"), F("clip_version", "u32"), Refs("clips", "s16") >>,
                << X(1, 72, "offset_tracking", "u32"), X(2, 72, "smoothing", "u32"), X(3, 72, "jitter_removal", "u32"),
                   X(4, 75, "filter_amount", "double"), X(5, 72, "clip5", "ref"), X(6, 72, "clip6", "ref") >>) >>),
  TKPA |-> C("TrackerParameter", << S0(1, << Data("settings", "s16") >>) >>),
  MDES |-> C("MediaDescriptor", << MdesS >>),
  MDTP |-> C("TapeDescriptor",  << MdesS, S0(2, << F("cframe", "s16") >>) >>),
  MDFM |-> C("FilmDescriptor",  << MdesS, S0(1, <<>>) >>),
  MDNG |-> C("NagraDescriptor", << MdesS, S0(1, <<>>) >>),
  MDFL |-> C("MediaFileDescriptor", MFile),
  MULD |-> C("MultiDescriptor", MFile \o << S0(1, << Refs("descriptors", "s32") >>) >>),
  WAVE |-> C("WaveDescriptor",  MFile \o << S0(1, << Lit(<<82,73,70,70>>), Data("summary", "u32le") >>) >>),
  AIFC |-> C("AIFCDescriptor",  MFile \o << Sec(1, << Lit(<<70,79,82,77>>), Data("summary", "u32be") >>,
                << X(1, 71, "data_pos", "s32") >>) >>),
  PCMA |-> C("PCMADescriptor",  MFile \o << Sec(1, <<
                F("channels", "u16"), F("quantization_bits", "u16"), F("sample_rate", "exp10"), F("locked", "bool"),
                F("audio_ref_level", "s16"), F("electro_spatial_formulation", "s32"), F("dial_norm", "u16"),
                F("coding_format", "u32"), F("block_align", "u32"), F("sequence_offset", "u16"),
                F("average_bps", "u32"), F("has_peak_envelope_data", "bool"), F("peak_envelope_version", "s32"),
                F("peak_envelope_format", "s32"), F("points_per_peak_value", "s32"),
                F("peak_envelope_block_size", "s32"), F("peak_channel_count", "s32"), F("peak_frame_count", "s32"),
                F("peak_of_peaks_offset", "u64"), F("peak_envelope_timestamp", "s32") >>,
                << X(1, 77, "ebu_timestamp", "s64"), X(3, 76, "timecode_framerate", "str") >>) >>),
  MPGA |-> C("MPGADescriptor",  MFile \o << Sec(1, <<
                F("channels", "u16"), F("quantization_bits", "u16"), F("sample_rate", "exp10"), F("locked", "bool"),
                F("audio_ref_level", "s16"), F("electro_spatial_formulation", "s32"), F("dial_norm", "u16"),
                F("coding_format", "u32"), F("bit_rate", "u32") >>,
                << X(1, 77, "sub_frame_alignment", "u64"), X(2, 77, "origin", "u64") >>) >>),
  DIDD |-> C("DIDDescriptor",   DIDs),
  CDCI |-> C("CDCIDescriptor",  CDCIs),
  MPGI |-> C("MPGIDescriptor",  CDCIs \o << S0(1, <<
                F("mpeg_version", "u8"), F("profile", "u8"), F("gop_structure", "u8"), F("stream_type", "u8"),
                F("random_access", "bool"), F("leading_discard", "bool"), F("trailing_discard", "bool"),
                F("min_gop_length", "u16"), F("max_gop_length", "u16"), Data("sequence_hdr", "s32") >>) >>),
  JPED |-> C("JPEGDescriptor",  CDCIs \o << Sec(1, << F("jpeg_table_id", "s32"), F("jpeg_frame_index_offset", "u64"),
                Data("quantization_tables", "s32") >>, << X(1, 71, "image_start_align", "s32") >>) >>),
  RGBA |-> C("RGBADescriptor",  DIDs \o << Sec(1, << Special("pixels", "pixel_layout"), LitT("u32", <<0,0,0,0>>),
                LitT("u32", <<0,0,0,0>>), LitT("u32", <<0,0,0,0>>) >>,
                << X(1, 77, "frame_index_offset", "u64"),
                   Ext(2, <<"has_comp_min_ref", "comp_min_ref", "has_comp_max_ref", "comp_max_ref">>,
                       << Lit(<<66>>), F("has_comp_min_ref", "bool"), Lit(<<72>>), F("comp_min_ref", "u32"),
                          Lit(<<66>>), F("has_comp_max_ref", "bool"), Lit(<<72>>), F("comp_max_ref", "u32") >>),
                   Ext(3, <<"alpha_min_ref", "alpha_max_ref">>,
                       << Lit(<<72>>), F("alpha_min_ref", "u32"), Lit(<<72>>), F("alpha_max_ref", "u32") >>) >>) >>),
  DATD |-> C("DataDescriptor",  MFile \o << DatdS >>),
  ANCD |-> C("ANCDataDescriptor", MFile \o << DatdS, S0(1, << F("manifest_element_count", "s32") >>) >>)
]

ClassIds == DOMAIN Classes
=============================================================================
