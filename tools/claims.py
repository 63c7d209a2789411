SETUP = 'true'
TV = 'translation_validation'
WIRE = ('The oracle is the AvbSchema/AvbWire specification evaluated by TLC, which shares no code with pyavb. '
        'Trusted: TLC, the layout table, the JSON bridge (harness/wire.py) and the sampled values; it covers every class, '
        'field and optional section, not every value.')
DOC = ('histories of public operations recorded from the real code on generated documents, every event checked by TLC '
       'against the transitions of the TLA+ document machine AvbDoc (over AvbGraph, AvbFile, AvbWire)')
DOCN = ('The oracle is the AvbDoc state machine evaluated by TLC: saved files and navigation are compared with the state the '
        'specification reaches. Trusted: TLC, the specification, the JSON bridge. Histories are seeded random samples over '
        'graphs of all 65 classes; documents are acyclic and of moderate size.')
COLL = ('The oracle is the AvbColl specification evaluated by TLC. Every operation is tried from every content of up to three '
        'elements (a sample of them in the quick tier), on new collections and on ones read from files the specification encodes, '
        'plus random sequences (with loops that change what they go over) that are saved and reopened. Trusted: TLC, the specification, the driver.')
LIFE = ('; and the TLA+ model AvbLife of objects in memory, model-checked by TLC, every transition to a depth replayed on the real code')
CLAIMS = {
 'C01': ('TLA+ wire specification (AvbWire) evaluated by TLC on generated documents; saved and reopened objects compared with it', TV, WIRE),
 'C02': ('TLA+ wire specification (AvbWire.Encode) evaluated by TLC; bytes saved by the real code compared with it', TV, WIRE),
 'C03': ('encodings generated from the TLA+ wire specification (EncodePlan) read by the real code and compared', TV, WIRE),
 'C04': ('encodings generated from the TLA+ wire specification read by the pure and the freshly built compiled readers', TV, WIRE),
 'C21': ('objects and containers damaged one byte, field or cut at a time; verdict (well-formed or not, and the values) from the TLA+ decoder AvbWire.Decode and container AvbFile.ParseFile', TV, WIRE),
 'C23': ('values in and outside every field assigned and saved; what the format holds is decided by the TLA+ module AvbValues', TV, WIRE),
 'C05': (DOC, TV, DOCN), 'C06': (DOC, TV, DOCN), 'C09': (DOC, TV, DOCN), 'C10': (DOC, TV, DOCN), 'C11': (DOC, TV, DOCN),
 'C07': (DOC + LIFE + '; single changes of collections nobody keeps', TV, DOCN), 'C08': (DOC + LIFE, TV, DOCN), 'C12': (DOC + LIFE, TV, DOCN),
 'C13': ('operation sequences on reference lists of the real code, results and contents checked by TLC against the TLA+ list machine AvbColl', TV, COLL),
 'C14': ('operation sequences on attribute maps of the real code, results and contents checked by TLC against the TLA+ ordered-map machine AvbColl', TV, COLL),
 'C15': (DOC + ' and the lookup definitions of AvbBin', TV, DOCN),
 'C16': (DOC + ' and the dependency definitions of AvbBin; all mob graphs of up to three mobs built and listed, compared by TLC', TV, DOCN),
 'C25': (DOC + ' and the tables of names AvbNames', TV, DOCN),
 'C24': (DOC + ' and the clip definitions of AvbBin', TV, DOCN),
 'C17': ('TLC model of all sequences of up to four components (Timeline) checked, exported and replayed on the real code, with longer random ones; lengths, starts and lookups judged by TLC against AvbTimeline', TV,
         'Oracle: AvbTimeline, defined from intervals rather than by a walk. Lookups are judged for sequences in which a time has one answer: no two transitions meet and no material is shorter than the transitions over it.'),
 'C18': ('answers computed by TLC from the TLA+ curve definitions (AvbCurve) for key frames, both sides of them, outside and seven points of every piece, compared with the real code; integrals judged by TLC (CurveTrace)', TV,
         'Fixed-point oracle (2^-16); key frames and constant pieces exact, linear to 2^-16, Bezier and cubic to 2.5e-3. Times and values of the piece points are bounded (|t| < 100, |v| <= 20); key frames are also tried with arbitrary ones.'),
 'C19': ('histories of assignments, conversions and copies of mob ids of the real code, all views and comparisons after every step checked by TLC against AvbMobId; text round trip model-checked over every form the text depends on (MobId)', TV,
         'Oracle: AvbMobId. Histories are seeded random samples over three ids; uniqueness is tried on generated ids, not proved.'),
 'C22': ('histories of creations (nested, between, positional, in two documents) and edits of defaulted values, every object shown after every step and checked by TLC against the creation machine AvbCreate', TV,
         'Oracle: AvbCreate, a table of every class\'s defaults and a tree-edit semantics in which nothing is shared. Every class and every editable default is tried; histories are seeded random samples.'),
 'C20': ('life cycle of a save model-checked (Save); saves of the real code killed at each change of the disk, with failing writes, values and places, every change replayed and every image judged by TLC against the disk specification AvbDisk/AvbFile, later saves compared with those of an undisturbed twin', TV,
         'Changes of the disk are observed and made to fail by an LD_PRELOAD shim (harness/diskshim.c); they are taken to happen in the order made, changes of up to 16 bytes in place at once. Every moment of each save is judged, for seeded random documents and fault sequences.'),
}
