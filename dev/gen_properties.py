#!/usr/bin/env python3
"""Writes ../properties.jsonl (the committed list of properties)."""
import json, os
U='src/unicode.rs'; NORM='src/unicode/normalization.rs'; SEG='src/unicode/seg.rs'; PR='src/unicode/props.rs'
D='src/unicode/ucd/'; T='tools/ucd-tool/'
props=[]
def P(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    p=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: p['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: p['anchors']['observe_at']=observe
    p['anchors']['hook_needed']=None
    props.append(p)
I=['inputs']
P('C01','Grapheme iteration is a total, lossless, terminating partition of any string',
 'For every valid UTF-8 string, breaking it into graphemes never panics, yields only non-empty slices that borrow consecutive, adjacent ranges of the input and together reproduce it exactly, and ends after at most one item per character. Once it has ended it keeps returning nothing, and every way of driving the iterator (stepping, skipping, counting, folding, resuming after partial use) sees the same items.',
 I,'every &str, including empty, one-character, very long, control-only, mark-only and unassigned-only strings, and every prefix/suffix of use of the iterator',
 'The grapheme tests run 1185 fixed short strings and one sentence, and stop comparing when the iterator stops early; they cannot cover all strings, long runs or partial consumption.',
 [U],[('BreakGraphemes::next slices self.slice at the chosen boundary','src/unicode.rs BreakGraphemes'),('Segmentation::break_graphemes','src/unicode.rs')],
 ['items returned by str::break_graphemes()'],[('BreakGraphemes.slice','the not yet segmented rest of the input','src/unicode.rs')])
P('C02','Grapheme boundaries are exactly those of UAX #29 for Unicode 15.1',
 'For every string, the boundaries between the items of grapheme iteration are exactly the extended grapheme cluster boundaries that UAX #29 (Unicode 15.1 rules GB1-GB999, including Hangul syllables, emoji ZWJ sequences, regional-indicator pairs, prepended characters and Indic conjuncts) defines. No boundary is missing and none is added, whatever precedes or follows the cluster.',
 I,'every string over all Unicode scalar values, of any length, including arbitrarily long clusters and every interleaving of the break classes',
 'The generated test covers 1185 strings of two to a dozen characters built from one representative per class; rule state that must survive or be reset along a cluster needs combinations the list does not contain.',
 [U,SEG,D+'gcb.rs',D+'derived_props.rs',D+'emoji_props.rs'],
 [('rule predicates GB3-GB9b','src/unicode/seg.rs'),('GB9c/GB11/GB12 state machine','src/unicode.rs BreakGraphemes::next'),('InCB derivation','src/unicode/ucd/derived_props.rs incb')],
 ['boundaries of str::break_graphemes()'],[('in_ext_pict / in_indic / indic_linker / ri_count','per-cluster rule state','src/unicode.rs BreakGraphemes::next')])
P('C03','Grapheme segmentation is local: restart, context and concatenation laws',
 'Every cluster returned by grapheme iteration, taken as a string of its own, is a single cluster, and iterating over the rest of the string from any boundary returns the same remaining clusters as the original iteration. Putting a line break before or after a string, or joining two strings at a place where a control character stands, never changes the clusters on either side, and copies of the same text at different addresses segment identically.',
 I,'every string, every boundary of it as a restart point, and every pair of strings joined at a control character',
 'The tests never restart from a boundary, never embed a string in a larger one and never compare two segmentations with each other.',
 [U,SEG],[('iteration restarts from the remaining slice only','src/unicode.rs BreakGraphemes::next'),('GB4/GB5','src/unicode/seg.rs')],['items of str::break_graphemes() on a string and on its parts'])
P('C04','NFD and NFKD equal the Unicode 15.1 decomposition forms for every string',
 'For every string, to_nfd returns the full canonical decomposition and to_nfkd the full compatibility decomposition of each character, applied recursively, followed by canonical ordering of combining marks as UAX #15 defines them for Unicode 15.1. Marks with equal combining class keep their relative order, and no character ever moves across a starter.',
 I,'every string over all scalar values, including long runs of combining marks, marks with no base, recursive mappings and Hangul',
 'The normalization test checks 19,069 listed strings, nearly all of them single characters or four-mark sequences on "a"; arbitrary mixtures, long mark runs and adjacent decomposing characters are not in it.',
 [NORM,D+'dm.rs',D+'dt.rs',D+'ccc.rs','src/unicode/hangul.rs'],
 [('canonical_decomposition / compatibility_decomposition recursion','src/unicode/normalization.rs'),('canonical_ordering','src/unicode/normalization.rs'),('reorderable_pair','src/unicode/normalization.rs')],['str::to_nfd()','str::to_nfkd()'])
P('C05','NFC and NFKC equal the Unicode 15.1 composition forms for every string',
 'For every string, to_nfc and to_nfkc return the canonical or compatibility decomposition followed by the canonical composition algorithm of UAX #15 for Unicode 15.1: every mark or jamo that is not blocked combines with the last starter when a primary composite exists, and excluded characters are never produced. Blocked marks, marks without a starter and composition-excluded pairs are left exactly as they are.',
 I,'every string over all scalar values, including blocked and unblocked mark sequences of any length, chained compositions and Hangul jamo mixtures',
 'The normalization test samples listed strings only; blocking, chaining and exclusion depend on combinations of starter, intermediate marks and position that a list cannot enumerate.',
 [NORM,D+'dm.rs',D+'dm/dm_map.rs',D+'normalization_props.rs','src/unicode/hangul.rs'],
 [('canonical_composition with blocked()','src/unicode/normalization.rs'),('reverse mapping lookup','src/unicode/ucd/dm.rs rdm'),('primary_composite','src/unicode/normalization.rs')],['str::to_nfc()','str::to_nfkc()'])
P('C06','Normalization forms are idempotent and compose by the UAX #15 algebra',
 'For every string, normalizing twice to the same form changes nothing, and going through another form first does not matter where UAX #15 says so: NFC of NFD is NFC, NFD of NFC is NFD, and NFKC or NFKD of any of the four forms equals NFKC or NFKD of the original. Two strings have equal NFC exactly when they have equal NFD, and equal NFKC exactly when they have equal NFKD.',
 I,'every string and every pair of forms (the 16 compositions of the four conversions)',
 'The test compares each listed source with its listed forms once; it never feeds an output back in except for the listed columns, so the laws are unchecked for all other strings.',
 [NORM],[('nfd/nfkd/nfc/nfkc pipelines','src/unicode/normalization.rs')],['the four str::to_nf*() conversions applied to each other\'s output'])
P('C07','Equivalent strings normalize identically',
 'Any two canonically equivalent strings have the same NFC and the same NFD, and any two compatibility equivalent strings have the same NFKC and the same NFKD. Equivalence here includes replacing characters by any stage of their decomposition, composing parts of them, and reordering adjacent combining marks of different non-zero classes.',
 I,'every pair of equivalent strings reachable by finitely many such rewriting steps',
 'Tests fix both sides of each pair in advance and never permute marks or mix stages of decomposition.',
 [NORM,D+'dm.rs'],[('recursive decomposition','src/unicode/normalization.rs'),('canonical_ordering','src/unicode/normalization.rs')],['the four str::to_nf*() results of equivalent strings'])
P('C08','Normalization respects concatenation and substrings',
 'For every pair of strings, normalizing the concatenation equals normalizing the concatenation of the normalized parts, and the normalized parts simply concatenate when the second part begins with a character that cannot interact with what precedes it. Every substring of an NFD, NFKD, NFC or NFKC string is itself in that form, and unassigned, private-use and noncharacter code points pass through all four forms unchanged and keep their neighbours apart.',
 I,'every pair of strings, every substring of every normalized string, and every unassigned, private-use or noncharacter code point in any position',
 'No test concatenates or slices normalized strings, and unassigned code points are only tested one at a time or not at all.',
 [NORM],[('whole-string pipelines','src/unicode/normalization.rs')],['str::to_nf*() of concatenations and slices'])
P('C09','Hangul syllables decompose, compose and are named arithmetically',
 'For all 11,172 precomposed syllables, the decomposition mapping, full decomposition, recomposition from any split into jamo, and the name follow the Unicode conjoining jamo arithmetic, and jamo just outside the modern ranges never take part in it. Inside any longer jamo text, exactly the sequences that the algorithm composes are composed, left to right.',
 I,'all syllables, all jamo pairs and triples including old and extended jamo and the neighbours of every range end, and all strings of jamo and syllables',
 'Tests check one or two syllables directly plus the listed normalization lines; the boundaries of the arithmetic and mixed jamo strings are not covered.',
 ['src/unicode/hangul.rs',D+'dm.rs',D+'na.rs',D+'jsn.rs',D+'hst.rs'],
 [('arithmetic_decomposition_mapping','src/unicode/hangul.rs'),('rdm Hangul branches','src/unicode/ucd/dm.rs'),('syllable_name','src/unicode/hangul.rs')],['dm(), na(), hst(), to_nf*()'])
P('C10','Normalized output is well formed with respect to the published properties',
 'In every NFD or NFKD result no character has a (canonical, respectively any) decomposition mapping and combining classes never decrease between starters; in every NFC or NFKC result no character is fully composition-excluded and no adjacent unblocked pair could still be composed. A character survives NFC alone exactly when it is not fully composition-excluded, and mappings and exclusion flags returned by the property accessors agree with what normalization does.',
 I,'every string, and every code point taken alone',
 'Tests compare strings with expected values and never inspect outputs with the property accessors, so disagreement between accessors and normalization on unlisted input goes unnoticed.',
 [NORM,D+'normalization_props.rs',D+'ce.rs',D+'dm.rs',D+'ccc.rs'],
 [('comp_ex','src/unicode/ucd/normalization_props.rs'),('singleton/non-starter tests','src/unicode/normalization.rs')],['to_nf*() output inspected with dm(), dt(), ccc(), comp_ex(), ce()'])
def table(id,title,what,files,acc,extra='',why=None):
    P(id,title,what,I,'every code point 0..10FFFF, through CodePoint and (for scalar values) char'+extra,
      why or 'Unit tests look at one or two code points; the only test meant to check tables needs a 160 MB XML file that is absent, so it never runs.',
      files,[(a,w) for a,w in acc],[a for a,_ in acc])
table('C11','General_Category is the Unicode 15.1 value for every code point',
 'For every code point from 0 to 10FFFF, including surrogates, noncharacters and unassigned ones, the reported General_Category is the value Unicode 15.1.0 assigns. Unassigned code points report Cn.',[D+'gc.rs'],[('gc()','src/unicode/ucd/gc.rs')])
table('C12','Canonical_Combining_Class is the Unicode 15.1 value for every code point',
 'For every code point, the reported Canonical_Combining_Class is the value Unicode 15.1.0 assigns, and its numeric value (the enum discriminant) is the class number. Code points not listed have class 0.',[D+'ccc.rs',PR],[('ccc()','src/unicode/ucd/ccc.rs')])
table('C13','Decomposition type and mapping are the Unicode 15.1 values everywhere',
 'For every code point, Decomposition_Type and the (single-step) decomposition mapping are those of Unicode 15.1.0, with an empty mapping exactly when the type is None. The mapping is always a sequence of at most 18 scalar values and following mappings repeatedly always terminates.',[D+'dm.rs',D+'dm/dm_map.rs',D+'dt.rs'],[('dm()','src/unicode/ucd/dm.rs'),('dt()','src/unicode/ucd/dt.rs')])
table('C14','Grapheme_Cluster_Break and Word_Break match Unicode 15.1 for every code point',
 'For every code point, the reported Grapheme_Cluster_Break and Word_Break values are those of Unicode 15.1.0. Code points not listed in the data report Other.',[D+'gcb.rs',D+'wb.rs'],[('gcb()','src/unicode/ucd/gcb.rs'),('wb()','src/unicode/ucd/wb.rs')])
table('C15','Hangul syllable type and the Indic properties match Unicode 15.1 everywhere',
 'For every code point, Hangul_Syllable_Type and Indic_Syllabic_Category are the Unicode 15.1.0 values, and Indic_Conjunct_Break is the value derived from them as UAX #44 prescribes. Defaults are Not_Applicable, Other and None.',[D+'hst.rs',D+'insc.rs',D+'derived_props.rs'],[('hst()','src/unicode/ucd/hst.rs'),('insc()','src/unicode/ucd/insc.rs'),('incb()','src/unicode/ucd/derived_props.rs')])
table('C16','Bidi_Class matches Unicode 15.1 for every code point, defaults included',
 'For every code point, the reported Bidi_Class is the Unicode 15.1.0 value. Unassigned code points get the block-dependent defaults (R, AL, ET, BN or L) that DerivedBidiClass specifies.',[D+'bc.rs'],[('bc()','src/unicode/ucd/bc.rs')])
table('C17','Block and Script match Unicode 15.1 for every code point',
 'For every code point, the reported Block and Script are the Unicode 15.1.0 values, with No_Block and Unknown as defaults. All code points of a block form the one contiguous range the standard gives it.',[D+'blk.rs',D+'sc.rs'],[('blk()','src/unicode/ucd/blk.rs'),('sc()','src/unicode/ucd/sc.rs')])
table('C18','Age matches Unicode 15.1 and is consistent with assignment',
 'For every code point, the reported Age is the version in which Unicode first assigned it, and unassigned code points report the not-applicable value. A code point has an age exactly when it is assigned, private use, a surrogate or a noncharacter.',[D+'age.rs'],[('age()','src/unicode/ucd/age.rs')])
table('C19','Character names are the Unicode 15.1 names, unique, for every code point',
 'For every code point, the reported Name is the Unicode 15.1.0 name, including the derived names of Hangul syllables, CJK, Tangut, Nushu and Khitan characters, and it is empty exactly for code points without a name. No two code points share a non-empty name.',[D+'na.rs',D+'na/na_table.rs',D+'jsn.rs'],[('na()','src/unicode/ucd/na.rs')])
table('C20','Contributory binary properties and composition exclusion match Unicode 15.1',
 'For every code point, each PropList binary property (White_Space through Regional_Indicator), Composition_Exclusion and Full_Composition_Exclusion report exactly what Unicode 15.1.0 assigns. Unlisted code points report false, and no code point makes an accessor fail.',[D+'binary_props.rs',D+'ce.rs',D+'normalization_props.rs',NORM],[('binary property accessors','src/unicode/ucd/binary_props.rs'),('ce()','src/unicode/ucd/ce.rs'),('comp_ex()','src/unicode/ucd/normalization_props.rs')])
table('C21','Derived core properties match Unicode 15.1 and their derivations',
 'For every code point, Math, Alphabetic, Lowercase, Uppercase, Cased, Case_Ignorable, Default_Ignorable_Code_Point, Grapheme_Extend, ID_Start, ID_Continue, XID_Start and XID_Continue equal the Unicode 15.1.0 values. They also equal what their published derivations give when computed from the other accessors of this library.',[D+'derived_props.rs'],[('derived property functions','src/unicode/ucd/derived_props.rs')])
table('C22','Emoji properties match Unicode 15.1 for every code point',
 'For every code point, Emoji, Emoji_Presentation, Emoji_Modifier, Emoji_Modifier_Base, Emoji_Component and Extended_Pictographic are the Unicode 15.1.0 values. In particular presentation, modifier and base characters are always Emoji, and reserved pictographic code points count as pictographic.',[D+'emoji_props.rs'],[('emoji accessors','src/unicode/ucd/emoji_props.rs')])
P('C23','Identifiers by XID_Start/XID_Continue are closed under all normalization forms',
 'If a string is an identifier, that is one XID_Start character followed by XID_Continue characters as this library reports them, then its NFC, NFD, NFKC and NFKD are identifiers too. XID_Start is contained in XID_Continue and in ID_Start, and XID_Continue in ID_Continue.',
 I,'every identifier string of any length over all XID_Start and XID_Continue characters',
 'No test touches these properties; closure is a statement about strings and normalization together.',
 [D+'derived_props.rs',NORM],[('xids/xidc exclusion lists','src/unicode/ucd/derived_props.rs'),('normalization pipelines','src/unicode/normalization.rs')],['xids(), xidc() and to_nf*()'])
P('C24','Every property value reports its Unicode 15.1 short and long names',
 'For every value of every enumerated property that the library can return (and for the yes/no values), the reported short and long value names are the aliases of PropertyValueAliases for Unicode 15.1.0. Within a property, different values have different short names and different long names, and values compare equal exactly when they are the same value.',
 I,'every value of General_Category, Hangul_Syllable_Type, Grapheme_Cluster_Break, Word_Break, Bidi_Class, Canonical_Combining_Class, Decomposition_Type, Block, Script, Age, Indic_Syllabic_Category, Indic_Conjunct_Break and Boolean properties, and every code point through its values',
 'Only one script name is printed in a doc example; hundreds of hand- and script-written name pairs are untested.',
 [PR,D+'property_names.rs'],[('*_name functions','src/unicode/ucd/property_names.rs'),('UnicodeProperty impls','src/unicode/props.rs')],['property_value_name()'])
P('C25','Every accessor is total and char agrees with CodePoint',
 'Every property accessor returns normally for every code point from 0 to 10FFFF, surrogates and unassigned code points included, and returns the same answer each time. For every char, each accessor gives the same answer as the same accessor on the corresponding code point value.',
 I,'every code point and every accessor of the property interface, both implementations',
 'Tests call a handful of accessors on a handful of assigned characters; the two parallel implementations of about seventy accessors are never compared and surrogates are never used.',
 [U],[('impl Ucd for CodePoint','src/unicode.rs'),('impl Ucd for char','src/unicode.rs')],['all Ucd accessors'])
P('C26','Code points are constructed, converted and printed faithfully',
 'A code point is constructed from a 32-bit value exactly when the value is at most 10FFFF, otherwise an error is returned, and converting back gives the same value. Its text form is "U+" and at least four upper-case hexadecimal digits without further padding, and converting any char to a code point keeps its value.',
 I,'every u32 value and every char',
 'One value is formatted in a unit test; the range limit and the padding rule are not tested.',
 [U],[('CodePoint::new/to_u32','src/unicode.rs'),('Display for CodePoint','src/unicode.rs'),('ToCodePoint for char','src/unicode.rs')],['CodePoint::new, to_u32, to_string, to_code_point'])
P('C27','Versions order and print by components, and Boolean values map to Yes/No',
 'Version values compare lexicographically by major, minor and update number and print as the three numbers joined by dots, equality meaning equality of all three; the published current version is 15.1.0 and is the newest age any code point reports. Converting a bool to a property value gives Yes for true and No for false.',
 I,'every pair and triple of version numbers, both booleans, and every code point for the relation between version and age',
 'One test compares the constant with itself; order and format are not tested.',
 [U,PR],[('UnicodeVersion derive(PartialOrd) and ToString','src/unicode.rs'),('From<bool> for BinaryProperty','src/unicode/props.rs')],['UnicodeVersion comparisons and to_string, BinaryProperty::from'])
P('C28','Results do not depend on call history, interleaving or thread',
 'Every call of a property accessor, a normalization form or a grapheme iteration step gives the same result whatever calls were made before it, on this or other threads, and however many iterators are alive and advanced in turns. Using one iterator never affects another, and inputs are never modified.',
 ['histories','schedules'],'all sequences of library calls, on one thread and on several threads in parallel',
 'Each test makes a short fixed series of calls; state leaking between calls shows only in particular histories.',
 [U,NORM,'src/collections.rs'],[('pure functions over constant tables','src/unicode.rs'),('iterator state confined to its own slice','src/unicode.rs BreakGraphemes')],['results of any public call within a history'])
P('C29','Two-stage table lookup equals the flat table it represents',
 'For every two-stage table built from index and block slices and a block size, looking up any position covered by it returns exactly the element that the concatenation of the selected blocks has at that position. This holds for every index integer type, every element type, every block size (power of two or not) and shared or repeated blocks.',
 I,'all tables (stage-1 sequences, block pools, block sizes, index and value types) and all covered positions',
 'The type has no test of its own and is only instantiated with block size 128 and u8/u16 indexes inside the crate.',
 ['src/collections.rs'],[('TwoStageTable::at','src/collections.rs')],['TwoStageTable::new(..).at(..)'])
P('C30','The table compressor is lossless for every property assignment',
 'For every assignment of values to all code points, the two-stage tables the generator builds represent exactly that assignment, with no duplicate blocks, and the source text it emits for any index width or block size holds the same tables. Looking any code point up in the emitted tables therefore returns the assigned value. The size reported for a table is the number of bytes its emitted arrays take, and the table selected for a property is the smallest of its candidates.',
 ['inputs','programs'],'all maps from code points to values (including the default-only, alternating, single-point and random-run ones), all block sizes that divide the code space',
 'The tools have no tests; a loss at particular run boundaries or block counts (for example past 256 blocks) would surface only with data the current version does not contain.',
 [T+'ucd/collections/two_stage_table.py',T+'ucd-tool.py','src/collections.rs'],[('TwoStageTable.make','tools/ucd-tool/ucd/collections/two_stage_table.py'),('TwoStageTable.to_seshat','tools/ucd-tool/ucd/collections/two_stage_table.py')],['the generated Rust source text and its lookups'])
P('C31','Regenerating the tables from the vendored data reproduces the library',
 'Running the table generator on the vendored Unicode 15.1.0 data writes generated source files that build with the library and hold exactly the values the library ships, whatever those files contained before, and changes no other file. Running it again changes nothing.',
 ['inputs','histories','fault_sequences'],'all generator runs from any previous content of the generated files (including emptied, truncated, missing or stale ones) and repeated runs',
 'No test runs the generators, so drift between tool, data and shipped tables is invisible.',
 [T+'ucd-tool.py',D+'gc.rs',D+'na/na_table.rs',D+'dm/dm_map.rs'],[('per-property generators','tools/ucd-tool/ucd-tool.py'),('shipped tables','src/unicode/ucd')],['content of src/unicode/ucd after a run in a scratch copy'])
P('C32','Range, default and data-loading helpers of the data tool are exact',
 'A code point range parsed from its text form contains exactly the code points from first to last inclusive, lists them in order, prints as first..last, and is refused when last is below first. Defaults for missing ranges apply exactly inside their ranges, with later lines overriding earlier ones. Loading a range data file, plain or grouped by property, yields every range-value pair of the file, invents none, and orders them by code point; translating values to short aliases, versions to age values and names to identifiers changes values only, each to the one the alias table gives it.',
 I,'all ranges and single code points, all membership queries, all lists of default ranges, and all range-to-value files in any order',
 'The helpers have no tests.',
 [T+'ucd/collections/code_point_range.py',T+'ucd/collections/missing.py',T+'ucd-tool.py'],[('CodePointRange','tools/ucd-tool/ucd/collections/code_point_range.py'),('Missing','tools/ucd-tool/ucd/collections/missing.py'),('make_data, make_grouped_data, patch_data, data_value_as_abbr*','tools/ucd-tool/ucd-tool.py')],['results of the helper classes and functions'])
P('C33','Test and enum generators transcribe their data faithfully',
 'Whatever normalization or grapheme test data they are given, the test-case generators emit one case per data entry, in order, with exactly the code points of the data, as valid source the repository\'s test drivers accept. The enum and name generators emit, for the vendored aliases, exactly one variant and one name pair per block and script, matching what the library defines.',
 ['inputs','programs'],'all well-formed test-data and alias files',
 'No test runs the generators; a lost or altered case would silently weaken the generated tests.',
 [T+'gen-normalization-test.py',T+'gen-grapheme-break-test.py',T+'gen-blk-enum.py',T+'gen-blk-name.py',T+'gen-sc-enum.py',T+'gen-sc-name.py'],[('case emission loops','tools/ucd-tool/gen-normalization-test.py, gen-grapheme-break-test.py'),('enum/name emission','tools/ucd-tool/gen-*-enum.py, gen-*-name.py')],['text the generators print or write'])
P('C34','The generated tables report exactly what any data set assigns',
 'For any well-formed set of data files - any assignment of the existing values to code point ranges, listed in any order, with any gaps, default-range lines, names, decompositions and exclusion lists, of this Unicode version or another - the table generator writes source files from which the library builds, and every accessor backed by a generated table then reports exactly what the data assigns to each code point: the last matching default where nothing is assigned, and nothing else; and normalization decomposes and composes by exactly the mappings in the data.',
 ['inputs','programs'],'all well-formed data sets over the value aliases the library knows',
 'No test runs the generator on any data; a fault that the current Unicode version happens not to trigger would corrupt the tables at the next update.',
 [T+'ucd-tool.py',T+'ucd/collections/two_stage_table.py',T+'ucd/collections/missing.py','src/collections.rs','src/unicode/ucd/na.rs','src/unicode/ucd/dm.rs'],[('per-property generators','tools/ucd-tool/ucd-tool.py'),('accessors over generated tables','src/unicode/ucd')],['accessor results of the library built from the generated files'])
P('C35','Importing data rebuilds every vendored data file from its own source',
 'Given a converter that turns a source file name into its data, the import script writes each data file of the current Unicode version from the source file that belongs to it, with the default-range extract written apart from the data proper, creates the folders it needs, replaces whatever the files held before, and writes no other file. The result is complete: the table and test generators find every file they read. A configuration file supplies the converter location; without any configured location nothing is written.',
 ['inputs','histories','fault_sequences'],'all converter outputs, all previous contents of the data folder, and configuration by environment or by file with comments',
 'No test runs the import script.',
 [T+'gen-json-data.py',T+'ucd/unicode.py'],[('files list and conversion loop','tools/ucd-tool/gen-json-data.py'),('load_env','tools/ucd-tool/gen-json-data.py')],['content of the data folder after a run in a scratch copy with a stand-in converter'])
P('C36','Segmentation and normalization respect each other under canonical equivalence',
 'For every string, breaking it into graphemes and normalizing each cluster to NFC or NFD gives the same list as normalizing the whole string and breaking the result: canonically equivalent texts have corresponding clusters, and no composition or reordering ever crosses a cluster boundary. Only texts for which the rules of UAX #29 themselves say otherwise (a few characters, such as U+21AE and U+0CC0 before an emoji joiner, have another break class than their parts) are exempt.',
 I,'every string over all scalar values, with decomposable characters, marks in any order, Hangul, conjuncts, flags and emoji sequences mixed',
 'No test applies both normalization and segmentation to one text.',
 [U,SEG,NORM,D+'dm.rs',D+'gcb.rs',D+'ccc.rs'],[('BreakGraphemes::next','src/unicode.rs'),('canonical_ordering, canonical_composition','src/unicode/normalization.rs')],['str::break_graphemes()','str::to_nfc()','str::to_nfd()'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in props: f.write(json.dumps(p)+'\n')
print(len(props))
