#!/usr/bin/env python3
"""Writes ../MANIFEST.json."""
import json, os, sys
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
ids=[json.loads(l)['id'] for l in open(os.path.join(R,'properties.jsonl'))]
UCD='Expected values come from oracle/ucd-15.1.0.txt, built from the vendored UCD data and cross-checked once against ICU 74.2 (Unicode 15.1); trusted.'
EXH='Exhaustive enumeration of all 1,114,112 code points against an independent table'
PBT='Property-based testing'
T={
'C01':(PBT+': invariants of the item sequence over enumerated and random strings and iterator manoeuvres','Exhaustive for single characters in 8 contexts; sampled for longer strings. A call is taken as endless after 60 s of CPU time.'),
'C02':(PBT+' against an independent reference model of UAX #29; small class sequences enumerated','All break-class sequences up to length 6 (thorough 7), every scalar in every class context, every consonant-linker-consonant triple; longer clusters are sampled. '+UCD),
'C03':(PBT+': metamorphic relations (restart, prefix, embedding, control-character joins)','Enumerated class sequences of length 5 (thorough 6), sampled beyond; the crate is only compared with itself.'),
'C04':(PBT+' against an independent reference model of UAX #15 decomposition; every scalar enumerated in contexts','Exhaustive for single scalars in 20 contexts, pairs of non-starters and triples of classes; longer strings sampled. '+UCD),
'C05':(PBT+' against an independent reference model of UAX #15 composition; pairs and blocking patterns enumerated','Exhaustive for single scalars in contexts and for pairs of normalization-active characters; longer strings sampled. '+UCD),
'C06':(PBT+': algebraic laws between the four forms over enumerated and random strings','Sampled beyond single characters and (sampled) pairs; relations only, no expected values.'),
'C07':(PBT+': metamorphic, equivalent strings produced by random rewriting','Equivalences come from the oracle mappings (trusted); rewriting sequences are sampled.'),
'C08':(PBT+': metamorphic concatenation and substring relations','Sampled for strings; every unassigned/private-use/noncharacter code point is tried in contexts.'),
'C09':('Exhaustive enumeration of syllables, jamo triples and jamo pairs; random jamo strings against the arithmetic','Exhaustive for the 11,172 syllables and all triples with range neighbours; longer jamo text sampled.'),
'C10':(PBT+': invariants of normalized output checked with the crate\'s own accessors','Exhaustive for single characters; sampled for strings.'),
'C11':(EXH,UCD),'C12':(EXH,UCD),'C13':(EXH+', mappings followed to the end',UCD),'C14':(EXH,UCD),'C15':(EXH+' and against the UAX #44 derivation',UCD),
'C16':(EXH,UCD),'C17':(EXH+' and block contiguity',UCD),'C18':(EXH+' and age/assignment consistency',UCD),'C19':(EXH+' and pairwise uniqueness',UCD),
'C20':(EXH,UCD),'C21':(EXH+' and against the published derivations',UCD),'C22':(EXH+' and emoji implications',UCD),
'C23':(PBT+': closure relation over random identifiers; every scalar enumerated as start and continuation','Relation between the crate\'s own XID accessors and normalization; random identifiers beyond single characters in contexts.'),
'C24':('Exhaustive enumeration of all property values and of all code points against the alias table',UCD),
'C25':('Exhaustive differential: char receiver against CodePoint receiver, and repeated calls, on every code point','No oracle values used.'),
'C26':('Exhaustive enumeration of all 2^32 constructor inputs and all printed forms against an independent formatter','Complete for construction, printing and conversion.'),
'C27':(PBT+' of version ordering against component order; ages and bools enumerated','Component grid enumerated, other versions sampled.'),
'C28':('Stateful '+PBT.lower()+': random call programs with interleaved iterators and threads, differential against the same call in a fresh process','Sampled programs; thread interleavings are those the scheduler produces.'),
'C29':(PBT+' of generic tables against the flat table model','Block slices are taken to have exactly the block size and indices to be in range. Every block size up to 1100 with every index type; other shapes sampled.'),
'C30':(PBT+' (Hypothesis): round trip of generated assignments through the compressor, the emitted Rust source compiled and read back','Assignments are sampled; block sizes are divisors of 0x110000 (the tool uses such sizes only). Trusts rustc.'),
'C31':(PBT+' with damaged outputs: regeneration in a scratch copy, differential against the shipped tables over all code points','One data set (the vendored one); prior contents of the generated files are varied. Values are compared, not bytes.'),
'C32':(PBT+' (Hypothesis) of the helpers against set models','Sampled ranges and data lines.'),
'C34':(PBT+': mutated data sets through the whole generator and the library built from it, against a flat model of the data',"Data sets are random changes of the vendored one, over existing values. Trusts rustc and the model's reading of the data files."),
'C35':(PBT+' (Hypothesis) with a stand-in converter: random converter outputs and prior contents, resulting files against the model','The real converter (another repository) is replaced by a stand-in; converter locations without shell metacharacters.'),
'C36':(PBT+': metamorphic relation between segmentation and normalization over enumerated and random strings','Every normalization-active character between all pairs of break classes and all pairs of such characters enumerated; longer strings sampled. A mismatch counts only if the reference models of UAX #15 and UAX #29 do not show it too.'),
'C33':(PBT+' (Hypothesis): generated data through the generators, output parsed back','Sampled data files; enum generators on the vendored aliases.'),
}
NA={}
if len(sys.argv)>1:
    for x in sys.argv[1].split(','): NA[x]='The check is not built yet.'
m={'version':1,'setup_cmd':'./check --setup','checks':[],'not_applicable':[],'notes':'Every check is property-based testing or exhaustive generated-input search; see DESIGN.md. Findings and repairs: known-findings.txt.'}
for i in ids:
    if i in NA: m['not_applicable'].append({'property':i,'reason':NA[i]}); continue
    t,n=T[i]
    m['checks'].append({'property':i,'quick_cmd':'./check '+i,'thorough_cmd':'VERIF_TIER=thorough ./check '+i,'technique':t,'level':'exploration','level_note':n})
json.dump(m,open(os.path.join(R,'MANIFEST.json'),'w'),indent=1); open(os.path.join(R,'MANIFEST.json'),'a').write('\n')
print(len(m['checks']))
