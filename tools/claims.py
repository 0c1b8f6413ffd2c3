_T = 'static analysis: '
TECH = {
 'W01': _T + 'value-flow summaries of Rust encoders and decoders reduced to byte layouts, compared type by type',
 'W02': _T + 'byte layouts extracted from the TypeScript and Rust sources, compared across the languages',
 'W03': _T + 'header layouts (kind, offset, origin of each field) extracted from writers and readers, compared pairwise',
 'W04': _T + 'fault obligations (reads, slices, arithmetic, allocation, panics, loops) discharged from dominating guards',
 'W05': _T + 'read/cut/throw obligations of the TypeScript decoders discharged from dominating guards',
 'W06': _T + 'transition summary of the stream reader, checked against the framing rule',
 'G01': _T + 'partial evaluation of the code templates; generated codecs summarised and matched field by field',
 'G02': _T + 'partial evaluation of the code templates; generated enum codecs summarised and matched variant by variant',
 'G03': _T + 'partial evaluation of the code templates; dispatch of the generated message readers summarised per id',
 'G04': _T + 'summaries of the id counter over every construction site of a model entity',
 'G05': _T + 'name resolution and arity checking over the derived sources of ten schematic workflows',
 'P01': _T + 'expectation automaton of the parser explored over token kinds; error flow followed to the result',
 'P02': _T + 'progress and character-boundary obligations of the reading loops',
 'P03': _T + 'composition of the transition summaries of parser and model along every form of declaration',
 'V03': _T + 'composition of the transition summaries of the entity parsers along every form of declaration',
 'V01': _T + 'dominance: completion of an entity must be guarded by the lookup of each name it holds',
 'V02': _T + 'dominance: storing an entity must be guarded by the absence of an equal one',
 'H01': _T + 'path conditions from the received chunk to every user callback of the derived Rust producer',
 'H02': _T + 'path conditions from the received chunk to every user callback of the derived TypeScript producer',
 'H03': _T + 'path conditions of the ready event of the derived consumers, case split over all answers',
 'H04': _T + 'backward dataflow from each embedded or compared hash to its computation',
 'H05': _T + 'typestate of a consumer (dropped mark) along the paths of the derived producers',
 'R01': _T + 'effect summaries of the derived producers per request and conclusion',
 'R02': _T + 'effect summaries of the derived producers per declared broadcast',
 'R03': _T + 'effect summaries of the derived consumers per request and received message',
 'R04': _T + 'effect summaries of the derived producers per beacon',
 'R05': _T + 'loop-exit and loop-carried-state analysis of the derived message loops',
 'R06': _T + 'effect order and reachability of deferred work in the derived producers, per request, conclusion, beacon and event',
 'R07': _T + 'selection conditions of the derived filters compared with the documented ones; aliasing of the map they select from',
 'K01': _T + 'state summaries of the key stores of the derived producers, per field and case; flow of assigned keys through the channel',
 'L01': _T + 'dominance and effect analysis of the lost-connection path of the derived producers',
 'E01': _T + 'failure propagation analysis: reachability of every way out of the event loop, discarded promises, throws and panics in the derived producers',
 'L02': _T + 'effect and lifetime analysis of the lost-connection path of the derived consumers',
 'F01': _T + 'effect analysis of every file write, derived for an empty and for a filled folder',
 'F02': _T + 'path conditions of every write, removal and truncation of an output file',
 'A01': _T + 'abstract evaluation of the way from the options to the files created, compared with what the options ask for',
 'F03': _T + 'error-flow analysis from every fallible call to the exit code',
 'D01': _T + 'taint analysis from clocks, randomness, unordered iteration and existing output to generated text',
 'U01': _T + 'partial evaluation of the diagram templates over schematic workflows',
 'M01': _T + 'value-flow summary of the manifest written, evaluated over every kind of manifest document',
}
NOTE = {}
NA = {}
