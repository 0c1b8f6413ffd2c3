"""Property -> rules."""
from .rules import wirefmt, totality, stream, gencode, modelids, producer, consumer, hashes, files, parsers, protparse, reading, cli, manifests, diagram, session, failure, reflect, flow, identity, names, runs

A_COMMON = ['the Rust and TypeScript front ends (syn, the TypeScript parser) parse the source as the compilers do',
            'library primitives (Vec, Cursor, Buffer, HashMap, Map) behave as documented; their models are in sa/interp.py and sa/wire.py',
            '64-bit target: lengths and u64 convert to usize without loss']

PROPS = {}


def prop(pid, rules, explanation, assumptions=()):
    PROPS[pid] = dict(rules=rules, explanation=explanation, assumptions=list(A_COMMON) + list(assumptions))


prop('W01', [wirefmt.W01], 'Value-flow summaries of every Rust encoder and decoder of the generated run-time are reduced to byte layouts and compared type by type; the field record written by each encoder is compared with the layout the field reader cuts, per size class.')
prop('W02', [wirefmt.W02], 'As W01 for the TypeScript run-time; in addition each TypeScript layout is compared with the Rust layout of the same type, in both directions.')
prop('W03', [wirefmt.W03], 'The header layout (kind and offset of each field, and where its value comes from) is extracted from the packers and the header readers of both run-times and compared pairwise.')
prop('W04', [totality.W04], 'Every run-time fault a decoding function can raise (read past the end, range outside, unequal copy, subtraction below zero, overflow of an announced length, allocation by an announced length, unwrap or panic, loop without progress) is listed with the guards that dominate it and discharged from them; loop positions get an inductive bound.')
prop('W05', [totality.W05], 'Every read, cut and throw of the TypeScript decoding functions is listed with the guards that dominate it; a read needs a dominating length check or an enclosing try, a cut needs a length check or a loop that can only succeed at the exact end, fixed-size decoders must entail the exact length, and loops must advance.')
prop('W06', [stream.W06], 'One step of chunk() is summarised as a transition from (kept bytes, input) to (kept bytes, queue): the bytes are appended in order, decoding is dominated by the completeness check, the body is bytes 26 to 26+length, what is kept starts there, every successful end refutes a complete message at hand, and next() takes the front of the queue.')
A_GEN = ['the schematic protocol has one member per case the generators distinguish (kind of field, optional, repeated, reference, place in the group tree); names are plain identifiers']
prop('G01', [gencode.G01], 'The text both renderers emit is derived from their string grammars for a schematic protocol with one member per case, parsed, and the generated encoders and decoders are summarised: per field, the record written (id, codec, size class, size) and the record read (id, codec) must be its own, present exactly once, and a failed read must fail the decoder.', A_GEN)
prop('G02', [gencode.G02], 'As G01 for enums: per variant, the index written and the payload codec used by the generated writer, the variant and codec the generated reader selects for that index, indexes distinct, and equal in the Rust and the TypeScript output.', A_GEN)
prop('G03', [gencode.G03], 'For every struct and enum of the schematic protocol the generated message reader is summarised under the id of that entity: it must decode that entity from the body, deliver it under its own path and type, pass on decoding errors and refuse unknown ids; the ids and signatures the packers use are the ones the readers compare with, and every place that makes a renderer gives it the same signature.', A_GEN)
prop('G04', [modelids.G04], 'Every place that makes a structure, enumeration, group or field of the model is enumerated; summaries of the methods of the store must show that each id is the value of the one counter after it was advanced, in every branch and turn of a loop, that the counter ends at or above every issued id, and that an entity put into the model does not stay open.', ['the id counter does not overflow usize'])
A_FLOW = ['the schematic workflow has one member per case the generators distinguish (depth in the group tree, one or several conclusions, required and optional broadcasts); names are plain identifiers',
          'the transport and the protocol run-time behave as their interfaces say (packing and sending succeed or report an error); user code is opaque']
prop('R01', [producer.R01], 'The producers the generators emit for a schematic workflow are derived, parsed and summarised from the place a chunk of data arrives. For every request and every conclusion of it (case split over the received message and the conclusion) the one transport call that answers is found: the structure packed, its sequence, its addressee and the conditions it depends on.', A_FLOW)
prop('R02', [producer.R02], 'As R01: for every conclusion of a request and every event, the transport calls inside loops over addressees are matched with the declared broadcasts: structure, sequence 0, every address of the list given with it, unconditional (or under presence, if optional). TypeScript: the calls with which user code supplies broadcasts are summarised per conclusion, and sending is checked with all, only the required, and one required broadcast missing.', A_FLOW)
prop('R04', [producer.R04], 'As R01 for beacons: the user function each received beacon reaches, and the confirmation that follows under the case that the function succeeded and under the case that it failed: structure, sequence, addressee, error.', A_FLOW)
prop('H01', [producer.H01], 'The derived Rust producer is summarised from the place a chunk of data arrives. Which state of a consumer every way to user code depends on is read from the path conditions; a flag counts as accepted hashes only if every assignment of it needs both hashes to be the expected ones (case split over match and mismatch), the key only if it is set from the key message while that flag is not set, the assigned key unless the strategy lets the consumer through. The answers to key and hashes are checked in every case.', A_FLOW)
prop('H02', [producer.H02], 'As H01 for the derived TypeScript producer.', A_FLOW)
prop('L01', [producer.L01], 'In the derived producers the place that raises the disconnected event is located; the removal of that consumer from the map all messages are looked up in must dominate it, it must depend on the consumer having been there and on nothing else, and no received message may insert a consumer.', A_FLOW)
prop('H03', [consumer.H03], 'The consumers the generators emit are derived, parsed and summarised from the place the connection is reported. Which answers the ready event depends on is decided by a case split over every message of the protocol answered to the self key and to the hashes (and a rejection, no answer, a failed send): it must be raised only if both are the declared positive answers; the hashes must follow the acknowledged key.', A_FLOW)
prop('R03', [consumer.R03], 'As H03 for requests and beacons of users: a fresh sequence number is packed into the message and is the key the answer is awaited under; an incoming message with that number is handed to the waiting request once and to nobody else, any other to the subscribers of its own type; for every request and every message of the protocol as the answer, the outcome reported to the caller is compared with the declared conclusions (including the time limit of the Rust consumer and failed sends).', A_FLOW)
prop('H04', [hashes.H04], 'The four places a hash is embedded (protocol and workflow hash, consumer and producer, per language) are found in the derived projects and the value is traced back through the generator to its computation: the function that digests a file, and the file it is given. The digest must depend on every byte of it; the producer must compare each presented hash with the hash of the same kind, and the consumer must present each under its own name.', A_FLOW)
prop('F01', [files.F01], 'What the generators of the four projects write is derived for a schematic workflow, once into an empty folder and once into a folder in which every file exists: none of the files users fill in may be written, removed or replaced the second time; guards that ask for anything else than that very file are run with it alone. Other calls that take files away, and the function that writes files, are checked by their path conditions.', A_FLOW)
prop('D01', [files.D01], 'Every function of the generator is searched for reads of the clock, of random numbers, the environment or addresses, and whatever depends on one of them, through values, conditions and results of functions, must only be printed; every iteration over a hash map or set must not decide an order; there is no global mutable state; the text of every derived file is the same when it exists already and does not name its folder; and an existing file is replaced as a whole.', A_FLOW)
A_CLI = ['failed file operations are reported by the standard library as Err']
A_PARSE = ['library collections and iterators behave as documented', 'user-visible text of messages is not judged']
prop('V01', [parsers.V01], 'Every field of the workflow entities that names a message is enumerated from the entity types; the methods that mark an entity complete are summarised, and for each such field, under the case that the name is there and the protocol does not declare it, completion must be unreachable and the method must return an error. The errors are followed up to the parser, no name may change after its check, only complete entities may be stored, the end of the file inside of a declaration must be an error, and the lookup itself must fail in every case in which a group or the last name is not declared in the group before.', A_PARSE)
prop('V02', [parsers.V02], 'Each method that puts an entity into the workflow store is summarised under the case that an entity for the same message is there: storing must be unreachable and the method must return an error, which must end the parser. The same for a beacon whose message is a request.', A_PARSE)
prop('P01', [protparse.P01], 'The places that resolve a type name (to an entity of the model or a built-in type) are summarised: each case that is not resolved must end the parser, and the reference kept is the entity found. The expectation automaton of the protocol parser is explored over all sequences of tokens together with the state of the open field or variant: no path may take in a declaration whose type is not resolved, and an error recorded on the way must end the parse with an error. The lookup by path must fail whenever one part of the path is not declared in the group before. A second field of the same name must be refused by the method that adds a field.', A_PARSE)
prop('P02', [reading.P02], 'Both functions that cut the next token from the text are summarised: a step over a character moves the position by its size in bytes (by one only where the character must be ASCII), every token ends between two characters, and no token is returned before a character has been read or again at the end of the text. In both reading loops every kind of token moves the text by the offset of that very token (as do the entities the token is handed to), an unreadable token leaves the loop. The remaining loops of the parsers must change what they ask for: climbing to the parent of a group that is inside of an older one, or taking away what is returned.', A_PARSE)
prop('P03', [reflect.P03], 'The reading loop of the protocol parser and the methods of its model are summarised as functions of the token, of what is expected and of the model. For every form of declaration (struct, enum and group, at the top and in groups, after each other; all pairs of forms of fields and of variants) with arbitrary names, the summaries are composed along the tokens of the declaration: it must be accepted, and the model afterwards must be the model before plus exactly that entity under its name, with the group around as parent, own ids, its fields or variants in order with their names, marks and types, known to the group around, with nothing open and nothing else changed. Closing a group must restore the group around. The walk up the groups must give the names from the outermost to the innermost, and each character must be read as the token it stands for.', A_PARSE)
prop('V03', [flow.V03], 'For every form of declaration of a workflow (requests with one to three conclusions, with and without broadcasts and their marks; events, the default ones included; lists of beacons; configurations with all combinations of targets and keys in several orders) with arbitrary names of one to three words, the summaries of the methods that read it are composed along its tokens, under the assumption that every name is declared: it must be accepted, end exactly with its last token, and what is made of it must hold exactly the names, marks and targets written, in order. The model of the workflow must gain exactly that entry. Which kind a word opens follows from the open methods and the order they are asked in. Each character, in and outside of comments, must be read as the token it stands for.', A_PARSE)
prop('F02', [cli.F02], 'The place the options of the command line are put together is summarised and the value the overwrite option gets is put in where it is asked for. For every output file, under the case that it exists and no documented word of the option is among the arguments: either its path is not accepted and an error is noted, or no call that removes, replaces or opens it for writing can be reached and the action returns an error; the error is followed up to the exit code.', A_CLI)
prop('F03', [cli.F03], 'Every call in the generator that reads, creates, writes or removes files, parses text, or calls a function that does, is enumerated. Under the case that it returns an error, the calling function must return an error (out of loops too), note it among the errors of the option, or end the process with a message and a failure code; success must not be announced before it or after it failed. The errors are followed through the functions that ask the options and run the actions up to the exit code of main.', A_CLI)
prop('M01', [manifests.M01], 'The value written back into each manifest is summarised as a term over the document read; the loops and table operations in it are evaluated over every kind of manifest (with and without a dependency section, with own entries, with own values for the required ones, with and without the sections whose names occur in the term): the result must be the document read with the required dependencies set and nothing else changed. No call that removes or replaces the manifest may be reachable when reading, parsing or serialising failed, and the old text must be gone or cut when the new one is written. Every library the derived projects import must be among the required dependencies.', A_GEN)
prop('U01', [diagram.U01], 'The text the diagram renderers write is derived for schematic workflows (all kinds of requests, events and beacons; each kind alone; the reverse order) by putting the model into the summaries of the renderers. In the derived text every request, error, response, broadcast, event and beacon must be drawn exactly as often as declared, in the group of its owner, between the right participants, a broadcast behind its own response; groups must be closed and no placeholder left.', A_GEN)
prop('H05', [session.H05], 'In the derived producers every call that ends the connection of the consumer whose message is handled is located. For each way to break the handshake (wrong hashes, a message before hashes or key, no assigned key under a disconnecting strategy) such a call must be reached, and none for a consumer that keeps to it; each must be dominated by an assignment of a mark in the state of that consumer, which is never taken back; under the case that the mark is set no user code and no answer is reachable, and the mark is read inside of the loop over messages.', A_FLOW)
prop('R05', [session.R05], 'In the derived producers and consumers the loops that take messages out of the buffer and hand them on are located. Given a message (case split over all of them and over the strategies), no way out of the loop other than to the next message may be reachable, unless the consumer is dropped or gone; the buffer is emptied until it gives nothing; and no state of the consumer that the handling of a message depends on is carried into the loop in a variable.', A_FLOW)
prop('L02', [session.L02], 'TypeScript consumer: the effects of the disconnected event are summarised: the buffer received bytes go to must be emptied, the map requests wait in emptied after every rejection kept with it was called, the identity dropped; a request whose promise was rejected must be sendable again. Rust consumer: the buffer and the map are created inside of the loop over connections, and the tasks of a connection are cancelled when it ends.', A_FLOW)
prop('E01', [failure.E01], 'Derived Rust producer: the condition of every way out of the loop over what the transport reports (breaks, returns, errors passed up from the functions called, out of inner loops too) is simplified under what may be assumed (the handlers of errors and of the start report no failure, packing works, the producer is not asked to end); none may remain satisfiable. No panic or unwrap may be reachable in that loop, and nothing but logging may depend on whether one of several addressees was reached. Derived TypeScript producer: every promise whose value is discarded must end in a rejection handler, no throw may be reachable outside of one, and each send to one of several addressees must have its own handler.', A_FLOW + ['the transport reports each connection once'])
prop('R06', [identity.R06], 'In the derived producers the scopes given to user code and the field that keeps deferred work are located. For every request and conclusion, beacon and event whose user function gets a scope (case split), the place that runs what this scope keeps must be reached exactly once, outside of loops, under no further condition, after every message that belongs to the call was sent, and not at all if nothing was deferred.', A_FLOW)
prop('K01', [identity.K01], 'The methods that store a key of a consumer are found by their parameters; the state they leave is evaluated per field of a schematic key under every combination of: a key was there, overwriting is asked for, an optional field is given. Rust: what user code asks for through the channel is followed into the loop of the producer: the consumer looked up, the key and the overwrite mark must be those told. What user code is told about a consumer must belong to the sender of the message.', A_FLOW)
prop('R07', [identity.R07], 'Each selection method of the filters is reduced to the collection it walks, the condition under which a consumer is taken and the value taken, and the condition is compared with the documented one for all assignments of its atoms; the walk must not end early; a filter that copies the consumers must copy all of them; each call of user code must get a filter over the map of connected consumers.', A_FLOW)
prop('G05', [names.G05], 'The four projects are derived for ten schematic workflows (all kinds; each kind alone; another order; requests with and without broadcasts; one conclusion; optional broadcasts only; nothing in groups) and their names are resolved as a compiler would: module declarations and relative imports to generated files, uses, imports and exports to declarations, every path, type, macro and free identifier to a local, imported, protocol or library name, members of this to declared members; calls are compared with the parameters, struct literals with the fields and variants with the values of what they resolve to. No source is compiled.', A_GEN + ['names of libraries (clibri, tokio, …) and of the language are taken as given; the protocol file declares the names of the protocol and of its run-time'])
prop('A01', [runs.A01], 'The effects of a run are derived from the source for 42 combinations of options (every spelling of every option, several orders, several configurations of languages for both sides, options left out, missing and incorrect sources): the function that reads the arguments is evaluated to the options it stores, the action of the options to the files it creates, the generator that creates each and the sources it reads. The created files must be exactly those asked for, at the places named, by the generator for them (the files of a side must be those of its generator), and what cannot be done must be refused with nothing created; unknown words among the arguments must be refused, known ones never.', ['reading the sources succeeds as the case says; what the parsers build is P03 and V03, what the generators write is G01–G05'])
