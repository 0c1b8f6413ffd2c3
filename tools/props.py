"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

S = 'cli/src/protocol/render/rust/static/'
T = 'cli/src/protocol/render/typescript/static/'
PR = 'cli/src/workflow/render/producer/rust/'
PT = 'cli/src/workflow/render/producer/typescript/'
CR = 'cli/src/workflow/render/consumer/rust/'
CT = 'cli/src/workflow/render/consumer/typescript/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': None}})


p('W01', 'Rust: what is encoded decodes back to the same value',
  'For every supported field type (numbers, booleans, strings, arrays of them, optional values, nested structs and enums and arrays of those) the bytes the generated Rust code writes are read back by the generated Rust code as the same value. Every field is written as a record (16-bit id, size class, size, body) that the record reader cuts at exactly the written boundaries, whatever the size of the body.',
  ['inputs'], 'every value of every type, every body size (each size class and its boundary), every field id up to 65535',
  'The tests write and read a few dozen fixed values with small ids and small bodies; boundary values, other size classes and ids above 255 are never reached.',
  [S + 'protocol.encode.rs', S + 'protocol.decode.rs', S + 'protocol.storage.rs', S + 'protocol.sizes.mod.rs'],
  [('value encoders', S + 'protocol.encode.rs'), ('value decoders', S + 'protocol.decode.rs'), ('record reader', S + 'protocol.storage.rs')],
  ['bytes produced for a message', 'value obtained from them'])
p('W02', 'TypeScript and Rust agree on the bytes of every value',
  'For every supported field type the bytes written by the generated TypeScript code are read back as the same value by the generated TypeScript code and by the generated Rust code, and the other way round. Field records (16-bit id, size class, size, body) are written and cut identically in both languages.',
  ['inputs'], 'every value representable in both languages, every size class, every field id up to 65535',
  'No test here compiles or runs generated TypeScript; the cross-language files are compared for a few fixed values only where a TypeScript compiler is present.',
  [T + 'protocol.primitives.ts', T + 'protocol.convertor.ts', T + 'protocol.convertor.storage.ts', S + 'protocol.encode.rs', S + 'protocol.decode.rs'],
  [('primitive codecs', T + 'protocol.primitives.ts'), ('struct convertor', T + 'protocol.convertor.ts'), ('record reader', T + 'protocol.convertor.storage.ts')],
  ['bytes produced by one language', 'value obtained from them by the other'])
p('W03', 'Both languages write and read the same message header',
  'A packed message starts with a header carrying message id (32 bit), protocol signature (16 bit), sequence (32 bit), timestamp (64 bit) and body length (64 bit), all little endian, followed by exactly that many body bytes; the reader of either language recovers from it the id, signature, sequence and body length the writer of either language put there.',
  ['inputs'], 'every header value and body length, each pair of writer and reader language',
  'The tests exchange a few messages with small sequence numbers and short bodies, in Rust only.',
  [S + 'protocol.packing.rs', T + 'protocol.packing.header.ts', T + 'protocol.packing.message.ts'],
  [('Rust packer and header reader', S + 'protocol.packing.rs'), ('TypeScript header', T)],
  ['header bytes on the wire'])
p('W04', 'Rust: malformed bytes give an error, never a panic',
  'Decoding any byte string with the generated Rust code ends with a value or an error: no panic, no out-of-range access, no arithmetic overflow, no endless loop, and no allocation sized by an announced length that the received bytes do not cover.',
  ['inputs'], 'every byte string, from any peer, at each public decoding entry point',
  'The tests only decode what the matching encoder wrote; the space of malformed inputs is never sampled.',
  [S + 'protocol.decode.rs', S + 'protocol.storage.rs', S + 'protocol.packing.rs', S + 'protocol.buffer.rs', 'cli/src/protocol/render/rust/mod.rs'],
  [('length guards of the record reader', S + 'protocol.storage.rs'), ('length guards of the value decoders', S + 'protocol.decode.rs'), ('header and body extraction', S + 'protocol.packing.rs')],
  ['result of decoding'])
p('W05', 'TypeScript: values of the wrong size are reported as errors',
  'For each TypeScript value decoder that handles a fixed-size value or an array of fixed-size values, a body whose length does not fit the type is answered with an error and never with a made-up value; reading of field records and arrays always advances, so decoding a finite buffer ends.',
  ['inputs'], 'every byte string handed to a TypeScript value decoder or record reader',
  'No test runs generated TypeScript here, and malformed input is never tried.',
  [T + 'protocol.primitives.ts', T + 'protocol.convertor.storage.ts'],
  [('length checks in decode', T + 'protocol.primitives.ts'), ('record loop', T + 'protocol.convertor.storage.ts')])
p('W06', 'Messages are recovered from the stream however it is cut',
  'The receiving buffer of either language accumulates the received bytes in order; it delivers a message only when the whole header and the whole announced body are there, hands exactly the announced body to the decoder, removes exactly header and body from its front and keeps the rest, so the sequence of delivered messages does not depend on how the stream was cut into chunks.',
  ['schedules', 'inputs'], 'every way of cutting a byte stream of valid messages into chunks',
  'The tests receive whatever chunks the loopback transport delivers, practically always one whole message.',
  [S + 'protocol.buffer.rs', S + 'protocol.packing.rs', T + 'protocol.buffer.ts'],
  [('Buffer::chunk, Buffer::next', S + 'protocol.buffer.rs'), ('BufferReaderMessages', T)])
p('G01', 'Every declared struct field is written and read under one id',
  'For every struct of a protocol, the generated Rust and TypeScript types encode each declared field exactly once, decode each declared field exactly once, and use the same field id (the one of the parsed model) for writing and for reading, in both languages; no field is dropped, defaulted or exchanged with another one.',
  ['programs'], 'every protocol file, every struct in it, with any number and type of fields',
  'The generator is exercised on three protocol files; a field kind or combination missing there is never generated.',
  ['cli/src/protocol/render/rust/mod.rs', 'cli/src/protocol/render/typescript/mod.rs', 'cli/src/protocol/structs.rs', 'cli/src/protocol/fields.rs'],
  [('RustRender::structs and field helpers', 'cli/src/protocol/render/rust/mod.rs'), ('TypescriptRender', 'cli/src/protocol/render/typescript/mod.rs')])
p('G02', 'Every enum variant keeps one wire index in both languages',
  'For every enum of a protocol, the generated code writes each variant with an index that is unique within the enum, and the index read selects the variant of the same name and type; indexes are the same in the Rust and the TypeScript output.',
  ['programs'], 'every protocol file, every enum in it, with any number of variants',
  'The tests use enums with a handful of variants and read them back in the language that wrote them.',
  ['cli/src/protocol/render/rust/mod.rs', 'cli/src/protocol/render/typescript/mod.rs', 'cli/src/protocol/enums.rs'],
  [('enum renderers', 'cli/src/protocol/render/rust/mod.rs'), ('enum renderers', 'cli/src/protocol/render/typescript/mod.rs')])
p('G03', 'Every message type can be received under the id it is sent with',
  'The generated message decoder of either language has, for every struct and enum of the protocol including those in nested groups, exactly one arm; the arm is selected by the id that the packer of that type writes into the header and it yields that type. The signature written into headers and the signature expected on receipt are the same in both languages.',
  ['programs'], 'every protocol file with any nesting of groups',
  'The tests send some of the messages of one protocol with one level of groups.',
  ['cli/src/protocol/render/rust/mod.rs', 'cli/src/protocol/render/typescript/mod.rs', 'cli/src/protocol/groups.rs', 'cli/src/protocol/store.rs'],
  [('messages / buffer renderers', 'cli/src/protocol/render')])
p('G04', 'Entity ids are unique over the whole protocol',
  'Every struct, enum, group and field of a parsed protocol gets an id no other entity of that protocol has, whatever the nesting and however it came into the model; ids depend on the protocol text only.',
  ['programs'], 'every protocol file',
  'A few protocol files do not show collisions that need a particular nesting or order of declarations.',
  ['cli/src/protocol/store.rs', 'cli/src/protocol/structs.rs', 'cli/src/protocol/enums.rs', 'cli/src/protocol/groups.rs', 'cli/src/protocol/fields.rs'],
  [('id counter', 'cli/src/protocol/store.rs')])
p('G05', 'Generated projects refer only to what is there',
  'For every workflow, in the producers and consumers of both languages: each module and file generated code declares or imports is generated under that name and each generated module is part of the project; each type, function, variant, member and message generated code refers to is declared there, by the protocol or by a library, is exported or public where it is used from another module, and is called or built with as many values, and with the fields, it has. This includes the files generated for users to fill in.',
  ['programs'], 'every workflow: which kinds of requests, events, beacons and broadcasts it has, how deep in groups and in which order',
  'The tests generate projects for two workflows that use all kinds at once and do not compile the generated TypeScript.',
  ['cli/src/workflow/render/producer/rust', 'cli/src/workflow/render/producer/typescript', 'cli/src/workflow/render/consumer/rust', 'cli/src/workflow/render/consumer/typescript'],
  [('render', 'cli/src/workflow/render')],
  ['whether a generated project builds'])
p('P01', 'A protocol that refers to an unknown type is refused',
  'A field or enum variant whose type is neither a built-in type nor an entity the protocol declares makes parsing of the protocol fail; no code is generated from it. A field name declared twice in one struct is refused as well.',
  ['inputs'], 'every protocol text',
  'The error tests only use workflow files; no malformed protocol file is tried.',
  ['cli/src/protocol/parser.rs', 'cli/src/protocol/store.rs', 'cli/src/protocol/structs.rs'],
  [('type lookup on declaration', 'cli/src/protocol/parser.rs')])
p('P02', 'The parsers end on every input',
  'The protocol parser and the workflow parser end, with a model or an error, on every text: each step of their reading loops consumes at least one character or leaves the loop. Characters of more than one byte never make the reading position fall inside of a character.',
  ['inputs'], 'every protocol and workflow text',
  'The tests parse about twenty well-formed files.',
  ['cli/src/protocol/parser.rs', 'cli/src/workflow/parser.rs'],
  [('reading loops', 'cli/src/protocol/parser.rs'), ('reading loops', 'cli/src/workflow/parser.rs')])
p('P03', 'The model of a protocol says what its text says',
  'Each struct, enum and group of an accepted protocol text is in the parsed model exactly once, under the name written, inside of the group it is written in and known to that group; each field of a struct and each variant of an enum is there once, in the order and under the name written, with the type written, marked as repeated or optional exactly if it is written so, whatever the declarations before it were. The path of an entity is the names of the groups around it, the outermost first. Every form of declaration of the protocol language is accepted at the top and inside of groups of any depth.',
  ['programs'], 'every protocol text: all forms of fields and variants, in all orders and nestings',
  'The sample protocols combine a few forms of fields in one order; a mark or a group that leaks from one declaration into a later one needs an order they do not have.',
  ['cli/src/protocol/parser.rs', 'cli/src/protocol/store.rs', 'cli/src/protocol/structs.rs', 'cli/src/protocol/enums.rs', 'cli/src/protocol/fields.rs', 'cli/src/protocol/groups.rs'],
  [('reading of tokens', 'cli/src/protocol/parser.rs'), ('opening and closing of entities', 'cli/src/protocol/store.rs')],
  ['entities of the model handed to the renderers'])
p('V01', 'A workflow that names an undeclared message is refused',
  'Each place of a workflow file that names a protocol message (request, response, error, broadcast of a request, event, broadcast of an event, beacon, and the self key and assigned key of the configuration) is checked against the protocol; a name the protocol does not declare makes parsing fail before any file is written. Only the default events connected and disconnected need no declaration. A declaration the file ends in the middle of is refused too.',
  ['inputs'], 'every workflow file and protocol file',
  'Thirteen error samples cover some of the places with one spelling each.',
  ['cli/src/workflow/parser.rs', 'cli/src/workflow/config.rs', 'cli/src/workflow/request.rs', 'cli/src/workflow/event.rs', 'cli/src/workflow/beacon.rs', 'cli/src/workflow/store.rs'],
  [('close() of each entity parser', 'cli/src/workflow')])
p('V02', 'Duplicate workflow entities are refused',
  'A second configuration, a second request, event or beacon for the same message, and a beacon for a message that is also a request make parsing of the workflow fail.',
  ['inputs'], 'every workflow file',
  'No test has a duplicate of each kind.',
  ['cli/src/workflow/store.rs'], [('Store::add_*', 'cli/src/workflow/store.rs')])
p('V03', 'The model of a workflow says what its text says',
  'Each request, event and beacon of an accepted workflow text is in the parsed model exactly once and in the order written: a request with the message it is for, its error message, and each conclusion with its name, its response and its broadcasts in the order written; an event with its message and its broadcasts; each broadcast under the full name written and optional exactly if it is marked with a question mark, whatever was read before it. The configuration holds exactly the targets and keys written, and for a key that is not written a message that is declared for it. Text in a comment (from # to the end of the line) has no effect. Every such form is accepted if the names in it are declared.',
  ['programs'], 'every workflow text: all forms of requests, events, beacons and configurations',
  'The sample workflows have one or two broadcasts per conclusion and one order of the configuration; a mark or a name that leaks into the next declaration needs an order they do not have.',
  ['cli/src/workflow/parser.rs', 'cli/src/workflow/config.rs', 'cli/src/workflow/request.rs', 'cli/src/workflow/event.rs', 'cli/src/workflow/beacon.rs', 'cli/src/workflow/store.rs'],
  [('reading of tokens', 'cli/src/workflow/parser.rs'), ('next() of each entity parser', 'cli/src/workflow')],
  ['entities of the workflow handed to the renderers'])
p('H01', 'Rust producer: no message is handled before the handshake is complete',
  'The generated Rust producer hands a request or beacon of a consumer to user code only after that consumer has presented matching hashes and its key and (unless configured otherwise) has been assigned; the key is accepted only while the hashes have not been accepted yet, and a hash mismatch is answered and never marks the hashes as accepted.',
  ['histories', 'schedules'], 'every sequence of messages a peer can send, in any order and chunking',
  'The test consumers are generated ones that always perform the handshake in order.',
  [PR + 'render_mod.rs', PR + 'render_identification.rs', PR + 'render_consumer.rs'],
  [('process_received_data', PR + 'render_mod.rs'), ('Identification', PR + 'render_identification.rs')])
p('H02', 'TypeScript producer: no message is handled before the handshake is complete',
  'The generated TypeScript producer hands a request or beacon of a consumer to user code only after that consumer has presented matching hashes and its key and (unless configured otherwise) has been assigned; the key is accepted only while the hashes have not been accepted yet, and a hash mismatch is answered and never marks the hashes as accepted.',
  ['histories', 'schedules'], 'every sequence of messages a peer can send, in any order and chunking',
  'No test runs the generated TypeScript producer here.',
  [PT + 'render_mod.rs', PT + 'render_identification.rs', PT + 'render_consumer.rs'],
  [('message handling of the producer', PT + 'render_mod.rs')])
p('H03', 'Consumers report being connected only after the handshake succeeded',
  'The generated Rust consumer raises its connected event, and the generated TypeScript consumer its ready event, only after the producer acknowledged the self key and then confirmed the hashes without an error; any other answer leads to an error, never to that event.',
  ['histories', 'fault_sequences'], 'every sequence of answers of a producer',
  'The test producer always answers correctly.',
  [CR + 'render_consumer.rs', CT + 'render_consumer.rs'],
  [('auth', CR + 'render_consumer.rs'), ('hash and key exchange', CT + 'render_consumer.rs')])
p('H04', 'Both sides compare hashes of the same inputs',
  'The protocol hash and the workflow hash embedded in a consumer and those embedded in a producer come from the same computation over the same model, and the producer compares protocol hash with protocol hash and workflow hash with workflow hash.',
  ['programs'], 'every protocol and workflow file, each pair of languages',
  'The tests pair one consumer with one producer of the same run; a mixed or constant hash would pass.',
  ['cli/src/workflow/store.rs', 'cli/src/protocol/store.rs', PR + 'render_mod.rs', PT + 'render_mod.rs', CR + 'render_consumer.rs', CT + 'render_consumer.rs'],
  [('hash computation', 'cli/src/workflow/store.rs'), ('comparison', PR + 'render_mod.rs')])
p('R01', 'Each request is answered once, to its sender, with its sequence',
  'Whatever conclusion the user code reaches for a request (a response or an error), the generated producer of either language packs exactly that answer with the sequence number of the request and sends it to the consumer the request came from; responses, errors and broadcasts of different conclusions are not mixed up.',
  ['histories', 'programs'], 'every workflow file, every request in it, every conclusion of its handler',
  'The tests reach part of the conclusions of some requests, in Rust, mostly one at a time, so an exchanged sequence number or addressee goes unnoticed.',
  [PR + 'render_request_handler.rs', PR + 'render_request_handlers_mod.rs', PR + 'render_mod.rs', PT + 'render_request_handler.rs', PT + 'render_request_handlers_mod.rs', PT + 'render_mod.rs'],
  [('request handlers', PR + 'render_request_handler.rs')])
p('R02', 'Every declared broadcast of a conclusion or event is sent',
  'For every action of a request and for every event of a workflow, the generated producer of either language packs and sends each declared broadcast to its addressees: always when it is required, and when user code supplies it if it is optional; nothing is broadcast that was not declared.',
  ['programs'], 'every workflow file',
  'One workflow with a few shapes of actions is exercised.',
  [PR + 'render_request_handler.rs', PR + 'render_event_emitter.rs', PT + 'render_request_handler.rs', PT + 'render_event_emitter.rs', 'cli/src/workflow/request.rs', 'cli/src/workflow/event.rs'],
  [('broadcast rendering', PR + 'render_request_handler.rs')])
p('R03', 'A consumer hands each answer to the request it belongs to',
  'The generated consumers give every outstanding request its own sequence number, hand an incoming message to the request waiting under its sequence number, accept as answer only the declared response and error types of that request, and pass everything else to the broadcast handlers or report it; a request of the Rust consumer that gets no answer in time ends with an error.',
  ['histories', 'schedules'], 'every interleaving of concurrent requests, answers, broadcasts and timeouts',
  'The tests mostly have one outstanding request and never a late, missing or wrong answer.',
  [CR + 'render_consumer.rs', CR + 'static/implementation/consumer/api.rs', CR + 'render_controller.rs', CT + 'render_request.rs', CT + 'render_consumer.rs'],
  [('pending map', CR + 'static/implementation/consumer/api.rs')])
p('R04', 'Beacons reach user code and are confirmed with their sequence',
  'Each declared beacon is dispatched to its own handler of the producer, and the confirmation is sent to the sender with the sequence number of the beacon, and only after the handler has run without an error.',
  ['programs', 'histories'], 'every workflow file, every beacon in it',
  'A few beacons with succeeding handlers are exercised, in Rust only.',
  [PR + 'render_beacon_emitter.rs', PR + 'render_beacon_emitters_mod.rs', PR + 'render_mod.rs', PT + 'render_beacon_emitter.rs', PT + 'render_mod.rs'],
  [('beacon emitters', PR + 'render_beacon_emitter.rs')])
p('L01', 'A lost connection is removed and reported once',
  'When the transport reports that a consumer is gone, the generated producer of either language removes its state before it raises the disconnected event, and later messages and broadcasts no longer address it.',
  ['histories'], 'every sequence of connects, messages and disconnects',
  'The tests disconnect each consumer once, at the end.',
  [PR + 'render_mod.rs', PT + 'render_mod.rs'], [('listener of transport events', PR + 'render_mod.rs')])
p('F01', 'Generation never overwrites the files users write their code in',
  'Files of the generated project that users are meant to fill in (handlers of requests, events, beacons and broadcasts, and the context) are written only when they do not exist yet; an existing one is left untouched by every later generation.',
  ['configurations', 'histories'], 'every workflow, every state of the destination folder, each target language',
  'The tests generate once into a tree and compile it; they do not compare existing user files afterwards.',
  ['cli/src/workflow/render', 'cli/src/helpers/fs.rs'],
  [('existence guard before write', 'cli/src/workflow/render')])
p('F02', 'A protocol file that exists is replaced only with the overwrite option',
  'Without the overwrite option an existing output file of the protocol generation is left as it is and generation fails with a message.',
  ['configurations'], 'every combination of options and existing files',
  'All tests pass the overwrite option or generate into fresh files.',
  ['cli/src/helpers/fs.rs', 'cli/src/protocol/render/mod.rs', 'cli/src/arguments/args_option_files.rs'],
  [('write helper', 'cli/src/helpers/fs.rs')])
p('A01', 'A run creates what its options ask for, and nothing else',
  'Each option is understood in all its spellings and in any order; the protocol is created in the languages and at the places given, the diagram at its place instead of the projects, and for each side exactly the languages the configuration names, in the folder given for that side (in a folder per language if there are several). A run that cannot do what it is asked for (no source, a missing destination of a configured side, a diagram without a workflow, a missing or incorrect source, an unknown option) is refused.',
  ['configurations'], 'every combination of options and of configured languages',
  'Tests use a handful of fixed combinations of options and do not look at what else is created.',
  ['cli/src/arguments/args_option_files.rs', 'cli/src/ctrlargs.rs', 'cli/src/workflow/render/render.rs', 'cli/src/workflow/config.rs'],
  [('options', 'cli/src/arguments/args_option_files.rs')])
p('F03', 'A failed step of generation is reported',
  'When reading a source, parsing, rendering or writing fails, the run reports the error, does not go on to announce success for that step, and ends with a failure exit code.',
  ['fault_sequences'], 'every failing file operation and every rejected input',
  'Of the failures only rejected workflow files are exercised.',
  ['cli/src/main.rs', 'cli/src/ctrlargs.rs', 'cli/src/arguments', 'cli/src/workflow/render', 'cli/src/protocol/render'],
  [('error propagation', 'cli/src')])
p('D01', 'The same input always generates the same output',
  'Generated code, entity ids and hashes are a function of the input files and options: no iteration over unordered collections, clock, random number or address flows into them.',
  ['histories', 'programs'], 'every input, every pair of runs',
  'The tests do not compare the output of two runs, and hash order differs only between runs.',
  ['cli/src'], [('ordered collections', 'cli/src/protocol/store.rs')])
p('U01', 'The sequence diagram shows every declared interaction',
  'The PlantUML output contains, for every request of the workflow, the request, each response and error with its broadcasts, and for every event and beacon its message and broadcasts, each drawn between the right participants.',
  ['programs'], 'every workflow file',
  'No test reads the PlantUML output.',
  ['cli/src/workflow/render/puml'], [('diagram renderers', 'cli/src/workflow/render/puml')])
p('M01', 'Existing project manifests keep what users put into them',
  'When generation updates a project manifest (Cargo.toml or package.json) it sets the dependencies the generated code requires and keeps everything else as it was: the other dependencies, sections and values users put there. A manifest that cannot be read or parsed is not touched.',
  ['configurations'], 'every existing manifest',
  'The tests generate with the manifest of the repository only.',
  [PR + 'render_cargo.rs', CR + 'render_cargo.rs', PT + 'render_package.rs', CT + 'render_package.rs'],
  [('manifest merge', PR + 'render_cargo.rs')])
p('H05', 'A consumer that breaks the handshake is disconnected and not served any more',
  'The generated producer of either language disconnects a consumer that presents wrong hashes, sends a message before its hashes were accepted or before its key, or (under the strategies Disconnect and EmitErrorAndDisconnect) sends a message without an assigned key. From that decision on no further message of it, in the same chunk or a later one, reaches user code or is answered. A consumer that keeps to the handshake is not disconnected by the handling of its messages.',
  ['histories', 'schedules', 'configurations'], 'every sequence of messages a peer can send, in any chunking, under every identification strategy',
  'The test consumers are generated ones that always perform the handshake in order and never misbehave.',
  [PR + 'render_mod.rs', PR + 'render_identification.rs', PR + 'render_consumer.rs', PT + 'render_mod.rs', PT + 'render_identification.rs'],
  [('process_received_data', PR + 'render_mod.rs'), ('disconnect', PR + 'render_mod.rs'), ('message handling of the producer', PT + 'render_mod.rs')],
  ['calls of the transport', 'calls of user code'])
p('R05', 'Handling does not depend on how the stream is cut into chunks',
  'As long as the received bytes decode, the generated producers and consumers of both languages handle every complete message of a chunk, in the order they arrived, and handle each one with the state the previous one left, so any number of messages in one chunk is handled as if each had arrived on its own.',
  ['schedules', 'histories'], 'every way of cutting a stream of valid messages into chunks, every sequence of messages',
  'The tests receive practically always one message per chunk; what happens to the second message of a chunk is never looked at.',
  [PR + 'render_mod.rs', PR + 'render_consumer.rs', PT + 'render_mod.rs', PT + 'render_consumer.rs', CR + 'render_consumer.rs', CT + 'render_consumer.rs'],
  [('loop over received messages', PR + 'render_mod.rs'), ('loop over received messages (TypeScript)', PT + 'render_mod.rs'), ('reading loop of the consumer', CR + 'render_consumer.rs'), ('_onData', CT + 'render_consumer.rs')],
  ['calls of user code', 'answers sent'])
p('L02', 'A lost connection leaves nothing behind in a consumer',
  'When the connection of a generated consumer of either language is lost, every request that waits for an answer ends with an error, bytes left over from the lost connection are not mixed into the stream of the next one, the TypeScript consumer drops the identity it was given, and the requests and beacons that came to nothing can be sent again.',
  ['histories', 'crash_points'], 'every point at which a connection can be lost',
  'No test loses a connection while a request is outstanding or a message incomplete, and none reconnects.',
  [CT + 'render_consumer.rs', CT + 'render_request.rs', CT + 'render_beacon.rs', CR + 'render_consumer.rs', CR + 'static/implementation/consumer/api.rs'],
  [('_onClientDisconnected', CT + 'render_consumer.rs'), ('loop over connections', CR + 'render_consumer.rs')],
  ['outcome of outstanding requests', 'first messages of the next connection'])

p('E01', 'One consumer cannot stop the producer',
  'Whatever one consumer sends and whenever it vanishes, the generated producer of either language goes on serving the others: a failure of the transport to send to or disconnect one consumer, a message that makes no sense, or user code that reports a failure for one message or event is answered, reported or logged, but does not end the loop over what the transport reports, is not left as an unhandled rejection, does not panic or throw, and a broadcast that cannot reach one addressee is not held against anybody else. (User code of the error and ready handlers may decide to end the producer by failing; the transport reports each connection once.)',
  ['inputs', 'histories', 'crash_points'], 'every message and every point at which a consumer can vanish or user code can fail',
  'The tests only have consumers that behave and a transport that works.',
  [PR + 'render_mod.rs', PR + 'static/implementation/emitters/mod.rs', PT + 'render_mod.rs', PT + 'render_request_handler.rs', PT + 'render_beacon_emitter.rs'],
  [('listener', PR + 'render_mod.rs'), ('_checkErr', PT + 'render_mod.rs')],
  ['what the other consumers are answered', 'result of run()'])
p('R06', 'What user code defers runs once, after the answer',
  'In the generated producers of both languages, work that user code hands to deferred() of its scope while it handles a request, a beacon or an event runs exactly once for that call: after the answer, the confirmation and the broadcasts of that call were sent, whatever the conclusion of the request was and whatever that work is (of several deferrals in one call the last one counts); if nothing was deferred nothing is run.',
  ['inputs', 'histories'], 'every request and conclusion of it, every beacon and every event whose user code gets a scope',
  'No test has user code that defers anything.',
  [PR + 'static/implementation/scope/mod.rs', PR + 'render_request_handler.rs', PR + 'render_beacon_emitter.rs', PR + 'render_event_emitter.rs', PT + 'static/implementation/scope/index.ts', PT + 'render_request_handler.rs', PT + 'render_beacon_emitter.rs', PT + 'render_mod.rs'],
  [('deferred, call', PR + 'static/implementation/scope/mod.rs'), ('deferred, call', PT + 'static/implementation/scope/index.ts')],
  ['order of messages and of the effects of user code'])
p('K01', 'A key given to a consumer is stored as given, for that consumer',
  'In the generated producers of both languages, a key or assigned key given to a consumer is stored whole if it had none or if overwriting is asked for; otherwise every field that is given replaces the stored one, and an optional field that is not given keeps its value. The two keys of a consumer are kept apart, reading gives what was stored, a key user code assigns through the identification of a consumer reaches that consumer with that mark, and user code that handles a message is told the identification of its sender.',
  ['inputs', 'histories'], 'every key, with every combination of optional fields given or not, stored before or not, overwriting or not',
  'No test assigns a key twice or looks at what is stored.',
  [PR + 'render_identification.rs', PR + 'render_mod.rs', PR + 'render_consumer.rs', PT + 'render_identification.rs', PT + 'render_mod.rs'],
  [('key, assign', PR + 'render_identification.rs'), ('key, assign', PT + 'render_identification.rs')],
  ['keys user code reads from an identification'])
p('R07', 'Filters select exactly the consumers they describe',
  'In the generated producers of both languages, the filter user code gets with a message or event selects from the consumers connected at that time: all() gives the uuid of each of them once, except(uuid) of each but that one, exclude(uuids) of each that is not in the list, filter(f) of exactly those f accepts.',
  ['inputs', 'histories'], 'every set of connected consumers and every argument',
  'The tests do not call the filters with more than one consumer.',
  [PR + 'render_identification.rs', PR + 'render_mod.rs', PT + 'static/implementation/consumer/filter.ts', PT + 'render_mod.rs'],
  [('Filter', PR + 'render_identification.rs'), ('Filter', PT + 'static/implementation/consumer/filter.ts')],
  ['addressees of messages user code sends'])

TECH = {}
NOTE = {}
NA = {}
try:
    from tools.claims import TECH, NOTE, NA   # noqa
except ImportError:
    pass


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    from sa.registry import PROPS
    ids = [x['id'] for x in P]
    checks, na = [], []
    for i in ids:
        if i in PROPS and i not in NA:
            checks.append({'property': i, 'quick_cmd': 'python3 -m sa.check %s --tier quick' % i,
                           'thorough_cmd': 'python3 -m sa.check %s --tier thorough' % i,
                           'technique': TECH.get(i, 'static analysis: value-flow summaries of the source, compared against each other'),
                           'level': 'other', 'level_note': NOTE.get(i, PROPS[i]['explanation'])})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
    assert not [k for k in PROPS if k not in ids], [k for k in PROPS if k not in ids]
    m = {'version': 1, 'setup_cmd': 'cd rsfront && cargo build --release --offline', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
