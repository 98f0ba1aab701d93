prop('P10', 'Exactly the documented schemas and command lines are accepted',
     'Every schema that follows the language rules (naming, sizes, alignment, types, constants, options, accessors, imports, uniqueness) and every valid command line is accepted without complaint; every '
     'schema or command line that breaks a rule is refused with a message and a non-zero exit and writes nothing. The spelling of a schema (layout, comments, size and number notation, explicit '
     'defaults, statement order) never changes the generated code.',
     ['inputs', 'programs', 'configurations'], 'every schema text over one or more files, every command line, every target',
     'The repository tests compile a few dozen fixed schemas; each rule has many syntactic contexts, and a wrongly accepted schema only shows in the generated code of some target.',
     COMP + ['main.go', 'bubbler.g4'] + DEF, [('rule checks', 'compiler/proto_visitor.go, import_visitor.go, option_validator.go'), ('command line', 'main.go')],
     ['exit status, messages and output directory of bubbler runs'], 'runtime monitoring: bubbler runs on rule twins (a violating and an obeying document), respelled random schemas and command lines, judged by an acceptance monitor',
     'About 190 rules in bad/good twins plus randomised respellings; the rule catalogue is written from the README and grammar.')
prop('P12', 'Output goes exactly to the documented files, deterministically',
     'For every schema and option set, generation writes exactly the documented files (by package, package options, rmpath, omit_empty, single), with identical bytes on every run whatever the working directory, '
     'path style or earlier content of the output directory, and touches nothing else.',
     ['inputs', 'configurations', 'histories'], 'every set of files, packages and options, every target, every working directory and output state',
     'Tests look at a few fixed outputs of one run; nondeterminism (map order), stale content and path handling depend on package shapes, import graphs and repetition.',
     ['generator/gen/gen_ctx.go', 'generator/gen/gen_option.go', 'main.go'] + TG, [('output paths and writing', 'generator/gen/gen_ctx.go: WriteFile, WritePackage'), ('target paths', 'generator/target/*/*.go: GenerateUnit')],
     ['directory snapshots before and after bubbler runs'], 'runtime monitoring: directory snapshots around repeated bubbler runs compared with the documented file set and with each other',
     'Randomised packages, options and import graphs; four repeated runs per configuration.')
prop('P15', 'Codecs of distinct objects and buffers are independent across threads',
     'Encoding, decoding and size queries on different objects and buffers, and concurrent encoding of one unchanging object, give the same results under every interleaving of threads as alone, without data races.',
     ['schedules', 'inputs', 'programs'], 'every schema, value and interleaving of codec calls on several threads, every target with threads',
     'All tests are single-threaded, so hidden shared state (static scratch, caches) is invisible to them.',
     TG, [('generated encode/decode functions keep no shared state', 'generator/target/*/*.go: encode, decode, array helper templates')],
     ['results of concurrent codec calls; race detector reports'], 'ThreadSanitizer (C, C++), the Go race detector and result monitors over concurrent codec calls in every threaded target',
     'Stress with up to 8 threads over shared and private objects; JavaScript targets are run in worker threads only through result monitors where supported.')
prop('P17', 'Codec calls carry no memory from one call to the next',
     'The result of an encode, decode or size query depends only on its arguments: any history of calls on any objects, including refused decodes and decodes into an object that already holds '
     'another value, leaves the next call with the same result as on a fresh object, and decoding never changes other objects.',
     ['histories', 'inputs', 'programs'], 'every schema and every sequence of codec calls on any objects',
     'Tests use each object once; stale members, reused buffers and shared defaults only appear after particular sequences.',
     TG, [('decode overwrites every member', 'generator/target/*/*.go: decode templates'), ('default values are not shared', 'generator/target/*/*.go: default value templates')],
     ['object dumps and frames after random call histories'], RT + 'a history monitor with a reference model of every live object',
     'Random call sequences over several live objects per schema.')
prop('P19', 'Diagnostics name the file and line of the offending construct',
     'Every refusal of a schema and every warning names the file, as it was found, and the line of the construct that breaks the rule, in the input file or in any imported file; warnings never stop '
     'generation nor change its result.',
     ['inputs', 'programs'], 'every rule violation at every position of every file of an import graph',
     'Tests only check that an error occurs; the position is computed separately at each of about 150 error sites.',
     COMP + ['definition/error.go', 'definition/warning.go', 'definition/position.go'], [('positions of errors', 'compiler/*_visitor.go: CompileError, CompileWarning'), ('printing', 'compiler/print_visitor.go, compiler/error_listener.go, definition/error.go')],
     ['messages printed by bubbler'], 'runtime monitoring: rule violations placed at random lines and import depths, judged by a position monitor',
     'The rule catalogue of P10 with marked constructs; columns are not judged.')

prop('P09', 'Custom accessors compute their schema expression in every target',
     'A custom getter returns the value of its expression over the current member, and a custom setter assigns the value of its expression over the argument to exactly that member, with the precedence, '
     'literals, casts and operators of the schema language. Every target computes the same, wherever arithmetic stays in range and types are cast explicitly (unsigned quantities stay below the sign bit in Java).',
     ['inputs', 'programs'], 'every well-typed accessor expression, every member value or argument, every target, in structs, embedded structs and structs defined inside of fields',
     'The tests evaluate about a dozen expressions at a few points; operator mapping, precedence, literal notation and casts are written separately per target and only differ for particular combinations.',
     COMP + ['definition/expr.go', 'generator/gen/gen_dispatcher.go'] + TG, [('expression generators', 'generator/target/*/*.go: *ExprGenerator, *LiteralGenerator'), ('expression visitor', 'compiler/proto_visitor.go: ExprVisitor, MethodVisitor'), ('accessor templates', 'generator/target/*/*.go: customGetter, customSetter')],
     ['values returned by getters, members after setters'], RT + 'an oracle that evaluates the same expression trees on the same values',
     'Random expression trees over every operator; integer division, boolean casts of numbers and overflow are outside of the domain because target languages differ there.')

prop('P14', 'Types of imported packages work everywhere they can be used',
     'A struct can be built from the enums and structs of any file it imports, directly or through other files, as members, array elements or embedded, and generated code for every target builds, loads and '
     'exchanges frames exactly as if all types stood in one file: for every import graph (chains, diamonds, files that only import, omitted files), package names, package options, relative imports and single files.',
     ['programs', 'configurations'], 'every acyclic import graph over any packages and package options, every target and import style',
     'Tests use two or three fixed files; missing, surplus and clashing imports, namespaces and header guards only show for particular graphs and package names.',
     ['generator/gen/gen_util.go', 'generator/gen/gen_dispatcher.go', 'definition/package.go', 'definition/compilation_unit.go', 'compiler/import_visitor.go'] + TG,
     [('imports of generated files', 'generator/target/*/*.go: file templates, GenerateUnit, resolveImports'), ('visible types', 'definition/compilation_unit.go: AddImport'), ('relative paths', 'definition/package.go: Difference, ToRelativePath, ToPyRelativePath'), ('qualified names', 'generator/target/*/*.go: GenerateStruct, GenerateEnum, structPackagePrefix, namespace')],
     ['builds, frames and objects of programs over random import graphs'], RT + 'compiler, loader and wire-model monitors over programs generated from random import graphs',
     'Kotlin has no installed compiler: its code is checked and run by an own front end (bbv/kt.py). A C/C++ include that finds a file of the own directory first is a listed finding.')

prop('P11', 'Whatever is accepted builds, loads and runs in every target',
     'For every accepted schema and every combination of options, the generated code of each target compiles or loads and runs without errors or surplus definitions, in one or several translation units and '
     'with the compilers of a user: whatever types, sizes, arrays, names, padding-only or constant-only structs and accessors the schema combines, as long as its names neither equal each other nor words the target reserves.',
     ['inputs', 'programs', 'configurations'], 'every accepted schema, every subset and order of generation options, every target',
     'Tests compile a handful of schemas with single options; helper functions, includes and temporaries that a combination misses or defines twice only show when just that combination is compiled.',
     TG, [('file templates and helper selection', 'generator/target/*/*.go: GenerateUnit, Reset, helper templates'), ('names of generated members', 'generator/gen/gen_util.go, generator/target/*/*.go')],
     ['exit status and messages of compilers, linkers and loaders over generated code'], RT + 'compilers, linkers and loaders as monitors over randomly generated schemas and option sets',
     'Random schemas with hostile but legal names under random option subsets. Kotlin has no installed compiler: its code is checked and run by an own front end (bbv/kt.py). Clashes of schema names with generated names are listed findings.')

prop('P13', 'Embedding a struct equals writing its fields in place',
     'A struct that embeds others, by name or written in place, to any depth, has exactly the frames, framing, members, accessors and call histories of the struct in which all their fields are written at the point of embedding: '
     'positions, orders, constants, padding, dynamic members and custom accessors carry over unchanged, in every target.',
     ['inputs', 'programs', 'configurations'], 'every struct that embeds others at any depth and position, every value, every target and option set',
     'The tests embed one or two small structs; flattening is done separately for layout, members and accessors of each target and only differs for particular positions, depths and kinds of member.',
     ['compiler/proto_visitor.go', 'definition/struct.go', 'definition/field.go', 'generator/gen/gen_dispatcher.go'] + TG, [('flattening', 'definition/struct.go, definition/field.go: EmbeddedField'), ('fields of embedded structs', 'generator/target/*/*.go: GenerateStruct, GenerateEmbeddedField')],
     ['frames, objects and accessor results of embedding structs and their twins'], RT + 'a differential monitor: each embedding struct next to its flat twin, both judged by one model',
     'Random chains of embeddings up to five levels with accessors and dynamic members at every level.')

prop('P16', 'Enumerations keep their names and numbers in every target',
     'Every enumerator has in every target exactly the number its declaration gives it (implicit, decimal, hexadecimal, octal or through another enumerator, local or imported), the lookups of the generated types agree with it, and '
     'frames with named and unnamed numbers, in members, arrays and constants of any width from 1 to 64 bits, are encoded and decoded with it.',
     ['inputs', 'programs'], 'every enumeration of 1 to 64 bits with numbers below 2^53, every use as member, array element or constant, every target',
     'The tests have a few enumerations of one byte; wide, implicit, aliased and imported enumerators take separate paths in each target.',
     COMP + ['definition/enum.go'] + TG, [('numbers of enumerators', 'compiler/proto_visitor.go: VisitEnum, VisitEnumValue'), ('enum templates', 'generator/target/*/*.go: enumTemplate, generateEnum'), ('enum fields', 'generator/target/*/*.go: encode and decode of definition.Enum')],
     ['names, numbers and lookups of the generated enum types; frames and objects'], RT + 'a monitor that lists enumerators from the loaded code and compares them with the declaration, and the wire model',
     'Random enumerations of all widths. Numbers from 2^53 on are outside of the domain (JavaScript numbers); a C limit for undeclared wide numbers is a listed finding.')

prop('P18', 'Generated objects behave as plain values',
     'A generated object holds exactly the values last written to each member or item, through accessors or directly, and nothing else; a new object encodes as zero; equality and hash codes, where the target generates them '
     '(Java, C#, Kotlin), hold exactly for objects with the same contents.',
     ['inputs', 'histories', 'programs'], 'every struct, every sequence of member writes and reads, every pair of objects, every target',
     'The tests write each member once; setters of arrays, strings and nested structs, copies and comparisons only differ after particular writes and for particular member types.',
     TG, [('accessors', 'generator/target/*/*.go: rawGetter, rawSetter, array item accessors'), ('equality', 'generator/target/{java,csharp,kotlin}/*.go: equals, hashCode'), ('initial values', 'generator/target/*/*.go: default values')],
     ['members read after random writes; encodings of new objects; equals and hashCode'], RT + 'a model of the object that replays every write, and an equality monitor over pairs that differ in one leaf',
     'Random write histories and one-leaf mutations; NaN and negative zero are left out of equality. New objects are only compared where the target has a zero value for every member.')

prop('P20', 'Every entry point of a codec agrees with every other',
     'All documented ways to call a generated codec - static and instance functions, pointer, vector, span, memory, start index, allocated or given buffers, plain objects, reported dynamic flag and static size - give '
     'the same frame, value, length and refusal for the same input.',
     ['inputs', 'programs', 'configurations'], 'every struct, value, frame and truncated frame, every public entry point of every target, every option set',
     'The tests call one entry point per target; overloads are separate templates that can drift apart unnoticed.',
     TG, [('entry points', 'generator/target/*/*.go: encode, encode_size, decode, decode_size, Size, Dynamic templates')],
     ['results of every entry point on one input'], RT + 'a differential monitor over all entry points of one codec, anchored to the wire model by the other properties',
     'Random structs and values; JavaScript plain objects keep nested structs as instances.')

prop('P21', 'Any input ends in output or a clean refusal',
     'Whatever bytes are given as schema, import graph or options, the compiler ends, and either writes code or prints a diagnostic with a location, exits non-zero and writes nothing: no panic, no hang, no partial output, no '
     'silent success.',
     ['inputs', 'programs', 'configurations'], 'every byte sequence as input file, every import graph including cycles and missing files, every option set',
     'Tests feed well-formed files and a few fixed errors; panics and half-written output need broken, cut or mutated inputs.',
     COMP + ['main.go', 'parser', 'generator/gen/gen_ctx.go'], [('error collection', 'compiler/compiler.go, compiler/error_listener.go'), ('writing after success', 'generator/gen/gen_ctx.go: Flush'), ('exit status', 'main.go')],
     ['exit status, messages and files written by bubbler'], 'runtime monitoring: a process monitor (exit status, signals, processor time, messages, directory snapshot) over mutated, cut and random inputs and import graphs',
     'Token and byte mutations of valid schemas, random bytes, import graphs with cycles and faults. Deeply nested in-place structs, for which the parser takes exponential time, are a listed finding.')

prop('P22', 'Generation options have exactly their documented effect',
     'An array is unrolled in the codec exactly if it has at most as many elements as the -unroll threshold (4 by default, -1 always unrolls, 0 always loops), so rolled code does not grow with the array; bit helpers '
     'appear only where a fixed-width array is rolled (Kotlin uses them for every field); default accessors exist exactly without -minimal; -decnum writes constants in decimal; options a target forces, defaults to or ignores change nothing.',
     ['inputs', 'configurations'], 'every accepted schema, every array length and threshold, every option and target',
     'Wire behaviour is the same with and without an option, so round-trip tests pass when an option is lost, inverted or off by one for one element kind, target or direction.',
     ['main.go', 'generator/gen/gen_option.go'] + TG, [('options', 'main.go, generator/gen/gen_option.go'), ('loop selection', 'generator/target/*/*.go: LoopUnroll'), ('accessors', 'generator/target/*/*.go: MinimalCode'), ('literals', 'generator/gen/gen_dispatcher.go: FormatIntLiteral')],
     ['code written by the real compiler for schemas that differ in one option or array length'], 'runtime monitoring: a metamorphic monitor over recorded runs of the compiler that compares the code it wrote, without comments, and its messages',
     'Observes compiler output rather than generated code at run time. Literals in accessor expressions are outside of -decnum. C and C++ array setters are no codec and may grow. Kotlin writes every field through its bit helpers.')
