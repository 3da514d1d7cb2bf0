#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (single source for ids, titles, statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

F = 'scheme/field.py'
fields = lambda *n: ['scheme/fields/%s.py' % x for x in n]

p('C01', 'Scalar fields accept exactly the conforming native values',
  "A scalar field (boolean, integer, float, decimal, text, email, token, UUID, enumeration, binary, date, time, datetime, opaque) processing a native value succeeds if and only if the value is null and nulls are allowed, or has the field's type and meets every declared constraint: constant, minimum/maximum, minimum/maximum length, pattern, enumeration members, ignored values, token segments. On success the result is the value itself, except that text is stripped (unless stripping is off), email addresses are trimmed, lower-cased and comma-joined, and datetimes are moved into the field's timezone. On failure the error names the first violated constraint, and a value of the wrong type is reported as a type error.",
  ['inputs', 'configurations'], 'every scalar field configuration and every native value, in both phases',
  'The tests try a handful of values per field type; the accept/reject boundary of each constraint and the interaction of constraints (strip with length, constant with null, ignored values with nonnull) need all inputs.',
  [F] + fields('binary','boolean','date','datetime','decimal','email','enumeration','float','integer','text','time','token','uuid'),
  [('Field.process', 'scheme/field.py: Field.process'), ('per-type validation', 'scheme/fields/*.py: _validate_value'), ('null policy', 'scheme/field.py: _is_null')],
  ['return value or exception of Field.process'])

p('C02', 'Unserializing a scalar yields exactly the value its serialized form denotes',
  "Unserializing a scalar yields exactly the native value the serialized form denotes (numeric strings and numbers for integer, float and decimal; YYYY-MM-DD, HH:MM:SS and YYYY-MM-DDTHH:MM:SSZ text for date, time and datetime, the latter read as UTC; URL-safe base64 bytes for binary), after which the declared constraints apply to that native value. A form that denotes no such value is a type error, booleans never count as integers, and already-native values are accepted where the type has no ambiguous form. Serializing a valid value yields that same canonical form.",
  ['inputs', 'configurations'], 'every scalar field and every serialized input',
  'Tests check a few canonical strings; near-miss forms (padding, signs, unpadded dates, invalid calendar days, malformed base64, bools) are an unbounded input space.',
  [F] + fields('binary','date','datetime','decimal','float','integer','time','text'),
  [('_unserialize_value/_serialize_value', 'scheme/fields/*.py'), ('Field.process ordering', 'scheme/field.py: Field.process')],
  ['Field.process(value, phase, serialized=True)'])

p('C03', 'Structures accept exactly values matching their declared fields',
  "A structure accepts a mapping if and only if every present field's value is accepted by that field, every required field is present (inbound: or has a default), and, when strict, no undeclared key is present; undeclared keys are dropped when not strict, and null values of fields that ignore nulls are treated as absent. Partial processing waives required fields and defaults at the top level only. The result contains exactly the accepted fields with their processed values, in the declared key order when one is given.",
  ['inputs', 'configurations'], 'every (nested, polymorphic or plain) structure and every candidate mapping, both phases',
  'Tests use structures with two or three fields and one deviation at a time; the combination of presence, nullness, defaults, required, strictness, phase and nesting is what users meet.',
  fields('structure') + [F],
  [('Structure.process', 'scheme/fields/structure.py: Structure.process')], ['Structure.process'])

p('C04', 'Sequences, tuples and maps are validated element-wise and exactly',
  "A sequence, tuple or map is accepted if and only if the container has the right type and length (minimum/maximum length, exact tuple arity), every item, key and value is accepted by the field declared for it, unique sequences have no duplicate processed items, and all required keys are present. The result has the same shape with each item, key and value replaced by its processed form, order preserved. Length, uniqueness and key violations are reported as such.",
  ['inputs', 'configurations'], 'every sequence, tuple and map field over every item field and every candidate value, both phases',
  'Tests use short flat containers of integers and text; arbitrary nesting, boundary lengths, processed keys and duplicates that arise only after processing are not sampled.',
  fields('sequence','tuple','map') + [F],
  [('Sequence.process', 'scheme/fields/sequence.py'), ('Tuple.process', 'scheme/fields/tuple.py'), ('Map.process', 'scheme/fields/map.py')], ['process'])

p('C05', 'A union is decided by its first member that recognises the type',
  "Processing a value with a union returns the result of the first participating field, in declared order, that does not reject it with a type error; a constraint violation by that field is reported and no later field is tried. If every participating field rejects the type, the union itself reports a type error. Null is governed by the union's own null policy.",
  ['inputs', 'configurations'], 'every ordering of participating fields (scalar and structural, nested unions) and every value',
  'Tests cover two unions; priority among overlapping types and the type-error/constraint-error distinction depend on every ordered combination.',
  fields('union') + [F], [('Union.process', 'scheme/fields/union.py: Union.process')], ['Union.process'])

p('C06', 'Polymorphic structures use the variant named by the discriminator',
  "A polymorphic structure processes a value with exactly the fields of the variant its discriminator names, plus the fields common to all variants and the discriminator itself; fields of other variants are unknown to it. A missing or null discriminator is a missing-required-field error, and a value that is not a declared variant is rejected. Extraction, instantiation, interpolation, defaults and description select variants by the same rule.",
  ['inputs', 'configurations'], 'every set of variants, common fields and discriminator kind, every candidate value',
  'Tests use two variants of one field each; shared names with different types across variants, inherited common fields and non-text discriminators are not reached.',
  fields('structure'), [('polymorphic dispatch', 'scheme/fields/structure.py: process, _get_definition, generate_defaults, describe')],
  ['process', 'extract', 'instantiate', 'interpolate', 'generate_defaults'])

p('C07', 'Validation errors mirror the value and locate every failure',
  "When a structural value is rejected for its contents, the error carries one entry per failing position, nested exactly like the value: every invalid, missing or unknown position is reported with its own tokens and path, and no valid position is. The serialized error lists the same failures in the same shape, and the printed report shows every failure exactly once, numbered, with its path. Exactly the failures present are reported however many there are and however deeply they nest.",
  ['inputs', 'configurations'], 'every schema and every value with any number of simultaneous failures at any depth',
  'Tests compare tokens of one or two failures and never the identity path, the serialized form of deep trees, or the printed report.',
  ['scheme/exceptions.py', F] + fields('structure','map','sequence','tuple'),
  [('error trees', 'scheme/exceptions.py: StructuralError'), ('ancestry', 'scheme/fields/*.py: process')],
  ['exception attributes errors, structure, identity; serialize(); str()'])

p("C08", "Processing always ends in a value or a declared error",
  "Whatever value is given, including wrong types, unhashable or unorderable values, malformed encodings, not-a-number values, mixed naive and aware times and values meant for other fields, processing by a properly constructed field either returns a value or raises a validation or type error, or an undefined-field error when a nested field is still undefined. The raised error can always be printed and serialized. No other exception escapes.",
  ['inputs', 'configurations'], 'every field and every Python value built from the types any field handles',
  'Tests feed expected kinds of bad values; robustness is a statement about all values against all fields.',
  [F, 'scheme/exceptions.py'] + fields('binary','date','time','decimal','enumeration','map','sequence','structure','surrogate','error','union'),
  [('exception translation', 'scheme/field.py: Field.process; scheme/fields/*.py')], ['process; str(error); error.serialize()'])

p('C09', 'Serialize-then-unserialize is the identity on valid values',
  "For every field and every value it accepts, serializing yields only natively serializable data and unserializing that data with the same field yields a value equal to the accepted one. Processing an already processed value again, in either phase, changes nothing. Instants carry whole seconds.",
  ['inputs', 'configurations'], 'every nested schema and every valid value',
  'Tests check pairs written by hand per field type; the composition over nested schemas and boundary values (early years, empty containers, canonicalised text) is not covered.',
  [F] + fields('structure','map','sequence','tuple','union','date','datetime','time','decimal','binary','definition','error','object'),
  [('process OUTBOUND / INBOUND', 'scheme/field.py and scheme/fields/*.py')], ['process results'])

p('C10', 'Defaults fill exactly the absent fields of inbound structures',
  "When a structure is processed inbound, a declared field that is absent takes its default, processed like any supplied value, and nothing else does: present values (even null or falsy ones) are never replaced, outbound and partial processing add nothing, and a default satisfies a requirement. Generated defaults contain exactly each field's default or constant (all fields when not sparse). Defaults stay the same for the life of the schema, whatever callers do with results they received.",
  ['inputs', 'configurations', 'histories'], 'every structure with defaults, every subset of present fields, any history of calls and mutations of returned results',
  'Tests check a single default once; that defaults are not shared with results needs a history of calls with mutations in between.',
  fields('structure') + ['scheme/element.py'],
  [('default handling', 'scheme/fields/structure.py: process, generate_defaults')], ['process results over repeated calls'])

p('C11', 'Schema operations never modify their inputs or the schema',
  "Processing, serializing, unserializing, extracting, instantiating, interpolating, describing, reconstructing, screening, filtering, transforming and cloning leave every argument value, description and schema exactly as it was, so repeating a call gives an equal result. Containers in results are new objects: changing a result never changes the input it came from, the schema, or any other result.",
  ['inputs', 'histories', 'configurations'], 'every sequence of calls on shared schemas and shared values',
  'Tests never look at the arguments after a call and use each schema for one or two calls.',
  [F] + fields('structure','map','sequence','tuple','union','definition') + ['scheme/surrogate.py'],
  [('fresh containers', 'scheme/fields/*.py: process, extract, instantiate, interpolate'), ('Field.reconstruct', 'scheme/field.py')],
  ['projections of arguments and schemas before/after each call'])

p('C12', 'JSON round trip preserves every valid value',
  "For every schema and every value it accepts, serializing to JSON gives a valid JSON document that holds exactly the value's serialized form, and unserializing that document with the same schema gives an equal value. Unserializing any JSON document gives the same result as processing the data it encodes. Binary values, and keys that are neither text nor numbers, are outside JSON.",
  ['inputs', 'configurations'], 'every nested schema without binary, every valid value, every Unicode text',
  'The JSON test checks nothing beyond the name; round trips through schemas are untested.',
  ['scheme/formats/json.py', F], [('Json', 'scheme/formats/json.py'), ('Field.serialize/unserialize', 'scheme/field.py')], ['serialize/unserialize with format json'])

p('C13', 'YAML round trip preserves every valid value',
  "For every schema and every value it accepts, serializing to YAML gives a document that a standard YAML reader loads as exactly the value's serialized form (dates and datetimes may load natively), and unserializing it with the same schema gives an equal value. This holds for text of any content (numeric-looking, boolean-looking, multi-line, padded, punctuated, very long, non-ASCII), for text keys of any content, and at any nesting of mappings and sequences.",
  ['inputs', 'configurations'], 'every nested schema without binary, every valid value, every printable Unicode text',
  'Tests check a dozen hand-written documents; the YAML writer is hand-made and its quoting decisions depend on the full content of each string and its position.',
  ['scheme/formats/yaml.py'], [('Yaml._serialize_*', 'scheme/formats/yaml.py')], ['serialize/unserialize with format yaml'])

p('C14', 'XML round trip preserves every valid value',
  "For every schema of boolean, numeric, text-like, date and time, sequence, tuple, map and (plain or polymorphic) structure fields whose names and keys are XML names, and every value it accepts made of characters XML allows, serializing gives a well-formed document with one element per item, null marked as such, and unserializing it with the same schema gives an equal value. Null, empty text, empty containers and absent fields stay distinct.",
  ['inputs', 'configurations'], 'every such schema and value',
  'One document is tested; empty, null, nested and control-character cases are not.',
  ['scheme/formats/xml.py'], [('Xml', 'scheme/formats/xml.py')], ['serialize/unserialize with format xml'])

p('C15', 'CSV round trip preserves the scalar columns of every row',
  "For a sequence of structures, serializing to CSV gives a header of the selected scalar columns (all of them, sorted, by default) and one record per item in order; unserializing with the same schema gives back, for every row, exactly the non-null, non-empty scalar values. This holds for cell text of any content, including separators, quotes and line breaks, and nothing is printed or written elsewhere.",
  ['inputs', 'configurations'], 'every row schema, column selection and list of rows',
  'One three-row document with plain words is tested.',
  ['scheme/formats/csv.py'], [('Csv', 'scheme/formats/csv.py')], ['serialize/unserialize with format csv'])

p('C16', 'Structured text and URL-encoded round trips preserve structured values',
  "Serializing nested mappings, lists, booleans, nulls, numbers and text as structured text, or a mapping of them as a URL-encoded string, and unserializing with the same schema gives an equal value, at any depth of nesting and including text containing escaped brackets. Text must not contain commas, vertical bars or backslashes, nor read as true, false or null; keys must be free of punctuation; lists of a single empty text are outside the notation.",
  ['inputs', 'configurations'], 'every nested value over the notation',
  'Tests cover a few hand-written strings at depth two.',
  ['scheme/formats/structuredtext.py', 'scheme/formats/urlencoded.py'],
  [('StructuredText', 'scheme/formats/structuredtext.py'), ('UrlEncoded', 'scheme/formats/urlencoded.py')], ['serialize/unserialize with formats structuredtext, urlencoded'])

p('C17', 'Files hold the last successful write and are read in the right format',
  "Reading a file returns the value most recently written to it successfully, using the format named explicitly, else the format class called, else the file extension (case-insensitive); an unknown format or extension, or a missing file, is refused with a value error (a missing file read quietly gives False) and touches nothing. A write that fails, because the value is invalid or cannot be represented in the format, leaves the previous content of the file unchanged.",
  ['histories', 'fault_sequences', 'inputs'], 'every history of successful and failing reads and writes over several paths and formats',
  'Tests do one read or one write each on fresh files; overwrites, failing writes and mixed formats are not combined.',
  ['scheme/format.py', F], [('Format.read/Format.write', 'scheme/format.py'), ('Field.read/Field.write', 'scheme/field.py')],
  ['file content and return values'], [('file', 'content per path', 'file system')])

p('C18', 'Reconstructing a described field gives an equivalent field',
  "For every field whose parameters are natively serializable, describing it yields only natively serializable data, and reconstructing a field from that description yields a field with the same description that serializes, unserializes and validates every value with the same outcome. Describing survives a trip through JSON. Parameters that cannot be serialized natively are omitted.",
  ['configurations', 'inputs'], 'every nested field configuration and every value used to compare behaviour',
  'Tests compare a few descriptions literally and never compare behaviour of the reconstructed field.',
  [F] + fields('structure','map','sequence','tuple','union','enumeration','token','date','datetime','decimal','time','surrogate','definition'),
  [('describe/reconstruct', 'scheme/field.py; scheme/fields/*.py')], ['describe(), Field.reconstruct()'])

p('C19', 'Clones and derived schemas are equivalent and independent of the original',
  "Cloning a field, with or without overridden parameters, and extending or replacing in a structure give a new schema that behaves like the original except for the requested difference. After that, no operation on either one (inserting, merging, removing, redefining, setting attributes, processing) changes the other, at any depth. The original is never modified by deriving from it.",
  ['histories', 'configurations'], 'every history of deriving and editing operations over a family of related schemas',
  'Tests derive once and check the direct keys; sharing at depth only shows after editing one of the two.',
  [F] + fields('structure','enumeration','sequence','map','tuple','union'),
  [('Field.clone', 'scheme/field.py: clone, __deepcopy__'), ('Structure.extend/replace', 'scheme/fields/structure.py')],
  ['attribute projection of every live schema'], [('schemas', 'family of live field objects and what they share', 'in memory')])

p('C20', 'Editing a structure has exactly the stated effect on its fields',
  "Inserting adds a named field unless the name is taken and overwriting was not requested; merging adds every field whose name is not taken (or replaces those taken, when preferred); removing drops exactly the named fields that exist; extending and replacing do the same on a copy, replacing only names already present and returning the same object when none is. Fields take the name they are stored under, and every other field is untouched. Redefining an enumeration appends to or replaces its members.",
  ['histories'], 'every history of editing operations with any mixture of new and existing names',
  'Tests apply one operation with one field at a time, so effects that depend on the position of an existing name among several are missed.',
  fields('structure','enumeration'), [('insert, merge, remove, extend, replace', 'scheme/fields/structure.py'), ('redefine', 'scheme/fields/enumeration.py')],
  ['structure contents after each operation'], [('structure', 'name to field mapping', 'Structure.structure')])

p('C21', 'Filtering, screening, transforming and visiting reach every nested field once',
  "Screening holds exactly when all given attributes match; filtering keeps a field when any (or, on request, all) of the given attributes match and applies the same rule to every nested field of a structure, dropping those that fail and keeping the rest unchanged. Transforming replaces exactly the fields the callback replaces, at any depth including polymorphic variants, and returns the same object when nothing was replaced. Visiting a description applies the callback to every direct sub-description in the matching shape.",
  ['configurations', 'programs'], 'every nested schema, attribute assignment and callback',
  'Tests use flat schemas and single attributes, for which the any/all distinction and nested propagation are invisible.',
  [F] + fields('structure','sequence','map','tuple','union'), [('filter/screen/transform/_visit_field', 'scheme/field.py; scheme/fields/*.py')],
  ['returned fields'])

p('C22', 'Late-defined fields behave like fields defined in place',
  "A schema built with an undefined placeholder refuses, with an undefined-field error, every processing, extraction, instantiation or interpolation that needs the missing field, and no other; once the placeholder is defined, every schema that used it, in any position and however many, behaves exactly as if built with the definition, down to what its failures say of the refusing field (a definition without a name takes that of the structure member it is put in place of). The order of building and defining does not matter. Recursive schemas process any finite value correctly.",
  ['histories', 'configurations', 'inputs'], 'every order of building schemas around placeholders and defining them, every value',
  'Tests define one placeholder used once per container type and never recurse.',
  [F] + fields('structure','sequence','map','tuple','union'), [('Undefined', 'scheme/field.py: Undefined'), ('_define_undefined_field', 'scheme/fields/*.py')],
  ['process/extract/instantiate/interpolate before and after define'], [('callbacks', 'schemas waiting on a placeholder', 'Undefined.callbacks')])

p('C23', 'Interpolation substitutes exactly the referenced parameters',
  "Interpolating a value replaces each variable reference by the parameter it names: a lone reference in a typed field takes the parameter's value converted to the field's type, references inside text are rendered into the surrounding text, and everything else is unchanged. In structures and maps an entry whose reference is undefined is omitted; elsewhere an undefined reference is an error, except that in text it renders as empty. Containers may themselves be given by a reference and are interpolated recursively with their shape preserved.",
  ['inputs', 'configurations'], 'every nested schema, template value and set of parameters',
  'Tests interpolate one or two references per field type; missing parameters at depth, containers given by reference and unions are not covered.',
  ['scheme/interpolation.py', F] + fields('structure','map','sequence','tuple','union','enumeration','integer','float','decimal','text'),
  [('interpolate', 'scheme/fields/*.py'), ('interpolate_parameters', 'scheme/interpolation.py')], ['interpolate()'])

p('C24', 'Instantiation and extraction apply to every nested value and invert each other',
  "Instantiating a valid value calls each field's instantiator exactly once on each non-null value it covers, innermost first, and leaves values of fields without one equal; extracting calls each field's extractor symmetrically, ignores undeclared, missing and null structure entries and excludes fields that fail the screen. Extracting what instantiation produced gives the original value back. A subject of the wrong kind is an extraction error.",
  ['inputs', 'configurations'], 'every nested schema with any placement of instantiators and extractors, every valid value',
  'Tests nest at most two levels with one instantiator per level.',
  [F] + fields('structure','map','sequence','tuple','union'), [('instantiate/extract', 'scheme/field.py; scheme/fields/*.py')], ['instantiate(), extract()'])

p('C25', 'Schema-based objects round trip and never share state',
  "An object of a schema-based class has every declared attribute, set from the constructor or else to the schema's default; serializing it gives exactly its non-null declared attributes, and unserializing that gives an object of the class registered for its polymorphic identity (the base class if none is) with the same attributes. Nested schema-based objects are built and serialized by their own classes, and keyed objects receive their key. No two objects share a mutable default.",
  ['inputs', 'histories', 'configurations'], 'every element class hierarchy and every attribute assignment, any history of creating and changing objects',
  'Tests build each element once; shared defaults and polymorphic fallbacks need several objects of several classes.',
  ['scheme/element.py'] + fields('structure'), [('Element, ElementMeta', 'scheme/element.py')], ['object attributes, serialize(), unserialize()'])

p('C26', 'Surrogates round trip through their own versioned schema',
  "A surrogate serializes by the schema of its own version (or its dynamic schema) together with the identity of its implementation, and unserializing that restores an equal surrogate of the same implementation, version and schema, whatever later versions exist. Construction uses the newest version unless one is given and refuses versions that do not exist. A surrogate field accepts exactly surrogates, restricted to its permitted implementations.",
  ['inputs', 'configurations', 'histories'], 'every surrogate implementation with any number of versions, every version and value',
  'The only surrogate test constructs a plain one.',
  ['scheme/surrogate.py'] + fields('surrogate'), [('surrogate', 'scheme/surrogate.py'), ('Surrogate', 'scheme/fields/surrogate.py')],
  ['serialize/unserialize/construct'], [('version', 'schema version of a surrogate', 'surrogate.version')])

p('C27', 'Datetimes keep their instant across zones and bounds compare instants',
  "Processing a datetime never changes the instant it denotes: naive values are read in the field's timezone (UTC or local), aware values are converted, and serialized text is always UTC. Minimum and maximum are compared as instants whatever zones the value and the bounds use, and bounds described for reconstruction denote the same instants. This holds whatever the local timezone of the process is.",
  ['inputs', 'configurations'], 'every datetime, every offset, every process timezone',
  'Tests run in one process timezone (UTC), where local and UTC coincide and any mix-up is invisible.',
  fields('datetime') + ['scheme/timezone.py'], [('DateTime', 'scheme/fields/datetime.py'), ('LocalTimezone', 'scheme/timezone.py')], ['process(), describe() under several TZ settings'])

p('C28', 'Concurrent and re-entrant use of one schema gives the results of separate use',
  "Any number of calls on the same schema may be in progress at once, in different threads or nested inside a callback of one another, in any interleaving, and each returns exactly what it would return alone. Errors raised by one call never show up in another.",
  ['schedules', 'inputs'], 'every interleaving of calls on a shared schema, at the granularity of callbacks into user code',
  'Tests are single-threaded and callbacks never call back into the schema.',
  [F] + fields('structure','map','sequence','tuple','union'), [('per-call local state', 'scheme/fields/*.py: process')], ['results of interleaved calls'])

p('C29', 'Custom errors, attributes and subclasses stay local to where they are declared',
  "Errors customised on a field instance change the reports of that instance and of its clones and of no other field; errors and parameters declared on a field subclass extend or override the inherited ones for that subclass and its descendants only. Extension attributes set on a field are readable, survive cloning and description, and never leak to other fields. Every field type is found by its lower-cased name for reconstruction.",
  ['histories', 'configurations'], 'every set of field classes and instances with customisations, in any order of creation',
  'Tests set custom attributes on single fields and never define two classes or instances with conflicting customisations.',
  [F] + fields('email'), [('FieldMeta', 'scheme/field.py: FieldMeta'), ('Field.__init__', 'scheme/field.py')], ['errors raised, describe(), attributes'])

p('C30', 'Object references resolve back to the same object',
  "An object field serializes any importable class, function or module to a dotted path that unserializes to that same object; paths with attribute chains resolve through every segment, and a colon separates module from attributes. Anything that cannot be identified is a type error and anything that cannot be imported is a validation error, without other exceptions.",
  ['inputs', 'configurations'], 'every importable object and every path text',
  'Tests resolve one class.',
  fields('object') + ['scheme/util.py'], [('identify_object/import_object', 'scheme/util.py')], ['Object.process'])

p('C31', 'Nested updates and merges touch exactly the addressed keys',
  "Setting a value at a dotted path and then reading that path gives the value, leaves every other path unchanged, and fails without any change when an intermediate key is missing or is not a mapping. Recursively merging one mapping into another gives, for every path, the addition's value where it has one (mappings merge, anything else replaces) and the original's otherwise, and never changes the addition.",
  ['inputs', 'histories'], 'every nested mapping, path and addition',
  'Tests use one mapping.',
  ['scheme/util.py'], [('set_nested_value, traverse_to_key, recursive_merge', 'scheme/util.py')], ['return values and argument state'])

p('C32', 'A report says which field refused which value and which limit was broken',
  "Every failure carries the field that refused, under the name it has there (the key, for a member of a structure without a name of its own), and the value it refused: as it was given, as it was converted, or as it was normalised, never another member's value. Its message is the wording declared for that kind of failure, filled with that field's name and with the limit of that field that was actually broken: minimum and maximum printed in the field's own notation, minimum and maximum length with the right noun in singular or plural, tuple length, the permitted values, or the name of the member that is missing or unknown. The printed report shows that message under its title and path, with the field and the value where the kind of failure shows them. This stays true after the field's bounds or enumeration are redefined, and for clones and derived schemas.",
  ['inputs', 'configurations', 'histories'], 'every schema, every refused value, every combination of broken limits, after any history of redefinitions',
  'Tests look at error tokens only; no test reads a message, the value or the field of an error.',
  ['scheme/exceptions.py', F] + fields('date','datetime','time','integer','float','decimal','text','binary','sequence','tuple','enumeration','structure','map'), [('FieldError, StructuralError', 'scheme/exceptions.py'), ('message parameters at each raise', 'scheme/fields/*.py: _validate_value, _validate_range')],
  ['StructuralError.field, .value, .errors, str()'], [('length_noun', 'noun used with a length limit', 'scheme/fields/text.py, binary.py, sequence.py')])

p('C33', 'A definition makes exactly the field it describes, or is refused',
  "A definition -- a mapping naming a field type and its parameters, with nested definitions for the fields inside -- makes a field of that type with exactly those parameters: every entry has its documented effect (nonempty means required, non-null and, for text and binary, at least one character; a space-delimited text stands for a list of words; a polymorphic discriminator given by name becomes an enumeration of the identities; generate_default assembles the default from the members; entries the type does not know become aspects of the field), nothing else is set, and the definition itself is left as it was. Constructing the field directly with the same parameters makes the same field. A definition which is not well formed -- no or an unknown field type, missing or misplaced inner fields, bounds and sizes of the wrong kind, contradictory options -- is refused with a TypeError or ValueError and makes no field.",
  ['inputs', 'configurations'], 'every definition, well formed or not, at every nesting depth',
  'Tests construct fields with good parameters; refusals are tested for a handful of parameters and never inside nested definitions.',
  [F] + fields('structure','map','sequence','tuple','union','enumeration','text','email','binary','integer','float','decimal','date','time','datetime','token','surrogate','definition'),
  [('Field.reconstruct, construct, _construct_parameter', 'scheme/field.py'), ('constructors of every field', 'scheme/fields/*.py: __init__')], ['the constructed field: its public attributes', 'exceptions raised'])

p('C34', 'Definition fields carry fields in and out unchanged',
  "A Definition field accepts fields and, when reading serialized values, anything that makes a field (a definition, or the name of a field type): the value is then the field that definition makes. Serializing writes the verbose description of the field, and reading that back makes a field of the same description. Fields of types other than those it lists, values which are no fields, and malformed definitions are refused, with the token and path of that refusal; the field carried is never changed. This holds wherever the Definition field stands: in structures, sequences, maps, tuples and unions.",
  ['inputs', 'configurations'], 'every Definition field in every schema, every field carried',
  'Tests carry one text field through one Definition field.',
  fields('definition') + [F], [('Definition', 'scheme/fields/definition.py'), ('reconstruct/describe', 'scheme/field.py')], ['process() results and errors'])

p('C35', 'Errors are values: built, attached, written and read back without loss',
  "A structural error holds its errors in order and optionally a structure of errors, and its serialized form says all of it: its own errors (a bare message becomes a mapping holding it), and for every error anywhere in the structure its serialized form at the same place, null or nothing at places holding no error. Appending, merging and attaching change exactly the error they are called on and return it; the serialized form is made once and kept until it is forced, when it says what the error holds now. An error read from a serialized form holds those errors and that structure, and serializes to the same form again, also when attached inside another error. An Error field accepts errors, reads their serialized form (a pair of a list of errors or null, and a list or mapping or null), refuses everything else as an invalid type, and writes errors in their serialized form, wherever the field stands in a schema.",
  ['inputs', 'histories'], 'every error with every structure, every history of building, attaching, writing and reading, every value given to an Error field',
  'Tests serialize one error with one token through one field.',
  ['scheme/exceptions.py'] + fields('error'), [('StructuralError', 'scheme/exceptions.py'), ('Error', 'scheme/fields/error.py')], ['serialize(), unserialize(), errors, structure', 'Error.process'])

p('C36', 'Printed structures and texts say what they are given, and nothing that is masked',
  "Printing a structure gives one text determined by it alone: mappings over several lines in the order of their keys, entries of one line before those of several, lists and tuples on one line where all of their items and the whole fit in sixty characters, otherwise over lines, everything inside indented by its depth, scalars as Python literals, and no entry under a masked key shown at any depth. The structure is left as it was, and a formatter used before prints the same. Indenting prefixes every line, or all but the first; minimizing replaces each run of whitespace by one space and removes it at both ends, changing nothing else; abbreviating leaves a text alone up to the limit, and otherwise gives at most that many characters: a start and an end of it, cut back to a letter or digit, around three dots; the plural of a noun follows its ending and is not used for exactly one.",
  ['inputs'], 'every structure of scalars, lists, tuples and mappings with texts or numbers as keys, every mask, indentation and level; every text, limit, noun and quantity',
  'Tests minimize four texts and make one plural; nothing tests printed structures, masks, indentation or abbreviation.',
  ['scheme/util.py'], [('StructureFormatter, abbreviate_string, indent, minimize_string, pluralize', 'scheme/util.py')], ['return values'])

p('C37', 'Timezone objects tell every instant its offset, name and daylight saving',
  "A fixed offset timezone is so many minutes from UTC at every time, without daylight saving, named as it was named or by its offset as sign, hours and, if any, minutes. The local timezone gives every reading of the local clock the offset, the name and the amount of daylight saving in force at the earlier instant showing it, or the later one if the reading is folded; a reading which the clocks skip takes the offset from before the change, or from after it if folded. Converting an instant to a timezone gives the reading of that timezone's clock, folded exactly if the clock showed it before, so converting there and back is the identity; copies of timezone objects do the same. The current timestamp is the current instant, read in the timezone asked for, or UTC.",
  ['inputs', 'configurations'], 'every reading and instant, every offset in minutes, every process timezone',
  'Tests run in UTC and look at one current timestamp.',
  ['scheme/timezone.py'], [('FixedOffsetTimezone, LocalTimezone, current_timestamp', 'scheme/timezone.py')], ['utcoffset(), dst(), tzname(), astimezone(), fold'])

p('C38', 'Generated documentation says what a description says, for every field inside',
  "The document generated from the description of a field holds one block for that field and, inside it, indented by its depth, one block for every field within it: the item of a sequence, the values of a tuple, the alternatives of a union, the value of a map where it is structural or described (else its type is said with the key's), the members of a structure by name, and of a polymorphic structure one block for every identity, in order, holding the members of that variant, a discriminator named type first. Every block names its field and says the type, the description, notes and title, each flag that is set (being required not in the role of a schema), the constant and the default, and the type's own limits: minimum and maximum each under its own name (for dates and times where the description holds them as such), lengths, stripping, pattern, uniqueness, UTC, required keys and permitted values. Nothing else is said; generating leaves the description as it was and can be repeated.",
  ['inputs', 'configurations'], 'every description of every schema without recursion, every role, level and key',
  'No test touches the documentation generator.',
  ['scheme/doc/generator.py'] + [F], [('DocumentationGenerator, directive', 'scheme/doc/generator.py'), ('describe', 'scheme/field.py')], ['the rendered text'])

p('C39', 'The texts of fields, objects and surrogates show everything they hold',
  "The text of a field, which also every report of a failure shows, names its class and, in one fixed order, every aspect it has: its name; the limits, lengths and settings of its kind wherever they differ from the usual, zero, False and empty ones included; whether it has a constant; its default; each flag that is set; its title. Within it stand the texts of the fields it is made of (item, key and value, values, alternatives, members, the members of every variant under its identity), so two fields have the same text only if they agree in all of that; a field met again inside itself is an ellipsis. The text of an object shows whichever of id, name and title it has; the text of a surrogate its implementation and its value. Making a text changes nothing.",
  ['inputs', 'configurations', 'histories'], 'every field of every schema, made, cloned, redefined or recursive; every object and surrogate with values of plain types',
  'Tests print a handful of fields with one parameter each.',
  [F, 'scheme/element.py', 'scheme/surrogate.py'] + fields('union', 'tuple', 'map', 'structure', 'sequence', 'enumeration', 'email', 'integer', 'date', 'datetime', 'time', 'token', 'binary', 'text'),
  [('__repr__', F), ('Element.__repr__', 'scheme/element.py')], ['repr()'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
