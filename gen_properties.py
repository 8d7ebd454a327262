#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so the text is easy to review)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism,
         observe=None, state=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files,
                     'mechanism': [{'name': n, 'where': w}
                                   for n, w in mechanism]}}
    if observe:
        d['anchors']['observe_at'] = observe
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w}
                                 for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)


prop('C01', 'Flattening a tree and setting it back reproduces the tree',
     'For any schema built from scalars, mappings, lists, arrays, multi-values, joined strings and compound dates, and any data it holds, flattening the tree to (name, text) pairs and setting a fresh tree of the same schema from those pairs, with any separator, reproduces every scalar text, every member in order and the same pairs again. Sequences that prune lose only empty-valued members; sequences that do not prune lose nothing that has a flattened form. Flattened names are the names on the way from the root, with unnamed nodes left out and list positions shown as indexes, joined by the separator.',
     ['inputs', 'configurations'],
     'every schema shape up to a depth, every small assignment of texts to its leaves, several separators, named and unnamed roots, pruning or not',
     'tests round trip a handful of hand-written forms; the guarantee is over every nesting of container kinds, separators and data',
     ['flatland/schema/base.py', 'flatland/schema/containers.py', 'flatland/schema/compound.py'],
     [('flatten', 'flatland/schema/base.py Element.flatten, flattened_name'),
      ('expansion', 'flatland/schema/containers.py Mapping/List/Array._set_flat; scalars.py Scalar._set_flat')],
     ['flatten() output', '.u and .value of the restored tree'])

prop('C02', 'Flat input is data only: unknown, reordered or hostile keys do no harm',
     'Setting any tree from any list of (text, text) pairs never raises; pairs whose name does not spell a flattened name of the schema have no effect (beyond bringing a list member or sparse field into being when the name leads into it and only then goes astray), and the relative order of pairs with different names does not matter. Scalars take the first pair with their name, list members are ordered by numeric index, arrays take repeated pairs in order, and empty texts are skipped where pruning is on. A list never grows beyond its configured maximum number of members whatever indexes are supplied, and keeps the lowest-numbered ones.',
     ['inputs'],
     'every multiset and order of pairs drawn from an alphabet of valid, near-miss, malformed and hostile names, up to a length',
     'tests use a few well-formed requests; an attacker picks the keys, their order and their duplicates',
     ['flatland/schema/containers.py', 'flatland/schema/scalars.py'],
     [('key matching', 'flatland/schema/containers.py List._set_flat, Array._set_flat, Mapping._set_flat'),
      ('member ceiling', 'flatland/schema/containers.py List.maximum_set_flat_members')],
     ['element tree after set_flat / from_flat'])

prop('C03', 'Sequences act like Python lists and keep their members in the tree',
     'After any series of list operations (append, extend, +=, insert, item and slice assignment and deletion, pop, remove, reverse, keyed sort, set), a list, array, multi-value or joined string holds exactly what a Python list given the same operations would hold, answers indexing, slicing, membership, index, count and len the same way, and raises IndexError or ValueError exactly where a list does, leaving its contents unchanged. Plain values and elements are interchangeable as arguments. Every member is an element of the member schema that has the sequence among its parents, and list members are always named and flattened by their current position.',
     ['histories', 'inputs'],
     'all operation sequences up to a depth from several initial contents, for seven kinds of sequence',
     'tests exercise operations one at a time; renumbering and parent links go wrong after sequences of operations',
     ['flatland/schema/containers.py', 'flatland/schema/compound.py'],
     [('list protocol', 'flatland/schema/containers.py Sequence and List methods'),
      ('slot renumbering', 'flatland/schema/containers.py List._renumber, _new_slot')],
     ['list operations, .value, .u, .children, flatten(), el()'])

prop('C04', 'Mappings admit exactly their declared keys, under every operation',
     'A mapping with declared fields holds exactly those fields whatever operations are tried (item assignment and deletion, update, set under the strict, subset and duck policies, clear, pop, popitem, setdefault, get), each field keeping the last value stored through the mapping; refused operations raise and never admit a refused key or lose a required one. A sparse mapping holds a subset of the declared fields that follows the same operations as a dictionary restricted to those keys, never loses a required field when so configured, and rejects unknown keys everywhere. Setting a mapping resets fields that are not mentioned.',
     ['histories', 'inputs'],
     'all operation sequences up to a depth over declared and undeclared keys, for plain and sparse mappings, three policies and both minimum-field settings',
     'tests try single operations on fresh mappings; policies, required fields and resets interact over histories',
     ['flatland/schema/containers.py'],
     [('key discipline', 'flatland/schema/containers.py Mapping, Dict, SparseDict'),
      ('set policies', 'flatland/schema/containers.py Dict.set, Mapping.set')],
     ['keys(), value, exceptions'])

prop('C05', 'Tree navigation is consistent from every node',
     'In any element tree reached by any history of mutations, root, parents, path, children and all descendants describe one and the same tree: every descendant is listed exactly once, breadth first, after its parent, every listed node leads back to the root, and a node is found again by following its fully qualified name from any node of the tree, with any separator. Lookups of names or positions that do not exist raise KeyError.',
     ['histories', 'configurations'],
     'all schema shapes up to a depth, populated and then mutated by every short operation sequence; every node and every pair of nodes checked',
     'tests check a few nodes of fixed trees; the guarantee relates all the views of a tree to each other for all shapes',
     ['flatland/schema/base.py', 'flatland/schema/containers.py'],
     [('navigation', 'flatland/schema/base.py Element.root/parents/path/all_children/fq_name/el'),
      ('parent links', 'flatland/schema/containers.py append/insert/_new_slot/_reset')],
     ['root, parents, path, children, all_children, fq_name, el'])

prop('C06', 'Validation visits every node in order and short-circuits as documented',
     'Validating a tree calls descent validators (and scalar validators) top-down breadth first and then container validators bottom-up in the exact reverse order, stopping a node at its first failing or skipping validator, never descending below a node whose validators return a skip-all result, and skipping validators of empty optional elements. Each node ends up valid, invalid or unevaluated exactly as its own validators decided, with unvisited nodes left as they were; the call returns True exactly when no visited node failed, and the all-valid flag agrees with the flags of the subtree. Validating twice gives the same answer, and without recursion only the node itself is assessed.',
     ['inputs', 'configurations'],
     'every tree of up to a few nodes, every assignment of validator outcomes (true, false, none, skip, skip-all, skip-all-false, absent; one or two validators each, optional or empty) to its nodes',
     'tests use particular trees with particular outcomes; outcomes of different nodes interact through ordering and short-circuiting',
     ['flatland/schema/base.py', 'flatland/schema/containers.py'],
     [('traversal', 'flatland/schema/base.py Element.validate'),
      ('chain', 'flatland/schema/base.py validate_element; containers.py Container._validate')],
     ['order of validator calls, return value, .valid, .all_valid'])

prop('C07', 'Every validator run is announced exactly once with its true result',
     'While any receiver is connected, each validator call made during validation is followed by exactly one announcement carrying that validator, the element, the state object and the very result it returned, in call order; elements with no validators announce the built-in not-empty test; empty optional elements announce nothing. Connecting or disconnecting receivers never changes which validators run or what validation concludes. Errors and warnings noted on an element appear once each in the order first noted.',
     ['inputs', 'configurations'],
     'every chain of up to three validator outcomes, optional or not, empty or not, for scalars and containers, with 0 to 2 receivers',
     'tests connect one receiver to one or two hand-picked chains',
     ['flatland/schema/base.py', 'flatland/signals.py'],
     [('announcement', 'flatland/schema/base.py validate_element'),
      ('deduplication', 'flatland/schema/base.py Element.add_error, add_warning')],
     ['validator_validated receivers, errors, warnings'])

prop('C08', 'Setting a scalar succeeds or fails cleanly, and its text normalizes once',
     'Setting any scalar type to any text, number, date, boolean, None or other object never raises: it returns True with the native value of the declared type and its canonical text, or returns False with no native value and the original input preserved as text. Whenever it succeeds, setting the resulting text again succeeds and yields the same native value and the same text (for numbers, as far as the configured text format is precise); None becomes no value with empty text (false for booleans), and the raw input is remembered as given. Ranges, signs, calendars, synonyms and stripping are enforced exactly as configured.',
     ['inputs', 'configurations'],
     'every text over a small alphabet up to a length plus structured near-valid texts and foreign objects, for every scalar type and its options',
     'tests list a few dozen conversions; adaptation must be total over every input a request can carry',
     ['flatland/schema/scalars.py'],
     [('set', 'flatland/schema/scalars.py Scalar.set'),
      ('adapters', 'flatland/schema/scalars.py adapt/serialize of String, Number, Boolean, Temporal')],
     ['return value of set, .value, .u, .raw'])

prop('C09', 'Constrained scalars never hold a native value outside their constraints',
     'An enumerated or otherwise constrained scalar has a native value only if the adapted value satisfies its constraint, whatever is set and in whatever order; otherwise it reports failure, has no native value and preserves the input as text. The allowed values, the child type and the predicate may be chosen per class or per instance, and a rejected input never leaves the previous value behind.',
     ['inputs', 'histories', 'configurations'],
     'all sequences of up to three inputs from an alphabet, for enumerations of texts, integers and booleans, and predicate-constrained types, configured on class or instance',
     'tests cover single set calls on two or three enumerations',
     ['flatland/schema/scalars.py'],
     [('constraint', 'flatland/schema/scalars.py Constrained.adapt, Enum.valid_value')],
     ['set() result, .value, .u'])

prop('C10', 'Element data can never break out of generated markup',
     'For any texts as element value, element name or attribute value, generated tags and the escaped-text shortcuts of elements parse back, with an independent parser, to exactly one tag whose attributes and contents decode to the original texts, in every markup style. Only objects that declare themselves to be markup, and explicit contents (which are the caller\'s markup), are inserted unescaped, and exactly as they are. Generated text is always safe to embed in further markup without escaping it again.',
     ['inputs'],
     'every string over an alphabet of markup-significant characters up to a length, in every position of every tag kind and markup style',
     'tests escape a few strings in a few positions',
     ['flatland/out/markup.py', 'flatland/out/generic.py', 'flatland/schema/base.py'],
     [('escaping', 'flatland/out/markup.py _attribute_escape; generic.py _markup_escape; base.py Element.x, xa'),
      ('unpack', 'flatland/out/generic.py _unpack')],
     ['markup text'])

prop('C11', 'Bound form controls show exactly the element state',
     'For any tag kind, input type, explicit attributes, contents and bound element, the generated name, value, checked, selected, id, for and body follow the documented rules: explicit attributes win unless a transformation is forced, forced transformations override, disabled ones do nothing, a choice is marked exactly when its value is among the values of the element, and password, file and image values are never echoed unless forced. Automatic tab indexes increase by one per tag that receives one. Unbound tags are unchanged except for the settings they consume.',
     ['inputs', 'configurations'],
     'every combination of tag, type, element kind and value, attributes present or not, and per-tag and context switch settings',
     'tests check selected combinations; switches, types and element kinds multiply',
     ['flatland/out/generic.py', 'flatland/out/markup.py', 'flatland/out/util.py'],
     [('transforms', 'flatland/out/generic.py transform_name/value/domid/for/tabindex/filters'),
      ('switch precedence', 'flatland/out/generic.py _pop_toggle')],
     ['attributes and contents of generated tags'])

prop('C12', 'Markup settings nest: leaving a scope restores what was in effect',
     'After any series of begin, set, end, tag, open and close calls on a generator, the settings in effect are those of the innermost open scope layered over the enclosing ones, ending a scope restores the enclosing settings exactly, and unknown settings or unmatched ends raise without changing anything. Opened tags are closed in a properly nested way and asking for a tag again returns the innermost open one, with contents kept; tags, scopes and generators do not influence one another otherwise.',
     ['histories'],
     'all call sequences up to a depth over begin/end/set/tag/open/close with several settings, compared with a stack model',
     'tests exercise single begin/end pairs; leaks between scopes need histories',
     ['flatland/out/markup.py', 'flatland/out/generic.py'],
     [('scope stack', 'flatland/out/generic.py Context.push/pop/update; markup.py Generator.begin/end/set'),
      ('open tag stack', 'flatland/out/markup.py Generator._tag, Tag.open/close')],
     ['setting values, generated tags, exceptions'],
     [('frames', 'stack of settings dictionaries', 'flatland/out/generic.py Context._frames')])

prop('C13', 'Element properties inherit like overlays and never leak upward',
     'Properties read on a class or instance are those of its own assignments layered over its superclasses; assigning, deleting, popping, clearing, updating or defaulting a property on one class or instance is visible to it and the classes and instances derived from it that do not override it, and to nobody else. Every dictionary view (items, keys, membership, length-free truth, copy, equality) of one holder agrees with item lookup, and deleted entries stay hidden until assigned again (or, on an instance, until it is cleared).',
     ['histories'],
     'all operation sequences up to a depth over a chain of classes, a multiple-inheritance class and two instances, compared with an overlay model',
     'tests follow scripted scenarios; leaks depend on which level was written, deleted and read in which order',
     ['flatland/schema/properties.py', 'flatland/schema/base.py'],
     [('overlay', 'flatland/schema/properties.py _TypeLookup, _InstanceLookup'),
      ('cloner', 'flatland/schema/base.py Element.with_properties, using')],
     ['mapping operations on .properties'],
     [('frames', 'per-class dictionaries', 'flatland/schema/properties.py Properties.map')])

prop('C14', 'Deriving a schema never changes the schema it came from',
     'Every schema-deriving call (renaming, overriding attributes, replacing or adding validators at any position, adding properties, choosing fields, members, values or targets) returns a new class that differs in exactly the requested way and otherwise equals its source; the source class, its other derivatives and all existing elements keep their behaviour. Unknown attributes, validator classes in place of validators and element instances in place of classes are refused. Options given when constructing an element affect only that element.',
     ['histories', 'configurations'],
     'all derivation chains up to a depth over all cloning calls and several base types, all ancestors re-checked after every step',
     'tests check one derivation at a time; aliasing between ancestor and descendant shows only along chains',
     ['flatland/schema/base.py', 'flatland/schema/containers.py', 'flatland/util/base.py', 'flatland/schema/compound.py'],
     [('cloning', 'flatland/util/base.py class_cloner'),
      ('copying of mutable options', 'flatland/schema/base.py using, including_validators, __init__')],
     ['class attributes and behaviour of elements'])

prop('C15', 'Declarative forms resolve fields like Python resolves attributes',
     'A form class has exactly one field for each name declared in it or inherited, resolved to the most derived declaration, whether declared as attribute or in a field list; fields are named after their attribute and non-field attributes stay ordinary. The resulting form behaves like a mapping declared directly with the same fields, and base forms are not affected by their subclasses.',
     ['programs', 'configurations'],
     'every class hierarchy of up to four form classes over two field names and several declaration styles',
     'tests contain a dozen hand-written hierarchies',
     ['flatland/schema/forms.py'],
     [('field collection', 'flatland/schema/forms.py _MetaForm, _ElementCollection')],
     ['field_schema, keys of instances'])

prop('C16', 'Path lookups select exactly the addressed elements, always',
     'For every well-formed path (absolute or relative, names, indexes, slices in full Python notation, parent and self steps, escaped characters) and every starting node, lookup returns exactly the elements a step-by-step walk over the tree selects, in document order; strict lookup raises LookupError exactly when a named child is missing on the way, tolerant lookup skips it, and single lookup returns the only match, or none, or complains of several. Results do not depend on which paths were looked up before or how many.',
     ['inputs', 'histories'],
     'every path of up to four steps over an alphabet of steps, from every node of several trees, strict and tolerant, single or not, with cold, warm and overflowing caches',
     'tests evaluate about fifty paths on one tree; cache state and step combinations are unbounded',
     ['flatland/schema/paths.py', 'flatland/schema/base.py'],
     [('parse', 'flatland/schema/paths.py tokenize, _canonicalize, _parse_slice'),
      ('evaluation', 'flatland/schema/paths.py PathExpression.__call__; base.py Element.find'),
      ('cache', 'flatland/schema/paths.py pathexpr')],
     ['find() results and exceptions'])

prop('C17', 'References always mirror their target and obey their write policy',
     'At every point of any history, the value and text read through a reference are those of the element its path currently designates, including after the target or anything above it was set, replaced or reset. Writing through a reference changes the target when it is writable, changes nothing when writes are ignored, and raises when it is read-only, leaving the target unchanged. References take no part in flattened data.',
     ['histories', 'configurations'],
     'all operation sequences up to a depth over a tree with references of each policy, relative separators and nested targets',
     'tests read and write one reference once or twice',
     ['flatland/schema/scalars.py'],
     [('delegation', 'flatland/schema/scalars.py Ref.target, u, value, adapt, serialize')],
     ['.value/.u through the reference, target state'])

prop('C18', 'Compound values and their parts always agree',
     'A compound date shows a value exactly when its parts form a valid date, and then both agree, whether the parts, the whole text, the whole date or flat pairs were set, in any order, with default or custom part names; an unusable value, or none, clears all parts, setting reports success exactly when what was given could be used, and emptiness means all parts are empty. A joined string always shows its members joined by its separator, splits what is set by its separator or pattern, drops empty pieces only when pruning, and reports success exactly when all members converted.',
     ['histories', 'inputs'],
     'all sequences of up to three operations over whole and part values, valid and invalid, and every short text over an alphabet with separators',
     'tests set a few dates and a few joined strings from a fresh state',
     ['flatland/schema/compound.py'],
     [('compose/explode', 'flatland/schema/compound.py DateYYYYMMDD'),
      ('join/split', 'flatland/schema/compound.py JoinedString.set, value, u')],
     ['.value, .u, parts, is_empty, flatten()'])

prop('C19', 'First use from several threads is safe',
     'When several threads use a schema class, path, symbol, escaped text or lazily loaded name for the first time at once, every thread sees fully prepared results: a compound class is prepared exactly once and before any of its elements exists, the same symbol name always yields the same object, and no interleaving makes a thread fail or see a half-built value. Elements built in different threads are independent.',
     ['schedules'],
     'all schedules of two threads with up to two preemptions (three threads with one) at source-line granularity inside the library',
     'tests are single threaded',
     ['flatland/schema/compound.py', 'flatland/util/base.py', 'flatland/schema/paths.py', 'flatland/schema/base.py', 'flatland/util/deferred.py', 'flatland/schema/properties.py'],
     [('double-checked lock', 'flatland/schema/compound.py _MetaCompound.__call__'),
      ('symbol lock', 'flatland/util/base.py symbol.__new__'),
      ('cache', 'flatland/schema/paths.py pathexpr'),
      ('lazy names', 'flatland/util/deferred.py; base.py Element.x')],
     ['results and exceptions in every thread'])

prop('C20', 'Object mapping moves exactly the selected fields, in both directions',
     'Setting a mapping from an object takes exactly the attributes that match a field, restricted by the include or omit selection and translated by the rename table, whose entries apply regardless of the selection; slicing or updating an object exports exactly the same selection in reverse, with keys transformed as asked. Fields that are not taken come out blank, as with any whole-mapping set; attributes outside the selection are untouched, nothing else on the object is changed, and asking for include and omit together is refused.',
     ['inputs', 'configurations'],
     'every subset of attributes present, include, omit and rename choices over a small set of names, in both directions, for plain and sparse mappings',
     'tests try a few combinations of the three options',
     ['flatland/schema/containers.py', 'flatland/util/base.py'],
     [('selection', 'flatland/util/base.py keyslice_pairs'),
      ('import/export', 'flatland/schema/containers.py Dict.set_by_object, update_object, slice')],
     ['mapping values, object attributes'])

prop('C21', 'Defaults fill a tree exactly as declared',
     'Building an element from defaults gives every scalar its own default (computed by its factory when it has one, called with that element), every mapping either its own default or the defaults of its fields, and every list either its default contents or the requested number of default-filled members; without a default nothing is set. An element\'s reported default is what its factory or declaration says, and applying defaults never shares mutable state between elements or with the declared default.',
     ['configurations', 'inputs'],
     'every assignment of none, plain, factory and count defaults to the nodes of several schema shapes, applied to fresh and to populated trees',
     'tests set one default at one level at a time',
     ['flatland/schema/base.py', 'flatland/schema/scalars.py', 'flatland/schema/containers.py', 'flatland/schema/compound.py'],
     [('defaults', 'set_default of Scalar, Sequence, List, Mapping, SparseDict; Element.default_value, from_defaults')],
     ['values after from_defaults/set_default'])

prop('C22', 'Shipped validators decide exactly their documented predicate',
     'For every element state, including empty, unconverted and out-of-range ones, each shipped presence, truth, choice, length, range, equality, member-count and duplicate validator returns True exactly when its documented predicate holds, and otherwise returns False and adds exactly one message, the documented one with its values filled in, to the right element. It never raises, changes nothing else, and behaves the same when options are given at construction or by subclassing.',
     ['inputs', 'configurations'],
     'every validator with every small parameter setting against every element state from an alphabet of states',
     'tests sample two or three states per validator',
     ['flatland/validation/scalars.py', 'flatland/validation/containers.py', 'flatland/validation/base.py'],
     [('predicates', 'flatland/validation/scalars.py, containers.py validate methods'),
      ('messages', 'flatland/validation/base.py note_error, expand_message')],
     ['result, element.errors, element state'])

prop('C23', 'Network, phone and checksum validators are total and sound',
     'The e-mail, URL, HTTP-URL, URL-canonicalizing, phone-number and checksum validators terminate with True or False and never raise for any text an element may hold; they accept exactly the inputs their documentation describes for their parts, schemes, lengths and digits, reject all others with one message, and, where they normalize, leave value and text of the element consistent and accepted again.',
     ['inputs', 'configurations'],
     'every string over alphabets of significant characters up to a length and every combination of URL or address parts, against an independent recognizer, with several option settings',
     'tests check about a hundred sample addresses and numbers',
     ['flatland/validation/network.py', 'flatland/validation/string.py', 'flatland/validation/number.py', 'flatland/util/base.py'],
     [('recognizers', 'flatland/validation/network.py IsEmail, URLValidator, HTTPURLValidator, URLCanonicalizer; string.py NANPphone; util/base.py luhn10')],
     ['result, errors, value/text afterwards'])

prop('C24', 'Payment card numbers are accepted exactly when genuine and allowed',
     'A card-number element validates exactly when it holds a number of one of the accepted card brands by prefix and length with a correct check digit; formatting characters are ignored on input, the text is always the conventional grouping of the digits and reads back as the same number, and any other input fails with one applicable message and never raises or hangs. Which brands are accepted may be chosen per class or element.',
     ['inputs', 'configurations'],
     'every brand prefix and length combination around the boundaries, every check digit, several separators and malformed inputs, every subset of accepted brands',
     'tests use a few known-good card numbers',
     ['flatland/ext/creditcard.py', 'flatland/util/base.py', 'flatland/validation/number.py'],
     [('recognition', 'flatland/ext/creditcard.py _card_type, _from_string, _pretty_print'),
      ('check digit', 'flatland/util/base.py luhn10')],
     ['set(), validate(), errors, .u'])

prop('C25', 'Messages are translated, pluralized and filled in by fixed precedence',
     'A validation message is translated by the first translator found on the state (attribute, then item), on the element or its ancestors (instance or schema), or among the built-ins, before it is filled in; substituted values are looked up in the call\'s own data, then the state, the validator and the element, preferring items over attributes, and are translated too. Plural forms are chosen by the named count, by the translator when there is one, and messages may be computed by callables. The outcome does not depend on the type of the state object.',
     ['configurations', 'inputs'],
     'every placement of translators over state, element, ancestors, schema and built-ins, every message form, every count and several kinds of state object',
     'tests place one translator at a time',
     ['flatland/validation/base.py', 'flatland/schema/util.py'],
     [('lookup', 'flatland/validation/base.py find_transformer; schema/util.py search_ancestry, find_i18n_function'),
      ('expansion', 'flatland/validation/base.py expand_message, as_format_mapping')],
     ['text of element.errors/warnings'])

prop('C26', 'Template directives and the tag generator produce the same controls',
     'For any control tag, explicit attributes, body and bound element, the template directives produce the same attributes and contents as the tag generator under the same settings, leave unbound markup untouched, bind the options of a bound select, and coexist with the template engine\'s own directives and expressions. Settings scoped by a template block revert at its end, and settings made globally persist for the rest of the rendering and never beyond it.',
     ['inputs', 'configurations', 'histories'],
     'every combination of tag, type, attribute and switch from the generator\'s space plus every nesting of scope and set blocks up to a depth',
     'tests compare a few dozen fixed templates',
     ['flatland/out/genshi.py', 'flatland/out/generic.py'],
     [('directives', 'flatland/out/genshi.py _rewrite_stream, Binding, ControlAttribute, With, Set')],
     ['rendered markup'])

prop('C27', 'Equality, truth and copies of elements follow their data',
     'Two elements are equal exactly when both their native value and their text are equal, inequality is the exact negation, comparison with anything else is false and never raises, and elements are unhashable. Truth and emptiness follow the data: a scalar is true exactly when it has a true value and text, a sequence when it has members, and emptiness means no value was set (a text element holding the empty text counts as empty). The exported native value of a container is a plain structure equal to what would rebuild it, and changing the export or the original input never changes the element.',
     ['inputs', 'histories'],
     'every pair from an alphabet of element states of all types, and every single mutation of exported or supplied structures',
     'tests compare a few pairs of scalars',
     ['flatland/schema/base.py', 'flatland/schema/scalars.py', 'flatland/schema/containers.py'],
     [('comparison', 'flatland/schema/base.py __eq__, __ne__, __hash__'),
      ('export', 'value properties of containers; is_empty')],
     ['==, !=, bool(), is_empty, .value'])

prop('C28', 'Elements of one schema never share state',
     'Any history of operations on one element (setting, defaulting, validating, noting errors, mutating children, overriding attributes or properties) leaves every other element of the same schema, and the schema itself, exactly as it was; elements created later are indistinguishable from elements created before. This holds for all element types, including those prepared on first use or built from nested schemas.',
     ['histories', 'configurations'],
     'all operation sequences up to a depth on one element of every type, with a full snapshot of a sibling created before, a sibling created after and the class',
     'tests build fresh schemas per test and never look at a bystander',
     ['flatland/schema/base.py', 'flatland/schema/containers.py', 'flatland/schema/compound.py', 'flatland/schema/scalars.py'],
     [('per-instance state', 'Element.__init__, Mapping._reset, Sequence, Compound, Constrained constructors')],
     ['snapshot of bystander elements and classes'])

prop('C29', 'Every documented name resolves to one object however it is reached',
     'Each public name of the package resolves to the same object whether imported from the package, from its home module or by attribute access, in any order and as the first or a later access in a fresh interpreter; the listing of public names matches what can be accessed, and unknown names raise AttributeError. The order of first accesses never changes what a name means.',
     ['histories', 'programs'],
     'every public name as first access and every ordered pair of module accesses in a fresh interpreter state',
     'tests import everything eagerly in one order',
     ['flatland/util/deferred.py', 'flatland/__init__.py', 'flatland/util/__init__.py', 'flatland/schema/__init__.py', 'flatland/validation/__init__.py'],
     [('deferred modules', 'flatland/util/deferred.py deferred_module')],
     ['attribute access on the package modules'])

prop('C30', 'Supporting descriptors and selection helpers keep their contracts',
     'Computed-but-assignable attributes return the assigned value while assigned and the computed one otherwise, per instance and never across instances; compute-once attributes compute once per instance; named constants (symbols) are singletons under naming, copying and pickling; the ternary logic value obeys the truth tables; pair selection yields exactly the selected and renamed pairs in order; any dictionary-like object yields its pairs; and overriding methods without documentation take that of the first base that has some.',
     ['histories', 'inputs'],
     'all operation sequences up to a depth on two instances and their class, all operand combinations, all small selections, compared with reference models',
     'tests exercise each helper a few times',
     ['flatland/util/base.py'],
     [('descriptors', 'flatland/util/base.py lazy_property, assignable_property, assignable_class_property, class_cloner'),
      ('helpers', 'flatland/util/base.py to_pairs, keyslice_pairs, Maybe, symbol')],
     ['attribute values, helper results'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
