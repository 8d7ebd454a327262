# -*- coding: utf-8 -*-
"""The prose of DESIGN.md (see gen_design.py)."""

HEAD = '''
# How the properties of flatland are checked

Every property is decided by one technique: **bounded exhaustive exploration
of the real code** (stateless model checking of the implementation). A driver
closes the library with a small alphabet of schemas, data, operations or
schedules; *every* combination within a stated bound is run against the code
in `/repo`, and after every step what the library shows is compared with a
reference model written from the documentation in plain Python. Nothing is
sampled and nothing is random; `VERIF_SEED` is not used.

flatland is a sequential library with small, composable inputs: the state of
an element tree is determined by its schema and the history of operations on
it, so exhaustive histories over alphabets chosen to collide (equal names,
names that are prefixes of others, equal values, empty and pruned members)
reach the interactions which hand-written tests do not. The one part with
real concurrency (types completed on first use, deferred modules, named
constants, the path cache) is explored with a controlled scheduler over real
threads (C19).

## The machinery

- `mcheck.py PROPERTY TIER` starts the workers (one Jython per core, each
  taking every n-th case), merges what they covered, writes
  `evidence/PROPERTY.json` and reports. A violating case is written to
  `replays/PROPERTY.json` and printed; `mcheck.py replay FILE`
  runs that case alone. Cases are enumerated in a fixed order, simplest first,
  and the first violating one (in enumeration order) is reported.
- `mc/worker.py` runs the cases of a shard. A violation, an unexpected
  exception (of Python or Java) and a case that takes longer than its limit
  (a hang is an answer, too) are all findings.
- `mc/props/cNN.py` hold the alphabet, bound and reference model of each
  property: `cases(tier)` enumerates, `check(case)` runs one case, which
  often is a block of many executions that share a prefix.
- `mc/schemas.py`, `mc/markup_model.py` are reference models used by several
  properties (flattening and expansion; tag transformation and HTML parsing).
- `mc/sched.py` is the scheduler for C19; `mc/minigenshi.py` lets Genshi run
  on Jython for C26.
- `known_findings.json` lists findings that are not repaired (matched by case
  and message, so that anything else of the same property is still reported)
  and the repairs that were made.

The library under test is imported from `/repo` (or `VERIF_REPO`), from
source, at every run (`-B`; stale `$py.class` files are removed first), so a
check always sees the current tree. Checks read nothing of `/verif/seeded`.
They create files only in scratch directories of their own.

**Binding of models to code.** There are no separate models: model and
implementation run in lockstep in the same process. What the evidence calls
*traces* are histories of the reference model that were replayed, step by
step, on the implementation; *states* counts distinct model states that were
reached and compared; *transitions* the operations executed.

**What the evidence reports.** Cases evaluated, how many were non-trivial
(by the rule stated per property), distinct outcomes, states, transitions,
traces, and samples of cases with their outcome. `exhaustive` is true only
where the property's whole space is covered, which no property with unbounded
input has; within the bound every case is run, and a run that is cut short
fails instead of passing.

**Judging behaviour, not text.** No check looks at source text, at the order
of private calls or at private attributes of the library, with two
exceptions: C19 puts scheduling points before statements (statement counts
may change, the exploration covers whatever is there), and C07 listens on the
public signal. Messages are compared where the documentation gives their
text.

## The platform

flatland at this commit is Python 2 code; the only interpreter here that runs
it is Jython 2.7. Consequences:

- Start-up costs about 3 s per worker. Quick checks take 5 to 100 s on 8
  cores; cases are grouped to keep the per-case overhead small. The JVM is
  told to compile only once in quick runs, which saves a third.
- Genshi cannot parse templates (its parser needs expat features that Jython
  lacks), so of the 716 tests those for Genshi pass without running: pytest
  under Jython swallows the Java exception. The code in `flatland/out/genshi.py`
  is therefore untested by the baseline suite; C26 runs it through
  `mc/minigenshi.py` (templates as event streams, expressions evaluated by
  Jython). Run through the same shim, 44 of the repository's Genshi tests
  really pass, and one fails only for the shim's handling of prefixes.
- `threading` locks are real Java locks; the scheduler replaces them when the
  library is loaded.

## Cost

Quick checks: about 30 to 40 core-minutes for all thirty. The thorough
commands run the same code with deeper bounds, stated below; each finishes
within minutes to a few hours on 8 cores.
'''

ORACLE = {
    'C01': 'A reference flattening and a reference expansion '
           '(mc/schemas.py), written over plain specs and data: names are '
           'joined along the path, list members carry their index, empty '
           'members are dropped where pruning says so. Both directions are '
           'compared, and the restored tree must flatten to the same pairs.',
    'C02': 'The same reference expansion decides, per key, whether it '
           'addresses a field, member or nothing; a populated element must '
           'end as if only the relevant pairs, in their order, were given; '
           'member ceilings bound what indexes can create.',
    'C03': 'A Python list of (value, text) pairs receives the same '
           'operation; result or exception type, contents, lookups, parent '
           'links and the flattened form are compared after every step.',
    'C04': 'A dictionary from declared keys to (value, text) pairs with the '
           'documented policy (`subset`, `duck`, strict) and, for sparse '
           'mappings, the keys present.',
    'C05': 'A reference walk over the containers alone (children by '
           'identity); root, parents, path, all_children, fq_name, '
           'flattened names and find() by full name must agree with it at '
           'every node and for every ordered pair of nodes.',
    'C06': 'A reference traversal: breadth first down, reverse up, with the '
           'documented meaning of every outcome (true, false, None, Skip, '
           'SkipAll, SkipAllFalse), optional elements and recursion off.',
    'C07': 'Calls of validators and announcements are logged in one '
           'sequence: they must alternate, carry the same validator, '
           'element, state and result, and vanish without receivers.',
    'C08': 'An independent recognizer per type (number grammar, calendar, '
           'synonyms of booleans) gives the expected native value and text; '
           'the text set again must be a fixed point.',
    'C09': 'The set of allowed native values, and the child type\'s '
           'reference adaptation.',
    'C10': 'An HTML parser of its own (mc/markup_model.py) parses what was '
           'generated back: one tag, the expected attributes, the text '
           'itself as value; nothing else may appear.',
    'C11': 'Reference transforms for name, value, id, for, tab index, '
           'domid, filters and their switches, in document order, applied '
           'to a description of the element.',
    'C12': 'A stack of dictionaries with the documented names and spellings '
           'of settings.',
    'C13': 'Overlays as a list of dictionaries along the Python resolution '
           'order of the class, with deletions as markers.',
    'C14': 'A snapshot of everything public about the origin (and, for '
           'derivations of derivations, about every ancestor and sibling) '
           'taken before, compared after; the derived class against a model '
           'of its settings.',
    'C15': 'The fields that Python\'s own attribute resolution gives for '
           'the same declarations.',
    'C16': 'A reference evaluator of path expressions over the tree as the '
           'reference walk sees it; every expression is evaluated '
           'repeatedly, with the cache of compiled expressions cold, warm '
           'and full.',
    'C17': 'The target\'s own state, found by a reference lookup; writes '
           'are judged by the declared policy.',
    'C18': 'A model of the parts; the compound value is composed from them '
           'after every operation.',
    'C19': 'Per scenario, an invariant on the results of all threads and '
           'on elements made afterwards (complete fields in order, options '
           'of the right class, one object per name). Every schedule within '
           'the preemption bound runs on real threads.',
    'C20': 'A model of which pairs move (include, omit, rename, key), '
           'applied to a recording object in both directions.',
    'C21': 'A model of defaults per type (own default, factory, fields, '
           'requested number of members), with a count of factory calls.',
    'C22': 'The documented predicate of every validator as a Python '
           'expression, and the documented message key.',
    'C23': 'Recognizers written from the documentation: domain labels and '
           'lengths, URL parts against required, forbidden and allowed '
           'sets, the numbering plan of phones, the Luhn sum.',
    'C24': 'A recognizer from the published brand table (prefixes and '
           'lengths) and the Luhn sum.',
    'C25': 'A model of the order in which translators and the sources of a '
           'value are consulted.',
    'C26': 'For tags: the tag generator itself (whose output C10 and C11 '
           'decide). For bodies, selects and scopes: the same template '
           'rendered by Genshi with the flatland attributes left out, and '
           'the reference transforms of C11 applied to its tags.',
    'C27': 'A (value, text) model per kind of element; equality is '
           'equality of the models, whatever the history; containers '
           'against plain data.',
    'C28': 'Differential: an untouched copy of the same schema, observed '
           'before anything else happened in the process, and full '
           'snapshots of the bystanders.',
    'C29': 'A table from public name to home module, in a state with no '
           'module of the package loaded.',
    'C30': 'Small models of each helper (dictionaries of assigned values, '
           'truth tables, list comprehensions, digit sums).',
}

LIMITS = {
    'C01': ['separators are not empty and names are not the empty text',
            'references are not in the trees (their flat input is C17\'s)'],
    'C02': ['names that look like negative indexes and other aliases of an '
            'index (leading zeros, signs) are only required to be harmless'],
    'C03': ['sorting without a key compares the elements themselves, which '
            'has no documented meaning'],
    'C04': ['items of mappings assigned an Element of a foreign type, and '
            'generators given to unnamed mappings, are not examined'],
    'C08': ['Decimal exponents beyond those of floats are not rendered'],
    'C10': ['a class that claims to be markup (Genshi\'s Markup as wrapper) '
            'is trusted, as documented'],
    'C11': ['the documentation of unknown input types and of button bodies '
            'is out of date and was not used; nor was the stated default '
            'of auto_for, which differs between text and table'],
    'C14': ['positions before the first validator (beyond -(n+1)) have no '
            'documented meaning'],
    'C17': ['references to compounds are only read; dangling references '
            'raise KeyError; a reference with a default of its own, and '
            'flat input of mappings that contain references, are not '
            'examined'],
    'C18': ['set(None) on a JoinedString raises, as it does for every '
            'sequence but as no documentation mentions'],
    'C20': ['an empty include or omit means none was given; fields that '
            'set_by_object does not take from the object are reset, as the '
            'documentation of set says'],
    'C21': ['MultiValue with a text as default takes its characters'],
    'C22': ['ValueIn over a text means substring; unhashable values in '
            'sets raise'],
    'C23': ['paths that begin with two slashes without a network location '
            'cannot be written back by urlparse',
            'leading zeros of phone extensions are dropped'],
    'C24': ['validators set on the class are replaced by the '
            'constructor\'s'],
    'C25': ['literal integers as plural keys and fractional counts'],
    'C26': ['xi:include and py:match'],
    'C27': ['comparing with an element whose value cannot be computed '
            '(dangling reference, compose() that raises) raises what '
            'computing it raises'],
    'C30': ['copies of the named integers (Skip and its kin) and of Maybe '
            'are equal but not identical; the constants of the statement '
            'are the symbols'],
}

WHY_NOT = {
    "('KF', 'List', 'imul')":
        'Multiplying would have to copy members, for which elements have no '
        'operation.',
    "('KF', 'diamond')":
        'Repairing it needs the declared fields of every base to be told '
        'from the inherited ones, a redesign of the metaclass.',
    "('KF', 'slot')": '',
    "('KF', 'idna')":
        'A repair would catch every exception of the codec, including ones '
        'that mean something else.',
}

CAUGHT = {
    'c02-array-name-unescaped': 'First missed; C02 since explores names with '
                                'the characters of patterns. Caught by C02.',
    'c02-maximum-of-class': 'First missed; C02 since gives ceilings to single '
                            'elements. Caught by C02.',
    'c06-empty-optional-skips-all': 'First missed; C06 since explores empty '
                                    'optional containers with children. '
                                    'Caught by C06.',
    'c08-false-first': 'First missed; C08 since explores booleans whose texts '
                       'overlap. Caught by C08.',
    'c15-attribute-stays': 'First missed; C15 since declares fields that have '
                           'the name already. Caught by C15.',
    'c23-port-zero': 'First missed; C23 since explores more ports. Caught by '
                     'C23.',
    'c01-empty-name': 'First missed; C01 since explores empty names, which '
                      'also showed a defect (8478564). Caught by C01.',
    'c07-notify-decided-once': 'First missed; C07 since explores receivers '
                               'that come and go during a run. Caught by C07.',
    'c16-root-memo': 'First missed; C16 since looks up the same path from one '
                     'element as it moves between trees, which also showed a '
                     'defect (3871902). Caught by C16.',
    'c26-control-interpolation': 'First missed; C26 since explores computed '
                                 'switches. Caught by C26.',
    'c04-strict-counts-pairs': 'First missed; C04 since loads pair lists '
                               'under every policy. Caught by C04.',
    'c04-reset-reuses-children': 'First missed; C04 since resets elements '
                                 'with children. Caught by C04.',
    'c14-field-lookup-on-class': 'First missed; C14 since compares overrides '
                                 'at construction with derived schemas. '
                                 'Caught by C14.',
    'c25-transform-text-only': 'First missed; C25 since explores text '
                               'fillers of the transforms. Caught by C25.',
    'c27-eq-decides-by-value': 'First missed; C27 since compares all pairs '
                               'of leaves. Caught by C27.',
    'c05-el-strips-separators': 'First missed; C05 since explores separators '
                                'that look like name characters. Caught by '
                                'C05.',
    'c13-get-none-default': 'First missed; C13 since has properties that are '
                            'None. Caught by C13.',
    'c16-cache-key-stripped': 'First missed; C16 since compares what every '
                              'short text means after the others with what '
                              'it means alone. Caught by C16.',
    'c20-none-is-missing': 'First missed; C20 since gives attributes every '
                           'kind of value. Caught by C20.',
    'c22-skips-invalid-siblings': 'First missed; C22 since marks the members '
                                  'valid or not beforehand. Caught by C22.',
    'c24-discover-length': 'First missed (Discover was accepted only where '
                           'expected); C24 since gives all numbers to an '
                           'element that accepts all brands. Caught by C24.',
    'c26-bound-none-outer': 'First missed; C26 since binds elements that are '
                            'false. Caught by C26.',
    'c15-own-schema-only': 'First missed; C15 since has bases that were '
                           'configured. Caught by C15.',
    'c15-overwrite-last': 'First missed; C15 since redeclares fields with '
                          'related schemas. Caught by C15.',
    'c09-child-of-class': 'First missed; C09 since has allowed values of '
                          'other types than the child holds. Caught by C09.',
    'c30-documented-first-base': 'First missed; C30 since covers the '
                                 'documentation of methods. Caught by C30.',
    'c23-email-count-last': 'First missed; C23 since has local parts of odd '
                            'white space. Caught by C23.',
    'c17-own-default-ignored': 'First missed; C17 since assigns the value and '
                               'the text the target holds. Caught by C17.',
    'c25-state-none-falls-through': 'First missed; C25 since has states that '
                                    'turn translation off. Caught by C25.',
    'c08-date-time-part': 'First missed; C08 since has instances of '
                          'subclasses of the native types. Caught by C08.',
    'c28-first-override-on-schema': 'First missed; C28 since makes the first '
                                    'element with options. Caught by C28.',
    'c28-validators-not-copied': 'First missed; C28 since changes lists of '
                                 'validators given to elements. Caught by '
                                 'C28.',
    'c30-rename-plain-dict': 'First missed; C30 since gives renames in every '
                             'dict-like shape. Caught by C30.',
    'c20-update-if-changed': 'First missed; C20 since compares what is '
                             'stored. Caught by C20.',
}

TAIL = '''
## Not applicable

None: every property listed is decided by exploration.

## False alarms met while building, and what was done

- C27 first modelled `Boolean.set(None)` as unset (it is documented as
  `bool(value)`), and expected `set_default()` without a default to leave a
  scalar alone (it sets None).
- C28 first declared the properties of a form class as a plain dictionary,
  which the documentation says to wrap, and reported them as shared.
- C29 expected every validator's `__name__` to be its public name;
  `NoLongerThan` is an alias of `ShorterThan`.
- The remaining early disagreements are the exclusions listed with each
  property: in each the documentation leaves the point open or the harness
  asked for something no user can rely on.

## How planted bugs were made

`tools/plant.py` takes edits and a demonstration, checks in a scratch copy
that the patched tree passes the 716 tests, that the demonstration passes
without and fails with the patch, and files both under `seeded/`. Bugs were
written from the statements and the code; besides, `tools/mutate.py` makes
small systematic changes (negated conditions, changed constants, dropped
statements, swapped arguments) throughout the library in scratch copies, runs
the tests, and runs the checks on those that survive. What survived both was
looked at one by one, and either shown to change nothing observable, or led
to a stronger check.
'''
