"""Source of MANIFEST.json (run: python3 tools/gen.py)."""
TECH = 'path-sensitive abstract interpretation of the source'
ASSUME = ('Assumes the hand-written model of Python built-ins, pydantic class creation/validation and native XML elements in '
          'sa/externals.py and sa/harness.py; obligations on paths the interpreter cannot follow are counted as undecided '
          'in the evidence and never reported.')


def chk(what, tech=''):
    return ('other', TECH + (': ' + tech if tech else ''), what + ' ' + ASSUME)


CHECKS = {
    'C01': chk('Decides, for every field kind and all enumerated combinations of declarations with unknown names and uris, that the place '
               'and qualified name written equal those looked up.', 'writer/reader name agreement'),
    'C02': chk('Decides name precedence for all presence/absence combinations per field kind; names are unknowns.', 'decision table'),
    'C03': chk('Decides namespace selection for all combinations of declared / empty / missing aliases per level.', 'decision table'),
    'C04': chk('Decides which declaration a prefix resolves to; the uris are distinct unknowns per level.', 'decision table'),
    'C05': chk('Decides for every alias / map combination whether the class statement must be refused.', 'decision table'),
    'C06': chk('Decides strict and ordered search for an element with an arbitrary number of sub-elements (loop fixpoints).', 'loop invariants'),
    'C07': chk('Decides unordered search for an arbitrary number of sub-elements.', 'loop invariants'),
    'C08': chk('Decides which leftovers are reported, for leftovers at every place around every field kind, and for which models.', 'error set comparison'),
    'C09': chk('Decides what the alternatives after a rejected one, and the fields after the union, see of the document, for several points of failure and search modes.', 'tree rules'),
    'C10': chk('Decides which alternative of a union writes a value, at every kind of place.', 'tree rules'),
    'C11': chk('Decides which errors, at which locations, a document with any set of failing sub-models at every kind of place raises.', 'error set comparison'),
    'C12': chk('Decides type, message, context, input of every re-raised error and input hiding, over all settings of nested models.', 'error set comparison'),
    'C13': chk('Decides the line attached to every error; lines are distinct unknowns per element.', 'error set comparison'),
    'C14': chk('Decides context and empty-as-string at every kind of place.', 'tree rules'),
    'C15': chk('Decides the effective skip-empty flag for a sub-model at every kind of place and every combination of settings.', 'tree rules'),
    'C16': chk('Decides what is written for every field kind, value class and combination of flags.', 'tree rules'),
    'C17': chk('Decides the nil mark for every kind that can carry it.', 'tree rules'),
    'C18': chk('Decides the lexical form of every value class at every place.', 'tree rules'),
    'C19': chk('Decides for every field kind that computed entities are written and that nothing of the document is taken for them.', 'tree rules'),
    'C20': chk('Decides for every field kind what not-XML and excluded fields write and take.', 'tree rules'),
    'C21': chk('Decides which function reads and writes a field for every place a custom serializer or validator can be declared at (model, base, '
               'annotation, overriding) and every field kind, and what is handed to it and done with its result.', 'event and tree rules'),
    'C22': chk('Decides for three-level class hierarchies and every combination of values of each setting, and every subset of settings, what '
               'each class reads and writes afterwards.', 'decision table, tree rules'),
    'C23': chk('Decides for every field type family at every place whether the class statement is accepted, and that what is accepted can be written '
               'and read by the serializers built for it.', 'decision table'),
    'C24': chk('Decides for every parsing and serialization path of every kind of field that no class, serializer, module object or function is '
               'changed by the call and nothing but its arguments decides the result.', 'frame conditions'),
    'C25': chk('Decides for every parsing and serialization path that no write, append, removal or consumption reaches the document, the model, its '
               'values or the context handed to the call.', 'frame conditions'),
    'C26': chk('Decides for every arrangement of up to three (thorough: four) nodes (elements, comments, processing instructions, with and without text '
               'around them; all names and texts unknown) and both backends that conversion keeps everything and binding is the one of the document without them.', 'tree rules'),
    'C27': chk('Decides for the expected root and a set of names close to it, and for every way a model can be incomplete (parameters, forward '
               'references, in a root annotation, inherited) at every place, what is parsed, serialized and refused, before and after rebuilding.',
               'decision table, event rules'),
    'C28': chk('Decides, for every public function, every argument and combinations of presence, that the arguments take effect in what is '
               'written, read or recorded for pydantic, and that definitions are reusable and callers\' objects unchanged.', 'tree rules, frame conditions'),
    'C29': chk('Decides, for every public field function, wrapped up to twice, and every form of the arguments that matter, what the plugin concludes '
               '(default, alias, strictness, frozenness), which classes it transforms, and that the metaclasses announce all field functions.',
               'decision table'),
    'C31': chk('Decides which prefixes are registered for every place a namespace map can be declared at, for both settings and backends.', 'event rules'),
    'C30': chk('Decides the order and number of written items for every item kind.', 'tree rules'),
    'C32': chk('Decides the exact data handed to validation for every field kind, document shape and alias.', 'tree rules'),
    'C33': chk('Decides that what sibling fields wrote is still there for every field kind and value class.', 'tree rules'),
    'C34': chk('Decides wrapper path names in both directions and sharing of wrappers.', 'event and tree rules'),
    'C35': chk('Decides that a raw element receives a copy of the whole subtree.', 'tree rules'),
}
NOT_APPLICABLE = {
    'C90': 'The full round trip needs the composition of all field kinds with pydantic\'s own validators and encoders, which are '
           'outside /repo (pydantic-core); the static part (same place, same name, same lexical form) is C01, C18, C30.',
    'C91': 'Running time bounds quantify over runtime quantities; no cost analysis for Python is in reach that would bound them soundly.',
    'C92': 'Escaping and well-formedness are decided inside lxml / ElementTree C code, not in the source of this repository.',
}
NOTES = ('All checks read /repo/pydantic_xml/**/*.py as source text; nothing of /repo is imported or executed, no solver is used, '
         'no hooks in /repo are needed.')
