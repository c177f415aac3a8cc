"""Source of properties.jsonl (run: python3 tools/gen.py)."""

P = 'pydantic_xml/'
F = P + 'serializers/factories/'


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe),
            hook_needed=None,
        ),
    )


PROPS = [
    prop(
        'C01', 'A field is read from exactly the XML place it is written to',
        'For every supported field kind (text, attribute, element, sub-model, mapping, raw element, wrapped path, '
        'collection, union) the kind of XML place (element text, attribute, set of attributes, sub-element at a path) and '
        'the fully qualified name used when a model is serialized are the same ones used when it is parsed. '
        'A field therefore never writes data under a name or place from which parsing the same model would not take it.',
        ['programs', 'inputs'],
        'every model definition built from the supported field kinds, every combination of explicit names, aliases, '
        'namespaces and namespace maps, every value',
        'tests sample a handful of names and namespaces per field kind; agreement of writer and reader must hold for all '
        'combinations of tag/alias/ns/nsmap and both backends',
        [F + f for f in ('primitive.py', 'mapping.py', 'model.py', 'raw.py', 'wrapper.py')] + [P + 'utils.py'],
        [('serializer pair serialize/deserialize', F + '*.py'), ('QName.from_alias', P + 'utils.py')],
        observe=['names passed to the element writer versus the element reader'],
    ),
    prop(
        'C02', 'Entity name precedence: explicit name, model tag, alias, field name',
        'The XML name bound to a field is its explicit tag/name if one is given; otherwise, for sub-models only, the '
        "model's own tag; otherwise the field's alias; otherwise the field (or computed property) name. "
        'A root element is named by the model tag, or by the class name if the model has no tag; a wrapped field follows its whole path.',
        ['programs'],
        'every presence/absence combination of explicit name, model tag, alias and field name, for every field kind',
        'tests cover some combinations for some kinds; precedence must hold in every combination for every kind',
        [F + f for f in ('primitive.py', 'mapping.py', 'model.py', 'raw.py', 'wrapper.py')] + [P + 'fields.py'],
        [('from_core_schema of each serializer', F + '*.py'), ('prepare_field_kwargs', P + 'fields.py')],
    ),
    prop(
        'C03', 'Namespace selection: own, then model, then inherited; attributes opt in',
        'An element takes the namespace alias declared on the field, else (sub-models) the one declared on the sub-model, '
        'else the nearest one inherited from the enclosing wrapper or model; an explicitly declared empty alias counts as declared. '
        'An attribute takes only its own alias, and inherits the enclosing one only if the model enables namespaced attributes; '
        'the default (unprefixed) namespace never applies to an attribute.',
        ['programs'],
        'every combination of declared/undeclared/empty namespace aliases on field, sub-model, wrapper and model, with and '
        'without namespaced attributes, for every field kind',
        'namespace tests use a few layouts; the empty alias, wrapper inheritance and attribute rules interact combinatorially',
        [F + f for f in ('primitive.py', 'mapping.py', 'model.py', 'raw.py', 'wrapper.py')] +
        [P + 'utils.py', P + 'serializers/serializer.py'],
        [('select_ns', P + 'utils.py'), ('Serializer.Context.parent_ns', P + 'serializers/serializer.py')],
    ),
    prop(
        'C04', 'Namespace prefixes resolve through the nearest declaration',
        'When the same prefix (or the default namespace) is declared at several levels, the innermost declaration wins: field '
        'over sub-model over wrapper over enclosing model, and subclass over base class, while prefixes declared only at outer levels or in '
        'base classes remain visible. Declaring a namespace map never alters the map of another field, model or base class.',
        ['programs'],
        'every combination of namespace maps present or absent at each level, with disjoint or clashing prefixes',
        'tests never declare one prefix differently at more than two levels',
        [P + 'utils.py', P + 'serializers/serializer.py', P + 'model.py', P + 'fields.py'] +
        [F + f for f in ('primitive.py', 'mapping.py', 'model.py', 'raw.py', 'wrapper.py')],
        [('merge_nsmaps', P + 'utils.py'), ('Serializer.Context.parent_nsmap', P + 'serializers/serializer.py'),
         ('BaseXmlModel.__init_subclass__', P + 'model.py'), ('XmlEntityInfo.merge', P + 'fields.py')],
    ),
    prop(
        'C05', 'Undeclared prefixes and default-namespaced attributes are refused',
        'Whenever a namespace map is in effect, using an alias it does not declare raises the library model error at class '
        'definition instead of producing an element or attribute in a wrong or empty namespace. Binding an attribute to the default '
        '(empty) namespace alias is refused with a field error, and a qualified name is always written as {uri}name when a namespace '
        'applies and as the bare name otherwise.',
        ['programs'],
        'every alias / namespace map combination on every field kind and on models',
        'tests assert the error for one or two field kinds only',
        [P + 'utils.py', F + 'primitive.py'],
        [('QName.from_alias', P + 'utils.py'), ('AttributeSerializer.from_core_schema', F + 'primitive.py')],
    ),
    prop(
        'C06', 'Strict and ordered search bind exactly the documented element',
        'In strict mode a field binds only the element immediately following the last bound one and only if its tag matches; '
        'in ordered mode it binds the first following element with a matching tag, skipping others, and never one before the last bound one. '
        'A search that finds nothing binds nothing and leaves the position unchanged, and each field is searched in the mode '
        'declared on the model that contains it.',
        ['inputs', 'programs'],
        'every sequence of sub-elements (any length, any tags), every current position, every tag',
        'tests use documents with a few elements; the claim is for all element sequences and positions',
        [P + 'element/element.py'] + [F + f for f in ('primitive.py', 'mapping.py', 'model.py', 'raw.py', 'wrapper.py',
                                                     'tagged_union.py')],
        [('strict_search / ordered_search / get_searcher', P + 'element/element.py')],
        state=[('next_element_idx', 'position after the last bound sub-element', P + 'element/element.py')],
    ),
    prop(
        'C07', 'Unordered search finds every match and binds no element twice',
        'In unordered mode a field binds a not yet bound element with a matching tag wherever it is, and reports nothing found only if no such element is left; an element '
        'already bound is never bound again, no element is lost or duplicated, and the elements bound before stay as they are.',
        ['inputs'],
        'every sequence of sub-elements, every current position, every tag, any interleaving of fields',
        'what is left to be found depends on which fields were bound before and on the positions of all elements; tests check a few permutations',
        [P + 'element/element.py'],
        [('unordered_search', P + 'element/element.py')],
        state=[('elements / next_element_idx', 'bound prefix and not yet bound rest', P + 'element/element.py')],
    ),
    prop(
        'C08', "With extra='forbid' nothing in the document is silently ignored",
        "Parsing into a model that forbids extra data fails if any attribute, any non-blank text or tail, or anything inside any sub-element at any depth of "
        'its element was not bound to a field, and every such leftover is reported with its path, and never fails because of data that was bound. '
        'Models that do not forbid extras never fail for leftovers.',
        ['inputs', 'programs'],
        'every document and model; leftovers at any depth and of any kind',
        'tests place a few leftovers in fixed positions; the claim covers every kind of leftover at every depth for every field kind',
        [P + 'element/element.py', F + 'model.py'],
        [('XmlElement.get_unbound', P + 'element/element.py'), ('BaseModelSerializer._check_extra', F + 'model.py'),
         ('pop_* consumption', P + 'element/element.py')],
    ),
    prop(
        'C09', 'A rejected union alternative leaves no trace on the document',
        'While a union of models is parsed, trying an alternative that is rejected consumes nothing: the next alternative, and the fields after the union, see the document exactly as it was. '
        'Only the consumption of the accepted alternative is kept, completely.',
        ['inputs', 'programs'],
        'every document, every list of alternatives, every point at which an alternative fails',
        'an alternative can fail after consuming any part of the subtree; tests fail alternatives at one point',
        [P + 'element/element.py', F + 'union.py'],
        [('create_snapshot/apply_snapshot', P + 'element/element.py'), ('union.ModelSerializer.deserialize', F + 'union.py')],
    ),
    prop(
        'C10', 'Unions pick the right alternative and fail loudly',
        'A union of models is parsed as the first alternative, in declaration order, that accepts the element, and if every applicable alternative is rejected '
        'all their errors are reported rather than the field being treated as absent; a discriminated union uses the alternative whose tag equals the discriminating '
        'attribute of the element. On serialization the value is written by the alternative of exactly its own type (or discriminator).',
        ['inputs', 'programs'],
        'every list of alternatives and every document or value',
        'tests use two or three alternatives in fixed order',
        [F + 'union.py', F + 'tagged_union.py'],
        [('union.ModelSerializer', F + 'union.py'), ('tagged_union.ModelSerializer', F + 'tagged_union.py')],
    ),
    prop(
        'C11', 'Every field error is collected and reported with its full path',
        'When parsing fails, the raised validation error contains all errors of all failing fields, collection items and union alternatives, not just the first, each located by '
        'field name, item index or alternative name followed by the path inside it. No validation error is ever swallowed so that a partly invalid document yields a model.',
        ['inputs', 'programs'],
        'every set of failing fields/items at every nesting depth',
        'tests fail a couple of fields at once in fixed positions',
        [F + f for f in ('model.py', 'homogeneous.py', 'heterogeneous.py', 'union.py')] + [P + 'utils.py'],
        [('error maps in deserialize', F + '*.py'), ('into_validation_error', P + 'utils.py')],
    ),
    prop(
        'C12', 'Validation errors keep type, message and input and honour input hiding',
        'Re-raising a validation error from a nested level keeps the type, message, context, path and input of every individual error. '
        'If the model configuration hides inputs in errors, no validation error raised while parsing that model discloses them; the setting of an enclosing model '
        'is inherited by what it contains unless overridden.',
        ['inputs', 'programs'],
        'every error of every nested level, every configuration of input hiding',
        'tests look at one or two error shapes; every construction site of an error must carry the setting',
        [P + 'utils.py'] + [F + f for f in ('model.py', 'homogeneous.py', 'heterogeneous.py', 'union.py')],
        [('into_validation_error / set_validation_error_sourceline', P + 'utils.py'), ('hide_input_in_errors', F + '*.py')],
    ),
    prop(
        'C13', 'Errors point at the source line of the element they are about',
        'With a parser that provides lines, the line in a validation error is the line of the element bound to the location in error, or of the nearest enclosing bound element '
        'or model element if that location has none of its own; lines recorded for one model are never attributed to another model that happens to have fields of the same name. Leftover (extra) errors carry the line of the leftover element.',
        ['inputs', 'programs'],
        'every document layout and nesting',
        'tests check a few layouts in which nested models do not reuse field names after a failing field',
        [F + '*.py', P + 'utils.py', P + 'element/element.py', P + 'element/native/lxml.py'],
        [('sourcemap', F + '*.py'), ('set_validation_error_sourceline', P + 'utils.py'), ('get_sourceline', P + 'element/native/lxml.py')],
    ),
    prop(
        'C14', 'Parsing options reach every nested level unchanged',
        'The validation context and the empty-as-string option given to a parsing call are the ones in effect for every nested model, collection item, union alternative and wrapped field, and the context '
        'reaches the final validation of every model. An empty element text is read as None, or as an empty string exactly when the option is on.',
        ['programs', 'inputs'],
        'every nesting of field kinds',
        'tests set the options on one or two nesting shapes',
        [F + '*.py', P + 'model.py'],
        [('keyword propagation in deserialize', F + '*.py')],
    ),
    prop(
        'C15', 'Serialization flags reach every nested level unchanged',
        'The skip-empty, exclude-none and exclude-unset flags given to a serialization call are in effect for every nested model, collection item, union alternative and wrapped field. '
        'A model that declares its own skip-empty setting (true or false) uses it instead of the caller\'s flag for its whole content, and nothing else changes a flag on the way down.',
        ['programs', 'inputs'],
        'every nesting of field kinds and every flag combination',
        'tests combine flags with few nestings',
        [F + '*.py', P + 'model.py'],
        [('keyword propagation in serialize', F + '*.py')],
    ),
    prop(
        'C16', 'Exactly the requested empty, None and unset entities are left out',
        'Without flags every field of a non-None value is written, and a None primitive is written as an empty text, attribute or element; exclude-none leaves out every None entity and nothing else; '
        'exclude-unset leaves out exactly the fields not set explicitly; skip-empty leaves out None values and empty elements (an empty string attribute is still written) and never an element that has text, attributes or sub-elements. '
        'A None value of a wrapped field is left out together with its path whatever the flags, under skip-empty an empty one too. No flag makes serialization of a valid model fail.',
        ['inputs', 'programs'],
        'every field kind, every value (None, empty, non-empty), every flag combination',
        'tests sample flag/kind/value triples; e.g. an optional mapping with skip-empty is never tried',
        [F + '*.py', P + 'element/element.py'],
        [('serialize of each serializer', F + '*.py'), ('XmlElement.is_empty', P + 'element/element.py')],
    ),
    prop(
        'C17', 'xsi:nil is written for None and read back as None',
        'A None value of a nillable element (other than a wrapped field, which is left out) is written as that element carrying xsi:nil="true" (unless None or empty entities are excluded), a non-None value is never marked nil, '
        'and an element marked xsi:nil="true" is read as None by a nillable primitive or by a sub-model field (not a member of a union) while any other value of the mark is not. The mark itself is consumed, never left over as extra data.',
        ['inputs', 'programs'],
        'every nillable field kind and every value / document',
        'tests cover primitives and models in one layout each',
        [P + 'element/utils.py', F + 'primitive.py', F + 'model.py'],
        [('is_element_nill / make_element_nill', P + 'element/utils.py')],
    ),
    prop(
        'C18', 'Primitive values have one lexical form everywhere',
        'Wherever a primitive value ends up (text, attribute, element text or a mapping\'s attribute) it is written as the same string: the empty string for None, lower-case true/false for booleans, and the string form of '
        "pydantic's own encoding for everything else, so that custom pydantic encoders apply to XML too. Text and attribute values are handed to pydantic exactly as found in the document.",
        ['inputs', 'programs'],
        'every primitive type, every value, every place',
        'tests check booleans and None in a few places only',
        [P + 'serializers/serializer.py', F + 'primitive.py', F + 'mapping.py'],
        [('encode_primitive', P + 'serializers/serializer.py')],
    ),
    prop(
        'C19', 'Computed entities are written but never read',
        'A computed property bound to text, attribute, element or any other place is included in the serialized document under its own binding. '
        'Parsing never takes data for it from the document and never passes a value for it to validation.',
        ['programs', 'inputs'],
        'every field kind a computed property can have, every document',
        'tests cover a few kinds',
        [F + '*.py', P + 'fields.py'],
        [('computed flag in deserialize', F + '*.py'), ('computed_entity', P + 'fields.py')],
    ),
    prop(
        'C20', 'NoXml fields are invisible to XML and excluded fields are write-only hidden',
        'A field annotated as not-XML is neither written to nor read from a document, whatever its type. '
        'A field excluded from serialization is never written but is still read, and every other field takes part in both directions.',
        ['programs', 'inputs'],
        'every field type and model shape',
        'one example each in the tests/examples (and the NoXml example is not even run)',
        [F + 'model.py'],
        [('ModelSerializer.from_core_schema / serialize', F + 'model.py')],
    ),
    prop(
        'C21', 'Custom XML field serializers and validators replace the default ones',
        'If a model, a base class or the field annotation declares a custom XML serializer or validator for a field, that function and only it is used for that field in that direction, on the containing element, and its result is what gets validated. '
        'Which function applies is determined by the program alone: a method declared in a subclass overrides an inherited one in every run, and custom functions of one model never apply to another one.',
        ['programs', 'configurations'],
        'every class hierarchy; every interpreter hash seed',
        'tests declare one function per field; the choice between several depends on set iteration order, which a fixed hash seed hides',
        [P + 'model.py', F + 'model.py', P + 'fields.py'],
        [('XmlModelMeta._collect_xml_field_serializers_validators', P + 'model.py')],
    ),
    prop(
        'C22', 'Model XML settings are inherited and overridable one by one',
        'Each XML setting of a model (tag, namespace, namespaced attributes, skip-empty, search mode) given in the class statement takes effect even if it is empty or false; each setting not given is inherited from the base class, '
        'falling back to the documented default. The namespace map of the base is extended, not replaced and not modified.',
        ['programs'],
        'every class hierarchy and every subset of settings',
        'tests override a few settings at a time with truthy values',
        [P + 'model.py'],
        [('BaseXmlModel.__init_subclass__', P + 'model.py')],
    ),
    prop(
        'C23', 'Unsupported field definitions are refused when the class is defined',
        'Every combination of field type and XML place that the library cannot represent (for example a collection, mapping, model or raw element as an attribute, a nested collection or a mapping with non-primitive values, a discriminated union without attribute discriminator) '
        'is refused with an error when the class is created. Every combination it does support is accepted, and no definition is accepted that later cannot be parsed or serialized at all.',
        ['programs'],
        'all type families times all XML places times all item types',
        'tests assert a subset of the combinations',
        [P + 'serializers/serializer.py', F + '*.py'],
        [('TYPE_FAMILY / select_serializer / from_core_schema dispatch', P + 'serializers/serializer.py')],
    ),
    prop(
        'C24', 'Parsing and serialization keep no state between calls',
        'The result of parsing a document or serializing a model depends only on the arguments of that call and the model definition, never on what was parsed or serialized before or concurrently with it. '
        'No call changes a model class, a serializer or any other shared object.',
        ['histories', 'schedules'],
        'every sequence and interleaving of calls',
        'tests run each call in a fresh, short history',
        [F + '*.py', P + 'element/element.py', P + 'model.py', P + 'utils.py'],
        [('serializers hold only construction-time state', F + '*.py')],
    ),
    prop(
        'C25', 'Inputs are never modified',
        'Parsing from an element tree leaves that tree exactly as it was, and serialization leaves the model and its values as they were; writing a raw element embeds a copy of it. '
        'Two parses of the same tree therefore give equal models.',
        ['inputs', 'histories'],
        'every tree and model',
        'tests never look at the input after the call',
        [P + 'element/native/lxml.py', P + 'element/native/std.py', P + 'element/element.py', P + 'model.py', F + '*.py'],
        [('from_native copies', P + 'element/native/*.py')],
    ),
    prop(
        'C26', 'Both XML backends convert documents faithfully and alike',
        'Converting between a parsed document and the internal element keeps tag, text, tail, all attributes and all child elements in document order, in both directions and with both backends; comments and processing instructions are '
        'transparent: they never take part in binding and the text around them is not lost. The same document therefore yields the same model with either backend.',
        ['inputs', 'configurations'],
        'every document; both backends',
        'tests run with both backends but on documents without comments inside text or processing instructions',
        [P + 'element/native/lxml.py', P + 'element/native/std.py'],
        [('from_native / to_native', P + 'element/native/*.py')],
    ),
    prop(
        'C27', 'Only the expected root is parsed, and only by complete models',
        'Parsing succeeds only if the root element has exactly the qualified name of the model, otherwise the library parsing error is raised and nothing is bound. '
        'A model whose generic parameters or forward references are unresolved never parses or serializes; once they are resolved and the model rebuilt it does.',
        ['inputs', 'programs'],
        'every root element; every order of definition and rebuild',
        'tests use a few wrong roots and forward reference layouts',
        [P + 'model.py'],
        [('from_xml_tree', P + 'model.py'), ('__build_serializer__ / model_rebuild', P + 'model.py')],
    ),
    prop(
        'C28', 'Every option of the public API takes effect',
        'Every documented parameter of the public parsing, serialization, model creation and field functions reaches the place where it takes effect: none is dropped, replaced by another or given a different default on the way, and extra keyword '
        'arguments are passed to the XML backend or to pydantic. Field and computed-property factories can be reused without affecting one another.',
        ['programs', 'inputs'],
        'every parameter with every value, in every combination',
        'tests set few parameters of few functions',
        [P + 'model.py', P + 'fields.py'],
        [('create_model, from_xml, to_xml, attr, element, wrapped, computed_*', P + 'model.py, ' + P + 'fields.py')],
    ),
    prop(
        'C29', 'The mypy plugin recognises the field functions it is for',
        'The mypy plugin applies its rules (default, alias, strictness, frozenness of a field) to exactly the public field functions as users import them, and inside wrapped() to the entity handed to it, so that a type checker requires the arguments a model really requires; every other declaration is judged as the plugin of pydantic judges it. The metaclasses announce the same functions to type checkers without the plugin.',
        ['programs'],
        'every model definition type-checked with the plugin',
        'there are no tests of the plugin',
        [P + 'mypy.py', P + 'fields.py'],
        [('ENTITIES_FULLNAME', P + 'mypy.py')],
    ),
    prop(
        'C30', 'Collections are read and written completely and in order',
        'A homogeneous collection binds every element its item type can bind from the current position with consecutive indices, in document order in strict and ordered mode (in unordered mode every one of them once, in unspecified order), and writes one entity per item in order; '
        'a fixed-size collection reads and writes its items position by position and refuses a value of another length. No item is dropped, duplicated or reordered, except None items under skip-empty.',
        ['inputs', 'programs'],
        'every collection length and content, every item kind',
        'tests use two or three items, none of them None',
        [F + 'homogeneous.py', F + 'heterogeneous.py', F + 'named_tuple.py'],
        [('serialize/deserialize loops', F + 'homogeneous.py, ' + F + 'heterogeneous.py')],
    ),
    prop(
        'C31', 'Only declared, non-reserved prefixes are registered, only if configured',
        'Declaring a namespace map on a model, field or computed field registers each of its prefixes with the XML backend exactly when prefix registration is enabled. '
        'The default namespace and the reserved ns<number> prefixes are never registered, and every other declared prefix is.',
        ['programs', 'configurations'],
        'every namespace map and both settings',
        'tests run with registration enabled only',
        [P + 'utils.py', P + 'model.py', P + 'fields.py', P + 'config.py'],
        [('register_nsmap', P + 'utils.py')],
    ),
    prop(
        'C32', 'Parsed values reach validation under the key pydantic expects',
        'Each value bound from the document is passed to model validation under the validation alias of its field if it has one, otherwise under the field name; unbound fields are not passed at all so that their defaults apply. '
        'The outcome of that validation (the model or its error) is the outcome of parsing.',
        ['programs', 'inputs'],
        'every alias configuration and every subset of bound fields',
        'tests cover a few alias configurations',
        [F + 'model.py', P + 'fields.py'],
        [('ModelSerializer.deserialize', F + 'model.py')],
    ),
    prop(
        'C33', 'Writing one field never damages what another field has written',
        'Fields bound to the same XML element (text, attributes, a mapping of further attributes, nil mark, wrapped content) are all present in the serialized document: adding an attribute, a set of attributes, a text or a sub-element keeps '
        'everything else already written there.',
        ['programs', 'inputs'],
        'every order and combination of fields bound to one element',
        'tests never combine an attribute field with a mapping of further attributes when serializing',
        [P + 'element/element.py', F + 'mapping.py', F + 'wrapper.py'],
        [('XmlElementWriter implementation', P + 'element/element.py')],
    ),
    prop(
        'C34', 'Wrapped fields live at exactly their path',
        'A wrapped field is written inside the nested elements of its path, each created only if the last written sibling is not already that element, and is read from exactly that path; if any part of the path is missing the field is absent. '
        'Several fields wrapped by the same path share the wrapping elements in both directions.',
        ['programs', 'inputs'],
        'every path, every set of fields sharing path prefixes, every document',
        'tests use a few paths of length up to three',
        [F + 'wrapper.py', P + 'element/element.py'],
        [('find_sub_element / find_element_or_create', P + 'element/element.py'), ('ElementPathSerializer', F + 'wrapper.py')],
    ),
    prop(
        'C35', 'Raw elements are transferred whole',
        'A raw element field receives a copy of the complete bound subtree (tag, text, tail, attributes, all descendants) and consumes all of it, and on serialization its complete subtree is written. '
        'An absent raw element leaves the field unbound.',
        ['inputs', 'programs'],
        'every subtree',
        'tests use small subtrees',
        [F + 'raw.py', P + 'element/element.py'],
        [('raw.ElementSerializer', F + 'raw.py'), ('pop_element(remove=True)', P + 'element/element.py')],
    ),
    # ---- not decidable with this family
    prop(
        'C90', 'Round trip: parsing a serialized model gives an equal model',
        'For every model built from invertible field types, parsing the document it serializes to yields an equal model, with either backend.',
        ['programs', 'inputs'],
        'every model definition and every value',
        'tests round-trip a few hundred fixed documents',
        ['pydantic_xml/model.py'],
        [('to_xml / from_xml', 'pydantic_xml/model.py')],
    ),
    prop(
        'C91', 'Parsing time is linear in strict mode',
        'Parsing a document in strict mode takes time proportional to its size; in unordered mode at most fields times elements.',
        ['inputs'],
        'every document',
        'tests do not measure time',
        [P + 'element/element.py'],
        [('searchers', P + 'element/element.py')],
    ),
    prop(
        'C92', 'Serialized documents are well-formed for every value',
        'Every document produced by serialization is well-formed XML, with special characters escaped, or an error is raised.',
        ['inputs'],
        'every string value',
        'tests use plain ASCII values',
        [P + 'model.py'],
        [('etree.tostring', P + 'model.py')],
    ),
]
