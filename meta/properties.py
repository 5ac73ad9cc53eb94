"""Source of properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md."""

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, design, state=None, assume=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, design=design, state=state, assume=assume))


prop('C01', 'A label is eligible exactly when RFC 7940 processing accepts it',
     'For every LGR and every label, the eligibility verdict, the accepted and rejected parts (with the names of the '
     'context rules that failed), the disposition and the index of the action that decided it are those of RFC 7940: '
     'repertoire elements matched longest first, when/not-when conditions honoured at the place of the code point, '
     'types of valid reflexive mappings fed to the ordered actions. A label is reported with the repertoire elements '
     'that spell it. The verdict does not depend on how the LGR was built (document or API), nor on whether logs or '
     'characters are asked for.',
     ['inputs', 'programs'], 'all LGRs x all labels',
     'Tests check a few labels on a few hand-written LGRs; the interaction of overlapping sequences, context rules, '
     'ranges and reflexive mappings is only settled by quantifying over LGRs and labels.',
     ['lgr/core.py', 'lgr/char.py', 'lgr/rule.py', 'lgr/action.py'],
     [('longest-first matching with context rules', 'lgr/core.py:_test_preliminary_eligibility'),
      ('reflexive mappings and actions', 'lgr/core.py:_test_label_disposition')],
     ['LGR.test_label_eligible'],
     'Random LGRs (overlapping sequences, ranges, tags, when/not-when, reflexive mappings, actions), loaded from XML or '
     'built through the editing API in random order; every answer of the eligibility test is compared by an online '
     'oracle with an independent model (set-of-positions rule matcher, longest-first matcher, ordered actions).')

prop('C02', 'Variant generation returns exactly the derivable variants of a label',
     'For every eligible label, the generated variant labels are exactly those obtained by replacing repertoire '
     'elements of the label by their variants whose conditions hold, without duplicates, each with a disposition (and '
     'deciding action) that one of its derivations justifies, and the original label comes last. Variants with the '
     'invalid disposition are left out unless asked for; restricting to chosen labels, collecting logs, asking for '
     'characters or for a summary never changes the rest of the answer. The estimated number of variants is the '
     'product of the per-code-point choices, labels over 63 code points and LGRs without a Unicode database are '
     'refused.',
     ['inputs', 'programs'], 'all LGRs x all eligible labels',
     'Tests enumerate the variants of a handful of labels; missing or spurious variants appear for combinations of '
     'sequences, contextual and reflexive variants that no sample covers.',
     ['lgr/core.py', 'lgr/char.py'],
     [('recursive permutation of the label', 'lgr/core.py:_generate_label_variants'),
      ('disposition of each variant', 'lgr/core.py:compute_label_disposition')],
     ['LGR.compute_label_disposition', 'LGR.compute_label_disposition_summary', 'LGR.estimate_variant_number'],
     'An independent enumerator lists all the derivations of the label (partitions x variants whose context holds); the '
     'oracle checks soundness (every output is derivable, with a disposition of one of its derivations), completeness '
     '(every strictly derivable variant is present), uniqueness, ordering, and agreement between the options.')

prop('C03', 'The first applicable action alone decides a disposition',
     'For every ordered list of actions, every label and every set of variant types, the disposition is that of the '
     'first action (the default actions coming last) whose rule condition (match or not-match) and variant condition '
     '(any-variant, all-variants, only-variants) both hold, and the reported index designates that action. The summary '
     'of a label counts each disposition of its listing exactly.',
     ['inputs', 'programs'], 'all action lists x type sets x only-variants status x labels',
     'Tests sample a few action lists; the truth table of conditions and precedence has to hold for all.',
     ['lgr/action.py', 'lgr/core.py'],
     [('conditions of one action', 'lgr/action.py:Action.apply'), ('ordering', 'lgr/core.py:_apply_actions')],
     ['Action.apply', 'LGR.test_label_eligible', 'LGR.compute_label_disposition_summary'],
     'Complete truth tables (all subsets of the types x only-variants flag) of every action of random ordered lists, '
     'end-to-end dispositions with their action index, and reordered action lists, against the first-match model.')

prop('C04', 'Whole label and context rules match exactly what RFC 7940 defines',
     'For every rule built from literals, any, classes, choices, nested and referenced rules, start/end, look-around, '
     'anchor and count attributes, the rule matches a label if and only if the RFC 7940 semantics say so. A rule with an '
     'anchor is evaluated with the anchor at the place of the code point or sequence under evaluation and nowhere else; '
     'a rule without an anchor used as a condition is evaluated on the whole label.',
     ['programs', 'inputs'], 'all rules x all labels x all anchors',
     'Tests cover one or two labels per matcher; nesting, repetition bounds and anchoring need quantification over '
     'rules and labels.',
     ['lgr/rule.py', 'lgr/matcher.py', 'lgr/classes.py'],
     [('translation of rules to patterns', 'lgr/matcher.py:get_pattern'),
      ('anchored search', 'lgr/rule.py:Rule.matches')],
     ['Rule.matches'],
     'Random rule syntax trees are written to XML and parsed by the real parser; every evaluation is compared with an '
     'independent set-of-end-positions matcher, including all the anchors of each label, and all the labels of a two '
     'letter alphabet for every kind of count.')

prop('C05', 'Classes denote exact sets and class operators are set algebra',
     'For every class expression (tag, Unicode property, literal code points and ranges, references, union, '
     'intersection, difference, symmetric difference, complement) the class contains exactly the code points that set '
     'algebra gives, whether read as a set or used inside a rule, an empty class matching nothing. Evaluating a class '
     'never changes another class or a later evaluation, and a tag denotes exactly the code points that carry it.',
     ['programs', 'inputs'], 'all class expressions x all code points',
     'Tests check single operators on one or two code points.',
     ['lgr/classes.py', 'lgr/core.py', 'lgr/parser/xml_parser.py'],
     [('set operators', 'lgr/classes.py:get_pattern'), ('tag classes', 'lgr/core.py:_add_cp_to_tag_classes')],
     ['Class.get_pattern(as_set=True)', 'Rule.matches', 'LGR.get_tag_classes'],
     'Random class expressions are parsed from XML and evaluated several times in random order on probes of the whole '
     'code space, and through rules (alone, in a look-behind, repeated); the oracle is plain predicate algebra.')

prop('C06', 'Index labels are minimal and characterise collisions',
     'For every label of an LGR, the index label is the smallest, over all the ways to cut the label in repertoire '
     'elements whose conditions hold, of the concatenation of the smallest of each element and its valid variants. On a '
     'symmetric and transitive LGR, all the variants of a label share its index label, which is one of them, and two '
     'labels have the same index label if and only if they are variants of one another. A label outside of the LGR is '
     'refused.',
     ['inputs', 'programs'], 'all LGRs x labels; all pairs of labels of symmetric and transitive LGRs',
     'Tests compare a few index labels; collision detection relies on the equivalence for every pair of labels.',
     ['lgr/core.py'],
     [('partitions', 'lgr/core.py:_generate_label_partitions'),
      ('minimum of a partition', 'lgr/core.py:_generate_index_label_on_partition')],
     ['LGR.generate_index_label', 'LGR.compute_label_disposition'],
     'Index labels of random contextual LGRs against a brute-force minimum over all partitions; on generated variant '
     'equivalence relations, metamorphic oracle: invariance over variants, idempotence, minimality and equality of '
     'indexes iff membership in the generated variants.')

prop('C07', 'Every repertoire edit does what its history says, and nothing else',
     'After any history of additions, insertions, deletions and updates of code points, sequences, ranges, variants, '
     'tags, references and context rules, the content of the LGR is the one the accepted edits define: an edit that is '
     'refused (documented exception: already exists, not in LGR, not in repertoire, not IDNA2008 valid, unknown rule...) '
     'leaves the LGR unchanged, deleting an element leaves no trace of it in the tag classes and ranges, forcing an '
     'addition only skips the checks it documents. Variant sets are the connected components of the variant mappings.',
     ['histories', 'inputs'], 'all histories of edits x all operands',
     'Tests run one or two edits from an empty repertoire; stale tags, half-done range insertions and lost variants only '
     'appear after longer histories.',
     ['lgr/core.py', 'lgr/char.py', 'lgr/classes.py'],
     [('editing API', 'lgr/core.py:add_cp,add_range,add_codepoints,add_variant,insert_ref,del_cp,del_range,del_variant'),
      ('repertoire', 'lgr/char.py:Repertoire')],
     ['LGR.repertoire', 'LGR.get_tag_classes', 'LGR.get_variants', 'LGR.repertoire.get_variant_sets'],
     'Random histories with valid and refused operands, with and without validating repertoire and IDNA database, '
     'replayed on a reference model; the whole observable content is compared after each edit.',
     assume='Ranges have at least two code points and are deleted with the bounds they were added with.')

prop('C08', 'Evaluation always reflects the current content of the LGR',
     'After any interleaving of edits (code points, variants, tags, classes, rules, actions) and evaluations, every '
     'eligibility verdict, variant listing, index label and class membership is the one that a fresh LGR with the same '
     'content gives: nothing computed before an edit survives it.',
     ['histories', 'inputs'], 'all interleavings of edits and evaluations',
     'Tests build an LGR, evaluate once and stop; stale caches need evaluate-edit-evaluate histories.',
     ['lgr/core.py', 'lgr/rule.py', 'lgr/classes.py', 'lgr/matcher.py', 'lgr/memoize.py'],
     [('pattern caches', 'lgr/rule.py:Rule.get_pattern'), ('tag classes', 'lgr/core.py:_add_cp_to_tag_classes')],
     ['LGR.test_label_eligible', 'LGR.compute_label_disposition', 'LGR.generate_index_label', 'Class.get_pattern'],
     'Random edits mirrored on the model between evaluations of a pool of labels; every answer is compared with the '
     'model of the content at that time.')

prop('C09', 'Writing an LGR to XML and reading it back loses nothing',
     'For every LGR, the serialized document is schema valid, reads back as the same LGR (repertoire with ranges, '
     'variants, context rules, tags, comments, references; metadata; classes, rules and actions in order) with the same '
     'answers on labels, and is a fixed point of further round trips. Serializing does not change the LGR, '
     'and the result does not depend on whether the document was read from a file or a buffer.',
     ['inputs', 'programs'], 'all LGRs and all LGR documents',
     'Tests round trip a few files; loss of an attribute needs every combination of optional content.',
     ['lgr/parser/xml_serializer.py', 'lgr/parser/xml_parser.py', 'lgr/validate/xml_validity.py'],
     [('serializer', 'lgr/parser/xml_serializer.py:serialize_lgr_xml'), ('parser', 'lgr/parser/xml_parser.py')],
     ['serialize_lgr_xml', 'XMLParser.parse_document', 'XMLParser.validate_document'],
     'Random LGRs (from documents and through the API) and all the documents of the repository; an independent reader '
     'of the XML, the RNG schema, snapshots before and after, and behaviour on labels are the oracles.',
     assume='Rules, classes and actions are kept as XML text by the LGR, so they come from documents.')

prop('C10', 'Parsing keeps every valid part of a faulty document, or refuses it',
     'A document with a fault (metadata, references, code points, ranges, variants, tags, context rules, classes, '
     'rules, unknown elements) is refused by strict parsing with the documented exception and reason; tolerant parsing '
     'keeps exactly the content that is not at fault, records each failed RFC 7940 check, and never fails where it can '
     'skip. A valid document is parsed the same in both modes, with or without Unicode database. Lists in attributes '
     'may be separated by any amount of spaces; a parser may be asked the Unicode version, the schema validity and the '
     'LGR any number of times, in any order, from a path, a file or a stream.',
     ['inputs', 'histories'], 'all documents with faults x strict/tolerant x database/none',
     'Tests try one fault per mode; what tolerant parsing must keep depends on all the content around the fault.',
     ['lgr/parser/xml_parser.py', 'lgr/parser/parser_base.py', 'lgr/core.py', 'lgr/metadata.py', 'lgr/rule.py',
      'lgr/classes.py', 'lgr/validate/xml_validity.py'],
     [('parser', 'lgr/parser/xml_parser.py:XMLParser.parse_document'), ('recorded checks', 'lgr/core.py:notify_error')],
     ['XMLParser.parse_document', 'XMLParser.validate_document', 'XMLParser.unicode_version',
      'Metadata.rfc7940_checks.test_result'],
     'Valid random documents with one to three injected faults out of a catalogue; an independent reading of the '
     'document says what each mode keeps, which reason is reported and which checks fail.',
     assume='Code points are written in hexadecimal, mandatory attributes are present.')

prop('C11', 'Legacy tables (RFC 3743, RFC 4290, one per line) are read as they are written',
     'For every table in one of the text formats, the LGR has exactly the code points, sequences, variants (preferred '
     'variants are activated), references, version and date of its entries, under the rules of the editing API '
     '(duplicates, unknown references and code points that are not IDNA2008 valid are refused, or forced in tolerant '
     'mode where that applies). A malformed or refused entry is skipped and changes nothing else. The heuristic parser '
     'picks the parser of the format and gives the same LGR, for paths and streams, any line separator, and any order '
     'of validation, version query and parsing. The result can be published as a valid LGR document.',
     ['inputs', 'histories'], 'all tables in the three formats x strict/tolerant x database/none x source kinds',
     'Tests read ten small files; what a malformed line does to its neighbours depends on all the combinations.',
     ['lgr/parser/rfc3743_parser.py', 'lgr/parser/rfc4290_parser.py', 'lgr/parser/line_parser.py',
      'lgr/parser/heuristic_parser.py', 'lgr/parser/parser.py'],
     [('RFC 3743', 'lgr/parser/rfc3743_parser.py:_parse_doc'), ('RFC 4290', 'lgr/parser/rfc4290_parser.py:_parse_doc'),
      ('dispatch', 'lgr/parser/heuristic_parser.py:_find_parser')],
     ['RFC3743Parser.parse_document', 'RFC4290Parser.parse_document', 'LineParser.parse_document',
      'HeuristicParser.parse_document'],
     'Tables generated from structured entries (with noise and malformed entries); the expected LGR is replayed from the '
     'structure on the reference model of the editing API, and compared for each parser, source kind and query order.',
     assume='Code points are at most U+10FFFF; files are in UTF-8; other text lines do not start like an entry.')

prop('C12', 'Populating variants yields the symmetric and transitive closure, and only that',
     'For every LGR, populating its variants adds exactly the missing code points that are variants, and exactly the '
     'missing variants of the symmetric and transitive closure, all blocked. Existing variants keep their type, comment '
     'and references; an unconditional variant whose reverse has a condition receives it, and conditions end up '
     'symmetric unless both directions already had different ones. Everything else is untouched (a range is expanded '
     'only if one of its code points is a variant). Populating again changes nothing.',
     ['inputs'], 'all LGRs',
     'Tests populate two or three code points; closure needs arbitrary graphs of variants with conditions.',
     ['lgr/populate/__init__.py', 'lgr/validate/symmetry.py', 'lgr/validate/transitivity.py'],
     [('closure', 'lgr/populate/__init__.py:populate_lgr')],
     ['LGR.populate_variants', 'populate_lgr'],
     'Random partial variant graphs (sequences, ranges, conditions, reflexive variants); the result is compared with '
     'the connected components of the graph, variant by variant, and populated again.',
     assume='Missing code points are valid for IDNA2008 when the LGR checks it.')

prop('C13', 'Validators report exactly the problems of an LGR, whatever was validated before',
     'For every LGR: the symmetry check reports exactly the variants out of the repertoire, without reverse variant, or '
     '(unless rules are ignored) whose reverse has not the same context rule; the transitivity check exactly the missing '
     'transitive variants; the conditional variant check exactly the context rules that are not defined; the rebuild '
     'exactly the elements the editing API refuses (IDNA2008, validating repertoire, ranges, variants) or that are not '
     'in the scripts; the XML check agrees with the schema. Each verdict is positive only without problem and failures '
     'are recorded in the RFC 7940 results. Validating changes nothing in the LGR, runs exactly the checks that were '
     'asked, and does not depend on the validations done before.',
     ['inputs', 'histories'], 'all LGRs x validation options x series of validations',
     'Tests use one LGR per validator; completeness of a report depends on the whole variant graph, and leftovers show '
     'only in series.',
     ['lgr/validate/__init__.py', 'lgr/validate/symmetry.py', 'lgr/validate/transitivity.py',
      'lgr/validate/conditional_variants.py', 'lgr/validate/rebuild_lgr.py', 'lgr/validate/xml_validity.py',
      'lgr/validate/rfc7940.py', 'lgr/core.py'],
     [('series', 'lgr/validate/__init__.py:validate_lgr'), ('rebuild', 'lgr/validate/rebuild_lgr.py:rebuild_lgr')],
     ['LGR.validate', 'validate_lgr', 'check_symmetry', 'check_transitivity', 'check_conditional_variants',
      'rebuild_lgr', 'check_xml_validity'],
     'Random LGRs with partial variants, conditions, missing rules and refused code points; reports are compared with '
     'the variant relation itself and with a replay on the reference model of the editing API, alone and by series.',
     assume='The Unicode databases give the right properties and scripts.')

prop('C14', 'Statistics count exactly the content of the LGR as it is now',
     'For every LGR, however it was built or edited, the statistics are those of its content: code points (a range '
     'counts all its members, a sequence counts one), ranges and sequences with the largest ones, elements with '
     'variants, distinct mappings, mappings by type, largest variant set (with the element itself), average, code points '
     'by tag (a range counts all its members), rules. Computing them changes nothing and gives the same result twice.',
     ['inputs', 'histories'], 'all LGRs, read from documents or edited through the API',
     'Tests compute them on one or two files.',
     ['lgr/validate/lgr_stats.py', 'lgr/char.py'],
     [('statistics', 'lgr/validate/lgr_stats.py:generate_stats')], ['generate_stats', 'compute_stats'],
     'Random LGRs with many ranges, tags and repeated mappings, and edit histories; every statistic is recounted from '
     'the specification the LGR was generated from, after each edit.',
     assume='Rules are not added again under the name of another one.')

prop('C22', 'Queries depend only on the LGR and the label, and leave nothing behind',
     'Any series of queries on an LGR (eligibility, dispositions, summary, estimate, index label), in any order, '
     'repeated, failing, with generators consumed by turns or given up, or run by several threads at the same time, '
     'gives for each query the result it gives alone on a fresh LGR; results do not depend on the hash seed of the '
     'process. The collected log of a query holds its own messages only, collecting it changes no result, and no log '
     'handler is left behind, even on errors. Queries change nothing in the LGR.',
     ['schedules', 'histories', 'inputs'], 'all LGRs x series of queries x interleavings',
     'Tests run one query at a time on a fresh LGR.',
     ['lgr/core.py', 'lgr/rule.py', 'lgr/action.py', 'lgr/char.py', 'lgr/mixed_scripts_variant_filter.py'],
     [('log collection', 'lgr/core.py:collect_rule_log'), ('caches', 'lgr/core.py:_clear_pattern_cache')],
     ['LGR.test_label_eligible', 'LGR.compute_label_disposition', 'LGR.generate_index_label',
      'LGR.estimate_variant_number', 'handlers of lgr-rule-logger'],
     'Each query is run alone on a fresh LGR first; the same queries are then replayed in random order, interleaved '
     'step by step, by threads switched every few microseconds, and in processes with other hash seeds; results, '
     'snapshots and log handlers are compared.',
     assume='Logs of queries run by other threads at the same time may be mixed.')

prop('C25', 'RFC 7940 checks and verdicts follow the metadata, the data and the policy',
     'For every LGR, the checks of metadata (validity dates against today and each other, media type, scope type, '
     'version), of dispositions, variant types, order of references and code points (only when the Unicode versions are '
     'the same) are recorded as executed, and as failed exactly when they fail; their verdict is positive only if none '
     'fails. A recorded failure is never lost, results of an LGR do not leak in another one. The final verdict is FAIL '
     'if a check of the policy was not executed or failed as an error, else WARN if one failed as a warning, else PASS; '
     'the report has one line for each. The command line tool gives that verdict for a document.',
     ['inputs', 'histories'], 'all metadata, data and policies, in any order',
     'Tests use a few documents and one policy; dates move with today.',
     ['lgr/validate/metadata.py', 'lgr/validate/miscellaneous.py', 'lgr/rfc7940.py', 'lgr/core.py',
      'tools/rfc7940_validate.py', 'lgr/tools/utils.py'],
     [('metadata', 'lgr/validate/metadata.py:check_metadata'), ('data', 'lgr/validate/miscellaneous.py:check_lgr_data'),
      ('verdict', 'lgr/rfc7940.py:get_final_result')],
     ['check_metadata', 'check_miscellaneous', 'LGR.get_rfc7940_validation', 'rfc7940_validate.py'],
     'Random metadata around today, data with faults, series of results and policies, and documents given to the tool; '
     'an independent statement of each check is the oracle.',
     assume='References of an element are all numbers or all names.')

prop('C15', 'The union of two LGRs holds exactly what either of them holds',
     'For every two LGRs, the union has the code points and sequences of both, each with the tags of both and the '
     'variants it has in either (target, when, not-when; type of the first one), both comments, and its context rule '
     'when only one LGR has the code point or both agree; scopes, languages, reference values, rules, classes and '
     'actions of both, in the order of the first one then of the second one, the stricter validity period and the '
     'latest Unicode version. Rules and classes of the same name with different definitions are kept under the names '
     'suffixed _1 and _2, as what refers to them. It can be serialized and read back strictly. The operands are left as '
     'they were (their ranges expanded), share nothing with the result, and the result does not depend on the hash '
     'seed of the process.',
     ['inputs'], 'all pairs of LGRs', 'No test covers the union.',
     ['lgr/tools/compare/union.py', 'lgr/tools/compare/utils.py', 'tools/lgr_compare.py'],
     [('union', 'lgr/tools/compare/union.py:union_lgrs')], ['union_lgrs', 'lgr_compare.py UNION'],
     'Pairs of LGRs made from a common one by random edits; the union, its document and the LGR read back are compared '
     'with the union of the specifications; algebraic laws; several processes with other hash seeds.')

prop('C16', 'The intersection of two LGRs holds exactly what both of them hold',
     'For every two LGRs, the intersection has the code points and sequences of both, with the tags and variants '
     '(target, when, not-when; type if equal) that both have, and the context rule both agree on; the scopes, languages, '
     'reference values, rules, classes and actions of both, in the order of the first one, the stricter validity period '
     'and the latest Unicode version. Rules and classes of the same name with different definitions are both kept under '
     'the names suffixed _1 and _2, with the definitions they use. It can be serialized and read back strictly. The '
     'operands are left as they were (their ranges expanded) and share nothing with the result.',
     ['inputs'], 'all pairs of LGRs', 'No test covers the intersection.',
     ['lgr/tools/compare/intersect.py', 'lgr/tools/compare/utils.py', 'tools/lgr_compare.py'],
     [('intersection', 'lgr/tools/compare/intersect.py:intersect_lgrs')], ['intersect_lgrs', 'lgr_compare.py INTERSECT'],
     'Pairs of LGRs made from a common one by random edits; the result, its document and the LGR read back are compared '
     'with the intersection of the specifications; algebraic laws (idempotence, commutativity, absorption).')

prop('C17', 'The textual comparison of two LGRs tells all their differences and nothing else',
     'For every two LGRs, the text of their comparison says, for each value of the metadata, the references, the set of '
     'code points, the comment, context rules, tags and variants (type, when, not-when, comment) of each common code '
     'point, the actions, and the rules and classes of the same name: that it differs, with what is in either one; or '
     'that it is the same, when this is asked for. It is the same text in every process, whatever the hash seed and the '
     'layout of the documents; swapping the LGRs swaps what is reported; an LGR compared with itself shows no '
     'difference. The comparison of two LGR sets does so for the merged LGRs, then for the element LGRs that both sets '
     'have a script for. Neither LGR is changed, ranges expanded excepted.',
     ['inputs'], 'all pairs of LGRs and of LGR sets', 'The tests compare a couple of documents.',
     ['lgr/tools/compare/diff.py', 'lgr/tools/compare/utils.py', 'tools/lgr_compare.py'],
     [('diff', 'lgr/tools/compare/diff.py:diff_lgrs'), ('diff of sets', 'lgr/tools/compare/diff.py:diff_lgr_sets')],
     ['diff_lgrs', 'diff_lgr_sets', 'lgr_compare.py DIFF'],
     'Pairs of LGRs made from a common one by random edits; the text is parsed back and compared, item by item, with the '
     'differences of their specifications; several processes with other hash seeds.')

prop('C18', 'The merge of a set of LGRs holds all of them, each under the name of its script',
     'For every set of LGRs of different scripts, the merged LGR has the code points and sequences of all of them, with '
     'the comments, references, tags (prefixed by the script, with the script extensions) and variants of each one, all '
     'blocked, and those needed to keep variants transitive and no other; the rules, classes and actions of each one, '
     'prefixed by the script (Common- for the MSR rules, kept once) everywhere they are used, the actions in order of '
     'precedence; the union of references, scopes and languages, the stricter validity period, the latest Unicode '
     'version. A code point has the context rule of the one LGR that has one, a merged rule when rules have the same '
     'name, and otherwise the merge is an error. The result does not depend on the order of the set nor on the hash '
     'seed, can be serialized and read back strictly; the LGRs are left as they were (their ranges expanded).',
     ['inputs'], 'all sets of LGRs of different scripts', 'Tests merge two or three small documents.',
     ['lgr/tools/merge_set.py', 'lgr/tools/utils.py', 'tools/lgr_merge_set.py'],
     [('merge', 'lgr/tools/merge_set.py:merge_lgr_set'), ('rules of code points', 'lgr/tools/merge_set.py:merge_chars')],
     ['merge_lgr_set', 'merge_lgrs', 'lgr_merge_set.py'],
     'Sets made from a common LGR by random edits, and sets of random variant sets; the merged LGR and its document are '
     'compared, element by element, with the transformation of the documents by the documented rules; several processes '
     'with other hash seeds.',
     assume='Languages of the LGRs of a set are different; names of rules do not start with the script of another LGR.')

prop('C19', 'Harmonized LGRs have the same variants for what they share, and nothing else',
     'For every two LGRs and optional root zone LGR, each harmonized LGR has exactly the variants of the closure '
     '(symmetric and transitive) of its own ones and of those that the other LGR, and the root zone one, give to the code '
     'points both have: hence, for LGRs with symmetric and transitive variants, both have the same variants for the '
     'code points they share. Added variants are blocked; added code points are marked Out-of-repertoire with an '
     'identity mapping of that type. Everything the LGR had is kept, ranges being expanded and the version comment '
     'marked. The code points to review are those of an LGR that the other one has not. The inputs are left as they '
     'were, unless no copy is asked for; the root zone LGR always; the order of the LGRs does not matter.',
     ['inputs'], 'all pairs of LGRs, with or without root zone LGR', 'Tests harmonize a few small documents.',
     ['lgr/tools/harmonize.py', 'lgr/populate/__init__.py', 'tools/lgr_harmonize'],
     [('harmonize', 'lgr/tools/harmonize.py:harmonize')], ['harmonize', 'lgr_harmonize'],
     'Pairs made from a common LGR by random edits, and random variant sets; the result is compared with the closure '
     'computed on the relations of the specifications; other order, twice, without copy.')

prop('C20', 'Collision reports and label comparisons list exactly what there is',
     'For every LGR with symmetric and transitive variants and every list of labels (with or without TLDs): the complete '
     'and simple reports list every pair of different labels with the same index label once, every pair of a label and a '
     'TLD once, the labels that are TLDs, the labels out of the LGR and the malformed ones, and nothing else; they tell '
     'that there is no collision only then. The dump lists every variant of every label with its disposition and its '
     'category. For two LGRs, the comparison of each label that both have lists exactly the changed dispositions and the '
     'new and removed variants. The LGRs are left as they were.',
     ['inputs'], 'all LGRs with symmetric and transitive variants and all lists of labels',
     'There are no tests of these reports.',
     ['lgr/tools/diff_collisions.py', 'tools/lgr_diff_collisions.py', 'lgr/core.py'],
     [('indexes', 'lgr/tools/diff_collisions.py:_generate_indexes'), ('pairs', 'lgr/tools/diff_collisions.py:dump_collisions'),
      ('comparison', 'lgr/tools/diff_collisions.py:_compare')],
     ['collision', 'basic_collision', 'get_collisions', 'diff', 'lgr_diff_collisions.py'],
     'Random variant sets, lists of labels with colliding ones, out of LGR, malformed, commented, and TLDs; the reports '
     'are parsed and compared with the pairs, dispositions and variants computed by the model.',
     assume='Labels are in the BMP; variants are symmetric and transitive.')

prop('C21', 'Each label of a list is annotated with its disposition, reason and collision',
     'For every LGR and list of labels, the annotation has, in the order of the list, the disposition of each label, the '
     'action that makes it invalid (the first one included), and each of its code points out of the repertoire or in a '
     'wrong context with the rules; malformed lines have their error. In an LGR set, the labels of the set out of the '
     'merged LGR are told and left out, and an eligible label is told to be in the set, or to collide with it, exactly '
     'when another label of the set has the same index label in the merged LGR, whatever the other labels of the set are.',
     ['inputs'], 'all LGRs, sets, and lists of labels', 'There are no tests of annotations.',
     ['lgr/tools/annotate.py', 'lgr/tools/diff_collisions.py', 'tools/lgr_annotate.py'],
     [('annotate', 'lgr/tools/annotate.py:annotate'), ('set', 'lgr/tools/annotate.py:lgr_set_annotate')],
     ['annotate', 'lgr_set_annotate', 'lgr_annotate.py'],
     'Every line of the annotation is compared with the one computed by the model, on random LGRs and on sets of two or '
     'three LGRs with labels that are in the set, collide with it, or collide among themselves.',
     assume='Labels are in the BMP; the LGRs of sets have symmetric and transitive variants.')

prop('C23', 'A copy of an LGR is the LGR, and is independent from it',
     'For every LGR, new or already used: its deep copy and its pickled copy (any protocol, in any process) have the same '
     'content, write the same document and answer every query alike once they have the Unicode database, which is not '
     'copied; the original is left as it was. Whatever is then done to one of them, the other one keeps its content, its '
     'document and its answers.',
     ['inputs', 'histories'], 'all LGRs, uses before the copy and edits after it', 'Tests copy no LGR that was used.',
     ['lgr/core.py', 'lgr/rule.py', 'lgr/metadata.py', 'lgr/char.py', 'lgr/classes.py'],
     [('state', 'lgr/core.py:LGR.__getstate__'), ('patterns', 'lgr/rule.py:Rule.__getstate__')],
     ['copy.deepcopy(lgr)', 'pickle.dumps(lgr)'],
     'Random LGRs used by queries, copied in every way, also in a process with another hash seed; contents, documents and '
     'queries compared, then one is edited and the other one compared with what it was.')

prop('C24', 'References stay consistent whatever their history',
     'After every history of additions (ids given as strings or integers, or generated), updates and removals of '
     'references, of the code points, ranges and variants that use them, and of copies: ids are unique strings of the '
     'allowed form, kept in order with their value and comment; generated ids are unused non-negative integers; elements '
     'only have defined references, as given, and lose a removed one everywhere; wrong ids and undefined or repeated '
     'references are refused (or left out when forced) without any effect; the document has them all and can be read back.',
     ['histories'], 'all histories of operations on references', 'Tests do a few operations.',
     ['lgr/metadata.py', 'lgr/core.py', 'lgr/char.py', 'lgr/parser/xml_serializer.py'],
     [('references', 'lgr/metadata.py:ReferenceManager'), ('removal', 'lgr/core.py:LGR.del_reference')],
     ['LGR.add_reference', 'LGR.del_reference', 'ReferenceManager', 'LGR.add_cp'],
     'Random histories on the LGR and on a model, compared after every operation, with documents read back.')

prop('C27', 'Labels and code points given as text are read as what they are, or refused',
     'For every text: an A-label in any case, a U-label, and a list of hexadecimal code points or characters are read as '
     'the label they spell, as a string or as code points alike; anything else with blanks or U+ is an error (raised, or '
     'given with the text itself) unless blanks are kept. Label files give every line that is not blank nor a comment, '
     'once, in order, without byte order mark, blanks and comment, whatever the other lines are. The root zone script of '
     'a label is the one of its characters, Japanese as soon as there is a kana.',
     ['inputs'], 'all texts and label files', 'Doctests read a dozen of texts.',
     ['lgr/tools/utils.py'],
     [('labels', 'lgr/tools/utils.py:parse_label_input'), ('files', 'lgr/tools/utils.py:read_labels'),
      ('script', 'lgr/tools/utils.py:get_rz_label_script')],
     ['read_labels', 'parse_label_input', 'parse_codepoint_input', 'get_rz_label_script'],
     'Random labels are spelled in all forms, with malformed ones; what is read is compared with the label and with an '
     'independent reader of the forms; ICU decodes A-labels.',
     assume='Hexadecimal code points have no 0x prefix.')

prop('C30', 'Hiding mixed-script variants hides the variants that mix scripts, and only them',
     'For every LGR and eligible label, computing the dispositions with hide_mixed_script_variants gives a part of what is '
     'given without, each variant once and with the same disposition, and the label itself last. Common and Inherited '
     'characters left aside, a variant is kept when its scripts are among those of the label, completed with the ones used '
     'along with them (Japanese with Han, kana and Latin, Korean and Chinese with Latin), or when it has a single script, or '
     'among the ones used along with the single script of another variant; it '
     'is hidden when its scripts are not used along with one another. The summary and the selection of labels agree, and '
     'the number of variants of single code points, outside CJK, is not over its estimation.',
     ['inputs'], 'all LGRs, labels and mixes of scripts', 'Tests look at two labels, without digit, hyphen or combining mark.',
     ['lgr/mixed_scripts_variant_filter.py', 'lgr/core.py'],
     [('filter', 'lgr/mixed_scripts_variant_filter.py:MixedScriptsVariantFilter'),
      ('permitted', 'lgr/mixed_scripts_variant_filter.py:get_permitted_scripts'),
      ('variants', 'lgr/core.py:_generate_label_variants'), ('estimate', 'lgr/core.py:estimate_variant_number')],
     ['compute_label_disposition', 'compute_label_disposition_summary', 'estimate_variant_number'],
     'The variants kept are compared with the full list, divided with an independent table of scripts.',
     assume='A variant combining scripts used along with a script no variant is wholly written in may be kept or hidden.')

prop('C26', 'Metadata take valid values, refuse others unless forced, and tell their scripts',
     'After any series of settings, dates are ISO 8601 full dates, the Unicode version is x.y.z and languages are valid '
     'RFC 5646 tags, unless force was given; what is refused raises LGRFormatException and changes nothing. A language is '
     'added once; deletions and replacements are seen at once in the scripts, which are those of the valid languages in '
     'their order, an ISO 15924 script standing for all its Unicode scripts. Versions, scopes and descriptions are equal '
     'exactly when their content is, whatever they are compared with.',
     ['histories'], 'all series of settings', 'Tests set one value of each kind.',
     ['lgr/metadata.py', 'lgr/utils.py', 'lgr/memoize.py'],
     [('setters', 'lgr/metadata.py:Metadata'), ('scripts', 'lgr/metadata.py:get_scripts'),
      ('iso 15924', 'lgr/utils.py:script_iso15924_to_unicode')],
     ['Metadata.add_language', 'Metadata.set_languages', 'Metadata.set_date', 'Metadata.set_unicode_version',
      'Metadata.get_scripts'],
     'Random histories on the metadata and on a model with a table of language tags, compared after every operation.')

prop('C29', 'The IDNA 2008 report lists exactly the non compliant part of the repertoire',
     'For every LGR, the report has one entry for each code point, range member or sequence with a code point that is '
     'neither PVALID, CONTEXTJ nor CONTEXTO, those marked out of repertoire by a reflexive variant aside, with their glyph, '
     'names, IDNA properties, categories and whether none is disallowed in IDNA 2003; the other elements are counted as '
     'compliant. The validity of a sequence, with the first or all its invalid code points, agrees. The LGR does not change.',
     ['inputs'], 'all repertoires', 'Tests look at three small tables without sequence nor range.',
     ['lgr/tools/idna2008_compliance.py', 'lgr/tools/idn_review/utils.py', 'lgr/utils.py'],
     [('report', 'lgr/tools/idna2008_compliance.py:check_idna2008_compliance'),
      ('validity', 'lgr/utils.py:is_idna_valid_cp_or_sequence')],
     ['check_idna2008_compliance', 'is_idna_valid_cp_or_sequence'],
     'Reports on random repertoires are compared with a table of the status of the code points drawn.')

prop('C31', 'The text of code points, ranges, classes and rules tells what they are',
     'For every list of code points, the U+ notation read back gives it in its order; the collapsed notation and the ranges '
     'cover exactly its members, once, with the longest ranges, from the empty list on and whatever the duplicates. The '
     'text of a rule or class names its references, tags and properties, spells literal sequences in order and nests '
     'operators, choices, counts and look-arounds as the definition does; the text of a character or variant is its glyph. '
     'Choosing between two values gives the only one, the common one, or both.',
     ['inputs'], 'all code points, classes and rules', 'Doctests look at a few short lists.',
     ['lgr/utils.py', 'lgr/matcher.py', 'lgr/classes.py', 'lgr/rule.py', 'lgr/char.py'],
     [('formats', 'lgr/utils.py:format_cp_collapsed'), ('ranges', 'lgr/utils.py:collapse_codepoints'),
      ('rules', 'lgr/matcher.py:CharMatcher'), ('classes', 'lgr/classes.py:Class')],
     ['format_cp', 'format_cp_collapsed', 'collapse_codepoints', 'str(rule)', 'str(class)', 'let_user_choose'],
     'Texts are read back, or compared with the one written from an independent description of the rule.')

prop('C32', 'The command line tools answer what the library answers',
     'For every valid document and list of labels, each tool runs to its end and its output says, in order of the input, '
     'what the specification and the library give: eligibility, disposition, action (custom or default) and variants '
     '(lgr_cli, lgr_validate), annotations (lgr_annotate), collisions with existing labels (lgr_collision, lgr_validate '
     'with a set, lgr_diff_collisions), reviews (lgr_idn_table_review). A rejected label or a collision among existing labels does not hide the answers '
     'about the other labels. The documents printed or written (xml_dump, lgr_compare, lgr_merge_set, '
     'lgr_populate_variants, lgr_harmonize, dumps of text tables, make_idna_repertoire) are well-formed and are read back '
     'as the LGR that the library computes.',
     ['inputs', 'configurations'], 'all documents, labels and options of the tools', 'No test runs a tool.',
     ['tools/lgr_validate.py', 'tools/lgr_cli.py', 'tools/lgr_collision.py', 'tools/lgr_merge_set.py', 'tools/xml_dump.py',
      'lgr/tools/utils.py'],
     [('options', 'lgr/tools/utils.py:LgrToolArgParser'), ('labels', 'tools/lgr_validate.py:check_label'),
      ('collisions', 'tools/lgr_collision.py:main')],
     ['tools/*.py', 'LgrToolArgParser', 'LgrSetToolArgParser', 'LgrDumpTool'],
     'Each tool runs on random files and standard input; its lines are compared with those of the models, its documents '
     'are parsed again and compared with those of the library.')

prop('C28', 'The review of an IDN table tells how it differs from the reference',
     'For every IDN table and reference LGR, each part of the review is what their content gives: for every code point of '
     'either, its presence, tags and contexts compared, with the severity that the missing or additional side implies; code '
     'points only in sequences of the reference; for every variant set, its relevant code points, symmetry, transitivity '
     'and a row for each pair of members with types, conditions and reverse compared; classes by members, WLE rules by '
     'content and use, actions by content and order, language tags; additional code points outside all of them; the '
     'general rules (hyphens, combining marks, right-to-left digits, digit sets, Japanese middle dot), found exactly when '
     'the table rejects the labels they must reject. The summary counts the results and keeps the worst. A table reviewed '
     'against itself matches everywhere, and no review modifies its inputs or fails.',
     ['inputs'], 'all pairs of LGRs', 'Tests review a few fixed tables.',
     ['lgr/tools/idn_review/review.py', 'lgr/tools/idn_review/repertoire.py', 'lgr/tools/idn_review/variant_sets.py',
      'lgr/tools/idn_review/whole_label_evaluation_rules.py', 'lgr/tools/idn_review/classes.py',
      'lgr/tools/idn_review/actions.py', 'lgr/tools/idn_review/language_tag.py'],
     [('variant sets', 'lgr/tools/idn_review/variant_sets.py:VariantSetsReport'),
      ('general rules', 'lgr/tools/idn_review/whole_label_evaluation_rules.py:generate_whole_label_evaluation_rules_report')],
     ['review_lgr', 'review_with_core_requirements', 'generate_variant_sets_report'],
     'Reports on random pairs are compared, row by row, with those computed from the descriptions they were made from.')

prop('C33', 'The same inputs give the same results in every process and order',
     'For every operation of the library and of its tools (union, intersection, comparison, merge, harmonization, '
     'collisions, annotation, population, validation, statistics, reviews, parsing, evaluation of labels, copies) and all '
     'inputs, the result is a function of the inputs: it does not depend on the order in which sets are iterated (hash '
     'seed of the process), on what was run before in the process (caches, shared state), nor on whether it is asked '
     'once or again.',
     ['inputs', 'histories'], 'all operations x all inputs x all hash seeds and histories',
     'Tests run in one process with small collections; a result taken from the first element of a set passes or fails at '
     'random.',
     ['lgr/core.py', 'lgr/char.py', 'lgr/tools/diff_collisions.py', 'lgr/tools/idn_review/variant_sets.py',
      'lgr/tools/merge_set.py', 'lgr/tools/compare/utils.py', 'lgr/memoize.py'],
     [('order of collision reports', 'lgr/tools/diff_collisions.py:_compute_collisions'),
      ('contexts compared', 'lgr/tools/idn_review/variant_sets.py:VariantData')],
     ['results of every operation'],
     'Series of operations of a catalogue run in processes with other hash seeds, in other orders and with repetitions; '
     'results are compared, lists and texts in their order.')

prop('C34', 'Reading a document reads nothing else and leaves no trace',
     'For every document given to a parser (LGR XML, RFC 4290, RFC 3743, list of code points; from a path, a file or a '
     'stream; parsed, validated or asked for its Unicode version), well-formed or not: no other file, no network '
     'address and no subprocess is accessed, whatever external entities, DTDs, inclusions, schema locations or '
     'stylesheets it names, nothing is written, and nothing of another document ends up in the LGR. References to '
     'entities in contents are ignored, those in attributes to internal entities expanded; neither makes the process '
     'crash, and expansion does not exhaust memory or time. Files opened are closed, streams given stay open, are left '
     'at their beginning and read the same again. A download gives the bytes served and closes its connection.',
     ['inputs', 'faults'], 'all documents x all sources x all parsers',
     'Tests read trusted documents from the test directory.',
     ['lgr/parser/xml_parser.py', 'lgr/parser/heuristic_parser.py', 'lgr/parser/parser.py', 'lgr/tools/utils.py'],
     [('parser options', 'lgr/parser/xml_parser.py:XMLParser.PARSER_OPTIONS'),
      ('entities', 'lgr/parser/xml_parser.py:_fast_iter'), ('moved elements', 'lgr/parser/xml_parser.py:drop_ns')],
     ['XMLParser', 'HeuristicParser', 'download_file'],
     'Hostile documents are read while inotify watches the files they name, a loopback socket the addresses, audit events '
     'every open, connection and subprocess, and /proc/self/fd the descriptors; entity expansion bombs run in children '
     'with memory and processor limits; the LGR is compared with that of the document without the references.')

prop('C35', 'Logging observes',
     'For every operation on LGRs, labels and documents (parsing, validation, dispositions, set operations, comparison, '
     'collisions, annotation, review, population, harmonization, command line tools): the result is the same with logging '
     'disabled, at its default level and with every logger of the library at DEBUG (the log of rules that some results '
     'contain excepted); every record written can be formatted, '
     'whatever the content of the LGR (names with %, incomplete rules or classes, labels of any script); and no operation of '
     'the library changes the level, handlers, filters or propagation of a logger.',
     ['inputs', 'histories'], 'all operations x all inputs x all levels of logging',
     'Tests run at one level of logging and ignore records that fail to format: logging swallows their exceptions.',
     ['lgr/core.py', 'lgr/classes.py', 'lgr/matcher.py', 'lgr/tools/utils.py', 'lgr/parser/xml_parser.py'],
     [('rule log', 'lgr/core.py:test_label_eligible'), ('string of a class', 'lgr/classes.py:CombinatorClass.__str__'),
      ('logger of validation', 'lgr/validate/__init__.py')],
     ['LGR', 'lgr.tools', 'lgr.parser', 'lgr.validate'],
     'A handler on the root logger formats every record of every operation at DEBUG, and the results are compared with those '
     'of the same operation with logging disabled and at the default level.')

prop('C36', 'Failures are told with the errors of the library',
     'Every operation on an LGR parsed (forced or not) from a faulty document (undefined or recursive names, malformed counts, '
     'properties, code points or languages, missing parts) returns or raises an LGRException, and '
     'nothing else, provided rules and classes have names. A document that the schema accepts is parsed, or refused with an LGRException. Queries (dispositions, '
     'eligibility, summary, index, estimate, statistics, validation, serialization, review, annotation, collisions) leave the '
     'content of the LGR as it was, whether they succeed or not.',
     ['inputs'], 'all faulty documents x all operations',
     'Tests have one faulty document per kind of fault, and run only the operation that reports it.',
     ['lgr/core.py', 'lgr/matcher.py', 'lgr/rule.py', 'lgr/classes.py', 'lgr/parser/xml_parser.py', 'lgr/tools'],
     [('errors of rules', 'lgr/core.py:LGR.test_label_eligible'), ('errors of patterns', 'lgr/rule.py:Rule.get_pattern'),
      ('errors of classes', 'lgr/classes.py')],
     ['LGR', 'lgr.parser', 'lgr.tools', 'lgr.validate'],
     'Random faults are put in valid documents; a monitor around each operation records the type of what it raises and '
     'compares the content of the LGR before and after it.')
