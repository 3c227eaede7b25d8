#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe, "hook_needed": hook}})

prop("R01", "RDFS expansion derives exactly the RDFS entailments",
 "Expanding a graph under RDFS semantics adds every triple the RDFS entailment rules derive from it (predicates are properties, every subject and object is a resource, domain and range typing, sub-property and sub-class inheritance and transitivity, reflexivity for properties and classes, container membership, datatypes below rdfs:Literal), whichever round of the expansion the premises appear in. Apart from requested axioms and copies of triples for literals with equal values, it adds nothing those rules do not derive. A triple with a literal in predicate position is never added.",
 ["inputs"], "all graphs: any IRIs, blank nodes or literals, any coincidence between them and with the RDF/RDFS vocabulary, any round in which a premise appears",
 "The repository has no test of any single RDFS rule; a rule that is wrong only when terms coincide, when a vocabulary term is used as data, or when the premise is itself an inference is never sampled.",
 ["owlrl/RDFSClosure.py", "owlrl/Closure.py"], [("rdf1/rdfs2-13 dispatch", "RDFSClosure.RDFS_Semantics.rules"), ("literal predicates filtered", "Closure.Core.store_triple")],
 ["the expanded graph"])
prop("R02", "Equality: sameAs is a congruence, and nothing else is equated",
 "After an OWL 2 RL expansion every term is sameAs itself, sameAs is symmetric and transitive, and any triple mentioning a term also holds with a sameAs-equal term in the same position (subject, predicate or object). The equality rules derive nothing beyond that.",
 ["inputs"], "all graphs and all coincidences between the terms of the sameAs statements, the other triples and the OWL vocabulary",
 "Tests sample one differentFrom clash; replacement in each of the three positions and its interaction with the vocabulary is never exercised.",
 ["owlrl/OWLRL.py"], [("eq-ref, eq-sym, eq-trans, eq-rep-s/p/o", "OWLRL.OWLRL_Semantics._equality")], ["the expanded graph"])
prop("R03", "Property axioms derive exactly the OWL 2 RL consequences",
 "Under OWL 2 RL, domain, range, functional, inverse-functional, symmetric, transitive, sub-property, property-chain, equivalent-property, inverse and key axioms make every consequence listed in the profile's table for property axioms appear in the result, for chains and key lists of any length, except statements equating a term with itself. They derive nothing else: two individuals are equated by a key only when they share a value for every property of the key, and a chain applies only when every step of it is present.",
 ["inputs"], "all graphs, all lengths of chains and key lists (bounded in the check), all coincidences of terms",
 "Only test_basic touches a chain (through one ontology); keys, functional and inverse axioms are untested, and wrong derivations (over-eager equality) are not looked for at all.",
 ["owlrl/OWLRL.py"], [("prp-* rules", "OWLRL.OWLRL_Semantics._properties"), ("property chains", "OWLRL.OWLRL_Semantics._property_chain")], ["the expanded graph"])
prop("R04", "Class expressions derive exactly the OWL 2 RL consequences",
 "Under OWL 2 RL, intersectionOf, unionOf, oneOf, someValuesFrom, allValuesFrom, hasValue, maxCardinality and maxQualifiedCardinality (0 or 1) make every membership, value and equality consequence listed in the profile's table for classes appear in the result, except statements equating a term with itself. They derive nothing else, and a cardinality whose value is any other number or is not a literal derives nothing.",
 ["inputs"], "all graphs, list lengths (bounded in the check), all cardinality values, all coincidences of terms",
 "Tests cover eight single positive examples; no test checks that a consequence is NOT drawn (missing membership, other cardinality, wrong property).",
 ["owlrl/OWLRL.py"], [("cls-* rules", "OWLRL.OWLRL_Semantics._classes")], ["the expanded graph"])
prop("R05", "Class axioms and schema rules derive exactly what the profile lists",
 "Under OWL 2 RL, sub-class and equivalent-class axioms propagate instances, and the schema vocabulary rules (class and property declarations, sub-class and sub-property transitivity, equivalence as mutual inclusion, domain and range inheritance, restriction subsumption, intersections and unions) make each consequence listed in the profile appear in the result, except trivially reflexive ones. They derive nothing else; in particular the direction of each subsumption is the one the profile gives.",
 ["inputs"], "all graphs and all coincidences of classes, properties and vocabulary terms",
 "No test exercises any scm-* rule; a swapped subject/object in one of them passes the suite.",
 ["owlrl/OWLRL.py"], [("cax-* rules", "OWLRL.OWLRL_Semantics._class_axioms"), ("scm-* rules", "OWLRL.OWLRL_Semantics._schema_vocabulary")], ["the expanded graph"])
prop("R06", "Every inconsistency is reported, and only inconsistencies are",
 "Under OWL 2 RL, an expansion attaches an error message to the result whenever the graph contains a pattern for which the profile's rules derive false (sameAs with differentFrom or all-different, irreflexive, asymmetric and disjoint properties, negative assertions, members of owl:Nothing, complements, cardinality 0, disjoint classes), wherever in a list the offending pair stands. It attaches none when no such pattern is present. The message names the individuals, classes or properties involved.",
 ["inputs"], "all graphs, all positions in AllDifferent / AllDisjoint lists (lengths bounded in the check)",
 "Tests look at six positive clashes with one list position each; missing reports for other positions or absence of false reports is not tested.",
 ["owlrl/OWLRL.py", "owlrl/Closure.py"], [("add_error call sites", "OWLRL.OWLRL_Semantics._equality/_properties/_classes/_class_axioms"), ("error nodes", "Closure.Core.closure")], ["error nodes in the expanded graph"])
prop("R07", "Self restrictions work in both directions and only there",
 "With the OWL extensions on, a member of a self restriction is related to itself by the restricted property, and any individual related to itself by that property is a member of the restriction; a property linking two different individuals yields neither.",
 ["inputs"], "all graphs and coincidences of terms", "No test touches hasSelf.",
 ["owlrl/OWLRLExtras.py"], [("self restriction rules", "OWLRLExtras.OWLRL_Extension.rules")], ["the expanded graph"])
prop("R08", "The combined semantics is RDFS plus OWL 2 RL plus the binding axioms",
 "Expanding with the combined semantics applies every rule of both RDFS and OWL 2 RL, and adds the statements identifying rdfs:Resource with owl:Thing, rdfs:Class with owl:Class and rdfs:Datatype with owl:DataRange. The extended semantics applies the RDFS rules and RDFS axioms exactly when RDFS is requested; its OWL part does not depend on that choice.",
 ["inputs", "configurations"], "all graphs x all settings of the RDFS flag and of the axiom flags",
 "No test expands with the combined closure or toggles the RDFS flag.",
 ["owlrl/CombinedClosure.py", "owlrl/OWLRLExtras.py"], [("delegation", "CombinedClosure.RDFS_OWLRL_Semantics.rules/add_axioms/add_d_axioms/one_time_rules")], ["the expanded graph"])
prop("R09", "OWL 2 RL expansion never asserts an unentailed triple",
 "Whatever combination of triples a graph contains, including OWL and RDFS vocabulary used in unusual positions, no single application of the OWL 2 RL rules adds a triple that the profile's rules do not derive from the graph. A triple whose predicate is a literal is never added, and no legal graph with well-formed lists makes the rules fail.",
 ["inputs"], "all graphs of up to K arbitrary triples over arbitrary terms including the vocabulary",
 "Tests only check that expected triples are present; none checks that others are absent, and none mixes vocabulary terms into data positions.",
 ["owlrl/OWLRL.py"], [("all rule groups", "OWLRL.OWLRL_Semantics.rules")], ["the expanded graph"])
prop("E01", "Expansion runs any rule set to its exact least fixpoint",
 "For any set of rules plugged into the engine, expansion ends with the graph closed under those rules: everything derivable in any number of rounds is present, rules are not left unapplied to triples inferred late, nothing else is added, and every error raised in any round appears exactly once in the result. One-time rules and requested axioms are applied before the rounds start, so that rules see their results.",
 ["inputs", "programs"], "all finite derivation relations (rule sets) and initial graphs up to the stated size, including rules that emit errors",
 "Tests run four built-in rule sets on fixed graphs; stopping one round early or dropping a late inference shows only for derivation chains tests do not contain.",
 ["owlrl/Closure.py"], [("round loop", "Closure.Core.closure"), ("pending triples", "Closure.Core.store_triple / flush_stored_triples")], ["the graph after closure()"],
 [{"name": "added_triples", "meaning": "triples inferred in the current round", "where": "Closure.Core"}])
prop("E02", "Results go to the requested destination and are still reasoned over",
 "When a destination graph of the same dataset is given, every inferred triple and every error node is written there and nowhere else, no inferred triple already present elsewhere in the dataset is repeated there (requested axioms are written wholesale), and the reasoning sees the union of all graphs including the destination. Without one, results go into the graph itself, or into the default graph of a dataset; a destination in a different store, or a destination name for a plain graph, is rejected before anything is changed.",
 ["inputs", "configurations"], "all placements of triples over the graphs of a dataset and all kinds of destination argument",
 "Two tests use one dataset with one destination; placement of premises in different graphs, names as destinations and rejection paths are not covered.",
 ["owlrl/Closure.py", "owlrl/__init__.py"], [("destination selection", "Closure.Core.__init__"), ("writes", "Closure.Core.closure / store_triple")], ["each graph of the dataset"])
prop("E03", "No input triple is lost; only blank-predicate triples are removed",
 "After an OWL 2 RL expansion every triple of the input whose predicate is not a blank node is still there, and no triple with a blank-node predicate remains, whether it was in the input or inferred and whether or not a destination graph is used. Inferences that such triples contribute to are kept.",
 ["inputs"], "all graphs, any blank nodes in any position, any place of the triple in the dataset",
 "No test contains a blank-node predicate or compares the input with the output.",
 ["owlrl/OWLRL.py"], [("generalized triple removal", "OWLRL.OWLRL_Semantics.post_process"), ("blank nodes collected in round one", "OWLRL.OWLRL_Semantics.rules")], ["the expanded graph"])
prop("E04", "Axioms appear exactly when requested, container axioms only for used members",
 "The axiomatic triples of the chosen semantics are in the result when axioms are requested, the datatype axioms when those are requested, and neither is added wholesale otherwise. Under RDFS with axioms, each container membership property rdf:_n occurring as a predicate gets its axioms however often it occurs and whether or not smaller numbers occur, and no rdf:_n that does not occur gets any. The profile's rules without premises and the binding statements of the combined semantics apply in any case.",
 ["inputs", "configurations"], "all graphs and sets of rdf:_n predicates (multiplicities and gaps), all flag combinations",
 "No test requests axioms except one RDFS datatype-axiom test; container properties are never used.",
 ["owlrl/Closure.py", "owlrl/RDFSClosure.py", "owlrl/OWLRL.py", "owlrl/AxiomaticTriples.py"], [("container scan", "Closure.Core.__init__"), ("axiom insertion", "add_axioms / add_d_axioms")], ["the expanded graph"])
prop("E05", "Lexical conversions are restored after expansion, even when it fails",
 "An expansion leaves the literal conversion table of the host library exactly as it found it, for every datatype, whether the expansion succeeds or raises at any point. After switching the improved conversions on for the whole application they stay on across expansions until switched off, and switching off restores the original table; while an expansion runs the improved conversions are in effect, unless they are disabled, in which case the expansion never touches the table.",
 ["fault_sequences", "histories", "configurations"], "all sequences of switch on/off and expansions, with a failure at any point of an expansion, for every entry of the table",
 "No test looks at the conversion table, nor makes an expansion fail.",
 ["owlrl/__init__.py", "owlrl/DatatypeHandling.py"], [("swap and restore", "DeductiveClosure.expand, use_Alt_lexical_conversions, use_RDFLib_lexical_conversions")], ["rdflib's lexical conversion table"],
 [{"name": "improved_datatype_generic", "meaning": "application-wide switch", "where": "DeductiveClosure"}])
prop("E06", "An expansion does not depend on earlier expansions",
 "The result of expanding a graph depends only on that graph and the chosen options, not on which graphs were expanded before in the same process or with which semantics. In particular datatypes defined in one graph, and the datatypes added by the OWL extensions, leave no trace in a later expansion of another graph.",
 ["histories"], "all sequences of expansions over all semantics and graphs that define datatypes",
 "Each test checks one expansion; the leak only shows when a plain expansion follows an extended one and is then examined for foreign triples.",
 ["owlrl/OWLRLExtras.py", "owlrl/CombinedClosure.py", "owlrl/XsdDatatypes.py"], [("datatype registration", "OWLRLExtras.OWLRL_Extension.__init__, CombinedClosure.RDFS_OWLRL_Semantics.add_new_datatype")], ["the expanded graph"],
 [{"name": "OWL_RL_Datatypes / OWL_Datatype_Subsumptions / AltXSDToPYTHON", "meaning": "module-level datatype registries", "where": "owlrl/XsdDatatypes.py, owlrl/DatatypeHandling.py"}])
prop("D01", "Literals get their datatype, all its supertypes, and no other type",
 "Under OWL 2 RL every literal of a supported datatype, and every node explicitly typed with one or declared sameAs such a literal or node, is typed with that datatype and with all datatypes above it in the hierarchy, and with no others. Nothing but the supported datatypes and those explicitly used as such is declared a datatype, and disjointness of two datatypes is stated only when both are in use.",
 ["inputs"], "all graphs of literals, typed nodes and sameAs links over all supported datatypes",
 "One test checks one literal's own datatype; supertypes, sameAs propagation and absence of other typings are untested.",
 ["owlrl/OWLRL.py", "owlrl/XsdDatatypes.py", "owlrl/AxiomaticTriples.py"], [("dt-type1, dt-type2, subsumption", "OWLRL.OWLRL_Semantics._one_time_rules_datatypes")], ["the expanded graph"])
prop("D02", "The datatype hierarchy agrees with the value spaces",
 "If one supported datatype is stated to be below another, every lexical form accepted for the first is accepted for the second with the same value, the relation is transitive and is the one XML Schema defines, and the datatype axioms state the same relation. Datatypes stated to be disjoint have no common subtype. (The relation is that of XML Schema and OWL 2; rdfs:Literal and rdf:PlainLiteral have no lexical rule of their own here.) For the bounded integer types the accepted values are exactly the XML Schema ranges, for every integer.",
 ["inputs"], "all pairs of supported datatypes, all integers, all strings up to the stated length",
 "Tests use the literals 1 and -1 with two types; range boundaries such as 2^63 and hierarchy pairs are not sampled.",
 ["owlrl/XsdDatatypes.py", "owlrl/DatatypeHandling.py", "owlrl/AxiomaticTriples.py"], [("subsumption table", "XsdDatatypes._Common_Datatype_Subsumptions"), ("range limits", "DatatypeHandling._limits_*"), ("range test", "DatatypeHandling._strToBoundNumeral")], ["conversion results", "subsumption tables"])
prop("D03", "Ill-typed literals are reported and well-typed ones are not",
 "Under OWL 2 RL the expansion reports a literal of a supported datatype exactly when the conversion for that datatype rejects its lexical form, naming the literal and the datatype, and reports no literal of an unknown datatype. However malformed the lexical form is, it leads to a report, never to a failure of the expansion.",
 ["inputs"], "all literals of all supported datatypes with arbitrary lexical forms (bounded strings)",
 "One test with one out-of-range integer; malformed decimals, empty date-times and similar are not tried.",
 ["owlrl/OWLRL.py", "owlrl/DatatypeHandling.py"], [("dt-not-type", "OWLRL.OWLRL_Semantics._one_time_rules_datatypes"), ("converters", "DatatypeHandling.AltXSDToPYTHON")], ["error nodes", "exceptions of expand"])
prop("D04", "Boolean, numeric and binary literals follow XML Schema lexical rules",
 "The improved conversions accept a boolean, integer, decimal, float, double or hexBinary lexical form exactly when XML Schema does (within double and float ranges), and give equal values to exactly those forms that denote the same number, truth value or octets. Every other form is rejected with a value error and no other kind of failure.",
 ["inputs"], "all ASCII strings up to the stated length, all integers and decimal magnitudes",
 "No test calls a converter with a malformed or boundary form.",
 ["owlrl/DatatypeHandling.py"], [("converters", "_strToBool, _strToDecimal, _strToDouble, _strToFloat, _strToHexBinary, _strToBoundNumeral")], ["conversion results"])
prop("D05", "Date and time literals denote the right instant",
 "The improved conversions of dateTime, dateTimeStamp and time give equal values to two well-formed forms with time zone exactly when they denote the same instant, honouring the sign and size of the offset and every digit of the fractional second up to microseconds. Any well-formed form with a year from 0001 to 9999 is accepted (dates too); a time zone is required for dateTimeStamp; malformed forms are rejected with a value error and no other kind of failure.",
 ["inputs"], "all dates, times, offsets from -14:00 to +14:00, fractions of 0-6 digits; malformed strings up to the stated length",
 "No test converts a date or time.",
 ["owlrl/DatatypeHandling.py"], [("zone extraction", "DatatypeHandling._returnTimeZone"), ("conversion", "_strToDateTimeAndStamp, _strToTime, _strToDate")], ["conversion results"])
prop("D06", "String-derived literals follow their lexical rules",
 "The improved conversions accept xsd:language, NMTOKEN, Name, NCName, token, normalizedString and plain-literal forms exactly when the whole string matches the datatype's lexical rule (ASCII), return the string unchanged, and reject everything else with a value error and no other kind of failure. A plain literal splits at its last '@' into text and lower-cased language tag.",
 ["inputs"], "all ASCII strings up to the stated length", "No test converts such a literal.",
 ["owlrl/DatatypeHandling.py"], [("regexp check", "_strToVal_Regexp, _strToToken, _strToPlainLiteral")], ["conversion results"])
prop("D07", "RDFS copies a triple to exactly the equal-valued literals",
 "Under RDFS, if a literal occurs as object of a triple and another literal in the graph has the same value (or the same datatype and form when values are unknown), the triple also holds with the other literal; literals with different values are never exchanged; truth values differ from numbers, and texts with different language tags or none differ.",
 ["inputs"], "all graphs of literals with arbitrary values, datatypes and unknown values", "One test with one equal pair; unequal and unconvertible pairs are not tested.",
 ["owlrl/RDFSClosure.py"], [("hidden sameAs on literals", "RDFSClosure.RDFS_Semantics.one_time_rules / _literals_same_as")], ["the expanded graph"])
prop("F01", "A restricted datatype accepts exactly the values satisfying all facets",
 "A datatype restriction accepts a value of its base type exactly when the value satisfies every facet stated for it (minimum and maximum, inclusive and exclusive, length, minimum and maximum length, pattern over the whole value, language range), whatever the order and however often each facet kind is repeated. Facets of a kind not applicable to the base type have no effect. (NaN as a facet value, and dates without time zone compared with zoned ones, are left open.)",
 ["inputs"], "all facet lists up to the stated length with arbitrary values, all candidate values, all facetable base types",
 "One test with one min/max pair; exclusive bounds, repeated facets, lengths and patterns are untested.",
 ["owlrl/RestrictedDatatype.py"], [("facet folding", "RestrictedDatatype.RestrictedDatatype.__init__"), ("checks", "RestrictedDatatype.checkValue / _check_*")], ["membership typing of literals"])
prop("F02", "Restricted datatypes in a graph take effect and violations are reported",
 "With the OWL extensions on, each well-formed restriction in the graph (one supported base type and one facet list) types exactly those literals of the base type that satisfy its own facets, independent of the other restrictions in the graph and their order. A restriction with several bases or several facet lists is reported and ignored, one without a facet list is ignored. An all-values-from restriction on such a datatype types a conforming literal of the base type (or of a type below it) and reports one violating the facets instead of typing it.",
 ["inputs", "histories"], "all combinations of up to the stated number of restrictions, in any order, with arbitrary facet values and literals",
 "One test with one restriction; interaction of several restrictions and the violation report are untested (the one all-values-from error test replaces the check by a mock).",
 ["owlrl/RestrictedDatatype.py", "owlrl/OWLRLExtras.py"], [("extraction", "RestrictedDatatype.extract_faceted_datatypes"), ("typing", "OWLRLExtras.OWLRL_Extension._subsume_restricted_datatypes"), ("violation check", "OWLRLExtras.OWLRL_Extension.restriction_typing_check")], ["the expanded graph"])
prop("F03", "Language ranges match as in RFC 4647 extended filtering",
 "A language-tag is accepted by a language range exactly when RFC 4647 extended filtering matches them: first subtags agree or the range has a wildcard, later range subtags occur in order, tag subtags may be skipped unless they are singletons, wildcards match any number, and case does not matter.",
 ["inputs"], "all ranges and tags up to the stated number and length of subtags", "No test calls the matcher.",
 ["owlrl/RestrictedDatatype.py"], [("matcher", "RestrictedDatatype._lang_range_check")], ["acceptance of a language-tagged literal"])
prop("X01", "Trimming removes only the documented trivial triples",
 "The trimming semantics gives the same result as the extended semantics minus the documented trivial triples: reflexive sameAs, sub-class, sub-property and equivalent-class statements, sub-classing of Thing or Resource, typing as Resource, super-classes of Nothing, declarations and disjointness of datatypes that type nothing, annotation-property declarations and the fixed axioms about Thing, Nothing, Class and Datatype. Every other triple survives, and none of the listed ones remains in the result graph.",
 ["inputs"], "all graphs over arbitrary terms", "No test uses trimming.",
 ["owlrl/OWLRLExtras.py"], [("trimming", "OWLRLExtras.OWLRL_Extension_Trimming.post_process")], ["the expanded graph"])
prop("C01", "Conversion options select the documented semantics and formats",
 "For every combination of the OWL, RDFS, extras, trimming, axiom and datatype-axiom options (booleans or yes/true strings), converting a graph expands it with exactly the documented semantics and flags, or not at all when neither OWL nor RDFS is asked for; an explicit class overrides the choice. The input format follows the explicit option or else the file suffix, every distinct source and the text are read once, and the output format is the requested one.",
 ["configurations", "inputs"], "all option combinations and file names/suffixes (bounded strings)", "No test calls convert_graph or the class selector.",
 ["owlrl/__init__.py"], [("selection", "return_closure_class"), ("option handling", "convert_graph, __parse_input")], ["the closure run", "the serialization format"])
prop("C02", "Ontology imports are followed transitively, once each, and always end",
 "Interpreting imports, which a conversion does exactly when OWL 2 RL is asked for, loads every document reachable through import statements, direct or indirect, leaves no import statement in the graph, keeps all other triples, and terminates for every import structure including cycles and self-imports.",
 ["inputs", "programs"], "all import graphs over up to the stated number of documents", "No test uses imports.",
 ["owlrl/__init__.py"], [("import loop", "interpret_owl_imports")], ["documents read", "the graph"])
prop("C03", "Command-line flags map to the documented options",
 "Each command-line flag of the owlrl script, in its long or short form and in any combination, sets exactly the documented option; the maximal flag switches on RDFS, OWL, extensions and trimming; sources are the -f file plus all arguments, or standard input when there are none.",
 ["configurations"], "all combinations of flags", "The script is not tested.",
 ["scripts/owlrl"], [("option parser", "scripts/owlrl main")], ["options passed to convert_graph"])
prop("C04", "The conversion service honours its form and reports failures safely",
 "The conversion service converts with exactly what its form says: source_1, source_2, uri and source are the sources, text the text, format the output format, iformat the input format if it is xml or turtle, and owlClosure, rdfsClosure, owlExtras, axioms and daxioms the options of those names, except that fullClosure=yes asks for OWL and RDFS reasoning and nothing else. The result is returned labelled as Turtle or RDF/XML, whichever it is; a conversion that fails yields an HTML page with status 400 that shows the error and on which nothing from the form or the error message is unescaped.",
 ["configurations", "inputs", "fault_sequences"], "all combinations of fields with arbitrary values (bounded strings), successful and failing conversions", "The script is not tested.",
 ["scripts/RDFConvertService"], [("form fields", "scripts/RDFConvertService Options.__init__"), ("error page", "scripts/RDFConvertService Options.to_html")], ["options passed to convert_graph", "the page printed"])
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
