"""Writes known_findings.json: the genuine defects found, repaired by fix: commits (nothing is suppressed)."""
import json
import os

FIXED = """
58bf7b5 R03 hasKey ignored the last key property, so individuals differing in it were equated
956abae R06 sameAs between the last member of an AllDifferent list and another one was not reported
6c55938 R06 the last property of AllDisjointProperties was never compared
56ed0aa R06 the complementOf report did not name the individual
6bee9c5 R04 a maxCardinality whose object is not a literal made the expansion fail with AttributeError
46a19ba D01 a node sameAs a typed node was typed with the node, not with its datatypes
7a0dc3b R01 subjects and objects that first appear in a later round were not typed as rdfs:Resource
dd5e4ed D04 boolean accepted "True", "FALSE" and so on
3cfbd64 D04 decimal accepted exponents and malformed forms failed with InvalidOperation
3f77042 D04 double and float rejected 0, INF and NaN and accepted "inf", "1_0", "nan"
7890fa7 D04 hexBinary accepted odd lengths and forms that are not pairs of hexadecimal digits and gave integers
f0bdd1a D04 integer accepted "1_0", " 1" and other forms of Python integers
b7176ee D05 time zone offsets lost their sign or minutes; the empty string failed with IndexError
3616d8a D05 fractional seconds were read as microseconds, ".5" as 5 microseconds
91dbe5a D05 fields with a wrong number of digits were accepted and 24:00:00 rejected
07fe259 D05 24:00:00 with a fraction that rounds to zero was accepted
6da1d9b D06 the empty string was no normalizedString
aaa888f D06 a plain literal with a line break was rejected
27025d9 D02 NMTOKEN was stated to be below Name
dc123b3 D02 the datatype axioms did not declare nonNegativeInteger and negativeInteger
7b9a6bd F02 a restriction without facet list took over the facets of another restriction
3457852 F02 the report about a malformed restriction was a tuple and made the expansion fail
92af1db F01 rdf:langRange failed with AttributeError and the facets after it were lost
5625363 F01 facets on xsd:int and xsd:token had no effect
c0f722b F01 a pattern matched a prefix of the value
9131f6b F01 patterns were not applied to plain literals
2601c13 F01 of several length facets only the last one counted
1c0757a F01 a plain literal without language failed the language check even without a range
0561bec F02 allValuesFrom on a restricted datatype typed violating literals
75e26b3 F02 facets were compared with the value of the host library's own conversion
1479f18 D03 a conversion failing with something else than ValueError stopped the expansion
f11cd54 E06 datatypes added by an extended expansion appeared in later expansions
b896e59 E05 the conversion table was restored only in part and not after a failure
f545c2a C02 circular imports never ended
aead4ab C01 one of the two documented names for RDF/XML was not recognized
d6e1391 C03 the maximal flag did not switch RDFS on
4aeeef5 X01 the statements about DataRange and Datatype survived trimming
f53a186 D07 literals with different language tags, and true and 1, were exchanged
3bcb722 E02 literal copies present elsewhere in the dataset were repeated in the destination
e9bcdb7 E04 with gaps in the rdf:_n predicates, unused ones got axioms or used ones none
63a99d5 E04 the unionOf axiom gave the list, not the class, the type owl:Class (range instead of domain)
ab6b3c3 C04 the error page failed itself (cgi.escape no longer exists) and did not escape all it shows
"""
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = []
for ln in FIXED.strip().splitlines():
    c, p, w = ln.split(" ", 2)
    fixed.append("fixed: property=%s %s %s" % (p, c, w))
json.dump({"findings": [], "fixed": fixed}, open(os.path.join(here, "known_findings.json"), "w"), indent=1)
print(len(fixed))
