"""The axiomatic triples of RDF, RDFS and OWL 2, as the W3C documents give them (RDF Semantics, section 8/9 tables; OWL 2
RDF-Based Semantics, appendix on axiomatic triples, the part the package documents: what OWL 2 RL uses), and the datatype
axioms (XML Schema hierarchy).  Written down once and reviewed; not read from the code under test.
Notation: subject | predicate object, ...; `a` type, `<` subClassOf, `<p` subPropertyOf, `dom` domain, `rng` range, `=` equivalentClass."""
from . import stub

RDFS = """
rdf:Alt | < rdfs:Container, a rdfs:Class
rdf:Bag | < rdfs:Container, a rdfs:Class
rdf:List | a rdfs:Class
rdf:Property | a rdfs:Class
rdf:Seq | < rdfs:Container, a rdfs:Class
rdf:Statement | a rdfs:Class
rdf:XMLLiteral | a rdfs:Datatype, < rdfs:Literal, a rdfs:Class
rdf:first | a rdf:Property, dom rdf:List, rng rdfs:Resource
rdf:nil | a rdf:List
rdf:object | a rdf:Property, dom rdf:Statement, rng rdfs:Resource
rdf:predicate | a rdf:Property, dom rdf:Statement, rng rdfs:Resource
rdf:rest | a rdf:Property, dom rdf:List, rng rdf:List
rdf:subject | a rdf:Property, dom rdf:Statement, rng rdfs:Resource
rdf:type | a rdf:Property, dom rdfs:Resource, rng rdfs:Class
rdf:value | a rdf:Property, dom rdfs:Resource, rng rdfs:Resource
rdfs:Class | a rdfs:Class
rdfs:Container | a rdfs:Class
rdfs:ContainerMembershipProperty | < rdf:Property, a rdfs:Class
rdfs:Datatype | < rdfs:Class, a rdfs:Class
rdfs:Literal | a rdfs:Class
rdfs:Resource | a rdfs:Class
rdfs:comment | dom rdfs:Resource, rng rdfs:Literal, a rdf:Property
rdfs:domain | dom rdf:Property, rng rdfs:Class, a rdf:Property
rdfs:isDefinedBy | dom rdfs:Resource, rng rdfs:Resource, <p rdfs:seeAlso, a rdf:Property
rdfs:label | dom rdfs:Resource, rng rdfs:Literal, a rdf:Property
rdfs:member | dom rdfs:Resource, rng rdfs:Resource, a rdf:Property
rdfs:range | dom rdf:Property, rng rdfs:Class, a rdf:Property
rdfs:seeAlso | dom rdfs:Resource, rng rdfs:Resource, a rdf:Property
rdfs:subClassOf | dom rdfs:Class, rng rdfs:Class, a rdf:Property
rdfs:subPropertyOf | dom rdf:Property, rng rdf:Property, a rdf:Property
"""

OWL = """
owl:AllDifferent | a rdfs:Class, < rdfs:Resource
owl:AllDisjointClasses | a rdfs:Class, < rdfs:Resource, a owl:Class
owl:AllDisjointProperties | a rdfs:Class, < rdfs:Resource, a owl:Class
owl:Annotation | a rdfs:Class, < rdfs:Resource, a owl:Class
owl:AnnotationProperty | a rdfs:Class, < rdf:Property
owl:AsymmetricProperty | a rdfs:Class, < rdf:Property, a owl:Class
owl:Axiom | a owl:Class
owl:Class | a rdfs:Class, = rdfs:Class
owl:DataRange | a owl:Class
owl:DatatypeProperty | a rdfs:Class, < rdf:Property, a owl:Class
owl:DeprecatedClass | a rdfs:Class, < rdfs:Class, a owl:Class, < owl:Class
owl:DeprecatedProperty | a rdfs:Class, < rdf:Property, a owl:Class
owl:FunctionalProperty | a rdfs:Class, < rdf:Property, a owl:Class
owl:InverseFunctionalProperty | a rdfs:Class, < rdf:Property, a owl:Class
owl:IrreflexiveProperty | a rdfs:Class, < rdf:Property, a owl:Class
owl:NamedIndividual | a owl:Class
owl:NegativePropertyAssertion | a rdfs:Class, < rdfs:Resource, a owl:Class
owl:Nothing | a rdfs:Class, < owl:Thing, a owl:Class
owl:ObjectProperty | a rdfs:Class, = rdf:Property, a owl:Class
owl:Ontology | a rdfs:Class, < rdfs:Resource, a owl:Class
owl:OntologyProperty | a rdfs:Class, < rdf:Property, a owl:Class
owl:ReflexiveProperty | a rdfs:Class, < rdf:Property, a owl:Class
owl:Restriction | a rdfs:Class, < rdfs:Class, a owl:Class, < owl:Class
owl:SymmetricProperty | a rdfs:Class, < rdf:Property, a owl:Class
owl:Thing | a rdfs:Class, < rdfs:Resource, a owl:Class
owl:TransitiveProperty | a rdfs:Class, < rdf:Property, a owl:Class
owl:allValuesFrom | a rdf:Property, dom owl:Restriction, rng rdfs:Class, rng owl:Class
owl:assertionProperty | a rdf:Property, dom owl:NegativePropertyAssertion, rng rdf:Property
owl:backwardCompatibleWith | a owl:OntologyProperty, a owl:AnnotationProperty, dom owl:Ontology, rng owl:Ontology
owl:complementOf | a rdf:Property, dom rdfs:Class, rng rdfs:Class, dom owl:Class, rng owl:Class
owl:deprecated | a owl:AnnotationProperty, dom rdfs:Resource, rng rdfs:Resource
owl:differentFrom | a rdf:Property, dom rdfs:Resource, rng rdfs:Resource
owl:disjointUnionOf | dom owl:Class
owl:disjointWith | a rdf:Property, dom rdfs:Class, rng rdfs:Class, dom owl:Class, rng owl:Class
owl:distinctMembers | a rdf:Property, dom owl:AllDifferent, rng rdf:List
owl:equivalentClass | a rdf:Property, dom rdfs:Class, rng rdfs:Class, dom owl:Class, rng owl:Class
owl:equivalentProperty | a rdf:Property, dom rdf:Property, rng rdf:Property
owl:hasKey | a rdf:Property, dom rdfs:Class, rng rdf:List, dom owl:Class
owl:hasValue | a rdf:Property, dom owl:Restriction, rng rdfs:Resource
owl:imports | a owl:OntologyProperty, dom owl:Ontology, rng owl:Ontology
owl:incompatibleWith | a owl:OntologyProperty, a owl:AnnotationProperty, dom owl:Ontology, rng owl:Ontology
owl:intersectionOf | a rdf:Property, dom rdfs:Class, rng rdf:List, dom owl:Class
owl:inverseOf | a rdf:Property, dom rdf:Property, rng rdf:Property
owl:maxCardinality | a rdf:Property, dom owl:Restriction, rng xsd:nonNegativeInteger
owl:maxQualifiedCardinality | a rdf:Property, dom owl:Restriction, rng xsd:nonNegativeInteger
owl:members | a rdf:Property, dom rdfs:Resource, rng rdf:List
owl:onClass | a rdf:Property, dom owl:Restriction, rng rdfs:Class, rng owl:Class
owl:onDatatype | a rdf:Property, dom rdfs:Datatype, rng rdfs:Datatype, dom owl:DataRange, rng owl:DataRange
owl:onProperty | a rdf:Property, dom owl:Restriction, rng rdf:Property
owl:oneOf | a rdf:Property, dom rdfs:Class, rng rdf:List, dom owl:Class
owl:priorVersion | a owl:OntologyProperty, a owl:AnnotationProperty, dom owl:Ontology, rng owl:Ontology
owl:propertyChainAxiom | a rdf:Property, dom rdf:Property, rng rdf:List
owl:sameAs | a rdf:Property, dom rdfs:Resource, rng rdfs:Resource
owl:someValuesFrom | a rdf:Property, dom owl:Restriction, rng rdfs:Class, rng owl:Class
owl:sourceIndividual | a rdf:Property, dom owl:NegativePropertyAssertion, rng rdfs:Resource
owl:targetIndividual | a rdf:Property, dom owl:NegativePropertyAssertion, rng rdfs:Resource
owl:targetValue | a rdf:Property, dom owl:NegativePropertyAssertion, rng rdfs:Literal
owl:unionOf | a rdf:Property, dom rdfs:Class, rng rdf:List, dom owl:Class
owl:versionIRI | a owl:AnnotationProperty, dom rdfs:Resource, rng rdfs:Resource
owl:versionInfo | a owl:AnnotationProperty, dom rdfs:Resource, rng rdfs:Resource
owl:withRestrictions | a rdf:Property, dom rdfs:Datatype, rng rdf:List
rdf:Property | a rdfs:Class, a owl:Class
rdfs:Datatype | a rdfs:Class, a owl:Class
rdfs:Literal | a rdfs:Datatype
rdfs:comment | a owl:AnnotationProperty, dom rdfs:Resource, rng rdfs:Literal
rdfs:isDefinedBy | a owl:AnnotationProperty, dom rdfs:Resource, rng rdfs:Resource
rdfs:label | a owl:AnnotationProperty, dom rdfs:Resource, rng rdfs:Literal
rdfs:seeAlso | a owl:AnnotationProperty, dom rdfs:Resource, rng rdfs:Resource
"""

SELF = """
owl:hasSelf | a rdf:Property, dom rdf:Property
"""
# rules of OWL 2 RL without premises: cls-thing, cls-nothing1, prp-ap
ALWAYS = """
owl:Thing | a owl:Class
owl:Nothing | a owl:Class
rdfs:label | a owl:AnnotationProperty
rdfs:comment | a owl:AnnotationProperty
rdfs:seeAlso | a owl:AnnotationProperty
rdfs:isDefinedBy | a owl:AnnotationProperty
owl:deprecated | a owl:AnnotationProperty
owl:versionInfo | a owl:AnnotationProperty
owl:priorVersion | a owl:AnnotationProperty
owl:backwardCompatibleWith | a owl:AnnotationProperty
owl:incompatibleWith | a owl:AnnotationProperty
"""
BINDING = """
owl:Thing | = rdfs:Resource
rdfs:Class | = owl:Class
owl:DataRange | = rdfs:Datatype
"""
NS = {"xsd": "http://www.w3.org/2001/XMLSchema#", "rdf": "http://www.w3.org/1999/02/22-rdf-syntax-ns#",
      "rdfs": "http://www.w3.org/2000/01/rdf-schema#", "owl": "http://www.w3.org/2002/07/owl#"}
PRED = {"a": "rdf:type", "<": "rdfs:subClassOf", "<p": "rdfs:subPropertyOf", "dom": "rdfs:domain", "rng": "rdfs:range", "=": "owl:equivalentClass"}
DATATYPES = ("decimal integer nonNegativeInteger nonPositiveInteger positiveInteger negativeInteger long int short byte unsignedLong unsignedInt "
             "unsignedShort unsignedByte float double string normalizedString token language Name NCName NMTOKEN boolean hexBinary base64Binary "
             "anyURI dateTime dateTimeStamp").split()
BELOW = {"dateTimeStamp": "dateTime", "integer": "decimal", "long": "integer", "int": "long", "short": "int", "byte": "short",
         "nonNegativeInteger": "integer", "positiveInteger": "nonNegativeInteger", "unsignedLong": "nonNegativeInteger",
         "unsignedInt": "unsignedLong", "unsignedShort": "unsignedInt", "unsignedByte": "unsignedShort", "nonPositiveInteger": "integer",
         "negativeInteger": "nonPositiveInteger", "normalizedString": "string", "token": "normalizedString", "language": "token",
         "Name": "token", "NCName": "Name", "NMTOKEN": "token"}
PRIMITIVE = ["xsd:" + x for x in "anyURI base64Binary boolean dateTime decimal double float hexBinary string".split()] + ["rdf:PlainLiteral", "rdf:XMLLiteral"]


def iri(q):
    p, n = q.split(":", 1)
    return NS[p] + n


def parse(text):
    out = []
    for ln in text.strip().splitlines():
        s, rest = ln.split(" | ")
        for e in rest.split(", "):
            p, o = e.split(" ")
            out.append((iri(s.strip()), iri(PRED[p]), iri(o)))
    return out


def rdfs():
    return parse(RDFS)


def owl():
    return parse(OWL)


def rdfs_d():
    t, sub, dt = iri("rdf:type"), iri("rdfs:subClassOf"), iri("rdfs:Datatype")
    out = [(iri("xsd:" + x), t, dt) for x in DATATYPES] + [(iri(x), t, dt) for x in ("rdfs:Literal", "rdf:XMLLiteral")]
    out += [(iri("xsd:" + a), sub, iri("xsd:" + b)) for a, b in BELOW.items()]
    return out + [(iri("xsd:decimal"), sub, iri("rdfs:Literal"))]


def owl_d():
    t, sub, dt = iri("rdf:type"), iri("rdfs:subClassOf"), iri("rdfs:Datatype")
    out = rdfs_d() + [(iri("rdf:PlainLiteral"), t, dt)]
    out += [(iri("xsd:" + x), sub, iri("rdf:PlainLiteral")) for x in ("string", "normalizedString", "token", "Name", "NCName", "NMTOKEN")]
    skip = {("xsd:string", "rdf:PlainLiteral"), ("rdf:PlainLiteral", "rdf:XMLLiteral")}
    return out + [(iri(a), iri("owl:disjointWith"), iri(b)) for i, a in enumerate(PRIMITIVE) for b in PRIMITIVE[i + 1:] if (a, b) not in skip]


def terms(triples):
    return [tuple(stub.mk_uri(x) for x in t) for t in triples]
