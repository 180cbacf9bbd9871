#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=("generated from_xml / to_xml results",), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
AST = "xsd-internal/src/ast/"; PAR = "xsd-internal/src/xsd/parse/"; XS = "xsd-internal/src/xsd/"

p("C01", "Encoding a value and decoding it again gives an equal value",
  "For every schema made of supported constructs and every value that a valid document of it decodes to, encoding the value to XML succeeds and decoding that XML with the same type gives an equal value. No combination of content model, occurrence bounds, data types, namespaces, extension or references may break this.",
  ["programs", "inputs"], "all supported schemas (types x positions x occurrences x namespace settings) and all values of their generated types",
  "The test suite round-trips one document for each of 50 hand-written schemas; feature combinations (a named simple type inside a choice of an imported schema, say) are never generated.",
  [AST + "leaf.rs", AST + "root.rs", AST + "leaf_content.rs", AST + "element_definition.rs", AST + "element_content.rs", XS + "schema.rs", "xsd/src/lib.rs", "xsd/src/decode.rs"],
  [("generated to_xml / to_xml_writer", XS + "schema.rs generate_element; " + AST + "*.rs to_xml_impl"), ("generated from_xml / from_xml_node", AST + "*.rs from_xml_impl")])
p("C02", "A valid document decodes to exactly the data it carries",
  "For every supported schema, every document that is valid under it decodes successfully, and the resulting value holds every element text and attribute value of the document in the field or variant of its declaration, in document order and with its multiplicity. Nothing in the document is dropped, duplicated, attributed to another field, or read as absent.",
  ["programs", "inputs"], "all supported schemas and all documents valid under them, within the occurrence and nesting bounds",
  "Each test decodes a single document; optional parts that are absent, other alternatives, other repeat counts and mixed constructs are not decoded at all.",
  [AST + "leaf.rs", AST + "root.rs", AST + "leaf_content.rs", AST + "attribute.rs", "xsd/src/decode.rs", PAR + "complex_type.rs", PAR + "sequence.rs", PAR + "choice.rs"],
  [("predictive descent over the children (lookahead, next_child, child)", AST + "root.rs lookahead_impl; " + AST + "leaf.rs from_xml_impl"), ("child cursor", "xsd/src/decode.rs")],
  [("child cursor", "which children of the current element have not been consumed yet", "xsd/src/decode.rs Node.children")])
p("C03", "Encoding gives a valid document holding exactly the value's data",
  "For every supported schema and every value of its types, the encoded bytes are well-formed UTF-8 XML with an XML declaration whose root and descendants have the element names, namespaces, order, attributes and text that the schema prescribes for that value. No element or attribute is missing, repeated, misplaced, unwrapped or put in another namespace.",
  ["programs", "inputs"], "all supported schemas and all values of their generated types",
  "Tests compare the output for one value per schema; a wrong output that the decoder happens to tolerate, or an output for another variant, is invisible to them.",
  [AST + "leaf.rs", AST + "root.rs", AST + "element_definition.rs", AST + "attribute.rs", "xsd/src/lib.rs", XS + "schema.rs", XS + "context.rs"],
  [("start/end wrapping decisions", AST + "leaf.rs to_xml_impl; " + AST + "element_definition.rs to_xml_impl; " + AST + "root.rs to_xml_impl"), ("element naming and namespace declaration", XS + "context.rs get_xml_element_name; " + XS + "schema.rs generate_element"), ("deferred start tag", "xsd/src/lib.rs Context")])
p("C04", "Invalid documents are refused with a fitting error, never a panic",
  "For every supported schema and every input string, decoding returns instead of panicking. It returns an error whenever the input is not well-formed, the root is a different element, a required single element, required alternative or required attribute is absent where it must occur, an element or attribute text is not a lexical value of its type or enumeration, there are only elements where the text has to be, or a fixed value is contradicted; the error is of the matching kind, and it and its message name the missing element or attribute or carry the text at fault.",
  ["programs", "inputs"], "all supported schemas, all strings over a markup alphabet and all single-edit corruptions and child-name sequences of their documents",
  "Only one or two tests check an error at all; the space of documents with something missing, swapped, renamed or corrupted is not explored.",
  ["xsd/src/decode.rs", AST + "leaf.rs", AST + "leaf_content.rs", AST + "literal_type.rs", AST + "root.rs", AST + "attribute.rs"],
  [("required lookups (try_next_child, try_child, try_attribute)", "xsd/src/decode.rs"), ("choice fallthrough error", AST + "root.rs from_xml_impl"), ("literal parse errors", AST + "literal_type.rs from_str_impl")],
  observe=("FromXmlError of from_xml",))
p("C05", "Child lookups on a decoded element behave like an ordered list",
  "Under every sequence of peek, in-order and any-order child lookups on a decoded element, each child is handed out at most once, the remaining children keep document order, an in-order lookup succeeds exactly when the first remaining child has that name and namespace, an any-order lookup yields the first remaining child with that name and namespace, and a lookup that fails or only peeks changes nothing.",
  ["histories", "inputs"], "all operation sequences up to the depth bound on all small element children lists",
  "No unit test of the cursor exists; schema tests use each operation in one fixed order.",
  ["xsd/src/decode.rs"],
  [("Children {next, peeked, children}", "xsd/src/decode.rs")],
  [("Children.next/peeked/children", "the not yet consumed children, split over a one-element buffer, skipped ones and the rest", "xsd/src/decode.rs")],
  observe=("return values of decode::Node operations",))
p("C06", "The element writer emits each tag once with everything set on it",
  "Under every sequence of writer-context operations, a context writes exactly one start tag per start request and one end tag per end request, the start tag carries every attribute in the order set and every namespace declaration made on the context or on contexts wrapped around it since the last start tag, and a wrapping context writes no tag of its own at any wrapping depth. When the underlying writer fails, the operation during which it fails reports the error.",
  ["histories", "fault_sequences"], "all sequences of create, wrap, set attribute, set namespace, set default namespace, start and end up to the depth bound, and a failure of the writer at every byte of what they write",
  "There is no test of the writer context; the schema tests exercise a few fixed call orders through generated code.",
  ["xsd/src/lib.rs"],
  [("Context::wrap / set_attr / set_ns / write_start_element / write_end_element", "xsd/src/lib.rs")],
  [("pending attributes and namespaces", "what the next start tag will carry", "xsd/src/lib.rs ContextInner")],
  observe=("bytes written by the EventWriter",))
p("C07", "Elements live in the namespace their schema prescribes, whatever the prefix",
  "For every combination of target namespace, element form (schema default and per element) and importing or referenced schema with settings of its own, decoding accepts an element only in the namespace the schema prescribes (global and qualified local elements: the target namespace of the declaring schema; unqualified local elements: none) and encoding writes it there. Which prefixes or default namespace declarations a document uses never changes the decoded value.",
  ["configurations", "inputs"], "all combinations of form, target namespace, import and reference style, and all prefix styles of documents",
  "Four tests cover form x target namespace with one literal document each, none with other prefixes, choices, references or mixed forms.",
  [XS + "context.rs", XS + "schema.rs", AST + "namespaces.rs", AST + "root.rs", AST + "leaf.rs", PAR + "element.rs"],
  [("namespace of a node name", XS + "context.rs get_node_name, get_type_name"), ("namespace when writing", XS + "context.rs get_xml_element_name; " + XS + "schema.rs set_ns/set_default_ns"), ("namespace when reading", XS + "context.rs quote_xml_namespace")],
  [("Namespaces", "numbering and prefix of each namespace URI", AST + "namespaces.rs")])
p("C08", "Spreading a schema over included and imported files changes nothing",
  "A schema whose declarations are spread over files connected by include (same target namespace) or import, in any graph shape including shared and circular links and in any directory layout, decodes and encodes documents exactly as the same declarations in a single file would. Loading always terminates, and a file that cannot be loaded or parsed gives an error naming that file.",
  ["configurations", "inputs"], "all include/import graphs up to the bound, with nested directories and all placements of the declarations",
  "Two tests use one include and one import of a file in the same directory.",
  [XS + "schema.rs", XS + "context.rs"],
  [("recursive loading and merging of roots and shared context", XS + "schema.rs parse_schema_with_context")],
  [("SharedContext", "namespaces and dependencies carried from file to file", XS + "context.rs")],
  observe=("generated from_xml / to_xml results", "SchemaError of Schema::parse_file"))
p("C09", "Enumeration values and generated variants correspond one to one",
  "For every list of distinct enumeration values, whatever characters they contain, the generated type has one variant per value; parsing a value gives its own variant, printing a variant gives back exactly its value, different values give different variants, and any other text is refused.",
  ["programs", "inputs"], "all lists of enumeration values up to the length bound over an alphabet of awkward values, in element, attribute and root position",
  "Tests use two or three well-behaved upper-case values; values that collide or vanish when turned into identifiers are not tested.",
  [AST + "root.rs", PAR + "simple_type.rs"],
  [("escape_enum_names and the generated from_str/as_str", AST + "root.rs")])
p("C10", "Any XML name gives usable, predictable Rust names",
  "Whatever legal XML name an element, attribute or type has (Rust keywords, any casing, digits, hyphens, dots, underscores, non-ASCII letters), code is generated that compiles and that reads and writes exactly that XML name. A field is named after its element or attribute in snake case, a type and a choice variant after its name in Pascal case, adapted only where that would not be a Rust identifier, would be a keyword, or (for types) would hide a name of the Rust prelude that generated code uses.",
  ["programs"], "all names of a list of awkward names (every Rust keyword included) in every naming position",
  "Tests only use a handful of plain camel-case names and no keyword.",
  ["xsd-internal/src/utils.rs", AST + "name.rs", AST + "leaf.rs", AST + "root.rs", AST + "attribute.rs", PAR + "mod.rs"],
  [("escape_ident and case conversion", "xsd-internal/src/utils.rs; every *_impl"), ("derive_virtual_name", PAR + "mod.rs")])
p("C11", "Built-in types accept their XSD forms and keep every value",
  "Each supported built-in type is represented by its Rust type (string, bool, i64, u64, i32, f32, decimal, or string for the rest) in every position; every lexical form that XSD allows and that Rust type can represent is accepted, including surrounding white space and alternative spellings, and keeps its value through decoding and encoding. Text outside the lexical space of a boolean or numeric type, or out of the Rust type's range, is refused with a parse error.",
  ["inputs", "programs"], "all built-in types x positions x a table of boundary lexical forms",
  "Tests use one ordinary value for five of the types.",
  [AST + "literal_type.rs", XS + "context.rs", AST + "leaf_content.rs", AST + "root.rs"],
  [("literal_from_str", XS + "context.rs"), ("LiteralType::to_impl / from_str_impl / to_xml_impl", AST + "literal_type.rs")])
p("C12", "Children of an all group may come in any order",
  "For every all group, with required and optional members of any type, every permutation of the children that are present decodes to the same value, an absent optional member is read as absent, an absent required member is an error, and an optional group is read as absent only if none of its members is there.",
  ["inputs", "programs"], "all all-groups up to the bound and all permutations of all subsets of their children",
  "One test decodes one permutation of three required strings.",
  [AST + "leaf.rs", AST + "root.rs", "xsd/src/decode.rs", PAR + "complex_type.rs"],
  [("is_unordered and any-order child lookup", AST + "leaf.rs from_xml_impl; xsd/src/decode.rs child")])
p("C13", "Occurrence bounds fix the Rust shape and no occurrence is lost",
  "For every content model of nested sequences and choices and every minOccurs/maxOccurs on elements and groups, a particle is represented as T, Option, Vec or Option of Vec according to whether it may be absent and may repeat, and decoding collects all occurrences in order and leaves to the following particles exactly their own children. Optional parts are read as present if and only if one of their elements occurs.",
  ["programs", "inputs"], "all content-model trees up to the bound, all occurrence combinations, all child sequences up to the length bound",
  "Tests sample about a dozen content models, each with one child sequence.",
  [AST + "leaf.rs", AST + "root.rs", PAR + "sequence.rs", PAR + "choice.rs", PAR + "complex_type.rs", PAR + "element.rs"],
  [("is_vec / is_optional", AST + "leaf.rs"), ("lookahead_impl", AST + "root.rs"), ("parse_min_occurs / parse_max_occurs", PAR + "element.rs")])
p("C14", "A choice takes exactly the alternative that is present",
  "For every choice, in any position and with any kinds of alternatives (elements of every type, repeated elements, sequences with optional beginnings), decoding selects the alternative whose elements come next and reads it completely, reports an error if a required choice finds none, and encoding writes exactly that alternative's elements under their own names.",
  ["programs", "inputs"], "all choices with up to three alternatives from every kind of alternative, in every position",
  "Tests decode one alternative each of nine choices.",
  [AST + "root.rs", PAR + "choice.rs", PAR + "sequence.rs", PAR + "complex_type.rs"],
  [("Root::Choice to_xml_impl / from_xml_impl / lookahead_impl", AST + "root.rs")])
p("C15", "Extended types carry base and own content and both attribute sets",
  "For a type that extends another by complex or simple content, over any chain of extensions, a document's base content is read before the extension's own content and the attributes of all levels are read from the same element; encoding writes one element with the attributes of all levels and base content before own content.",
  ["programs", "inputs"], "all extension chains up to the bound over all kinds of base content, own content and attributes at each level",
  "Four tests cover a single extension level, none with attributes on the base and a sequence in the extension.",
  [PAR + "complex_content.rs", PAR + "simple_content.rs", AST + "element_definition.rs", AST + "element_content.rs", "xsd/src/lib.rs"],
  [("base as embedded value, sharing element and context", PAR + "complex_content.rs; " + AST + "element_definition.rs to_xml_impl; xsd/src/lib.rs Context::wrap")])
p("C16", "Attributes and fixed values obey use, default, fixed and type",
  "For every attribute declaration, a required attribute is a plain field whose absence is an error, an optional one (also one with a default) is an Option that reflects its presence, and a prohibited one produces no field; values are read and written according to their type, and attributes of another namespace are never taken for it. A fixed attribute or element accepts only its fixed text and is written with it.",
  ["programs", "inputs"], "all combinations of use, default, fixed, type kind and host element, up to three attributes, and all presence patterns",
  "Six tests use one combination and one presence pattern each.",
  [AST + "attribute.rs", PAR + "attribute.rs", AST + "leaf_content.rs"],
  [("Attribute::to_xml_impl / from_xml_impl", AST + "attribute.rs"), ("use/default/fixed parsing", PAR + "attribute.rs")])
p("C17", "Markup details of a document never change the decoded data",
  "Comments, processing instructions, CDATA sections, character and entity references, white space between elements, an XML declaration, self-closing tags and attribute quoting may be placed anywhere the XML grammar allows without changing the decoded value; text is read completely and literally. Every string of XML characters (apart from line-end and attribute white-space normalisation by XML itself) survives encoding and decoding in element and attribute position.",
  ["inputs"], "all placements of markup noise in element and text content and all short strings over an alphabet of special characters",
  "Tests contain no comment, CDATA section, reference or special character in an instance document.",
  ["xsd/src/decode.rs", AST + "leaf_content.rs", "xsd/src/lib.rs"],
  [("Node::text", "xsd/src/decode.rs"), ("element-only child iteration", "xsd/src/decode.rs Node::new")])
p("C18", "Every accepted schema yields code that compiles, one type per definition",
  "Whenever a schema of supported constructs is accepted, the generated code compiles without needing edits, and every named type and every anonymous type, group or choice gets a Rust type of its own with its own content: two definitions are never merged into one, however similar the names of their parents and members are.",
  ["programs"], "all schemas of all generated families plus all name-collision patterns of nested anonymous groups",
  "Fifty schemas are compiled by the tests; only one of them looks for a name collision.",
  [XS + "schema.rs", PAR + "mod.rs", XS + "context.rs", AST + "root.rs"],
  [("derive_virtual_name / add_root", PAR + "mod.rs; " + XS + "context.rs"), ("code generation", XS + "schema.rs generate_element")],
  [("roots", "map from name to definition; a second insert under one name replaces the first", XS + "context.rs")],
  observe=("rustc on the expanded module", "generated from_xml / to_xml results"))
p("C19", "Unsupported or malformed schemas are refused at the offending place",
  "A schema that uses an XSD element or attribute the generator does not implement at that place, lacks a required one, has an unusable value in it, refers to an undeclared prefix or unknown built-in type, or is not well-formed, is refused with an error instead of being partly ignored or crashing; the error gives the file and the row and column of the offending element or attribute. (Not covered, because the generator does not interpret them: attributes of schema, include, import, restriction, extension and facets that it does not use, and everything below facets, documentation and element references.)",
  ["programs"], "every XSD element in every XSD parent and every XSD attribute on every XSD element that is not implemented, one deviation at a time, plus all value and structure corruptions of a base schema",
  "No test feeds an unsupported or malformed schema.",
  [XS + "node.rs", XS + "error.rs", XS + "schema.rs", PAR + "mod.rs"],
  [("prevent_unvisited_attributes / prevent_unvisited_children", XS + "node.rs"), ("error ranges", XS + "error.rs; " + XS + "schema.rs")],
  observe=("SchemaError of Schema::parse", "compile errors of the macro"))
p("C20", "Generation does not depend on declaration order or hashing",
  "For every order of the global declarations of a schema (uses before or after definitions) and every run of the generator, the generated types have the same names, fields, variants and behaviour (numbers appended to tell derived names apart that would otherwise coincide excepted).",
  ["configurations", "programs"], "all permutations of the global declarations of the schemas of the family, and repeated generation under differently seeded hash maps",
  "Each test schema exists in one order and is generated once.",
  [XS + "schema.rs", XS + "context.rs", AST + "root.rs"],
  [("resolution after parsing (elements map)", XS + "context.rs"), ("escape_enum_names", AST + "root.rs")])
p("C21", "Generating one type yields exactly its dependency closure, once",
  "For every dependency graph between the types of a schema, cycles included, generating a type together with its dependencies emits that type and every type it transitively refers to, nothing else, and each of them once; over any sequence of such requests with a shared record of what was generated, no type is emitted twice and none that is needed is missing.",
  ["histories", "programs"], "all directed graphs on up to three (thorough: four) types, all kinds of reference, and all request sequences up to the bound",
  "This entry point of the library has no test.",
  [XS + "schema.rs", XS + "context.rs"],
  [("generate_element_and_dependencies", XS + "schema.rs"), ("discover_type", XS + "context.rs")],
  [("dependencies", "parent to child type names", XS + "context.rs SharedContext")],
  observe=("items of the returned token stream",))
p("C22", "Named types, aliases and element references are transparent",
  "Giving a type a name, referring to it from elements, attributes or simple content, chaining such references, or referring to a global element instead of declaring it in place does not change which documents decode, what data they yield, or what is encoded, compared with writing the definition in place.",
  ["programs", "inputs"], "all kinds of definitions x all ways of referring to them (inline, named, element reference, reference to an element of a named type) x positions and occurrences",
  "Three tests use a reference, each to one kind of definition.",
  [XS + "context.rs", AST + "leaf_content.rs", AST + "leaf.rs", AST + "root.rs", PAR + "element.rs"],
  [("flattening of aliases (resolve, LeafContent::Named)", XS + "context.rs resolve; " + AST + "leaf_content.rs")])
p("C23", "Schema documentation and the host module carry over to the output",
  "The documentation text of a schema type, element, attribute or nested sequence appears, with white space collapsed, as doc comment of the struct, field or choice variant that represents it and nowhere else (for an element with an anonymous type also on the type; enumerations carry none), and documentation never changes behaviour. The module the macro is applied to keeps its visibility, its outer and inner attributes and its items next to the generated ones, and a missing, unknown or unreadable schema argument is a compile error.",
  ["programs", "configurations"], "all placements of documentation in the schema family and all combinations of host-module visibility, attributes and content",
  "One test has a host module with content; doc comments are not tested.",
  ["xsd-derive/src/lib.rs", "xsd-derive/src/generator.rs", PAR + "annotation.rs", AST + "leaf.rs", AST + "attribute.rs", XS + "schema.rs"],
  [("generate", "xsd-derive/src/generator.rs"), ("docs fields", AST + "*.rs")],
  observe=("attributes of the generated items", "expanded host module"))
p("C24", "Text conversions of generated simple types are exact and lossless",
  "For every enumeration, parsing a text with FromStr succeeds exactly for the listed values, distinct values give distinct variants, as_str and Display give back the very text, and any other text is refused with an invalid-variant error carrying it. For every named restriction of a built-in type, FromStr gives the value the text denotes in the Rust type of the base, refuses a text that denotes none with a parse error carrying it, and what Display writes parses back to an equal value.",
  ["programs", "inputs"], "all enumerations over a universe of awkward values and all named restrictions of the built-in types, with every text of the universe",
  "No test uses FromStr, Display or as_str of a generated type directly; the XML tests convert one or two values of three enumerations.",
  [AST + "root.rs"],
  [("FromStr, as_str and Display of enumerations and named simple types", AST + "root.rs to_declaration")],
  observe=("results of FromStr, as_str and Display",))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties;", "title lengths ok:", all(len(x["title"]) <= 80 for x in P))
