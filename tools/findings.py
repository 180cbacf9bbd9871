#!/usr/bin/env python3
"""Source of known-findings.json: the defects recorded (known) and repaired (fixed)."""
import json, os, subprocess
KNOWN = [
    ("C18", "element order of type Order", "a global element and a type whose names give the same Rust name: both structs are called `Order`, the code does not compile"),
    ("C18", "types aB and AB", "two global types whose names give the same Rust name in Pascal case: the code does not compile"),
    ("C18", "types of the same name in two namespaces", "types with the same local name in two namespaces get the same Rust name: the code does not compile"),
    ("C18", "the same element twice in a sequence", "two elements of the same name in one sequence give two fields of the same name: the code does not compile"),
    ("C18", "elements whose names differ in case only", "elements fooBar and FooBar in one sequence give two fields of the same name: the code does not compile"),
    ("C18", "an element and an attribute of the same name", "an element and an attribute of the same name in one type give two fields of the same name: the code does not compile"),
    ("C18", "a type that optionally contains itself", "a type that contains itself through an optional, unrepeated element gives a struct of infinite size: the code does not compile"),
]
# subject of the commit -> property, what failed
FIXED = {
    "give every XML name a valid Rust identifier": ("C10", "names such as `self`, `a.b` or `1st` in derived positions gave code that does not compile"),
    "choice and enumeration variants whose name is not an identifier": ("C09", "enumeration values and choice alternatives such as `Self` gave code that does not compile"),
    "panic on names that start with a multi-byte character": ("C10", "the generator panicked on names such as `école`"),
    "write the element around simple content behind aliases, references and fixed values": ("C22", "a text behind a type alias or reference was written without its element"),
    "write the namespace prefix of choice alternatives": ("C07", "alternatives of a choice were written without namespace"),
    "accept optional members of xs:all at any position": ("C12", "optional members of an all group were only found in the declared order"),
    "look past required groups that can be empty": ("C13", "an optional group beginning with a group of optional elements was read as absent"),
    "attributes of named simple types and with fixed values": ("C16", "attributes of named simple types or with fixed values gave code that does not compile"),
    "resolve unprefixed references in the default namespace": ("C07", "unprefixed references in a schema with a default namespace were looked up without namespace"),
    "read text that is interrupted by comments or processing instructions": ("C17", "only the text before the first comment was read"),
    "white space and alternative spellings of booleans and numbers": ("C11", "` 1 `, `+1`, `1` for true, `INF` were refused"),
    "write the attributes of the base type of an extension": ("C15", "attributes of the base type were lost when encoding an extension with own content"),
    "honour the form of local elements": ("C07", "form=\"unqualified\"/\"qualified\" of a local element was refused or ignored"),
    "do not write a default namespace around elements without namespace": ("C07", "unqualified elements of a qualified schema were written into the target namespace"),
    "repeated sequences as alternatives of a choice": ("C14", "a repeated sequence as alternative of a choice gave code that does not compile or lost repetitions"),
    "endless recursion on circular includes": ("C08", "circular includes overflowed the stack"),
    "refuse mixed content however it is spelled": ("C19", "mixed=\"1\" was accepted and ignored"),
    "do not merge anonymous types whose derived names collide": ("C18", "two anonymous types with the same derived name were merged into one"),
    "derived field and variant names that collide with another one": ("C18", "derived names of groups that coincide with an element gave code that does not compile"),
    "foreign attributes of a schema must not shadow its own": ("C19", "an attribute of another namespace was taken for the schema's own one"),
    "infinite floats in attributes of named simple types": ("C11", "INF in an attribute of a named float type was written as `inf`"),
    "elements taken out of the default namespace": ("C07", "xmlns=\"\" in a document was not honoured"),
    "types named like what the generated code uses from the prelude": ("C10", "a type named `Option`, `Vec` or `String` gave code that does not compile"),
    "endless recursion on circular extensions": ("C21", "circular extensions overflowed the stack"),
    "elements with the same name as their type": ("C22", "a global element with the same name as its type replaced the type by itself"),
    "refuse unsupported children of local elements": ("C19", "unsupported children of local elements were silently ignored"),
    "refuse invalid form defaults of a schema": ("C19", "invalid values of elementFormDefault were silently ignored"),
    "refuse attributes that belong to the target namespace by default": ("C19", "attributeFormDefault=\"qualified\" was silently ignored"),
    "keep the documentation of the alternatives of a choice": ("C23", "documentation of the alternatives of a choice was dropped"),
    "documentation that is empty or interrupted by comments or markup": ("C23", "empty documentation was refused, interrupted documentation cut off"),
    "inner attributes of the host module": ("C23", "inner attributes of the host module gave code that does not compile"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed, seen = [], set()
for l in log:
    h, _, s = l.partition(" ")
    if s.startswith("fix: "):
        k = s[5:]
        prop, what = FIXED[k]
        seen.add(k)
        fixed.append(f"fixed: property={prop} {h} {what}")
assert seen == set(FIXED), set(FIXED) - seen
out = {"known": [{"properties": [p], "family": "limits", "schemas": [d], "kinds": ["compile"], "what": w} for p, d, w in KNOWN], "fixed": fixed}
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.json"), "w"), indent=1, ensure_ascii=False)
