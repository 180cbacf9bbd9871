"""Text conversions (C24): every enumeration over a small universe of values and a named simple type for
every built-in base, generated with the real macro; the programs convert every text of the universe."""
import itertools, json
from xml.sax.saxutils import quoteattr

UNIVERSE = ["a", "A", "b", "ab", "a b", "a-b", "a_b", "a.b", "type", "Self", "1", "1a", "-", "", " a", "\u00e9", "\u00c9", "<&\"'>", "true", "None", "b ", "b\t"]
# texts that are never a value of an enumeration
NEVER = ["a_", "b ", "a\u00a0", "\ufeffa", "zz", "aa", "AB", "a  b", "_", "e\u0301", "Type", "\n"]

STRING = ["string", "date", "time", "dateTime", "duration", "base64Binary", "hexBinary"]
INT = {"int": (32, True), "long": (64, True), "integer": (64, True), "nonNegativeInteger": (64, False), "positiveInteger": (64, False)}
FACETS = {
    "none": "",
    "length": '<xs:length value="3"/>',
    "lengths": '<xs:minLength value="1"/><xs:maxLength value="9"/>',
    "pattern": '<xs:pattern value="[a-z]*"/>',
    "range": '<xs:minInclusive value="0"/><xs:maxInclusive value="5"/>',
    "large": '<xs:maxLength value="4294967296"/><xs:minLength value="0"/>',
    "wide": '<xs:minInclusive value="-79228162514264337593543950335"/><xs:maxInclusive value="79228162514264337593543950335"/>',
    "small": '<xs:maxInclusive value="-0.0000000000000000000000001"/><xs:minInclusive value="-1.50"/>',
    "patterns": '<xs:pattern value="\\d{2}|[^&lt;&quot;]*"/><xs:pattern value=""/><xs:length value="65536"/>',
    "order": '<xs:fractionDigits value="0"/><xs:totalDigits value="28"/><xs:maxLength value="300"/><xs:minLength value="256"/>',
    "digits": '<xs:totalDigits value="4"/><xs:fractionDigits value="2"/>',
}


def leaf_texts(base):
    """(text, accepted) pairs, and the Rust type"""
    if base in STRING:
        chars = "aZ0+-_.,:;/\\|\"'`<>&%$#@!?*()[]{}=~^ \t\n\r\u00a0\u00e9\u200b\ufeff\U0001f600"
        short = [a + b for a in chars for b in [""] + (list(chars) if base == "string" else [])]
        long = [u * n for u in ("x", "ab ", "\u00e9") for n in (10, 33, 65, 100, 257, 1000)]
        return [(t, True) for t in UNIVERSE + NEVER + short + long], "String"
    if base == "boolean":
        return [("true", True), ("false", True)] + [(t, False) for t in ["", " x ", "x\n", "TRUE", "tru", "truefalse", "yes", "-1", "2", "true false"]], "bool"
    if base in INT:
        bits, signed = INT[base]
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        good = sorted({lo, lo + 1, 1, 2, 7, 9, 10, 127, 128, 255, 256, 65535, 65536, hi - 1, hi} | ({-1, -128} if signed else set()))
        bad = ["", "x", " x ", "x\n", "\tx", "1x", "x1", "1.5", "1e2", "0x1", "1 1", "--1", "-", "+", "1,000", str(hi + 1), str(lo - 1)]
        return [(str(g), True) for g in good] + [(b, False) for b in bad], ("i" if signed else "u") + str(bits)
    if base == "decimal":
        good = ["0", "1", "-1", "1.5", "-1.50", "0.001", "100", "12345678901234567890.12345678", "-0.5"]
        return [(g, True) for g in good] + [(b, False) for b in ["", "x", " x ", "x\n", "\tx", "1.5.1", "1,5", "--1", "1 1", "NaN", "INF"]], "rust_decimal::Decimal"
    if base == "float":
        good = ["0", "1", "-1", "1.5", "-2.25", "0.1", "16777216", "3.4028235e38", "1e-45", "1e10"]
        return [(g, True) for g in good] + [(b, False) for b in ["", "x", " x ", "x\n", "\tx", "1.5.1", "1,5", "--1", "1 1", "1e", "0x1"]], "f32"
    raise KeyError(base)


def enums(thorough):
    out = [[v] for v in UNIVERSE] + [list(p) for p in itertools.permutations(UNIVERSE, 2)]
    out += [list(c) for c in itertools.combinations(UNIVERSE if thorough else UNIVERSE[:14], 3)]
    if thorough:
        out += [list(c)[::-1] for c in itertools.combinations(UNIVERSE, 3)]
        out += [list(c) for c in itertools.combinations(UNIVERSE[:12], 4)]
    out += [UNIVERSE[:n] for n in range(4, len(UNIVERSE) + 1)] + [UNIVERSE[::-1]]
    # larger than anything a match could treat specially
    out += [[f"v{i}" for i in range(n)] for n in (10, 40, 130)]
    return out


def rs(s):
    """Rust string literal"""
    return '"' + "".join(c if c.isalnum() and c.isascii() or c in " .-_" else "\\u{%x}" % ord(c) for c in s) + '"'


HELP = r'''
fn some(s: &str) -> String { s.to_string() }
macro_rules! enumeration { ($t:ty, $i:expr, $good:expr) => {{
    let good: &[&str] = $good;
    let mut seen: Vec<$t> = vec![];
    for t in good {
        let v: $t = match t.parse() { Ok(v) => v, Err(e) => { fail($i, format!("{:?} is refused: {:?}", t, e)); continue } };
        if v.as_str() != *t { fail($i, format!("{:?} as a value is written {:?} by as_str", t, v.as_str())); }
        if v.to_string() != *t { fail($i, format!("{:?} as a value is displayed {:?}", t, v.to_string())); }
        if v.clone() != v { fail($i, format!("{:?}: a clone is not equal", t)); }
        if seen.contains(&v) { fail($i, format!("{:?} is the same value as another text", t)); }
        seen.push(v);
    }
    for t in TEXTS {
        if good.contains(t) { continue }
        match t.parse::<$t>() {
            Ok(v) => fail($i, format!("{:?} is accepted as {:?}", t, v)),
            Err(xsd::decode::FromXmlError::InvalidVariant { name }) => if name != *t { fail($i, format!("{:?} is refused as {:?}", t, name)) },
            Err(e) => fail($i, format!("{:?} is refused with {:?}", t, e)),
        }
    }
    COUNT.fetch_add((good.len() * 3 + TEXTS.len()) as u64, Relaxed);
}} }
macro_rules! leaf { ($t:ident, $path:path, $r:ty, $i:expr, $texts:expr) => {{
    let texts: &[(&str, bool)] = $texts;
    for (t, ok) in texts {
        match (t.parse::<$path>(), *ok) {
            (Ok(v), true) => {
                if v.0 != t.parse::<$r>().unwrap() { fail($i, format!("{:?} is read as {:?}", t, v)) }
                if stringify!($r) == "String" && v.to_string() != *t { fail($i, format!("{:?} is displayed as {:?}", v, v.to_string())) }
                match v.to_string().parse::<$path>() { Ok(w) => if w != v { fail($i, format!("{:?} is displayed and read again as {:?}", v, w)) }, Err(e) => fail($i, format!("{:?} is displayed as what is refused: {:?}", v, e)) }
                if v.clone() != v { fail($i, format!("{:?}: a clone is not equal", t)); }
            }
            (Ok(v), false) => fail($i, format!("{:?} is accepted as {:?}", t, v)),
            (Err(e), true) => fail($i, format!("{:?} is refused: {:?}", t, e)),
            (Err(xsd::decode::FromXmlError::ParseType { value, .. }), false) => if value != *t { fail($i, format!("{:?} is refused as {:?}", t, value)) },
            (Err(e), false) => fail($i, format!("{:?} is refused with {:?}", t, e)),
        }
    }
    COUNT.fetch_add(texts.len() as u64, Relaxed);
}} }
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
static COUNT: AtomicU64 = AtomicU64::new(0);
fn fail(i: &str, m: String) { println!("FAIL {}: {}", i, m); }
'''


def programs(thorough):
    """(name, schema text, program text, number of types)"""
    types = []
    for vals in enums(thorough):
        types.append(("enum", "string", vals))
    for base in STRING + list(INT) + ["boolean", "decimal", "float"]:
        for f in FACETS:
            types.append(("leaf", base, f))
    for base, vals in [("int", ["1", "2", "10"]), ("integer", ["-1", "0"]), ("boolean", ["true", "false"]), ("decimal", ["1.5", "1.50"]), ("date", ["2020-01-01"])]:
        types.append(("enum", base, vals))
    size = 80
    out = []
    for k in range(0, len(types), size):
        x = ['<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema">']
        p = []
        for n, (kind, base, arg) in enumerate(types[k:k + size]):
            x.append(f'<xs:simpleType name="T{n}"><xs:restriction base="xs:{base}">')
            if kind == "enum":
                x += [f"<xs:enumeration value={quoteattr(v)}/>" for v in arg]
                p.append(f'enumeration!(host::T{n}, "T{n}", &[{", ".join(map(rs, arg))}]);')
            else:
                x.append(FACETS[arg])
                texts, ty = leaf_texts(base)
                p.append(f'leaf!(T{n}, host::T{n}, {ty}, "T{n}", &[{", ".join("(%s, %s)" % (rs(t), str(o).lower()) for t, o in texts)}]);')
            x.append("</xs:restriction></xs:simpleType>")
        x.append("</xs:schema>")
        texts = [t for t in UNIVERSE + NEVER]
        src = (f'#![allow(warnings)]\n#[xsd::all(schema = "text{len(out)}.xsd")] pub mod host {{}}\n' + HELP
               + f"const TEXTS: &[&str] = &[{', '.join(map(rs, texts))}];\nfn main() {{\n" + "\n".join(p)
               + '\nprintln!("COUNT {}", COUNT.load(Relaxed));\n}\n')
        out.append((f"text{len(out)}", "\n".join(x), src, len(types[k:k + size])))
    return out
