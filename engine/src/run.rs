//! Running the documents of a suite against the generated code and judging the outcomes.

use crate::dbg;
use crate::gen::*;
use crate::model::*;
use crate::refdec::*;

/// Observed error, without any private detail.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Err_ {
    Xml,
    MissingElement { name: String, namespace: Option<String> },
    MissingAttribute { name: String },
    TextExpected { name: String },
    InvalidVariant { name: String },
    MissingVariant,
    ParseType { value: String },
    FixedMismatch { expected: String, received: String },
    Other(String),
}

pub struct Decoded {
    pub debug: String,
    pub xml: Result<Vec<u8>, String>,
    /// result of decoding `xml` again: equal (or the debug texts agree)?
    pub again: Option<Result<bool, Err_>>,
}

pub enum Outcome {
    Ok(Decoded),
    Err(Err_),
    Panic(String),
}

pub type Exec = fn(&str) -> Outcome;

/// Aspects of the oracle, selected per property.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Aspect {
    Decode,
    Reject,
    Encode,
    RoundTrip,
    Panic,
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub aspect: Aspect,
    pub xml: String,
    pub origin: String,
    pub msg: String,
}

#[derive(Default, Debug)]
pub struct Stats {
    pub docs: usize,
    pub valid: usize,
    pub rejected: usize,
    pub unspec: usize,
    pub encoded: usize,
    pub checks: usize,
    /// distinct kinds of outcome seen
    pub outcomes: std::collections::BTreeMap<&'static str, usize>,
    pub sample: String,
}

fn reason_matches(r: &Reason, e: &Err_) -> bool {
    match (r, e) {
        (Reason::Any, _) => true,
        (Reason::MissingElement(q), Err_::MissingElement { name, namespace }) => q.1 == *name && q.0 == *namespace,
        (Reason::MissingAttribute(n), Err_::MissingAttribute { name }) => n == name,
        (Reason::MissingVariant, Err_::MissingVariant) => true,
        (Reason::InvalidVariant(t), Err_::InvalidVariant { name }) => t == name,
        (Reason::ParseType(t), Err_::ParseType { value }) => t.trim() == value.trim(),
        (Reason::TextExpected(n), Err_::TextExpected { name }) => n == name,
        (Reason::FixedMismatch(a, b), Err_::FixedMismatch { expected, received }) => a.trim() == expected.trim() && b.trim() == received.trim(),
        _ => false,
    }
}

fn text_ok(want: &Text, got: &str) -> bool {
    match want {
        Text::None => got.trim().is_empty(),
        Text::Exact(s) => s == got,
        Text::Scalar(l, s) => match l.repr() {
            Repr::Str => s == got,
            r => match (lex(*l, s), lex(*l, got)) {
                (Lex::Ok { dbg: a, .. }, Lex::Ok { dbg: b, .. }) => {
                    got.trim() == got
                        && if r == Repr::Dec {
                            dbg::compare(&Val::Dec(a), &dbg::D::Raw(b), false, &mut Default::default()).is_ok()
                        } else {
                            a == b
                        }
                }
                _ => false,
            },
        },
    }
}

pub fn canon_matches(c: &Canon, x: &XNode) -> Result<(), String> {
    if c.q != x.qname() {
        return Err(format!("element {:?} where {:?} belongs", x.qname(), c.q));
    }
    let here = &x.name;
    for (n, t) in &c.attrs {
        let found: Vec<_> = x.attrs.iter().filter(|a| a.0.is_none() && a.1 == *n).collect();
        match found[..] {
            [a] if text_ok(t, &a.2) => {}
            [a] => return Err(format!("attribute {n}={:?} on {here}, expected {t:?}", a.2)),
            _ => return Err(format!("attribute {n} missing on {here}")),
        }
    }
    for a in &x.attrs {
        if a.0.is_some() || !c.attrs.contains_key(&a.1) {
            return Err(format!("attribute {:?} does not belong on {here}", a.1));
        }
    }
    if c.kids.len() != x.kids.len() {
        return Err(format!(
            "{here} has children {:?}, expected {:?}",
            x.kids.iter().map(|k| &k.name).collect::<Vec<_>>(),
            c.kids.iter().map(|k| &k.q.1).collect::<Vec<_>>()
        ));
    }
    if x.kids.is_empty() && !text_ok(&c.text, &x.text) {
        return Err(format!("text {:?} in {here}, expected {:?}", x.text, c.text));
    }
    if !x.kids.is_empty() && !x.text.trim().is_empty() {
        return Err(format!("stray text {:?} in {here}", x.text));
    }
    c.kids.iter().zip(&x.kids).try_for_each(|(c, x)| canon_matches(c, x))
}

/// Judges one outcome; at most one finding per aspect.
pub fn judge(suite: &Suite, doc: &Doc, verdict: &Verdict, out: &Outcome, bind: &mut dbg::Bind, st: &mut Stats) -> Vec<Finding> {
    let mut fs = vec![];
    let mut f = |aspect: Aspect, msg: String| fs.push(Finding { aspect, xml: doc.xml.clone(), origin: doc.origin.clone(), msg });
    st.docs += 1;
    if let Outcome::Panic(p) = out {
        f(Aspect::Panic, format!("panic: {p}"));
        match verdict {
            Verdict::Valid { .. } => f(Aspect::Decode, format!("panic on a valid document: {p}")),
            _ => {}
        }
        return fs;
    }
    match verdict {
        Verdict::Unspec => {
            st.unspec += 1;
        }
        Verdict::Reject(rs) => {
            st.rejected += 1;
            st.checks += 1;
            match out {
                Outcome::Ok(d) => f(Aspect::Reject, format!("accepted as {}, but must be refused: {rs:?}", d.debug)),
                Outcome::Err(e) => {
                    if !rs.iter().any(|r| reason_matches(r, e)) {
                        f(Aspect::Reject, format!("refused with {e:?}, but the fault is {rs:?}"));
                    }
                }
                Outcome::Panic(_) => unreachable!(),
            }
        }
        Verdict::Valid { val, canon } => {
            st.valid += 1;
            match out {
                Outcome::Err(e) => f(Aspect::Decode, format!("valid document refused: {e:?}")),
                Outcome::Panic(_) => unreachable!(),
                Outcome::Ok(d) => {
                    st.checks += 3;
                    match dbg::parse(&d.debug) {
                        Err(e) => f(Aspect::Decode, format!("unreadable debug text ({e}): {}", d.debug)),
                        Ok(t) => {
                            if let Err(e) = dbg::compare(val, &t, suite.loose, bind) {
                                f(Aspect::Decode, format!("wrong value: {e}; whole value {}", d.debug));
                            }
                        }
                    }
                    match &d.xml {
                        Err(e) => {
                            f(Aspect::Encode, format!("encoding failed: {e}"));
                            f(Aspect::RoundTrip, format!("encoding failed: {e}"));
                        }
                        Ok(bytes) => {
                            st.encoded += 1;
                            match std::str::from_utf8(bytes) {
                                Err(e) => f(Aspect::Encode, format!("not UTF-8: {e}")),
                                Ok(s) => {
                                    let head = s.trim_start();
                                    if !(head.starts_with("<?xml version=\"1.0\"") || head.starts_with("<?xml version='1.0'")) {
                                        f(Aspect::Encode, format!("no XML declaration: {s}"));
                                    }
                                    match parse_xml(s) {
                                        None => f(Aspect::Encode, format!("not well-formed: {s}")),
                                        Some((x, _)) => {
                                            if let Err(e) = canon_matches(canon, &x) {
                                                f(Aspect::Encode, format!("{e}; encoded as {s}"));
                                            }
                                        }
                                    }
                                }
                            }
                            match &d.again {
                                Some(Ok(true)) => {}
                                Some(Ok(false)) => f(Aspect::RoundTrip, format!("decoding {} again gives another value than {}", String::from_utf8_lossy(bytes), d.debug)),
                                Some(Err(e)) => f(Aspect::RoundTrip, format!("{} cannot be decoded again: {e:?}", String::from_utf8_lossy(bytes))),
                                None => {}
                            }
                        }
                    }
                }
            }
        }
    }
    fs
}

pub fn verdict(env: &Env<'_>, doc: &Doc) -> Verdict {
    match (&doc.force, &doc.tree) {
        (Some(ExtraExpect::Reject), _) => Verdict::Reject([Reason::Any].into_iter().collect()),
        (Some(ExtraExpect::NoPanic), _) | (_, None) => Verdict::Unspec,
        (_, Some(t)) => env.decode(t),
    }
}

pub fn run_suite(suite: &Suite, exec: Exec, part: Part, st: &mut Stats, limit: usize) -> (Vec<Finding>, Space) {
    let env = Env::new(suite);
    let (docs, space) = docs(&env, part);
    let mut bind = dbg::Bind::default();
    let mut fs = vec![];
    for d in &docs {
        let v = verdict(&env, d);
        if !part.valid && matches!(v, Verdict::Valid { .. }) && d.origin.starts_with("valid") {
            continue;
        }
        let o = exec(&d.xml);
        *st.outcomes.entry(kind(&o)).or_default() += 1;
        if let (true, Outcome::Ok(x)) = (st.sample.is_empty(), &o) {
            st.sample = format!("{} | {} => {}", suite.desc, d.xml, x.debug);
        }
        fs.extend(judge(suite, d, &v, &o, &mut bind, st));
        if fs.len() >= limit {
            break;
        }
    }
    (fs, space)
}

fn kind(o: &Outcome) -> &'static str {
    match o {
        Outcome::Ok(_) => "decoded",
        Outcome::Panic(_) => "panic",
        Outcome::Err(e) => match e {
            Err_::Xml => "Xml",
            Err_::MissingElement { .. } => "MissingElement",
            Err_::MissingAttribute { .. } => "MissingAttribute",
            Err_::TextExpected { .. } => "TextExpected",
            Err_::InvalidVariant { .. } => "InvalidVariant",
            Err_::MissingVariant => "MissingVariant",
            Err_::ParseType { .. } => "ParseType",
            Err_::FixedMismatch { .. } => "FixedMismatch",
            Err_::Other(_) => "other",
        },
    }
}
