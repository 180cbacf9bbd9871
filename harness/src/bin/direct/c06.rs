//! Writer contexts: all operation sequences up to a length on the real Context and EventWriter,
//! against a model of the elements that have to come out.

use crate::util::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::OnceLock;
use xsd::xml::writer::{EmitterConfig, EventWriter, XmlEvent};
use xsd::Context;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Attr(usize),
    Ns(usize),
    Default,
    Start,
    End,
    /// a context of its own for a child element
    New(usize),
    /// a context wrapped around the current one
    Wrap,
    /// leave the context made by New or Wrap
    Leave,
    Text,
}
const OPS: [Op; 12] = [
    Op::Attr(0), Op::Attr(1), Op::Attr(2), Op::Ns(0), Op::Ns(1), Op::Default, Op::Start, Op::End, Op::New(0), Op::New(1), Op::Wrap, Op::Leave,
];
type Pairs = [(&'static str, &'static str)];
/// The first three are used by the exhaustive part, the rest by the part with many of them.
fn attrs() -> &'static Pairs {
    static A: OnceLock<Vec<(&'static str, &'static str)>> = OnceLock::new();
    A.get_or_init(|| {
        let mut v = vec![("x", "1"), ("y", "<&\"' é"), ("z", "")];
        // in no alphabetical order
        v.extend((0..60).map(|i| (&*format!("a{}", (i * 37) % 61).leak(), &*format!("v{i}").leak())));
        v
    })
}
fn spaces() -> &'static Pairs {
    static A: OnceLock<Vec<(&'static str, &'static str)>> = OnceLock::new();
    A.get_or_init(|| {
        let mut v = vec![("p", "urn:p"), ("q", "urn:q")];
        v.extend((0..40).map(|i| (&*format!("n{}", (i * 17) % 41).leak(), &*format!("urn:n{i}").leak())));
        v
    })
}
const DEF: &str = "urn:d";
const NAMES: [&str; 2] = ["kid", "p:kid"];

#[derive(Clone, Debug, PartialEq, Default)]
struct El {
    name: String,
    attrs: Vec<(String, String)>,
    scope: BTreeMap<String, String>,
    kids: Vec<Node>,
}
#[derive(Clone, Debug, PartialEq)]
enum Node {
    El(El),
    Text(String),
}

/// Context of the model: own context with its pending attributes and declarations, or a wrapper.
#[derive(Clone, Default)]
struct Ctx {
    wrapper: bool,
    name: String,
    attrs: Vec<usize>,
    ns: BTreeMap<String, String>,
}

#[derive(Clone)]
struct M {
    ctxs: Vec<Ctx>,
    /// open elements, the last one innermost; the first entry is the document
    open: Vec<El>,
}

impl M {
    fn new() -> M {
        M { ctxs: vec![Ctx { name: "root".into(), ..Ctx::default() }], open: vec![El::default()] }
    }
    fn owner(&mut self) -> &mut Ctx {
        let i = self.ctxs.iter().rposition(|c| !c.wrapper).unwrap();
        &mut self.ctxs[i]
    }
    /// Whether the operation makes sense in this state (what is not is never executed).
    fn enabled(&mut self, op: Op) -> bool {
        let depth = self.open.len();
        match op {
            Op::Attr(a) => !self.owner().attrs.contains(&a),
            Op::Ns(n) => !self.owner().ns.contains_key(spaces()[n].0),
            Op::Default => !self.owner().ns.contains_key(""),
            Op::Start => {
                if self.ctxs.last().unwrap().wrapper {
                    return true;
                }
                // a single root element, and a bound prefix
                let scope = self.open.last().unwrap().scope.clone();
                let c = self.owner().clone();
                let bound = c.name.split_once(':').is_none_or(|(p, _)| c.ns.contains_key(p) || scope.contains_key(p));
                bound && (depth > 1 || self.open[0].kids.is_empty())
            }
            Op::End => self.ctxs.last().unwrap().wrapper || depth > 1,
            Op::New(_) | Op::Wrap => true,
            Op::Leave => self.ctxs.len() > 1,
            Op::Text => depth > 1,
        }
    }
    fn step(&mut self, op: Op) {
        match op {
            Op::Attr(a) => self.owner().attrs.push(a),
            Op::Ns(n) => {
                self.owner().ns.insert(spaces()[n].0.into(), spaces()[n].1.into());
            }
            Op::Default => {
                self.owner().ns.insert(String::new(), DEF.into());
            }
            Op::Start => {
                if self.ctxs.last().unwrap().wrapper {
                    return;
                }
                let mut scope = self.open.last().unwrap().scope.clone();
                let c = self.owner();
                let attrs = std::mem::take(&mut c.attrs).iter().map(|a| (attrs()[*a].0.to_string(), attrs()[*a].1.to_string())).collect();
                scope.extend(std::mem::take(&mut c.ns));
                let name = c.name.clone();
                self.open.push(El { name, attrs, scope, kids: vec![] });
            }
            Op::End => {
                if !self.ctxs.last().unwrap().wrapper {
                    let e = self.open.pop().unwrap();
                    self.open.last_mut().unwrap().kids.push(Node::El(e));
                }
            }
            Op::New(n) => self.ctxs.push(Ctx { name: NAMES[n].into(), ..Ctx::default() }),
            Op::Wrap => self.ctxs.push(Ctx { wrapper: true, ..Ctx::default() }),
            Op::Leave => {
                self.ctxs.pop();
            }
            Op::Text => {
                let kids = &mut self.open.last_mut().unwrap().kids;
                match kids.last_mut() {
                    Some(Node::Text(t)) => t.push('t'),
                    _ => kids.push(Node::Text("t".into())),
                }
            }
        }
    }
}

fn real<'a, 'b, W: std::io::Write>(ctx: &mut Context<'a, 'b>, mut ops: &'a [Op], w: &mut EventWriter<W>) -> Result<&'a [Op], String> {
    while let Some((op, rest)) = ops.split_first() {
        ops = rest;
        match *op {
            Op::Attr(a) => ctx.set_attr(attrs()[a].0, attrs()[a].1),
            Op::Ns(n) => ctx.set_ns(spaces()[n].0, spaces()[n].1),
            Op::Default => ctx.set_default_ns(DEF),
            Op::Start => ctx.write_start_element(w).map_err(|e| format!("start: {e}"))?,
            Op::End => ctx.write_end_element(w).map_err(|e| format!("end: {e}"))?,
            Op::New(n) => {
                let mut c = Context::new(NAMES[n]);
                ops = real(&mut c, ops, w)?;
            }
            Op::Wrap => {
                let mut c = Context::wrap(ctx);
                ops = real(&mut c, ops, w)?;
            }
            Op::Leave => return Ok(ops),
            Op::Text => w.write(XmlEvent::characters("t")).map_err(|e| format!("text: {e}"))?,
        }
    }
    Ok(ops)
}

fn read(n: roxmltree::Node<'_, '_>) -> El {
    let mut scope: BTreeMap<String, String> = n.namespaces().map(|x| (x.name().unwrap_or("").to_string(), x.uri().to_string())).collect();
    scope.remove("xml");
    let ns = n.tag_name().namespace().unwrap_or("");
    // the name as written: prefixed unless it lives in the default (or no) namespace
    let prefix = spaces().iter().find(|x| x.1 == ns).map(|x| x.0);
    El {
        name: match prefix {
            Some(p) => format!("{p}:{}", n.tag_name().name()),
            None => n.tag_name().name().to_string(),
        },
        attrs: n.attributes().map(|a| (a.name().to_string(), a.value().to_string())).collect(),
        scope,
        kids: n
            .children()
            .filter_map(|c| {
                if c.is_element() {
                    Some(Node::El(read(c)))
                } else if c.is_text() && !c.text().unwrap_or("").trim().is_empty() {
                    Some(Node::Text(c.text().unwrap().trim().to_string()))
                } else {
                    None
                }
            })
            .collect(),
    }
}

fn execute(ops: &[Op], m: &M) -> Result<(), String> {
    let mut m = m.clone();
    let mut buf = Vec::new();
    let mut w = EmitterConfig::new().create_writer(&mut buf);
    let mut ctx = Context::new("root");
    real(&mut ctx, ops, &mut w)?;
    // close what is open, without the contexts
    while m.open.len() > 1 {
        w.write(XmlEvent::end_element()).map_err(|e| format!("closing an element that was started: {e}"))?;
        let e = m.open.pop().unwrap();
        m.open.last_mut().unwrap().kids.push(Node::El(e));
    }
    // nothing else may be open
    if w.write(XmlEvent::end_element()).is_ok() {
        return Err("more start tags than start requests".into());
    }
    let text = String::from_utf8(buf).map_err(|_| "not UTF-8".to_string())?;
    if m.open[0].kids.is_empty() {
        return if text.contains("<root") || text.contains("kid") { Err(format!("no element was requested, written: {text}")) } else { Ok(()) };
    }
    let doc = roxmltree::Document::parse(&text).map_err(|e| format!("{e}: {text}"))?;
    let got = Node::El(read(doc.root_element()));
    if vec![got.clone()] != m.open[0].kids {
        return Err(format!("written {text}\n  read as {got:?}\n  expected {:?}", m.open[0].kids));
    }
    Ok(())
}

struct Count {
    states: u64,
    runs: u64,
}

fn explore(o: &Out, ops: &mut Vec<Op>, m: &mut M, depth: usize, c: &mut Count) -> bool {
    c.states += 1;
    // prefixes are observed through their extensions; what ends here is executed
    let mut any = false;
    if depth > 0 {
        for op in OPS {
            if !m.enabled(op) || op == Op::Leave && matches!(ops.last(), Some(Op::New(_) | Op::Wrap)) {
                continue;
            }
            any = true;
            let mut n = m.clone();
            n.step(op);
            ops.push(op);
            let ok = explore(o, ops, &mut n, depth - 1, c);
            ops.pop();
            if !ok {
                return false;
            }
        }
    }
    if !any || depth == 0 {
        c.runs += 1;
        let r = guarded(|| execute(ops, m)).unwrap_or_else(|p| Err(format!("panic: {p}")));
        if let Err(e) = r {
            // shortest failing prefix
            let mut k = ops.len();
            for l in 1..ops.len() {
                let mut m = M::new();
                ops[..l].iter().for_each(|x| m.step(*x));
                if guarded(|| execute(&ops[..l], &m)).unwrap_or_else(|p| Err(p)).is_err() {
                    k = l;
                    break;
                }
            }
            o.finding("writer", format!("{:?}", &ops[..k]), e);
            return false;
        }
    }
    true
}

/// Deep wrapping and many attributes and declarations: at every level of a stack of `depth` wrappers
/// some are set, the element is started at one of the levels (below it: nothing), and again.
fn many(o: &Out, thorough: bool) {
    let mut items: Vec<Vec<Op>> = vec![];
    let depths: Vec<usize> = if thorough { (0..=16).collect() } else { vec![0, 1, 2, 3, 4, 5, 8, 12] };
    for depth in &depths {
        for per in [0usize, 1, 2, 3] {
            for nper in [0usize, 1, 2] {
                for default_at in 0..=*depth {
                    for after in [false, true] {
                        let mut ops = vec![];
                        let (mut a, mut n) = (0, 0);
                        for level in 0..=*depth {
                            for _ in 0..per {
                                ops.push(Op::Attr(a % 60));
                                a += 1;
                            }
                            for _ in 0..nper {
                                ops.push(Op::Ns(n % 40));
                                n += 1;
                            }
                            if level == default_at {
                                ops.push(Op::Default);
                            }
                            // a wrapper starts nothing
                            if level > 0 {
                                ops.push(Op::Start);
                            }
                            if level < *depth {
                                ops.push(Op::Wrap);
                            }
                        }
                        for _ in 0..*depth {
                            ops.push(Op::End);
                            ops.push(Op::Leave);
                        }
                        ops.push(Op::Start);
                        if after {
                            // a second element of the same context has nothing of the first
                            ops.extend([Op::New(0), Op::Wrap, Op::Attr(0), Op::Ns(39), Op::Start, Op::Leave, Op::Attr(1), Op::Start, Op::Start, Op::End, Op::End, Op::Leave]);
                            ops.extend([Op::Attr(2), Op::Start, Op::End]);
                        }
                        items.push(ops);
                    }
                }
            }
        }
    }
    // many attributes and declarations on one tag
    for a in 0..=60 {
        for n in [0, 1, 2, 7, 40] {
            let mut ops: Vec<Op> = (0..a).map(Op::Attr).collect();
            ops.extend((0..n).map(Op::Ns));
            ops.extend([Op::Start, Op::New(0)]);
            ops.extend((0..a).rev().map(Op::Attr));
            ops.push(Op::Start);
            items.push(ops);
        }
    }
    // deep nesting and many siblings
    for d in 1..=40usize {
        let mut ops = vec![Op::Start];
        for i in 0..d {
            ops.extend([Op::New(0), Op::Attr(i), Op::Ns(i % 40), Op::Start]);
        }
        items.push(ops.clone());
        let mut ops = vec![Op::Ns(0), Op::Start];
        for i in 0..d {
            ops.extend([Op::New(i % 2), Op::Attr(i), Op::Ns(1 + i % 39), Op::Start, Op::End, Op::Leave]);
        }
        items.push(ops.clone());
        let mut ops = vec![Op::Start];
        for i in 0..d {
            ops.extend([Op::Attr(i), Op::Ns(i % 40), Op::Start]);
        }
        items.push(ops);
    }
    lanes(&items, |_, ops| {
        let mut m = M::new();
        for x in ops {
            // (a declaration or attribute of the same name twice is left out)
            if !m.enabled(*x) {
                return;
            }
            m.step(*x);
        }
        o.add("states", 1);
        o.add("traces", 1);
        o.add("transitions", ops.len() as u64);
        if let Err(e) = guarded(|| execute(ops, &m)).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
            o.finding("writer", format!("{ops:?}"), e);
        }
    });
    o.sample(format!("{:?}", items[items.len() / 3]));
}

/// Takes `room` bytes, then refuses everything (or, if `once`, only one call) and notes that it did.
struct Sink<'s> {
    room: usize,
    once: bool,
    refused: &'s Cell<bool>,
    got: &'s Cell<usize>,
}
impl std::io::Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.room == 0 && !(self.once && self.refused.get()) {
            self.refused.set(true);
            return Err(std::io::Error::other("no room"));
        }
        let n = if self.room == 0 { b.len() } else { b.len().min(self.room) };
        self.room -= n.min(self.room);
        self.got.set(self.got.get() + n);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// All histories of a sink that fails at every byte of what the operations write: the operations report it
/// at once (`real` stops at the first error, so it is the last operation that was attempted).
fn faults(o: &Out, thorough: bool) {
    let alphabet = [Op::Attr(1), Op::Ns(0), Op::Start, Op::End, Op::New(0), Op::Wrap, Op::Leave];
    let items: Vec<Vec<Op>> = tuples(alphabet.len(), if thorough { 7 } else { 6 })
        .into_iter()
        .map(|t| t.iter().map(|i| alphabet[*i]).collect::<Vec<_>>())
        .filter(|ops| {
            let mut m = M::new();
            matches!(ops.last(), Some(Op::Start | Op::End))
                && ops.iter().all(|x| {
                    let e = m.enabled(*x);
                    if e {
                        m.step(*x);
                    }
                    e
                })
        })
        .collect();
    lanes(&items, |_, ops| {
        for once in [false, true] {
            let mut room = 0;
            loop {
                let (refused, got) = (Cell::new(false), Cell::new(0));
                let mut w = EmitterConfig::new().create_writer(Sink { room, once, refused: &refused, got: &got });
                let mut ctx = Context::new("root");
                let r = guarded(|| real(&mut ctx, ops, &mut w).map(|_| ())).unwrap_or_else(|p| Err(format!("panic: {p}")));
                o.add("states", 1);
                o.add("traces", 1);
                o.add("transitions", ops.len() as u64);
                o.add("write_faults", refused.get() as u64);
                match (refused.get(), &r) {
                    (true, Ok(())) => {
                        o.finding("sink", format!("{ops:?} once={once} room={room}"), "the writer failed, no operation reported it".to_string());
                        return;
                    }
                    (_, Err(e)) if e.starts_with("panic") => {
                        o.finding("sink", format!("{ops:?} once={once} room={room}"), e.clone());
                        return;
                    }
                    (true, Err(_)) if got.get() != room => {
                        o.finding("sink", format!("{ops:?} once={once} room={room}"), "written on after the writer failed".to_string());
                        return;
                    }
                    (false, Err(e)) => {
                        o.finding("sink", format!("{ops:?} once={once} room={room}"), format!("the writer did not fail: {e}"));
                        return;
                    }
                    (false, Ok(())) => break,
                    _ => room += 1,
                }
            }
        }
    });
}

pub fn run(o: &Out, thorough: bool) {
    faults(o, thorough);
    let depth = if thorough { 8 } else { 6 };
    let firsts: Vec<(Op, Op)> = OPS.iter().flat_map(|a| OPS.iter().map(move |b| (*a, *b))).collect();
    lanes(&firsts, |_, (a, b)| {
        let mut m = M::new();
        let mut ops = vec![];
        for x in [a, b] {
            if !m.enabled(*x) {
                return;
            }
            m.step(*x);
            ops.push(*x);
        }
        let mut c = Count { states: 0, runs: 0 };
        explore(o, &mut ops, &mut m, depth - 2, &mut c);
        o.add("states", c.states);
        o.add("transitions", c.runs * depth as u64);
        o.add("traces", c.runs);
    });
    many(o, thorough);
    // text between tags: all sequences over a smaller alphabet
    let small = [Op::Start, Op::End, Op::Text, Op::Attr(0), Op::Wrap, Op::Leave];
    let mut n = 0;
    for t in tuples(small.len(), if thorough { 8 } else { 6 }) {
        let ops: Vec<Op> = t.iter().map(|i| small[*i]).collect();
        let mut m = M::new();
        let mut ok = true;
        for x in &ops {
            if !m.enabled(*x) {
                ok = false;
                break;
            }
            m.step(*x);
        }
        if !ok {
            continue;
        }
        n += 1;
        if let Err(e) = guarded(|| execute(&ops, &m)).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
            o.finding("writer", format!("{ops:?}"), e);
            break;
        }
        if n == 40 {
            o.sample(format!("{ops:?}"));
        }
    }
    o.add("states", n);
    o.add("transitions", n * small.len() as u64);
    o.add("traces", n);
}
