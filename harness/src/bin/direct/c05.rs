//! Child lookups: all child lists up to a length, all operation sequences up to a depth, on the real
//! decoder, against an ordered list.

use crate::util::*;
use std::fmt::Write;
use xsd::decode::{decode, FromXmlError, Node};

const KEYS: [(&str, Option<&str>); 4] = [("a", None), ("a", Some("urn:u")), ("b", None), ("b", Some("urn:u"))];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Peek,
    Next,
    TryNext,
    Child,
    TryChild,
}
const OPS: [Op; 5] = [Op::Peek, Op::Next, Op::TryNext, Op::Child, Op::TryChild];

/// Child `i` carries its index as text and attribute; `noise` puts other nodes between the children.
fn document(kids: &[usize], noise: usize, style: usize) -> String {
    let mut x = String::from(if style == 0 { "<r xmlns:p='urn:u'>" } else { "<r xmlns='urn:u'>" });
    let gap = ["", "\n  text", "<!-- a --><?b c?>"][noise];
    for (i, k) in kids.iter().enumerate() {
        let (n, ns) = KEYS[*k];
        x.push_str(gap);
        match (style, ns) {
            (0, None) => write!(x, "<{n} i='{i}'>{i}</{n}>").unwrap(),
            (0, Some(_)) => write!(x, "<p:{n} i='{i}'>{i}</p:{n}>").unwrap(),
            (_, None) => write!(x, "<{n} xmlns='' i='{i}'>{i}</{n}>").unwrap(),
            (_, Some(_)) => write!(x, "<{n} i='{i}'>{i}</{n}>").unwrap(),
        }
    }
    x.push_str(gap);
    x.push_str("</r>");
    x
}

fn id(n: &Node<'_>) -> Option<usize> {
    let a: usize = n.attribute("i")?.parse().ok()?;
    (n.text().ok()?.parse() == Ok(a)).then_some(a)
}

/// One step on the real node: the id of the child handed out, or whether the peek matched.
fn step(node: &Node<'_>, op: Op, key: usize) -> Result<Option<usize>, String> {
    let (n, ns) = KEYS[key];
    let got = |r: Option<Node<'_>>| r.map(|c| id(&c).ok_or_else(|| "handed out something that is not one of the children".to_string())).transpose();
    match op {
        Op::Peek => Ok(node.peek_child(n, ns).then_some(usize::MAX)),
        Op::Next => got(node.next_child(n, ns)),
        Op::Child => got(node.child(n, ns)),
        Op::TryNext | Op::TryChild => match if op == Op::TryNext { node.try_next_child(n, ns) } else { node.try_child(n, ns) } {
            Ok(c) => got(Some(c)),
            Err(FromXmlError::MissingElement { name, namespace }) if name == n && namespace.as_deref() == ns => Ok(None),
            Err(e) => Err(format!("unfitting error {e:?}")),
        },
    }
}

fn model(rem: &mut Vec<(usize, usize)>, op: Op, key: usize) -> Option<usize> {
    let first = rem.first().is_some_and(|c| c.0 == key);
    match op {
        Op::Peek => first.then_some(usize::MAX),
        Op::Next | Op::TryNext => first.then(|| rem.remove(0).1),
        Op::Child | Op::TryChild => rem.iter().position(|c| c.0 == key).map(|i| rem.remove(i).1),
    }
}

fn explore(o: &Out, kids: &[usize], noise: usize, style: usize, depth: usize) {
    let xml = document(kids, noise, style);
    let n = OPS.len() * KEYS.len();
    let doc = decode(&xml).expect("well-formed");
    let root_ns = if style == 0 { None } else { Some("urn:u") };
    let (mut states, mut trans) = (0u64, 0u64);
    for seq in tuples(n, depth) {
        states += 1;
        let ops: Vec<(Op, usize)> = seq.iter().map(|x| (OPS[x / KEYS.len()], x % KEYS.len())).collect();
        let r = guarded(|| {
            let node = doc.try_child("r", root_ns).map_err(|e| format!("root: {e}"))?;
            let mut rem: Vec<(usize, usize)> = kids.iter().copied().enumerate().map(|(i, k)| (k, i)).collect();
            let mut t = 0;
            for (j, (op, key)) in ops.iter().enumerate() {
                t += 1;
                let want = model(&mut rem, *op, *key);
                let got = step(&node, *op, *key)?;
                if want != got {
                    return Err(format!("operation {} ({op:?} {:?}): expected {want:?}, got {got:?}", j + 1, KEYS[*key]));
                }
            }
            // what is left has to come out in document order
            for (k, i) in &rem {
                t += 1;
                let got = step(&node, Op::Next, *k)?;
                if got != Some(*i) {
                    return Err(format!("afterwards the remaining children are {rem:?}, but the in-order lookup of number {i} gave {got:?}"));
                }
            }
            for (n, ns) in KEYS {
                t += 1;
                if node.peek_child(n, ns) || node.next_child(n, ns).is_some() || node.child(n, ns).is_some() {
                    return Err("a child is handed out although none is left".to_string());
                }
            }
            Ok(t)
        });
        match r {
            Ok(Ok(t)) => trans += t,
            Ok(Err(m)) => return o.finding("cursor", format!("{xml} {ops:?}"), m),
            Err(p) => return o.finding("panic", format!("{xml} {ops:?}"), format!("panic: {p}")),
        }
    }
    o.add("states", states);
    o.add("traces", states);
    o.add("transitions", trans);
    o.add("documents", 1);
    if kids.len() == 2 {
        o.sample(format!("{xml}: all {states} operation sequences of length {depth}"));
    }
}

pub fn run(o: &Out, thorough: bool) {
    let mut items = vec![];
    let depths: &[usize] = if thorough { &[5, 5, 5, 4, 4] } else { &[4, 4, 4, 3, 3] };
    for (len, depth) in depths.iter().enumerate() {
        for kids in tuples(KEYS.len(), len) {
            // longer lists need fewer operations per list to reach every cursor state
            items.push((kids.clone(), 0, 0, *depth));
            if len <= 3 {
                for (noise, style) in [(1, 0), (2, 0), (0, 1)] {
                    items.push((kids.clone(), noise, style, (*depth).min(3)));
                }
            }
        }
    }
    lanes(&items, |_, (kids, noise, style, depth)| explore(o, kids, *noise, *style, *depth));
    long(o, thorough);
    // a child is a node of its own: its cursor does not disturb the parent's, at any depth
    let xml = "<r><a><a><b/></a><b/></a><b><a/></b></r>";
    let names = ["a", "b"];
    let mut n = 0;
    for seq in tuples(6, if thorough { 7 } else { 5 }) {
        n += 1;
        // operations: 0/1 next a/b, 2/3 any-order a/b, 4 descend into the last child, 5 return to the parent
        let doc = decode(xml).unwrap();
        let root = doc.child("r", None).unwrap();
        if let Err(m) = guarded(|| nested(&root, &tree(), &seq, &names)).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
            o.finding("nested", format!("{xml} {seq:?}"), m);
            return;
        }
    }
    o.add("states", n);
    o.add("transitions", n * if thorough { 7 } else { 5 });
    o.add("traces", n);
}

/// Long child lists: every short history of any-order lookups, in-order lookups and peeks, then all
/// the rest in order. `name` gives the name of each child.
fn long(o: &Out, thorough: bool) {
    // (children, different names, operations)
    let mut items = vec![];
    for n in 5..=9 {
        items.push((n, n, if n <= 6 || thorough { 5 } else { 4 }));
        items.push((n, 2, 5));
        items.push((n, 3, 5));
    }
    for n in [12, 17, 33] {
        items.push((n, n, if thorough { 4 } else { 3 }));
        items.push((n, 4, if thorough { 5 } else { 4 }));
    }
    for n in [65, 130, 260] {
        items.push((n, n, 2));
        items.push((n, 3, 4));
    }
    lanes(&items, |k, (n, names, depth)| {
        o.progress(k, &format!("{n} children of {names} names, {depth} operations"));
        // the other names in a scattered order
        let name = |i: usize| if n == names { (i * 7 + 3) % n } else { (i * i + i / 3) % names };
        let kids: Vec<usize> = (0..*n).map(name).collect();
        let text: Vec<String> = (0..*names).map(|k| format!("k{k}")).collect();
        let mut xml = String::from("<r>");
        for (i, k) in kids.iter().enumerate() {
            write!(xml, "<k{k} i='{i}'>{i}</k{k}>").unwrap();
        }
        xml.push_str("</r>");
        let doc = decode(&xml).expect("well-formed");
        // operations: any-order lookup of a name, then in-order lookup and peek of what comes first
        // (a miss: of what comes last)
        let all = names + 4;
        let (mut states, mut trans) = (0u64, 0u64);
        for seq in tuples(all, *depth) {
            states += 1;
            let r = guarded(|| -> Result<u64, String> {
                let node = doc.child("r", None).ok_or("no root")?;
                let mut rem: Vec<(usize, usize)> = kids.iter().copied().enumerate().map(|(i, k)| (k, i)).collect();
                let mut t = 0;
                for op in &seq {
                    t += 1;
                    let first = rem.first().map_or(0, |c| c.0);
                    let last = rem.last().map_or(0, |c| c.0);
                    let (want, got) = match op.checked_sub(*names) {
                        None => (rem.iter().position(|c| c.0 == *op).map(|i| rem.remove(i).1), node.child(&text[*op], None).map(|c| id(&c).unwrap_or(usize::MAX))),
                        Some(0) => ((!rem.is_empty()).then(|| rem.remove(0).1), node.next_child(&text[first], None).map(|c| id(&c).unwrap_or(usize::MAX))),
                        Some(1) => ((first == last && !rem.is_empty()).then(|| rem.remove(0).1), node.next_child(&text[last], None).map(|c| id(&c).unwrap_or(usize::MAX))),
                        Some(2) => ((!rem.is_empty()).then_some(0), node.peek_child(&text[first], None).then_some(0)),
                        _ => ((first == last && !rem.is_empty()).then_some(0), node.peek_child(&text[last], None).then_some(0)),
                    };
                    if want != got {
                        return Err(format!("expected {want:?}, got {got:?}"));
                    }
                }
                for (k, i) in &rem {
                    t += 1;
                    let got = node.next_child(&text[*k], None).map(|c| id(&c).unwrap_or(usize::MAX));
                    if got != Some(*i) {
                        return Err(format!("afterwards number {i} should come next, got {got:?}"));
                    }
                }
                if text.iter().any(|k| node.peek_child(k, None) || node.next_child(k, None).is_some() || node.child(k, None).is_some()) {
                    return Err("a child is handed out although none is left".into());
                }
                Ok(t)
            })
            .unwrap_or_else(|p| Err(format!("panic: {p}")));
            match r {
                Ok(t) => trans += t,
                Err(m) => return o.finding("cursor", format!("{xml} operations {seq:?} (0..{names}: any-order lookup of that name, then in-order first, in-order last, peek first, peek last)"), m),
            }
        }
        // all of them by any-order lookups: forwards, backwards, from the middle outwards
        let mut orders: Vec<Vec<usize>> = vec![(0..*n).collect(), (0..*n).rev().collect()];
        orders.push((0..*n).map(|i| if i % 2 == 0 { n / 2 + i / 2 } else { (n - 1) / 2 - i / 2 }).filter(|i| i < n).collect());
        for order in orders {
            states += 1;
            let node = doc.child("r", None).unwrap();
            let mut rem: Vec<(usize, usize)> = kids.iter().copied().enumerate().map(|(i, k)| (k, i)).collect();
            for i in order {
                trans += 1;
                let k = kids[i];
                let want = rem.iter().position(|c| c.0 == k).map(|i| rem.remove(i).1);
                let got = node.child(&text[k], None).map(|c| id(&c).unwrap_or(usize::MAX));
                if want != got {
                    return o.finding("cursor", xml.clone(), format!("taking all children by any-order lookups: expected {want:?}, got {got:?}"));
                }
            }
        }
        o.add("documents", 1);
        o.add("states", states);
        o.add("traces", states);
        o.add("transitions", trans);
    });
}

#[derive(Clone)]
struct T(usize, Vec<T>);
fn tree() -> T {
    T(9, vec![T(0, vec![T(0, vec![T(1, vec![])]), T(1, vec![])]), T(1, vec![T(0, vec![])])])
}

fn nested(node: &Node<'_>, t: &T, ops: &[usize], names: &[&str]) -> Result<(), String> {
    fn go<'x>(node: &Node<'_>, rem: &mut Vec<T>, mut ops: &'x [usize], names: &[&str]) -> Result<&'x [usize], String> {
        let mut last: Option<(Node<'_>, T)> = None;
        while let Some((op, rest)) = ops.split_first() {
            ops = rest;
            match op {
                0..=3 => {
                    let k = op % 2;
                    let want = if *op < 2 {
                        rem.first().is_some_and(|c| c.0 == k).then(|| rem.remove(0))
                    } else {
                        rem.iter().position(|c| c.0 == k).map(|i| rem.remove(i))
                    };
                    let got = if *op < 2 { node.next_child(names[k], None) } else { node.child(names[k], None) };
                    if want.is_some() != got.is_some() {
                        return Err(format!("lookup {op}: expected a child: {}, got one: {}", want.is_some(), got.is_some()));
                    }
                    if let (Some(w), Some(g)) = (want, got) {
                        last = Some((g, w));
                    }
                }
                4 => {
                    if let Some((n, t)) = last.take() {
                        let mut kids = t.1.clone();
                        ops = go(&n, &mut kids, ops, names)?;
                    }
                }
                _ => return Ok(ops),
            }
        }
        for c in rem.drain(..) {
            if node.next_child(names[c.0], None).is_none() {
                return Err("a remaining child is not handed out".into());
            }
        }
        Ok(ops)
    }
    let mut ops = ops;
    let mut rem = t.1.clone();
    loop {
        let left = go(node, &mut rem, ops, names)?;
        if left.is_empty() {
            return Ok(());
        }
        ops = left;
    }
}
