//! Families that scale one dimension far beyond the bounds of the other families while everything
//! else stays minimal: numbers of occurrences, members, alternatives, attributes, values, files and
//! namespaces, depths, lengths. Every value of the dimension up to the bound is taken.

use crate::corpus::*;
use crate::model::*;

/// Lower-case names without a common beginning.
fn nm(i: usize) -> String {
    let c = |n: usize| (b'a' + n as u8) as char;
    format!("{}{}x", c(i % 26), c((i / 26 + i * 7) % 26))
}

fn attr_str(n: &str, u: Use) -> Attr {
    at(n, Ty::Lit(Lit::String), u)
}

fn counts(tier: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (4..=if tier == Tier::Quick { 34 } else { 70 }).collect();
    v.extend([63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1024]);
    v.sort();
    v.dedup();
    v
}

fn small(valid: usize, mutate: usize) -> DocOpt {
    DocOpt { valid_cap: valid, mutate_dev: 0, mutate_cap: mutate, ..DocOpt::default() }
}

/// C13
pub fn occurrences(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let f = "scaleocc";
    for o in [STAR, PLUS, Occ::n(0, 5000), Occ::n(2, 5000)] {
        for host in 0..12 {
            let mut b = B::new(None);
            let root = match host {
                0 => seq(vec![els("item", o), els("after", OPT)]),
                1 => seq(vec![el("item", Ty::Lit(Lit::Int), o), els("after", ONE)]),
                2 => {
                    let t = b.complex(seq(vec![els("inA", ONE), els("inB", OPT)]));
                    seq(vec![el("item", t, o), els("after", OPT)])
                }
                3 => seq(vec![el("item", cty(cx(Content::Empty, vec![attr_str("tag", Use::Required)])), o)]),
                4 => seq(vec![gi(Kind::Choice, o, vec![els("left", ONE), els("right", ONE)]), els("after", OPT)]),
                5 => cx(Content::Group(group(Kind::Choice, ONE, vec![els("other", ONE), els("item", o)])), vec![]),
                6 => cx(Content::Group(group(Kind::Seq, o, vec![els("left", ONE), els("right", OPT)])), vec![]),
                7 => cx(Content::Group(group(Kind::Choice, ONE, vec![els("other", ONE), gi(Kind::Seq, o, vec![els("left", ONE), els("right", OPT)])])), vec![]),
                8 => {
                    let t = b.simple(en(&["ON", "OFF"]));
                    seq(vec![els("before", OPT), el("item", t, o)])
                }
                9 => {
                    let r = b.global(Ty::Lit(Lit::String), None);
                    seq(vec![eref(r, o), els("after", OPT)])
                }
                10 => {
                    let base = b.complex_ref(seq(vec![els("item", o)]));
                    cx(Content::ComplexExt { base, seq: Some(group(Kind::Seq, ONE, vec![els("own", o)])) }, vec![])
                }
                _ => seq(vec![gi(Kind::Seq, OPT, vec![els("item", o), els("within", ONE)]), els("after", OPT)]),
            };
            let mut s = b.done(f, format!("many occurrences {o:?} host {host}"), cty(root), NO_NS);
            s.opt = small(90, 0);
            s.opt.counts = counts(tier);
            v.push(s);
        }
    }
    // bounds themselves
    for n in [5u32, 6, 7, 8, 9, 10, 15, 16, 17, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 9999, 10000, 65535, 65536, 99999, 2147483647, 2147483648, 4294967295] {
        for (i, o) in [Occ { min: 0, max: Some(n) }, Occ { min: 1, max: Some(n) }, Occ { min: 2, max: Some(n) }].into_iter().enumerate() {
            let root = match i {
                0 => seq(vec![els("item", o), els("after", OPT)]),
                1 => cx(Content::Group(group(Kind::Seq, o, vec![els("left", ONE), els("right", OPT)])), vec![]),
                _ => seq(vec![gi(Kind::Choice, o, vec![els("left", ONE), els("right", ONE)]), els("after", OPT)]),
            };
            let mut s = suite(f, format!("bound {o:?}"), vec![del("root", cty(root))]);
            s.opt = small(40, 0);
            s.opt.counts = (4..=12).filter(|c| *c <= n as usize).collect();
            v.push(s);
        }
        if n <= 1024 {
            let o = Occ { min: n, max: None };
            let mut s = suite(f, format!("bound {o:?}"), vec![del("root", cty(seq(vec![els("item", o), els("after", OPT)])))]);
            s.opt = small(10, 0);
            v.push(s);
        }
    }
    // many members
    for n in 5..=if tier == Tier::Quick { 26 } else { 60 } {
        for kind in 0..3 {
            let items = (0..n)
                .map(|i| match (kind + i) % 3 {
                    0 => els(&nm(i), ONE),
                    1 => els(&nm(i), OPT),
                    _ => el(&nm(i), Ty::Lit(Lit::Int), STAR),
                })
                .collect();
            let mut s = suite(f, format!("{n} members, kind {kind}"), vec![del("root", cty(seq(items)))]);
            s.opt = small(10, 60);
            v.push(s);
        }
    }
    // nesting of groups
    for depth in 4..=if tier == Tier::Quick { 12 } else { 24 } {
        for kind in 0..4 {
            let mut items = vec![els("core", ONE), els("rest", OPT)];
            for d in 0..depth {
                let k = if kind == 2 || kind == 3 && d % 2 == 0 { Kind::Choice } else { Kind::Seq };
                if k == Kind::Choice && items.len() > 1 {
                    items = vec![gi(Kind::Seq, ONE, items)];
                }
                let o = match kind {
                    0 => ONE,
                    1 => OPT,
                    _ if k == Kind::Choice && d % 3 == 1 => OPT,
                    _ => ONE,
                };
                let g = gi(k, o, items);
                items = if kind == 2 && k == Kind::Choice {
                    // a choice cannot stand in a choice directly
                    vec![g, els(&nm(d), OPT)]
                } else {
                    vec![g, els(&nm(d), if d % 2 == 0 { OPT } else { ONE })]
                };
            }
            let mut s = suite(f, format!("groups nested {depth} deep, kind {kind}"), vec![del("root", cty(seq(items)))]);
            s.opt = small(60, 60);
            if crate::refdec::Env::new(&s).ambiguous() {
                continue;
            }
            v.push(s);
        }
    }
    // nesting of elements: anonymous types, and a type that contains itself
    for depth in 4..=if tier == Tier::Quick { 12 } else { 24 } {
        let mut t = cty(cx(Content::Group(group(Kind::Seq, ONE, vec![els("core", ONE)])), vec![attr_str("tag", Use::Optional)]));
        for d in 0..depth {
            t = cty(seq(vec![el(&nm(d), t, if d % 2 == 0 { STAR } else { OPT })]));
        }
        let mut s = suite(f, format!("elements nested {depth} deep"), vec![del("root", t)]);
        s.opt = small(40, 60);
        let open: String = (0..depth).rev().map(|d| format!("<{}>", nm(d))).collect();
        let close: String = (0..depth).map(|d| format!("</{}>", nm(d))).collect();
        for core in ["<core>c</core>", "", "<core/>"] {
            for tag in ["", " tag='t'"] {
                let o = format!("{}{tag}>", open.trim_end_matches('>'));
                s.opt.extra.push(Extra { xml: format!("<root>{o}{core}{close}</root>"), expect: ExtraExpect::Model });
            }
        }
        v.push(s);
    }
    for kind in 0..3 {
        let mut b = B::new(None);
        let me = Ty::Ref(b.r("Tree"));
        let c = match kind {
            0 => seq(vec![els("name", ONE), el("kid", me.clone(), STAR)]),
            1 => cx(Content::Group(group(Kind::Seq, ONE, vec![gi(Kind::Choice, STAR, vec![els("name", ONE), el("kid", me.clone(), ONE)])])), vec![attr_str("tag", Use::Optional)]),
            _ => cx(Content::Group(group(Kind::Seq, STAR, vec![els("name", ONE), el("kid", me.clone(), STAR)])), vec![]),
        };
        b.decls.push(dcx("Tree", c));
        let mut s = b.done(f, format!("a type within itself, kind {kind}"), me, NO_NS);
        s.opt = small(40, 60);
        for depth in 0..=if tier == Tier::Quick { 40 } else { 120 } {
            let mut d = "<name>leaf</name>".to_string();
            for i in 0..depth {
                d = format!("<name>n{i}</name><kid>{d}</kid>");
                if i % 5 == 4 {
                    d += "<kid><name>side</name></kid>";
                }
            }
            s.opt.extra.push(Extra { xml: format!("<root>{d}</root>"), expect: ExtraExpect::Model });
        }
        v.push(s);
    }
    v
}

/// C14
pub fn alternatives(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let f = "scalechoice";
    for n in 3..=if tier == Tier::Quick { 26 } else { 60 } {
        for host in 0..4 {
            let alts: Vec<Item> = (0..n)
                .map(|i| match (i + host) % 5 {
                    0 => els(&nm(i), ONE),
                    1 => el(&nm(i), Ty::Lit(Lit::Int), ONE),
                    2 if host != 3 => els(&nm(i), PLUS),
                    3 => gi(Kind::Seq, ONE, vec![els(&format!("{}a", nm(i)), OPT), els(&format!("{}b", nm(i)), ONE)]),
                    _ => el(&nm(i), cty(seq(vec![els("deep", ONE)])), ONE),
                })
                .collect();
            let root = match host {
                0 => cx(Content::Group(group(Kind::Choice, ONE, alts)), vec![]),
                1 => seq(vec![els("first", OPT), gi(Kind::Choice, ONE, alts), els("final", OPT)]),
                2 => seq(vec![gi(Kind::Choice, OPT, alts), els("final", ONE)]),
                _ => seq(vec![gi(Kind::Choice, STAR, alts), els("final", OPT)]),
            };
            let mut s = suite(f, format!("{n} alternatives host {host}"), vec![del("root", cty(root))]);
            s.opt = small(20, 40);
            v.push(s);
        }
    }
    // several choices after each other
    for n in 2..=if tier == Tier::Quick { 10 } else { 20 } {
        for kind in 0..3 {
            let items = (0..n)
                .map(|i| {
                    let o = [ONE, OPT, STAR][(kind + i) % 3];
                    gi(Kind::Choice, o, vec![els(&format!("{}l", nm(i)), ONE), els(&format!("{}r", nm(i)), ONE)])
                })
                .collect();
            let mut s = suite(f, format!("{n} choices kind {kind}"), vec![del("root", cty(seq(items)))]);
            s.opt = small(100, 60);
            v.push(s);
        }
    }
    v
}

/// C12
pub fn all_members(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    for n in 5..=if tier == Tier::Quick { 14 } else { 26 } {
        for kind in 0..4 {
            for occ in [ONE, OPT] {
                let items = (0..n)
                    .map(|i| {
                        let o = match kind {
                            0 => ONE,
                            1 => OPT,
                            2 => [ONE, OPT][i % 2],
                            _ => [OPT, ONE][i % 2],
                        };
                        if i % 3 == 2 { el(&nm(i), cty(seq(vec![els("deep", ONE)])), o) } else { els(&nm(i), o) }
                    })
                    .collect();
                let mut s = suite("scaleall", format!("{n} members kind {kind} {occ:?}"), vec![del("root", cty(cx(Content::Group(group(Kind::All, occ, items)), vec![])))]);
                s.opt = small(40, 60);
                s.opt.permute = true;
                v.push(s);
            }
        }
    }
    v
}

/// C15
pub fn extension_chains(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    for n in 4..=if tier == Tier::Quick { 9 } else { 16 } {
        for kind in 0..5 {
            let cfg = [NO_NS, TNS_Q, TNS_U][(n + kind) % 3];
            let mut b = B::new(cfg.tns);
            let simple = kind == 4;
            let mut c = if simple { cx(Content::SimpleExt(Ty::Lit(Lit::Int)), vec![]) } else { seq(vec![els("core", OPT)]) };
            for i in 0..n {
                let r = b.complex_ref(c);
                let attrs = if kind == 1 && i % 2 == 0 { vec![] } else { vec![attr_str(&format!("{}at", nm(i)), if i % 2 == 0 { Use::Optional } else { Use::Required })] };
                let own = match kind {
                    0 => Some(group(Kind::Seq, ONE, vec![els(&nm(i), if i % 2 == 0 { ONE } else { OPT })])),
                    1 => Some(group(Kind::Seq, if i % 2 == 0 { OPT } else { ONE }, vec![els(&nm(i), ONE)])),
                    2 => None,
                    _ => (i % 2 == 0).then(|| group(Kind::Seq, ONE, vec![els(&nm(i), STAR)])),
                };
                c = if simple { cx(Content::SimpleExt(Ty::Ref(r)), attrs) } else { cx(Content::ComplexExt { base: r, seq: own }, attrs) };
            }
            let t = b.complex(c);
            let root = if n % 2 == 0 { t } else { cty(seq(vec![els("before", OPT), el("kid", t, STAR)])) };
            let mut s = b.done("scaleext", format!("chain of {n} kind {kind} {cfg:?}"), root, cfg);
            s.opt = small(60, 120);
            v.push(s);
        }
    }
    v
}

/// C16
pub fn attributes(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    for n in 3..=if tier == Tier::Quick { 26 } else { 60 } {
        for kind in 0..3 {
            let attrs: Vec<Attr> = (0..n)
                .map(|i| {
                    let lit = [Lit::String, Lit::Int, Lit::Boolean, Lit::Decimal][i % 4];
                    let mut a = at(&nm(i), Ty::Lit(lit), [Use::Optional, Use::Required, Use::Absent, Use::Prohibited][(kind + i) % if kind == 2 { 4 } else { 3 }]);
                    if i % 7 == 6 && a.use_ != Use::Prohibited {
                        a.ty = Ty::Lit(Lit::String);
                        a.fixed = Some("fix".into());
                    } else if i % 5 == 4 && a.use_ != Use::Required && a.use_ != Use::Prohibited {
                        a.default = Some(if lit == Lit::Boolean { "true".into() } else { "5".into() });
                    }
                    a
                })
                .collect();
            let c = match kind {
                0 => cx(Content::Empty, attrs),
                1 => cx(Content::Group(group(Kind::Seq, ONE, vec![els("kid", OPT)])), attrs),
                _ => cx(Content::SimpleExt(Ty::Lit(Lit::Int)), attrs),
            };
            let mut s = suite("scaleattr", format!("{n} attributes kind {kind}"), vec![del("root", cty(c))]);
            s.opt = small(60, 150);
            v.push(s);
        }
    }
    v
}

/// C09
pub fn enum_values_many(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let top = if tier == Tier::Quick { 40 } else { 100 };
    for n in 3..=top {
        for kind in 0..8 {
            let vals: Vec<String> = (0..n)
                .map(|i| match kind {
                    0 => nm(i),
                    1 => "-".repeat(i + 1),
                    2 => format!("{}", i),
                    3 => format!("a{}b", "-".repeat(i)),
                    4 => format!("Variant{}", n - i),
                    5 => if i % 2 == 0 { "+".repeat(i / 2 + 1) } else { format!("Variant{}", i / 2 + 1) },
                    6 => ["foo", "FOO", "Foo", "fOO"][i % 4].to_string() + &".".repeat(i / 4),
                    _ => format!("{} {}", i / 6, i % 6),
                })
                .collect();
            let l: Vec<&str> = vals.iter().map(|s| s.as_str()).collect();
            if kind > 0 && n > 24 && n % 5 != 0 {
                continue;
            }
            let mut b = B::new(None);
            let t = b.simple(en(&l));
            let root = cty(cx(Content::Group(group(Kind::Seq, ONE, vec![el("kid", t.clone(), OPT)])), vec![at("tag", t, Use::Optional)]));
            let mut s = b.done("scaleenum", format!("{n} values kind {kind}"), root, NO_NS);
            s.opt = small(10, 30);
            v.push(s);
        }
    }
    // long values
    for n in [1, 10, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000] {
        let a = "x".repeat(n);
        let l = [a.clone(), format!("{a}y"), format!("{a}-"), format!("{a} {a}")];
        let mut b = B::new(None);
        let t = b.simple(en(&l.iter().map(|s| s.as_str()).collect::<Vec<_>>()));
        let root = cty(seq(vec![el("kid", t, STAR)]));
        let mut s = b.done("scaleenum", format!("values of length {n}"), root, NO_NS);
        s.opt = small(10, 30);
        v.push(s);
    }
    v
}

/// C10
pub fn long_names(_tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    for n in [1usize, 2, 3, 10, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200] {
        for word in 0..3 {
            // one word, words in camel case, words joined by hyphens
            let name = |first: &str| -> String {
                match word {
                    0 => format!("{first}{}", "n".repeat(n)),
                    1 => format!("{first}{}", "Word".repeat(n.div_ceil(4))),
                    _ => format!("{first}{}", "-word".repeat(n.div_ceil(5))),
                }
            };
            let mut b = B::new(None);
            let tn = name("type");
            b.decls.push(dcx(&tn, seq(vec![els(&name("inner"), ONE)])));
            let t = Ty::Ref(b.r(&tn));
            let gn = name("global");
            b.decls.push(del(&gn, Ty::Lit(Lit::Int)));
            let gr = b.r(&gn);
            let root = cty(cx(
                Content::Group(group(
                    Kind::Seq,
                    ONE,
                    vec![
                        el(&name("field"), t, STAR),
                        gi(Kind::Choice, OPT, vec![els(&name("left"), ONE), el(&name("right"), cty(seq(vec![els("deep", ONE)])), ONE)]),
                        eref(gr, OPT),
                    ],
                )),
                vec![attr_str(&name("attr"), Use::Optional), at(&name("enum"), Ty::Simple(en(&["A", "B"])), Use::Optional)],
            ));
            let mut s = b.done("scaleident", format!("names of length {n} kind {word}"), root, NO_NS);
            s.opt = small(40, 60);
            v.push(s);
        }
    }
    v
}

/// C11
pub fn magnitudes(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let mut ints: Vec<String> = vec![];
    for k in 0..=66u32 {
        let p = 1i128 << k;
        for x in [p - 1, p, p + 1] {
            ints.push(x.to_string());
            ints.push((-x).to_string());
        }
    }
    for k in 0..=21 {
        ints.push(format!("{}7", "0".repeat(k)));
        ints.push(format!("+{}", "9".repeat(k + 1)));
        ints.push(format!("-{}", "9".repeat(k + 1)));
    }
    let mut decs = ints.clone();
    for int in 0..=20usize {
        for frac in 0..=20usize {
            if int + frac == 0 || int + frac > 28 || tier == Tier::Quick && (int + frac) % 3 != 0 && int > 3 && frac > 3 {
                continue;
            }
            let digits: String = (0..int + frac).map(|i| ((i * 7 + 3) % 9 + 1).to_string()).collect();
            let t = if frac == 0 { digits } else { format!("{}.{}", &digits[..int], &digits[int..]) };
            decs.push(format!("-{t}"));
            decs.push(t);
        }
    }
    for k in 0..=27 {
        decs.push(format!("0.{}1", "0".repeat(k)));
        decs.push(format!("1.{}", "0".repeat(k)));
    }
    let mut floats: Vec<String> = vec![];
    for k in -46..=39 {
        for m in ["1", "-3.5", "9.999999"] {
            floats.push(format!("{m}e{k}"));
        }
        floats.push(format!("1E{}{}", if k >= 0 { "+" } else { "" }, k));
    }
    for k in 0..32 {
        floats.push(f32::from_bits(1 << k).to_string());
        floats.push(f32::from_bits(u32::MAX >> 1 & !(1 << 30) & !(1 << k)).to_string());
        floats.push((1u64 << k).to_string());
        floats.push(format!("{}", 1.0 + f32::powi(2.0, -(k as i32))));
    }
    floats.retain(|f| f != "NaN" && f != "inf" && f != "-inf");
    for l in ALL_LITS {
        let texts = match l.repr() {
            Repr::Str => continue,
            Repr::Bool => continue,
            Repr::F32 => floats.clone(),
            Repr::Dec => decs.clone(),
            _ => ints.clone(),
        };
        for pos in 0..3 {
            let root = match pos {
                0 => cty(seq(vec![el("val", Ty::Lit(l), OPT)])),
                1 => cty(cx(Content::Empty, vec![at("val", Ty::Lit(l), Use::Required)])),
                _ => Ty::Lit(l),
            };
            let mut s = suite("scalelit", format!("magnitudes {l:?} position {pos}"), vec![del("root", root)]);
            s.opt = small(10, 10);
            s.opt.texts = texts.clone();
            v.push(s);
        }
    }
    v
}

/// C17
pub fn long_texts(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let mut lens: Vec<usize> = (1..=40).collect();
    for k in 6..=if tier == Tier::Quick { 14 } else { 18 } {
        lens.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    for pos in 0..4 {
        for pat in 0..4 {
            let texts: Vec<String> = lens
                .iter()
                .map(|n| {
                    let p: Vec<char> = ["abcdefghi ", "a<b&c>d\"", "é日😀x", "]]>--?> "][pat].chars().collect();
                    let mut t: String = (0..*n).map(|i| p[i % p.len()]).collect();
                    t.insert(0, 'x');
                    t.push('y');
                    t
                })
                .collect();
            let str_ = Ty::Lit(Lit::String);
            let root = match pos {
                0 => cty(seq(vec![el("val", str_, OPT)])),
                1 => cty(cx(Content::Empty, vec![at("val", str_, Use::Required)])),
                2 => str_,
                _ => cty(cx(Content::SimpleExt(str_), vec![])),
            };
            let mut s = suite("scaletext", format!("long texts pattern {pat} position {pos}"), vec![del("root", root)]);
            s.opt = small(10, 0);
            s.opt.texts = texts;
            v.push(s);
        }
    }
    // texts in many pieces
    let pieces = ["<!--c-->", "<?p i?>", "<![CDATA[d]]>", "&#65;", "&lt;", "t", " ", "<![CDATA[]]>", "<!---->"];
    let n = if tier == Tier::Quick { 4 } else { 5 };
    let mut words = vec![String::new()];
    let mut layer = words.clone();
    for _ in 0..n {
        layer = layer.iter().flat_map(|w| pieces.iter().map(move |p| format!("{w}{p}"))).collect();
        words.extend(layer.iter().cloned());
    }
    for k in 1..=40 {
        for p in ["a<!--c-->", "<?p i?>b", "<![CDATA[d]]>e", "<![CDATA[<]]><!--c-->", "&amp;<!--c-->", "x<![CDATA[]]><?p i?> "] {
            words.push(p.repeat(k));
        }
    }
    for pos in 0..4 {
        let str_ = Ty::Lit(Lit::String);
        let mut b = B::new(None);
        let (root, open, close) = match pos {
            0 => (cty(seq(vec![el("val", str_, ONE), els("after", OPT)])), "<root><val>", "</val></root>"),
            1 => (str_, "<root>", "</root>"),
            2 => (cty(cx(Content::SimpleExt(str_), vec![attr_str("tag", Use::Optional)])), "<root tag='g'>", "</root>"),
            _ => {
                let t = b.simple(s(Lit::String));
                (cty(seq(vec![gi(Kind::Choice, STAR, vec![el("val", t, ONE), els("other", ONE)])])), "<root><other>o</other><val>", "</val><other/></root>")
            }
        };
        let mut s = b.done("scaletext", format!("texts in pieces, position {pos}"), root, NO_NS);
        s.opt = small(10, 0);
        s.opt.extra = words.iter().map(|w| Extra { xml: format!("{open}{w}{close}"), expect: ExtraExpect::Model }).collect();
        v.push(s);
    }
    v
}

/// C18
pub fn collisions(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    for n in 2..=if tier == Tier::Quick { 14 } else { 26 } {
        for kind in 0..6 {
            let b = B::new(None);
            let root = match kind {
                // groups with one derived name
                0 => seq((0..n).map(|i| gi(Kind::Choice, OPT, vec![els(&format!("angle-{}", nm(i)), ONE), els(&format!("angle-{}y", nm(i)), ONE)])).collect()),
                1 => seq((0..n).map(|i| gi(Kind::Seq, OPT, vec![els(&format!("angle-{}", nm(i)), ONE), els(&format!("angle-{}y", nm(i)), OPT)])).collect()),
                2 => cx(
                    Content::Group(group(Kind::Choice, ONE, (0..n).map(|i| gi(Kind::Seq, ONE, vec![els(&format!("angle-{}", nm(i)), ONE), els(&format!("angle-{}y", nm(i)), OPT)])).collect())),
                    vec![],
                ),
                // the same anonymous type in many places
                3 => seq((0..n).map(|i| el(&nm(i), cty(seq(vec![el("same", cty(seq(vec![els(&format!("{}in", nm(i)), ONE)])), ONE)])), OPT)).collect()),
                // along paths that concatenate alike: a > bcd.., ab > cd.., abc > d..
                4 => {
                    let word: Vec<char> = "abcdefghijklmnopqrstuvwxyzabcdefgh".chars().take(n + 1).collect();
                    seq((1..=n)
                        .map(|i| {
                            let l: String = word[..i].iter().collect();
                            let mut r: String = word[i..].iter().collect();
                            r[..1].make_ascii_uppercase();
                            el(&l, cty(seq(vec![el(&r, cty(seq(vec![els(&format!("own{}", nm(i)), ONE)])), ONE)])), OPT)
                        })
                        .collect())
                }
                // enumerations of one name
                _ => seq((0..n).map(|i| el(&nm(i), cty(cx(Content::Empty, vec![at("mode", Ty::Simple(en(&["A", &nm(i)])), Use::Required)])), OPT)).collect()),
            };
            let mut s = b.done("scalecoll", format!("{n} collisions kind {kind}"), cty(root), NO_NS);
            s.opt = small(60, 60);
            v.push(s);
        }
    }
    v
}

/// C08
pub fn files_many(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    for n in 4..=if tier == Tier::Quick { 12 } else { 25 } {
        // shape: chain, ring, star, binary tree, everybody to everybody
        for shape in 0..5 {
            // 0: one namespace, 1: a namespace each, 2: deep directories and one namespace
            for mode in 0..3 {
                let tns = |i: usize| if mode == 1 { format!("urn:file{i}") } else { T1.to_string() };
                let path = |i: usize| if mode == 2 { format!("{}f{i}.xsd", (1..=i).map(|d| format!("d{d}/")).collect::<String>()) } else { format!("f{i}.xsd") };
                let links: Vec<(usize, usize)> = match shape {
                    0 => (0..n - 1).map(|i| (i, i + 1)).collect(),
                    1 => (0..n).map(|i| (i, (i + 1) % n)).collect(),
                    2 => (1..n).map(|i| (0, i)).collect(),
                    3 => (1..n).map(|i| ((i - 1) / 2, i)).collect(),
                    _ => (0..n).flat_map(|a| (0..n).filter(move |b| *b != a).map(move |b| (a, b))).collect(),
                };
                if shape == 4 && n > 8 {
                    continue;
                }
                let mut files = vec![];
                for i in 0..n {
                    let mut decls = vec![];
                    let nexts: Vec<usize> = links.iter().filter(|(a, b)| *a == i && *b > i).map(|l| l.1).collect();
                    let mut items = vec![els("own", OPT)];
                    for j in nexts.iter().take(3) {
                        items.push(el(&format!("to{}", nm(*j)), Ty::Ref(QRef { ns: Some(tns(*j)), local: format!("Type{}", nm(*j)) }), OPT));
                        items.push(eref(QRef { ns: Some(tns(*j)), local: format!("el{}", nm(*j)) }, OPT));
                    }
                    if i == 0 {
                        // direct use of the last file
                        if shape != 2 || n <= 4 {
                            items.push(el("last", Ty::Ref(QRef { ns: Some(tns(n - 1)), local: format!("Type{}", nm(n - 1)) }), STAR));
                        }
                        decls.push(del("root", cty(seq(items))));
                    } else {
                        decls.push(dcx(&format!("Type{}", nm(i)), seq(items)));
                        decls.push(del(&format!("el{}", nm(i)), Ty::Lit(Lit::Int)));
                    }
                    let mut f = file(decls);
                    f.path = path(i);
                    f.tns = Some(tns(i));
                    f.form = [Form::Qualified, Form::Unqualified][i % 2];
                    for (a, t) in &links {
                        if *a == i {
                            f.links.push(Link { import: mode == 1, location: relative(&path(i), &path(*t)), file: *t });
                        }
                    }
                    files.push(f);
                }
                let mut s = suite_files("scalefiles", format!("{n} files shape {shape} mode {mode}"), files);
                s.opt = small(40, 40);
                v.push(s);
            }
        }
    }
    v
}
