//! The enumerated schema families.

use crate::gen::NsStyle;
use crate::model::*;
use crate::refdec::Env;

pub const T1: &str = "urn:one";
pub const T2: &str = "urn:two";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Namespace configuration of a single-file schema.
#[derive(Clone, Copy, Debug)]
pub struct NsCfg {
    pub tns: Option<&'static str>,
    pub form: Form,
    pub style: RefStyle,
}

pub const NO_NS: NsCfg = NsCfg { tns: None, form: Form::Absent, style: RefStyle::Prefix };
pub const NO_NS_Q: NsCfg = NsCfg { tns: None, form: Form::Qualified, style: RefStyle::Prefix };
pub const TNS_Q: NsCfg = NsCfg { tns: Some(T1), form: Form::Qualified, style: RefStyle::Prefix };
pub const TNS_QD: NsCfg = NsCfg { tns: Some(T1), form: Form::Qualified, style: RefStyle::DefaultNs };
pub const TNS_QX: NsCfg = NsCfg { tns: Some(T1), form: Form::Qualified, style: RefStyle::XsdDefault };
pub const TNS_U: NsCfg = NsCfg { tns: Some(T1), form: Form::Unqualified, style: RefStyle::Prefix };
pub const TNS_A: NsCfg = NsCfg { tns: Some(T1), form: Form::Absent, style: RefStyle::DefaultNs };

pub const NS_ALL: [NsCfg; 7] = [NO_NS, TNS_Q, TNS_U, TNS_QD, TNS_QX, TNS_A, NO_NS_Q];

/// Builder of a single-file suite.
pub struct B {
    pub ns: Option<String>,
    pub decls: Vec<Decl>,
    n: usize,
}

impl B {
    pub fn new(ns: Option<&str>) -> B {
        B { ns: ns.map(String::from), decls: vec![], n: 0 }
    }
    pub fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        // letters only, so that case conversions are beyond doubt
        format!("{p}{}", "ABCDEFGHIJKLMNOPQRSTUVWXYZ".chars().nth(self.n - 1).unwrap()).replace("Data", "Dat")
    }
    pub fn r(&self, n: &str) -> QRef {
        QRef { ns: self.ns.clone(), local: n.into() }
    }
    pub fn simple(&mut self, s: Simple) -> Ty {
        let n = self.fresh("Simple");
        self.decls.push(dsi(&n, s));
        Ty::Ref(self.r(&n))
    }
    pub fn complex(&mut self, c: Complex) -> Ty {
        let n = self.fresh("Complex");
        self.decls.push(dcx(&n, c));
        Ty::Ref(self.r(&n))
    }
    pub fn complex_ref(&mut self, c: Complex) -> QRef {
        match self.complex(c) {
            Ty::Ref(r) => r,
            _ => unreachable!(),
        }
    }
    pub fn global(&mut self, ty: Ty, fixed: Option<&str>) -> QRef {
        let n = self.fresh("glob");
        self.decls.push(Decl::El { name: n.clone(), ty, fixed: fixed.map(String::from), docs: None });
        self.r(&n)
    }
    pub fn done(mut self, family: &'static str, desc: String, root: Ty, cfg: NsCfg) -> Suite {
        let mut decls = vec![del("root", root)];
        decls.append(&mut self.decls);
        let mut f = file(decls);
        f.tns = cfg.tns.map(String::from);
        f.form = cfg.form;
        f.style = cfg.style;
        suite_files(family, desc, vec![f])
    }
}

/// Every way to give an element a type.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tk {
    Str,
    Int,
    Bool,
    Dec,
    Float,
    Untyped,
    InlineSimple,
    InlineEnum,
    NamedStr,
    NamedInt,
    NamedEnum,
    NamedSeq,
    InlineSeq,
    NamedChoice,
    InlineChoice,
    NamedAll,
    NamedEmptyAttr,
    NamedSimpleContent,
    InlineSimpleContentNamed,
    SimpleContentEnum,
    SimpleContentComplex,
    NamedExt,
    NamedExtSeq,
    InlineExtSeq,
    FixedStr,
    FixedInt,
    RefStr,
    RefNamedStr,
    RefComplex,
    RefNamedComplex,
    RefEnum,
    RefNamedEnum,
    RefFixed,
    NamedOptSeq,
    NamedVecSeq,
}

pub const TKS: [Tk; 35] = [
    Tk::Str,
    Tk::Int,
    Tk::Bool,
    Tk::Dec,
    Tk::Float,
    Tk::Untyped,
    Tk::InlineSimple,
    Tk::InlineEnum,
    Tk::NamedStr,
    Tk::NamedInt,
    Tk::NamedEnum,
    Tk::NamedSeq,
    Tk::InlineSeq,
    Tk::NamedChoice,
    Tk::InlineChoice,
    Tk::NamedAll,
    Tk::NamedEmptyAttr,
    Tk::NamedSimpleContent,
    Tk::InlineSimpleContentNamed,
    Tk::SimpleContentEnum,
    Tk::SimpleContentComplex,
    Tk::NamedExt,
    Tk::NamedExtSeq,
    Tk::InlineExtSeq,
    Tk::FixedStr,
    Tk::FixedInt,
    Tk::RefStr,
    Tk::RefNamedStr,
    Tk::RefComplex,
    Tk::RefNamedComplex,
    Tk::RefEnum,
    Tk::RefNamedEnum,
    Tk::RefFixed,
    Tk::NamedOptSeq,
    Tk::NamedVecSeq,
];

fn attr_str(n: &str, u: Use) -> Attr {
    at(n, Ty::Lit(Lit::String), u)
}

impl Tk {
    /// The type alone; None for kinds that are element declarations.
    pub fn ty(self, b: &mut B) -> Option<Ty> {
        let seq2 = || {
            let mut c = seq(vec![els("inA", ONE), el("inB", Ty::Lit(Lit::Int), OPT)]);
            c.attrs.push(attr_str("inAttr", Use::Optional));
            c
        };
        let choice2 = || {
            cx(
                Content::Group(group(Kind::Choice, ONE, vec![els("altA", ONE), el("altB", Ty::Lit(Lit::Boolean), ONE)])),
                vec![],
            )
        };
        Some(match self {
            Tk::Str => Ty::Lit(Lit::String),
            Tk::Int => Ty::Lit(Lit::Int),
            Tk::Bool => Ty::Lit(Lit::Boolean),
            Tk::Dec => Ty::Lit(Lit::Decimal),
            Tk::Float => Ty::Lit(Lit::Float),
            Tk::Untyped => Ty::None,
            Tk::InlineSimple => Ty::Simple(Simple { facets: vec![("maxInclusive".into(), "1000".into())], ..s(Lit::Integer) }),
            Tk::InlineEnum => Ty::Simple(en(&["RED", "dark-blue", "x1"])),
            Tk::NamedStr => b.simple(Simple { facets: vec![("maxLength".into(), "20".into())], ..s(Lit::String) }),
            Tk::NamedInt => b.simple(s(Lit::Integer)),
            Tk::NamedEnum => b.simple(en(&["ON", "OFF"])),
            Tk::NamedSeq => b.complex(seq2()),
            Tk::InlineSeq => cty(seq2()),
            Tk::NamedChoice => b.complex(choice2()),
            Tk::InlineChoice => cty(choice2()),
            Tk::NamedAll => b.complex(cx(
                Content::Group(group(Kind::All, ONE, vec![els("allA", ONE), els("allB", OPT)])),
                vec![attr_str("inAttr", Use::Optional)],
            )),
            Tk::NamedEmptyAttr => b.complex(cx(Content::Empty, vec![attr_str("reqAttr", Use::Required), attr_str("optAttr", Use::Absent)])),
            Tk::NamedSimpleContent => b.complex(cx(Content::SimpleExt(Ty::Lit(Lit::Integer)), vec![attr_str("unit", Use::Required)])),
            Tk::InlineSimpleContentNamed => {
                let t = b.simple(s(Lit::String));
                cty(cx(Content::SimpleExt(t), vec![attr_str("unit", Use::Optional)]))
            }
            Tk::SimpleContentEnum => {
                let t = b.simple(en(&["UP", "DOWN"]));
                b.complex(cx(Content::SimpleExt(t), vec![attr_str("unit", Use::Optional)]))
            }
            Tk::SimpleContentComplex => {
                let t = b.complex(cx(Content::SimpleExt(Ty::Lit(Lit::Integer)), vec![attr_str("unit", Use::Required)]));
                b.complex(cx(Content::SimpleExt(t), vec![attr_str("more", Use::Optional)]))
            }
            Tk::NamedExt => {
                let base = b.complex_ref(seq2());
                b.complex(cx(Content::ComplexExt { base, seq: None }, vec![attr_str("own", Use::Required)]))
            }
            Tk::NamedExtSeq => {
                let base = b.complex_ref(seq2());
                b.complex(cx(
                    Content::ComplexExt { base, seq: Some(group(Kind::Seq, ONE, vec![els("extA", ONE)])) },
                    vec![attr_str("own", Use::Optional)],
                ))
            }
            Tk::InlineExtSeq => {
                let base = b.complex_ref(seq(vec![els("inA", OPT)]));
                cty(cx(
                    Content::ComplexExt { base, seq: Some(group(Kind::Seq, OPT, vec![els("extA", ONE)])) },
                    vec![],
                ))
            }
            Tk::NamedOptSeq => b.complex(cx(Content::Group(group(Kind::Seq, OPT, vec![els("inA", ONE), els("inB", OPT)])), vec![])),
            Tk::NamedVecSeq => b.complex(cx(Content::Group(group(Kind::Seq, STAR, vec![els("inA", ONE), els("inB", OPT)])), vec![])),
            _ => return None,
        })
    }

    pub fn item(self, b: &mut B, name: &str, occ: Occ) -> Item {
        if let Some(t) = self.ty(b) {
            return el(name, t, occ);
        }
        let Item::El(mut e) = el(name, Ty::Lit(Lit::String), occ) else { unreachable!() };
        match self {
            Tk::FixedStr => e.fixed = Some("F x".into()),
            Tk::FixedInt => {
                e.ty = Ty::Lit(Lit::Int);
                e.fixed = Some("7".into());
            }
            Tk::RefStr => e.eref = Some(b.global(Ty::Lit(Lit::String), None)),
            Tk::RefNamedStr => {
                let t = b.simple(s(Lit::Decimal));
                e.eref = Some(b.global(t, None));
            }
            Tk::RefComplex => {
                let t = Tk::InlineSeq.ty(b).unwrap();
                e.eref = Some(b.global(t, None));
            }
            Tk::RefNamedComplex => {
                let t = Tk::NamedSeq.ty(b).unwrap();
                e.eref = Some(b.global(t, None));
            }
            Tk::RefEnum => {
                let t = Tk::InlineEnum.ty(b).unwrap();
                e.eref = Some(b.global(t, None));
            }
            Tk::RefNamedEnum => {
                let t = Tk::NamedEnum.ty(b).unwrap();
                e.eref = Some(b.global(t, None));
            }
            Tk::RefFixed => e.eref = Some(b.global(Ty::Lit(Lit::String), Some("only"))),
            _ => unreachable!(),
        }
        Item::El(e)
    }
}

/// Where the element under study is placed.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pos {
    Seq(Occ),
    ChoiceTop(Occ),
    ChoiceInSeq(Occ, Occ),
    SeqInSeq(Occ, Occ),
    SeqInChoice(Occ),
    All(Occ),
    OptAll,
    TopSeq(Occ),
    ExtOwn(Occ),
    ExtBase,
    Deep,
}

pub fn positions() -> Vec<Pos> {
    let mut v = vec![];
    for o in [ONE, OPT, STAR, PLUS, Occ::n(2, 3)] {
        v.push(Pos::Seq(o));
    }
    v.push(Pos::ChoiceTop(ONE));
    v.push(Pos::ChoiceTop(PLUS));
    v.push(Pos::ChoiceInSeq(OPT, ONE));
    v.push(Pos::ChoiceInSeq(STAR, ONE));
    v.push(Pos::ChoiceInSeq(ONE, STAR));
    v.push(Pos::SeqInSeq(OPT, ONE));
    v.push(Pos::SeqInSeq(ONE, OPT));
    v.push(Pos::SeqInChoice(ONE));
    v.push(Pos::SeqInChoice(OPT));
    v.push(Pos::All(ONE));
    v.push(Pos::All(OPT));
    v.push(Pos::OptAll);
    v.push(Pos::TopSeq(OPT));
    v.push(Pos::TopSeq(STAR));
    v.push(Pos::ExtOwn(ONE));
    v.push(Pos::ExtOwn(OPT));
    v.push(Pos::ExtBase);
    v.push(Pos::Deep);
    v
}

pub fn placed(tk: Tk, pos: Pos, cfg: NsCfg, family: &'static str) -> Suite {
    let mut b = B::new(cfg.tns);
    let root = place(&mut b, pos, &mut |b, o| tk.item(b, "item", o));
    let mut s = b.done(family, format!("{tk:?} in {pos:?} {cfg:?}"), cty(root), cfg);
    s.opt.valid_cap = 40;
    s.opt.mutate_cap = 120;
    s
}

pub fn place(b: &mut B, pos: Pos, item: &mut dyn FnMut(&mut B, Occ) -> Item) -> Complex {
    let g = |k, o, i| Item::Group(group(k, o, i));
    match pos {
        Pos::Seq(o) => {
            let i = item(b, o);
            seq(vec![els("before", OPT), i, els("after", OPT)])
        }
        Pos::ChoiceTop(o) => {
            let i = item(b, o);
            cx(Content::Group(group(Kind::Choice, ONE, vec![els("before", ONE), i])), vec![])
        }
        Pos::ChoiceInSeq(c, o) => {
            let i = item(b, o);
            seq(vec![els("before", OPT), g(Kind::Choice, c, vec![i, els("otherwise", ONE)]), els("after", OPT)])
        }
        Pos::SeqInSeq(c, o) => {
            let i = item(b, o);
            seq(vec![els("before", OPT), g(Kind::Seq, c, vec![i, els("within", ONE)]), els("after", OPT)])
        }
        Pos::SeqInChoice(o) => {
            let i = item(b, o);
            cx(Content::Group(group(Kind::Choice, ONE, vec![els("otherwise", ONE), g(Kind::Seq, ONE, vec![i, els("within", ONE)])])), vec![])
        }
        Pos::All(o) => {
            let i = item(b, o);
            cx(Content::Group(group(Kind::All, ONE, vec![els("before", ONE), i, els("after", OPT)])), vec![])
        }
        Pos::OptAll => {
            let i = item(b, ONE);
            cx(Content::Group(group(Kind::All, OPT, vec![i, els("after", OPT)])), vec![])
        }
        Pos::TopSeq(c) => {
            let i = item(b, ONE);
            cx(Content::Group(group(Kind::Seq, c, vec![i, els("after", OPT)])), vec![])
        }
        Pos::ExtOwn(c) => {
            let i = item(b, ONE);
            let base = b.complex_ref(seq(vec![els("before", OPT)]));
            cx(
                Content::ComplexExt { base, seq: Some(group(Kind::Seq, c, vec![i, els("after", OPT)])) },
                vec![attr_str("own", Use::Optional)],
            )
        }
        Pos::ExtBase => {
            let i = item(b, ONE);
            let base = b.complex_ref(seq(vec![i, els("before", OPT)]));
            cx(Content::ComplexExt { base, seq: None }, vec![attr_str("own", Use::Optional)])
        }
        Pos::Deep => {
            let i = item(b, STAR);
            let inner = b.complex(seq(vec![els("leaf", OPT), i]));
            seq(vec![el("outer", cty(seq(vec![el("mid", inner, STAR)])), ONE)])
        }
    }
}

/// Every type kind in every position.
pub fn f_cross(tier: Tier, cfgs: &[NsCfg]) -> Vec<Suite> {
    let mut v = vec![];
    for (i, tk) in TKS.iter().enumerate() {
        for (j, pos) in positions().into_iter().enumerate() {
            for (k, cfg) in cfgs.iter().enumerate() {
                // quick: the first two configurations everywhere, the others once per cell in rotation
                if tier == Tier::Quick && k > 0 && (i + j) % (cfgs.len() - 1) + 1 != k {
                    continue;
                }
                v.push(placed(*tk, pos, *cfg, "cross"));
            }
        }
    }
    for tk in TKS {
        for cfg in cfgs {
            let mut b = B::new(cfg.tns);
            if let Some(t) = tk.ty(&mut b) {
                if matches!(t, Ty::None) {
                    continue;
                }
                v.push(b.done("cross", format!("{tk:?} as root {cfg:?}"), t, *cfg));
            }
        }
    }
    // fixed root
    for cfg in cfgs {
        let mut b = B::new(cfg.tns);
        b.n = 20;
        let mut s = b.done("cross", format!("fixed root {cfg:?}"), Ty::Lit(Lit::String), *cfg);
        if let Decl::El { fixed, .. } = &mut s.files[0].decls[0] {
            *fixed = Some("const".into());
        }
        v.push(s);
    }
    v
}

/// Two kinds side by side in one content model (interaction of neighbours).
pub fn f_pairs(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let kinds = [Tk::Str, Tk::NamedInt, Tk::NamedEnum, Tk::InlineSeq, Tk::NamedChoice, Tk::RefNamedComplex, Tk::FixedStr, Tk::NamedExtSeq];
    let occs = [ONE, OPT, STAR];
    let cfgs = [NO_NS, TNS_Q, TNS_U];
    let mut n = 0;
    for a in kinds {
        for b_ in kinds {
            for oa in occs {
                for ob in occs {
                    n += 1;
                    if tier == Tier::Quick && n % 3 != 0 {
                        continue;
                    }
                    let cfg = cfgs[n % 3];
                    let mut b = B::new(cfg.tns);
                    let i = a.item(&mut b, "first", oa);
                    let j = b_.item(&mut b, "second", ob);
                    let mut s = b.done("pairs", format!("{a:?}{oa:?} then {b_:?}{ob:?} {cfg:?}"), cty(seq(vec![i, j])), cfg);
                    s.opt.valid_cap = 60;
                    s.opt.mutate_cap = 60;
                    v.push(s);
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- content-model trees

fn leaf_names() -> &'static [&'static str] {
    &["alpha", "bravo", "charlie", "delta", "echo"]
}

#[derive(Clone, Debug)]
enum T {
    L(Occ),
    G(Kind, Occ, Vec<T>),
}

fn trees(leaves: usize, depth: usize, in_choice: bool, leaf_occ: &[Occ], seq_occ: &[Occ], ch_occ: &[Occ], rep_seq: bool) -> Vec<T> {
    // all single items with exactly `leaves` leaves
    let mut v = vec![];
    if leaves == 1 {
        v.extend(leaf_occ.iter().map(|o| T::L(*o)));
    }
    if depth > 0 && leaves >= 1 {
        for k in [Kind::Seq, Kind::Choice] {
            if k == Kind::Choice && in_choice {
                continue; // not supported by the generator
            }
            if k == Kind::Choice && leaves == 1 {
                continue;
            }
            let lists = lists(leaves, depth - 1, k == Kind::Choice, leaf_occ, seq_occ, ch_occ, rep_seq);
            let occs: Vec<Occ> = if k == Kind::Choice {
                ch_occ.to_vec()
            } else if in_choice && rep_seq {
                let mut o = seq_occ.to_vec();
                o.push(STAR);
                o
            } else {
                seq_occ.to_vec()
            };
            for o in occs {
                for l in &lists {
                    v.push(T::G(k, o, l.clone()));
                }
            }
        }
    }
    v
}

fn lists(leaves: usize, depth: usize, in_choice: bool, leaf_occ: &[Occ], seq_occ: &[Occ], ch_occ: &[Occ], rep_seq: bool) -> Vec<Vec<T>> {
    if leaves == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for k in 1..=leaves {
        let heads = trees(k, depth, in_choice, leaf_occ, seq_occ, ch_occ, rep_seq);
        if heads.is_empty() {
            continue;
        }
        for tail in lists(leaves - k, depth, in_choice, leaf_occ, seq_occ, ch_occ, rep_seq) {
            for h in &heads {
                let mut l = vec![h.clone()];
                l.extend(tail.clone());
                v.push(l);
            }
        }
    }
    v
}

fn to_item(t: &T, n: &mut usize) -> Item {
    match t {
        T::L(o) => {
            *n += 1;
            els(leaf_names()[*n - 1], *o)
        }
        T::G(k, o, l) => Item::Group(group(*k, *o, l.iter().map(|t| to_item(t, n)).collect())),
    }
}

fn show(t: &T) -> String {
    let o = |o: &Occ| match (o.min, o.max) {
        (1, Some(1)) => "".to_string(),
        (0, Some(1)) => "?".into(),
        (0, None) => "*".into(),
        (1, None) => "+".into(),
        (a, b) => format!("{{{a},{b:?}}}"),
    };
    match t {
        T::L(q) => format!("e{}", o(q)),
        T::G(k, q, l) => format!("{}({}){}", if *k == Kind::Seq { "s" } else { "c" }, l.iter().map(show).collect::<Vec<_>>().join(","), o(q)),
    }
}

/// Number of departures of a content model from "every item exactly once, nothing nested".
fn weight(t: &T) -> usize {
    match t {
        T::L(o) => (*o != ONE) as usize,
        T::G(_, o, l) => 1 + (*o != ONE) as usize + l.iter().map(weight).sum::<usize>(),
    }
}

/// Content models up to a number of leaves and of departures; `focus` keeps the models with a
/// choice only.
pub fn f_tree(tier: Tier, focus_choice: bool) -> Vec<Suite> {
    let bounds: &[usize] = match tier {
        Tier::Quick => &[9, 4, 3],
        Tier::Thorough => &[9, 6, 5, 4],
    };
    f_tree_bounded(bounds, focus_choice)
}

/// All trees of n leaves whose weight is at most bounds[n - 1].
pub fn f_tree_bounded(bounds: &[usize], focus_choice: bool) -> Vec<Suite> {
    let mut v = vec![];
    for (n, bound) in (1..).zip(bounds) {
        let (leaf, sq, ch): (&[Occ], &[Occ], &[Occ]) = match n {
            1 | 2 => (&[ONE, OPT, STAR, PLUS], &[ONE, OPT], &[ONE, OPT, STAR, PLUS]),
            _ => (&[ONE, OPT, STAR], &[ONE, OPT], &[ONE, OPT, STAR]),
        };
        for top in [Kind::Seq, Kind::Choice] {
            let ls = lists(n, 2, top == Kind::Choice, leaf, sq, ch, true);
            let tops: &[Occ] = match (top, n) {
                (Kind::Choice, _) => &[ONE],
                (_, 1 | 2) => &[ONE, OPT, STAR, PLUS],
                _ => &[ONE, STAR],
            };
            for l in &ls {
                for o in tops {
                    let has_choice = format!("{l:?}").contains("Choice") || top == Kind::Choice;
                    let w = l.iter().map(weight).sum::<usize>() + (*o != ONE) as usize;
                    if focus_choice && !has_choice || w > *bound {
                        continue;
                    }
                    let mut k = 0;
                    let items: Vec<Item> = l.iter().map(|t| to_item(t, &mut k)).collect();
                    let desc = format!("tree {}", show(&T::G(top, *o, l.clone())));
                    let mut s = suite("tree", desc, vec![del("root", cty(cx(Content::Group(group(top, *o, items)), vec![])))]);
                    s.opt = DocOpt { valid_cap: 60, mutate_dev: 0, mutate_cap: 0, word_len: 4, word_cap: 200, ..DocOpt::default() };
                    if Env::new(&s).ambiguous() {
                        continue;
                    }
                    v.push(s);
                }
            }
        }
    }
    v
}

/// Content models in which elements of the same name occur at several places, as far as every
/// element of a document can be attributed to a place without looking ahead. All trees of n leaves
/// whose weight is at most bounds[n - 1], with all assignments of names.
pub fn f_share(bounds: &[usize], focus_choice: bool) -> Vec<Suite> {
    fn rename(i: &mut Item, names: &[usize], k: &mut usize) {
        match i {
            Item::El(e) => {
                e.name = leaf_names()[names[*k]].into();
                *k += 1;
            }
            Item::Group(g) => g.items.iter_mut().for_each(|i| rename(i, names, k)),
        }
    }
    fn distinct(g: &Group) -> bool {
        let n: Vec<_> = g.items.iter().filter_map(|i| if let Item::El(e) = i { Some(&e.name) } else { None }).collect();
        let s: std::collections::BTreeSet<_> = n.iter().collect();
        s.len() == n.len() && g.items.iter().all(|i| if let Item::Group(h) = i { distinct(h) } else { true })
    }
    // restricted growth strings with a repetition
    fn assignments(n: usize) -> Vec<Vec<usize>> {
        let mut v = vec![vec![0]];
        for _ in 1..n {
            v = v
                .into_iter()
                .flat_map(|a: Vec<usize>| {
                    let m = a.iter().max().unwrap() + 1;
                    (0..=m).map(move |x| {
                        let mut b = a.clone();
                        b.push(x);
                        b
                    })
                })
                .collect();
        }
        v.retain(|a| a.iter().max().unwrap() + 1 < n);
        v
    }
    let mut v = vec![];
    for (n, bound) in (2..).zip(bounds) {
        for top in [Kind::Seq, Kind::Choice] {
            let ls = lists(n, 2, top == Kind::Choice, &[ONE, OPT, STAR], &[ONE, OPT], &[ONE, OPT, STAR], true);
            let tops: &[Occ] = if top == Kind::Choice { &[ONE] } else { &[ONE, STAR] };
            for l in &ls {
                for o in tops {
                    let has_choice = format!("{l:?}").contains("Choice") || top == Kind::Choice;
                    if l.iter().map(weight).sum::<usize>() + (*o != ONE) as usize > *bound || focus_choice && !has_choice {
                        continue;
                    }
                    for names in assignments(n) {
                        let mut k = 0;
                        let mut items: Vec<Item> = l.iter().map(|t| to_item(t, &mut k)).collect();
                        k = 0;
                        items.iter_mut().for_each(|i| rename(i, &names, &mut k));
                        let g = group(top, *o, items);
                        if !distinct(&g) {
                            continue;
                        }
                        let desc = format!("share {} {names:?}", show(&T::G(top, *o, l.clone())));
                        let mut s = suite("share", desc, vec![del("root", cty(cx(Content::Group(g.clone()), vec![])))]);
                        s.opt = DocOpt { valid_cap: 60, mutate_dev: 0, mutate_cap: 0, word_len: 4, word_cap: 200, ..DocOpt::default() };
                        if !Env::new(&s).attributable(0, &g) {
                            continue;
                        }
                        v.push(s);
                    }
                }
            }
        }
    }
    v
}

/// Wide occurrence bounds on one element or group.
pub fn f_occ(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let hi = if tier == Tier::Quick { 3 } else { 4 };
    for min in 0..=hi {
        for max in (min.max(1)..=hi + 1).map(Some).chain([None]) {
            let o = Occ { min, max };
            for where_ in 0..5 {
                let it = els("item", o);
                let (name, c) = match where_ {
                    0 => ("element", seq(vec![it, els("after", OPT)])),
                    1 => ("choice", seq(vec![Item::Group(group(Kind::Choice, o, vec![els("left", ONE), els("right", ONE)])), els("after", OPT)])),
                    2 => ("top sequence", cx(Content::Group(group(Kind::Seq, o, vec![els("left", ONE), els("right", OPT)])), vec![])),
                    3 => ("choice alternative", cx(Content::Group(group(Kind::Choice, ONE, vec![it, els("right", ONE)])), vec![])),
                    _ => {
                        if o.max != Some(1) {
                            continue;
                        }
                        ("nested sequence", seq(vec![Item::Group(group(Kind::Seq, o, vec![els("left", ONE), els("right", OPT)])), els("after", OPT)]))
                    }
                };
                let mut s = suite("occ", format!("{name} {o:?}"), vec![del("root", cty(c))]);
                s.opt = DocOpt { valid_cap: 80, mutate_dev: 0, mutate_cap: 0, word_len: 5, word_cap: 400, ..DocOpt::default() };
                v.push(s);
            }
        }
    }
    v
}

// ---------------------------------------------------------------- choice

pub fn f_choice(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let cfgs: &[NsCfg] = if tier == Tier::Quick { &[NO_NS, TNS_Q, TNS_U] } else { &NS_ALL };
    let g = |k, o, i| Item::Group(group(k, o, i));
    // alternatives of every kind, next to each other
    for (n, a) in TKS.iter().enumerate() {
        for (m, o) in [ONE, PLUS, OPT, STAR].into_iter().enumerate() {
            for host in 0..5 {
                let cfg = cfgs[(n + m + host) % cfgs.len()];
                if tier == Tier::Quick && m >= 2 && host > 1 {
                    continue;
                }
                let mut b = B::new(cfg.tns);
                let i = a.item(&mut b, "item", o);
                let alt = TKS[(n + 5) % TKS.len()].item(&mut b, "other", ONE);
                let root = match host {
                    0 => cx(Content::Group(group(Kind::Choice, ONE, vec![alt, i])), vec![attr_str("tag", Use::Optional)]),
                    1 => seq(vec![g(Kind::Choice, ONE, vec![i, alt])]),
                    2 => seq(vec![els("before", ONE), g(Kind::Choice, OPT, vec![i, alt]), els("after", OPT)]),
                    3 => seq(vec![g(Kind::Choice, STAR, vec![i, alt]), els("after", OPT)]),
                    _ => {
                        let t = b.complex(cx(Content::Group(group(Kind::Choice, ONE, vec![i, alt])), vec![]));
                        seq(vec![el("pick", t, STAR)])
                    }
                };
                let mut s = b.done("choice", format!("{a:?}{o:?} host {host} {cfg:?}"), cty(root), cfg);
                s.opt.valid_cap = 40;
                s.opt.mutate_cap = 60;
                v.push(s);
            }
        }
    }
    // sequence alternatives with optional beginnings
    let seqs: Vec<(&str, Vec<Item>)> = vec![
        ("rr", vec![els("alpha", ONE), els("bravo", ONE)]),
        ("or", vec![els("alpha", OPT), els("bravo", ONE)]),
        ("oo", vec![els("alpha", OPT), els("bravo", OPT)]),
        ("oor", vec![els("alpha", OPT), els("bravo", OPT), els("charlie", ONE)]),
        ("sr", vec![els("alpha", STAR), els("bravo", ONE)]),
        ("nested", vec![g(Kind::Seq, OPT, vec![els("alpha", ONE)]), els("bravo", ONE)]),
        ("nestedopt", vec![g(Kind::Seq, ONE, vec![els("alpha", OPT)]), els("bravo", ONE)]),
        ("choice", vec![g(Kind::Choice, OPT, vec![els("alpha", ONE), els("charlie", ONE)]), els("bravo", ONE)]),
        ("choices", vec![g(Kind::Choice, STAR, vec![els("alpha", ONE), els("charlie", ONE)]), els("bravo", ONE)]),
    ];
    for cfg in cfgs {
        for (n, s_) in &seqs {
            for o in [ONE, OPT, STAR, PLUS, Occ::n(1, 2)] {
                for host in 0..4 {
                    if tier == Tier::Quick && host > 1 && o != ONE && o != PLUS {
                        continue;
                    }
                    let alts = vec![els("solo", ONE), g(Kind::Seq, o, s_.clone()), els("last", PLUS)];
                    let root = match host {
                        0 => cx(Content::Group(group(Kind::Choice, ONE, alts)), vec![]),
                        1 => seq(vec![g(Kind::Choice, ONE, alts), els("after", OPT)]),
                        2 => seq(vec![g(Kind::Choice, OPT, alts), els("after", OPT)]),
                        _ => seq(vec![g(Kind::Choice, STAR, alts), els("after", OPT)]),
                    };
                    if host == 3 && o != ONE && o != OPT {
                        continue; // repeated alternatives in a repeated choice are ambiguous
                    }
                    let b = B::new(cfg.tns);
                    let mut s = b.done("choice", format!("sequence {n} {o:?} host {host} {cfg:?}"), cty(root), *cfg);
                    s.opt = DocOpt { valid_cap: 40, mutate_dev: 0, mutate_cap: 60, word_len: 4, word_cap: 700, ..DocOpt::default() };
                    if Env::new(&s).ambiguous() {
                        continue;
                    }
                    v.push(s);
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- all

pub fn f_all(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let kinds = [Tk::Str, Tk::Int, Tk::NamedEnum, Tk::InlineSeq, Tk::NamedChoice, Tk::RefComplex, Tk::RefNamedStr, Tk::FixedStr, Tk::NamedExtSeq, Tk::NamedVecSeq];
    let cfgs: &[NsCfg] = if tier == Tier::Quick { &[NO_NS, TNS_Q, TNS_U] } else { &NS_ALL };
    let mut n = 0;
    // up to 4 members, every mask of required/optional, group required/optional
    let maxm = if tier == Tier::Quick { 4 } else { 5 };
    for members in 1..=maxm {
        for mask in 0..1u32 << members {
            for occ in [ONE, OPT] {
                for cfg in cfgs {
                    n += 1;
                    if tier == Tier::Quick && members == 4 && n % 3 != 0 {
                        continue;
                    }
                    let b = B::new(cfg.tns);
                    let names = ["uno", "dos", "tres", "cuatro", "cinco"];
                    let items = (0..members).map(|i| els(names[i], if mask >> i & 1 == 1 { OPT } else { ONE })).collect();
                    let attrs = if n % 2 == 0 { vec![attr_str("tag", Use::Optional)] } else { vec![] };
                    let mut s = b.done("all", format!("{members} members optional {mask:b} group {occ:?} {cfg:?}"), cty(cx(Content::Group(group(Kind::All, occ, items)), attrs)), *cfg);
                    s.opt = DocOpt { valid_cap: 40, mutate_dev: 1, mutate_cap: 120, word_len: 3, word_cap: 90, permute: true, ..DocOpt::default() };
                    v.push(s);
                }
            }
        }
    }
    for (i, a) in kinds.iter().enumerate() {
        for (j, c) in kinds.iter().enumerate() {
            for (k, (oa, oc)) in [(ONE, ONE), (OPT, ONE), (ONE, OPT), (OPT, OPT)].into_iter().enumerate() {
                if tier == Tier::Quick && (i + j) % 2 == 1 && k % 2 == 0 {
                    continue;
                }
                let cfg = cfgs[(i + j + k) % cfgs.len()];
                let mut b = B::new(cfg.tns);
                let x = a.item(&mut b, "first", oa);
                let y = c.item(&mut b, "second", oc);
                let inner = cx(Content::Group(group(Kind::All, if k == 2 { OPT } else { ONE }, vec![x, y, els("third", OPT)])), vec![]);
                let root = if (i + j) % 3 == 0 {
                    let t = b.complex(inner);
                    seq(vec![el("holder", t, STAR), els("after", ONE)])
                } else {
                    inner
                };
                let mut s = b.done("all", format!("{a:?}{oa:?} {c:?}{oc:?} {cfg:?}"), cty(root), cfg);
                s.opt = DocOpt { valid_cap: 30, mutate_dev: 0, mutate_cap: 80, permute: true, ..DocOpt::default() };
                v.push(s);
            }
        }
    }
    v
}

// ---------------------------------------------------------------- extension

pub fn f_ext(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let cfgs: &[NsCfg] = if tier == Tier::Quick { &[NO_NS, TNS_Q, TNS_U] } else { &NS_ALL };
    let g = |k, o, i| Item::Group(group(k, o, i));
    let bases: Vec<(&str, Content)> = vec![
        ("empty", Content::Empty),
        ("seq", Content::Group(group(Kind::Seq, ONE, vec![els("baseA", ONE), els("baseB", OPT)]))),
        ("seqvec", Content::Group(group(Kind::Seq, ONE, vec![els("baseA", STAR)]))),
        ("optseq", Content::Group(group(Kind::Seq, OPT, vec![els("baseA", ONE)]))),
        ("vecseq", Content::Group(group(Kind::Seq, STAR, vec![els("baseA", ONE), els("baseB", OPT)]))),
        ("choice", Content::Group(group(Kind::Choice, ONE, vec![els("baseA", ONE), el("baseB", Ty::Lit(Lit::Int), ONE)]))),
        ("innerchoice", Content::Group(group(Kind::Seq, ONE, vec![g(Kind::Choice, OPT, vec![els("baseA", ONE), els("baseB", ONE)])]))),
    ];
    let own: Vec<(&str, Option<Group>)> = vec![
        ("none", None),
        ("req", Some(group(Kind::Seq, ONE, vec![els("ownA", ONE), els("ownB", OPT)]))),
        ("opt", Some(group(Kind::Seq, OPT, vec![els("ownA", ONE), els("ownB", OPT)]))),
        ("vec", Some(group(Kind::Seq, ONE, vec![el("ownA", Ty::Lit(Lit::Int), STAR)]))),
        ("choice", Some(group(Kind::Seq, ONE, vec![g(Kind::Choice, ONE, vec![els("ownA", ONE), els("ownB", ONE)])]))),
        ("complex", Some(group(Kind::Seq, ONE, vec![el("ownA", cty(seq(vec![els("deep", ONE)])), ONE)]))),
    ];
    let attr_sets = |p: &str| -> Vec<Vec<Attr>> {
        vec![
            vec![],
            vec![attr_str(&format!("{p}Req"), Use::Required)],
            vec![attr_str(&format!("{p}Opt"), Use::Optional), at(&format!("{p}Num"), Ty::Lit(Lit::Int), Use::Required)],
            vec![attr_str(&format!("{p}Not"), Use::Prohibited), attr_str(&format!("{p}Opt"), Use::Optional), attr_str(&format!("{p}Nor"), Use::Prohibited)],
        ]
    };
    // the document uses the derived type as: root type, child, repeated child, choice alternative, inline
    let mut n = 0;
    for (bn, bc) in &bases {
        for ba in attr_sets("base") {
            for (on, og) in &own {
                for oa in attr_sets("own") {
                    for host in 0..6 {
                        n += 1;
                        let cfg = cfgs[n % cfgs.len()];
                        if tier == Tier::Quick && (n / 6 + host) % 3 != 0 {
                            continue;
                        }
                        let mut b = B::new(cfg.tns);
                        let base = b.complex_ref(cx(bc.clone(), ba.clone()));
                        let derived = cx(Content::ComplexExt { base, seq: og.clone() }, oa.clone());
                        let root = ext_host(&mut b, host, derived);
                        let mut s = b.done("ext", format!("base {bn}/{} own {on}/{} host {host} {cfg:?}", ba.len(), oa.len()), root, cfg);
                        s.opt.valid_cap = 60;
                        s.opt.mutate_cap = 80;
                        v.push(s);
                    }
                }
            }
        }
    }
    // chains of two and three extensions
    for (bn, bc) in &bases {
        for (o1n, o1) in own.iter().take(3) {
            for (o2n, o2) in own.iter().take(3) {
                for third in [false, true] {
                    for host in [0, 1, 3] {
                        n += 1;
                        if tier == Tier::Quick && n % 2 == 0 {
                            continue;
                        }
                        let cfg = cfgs[n % cfgs.len()];
                        let mut b = B::new(cfg.tns);
                        let rename = |g: &Option<Group>, p: &str| {
                            g.clone().map(|mut g| {
                                for i in &mut g.items {
                                    if let Item::El(e) = i {
                                        e.name = e.name.replace("own", p);
                                    }
                                }
                                g
                            })
                        };
                        let base = b.complex_ref(cx(bc.clone(), vec![attr_str("levelZero", Use::Optional)]));
                        let mid = b.complex_ref(cx(Content::ComplexExt { base, seq: rename(o1, "mid") }, vec![attr_str("levelOne", Use::Required)]));
                        let mut last = cx(Content::ComplexExt { base: mid, seq: rename(o2, "top") }, vec![attr_str("levelTwo", Use::Optional)]);
                        if third {
                            let l = b.complex_ref(last);
                            last = cx(
                                Content::ComplexExt { base: l, seq: Some(group(Kind::Seq, ONE, vec![els("final", OPT)])) },
                                vec![at("levelThree", Ty::Lit(Lit::Integer), Use::Required)],
                            );
                        }
                        let root = ext_host(&mut b, host, last);
                        let mut s = b.done("ext", format!("chain {bn} {o1n} {o2n} {third} host {host} {cfg:?}"), root, cfg);
                        s.opt.valid_cap = 60;
                        s.opt.mutate_cap = 80;
                        v.push(s);
                    }
                }
            }
        }
    }
    // simple content: base kinds x attributes x depth x host
    for kind in 0..8 {
        for attrs in attr_sets("own") {
            for depth in 1..=3 {
                for host in 0..6 {
                    n += 1;
                    let cfg = cfgs[n % cfgs.len()];
                    if tier == Tier::Quick && depth == 3 && host > 1 {
                        continue;
                    }
                    let mut b = B::new(cfg.tns);
                    let t = match kind {
                        0 => Ty::Lit(Lit::String),
                        1 => Ty::Lit(Lit::Int),
                        2 => Ty::Lit(Lit::Decimal),
                        3 => Ty::Lit(Lit::Boolean),
                        4 => b.simple(s(Lit::String)),
                        5 => b.simple(s(Lit::Int)),
                        6 => b.simple(en(&["UP", "down-low"])),
                        _ => Ty::Lit(Lit::Float),
                    };
                    let mut c = cx(Content::SimpleExt(t), attrs.clone());
                    for d in 1..depth {
                        let r = b.complex_ref(c);
                        c = cx(Content::SimpleExt(Ty::Ref(r)), vec![attr_str(&format!("level{}", ["One", "Two"][d - 1]), if d == 1 { Use::Required } else { Use::Optional })]);
                    }
                    let root = ext_host(&mut b, host, c);
                    let mut s = b.done("ext", format!("simple content {kind} attrs {} depth {depth} host {host} {cfg:?}", attrs.len()), root, cfg);
                    s.opt.valid_cap = 40;
                    s.opt.mutate_cap = 80;
                    v.push(s);
                }
            }
        }
    }
    v
}

fn ext_host(b: &mut B, host: usize, derived: Complex) -> Ty {
    let g = |k, o, i| Item::Group(group(k, o, i));
    match host {
        0 => cty(derived),
        1 => {
            let t = b.complex(derived);
            cty(seq(vec![els("before", OPT), el("kid", t, ONE), els("after", OPT)]))
        }
        2 => {
            let t = b.complex(derived);
            cty(seq(vec![el("kid", t, STAR)]))
        }
        3 => {
            let t = b.complex(derived);
            cty(seq(vec![g(Kind::Choice, ONE, vec![els("other", ONE), el("kid", t, ONE)])]))
        }
        4 => b.complex(derived),
        _ => {
            let t = b.complex(derived);
            let r = b.global(t, None);
            let Item::El(mut e) = els("x", OPT) else { unreachable!() };
            e.eref = Some(r);
            cty(seq(vec![Item::El(e)]))
        }
    }
}

// ---------------------------------------------------------------- attributes and fixed values

pub const FIXED_TEXTS: [&str; 18] = [
    "", " ", " x", "x ", "x  y", "a\"b", "a'b", "<a>&b;", "]]>", "{}", "{x}", "\\n", "0", "true", "Fixed", "\u{e4}\u{20ac}\u{1f600}", "r#\"x\"#", "&amp;",
];

pub fn f_attr(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let cfgs: &[NsCfg] = if tier == Tier::Quick { &[NO_NS, TNS_Q, TNS_U] } else { &NS_ALL };
    let mut n = 0;
    for ty in 0..13 {
        for use_ in [Use::Absent, Use::Optional, Use::Required, Use::Prohibited] {
            for extra in ["", "default", "fixed"] {
                for host in 0..7 {
                    n += 1;
                    let cfg = cfgs[(n + host) % cfgs.len()];
                    let mut b = B::new(cfg.tns);
                    let t = match ty {
                        0 => Ty::Lit(Lit::String),
                        1 => Ty::Lit(Lit::Int),
                        2 => Ty::Lit(Lit::Boolean),
                        3 => Ty::Lit(Lit::Decimal),
                        4 => Ty::Lit(Lit::Float),
                        5 => Ty::Lit(Lit::NonNegativeInteger),
                        6 => Ty::Lit(Lit::Date),
                        7 => b.simple(s(Lit::String)),
                        8 => b.simple(s(Lit::Int)),
                        9 => b.simple(en(&["ON", "off-line"])),
                        10 => Ty::Simple(s(Lit::Decimal)),
                        11 => Ty::Simple(en(&["A", "b", "c d"])),
                        _ => b.simple(s(Lit::Boolean)),
                    };
                    if extra == "default" && use_ == Use::Required {
                        continue; // refused by the generator, and invalid XSD
                    }
                    if extra == "fixed" && ty > 6 {
                        continue; // refused by the generator
                    }
                    if tier == Tier::Quick && (use_ == Use::Prohibited && (host > 2 || ty % 3 != 0) || extra == "default" && host > 3) {
                        continue;
                    }
                    let lit = match &t {
                        Ty::Lit(l) => *l,
                        _ => Lit::String,
                    };
                    let mut a = at("theAttr", t, use_);
                    match extra {
                        "default" => {
                            a.default = Some(match ty {
                                9 => "ON".into(),
                                11 => "c d".into(),
                                8 => "5".into(),
                                10 => "5.5".into(),
                                12 => "true".into(),
                                _ => lit.label(90),
                            })
                        }
                        "fixed" => a.fixed = Some(if ty == 0 { "fixed val".into() } else { lit.label(80) }),
                        _ => {}
                    }
                    let second = attr_str("other", if n % 2 == 0 { Use::Required } else { Use::Optional });
                    let attrs = if host % 2 == 0 { vec![a, second] } else { vec![second, a] };
                    let root = match host {
                        0 => cx(Content::Empty, attrs),
                        1 => cx(Content::Group(group(Kind::Seq, ONE, vec![els("kid", OPT)])), attrs),
                        2 => cx(Content::SimpleExt(Ty::Lit(Lit::String)), attrs),
                        3 => {
                            let base = b.complex_ref(seq(vec![els("kid", OPT)]));
                            cx(Content::ComplexExt { base, seq: None }, attrs)
                        }
                        4 => cx(Content::Group(group(Kind::Choice, ONE, vec![els("kid", ONE), els("cat", ONE)])), attrs),
                        5 => {
                            let base = b.complex_ref(cx(Content::Group(group(Kind::Seq, ONE, vec![els("kid", OPT)])), attrs));
                            cx(Content::ComplexExt { base, seq: Some(group(Kind::Seq, ONE, vec![els("cat", OPT)])) }, vec![])
                        }
                        _ => {
                            let t = b.complex(cx(Content::Group(group(Kind::Seq, STAR, vec![els("kid", ONE)])), attrs));
                            seq(vec![el("holder", t, STAR)])
                        }
                    };
                    let mut s = b.done("attr", format!("type {ty} {use_:?} {extra} host {host} {cfg:?}"), cty(root), cfg);
                    s.opt.valid_cap = 40;
                    s.opt.mutate_dev = 1;
                    s.opt.mutate_cap = 150;
                    v.push(s);
                }
            }
        }
    }
    // awkward fixed texts of attributes and elements
    for text in FIXED_TEXTS {
        for host in 0..10 {
            n += 1;
            let cfg = cfgs[n % cfgs.len()];
            let mut b = B::new(cfg.tns);
            let mut a = at("theAttr", Ty::Lit(Lit::String), [Use::Required, Use::Optional, Use::Absent][n % 3]);
            a.fixed = Some(text.into());
            let fel = |o: Occ| {
                let Item::El(mut e) = els("item", o) else { unreachable!() };
                e.fixed = Some(text.into());
                Item::El(e)
            };
            let root = match host {
                0 => cx(Content::Empty, vec![a]),
                1 => cx(Content::Group(group(Kind::Seq, ONE, vec![els("kid", OPT)])), vec![attr_str("other", Use::Optional), a]),
                2 => cx(Content::SimpleExt(Ty::Lit(Lit::String)), vec![a]),
                3 => {
                    let base = b.complex_ref(cx(Content::Group(group(Kind::Seq, ONE, vec![els("kid", OPT)])), vec![a]));
                    cx(Content::ComplexExt { base, seq: None }, vec![attr_str("other", Use::Optional)])
                }
                4 => seq(vec![fel(ONE), els("after", OPT)]),
                5 => seq(vec![fel(OPT), els("after", ONE)]),
                6 => seq(vec![fel(STAR)]),
                7 => cx(Content::Group(group(Kind::Choice, ONE, vec![els("other", ONE), fel(ONE)])), vec![]),
                8 => cx(Content::Group(group(Kind::All, ONE, vec![els("other", OPT), fel(OPT)])), vec![]),
                _ => {
                    let Item::El(mut e) = els("x", OPT) else { unreachable!() };
                    e.eref = Some(b.global(Ty::Lit(Lit::String), Some(text)));
                    seq(vec![Item::El(e)])
                }
            };
            let mut s = b.done("attr", format!("fixed text {text:?} host {host} {cfg:?}"), cty(root), cfg);
            s.opt.valid_cap = 20;
            s.opt.mutate_dev = 1;
            s.opt.mutate_cap = 150;
            v.push(s);
        }
    }
    // fixed elements of every literal in several positions
    for lit in ALL_LITS {
        for pos in [Pos::Seq(ONE), Pos::Seq(OPT), Pos::Seq(STAR), Pos::ChoiceTop(ONE), Pos::ChoiceInSeq(OPT, ONE), Pos::All(ONE), Pos::All(OPT), Pos::SeqInSeq(OPT, ONE)] {
            for by_ref in [false, true] {
                n += 1;
                if tier == Tier::Quick && (n % 3 != 0) && lit != Lit::String {
                    continue;
                }
                let cfg = cfgs[n % cfgs.len()];
                let mut b = B::new(cfg.tns);
                let root = place(&mut b, pos, &mut |b, o| {
                    let Item::El(mut e) = el("item", Ty::Lit(lit), o) else { unreachable!() };
                    let f = if lit == Lit::String { "a <b> & \"c\"".to_string() } else { lit.label(3) };
                    if by_ref {
                        e.eref = Some(b.global(Ty::Lit(lit), Some(&f)));
                    } else {
                        e.fixed = Some(f);
                    }
                    Item::El(e)
                });
                let mut s = b.done("attr", format!("fixed {lit:?} {pos:?} ref {by_ref} {cfg:?}"), cty(root), cfg);
                s.opt.valid_cap = 30;
                s.opt.mutate_cap = 80;
                v.push(s);
            }
        }
    }
    v
}

// ---------------------------------------------------------------- enumerations

pub fn enum_values() -> Vec<&'static str> {
    vec![
        "A", "a", "AB", "aB", "a-b", "a_b", "a b", "a.b", "ab", "1", "-1", "+1", "1.0", "", " ", "-", "_", "Self", "self", "Variant1", "V1", "é", "É", "ß", "日本", "😀", "a+b", "type", "None", "Some", "<&>", "\"q\"", "a/b", "A B", "Ok", "x\u{a0}y",
    ]
}

pub fn f_enum(tier: Tier) -> Vec<Suite> {
    let vals = enum_values();
    let mut lists: Vec<Vec<&str>> = vec![];
    for v in &vals {
        lists.push(vec![v]);
    }
    for a in &vals {
        for b in &vals {
            if a != b && (tier == Tier::Thorough || a < b) {
                lists.push(vec![a, b]);
            }
        }
    }
    // triples (and one quadruple set) over values that collide as identifiers
    let coll = ["a-b", "a_b", "aB", "a b", "", "Variant1", "1", "+1", "V1"];
    for a in coll {
        for b in coll {
            for c in coll {
                if a != b && b != c && a != c && (tier == Tier::Thorough || a < b) {
                    lists.push(vec![a, b, c]);
                }
            }
        }
    }
    lists.push(coll.to_vec());
    lists.push(coll.iter().rev().copied().collect());
    lists.push(vals.clone());
    let mut v = vec![];
    for (n, l) in lists.iter().enumerate() {
        let e = || en(l);
        let mut b = B::new(None);
        // root position needs a schema of its own; rotate it with the others
        let root = match n % 3 {
            0 => {
                let t = b.simple(e());
                cty(cx(
                    Content::Group(group(Kind::Seq, ONE, vec![el("kid", t.clone(), OPT), el("many", t.clone(), STAR)])),
                    vec![at("named", t, Use::Optional)],
                ))
            }
            1 => cty(cx(Content::Group(group(Kind::Seq, ONE, vec![el("kid", Ty::Simple(e()), OPT)])), vec![at("inline", Ty::Simple(e()), Use::Optional)])),
            _ => Ty::Simple(e()),
        };
        let mut s = b.done("enum", format!("values {l:?} place {}", n % 3), root, NO_NS);
        s.opt.valid_cap = 120;
        s.opt.mutate_dev = 0;
        s.opt.mutate_cap = 60;
        // every other value of the alphabet must be refused
        let mut extra = vec![];
        let near: Vec<String> = vals.iter().map(|v| v.to_string()).chain(l.iter().flat_map(|v| [format!("{v} "), format!(" {v}"), v.to_lowercase(), v.to_uppercase(), format!("{v}{v}")])).collect();
        for t in near {
            let (te, ta) = (esc(&t), esc(&t));
            match n % 3 {
                0 => {
                    extra.push(Extra { xml: format!("<root><kid>{te}</kid></root>"), expect: ExtraExpect::Model });
                    extra.push(Extra { xml: format!("<root named=\"{ta}\"/>"), expect: ExtraExpect::Model });
                }
                1 => {
                    extra.push(Extra { xml: format!("<root><kid>{te}</kid></root>"), expect: ExtraExpect::Model });
                    extra.push(Extra { xml: format!("<root inline=\"{ta}\"/>"), expect: ExtraExpect::Model });
                }
                _ => extra.push(Extra { xml: format!("<root>{te}</root>"), expect: ExtraExpect::Model }),
            }
        }
        s.opt.extra = extra;
        v.push(s);
    }
    v
}

// ---------------------------------------------------------------- names

pub const KEYWORDS: [&str; 54] = [
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen", "union", "static_",
];

pub const AWKWARD: [&str; 50] = [
    "fooBar", "FooBar", "foo-bar", "foo.bar", "foo_bar", "FOO", "fooBAR", "HTTPServer", "a1", "a-1", "A1b2", "_x", "_1", "x_", "_", "__a", "é", "été", "Ünder", "ñandú", "日本", "αβγ", "жук", "a\u{b7}b", "x--y", "x..y", "x-.y", "string", "vec", "option", "result", "value", "node", "val", "ctx", "Übung-1", "some", "none", "ok", "err", "asRef", "xmlEvent", "writer", "debug", "clone", "display", "rust_decimal", "xsd", "std", "input",
];

/// Names whose Rust spelling is beyond doubt.
fn plain_name(n: &str) -> bool {
    !matches!(n, "self" | "Self" | "super" | "crate" | "static_")
        && n.chars().all(|c| c.is_ascii_alphabetic() || c == '-')
        && !n.chars().zip(n.chars().skip(1)).any(|(a, b)| a.is_ascii_uppercase() && b.is_ascii_uppercase())
        && !n.contains("--")
}

pub fn f_ident(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    for (ni, n) in KEYWORDS.iter().chain(AWKWARD.iter()).enumerate() {
        for pos in 0..13 {
            if matches!(*n, "_" | "__a" | "static_") && tier == Tier::Quick && pos > 6 {
                continue;
            }
            let cfg = [NO_NS, TNS_Q, TNS_U][(ni + pos) % 3];
            let mut b = B::new(cfg.tns);
            let mut root_name = "root".to_string();
            let g = |k, o, i| Item::Group(group(k, o, i));
            let root: Ty = match pos {
                0 => cty(seq(vec![els(n, ONE), els("other", OPT)])),
                1 => cty(cx(Content::Group(group(Kind::Seq, ONE, vec![els("other", OPT)])), vec![attr_str(n, Use::Optional)])),
                2 => {
                    b.decls.push(dcx(n, seq(vec![els("leaf", ONE)])));
                    cty(seq(vec![el("kid", Ty::Ref(b.r(n)), STAR)]))
                }
                3 => {
                    b.decls.push(dsi(n, en(&["A", "B"])));
                    cty(seq(vec![el("kid", Ty::Ref(b.r(n)), STAR)]))
                }
                4 => cty(cx(Content::Group(group(Kind::Choice, ONE, vec![els(n, ONE), els("other", ONE)])), vec![])),
                5 => cty(seq(vec![g(Kind::Choice, ONE, vec![els(n, ONE), els("other", ONE)])])),
                6 => {
                    b.decls.push(del(n, cty(seq(vec![els("leaf", ONE)]))));
                    let Item::El(mut e) = els("x", OPT) else { unreachable!() };
                    e.eref = Some(b.r(n));
                    cty(seq(vec![Item::El(e)]))
                }
                7 => cty(seq(vec![el(n, cty(seq(vec![els("leaf", ONE)])), OPT)])),
                8 => cty(seq(vec![el(n, Ty::Simple(en(&["A", "B"])), STAR)])),
                9 => cty(seq(vec![g(Kind::Seq, OPT, vec![els(n, ONE)]), els("after", OPT)])),
                10 => {
                    root_name = n.to_string();
                    cty(seq(vec![els("kid", ONE)]))
                }
                11 => {
                    b.decls.push(dcx(n, cx(Content::Group(group(Kind::Seq, ONE, vec![els("leaf", OPT)])), vec![])));
                    let base = b.r(n);
                    cty(cx(Content::ComplexExt { base, seq: Some(group(Kind::Seq, ONE, vec![els("more", OPT)])) }, vec![]))
                }
                _ => {
                    b.decls.push(dsi(n, s(Lit::Int)));
                    cty(cx(Content::SimpleExt(Ty::Ref(b.r(n))), vec![at("num", Ty::Ref(b.r(n)), Use::Optional)]))
                }
            };
            let mut s = b.done("ident", format!("name {n} position {pos} {cfg:?}"), root, cfg);
            s.loose = !plain_name(n);
            if root_name != "root" {
                if matches!(pascal_known(&root_name), None) {
                    continue;
                }
                if let Decl::El { name, .. } = &mut s.files[0].decls[0] {
                    *name = root_name.clone();
                }
                s.root_ty = pascal_known(&root_name).unwrap();
                s.root = root_name;
            }
            s.opt = DocOpt { valid_cap: 30, mutate_dev: 0, mutate_cap: 60, ..DocOpt::default() };
            v.push(s);
        }
    }
    v
}

fn pascal_known(n: &str) -> Option<String> {
    if plain_name(n) {
        Some(crate::refdec::type_name(n))
    } else {
        None
    }
}

// ---------------------------------------------------------------- built-in types

pub fn lexical_table(l: Lit) -> Vec<String> {
    let mut v: Vec<String> = match l.repr() {
        Repr::Str => vec!["", " ", " x ", "a b", "é😀", "0", "true", "-1", "2000-01-01Z", "AAAA", "x\ny"],
        Repr::Bool => vec!["true", "false", "1", "0", " true ", "\ttrue", "\nfalse\n", " 1", "0 ", "TRUE", "True", "FALSE", "yes", "2", "", " ", "10", "01", "tru", "t", "-1", "true false"],
        Repr::I64 | Repr::I32 | Repr::U64 => vec![
            "0", "1", "-1", "+1", "007", "-007", " 5 ", "\n5", "5\t", " -5 ", "2147483647", "-2147483648", "2147483648", "-2147483649", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "4294967296", "", " ", "-", "+", "1.0", "1e3", "1,000", "0x10", "abc", "1 2", "--1", "١", "99999999999999999999999999",
        ],
        Repr::F32 => vec![
            "0", "-0", "1", "1.5", "-1.5", "+1.5", ".5", "5.", "1e3", "1E3", "1.5e-3", "1e+3", "INF", "-INF", "NaN", " 1.5 ", "\n1", " INF ", "0.1", "16777217", "3.4028235e38", "1e-45", "1e39", "", " ", "abc", "1,5", "1.5.5", "e3", "--1", "1e", "0x1p3", "1_0",
        ],
        Repr::Dec => vec![
            "0", "-0", "1", "1.0", "1.50", "-1.5", "+1.5", ".5", "5.", "-.5", "007.10", " 1.5 ", "\n1\n", "0.1", "0.0000000000000000000000000001", "7922816251426433759354395033", "123456789.123456789", "", " ", "abc", "1,5", "1.5.5", "-", ".", "+", "INF", "NaN", "1 5",
        ],
    }
    .into_iter()
    .map(String::from)
    .collect();
    v.dedup();
    v
}

pub fn f_lit(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    for l in ALL_LITS {
        for pos in 0..14 {
            let cfg = [NO_NS, TNS_Q, TNS_U][pos % 3];
            let mut b = B::new(cfg.tns);
            let t = Ty::Lit(l);
            let g = |k, o, i| Item::Group(group(k, o, i));
            let root = match pos {
                0 => cty(seq(vec![el("val", t, ONE)])),
                1 => cty(cx(Content::Empty, vec![at("val", t, Use::Required)])),
                2 => cty(cx(Content::SimpleExt(t), vec![])),
                3 => t,
                4 => cty(seq(vec![el("val", t, STAR)])),
                5 => cty(cx(Content::Group(group(Kind::Choice, ONE, vec![el("val", t, ONE), els("other", ONE)])), vec![])),
                6 => {
                    let t = b.simple(s(l));
                    cty(seq(vec![el("val", t, OPT)]))
                }
                7 => {
                    let t = b.simple(s(l));
                    cty(cx(Content::Empty, vec![at("val", t, Use::Optional)]))
                }
                8 => cty(cx(Content::Empty, vec![at("val", Ty::Simple(s(l)), Use::Optional)])),
                9 => {
                    let r = b.global(t, None);
                    let Item::El(mut e) = els("x", ONE) else { unreachable!() };
                    e.eref = Some(r);
                    cty(seq(vec![Item::El(e)]))
                }
                10 => Ty::Simple(s(l)),
                11 => {
                    let t = b.simple(s(l));
                    cty(cx(Content::SimpleExt(t), vec![]))
                }
                12 => cty(seq(vec![g(Kind::Choice, STAR, vec![el("val", t, PLUS), els("other", ONE)])])),
                _ => b.simple(s(l)),
            };
            let _ = tier;
            let mut s = b.done("lit", format!("{l:?} position {pos} {cfg:?}"), root, cfg);
            s.opt = DocOpt { valid_cap: 70, mutate_dev: 0, mutate_cap: 40, texts: lexical_table(l), ..DocOpt::default() };
            if pos == 1 || pos == 7 || pos == 8 {
                // attribute values: white space other than blanks is normalised by XML
                s.opt.texts.retain(|t| !t.contains(['\n', '\t', '\r']) || l.repr() != Repr::Str);
            }
            v.push(s);
        }
    }
    v
}

// ---------------------------------------------------------------- text and markup

fn strings(alphabet: &[&str], max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut layer = all.clone();
    for _ in 0..max {
        let mut next = vec![];
        for s in &layer {
            for a in alphabet {
                next.push(format!("{s}{a}"));
            }
        }
        all.extend(next.iter().cloned());
        layer = next;
    }
    all
}

pub fn f_text(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let len = if tier == Tier::Quick { 2 } else { 3 };
    let el_alpha = ["a", " ", "<", "&", ">", "\"", "'", "]", "]]>", "\n", "\t", "é", "😀", "--", "?>", "&amp;", "\u{85}", "\u{feff}", "<!--"];
    let at_alpha = ["a", " ", "<", "&", ">", "\"", "'", "]]>", "é", "😀", "--", "&amp;", "&#10;", "\u{85}"];
    for pos in 0..8 {
        let mut b = B::new(None);
        let g = |k, o, i| Item::Group(group(k, o, i));
        let attr = pos == 1 || pos == 5;
        let str_ = Ty::Lit(Lit::String);
        let root = match pos {
            0 => cty(seq(vec![el("val", str_, ONE)])),
            1 => cty(cx(Content::Empty, vec![at("val", str_, Use::Required)])),
            2 => cty(cx(Content::SimpleExt(str_), vec![])),
            3 => str_,
            4 => cty(seq(vec![g(Kind::Choice, STAR, vec![el("val", str_, ONE), els("other", ONE)]), els("after", OPT)])),
            5 => {
                let t = b.simple(s(Lit::String));
                cty(cx(Content::SimpleExt(Ty::Lit(Lit::Int)), vec![at("val", t, Use::Optional)]))
            }
            6 => {
                let t = b.simple(s(Lit::String));
                cty(seq(vec![el("val", t, OPT)]))
            }
            _ => cty(seq(vec![el("val", Ty::None, ONE), el("holder", cty(seq(vec![els("deep", ONE)])), ONE)])),
        };
        let mut s = b.done("text", format!("strings position {pos}"), root, NO_NS);
        let alpha: &[&str] = if attr { &at_alpha } else { &el_alpha };
        s.opt = DocOpt { valid_cap: 60, mutate_dev: 0, mutate_cap: 0, texts: strings(alpha, len), styles: true, ..DocOpt::default() };
        v.push(s);
    }
    // markup spellings of ordinary documents of every kind
    for (i, tk) in TKS.iter().enumerate() {
        for pos in [Pos::Seq(STAR), Pos::ChoiceInSeq(STAR, ONE), Pos::All(OPT), Pos::ExtOwn(ONE), Pos::TopSeq(STAR)] {
            let cfg = [NO_NS, TNS_Q, TNS_U][i % 3];
            let mut s = placed(*tk, pos, cfg, "text");
            s.opt.styles = true;
            s.opt.mutate_cap = 0;
            v.push(s);
        }
    }
    v
}

// ---------------------------------------------------------------- namespaces

pub fn f_ns(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let _ = NsStyle::Prefix;
    // single file: configuration x local form x kind x host
    let kinds = [Tk::Str, Tk::NamedStr, Tk::InlineSeq, Tk::NamedSeq, Tk::NamedChoice, Tk::NamedExtSeq, Tk::RefStr, Tk::RefNamedStr, Tk::RefComplex, Tk::RefNamedComplex, Tk::RefFixed, Tk::FixedStr, Tk::NamedEnum, Tk::RefEnum, Tk::InlineSimpleContentNamed, Tk::NamedAll];
    for cfg in NS_ALL {
        for tk in kinds {
            for pos in [Pos::Seq(STAR), Pos::ChoiceTop(ONE), Pos::ChoiceInSeq(OPT, ONE), Pos::SeqInChoice(OPT), Pos::All(OPT), Pos::ExtOwn(OPT)] {
                let mut s = placed(tk, pos, cfg, "ns");
                s.opt.mutate_dev = 0;
                s.opt.mutate_cap = 150;
                s.opt.styles = tier == Tier::Thorough;
                v.push(s);
            }
        }
    }
    // local form attribute
    for cfg in NS_ALL {
        for fa in [None, Some(true), Some(false)] {
            for fb in [Some(true), Some(false)] {
                for host in 0..4 {
                    let mut b = B::new(cfg.tns);
                    let f = |i: Item, form: Option<bool>| match i {
                        Item::El(mut e) => {
                            e.form = form;
                            Item::El(e)
                        }
                        i => i,
                    };
                    let x = f(els("alpha", ONE), fa);
                    let y = f(el("bravo", cty(seq(vec![f(els("inner", ONE), fa), f(els("deep", OPT), fb)])), ONE), fb);
                    let root = match host {
                        0 => seq(vec![x, y]),
                        1 => cx(Content::Group(group(Kind::Choice, ONE, vec![x, y])), vec![]),
                        2 => cx(Content::Group(group(Kind::All, ONE, vec![x, y])), vec![]),
                        _ => {
                            let base = b.complex_ref(seq(vec![x]));
                            cx(Content::ComplexExt { base, seq: Some(group(Kind::Seq, ONE, vec![y])) }, vec![])
                        }
                    };
                    let mut s = b.done("ns", format!("form {fa:?} {fb:?} host {host} {cfg:?}"), cty(root), cfg);
                    s.opt.mutate_dev = 0;
                    s.opt.mutate_cap = 150;
                    s.opt.styles = true;
                    v.push(s);
                }
            }
        }
    }
    v.extend(f_import(tier));
    // namespaces that are easily mistaken for each other
    for (a, b) in [
        ("urn:case", "urn:Case"), ("http://host/path", "http://host/path/"), ("urn:a", "urn:a#"), ("urn:a:b", "urn:a"), ("http://host/x", "https://host/x"),
        ("http://www.w3.org/2001/XMLSchema2", "http://www.w3.org/2001/XMLSchema-instance"), ("ns1", "ns2"), ("ns2", "ns1"), ("t", "xs"), ("urn:ü", "urn:u"),
    ] {
        for form in [Form::Qualified, Form::Unqualified] {
            for alias in [false, true] {
                let q2 = |l: &str| qn(Some(b), l);
                let rf = |r: QRef, o: Occ| {
                    let Item::El(mut e) = els("x", o) else { unreachable!() };
                    e.eref = Some(r);
                    Item::El(e)
                };
                let mut decls = vec![dcx("FarType", cx(Content::Group(group(Kind::Choice, ONE, vec![els("item", ONE), els("farB", ONE)])), vec![]))];
                decls.push(del("far", if alias { Ty::Ref(q2("FarType")) } else { Ty::Lit(Lit::Int) }));
                let root = seq(vec![el("kid", Ty::Ref(q2("FarType")), OPT), rf(q2("far"), STAR), els("item", OPT), el("own", Ty::Ref(qn(Some(a), "NearType")), OPT)]);
                let near = dcx("NearType", cx(Content::ComplexExt { base: q2("FarType"), seq: Some(group(Kind::Seq, ONE, vec![els("more", OPT)])) }, vec![]));
                let mut f0 = file(vec![del("root", cty(root)), near]);
                f0.tns = Some(a.into());
                f0.form = form;
                f0.links = vec![Link { import: true, location: "other.xsd".into(), file: 1 }];
                let mut f1 = file(decls);
                f1.path = "other.xsd".into();
                f1.tns = Some(b.into());
                f1.form = Form::Qualified;
                let mut s = suite_files("ns", format!("similar {a} {b} {form:?} {alias}"), vec![f0, f1]);
                s.opt.mutate_dev = 0;
                s.opt.mutate_cap = 150;
                s.opt.styles = true;
                v.push(s);
            }
        }
    }
    v
}

/// Two files: the main one refers to types and elements of an imported one.
pub fn f_import(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let mut n = 0;
    for main in [NO_NS, TNS_Q, TNS_U, TNS_QD, TNS_QX, TNS_A] {
        for (other_ns, other_form) in [(Some(T2), Form::Qualified), (Some(T2), Form::Unqualified), (Some(T2), Form::Absent), (None, Form::Absent), (None, Form::Qualified)] {
            if other_ns.is_none() && main.tns.is_none() {
                continue;
            }
            if other_ns.is_none() && main.style != RefStyle::Prefix {
                continue; // an unprefixed reference would mean the default namespace
            }
            for what in 0..13 {
                n += 1;
                if tier == Tier::Quick && matches!(main.style, RefStyle::XsdDefault) && n % 2 == 0 {
                    continue;
                }
                let q2 = |l: &str| qn(other_ns, l);
                let mut decls = vec![];
                let g = |k, o, i| Item::Group(group(k, o, i));
                let rf = |r: QRef, o: Occ| {
                    let Item::El(mut e) = els("x", o) else { unreachable!() };
                    e.eref = Some(r);
                    Item::El(e)
                };
                let o_seq = || seq(vec![els("farA", ONE), el("farB", Ty::Lit(Lit::Int), OPT)]);
                let root = match what {
                    0 => {
                        decls.push(dcx("FarType", o_seq()));
                        cty(seq(vec![el("kid", Ty::Ref(q2("FarType")), STAR), els("near", OPT)]))
                    }
                    1 => {
                        decls.push(del("far", cty(o_seq())));
                        cty(seq(vec![rf(q2("far"), STAR), els("near", OPT)]))
                    }
                    2 => {
                        decls.push(del("far", Ty::Lit(Lit::Int)));
                        cty(seq(vec![rf(q2("far"), STAR), els("near", OPT)]))
                    }
                    3 => {
                        decls.push(dcx("FarType", o_seq()));
                        decls.push(del("far", Ty::Ref(q2("FarType"))));
                        cty(cx(Content::Group(group(Kind::Choice, ONE, vec![rf(q2("far"), ONE), els("near", ONE)])), vec![]))
                    }
                    4 => {
                        decls.push(dsi("FarEnum", en(&["A", "B"])));
                        cty(cx(Content::Group(group(Kind::Seq, ONE, vec![el("kid", Ty::Ref(q2("FarEnum")), OPT)])), vec![at("mode", Ty::Ref(q2("FarEnum")), Use::Optional)]))
                    }
                    5 => {
                        decls.push(dsi("FarNum", s(Lit::Int)));
                        cty(cx(Content::Group(group(Kind::Choice, ONE, vec![el("kid", Ty::Ref(q2("FarNum")), ONE), els("near", ONE)])), vec![at("num", Ty::Ref(q2("FarNum")), Use::Optional)]))
                    }
                    6 => {
                        decls.push(dcx("FarType", cx(o_seq().content, vec![attr_str("farAttr", Use::Optional)])));
                        cty(cx(
                            Content::ComplexExt { base: q2("FarType"), seq: Some(group(Kind::Seq, ONE, vec![els("near", ONE)])) },
                            vec![attr_str("nearAttr", Use::Optional)],
                        ))
                    }
                    7 => {
                        decls.push(dcx("FarType", cx(Content::Group(group(Kind::Choice, ONE, vec![els("farA", ONE), els("farB", PLUS)])), vec![])));
                        cty(seq(vec![el("kid", Ty::Ref(q2("FarType")), ONE), els("near", OPT)]))
                    }
                    8 => {
                        decls.push(dcx("FarType", seq(vec![g(Kind::Choice, STAR, vec![els("farA", ONE), el("farB", cty(seq(vec![els("farC", ONE)])), ONE)]), els("farD", OPT)])));
                        cty(seq(vec![el("kid", Ty::Ref(q2("FarType")), ONE), els("near", OPT)]))
                    }
                    9 => {
                        decls.push(dcx("FarType", seq(vec![rf(q2("far"), OPT)])));
                        decls.push(del("far", cty(o_seq())));
                        Ty::Ref(q2("FarType"))
                    }
                    10 => {
                        decls.push(dcx("FarType", cx(Content::Group(group(Kind::All, ONE, vec![els("farA", ONE), els("farB", OPT)])), vec![])));
                        cty(seq(vec![el("kid", Ty::Ref(q2("FarType")), PLUS)]))
                    }
                    11 => {
                        decls.push(dsi("FarNum", s(Lit::Decimal)));
                        cty(cx(Content::SimpleExt(Ty::Ref(q2("FarNum"))), vec![attr_str("unit", Use::Required)]))
                    }
                    _ => {
                        decls.push(Decl::El { name: "far".into(), ty: Ty::Lit(Lit::String), fixed: Some("K".into()), docs: None });
                        cty(seq(vec![g(Kind::Choice, OPT, vec![rf(q2("far"), ONE), els("near", ONE)]), g(Kind::Seq, OPT, vec![els("lastA", OPT), els("lastB", ONE)])]))
                    }
                };
                let mut f0 = file(vec![del("root", root)]);
                f0.tns = main.tns.map(String::from);
                f0.form = main.form;
                f0.style = main.style;
                f0.links = vec![Link { import: true, location: "other.xsd".into(), file: 1 }];
                let mut f1 = file(decls);
                f1.path = "other.xsd".into();
                f1.tns = other_ns.map(String::from);
                f1.form = other_form;
                let mut s = suite_files("ns", format!("import {what} {other_ns:?} {other_form:?} into {main:?}"), vec![f0, f1]);
                s.opt.mutate_dev = 0;
                s.opt.mutate_cap = 150;
                s.opt.styles = true;
                // the same with the root element in a file that the given one merely links to
                for (k, (ns, form)) in [(None, Form::Absent), (Some("urn:stub"), Form::Qualified), (Some("urn:stub"), Form::Unqualified)].into_iter().enumerate() {
                    if tier == Tier::Quick && k != n % 3 {
                        continue;
                    }
                    let mut w = s.clone();
                    for f in &mut w.files {
                        f.links.iter_mut().for_each(|l| l.file += 1);
                    }
                    let mut stub = file(vec![del("stub", cty(seq(vec![els("own", ONE)])))]);
                    stub.path = "stub.xsd".into();
                    stub.tns = ns.map(String::from);
                    stub.form = form;
                    stub.links = vec![Link { import: w.files[0].tns != stub.tns, location: w.files[0].path.clone(), file: 1 }];
                    w.files.insert(0, stub);
                    w.root_file = 1;
                    w.desc = format!("{} from a file with {ns:?} {form:?}", w.desc);
                    w.opt.styles = false;
                    w.opt.mutate_cap = 40;
                    v.push(w);
                }
                v.push(s);
            }
        }
    }
    v
}

// ---------------------------------------------------------------- files

pub fn f_files(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    // Up to three further files; every set of links among them such that each is reachable.
    let dirs: [[&str; 4]; 3] = [["main.xsd", "a.xsd", "b.xsd", "c.xsd"], ["main.xsd", "sub/a.xsd", "sub/deep/b.xsd", "c.xsd"], ["m/main.xsd", "a.xsd", "lib/b.xsd", "m/c.xsd"]];
    let max_files = 4;
    let mut n = 0;
    for count in 2..=max_files {
        let pairs: Vec<(usize, usize)> = (0..count).flat_map(|a| (0..count).filter(move |b| *b != a).map(move |b| (a, b))).collect();
        for mask in 0..1u64 << pairs.len() {
            let links: Vec<(usize, usize)> = pairs.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| *x.1).collect();
            if links.len() > count + 1 {
                continue;
            }
            // reachability from 0
            let mut seen = vec![false; count];
            seen[0] = true;
            loop {
                let mut change = false;
                for (a, b) in &links {
                    if seen[*a] && !seen[*b] {
                        seen[*b] = true;
                        change = true;
                    }
                }
                if !change {
                    break;
                }
            }
            if seen.iter().any(|s| !s) {
                continue;
            }
            // canonical under renaming of files 1..count: keep the lexicographically least mask only
            if count == 4 && !canonical(&links, count) {
                continue;
            }
            n += 1;
            if tier == Tier::Quick && count == 4 && n % 4 != 0 {
                continue;
            }
            for variant in 0..5 {
                if tier == Tier::Quick && count > 2 && variant != n % 5 {
                    continue;
                }
                v.push(graph_suite(count, &links, variant, &dirs[(n + variant) % 3], n));
            }
        }
    }
    v
}

fn canonical(links: &[(usize, usize)], count: usize) -> bool {
    let mut perms = vec![vec![]];
    for _ in 1..count {
        let mut next = vec![];
        for p in perms {
            for i in 1..count {
                if !p.contains(&i) {
                    let mut q: Vec<usize> = p.clone();
                    q.push(i);
                    next.push(q);
                }
            }
        }
        perms = next;
    }
    let norm = |p: &[usize]| {
        let m = |x: usize| if x == 0 { 0 } else { p[x - 1] };
        let mut l: Vec<_> = links.iter().map(|(a, b)| (m(*a), m(*b))).collect();
        l.sort();
        l
    };
    let mut own = links.to_vec();
    own.sort();
    perms.iter().all(|p| own <= norm(p))
}

pub fn relative(from: &str, to: &str) -> String {
    let f: Vec<&str> = from.split('/').collect();
    let t: Vec<&str> = to.split('/').collect();
    let mut i = 0;
    while i + 1 < f.len() && i + 1 < t.len() && f[i] == t[i] {
        i += 1;
    }
    let mut r = "../".repeat(f.len() - 1 - i);
    r.push_str(&t[i..].join("/"));
    r
}

/// variant 0: include everywhere, one target namespace; 1: import everywhere, a namespace per file;
/// 2: odd files share the main namespace (include), even files have their own (import);
/// 3: all other files share a namespace of their own; 4: all other files have no namespace.
fn graph_suite(count: usize, links: &[(usize, usize)], variant: usize, paths: &[&str; 4], n: usize) -> Suite {
    let own = |i: usize| match variant {
        0 => false,
        2 => i > 0 && i % 2 == 0,
        _ => i > 0,
    };
    // include requires equal target namespaces: group 0 = main namespace, group i = own
    let tns = |i: usize| -> Option<String> {
        if own(i) {
            match variant {
                3 => Some("urn:others".into()),
                4 => None,
                _ => Some(format!("urn:file{i}")),
            }
        } else {
            match variant {
                0 if n % 2 == 0 => None,
                _ => Some(T1.to_string()),
            }
        }
    };
    let forms = [Form::Qualified, Form::Unqualified, Form::Absent];
    // every file has its own default
    let form = |i: usize| forms[(n + i) % 3];
    let mut files = vec![];
    let names = ["Zero", "One", "Two", "Three"];
    for i in 0..count {
        let mut decls = vec![];
        if i == 0 {
            // the root refers to every type of every file
            let mut items = vec![];
            for j in 1..count {
                items.push(el(&format!("kid{}", names[j]), Ty::Ref(QRef { ns: tns(j), local: format!("Type{}", names[j]) }), OPT));
                let Item::El(mut e) = els("x", OPT) else { unreachable!() };
                e.eref = Some(QRef { ns: tns(j), local: format!("el{}", names[j]) });
                items.push(Item::El(e));
            }
            decls.push(del("root", cty(seq(items))));
        } else {
            // refers to the types of the files it links to
            let mut items = vec![els("own", ONE)];
            for (a, b) in links {
                if *a == i && *b != 0 && *b > i {
                    items.push(el(&format!("via{}", names[*b]), Ty::Ref(QRef { ns: tns(*b), local: format!("Type{}", names[*b]) }), OPT));
                }
            }
            decls.push(dcx(&format!("Type{}", names[i]), cx(Content::Group(group(Kind::Seq, ONE, items)), vec![at("code", Ty::Ref(QRef { ns: tns(i), local: format!("Code{}", names[i]) }), Use::Optional)])));
            decls.push(dsi(&format!("Code{}", names[i]), en(&[&format!("C{i}"), "X"])));
            decls.push(del(&format!("el{}", names[i]), if i % 2 == 0 { Ty::Ref(QRef { ns: tns(i), local: format!("Type{}", names[i]) }) } else { Ty::Lit(Lit::Int) }));
        }
        let mut f = file(decls);
        f.path = paths[i].to_string();
        f.tns = tns(i);
        f.form = form(i);
        for (a, b) in links {
            if *a == i {
                f.links.push(Link { import: tns(i) != tns(*b), location: relative(paths[i], paths[*b]), file: *b });
            }
        }
        files.push(f);
    }
    let mut s = suite_files("files", format!("{count} files links {links:?} variant {variant} paths {paths:?} n {n}"), files);
    s.opt.valid_cap = 40;
    s.opt.mutate_dev = 0;
    s.opt.mutate_cap = 40;
    s
}

// ---------------------------------------------------------------- references

/// The same content behind every kind of indirection: the reference decoder flattens all of them.
pub fn f_alias(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let cfgs: &[NsCfg] = if tier == Tier::Quick { &[NO_NS, TNS_Q, TNS_U] } else { &NS_ALL };
    let contents = 0..9;
    let mut n = 0;
    for c in contents {
        for how in 0..7 {
            for pos in positions() {
                for cfg in cfgs {
                    n += 1;
                    if tier == Tier::Quick && (n + n / 3) % 3 != 0 {
                        continue;
                    }
                    let mut b = B::new(cfg.tns);
                    let def: Result<Simple, Complex> = match c {
                        0 => Ok(s(Lit::String)),
                        1 => Ok(s(Lit::Int)),
                        2 => Ok(s(Lit::Boolean)),
                        3 => Ok(en(&["A", "B"])),
                        4 => Err(seq(vec![els("inA", ONE), els("inB", OPT)])),
                        5 => Err(cx(Content::Group(group(Kind::Choice, ONE, vec![els("inA", ONE), els("inB", ONE)])), vec![attr_str("tag", Use::Optional)])),
                        6 => Err(cx(Content::SimpleExt(Ty::Lit(Lit::Int)), vec![attr_str("unit", Use::Required)])),
                        7 => Err(cx(Content::Empty, vec![attr_str("only", Use::Optional)])),
                        _ => Err(cx(Content::Group(group(Kind::Seq, STAR, vec![els("inA", ONE)])), vec![])),
                    };
                    let inline = |d: Result<Simple, Complex>| match d {
                        Ok(s) => Ty::Simple(s),
                        Err(c) => cty(c),
                    };
                    let named = |b: &mut B, d: Result<Simple, Complex>| match d {
                        Ok(s) => b.simple(s),
                        Err(c) => b.complex(c),
                    };
                    let root = place(&mut b, pos, &mut |b, o| {
                        let d = match &def {
                            Ok(s) => Ok(s.clone()),
                            Err(c) => Err(c.clone()),
                        };
                        match how {
                            0 => el("item", inline(d), o),
                            1 => {
                                let t = named(b, d);
                                el("item", t, o)
                            }
                            2 => {
                                let Item::El(mut e) = els("x", o) else { unreachable!() };
                                e.eref = Some(b.global(inline(d), None));
                                Item::El(e)
                            }
                            3 => {
                                let t = named(b, d);
                                let Item::El(mut e) = els("x", o) else { unreachable!() };
                                e.eref = Some(b.global(t, None));
                                Item::El(e)
                            }
                            5 | 6 => {
                                // the name of an element in place of the name of its type, once and twice removed
                                let t = named(b, d);
                                let mut r = b.global(t, None);
                                for _ in 5..how {
                                    r = b.global(Ty::Ref(r), None);
                                }
                                el("item", Ty::Ref(r), o)
                            }
                            _ => {
                                // a chain: element reference inside a named type of an element reference
                                let t = named(b, d);
                                let r = b.global(t, None);
                                let Item::El(mut e) = els("x", ONE) else { unreachable!() };
                                e.eref = Some(r);
                                let t = b.complex(seq(vec![Item::El(e)]));
                                let r = b.global(t, None);
                                let Item::El(mut e) = els("x", o) else { unreachable!() };
                                e.eref = Some(r);
                                Item::El(e)
                            }
                        }
                    });
                    let mut s = b.done("alias", format!("content {c} how {how} {pos:?} {cfg:?}"), cty(root), *cfg);
                    s.opt.valid_cap = 30;
                    s.opt.mutate_cap = 60;
                    v.push(s);
                }
            }
        }
        // as root type and as attribute type
        for cfg in cfgs {
            for how in 0..6 {
                let mut b = B::new(cfg.tns);
                let simple = match c {
                    0 => s(Lit::String),
                    1 => s(Lit::Int),
                    2 => s(Lit::Boolean),
                    3 => en(&["A", "B"]),
                    _ => continue,
                };
                let root = match how {
                    0 => b.simple(simple),
                    1 => Ty::Simple(simple),
                    4 => {
                        let t = b.simple(simple);
                        let g = b.global(t, None);
                        let g = b.global(Ty::Ref(g), None);
                        cty(cx(Content::Group(group(Kind::Seq, ONE, vec![el("kid", Ty::Ref(g.clone()), STAR)])), vec![at("num", Ty::Ref(g), Use::Required)]))
                    }
                    5 => {
                        let g = b.global(Ty::Simple(simple), None);
                        let g = b.global(Ty::Ref(g), None);
                        Ty::Ref(g)
                    }
                    2 => {
                        let t = b.simple(simple);
                        cty(cx(Content::Group(group(Kind::Seq, ONE, vec![el("kid", t.clone(), STAR)])), vec![at("num", t, Use::Required)]))
                    }
                    _ => {
                        let t = b.simple(simple);
                        cty(cx(Content::SimpleExt(t.clone()), vec![at("num", t, Use::Required)]))
                    }
                };
                v.push(b.done("alias", format!("simple {c} as root {how} {cfg:?}"), root, *cfg));
            }
        }
    }
    // elements and types are different symbol spaces: an element with the name of its type
    for c in 0..6 {
        for first in [false, true] {
            for cfg in cfgs {
                let mut b = B::new(cfg.tns);
                let decl = |n: &str| match c {
                    0 => dsi(n, s(Lit::Int)),
                    1 => dsi(n, en(&["A", "B"])),
                    2 => dcx(n, seq(vec![els("inA", ONE), els("inB", OPT)])),
                    3 => dcx(n, cx(Content::Group(group(Kind::Choice, ONE, vec![els("inA", ONE), els("inB", ONE)])), vec![attr_str("tag", Use::Optional)])),
                    4 => dcx(n, cx(Content::SimpleExt(Ty::Lit(Lit::Int)), vec![attr_str("unit", Use::Required)])),
                    _ => dcx(n, cx(Content::Empty, vec![attr_str("only", Use::Optional)])),
                };
                let mut own = [decl("thing"), del("thing", Ty::Ref(b.r("thing")))];
                if first {
                    own.reverse();
                }
                b.decls.extend(own);
                let rf = |o: Occ| {
                    let Item::El(mut e) = els("x", o) else { unreachable!() };
                    e.eref = Some(b.r("thing"));
                    Item::El(e)
                };
                let root = cty(seq(vec![rf(OPT), el("kid", Ty::Ref(b.r("thing")), STAR)]));
                v.push(b.done("alias", format!("element {} its type of the same name, content {c} {cfg:?}", if first { "before" } else { "after" }), root, *cfg));
                // the same for the root element
                let mut b = B::new(cfg.tns);
                b.decls.push(decl("root"));
                let root = Ty::Ref(b.r("root"));
                let mut su = b.done("alias", format!("root element {} its type of the same name, content {c} {cfg:?}", if first { "before" } else { "after" }), root, *cfg);
                if !first {
                    su.files[0].decls.reverse();
                }
                v.push(su);
            }
        }
    }
    v
}

// ---------------------------------------------------------------- declaration order

pub fn f_order(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let cfgs: &[NsCfg] = &[NO_NS, TNS_Q, TNS_U];
    let perms = |n: usize| {
        let mut ps: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..n {
            ps = ps.into_iter().flat_map(|p| (0..n).filter(|i| !p.contains(i)).map(|i| [p.clone(), vec![i]].concat()).collect::<Vec<_>>()).collect();
        }
        ps
    };
    for kind in 0..7 {
        for cfg in cfgs {
            let mut b = B::new(cfg.tns);
            let g = |k, o, i| Item::Group(group(k, o, i));
            let rf = |r: QRef, o: Occ| {
                let Item::El(mut e) = els("x", o) else { unreachable!() };
                e.eref = Some(r);
                Item::El(e)
            };
            let root = match kind {
                0 => {
                    let st = b.simple(s(Lit::Int));
                    let base = b.complex_ref(cx(Content::Group(group(Kind::Seq, ONE, vec![el("num", st.clone(), ONE)])), vec![at("code", st, Use::Optional)]));
                    let t = b.complex(cx(Content::ComplexExt { base, seq: Some(group(Kind::Seq, ONE, vec![els("own", OPT)])) }, vec![]));
                    cty(seq(vec![el("kid", t, STAR)]))
                }
                1 => {
                    let e = b.simple(en(&["A", "B"]));
                    let r = b.global(e.clone(), None);
                    let t = b.complex(seq(vec![rf(r, STAR)]));
                    cty(cx(Content::Group(group(Kind::Choice, ONE, vec![el("kid", t, ONE), el("pick", e, ONE)])), vec![]))
                }
                2 => {
                    let st = b.simple(s(Lit::String));
                    let t = b.complex(cx(Content::SimpleExt(st), vec![attr_str("unit", Use::Optional)]));
                    let r = b.global(t, None);
                    cty(seq(vec![g(Kind::Choice, STAR, vec![rf(r, ONE), els("other", ONE)])]))
                }
                3 => {
                    let r1 = b.global(Ty::Lit(Lit::Int), None);
                    let r2 = b.global(cty(seq(vec![rf(r1.clone(), OPT), els("own", ONE)])), None);
                    let r3 = b.global(Ty::Lit(Lit::String), Some("K"));
                    cty(seq(vec![rf(r2, STAR), rf(r1, OPT), rf(r3, OPT)]))
                }
                4 => {
                    // recursive types through a repetition
                    let n = b.fresh("Tree");
                    let r = b.r(&n);
                    b.decls.push(dcx(&n, seq(vec![els("label", ONE), el("branch", Ty::Ref(r.clone()), STAR)])));
                    let e = b.simple(en(&["X", "Y"]));
                    let st = b.simple(s(Lit::Int));
                    cty(cx(Content::Group(group(Kind::Seq, ONE, vec![el("tree", Ty::Ref(r), ONE), el("mark", e, OPT)])), vec![at("num", st, Use::Optional)]))
                }
                5 => {
                    // two anonymous types with the same path in different owners
                    let t1 = b.complex(seq(vec![el("data", cty(seq(vec![els("one", ONE)])), ONE)]));
                    let t2 = b.complex(seq(vec![el("data", cty(seq(vec![els("two", ONE)])), ONE)]));
                    let t3 = b.complex(seq(vec![g(Kind::Choice, ONE, vec![els("firstName", ONE), els("lastName", ONE)])]));
                    cty(seq(vec![el("left", t1, OPT), el("right", t2, OPT), el("mid", t3, OPT)]))
                }
                _ => {
                    let base = b.complex_ref(seq(vec![els("inA", ONE)]));
                    let mid = b.complex_ref(cx(Content::ComplexExt { base, seq: None }, vec![attr_str("midAttr", Use::Optional)]));
                    let top = b.complex(cx(Content::ComplexExt { base: mid, seq: Some(group(Kind::Seq, OPT, vec![els("inB", ONE)])) }, vec![attr_str("topAttr", Use::Required)]));
                    cty(seq(vec![el("kid", top, PLUS)]))
                }
            };
            let s0 = b.done("order", format!("kind {kind} {cfg:?}"), root, *cfg);
            let ps = perms(s0.files[0].decls.len());
            for (i, p) in ps.iter().enumerate() {
                if tier == Tier::Quick && ps.len() > 24 && i % 5 != 0 && i + 1 != ps.len() {
                    continue;
                }
                let mut s = s0.clone();
                s.desc = format!("{} order {p:?}", s0.desc);
                s.files[0].decls = p.iter().map(|i| s0.files[0].decls[*i].clone()).collect();
                s.opt.valid_cap = 30;
                s.opt.mutate_cap = 40;
                v.push(s);
            }
        }
    }
    v
}

// ---------------------------------------------------------------- colliding names

/// Anonymous definitions whose derived names come close to each other.
pub fn f_coll(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let g = |k, o, i| Item::Group(group(k, o, i));
    let pairs: [(&str, &str); 8] = [("firstName", "lastName"), ("angleDeg", "angleRad"), ("fooA", "fooB"), ("oldName", "newName"), ("aa", "bb"), ("startDate", "endDate"), ("name", "nameX"), ("data", "meta")];
    let cfgs = [NO_NS, TNS_Q, TNS_U];
    let mut n = 0;
    let mut add = |desc: String, root: Complex, decls: Vec<Decl>, v: &mut Vec<Suite>| {
        n += 1;
        let cfg = cfgs[n % 3];
        let mut b = B::new(cfg.tns);
        b.decls = decls;
        let fix = |d: &mut Vec<Decl>| {
            // references inside were written without namespace
            for x in d {
                if let Decl::Complex { c, .. } = x {
                    requalify(c, &cfg.tns.map(String::from));
                }
            }
        };
        fix(&mut b.decls);
        let mut root = root;
        requalify(&mut root, &cfg.tns.map(String::from));
        let mut s = b.done("coll", format!("{desc} {cfg:?}"), cty(root), cfg);
        s.opt = DocOpt { valid_cap: 40, mutate_dev: 0, mutate_cap: 40, ..DocOpt::default() };
        if !Env::new(&s).ambiguous() {
            v.push(s);
        }
    };
    // two groups under the same parent
    for (i, (a, b)) in pairs.iter().enumerate() {
        for (j, (c, d)) in pairs.iter().enumerate() {
            for (ki, k1) in [Kind::Choice, Kind::Seq].into_iter().enumerate() {
                for (kj, k2) in [Kind::Choice, Kind::Seq].into_iter().enumerate() {
                    if tier == Tier::Quick && (i + j + ki + kj) % 2 == 1 && i != j {
                        continue;
                    }
                    let (c, d) = if i == j { (format!("other{}", up(a)), format!("more{}", up(b))) } else { (c.to_string(), d.to_string()) };
                    if [*a, *b].contains(&c.as_str()) || [*a, *b].contains(&d.as_str()) {
                        continue;
                    }
                    add(
                        format!("two groups {k1:?}({a},{b}) {k2:?}({c},{d})"),
                        seq(vec![
                            g(k1, OPT, vec![els(a, ONE), el(b, Ty::Lit(Lit::Int), if k1 == Kind::Seq { OPT } else { ONE })]),
                            g(k2, OPT, vec![el(&c, Ty::Lit(Lit::Boolean), ONE), els(&d, if k2 == Kind::Seq { OPT } else { ONE })]),
                        ]),
                        vec![],
                        &mut v,
                    );
                }
            }
        }
    }
    // a group next to an element carrying the group's derived name, or next to an anonymous type
    for (a, b) in pairs {
        for extra in [a, b, "name", "angle", "foo", "date", "root", "base", "data", "rootName", "nameData", "variant"] {
            for k in [Kind::Choice, Kind::Seq] {
                if extra == a || extra == b {
                    continue;
                }
                add(
                    format!("group {k:?}({a},{b}) beside element {extra}"),
                    seq(vec![g(k, OPT, vec![els(a, ONE), els(b, ONE)]), el(extra, Ty::Lit(Lit::Int), OPT)]),
                    vec![],
                    &mut v,
                );
                add(
                    format!("group {k:?}({a},{b}) beside anonymous type {extra}"),
                    seq(vec![g(k, OPT, vec![els(a, ONE), els(b, ONE)]), el(extra, cty(seq(vec![el("inner", Ty::Lit(Lit::Int), ONE)])), OPT)]),
                    vec![],
                    &mut v,
                );
                // the same beside an attribute
                let mut c = seq(vec![g(k, OPT, vec![els(a, ONE), els(b, ONE)])]);
                c.attrs.push(at(extra, Ty::Lit(Lit::Int), Use::Optional));
                add(format!("group {k:?}({a},{b}) beside attribute {extra}"), c, vec![], &mut v);
            }
        }
    }
    // named types that look like derived names
    for (a, b) in pairs {
        for tn in ["RootName", "RootData", "RootAngle", "RootFoo", "RootDate", "RootKidData", "RootFooAFooB", "RootAaBb"] {
            for k in [Kind::Choice, Kind::Seq] {
                add(
                    format!("named type {tn} and group {k:?}({a},{b})"),
                    seq(vec![
                        g(k, OPT, vec![els(a, ONE), els(b, ONE)]),
                        el("kid", cty(seq(vec![els("inner", ONE)])), OPT),
                        el("usesNamed", Ty::Ref(q(tn)), OPT),
                    ]),
                    vec![dcx(tn, seq(vec![el("named", Ty::Lit(Lit::Int), ONE)]))],
                    &mut v,
                );
            }
            add(
                format!("named type {tn} and top choice ({a},{b})"),
                cx(Content::Group(group(Kind::Choice, ONE, vec![els(a, ONE), els(b, ONE), el("usesNamed", Ty::Ref(q(tn)), ONE)])), vec![]),
                vec![dcx(tn, seq(vec![el("named", Ty::Lit(Lit::Int), ONE)]))],
                &mut v,
            );
        }
    }
    // nested anonymous types along paths that concatenate alike
    let paths: [[&str; 2]; 6] = [["al", "beCe"], ["alBe", "ce"], ["albe", "cex"], ["al", "be"], ["alDataBe", "ce"], ["al", "dataBe"]];
    for p in paths {
        for r in paths {
            if p == r || p[0] == r[0] {
                continue;
            }
            let deep = |p: [&str; 2], leaf: &str| el(p[0], cty(seq(vec![el(p[1], cty(seq(vec![els(leaf, ONE)])), ONE)])), OPT);
            add(format!("paths {p:?} {r:?}"), seq(vec![deep(p, "leafOne"), deep(r, "leafTwo")]), vec![], &mut v);
            let t1 = dcx(&up(p[0]), seq(vec![el(p[1], cty(seq(vec![els("leafOne", ONE)])), ONE)]));
            let t2 = dcx(&up(r[0]), seq(vec![el(r[1], cty(seq(vec![els("leafTwo", ONE)])), ONE)]));
            add(
                format!("owners {p:?} {r:?}"),
                seq(vec![el("left", Ty::Ref(q(&up(p[0]))), OPT), el("right", Ty::Ref(q(&up(r[0]))), OPT)]),
                vec![t1, t2],
                &mut v,
            );
        }
    }
    // an anonymous enum, choice, record and attribute type below the same names
    for depth in 0..3 {
        let e1 = Ty::Simple(en(&["A", "B"]));
        let e2 = Ty::Simple(en(&["C", "D", "E"]));
        let inner = cx(
            Content::Group(group(Kind::Seq, ONE, vec![el("kind", e1, OPT), g(Kind::Choice, OPT, vec![els("kindA", ONE), els("kindB", ONE)])])),
            vec![at("mode", e2, Use::Optional)],
        );
        let mut c = inner;
        for _ in 0..depth {
            c = seq(vec![el("kind", cty(c), OPT)]);
        }
        add(format!("kinds at depth {depth}"), c, vec![], &mut v);
    }
    // extension: base name, own names, attribute names
    for own in ["base", "complexBase", "root", "rootBase", "extra"] {
        add(
            format!("extension with own element {own}"),
            cx(
                Content::ComplexExt { base: q("Base"), seq: Some(group(Kind::Seq, OPT, vec![els(own, ONE), el("kid", cty(seq(vec![els("deep", ONE)])), OPT)])) },
                vec![attr_str("flag", Use::Optional)],
            ),
            vec![dcx("Base", seq(vec![els("inA", ONE)]))],
            &mut v,
        );
    }
    v
}

fn up(s: &str) -> String {
    let mut c = s.chars();
    c.next().map(|f| f.to_uppercase().chain(c).collect()).unwrap_or_default()
}

fn requalify(c: &mut Complex, ns: &Option<String>) {
    fn ty(t: &mut Ty, ns: &Option<String>) {
        match t {
            Ty::Ref(r) => r.ns = ns.clone(),
            Ty::Complex(c) => requalify(c, ns),
            _ => {}
        }
    }
    fn grp(g: &mut Group, ns: &Option<String>) {
        for i in &mut g.items {
            match i {
                Item::El(e) => {
                    ty(&mut e.ty, ns);
                    if let Some(r) = &mut e.eref {
                        r.ns = ns.clone();
                    }
                }
                Item::Group(g) => grp(g, ns),
            }
        }
    }
    for a in &mut c.attrs {
        ty(&mut a.ty, ns);
    }
    match &mut c.content {
        Content::Empty => {}
        Content::Group(g) => grp(g, ns),
        Content::SimpleExt(t) => ty(t, ns),
        Content::ComplexExt { base, seq } => {
            base.ns = ns.clone();
            if let Some(g) = seq {
                grp(g, ns)
            }
        }
    }
}

// ---------------------------------------------------------------- the same schemas in two files

fn rename_refs(c: &mut Complex, f: &dyn Fn(&mut QRef)) {
    fn grp(g: &mut Group, f: &dyn Fn(&mut QRef)) {
        for i in &mut g.items {
            match i {
                Item::El(e) => {
                    rename_ty(&mut e.ty, f);
                    e.eref.iter_mut().for_each(f);
                }
                Item::Group(g) => grp(g, f),
            }
        }
    }
    for a in &mut c.attrs {
        rename_ty(&mut a.ty, f);
    }
    match &mut c.content {
        Content::Empty => {}
        Content::Group(g) => grp(g, f),
        Content::SimpleExt(t) => rename_ty(t, f),
        Content::ComplexExt { base, seq } => {
            f(base);
            if let Some(g) = seq {
                grp(g, f)
            }
        }
    }
}

fn rename_ty(t: &mut Ty, f: &dyn Fn(&mut QRef)) {
    match t {
        Ty::Ref(r) => f(r),
        Ty::Complex(c) => rename_refs(c, f),
        _ => {}
    }
}

/// The suite with its declarations spread over two files: those picked by `far` in the second one, which is
/// included, or imported with a namespace of its own.
pub fn split(s: &Suite, import: Option<(Option<&str>, Form)>, far: &dyn Fn(usize) -> bool, how: &str) -> Option<Suite> {
    if s.files.len() != 1 || s.files[0].decls.len() < 2 || s.root_file != 0 {
        return None;
    }
    let mut w = s.clone();
    let f0 = &mut w.files[0];
    let all = std::mem::take(&mut f0.decls);
    let root = all.iter().position(|d| matches!(d, Decl::El { name, .. } if *name == s.root))?;
    let moved: Vec<String> = all.iter().enumerate().filter(|(i, _)| *i != root && far(*i)).map(|(_, d)| d.name().to_string()).collect();
    // an element and a type of the same name have to stay together
    if moved.is_empty() || all.iter().enumerate().any(|(i, d)| (i == root || !far(i)) && moved.contains(&d.name().to_string())) {
        return None;
    }
    let (tns, form) = match import {
        None => (f0.tns.clone(), f0.form),
        Some((ns, form)) => (ns.map(String::from), form),
    };
    if import.is_some() && (tns == f0.tns || tns.is_none() && f0.style != RefStyle::Prefix) {
        return None;
    }
    let mut f1 = file(vec![]);
    f1.path = "far.xsd".into();
    f1.tns = tns.clone();
    f1.form = form;
    for (i, mut d) in all.into_iter().enumerate() {
        let f = |r: &mut QRef| {
            if moved.contains(&r.local) {
                r.ns = tns.clone();
            }
        };
        match &mut d {
            Decl::El { ty, .. } => rename_ty(ty, &f),
            Decl::Complex { c, .. } => rename_refs(c, &f),
            Decl::Simple { .. } => {}
        }
        if i != root && far(i) {
            f1.decls.push(d);
        } else {
            f0.decls.push(d);
        }
    }
    f0.links = vec![Link { import: import.is_some(), location: "far.xsd".into(), file: 1 }];
    if f0.decls.len() > 1 {
        // what is far may refer to what stayed
        f1.links = vec![Link { import: import.is_some(), location: f0.path.clone(), file: 0 }];
    }
    w.files.push(f1);
    w.desc = format!("{} [{how}]", w.desc);
    w.opt.mutate_cap = w.opt.mutate_cap.min(40);
    w.opt.valid_cap = w.opt.valid_cap.min(40);
    Some(w)
}

/// Every suite in one of six ways (thorough: in all of them) spread over two files.
pub fn far(suites: Vec<Suite>, tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let mut n = 0;
    for s in &suites {
        let mut ways = vec![];
        ways.extend(split(s, Some((Some(T2), Form::Qualified)), &|_| true, "imported, qualified"));
        ways.extend(split(s, None, &|_| true, "included"));
        ways.extend(split(s, Some((Some(T2), Form::Unqualified)), &|_| true, "imported, unqualified"));
        ways.extend(split(s, Some((Some(T2), Form::Qualified)), &|i| i % 2 == 1, "every second imported"));
        ways.extend(split(s, Some((Some(T2), Form::Unqualified)), &|i| i % 2 == 0, "every other imported"));
        ways.extend(split(s, Some((None, Form::Qualified)), &|_| true, "imported without namespace"));
        if ways.is_empty() {
            continue;
        }
        if tier == Tier::Quick {
            n += 1;
            let k = (n + n / 7) % ways.len();
            v.push(ways.swap_remove(k));
        } else {
            v.append(&mut ways);
        }
    }
    v
}

// ---------------------------------------------------------------- documents of the other global elements

/// The suites with another one of their global elements as the root of the documents.
pub fn other_roots(suites: Vec<Suite>) -> Vec<Suite> {
    let mut v = vec![];
    for s in suites {
        for (k, f) in s.files.iter().enumerate() {
            for d in &f.decls {
                if let Decl::El { name, .. } = d {
                    if (k, name) != (s.root_file, &s.root) {
                        let mut w = s.clone();
                        w.root = name.clone();
                        w.root_file = k;
                        w.root_ty = crate::refdec::type_name(name);
                        w.desc = format!("{} [documents of {name}]", s.desc);
                        v.push(w);
                    }
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- recursive types

pub fn f_rec(tier: Tier) -> Vec<Suite> {
    let mut v = vec![];
    let g = |k, o, i| Item::Group(group(k, o, i));
    let reps = [STAR, Occ { min: 0, max: Some(3) }, PLUS];
    let mut n = 0;
    for kind in 0..12 {
        for rep in reps {
            for host in 0..4 {
                for cfg in NS_ALL {
                    n += 1;
                    if tier == Tier::Quick && n % 3 != 0 {
                        continue;
                    }
                    let mut b = B::new(cfg.tns);
                    let rf = |r: QRef, o: Occ| {
                        let Item::El(mut e) = els("x", o) else { unreachable!() };
                        e.eref = Some(r);
                        Item::El(e)
                    };
                    // a repetition that need not occur: PLUS is used below something optional only
                    let opt = if rep == PLUS { STAR } else { rep };
                    let node = b.r("Node");
                    let t = Ty::Ref(node.clone());
                    match kind {
                        0 => b.decls.push(dcx("Node", seq(vec![els("label", ONE), el("branch", t.clone(), opt)]))),
                        1 => b.decls.push(dcx("Node", seq(vec![el("branch", t.clone(), opt), els("label", OPT)]))),
                        2 => b.decls.push(dcx("Node", cx(Content::Group(group(Kind::Seq, ONE, vec![g(Kind::Choice, rep, vec![els("leaf", ONE), el("branch", t.clone(), ONE)])])), vec![attr_str("id", Use::Optional)]))),
                        3 => b.decls.push(dcx("Node", cx(Content::Group(group(Kind::Choice, ONE, vec![els("leaf", ONE), el("branch", t.clone(), rep)])), vec![]))),
                        4 => b.decls.push(dcx("Node", seq(vec![els("label", ONE), g(Kind::Seq, OPT, vec![els("mark", ONE), el("branch", t.clone(), rep)])]))),
                        5 => b.decls.push(dcx("Node", seq(vec![g(Kind::Choice, opt, vec![el("leaf", Ty::Lit(Lit::Int), ONE), g(Kind::Seq, ONE, vec![el("branch", t.clone(), ONE), els("mark", OPT)])]), els("label", OPT)]))),
                        6 => {
                            // two types that contain each other
                            b.decls.push(dcx("Node", seq(vec![el("other", Ty::Ref(b.r("Other")), opt), els("label", ONE)])));
                            b.decls.push(dcx("Other", cx(Content::Group(group(Kind::Seq, ONE, vec![els("word", OPT), el("branch", t.clone(), opt)])), vec![at("num", Ty::Lit(Lit::Int), Use::Optional)])));
                        }
                        7 => {
                            // through a reference to the element itself
                            b.decls.push(del("tree", Ty::Ref(node.clone())));
                            b.decls.push(dcx("Node", seq(vec![els("label", ONE), rf(b.r("tree"), opt)])));
                        }
                        8 => {
                            b.decls.push(del("tree", cty(seq(vec![els("label", OPT), rf(b.r("tree"), opt)]))));
                            b.decls.push(dcx("Node", seq(vec![rf(b.r("tree"), rep)])));
                        }
                        9 => {
                            // the base contains what extends it
                            b.decls.push(dcx("Base", cx(Content::Group(group(Kind::Seq, ONE, vec![els("label", ONE), el("branch", t.clone(), opt)])), vec![attr_str("id", Use::Optional)])));
                            b.decls.push(dcx("Node", cx(Content::ComplexExt { base: b.r("Base"), seq: Some(group(Kind::Seq, ONE, vec![els("own", OPT)])) }, vec![attr_str("kind", Use::Required)])));
                        }
                        10 => {
                            // the extension contains itself
                            b.decls.push(dcx("Base", seq(vec![els("label", ONE)])));
                            b.decls.push(dcx("Node", cx(Content::ComplexExt { base: b.r("Base"), seq: Some(group(Kind::Seq, OPT, vec![el("branch", t.clone(), rep)])) }, vec![])));
                        }
                        _ => b.decls.push(dcx("Node", seq(vec![els("label", ONE), el("inner", cty(cx(Content::Group(group(Kind::Seq, ONE, vec![el("branch", t.clone(), opt)])), vec![attr_str("id", Use::Optional)])), OPT)]))),
                    }
                    let root = match host {
                        0 => t,
                        1 => cty(seq(vec![els("before", OPT), el("top", t, PLUS)])),
                        2 => cty(cx(Content::Group(group(Kind::Choice, ONE, vec![els("nothing", ONE), el("top", t, ONE)])), vec![])),
                        _ => cty(cx(Content::ComplexExt { base: node, seq: Some(group(Kind::Seq, ONE, vec![els("last", OPT)])) }, vec![attr_str("more", Use::Optional)])),
                    };
                    let mut s = b.done("rec", format!("recursive {kind} {rep:?} host {host} {cfg:?}"), root, cfg);
                    s.opt.valid_cap = 60;
                    s.opt.mutate_cap = 60;
                    v.push(s);
                }
            }
        }
    }
    let mut more = far(v.clone(), Tier::Quick);
    v.append(&mut more);
    v
}

// ---------------------------------------------------------------- malformed input

/// Every string of up to `len` tokens over a markup alphabet, for a few schemas.
pub fn f_garbage(tier: Tier) -> Vec<Suite> {
    let tokens = ["<root>", "</root>", "<root/>", "<a>", "</a>", "<a/>", "<b x=\"1\"/>", "x", "&", "&amp;", "<", "<!--", "-->", "<![CDATA[", "]]>", "<?xml version=\"1.0\"?>", " "];
    let len = if tier == Tier::Quick { 4 } else { 5 };
    let mut v = vec![];
    let roots: [Complex; 3] = [
        seq(vec![els("a", OPT), els("b", STAR)]),
        cx(Content::Group(group(Kind::Choice, ONE, vec![els("a", ONE), el("b", cty(cx(Content::Empty, vec![attr_str("x", Use::Required)])), ONE)])), vec![]),
        cx(Content::Group(group(Kind::All, ONE, vec![el("a", Ty::Lit(Lit::Int), OPT), els("b", ONE)])), vec![]),
    ];
    // one third of the strings each, by first token, all of them for the first schema
    for (i, r) in roots.into_iter().enumerate() {
        let b = B::new(None);
        let mut s = b.done("garbage", format!("token strings {i}"), cty(r), NO_NS);
        let l = if i == 0 { len } else { len - 1 };
        s.opt = DocOpt { valid_cap: 1, mutate_dev: 0, mutate_cap: 0, extra: vec![], ..DocOpt::default() };
        for x in strings(&tokens, l) {
            s.opt.extra.push(Extra { xml: x, expect: ExtraExpect::Model });
        }
        v.push(s);
    }
    v
}

// ---------------------------------------------------------------- known limits

/// Schemas that are accepted although the generated code cannot be compiled: the generator has one
/// Rust name per XML name and no indirection. Listed one by one in known-findings.json.
pub fn f_limits() -> Vec<Suite> {
    let plain = |t: &str| dcx(t, seq(vec![els("a", ONE)]));
    let mut v = vec![];
    let mut add = |desc: &str, root: Ty, decls: Vec<Decl>| {
        let mut b = B::new(None);
        b.decls = decls;
        let mut s = b.done("limits", desc.into(), root, NO_NS);
        s.opt = DocOpt { valid_cap: 10, mutate_dev: 0, mutate_cap: 0, ..DocOpt::default() };
        v.push(s);
    };
    let other = || cty(seq(vec![els("x", OPT)]));
    add("element order of type Order", other(), vec![del("order", Ty::Ref(q("Order"))), plain("Order")]);
    add("types aB and AB", other(), vec![plain("aB"), plain("AB")]);
    add("the same element twice in a sequence", cty(seq(vec![els("a", ONE), els("b", ONE), els("a", ONE)])), vec![]);
    add(
        "an element and an attribute of the same name",
        cty(cx(Content::Group(group(Kind::Seq, ONE, vec![els("a", ONE)])), vec![attr_str("a", Use::Optional)])),
        vec![],
    );
    add("elements whose names differ in case only", cty(seq(vec![els("fooBar", ONE), els("FooBar", ONE)])), vec![]);
    add(
        "a type that optionally contains itself",
        cty(seq(vec![el("node", Ty::Ref(q("Node")), ONE)])),
        vec![dcx("Node", seq(vec![els("label", ONE), el("next", Ty::Ref(q("Node")), OPT)]))],
    );
    // one name in two namespaces
    let mut b = B::new(Some(T1));
    b.decls = vec![plain("Part")];
    let mut s = b.done("limits", "types of the same name in two namespaces".into(), other(), TNS_Q);
    let mut far = file(vec![plain("Part")]);
    far.path = "far.xsd".into();
    far.tns = Some(T2.into());
    s.files.push(far);
    s.files[0].links.push(Link { import: true, location: "far.xsd".into(), file: 1 });
    v.push(s);
    v
}
