//! Parsing of `{:?}` output and its comparison with expected values.

use crate::refdec::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum D {
    Str(String),
    /// number, boolean, unit
    Raw(String),
    List(Vec<D>),
    /// Name, Name(..), Name { .. }
    Unit(String),
    Tuple(String, Vec<D>),
    Struct(String, Vec<(String, D)>),
}

struct P<'a> {
    s: &'a [char],
    i: usize,
}

pub fn parse(text: &str) -> Result<D, String> {
    let cs: Vec<char> = text.chars().collect();
    let mut p = P { s: &cs, i: 0 };
    let d = p.val()?;
    p.ws();
    if p.i != cs.len() {
        return Err(format!("trailing debug text at {}", p.i));
    }
    Ok(d)
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn eat(&mut self, c: char) -> bool {
        self.ws();
        if self.peek() == Some(c) {
            self.i += 1;
            return true;
        }
        false
    }
    fn ident(&mut self) -> String {
        self.ws();
        let st = self.i;
        while self.peek().is_some_and(|c| c.is_alphanumeric() || matches!(c, '_' | '#' | '.' | '-' | '+')) {
            self.i += 1;
        }
        self.s[st..self.i].iter().collect()
    }
    fn list(&mut self, close: char) -> Result<Vec<D>, String> {
        let mut v = vec![];
        loop {
            if self.eat(close) {
                return Ok(v);
            }
            v.push(self.val()?);
            self.eat(',');
        }
    }
    fn val(&mut self) -> Result<D, String> {
        self.ws();
        match self.peek() {
            None => Err("debug text ends".into()),
            Some('"') => {
                self.i += 1;
                let mut r = String::new();
                loop {
                    let c = self.peek().ok_or("unterminated")?;
                    self.i += 1;
                    match c {
                        '"' => return Ok(D::Str(r)),
                        '\\' => {
                            let e = self.peek().ok_or("escape")?;
                            self.i += 1;
                            match e {
                                'n' => r.push('\n'),
                                'r' => r.push('\r'),
                                't' => r.push('\t'),
                                '0' => r.push('\0'),
                                'u' => {
                                    self.eat('{');
                                    let h = self.ident();
                                    self.eat('}');
                                    let n = u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?;
                                    r.push(char::from_u32(n).ok_or("char")?);
                                }
                                c => r.push(c),
                            }
                        }
                        c => r.push(c),
                    }
                }
            }
            Some('[') => {
                self.i += 1;
                Ok(D::List(self.list(']')?))
            }
            Some('(') => {
                self.i += 1;
                let v = self.list(')')?;
                if v.is_empty() { Ok(D::Raw("()".into())) } else { Ok(D::Tuple(String::new(), v)) }
            }
            Some(c) if c.is_ascii_digit() || c == '-' => Ok(D::Raw(self.ident())),
            Some(_) => {
                let id = self.ident();
                if id.is_empty() {
                    return Err(format!("unexpected {:?}", self.peek()));
                }
                if matches!(id.as_str(), "true" | "false" | "NaN" | "inf") {
                    return Ok(D::Raw(id));
                }
                if self.eat('(') {
                    return Ok(D::Tuple(id, self.list(')')?));
                }
                if self.eat('{') {
                    let mut v = vec![];
                    loop {
                        if self.eat('}') {
                            return Ok(D::Struct(id, v));
                        }
                        let k = self.ident();
                        if k.is_empty() || !self.eat(':') {
                            return Err("field".into());
                        }
                        v.push((k, self.val()?));
                        self.eat(',');
                    }
                }
                Ok(D::Unit(id))
            }
        }
    }
}

/// What has been learnt about the names of one generated module; must stay consistent.
#[derive(Default)]
pub struct Bind {
    fwd: HashMap<(String, String), String>,
    rev: HashMap<(String, String), String>,
    rust_ty: HashMap<String, String>,
}

impl Bind {
    fn bind(&mut self, key: &str, value: &str, ident: &str) -> Result<(), String> {
        let f = self.fwd.entry((key.to_string(), value.to_string())).or_insert_with(|| ident.to_string());
        if f != ident {
            return Err(format!("{value:?} of {key} is variant {ident} here but {f} elsewhere"));
        }
        let r = self.rev.entry((key.to_string(), ident.to_string())).or_insert_with(|| value.to_string());
        if r != value {
            return Err(format!("variant {ident} of {key} stands for both {value:?} and {r:?}"));
        }
        Ok(())
    }
    fn ty(&mut self, key: &str, rust: &str) -> Result<(), String> {
        let k = self.rust_ty.entry(rust.to_string()).or_insert_with(|| key.to_string());
        if k != key {
            return Err(format!("Rust type {rust} stands for two definitions: {k} and {key}"));
        }
        Ok(())
    }
}

fn dec_norm(s: &str) -> String {
    let (neg, b) = match s.strip_prefix('-') {
        Some(b) => (true, b),
        None => (false, s),
    };
    let b = if b.contains('.') { b.trim_end_matches('0').trim_end_matches('.') } else { b };
    if neg && b != "0" { format!("-{b}") } else { b.to_string() }
}

pub fn compare(v: &Val, d: &D, loose: bool, b: &mut Bind) -> Result<(), String> {
    let bad = |what: &str| Err(format!("expected {what}, got {d:?}"));
    match (v, d) {
        (Val::Str(s), D::Str(t)) => {
            if s == t {
                Ok(())
            } else {
                bad(&format!("text {s:?}"))
            }
        }
        (Val::Raw(s), D::Raw(t)) if s == t => Ok(()),
        (Val::Dec(s), D::Raw(t)) if dec_norm(s) == dec_norm(t) => Ok(()),
        (Val::Unit, D::Raw(t)) if t == "()" => Ok(()),
        (Val::New(inner), D::Tuple(_, items)) if items.len() == 1 => compare(inner, &items[0], loose, b),
        (Val::None, D::Unit(n)) if n == "None" => Ok(()),
        (Val::Some(inner), D::Tuple(n, items)) if n == "Some" && items.len() == 1 => compare(inner, &items[0], loose, b),
        (Val::List(vs), D::List(ds)) => {
            if vs.len() != ds.len() {
                return bad(&format!("{} occurrences", vs.len()));
            }
            vs.iter().zip(ds).try_for_each(|(v, d)| compare(v, d, loose, b))
        }
        (Val::Enum { key, value }, D::Unit(id)) => b.bind(key, value, id),
        (Val::Alt { key, alt, name, inner }, D::Tuple(id, items)) if items.len() == 1 => {
            if let (Some(n), false) = (name, loose) {
                if n != id {
                    return bad(&format!("alternative {n}"));
                }
            }
            b.bind(key, &format!("alternative {alt}"), id)?;
            compare(inner, &items[0], loose, b)
        }
        (Val::Rec { key, ty, fields }, d) => {
            let (name, ds): (&str, &[(String, D)]) = match d {
                D::Struct(n, f) => (n, f),
                D::Unit(n) => (n, &[]),
                _ => return bad("a struct"),
            };
            if let (Some(t), false) = (ty, loose) {
                if t != name {
                    return bad(&format!("struct {t}"));
                }
            }
            b.ty(key, name)?;
            if fields.len() != ds.len() {
                return Err(format!("expected {} fields {:?}, got {:?}", fields.len(), fields.iter().map(|f| &f.0).collect::<Vec<_>>(), d));
            }
            if loose {
                return fields.iter().zip(ds).try_for_each(|(f, d)| compare(&f.1, &d.1, loose, b).map_err(|e| format!("{}: {e}", d.0)));
            }
            let mut used = vec![false; ds.len()];
            for (n, v) in fields {
                if let Some(n) = n {
                    let want = snake(n);
                    let Some(i) = ds.iter().position(|x| x.0 == want || x.0.strip_prefix("r#") == Some(&want)) else {
                        return Err(format!("no field {want} in {d:?}"));
                    };
                    if used[i] {
                        return Err(format!("field {want} used twice"));
                    }
                    used[i] = true;
                    compare(v, &ds[i].1, loose, b).map_err(|e| format!("{want}: {e}"))?;
                }
            }
            for (n, v) in fields {
                if n.is_none() {
                    let i = used.iter().position(|u| !u).ok_or("fields")?;
                    used[i] = true;
                    compare(v, &ds[i].1, loose, b).map_err(|e| format!("{}: {e}", ds[i].0))?;
                }
            }
            Ok(())
        }
        (v, _) => bad(&format!("{v:?}")),
    }
}
