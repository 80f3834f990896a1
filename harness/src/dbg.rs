//! Reads `{:?}` output of the library's public structures into a tree and compares it with the view a
//! specification gives. Only the fields the specification names are compared.
use serde_json::Value;
use crate::wire;

#[derive(Debug, Clone, PartialEq)]
pub enum T { Atom(String), Str(String), Tup(String, Vec<T>), Struct(String, Vec<(String, T)>), List(Vec<T>), Map(Vec<(T, T)>) }

struct P<'a> { b: &'a [u8], at: usize }
impl<'a> P<'a> {
    fn ws(&mut self) { while self.at < self.b.len() && (self.b[self.at] as char).is_whitespace() { self.at += 1 } }
    fn peek(&self) -> u8 { *self.b.get(self.at).unwrap_or(&0) }
    fn eat(&mut self, c: u8) -> bool { self.ws(); if self.peek() == c { self.at += 1; true } else { false } }
    fn string(&mut self) -> String {
        self.at += 1;
        let mut out = vec![];
        loop {
            match self.b[self.at] {
                b'"' => { self.at += 1; break }
                b'\\' => {
                    self.at += 1;
                    match self.b[self.at] {
                        b'n' => out.push(b'\n'), b'r' => out.push(b'\r'), b't' => out.push(b'\t'), b'0' => out.push(0),
                        b'u' => {
                            let e = self.b[self.at..].iter().position(|c| *c == b'}').unwrap() + self.at;
                            let h = std::str::from_utf8(&self.b[self.at + 2..e]).unwrap();
                            let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap();
                            out.extend(c.to_string().as_bytes());
                            self.at = e;
                        }
                        c => out.push(c),
                    }
                    self.at += 1;
                }
                c => { out.push(c); self.at += 1 }
            }
        }
        String::from_utf8(out).unwrap()
    }
    fn word(&mut self) -> String {
        let st = self.at;
        while self.at < self.b.len() && !b",(){}[]:\" \n".contains(&self.b[self.at]) { self.at += 1 }
        // flags: "A | B | 0x10"
        while self.b[self.at..].starts_with(b" | ") {
            self.at += 3;
            while self.at < self.b.len() && !b",(){}[]:\" \n".contains(&self.b[self.at]) { self.at += 1 }
        }
        String::from_utf8_lossy(&self.b[st..self.at]).into_owned()
    }
    fn items(&mut self, end: u8) -> Vec<T> {
        let mut v = vec![];
        loop {
            if self.eat(end) { break }
            v.push(self.val());
            self.eat(b',');
            if self.at >= self.b.len() { panic!("unterminated") }
        }
        v
    }
    fn val(&mut self) -> T {
        self.ws();
        match self.peek() {
            b'"' => T::Str(self.string()),
            b'[' => { self.at += 1; T::List(self.items(b']')) }
            b'(' => { self.at += 1; T::Tup(String::new(), self.items(b')')) }
            b'{' => {
                self.at += 1;
                let mut v = vec![];
                loop {
                    if self.eat(b'}') { break }
                    let k = self.val();
                    if self.eat(b':') { let x = self.val(); v.push((k, x)); } else { v.push((k, T::Atom(String::new()))) }
                    self.eat(b',');
                    if self.at >= self.b.len() { panic!("unterminated") }
                }
                T::Map(v)
            }
            _ => {
                let w = self.word();
                if w.is_empty() { panic!("bad debug text at {}: {:?}", self.at, String::from_utf8_lossy(&self.b[self.at.saturating_sub(80)..(self.at + 60).min(self.b.len())])) }
                if self.peek() == b'(' { self.at += 1; let it = self.items(b')'); return T::Tup(w, it) }
                let save = self.at;
                self.ws();
                if self.peek() == b'{' {
                    self.at += 1;
                    let mut f = vec![];
                    loop {
                        if self.eat(b'}') { break }
                        self.ws();
                        let k = self.word();
                        assert!(self.eat(b':'), "expected field value after {k:?} in {w}");
                        let x = self.val();
                        f.push((k, x));
                        self.eat(b',');
                        if self.at >= self.b.len() { panic!("unterminated") }
                    }
                    return T::Struct(w, f)
                }
                self.at = save;
                T::Atom(w)
            }
        }
    }
}
impl T {
    /// the value of a field, through wrappers
    pub fn at(&mut self, k: &str) -> Option<&mut T> {
        match self {
            T::Struct(_, f) => f.iter_mut().find(|x| x.0 == k).map(|x| &mut x.1),
            T::Tup(_, v) if v.len() == 1 => v[0].at(k),
            _ => None,
        }
    }
    /// the first field of that name, however deep
    pub fn find(&mut self, k: &str) -> Option<&mut T> {
        match self {
            T::Struct(_, f) => {
                if let Some(n) = f.iter().position(|x| x.0 == k) { return Some(&mut f[n].1) }
                f.iter_mut().find_map(|x| x.1.find(k))
            }
            T::Tup(_, v) => v.iter_mut().find_map(|x| x.find(k)),
            _ => None,
        }
    }
}
pub fn parse(t: &str) -> T { P { b: t.as_bytes(), at: 0 }.val() }

fn short(t: &T) -> String { let s = format!("{t:?}"); if s.len() > 240 { let mut e = 240; while !s.is_char_boundary(e) { e -= 1 } format!("{}...", &s[..e]) } else { s } }

/// strip wrappers that carry no meaning of their own: Some(x), OrderedFloat(x), EnumVariant(Struct{..})
fn strip(t: &T) -> &T {
    match t { T::Tup(_, v) if v.len() == 1 => strip(&v[0]), _ => t }
}
fn number(t: &T) -> Option<f64> {
    match strip(t) {
        T::Atom(a) => a.parse().ok(),
        T::Struct(_, f) if f.len() == 1 => number(&f[0].1),
        _ => None,
    }
}
fn field<'a>(t: &'a T, k: &str) -> Option<&'a T> {
    match t {
        T::Struct(_, f) => f.iter().find(|x| x.0 == k).map(|x| &x.1),
        T::Tup(_, v) if v.len() == 1 => field(&v[0], k),
        _ => None,
    }
}
pub struct Names<'a> { pub bits: &'a dyn Fn(&str, u64) -> String, pub en: &'a dyn Fn(&str, i64) -> String }

pub fn same(v: &Value, t: &T, at: &str, n: &Names) -> Result<(), String> {
    let bad = |what: String| Err(format!("{at}: reported {}, the file denotes {what}", short(t)));
    match v {
        Value::Bool(b) => if *strip(t) == T::Atom(b.to_string()) { Ok(()) } else { bad(b.to_string()) },
        Value::Number(x) => {
            // exact comparison for integers
            let want = x.to_string();
            match strip(t) { T::Atom(a) if *a == want => Ok(()), _ => if number(t).map(|g| g == x.as_f64().unwrap()).unwrap_or(false) { Ok(()) } else { bad(want) } }
        }
        Value::String(x) => {
            let want = wire::text(x);
            match strip(t) { T::Str(a) if *a == want => Ok(()), T::Atom(a) if *a == want => Ok(()), T::Struct(_, f) if f.len() == 1 => same(v, &f[0].1, at, n), _ => bad(format!("{want:?}")) }
        }
        Value::Array(a) => match strip(t) {
            T::List(l) => {
                if l.len() != a.len() { return bad(format!("{} elements: {}", a.len(), v.to_string().chars().take(300).collect::<String>())) }
                for (k, (x, y)) in a.iter().zip(l).enumerate() { same(x, y, &format!("{at}[{k}]"), n)?; }
                Ok(())
            }
            T::Tup(_, l) if l.len() == a.len() => { for (k, (x, y)) in a.iter().zip(l).enumerate() { same(x, y, &format!("{at}.{k}"), n)?; } Ok(()) }
            // a single wrapped value was stripped away
            T::Map(l) if a.is_empty() && l.is_empty() => Ok(()),
            _ => bad(format!("a list of {}", a.len())),
        },
        Value::Object(o) => {
            if o.contains_key("none") { return match t { T::Atom(a) if a == "None" => Ok(()), _ => bad("nothing".into()) } }
            if let Some(x) = o.get("any") { let _ = x; return Ok(()) }
            if let Some(x) = o.get("nm") {
                let want = wire::text(x.as_str().unwrap());
                let num = o["n"].as_i64().unwrap();
                let f = strip(t);
                let (a, b) = (field(f, "value"), field(f, "number"));
                return match (a, b) {
                    (Some(T::Str(a)), Some(b)) if *a == want && number(b) == Some(num as f64) => Ok(()),
                    _ => bad(format!("name {want:?} number {num}")),
                }
            }
            if let Some(x) = o.get("guid") {
                let want = match x { Value::Number(k) if k.as_i64() == Some(0) && o.get("zero").is_some() => vec![0; 16], _ => wire::encode(&[serde_json::json!({"t": "guid", "v": x})]).bytes };
                let w: [u8; 16] = want.try_into().unwrap();
                let txt = format!("{:?}", unreal_helpers::Guid(w));
                let want = parse(&txt);
                return if strip(t) == strip(&want) { Ok(()) } else { bad(short(&want)) }
            }
            if let Some(x) = o.get("f") {
                // a number kept with either precision; the bytes settle which
                let (a, b) = (wire::real32(wire::num(x)), wire::real64(wire::num(x)));
                let same = |g: f64| (g.is_nan() && b.is_nan()) || g == b || g == a as f64 || g as f32 == a || format!("{a:?}").parse() == Ok(g);
                return match number(t) { Some(g) if same(g) && g.is_sign_negative() == b.is_sign_negative() => Ok(()), _ => bad(b.to_string()) }
            }
            if let Some(x) = o.get("bits") {
                let want = (n.bits)(o["of"].as_str().unwrap(), wire::num(x) as u64);
                return if parse(&want) == *t { Ok(()) } else { bad(want) }
            }
            if let Some(x) = o.get("enum") {
                let want = (n.en)(o["of"].as_str().unwrap(), x.as_i64().unwrap());
                return if parse(&want) == *strip(t) { Ok(()) } else { bad(want) }
            }
            if let Some(x) = o.get("str") {   // possibly absent string
                let want = wire::text(x.as_str().unwrap());
                return if *strip(t) == T::Str(want.clone()) { Ok(()) } else { bad(want) }
            }
            if let Some(x) = o.get("map") {   // list of [key, value], in order; shown as a debug map or a list of pairs
                let a = x.as_array().unwrap();
                let pairs: Vec<(&T, &T)> = match strip(t) {
                    T::Map(l) => l.iter().map(|(k, y)| (k, y)).collect(),
                    T::List(l) => l.iter().filter_map(|e| match e { T::Tup(_, v) if v.len() >= 2 => Some((&v[v.len() - 2], &v[v.len() - 1])), _ => None }).collect(),
                    _ => return bad(format!("a map of {}", a.len())),
                };
                if pairs.len() != a.len() { return bad(format!("a map of {}", a.len())) }
                for (k, (w, (gk, gv))) in a.iter().zip(pairs).enumerate() {
                    same(&w[0], gk, &format!("{at}<key {k}>"), n)?;
                    same(&w[1], gv, &format!("{at}<value {k}>"), n)?;
                }
                return Ok(())
            }
            if let Some(x) = o.get("variant") {   // enum variant that wraps its payload
                return match t {
                    T::Tup(w, _) | T::Struct(w, _) | T::Atom(w) if *w == x.as_str().unwrap() => match o.get("of") { Some(y) => match t { T::Tup(_, v) if v.len() == 1 => same(y, &v[0], &format!("{at}.{w}"), n), T::Tup(_, v) => same(y, &T::List(v.clone()), at, n), _ => same(y, t, at, n) }, None => Ok(()) },
                    T::Tup(_, v) if v.len() == 1 => same(&Value::Object(o.clone()), &v[0], at, n),
                    _ => bad(format!("variant {x}")),
                }
            }
            let t2 = match strip(t) { s @ T::Struct(..) => s, other => other };
            if let Some(x) = o.get("t") {
                let want = x.as_str().unwrap();
                match t2 { T::Struct(w, _) if w == want => {} T::Atom(w) if w == want && o.len() == 1 => {} _ => return bad(format!("a {want}")) }
            }
            for (k, x) in o {
                if k == "t" { continue }
                if k == "base" {   // base export sits one or two levels down in the specialised exports
                    let b = find_base(t2).ok_or_else(|| format!("{at}: no base export"))?;
                    same(x, b, &format!("{at}.base_export"), n)?;
                    continue
                }
                match field(t2, k.trim_end_matches('_')) {
                    Some(y) => same(x, y, &format!("{at}.{k}"), n)?,
                    // a field that is no longer shown is not compared (the bytes still are); strict mode for authors
                    None => if std::env::var("STRICT").is_ok() || !matches!(t2, T::Struct(..)) { return Err(format!("{at}: no field {k} in {}", short(t2))) } else { crate::common::stat("views with an unshown field") },
                }
            }
            Ok(())
        }
        Value::Null => Ok(()),
    }
}
fn find_base(t: &T) -> Option<&T> {
    if let Some(b) = field(t, "base_export") { return Some(b) }
    for k in ["normal_export", "struct_export", "property_export"] { if let Some(x) = field(t, k) { return find_base(strip(x)) } }
    None
}
