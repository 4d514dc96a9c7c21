use std::fmt::Write;
#[derive(Clone)]
pub enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
pub fn s<T: AsRef<str>>(x: T) -> J { J::S(x.as_ref().to_string()) }
pub fn n<T: TryInto<i128>>(x: T) -> J { J::N(x.try_into().ok().expect("int")) }
pub fn b(x: bool) -> J { J::B(x) }
pub fn a<I: IntoIterator<Item = J>>(x: I) -> J { J::A(x.into_iter().collect()) }
pub struct Obj(Vec<(String, J)>);
impl Obj {
    pub fn new() -> Self { Obj(vec![]) }
    pub fn put(&mut self, k: &str, v: J) -> &mut Self { self.0.push((k.to_string(), v)); self }
    pub fn done(self) -> J { J::O(self.0) }
}
pub fn o<const N: usize>(kv: [(&str, J); N]) -> J {
    J::O(kv.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}
fn esc(out: &mut String, x: &str) {
    out.push('"');
    for c in x.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 32 => { let _ = write!(out, "\\u{:04x}", c as u32); }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(x) => out.push_str(if *x { "true" } else { "false" }),
            J::N(x) => { let _ = write!(out, "{}", x); }
            J::S(x) => esc(out, x),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { out.push(','); } x.w(out); }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    esc(out, k); out.push(':'); x.w(out);
                }
                out.push('}');
            }
        }
    }
    pub fn to_string(&self) -> String { let mut o = String::new(); self.w(&mut o); o }
}
