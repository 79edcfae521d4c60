pub enum J { N, B(bool), I(String), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
pub fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
pub fn i<T: ToString>(x: T) -> J { J::I(x.to_string()) }
impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(x) => o.push_str(x),
            J::S(x) => esc(x, o),
            J::A(v) => {
                o.push('[');
                for (k, e) in v.iter().enumerate() { if k > 0 { o.push(',') } e.write(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, e)) in v.iter().enumerate() {
                    if k > 0 { o.push(',') }
                    esc(n, o); o.push(':'); e.write(o);
                }
                o.push('}');
            }
        }
    }
}
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
