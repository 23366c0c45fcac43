//! Minimal JSON writer.
#[derive(Clone)]
pub enum J { S(String), N(i128), B(bool), A(Vec<J>), O(Vec<(String, J)>) }
impl J {
    pub fn s(x: &str) -> J { J::S(x.to_string()) }
    pub fn strs<'a, I: IntoIterator<Item = &'a String>>(x: I) -> J { J::A(x.into_iter().map(|s| J::s(s)).collect()) }
    pub fn show(&self) -> String {
        let mut o = String::new();
        self.put(&mut o);
        o
    }
    fn put(&self, o: &mut String) {
        match self {
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::N(n) => o.push_str(&n.to_string()),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.put(o) }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } J::s(k).put(o); o.push(':'); x.put(o) }
                o.push('}');
            }
        }
    }
}
