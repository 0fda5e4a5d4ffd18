/// Minimal JSON tree and writer.
pub enum J { Null, B(bool), N(i128), U(u128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
impl J {
    pub fn s(x: &str) -> J { J::S(x.to_string()) }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => o.push_str(&n.to_string()),
            J::U(n) => o.push_str(&n.to_string()),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.write(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } o.push('"'); o.push_str(k); o.push_str("\":"); x.write(o); } o.push('}'); }
        }
    }
}
