//! Minimal JSON writer and reader (flat needs only).
#[derive(Clone, Debug, PartialEq)]
pub enum J { Null, Bool(bool), Int(i64), Num(f64), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        if let J::Obj(v) = self { v.iter().find(|(n, _)| n == k).map(|(_, v)| v) } else { None }
    }
    pub fn as_str(&self) -> Option<&str> { if let J::Str(s) = self { Some(s) } else { None } }
    pub fn render(&self) -> String { let mut s = String::new(); self.w(&mut s); s }
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => o.push_str(&i.to_string()),
            J::Num(f) => if f.is_finite() { o.push_str(&format!("{:?}", f)) } else { o.push_str("null") },
            J::Str(s) => esc(s, o),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push_str(", ") } x.w(o) }
                o.push(']');
            },
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push_str(", ") } esc(k, o); o.push_str(": "); x.w(o) }
                o.push('}');
            },
        }
    }
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
pub fn parse(s: &str) -> Result<J, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let v = val(&c, &mut i)?;
    Ok(v)
}
fn ws(c: &[char], i: &mut usize) { while *i < c.len() && c[*i].is_whitespace() { *i += 1 } }
fn val(c: &[char], i: &mut usize) -> Result<J, String> {
    ws(c, i);
    match c.get(*i) {
        Some('{') => {
            *i += 1; let mut v = vec![];
            loop {
                ws(c, i);
                if c.get(*i) == Some(&'}') { *i += 1; return Ok(J::Obj(v)) }
                if c.get(*i) == Some(&',') { *i += 1; continue }
                let k = match val(c, i)? { J::Str(s) => s, _ => return Err("key".into()) };
                ws(c, i);
                if c.get(*i) != Some(&':') { return Err("colon".into()) }
                *i += 1;
                let x = val(c, i)?;
                v.push((k, x));
            }
        },
        Some('[') => {
            *i += 1; let mut v = vec![];
            loop {
                ws(c, i);
                if c.get(*i) == Some(&']') { *i += 1; return Ok(J::Arr(v)) }
                if c.get(*i) == Some(&',') { *i += 1; continue }
                v.push(val(c, i)?);
            }
        },
        Some('"') => {
            *i += 1; let mut s = String::new();
            while let Some(&ch) = c.get(*i) {
                *i += 1;
                match ch {
                    '"' => return Ok(J::Str(s)),
                    '\\' => {
                        let e = *c.get(*i).ok_or("esc")?; *i += 1;
                        match e {
                            'n' => s.push('\n'), 't' => s.push('\t'), 'r' => s.push('\r'),
                            'u' => { let h: String = c[*i..*i + 4].iter().collect(); *i += 4; s.push(char::from_u32(u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?).unwrap_or('?')) },
                            o => s.push(o),
                        }
                    },
                    ch => s.push(ch),
                }
            }
            Err("string".into())
        },
        Some(_) => {
            let st = *i;
            while *i < c.len() && !",]} \n\t".contains(c[*i]) { *i += 1 }
            let t: String = c[st..*i].iter().collect();
            match t.as_str() {
                "null" => Ok(J::Null), "true" => Ok(J::Bool(true)), "false" => Ok(J::Bool(false)),
                t => if let Ok(n) = t.parse::<i64>() { Ok(J::Int(n)) } else { t.parse::<f64>().map(J::Num).map_err(|e| e.to_string()) },
            }
        },
        None => Err("eof".into()),
    }
}
