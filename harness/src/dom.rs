//! A small strict HTML reader: it accepts exactly well-nested markup, so a
//! stray or missing close tag, an unquoted `<` or a bare `&` is an error.

#[derive(Debug, Clone, Default)]
pub struct Node {
  pub tag: String, // "" for text
  pub attrs: Vec<(String, String)>,
  pub kids: Vec<Node>,
  pub text: String,
}

const VOID: &[&str] = &[
  "br", "img", "hr", "col", "input", "meta", "link", "wbr", "area", "base", "source", "track",
];

impl Node {
  pub fn attr(&self, k: &str) -> Option<&str> {
    self.attrs.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
  }
  pub fn classes(&self) -> Vec<&str> {
    self.attr("class").map(|c| c.split_whitespace().collect()).unwrap_or_default()
  }
  pub fn has(&self, class: &str) -> bool {
    self.classes().contains(&class)
  }
  pub fn is(&self, tag: &str) -> bool {
    self.tag == tag
  }
  pub fn raw_text(&self) -> String {
    let mut s = String::new();
    self.push_text(&mut s);
    s
  }
  fn push_text(&self, s: &mut String) {
    if self.tag.is_empty() {
      s.push_str(&self.text);
    }
    if self.tag == "br" {
      s.push('\n');
    }
    for k in &self.kids {
      k.push_text(s);
    }
  }
  pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
    f(self);
    for k in &self.kids {
      k.walk(f);
    }
  }
  pub fn find_all<'a>(&'a self, p: &dyn Fn(&Node) -> bool) -> Vec<&'a Node> {
    let mut out = vec![];
    self.walk(&mut |n| {
      if p(n) {
        out.push(n)
      }
    });
    out
  }
}

pub fn decode(s: &str) -> Result<String, String> {
  let mut out = String::new();
  let mut rest = s;
  while let Some(i) = rest.find('&') {
    out.push_str(&rest[..i]);
    rest = &rest[i + 1..];
    let Some(j) = rest.find(';') else {
      return Err(format!("bare & in {s:?}"));
    };
    let ent = &rest[..j];
    match ent {
      "amp" => out.push('&'),
      "lt" => out.push('<'),
      "gt" => out.push('>'),
      "quot" => out.push('"'),
      "nbsp" => out.push('\u{a0}'),
      _ if ent.starts_with('#') && ent.len() > 1 => {
        let n = if let Some(h) = ent.strip_prefix("#x") {
          u32::from_str_radix(h, 16).ok()
        } else {
          ent[1..].parse::<u32>().ok()
        };
        match n.and_then(char::from_u32) {
          Some(c) => out.push(c),
          None => return Err(format!("bad entity &{ent};")),
        }
      }
      _ if !ent.is_empty() && ent.chars().all(|c| c.is_ascii_alphanumeric()) => {
        out.push('&');
        out.push_str(ent);
        out.push(';');
      }
      _ => return Err(format!("bare & in {s:?}")),
    }
    rest = &rest[j + 1..];
  }
  out.push_str(rest);
  Ok(out)
}

pub fn parse(html: &str) -> Result<Node, String> {
  let b = html.as_bytes();
  let mut stack: Vec<Node> = vec![Node { tag: "#root".into(), ..Default::default() }];
  let mut i = 0;
  while i < b.len() {
    if b[i] == b'<' {
      // a left arrow kept as written
      if b.get(i + 1) == Some(&b'-') {
        stack.last_mut().unwrap().kids.push(Node { text: "<".into(), ..Default::default() });
        i += 1;
        continue;
      }
      if html[i..].starts_with("<!--") {
        let e = html[i..].find("-->").ok_or("unclosed comment")?;
        i += e + 3;
        continue;
      }
      if html[i..].starts_with("<!") {
        let e = html[i..].find('>').ok_or("unclosed doctype")?;
        i += e + 1;
        continue;
      }
      if b.get(i + 1) == Some(&b'/') {
        let e = html[i..].find('>').ok_or("unclosed close tag")?;
        let name = &html[i + 2..i + e];
        let top = stack.pop().unwrap();
        if top.tag != name {
          return Err(format!("</{name}> closes <{}> at {i}", top.tag));
        }
        stack.last_mut().ok_or("too many closes")?.kids.push(top);
        i += e + 1;
        continue;
      }
      // open tag
      let s = i + 1;
      let mut j = s;
      while j < b.len() && (b[j].is_ascii_alphanumeric()) {
        j += 1;
      }
      if j == s {
        return Err(format!("raw < at {i}: {:?}", &html[i..].chars().take(20).collect::<String>()));
      }
      let tag = html[s..j].to_string();
      let mut attrs = vec![];
      loop {
        while j < b.len() && b[j].is_ascii_whitespace() {
          j += 1;
        }
        if j >= b.len() {
          return Err("unclosed tag".into());
        }
        if b[j] == b'>' {
          j += 1;
          break;
        }
        if b[j] == b'/' && b.get(j + 1) == Some(&b'>') {
          j += 2;
          break;
        }
        let as_ = j;
        while j < b.len() && !matches!(b[j], b'=' | b'>' | b' ' | b'/' | b'<' | b'"') {
          j += 1;
        }
        if j == as_ {
          return Err(format!("bad attribute at {j} in <{tag}"));
        }
        let name = html[as_..j].to_string();
        if name.bytes().any(|c| !(c.is_ascii_alphanumeric() || c == b'-' || c == b'_' || c == b':')) {
          return Err(format!("bad attribute name {name:?} in <{tag}"));
        }
        let mut val = String::new();
        if b.get(j) == Some(&b'=') {
          j += 1;
          if b.get(j) == Some(&b'"') {
            let e = html[j + 1..].find('"').ok_or("unclosed attr value")?;
            val = html[j + 1..j + 1 + e].to_string();
            j += e + 2;
            if !matches!(b.get(j), Some(b' ' | b'>' | b'/' | b'\n')) {
              return Err(format!("junk after attribute {name}=\"{val}\""));
            }
          } else {
            let vs = j;
            while j < b.len() && !matches!(b[j], b'>' | b' ' | b'"' | b'<') {
              j += 1;
            }
            if vs == j {
              return Err(format!("empty unquoted value for {name}"));
            }
            val = html[vs..j].to_string();
          }
        }
        if attrs.iter().any(|(n, _): &(String, String)| *n == name) {
          return Err(format!("duplicate attribute {name} in <{tag}"));
        }
        attrs.push((name, val));
      }
      let node = Node { tag: tag.clone(), attrs, ..Default::default() };
      if VOID.contains(&tag.as_str()) {
        stack.last_mut().unwrap().kids.push(node);
      } else if tag == "script" || tag == "style" {
        let close = format!("</{tag}>");
        let e = html[j..].find(&close).ok_or("unclosed script/style")?;
        let mut node = node;
        node.text = html[j..j + e].to_string();
        j += e + close.len();
        stack.last_mut().unwrap().kids.push(node);
      } else {
        stack.push(node);
      }
      i = j;
    } else {
      let e = html[i..].find('<').map(|e| i + e).unwrap_or(b.len());
      let text = decode(&html[i..e])?;
      stack.last_mut().unwrap().kids.push(Node { text, ..Default::default() });
      i = e;
    }
  }
  if stack.len() != 1 {
    return Err(format!("unclosed <{}>", stack.last().unwrap().tag));
  }
  Ok(stack.pop().unwrap())
}
