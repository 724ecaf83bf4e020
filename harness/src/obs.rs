//! Projections from the produced HTML / diagnostics / events to the abstract
//! observations the specifications predict.
use crate::dom::Node;
use crate::run::{Input, Out};
use serde_json::{Value as J, json};

pub fn norm(s: &str) -> String {
  s.split([' ', '\n', '\t', '\r']).filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ")
}
fn txt(n: &Node) -> String {
  norm(&n.raw_text())
}

const INLINE: &[&str] = &[
  "a", "b", "i", "em", "strong", "code", "span", "sup", "sub", "mark", "kbd", "br", "img", "u", "s", "cite", "del", "q", "small", "input", "tt", "button", "svg", "object", "label",
];

fn is_inline(n: &Node) -> bool {
  n.tag.is_empty() || INLINE.contains(&n.tag.as_str())
}

fn sect_level(n: &Node) -> Option<u32> {
  for c in n.classes() {
    if let Some(d) = c.strip_prefix("sect")
      && let Ok(l) = d.parse::<u32>()
    {
      return Some(l);
    }
    if n.is("section")
      && n.has("doc-section")
      && let Some(d) = c.strip_prefix("level-")
      && let Ok(l) = d.parse::<u32>()
    {
      return Some(l);
    }
  }
  None
}

fn is_heading(n: &Node) -> bool {
  matches!(n.tag.as_str(), "h1" | "h2" | "h3" | "h4" | "h5" | "h6")
}

fn first_pre(n: &Node) -> String {
  n.find_all(&|x| x.is("pre")).first().map(|p| p.raw_text()).unwrap_or_default()
}

fn titles(n: &Node, out: &mut Vec<J>) {
  for k in &n.kids {
    if (k.is("div") && k.has("title")) || k.is("figcaption") || k.is("caption") || (k.has("block-title")) {
      out.push(json!(["title", txt(k)]));
    }
    if k.is("figure") && k.attr("class").is_none() {
      titles(k, out);
    }
  }
}

fn is_title(k: &Node) -> bool {
  (k.is("div") && k.has("title")) || k.is("figcaption") || k.is("caption") || k.has("block-title")
}

fn non_title_kids(n: &Node) -> Vec<Node> {
  n.kids.iter().filter(|k| !is_title(k)).cloned().collect()
}

pub fn blocks(nodes: &[Node]) -> Vec<J> {
  let mut out = vec![];
  let mut inl = String::new();
  let flush = |inl: &mut String, out: &mut Vec<J>| {
    let t = norm(inl);
    if !t.is_empty() {
      out.push(json!(["text", t]));
    }
    inl.clear();
  };
  for n in nodes {
    if is_inline(n) {
      inl.push_str(&n.raw_text());
      continue;
    }
    flush(&mut inl, &mut out);
    block(n, &mut out);
  }
  flush(&mut inl, &mut out);
  out
}

fn tagged(tag: &str, n: &Node) -> J {
  let mut v = vec![json!(tag)];
  v.extend(blocks(&non_title_kids(n)));
  J::Array(v)
}

fn li(n: &Node) -> J {
  // principal text = leading inline content or first <p>
  let mut principal = String::new();
  let mut i = 0;
  while i < n.kids.len() && is_inline(&n.kids[i]) {
    principal.push_str(&n.kids[i].raw_text());
    i += 1;
  }
  if principal.trim().is_empty() && i < n.kids.len() && n.kids[i].is("p") {
    principal = n.kids[i].raw_text();
    i += 1;
  }
  let mut v = vec![json!("li"), json!(norm(&principal))];
  v.extend(blocks(&n.kids[i..]));
  J::Array(v)
}

fn cell(n: &Node) -> J {
  let cs = n.attr("colspan").and_then(|x| x.parse::<u32>().ok()).unwrap_or(1);
  let rs = n.attr("rowspan").and_then(|x| x.parse::<u32>().ok()).unwrap_or(1);
  let kids: Vec<&Node> = n.kids.iter().filter(|k| !(k.tag.is_empty() && k.text.trim().is_empty())).collect();
  let body = if kids.iter().all(|k| is_inline(k)) {
    json!([txt(n)])
  } else if kids.iter().all(|k| k.is("p")) {
    J::Array(kids.iter().map(|k| json!(txt(k))).collect())
  } else {
    J::Array(blocks(&n.kids))
  };
  json!([n.tag, cs, rs, body])
}

pub fn table(n: &Node) -> J {
  let mut v = vec![json!("table")];
  for sec in ["thead", "tbody", "tfoot"] {
    for s in n.kids.iter().filter(|k| k.is(sec)) {
      let rows: Vec<J> =
        s.kids.iter().filter(|k| k.is("tr")).map(|r| J::Array(r.kids.iter().map(cell).collect())).collect();
      v.push(json!([sec, rows]));
    }
  }
  J::Array(v)
}

fn toc_level(n: &Node) -> J {
  // n is ul/ol
  J::Array(
    n.kids
      .iter()
      .filter(|k| k.is("li"))
      .map(|l| {
        let a = l.kids.iter().find(|k| k.is("a"));
        let sub = l.kids.iter().find(|k| k.is("ul") || k.is("ol"));
        json!([
          a.map(txt).unwrap_or_default(),
          a.and_then(|a| a.attr("href")).unwrap_or(""),
          sub.map(toc_level).unwrap_or(json!([]))
        ])
      })
      .collect(),
  )
}

fn block(n: &Node, out: &mut Vec<J>) {
  let id = n.attr("id").unwrap_or("");
  if n.is("head") || n.is("script") || n.is("style") || n.is("colgroup") {
    return;
  }
  if id == "toc" || n.has("toc") && n.is("nav") {
    let l = n.kids.iter().find(|k| k.is("ul") || k.is("ol"));
    out.push(json!(["toc", l.map(toc_level).unwrap_or(json!([]))]));
    return;
  }
  if id == "footnotes" || (n.is("section") && n.has("footnotes")) || (n.has("footnotes") && id.is_empty()) {
    let defs = n.find_all(&|x| x.has("footnote") && x.attr("id").is_some());
    let v: Vec<J> = defs.iter().map(|d| json!([d.attr("id"), txt(d)])).collect();
    out.push(json!(["footnotes", v]));
    return;
  }
  if id == "footer" || n.is("footer") {
    return;
  }
  if id == "header" || (n.is("header")) {
    for h in n.find_all(&|x| x.is("h1")) {
      out.push(json!(["doctitle", txt(h)]));
    }
    for h in n.find_all(&|x| x.attr("id") == Some("toc")) {
      block(h, out);
    }
    return;
  }
  if id == "preamble" {
    let mut v = vec![json!("preamble")];
    v.extend(blocks(&n.kids));
    // attribute entries alone are no content
    if v.len() > 1 {
      out.push(J::Array(v));
    }
    return;
  }
  if is_heading(n) {
    if n.has("discrete") || n.has("float") {
      out.push(json!(["discrete", n.tag[1..].parse::<u32>().unwrap_or(0) - 1, txt(n)]));
    } else if n.has("sect0") {
      out.push(json!(["part", id, txt(n)]));
    } else {
      out.push(json!(["heading", n.tag, id, txt(n)]));
    }
    return;
  }
  if (n.is("div") || n.is("section"))
    && let Some(l) = sect_level(n)
  {
    let h = n.kids.iter().find(|k| is_heading(k));
    let mut v = vec![
      json!("sect"),
      json!(l),
      json!(h.and_then(|h| h.attr("id")).or(n.attr("id")).unwrap_or("")),
      json!(h.map(txt).unwrap_or_default()),
    ];
    if let Some(h) = h {
      let hl = h.tag[1..].parse::<u32>().unwrap_or(0);
      if hl != l + 1 {
        v.push(json!(["wrong-heading-tag", h.tag]));
      }
    }
    let mut seen = false;
    let rest: Vec<Node> = n
      .kids
      .iter()
      .filter(|k| {
        if is_heading(k) && !seen {
          seen = true;
          false
        } else {
          true
        }
      })
      .cloned()
      .collect();
    v.extend(blocks(&rest));
    out.push(J::Array(v));
    return;
  }
  match n.tag.as_str() {
    "p" => {
      out.push(json!(["p", txt(n)]));
      return;
    }
    "ul" => {
      let mut v = vec![json!("ul")];
      v.extend(n.kids.iter().filter(|k| k.is("li")).map(li));
      out.push(J::Array(v));
      return;
    }
    "ol" => {
      let mut v = vec![json!("ol")];
      v.extend(n.kids.iter().filter(|k| k.is("li")).map(li));
      out.push(J::Array(v));
      return;
    }
    "dl" => {
      let mut v = vec![json!("dl")];
      for k in &n.kids {
        if k.is("dt") {
          v.push(json!(["dt", txt(k)]));
        } else if k.is("dd") {
          let l = li(k);
          let mut a = l.as_array().unwrap().clone();
          a[0] = json!("dd");
          v.push(J::Array(a));
        }
      }
      out.push(J::Array(v));
      return;
    }
    "hr" => {
      out.push(json!(["hr"]));
      return;
    }
    "pre" => {
      out.push(json!(["pre", n.raw_text()]));
      return;
    }
    "table" if n.has("tableblock") || n.has("frame-all") => {
      titles(n, out);
      out.push(table(n));
      return;
    }
    _ => {}
  }
  let kind = [
    ("listingblock", "listing"),
    ("listing-block", "listing"),
    ("literalblock", "literal"),
    ("literal-block", "literal"),
    ("verseblock", "verse"),
    ("verse-block", "verse"),
  ]
  .iter()
  .find(|(c, _)| n.has(c));
  if let Some((_, k)) = kind {
    titles(n, out);
    out.push(json!([k, first_pre(n)]));
    // html5s nests the callout list of a listing inside its block
    for l in n.kids.iter().filter(|x| x.is("ol")) {
      block(l, out);
    }
    return;
  }
  let kind = [
    ("exampleblock", "example"),
    ("example-block", "example"),
    ("sidebarblock", "sidebar"),
    ("sidebar", "sidebar"),
    ("quoteblock", "quote"),
    ("quote-block", "quote"),
    ("openblock", "open"),
    ("open-block", "open"),
  ]
  .iter()
  .find(|(c, _)| n.has(c));
  if let Some((_, k)) = kind {
    titles(n, out);
    // the title of a sidebar is in its content
    let content = n.kids.iter().find(|x| n.has("sidebarblock") && x.has("content"));
    let node = match content {
      Some(c) => {
        titles(c, out);
        tagged(k, c)
      }
      None => tagged(k, n),
    };
    // the intro of a part is not a block of the document: an empty one is no content
    if n.has("partintro") && node.as_array().is_some_and(|v| v.len() == 1) {
      return;
    }
    out.push(node);
    return;
  }
  if n.has("admonitionblock") || n.has("admonition-block") {
    let k = ["note", "tip", "important", "caution", "warning"].iter().find(|k| n.has(k)).unwrap_or(&"?");
    let mut v = vec![json!("adm"), json!(k)];
    if let Some(td) = n.find_all(&|x| x.is("td") && x.has("content")).first() {
      titles(td, out);
      v.extend(blocks(&non_title_kids(td)));
    } else {
      v.extend(blocks(&non_title_kids(n)));
    }
    // the text of an admonition paragraph is bare or in a paragraph
    if v.len() == 3 && v[2][0] == json!("text") {
      v[2][0] = json!("p");
    }
    out.push(J::Array(v));
    return;
  }
  if n.has("imageblock") || n.has("image-block") {
    titles(n, out);
    let img = n.find_all(&|x| x.is("img"));
    out.push(json!(["image", img.first().and_then(|i| i.attr("src")).unwrap_or("")]));
    return;
  }
  if n.has("page-break") || n.attr("style").is_some_and(|s| s.contains("page-break")) {
    out.push(json!(["pb"]));
    return;
  }
  if n.has("attribution") {
    out.push(json!(["attribution", txt(n)]));
    return;
  }
  if is_title(n) {
    out.push(json!(["title", txt(n)]));
    return;
  }
  // wrappers
  out.extend(blocks(&n.kids));
}

fn leaf_texts(n: &Node, out: &mut Vec<String>) {
  if matches!(n.tag.as_str(), "p" | "pre" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "dt") {
    out.push(txt(n));
    return;
  }
  if is_inline(n) {
    return;
  }
  if !n.kids.is_empty() {
    let direct: String = n.kids.iter().filter(|k| is_inline(k)).map(|k| k.raw_text()).collect();
    let d = norm(&direct);
    if !d.is_empty() {
      out.push(d);
    }
  }
  for k in &n.kids {
    leaf_texts(k, out);
  }
}

fn body(d: &Node) -> &Node {
  d.find_all(&|n| n.is("body")).first().copied().unwrap_or(d)
}

pub fn observe(name: &str, inp: &Input, o: &Out, case: &J) -> J {
  let d = match &o.dom {
    Some(Ok(d)) => Some(d),
    _ => None,
  };
  let dom_or = |f: &dyn Fn(&Node) -> J| match &o.dom {
    Some(Ok(d)) => f(d),
    Some(Err(e)) => json!(["malformed-html", e]),
    None => json!(["no-output", o.diags.iter().map(|d| d.msg.clone()).collect::<Vec<_>>()]),
  };
  match name {
    "status" => json!(if o.ok { "ok" } else { "err" }),
    "paras" => dom_or(&|d| {
      let mut v = vec![];
      leaf_texts(body(d), &mut v);
      json!(v)
    }),
    "words" => dom_or(&|d| {
      let mut v = vec![];
      leaf_texts(body(d), &mut v);
      json!(v.iter().flat_map(|t| t.split(' ')).filter(|w| !w.is_empty()).collect::<Vec<_>>())
    }),
    "text" => dom_or(&|d| {
      let mut v = vec![];
      leaf_texts(body(d), &mut v);
      json!(norm(&v.join(" ")))
    }),
    // what a full page says about the document itself
    "details" => dom_or(&|d| {
      let mut v = vec![];
      let page_title = |n: &Node| n.is("title");
      if let Some(n) = d.find_all(&page_title).first() {
        v.push(json!(["title", txt(n)]));
      }
      if let Some(n) = d.find_all(&|n| n.is("h1")).first() {
        v.push(json!(["h1", txt(n)]));
      }
      if let Some(n) = d.find_all(&|n| n.has("details")).first() {
        n.walk(&mut |n| {
          if (n.is("span") || n.is("time")) && let Some(id) = n.attr("id") {
            v.push(json!([id, txt(n)]))
          }
        });
      }
      json!(v)
    }),
    "rawtext" => dom_or(&|d| json!(body(d).raw_text())),
    "outline" => dom_or(&|d| J::Array(blocks(std::slice::from_ref(body(d))))),
    "html" => json!(o.html),
    // text the document passes through raw is its own responsibility
    "wf" => match &o.dom {
      Some(Err(e)) if !passes_raw(inp) => json!(e),
      _ => json!("ok"),
    },
    "ndiags" => json!(o.diags.len()),
    "diags" => J::Array(o.diags.iter().map(|d| json!([d.file, d.line])).collect()),
    "diagset" => {
      let mut v: Vec<String> = o.diags.iter().map(|d| format!("{}:{}", d.file, d.line)).collect();
      v.sort();
      json!(v)
    }
    "diagmsgs" => J::Array(o.diags.iter().map(|d| json!([d.file, d.line, d.msg, d.text, d.start, d.width])).collect()),
    "calls" => json!(o.calls),
    "ids" => dom_or(&|d| {
      let mut v = vec![];
      d.walk(&mut |n| {
        if let Some(i) = n.attr("id")
          && !matches!(i, "header" | "content" | "footer" | "footer-text" | "toc" | "toctitle" | "toc-title" | "preamble" | "footnotes")
        {
          v.push(i.to_string())
        }
      });
      json!(v)
    }),
    "hrefs" => dom_or(&|d| {
      let mut v = vec![];
      d.walk(&mut |n| {
        if n.is("a") && let Some(h) = n.attr("href") {
          v.push(json!([h, txt(n)]))
        }
      });
      json!(v)
    }),
    "headings" => dom_or(&|d| {
      J::Array(
        body(d).find_all(&is_heading).iter().map(|h| json!([h.tag, h.attr("id").unwrap_or(""), txt(h)])).collect(),
      )
    }),
    "titles" => dom_or(&|d| J::Array(body(d).find_all(&is_title).iter().map(|h| json!(txt(h))).collect())),
    "events" => json!(o.events),
    _ => crate::obs2::observe2(name, inp, o, case, d),
  }
}

fn passes_raw(inp: &Input) -> bool {
  let raw = ["pass:", "+++", "subs=", "[pass", "subs\"", "passthrough"];
  let own = |t: &str| raw.iter().any(|r| t.contains(r)) || t.lines().any(|l| l.starts_with("include::") && l.contains(['<', '&']));
  own(&inp.text) || inp.files.values().any(|f| own(&String::from_utf8_lossy(f)))
}
