//! Property specific projections.
use crate::dom::Node;
use crate::run::{Input, Out, join_lines, run};
use serde_json::{Value as J, json};

pub fn observe2(name: &str, inp: &Input, o: &Out, case: &J, d: Option<&Node>) -> J {
  _ = d;
  match name {
    // the same HTML as another document: expectation {lines, set?}
    "samehtml" | "sametree" => {
      let exp = &case["expect"][name];
      let mut other = inp.clone();
      let eol = if inp.text.contains("\r\n") { "\r\n" } else { "\n" };
      other.text = join_lines(&exp["lines"], eol);
      let p = run(&other, false);
      let same = match name {
        "samehtml" => p.html == o.html && p.html.is_some(),
        _ => {
          let b = |x: &Out| match &x.dom {
            Some(Ok(n)) => Some(crate::obs::blocks(std::slice::from_ref(n))),
            _ => None,
          };
          b(&p) == b(o) && b(o).is_some()
        }
      };
      if same { exp.clone() } else { json!({"this": o.html, "other": p.html}) }
    }
    // the same result again, with the other line ending, without the last one, and in strict mode
    "robust" => json!(robust(inp, o)),
    // the grid of each table: every cell as [tag, colspan, rowspan, style, content]
    "grid" => match d {
      Some(d) => {
        let mut v = vec![];
        grids(d, &mut v);
        J::Array(v)
      }
      None => json!(["no-output", o.diags.iter().map(|d| d.msg.clone()).collect::<Vec<_>>()]),
    },
    // verbatim blocks by line, and callout lists
    "callouts" => match d {
      Some(d) => {
        let code: Vec<J> = d
          .find_all(&|n| n.is("pre"))
          .iter()
          .map(|p| {
            let mut s = String::new();
            code_text(p, &mut s);
            J::Array(s.split('\n').map(|l| json!(crate::obs::norm(l))).collect())
          })
          .collect();
        let lists: Vec<J> = d
          .find_all(&|n| n.has("colist") || n.has("callout-list"))
          .iter()
          .map(|l| {
            let items = l.find_all(&|n| n.is("li") || n.is("tr"));
            J::Array(items.iter().map(|i| json!(crate::obs::norm(&i.kids.iter().map(|k| k.raw_text()).collect::<Vec<_>>().join(" ")))).collect())
          })
          .collect();
        json!({"code": code, "lists": lists})
      }
      None => json!(["no-output", o.diags.iter().map(|d| d.msg.clone()).collect::<Vec<_>>()]),
    },
    // words (w0, w1x2, ...) and footnote marks in reading order, and the list of notes
    "notes" => match d {
      Some(d) => {
        let (mut text, mut notes) = (String::new(), vec![]);
        reading(d, &mut text, &mut notes);
        let words: Vec<&str> = text
          .split_whitespace()
          .filter(|w| w.starts_with('^') || (w.starts_with('w') && w[1..].starts_with(|c: char| c.is_ascii_digit())))
          .map(|w| if w.starts_with('^') { w } else { w.split(|c: char| !matches!(c, 'w' | 'x' | '0'..='9')).next().unwrap() })
          .collect();
        json!({"text": words, "notes": notes})
      }
      None => json!(["no-output", o.diags.iter().map(|d| d.msg.clone()).collect::<Vec<_>>()]),
    },
    _ => json!(format!("unknown-observation:{name}")),
  }
}

fn robust(inp: &crate::run::Input, o: &Out) -> String {
  let html = |o: &Out| o.html.as_ref().map(|h| h.replace("\r\n", "\n"));
  let diags = |o: &Out| o.diags.iter().map(|d| (d.file.clone(), d.line, d.msg.replace("\r\n", "\n"), d.text.clone(), d.start, d.width.min((d.text.len() as u32).saturating_sub(d.start)))).collect::<Vec<_>>();
  let without_columns = |o: &Out| diags(o).into_iter().map(|d| (d.0, d.1, d.2, d.3)).collect::<Vec<_>>();
  let same = |what: &str, p: &Out| -> Option<String> {
    if html(p) != html(o) {
      Some(format!("{what}: other output: {:?} instead of {:?}", html(p), html(o)))
    } else if diags(p) != diags(o) && (what != "crlf" || without_columns(p) != without_columns(o)) {
      Some(format!("{what}: other problems: {:?} instead of {:?}", diags(p), diags(o)))
    } else {
      None
    }
  };
  if let Some(e) = same("again", &run(inp, false)) {
    return e;
  }
  if !inp.text.contains('\r') {
    let mut other = inp.clone();
    other.text = inp.text.replace('\n', "\r\n");
    for b in other.files.values_mut() {
      *b = String::from_utf8_lossy(b).replace('\n', "\r\n").into_bytes();
    }
    if let Some(e) = same("crlf", &run(&other, false)) {
      return e;
    }
  }
  if inp.text.ends_with('\n') && !inp.text.ends_with("\n\n") {
    let mut other = inp.clone();
    other.text.pop();
    if other.text.ends_with('\r') {
      other.text.pop();
    }
    if let Some(e) = same("noeol", &run(&other, false)) {
      return e;
    }
  }
  let mut strict = inp.clone();
  strict.strict = true;
  let p = run(&strict, false);
  match (diags(o).first(), p.ok) {
    (None, true) if html(&p) == html(o) => "ok".into(),
    (None, true) => format!("strict: other output: {:?} instead of {:?}", html(&p), html(o)),
    (None, false) => format!("strict: fails with {:?}, no problem otherwise", diags(&p)),
    // the backend failed, whose problem comes instead of those of the parser
    (Some(_), false) if !o.ok => "ok".into(),
    (Some(d), true) => format!("strict: passes in spite of {d:?}"),
    (Some(_), false) if diags(&p).first().is_some_and(|d| diags(o).contains(d)) => "ok".into(),
    (Some(_), false) => format!("strict: fails with {:?}, not one of {:?}", diags(&p), diags(o)),
  }
}

fn code_text(n: &Node, s: &mut String) {
  if n.is("b") && n.has("conum") {
    let num = n.raw_text();
    s.push_str(&format!("({})", num.trim_start_matches('(').trim_end_matches(')')));
    return;
  }
  if n.tag.is_empty() {
    s.push_str(&n.text);
  }
  n.kids.iter().for_each(|k| code_text(k, s));
}

fn reading(n: &Node, text: &mut String, notes: &mut Vec<J>) {
  let id = n.attr("id").unwrap_or("");
  if n.is("head") {
    return;
  }
  if n.is("sup") && (n.has("footnote") || n.has("footnoteref")) || n.is("a") && n.has("footnote-ref") {
    text.push(' ');
    text.push_str(&mark(n).unwrap_or_else(|| format!("^bad-mark:{}", n.raw_text())));
    text.push(' ');
    return;
  }
  if id == "toc" {
    // titles are repeated here, their notes are not
    let marks = n.find_all(&|k| k.has("footnote") || k.has("footnoteref") || k.has("footnote-ref"));
    text.push_str(&" ^mark-in-toc ".repeat(marks.len()));
    return;
  }
  if id == "footnotes" || n.is("section") && n.has("footnotes") {
    for (i, f) in n.find_all(&|k| k.has("footnote") && k.attr("id").is_some()).iter().enumerate() {
      notes.push(json!(note(f, i + 1).unwrap_or_else(|| format!("bad-note:{}", f.raw_text()))));
    }
    return;
  }
  if n.tag.is_empty() {
    text.push_str(&n.text);
  }
  let inline = matches!(n.tag.as_str(), "" | "em" | "strong" | "code" | "mark" | "span" | "a" | "sup" | "sub" | "b" | "i");
  if !inline {
    text.push(' ');
  }
  n.kids.iter().for_each(|k| reading(k, text, notes));
  if !inline {
    text.push(' ');
  }
}

/// `^1` defines note 1, `^=1` repeats it, `^?a` is an open reference
fn mark(n: &Node) -> Option<String> {
  let text = n.raw_text();
  let inner = text.trim().strip_prefix('[')?.strip_suffix(']')?.to_string();
  if n.has("red") || n.has("broken") {
    return Some(format!("^?{inner}"));
  }
  let (a, prefix) = if n.is("a") { (n, "#_footnote_") } else { (n.kids.iter().find(|k| k.is("a"))?, "#_footnotedef_") };
  let num = a.attr("href")?.strip_prefix(prefix)?;
  if num != inner {
    return None;
  }
  match a.attr("id") {
    Some(id) => (id.strip_prefix("_footnoteref_")? == num).then(|| format!("^{num}")),
    None => Some(format!("^={num}")),
  }
}

fn note(n: &Node, i: usize) -> Option<String> {
  let num = i.to_string();
  let html5s = n.is("li");
  let prefix = if html5s { "_footnote_" } else { "_footnotedef_" };
  if n.attr("id")?.strip_prefix(prefix)? != num {
    return None;
  }
  let back = n.kids.iter().find(|k| k.is("a") && k.attr("href").is_some_and(|h| h.starts_with("#_footnoteref_")))?;
  if back.attr("href")?.strip_prefix("#_footnoteref_")? != num {
    return None;
  }
  let text = crate::obs::norm(&n.raw_text());
  if html5s {
    Some(text.strip_suffix(&back.raw_text())?.trim().to_string())
  } else {
    Some(text.strip_prefix(&format!("{num}. "))?.trim().to_string())
  }
}

fn grids(n: &Node, out: &mut Vec<J>) {
  if n.is("table") && (n.has("tableblock") || n.has("frame-all")) {
    let mut v = vec![];
    for sec in ["thead", "tbody", "tfoot"] {
      for s in n.kids.iter().filter(|k| k.is(sec)) {
        let rows: Vec<J> = s.kids.iter().filter(|k| k.is("tr")).map(|r| J::Array(r.kids.iter().map(cell).collect())).collect();
        v.push(json!([sec, rows]));
      }
    }
    out.push(J::Array(v));
    return;
  }
  n.kids.iter().for_each(|k| grids(k, out));
}

fn cell(n: &Node) -> J {
  let span = |a: &str| n.attr(a).and_then(|x| x.parse::<u32>().ok()).unwrap_or(1);
  let mut nested = vec![];
  n.kids.iter().for_each(|k| grids(k, &mut nested));
  let items = n.find_all(&|x| x.is("li"));
  let pres = n.find_all(&|x| x.is("pre"));
  let (style, body) = if !nested.is_empty() {
    ("a", J::Array(nested))
  } else if !items.is_empty() {
    ("a", J::Array(items.iter().map(|i| json!(crate::obs::norm(&i.raw_text()))).collect()))
  } else if !pres.is_empty() {
    ("l", J::Array(pres.iter().map(|p| json!(p.raw_text())).collect()))
  } else {
    let ps: Vec<&Node> = n.kids.iter().filter(|k| k.is("p")).collect();
    let units: Vec<&Node> = if ps.is_empty() { vec![n] } else { ps };
    let styles: Vec<&str> = units
      .iter()
      .map(|u| match u.kids.as_slice() {
        [k] if k.is("em") => "e",
        [k] if k.is("strong") => "s",
        [k] if k.is("code") => "m",
        _ => "d",
      })
      .collect();
    let style = if styles.iter().all(|s| *s == styles[0]) { styles[0] } else { "mixed" };
    let texts: Vec<J> = units.iter().map(|u| crate::obs::norm(&u.raw_text())).filter(|t| !t.is_empty()).map(|t| json!(t)).collect();
    (style, J::Array(texts))
  };
  let align = |p: &str| n.classes().iter().find_map(|c| c.strip_prefix(p).map(String::from)).unwrap_or_default();
  json!([n.tag, span("colspan"), span("rowspan"), style, align("halign-") + " " + &align("valign-"), body])
}
