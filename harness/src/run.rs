//! Runs one rendered behaviour through the real code.
use crate::dom;
use asciidork_backend::Backend;
use asciidork_core::{JobAttr, JobSettings, SafeMode};
use asciidork_parser::includes::*;
use asciidork_parser::prelude::*;
use serde_json::Value as J;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::str::FromStr;

#[derive(Clone, Debug)]
pub struct Input {
  pub text: String,
  pub main: String,
  pub stdin: bool,
  pub files: BTreeMap<String, Vec<u8>>,
  pub uris: BTreeMap<String, Vec<u8>>,
  pub safe: String,
  pub doctype: Option<String>,
  pub attrs: Vec<(String, Option<String>, bool)>, // value "\0": set without a value,
  pub strict: bool,
  pub embedded: bool,
  pub html5s: bool,
  pub resolver: bool,
  pub base_dir: Option<String>,
}

#[derive(Clone)]
struct MemResolver {
  files: Rc<BTreeMap<String, Vec<u8>>>,
  uris: Rc<BTreeMap<String, Vec<u8>>>,
  base: Option<String>,
  log: Rc<RefCell<Vec<String>>>,
}

impl IncludeResolver for MemResolver {
  fn resolve(
    &mut self,
    target: IncludeTarget,
    buffer: &mut dyn IncludeBuffer,
    _safe: SafeMode,
  ) -> Result<usize, ResolveError> {
    let (key, map) = match &target {
      IncludeTarget::FilePath(p) => (normalize(p), &self.files),
      IncludeTarget::Uri(u) => (u.clone(), &self.uris),
    };
    self.log.borrow_mut().push(key.clone());
    if self.log.borrow().len() > 2000 {
      return Err(ResolveError::Io("resolver budget exceeded".into()));
    }
    let Some(bytes) = map.get(&key) else {
      return Err(ResolveError::NotFound);
    };
    buffer.initialize(bytes.len());
    buffer.as_bytes_mut().copy_from_slice(bytes);
    Ok(bytes.len())
  }
  fn get_base_dir(&self) -> Option<String> {
    self.base.clone()
  }
  fn clone_box(&self) -> Box<dyn IncludeResolver> {
    Box::new(self.clone())
  }
}

#[derive(Debug, Clone)]
pub struct Diag {
  pub file: String,
  pub line: u32,
  pub text: String,
  pub msg: String,
  pub start: u32,
  pub width: u32,
}

pub struct Out {
  pub ok: bool,
  pub diags: Vec<Diag>,
  pub html: Option<String>,
  pub dom: Option<Result<dom::Node, String>>,
  pub events: Vec<String>,
  pub calls: Vec<String>,
  pub conv_err: Option<String>,
}

fn normalize(p: &str) -> String {
  let mut v: Vec<&str> = vec![];
  for seg in p.split('/') {
    match seg {
      "" | "." => {}
      ".." => {
        v.pop();
      }
      s => v.push(s),
    }
  }
  format!("/{}", v.join("/"))
}

fn js(v: &J, k: &str, d: &str) -> String {
  v.get(k).and_then(|x| x.as_str()).unwrap_or(d).to_string()
}
fn jb(v: &J, k: &str, d: bool) -> bool {
  v.get(k).and_then(|x| x.as_bool()).unwrap_or(d)
}

pub fn join_lines(v: &J, eol: &str) -> String {
  match v {
    J::String(s) => s.clone(),
    J::Array(ls) => {
      let mut s = String::new();
      for l in ls {
        s.push_str(l.as_str().unwrap_or(""));
        s.push_str(eol);
      }
      s
    }
    _ => String::new(),
  }
}

impl Input {
  pub fn from_case(c: &J, eol: &str) -> Self {
    let set = c.get("set").cloned().unwrap_or(J::Null);
    let mut text = join_lines(&c["lines"], eol);
    if jb(c, "nofinaleol", false) && text.ends_with(eol) {
      text.truncate(text.len() - eol.len());
    }
    let mut files = BTreeMap::new();
    let mut uris = BTreeMap::new();
    if let Some(J::Array(fs)) = c.get("files") {
      // [[name, [lines]] ...]
      for f in fs {
        let name = f[0].as_str().unwrap().to_string();
        let t = if let Some(J::Array(bytes)) = f.get(2) {
          bytes.iter().map(|b| b.as_u64().unwrap() as u8).collect()
        } else {
          let t = join_lines(&f[1], eol);
          let wide = |le: bool| -> Vec<u8> {
            std::iter::once(0xfeffu16)
              .chain(t.encode_utf16())
              .flat_map(|u| if le { u.to_le_bytes() } else { u.to_be_bytes() })
              .collect()
          };
          match f.get(2).and_then(|e| e.as_str()) {
            Some("bom") => format!("\u{feff}{t}").into_bytes(),
            Some("utf16le") => wide(true),
            Some("utf16be") => wide(false),
            _ => t.into_bytes(),
          }
        };
        if name.contains("://") {
          uris.insert(name, t);
        } else {
          files.insert(name, t);
        }
      }
    }
    let mut attrs = vec![];
    if let Some(J::Array(a)) = set.get("attrs") {
      for x in a {
        // [name, value, "ro"|"mod"] ; value false => unset
        let v = match &x[1] {
          J::String(s) => Some(s.clone()),
          J::Bool(true) => Some("\0".to_string()),
          _ => None,
        };
        attrs.push((x[0].as_str().unwrap().to_string(), v, x[2].as_str() == Some("ro")));
      }
    }
    Input {
      text,
      main: js(&set, "main", "/base/main.adoc"),
      stdin: jb(&set, "stdin", false),
      files,
      uris,
      safe: js(&set, "safe", "unsafe"),
      doctype: set.get("doctype").and_then(|x| x.as_str()).filter(|s| !s.is_empty()).map(|s| s.to_string()),
      attrs,
      strict: jb(&set, "strict", false),
      embedded: jb(&set, "embedded", true),
      html5s: false,
      resolver: jb(&set, "resolver", true),
      base_dir: Some(js(&set, "base", "/base")).filter(|s| !s.is_empty()),
    }
  }
}

pub fn run(inp: &Input, want_events: bool) -> Out {
  let bump = Bump::new();
  let file = if inp.stdin {
    SourceFile::Stdin { cwd: Path::new("/base") }
  } else {
    SourceFile::Path(Path::new(&inp.main))
  };
  let log = Rc::new(RefCell::new(vec![]));
  let mut parser = Parser::from_str(&inp.text, file, &bump);
  let mut s = JobSettings {
    safe_mode: SafeMode::from_str(&inp.safe).unwrap(),
    doctype: inp.doctype.as_ref().map(|d| asciidork_core::DocType::from_str(d).unwrap()),
    embedded: inp.embedded,
    strict: inp.strict,
    ..Default::default()
  };
  let mut attr_err = None;
  for (k, v, ro) in &inp.attrs {
    let val: asciidork_core::AttrValue = match v {
      Some(v) if v == "\0" => asciidork_core::AttrValue::Bool(true),
      Some(v) => asciidork_core::AttrValue::String(v.clone()),
      None => asciidork_core::AttrValue::Bool(false),
    };
    let ja = if *ro { JobAttr::readonly(val) } else { JobAttr::modifiable(val) };
    if let Err(e) = s.job_attrs.insert(k.clone(), ja) {
      attr_err = Some(e);
    }
  }
  if let Some(e) = attr_err {
    return Out {
      ok: false,
      diags: vec![Diag { file: "<job>".into(), line: 0, text: String::new(), msg: e, start: 0, width: 0 }],
      html: None,
      dom: None,
      events: vec![],
      calls: vec![],
      conv_err: None,
    };
  }
  if inp.html5s {
    asciidork_backend_html5s::Html5s::set_job_attrs(&mut s.job_attrs);
  } else {
    asciidork_dr_html_backend::AsciidoctorHtml::set_job_attrs(&mut s.job_attrs);
  }
  parser.apply_job_settings(s);
  if inp.resolver {
    parser.set_resolver(Box::new(MemResolver {
      files: Rc::new(inp.files.clone()),
      uris: Rc::new(inp.uris.clone()),
      base: inp.base_dir.clone(),
      log: Rc::clone(&log),
    }));
  }
  parser.provide_timestamps(1_700_000_000, Some(1_700_000_000), None);
  let dg = |d: &Diagnostic| Diag {
    file: d.source_file.file_name().to_string(),
    line: d.line_num,
    text: d.line.clone(),
    msg: d.message.clone(),
    start: d.underline_start,
    width: d.underline_width,
  };
  match parser.parse() {
    Ok(mut res) => {
      let diags = res.warnings.iter().map(dg).collect();
      res.include_resolver = None;
      let doc = res.document;
      let events = if want_events {
        asciidork_eval::eval(&doc, crate::recorder::Recorder::default()).unwrap()
      } else {
        vec![]
      };
      let conv = if inp.html5s {
        asciidork_backend_html5s::convert(doc)
      } else {
        asciidork_dr_html_backend::convert(doc)
      };
      let calls = log.borrow().clone();
      match conv {
        Ok(html) => {
          let d = dom::parse(&html);
          Out { ok: true, diags, html: Some(html), dom: Some(d), events, calls, conv_err: None }
        }
        Err(e) => {
          Out { ok: false, diags, html: None, dom: None, events, calls, conv_err: Some(e.to_string()) }
        }
      }
    }
    Err(ds) => Out {
      ok: false,
      diags: ds.iter().map(dg).collect(),
      html: None,
      dom: None,
      events: vec![],
      calls: log.borrow().clone(),
      conv_err: None,
    },
  }
}
