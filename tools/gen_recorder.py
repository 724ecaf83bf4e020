#!/usr/bin/env python3
"""Generates harness/src/recorder.rs: a Backend that records every callback."""
import re
src = open('/repo/backend/src/backend.rs').read()
body = src[src.index('pub trait Backend'):]
sigs = re.findall(r'fn\s+(\w+)\s*\(([^)]*)\)\s*(->\s*[^;{]+)?', body, re.S)
out = ['''// generated by tools/gen_recorder.py from the public Backend trait
use asciidork_ast::prelude::*;
use asciidork_ast::AdjacentNewline;
use asciidork_backend::Backend;
use asciidork_core::AttrValue;

#[derive(Default)]
pub struct Recorder {
  pub ev: Vec<String>,
}

impl Backend for Recorder {
  type Output = Vec<String>;
  type Error = std::convert::Infallible;
  const OUTFILESUFFIX: &'static str = ".rec";
  fn set_job_attrs(_attrs: &mut asciidork_core::JobAttrs) {}
  fn asciidoc_table_cell_backend(&mut self) -> Self {
    Recorder::default()
  }
  fn visit_asciidoc_table_cell_result(&mut self, cell_backend: Self) {
    self.ev.push("+cell_document".into());
    self.ev.extend(cell_backend.ev);
    self.ev.push("-cell_document".into());
  }
  fn into_result(self) -> Result<Self::Output, Self::Error> {
    Ok(self.ev)
  }
  fn result(&self) -> Result<&Self::Output, Self::Error> {
    Ok(&self.ev)
  }
''']
skip = {'set_job_attrs', 'asciidoc_table_cell_backend', 'visit_asciidoc_table_cell_result', 'into_result', 'result'}
detail = {
  'enter_section': 'section.level', 'exit_section': 'section.level',
  'enter_table_section': 'section as u8', 'exit_table_section': 'section as u8',
  'enter_toc_level': '_level', 'exit_toc_level': '_level',
}
for name, args, ret in sigs:
    if name in skip: continue
    args = re.sub(r'\s+', ' ', args).strip().rstrip(',')
    kind = {'e': '+', 'x': '-', 'v': '='}['e' if name.startswith('enter_') else 'x' if name.startswith('exit_') else 'v']
    short = re.sub(r'^(enter|exit|visit)_', '', name)
    if name == 'visit_inline_text':
        line = 'self.ev.push(format!("=inline_text:{text}"));'
    elif name in detail:
        line = f'self.ev.push(format!("{kind}{short}:{{}}", {detail[name]}));'
    else:
        line = f'self.ev.push("{kind}{short}".into());'
    names = [a.split(':')[0].strip() for a in args.split(',') if ':' in a]
    names = [n for n in re.findall(r'(\w+)\s*:', args)]
    use = '_ = (' + ', '.join('&' + n for n in names) + ',); ' if names and name != 'visit_inline_text' else ''
    r = (' ' + re.sub(r'\s+', ' ', ret).strip()) if ret else ''
    tail = ' true' if 'bool' in r else ''
    out.append(f'  fn {name}({args}){r} {{\n    {use}{line}{tail}\n  }}')
out.append('}\n')
open('/verif/harness/src/recorder.rs', 'w').write('\n'.join(out))
