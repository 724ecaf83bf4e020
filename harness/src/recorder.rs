// generated by tools/gen_recorder.py from the public Backend trait
use asciidork_ast::prelude::*;
use asciidork_ast::AdjacentNewline;
use asciidork_backend::Backend;
use asciidork_core::AttrValue;

#[derive(Default)]
pub struct Recorder {
  pub ev: Vec<String>,
}

impl Backend for Recorder {
  type Output = Vec<String>;
  type Error = std::convert::Infallible;
  const OUTFILESUFFIX: &'static str = ".rec";
  fn set_job_attrs(_attrs: &mut asciidork_core::JobAttrs) {}
  fn asciidoc_table_cell_backend(&mut self) -> Self {
    Recorder::default()
  }
  fn visit_asciidoc_table_cell_result(&mut self, cell_backend: Self) {
    self.ev.push("+cell_document".into());
    self.ev.extend(cell_backend.ev);
    self.ev.push("-cell_document".into());
  }
  fn into_result(self) -> Result<Self::Output, Self::Error> {
    Ok(self.ev)
  }
  fn result(&self) -> Result<&Self::Output, Self::Error> {
    Ok(&self.ev)
  }

  fn enter_document(&mut self, document: &Document) {
    _ = (&document,); self.ev.push("+document".into());
  }
  fn exit_document(&mut self, document: &Document) {
    _ = (&document,); self.ev.push("-document".into());
  }
  fn enter_body(&mut self, _document: &Document) {
    _ = (&_document,); self.ev.push("+body".into());
  }
  fn exit_body(&mut self, _document: &Document) {
    _ = (&_document,); self.ev.push("-body".into());
  }
  fn enter_header(&mut self) {
    self.ev.push("+header".into());
  }
  fn exit_header(&mut self) {
    self.ev.push("-header".into());
  }
  fn enter_content(&mut self) {
    self.ev.push("+content".into());
  }
  fn exit_content(&mut self) {
    self.ev.push("-content".into());
  }
  fn enter_footer(&mut self) {
    self.ev.push("+footer".into());
  }
  fn exit_footer(&mut self) {
    self.ev.push("-footer".into());
  }
  fn visit_document_attribute_decl(&mut self, name: &str, value: &AttrValue) {
    _ = (&name, &value,); self.ev.push("=document_attribute_decl".into());
  }
  fn enter_preamble(&mut self, doc_has_title: bool, blocks: &[Block]) {
    _ = (&doc_has_title, &blocks,); self.ev.push("+preamble".into());
  }
  fn exit_preamble(&mut self, doc_has_title: bool, blocks: &[Block]) {
    _ = (&doc_has_title, &blocks,); self.ev.push("-preamble".into());
  }
  fn enter_document_title(&mut self) {
    self.ev.push("+document_title".into());
  }
  fn exit_document_title(&mut self) {
    self.ev.push("-document_title".into());
  }
  fn enter_toc(&mut self, _toc: &TableOfContents, _macro_block: Option<&Block>) {
    _ = (&_toc, &_macro_block,); self.ev.push("+toc".into());
  }
  fn exit_toc(&mut self, _toc: &TableOfContents) {
    _ = (&_toc,); self.ev.push("-toc".into());
  }
  fn enter_toc_level(&mut self, _level: u8, _nodes: &[TocNode]) {
    _ = (&_level, &_nodes,); self.ev.push(format!("+toc_level:{}", _level));
  }
  fn exit_toc_level(&mut self, _level: u8, _nodes: &[TocNode]) {
    _ = (&_level, &_nodes,); self.ev.push(format!("-toc_level:{}", _level));
  }
  fn enter_toc_node(&mut self, _node: &TocNode) {
    _ = (&_node,); self.ev.push("+toc_node".into());
  }
  fn exit_toc_node(&mut self, _node: &TocNode) {
    _ = (&_node,); self.ev.push("-toc_node".into());
  }
  fn enter_toc_content(&mut self) {
    self.ev.push("+toc_content".into());
  }
  fn exit_toc_content(&mut self) {
    self.ev.push("-toc_content".into());
  }
  fn enter_section(&mut self, section: &Section) {
    _ = (&section,); self.ev.push(format!("+section:{}", section.level));
  }
  fn exit_section(&mut self, section: &Section) {
    _ = (&section,); self.ev.push(format!("-section:{}", section.level));
  }
  fn enter_section_heading(&mut self, section: &Section) {
    _ = (&section,); self.ev.push("+section_heading".into());
  }
  fn exit_section_heading(&mut self, section: &Section) {
    _ = (&section,); self.ev.push("-section_heading".into());
  }
  fn enter_book_part(&mut self, part: &Part) {
    _ = (&part,); self.ev.push("+book_part".into());
  }
  fn exit_book_part(&mut self, part: &Part) {
    _ = (&part,); self.ev.push("-book_part".into());
  }
  fn enter_book_part_title(&mut self, title: &PartTitle) {
    _ = (&title,); self.ev.push("+book_part_title".into());
  }
  fn exit_book_part_title(&mut self, title: &PartTitle) {
    _ = (&title,); self.ev.push("-book_part_title".into());
  }
  fn enter_book_part_intro(&mut self, part: &Part) {
    _ = (&part,); self.ev.push("+book_part_intro".into());
  }
  fn exit_book_part_intro(&mut self, part: &Part) {
    _ = (&part,); self.ev.push("-book_part_intro".into());
  }
  fn enter_book_part_intro_content(&mut self, part: &Part) {
    _ = (&part,); self.ev.push("+book_part_intro_content".into());
  }
  fn exit_book_part_intro_content(&mut self, part: &Part) {
    _ = (&part,); self.ev.push("-book_part_intro_content".into());
  }
  fn enter_paragraph_block(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("+paragraph_block".into());
  }
  fn exit_paragraph_block(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("-paragraph_block".into());
  }
  fn enter_sidebar_block(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("+sidebar_block".into());
  }
  fn exit_sidebar_block(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("-sidebar_block".into());
  }
  fn enter_open_block(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("+open_block".into());
  }
  fn exit_open_block(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("-open_block".into());
  }
  fn enter_example_block(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("+example_block".into());
  }
  fn exit_example_block(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("-example_block".into());
  }
  fn enter_quote_block(&mut self, block: &Block, has_attribution: bool) {
    _ = (&block, &has_attribution,); self.ev.push("+quote_block".into());
  }
  fn exit_quote_block(&mut self, block: &Block, has_attribution: bool) {
    _ = (&block, &has_attribution,); self.ev.push("-quote_block".into());
  }
  fn enter_verse_block(&mut self, block: &Block, has_attribution: bool) {
    _ = (&block, &has_attribution,); self.ev.push("+verse_block".into());
  }
  fn exit_verse_block(&mut self, block: &Block, has_attribution: bool) {
    _ = (&block, &has_attribution,); self.ev.push("-verse_block".into());
  }
  fn enter_listing_block(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("+listing_block".into());
  }
  fn exit_listing_block(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("-listing_block".into());
  }
  fn enter_literal_block(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("+literal_block".into());
  }
  fn exit_literal_block(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("-literal_block".into());
  }
  fn enter_passthrough_block(&mut self, _block: &Block) {
    _ = (&_block,); self.ev.push("+passthrough_block".into());
  }
  fn exit_passthrough_block(&mut self, _block: &Block) {
    _ = (&_block,); self.ev.push("-passthrough_block".into());
  }
  fn enter_image_block(&mut self, img_target: &SourceString, img_attrs: &AttrList, img_kind: &ImageKind, block: &Block) {
    _ = (&img_target, &img_attrs, &img_kind, &block,); self.ev.push("+image_block".into());
  }
  fn exit_image_block(&mut self, img_target: &SourceString, img_attrs: &AttrList, img_kind: &ImageKind, block: &Block) {
    _ = (&img_target, &img_attrs, &img_kind, &block,); self.ev.push("-image_block".into());
  }
  fn enter_admonition_block(&mut self, kind: AdmonitionKind, icon_uri: Option<&str>, block: &Block) {
    _ = (&kind, &icon_uri, &block,); self.ev.push("+admonition_block".into());
  }
  fn exit_admonition_block(&mut self, kind: AdmonitionKind, icon_uri: Option<&str>, block: &Block) {
    _ = (&kind, &icon_uri, &block,); self.ev.push("-admonition_block".into());
  }
  fn enter_quote_attribution(&mut self, block: &Block, has_cite: bool) {
    _ = (&block, &has_cite,); self.ev.push("+quote_attribution".into());
  }
  fn exit_quote_attribution(&mut self, block: &Block, has_cite: bool) {
    _ = (&block, &has_cite,); self.ev.push("-quote_attribution".into());
  }
  fn enter_quote_cite(&mut self, block: &Block, has_attribution: bool) {
    _ = (&block, &has_attribution,); self.ev.push("+quote_cite".into());
  }
  fn exit_quote_cite(&mut self, block: &Block, has_attribution: bool) {
    _ = (&block, &has_attribution,); self.ev.push("-quote_cite".into());
  }
  fn enter_quoted_paragraph(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("+quoted_paragraph".into());
  }
  fn exit_quoted_paragraph(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("-quoted_paragraph".into());
  }
  fn enter_discrete_heading(&mut self, level: u8, id: Option<&str>, block: &Block) {
    _ = (&level, &id, &block,); self.ev.push("+discrete_heading".into());
  }
  fn exit_discrete_heading(&mut self, level: u8, id: Option<&str>, block: &Block) {
    _ = (&level, &id, &block,); self.ev.push("-discrete_heading".into());
  }
  fn enter_unordered_list(&mut self, block: &Block, items: &[ListItem], depth: u8) {
    _ = (&block, &items, &depth,); self.ev.push("+unordered_list".into());
  }
  fn exit_unordered_list(&mut self, block: &Block, items: &[ListItem], depth: u8) {
    _ = (&block, &items, &depth,); self.ev.push("-unordered_list".into());
  }
  fn enter_ordered_list(&mut self, block: &Block, items: &[ListItem], depth: u8) {
    _ = (&block, &items, &depth,); self.ev.push("+ordered_list".into());
  }
  fn exit_ordered_list(&mut self, block: &Block, items: &[ListItem], depth: u8) {
    _ = (&block, &items, &depth,); self.ev.push("-ordered_list".into());
  }
  fn enter_callout_list(&mut self, block: &Block, items: &[ListItem], depth: u8) {
    _ = (&block, &items, &depth,); self.ev.push("+callout_list".into());
  }
  fn exit_callout_list(&mut self, block: &Block, items: &[ListItem], depth: u8) {
    _ = (&block, &items, &depth,); self.ev.push("-callout_list".into());
  }
  fn enter_description_list(&mut self, block: &Block, items: &[ListItem], depth: u8) {
    _ = (&block, &items, &depth,); self.ev.push("+description_list".into());
  }
  fn exit_description_list(&mut self, block: &Block, items: &[ListItem], depth: u8) {
    _ = (&block, &items, &depth,); self.ev.push("-description_list".into());
  }
  fn enter_description_list_term(&mut self, item: &ListItem, num: usize, total: usize) {
    _ = (&item, &num, &total,); self.ev.push("+description_list_term".into());
  }
  fn exit_description_list_term(&mut self, item: &ListItem, num: usize, total: usize) {
    _ = (&item, &num, &total,); self.ev.push("-description_list_term".into());
  }
  fn enter_description_list_description(&mut self, item: &ListItem) {
    _ = (&item,); self.ev.push("+description_list_description".into());
  }
  fn exit_description_list_description(&mut self, item: &ListItem) {
    _ = (&item,); self.ev.push("-description_list_description".into());
  }
  fn enter_description_list_description_text(&mut self, text: &Block, item: &ListItem) {
    _ = (&text, &item,); self.ev.push("+description_list_description_text".into());
  }
  fn exit_description_list_description_text(&mut self, text: &Block, item: &ListItem) {
    _ = (&text, &item,); self.ev.push("-description_list_description_text".into());
  }
  fn enter_description_list_description_block(&mut self, _block: &Block, _item: &ListItem) {
    _ = (&_block, &_item,); self.ev.push("+description_list_description_block".into());
  }
  fn exit_description_list_description_block(&mut self, _block: &Block, _item: &ListItem) {
    _ = (&_block, &_item,); self.ev.push("-description_list_description_block".into());
  }
  fn enter_list_item_principal(&mut self, item: &ListItem, variant: ListVariant) {
    _ = (&item, &variant,); self.ev.push("+list_item_principal".into());
  }
  fn exit_list_item_principal(&mut self, item: &ListItem, variant: ListVariant) {
    _ = (&item, &variant,); self.ev.push("-list_item_principal".into());
  }
  fn enter_list_item_blocks(&mut self, blocks: &[Block], item: &ListItem, variant: ListVariant) {
    _ = (&blocks, &item, &variant,); self.ev.push("+list_item_blocks".into());
  }
  fn exit_list_item_blocks(&mut self, blocks: &[Block], item: &ListItem, variant: ListVariant) {
    _ = (&blocks, &item, &variant,); self.ev.push("-list_item_blocks".into());
  }
  fn enter_table(&mut self, table: &Table, block: &Block) {
    _ = (&table, &block,); self.ev.push("+table".into());
  }
  fn exit_table(&mut self, table: &Table, block: &Block) {
    _ = (&table, &block,); self.ev.push("-table".into());
  }
  fn enter_table_section(&mut self, section: TableSection) {
    _ = (&section,); self.ev.push(format!("+table_section:{}", section as u8));
  }
  fn exit_table_section(&mut self, section: TableSection) {
    _ = (&section,); self.ev.push(format!("-table_section:{}", section as u8));
  }
  fn enter_table_row(&mut self, row: &Row, section: TableSection) {
    _ = (&row, &section,); self.ev.push("+table_row".into());
  }
  fn exit_table_row(&mut self, row: &Row, section: TableSection) {
    _ = (&row, &section,); self.ev.push("-table_row".into());
  }
  fn enter_table_cell(&mut self, cell: &Cell, section: TableSection) {
    _ = (&cell, &section,); self.ev.push("+table_cell".into());
  }
  fn exit_table_cell(&mut self, cell: &Cell, section: TableSection) {
    _ = (&cell, &section,); self.ev.push("-table_cell".into());
  }
  fn enter_cell_paragraph(&mut self, cell: &Cell, section: TableSection) {
    _ = (&cell, &section,); self.ev.push("+cell_paragraph".into());
  }
  fn exit_cell_paragraph(&mut self, cell: &Cell, section: TableSection) {
    _ = (&cell, &section,); self.ev.push("-cell_paragraph".into());
  }
  fn enter_meta_title(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("+meta_title".into());
  }
  fn exit_meta_title(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("-meta_title".into());
  }
  fn enter_simple_block_content(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("+simple_block_content".into());
  }
  fn exit_simple_block_content(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("-simple_block_content".into());
  }
  fn enter_compound_block_content(&mut self, children: &[Block], block: &Block) {
    _ = (&children, &block,); self.ev.push("+compound_block_content".into());
  }
  fn exit_compound_block_content(&mut self, children: &[Block], block: &Block) {
    _ = (&children, &block,); self.ev.push("-compound_block_content".into());
  }
  fn visit_thematic_break(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("=thematic_break".into());
  }
  fn visit_page_break(&mut self, block: &Block) {
    _ = (&block,); self.ev.push("=page_break".into());
  }
  fn visit_audio_macro(&mut self, target: &SourceString, attrs: &AttrList, block: &Block) {
    _ = (&target, &attrs, &block,); self.ev.push("=audio_macro".into());
  }
  fn visit_video_macro(&mut self, target: &SourceString, attrs: &AttrList, block: &Block) {
    _ = (&target, &attrs, &block,); self.ev.push("=video_macro".into());
  }
  fn visit_inline_text(&mut self, text: &str) {
    self.ev.push(format!("=inline_text:{text}"));
  }
  fn visit_joining_newline(&mut self) {
    self.ev.push("=joining_newline".into());
  }
  fn visit_curly_quote(&mut self, kind: CurlyKind) {
    _ = (&kind,); self.ev.push("=curly_quote".into());
  }
  fn visit_multichar_whitespace(&mut self, whitespace: &str) {
    _ = (&whitespace,); self.ev.push("=multichar_whitespace".into());
  }
  fn visit_button_macro(&mut self, text: &SourceString) {
    _ = (&text,); self.ev.push("=button_macro".into());
  }
  fn visit_menu_macro(&mut self, items: &[SourceString]) {
    _ = (&items,); self.ev.push("=menu_macro".into());
  }
  fn visit_image_macro(&mut self, target: &SourceString, attrs: &AttrList, kind: &ImageKind) {
    _ = (&target, &attrs, &kind,); self.ev.push("=image_macro".into());
  }
  fn visit_icon_macro(&mut self, target: &SourceString, attrs: &AttrList) {
    _ = (&target, &attrs,); self.ev.push("=icon_macro".into());
  }
  fn visit_spaced_dashes(&mut self, len: u8, adjacent_newline: AdjacentNewline) {
    _ = (&len, &adjacent_newline,); self.ev.push("=spaced_dashes".into());
  }
  fn enter_visible_index_term(&mut self) -> bool {
    self.ev.push("+visible_index_term".into()); true
  }
  fn exit_visible_index_term(&mut self) {
    self.ev.push("-visible_index_term".into());
  }
  fn enter_concealed_index_term(&mut self, num_terms: u8) -> bool {
    _ = (&num_terms,); self.ev.push("+concealed_index_term".into()); true
  }
  fn exit_concealed_index_term(&mut self, _num_terms: u8) {
    _ = (&_num_terms,); self.ev.push("-concealed_index_term".into());
  }
  fn enter_concealed_index_term_primary(&mut self) {
    self.ev.push("+concealed_index_term_primary".into());
  }
  fn exit_concealed_index_term_primary(&mut self) {
    self.ev.push("-concealed_index_term_primary".into());
  }
  fn enter_concealed_index_term_secondary(&mut self) {
    self.ev.push("+concealed_index_term_secondary".into());
  }
  fn exit_concealed_index_term_secondary(&mut self) {
    self.ev.push("-concealed_index_term_secondary".into());
  }
  fn enter_concealed_index_term_tertiary(&mut self) {
    self.ev.push("+concealed_index_term_tertiary".into());
  }
  fn exit_concealed_index_term_tertiary(&mut self) {
    self.ev.push("-concealed_index_term_tertiary".into());
  }
  fn visit_plugin_macro(&mut self, plugin_macro: &PluginMacro) {
    _ = (&plugin_macro,); self.ev.push("=plugin_macro".into());
  }
  fn visit_keyboard_macro(&mut self, keys: &[&str]) {
    _ = (&keys,); self.ev.push("=keyboard_macro".into());
  }
  fn enter_link_macro(&mut self, target: &SourceString, attrs: Option<&AttrList>, scheme: Option<UrlScheme>, resolving_xref: bool, has_link_text: bool, blank_window_shorthand: bool) {
    _ = (&target, &attrs, &scheme, &resolving_xref, &has_link_text, &blank_window_shorthand,); self.ev.push("+link_macro".into());
  }
  fn exit_link_macro(&mut self, target: &SourceString, attrs: Option<&AttrList>, scheme: Option<UrlScheme>, resolving_xref: bool, has_link_text: bool) {
    _ = (&target, &attrs, &scheme, &resolving_xref, &has_link_text,); self.ev.push("-link_macro".into());
  }
  fn enter_mailto_macro(&mut self, address: &SourceString, subject: Option<&SourceString>, body: Option<&SourceString>, attrs: Option<&AttrList>, has_link_text: bool) {
    _ = (&address, &subject, &body, &attrs, &has_link_text,); self.ev.push("+mailto_macro".into());
  }
  fn exit_mailto_macro(&mut self, address: &SourceString, subject: Option<&SourceString>, body: Option<&SourceString>, attrs: Option<&AttrList>, has_link_text: bool) {
    _ = (&address, &subject, &body, &attrs, &has_link_text,); self.ev.push("-mailto_macro".into());
  }
  fn visit_callout(&mut self, callout: Callout) {
    _ = (&callout,); self.ev.push("=callout".into());
  }
  fn visit_callout_tuck(&mut self, comment: &str) {
    _ = (&comment,); self.ev.push("=callout_tuck".into());
  }
  fn enter_inline_italic(&mut self, attrs: Option<&AttrList>) {
    _ = (&attrs,); self.ev.push("+inline_italic".into());
  }
  fn exit_inline_italic(&mut self, attrs: Option<&AttrList>) {
    _ = (&attrs,); self.ev.push("-inline_italic".into());
  }
  fn enter_inline_mono(&mut self, attrs: Option<&AttrList>) {
    _ = (&attrs,); self.ev.push("+inline_mono".into());
  }
  fn exit_inline_mono(&mut self, attrs: Option<&AttrList>) {
    _ = (&attrs,); self.ev.push("-inline_mono".into());
  }
  fn enter_inline_bold(&mut self, attrs: Option<&AttrList>) {
    _ = (&attrs,); self.ev.push("+inline_bold".into());
  }
  fn exit_inline_bold(&mut self, attrs: Option<&AttrList>) {
    _ = (&attrs,); self.ev.push("-inline_bold".into());
  }
  fn enter_inline_lit_mono(&mut self, attrs: Option<&AttrList>) {
    _ = (&attrs,); self.ev.push("+inline_lit_mono".into());
  }
  fn exit_inline_lit_mono(&mut self, attrs: Option<&AttrList>) {
    _ = (&attrs,); self.ev.push("-inline_lit_mono".into());
  }
  fn visit_inline_specialchar(&mut self, char: &SpecialCharKind) {
    _ = (&char,); self.ev.push("=inline_specialchar".into());
  }
  fn enter_inline_passthrough(&mut self) {
    self.ev.push("+inline_passthrough".into());
  }
  fn exit_inline_passthrough(&mut self) {
    self.ev.push("-inline_passthrough".into());
  }
  fn enter_inline_highlight(&mut self, attrs: Option<&AttrList>) {
    _ = (&attrs,); self.ev.push("+inline_highlight".into());
  }
  fn exit_inline_highlight(&mut self, attrs: Option<&AttrList>) {
    _ = (&attrs,); self.ev.push("-inline_highlight".into());
  }
  fn enter_inline_subscript(&mut self, attrs: Option<&AttrList>) {
    _ = (&attrs,); self.ev.push("+inline_subscript".into());
  }
  fn exit_inline_subscript(&mut self, attrs: Option<&AttrList>) {
    _ = (&attrs,); self.ev.push("-inline_subscript".into());
  }
  fn enter_inline_superscript(&mut self, attrs: Option<&AttrList>) {
    _ = (&attrs,); self.ev.push("+inline_superscript".into());
  }
  fn exit_inline_superscript(&mut self, attrs: Option<&AttrList>) {
    _ = (&attrs,); self.ev.push("-inline_superscript".into());
  }
  fn enter_inline_quote(&mut self, kind: QuoteKind) {
    _ = (&kind,); self.ev.push("+inline_quote".into());
  }
  fn exit_inline_quote(&mut self, kind: QuoteKind) {
    _ = (&kind,); self.ev.push("-inline_quote".into());
  }
  fn enter_footnote(&mut self, id: Option<&SourceString>) {
    _ = (&id,); self.ev.push("+footnote".into());
  }
  fn exit_footnote(&mut self, id: Option<&SourceString>) {
    _ = (&id,); self.ev.push("-footnote".into());
  }
  fn enter_text_span(&mut self, attrs: Option<&AttrList>) {
    _ = (&attrs,); self.ev.push("+text_span".into());
  }
  fn exit_text_span(&mut self, attrs: Option<&AttrList>) {
    _ = (&attrs,); self.ev.push("-text_span".into());
  }
  fn enter_xref(&mut self, target: &SourceString, has_reftext: bool, kind: XrefKind) {
    _ = (&target, &has_reftext, &kind,); self.ev.push("+xref".into());
  }
  fn exit_xref(&mut self, target: &SourceString, has_reftext: bool, kind: XrefKind) {
    _ = (&target, &has_reftext, &kind,); self.ev.push("-xref".into());
  }
  fn visit_missing_xref(&mut self, target: &SourceString, kind: XrefKind, doc_title: Option<&DocTitle>) {
    _ = (&target, &kind, &doc_title,); self.ev.push("=missing_xref".into());
  }
  fn visit_inline_anchor(&mut self, id: &str) {
    _ = (&id,); self.ev.push("=inline_anchor".into());
  }
  fn visit_biblio_anchor(&mut self, id: &str, reftext: Option<&str>) {
    _ = (&id, &reftext,); self.ev.push("=biblio_anchor".into());
  }
  fn visit_symbol(&mut self, kind: SymbolKind) {
    _ = (&kind,); self.ev.push("=symbol".into());
  }
  fn visit_linebreak(&mut self) {
    self.ev.push("=linebreak".into());
  }
  fn enter_xref_text(&mut self, is_biblio: bool) {
    _ = (&is_biblio,); self.ev.push("+xref_text".into());
  }
  fn exit_xref_text(&mut self, is_biblio: bool) {
    _ = (&is_biblio,); self.ev.push("-xref_text".into());
  }
}
