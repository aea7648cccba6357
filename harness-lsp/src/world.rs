//! An engine that has read a project of one file, as after opening a workspace.
use super::docs::url;
use super::symx::*;
use super::*;
use dm::Context;
use dm::indents::IndentProcessor;
use dm::lexer::LocatedToken;
use dm::objtree::SymbolId;
use dm::preprocessor::{DefineHistory, Preprocessor};
use std::cell::RefCell;

/// Tokens of a text that is made up when the first of them is wanted, so that whatever the parser does
/// before reading is done once for all texts.
struct Late<'c, F> {
    ctx: &'c Context,
    make: Option<F>,
    out: &'c RefCell<(String, Option<DefineHistory>)>,
    tokens: std::vec::IntoIter<LocatedToken>,
}
impl<F: FnOnce() -> String> Iterator for Late<'_, F> {
    type Item = LocatedToken;
    fn next(&mut self) -> Option<LocatedToken> {
        if let Some(make) = self.make.take() {
            let text = make();
            note(text.as_bytes());
            let mut pp = Preprocessor::from_buffer(self.ctx, "a.dm".into(), text.clone());
            let all: Vec<_> = IndentProcessor::new(self.ctx, &mut pp).collect();
            self.tokens = all.into_iter();
            *self.out.borrow_mut() = (text, Some(pp.finalize()));
        }
        self.tokens.next()
    }
}

pub struct World {
    pub e: Engine,
    pub text: String,
    pub errors: usize,
}

pub fn uri() -> Url {
    url("file:///r/a.dm")
}

impl World {
    pub fn new<F: FnOnce() -> String>(make: F) -> World {
        let ctx = Context::default();
        let out = RefCell::new((String::new(), None));
        let tree = {
            let tokens = Late { ctx: &ctx, make: Some(make), out: &out, tokens: Vec::new().into_iter() };
            let mut p = dm::parser::Parser::new(&ctx, tokens);
            p.enable_procs();
            p.parse_object_tree()
        };
        let (text, defines) = out.into_inner();
        let errors = ctx.errors().iter().filter(|e| e.severity() == dm::Severity::Error).count();
        let mut e = Engine { context: ctx, objtree: Arc::new(tree), defines, root: Some(url("file:///r/")), ..Engine::new() };
        let item = TextDocumentItem { uri: uri(), language_id: String::new(), version: 0, text: text.clone() };
        check("the document opens", e.docs.open(item).is_ok());
        World { e, text, errors }
    }
    pub fn at(&self, line: u32, column: u32) -> TextDocumentPositionParams {
        TextDocumentPositionParams { text_document: TextDocumentIdentifier { uri: uri() }, position: Position::new(line, column) }
    }
    /// The lines (from 0) that going to the definition leads to.
    pub fn definition(&mut self, line: u32, column: u32) -> Vec<u32> {
        let got = self.e.GotoDefinition(GotoDefinitionParams {
            text_document_position_params: self.at(line, column),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        });
        check("a definition can be asked for", got.is_ok());
        match got.unwrap() {
            None => Vec::new(),
            Some(GotoDefinitionResponse::Array(a)) => a.iter().map(|l| self.line_of(l)).collect(),
            Some(GotoDefinitionResponse::Scalar(l)) => vec![self.line_of(&l)],
            Some(_) => Vec::new(),
        }
    }
    fn line_of(&self, l: &lsp_types::Location) -> u32 {
        if l.uri == uri() { l.range.start.line } else { u32::MAX }
    }
    pub fn symbol(&mut self, line: u32, column: u32) -> Option<SymbolId> {
        let at = self.at(line, column);
        let got = self.e.symbol_id_at(at);
        check("a symbol can be asked for", got.is_ok());
        got.unwrap()
    }
    /// Where the nth (from 0) occurrence of a marked name stands in the text: the name's second letter.
    pub fn find(&self, name: &str, n: usize) -> (u32, u32) {
        let (i, _) = self.text.match_indices(name).nth(n).unwrap();
        let before = &self.text[..i];
        let line = before.matches('\n').count() as u32;
        (line, (i - before.rfind('\n').map_or(0, |i| i + 1)) as u32 + 1)
    }
}
