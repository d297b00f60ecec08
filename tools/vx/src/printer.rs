//! Prints token streams with line structure, replacing the marker macros by raw text.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub enum Raw {
    /// Contract text of function `id`, printed in front of the body.
    FnSpec(usize, String),
    /// Clauses printed in front of a brace block (loops, closures).
    Spec(String),
    /// Text printed in place.
    Text(String),
    /// Marks loop `n` of the source; prints nothing.
    Loop(usize),
}

pub struct Printer<'a> {
    pub out: String,
    pub line: usize,
    indent: usize,
    at_line_start: bool,
    raws: &'a [Raw],
    last_fn_line: usize,
    pub ranges: Vec<(usize, usize, usize)>,
}

impl<'a> Printer<'a> {
    pub fn new(raws: &'a [Raw]) -> Self {
        Printer { out: String::new(), line: 1, indent: 0, at_line_start: true, raws, last_fn_line: 1, ranges: vec![] }
    }
    pub fn raw(&mut self, s: &str) {
        if s.trim().is_empty() {
            return;
        }
        if !self.at_line_start {
            self.nl();
        }
        for l in s.trim_end().lines() {
            self.out.push_str(l);
            self.out.push('\n');
            self.line += 1;
        }
        self.at_line_start = true;
    }
    fn nl(&mut self) {
        if self.at_line_start {
            return;
        }
        self.out.push('\n');
        self.line += 1;
        self.at_line_start = true;
    }
    fn word(&mut self, s: &str, space: bool) {
        if self.at_line_start {
            for _ in 0..self.indent {
                self.out.push_str("    ");
            }
            self.at_line_start = false;
        }
        self.out.push_str(s);
        if space {
            self.out.push(' ');
        }
    }
    fn marker(&self, tts: &[TokenTree], i: usize) -> Option<(&'a Raw, bool)> {
        if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(_)), Some(TokenTree::Group(g))) =
            (tts.get(i), tts.get(i + 1), tts.get(i + 2))
        {
            if id == "__vx" {
                let n: usize = g.stream().to_string().trim().parse().ok()?;
                let semi = matches!(tts.get(i + 3), Some(TokenTree::Punct(p)) if p.as_char() == ';');
                return Some((&self.raws[n], semi));
            }
        }
        None
    }
    pub fn stream(&mut self, ts: TokenStream, braced: bool) {
        let tts: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < tts.len() {
            if let Some((raw, semi)) = self.marker(&tts, i) {
                i += if semi { 4 } else { 3 };
                match raw {
                    Raw::Text(t) => self.raw(t),
                    // a trait method without a body
                    Raw::FnSpec(id, t) => {
                        let start = self.last_fn_line;
                        self.raw(t);
                        self.word(";", true);
                        self.nl();
                        self.ranges.push((*id, start, self.line));
                    }
                    Raw::Spec(t) => self.raw(t),
                    Raw::Loop(_) => {}
                }
                continue;
            }
            match &tts[i] {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let mut skip = 0;
                        let mut fnid = None;
                        let start = self.last_fn_line;
                        loop {
                            match self.marker(&inner, skip) {
                                Some((Raw::FnSpec(id, t), semi)) => {
                                    fnid = Some(*id);
                                    self.raw(t);
                                    skip += if semi { 4 } else { 3 };
                                }
                                Some((Raw::Loop(_), semi)) => skip += if semi { 4 } else { 3 },
                                Some((Raw::Spec(t), semi)) => {
                                    self.raw(t);
                                    skip += if semi { 4 } else { 3 };
                                }
                                _ => break,
                            }
                        }
                        self.word("{", false);
                        self.nl();
                        self.indent += 1;
                        self.stream(inner[skip..].iter().cloned().collect(), true);
                        self.nl();
                        self.indent -= 1;
                        self.word("}", true);
                        if let Some(id) = fnid {
                            self.ranges.push((id, start, self.line));
                        }
                        // keep `}` followed by punctuation or else on the line
                        let cont = match tts.get(i + 1) {
                            Some(TokenTree::Punct(_)) => true,
                            Some(TokenTree::Ident(id)) => id == "else",
                            None => !braced,
                            _ => false,
                        };
                        if !cont {
                            self.nl();
                        }
                    }
                    Delimiter::Parenthesis | Delimiter::Bracket => {
                        let (o, c) = if g.delimiter() == Delimiter::Parenthesis { ("(", ")") } else { ("[", "]") };
                        self.word(o, false);
                        self.stream(g.stream(), false);
                        self.word(c, true);
                    }
                    Delimiter::None => self.stream(g.stream(), false),
                },
                TokenTree::Ident(id) => {
                    if id == "fn" {
                        self.last_fn_line = self.line;
                    }
                    self.word(&id.to_string(), true);
                }
                TokenTree::Literal(l) => self.word(&l.to_string(), true),
                TokenTree::Punct(p) => {
                    let joint = p.spacing() == Spacing::Joint;
                    let c = p.as_char().to_string();
                    let space = !joint && p.as_char() != '\'';
                    self.word(&c, space);
                    if p.as_char() == ';' && braced {
                        self.nl();
                    }
                    if p.as_char() == ',' && braced {
                        self.nl();
                    }
                }
            }
            i += 1;
        }
    }
}
