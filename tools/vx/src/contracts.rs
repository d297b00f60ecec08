//! Parser for the contract files (`contracts/*.vc`).
//!
//! A line starting with `#` opens a section (`#mod`, `#impl`, `#trait`, `#fn`), a line
//! `word args:` or `word args: text` in column 0 opens a directive, indented lines below it
//! are its text. Lines starting with `//` in column 0 are comments.
use std::collections::HashMap;

#[derive(Default, Clone, Debug)]
pub struct LoopC {
    pub inv: String,
    pub before: String,
    pub start: String,
    pub end: String,
    pub after: String,
}
#[derive(Default, Clone, Debug)]
pub struct CloC {
    pub params: String,
    pub spec: String,
    pub start: String,
    pub end: String,
}
#[derive(Default, Clone, Debug)]
pub struct FnC {
    pub name: String,
    pub attrs: Vec<String>,
    pub ret: String,
    pub spec: String,
    pub pre: String,
    pub end: String,
    pub generics: String,
    pub where_: String,
    pub loops: HashMap<usize, LoopC>,
    pub closures: HashMap<usize, CloC>,
    pub at: Vec<(String, String)>,
    pub rtidx: bool,
    pub external: bool,
    pub keep_ops: bool,
    pub neg_calls: bool,
    pub raw: bool,
    pub arrlen: String,
    pub elem: String,
    pub file: String,
    pub line: usize,
}
#[derive(Default, Clone, Debug)]
pub struct ImplC {
    pub header: String,
    pub is_trait: bool,
    pub items: String,
    pub before: String,
    pub attrs: Vec<String>,
    pub external: bool,
    pub supertraits: String,
    pub ok: String,
    pub req: String,
    pub val: String,
    pub fns: HashMap<String, FnC>,
    pub used: bool,
}
#[derive(Default, Debug)]
pub struct Contracts {
    pub impls: Vec<ImplC>,
    pub mods: HashMap<String, ModC>,
}
#[derive(Default, Debug, Clone)]
pub struct ModC {
    pub raw: String,
    pub fns: HashMap<String, FnC>,
    pub structs: HashMap<String, Vec<String>>,
    pub struct_drop_derive: HashMap<String, Vec<String>>,
}

pub fn parse(files: &[(String, String)]) -> Result<Contracts, String> {
    let mut c = Contracts::default();
    for (fname, text) in files {
        let mut lines = text.lines().enumerate().peekable();
        enum Sec {
            None,
            Mod(String),
            Impl(usize),
        }
        let mut sec = Sec::None;
        let mut cur_fn: Option<String> = None;
        while let Some((ln, line)) = lines.next() {
            let lno = ln + 1;
            if line.trim().is_empty() || line.starts_with("//") {
                continue;
            }
            if let Some(rest) = line.strip_prefix('#') {
                let rest = rest.trim().replacen("impl<", "impl <", 1);
                let rest = rest.as_str();
                let (kw, arg) = rest.split_once(char::is_whitespace).unwrap_or((rest, ""));
                let arg = arg.trim().to_string();
                match kw {
                    "mod" => {
                        c.mods.entry(arg.clone()).or_default();
                        sec = Sec::Mod(arg);
                        cur_fn = None;
                    }
                    "impl" | "trait" => {
                        let header = if kw == "impl" { format!("impl{}", arg) } else { arg.clone() };
                        let header = if kw == "impl" && !arg.starts_with('<') {
                            format!("impl {}", arg)
                        } else {
                            header
                        };
                        c.impls.push(ImplC { header, is_trait: kw == "trait", ..Default::default() });
                        sec = Sec::Impl(c.impls.len() - 1);
                        cur_fn = None;
                    }
                    "fn" => {
                        let f = FnC { name: arg.clone(), file: fname.clone(), line: lno, ret: "r".into(), ..Default::default() };
                        match &sec {
                            Sec::Mod(m) => {
                                c.mods.get_mut(m).unwrap().fns.insert(arg.clone(), f);
                            }
                            Sec::Impl(i) => {
                                c.impls[*i].fns.insert(arg.clone(), f);
                            }
                            Sec::None => return Err(format!("{}:{}: fn outside section", fname, lno)),
                        }
                        cur_fn = Some(arg);
                    }
                    _ => return Err(format!("{}:{}: unknown section {}", fname, lno, kw)),
                }
                continue;
            }
            if line.starts_with(char::is_whitespace) {
                return Err(format!("{}:{}: text without directive", fname, lno));
            }
            let (head, first) = match line.split_once(':') {
                Some((h, f)) => (h.trim().to_string(), f.trim().to_string()),
                None => return Err(format!("{}:{}: bad directive {}", fname, lno, line)),
            };
            let mut body = String::new();
            if !first.is_empty() {
                body.push_str(&first);
                body.push('\n');
            }
            while let Some((_, l)) = lines.peek() {
                if l.trim().is_empty() || l.starts_with(char::is_whitespace) {
                    body.push_str(l);
                    body.push('\n');
                    lines.next();
                } else {
                    break;
                }
            }
            let mut it = head.split_whitespace();
            let kw = it.next().unwrap_or("").to_string();
            let args: Vec<String> = it.map(|s| s.to_string()).collect();
            let err = |m: &str| Err(format!("{}:{}: {}", fname, lno, m));
            if let Some(fname_) = &cur_fn {
                let f = match &sec {
                    Sec::Mod(m) => c.mods.get_mut(m).unwrap().fns.get_mut(fname_).unwrap(),
                    Sec::Impl(i) => c.impls[*i].fns.get_mut(fname_).unwrap(),
                    Sec::None => unreachable!(),
                };
                let idx = || args.first().and_then(|a| a.parse::<usize>().ok());
                match kw.as_str() {
                    "ret" => f.ret = body.trim().to_string(),
                    "attr" => f.attrs.push(body.trim().to_string()),
                    "spec" => f.spec.push_str(&body),
                    "pre" => f.pre.push_str(&body),
                    "end" => f.end.push_str(&body),
                    "generics" => f.generics = body.trim().to_string(),
                    "arrlen" => f.arrlen = body.trim().to_string(),
                    "elem" => f.elem = body.trim().to_string(),
                    "where" => f.where_ = body.trim().to_string(),
                    "external" => f.external = true,
                    "rtidx" => f.rtidx = true,
                    "raw" => f.raw = true,
                    "keepops" => f.keep_ops = true,
                    "negcalls" => f.neg_calls = true,
                    "at" => f.at.push((args.join(" "), body)),
                    "loop" | "loop-before" | "loop-start" | "loop-end" | "loop-after" => {
                        let Some(i) = idx() else { return err("loop needs index") };
                        let l = f.loops.entry(i).or_default();
                        match kw.as_str() {
                            "loop" => l.inv = body,
                            "loop-before" => l.before = body,
                            "loop-start" => l.start = body,
                            "loop-end" => l.end = body,
                            _ => l.after = body,
                        }
                    }
                    "closure" | "closure-params" | "closure-start" | "closure-end" => {
                        let Some(i) = idx() else { return err("closure needs index") };
                        let l = f.closures.entry(i).or_default();
                        match kw.as_str() {
                            "closure" => l.spec = body,
                            "closure-params" => l.params = body.trim().to_string(),
                            "closure-start" => l.start = body,
                            _ => l.end = body,
                        }
                    }
                    _ => return err(&format!("unknown fn directive {}", kw)),
                }
                continue;
            }
            match &sec {
                Sec::Mod(m) => {
                    let m = c.mods.get_mut(m).unwrap();
                    match kw.as_str() {
                        "raw" => m.raw.push_str(&body),
                        "struct" => m.structs.entry(args[0].clone()).or_default().push(body.trim().to_string()),
                        "drop-derive" => m.struct_drop_derive.entry(args[0].clone()).or_default().push(body.trim().to_string()),
                        _ => return err(&format!("unknown mod directive {}", kw)),
                    }
                }
                Sec::Impl(i) => {
                    let im = &mut c.impls[*i];
                    match kw.as_str() {
                        "items" => im.items.push_str(&body),
                        "before" => im.before.push_str(&body),
                        "attr" => im.attrs.push(body.trim().to_string()),
                        "external" => im.external = true,
                        "ok" => im.ok = body.trim().to_string(),
                        "req" => im.req = body.trim().to_string(),
                        "val" => im.val = body.trim().to_string(),
                        "supertraits" => im.supertraits = body.trim().to_string(),
                        _ => return err(&format!("unknown impl directive {}", kw)),
                    }
                }
                Sec::None => return err("directive outside section"),
            }
        }
    }
    Ok(c)
}
