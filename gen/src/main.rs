//! Runs the C++ generator over a batch of bridges read from stdin.
//!
//! Request:  u32 id, u8 flags, str source, str cfg, str annotations, str includes
//! Response: u32 id, u8 status, str header, str implementation or error
//! where str is a u32 length and that many bytes; status 0 is accepted,
//! 1 rejected with an error, 2 panicked.
//!
//! `cfg` lists the configuration, one entry per line: `name`, `name=value` are
//! true, `?name` makes every question about `name` undetermined, `*` answers
//! everything else with false; without `*` the default evaluator is used.
//! `includes` has one include per line, in quotes or brackets.
use cxx_gen::{CfgEvaluator, CfgResult, Include, IncludeKind, Opt};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Cfg(Vec<String>);
impl CfgEvaluator for Cfg {
    fn eval(&self, name: &str, value: Option<&str>) -> CfgResult {
        let q = match value {
            None => name.to_owned(),
            Some(v) => format!("{}={}", name, v),
        };
        if self.0.contains(&format!("?{}", name)) {
            CfgResult::Undetermined { msg: format!("undetermined {}", q) }
        } else if self.0.contains(&q) {
            CfgResult::True
        } else {
            CfgResult::False
        }
    }
}

fn take<'a>(b: &mut &'a [u8], n: usize) -> &'a [u8] {
    let (x, y) = b.split_at(n);
    *b = y;
    x
}
fn num(b: &mut &[u8]) -> u32 {
    u32::from_le_bytes(take(b, 4).try_into().unwrap())
}
fn text(b: &mut &[u8]) -> String {
    let n = num(b) as usize;
    String::from_utf8(take(b, n).to_vec()).unwrap()
}

fn one(src: &str, cfg: &str, ann: &str, inc: &str) -> Result<(Vec<u8>, Vec<u8>), String> {
    let tokens: proc_macro2::TokenStream = src.parse().map_err(|e| format!("lex: {}", e))?;
    let mut opt = Opt::default();
    if cfg.lines().any(|l| l == "*") {
        opt.cfg_evaluator = Box::new(Cfg(cfg.lines().map(String::from).collect()));
    }
    if !ann.is_empty() {
        opt.cxx_impl_annotations = Some(ann.to_owned());
    }
    for l in inc.lines() {
        let path = l[1..l.len() - 1].to_owned();
        let kind = if l.starts_with('<') { IncludeKind::Bracketed } else { IncludeKind::Quoted };
        opt.include.push(Include { path, kind });
    }
    match cxx_gen::generate_header_and_cc(tokens, &opt) {
        Ok(g) => Ok((g.header, g.implementation)),
        Err(e) => Err(e.to_string()),
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("header") {
        std::io::stdout().write_all(cxx_gen::HEADER.as_bytes()).unwrap();
        return;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut input = Vec::new();
    std::io::stdin().read_to_end(&mut input).unwrap();
    let mut b = &input[..];
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    while !b.is_empty() {
        let id = num(&mut b);
        let flags = take(&mut b, 1)[0];
        let (src, cfg, ann, inc) = (text(&mut b), text(&mut b), text(&mut b), text(&mut b));
        let r = catch_unwind(AssertUnwindSafe(|| one(&src, &cfg, &ann, &inc)));
        let (st, h, c) = match r {
            Ok(Ok((h, c))) => (0, h, c),
            Ok(Err(e)) => (1, vec![], e.into_bytes()),
            Err(p) => (2, vec![], p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().into_bytes()),
        };
        out.write_all(&id.to_le_bytes()).unwrap();
        out.write_all(&[st]).unwrap();
        for x in if flags & 1 != 0 && st == 0 { [vec![], vec![]] } else { [h, c] } {
            out.write_all(&(x.len() as u32).to_le_bytes()).unwrap();
            out.write_all(&x).unwrap();
        }
        out.flush().unwrap();
    }
}
