//! What each kind of scenario does with the code under test.
use crate::ast::{expr, jstr, reparse};
use doctor_syn::{Error, Expression, Name, Result, VariableList};
use std::panic;

pub fn errname(e: &Error) -> String {
    let s = format!("{:?}", e);
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

/// A fallible and possibly panicking call of the code under test.
pub fn guard<T>(f: impl FnOnce() -> Result<T>) -> std::result::Result<T, String> {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("\"st\":\"err\",\"err\":{}", jstr(&errname(&e)))),
        Err(_) => Err("\"st\":\"panic\"".to_string()),
    }
}

fn name(s: &str) -> Name {
    let p: doctor_syn::syn::Path = doctor_syn::syn::parse_str(s).expect("name");
    Name::from(p)
}

fn report(e: &Expression) -> String {
    let text = e.to_string();
    format!(
        "\"st\":\"ok\",\"ast\":{},\"text\":{},\"re\":{},\"lit\":{},\"num\":{}",
        expr(e.as_ref()),
        jstr(&text),
        reparse(&text),
        e.is_lit(),
        e.is_numeric()
    )
}

/// A history of operations; every step adds a register (None when the step was refused).
fn session(steps: &[String]) -> String {
    let mut regs: Vec<Option<Expression>> = Vec::new();
    let mut out = Vec::new();
    for step in steps {
        let (op, rest) = step.split_once(' ').unwrap_or((step.as_str(), ""));
        let a: Vec<&str> = rest.split(' ').collect();
        let reg = |k: usize| -> Option<Expression> {
            a.get(k).and_then(|s| s.parse::<usize>().ok()).and_then(|n| regs.get(n).cloned()).flatten()
        };
        macro_rules! need {
            ($k:expr) => {
                match reg($k) {
                    Some(e) => e,
                    None => {
                        regs.push(None);
                        out.push("{\"st\":\"skip\"}".to_string());
                        continue;
                    }
                }
            };
        }
        let before: Vec<Option<String>> = regs.iter().map(|r| r.as_ref().map(|e| e.to_string())).collect();
        let res = match op {
            "P" => guard(|| rest.parse::<Expression>()),
            "+" => { let (x, y) = (need!(0), need!(1)); guard(|| Ok(x + y)) }
            "-" => { let (x, y) = (need!(0), need!(1)); guard(|| Ok(x - y)) }
            "*" => { let (x, y) = (need!(0), need!(1)); guard(|| Ok(x * y)) }
            "/" => { let (x, y) = (need!(0), need!(1)); guard(|| Ok(x / y)) }
            "S" => {
                let x = need!(0);
                let mut vars = VariableList::new();
                let mut missing = false;
                for b in &a[1..] {
                    let (n, r) = b.split_once('=').expect("binding");
                    match r.parse::<usize>().ok().and_then(|n| regs[n].clone()) {
                        Some(e) => { vars.add_var(name(n), e); }
                        None => missing = true,
                    }
                }
                if missing {
                    regs.push(None);
                    out.push("{\"st\":\"skip\"}".to_string());
                    continue;
                }
                guard(|| x.subst(vars))
            }
            "E" => { let x = need!(0); guard(|| x.expand()) }
            "(" => { let x = need!(0); guard(|| x.paren()) }
            "C" => { let x = need!(0); let v = name(a[1]); guard(|| x.collect_terms(v)) }
            "R" => { let x = need!(0); guard(|| x.to_string().parse::<Expression>()) }
            "N" => { let x = need!(0); let (t, b) = (a[1], a[2].parse().unwrap()); guard(|| x.use_number_type(t, b)) }
            "V" => { let x = need!(0); let d = a[1].parse().unwrap(); guard(|| x.eval(d)) }
            _ => panic!("unknown step {}", step),
        };
        let after: Vec<Option<String>> = regs.iter().map(|r| r.as_ref().map(|e| e.to_string())).collect();
        let kept = before == after;
        match res {
            Ok(e) => {
                let rep = guard(|| Ok(report(&e))).unwrap_or_else(|e| e);
                out.push(format!("{{{},\"kept\":{}}}", rep, kept));
                regs.push(Some(e));
            }
            Err(s) => {
                out.push(format!("{{{},\"kept\":{}}}", s, kept));
                regs.push(None);
            }
        }
    }
    format!("\"st\":\"ok\",\"steps\":[{}]", out.join(","))
}

/// The items of a generated file and the names each of them mentions.
fn items(path: &str) -> String {
    use doctor_syn::syn::{self, visit::Visit, Item};
    use std::collections::BTreeSet;
    #[derive(Default)]
    struct Names {
        used: BTreeSet<String>,
        local: BTreeSet<String>,
    }
    impl<'a> Visit<'a> for Names {
        fn visit_path(&mut self, p: &'a syn::Path) {
            if let Some(s) = p.segments.first() {
                self.used.insert(s.ident.to_string());
            }
            syn::visit::visit_path(self, p);
        }
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            self.local.insert(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let text = std::fs::read_to_string(path).expect("file");
    let file = match syn::parse_file(&text) {
        Ok(f) => f,
        Err(_) => return "\"st\":\"unparsable\",\"items\":[]".to_string(),
    };
    let mut out = Vec::new();
    for it in &file.items {
        let name = match it {
            Item::Fn(f) => f.sig.ident.to_string(),
            Item::Const(c) => c.ident.to_string(),
            Item::Static(c) => c.ident.to_string(),
            Item::Type(c) => c.ident.to_string(),
            _ => "?".to_string(),
        };
        let mut n = Names::default();
        n.visit_item(it);
        let used: Vec<String> = n.used.difference(&n.local).map(|s| jstr(s)).collect();
        out.push(format!("{{\"name\":{},\"uses\":[{}]}}", jstr(&name), used.join(",")));
    }
    format!("\"st\":\"ok\",\"items\":[{}]", out.join(","))
}

/// Evaluates every node of an expression, operands first.
fn eval_nodes(e: &doctor_syn::syn::Expr, digits: i64, out: &mut Vec<String>) -> usize {
    use doctor_syn::syn::Expr;
    let t = match e {
        Expr::Paren(p) => format!("[\"p\",{}]", eval_nodes(&p.expr, digits, out)),
        Expr::Group(p) => format!("[\"g\",{}]", eval_nodes(&p.expr, digits, out)),
        Expr::Unary(u) => {
            let k = eval_nodes(&u.expr, digits, out);
            let op = match u.op {
                doctor_syn::syn::UnOp::Neg(_) => "-",
                doctor_syn::syn::UnOp::Not(_) => "!",
                _ => "*",
            };
            format!("[\"u\",\"{}\",{}]", op, k)
        }
        Expr::Binary(b) => {
            let l = eval_nodes(&b.left, digits, out);
            let r = eval_nodes(&b.right, digits, out);
            format!("[\"o\",{},{},{}]", jstr(&crate::ast::squeeze(&b.op)), l, r)
        }
        Expr::MethodCall(m) => {
            let r = eval_nodes(&m.receiver, digits, out);
            let a: Vec<String> = m.args.iter().map(|a| eval_nodes(a, digits, out).to_string()).collect();
            format!("[\"m\",{},{},[{}]]", jstr(&m.method.to_string()), r, a.join(","))
        }
        _ => expr(e),
    };
    let res = match guard(|| Expression::from(e.clone()).eval(digits)) {
        Ok(v) => format!("\"st\":\"ok\",\"v\":{}", expr(v.as_ref())),
        Err(s) => s,
    };
    out.push(format!("{{\"t\":{},{}}}", t, res));
    out.len() - 1
}

fn eval(digits: &str, text: &str) -> String {
    let e: doctor_syn::syn::Expr = match doctor_syn::syn::parse_str(text) {
        Ok(e) => e,
        Err(_) => return "\"st\":\"unparsable\"".to_string(),
    };
    let mut out = Vec::new();
    eval_nodes(&e, digits.parse().unwrap(), &mut out);
    format!("\"st\":\"ok\",\"nodes\":[{}]", out.join(","))
}

fn round(text: &str, places: &str) -> String {
    use doctor_syn::bigdecimal::BigDecimal;
    let x: BigDecimal = text.parse().unwrap();
    let n: i64 = places.parse().unwrap();
    match guard(|| Ok(doctor_syn::bdmath::round(x, n))) {
        Ok(v) => format!("\"st\":\"ok\",\"v\":[\"n\",{}]", jstr(&v.to_string())),
        Err(s) => s,
    }
}

fn numtype(ty: &str, bits: &str, text: &str) -> String {
    let e: Expression = match text.parse() {
        Ok(e) => e,
        Err(_) => return "\"st\":\"unparsable\"".to_string(),
    };
    let src = expr(e.as_ref());
    let res = match guard(|| e.use_number_type(ty, bits.parse().unwrap())) {
        Ok(v) => guard(|| Ok(report(&v))).unwrap_or_else(|e| e),
        Err(s) => s,
    };
    format!("\"st\":\"ok\",\"src\":{},\"res\":{{{}}}", src, res)
}

fn conversions(e: &Expression) -> String {
    use doctor_syn::bigdecimal::BigDecimal;
    let show = |r: std::result::Result<String, String>| match r {
        Ok(v) => format!("{{\"st\":\"ok\",\"v\":\"{}\"}}", v),
        Err(s) => format!("{{{}}}", s),
    };
    let b64 = show(guard(|| f64::try_from(e).map(|v| v.to_bits().to_string())));
    let b32 = show(guard(|| f32::try_from(e).map(|v| v.to_bits().to_string())));
    let dec = show(guard(|| BigDecimal::try_from(e).map(|v| v.to_string())));
    format!(
        "\"st\":\"ok\",\"ast\":{},\"lit\":{},\"num\":{},\"b64\":{},\"b32\":{},\"dec\":{}",
        expr(e.as_ref()),
        e.is_lit(),
        e.is_numeric(),
        b64,
        b32,
        dec
    )
}

/// A value made into an expression and back.
fn number(source: &str, text: &str) -> String {
    use doctor_syn::bigdecimal::BigDecimal;
    if source == "find" {
        let mut vars = VariableList::new();
        let parts: Vec<&str> = text.split(' ').collect();
        for b in &parts[..parts.len() - 1] {
            let (n, v) = b.split_once('=').unwrap();
            vars.add_var(name(n), v.parse().unwrap());
        }
        let found = match vars.find(&name(parts[parts.len() - 1])) {
            Some(e) => expr(e.as_ref()),
            None => "[\"none\"]".to_string(),
        };
        return format!("\"st\":\"ok\",\"found\":{}", found);
    }
    let e = guard(|| match source {
        "f64" => Ok(Expression::from(f64::from_bits(text.parse().unwrap()))),
        "f32" => Ok(Expression::from(f32::from_bits(text.parse().unwrap()))),
        "dec" => Ok(Expression::from(text.parse::<BigDecimal>().unwrap())),
        "bool" => Ok(Expression::from(text == "true")),
        _ => text.parse::<Expression>(),
    });
    match e {
        Ok(e) => conversions(&e),
        Err(s) => s,
    }
}

/// The polynomial through some points, and its values there.
fn poly(digits: &str, xs: &str, ys: &str) -> String {
    use doctor_syn::bigdecimal::BigDecimal;
    use doctor_syn::polynomial::Polynomial;
    let read = |t: &str| -> Vec<BigDecimal> { t.split(' ').map(|v| v.parse().unwrap()).collect() };
    let (xs, ys) = (read(xs), read(ys));
    let show = |v: &[BigDecimal]| v.iter().map(|c| jstr(&c.to_string())).collect::<Vec<_>>().join(",");
    match guard(|| {
        let p = Polynomial::from_points(&xs, &ys, digits.parse().unwrap());
        let at: Vec<BigDecimal> = xs.iter().map(|x| p.eval(x.clone())).collect();
        Ok((p.terms().to_vec(), at))
    }) {
        Ok((t, at)) => format!("\"st\":\"ok\",\"terms\":[{}],\"at\":[{}]", show(&t), show(&at)),
        Err(s) => s,
    }
}

fn approx(f: &[String]) -> String {
    use doctor_syn::Parity;
    let e: Expression = match f[0].parse() {
        Ok(e) => e,
        Err(_) => return "\"st\":\"unparsable\"".to_string(),
    };
    let src = expr(e.as_ref());
    let parity = match f[5].as_str() {
        "odd" => Parity::Odd,
        "even" => Parity::Even,
        _ => Parity::Neither,
    };
    let (n, a, b) = (f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap());
    let res = match guard(|| e.approx(n, a, b, name(&f[4]), parity, f[6].parse().unwrap())) {
        Ok(v) => guard(|| Ok(report(&v))).unwrap_or_else(|e| e),
        Err(s) => s,
    };
    format!("\"st\":\"ok\",\"src\":{},\"res\":{{{}}}", src, res)
}

fn stream_json(ts: doctor_syn::proc_macro2::TokenStream) -> String {
    use doctor_syn::proc_macro2::{Delimiter, Spacing, TokenTree};
    let mut out = Vec::new();
    for t in ts {
        out.push(match t {
            TokenTree::Group(g) => {
                let d = match g.delimiter() {
                    Delimiter::Parenthesis => "(",
                    Delimiter::Brace => "{",
                    Delimiter::Bracket => "[",
                    Delimiter::None => "<",
                };
                format!("[\"g\",\"{}\",{}]", d, stream_json(g.stream()))
            }
            TokenTree::Ident(i) => format!("[\"i\",{}]", jstr(&i.to_string())),
            TokenTree::Punct(p) => format!("[\"p\",{},{}]", jstr(&p.as_char().to_string()), p.spacing() == Spacing::Joint),
            TokenTree::Literal(l) => {
                let v = l.to_string().replace(' ', "%20").replace('\n', "%0a").replace('\\', "%5c");
                format!("[\"l\",{}]", jstr(&v))
            }
        });
    }
    format!("[{}]", out.join(","))
}

/// Builds a token stream from its description.
fn stream_of(words: &mut dyn Iterator<Item = &str>) -> doctor_syn::proc_macro2::TokenStream {
    use doctor_syn::proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
    let mut out: Vec<TokenTree> = Vec::new();
    while let Some(w) = words.next() {
        let group = |d, words: &mut dyn Iterator<Item = &str>| TokenTree::from(Group::new(d, stream_of(words)));
        if w == ")" {
            break;
        }
        out.push(match w {
            "(" => group(Delimiter::Parenthesis, words),
            "{" => group(Delimiter::Brace, words),
            "[" => group(Delimiter::Bracket, words),
            "<" => group(Delimiter::None, words),
            _ => {
                let v = w[2..].replace("%20", " ").replace("%0a", "\n").replace("%5c", "\\");
                match &w[..2] {
                    "i=" => match v.strip_prefix("r#") {
                        Some(r) => Ident::new_raw(r, Span::call_site()).into(),
                        None => Ident::new(&v, Span::call_site()).into(),
                    },
                    "p=" => Punct::new(v.chars().next().unwrap(), Spacing::Alone).into(),
                    "j=" => Punct::new(v.chars().next().unwrap(), Spacing::Joint).into(),
                    _ => v.parse::<Literal>().expect("literal").into(),
                }
            }
        });
    }
    out.into_iter().collect::<TokenStream>()
}

/// The C translation of a file.
fn toc(prefix: &str, suffix: &str, src: &str) -> String {
    use doctor_syn::codegen::c::{to_c, Options};
    let file = match doctor_syn::syn::parse_file(src) {
        Ok(f) => f,
        Err(_) => return "\"st\":\"unparsable\"".to_string(),
    };
    let options = Options { prefix: prefix.to_string(), float_suffix: suffix.to_string() };
    match guard(|| Ok(to_c(&file, options))) {
        Ok(t) => format!("\"st\":\"ok\",\"text\":{}", jstr(&t)),
        Err(e) => e,
    }
}

fn tosimd(bits: &str, src: &str) -> String {
    use doctor_syn::codegen::portable_simd::{to_simd, Options};
    use doctor_syn::quote::ToTokens;
    let file = match doctor_syn::syn::parse_file(src) {
        Ok(f) => f,
        Err(_) => return "\"st\":\"unparsable\"".to_string(),
    };
    let mut options = Options::default();
    options.num_bits = bits.parse().unwrap();
    let text = |file: doctor_syn::syn::File| doctor_syn::codegen::rust::format_token_stream(file.into_token_stream());
    match guard(|| Ok(text(to_simd(&file, options)))) {
        Ok(t) => format!("\"st\":\"ok\",\"text\":{}", jstr(&t)),
        Err(e) => e,
    }
}

/// Formats a token stream and reads the text back.
fn fmt(kind: &str, text: &str) -> String {
    use doctor_syn::codegen::rust::format_token_stream;
    use doctor_syn::quote::ToTokens;
    let src = if kind == "fmtsrc" {
        match doctor_syn::syn::parse_file(text) {
            Ok(f) => f.into_token_stream(),
            Err(_) => return "\"st\":\"unparsable\"".to_string(),
        }
    } else {
        stream_of(&mut text.split(' ').filter(|w| !w.is_empty()))
    };
    match guard(|| Ok(format_token_stream(src.clone()))) {
        Ok(t) => {
            let re = match t.parse::<doctor_syn::proc_macro2::TokenStream>() {
                Ok(ts) => stream_json(ts),
                Err(_) => "[[\"bad\"]]".to_string(),
            };
            format!("\"st\":\"ok\",\"src\":{},\"text\":{},\"re\":{}", stream_json(src), jstr(&t), re)
        }
        Err(s) => s,
    }
}

pub fn run(kind: &str, f: &[String]) -> String {
    match kind {
        "session" => session(f),
        "eval" => eval(&f[0], &f[1]),
        "round" => round(&f[0], &f[1]),
        "numtype" => numtype(&f[0], &f[1], &f[2]),
        "poly" => poly(&f[0], &f[1], &f[2]),
        "approx" => approx(f),
        "fmt" | "fmtsrc" => fmt(kind, &f[0]),
        "toc" => toc(&f[0], &f[1], &f[2]),
        "tosimd" => tosimd(&f[0], &f[1]),
        "number" => number(&f[0], &f[1]),
        "items" => items(&f[0]),
        _ => panic!("unknown kind {}", kind),
    }
}
