//! Expressions as JSON arrays, the form the specification reads.
use doctor_syn::quote::{quote, ToTokens};
use doctor_syn::syn::{self, Expr, Lit, Member, UnOp};

pub fn jstr(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 32 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

pub fn squeeze<T: ToTokens>(t: T) -> String {
    let text = quote!(#t).to_string();
    let c: Vec<char> = text.chars().collect();
    let word = |c: char| c.is_alphanumeric() || c == '_';
    // A space between two words stays.
    (0..c.len()).filter(|&i| c[i] != ' ' || (word(c[i - 1]) && word(c[i + 1]))).map(|i| c[i]).collect()
}

fn arr(items: &[String]) -> String {
    format!("[{}]", items.join(","))
}

fn list<'a>(it: impl Iterator<Item = &'a Expr>) -> String {
    arr(&it.map(expr).collect::<Vec<_>>())
}

pub fn lit(l: &Lit) -> String {
    match l {
        Lit::Int(_) => arr(&[jstr("n"), jstr(&squeeze(l))]),
        Lit::Float(_) => arr(&[jstr("n"), jstr(&squeeze(l))]),
        Lit::Bool(b) => arr(&[jstr("b"), b.value.to_string()]),
        _ => arr(&[jstr("s"), jstr(&quote!(#l).to_string())]),
    }
}

pub fn expr(e: &Expr) -> String {
    match e {
        Expr::Lit(l) => lit(&l.lit),
        Expr::Path(p) => arr(&[jstr("v"), jstr(&squeeze(p))]),
        Expr::Paren(p) => arr(&[jstr("p"), expr(&p.expr)]),
        Expr::Group(p) => arr(&[jstr("g"), expr(&p.expr)]),
        Expr::Unary(u) => {
            let op = match u.op {
                UnOp::Neg(_) => "-",
                UnOp::Not(_) => "!",
                UnOp::Deref(_) => "*",
            };
            arr(&[jstr("u"), jstr(op), expr(&u.expr)])
        }
        Expr::Binary(b) => arr(&[jstr("o"), jstr(&squeeze(&b.op)), expr(&b.left), expr(&b.right)]),
        Expr::MethodCall(m) => {
            let turbofish = m.turbofish.as_ref().map(squeeze).unwrap_or_default();
            arr(&[
                jstr("m"),
                jstr(&format!("{}{}", m.method, turbofish)),
                expr(&m.receiver),
                list(m.args.iter()),
            ])
        }
        Expr::Call(c) => arr(&[jstr("c"), expr(&c.func), list(c.args.iter())]),
        Expr::Field(f) => {
            let m = match &f.member {
                Member::Named(i) => i.to_string(),
                Member::Unnamed(i) => i.index.to_string(),
            };
            arr(&[jstr("f"), jstr(&m), expr(&f.base)])
        }
        Expr::Cast(c) => arr(&[jstr("as"), jstr(&squeeze(&c.ty)), expr(&c.expr)]),
        Expr::Index(i) => arr(&[jstr("i"), expr(&i.expr), expr(&i.index)]),
        Expr::Reference(r) => arr(&[jstr("r"), expr(&r.expr)]),
        Expr::Tuple(t) => arr(&[jstr("t"), list(t.elems.iter())]),
        _ => arr(&[jstr("z"), jstr(&quote!(#e).to_string())]),
    }
}

pub fn reparse(text: &str) -> String {
    match syn::parse_str::<Expr>(text) {
        Ok(e) => expr(&e),
        Err(_) => "[\"none\"]".to_string(),
    }
}
