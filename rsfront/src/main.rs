//! rsfront: parses Rust source (one JSON request per line on stdin: {"path":..} or {"name":..,"text":..})
//! and prints one JSON document per line: a small, uniform syntax tree used by the analyses in /verif/sa.
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use syn::parse::{Parse, ParseStream, Parser};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

fn line(s: Span) -> usize {
    s.start().line
}

fn ts(t: impl ToTokens) -> String {
    compact(&t.to_token_stream())
}

/// Token text without insignificant blanks.
fn compact(t: &TokenStream) -> String {
    let s = t.to_string();
    let mut out = String::new();
    let chars: Vec<char> = s.chars().collect();
    let word = |c: char| c.is_alphanumeric() || c == '_' || c == '\'' || c == '"';
    for (i, c) in chars.iter().enumerate() {
        if *c == ' ' || *c == '\n' {
            let p = out.chars().last().unwrap_or(' ');
            let n = chars.get(i + 1).copied().unwrap_or(' ');
            if word(p) && word(n) {
                out.push(' ');
            }
        } else {
            out.push(*c);
        }
    }
    out
}

fn path_str(p: &Path) -> String {
    p.segments
        .iter()
        .map(|s| s.ident.to_string())
        .collect::<Vec<_>>()
        .join("::")
}

fn qpath(q: &Option<QSelf>, p: &Path) -> Value {
    let mut v = json!({"k":"path","l":line(p.span()),"p":path_str(p)});
    let gen: Vec<String> = p
        .segments
        .iter()
        .filter_map(|s| match &s.arguments {
            PathArguments::AngleBracketed(a) => Some(ts(&a.args)),
            _ => None,
        })
        .collect();
    if !gen.is_empty() {
        v["g"] = json!(gen);
    }
    if let Some(q) = q {
        v["q"] = json!(ts(&q.ty));
    }
    v
}

fn attrs_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let t = ts(a);
        t == "#[test]" || t.contains("cfg(test)") || t.contains("::test]")
    })
}

fn lit(l: &Lit) -> Value {
    match l {
        Lit::Str(s) => json!({"k":"lit","t":"str","v":s.value(),"l":line(l.span())}),
        Lit::ByteStr(s) => {
            json!({"k":"lit","t":"bstr","v":String::from_utf8_lossy(&s.value()),"l":line(l.span())})
        }
        Lit::Char(c) => json!({"k":"lit","t":"char","v":c.value().to_string(),"l":line(l.span())}),
        Lit::Byte(c) => json!({"k":"lit","t":"int","v":c.value().to_string(),"l":line(l.span())}),
        Lit::Int(i) => {
            json!({"k":"lit","t":"int","v":i.base10_digits(),"s":i.suffix(),"l":line(l.span())})
        }
        Lit::Float(i) => {
            json!({"k":"lit","t":"float","v":i.base10_digits(),"s":i.suffix(),"l":line(l.span())})
        }
        Lit::Bool(b) => json!({"k":"lit","t":"bool","v":b.value,"l":line(l.span())}),
        o => json!({"k":"lit","t":"other","v":ts(o),"l":line(l.span())}),
    }
}

fn pat(p: &Pat) -> Value {
    let l = line(p.span());
    match p {
        Pat::Ident(i) => {
            let name = i.ident.to_string();
            let sub = i.subpat.as_ref().map(|(_, s)| pat(s));
            json!({"k":"pid","n":name,"sub":sub,"l":l})
        }
        Pat::Wild(_) => json!({"k":"pwild","l":l}),
        Pat::Rest(_) => json!({"k":"prest","l":l}),
        Pat::Tuple(t) => json!({"k":"ptup","e":t.elems.iter().map(pat).collect::<Vec<_>>(),"l":l}),
        Pat::TupleStruct(t) => {
            json!({"k":"pts","p":path_str(&t.path),"e":t.elems.iter().map(pat).collect::<Vec<_>>(),"l":l})
        }
        Pat::Struct(s) => {
            json!({"k":"pst","p":path_str(&s.path),"f":s.fields.iter().map(|f| json!([ts(&f.member), pat(&f.pat)])).collect::<Vec<_>>(),"rest":s.rest.is_some(),"l":l})
        }
        Pat::Path(q) => json!({"k":"ppath","p":path_str(&q.path),"l":l}),
        Pat::Lit(e) => json!({"k":"plit","e":lit(&e.lit),"l":l}),
        Pat::Range(r) => {
            json!({"k":"prange","a":r.start.as_ref().map(|e| expr(e)),"b":r.end.as_ref().map(|e| expr(e)),"incl":matches!(r.limits, RangeLimits::Closed(_)),"l":l})
        }
        Pat::Or(o) => json!({"k":"por","e":o.cases.iter().map(pat).collect::<Vec<_>>(),"l":l}),
        Pat::Reference(r) => pat(&r.pat),
        Pat::Type(t) => {
            let mut v = pat(&t.pat);
            v["ty"] = json!(ts(&t.ty));
            v
        }
        Pat::Paren(p) => pat(&p.pat),
        Pat::Slice(s) => json!({"k":"pslice","e":s.elems.iter().map(pat).collect::<Vec<_>>(),"l":l}),
        Pat::Const(c) => json!({"k":"pconst","s":ts(c),"l":l}),
        o => json!({"k":"pother","s":ts(o),"l":l}),
    }
}

fn block(b: &Block) -> Value {
    json!({"k":"block","l":line(b.span()),"s":b.stmts.iter().filter_map(stmt).collect::<Vec<_>>()})
}

fn stmt(s: &Stmt) -> Option<Value> {
    Some(match s {
        Stmt::Local(l) => {
            let (init, els) = match &l.init {
                Some(i) => (Some(expr(&i.expr)), i.diverge.as_ref().map(|(_, e)| expr(e))),
                None => (None, None),
            };
            json!({"k":"let","pat":pat(&l.pat),"init":init,"els":els,"l":line(l.span())})
        }
        Stmt::Item(i) => {
            let v = item(i)?;
            json!({"k":"item","item":v,"l":line(i.span())})
        }
        Stmt::Expr(e, semi) => {
            let v = expr(e);
            json!({"k":"expr","e":v,"semi":semi.is_some(),"l":line(e.span())})
        }
        Stmt::Macro(m) => {
            let v = mac(&m.mac);
            json!({"k":"expr","e":v,"semi":m.semi_token.is_some(),"l":line(m.span())})
        }
    })
}

struct SelectArm {
    pat: Option<Pat>,
    fut: Option<Expr>,
    guard: Option<Expr>,
    body: Expr,
}
struct Select(Vec<SelectArm>);
impl Parse for Select {
    fn parse(input: ParseStream) -> Result<Self> {
        let mut arms = vec![];
        // optional "biased;"
        if input.peek(Ident) && input.peek2(Token![;]) {
            let _: Ident = input.parse()?;
            let _: Token![;] = input.parse()?;
        }
        while !input.is_empty() {
            if input.peek(Token![else]) {
                let _: Token![else] = input.parse()?;
                let _: Token![=>] = input.parse()?;
                let body: Expr = input.parse()?;
                let _ = input.parse::<Option<Token![,]>>()?;
                arms.push(SelectArm { pat: None, fut: None, guard: None, body });
                continue;
            }
            let pat = Pat::parse_multi_with_leading_vert(input)?;
            let _: Token![=] = input.parse()?;
            let fut: Expr = input.parse()?;
            let guard = if input.peek(Token![,]) && input.peek2(Token![if]) {
                let _: Token![,] = input.parse()?;
                let _: Token![if] = input.parse()?;
                Some(input.parse::<Expr>()?)
            } else {
                None
            };
            let _: Token![=>] = input.parse()?;
            let body: Expr = if input.peek(token::Brace) {
                let b: Block = input.parse()?;
                Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
            } else {
                input.parse()?
            };
            let _ = input.parse::<Option<Token![,]>>()?;
            arms.push(SelectArm { pat: Some(pat), fut: Some(fut), guard, body });
        }
        Ok(Select(arms))
    }
}

struct MatchesArgs(Expr, Pat, Option<Expr>);
impl Parse for MatchesArgs {
    fn parse(input: ParseStream) -> Result<Self> {
        let e = input.parse()?;
        let _: Token![,] = input.parse()?;
        let p = Pat::parse_multi_with_leading_vert(input)?;
        let g = if input.peek(Token![if]) {
            let _: Token![if] = input.parse()?;
            Some(input.parse()?)
        } else {
            None
        };
        let _ = input.parse::<Option<Token![,]>>()?;
        Ok(MatchesArgs(e, p, g))
    }
}

struct FmtArg(Option<String>, Expr);
impl Parse for FmtArg {
    fn parse(input: ParseStream) -> Result<Self> {
        if input.peek(Ident) && input.peek2(Token![=]) && !input.peek2(Token![==]) {
            let i: Ident = input.parse()?;
            let _: Token![=] = input.parse()?;
            return Ok(FmtArg(Some(i.to_string()), input.parse()?));
        }
        Ok(FmtArg(None, input.parse()?))
    }
}

fn mac(m: &Macro) -> Value {
    let name = path_str(&m.path);
    let short = name.rsplit("::").next().unwrap_or("").to_string();
    let l = line(m.span());
    match short.as_str() {
        "select" => {
            if let Ok(s) = m.parse_body::<Select>() {
                return json!({"k":"select","l":l,"arms":s.0.iter().map(|a| json!({
                    "pat":a.pat.as_ref().map(pat),"fut":a.fut.as_ref().map(expr),"guard":a.guard.as_ref().map(expr),"body":expr(&a.body)
                })).collect::<Vec<_>>()});
            }
        }
        "matches" => {
            if let Ok(s) = m.parse_body::<MatchesArgs>() {
                return json!({"k":"matches","l":l,"e":expr(&s.0),"pat":pat(&s.1),"guard":s.2.as_ref().map(expr)});
            }
        }
        "vec" => {
            if let Ok(r) = m.parse_body_with(|i: ParseStream| {
                let e: Expr = i.parse()?;
                let _: Token![;] = i.parse()?;
                let n: Expr = i.parse()?;
                Ok((e, n))
            }) {
                return json!({"k":"mac","n":short,"l":l,"rep":[expr(&r.0),expr(&r.1)]});
            }
        }
        _ => {}
    }
    let p = Punctuated::<FmtArg, Token![,]>::parse_terminated;
    if let Ok(args) = m.parse_body_with(p) {
        return json!({"k":"mac","n":short,"full":name,"l":l,
            "a":args.iter().map(|a| expr(&a.1)).collect::<Vec<_>>(),
            "an":args.iter().map(|a| a.0.clone()).collect::<Vec<_>>()});
    }
    if let Ok(b) = m.parse_body_with(Block::parse_within) {
        return json!({"k":"mac","n":short,"full":name,"l":l,"block":b.iter().filter_map(stmt).collect::<Vec<_>>()});
    }
    json!({"k":"mac","n":short,"full":name,"l":l,"raw":compact(&m.tokens)})
}

fn exprs<'a>(it: impl IntoIterator<Item = &'a Expr>) -> Vec<Value> {
    it.into_iter().map(expr).collect()
}

fn expr(e: &Expr) -> Value {
    let l = line(e.span());
    match e {
        Expr::Lit(x) => lit(&x.lit),
        Expr::Path(p) => qpath(&p.qself, &p.path),
        Expr::Field(f) => json!({"k":"field","e":expr(&f.base),"n":ts(&f.member),"l":l}),
        Expr::Call(c) => json!({"k":"call","f":expr(&c.func),"a":exprs(&c.args),"l":l}),
        Expr::MethodCall(c) => {
            let l = line(c.method.span());
            let mut v = json!({"k":"mcall","e":expr(&c.receiver),"n":c.method.to_string(),"a":exprs(&c.args),"l":l});
            if let Some(t) = &c.turbofish {
                v["g"] = json!(ts(&t.args));
            }
            v
        }
        Expr::Index(i) => json!({"k":"index","e":expr(&i.expr),"i":expr(&i.index),"l":l}),
        Expr::Unary(u) => match u.op {
            UnOp::Deref(_) => json!({"k":"deref","e":expr(&u.expr),"l":l}),
            UnOp::Not(_) => json!({"k":"un","op":"!","e":expr(&u.expr),"l":l}),
            _ => json!({"k":"un","op":"-","e":expr(&u.expr),"l":l}),
        },
        Expr::Binary(b) => {
            let op = ts(&b.op);
            let assign = op.len() > 1 && op.ends_with('=') && !["==", "!=", "<=", ">="].contains(&op.as_str());
            if assign {
                json!({"k":"asgop","op":op.trim_end_matches('='),"a":expr(&b.left),"b":expr(&b.right),"l":l})
            } else {
                json!({"k":"bin","op":op,"a":expr(&b.left),"b":expr(&b.right),"l":l})
            }
        }
        Expr::Assign(a) => json!({"k":"asg","a":expr(&a.left),"b":expr(&a.right),"l":l}),
        Expr::If(i) => {
            json!({"k":"if","c":expr(&i.cond),"t":block(&i.then_branch),"e":i.else_branch.as_ref().map(|(_, e)| expr(e)),"l":l})
        }
        Expr::Let(c) => json!({"k":"letc","pat":pat(&c.pat),"e":expr(&c.expr),"l":l}),
        Expr::Match(m) => {
            json!({"k":"match","e":expr(&m.expr),"arms":m.arms.iter().map(|a| json!({
                "pat":pat(&a.pat),"guard":a.guard.as_ref().map(|(_, g)| expr(g)),"body":expr(&a.body),"l":line(a.pat.span())})).collect::<Vec<_>>(),"l":l})
        }
        Expr::Block(b) => {
            let mut v = block(&b.block);
            if let Some(lb) = &b.label {
                v["label"] = json!(lb.name.ident.to_string());
            }
            v
        }
        Expr::Unsafe(b) => block(&b.block),
        Expr::Async(b) => json!({"k":"asyncb","b":block(&b.block),"l":l}),
        Expr::ForLoop(f) => {
            json!({"k":"for","pat":pat(&f.pat),"e":expr(&f.expr),"b":block(&f.body),"label":f.label.as_ref().map(|x| x.name.ident.to_string()),"l":l})
        }
        Expr::While(w) => {
            json!({"k":"while","c":expr(&w.cond),"b":block(&w.body),"label":w.label.as_ref().map(|x| x.name.ident.to_string()),"l":l})
        }
        Expr::Loop(w) => {
            json!({"k":"loop","b":block(&w.body),"label":w.label.as_ref().map(|x| x.name.ident.to_string()),"l":l})
        }
        Expr::Return(r) => json!({"k":"ret","e":r.expr.as_ref().map(|e| expr(e)),"l":l}),
        Expr::Break(b) => {
            json!({"k":"break","e":b.expr.as_ref().map(|e| expr(e)),"label":b.label.as_ref().map(|x| x.ident.to_string()),"l":l})
        }
        Expr::Continue(b) => json!({"k":"cont","label":b.label.as_ref().map(|x| x.ident.to_string()),"l":l}),
        Expr::Closure(c) => {
            json!({"k":"closure","params":c.inputs.iter().map(pat).collect::<Vec<_>>(),"b":expr(&c.body),"l":l})
        }
        Expr::Struct(s) => {
            json!({"k":"slit","p":path_str(&s.path),"f":s.fields.iter().map(|f| json!([ts(&f.member), expr(&f.expr)])).collect::<Vec<_>>(),"rest":s.rest.as_ref().map(|e| expr(e)),"l":l})
        }
        Expr::Tuple(t) => json!({"k":"tuple","e":exprs(&t.elems),"l":l}),
        Expr::Array(t) => json!({"k":"array","e":exprs(&t.elems),"l":l}),
        Expr::Repeat(r) => json!({"k":"repeat","e":expr(&r.expr),"n":expr(&r.len),"l":l}),
        Expr::Reference(r) => json!({"k":"ref","e":expr(&r.expr),"mut":r.mutability.is_some(),"l":l}),
        Expr::Cast(c) => json!({"k":"cast","e":expr(&c.expr),"ty":ts(&c.ty),"l":l}),
        Expr::Range(r) => {
            json!({"k":"range","a":r.start.as_ref().map(|e| expr(e)),"b":r.end.as_ref().map(|e| expr(e)),"incl":matches!(r.limits, RangeLimits::Closed(_)),"l":l})
        }
        Expr::Try(t) => json!({"k":"try","e":expr(&t.expr),"l":l}),
        Expr::Await(a) => json!({"k":"await","e":expr(&a.base),"l":l}),
        Expr::Paren(p) => expr(&p.expr),
        Expr::Group(p) => expr(&p.expr),
        Expr::Macro(m) => mac(&m.mac),
        o => json!({"k":"other","s":ts(o),"l":l}),
    }
}

fn sig(f: &Signature, body: Option<&Block>, attrs: &[Attribute], l: usize) -> Value {
    let mut has_self = false;
    let mut self_mut = false;
    let params: Vec<Value> = f
        .inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Receiver(r) => {
                has_self = true;
                self_mut = r.reference.is_some() && r.mutability.is_some();
                None
            }
            FnArg::Typed(t) => Some(json!({"pat":pat(&t.pat),"ty":ts(&t.ty)})),
        })
        .collect();
    let ret = match &f.output {
        ReturnType::Default => "()".to_string(),
        ReturnType::Type(_, t) => ts(t),
    };
    json!({"k":"fn","n":f.ident.to_string(),"self":has_self,"sm":self_mut,"params":params,"ret":ret,
        "async":f.asyncness.is_some(),"body":body.map(block),"test":attrs_test(attrs),"l":l,
        "el":body.map(|b| b.span().end().line)})
}

fn with_vis(mut v: Value, vis: &Visibility) -> Value {
    v["pub"] = json!(!matches!(vis, Visibility::Inherited));
    v
}

fn use_tree(t: &UseTree, pre: &str, out: &mut Vec<Value>) {
    let j = |n: &str| if pre.is_empty() { n.to_string() } else { format!("{}::{}", pre, n) };
    match t {
        UseTree::Path(p) => use_tree(&p.tree, &j(&p.ident.to_string()), out),
        UseTree::Name(n) => {
            let n = n.ident.to_string();
            if n == "self" {
                out.push(json!([pre.rsplit("::").next().unwrap_or(""), pre]))
            } else {
                out.push(json!([n, j(&n)]))
            }
        }
        UseTree::Rename(r) => out.push(json!([r.rename.to_string(), j(&r.ident.to_string())])),
        UseTree::Glob(_) => out.push(json!(["*", pre])),
        UseTree::Group(g) => {
            for i in &g.items {
                use_tree(i, pre, out)
            }
        }
    }
}

fn path_attr(attrs: &[Attribute]) -> Option<String> {
    for a in attrs {
        if a.path().is_ident("path") {
            if let Meta::NameValue(nv) = &a.meta {
                if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                    return Some(s.value());
                }
            }
        }
    }
    None
}

fn item(i: &Item) -> Option<Value> {
    let l = line(i.span());
    Some(match i {
        Item::Fn(f) => with_vis(sig(&f.sig, Some(&f.block), &f.attrs, line(f.sig.span())), &f.vis),
        Item::Impl(im) => {
            if attrs_test(&im.attrs) {
                return None;
            }
            let items: Vec<Value> = im
                .items
                .iter()
                .filter_map(|x| match x {
                    ImplItem::Fn(f) => Some(with_vis(sig(&f.sig, Some(&f.block), &f.attrs, line(f.sig.span())), &f.vis)),
                    ImplItem::Const(c) => Some(
                        json!({"k":"const","n":c.ident.to_string(),"ty":ts(&c.ty),"e":expr(&c.expr),"l":line(c.span())}),
                    ),
                    _ => None,
                })
                .collect();
            json!({"k":"impl","ty":ts(&im.self_ty),"trait":im.trait_.as_ref().map(|(_, p, _)| ts(p)),"generics":ts(&im.generics),"items":items,"l":l})
        }
        Item::Trait(t) => {
            let items: Vec<Value> = t
                .items
                .iter()
                .filter_map(|x| match x {
                    TraitItem::Fn(f) => Some(sig(&f.sig, f.default.as_ref(), &f.attrs, line(f.sig.span()))),
                    TraitItem::Const(c) => Some(
                        json!({"k":"const","n":c.ident.to_string(),"ty":ts(&c.ty),"e":c.default.as_ref().map(|(_, e)| expr(e)),"l":line(c.span())}),
                    ),
                    _ => None,
                })
                .collect();
            json!({"k":"trait","n":t.ident.to_string(),"items":items,"l":l})
        }
        Item::Struct(s) => {
            let derives: Vec<String> = s.attrs.iter().filter(|a| a.path().is_ident("derive")).map(ts).collect();
            json!({"k":"struct","n":s.ident.to_string(),"f":s.fields.iter().enumerate().map(|(i, f)| json!([
            f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), ts(&f.ty)])).collect::<Vec<_>>(),"derive":derives,"l":l})
        }
        Item::Enum(e) => {
            let derives: Vec<String> = e.attrs.iter().filter(|a| a.path().is_ident("derive")).map(ts).collect();
            json!({"k":"enum","n":e.ident.to_string(),"v":e.variants.iter().map(|v| json!({"n":v.ident.to_string(),
            "f":v.fields.iter().map(|f| json!([f.ident.as_ref().map(|x| x.to_string()), ts(&f.ty)])).collect::<Vec<_>>(),
            "d":v.discriminant.as_ref().map(|(_, e)| expr(e)),"attrs":v.attrs.iter().map(ts).collect::<Vec<_>>()})).collect::<Vec<_>>(),"derive":derives,"l":l})
        }
        Item::Const(c) => json!({"k":"const","n":c.ident.to_string(),"ty":ts(&c.ty),"e":expr(&c.expr),"l":l}),
        Item::Static(c) => json!({"k":"const","static":true,"mut":matches!(c.mutability, syn::StaticMutability::Mut(_)),"n":c.ident.to_string(),"ty":ts(&c.ty),"e":expr(&c.expr),"l":l}),
        Item::Mod(m) => {
            if attrs_test(&m.attrs) {
                return None;
            }
            let items = m.content.as_ref().map(|(_, it)| it.iter().filter_map(item).collect::<Vec<_>>());
            json!({"k":"mod","n":m.ident.to_string(),"items":items,"path":path_attr(&m.attrs),"l":l})
        }
        Item::Use(u) => {
            let mut out = vec![];
            use_tree(&u.tree, "", &mut out);
            json!({"k":"use","u":out,"l":l})
        }
        Item::Type(t) => json!({"k":"type","n":t.ident.to_string(),"ty":ts(&t.ty),"l":l}),
        Item::Macro(m) => {
            json!({"k":"macitem","n":m.ident.as_ref().map(|i| i.to_string()),"m":path_str(&m.mac.path),"raw":compact(&m.mac.tokens),"l":l})
        }
        o => json!({"k":"otheritem","s":ts(o).chars().take(60).collect::<String>(),"l":l}),
    })
}

fn first_err_line(src: &str) -> String {
    match src.parse::<TokenStream>() {
        Ok(t) => {
            let n = t.into_iter().filter(|t| matches!(t, TokenTree::Ident(_))).count();
            format!("tokens ok, {} top idents", n)
        }
        Err(e) => format!("lex: {} at {}", e, e.span().start().line),
    }
}

fn main() {
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        if l.trim().is_empty() {
            continue;
        }
        let req: Value = serde_json::from_str(&l).expect("request");
        let src = match req["path"].as_str() {
            Some(p) => match std::fs::read_to_string(p) {
                Ok(s) => s,
                Err(e) => {
                    writeln!(out, "{}", json!({"error":format!("{}: {}", p, e)})).unwrap();
                    continue;
                }
            },
            None => req["text"].as_str().unwrap_or("").to_string(),
        };
        let res = match req["mode"].as_str() {
            Some("expr") => parse_str::<Expr>(&src).map(|e| expr(&e)),
            Some("block") => Block::parse_within.parse_str(&src)
                .map(|b| json!({"k":"block","l":1,"s":b.iter().filter_map(stmt).collect::<Vec<_>>()})),
            _ => parse_file(&src).map(|f| json!({"k":"file","items":f.items.iter().filter_map(item).collect::<Vec<_>>()})),
        };
        let v = match res {
            Ok(v) => v,
            Err(e) => {
                json!({"error":format!("{} at {}:{} ({})", e, e.span().start().line, e.span().start().column, first_err_line(&src))})
            }
        };
        writeln!(out, "{}", v).unwrap();
    }
}
