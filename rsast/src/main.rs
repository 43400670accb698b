//! Dumps the syntax tree of Rust source files as JSON. Nothing is interpreted here: the only items
//! dropped are the ones compiled under `cfg(test)`. Bodies of a fixed set of macros are parsed as
//! the expressions they contain; any other macro is emitted as an opaque node.
use proc_macro2::TokenStream;
use quote::ToTokens;
use serde_json::{json, Value};
use syn::parse::{Parse, ParseStream, Parser};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

fn line<T: Spanned>(t: &T) -> usize {
    t.span().start().line
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if a.path().is_ident("cfg") {
            let s = a.meta.to_token_stream().to_string().replace(' ', "");
            s.contains("(test)") || s.contains("(test,") || s.contains(",test)")
        } else {
            a.path().is_ident("test")
        }
    })
}

fn attrs(a: &[Attribute]) -> Value {
    Value::Array(
        a.iter()
            .filter(|a| !a.path().is_ident("doc"))
            .map(|a| json!(a.meta.to_token_stream().to_string()))
            .collect(),
    )
}

fn opt<T>(o: &Option<T>, f: impl Fn(&T) -> Value) -> Value {
    o.as_ref().map(f).unwrap_or(Value::Null)
}

fn arr<'a, T: 'a>(it: impl IntoIterator<Item = &'a T>, f: impl Fn(&T) -> Value) -> Value {
    Value::Array(it.into_iter().map(f).collect())
}

fn gargs(a: &PathArguments) -> Value {
    match a {
        PathArguments::None => Value::Null,
        PathArguments::AngleBracketed(a) => Value::Array(
            a.args
                .iter()
                .filter_map(|g| match g {
                    GenericArgument::Type(t) => Some(ty(t)),
                    GenericArgument::AssocType(t) => {
                        Some(json!({"t":"Assoc","id":t.ident.to_string(),"ty":ty(&t.ty)}))
                    }
                    GenericArgument::Const(e) => Some(json!({"t":"Const","e":expr(e)})),
                    _ => None,
                })
                .collect(),
        ),
        PathArguments::Parenthesized(p) => json!([{"t":"Fn","in":arr(&p.inputs, ty),"out":ret(&p.output)}]),
    }
}

fn path(p: &Path) -> Value {
    Value::Array(
        p.segments
            .iter()
            .map(|s| json!({"id":s.ident.to_string(),"args":gargs(&s.arguments)}))
            .collect(),
    )
}

fn qself(q: &Option<QSelf>) -> Value {
    opt(q, |q| json!({"ty":ty(&q.ty),"pos":q.position}))
}

fn bounds<'a>(b: impl IntoIterator<Item = &'a TypeParamBound>) -> Value {
    Value::Array(
        b.into_iter()
            .filter_map(|b| match b {
                TypeParamBound::Trait(t) => Some(path(&t.path)),
                _ => None,
            })
            .collect(),
    )
}

fn ty(t: &Type) -> Value {
    match t {
        Type::Path(p) => json!({"t":"Path","path":path(&p.path),"qself":qself(&p.qself)}),
        Type::Reference(r) => json!({"t":"Ref","mut":r.mutability.is_some(),"e":ty(&r.elem)}),
        Type::Tuple(x) => json!({"t":"Tuple","e":arr(&x.elems, ty)}),
        Type::Slice(s) => json!({"t":"Slice","e":ty(&s.elem)}),
        Type::Array(s) => json!({"t":"Array","e":ty(&s.elem),"n":expr(&s.len)}),
        Type::ImplTrait(i) => json!({"t":"Impl","b":bounds(&i.bounds)}),
        Type::TraitObject(i) => json!({"t":"Dyn","b":bounds(&i.bounds)}),
        Type::Infer(_) => json!({"t":"Infer"}),
        Type::Never(_) => json!({"t":"Never"}),
        Type::Paren(p) => ty(&p.elem),
        Type::Group(p) => ty(&p.elem),
        Type::Ptr(p) => json!({"t":"Ptr","e":ty(&p.elem)}),
        Type::BareFn(f) => {
            json!({"t":"Fn","in":Value::Array(f.inputs.iter().map(|a| ty(&a.ty)).collect()),"out":ret(&f.output)})
        }
        _ => json!({"t":"Unknown","src":t.to_token_stream().to_string()}),
    }
}

fn ret(r: &ReturnType) -> Value {
    match r {
        ReturnType::Default => Value::Null,
        ReturnType::Type(_, t) => ty(t),
    }
}

fn pat(p: &Pat) -> Value {
    match p {
        Pat::Ident(i) => json!({"p":"Ident","id":i.ident.to_string(),"ref":i.by_ref.is_some(),"mut":i.mutability.is_some(),
            "sub":opt(&i.subpat, |(_, p)| pat(p))}),
        Pat::Wild(_) => json!({"p":"Wild"}),
        Pat::Path(e) => json!({"p":"Path","path":path(&e.path),"qself":qself(&e.qself)}),
        Pat::TupleStruct(t) => json!({"p":"TupleStruct","path":path(&t.path),"e":arr(&t.elems, pat)}),
        Pat::Struct(s) => json!({"p":"Struct","path":path(&s.path),"rest":s.rest.is_some(),
            "f":Value::Array(s.fields.iter().map(|f| json!([member(&f.member), pat(&f.pat)])).collect())}),
        Pat::Tuple(t) => json!({"p":"Tuple","e":arr(&t.elems, pat)}),
        Pat::Slice(t) => json!({"p":"Slice","e":arr(&t.elems, pat)}),
        Pat::Reference(r) => json!({"p":"Ref","e":pat(&r.pat)}),
        Pat::Lit(l) => json!({"p":"Lit","e":lit(&l.lit)}),
        Pat::Range(r) => json!({"p":"Range","a":opt(&r.start,|e| expr(e)),"b":opt(&r.end,|e| expr(e)),
            "incl":matches!(r.limits, RangeLimits::Closed(_))}),
        Pat::Or(o) => json!({"p":"Or","e":arr(&o.cases, pat)}),
        Pat::Type(t) => json!({"p":"Type","e":pat(&t.pat),"ty":ty(&t.ty)}),
        Pat::Paren(p) => pat(&p.pat),
        Pat::Rest(_) => json!({"p":"Rest"}),
        _ => json!({"p":"Unknown","src":p.to_token_stream().to_string()}),
    }
}

fn member(m: &Member) -> Value {
    match m {
        Member::Named(i) => json!(i.to_string()),
        Member::Unnamed(i) => json!(i.index.to_string()),
    }
}

fn lit(l: &Lit) -> Value {
    match l {
        Lit::Str(s) => json!({"k":"Str","v":s.value()}),
        Lit::Int(i) => json!({"k":"Int","v":i.base10_digits(),"suf":i.suffix()}),
        Lit::Float(i) => json!({"k":"Float","v":i.base10_digits(),"suf":i.suffix()}),
        Lit::Bool(b) => json!({"k":"Bool","v":b.value}),
        Lit::Char(c) => json!({"k":"Char","v":c.value().to_string()}),
        Lit::ByteStr(_) | Lit::Byte(_) | _ => json!({"k":"OtherLit","src":l.to_token_stream().to_string()}),
    }
}

fn block(b: &Block) -> Value {
    Value::Array(b.stmts.iter().map(stmt).collect())
}

fn stmt(s: &Stmt) -> Value {
    match s {
        Stmt::Local(l) => {
            if is_test(&l.attrs) {
                return json!({"s":"Empty"});
            }
            json!({"s":"Let","pat":pat(&l.pat),"l":line(l),
              "init":opt(&l.init,|i| expr(&i.expr)),
              "else":l.init.as_ref().and_then(|i| i.diverge.as_ref()).map(|(_, e)| expr(e)).unwrap_or(Value::Null)})
        }
        Stmt::Item(i) => json!({"s":"Item","i":item(i)}),
        Stmt::Expr(Expr::Verbatim(t), Some(_)) if t.is_empty() => json!({"s":"Empty"}),
        Stmt::Expr(e, semi) => json!({"s":"Expr","e":expr(e),"semi":semi.is_some()}),
        Stmt::Macro(m) => {
            json!({"s":"Expr","e":mac(&m.mac, line(m)),"semi":m.semi_token.is_some(),"stmtmac":true})
        }
    }
}

struct FmtArg(Option<String>, Expr);
impl Parse for FmtArg {
    fn parse(input: ParseStream) -> Result<Self> {
        if input.peek(Ident) && input.peek2(Token![=]) && !input.peek2(Token![==]) {
            let i: Ident = input.parse()?;
            input.parse::<Token![=]>()?;
            Ok(FmtArg(Some(i.to_string()), input.parse()?))
        } else {
            Ok(FmtArg(None, input.parse()?))
        }
    }
}

struct Matches(Expr, Pat, Option<Expr>);
impl Parse for Matches {
    fn parse(input: ParseStream) -> Result<Self> {
        let e = input.parse()?;
        input.parse::<Token![,]>()?;
        let p = Pat::parse_multi_with_leading_vert(input)?;
        let g = if input.peek(Token![if]) {
            input.parse::<Token![if]>()?;
            Some(input.parse()?)
        } else {
            None
        };
        let _ = input.parse::<Option<Token![,]>>()?;
        Ok(Matches(e, p, g))
    }
}

struct Select(bool, Vec<(Pat, Expr, Option<Expr>, Expr)>, Option<Expr>);
impl Parse for Select {
    fn parse(input: ParseStream) -> Result<Self> {
        let mut biased = false;
        let mut arms = vec![];
        let mut els = None;
        while !input.is_empty() {
            if input.peek(Ident) && input.peek2(Token![;]) {
                let _: Ident = input.parse()?;
                input.parse::<Token![;]>()?;
                biased = true;
                continue;
            }
            if input.peek(Token![else]) {
                input.parse::<Token![else]>()?;
                input.parse::<Token![=>]>()?;
                els = Some(input.parse()?);
                let _ = input.parse::<Option<Token![,]>>()?;
                continue;
            }
            let p = Pat::parse_multi_with_leading_vert(input)?;
            input.parse::<Token![=]>()?;
            let e: Expr = input.parse()?;
            let g = if input.peek(Token![,]) {
                input.parse::<Token![,]>()?;
                input.parse::<Token![if]>()?;
                Some(input.parse()?)
            } else {
                None
            };
            input.parse::<Token![=>]>()?;
            let body: Expr = if input.peek(token::Brace) {
                let b: Block = input.parse()?;
                Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
            } else {
                input.parse()?
            };
            let _ = input.parse::<Option<Token![,]>>()?;
            arms.push((p, e, g, body));
        }
        Ok(Select(biased, arms, els))
    }
}

fn mac(m: &Macro, l: usize) -> Value {
    let name: Vec<String> = m.path.segments.iter().map(|s| s.ident.to_string()).collect();
    let full = name.join("::");
    let last = name.last().unwrap().as_str();
    let ts: TokenStream = m.tokens.clone();
    let opaque = || json!({"k":"MacroOpaque","name":full,"src":ts.to_string(),"l":l});
    match last {
        "trace" | "debug" | "info" | "warn" | "error" | "event" | "span" | "trace_span" | "debug_span" | "info_span"
        | "warn_span" | "error_span" | "println" | "eprintln" | "print" | "eprint" | "dbg_"
            if name.len() == 1 || name[0] == "tracing" || name[0] == "log" || name[0] == "std" =>
        {
            json!({"k":"Tracing","name":full,"l":l})
        }
        "matches" => match Matches::parse.parse2(ts.clone()) {
            Ok(Matches(e, p, g)) => {
                json!({"k":"Matches","e":expr(&e),"pat":pat(&p),"guard":opt(&g, expr),"l":l})
            }
            Err(_) => opaque(),
        },
        "select" => match Select::parse.parse2(ts.clone()) {
            Ok(Select(b, arms, els)) => json!({"k":"Select","biased":b,"l":l,
                "arms":Value::Array(arms.iter().map(|(p,e,g,x)| json!({"pat":pat(p),"fut":expr(e),"guard":opt(g,expr),"body":expr(x)})).collect()),
                "else":opt(&els, expr)}),
            Err(_) => opaque(),
        },
        "stream" | "try_stream" => match Block::parse_within.parse2(ts.clone()) {
            Ok(stmts) => json!({"k":"StreamMac","name":last,"b":Value::Array(stmts.iter().map(stmt).collect()),"l":l}),
            Err(_) => opaque(),
        },
        "vec" => {
            if let Ok(a) = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(ts.clone()) {
                return json!({"k":"VecMac","e":arr(&a, expr),"l":l});
            }
            let rep = |i: ParseStream| -> Result<(Expr, Expr)> {
                let a = i.parse()?;
                i.parse::<Token![;]>()?;
                Ok((a, i.parse()?))
            };
            match rep.parse2(ts.clone()) {
                Ok((a, n)) => json!({"k":"Repeat","e":expr(&a),"n":expr(&n),"l":l}),
                Err(_) => opaque(),
            }
        }
        _ => match Punctuated::<FmtArg, Token![,]>::parse_terminated.parse2(ts.clone()) {
            Ok(a) => json!({"k":"Macro","name":full,"l":l,
                "args":Value::Array(a.iter().map(|x| json!([x.0, expr(&x.1)])).collect())}),
            Err(_) => opaque(),
        },
    }
}

fn generics(g: &Generics) -> Value {
    let mut ps = vec![];
    for p in &g.params {
        if let GenericParam::Type(t) = p {
            ps.push(json!({"id":t.ident.to_string(),"b":bounds(&t.bounds)}));
        }
    }
    let mut wh = vec![];
    if let Some(w) = &g.where_clause {
        for p in &w.predicates {
            if let WherePredicate::Type(t) = p {
                wh.push(json!({"ty":ty(&t.bounded_ty),"b":bounds(&t.bounds)}));
            }
        }
    }
    json!({"params":ps,"where":wh})
}

fn sig(s: &Signature) -> Value {
    json!({"id":s.ident.to_string(),"async":s.asyncness.is_some(),"const":s.constness.is_some(),"generics":generics(&s.generics),
      "in":Value::Array(s.inputs.iter().map(|a| match a {
        FnArg::Receiver(r) => json!({"self":true,"ref":r.reference.is_some(),"mut":r.mutability.is_some()}),
        FnArg::Typed(t) => json!({"pat":pat(&t.pat),"ty":ty(&t.ty)}),
      }).collect()),
      "out":ret(&s.output),"l":line(s)})
}

fn expr(e: &Expr) -> Value {
    let l = line(e);
    match e {
        Expr::Lit(x) => {
            let mut v = lit(&x.lit);
            v["l"] = json!(l);
            v
        }
        Expr::Path(p) => json!({"k":"Path","path":path(&p.path),"qself":qself(&p.qself),"l":l}),
        Expr::Field(f) => json!({"k":"Field","e":expr(&f.base),"f":member(&f.member),"l":l}),
        Expr::MethodCall(m) => json!({"k":"MCall","e":expr(&m.receiver),"m":m.method.to_string(),
            "targs":opt(&m.turbofish,|t| gargs(&PathArguments::AngleBracketed(t.clone()))),
            "args":arr(&m.args, expr),"l":line(&m.method)}),
        Expr::Call(c) => json!({"k":"Call","f":expr(&c.func),"args":arr(&c.args, expr),"l":l}),
        Expr::Macro(m) => mac(&m.mac, l),
        Expr::Block(b) => json!({"k":"Block","b":block(&b.block),"label":opt(&b.label,|l| json!(l.name.ident.to_string())),"l":l}),
        Expr::Async(b) => json!({"k":"Async","move":b.capture.is_some(),"b":block(&b.block),"l":l}),
        Expr::Const(b) => json!({"k":"Block","b":block(&b.block),"label":null,"l":l}),
        Expr::Unsafe(b) => json!({"k":"Unsafe","b":block(&b.block),"l":l}),
        Expr::Await(a) => json!({"k":"Await","e":expr(&a.base),"l":l}),
        Expr::Try(t) => json!({"k":"Try","e":expr(&t.expr),"l":l}),
        Expr::Paren(p) => expr(&p.expr),
        Expr::Group(p) => expr(&p.expr),
        Expr::Reference(r) => json!({"k":"Ref","mut":r.mutability.is_some(),"e":expr(&r.expr),"l":l}),
        Expr::Unary(u) => {
            let op = match u.op {
                UnOp::Deref(_) => "*",
                UnOp::Not(_) => "!",
                UnOp::Neg(_) => "-",
                _ => "?",
            };
            json!({"k":"Unary","op":op,"e":expr(&u.expr),"l":l})
        }
        Expr::Binary(b) => json!({"k":"Binary","op":b.op.to_token_stream().to_string(),"a":expr(&b.left),"b":expr(&b.right),"l":l}),
        Expr::Assign(a) => json!({"k":"Assign","a":expr(&a.left),"b":expr(&a.right),"l":l}),
        Expr::Cast(c) => json!({"k":"Cast","e":expr(&c.expr),"ty":ty(&c.ty),"l":l}),
        Expr::If(i) => json!({"k":"If","c":expr(&i.cond),"t":block(&i.then_branch),"e":opt(&i.else_branch,|(_,e)| expr(e)),"l":l}),
        Expr::Let(x) => json!({"k":"LetCond","pat":pat(&x.pat),"e":expr(&x.expr),"l":l}),
        Expr::Match(m) => json!({"k":"Match","e":expr(&m.expr),"l":l,
            "arms":Value::Array(m.arms.iter().filter(|a| !is_test(&a.attrs)).map(|a| json!({"pat":pat(&a.pat),"guard":opt(&a.guard,|(_,g)| expr(g)),"body":expr(&a.body)})).collect())}),
        Expr::Closure(c) => json!({"k":"Closure","move":c.capture.is_some(),"async":c.asyncness.is_some(),
            "in":arr(&c.inputs, pat),"body":expr(&c.body),"out":ret(&c.output),"l":l}),
        Expr::Struct(s) => json!({"k":"Struct","path":path(&s.path),"qself":qself(&s.qself),
            "f":Value::Array(s.fields.iter().filter(|f| !is_test(&f.attrs)).map(|f| json!([member(&f.member), expr(&f.expr)])).collect()),
            "rest":opt(&s.rest,|e| expr(e)),"l":l}),
        Expr::Tuple(t) => json!({"k":"Tuple","e":arr(&t.elems, expr),"l":l}),
        Expr::Array(t) => json!({"k":"Array","e":arr(&t.elems, expr),"l":l}),
        Expr::Repeat(r) => json!({"k":"Repeat","e":expr(&r.expr),"n":expr(&r.len),"l":l}),
        Expr::Index(i) => json!({"k":"Index","e":expr(&i.expr),"i":expr(&i.index),"l":l}),
        Expr::Range(r) => json!({"k":"Range","a":opt(&r.start,|e| expr(e)),"b":opt(&r.end,|e| expr(e)),"incl":matches!(r.limits,RangeLimits::Closed(_)),"l":l}),
        Expr::Return(r) => json!({"k":"Return","e":opt(&r.expr,|e| expr(e)),"l":l}),
        Expr::Break(b) => json!({"k":"Break","label":opt(&b.label,|l| json!(l.ident.to_string())),"e":opt(&b.expr,|e| expr(e)),"l":l}),
        Expr::Continue(b) => json!({"k":"Continue","label":opt(&b.label,|l| json!(l.ident.to_string())),"l":l}),
        Expr::Loop(x) => json!({"k":"Loop","b":block(&x.body),"label":opt(&x.label,|l| json!(l.name.ident.to_string())),"l":l}),
        Expr::While(x) => json!({"k":"While","c":expr(&x.cond),"b":block(&x.body),"label":opt(&x.label,|l| json!(l.name.ident.to_string())),"l":l}),
        Expr::ForLoop(x) => json!({"k":"For","pat":pat(&x.pat),"e":expr(&x.expr),"b":block(&x.body),"label":opt(&x.label,|l| json!(l.name.ident.to_string())),"l":l}),
        Expr::Yield(y) => json!({"k":"Yield","e":opt(&y.expr,|e| expr(e)),"l":l}),
        _ => json!({"k":"Unsupported","src":e.to_token_stream().to_string(),"l":l}),
    }
}

fn fields(f: &Fields) -> Value {
    match f {
        Fields::Unit => json!({"kind":"unit","f":[]}),
        Fields::Named(n) => json!({"kind":"named","f":Value::Array(n.named.iter().map(|f| json!([f.ident.as_ref().unwrap().to_string(), ty(&f.ty), attrs(&f.attrs)])).collect())}),
        Fields::Unnamed(n) => json!({"kind":"tuple","f":Value::Array(n.unnamed.iter().enumerate().map(|(i,f)| json!([i.to_string(), ty(&f.ty), attrs(&f.attrs)])).collect())}),
    }
}

fn usetree(t: &UseTree, pre: Vec<String>, out: &mut Vec<Value>) {
    match t {
        UseTree::Path(p) => {
            let mut q = pre;
            q.push(p.ident.to_string());
            usetree(&p.tree, q, out)
        }
        UseTree::Name(n) => {
            let mut q = pre.clone();
            let id = n.ident.to_string();
            if id == "self" {
                out.push(json!([pre.last().cloned().unwrap_or_default(), pre]));
            } else {
                q.push(id.clone());
                out.push(json!([id, q]));
            }
        }
        UseTree::Rename(n) => {
            let mut q = pre;
            if n.ident != "self" {
                q.push(n.ident.to_string());
            }
            out.push(json!([n.rename.to_string(), q]))
        }
        UseTree::Glob(_) => out.push(json!(["*", pre])),
        UseTree::Group(g) => {
            for t in &g.items {
                usetree(t, pre.clone(), out)
            }
        }
    }
}

fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Const(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        _ => &[],
    }
}

fn item(i: &Item) -> Value {
    if is_test(item_attrs(i)) {
        return json!({"i":"Test"});
    }
    let at = attrs(item_attrs(i));
    let l = line(i);
    match i {
        Item::Fn(f) => json!({"i":"Fn","sig":sig(&f.sig),"body":block(&f.block),"attrs":at,"l":l}),
        Item::Impl(im) => json!({"i":"Impl","generics":generics(&im.generics),"trait":opt(&im.trait_,|(_,p,_)| path(p)),"self":ty(&im.self_ty),"attrs":at,"l":l,
            "items":Value::Array(im.items.iter().map(|x| match x {
                ImplItem::Fn(f) if !is_test(&f.attrs) => json!({"i":"Fn","sig":sig(&f.sig),"body":block(&f.block),"attrs":attrs(&f.attrs),"l":line(f)}),
                ImplItem::Const(c) => json!({"i":"Const","id":c.ident.to_string(),"ty":ty(&c.ty),"e":expr(&c.expr)}),
                ImplItem::Type(t) => json!({"i":"Type","id":t.ident.to_string(),"ty":ty(&t.ty)}),
                _ => json!({"i":"Other"}),
            }).collect())}),
        Item::Struct(s) => json!({"i":"Struct","id":s.ident.to_string(),"generics":generics(&s.generics),"fields":fields(&s.fields),"attrs":at,"l":l}),
        Item::Enum(s) => json!({"i":"Enum","id":s.ident.to_string(),"generics":generics(&s.generics),"attrs":at,"l":l,
            "variants":Value::Array(s.variants.iter().map(|v| json!({"id":v.ident.to_string(),"fields":fields(&v.fields),"attrs":attrs(&v.attrs)})).collect())}),
        Item::Trait(t) => json!({"i":"Trait","id":t.ident.to_string(),"generics":generics(&t.generics),"attrs":at,"l":l,
            "items":Value::Array(t.items.iter().map(|x| match x {
                TraitItem::Fn(f) => json!({"i":"Fn","sig":sig(&f.sig),"body":opt(&f.default, block),"attrs":attrs(&f.attrs),"l":line(f)}),
                TraitItem::Const(c) => json!({"i":"Const","id":c.ident.to_string(),"ty":ty(&c.ty),"e":opt(&c.default,|(_,e)| expr(e))}),
                TraitItem::Type(t) => json!({"i":"Type","id":t.ident.to_string(),"ty":opt(&t.default,|(_,t)| ty(t))}),
                _ => json!({"i":"Other"}),
            }).collect())}),
        Item::Const(c) => json!({"i":"Const","id":c.ident.to_string(),"ty":ty(&c.ty),"e":expr(&c.expr),"l":l}),
        Item::Static(c) => json!({"i":"Static","id":c.ident.to_string(),"ty":ty(&c.ty),"e":expr(&c.expr),"l":l}),
        Item::Type(t) => json!({"i":"Type","id":t.ident.to_string(),"generics":generics(&t.generics),"ty":ty(&t.ty)}),
        Item::Mod(m) => json!({"i":"Mod","id":m.ident.to_string(),"attrs":at,"items":match &m.content { Some((_, items)) => arr(items, item), None => Value::Null }}),
        Item::Use(u) => {
            let mut out = vec![];
            usetree(&u.tree, vec![], &mut out);
            json!({"i":"Use","u":out})
        }
        Item::Macro(m) => json!({"i":"Macro","id":opt(&m.ident,|i| json!(i.to_string()))}),
        _ => json!({"i":"Other"}),
    }
}

fn main() {
    let mut out = serde_json::Map::new();
    for f in std::env::args().skip(1) {
        let src = match std::fs::read_to_string(&f) {
            Ok(s) => s,
            Err(e) => {
                eprintln!("{f}: {e}");
                std::process::exit(3);
            }
        };
        match parse_file(&src) {
            Ok(file) => {
                out.insert(f, arr(&file.items, item));
            }
            Err(e) => {
                eprintln!("{f}: parse error: {e}");
                std::process::exit(4);
            }
        }
    }
    println!("{}", Value::Object(out));
}
