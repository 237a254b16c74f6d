//! The mechanical rewrites.  None of them looks at names of locals.
use proc_macro2::Span;
use serde_json::Value;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn clean_item(i: &mut Item, targets: bool) {
    if let Item::Enum(e) = i {
        e.variants = std::mem::take(&mut e.variants).into_iter().filter(|v| cfg_keep(&v.attrs, targets)).collect();
    }
    struct C;
    impl VisitMut for C {
        fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
            a.clear();
        }
        fn visit_visibility_mut(&mut self, v: &mut Visibility) {
            *v = Visibility::Inherited;
        }
        fn visit_field_mut(&mut self, f: &mut Field) {
            f.attrs.clear();
            f.vis = Visibility::Inherited;
            visit_mut::visit_type_mut(self, &mut f.ty);
        }
    }
    let mut c = C;
    c.visit_item_mut(i);
    // every field public: the contracts talk about them
    if let Item::Struct(s) = i {
        for f in &mut s.fields {
            f.vis = parse_quote!(pub);
        }
        s.vis = parse_quote!(pub);
    }
    if let Item::Enum(s) = i {
        s.vis = parse_quote!(pub);
    }
}

pub struct Rw {
    methods: Vec<(String, String, String)>,
    calls: Vec<(String, String)>,
    index: Vec<(String, String)>,
    macros: Vec<(String, String)>,
    formats: Vec<(String, String)>,
    drop_lets: Vec<String>,
    bind: Vec<String>,
    binds: usize,
    pub loops: usize,
    pub closures: usize,
    pub closure_params: Vec<Vec<String>>,
    pub notes: Vec<String>,
    tmp: usize,
    targets_cfg: bool,
    keep_for: bool,
    eqs: bool,
    depth: usize,
    err: Option<String>,
}

fn pairs(v: &Value) -> Vec<(String, String)> {
    v.as_array().map(|a| a.iter().map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_str().unwrap().to_string())).collect()).unwrap_or_default()
}
fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn cfg_keep(attrs: &[Attribute], targets: bool) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            let t = norm(&quote::quote!(#a).to_string());
            if t.contains("feature=\"targets\"") {
                let neg = t.contains("not(");
                if neg == targets {
                    return false;
                }
            }
        }
    }
    true
}

impl Rw {
    pub fn new(r: &Value) -> Self {
        let m = r["methods"].as_array().map(|a| a.iter().map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_str().unwrap().to_string(), p[2].as_str().unwrap().to_string())).collect()).unwrap_or_default();
        Rw {
            methods: m,
            calls: pairs(&r["calls"]),
            index: pairs(&r["index"]),
            macros: pairs(&r["macros"]),
            formats: pairs(&r["formats"]),
            drop_lets: r["drop_lets"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default(),
            bind: r["bind"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default(),
            binds: 0,
            loops: 0,
            closures: 0,
            closure_params: vec![],
            notes: vec![],
            tmp: 0,
            targets_cfg: r["targets_cfg"].as_bool().unwrap_or(false),
            keep_for: r["keep_for"].as_bool().unwrap_or(false),
            eqs: r["eqs"].as_bool().unwrap_or(false),
            depth: 0,
            err: None,
        }
    }
    pub fn run(&mut self, mut b: Block) -> std::result::Result<Block, String> {
        self.visit_block_mut(&mut b);
        b.stmts.insert(0, parse_quote!(vx_at!(start);));
        if let Some(e) = self.err.take() {
            return Err(e);
        }
        Ok(b)
    }
    fn fail(&mut self, s: impl Into<String>) {
        if self.err.is_none() {
            self.err = Some(s.into());
        }
    }
    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        Ident::new(&format!("vx_{p}{}", self.tmp), Span::call_site())
    }
    fn argkind(e: Option<&Expr>) -> &'static str {
        match e {
            None => "0",
            Some(Expr::Lit(l)) => match &l.lit {
                Lit::Char(_) => "char",
                Lit::Str(_) => "str",
                _ => "lit",
            },
            Some(Expr::Closure(_)) => "closure",
            Some(Expr::Array(_)) => "arr",
            Some(Expr::Range(_)) => "range",
            Some(Expr::Path(_)) => "path",
            Some(_) => "expr",
        }
    }
    fn let_chain(e: &Expr) -> Option<Vec<Expr>> {
        fn flat(e: &Expr, v: &mut Vec<Expr>) {
            match e {
                Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
                    flat(&b.left, v);
                    flat(&b.right, v);
                }
                e => v.push(e.clone()),
            }
        }
        let mut v = vec![];
        flat(e, &mut v);
        (v.len() > 1 && v.iter().any(|e| matches!(e, Expr::Let(_)))).then_some(v)
    }
    fn panics(m: &Macro) -> bool {
        m.path.is_ident("panic") || m.path.is_ident("unreachable") || m.path.is_ident("todo") || m.path.is_ident("unimplemented")
    }
    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        if Self::panics(m) {
            // the message is dropped; reaching the call is a proof obligation
            return Some(parse_quote!(vx_panic()));
        }
        if m.path.is_ident("format") {
            let args: Vec<Expr> = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?.into_iter().collect();
            let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = args.first() else { return None };
            let mut lit = String::new();
            let mut xs: Vec<Expr> = vec![];
            let mut rest = args[1..].iter();
            let src = s.value();
            let mut it = src.chars().peekable();
            while let Some(c) = it.next() {
                if c == '{' {
                    if it.peek() == Some(&'{') {
                        it.next();
                        lit.push('{');
                        continue;
                    }
                    let mut n = String::new();
                    for c in it.by_ref() {
                        if c == '}' {
                            break;
                        }
                        n.push(c);
                    }
                    lit.push_str("{}");
                    if n.is_empty() {
                        xs.push(rest.next()?.clone());
                    } else {
                        let id = Ident::new(&n, Span::call_site());
                        xs.push(parse_quote!(#id));
                    }
                } else {
                    lit.push(c);
                }
            }
            let f = self.formats.iter().find(|(a, _)| *a == lit).map(|x| x.1.clone());
            let Some(f) = f else {
                self.fail(format!("format!(\"{lit}\") has no contract"));
                return None;
            };
            let id = Ident::new(&f, Span::call_site());
            return Some(parse_quote!(#id(#(&#xs),*)));
        }
        if let Some((_, to)) = self.macros.iter().find(|(a, _)| m.path.is_ident(a)).cloned() {
            let id = Ident::new(to.trim_end_matches('!'), Span::call_site());
            let t = &m.tokens;
            return Some(match to.strip_suffix('!') {
                Some(k) => { let id = Ident::new(k, Span::call_site()); parse_quote!(#id![#t]) }
                None => parse_quote!(#id(#t)),
            });
        }
        if m.path.is_ident("matches") {
            // matches!(e, pat [if guard])
            let (e, p, g) = m
                .parse_body_with(|i: parse::ParseStream| {
                    let e: Expr = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse::<Expr>()?)
                    } else {
                        None
                    };
                    let _ = i.parse::<Option<Token![,]>>();
                    Ok((e, p, g))
                })
                .ok()?;
            return Some(match g {
                Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                None => parse_quote!(match #e { #p => true, _ => false }),
            });
        }
        None
    }
    fn str_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        fn lits(p: &Pat, v: &mut Vec<Expr>) -> bool {
            match p {
                Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => {
                    v.push(Expr::Lit(l.clone()));
                    true
                }
                Pat::Or(o) => o.cases.iter().all(|c| lits(c, v)),
                _ => false,
            }
        }
        let mut any = false;
        for a in &m.arms {
            let mut v = vec![];
            if lits(&a.pat, &mut v) {
                any = true;
            }
        }
        if !any {
            return None;
        }
        let t = self.fresh("m");
        let mut chain: Option<Expr> = None;
        for a in m.arms.iter().rev() {
            let body = &a.body;
            let mut v = vec![];
            if lits(&a.pat, &mut v) {
                if a.guard.is_some() {
                    return None;
                }
                let els = chain?;
                let c = v.iter().map(|l| quote::quote!(vx_str_is(#t, #l))).collect::<Vec<_>>();
                let bb: Block = match &**body { Expr::Block(b) => b.block.clone(), e => parse_quote!({ #e }) };
                chain = Some(match els {
                    Expr::If(_) => parse_quote!(if #(#c)||* #bb else #els),
                    Expr::Block(b) => { let b = b.block; parse_quote!(if #(#c)||* #bb else #b) }
                    _ => return None,
                });
            } else {
                match &a.pat {
                    Pat::Wild(_) => chain = Some(parse_quote!({ #body })),
                    Pat::Ident(i) => {
                        let i = &i.ident;
                        chain = Some(parse_quote!({ let #i = #t; #body }))
                    }
                    _ => return None,
                }
            }
        }
        let c = chain?;
        let e = &m.expr;
        self.notes.push("match on string literals -> chain of equality tests".into());
        Some(parse_quote!({ let #t: &str = #e; #c }))
    }
    fn end_semi(b: &mut Block) {
        if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
            if semi.is_none() && !matches!(e, Expr::Break(_) | Expr::Continue(_) | Expr::Return(_)) {
                *semi = Some(Default::default());
            }
        }
    }
    fn loop_no(b: &Block) -> Option<String> {
        match b.stmts.first() {
            Some(Stmt::Macro(m)) => m.mac.path.get_ident()?.to_string().strip_prefix("vx_loop_").map(str::to_string),
            _ => None,
        }
    }
    fn loop_marks(&mut self, k: usize, b: &mut Block) {
        Self::end_semi(b);
        let l = Ident::new(&format!("l{k}_start"), Span::call_site());
        let e = Ident::new(&format!("l{k}_end"), Span::call_site());
        b.stmts.insert(0, parse_quote!(vx_at!(#l);));
        let m = Ident::new(&format!("vx_loop_{k}"), Span::call_site());
        b.stmts.insert(0, parse_quote!(#m!();));
        if !matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Break(_) | Expr::Continue(_) | Expr::Return(_), _))) {
            b.stmts.push(parse_quote!(vx_at!(#e);));
        }
    }
}

impl VisitMut for Rw {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // cfg'd statements are resolved, nested items are extracted separately, attributes go
        let tc = self.targets_cfg;
        b.stmts.retain(|s| match s {
            Stmt::Item(_) => false,
            Stmt::Local(l) => cfg_keep(&l.attrs, tc),
            Stmt::Expr(Expr::Block(x), _) => cfg_keep(&x.attrs, tc),
            Stmt::Expr(Expr::Call(x), _) => cfg_keep(&x.attrs, tc),
            Stmt::Macro(m) => cfg_keep(&m.attrs, tc),
            _ => true,
        });
        let drop = self.drop_lets.clone();
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => match &l.pat {
                Pat::Ident(i) => !drop.contains(&i.ident.to_string()),
                _ => true,
            },
            _ => true,
        });
        for s in &mut b.stmts {
            if let Stmt::Macro(m) = s {
                if let Some(e) = self.macro_expr(&m.mac) {
                    *s = Stmt::Expr(e, m.semi_token);
                }
            }
        }
        self.depth += 1;
        visit_mut::visit_block_mut(self, b);
        self.depth -= 1;
        // markers
        let mut out: Vec<Stmt> = vec![];
        let n = b.stmts.len();
        for (i, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            if self.depth == 0 && i + 1 == n && matches!(&s, Stmt::Expr(_, None)) {
                out.push(parse_quote!(vx_at!(tail);));
            }
            // hoist: `while` etc. that became blocks with labels stay as they are
            let name = match &s {
                Stmt::Local(l) => match &l.pat {
                    Pat::Ident(i) => Some(format!("let_{}", i.ident)),
                    Pat::Type(t) => match &*t.pat {
                        Pat::Ident(i) => Some(format!("let_{}", i.ident)),
                        _ => None,
                    },
                    _ => None,
                },
                Stmt::Expr(Expr::MethodCall(m), Some(_)) => Some(format!("call_{}", m.method)),
                _ => None,
            };
            if let Stmt::Expr(Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_), semi) = &mut s {
                if i + 1 != n {
                    *semi = None;
                }
            }
            if let Some(nm) = &name {
                let id = Ident::new(&format!("before_{nm}"), Span::call_site());
                out.push(parse_quote!(vx_at!(#id);));
            }
            let after = match &s {
                Stmt::Expr(Expr::While(w), _) => Self::loop_no(&w.body),
                Stmt::Expr(Expr::Loop(w), x) if i + 1 != n || x.is_some() => Self::loop_no(&w.body),
                _ => None,
            };
            out.push(s);
            if let Some(k) = after {
                let id = Ident::new(&format!("l{k}_after"), Span::call_site());
                out.push(parse_quote!(vx_at!(#id);));
            }
            if let Some(nm) = name {
                let id = Ident::new(&nm, Span::call_site());
                out.push(parse_quote!(vx_at!(#id);));
            }
        }
        b.stmts = out;
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // --- pre-order ---
        // `o.unwrap_or_else(|| B)` and `o.map(|P| B)` on an Option, written out (B must not leave the closure early)
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            if self.methods.iter().any(|(n, _, to)| *n == name && to == "inline") && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    struct Leaves(bool);
                    impl<'a> syn::visit::Visit<'a> for Leaves {
                        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true; }
                        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true; }
                        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
                    }
                    let mut l = Leaves(false);
                    syn::visit::Visit::visit_expr(&mut l, &c.body);
                    let (r, b) = (&m.receiver, &c.body);
                    if !l.0 {
                        if name == "unwrap_or_else" && c.inputs.is_empty() {
                            *e = parse_quote!(match #r { Some(vx_v) => vx_v, None => #b });
                        } else if name == "map" && c.inputs.len() == 1 {
                            let p = &c.inputs[0];
                            *e = parse_quote!(match #r { Some(#p) => Some(#b), None => None });
                        }
                    }
                }
            }
        }
        if let Expr::Match(m) = e {
            let tc = self.targets_cfg;
            m.arms.retain(|a| cfg_keep(&a.attrs, tc));
            let mm = m.clone();
            if let Some(n) = self.str_match(&mm) {
                *e = n;
            }
        }
        if let Expr::Macro(m) = e {
            let mac = m.mac.clone();
            if let Some(n) = self.macro_expr(&mac) {
                *e = n;
            }
        }
        if let Expr::If(i) = e {
            if let Some(parts) = Self::let_chain(&i.cond) {
                if let Some((_, els)) = &i.else_branch {
                    // duplicated only when small enough to be obviously the same text
                    let els = els.clone();
                    let mut body: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
                    for c in parts.into_iter().rev() {
                        body = match body {
                            Expr::Block(b) => { let b = b.block; parse_quote!(if #c #b else #els) }
                            x => parse_quote!(if #c { #x } else #els),
                        };
                    }
                    self.notes.push("let-chain with else desugared to nested ifs, else branch repeated".into());
                    *e = body;
                } else {
                    let mut body: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
                    for c in parts.into_iter().rev() {
                        body = match body {
                            Expr::Block(b) => { let b = b.block; parse_quote!(if #c #b) }
                            x => parse_quote!(if #c { #x }),
                        };
                    }
                    *e = body;
                }
            }
        }
        if !self.keep_for {
            if let Expr::ForLoop(f) = e {
                let it = Ident::new(&format!("vx_it{}", self.loops), Span::call_site());
                let (p, x, b, lb) = (&f.pat, &f.expr, &f.body, &f.label);
                let lab = lb.clone();
                *e = parse_quote!({
                    let mut #it = vx_into(#x);
                    #lab while let Some(#p) = #it.next() #b
                });
                if let Expr::Block(bl) = e {
                    // the loop statement only; keep the ordinal in step with the name
                    let st = &mut bl.block.stmts;
                    let k = self.loops;
                    self.loops += 1;
                    if let Stmt::Local(l) = &mut st[0] {
                        self.visit_local_mut(l);
                    }
                    if let Stmt::Expr(Expr::While(w), _) = &mut st[1] {
                        self.visit_block_mut(&mut w.body);
                        if let Expr::Let(l) = &mut *w.cond {
                            self.visit_pat_mut(&mut l.pat);
                        }
                        self.loop_marks(k, &mut w.body);
                    }
                    let mk = Ident::new(&format!("l{k}_before"), Span::call_site());
                    st.insert(1, parse_quote!(vx_at!(#mk);));
                    let mk = Ident::new(&format!("l{k}_after"), Span::call_site());
                    Self::end_semi(&mut bl.block);
                    bl.block.stmts.push(parse_quote!(vx_at!(#mk);));
                }
                return;
            }
        }
        match e {
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                self.loop_marks(k, &mut w.body);
                return;
            }
            Expr::Loop(w) => {
                let k = self.loops;
                self.loops += 1;
                self.visit_block_mut(&mut w.body);
                self.loop_marks(k, &mut w.body);
                return;
            }
            Expr::ForLoop(w) => {
                let k = self.loops;
                self.loops += 1;
                self.visit_expr_mut(&mut w.expr);
                self.visit_block_mut(&mut w.body);
                self.loop_marks(k, &mut w.body);
                let x = &w.expr;
                let id = Ident::new(&format!("VXIT{k}"), Span::call_site());
                w.expr = parse_quote!(#id(#x));
                return;
            }
            Expr::Closure(c) => {
                let k = self.closures;
                self.closures += 1;
                let mut body = match &*c.body {
                    Expr::Block(b) => b.block.clone(),
                    x => parse_quote!({ #x }),
                };
                let mut params = vec![];
                let mut lets: Vec<Stmt> = vec![];
                for (j, p) in c.inputs.iter().enumerate() {
                    let (p, ty) = match p {
                        Pat::Type(t) => ((*t.pat).clone(), { let ty = &t.ty; quote::quote!(#ty).to_string() }),
                        p => (p.clone(), String::new()),
                    };
                    params.push(ty);
                    let id = Ident::new(&format!("vxp{j}"), Span::call_site());
                    fn split(p: &Pat, e: Expr, lets: &mut Vec<Stmt>) {
                        match p {
                            Pat::Wild(_) => {}
                            Pat::Reference(r) => split(&r.pat, parse_quote!(*#e), lets),
                            Pat::Paren(q) => split(&q.pat, e, lets),
                            Pat::Tuple(t) if t.elems.iter().any(|q| matches!(q, Pat::Reference(_) | Pat::Tuple(_))) && !t.elems.iter().any(|q| matches!(q, Pat::Rest(_))) => {
                                for (k, q) in t.elems.iter().enumerate() {
                                    let k = syn::Index::from(k);
                                    split(q, parse_quote!((#e).#k), lets);
                                }
                            }
                            _ => lets.push(parse_quote!(let #p = #e;)),
                        }
                    }
                    split(&p, parse_quote!(#id), &mut lets);
                }
                self.closure_params.push(params);
                self.visit_block_mut(&mut body);
                lets.append(&mut body.stmts);
                body.stmts = lets;
                let m = Ident::new(&format!("vx_closure_{k}"), Span::call_site());
                body.stmts.insert(0, parse_quote!(#m!();));
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: body });
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // --- post-order ---
        match e {
            Expr::Reference(r) => {
                // &X[a..b]  ->  X.vx_range(a, b)
                if let Expr::Paren(p) = &*r.expr {
                    if let Expr::Unary(u) = &*p.expr {
                        if let (UnOp::Deref(_), Expr::MethodCall(m)) = (&u.op, &*u.expr) {
                            if m.method.to_string().starts_with("vx_range") {
                                let m = m.clone();
                                *e = Expr::MethodCall(m);
                            }
                        }
                    }
                }
            }
            Expr::Index(ix) => {
                if let Expr::Range(r) = &*ix.index {
                    let x = &ix.expr;
                    let n: Expr = match (&r.start, &r.end) {
                        (Some(a), Some(b)) => parse_quote!((*#x.vx_range(#a, #b))),
                        (Some(a), None) => parse_quote!((*#x.vx_range_from(#a))),
                        (None, Some(b)) => parse_quote!((*#x.vx_range_to(#b))),
                        (None, None) => parse_quote!((*#x.vx_range_full())),
                    };
                    *e = n;
                } else {
                    let base = match &*ix.expr {
                        Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
                        Expr::Field(f) => match &f.member {
                            Member::Named(n) => Some(n.to_string()),
                            _ => None,
                        },
                        Expr::MethodCall(m) => Some(format!("{}()", m.method)),
                        _ => None,
                    };
                    if let Some(b) = base {
                        if let Some((_, to)) = self.index.iter().find(|(n, _)| *n == b) {
                            let id = Ident::new(to, Span::call_site());
                            let (x, i) = (&ix.expr, &ix.index);
                            *e = if to.ends_with("_val") { parse_quote!(#x.#id(#i)) } else { parse_quote!((*#x.#id(#i))) };
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                // receiver `(*X.vx_range(..))` -> `X.vx_range(..)` (auto-ref)
                if let Expr::Paren(p) = &*m.receiver {
                    if let Expr::Unary(u) = &*p.expr {
                        if let (UnOp::Deref(_), Expr::MethodCall(i)) = (&u.op, &*u.expr) {
                            if i.method.to_string().starts_with("vx_range") {
                                m.receiver = Box::new(Expr::MethodCall(i.clone()));
                            }
                        }
                    }
                }
                let name = m.method.to_string();
                let first = m.args.first().cloned();
                let k = match &first {
                    // closures were already rewritten into marked blocks
                    Some(Expr::Block(b)) if matches!(b.block.stmts.first(), Some(Stmt::Macro(m)) if m.mac.path.segments[0].ident.to_string().starts_with("vx_closure")) => "closure",
                    x => Self::argkind(x.as_ref()),
                };
                if let Some((_, _, to)) = self.methods.iter().find(|(n, a, _)| *n == name && (a == "*" || a == k)) {
                    if let Some(f) = to.strip_prefix("fn:") {
                        let id: Path = parse_str(f).unwrap();
                        let (x, a) = (&m.receiver, &m.args);
                        *e = parse_quote!(#id(#x, #a));
                    } else if let Some(f) = to.strip_prefix("fnref:") {
                        let id: Path = parse_str(f).unwrap();
                        let (x, a) = (&m.receiver, &m.args);
                        *e = parse_quote!(#id(&#x, #a));
                    } else {
                        m.method = Ident::new(to, Span::call_site());
                    }
                }
                if self.bind.contains(&name) {
                    // E  ->  { let vx_bK = E; <proof>; vx_bK }
                    let (id, mk) = (Ident::new(&format!("vx_b{}", self.binds), Span::call_site()), Ident::new(&format!("b{}", self.binds), Span::call_site()));
                    self.binds += 1;
                    // what was bound along the receiver chain comes first, in one block
                    fn hoist(e: &mut Expr, out: &mut Vec<Stmt>) {
                        match e {
                            Expr::MethodCall(m) => hoist(&mut m.receiver, out),
                            Expr::Block(b) if matches!(b.block.stmts.first(), Some(Stmt::Local(l)) if matches!(&l.pat, Pat::Ident(i) if i.ident.to_string().starts_with("vx_b"))) => {
                                if let Some(Stmt::Expr(t, None)) = b.block.stmts.pop() {
                                    out.append(&mut b.block.stmts);
                                    *e = t;
                                }
                            }
                            _ => {}
                        }
                    }
                    let mut x = e.clone();
                    let mut pre: Vec<Stmt> = vec![];
                    hoist(&mut x, &mut pre);
                    *e = parse_quote!({ #(#pre)* let #id = #x; vx_at!(#mk); #id });
                }
            }
            Expr::Binary(b) if self.eqs && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let (l, r) = (&b.left, &b.right);
                *e = if matches!(b.op, BinOp::Eq(_)) { parse_quote!(vx_eq(&(#l), &(#r))) } else { parse_quote!(!vx_eq(&(#l), &(#r))) };
            }
            Expr::Call(c) => {
                let f = &c.func;
                let n = norm(&quote::quote!(#f).to_string());
                if let Some((_, to)) = self.calls.iter().find(|(a, _)| norm(a) == n) {
                    let p: Expr = parse_str(to).unwrap();
                    c.func = Box::new(p);
                }
            }
            Expr::Path(p) => {
                let n = norm(&quote::quote!(#p).to_string());
                if let Some((_, to)) = self.calls.iter().find(|(a, _)| *a == format!("path:{n}")) {
                    *e = parse_str(to).unwrap();
                }
            }
            _ => {}
        }
    }
}
