//! vx: mechanical extraction of functions, fragments and type definitions from
//! the working tree's source, for verification with Verus.
//!
//! Input (stdin): JSON list of requests.  Output (stdout): JSON list of results.
//! Every rewrite below is listed in DESIGN.md ("What the extraction drops").
mod rewrite;
use serde_json::{Value, json};
use std::collections::HashMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// finds an item path such as `Kid::cmp`, `Ord for Kid::cmp`, `fn_name`,
/// `Builder::build_with_metadata/Renames::resolve_feature`
fn find_fn(items: &[Item], path: &str) -> Option<(Signature, Block)> {
    let (head, rest) = match path.split_once('/') {
        Some((h, r)) => (h, Some(r)),
        None => (path, None),
    };
    let f = find_fn1(items, head)?;
    match rest {
        None => Some(f),
        Some(r) => {
            // items nested anywhere in that function
            struct V(Vec<Item>);
            impl<'a> Visit<'a> for V {
                fn visit_item(&mut self, i: &'a Item) {
                    self.0.push(i.clone());
                    visit::visit_item(self, i);
                }
            }
            let mut v = V(vec![]);
            v.visit_block(&f.1);
            find_fn(&v.0, r)
        }
    }
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => ty_name(&r.elem),
        _ => quote::quote!(#t).to_string(),
    }
}
fn trait_name(p: &Path) -> String {
    p.segments.last().map(|s| {
        let mut n = s.ident.to_string();
        if let PathArguments::AngleBracketed(a) = &s.arguments {
            n.push('<');
            n.push_str(&a.args.iter().map(|x| match x { GenericArgument::Type(t) => ty_name(t), o => quote::quote!(#o).to_string() }).collect::<Vec<_>>().join(","));
            n.push('>');
        }
        n
    }).unwrap_or_default()
}

fn find_fn1(items: &[Item], path: &str) -> Option<(Signature, Block)> {
    if !path.contains("::") {
        for i in items {
            if let Item::Fn(f) = i {
                if f.sig.ident == path {
                    return Some((f.sig.clone(), (*f.block).clone()));
                }
            }
        }
        return None;
    }
    let (ty, name) = path.rsplit_once("::")?;
    let (tr, ty) = match ty.split_once(" for ") {
        Some((t, y)) => (Some(t), y),
        None => (None, ty),
    };
    for i in items {
        if let Item::Impl(im) = i {
            if ty_name(&im.self_ty) != ty {
                continue;
            }
            match (&im.trait_, tr) {
                (None, None) => {}
                (Some((_, p, _)), Some(t)) => {
                    let tn = trait_name(p);
                    if tn != t && tn.split('<').next().unwrap() != t {
                        continue;
                    }
                }
                _ => continue,
            }
            for ii in &im.items {
                if let ImplItem::Fn(f) = ii {
                    if f.sig.ident == name {
                        return Some((f.sig.clone(), f.block.clone()));
                    }
                }
            }
        }
    }
    None
}

fn all_items(f: &File) -> Vec<Item> {
    f.items.clone()
}

fn find_type(items: &[Item], path: &str) -> Option<Item> {
    let (scope, name) = match path.rsplit_once('/') {
        Some((s, n)) => (Some(s), n),
        None => (None, path),
    };
    let pool: Vec<Item> = match scope {
        None => items.to_vec(),
        Some(s) => {
            let (_, b) = find_fn(items, s)?;
            struct V(Vec<Item>);
            impl<'a> Visit<'a> for V {
                fn visit_item(&mut self, i: &'a Item) {
                    self.0.push(i.clone());
                    visit::visit_item(self, i);
                }
            }
            let mut v = V(vec![]);
            v.visit_block(&b);
            v.0
        }
    };
    pool.into_iter().find(|i| match i {
        Item::Struct(s) => s.ident == name,
        Item::Enum(s) => s.ident == name,
        Item::Type(s) => s.ident == name,
        Item::Const(s) => s.ident == name,
        _ => false,
    })
}

/// A fragment of a function body: steps separated by `;`
///   let:NAME[#k]        initialiser of the k-th `let` that binds NAME
///   closure:#k          k-th closure (pre-order)
///   loop:#k             body of the k-th loop (pre-order); wloop:#k the loop statement itself
///   stmts:A..B          statements from the one matching A up to (not including) the one matching B
///                       A and B: let:NAME, loop:#k (k-th loop *statement* of this block), start, end, loop_after..
///   block               (the expression as a block)
fn select(b: Block, sel: &str) -> std::result::Result<Block, String> {
    let mut cur = b;
    for step in sel.split(';').map(str::trim).filter(|s| !s.is_empty()) {
        cur = step1(cur, step).ok_or_else(|| format!("anchor `{step}` not found"))?;
    }
    Ok(cur)
}
fn as_block(e: Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block,
        e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e, None)] },
    }
}
fn pat_binds(p: &Pat, name: &str) -> bool {
    struct V<'n>(&'n str, bool);
    impl<'a> Visit<'a> for V<'_> {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            if i.ident == self.0 {
                self.1 = true;
            }
        }
    }
    let mut v = V(name, false);
    v.visit_pat(p);
    v.1
}
fn split_ix(s: &str) -> (&str, usize) {
    match s.split_once('#') {
        Some((n, k)) => (n, k.parse().unwrap_or(0)),
        None => (s, 0),
    }
}
fn stmt_matches(s: &Stmt, a: &str, loops: &mut usize) -> bool {
    if let Some(n) = a.strip_prefix("let:") {
        return matches!(s, Stmt::Local(l) if pat_binds(&l.pat, n));
    }
    if let Some(k) = a.strip_prefix("loop:#") {
        let is = matches!(s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
        if is {
            let hit = k.parse::<usize>().ok() == Some(*loops);
            *loops += 1;
            return hit;
        }
        return false;
    }
    if let Some(n) = a.strip_prefix("text:") {
        let t = quote::quote!(#s).to_string().replace(' ', "");
        return t.contains(&n.replace(' ', ""));
    }
    false
}
fn step1(b: Block, step: &str) -> Option<Block> {
    if let Some(n) = step.strip_prefix("let:") {
        let (n, k) = split_ix(n);
        struct V<'n>(&'n str, Vec<Expr>);
        impl<'a> Visit<'a> for V<'_> {
            fn visit_local(&mut self, l: &'a Local) {
                if pat_binds(&l.pat, self.0) {
                    if let Some(i) = &l.init {
                        self.1.push((*i.expr).clone());
                    }
                }
                visit::visit_local(self, l);
            }
        }
        let mut v = V(n, vec![]);
        v.visit_block(&b);
        return v.1.into_iter().nth(k).map(as_block);
    }
    if let Some(k) = step.strip_prefix("closure:#") {
        struct V(Vec<ExprClosure>);
        impl<'a> Visit<'a> for V {
            fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
                self.0.push(c.clone());
                visit::visit_expr_closure(self, c);
            }
        }
        let mut v = V(vec![]);
        v.visit_block(&b);
        let c = v.0.into_iter().nth(k.parse().ok()?)?;
        let mut blk = as_block((*c.body).clone());
        // the parameters of the closure become vxq0, vxq1, ..
        for (j, p) in c.inputs.iter().enumerate().rev() {
            let p = match p {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            if matches!(p, Pat::Wild(_)) {
                continue;
            }
            let id = Ident::new(&format!("vxq{j}"), proc_macro2::Span::call_site());
            blk.stmts.insert(0, parse_quote!(let #p = #id;));
        }
        return Some(blk);
    }
    if step.starts_with("loop:#") || step.starts_with("wloop:#") {
        let (w, k) = match step.strip_prefix("wloop:#") {
            Some(k) => (true, k),
            None => (false, step.strip_prefix("loop:#")?),
        };
        struct V(Vec<(Expr, Block)>);
        impl<'a> Visit<'a> for V {
            fn visit_expr(&mut self, e: &'a Expr) {
                match e {
                    Expr::ForLoop(f) => self.0.push((e.clone(), f.body.clone())),
                    Expr::While(f) => self.0.push((e.clone(), f.body.clone())),
                    Expr::Loop(f) => self.0.push((e.clone(), f.body.clone())),
                    _ => {}
                }
                visit::visit_expr(self, e);
            }
        }
        let mut v = V(vec![]);
        v.visit_block(&b);
        let (e, body) = v.0.into_iter().nth(k.parse().ok()?)?;
        return Some(if w { as_block(e) } else { body });
    }
    if let Some(r) = step.strip_prefix("stmts:") {
        let (a, z) = r.split_once("..")?;
        let (z, incl) = match z.strip_prefix('=') {
            Some(z) => (z, true),
            None => (z, false),
        };
        let mut l = 0;
        let st = if a == "start" { 0 } else { b.stmts.iter().position(|s| stmt_matches(s, a, &mut l))? };
        let en = if z == "end" {
            b.stmts.len()
        } else {
            let mut l = 0;
            let p = b.stmts.iter().position(|s| stmt_matches(s, z, &mut l))?;
            if incl { p + 1 } else { p }
        };
        if en < st {
            return None;
        }
        return Some(Block { brace_token: b.brace_token, stmts: b.stmts[st..en].to_vec() });
    }
    None
}

/// replaces the fragment that `steps` selects by `to`
fn cut(b: &mut Block, steps: &[&str], to: &Expr) -> Option<()> {
    let (step, rest) = (steps[0], &steps[1..]);
    fn hit(e: &mut Expr, rest: &[&str], to: &Expr) -> Option<()> {
        if rest.is_empty() {
            *e = to.clone();
            return Some(());
        }
        let mut blk = as_block(e.clone());
        cut(&mut blk, rest, to)?;
        *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk });
        Some(())
    }
    struct V<'a> {
        kind: u8,
        name: &'a str,
        left: usize,
        rest: &'a [&'a str],
        to: &'a Expr,
        done: Option<Option<()>>,
    }
    impl VisitMut for V<'_> {
        fn visit_local_mut(&mut self, l: &mut Local) {
            if self.done.is_none() && self.kind == 0 && pat_binds(&l.pat, self.name) {
                if let Some(i) = &mut l.init {
                    if self.left == 0 {
                        self.done = Some(hit(&mut i.expr, self.rest, self.to));
                        return;
                    }
                    self.left -= 1;
                }
            }
            visit_mut::visit_local_mut(self, l);
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if self.done.is_some() {
                return;
            }
            let is = match (self.kind, &*e) {
                (1, Expr::Closure(_)) => true,
                (2 | 3, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) => true,
                _ => false,
            };
            if is {
                if self.left == 0 {
                    let (rest, to) = (self.rest, self.to);
                    self.done = Some(match (self.kind, e) {
                        (1, Expr::Closure(c)) if !rest.is_empty() => hit(&mut c.body, rest, to),
                        (2, Expr::ForLoop(ExprForLoop { body, .. }) | Expr::While(ExprWhile { body, .. }) | Expr::Loop(ExprLoop { body, .. })) => {
                            if rest.is_empty() {
                                *body = parse_quote!({ #to; });
                                Some(())
                            } else {
                                cut(body, rest, to)
                            }
                        }
                        (_, e) => hit(e, rest, to),
                    });
                    return;
                }
                self.left -= 1;
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let (kind, name, left) = if let Some(n) = step.strip_prefix("let:") {
        let (n, k) = split_ix(n);
        (0, n, k)
    } else if let Some(k) = step.strip_prefix("closure:#") {
        (1, "", k.parse().ok()?)
    } else if let Some(k) = step.strip_prefix("loop:#") {
        (2, "", k.parse().ok()?)
    } else if let Some(k) = step.strip_prefix("wloop:#") {
        (3, "", k.parse().ok()?)
    } else {
        let r = step.strip_prefix("stmts:")?;
        let (a, z) = r.split_once("..")?;
        let (z, incl) = match z.strip_prefix('=') {
            Some(z) => (z, true),
            None => (z, false),
        };
        let mut l = 0;
        let st = if a == "start" { 0 } else { b.stmts.iter().position(|s| stmt_matches(s, a, &mut l))? };
        let en = if z == "end" {
            b.stmts.len()
        } else {
            let mut l = 0;
            let p = b.stmts.iter().position(|s| stmt_matches(s, z, &mut l))?;
            if incl { p + 1 } else { p }
        };
        if en < st || !rest.is_empty() {
            return None;
        }
        let n = en == b.stmts.len() && matches!(b.stmts.last(), Some(Stmt::Expr(_, None)));
        b.stmts.splice(st..en, [Stmt::Expr(to.clone(), if n { None } else { Some(Default::default()) })]);
        return Some(());
    };
    let mut v = V { kind, name, left, rest, to, done: None };
    v.visit_block_mut(b);
    v.done?
}

fn main() {
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let reqs: Vec<Value> = serde_json::from_str(&s).unwrap();
    let mut cache: HashMap<String, std::result::Result<Vec<Item>, String>> = HashMap::new();
    let mut out = vec![];
    for r in &reqs {
        let file = r["file"].as_str().unwrap().to_string();
        let items = cache
            .entry(file.clone())
            .or_insert_with(|| {
                // FILE#a/b: the items of `mod a { mod b { .. } }`
                let (name, mods) = file.split_once('#').unwrap_or((&file, ""));
                let t = std::fs::read_to_string(name).map_err(|e| e.to_string())?;
                let f = parse_file(&t).map_err(|e| e.to_string())?;
                let mut items = all_items(&f);
                for m in mods.split('/').filter(|m| !m.is_empty()) {
                    items = items
                        .into_iter()
                        .find_map(|i| match i {
                            Item::Mod(x) if x.ident == m => x.content.map(|c| c.1),
                            _ => None,
                        })
                        .ok_or_else(|| format!("module `{m}` not found"))?;
                }
                Ok(items)
            })
            .clone();
        out.push(match items {
            Err(e) => json!({"error": format!("{file}: {e}")}),
            Ok(items) => match one(&items, r) {
                Ok(v) => v,
                Err(e) => json!({"error": e}),
            },
        });
    }
    println!("{}", serde_json::to_string(&out).unwrap());
}

fn one(items: &[Item], r: &Value) -> std::result::Result<Value, String> {
    let path = r["path"].as_str().unwrap();
    if r["what"] == "type" {
        let mut it = find_type(items, path).ok_or_else(|| format!("type `{path}` not found"))?;
        rewrite::clean_item(&mut it, r["targets_cfg"].as_bool().unwrap_or(false));
        let f = File { shebang: None, attrs: vec![], items: vec![it] };
        return Ok(json!({"text": prettyplease::unparse(&f)}));
    }
    let (sig, block) = find_fn(items, path).ok_or_else(|| format!("function `{path}` not found"))?;
    let mut block = select(block, r["select"].as_str().unwrap_or(""))?;
    // parts that are fragments of their own (under their own contract) become calls
    for c in r["cuts"].as_array().into_iter().flatten() {
        let (sel, to) = (c[0].as_str().unwrap_or(""), c[1].as_str().unwrap_or(""));
        let to: Expr = parse_str(to).map_err(|e| e.to_string())?;
        let steps: Vec<&str> = sel.split(';').map(str::trim).collect();
        cut(&mut block, &steps, &to).ok_or_else(|| format!("anchor `{sel}` not found"))?;
        struct Semi;
        impl VisitMut for Semi {
            fn visit_block_mut(&mut self, b: &mut Block) {
                visit_mut::visit_block_mut(self, b);
                let n = b.stmts.len();
                for (i, s) in b.stmts.iter_mut().enumerate() {
                    if let Stmt::Expr(Expr::Call(_) | Expr::MethodCall(_), t @ None) = s {
                        if i + 1 < n {
                            *t = Some(Default::default());
                        }
                    }
                }
            }
        }
        Semi.visit_block_mut(&mut block);
    }
    let mut rw = rewrite::Rw::new(r);
    let body = rw.run(block)?;
    let orig: Signature = sig.clone();
    let f: ItemFn = parse_quote! { fn vx_body() #body };
    let f = File { shebang: None, attrs: vec![], items: vec![Item::Fn(f)] };
    let text = prettyplease::unparse(&f);
    let sf: ItemFn = parse_quote! { #orig {} };
    let sigtext = prettyplease::unparse(&File { shebang: None, attrs: vec![], items: vec![Item::Fn(sf)] });
    Ok(json!({"text": text, "sig": sigtext, "loops": rw.loops, "closures": rw.closures, "closure_params": rw.closure_params, "notes": rw.notes}))
}
