//! An evaluator for `cfg(...)` target expressions written from the Rust
//! reference, independent of the `cfg-expr` crate that krates uses.
#[derive(Debug, Clone)]
pub enum Expr {
    All(Vec<Expr>),
    Any(Vec<Expr>),
    Not(Box<Expr>),
    Flag(String),
    Kv(String, String),
}

pub fn parse(s: &str) -> Option<Expr> {
    let inner = s.strip_prefix("cfg(")?.strip_suffix(')')?;
    let b: Vec<char> = inner.chars().collect();
    let mut i = 0;
    let e = expr(&b, &mut i)?;
    ws(&b, &mut i);
    (i == b.len()).then_some(e)
}
fn ws(b: &[char], i: &mut usize) {
    while *i < b.len() && b[*i].is_whitespace() {
        *i += 1;
    }
}
fn expr(b: &[char], i: &mut usize) -> Option<Expr> {
    ws(b, i);
    let st = *i;
    while *i < b.len() && (b[*i].is_alphanumeric() || b[*i] == '_') {
        *i += 1;
    }
    let id: String = b[st..*i].iter().collect();
    if id.is_empty() {
        return None;
    }
    ws(b, i);
    match b.get(*i) {
        Some('(') => {
            *i += 1;
            let mut v = Vec::new();
            loop {
                ws(b, i);
                match b.get(*i) {
                    Some(')') => {
                        *i += 1;
                        break;
                    }
                    Some(',') => {
                        *i += 1;
                    }
                    _ => v.push(expr(b, i)?),
                }
            }
            match id.as_str() {
                "all" => Some(Expr::All(v)),
                "any" => Some(Expr::Any(v)),
                "not" if v.len() == 1 => Some(Expr::Not(Box::new(v.pop().unwrap()))),
                _ => None,
            }
        }
        Some('=') => {
            *i += 1;
            ws(b, i);
            if b.get(*i) != Some(&'"') {
                return None;
            }
            *i += 1;
            let st = *i;
            while *i < b.len() && b[*i] != '"' {
                *i += 1;
            }
            let v: String = b[st..*i].iter().collect();
            *i += 1;
            Some(Expr::Kv(id, v))
        }
        _ => Some(Expr::Flag(id)),
    }
}

pub struct Tgt {
    pub triple: &'static str,
    pub os: &'static str,
    pub arch: &'static str,
    pub env: &'static str,
    pub family: &'static [&'static str],
    pub vendor: &'static str,
    pub width: &'static str,
    pub endian: &'static str,
}

/// Facts from `rustc --print cfg --target T`.
pub const TARGETS: &[Tgt] = &[
    Tgt { triple: "x86_64-unknown-linux-gnu", os: "linux", arch: "x86_64", env: "gnu", family: &["unix"], vendor: "unknown", width: "64", endian: "little" },
    Tgt { triple: "x86_64-unknown-linux-musl", os: "linux", arch: "x86_64", env: "musl", family: &["unix"], vendor: "unknown", width: "64", endian: "little" },
    Tgt { triple: "x86_64-pc-windows-msvc", os: "windows", arch: "x86_64", env: "msvc", family: &["windows"], vendor: "pc", width: "64", endian: "little" },
    Tgt { triple: "x86_64-pc-windows-gnu", os: "windows", arch: "x86_64", env: "gnu", family: &["windows"], vendor: "pc", width: "64", endian: "little" },
    Tgt { triple: "i686-unknown-linux-gnu", os: "linux", arch: "x86", env: "gnu", family: &["unix"], vendor: "unknown", width: "32", endian: "little" },
    Tgt { triple: "aarch64-apple-darwin", os: "macos", arch: "aarch64", env: "", family: &["unix"], vendor: "apple", width: "64", endian: "little" },
    Tgt { triple: "wasm32-unknown-unknown", os: "unknown", arch: "wasm32", env: "", family: &["wasm"], vendor: "unknown", width: "32", endian: "little" },
];

/// not a target of rustc, but one target-lexicon knows: only with the `targets` feature its properties are known
const LEXICON: &[Tgt] = &[Tgt { triple: "mips", os: "unknown", arch: "mips", env: "", family: &[], vendor: "unknown", width: "32", endian: "big" }];

pub fn target(triple: &str) -> Option<&'static Tgt> {
    if cfg!(feature = "targets") {
        if let Some(t) = LEXICON.iter().find(|t| t.triple == triple) {
            return Some(t);
        }
    }
    TARGETS.iter().find(|t| t.triple == triple)
}

/// Evaluates `e` for one target plus its promised target features.  An unknown
/// triple satisfies no target predicate (that is what the documentation of
/// `include_targets` promises).
pub fn eval(e: &Expr, t: Option<&Tgt>, feats: &[String]) -> bool {
    match e {
        Expr::All(v) => v.iter().all(|x| eval(x, t, feats)),
        Expr::Any(v) => v.iter().any(|x| eval(x, t, feats)),
        Expr::Not(x) => !eval(x, t, feats),
        Expr::Flag(f) => match f.as_str() {
            "unix" | "windows" => t.is_some_and(|t| t.family.contains(&f.as_str())),
            _ => false,
        },
        Expr::Kv(k, v) => {
            if k == "target_feature" {
                return feats.iter().any(|f| f == v);
            }
            let Some(t) = t else { return false };
            match k.as_str() {
                "target_os" => t.os == v,
                "target_arch" => t.arch == v,
                "target_env" => t.env == v,
                "target_family" => t.family.contains(&v.as_str()),
                "target_vendor" => t.vendor == v,
                "target_pointer_width" => t.width == v,
                "target_endian" => t.endian == v,
                _ => false,
            }
        }
    }
}

/// No predicates at all and false: the `cfg(any())` idiom.
pub fn always_false(e: &Expr) -> bool {
    fn count(e: &Expr) -> usize {
        match e {
            Expr::All(v) | Expr::Any(v) => v.iter().map(count).sum(),
            Expr::Not(x) => count(x),
            _ => 1,
        }
    }
    count(e) == 0 && !eval(e, None, &[])
}
