//! Bounded checks of the string parsers (C01, C02, C14, C15).
use crate::build::{kt, panic_text};
use crate::rng::Rng;
use krates::{Feature, Kid, PackageId, ParsedFeature, PkgSpec, semver};
use serde_json::{Value, json};
use std::hash::{Hash, Hasher};

type R = Result<(), String>;
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| format!("panic: {}", panic_text(e)))
}
fn word(r: &mut Rng, alpha: &[u8], min: usize, max: usize) -> String {
    (0..min + r.below(max - min + 1)).map(|_| *r.pick(alpha) as char).collect()
}
pub fn name(r: &mut Rng) -> String {
    if r.chance(50) {
        return (*r.pick(&["a", "ab", "a-b", "a_b", "foo", "foo-bar", "b", "Z", "serde", "c1", "git"])).into();
    }
    let mut s = word(r, b"abcxyzABZ", 1, 1);
    s.push_str(&word(r, b"abcxyz0129-_", 0, 8));
    s
}
pub fn version(r: &mut Rng) -> String {
    let mut s = format!("{}.{}.{}", r.pick(&[0, 1, 2, 9, 10, 99]), r.pick(&[0, 1, 2, 9, 10]), r.pick(&[0, 1, 2, 9, 10, 38]));
    if r.chance(20) {
        s.push('-');
        s.push_str(r.pick(&["alpha", "alpha.1", "rc.10", "0", "a-b"]));
    }
    if r.chance(20) {
        s.push('+');
        s.push_str(r.pick(&["1.3.269", "meta", "2-x"]));
    }
    s
}

/// (id, name, version, source), built from its parts in cargo's two formats
pub fn package_id(r: &mut Rng) -> (String, [String; 3]) {
    let n = name(r);
    let v = version(r);
    let opaque = r.chance(30);
    let host = *r.pick(&["github.com", "git.example", "host.name:8080", "u@h.x", "gitlab.com"]);
    let last = if r.chance(50) { n.clone() } else { name(r) };
    let dirs: String = (0..r.below(3)).map(|_| format!("{}/", word(r, b"abcXYZ019-_.~", 1, 6))).collect();
    let (src, raw_q) = match r.below(4) {
        0 => (format!("registry+https://{}", r.pick(&["github.com/rust-lang/crates.io-index", "my.reg/index", "dl.cloudsmith.io/basic/a/b/cargo/index.git"])), None),
        1 => (format!("sparse+https://{}/", r.pick(&["index.crates.io", "my.reg/index"])), None),
        2 => {
            let win = if r.chance(10) { "D:/" } else { "" };
            (format!("path+file:///{win}{dirs}{last}"), None)
        }
        _ => {
            let q = match r.below(5) {
                0 => None,
                1 => Some(("rev", word(r, b"0123456789abcdef", 4, 40))),
                k => {
                    let mut w = String::new();
                    for _ in 0..1 + r.below(10) {
                        if r.chance(60) {
                            w.push(*r.pick(b"abcxyzABZ0189-_.") as char);
                        } else {
                            // any printable character but a space
                            w.push((33 + r.below(94)) as u8 as char);
                        }
                    }
                    Some((if k == 2 { "tag" } else { "branch" }, w))
                }
            };
            (format!("git+https://{host}/{dirs}{last}"), q)
        }
    };
    if opaque {
        // old ids carry the reference as it is, with the commit behind the last '#'
        let q = raw_q;
        let source = q.as_ref().map_or(src.clone(), |(k, w)| format!("{src}?{k}={w}"));
        let commit = if src.starts_with("git+") { format!("#{}", word(r, b"0123456789abcdef", 40, 40)) } else { String::new() };
        return (format!("{n} {v} ({source}{commit})"), [n, v, source]);
    }
    let lower = r.chance(20);
    let enc = |w: &str| -> String {
        w.bytes()
            .map(|b| {
                if b.is_ascii_alphanumeric() || b"*-._".contains(&b) {
                    (b as char).to_string()
                } else if lower {
                    format!("%{b:02x}")
                } else {
                    format!("%{b:02X}")
                }
            })
            .collect()
    };
    let url = raw_q.as_ref().map_or(src.clone(), |(k, w)| format!("{src}?{k}={}", enc(w)));
    let source = raw_q.as_ref().map_or(src.clone(), |(k, w)| format!("{src}?{k}={w}"));
    // '*' stays as it is in a query, so it may be encoded or not
    let short = (src.starts_with("git+") || src.starts_with("path+")) && last == n;
    let id = if short { format!("{url}#{v}") } else { format!("{url}#{n}@{v}") };
    (id, [n, v, source])
}

pub fn gen_c01(r: &mut Rng) -> Value {
    let (id, w) = package_id(r);
    json!({"id": id, "want": w})
}
pub fn c01(c: &Value) -> R {
    let id = c["id"].as_str().unwrap();
    let k = catch(|| Kid::from(PackageId { repr: id.to_string() })).map_err(|e| format!("parsing {id:?}: {e}"))?;
    for (what, got, want) in [("name", k.name(), &c["want"][0]), ("version", k.version(), &c["want"][1]), ("source", k.source(), &c["want"][2])] {
        ensure!(got == want.as_str().unwrap(), "{id:?}: the {what} is {got:?} instead of {want}");
    }
    Ok(())
}

pub fn gen_c02(r: &mut Rng) -> Value {
    let mut v: Vec<(String, [String; 3])> = vec![package_id(r)];
    for _ in 0..3 {
        let (_, p) = r.pick(&v.clone()).clone();
        let q = match r.below(5) {
            // the same package, written in the old format
            0 => (format!("{} {} ({})", p[0], p[1], p[2].replace('#', "-")), [p[0].clone(), p[1].clone(), p[2].replace('#', "-")]),
            1 => {
                let mut p = p;
                p[r.below(2)].push('0');
                p[2] = p[2].replace('#', "-");
                (format!("{} {} ({})", p[0], p[1], p[2]), p)
            }
            2 => {
                let mut p = p;
                p[1] = version(r);
                p[2] = p[2].replace('#', "-");
                (format!("{} {} ({})", p[0], p[1], p[2]), p)
            }
            3 => {
                let (_, o) = package_id(r);
                let p = [p[0].clone(), p[1].clone(), o[2].replace('#', "-")];
                (format!("{} {} ({})", p[0], p[1], p[2]), p)
            }
            _ => package_id(r),
        };
        v.push(q);
    }
    // the same package in the stable format with other escapes
    let d = "git+https://h.x/foo?branch=a/b".to_string();
    v.push((format!("git+https://h.x/foo?branch=a%{}b#0.1.0", r.pick(&["2F", "2f"])), ["foo".into(), "0.1.0".into(), d.clone()]));
    v.push((format!("foo 0.1.0 ({d}#{})", word(r, b"0123456789abcdef", 40, 40)), ["foo".into(), "0.1.0".into(), d]));
    json!({"ids": v.iter().map(|x| json!({"id": x.0, "parts": x.1})).collect::<Vec<_>>()})
}
pub fn c02(c: &Value) -> R {
    let v: Vec<(Kid, [String; 3], String)> = c["ids"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| {
            let id = x["id"].as_str().unwrap().to_string();
            let p = [0, 1, 2].map(|i| x["parts"][i].as_str().unwrap().to_string());
            catch(|| Kid::from(PackageId { repr: id.clone() })).map(|k| (k, p, id))
        })
        .collect::<Result<_, _>>()?;
    let h = |k: &Kid| {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        k.hash(&mut s);
        s.finish()
    };
    for (a, _, _) in &v {
        let p = kt(a);
        for (b, _, _) in &v {
            let q = kt(b);
            let want = p.cmp(&q);
            ensure!(a.cmp(b) == want, "{:?} and {:?} compare {:?} instead of {want:?}", a.repr, b.repr, a.cmp(b));
            ensure!(a.partial_cmp(b) == Some(want), "partial_cmp of {:?} and {:?} is {:?} instead of {want:?}", a.repr, b.repr, a.partial_cmp(b));
            ensure!((a == b) == (p == q), "{:?} == {:?} is {}", a.repr, b.repr, a == b);
            ensure!((a != b) == (p != q), "{:?} != {:?} is {}", a.repr, b.repr, a != b);
            ensure!((a < b) == (p < q) && (a <= b) == (p <= q) && (a > b) == (p > q) && (a >= b) == (p >= q), "the comparison operators of {:?} and {:?} disagree with their parts", a.repr, b.repr);
            ensure!(p != q || h(a) == h(b), "{:?} and {:?} are equal but hash differently", a.repr, b.repr);
        }
    }
    let mut s: Vec<Kid> = v.iter().map(|x| x.0.clone()).collect();
    s.sort();
    let mut w: Vec<_> = v.iter().map(|x| kt(&x.0)).collect();
    w.sort();
    ensure!(s.iter().map(kt).eq(w), "sorting identifiers does not sort their parts");
    Ok(())
}

/// the grammar of package specs, from the documentation of `cargo pkgid`
pub fn spec_grammar(s: &str) -> Option<(String, Option<semver::Version>, Option<String>)> {
    let ok_name = |n: &str| n.chars().all(|c| c == '-' || c == '_' || c.is_ascii_alphanumeric());
    let (url, frag) = if s.contains('/') {
        let full = if s.contains("://") { s.to_string() } else { format!("cargo://{s}") };
        match full.split_once('#') {
            Some((_, "")) => return None,
            Some((u, f)) => (Some(u.to_string()), Some(f.to_string())),
            None => (Some(full), None),
        }
    } else {
        (None, Some(s.to_string()))
    };
    let last = match &url {
        None => None,
        Some(u) => {
            if u.ends_with('/') {
                return None;
            }
            // scheme://…/last with a non-empty path behind the scheme
            let (_, rest) = u.rsplit_once("://")?;
            let (_, last) = rest.rsplit_once('/').or_else(|| if rest.is_empty() { None } else { None })?;
            Some(last.to_string())
        }
    };
    let (name, ver) = match frag {
        None => (last.unwrap(), None),
        Some(f) => match f.split_once([':', '@']) {
            Some((_, "")) => return None,
            Some((n, v)) => (n.to_string(), Some(semver::Version::parse(v).ok()?)),
            None => match last {
                Some(l) if !f.chars().next().unwrap().is_alphabetic() => (l, Some(semver::Version::parse(&f).ok()?)),
                _ => (f, None),
            },
        },
    };
    ok_name(&name).then_some((name, ver, url))
}
pub fn gen_c14(r: &mut Rng) -> Value {
    let sp = if r.chance(50) {
        let toks = ["a", "foo", "foo-bar", "1.0.4", "1.0.0-rc.1+b", "0", ":", "@", "#", "/", "://", "https://", "github.com", "?", "branch=x", "+", "git+", " ", "é", "_", ".", "//", "1", "ß", "Ａ", "x.y", "-"];
        (0..r.below(8)).map(|_| *r.pick(&toks)).collect::<String>()
    } else {
        let url = match r.below(4) {
            0 => String::new(),
            1 => format!("https://{}/{}/{}", r.pick(&["github.com", "h"]), name(r), name(r)),
            2 => format!("{}/{}", r.pick(&["github.com", "h.x/y"]), name(r)),
            _ => format!("git+ssh://u@h/{}{}", name(r), r.pick(&["", "?branch=a", ".git"])),
        };
        let nv = match r.below(5) {
            0 => String::new(),
            1 => name(r),
            2 => version(r),
            3 => format!("{}:{}", name(r), version(r)),
            _ => format!("{}@{}", name(r), version(r)),
        };
        let mut s = if url.is_empty() {
            nv
        } else if nv.is_empty() {
            url
        } else {
            format!("{url}#{nv}")
        };
        if r.chance(25) {
            // mutate one position
            let i = r.below(s.len() + 1);
            let c = *r.pick(&['/', ':', '#', '@', '!', ' ', 'é', '.', '+']);
            if r.chance(50) || i == s.len() {
                s.insert(i, c);
            } else {
                s.replace_range(i..i + 1, "");
            }
        }
        s
    };
    json!({"spec": sp})
}
pub fn c14(c: &Value) -> R {
    let s = c["spec"].as_str().unwrap();
    let got = catch(|| s.parse::<PkgSpec>()).map_err(|e| format!("parsing {s:?}: {e}"))?;
    let want = spec_grammar(s);
    match (got, want) {
        (Err(krates::Error::InvalidPkgSpec(_)), None) => Ok(()),
        (Err(e), None) => Err(format!("{s:?} is rejected with the unexpected error {e}")),
        (Err(e), Some(w)) => Err(format!("{s:?} is rejected ({e}) although it means {w:?}")),
        (Ok(g), None) => Err(format!("{s:?} is accepted as {g:?} although it is no package spec")),
        (Ok(g), Some(w)) => {
            ensure!((&g.name, &g.version, &g.url) == (&w.0, &w.1, &w.2), "{s:?} is parsed as {g:?} instead of {w:?}");
            Ok(())
        }
    }
}

pub fn gen_c15(r: &mut Rng) -> Value {
    let toks = ["dep:", "dep", ":", "/", "?/", "?", "a", "foo-bar", "feat_1", "default", "é", "", "c++", "x.y", "d", "DEP:"];
    let s = if r.chance(50) {
        (0..r.below(6)).map(|_| *r.pick(&toks)).collect::<String>()
    } else {
        let (a, b) = (name(r), name(r));
        match r.below(4) {
            0 => a,
            1 => format!("dep:{a}"),
            2 => format!("{a}/{b}"),
            _ => format!("{a}?/{b}"),
        }
    };
    json!({"entry": s})
}
pub fn c15(c: &Value) -> R {
    let s = c["entry"].as_str().unwrap();
    let p = catch(|| ParsedFeature::from(s)).map_err(|e| format!("{s:?}: {e}"))?;
    let got = catch(|| p.feat()).map_err(|e| format!("{s:?}: {e}"))?;
    let want = if let Some(k) = s.strip_prefix("dep:") {
        Feature::Krate(k)
    } else if let Some((krate, feature)) = s.split_once("?/") {
        Feature::Weak { krate, feature }
    } else if let Some((krate, feature)) = s.split_once('/') {
        Feature::Strong { krate, feature }
    } else {
        Feature::Simple(s)
    };
    ensure!(got == want, "{s:?} is read as {got:?} instead of {want:?}");
    ensure!(format!("{p:?}") == s, "{s:?} is displayed as {p:?}");
    Ok(())
}
