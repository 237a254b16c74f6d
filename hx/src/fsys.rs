//! C08 on a real directory tree with symlinks, below a scratch directory.
use crate::build;
use crate::cases::Outcome;
use crate::graphs;
use crate::model::Config;
use crate::oracle;
use serde_json::{Value, json};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

static N: AtomicU64 = AtomicU64::new(0);
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn eval(c: &Value) -> Outcome {
    let base = std::env::temp_dir().canonicalize().unwrap();
    let dir = base.join(format!("hx-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir(&dir).expect("scratch directory");
    let s = Scratch(dir);
    match run(c, &s.0) {
        Ok(b) => Outcome::Held(b),
        Err(e) => Outcome::Violated(e.replace(s.0.to_str().unwrap(), "$SCRATCH")),
    }
}

fn run(c: &Value, dir: &Path) -> Result<bool, String> {
    let mut r = crate::rng::Rng::new(c["seed"].as_u64().unwrap());
    let real = dir.join("real");
    let link = dir.join("link");
    std::fs::create_dir(&real).unwrap();
    std::os::unix::fs::symlink(&real, &link).unwrap();
    let (rs, lk) = (real.to_str().unwrap().to_string(), link.to_str().unwrap().to_string());
    // the workspace as cargo sees it: its paths are not resolved
    let seen = if r.chance(50) { &rs } else { &lk };
    let mut doc = c["doc"].clone();
    let mut plain = c["doc"].clone(); // every path resolved
    let sub = |p: &str, to: &str| p.strip_prefix("/vxws").map_or(p.to_string(), |q| format!("{to}{q}"));
    doc["workspace_root"] = json!(seen);
    plain["workspace_root"] = json!(rs);
    std::fs::write(real.join("Cargo.toml"), "").unwrap();
    let mut n = 0;
    for (p, q) in doc["packages"].as_array_mut().unwrap().iter_mut().zip(plain["packages"].as_array_mut().unwrap()) {
        let mp = p["manifest_path"].as_str().unwrap().to_string();
        if !mp.starts_with("/vxws") {
            continue;
        }
        let on_disk = PathBuf::from(sub(&mp, &rs));
        std::fs::create_dir_all(on_disk.parent().unwrap()).unwrap();
        std::fs::write(&on_disk, "").unwrap();
        q["manifest_path"] = json!(on_disk.to_str().unwrap());
        // the member may be reached through a link of its own
        if r.chance(25) {
            let l = dir.join(format!("member{n}"));
            n += 1;
            std::os::unix::fs::symlink(on_disk.parent().unwrap(), &l).unwrap();
            p["manifest_path"] = json!(l.join("Cargo.toml").to_str().unwrap());
        } else {
            p["manifest_path"] = json!(sub(&mp, seen));
        }
    }
    let mut cfg = Config::from_json(&c["config"]);
    let mut pcfg = cfg.clone();
    for (i, p) in cfg.include.iter_mut().enumerate() {
        let via = if r.chance(50) { &rs } else { &lk };
        pcfg.include[i] = sub(p, &rs);
        *p = match r.below(4) {
            0 => sub(p, via).replace("/real/", "/link/../real/"),
            _ => sub(p, via),
        };
    }
    // `..` below a symlink: only the resolved form is compared
    let md = oracle::parse(&plain);
    let spec = oracle::solve(&md, &pcfg);
    match build::build(&doc.to_string(), &cfg)? {
        Err(e) => {
            if spec.included.is_empty() { Ok(true) } else { Err(format!("the build fails with `{e}` although {} crates are reachable from the selection {:?}", spec.included.len(), cfg.include)) }
        }
        Ok(b) => {
            let x = graphs::with(md, spec, b)?;
            graphs::included(&x).and_then(|()| graphs::root_features(&x)).map_err(|e| format!("selection {:?}: {e}", cfg.include))?;
            Ok(!cfg.include.is_empty() || cfg.workspace)
        }
    }
}
