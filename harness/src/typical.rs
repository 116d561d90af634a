// The compiler under test, as a black box.
use crate::util::{run_fast, Out};
use std::{
    path::{Path, PathBuf},
    process::Command,
};

#[derive(Clone)]
pub struct Typical {
    pub bin: PathBuf,
    pub repo: PathBuf,
}

impl Typical {
    // Build the compiler from the current working tree of /repo.
    pub fn build(root: &Path) -> Result<Typical, String> {
        let repo = PathBuf::from(std::env::var("VH_REPO").unwrap_or_else(|_| "/repo".into()));
        let target = match std::env::var("VH_REPO") {
            Ok(_) => root.join(".build").join(format!("typical-{:x}", crate::util::fnv(repo.to_string_lossy().as_bytes()))),
            Err(_) => root.join(".build").join("typical"),
        };
        let o = Command::new("cargo")
            .args(["build", "--locked", "--offline", "--target-dir"])
            .arg(&target)
            .env("RUSTUP_TOOLCHAIN", "1.85.0")
            .env("CARGO_PROFILE_DEV_OPT_LEVEL", "1") // overflow checks and debug assertions stay on
            .env_remove("RUSTFLAGS")
            .current_dir(&repo)
            .output()
            .map_err(|e| e.to_string())?;
        if !o.status.success() {
            return Err(String::from_utf8_lossy(&o.stderr).into_owned());
        }
        let bin = target.join("debug").join("typical");
        if !bin.exists() {
            return Err("no binary".into());
        }
        let t = Typical { bin, repo };
        crate::util::contain(|| {
            let d = crate::util::Scratch::new("probe");
            let o = t.cmd(&d.path).arg("--version").output();
            o.is_ok_and(|o| o.status.success())
        });
        Ok(t)
    }
    pub fn cmd(&self, cwd: &Path) -> Command {
        let mut c = Command::new(&self.bin);
        c.current_dir(cwd);
        c
    }
    pub fn run(&self, cwd: &Path, args: &[&str]) -> Out {
        run_fast(self.cmd(cwd).args(args))
    }
    pub fn generate(&self, cwd: &Path, schema: &str, rust: Option<&str>, ts: Option<&str>) -> Out {
        let mut a = vec!["generate", schema];
        if let Some(r) = rust {
            a.push("--rust");
            a.push(r);
        }
        if let Some(t) = ts {
            a.push("--typescript");
            a.push(t);
        }
        self.run(cwd, &a)
    }
    pub fn format(&self, cwd: &Path, schema: &str, check: bool) -> Out {
        if check {
            self.run(cwd, &["format", "--check", schema])
        } else {
            self.run(cwd, &["format", schema])
        }
    }
}

// A crash of the compiler: anything but exit 0 or 1.
pub fn crashed(o: &Out) -> bool {
    !matches!(o.code, Some(0 | 1))
}
