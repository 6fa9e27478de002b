//! Differential oracle: the system's ssh-keygen, run on files in a private
//! scratch directory that is removed afterwards.

use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

static N: AtomicU64 = AtomicU64::new(0);

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let d = std::env::temp_dir().join(format!("vharness-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).unwrap();
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o700)).unwrap();
        Scratch(d)
    }
    pub fn file(&self, name: &str, data: &[u8]) -> String {
        let p = self.0.join(name);
        let mut o = std::fs::OpenOptions::new();
        o.write(true).create(true).truncate(true);
        std::os::unix::fs::OpenOptionsExt::mode(&mut o, 0o600);
        o.open(&p).unwrap().write_all(data).unwrap();
        p.to_str().unwrap().to_string()
    }
    pub fn path(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn available() -> bool {
    static A: OnceLock<bool> = OnceLock::new();
    *A.get_or_init(|| Command::new("ssh-keygen").arg("-?").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status().is_ok())
}

pub struct Out {
    pub ok: bool,
    pub stdout: String,
    pub stderr: String,
}
pub fn run(args: &[&str], stdin: Option<&[u8]>, env: &[(&str, &str)]) -> Out {
    let mut c = Command::new("ssh-keygen");
    c.args(args).env("LC_ALL", "C.UTF-8").env("TZ", "UTC").stdout(Stdio::piped()).stderr(Stdio::piped());
    for (k, v) in env {
        c.env(k, v);
    }
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut ch = c.spawn().expect("ssh-keygen");
    if let Some(d) = stdin {
        let mut i = ch.stdin.take().unwrap();
        let _ = i.write_all(d);
    }
    let o = ch.wait_with_output().expect("ssh-keygen");
    Out {
        ok: o.status.success(),
        stdout: String::from_utf8_lossy(&o.stdout).into_owned(),
        stderr: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}
