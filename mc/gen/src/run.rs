//! Runs the generator on one set of files, as an unprivileged user in a folder of its own.
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::{chown, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

const NOBODY: u32 = 65534;
static NEXT: AtomicU64 = AtomicU64::new(0);

pub struct Place {
    root: PathBuf,
}

/// What a run left behind.
pub struct Left {
    pub ok: bool,
    pub said: String,
    /// Path below the folder, contents.
    pub files: BTreeMap<String, String>,
}

impl Place {
    pub fn new() -> Place {
        let base = if fs::metadata("/dev/shm").map_or(false, |m| m.is_dir()) { "/dev/shm" } else { "/tmp" };
        // Left over by a check that was killed.
        for e in fs::read_dir(base).into_iter().flatten().flatten() {
            if let Some(pid) = e.file_name().to_str().and_then(|n| n.strip_prefix("mc-gen-")) {
                if pid.parse::<u32>().is_ok() && !Path::new("/proc").join(pid).exists() {
                    let _ = fs::remove_dir_all(e.path());
                }
            }
        }
        let root = PathBuf::from(format!("{base}/mc-gen-{}", std::process::id()));
        fs::create_dir(&root).unwrap();
        if ROOT.set(root.clone()).is_ok() {
            unsafe { atexit(clean) };
        }
        fs::set_permissions(&root, fs::Permissions::from_mode(0o755)).unwrap();
        let exe = std::env::current_exe().unwrap().with_file_name("mc-unicgen");
        fs::copy(&exe, root.join("unicgen")).unwrap_or_else(|e| panic!("{}: {e}", exe.display()));
        fs::set_permissions(root.join("unicgen"), fs::Permissions::from_mode(0o755)).unwrap();
        Place { root }
    }

    pub fn run(&self, files: &[(String, String)], args: &[&str]) -> Left {
        self.run_with(files, args, None, None)
    }

    /// With no file allowed to grow beyond `limit` bytes, and the folder `locked` as it is.
    pub fn run_with(&self, files: &[(String, String)], args: &[&str], limit: Option<u64>, locked: Option<&str>) -> Left {
        let dir = self.root.join(format!("c{}", NEXT.fetch_add(1, Relaxed)));
        fs::create_dir(&dir).unwrap();
        let mut made = std::collections::HashSet::new();
        for (p, s) in files {
            let p = dir.join(p);
            let mut up = p.parent().unwrap().to_path_buf();
            let mut todo = vec![];
            while up != dir && !made.contains(&up) {
                todo.push(up.clone());
                up = up.parent().unwrap().to_path_buf();
            }
            for d in todo.into_iter().rev() {
                fs::create_dir(&d).unwrap();
                chown(&d, Some(NOBODY), Some(NOBODY)).unwrap();
                made.insert(d);
            }
            fs::write(&p, s).unwrap();
            chown(&p, Some(NOBODY), Some(NOBODY)).unwrap();
        }
        chown(&dir, Some(NOBODY), Some(NOBODY)).unwrap();
        if let Some(d) = locked {
            chown(dir.join(d), Some(0), Some(0)).unwrap();
        }
        let mut command = Command::new(self.root.join("unicgen"));
        if let Some(n) = limit {
            // Writing more is an error then, not a signal.
            unsafe {
                command.pre_exec(move || {
                    signal(SIGXFSZ, 1);
                    match setrlimit(RLIMIT_FSIZE, &[n, n]) {
                        0 => Ok(()),
                        _ => Err(std::io::Error::last_os_error()),
                    }
                });
            }
        }
        let out = command
            .args(args)
            .current_dir(&dir)
            .env_clear()
            .uid(NOBODY)
            .gid(NOBODY)
            .stdin(Stdio::null())
            .output()
            .unwrap();
        let mut left = BTreeMap::new();
        collect(&dir, "", &mut left);
        fs::remove_dir_all(&dir).unwrap();
        Left { ok: out.status.success(), said: String::from_utf8_lossy(&out.stderr).trim().to_string(), files: left }
    }
}

fn collect(dir: &Path, at: &str, out: &mut BTreeMap<String, String>) {
    for e in fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let n = format!("{at}{}", e.file_name().to_string_lossy());
        if e.file_type().unwrap().is_dir() {
            if at.is_empty() && n == "external" {
                continue;
            }
            collect(&e.path(), &format!("{n}/"), out);
        } else {
            out.insert(n, String::from_utf8_lossy(&fs::read(e.path()).unwrap()).into_owned());
        }
    }
}

static ROOT: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
const SIGXFSZ: i32 = 25;
const RLIMIT_FSIZE: i32 = 1;
extern "C" {
    fn atexit(f: extern "C" fn()) -> i32;
    fn signal(n: i32, f: usize) -> usize;
    fn setrlimit(which: i32, to: &[u64; 2]) -> i32;
}
extern "C" fn clean() {
    if let Some(r) = ROOT.get() {
        let _ = fs::remove_dir_all(r);
    }
}
