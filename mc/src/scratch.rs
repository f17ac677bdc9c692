//! Scratch directories, which are removed at the end of every execution.
use std::sync::atomic::{AtomicU64, Ordering};

static NEXT: AtomicU64 = AtomicU64::new(0);

/// The directory which holds all scratch directories of the process with the given ID.
pub fn root(pid: u32) -> String {
    let base = if std::path::Path::new("/dev/shm").is_dir() {
        "/dev/shm"
    } else {
        "/tmp"
    };
    format!("{base}/fledger-mc-{pid}")
}

pub struct Scratch(pub String);

impl Scratch {
    pub fn new() -> Self {
        let d = format!(
            "{}/{}",
            root(std::process::id()),
            NEXT.fetch_add(1, Ordering::SeqCst)
        );
        std::fs::create_dir_all(&d).expect("scratch directory");
        Self(d)
    }

    /// Replaces all files in the directory.
    pub fn fill(&self, files: &[(String, Vec<u8>)]) {
        for e in std::fs::read_dir(&self.0).expect("dir") {
            let e = e.expect("entry");
            std::fs::remove_file(e.path()).expect("remove");
        }
        for (n, c) in files {
            std::fs::write(format!("{}/{n}", self.0), c).expect("write");
        }
    }

    pub fn files(&self) -> Vec<(String, Vec<u8>)> {
        let mut v: Vec<_> = std::fs::read_dir(&self.0)
            .expect("dir")
            .map(|e| {
                let e = e.expect("entry");
                (
                    e.file_name().to_string_lossy().to_string(),
                    std::fs::read(e.path()).expect("read"),
                )
            })
            .collect();
        v.sort();
        v
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
