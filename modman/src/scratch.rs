//! A directory of its own that is removed at the end.
use std::path::PathBuf;
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let base = std::env::var("MODMAN_SCRATCH").map(PathBuf::from).unwrap_or(std::env::temp_dir());
        let p = base.join(format!("modman-{tag}-{}", std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
