//! Stand-in for the `directories` crate (not available offline): the local data directory is $MODMAN_DATA of the scratch folder.
use std::path::{Path, PathBuf};
pub struct BaseDirs(PathBuf);
impl BaseDirs {
    pub fn new() -> Option<BaseDirs> {
        std::env::var_os("MODMAN_DATA").map(|p| BaseDirs(PathBuf::from(p)))
    }
    pub fn data_local_dir(&self) -> &Path {
        &self.0
    }
    pub fn data_dir(&self) -> &Path {
        &self.0
    }
    pub fn home_dir(&self) -> &Path {
        &self.0
    }
}
