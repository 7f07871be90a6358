//! Storage backends for driving the library without files.

use pfp::error::Error;
use pfp::storage_io::StorageIO;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

#[derive(Default)]
pub struct Disk {
    /// Contents as of the last successful flush.
    pub data: HashMap<String, String>,
    /// Upcoming flushes, true means failure; empty means success.
    pub fail_next: bool,
    pub flushes: u64,
    pub failed: u64,
    /// Every value ever set, in order.
    pub log: Vec<(String, String)>,
}

#[derive(Clone, Default)]
pub struct Handle(pub Arc<Mutex<Disk>>);

impl Handle {
    pub fn with(data: HashMap<String, String>) -> Self {
        let h = Self::default();
        h.0.lock().unwrap().data = data;
        h
    }
    pub fn data(&self) -> HashMap<String, String> {
        self.0.lock().unwrap().data.clone()
    }
    pub fn fail_next(&self, fail: bool) {
        self.0.lock().unwrap().fail_next = fail;
    }
    pub fn flushes(&self) -> u64 {
        self.0.lock().unwrap().flushes
    }
    pub fn io(&self) -> MemIO {
        MemIO {
            data: self.data(),
            disk: self.clone(),
        }
    }
}

pub struct MemIO {
    data: HashMap<String, String>,
    disk: Handle,
}

impl StorageIO for MemIO {
    fn contains_key(&self, key: &str) -> bool {
        self.data.contains_key(key)
    }
    fn get(&self, key: &str) -> Result<&String, Error> {
        self.data.get(key).ok_or(Error::KeyMissing)
    }
    fn set(&mut self, key: String, value: String) {
        self.disk
            .0
            .lock()
            .unwrap()
            .log
            .push((key.clone(), value.clone()));
        self.data.insert(key, value);
    }
    fn remove(&mut self, key: &str) -> Result<(), Error> {
        self.data.remove(key).map(|_| ()).ok_or(Error::KeyMissing)
    }
    fn clear(&mut self) {
        self.data.clear();
    }
    fn keys(&self) -> Box<dyn Iterator<Item = &String> + '_> {
        Box::new(self.data.keys())
    }
    fn flush(&mut self) -> Result<(), Error> {
        let mut disk = self.disk.0.lock().unwrap();
        if disk.fail_next {
            disk.failed += 1;
            return Err(Error::FileWriteFailure {
                error: std::io::Error::new(std::io::ErrorKind::Other, "injected"),
            });
        }
        disk.flushes += 1;
        disk.data = self.data.clone();
        Ok(())
    }
}
