//! Stand-in for the two operations sip-transport uses.
use std::sync::{Arc, Mutex};

#[derive(Debug)]
pub struct ArcSwap<T>(Mutex<Arc<T>>);

impl<T> From<Arc<T>> for ArcSwap<T> {
    fn from(v: Arc<T>) -> Self {
        ArcSwap(Mutex::new(v))
    }
}

impl<T> ArcSwap<T> {
    pub fn load_full(&self) -> Arc<T> {
        self.0.lock().unwrap().clone()
    }
    pub fn store(&self, v: Arc<T>) {
        *self.0.lock().unwrap() = v;
    }
}
