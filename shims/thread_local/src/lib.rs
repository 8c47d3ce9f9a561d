//! Stand-in for thread_local::ThreadLocal: one value per OS thread, iteration in creation order,
//! and a scheduling point at each access.
use std::sync::Mutex;
use std::thread::ThreadId;

struct Slot<T>(ThreadId, *mut T);
unsafe impl<T: Send> Send for Slot<T> {}
impl<T> Drop for Slot<T> { fn drop(&mut self) { if !self.1.is_null() { unsafe { drop(Box::from_raw(self.1)); } } } }
impl<T> Slot<T> { fn take(mut self) -> T { let p = std::mem::replace(&mut self.1, std::ptr::null_mut()); unsafe { *Box::from_raw(p) } } }

pub struct ThreadLocal<T: Send> { v: Mutex<Vec<Slot<T>>> }

impl<T: Send> Default for ThreadLocal<T> { fn default() -> Self { Self::new() } }

impl<T: Send> ThreadLocal<T> {
    pub const fn new() -> Self { Self { v: Mutex::new(Vec::new()) } }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    pub fn get(&self) -> Option<&T> {
        rayon::mc::point("tls");
        rayon::mc::masked(|| {
            let id = std::thread::current().id();
            let v = self.v.lock().unwrap();
            // Safety: values never move or get removed while `self` is borrowed
            v.iter().find(|e| e.0 == id).map(|e| unsafe { &*e.1 })
        })
    }
    pub fn get_or<F: FnOnce() -> T>(&self, f: F) -> &T { match self.get_or_try(|| Ok::<T, std::convert::Infallible>(f())) { Ok(x) => x, Err(e) => match e {} } }
    pub fn get_or_default(&self) -> &T where T: Default { self.get_or(T::default) }
    pub fn get_or_try<F: FnOnce() -> Result<T, E>, E>(&self, f: F) -> Result<&T, E> {
        if let Some(x) = self.get() { return Ok(x); }
        let p = Box::into_raw(Box::new(f()?));
        rayon::mc::masked(|| self.v.lock().unwrap().push(Slot(std::thread::current().id(), p)));
        Ok(unsafe { &*p })
    }
    pub fn iter(&self) -> std::vec::IntoIter<&T> where T: Sync {
        self.v.lock().unwrap().iter().map(|e| unsafe { &*e.1 }).collect::<Vec<&T>>().into_iter()
    }
    pub fn iter_mut(&mut self) -> std::vec::IntoIter<&mut T> { self.v.get_mut().unwrap().iter_mut().map(|e| unsafe { &mut *e.1 }).collect::<Vec<_>>().into_iter() }
    pub fn clear(&mut self) { self.v.get_mut().unwrap().clear(); }
}
unsafe impl<T: Send> Sync for ThreadLocal<T> {}
impl<T: Send> IntoIterator for ThreadLocal<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter { self.v.into_inner().unwrap().into_iter().map(|e| e.take()).collect::<Vec<_>>().into_iter() }
}
pub type CachedThreadLocal<T> = ThreadLocal<T>;
