//! Storage used by the harnesses: a flat table with an operation counter and fault injection,
//! used through a copyable handle so that a harness can look at it while a tree owns it.
use super::vp;
use fuel_storage::{Mappable, StorageInspect, StorageMutate};
use std::borrow::Cow;
use std::marker::PhantomData;

pub trait Key: Clone {
    const N: usize;
    type Buf: AsRef<[u8]> + Clone;
    /// Key bytes followed by the presence byte.
    fn buf(&self, present: u8) -> Self::Buf;
    fn of(b: &Self::Buf) -> Self;
}
impl Key for u64 {
    const N: usize = 9;
    type Buf = [u8; 9];
    fn buf(&self, p: u8) -> [u8; 9] {
        let mut b = [p; 9];
        b[..8].copy_from_slice(&self.to_le_bytes());
        b
    }
    fn of(b: &[u8; 9]) -> u64 {
        let mut k = [0; 8];
        k.copy_from_slice(&b[..8]);
        u64::from_le_bytes(k)
    }
}
impl Key for [u8; 32] {
    const N: usize = 33;
    type Buf = [u8; 33];
    fn buf(&self, p: u8) -> [u8; 33] {
        let mut b = [p; 33];
        b[..32].copy_from_slice(self);
        b
    }
    fn of(b: &[u8; 33]) -> [u8; 32] {
        let mut k = [0; 32];
        k.copy_from_slice(&b[..32]);
        k
    }
}

#[repr(C)]
#[derive(Clone)]
pub struct Rec<K: Key, V> {
    /// Key bytes and presence byte.
    pub key: K::Buf,
    pub val: V,
}

pub struct Store<K: Key, V> {
    pub recs: Vec<Box<Rec<K, V>>>,
    /// Operations so far (reads and writes).
    pub ops: u64,
    /// The operation that fails, counted like `ops`.
    pub fail_at: u64,
    pub writes: u64,
    pub removes: u64,
    /// Set when an operation was made to fail.
    pub failed: bool,
    /// Removals are remembered, not applied (for checking that nothing is removed).
    pub overwrites: u64,
}

#[derive(Clone, PartialEq)]
pub struct Fault(pub u64);

/// The fault that was formatted last.
static mut FORMATTED: u64 = u64::MAX;
impl std::fmt::Debug for Fault {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        unsafe { FORMATTED = self.0 };
        Ok(())
    }
}
/// The fault somewhere inside an error, if there is one.
pub fn fault_in<E: std::fmt::Debug>(e: &E) -> Option<u64> {
    unsafe {
        FORMATTED = u64::MAX;
        vp::walk(e);
        if FORMATTED == u64::MAX {
            None
        } else {
            Some(FORMATTED)
        }
    }
}

impl<K: Key, V: Clone> Store<K, V> {
    pub fn new() -> Box<Self> {
        Box::new(Store {
            recs: Vec::with_capacity(8),
            ops: 0,
            fail_at: u64::MAX,
            writes: 0,
            removes: 0,
            failed: false,
            overwrites: 0,
        })
    }
    pub fn handle<T>(&mut self) -> Handle<T, K, V> {
        Handle(self, PhantomData)
    }
    pub fn index(&self, k: &K) -> i64 {
        let b = k.buf(1);
        unsafe {
            vp::find(self.recs.as_ptr() as *const *const u8, self.recs.len(), b.as_ref())
        }
    }
    pub fn get(&self, k: &K) -> Option<V> {
        let i = self.index(k);
        if i < 0 {
            None
        } else {
            Some(self.recs[i as usize].val.clone())
        }
    }
    pub fn put(&mut self, k: &K, v: V) -> Option<V> {
        let i = self.index(k);
        if i < 0 {
            self.recs.push(Box::new(Rec { key: k.buf(1), val: v }));
            None
        } else {
            self.overwrites += 1;
            Some(std::mem::replace(&mut self.recs[i as usize].val, v))
        }
    }
    pub fn del(&mut self, k: &K) -> Option<V> {
        let i = self.index(k);
        if i < 0 {
            None
        } else {
            let r = &mut self.recs[i as usize];
            r.key = k.buf(0);
            Some(r.val.clone())
        }
    }
    fn op(&mut self) -> Result<(), Fault> {
        let n = self.ops;
        self.ops += 1;
        if n == self.fail_at {
            vp::mark(u32::MAX, n);
            self.failed = true;
            return Err(Fault(n));
        }
        Ok(())
    }
    pub fn clone_box(&self) -> Box<Self> {
        Box::new(Store {
            recs: self.recs.clone(),
            ops: self.ops,
            fail_at: self.fail_at,
            writes: self.writes,
            removes: self.removes,
            failed: self.failed,
            overwrites: self.overwrites,
        })
    }
}

pub struct Handle<T, K: Key, V>(*mut Store<K, V>, PhantomData<T>);
impl<T, K: Key, V> Clone for Handle<T, K, V> {
    fn clone(&self) -> Self {
        Handle(self.0, PhantomData)
    }
}
impl<T, K: Key, V> Handle<T, K, V> {
    #[allow(clippy::mut_from_ref)]
    fn s(&self) -> &mut Store<K, V> {
        unsafe { &mut *self.0 }
    }
}

impl<T, K: Key, V: Clone> StorageInspect<T> for Handle<T, K, V>
where
    T: Mappable<Key = K, SetValue = V, GetValue = V>,
{
    type Error = Fault;
    fn get(&self, key: &K) -> Result<Option<Cow<'_, V>>, Fault> {
        self.s().op()?;
        Ok(self.s().get(key).map(Cow::Owned))
    }
    fn contains_key(&self, key: &K) -> Result<bool, Fault> {
        self.s().op()?;
        Ok(self.s().index(key) >= 0)
    }
}

impl<T, K: Key, V: Clone> StorageMutate<T> for Handle<T, K, V>
where
    T: Mappable<Key = K, SetValue = V, GetValue = V>,
{
    fn insert(&mut self, key: &K, value: &V) -> Result<Option<V>, Fault> {
        self.s().op()?;
        self.s().writes += 1;
        Ok(self.s().put(key, value.clone()))
    }
    fn remove(&mut self, key: &K) -> Result<Option<V>, Fault> {
        self.s().op()?;
        self.s().removes += 1;
        Ok(self.s().del(key))
    }
}
