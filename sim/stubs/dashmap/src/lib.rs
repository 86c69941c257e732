//! dashmap's interface over the simulator's read-write lock: a guard that is held
//! keeps its shard locked, as in dashmap.
use simrt::sync::{RwLock, RwLockReadGuard, RwLockWriteGuard};
use std::borrow::Borrow;
use std::collections::hash_map::RandomState;
use std::collections::HashMap;
use std::hash::{BuildHasher, Hash, Hasher};
use std::ops::{Deref, DerefMut};

const SHARDS: usize = 4;
type Shard<K, V, S> = HashMap<K, V, S>;

pub struct DashMap<K, V, S = RandomState> {
    shards: Vec<RwLock<Shard<K, V, S>>>,
}
fn idx<Q: Hash + ?Sized>(q: &Q) -> usize {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    q.hash(&mut h);
    (h.finish() as usize) % SHARDS
}
pub mod mapref {
    pub mod one {
        pub use crate::{Ref, RefMut};
    }
}
pub struct Ref<'a, K, V, S = RandomState> {
    _g: RwLockReadGuard<'a, Shard<K, V, S>>,
    k: *const K,
    v: *const V,
}
unsafe impl<K: Sync, V: Sync, S> Send for Ref<'_, K, V, S> {}
unsafe impl<K: Sync, V: Sync, S> Sync for Ref<'_, K, V, S> {}
impl<K, V, S> Ref<'_, K, V, S> {
    pub fn key(&self) -> &K {
        unsafe { &*self.k }
    }
    pub fn value(&self) -> &V {
        unsafe { &*self.v }
    }
    pub fn pair(&self) -> (&K, &V) {
        (self.key(), self.value())
    }
}
impl<K, V, S> Deref for Ref<'_, K, V, S> {
    type Target = V;
    fn deref(&self) -> &V {
        self.value()
    }
}
pub struct RefMut<'a, K, V, S = RandomState> {
    _g: RwLockWriteGuard<'a, Shard<K, V, S>>,
    k: *const K,
    v: *mut V,
}
unsafe impl<K: Sync, V: Send + Sync, S> Send for RefMut<'_, K, V, S> {}
impl<K, V, S> RefMut<'_, K, V, S> {
    pub fn key(&self) -> &K {
        unsafe { &*self.k }
    }
    pub fn value(&self) -> &V {
        unsafe { &*self.v }
    }
    pub fn value_mut(&mut self) -> &mut V {
        unsafe { &mut *self.v }
    }
}
impl<K, V, S> Deref for RefMut<'_, K, V, S> {
    type Target = V;
    fn deref(&self) -> &V {
        self.value()
    }
}
impl<K, V, S> DerefMut for RefMut<'_, K, V, S> {
    fn deref_mut(&mut self) -> &mut V {
        self.value_mut()
    }
}

impl<K: Eq + Hash, V> Default for DashMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Eq + Hash, V> DashMap<K, V> {
    pub fn new() -> Self {
        DashMap { shards: (0..SHARDS).map(|_| RwLock::new(HashMap::default())).collect() }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
}
impl<K: Eq + Hash, V, S: BuildHasher + Default + Clone> DashMap<K, V, S> {
    pub fn with_hasher(_: S) -> Self {
        DashMap { shards: (0..SHARDS).map(|_| RwLock::new(HashMap::default())).collect() }
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> DashMap<K, V, S> {
    pub fn get<Q: Hash + Eq + ?Sized>(&self, q: &Q) -> Option<Ref<'_, K, V, S>>
    where
        K: Borrow<Q>,
    {
        let g = self.shards[idx(q)].read().unwrap();
        let (k, v) = {
            let (k, v) = g.get_key_value(q)?;
            (k as *const K, v as *const V)
        };
        Some(Ref { _g: g, k, v })
    }
    pub fn get_mut<Q: Hash + Eq + ?Sized>(&self, q: &Q) -> Option<RefMut<'_, K, V, S>>
    where
        K: Borrow<Q>,
    {
        let mut g = self.shards[idx(q)].write().unwrap();
        let k = g.get_key_value(q)?.0 as *const K;
        let v = g.get_mut(q)? as *mut V;
        Some(RefMut { _g: g, k, v })
    }
    pub fn insert(&self, k: K, v: V) -> Option<V> {
        self.shards[idx(&k)].write().unwrap().insert(k, v)
    }
    pub fn remove<Q: Hash + Eq + ?Sized>(&self, q: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        self.shards[idx(q)].write().unwrap().remove_entry(q)
    }
    pub fn contains_key<Q: Hash + Eq + ?Sized>(&self, q: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.shards[idx(q)].read().unwrap().contains_key(q)
    }
    pub fn len(&self) -> usize {
        self.shards.iter().map(|s| s.read().unwrap().len()).sum()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn clear(&self) {
        for s in &self.shards {
            s.write().unwrap().clear()
        }
    }
    pub fn retain(&self, mut f: impl FnMut(&K, &mut V) -> bool) {
        for s in &self.shards {
            s.write().unwrap().retain(|k, v| f(k, v))
        }
    }
    pub fn entry(&self, k: K) -> Entry<'_, K, V, S> {
        Entry { m: self, k }
    }
}
pub struct Entry<'a, K, V, S = RandomState> {
    m: &'a DashMap<K, V, S>,
    k: K,
}
impl<'a, K: Eq + Hash + Clone, V, S: BuildHasher> Entry<'a, K, V, S> {
    pub fn or_insert_with(self, f: impl FnOnce() -> V) -> RefMut<'a, K, V, S> {
        let mut g = self.m.shards[idx(&self.k)].write().unwrap();
        if !g.contains_key(&self.k) {
            let v = f();
            g.insert(self.k.clone(), v);
        }
        let k = g.get_key_value(&self.k).unwrap().0 as *const K;
        let v = g.get_mut(&self.k).unwrap() as *mut V;
        RefMut { _g: g, k, v }
    }
    pub fn or_insert(self, v: V) -> RefMut<'a, K, V, S> {
        self.or_insert_with(|| v)
    }
    pub fn or_default(self) -> RefMut<'a, K, V, S>
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
}
