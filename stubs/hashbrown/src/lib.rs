//! Association-list model of the part of the hashbrown 0.13 API a map user reaches for.
//! Iteration order is insertion order (hashbrown's is unspecified).
#![no_std]
extern crate alloc;
use alloc::vec::Vec;
use core::borrow::Borrow;
use core::fmt;
use core::hash::{BuildHasher, Hash, Hasher};
use core::marker::PhantomData;

#[derive(Clone, Default)]
pub struct DefaultHashBuilder;
#[derive(Clone, Default)]
pub struct NoHasher;
impl Hasher for NoHasher {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, _: &[u8]) {}
}
impl BuildHasher for DefaultHashBuilder {
    type Hasher = NoHasher;
    fn build_hasher(&self) -> NoHasher {
        NoHasher
    }
}

pub mod hash_map {
    pub use crate::*;
}
pub mod hash_set {
    pub use crate::HashSet;
}

#[derive(Clone)]
pub struct HashMap<K, V, S = DefaultHashBuilder> {
    /// `None` marks a removed entry.
    e: Vec<Option<(K, V)>>,
    live: usize,
    s: PhantomData<S>,
}

impl<K, V, S> Default for HashMap<K, V, S> {
    fn default() -> Self {
        Self { e: Vec::new(), live: 0, s: PhantomData }
    }
}

impl<K, V> HashMap<K, V, DefaultHashBuilder> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
}

impl<K, V, S> HashMap<K, V, S> {
    pub fn with_hasher(_: S) -> Self {
        Self::default()
    }
    pub fn with_capacity_and_hasher(_: usize, _: S) -> Self {
        Self::default()
    }
    pub fn capacity(&self) -> usize {
        self.e.capacity()
    }
    pub fn len(&self) -> usize {
        self.live
    }
    pub fn is_empty(&self) -> bool {
        self.live == 0
    }
    pub fn clear(&mut self) {
        self.e.clear();
        self.live = 0;
    }
    pub fn iter(&self) -> Iter<'_, K, V> {
        Iter { i: self.e.iter() }
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
        IterMut { i: self.e.iter_mut() }
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> {
        self.iter().map(|(k, _)| k)
    }
    pub fn values(&self) -> impl Iterator<Item = &V> {
        self.iter().map(|(_, v)| v)
    }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> {
        self.iter_mut().map(|(_, v)| v)
    }
    pub fn into_keys(self) -> impl Iterator<Item = K> {
        self.e.into_iter().flatten().map(|(k, _)| k)
    }
    pub fn into_values(self) -> impl Iterator<Item = V> {
        self.e.into_iter().flatten().map(|(_, v)| v)
    }
    pub fn drain(&mut self) -> impl Iterator<Item = (K, V)> + '_ {
        self.live = 0;
        self.e.drain(..).flatten()
    }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        for s in self.e.iter_mut() {
            let keep = match s {
                Some((k, v)) => f(k, v),
                None => continue,
            };
            if !keep {
                *s = None;
                self.live -= 1;
            }
        }
    }
    pub fn shrink_to_fit(&mut self) {}
}

impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
    fn find<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> usize
    where
        K: Borrow<Q>,
    {
        let n = self.e.len();
        let mut i = 0;
        while i < n {
            if let Some(e) = &self.e[i] {
                if e.0.borrow() == k {
                    return i;
                }
            }
            i += 1;
        }
        n
    }
    pub fn reserve(&mut self, _: usize) {}
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        let i = self.find(k);
        self.e.get(i).and_then(|e| e.as_ref()).map(|e| &e.1)
    }
    pub fn get_key_value<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
    {
        let i = self.find(k);
        self.e.get(i).and_then(|e| e.as_ref()).map(|e| (&e.0, &e.1))
    }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        let i = self.find(k);
        self.e.get_mut(i).and_then(|e| e.as_mut()).map(|e| &mut e.1)
    }
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.find(k) < self.e.len()
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let i = self.find(&k);
        if i < self.e.len() {
            self.e[i].as_mut().map(|e| core::mem::replace(&mut e.1, v))
        } else {
            self.e.push(Some((k, v)));
            self.live += 1;
            None
        }
    }
    pub fn insert_unique_unchecked(&mut self, k: K, v: V) -> (&K, &mut V) {
        self.e.push(Some((k, v)));
        self.live += 1;
        let l = self.e.last_mut().unwrap().as_mut().unwrap();
        (&l.0, &mut l.1)
    }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.remove_entry(k).map(|e| e.1)
    }
    pub fn remove_entry<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        let i = self.find(k);
        if i < self.e.len() {
            self.live -= 1;
            self.e[i].take()
        } else {
            None
        }
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        let i = self.find(&k);
        if i < self.e.len() {
            Entry::Occupied(OccupiedEntry { m: &mut self.e, live: &mut self.live, i })
        } else {
            Entry::Vacant(VacantEntry { m: &mut self.e, live: &mut self.live, k })
        }
    }
}

pub enum Entry<'a, K, V> {
    Occupied(OccupiedEntry<'a, K, V>),
    Vacant(VacantEntry<'a, K, V>),
}
pub struct OccupiedEntry<'a, K, V> {
    m: &'a mut Vec<Option<(K, V)>>,
    live: &'a mut usize,
    i: usize,
}
pub struct VacantEntry<'a, K, V> {
    m: &'a mut Vec<Option<(K, V)>>,
    live: &'a mut usize,
    k: K,
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        &self.m[self.i].as_ref().unwrap().0
    }
    pub fn get(&self) -> &V {
        &self.m[self.i].as_ref().unwrap().1
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut self.m[self.i].as_mut().unwrap().1
    }
    pub fn into_mut(self) -> &'a mut V {
        &mut self.m[self.i].as_mut().unwrap().1
    }
    pub fn insert(&mut self, v: V) -> V {
        core::mem::replace(&mut self.m[self.i].as_mut().unwrap().1, v)
    }
    pub fn remove(self) -> V {
        self.remove_entry().1
    }
    pub fn remove_entry(self) -> (K, V) {
        *self.live -= 1;
        self.m[self.i].take().unwrap()
    }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        &self.k
    }
    pub fn into_key(self) -> K {
        self.k
    }
    pub fn insert(self, v: V) -> &'a mut V {
        self.m.push(Some((self.k, v)));
        *self.live += 1;
        &mut self.m.last_mut().unwrap().as_mut().unwrap().1
    }
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, v: V) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(e) => e.insert(v),
        }
    }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(e) => e.insert(f()),
        }
    }
    pub fn or_default(self) -> &'a mut V
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
        if let Entry::Occupied(ref mut o) = self {
            f(o.get_mut())
        }
        self
    }
    pub fn key(&self) -> &K {
        match self {
            Entry::Occupied(o) => o.key(),
            Entry::Vacant(e) => e.key(),
        }
    }
}

pub struct Iter<'a, K, V> {
    i: core::slice::Iter<'a, Option<(K, V)>>,
}
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            if let Some((k, v)) = self.i.next()? {
                return Some((k, v));
            }
        }
    }
}
impl<K, V> Clone for Iter<'_, K, V> {
    fn clone(&self) -> Self {
        Iter { i: self.i.clone() }
    }
}
pub struct IterMut<'a, K, V> {
    i: core::slice::IterMut<'a, Option<(K, V)>>,
}
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    fn next(&mut self) -> Option<Self::Item> {
        loop {
            if let Some((k, v)) = self.i.next()? {
                return Some((&*k, v));
            }
        }
    }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Iter<'a, K, V> {
        self.iter()
    }
}
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = core::iter::Flatten<alloc::vec::IntoIter<Option<(K, V)>>>;
    fn into_iter(self) -> Self::IntoIter {
        self.e.into_iter().flatten()
    }
}
impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, t: T) {
        for (k, v) in t {
            self.insert(k, v);
        }
    }
}
impl<K: Eq + Hash, V, S> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<T: IntoIterator<Item = (K, V)>>(t: T) -> Self {
        let mut m = Self::default();
        m.extend(t);
        m
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, DefaultHashBuilder> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Eq + Hash, Q: ?Sized + Hash + Eq, V, S> core::ops::Index<&Q> for HashMap<K, V, S>
where
    K: Borrow<Q>,
{
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        self.get(k).expect("no entry found for key")
    }
}
impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).map_or(false, |w| v == w))
    }
}
impl<K: Eq + Hash, V: Eq, S> Eq for HashMap<K, V, S> {}
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.iter()).finish()
    }
}

#[derive(Clone)]
pub struct HashSet<K, S = DefaultHashBuilder> {
    m: HashMap<K, (), S>,
}
impl<K, S> Default for HashSet<K, S> {
    fn default() -> Self {
        Self { m: HashMap::default() }
    }
}
impl<K> HashSet<K> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
}
impl<K: Eq + Hash, S> HashSet<K, S> {
    pub fn insert(&mut self, k: K) -> bool {
        if self.m.contains_key(&k) {
            false
        } else {
            self.m.e.push(Some((k, ())));
            self.m.live += 1;
            true
        }
    }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.m.contains_key(k)
    }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.m.remove(k).is_some()
    }
    pub fn len(&self) -> usize {
        self.m.len()
    }
    pub fn is_empty(&self) -> bool {
        self.m.is_empty()
    }
    pub fn clear(&mut self) {
        self.m.clear()
    }
    pub fn iter(&self) -> impl Iterator<Item = &K> {
        self.m.keys()
    }
}
impl<K: Eq + Hash, S> FromIterator<K> for HashSet<K, S> {
    fn from_iter<T: IntoIterator<Item = K>>(t: T) -> Self {
        let mut s = Self::default();
        for k in t {
            s.insert(k);
        }
        s
    }
}
impl<K: Eq + Hash, S> Extend<K> for HashSet<K, S> {
    fn extend<T: IntoIterator<Item = K>>(&mut self, t: T) {
        for k in t {
            self.insert(k);
        }
    }
}
