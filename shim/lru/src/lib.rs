//! The `lru` 0.7 interface (a bounded map evicting the least recently used entry), without unsafe code.
use std::borrow::Borrow;
use std::collections::{hash_map::RandomState, HashMap};
use std::hash::{BuildHasher, Hash, Hasher};
struct Entry<K, V> { k: K, v: V, tick: u64 }
pub struct LruCache<K, V, S = RandomState> { buckets: HashMap<u64, Vec<Entry<K, V>>>, len: usize, cap: usize, tick: u64, s: S }
impl<K: Hash + Eq, V> LruCache<K, V> {
    pub fn new(cap: usize) -> Self { LruCache { buckets: HashMap::new(), len: 0, cap, tick: 0, s: RandomState::new() } }
    pub fn unbounded() -> Self { Self::new(usize::MAX) }
}
impl<K: Hash + Eq, V, S: BuildHasher> LruCache<K, V, S> {
    pub fn with_hasher(cap: usize, s: S) -> Self { LruCache { buckets: HashMap::new(), len: 0, cap, tick: 0, s } }
    fn h<Q: ?Sized + Hash>(&self, k: &Q) -> u64 { let mut h = self.s.build_hasher(); k.hash(&mut h); h.finish() }
    fn find<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut Entry<K, V>> where K: Borrow<Q> {
        let h = self.h(k);
        self.buckets.get_mut(&h)?.iter_mut().find(|e| e.k.borrow() == k)
    }
    pub fn put(&mut self, k: K, v: V) -> Option<V> {
        self.tick += 1;
        let t = self.tick;
        if let Some(e) = self.find(&k) {
            e.tick = t;
            return Some(std::mem::replace(&mut e.v, v));
        }
        if self.cap == 0 { return Some(v); }
        if self.len >= self.cap { self.pop_lru(); }
        let h = self.h(&k);
        self.buckets.entry(h).or_default().push(Entry { k, v, tick: t });
        self.len += 1;
        None
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&V> where K: Borrow<Q> { self.get_mut(k).map(|v| &*v) }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
        self.tick += 1;
        let t = self.tick;
        self.find(k).map(|e| { e.tick = t; &mut e.v })
    }
    pub fn peek<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
        self.buckets.get(&self.h(k))?.iter().find(|e| e.k.borrow() == k).map(|e| &e.v)
    }
    pub fn peek_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { self.find(k).map(|e| &mut e.v) }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.peek(k).is_some() }
    fn remove(&mut self, h: u64, i: usize) -> (K, V) {
        let b = self.buckets.get_mut(&h).unwrap();
        let e = b.swap_remove(i);
        if b.is_empty() { self.buckets.remove(&h); }
        self.len -= 1;
        (e.k, e.v)
    }
    pub fn pop<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.pop_entry(k).map(|e| e.1) }
    pub fn pop_entry<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> {
        let h = self.h(k);
        let i = self.buckets.get(&h)?.iter().position(|e| e.k.borrow() == k)?;
        Some(self.remove(h, i))
    }
    pub fn pop_lru(&mut self) -> Option<(K, V)> {
        let (h, i, _) = self.buckets.iter().flat_map(|(h, b)| b.iter().enumerate().map(move |(i, e)| (*h, i, e.tick))).min_by_key(|x| x.2)?;
        Some(self.remove(h, i))
    }
    pub fn len(&self) -> usize { self.len }
    pub fn is_empty(&self) -> bool { self.len == 0 }
    pub fn cap(&self) -> usize { self.cap }
    pub fn resize(&mut self, cap: usize) { while self.len > cap { self.pop_lru(); } self.cap = cap; }
    pub fn clear(&mut self) { self.buckets.clear(); self.len = 0; }
    /// most recently used first
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        let mut v: Vec<&Entry<K, V>> = self.buckets.values().flatten().collect();
        v.sort_by_key(|e| std::cmp::Reverse(e.tick));
        v.into_iter().map(|e| (&e.k, &e.v))
    }
}
impl<K, V, S> std::fmt::Debug for LruCache<K, V, S> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "LruCache {{ len: {}, cap: {} }}", self.len, self.cap) } }
