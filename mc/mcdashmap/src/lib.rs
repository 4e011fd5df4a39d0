//! DashMap with the same blocking behaviour as the real one under the worst
//! sharding (all keys in one shard), scheduling points on every access, and a
//! reproducible iteration order.
use mcrt::sync::RawRw;
use std::borrow::Borrow;
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::fmt;
use std::hash::Hash;
use std::ops::{Deref, DerefMut};

pub struct DashMap<K, V> { raw: RawRw, map: UnsafeCell<HashMap<K, Box<(K, V)>>> }
unsafe impl<K: Send, V: Send> Send for DashMap<K, V> {}
unsafe impl<K: Send + Sync, V: Send + Sync> Sync for DashMap<K, V> {}
impl<K: Eq + Hash + Clone, V> Default for DashMap<K, V> { fn default() -> Self { Self::new() } }
impl<K, V> fmt::Debug for DashMap<K, V> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("DashMap{..}") } }

struct RG<'a>(&'a RawRw);
impl Drop for RG<'_> { fn drop(&mut self) { self.0.unlock_read() } }
struct WG<'a>(&'a RawRw);
impl Drop for WG<'_> { fn drop(&mut self) { self.0.unlock_write() } }

impl<K: Eq + Hash + Clone, V> DashMap<K, V> {
    pub fn new() -> Self { DashMap { raw: RawRw::new(), map: UnsafeCell::new(HashMap::new()) } }
    pub fn with_capacity(_n: usize) -> Self { Self::new() }
    #[allow(clippy::mut_from_ref)]
    fn m(&self) -> &mut HashMap<K, Box<(K, V)>> { unsafe { &mut *self.map.get() } }
    fn rd(&self, k: &'static str) -> RG<'_> { self.raw.read(k); RG(&self.raw) }
    fn wr(&self, k: &'static str) -> WG<'_> { self.raw.write(k); WG(&self.raw) }
    pub fn insert(&self, k: K, v: V) -> Option<V> {
        let _g = self.wr("dm.insert");
        match self.m().get_mut(&k) {
            Some(e) => Some(std::mem::replace(&mut e.1, v)),
            None => { self.m().insert(k.clone(), Box::new((k, v))); None }
        }
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<mapref::one::Ref<'_, K, V>> where K: Borrow<Q> {
        let g = self.rd("dm.get");
        let e = self.m().get(k)?;
        let p: *const (K, V) = &**e;
        Some(mapref::one::Ref { _g: g, e: p })
    }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<mapref::one::RefMut<'_, K, V>> where K: Borrow<Q> {
        let g = self.wr("dm.get_mut");
        let e = self.m().get_mut(k)?;
        let p: *mut (K, V) = &mut **e;
        Some(mapref::one::RefMut { _g: g, e: p })
    }
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { let _g = self.rd("dm.contains"); self.m().contains_key(k) }
    pub fn remove<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { let _g = self.wr("dm.remove"); self.m().remove(k).map(|b| *b) }
    pub fn remove_if<Q: ?Sized + Hash + Eq>(&self, k: &Q, f: impl FnOnce(&K, &V) -> bool) -> Option<(K, V)> where K: Borrow<Q> {
        let _g = self.wr("dm.remove_if");
        let hit = match self.m().get(k) { Some(e) => f(&e.0, &e.1), None => false };
        if hit { self.m().remove(k).map(|b| *b) } else { None }
    }
    pub fn remove_if_mut<Q: ?Sized + Hash + Eq>(&self, k: &Q, f: impl FnOnce(&K, &mut V) -> bool) -> Option<(K, V)> where K: Borrow<Q> {
        let _g = self.wr("dm.remove_if");
        let hit = match self.m().get_mut(k) { Some(e) => { let e = &mut **e; f(&e.0, &mut e.1) }, None => false };
        if hit { self.m().remove(k).map(|b| *b) } else { None }
    }
    pub fn alter<Q: ?Sized + Hash + Eq>(&self, k: &Q, f: impl FnOnce(&K, V) -> V) where K: Borrow<Q> {
        let _g = self.wr("dm.alter");
        if let Some(b) = self.m().remove(k) { let (kk, v) = *b; let nv = f(&kk, v); self.m().insert(kk.clone(), Box::new((kk, nv))); }
    }
    pub fn retain(&self, mut f: impl FnMut(&K, &mut V) -> bool) {
        let _g = self.wr("dm.retain");
        self.m().retain(|_, e| { let e = &mut **e; f(&e.0, &mut e.1) });
    }
    pub fn clear(&self) { let _g = self.wr("dm.clear"); self.m().clear(); }
    pub fn len(&self) -> usize { let _g = self.rd("dm.len"); self.m().len() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn iter(&self) -> iter::Iter<'_, K, V> {
        let keys: Vec<K> = { let _g = self.rd("dm.iter"); self.m().keys().cloned().collect() };
        iter::Iter { m: self, keys: keys.into_iter() }
    }
    pub fn iter_mut(&self) -> iter::IterMut<'_, K, V> {
        let keys: Vec<K> = { let _g = self.rd("dm.iter"); self.m().keys().cloned().collect() };
        iter::IterMut { m: self, keys: keys.into_iter() }
    }
    pub fn entry(&self, k: K) -> mapref::entry::Entry<'_, K, V> {
        let g = self.wr("dm.entry");
        if self.m().contains_key(&k) { mapref::entry::Entry::Occupied(mapref::entry::OccupiedEntry { m: self, g, k }) }
        else { mapref::entry::Entry::Vacant(mapref::entry::VacantEntry { m: self, g, k }) }
    }
    pub fn view<Q: ?Sized + Hash + Eq, R>(&self, k: &Q, f: impl FnOnce(&K, &V) -> R) -> Option<R> where K: Borrow<Q> { self.get(k).map(|r| f(r.key(), r.value())) }
}
impl<'a, K: Eq + Hash + Clone, V> IntoIterator for &'a DashMap<K, V> {
    type Item = mapref::multiple::RefMulti<'a, K, V>;
    type IntoIter = iter::Iter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter { self.iter() }
}
impl<K: Eq + Hash + Clone, V> FromIterator<(K, V)> for DashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { let m = Self::new(); for (k, v) in i { m.insert(k, v); } m }
}

pub mod iter {
    use super::*;
    pub struct Iter<'a, K, V> { pub(crate) m: &'a DashMap<K, V>, pub(crate) keys: std::vec::IntoIter<K> }
    impl<'a, K: Eq + Hash + Clone, V> Iterator for Iter<'a, K, V> {
        type Item = mapref::multiple::RefMulti<'a, K, V>;
        fn next(&mut self) -> Option<Self::Item> {
            for k in self.keys.by_ref() { if let Some(r) = self.m.get(&k) { return Some(r); } }
            None
        }
    }
    pub struct IterMut<'a, K, V> { pub(crate) m: &'a DashMap<K, V>, pub(crate) keys: std::vec::IntoIter<K> }
    impl<'a, K: Eq + Hash + Clone, V> Iterator for IterMut<'a, K, V> {
        type Item = mapref::multiple::RefMutMulti<'a, K, V>;
        fn next(&mut self) -> Option<Self::Item> {
            for k in self.keys.by_ref() { if let Some(r) = self.m.get_mut(&k) { return Some(r); } }
            None
        }
    }
}

pub mod mapref {
    pub mod multiple {
        pub use super::one::Ref as RefMulti;
        pub use super::one::RefMut as RefMutMulti;
    }
    pub mod one {
        use super::super::*;
        pub struct Ref<'a, K, V> { pub(crate) _g: RG<'a>, pub(crate) e: *const (K, V) }
        unsafe impl<K: Sync, V: Sync> Send for Ref<'_, K, V> {}
        unsafe impl<K: Sync, V: Sync> Sync for Ref<'_, K, V> {}
        impl<'a, K, V> Ref<'a, K, V> {
            pub fn key(&self) -> &K { unsafe { &(*self.e).0 } }
            pub fn value(&self) -> &V { unsafe { &(*self.e).1 } }
            pub fn pair(&self) -> (&K, &V) { (self.key(), self.value()) }
        }
        impl<K, V> Deref for Ref<'_, K, V> { type Target = V; fn deref(&self) -> &V { self.value() } }
        pub struct RefMut<'a, K, V> { pub(crate) _g: WG<'a>, pub(crate) e: *mut (K, V) }
        unsafe impl<K: Sync, V: Sync> Send for RefMut<'_, K, V> {}
        unsafe impl<K: Sync, V: Sync> Sync for RefMut<'_, K, V> {}
        impl<'a, K, V> RefMut<'a, K, V> {
            pub fn key(&self) -> &K { unsafe { &(*self.e).0 } }
            pub fn value(&self) -> &V { unsafe { &(*self.e).1 } }
            pub fn value_mut(&mut self) -> &mut V { unsafe { &mut (*self.e).1 } }
            pub fn pair(&self) -> (&K, &V) { (self.key(), self.value()) }
            pub fn pair_mut(&mut self) -> (&K, &mut V) { unsafe { let e = &mut *self.e; (&e.0, &mut e.1) } }
            pub fn downgrade(self) -> Ref<'a, K, V> {
                let raw = self._g.0; let e = self.e; std::mem::forget(self._g); raw.downgrade(); Ref { _g: RG(raw), e }
            }
        }
        impl<K, V> Deref for RefMut<'_, K, V> { type Target = V; fn deref(&self) -> &V { self.value() } }
        impl<K, V> DerefMut for RefMut<'_, K, V> { fn deref_mut(&mut self) -> &mut V { self.value_mut() } }
    }
    pub mod entry {
        use super::super::*;
        use super::one::RefMut;
        pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
        pub struct OccupiedEntry<'a, K, V> { pub(crate) m: &'a DashMap<K, V>, pub(crate) g: WG<'a>, pub(crate) k: K }
        pub struct VacantEntry<'a, K, V> { pub(crate) m: &'a DashMap<K, V>, pub(crate) g: WG<'a>, pub(crate) k: K }
        unsafe impl<K: Sync, V: Sync> Send for OccupiedEntry<'_, K, V> {}
        unsafe impl<K: Sync, V: Sync> Send for VacantEntry<'_, K, V> {}
        impl<'a, K: Eq + Hash + Clone, V> OccupiedEntry<'a, K, V> {
            fn e(&self) -> *mut (K, V) { let e: *mut (K, V) = &mut **self.m.m().get_mut(&self.k).unwrap(); e }
            pub fn get(&self) -> &V { unsafe { &(*self.e()).1 } }
            pub fn get_mut(&mut self) -> &mut V { unsafe { &mut (*self.e()).1 } }
            pub fn key(&self) -> &K { &self.k }
            pub fn insert(&mut self, v: V) -> V { std::mem::replace(self.get_mut(), v) }
            pub fn remove(self) -> V { self.m.m().remove(&self.k).unwrap().1 }
            pub fn remove_entry(self) -> (K, V) { *self.m.m().remove(&self.k).unwrap() }
            pub fn into_ref(self) -> RefMut<'a, K, V> { let e = self.e(); RefMut { _g: self.g, e } }
            pub fn replace_entry(mut self, v: V) -> (K, V) { let o = self.insert(v); (self.k.clone(), o) }
        }
        impl<'a, K: Eq + Hash + Clone, V> VacantEntry<'a, K, V> {
            pub fn insert(self, v: V) -> RefMut<'a, K, V> {
                self.m.m().insert(self.k.clone(), Box::new((self.k.clone(), v)));
                let e: *mut (K, V) = &mut **self.m.m().get_mut(&self.k).unwrap();
                RefMut { _g: self.g, e }
            }
            pub fn key(&self) -> &K { &self.k }
            pub fn into_key(self) -> K { self.k }
        }
        impl<'a, K: Eq + Hash + Clone, V> Entry<'a, K, V> {
            pub fn or_insert_with(self, f: impl FnOnce() -> V) -> RefMut<'a, K, V> {
                match self { Entry::Occupied(o) => o.into_ref(), Entry::Vacant(v) => v.insert(f()) }
            }
            pub fn or_insert(self, v: V) -> RefMut<'a, K, V> { self.or_insert_with(|| v) }
            pub fn or_default(self) -> RefMut<'a, K, V> where V: Default { self.or_insert_with(V::default) }
            pub fn or_try_insert_with<E>(self, f: impl FnOnce() -> Result<V, E>) -> Result<RefMut<'a, K, V>, E> {
                match self { Entry::Occupied(o) => Ok(o.into_ref()), Entry::Vacant(v) => Ok(v.insert(f()?)) }
            }
            pub fn and_modify(mut self, f: impl FnOnce(&mut V)) -> Self { if let Entry::Occupied(o) = &mut self { f(o.get_mut()) } self }
            pub fn key(&self) -> &K { match self { Entry::Occupied(o) => o.key(), Entry::Vacant(v) => v.key() } }
            pub fn insert(self, v: V) -> RefMut<'a, K, V> { match self { Entry::Occupied(mut o) => { o.insert(v); o.into_ref() } Entry::Vacant(e) => e.insert(v) } }
        }
    }
}
pub use mapref::entry::{Entry, OccupiedEntry, VacantEntry};

pub struct DashSet<K> { m: DashMap<K, ()> }
impl<K: Eq + Hash + Clone> DashSet<K> {
    pub fn new() -> Self { DashSet { m: DashMap::new() } }
    pub fn insert(&self, k: K) -> bool { self.m.insert(k, ()).is_none() }
    pub fn remove<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<K> where K: Borrow<Q> { self.m.remove(k).map(|x| x.0) }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.m.contains_key(k) }
    pub fn len(&self) -> usize { self.m.len() }
    pub fn is_empty(&self) -> bool { self.m.is_empty() }
    pub fn clear(&self) { self.m.clear() }
}
impl<K: Eq + Hash + Clone> Default for DashSet<K> { fn default() -> Self { Self::new() } }
