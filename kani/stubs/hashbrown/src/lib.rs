//! Verification stand-in for the dependency `hashbrown` (an ASSUMED CONTRACT,
//! listed in every evidence file): a finite map from keys to values, kept as an
//! association list with pairwise distinct keys. Iteration order is the
//! insertion order (with swap-removal) - clients of a hash map may not rely on
//! any order. Only used when the real crate is compiled for the verifier.
#![no_std]
extern crate alloc;

pub mod hash_map {
    use alloc::vec::Vec;
    use core::borrow::Borrow;

    #[derive(Clone, Debug)]
    pub struct HashMap<K, V> {
        items: Vec<(K, V)>,
    }

    impl<K, V> Default for HashMap<K, V> {
        fn default() -> Self {
            HashMap { items: Vec::new() }
        }
    }

    pub struct Keys<'a, K, V> {
        inner: core::slice::Iter<'a, (K, V)>,
    }
    impl<'a, K, V> Clone for Keys<'a, K, V> {
        fn clone(&self) -> Self {
            Keys { inner: self.inner.clone() }
        }
    }
    impl<'a, K, V> Iterator for Keys<'a, K, V> {
        type Item = &'a K;
        fn next(&mut self) -> Option<&'a K> {
            self.inner.next().map(|p| &p.0)
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.inner.size_hint()
        }
    }
    impl<'a, K, V> ExactSizeIterator for Keys<'a, K, V> {}

    pub struct Values<'a, K, V> {
        inner: core::slice::Iter<'a, (K, V)>,
    }
    impl<'a, K, V> Iterator for Values<'a, K, V> {
        type Item = &'a V;
        fn next(&mut self) -> Option<&'a V> {
            self.inner.next().map(|p| &p.1)
        }
    }
    pub struct ValuesMut<'a, K, V> {
        inner: core::slice::IterMut<'a, (K, V)>,
    }
    impl<'a, K, V> Iterator for ValuesMut<'a, K, V> {
        type Item = &'a mut V;
        fn next(&mut self) -> Option<&'a mut V> {
            self.inner.next().map(|p| &mut p.1)
        }
    }
    pub struct Iter<'a, K, V> {
        inner: core::slice::Iter<'a, (K, V)>,
    }
    impl<'a, K, V> Iterator for Iter<'a, K, V> {
        type Item = (&'a K, &'a V);
        fn next(&mut self) -> Option<(&'a K, &'a V)> {
            self.inner.next().map(|p| (&p.0, &p.1))
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            self.inner.size_hint()
        }
    }
    pub struct IterMut<'a, K, V> {
        inner: core::slice::IterMut<'a, (K, V)>,
    }
    impl<'a, K, V> Iterator for IterMut<'a, K, V> {
        type Item = (&'a K, &'a mut V);
        fn next(&mut self) -> Option<(&'a K, &'a mut V)> {
            self.inner.next().map(|p| (&p.0, &mut p.1))
        }
    }

    impl<K, V> HashMap<K, V> {
        pub fn new() -> Self {
            HashMap { items: Vec::new() }
        }
        pub fn with_capacity(_capacity: usize) -> Self {
            HashMap { items: Vec::new() }
        }
        pub fn len(&self) -> usize {
            self.items.len()
        }
        pub fn is_empty(&self) -> bool {
            self.items.is_empty()
        }
        pub fn capacity(&self) -> usize {
            self.items.capacity()
        }
        pub fn clear(&mut self) {
            self.items.clear();
        }
        pub fn reserve(&mut self, _additional: usize) {}
        pub fn keys(&self) -> Keys<'_, K, V> {
            Keys { inner: self.items.iter() }
        }
        pub fn values(&self) -> Values<'_, K, V> {
            Values { inner: self.items.iter() }
        }
        pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
            ValuesMut { inner: self.items.iter_mut() }
        }
        pub fn iter(&self) -> Iter<'_, K, V> {
            Iter { inner: self.items.iter() }
        }
        pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
            IterMut { inner: self.items.iter_mut() }
        }
        pub fn drain(&mut self) -> alloc::vec::Drain<'_, (K, V)> {
            self.items.drain(..)
        }
        pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
            self.items.retain_mut(|p| f(&p.0, &mut p.1));
        }
    }

    impl<K: Eq, V> HashMap<K, V> {
        #[inline]
        fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize>
        where
            K: Borrow<Q>,
        {
            let mut i = 0;
            while i < self.items.len() {
                if self.items[i].0.borrow() == k {
                    return Some(i);
                }
                i += 1;
            }
            None
        }
        pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V>
        where
            K: Borrow<Q>,
        {
            match self.find(k) {
                Some(i) => Some(&self.items[i].1),
                None => None,
            }
        }
        pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V>
        where
            K: Borrow<Q>,
        {
            match self.find(k) {
                Some(i) => Some(&mut self.items[i].1),
                None => None,
            }
        }
        pub fn get_key_value<Q: ?Sized + Eq>(&self, k: &Q) -> Option<(&K, &V)>
        where
            K: Borrow<Q>,
        {
            match self.find(k) {
                Some(i) => Some((&self.items[i].0, &self.items[i].1)),
                None => None,
            }
        }
        pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool
        where
            K: Borrow<Q>,
        {
            self.find(k).is_some()
        }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            match self.find(&k) {
                Some(i) => Some(core::mem::replace(&mut self.items[i].1, v)),
                None => {
                    self.items.push((k, v));
                    None
                }
            }
        }
        pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V>
        where
            K: Borrow<Q>,
        {
            match self.find(k) {
                Some(i) => Some(self.items.swap_remove(i).1),
                None => None,
            }
        }
        pub fn remove_entry<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<(K, V)>
        where
            K: Borrow<Q>,
        {
            match self.find(k) {
                Some(i) => Some(self.items.swap_remove(i)),
                None => None,
            }
        }
        pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
            match self.find(&key) {
                Some(i) => Entry::Occupied(OccupiedEntry { map: self, index: i }),
                None => Entry::Vacant(VacantEntry { map: self, key }),
            }
        }
    }

    pub struct OccupiedEntry<'a, K, V> {
        map: &'a mut HashMap<K, V>,
        index: usize,
    }
    impl<'a, K, V> OccupiedEntry<'a, K, V> {
        pub fn get(&self) -> &V {
            &self.map.items[self.index].1
        }
        pub fn get_mut(&mut self) -> &mut V {
            &mut self.map.items[self.index].1
        }
        pub fn into_mut(self) -> &'a mut V {
            &mut self.map.items[self.index].1
        }
        pub fn insert(&mut self, v: V) -> V {
            core::mem::replace(&mut self.map.items[self.index].1, v)
        }
        pub fn remove(self) -> V {
            self.map.items.swap_remove(self.index).1
        }
    }
    pub struct VacantEntry<'a, K, V> {
        map: &'a mut HashMap<K, V>,
        key: K,
    }
    impl<'a, K, V> VacantEntry<'a, K, V> {
        pub fn insert(self, v: V) -> &'a mut V {
            self.map.items.push((self.key, v));
            let i = self.map.items.len() - 1;
            &mut self.map.items[i].1
        }
    }
    pub enum Entry<'a, K, V> {
        Occupied(OccupiedEntry<'a, K, V>),
        Vacant(VacantEntry<'a, K, V>),
    }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn or_insert(self, v: V) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(v),
            }
        }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(e) => e.into_mut(),
                Entry::Vacant(e) => e.insert(f()),
            }
        }
        pub fn or_default(self) -> &'a mut V
        where
            V: Default,
        {
            self.or_insert_with(V::default)
        }
        pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
            match self {
                Entry::Occupied(mut e) => {
                    f(e.get_mut());
                    Entry::Occupied(e)
                }
                Entry::Vacant(e) => Entry::Vacant(e),
            }
        }
    }

    impl<K: Eq + Borrow<Q>, Q: ?Sized + Eq, V> core::ops::Index<&Q> for HashMap<K, V> {
        type Output = V;
        fn index(&self, k: &Q) -> &V {
            self.get(k).expect("no entry found for key")
        }
    }
    impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
        type Item = (&'a K, &'a V);
        type IntoIter = Iter<'a, K, V>;
        fn into_iter(self) -> Iter<'a, K, V> {
            self.iter()
        }
    }
    impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
        type Item = (&'a K, &'a mut V);
        type IntoIter = IterMut<'a, K, V>;
        fn into_iter(self) -> IterMut<'a, K, V> {
            self.iter_mut()
        }
    }
    impl<K, V> IntoIterator for HashMap<K, V> {
        type Item = (K, V);
        type IntoIter = alloc::vec::IntoIter<(K, V)>;
        fn into_iter(self) -> Self::IntoIter {
            self.items.into_iter()
        }
    }
    impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> {
        fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, iter: I) {
            for (k, v) in iter {
                self.insert(k, v);
            }
        }
    }
    impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Self {
            let mut m = HashMap::new();
            m.extend(iter);
            m
        }
    }
}

pub mod hash_set {
    use super::hash_map::HashMap;
    #[derive(Clone, Debug)]
    pub struct HashSet<K> {
        map: HashMap<K, ()>,
    }
    impl<K> Default for HashSet<K> {
        fn default() -> Self {
            HashSet { map: HashMap::new() }
        }
    }
    impl<K: Eq> HashSet<K> {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn with_capacity(_c: usize) -> Self {
            Self::default()
        }
        pub fn insert(&mut self, k: K) -> bool {
            self.map.insert(k, ()).is_none()
        }
        pub fn contains(&self, k: &K) -> bool {
            self.map.contains_key(k)
        }
        pub fn remove(&mut self, k: &K) -> bool {
            self.map.remove(k).is_some()
        }
        pub fn len(&self) -> usize {
            self.map.len()
        }
        pub fn is_empty(&self) -> bool {
            self.map.is_empty()
        }
        pub fn clear(&mut self) {
            self.map.clear();
        }
        pub fn iter(&self) -> super::hash_map::Keys<'_, K, ()> {
            self.map.keys()
        }
    }
}

pub use hash_map::HashMap;
pub use hash_set::HashSet;
