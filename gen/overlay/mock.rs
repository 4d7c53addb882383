//! Linear maps and sets with the documented contract of std's maps and sets (only `Eq`, or `Ord` for the
//! ordered ones, is used). Stand in for `std::collections` in the copied sources.
pub use self::hash_map::HashMap;
pub use self::hash_set::HashSet;
pub use self::btree_set::BTreeSet;
pub use std::collections::{VecDeque, BTreeMap};
pub mod hash_map {
    use std::borrow::Borrow;
    /// Capacity 4: insertion beyond it fails the harness. Storage is inline so that symbolic execution sees it.
    pub struct HashMap<K, V> { v: [Option<(K, V)>; 4], n: usize }
    pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
    pub struct OccupiedEntry<'a, K, V> { m: &'a mut HashMap<K, V>, i: usize }
    pub struct VacantEntry<'a, K, V> { m: &'a mut HashMap<K, V>, k: K }
    impl<K, V> HashMap<K, V> {
        pub const fn new() -> Self { HashMap { v: [None, None, None, None], n: 0 } }
        pub fn keys(&self) -> impl Iterator<Item = &K> { self.v.iter().flatten().map(|e| &e.0) }
        pub fn len(&self) -> usize { self.n }
        pub fn is_empty(&self) -> bool { self.n == 0 }
        fn at(&self, i: usize) -> &(K, V) { match &self.v[i] { Some(e) => e, None => unreachable!() } }
        fn at_mut(&mut self, i: usize) -> &mut (K, V) { match &mut self.v[i] { Some(e) => e, None => unreachable!() } }
        fn put(&mut self, k: K, v: V) -> usize { let i = self.n; assert!(i < 4); std::mem::forget(std::mem::replace(&mut self.v[i], Some((k, v)))); self.n = i + 1; i }
    }
    impl<K: Eq, V> HashMap<K, V> {
        fn find<Q: ?Sized + Eq>(&self, key: &Q) -> Option<usize> where K: Borrow<Q> {
            let mut i = 0;
            while i < self.n {
                if self.at(i).0.borrow() == key { return Some(i); }
                i += 1;
            }
            None
        }
        pub fn insert(&mut self, key: K, value: V) -> Option<V> {
            match self.find(&key) {
                Some(i) => Some(std::mem::replace(&mut self.at_mut(i).1, value)),
                None => { self.put(key, value); None }
            }
        }
        pub fn contains_key<Q: ?Sized + Eq>(&self, key: &Q) -> bool where K: Borrow<Q> { self.find(key).is_some() }
        pub fn get<Q: ?Sized + Eq>(&self, key: &Q) -> Option<&V> where K: Borrow<Q> { match self.find(key) { Some(i) => Some(&self.at(i).1), None => None } }
        pub fn get_mut<Q: ?Sized + Eq>(&mut self, key: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.find(key) { Some(i) => Some(&mut self.at_mut(i).1), None => None } }
        pub fn remove<Q: ?Sized + Eq>(&mut self, key: &Q) -> Option<V> where K: Borrow<Q> {
            let i = self.find(key)?;
            let r = self.v[i].take();
            let mut k = i;
            while k + 1 < self.n { self.v.swap(k, k + 1); k += 1; }
            self.n -= 1;
            r.map(|e| e.1)
        }
        pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
            match self.find(&key) { Some(i) => Entry::Occupied(OccupiedEntry { m: self, i }), None => Entry::Vacant(VacantEntry { m: self, k: key }) }
        }
    }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(f()) }
        }
        pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
        pub fn or_insert(self, v: V) -> &'a mut V { self.or_insert_with(|| v) }
    }
    impl<'a, K, V> OccupiedEntry<'a, K, V> {
        pub fn get(&self) -> &V { &self.m.at(self.i).1 }
        pub fn get_mut(&mut self) -> &mut V { &mut self.m.at_mut(self.i).1 }
        pub fn into_mut(self) -> &'a mut V { &mut self.m.at_mut(self.i).1 }
        pub fn insert(&mut self, v: V) -> V { std::mem::replace(&mut self.m.at_mut(self.i).1, v) }
        pub fn key(&self) -> &K { &self.m.at(self.i).0 }
    }
    impl<'a, K, V> VacantEntry<'a, K, V> {
        pub fn insert(self, v: V) -> &'a mut V { let i = self.m.put(self.k, v); &mut self.m.at_mut(i).1 }
    }
}
pub mod hash_set {
    use std::borrow::Borrow;
    /// A harness sets this while it inserts elements that differ by construction.
    pub static mut DISTINCT: bool = false;
    /// Capacity 16: insertion beyond it fails the harness.
    pub struct HashSet<T> { v: [Option<T>; 16], n: usize }
    impl<T> HashSet<T> {
        pub const fn new() -> Self { HashSet { v: [const { None }; 16], n: 0 } }
        pub fn len(&self) -> usize { self.n }
        pub fn is_empty(&self) -> bool { self.n == 0 }
        fn at(&self, i: usize) -> &T { match &self.v[i] { Some(e) => e, None => unreachable!() } }
    }
    impl<T: Eq> HashSet<T> {
        fn find<Q: ?Sized + Eq>(&self, key: &Q) -> Option<usize> where T: Borrow<Q> {
            let mut i = 0;
            while i < self.n {
                if self.at(i).borrow() == key { return Some(i); }
                i += 1;
            }
            None
        }
        pub fn insert(&mut self, value: T) -> bool {
            if unsafe { !DISTINCT } && self.find(&value).is_some() { return false; }
            let i = self.n;
            assert!(i < 16);
            std::mem::forget(std::mem::replace(&mut self.v[i], Some(value)));
            self.n = i + 1;
            true
        }
        pub fn contains<Q: ?Sized + Eq>(&self, value: &Q) -> bool where T: Borrow<Q> { self.find(value).is_some() }
        pub fn get<Q: ?Sized + Eq>(&self, value: &Q) -> Option<&T> where T: Borrow<Q> { match self.find(value) { Some(i) => Some(self.at(i)), None => None } }
        pub fn retain(&mut self, mut f: impl FnMut(&T) -> bool) {
            let mut i = 0;
            while i < self.n {
                if f(self.at(i)) { i += 1; continue; }
                std::mem::forget(self.v[i].take());
                let mut k = i;
                while k + 1 < self.n { self.v.swap(k, k + 1); k += 1; }
                self.n -= 1;
            }
        }
    }
}
pub mod btree_set {
    /// Capacity 4: `insert` beyond it fails the harness.
    pub struct BTreeSet<T> { v: [Option<T>; 4], n: usize }
    impl<T> BTreeSet<T> {
        pub const fn new() -> Self { BTreeSet { v: [None, None, None, None], n: 0 } }
        pub fn is_empty(&self) -> bool { self.n == 0 }
        pub fn len(&self) -> usize { self.n }
        pub fn iter(&self) -> Iter<'_, T> { Iter { s: self, i: 0, j: self.n } }
        pub fn first(&self) -> Option<&T> { self.iter().next() }
        pub fn last(&self) -> Option<&T> { self.iter().next_back() }
    }
    impl<T: Ord> BTreeSet<T> {
        pub fn insert(&mut self, t: T) -> bool {
            if self.contains(&t) { return false; }
            assert!(self.n < 4);
            let mut t = t;
            let mut i = 0;
            while i < self.n {
                if let Some(x) = &mut self.v[i] {
                    if t.cmp(x) == std::cmp::Ordering::Less { std::mem::swap(x, &mut t); }
                }
                i += 1;
            }
            self.v[self.n] = Some(t);
            self.n += 1;
            true
        }
        pub fn contains(&self, t: &T) -> bool {
            let mut i = 0;
            while i < self.n {
                if let Some(x) = &self.v[i] { if x.cmp(t) == std::cmp::Ordering::Equal { return true; } }
                i += 1;
            }
            false
        }
    }
    pub struct Iter<'a, T> { s: &'a BTreeSet<T>, i: usize, j: usize }
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = &'a T;
        fn next(&mut self) -> Option<&'a T> { if self.i < self.j { self.i += 1; self.s.v[self.i - 1].as_ref() } else { None } }
    }
    impl<'a, T> DoubleEndedIterator for Iter<'a, T> {
        fn next_back(&mut self) -> Option<&'a T> { if self.i < self.j { self.j -= 1; self.s.v[self.j].as_ref() } else { None } }
    }
    impl<'a, T> IntoIterator for &'a BTreeSet<T> { type Item = &'a T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
}
