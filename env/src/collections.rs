//! Association-list model of `HashMap` (at most CAP entries, insertion order).
pub use std::collections::*;
pub use self::hash_map::HashMap;

pub mod hash_map {
    pub use std::collections::hash_map::{DefaultHasher};
    use std::borrow::Borrow;
    use std::fmt;
    use std::ops::Index;

    pub const CAP: usize = 4;
    #[derive(Clone, Copy, Default, Debug)]
    pub struct RandomState;
    impl RandomState { pub fn new() -> Self { RandomState } }

    #[derive(Clone)]
    pub struct HashMap<K, V, S = RandomState> { e: [Option<(K, V)>; CAP], n: usize, s: std::marker::PhantomData<S> }

    impl<K, V> HashMap<K, V> {
        pub fn new() -> Self { HashMap { e: [None, None, None, None], n: 0, s: std::marker::PhantomData } }
        pub fn with_capacity(_: usize) -> Self { Self::new() }
    }
    impl<K, V> Default for HashMap<K, V> { fn default() -> Self { Self::new() } }

    impl<K, V, S> HashMap<K, V, S> {
        pub fn with_hasher(_: S) -> Self { HashMap { e: [None, None, None, None], n: 0, s: std::marker::PhantomData } }
        pub fn with_capacity_and_hasher(_: usize, s: S) -> Self { Self::with_hasher(s) }
        pub fn len(&self) -> usize { self.n }
        pub fn is_empty(&self) -> bool { self.n == 0 }
        pub fn iter(&self) -> It<'_, K, V> { It { e: &self.e, i: 0 } }
        pub fn iter_mut(&mut self) -> ItMut<'_, K, V> { ItMut { e: self.e.iter_mut() } }
        pub fn keys(&self) -> impl Iterator<Item = &K> { self.iter().map(|(k, _)| k) }
        pub fn values(&self) -> impl Iterator<Item = &V> { self.iter().map(|(_, v)| v) }
        pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> { self.iter_mut().map(|(_, v)| v) }
        pub fn clear(&mut self) { for x in self.e.iter_mut() { *x = None; } self.n = 0; }
    }
    impl<K: Eq, V, S> HashMap<K, V, S> {
        fn pos<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
            let mut i = 0;
            while i < CAP {
                if let Some((kk, _)) = &self.e[i] { if kk.borrow() == k { return Some(i); } }
                i += 1;
            }
            None
        }
        pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
            match self.pos(k) { Some(i) => self.e[i].as_ref().map(|x| &x.1), None => None }
        }
        pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
            match self.pos(k) { Some(i) => self.e[i].as_mut().map(|x| &mut x.1), None => None }
        }
        pub fn get_key_value<Q: ?Sized + Eq>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> {
            match self.pos(k) { Some(i) => self.e[i].as_ref().map(|x| (&x.0, &x.1)), None => None }
        }
        pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.pos(k).is_some() }
        pub fn insert(&mut self, k: K, v: V) -> Option<V> {
            if let Some(i) = self.pos(&k) {
                return self.e[i].replace((k, v)).map(|x| x.1);
            }
            let mut i = 0;
            while i < CAP {
                if self.e[i].is_none() { self.e[i] = Some((k, v)); self.n += 1; return None; }
                i += 1;
            }
            crate::nd::bound("model HashMap is full")
        }
        pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> {
            match self.pos(k) { Some(i) => { self.n -= 1; self.e[i].take().map(|x| x.1) } None => None }
        }
        pub fn entry(&mut self, k: K) -> Entry<'_, K, V, S> { Entry { m: self, k } }
    }
    pub struct Entry<'a, K, V, S> { m: &'a mut HashMap<K, V, S>, k: K }
    impl<'a, K: Eq, V, S> Entry<'a, K, V, S> {
        pub fn or_insert(self, v: V) -> &'a mut V { self.or_insert_with(|| v) }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            let Entry { m, k } = self;
            let i = match m.pos(&k) {
                Some(i) => i,
                None => {
                    let mut i = 0;
                    while i < CAP && m.e[i].is_some() { i += 1; }
                    m.e[i] = Some((k, f())); m.n += 1; i
                }
            };
            match m.e[i].as_mut() { Some(x) => &mut x.1, None => std::unreachable!() }
        }
        pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
            let Entry { m, k } = self;
            if let Some(v) = m.get_mut(&k) { f(v); }
            Entry { m, k }
        }
    }
    impl<K: Eq, V, S, Q: ?Sized + Eq> Index<&Q> for HashMap<K, V, S> where K: Borrow<Q> {
        type Output = V;
        fn index(&self, k: &Q) -> &V { match self.get(k) { Some(v) => v, None => crate::world::panicked() } }
    }
    impl<K, V, S> fmt::Debug for HashMap<K, V, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("{..}") } }
    impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> {
        fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = Self::new(); for (k, v) in it { m.insert(k, v); } m }
    }
    impl<K: Eq, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
    impl<K: Eq, V, S> Extend<(K, V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } } }
    impl<K: PartialEq + Eq, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
        fn eq(&self, o: &Self) -> bool { self.n == o.n && self.iter().all(|(k, v)| match o.get(k) { Some(w) => v == w, None => false }) }
    }
    impl<K, V, S> IntoIterator for HashMap<K, V, S> {
        type Item = (K, V);
        type IntoIter = std::iter::Flatten<std::array::IntoIter<Option<(K, V)>, CAP>>;
        fn into_iter(self) -> Self::IntoIter { self.e.into_iter().flatten() }
    }
    pub struct It<'a, K, V> { e: &'a [Option<(K, V)>; CAP], i: usize }
    impl<'a, K, V> Iterator for It<'a, K, V> {
        type Item = (&'a K, &'a V);
        fn next(&mut self) -> Option<Self::Item> {
            while self.i < CAP {
                let x = &self.e[self.i];
                self.i += 1;
                if let Some((k, v)) = x { return Some((k, v)); }
            }
            None
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
        type Item = (&'a K, &'a V);
        type IntoIter = It<'a, K, V>;
        fn into_iter(self) -> It<'a, K, V> { It { e: &self.e, i: 0 } }
    }
    pub struct ItMut<'a, K, V> { e: std::slice::IterMut<'a, Option<(K, V)>> }
    impl<'a, K, V> Iterator for ItMut<'a, K, V> {
        type Item = (&'a K, &'a mut V);
        fn next(&mut self) -> Option<Self::Item> {
            loop { if let Some((k, v)) = self.e.next()? { return Some((k, v)); } }
        }
    }
    impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
        type Item = (&'a K, &'a mut V);
        type IntoIter = ItMut<'a, K, V>;
        fn into_iter(self) -> ItMut<'a, K, V> { ItMut { e: self.e.iter_mut() } }
    }
}
