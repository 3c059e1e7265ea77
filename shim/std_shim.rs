//! A stand-in for `std` in which the hash containers are small open-addressing tables whose iteration
//! order is a function of a global, symbolically chosen word. Everything else is the real `std`.
//!
//! The real containers promise nothing about their order and are seeded at random; here the order is
//! an input of the check instead, so that a result that depends on it can be found.
#![allow(clippy::all)]
pub use ::std::*;

pub mod order {
    use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    static ORDER: AtomicUsize = AtomicUsize::new(0);
    #[inline(always)]
    pub fn set(x: usize) {
        ORDER.store(x, Relaxed)
    }
    #[inline(always)]
    pub fn get() -> usize {
        ORDER.load(Relaxed)
    }
}

pub mod collections {
    pub use self::hash_map::HashMap;
    pub use self::hash_set::HashSet;
    pub use ::std::collections::{
        binary_heap, btree_map, btree_set, linked_list, vec_deque, BTreeMap, BTreeSet, BinaryHeap, Bound, LinkedList,
        TryReserveError, VecDeque,
    };

    mod table {
        use core::borrow::Borrow;
        use core::hash::{Hash, Hasher};

        pub struct H(u64);
        impl Hasher for H {
            #[inline]
            fn finish(&self) -> u64 {
                self.0
            }
            #[inline]
            fn write(&mut self, b: &[u8]) {
                for x in b {
                    self.0 = self.0.wrapping_mul(3).wrapping_add(*x as u64);
                }
            }
            #[inline]
            fn write_u8(&mut self, x: u8) {
                if x != 0xff {
                    self.write_u64(x as u64)
                }
            }
            #[inline]
            fn write_u16(&mut self, x: u16) {
                self.write_u64(x as u64)
            }
            #[inline]
            fn write_u32(&mut self, x: u32) {
                self.write_u64(x as u64)
            }
            #[inline]
            fn write_u64(&mut self, x: u64) {
                self.0 = self.0.wrapping_mul(3).wrapping_add(x);
            }
            #[inline]
            fn write_usize(&mut self, x: usize) {
                self.write_u64(x as u64)
            }
            #[inline]
            fn write_i32(&mut self, x: i32) {
                self.write_u64(x as u64)
            }
            #[inline]
            fn write_i64(&mut self, x: i64) {
                self.write_u64(x as u64)
            }
            #[inline]
            fn write_isize(&mut self, x: isize) {
                self.write_u64(x as u64)
            }
        }

        #[derive(Clone)]
        pub enum Slot<K, V> {
            Empty,
            Tomb,
            Full(K, V),
        }
        pub struct Table<K, V> {
            pub s: Box<[Slot<K, V>]>,
            pub n: usize,
            pub used: usize,
        }
        const CAP: usize = 8;

        fn empty<K, V>(cap: usize) -> Box<[Slot<K, V>]> {
            let mut v = Vec::with_capacity(cap);
            for _ in 0..cap {
                v.push(Slot::Empty);
            }
            v.into_boxed_slice()
        }

        impl<K: Clone, V: Clone> Clone for Table<K, V> {
            fn clone(&self) -> Self {
                let mut v = Vec::with_capacity(self.s.len());
                for x in self.s.iter() {
                    v.push(x.clone());
                }
                Table { s: v.into_boxed_slice(), n: self.n, used: self.used }
            }
        }
        impl<K, V> Table<K, V> {
            pub fn new() -> Self {
                Table { s: empty(CAP), n: 0, used: 0 }
            }
            pub fn clear(&mut self) {
                for x in self.s.iter_mut() {
                    *x = Slot::Empty;
                }
                self.n = 0;
                self.used = 0;
            }
            /// take the slot's content, leaving a mark
            pub fn take(&mut self, i: usize) -> Option<(K, V)> {
                match core::mem::replace(&mut self.s[i], Slot::Tomb) {
                    Slot::Full(k, v) => {
                        self.n -= 1;
                        Some((k, v))
                    }
                    o => {
                        self.s[i] = o;
                        None
                    }
                }
            }
        }
        impl<K: Hash + Eq, V> Table<K, V> {
            fn start<Q: Hash + ?Sized>(&self, k: &Q) -> usize {
                let mut h = H(0);
                k.hash(&mut h);
                (h.finish() as usize ^ super::super::order::get()) & (self.s.len() - 1)
            }
            pub fn find<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<usize>
            where
                K: Borrow<Q>,
            {
                let mut i = self.start(k);
                let m = self.s.len() - 1;
                let mut left = self.s.len();
                while left > 0 {
                    match &self.s[i] {
                        Slot::Empty => return None,
                        Slot::Full(q, _) if q.borrow() == k => return Some(i),
                        _ => {}
                    }
                    i = (i + 1) & m;
                    left -= 1;
                }
                None
            }
            fn grow(&mut self) {
                let cap = if self.n * 2 > self.s.len() { self.s.len() * 2 } else { self.s.len() };
                let old = core::mem::replace(&mut self.s, empty(cap));
                self.n = 0;
                self.used = 0;
                for x in old.into_vec() {
                    if let Slot::Full(k, v) = x {
                        self.insert_new(k, v);
                    }
                }
            }
            /// insert a key known to be absent
            pub fn insert_new(&mut self, k: K, v: V) -> usize {
                if self.used >= self.s.len() {
                    self.grow();
                }
                let m = self.s.len() - 1;
                let mut i = self.start(&k);
                loop {
                    match &self.s[i] {
                        Slot::Empty => break,
                        _ => i = (i + 1) & m,
                    }
                }
                self.s[i] = Slot::Full(k, v);
                self.n += 1;
                self.used += 1;
                i
            }
            pub fn key(&self, i: usize) -> &K {
                match &self.s[i] {
                    Slot::Full(k, _) => k,
                    _ => unreachable!(),
                }
            }
            pub fn val(&self, i: usize) -> &V {
                match &self.s[i] {
                    Slot::Full(_, v) => v,
                    _ => unreachable!(),
                }
            }
            pub fn val_mut(&mut self, i: usize) -> &mut V {
                match &mut self.s[i] {
                    Slot::Full(_, v) => v,
                    _ => unreachable!(),
                }
            }
        }
    }

    pub mod hash_map {
        use super::table::{Slot, Table};
        pub use ::std::collections::hash_map::{DefaultHasher, RandomState};
        use core::borrow::Borrow;
        use core::fmt;
        use core::hash::Hash;
        use core::iter::FusedIterator;
        use core::marker::PhantomData;
        use core::ops::Index;

        pub struct HashMap<K, V, S = RandomState> {
            pub(super) t: Table<K, V>,
            pub(super) p: PhantomData<S>,
        }
        impl<K, V, S> HashMap<K, V, S> {
            fn raw() -> Self {
                HashMap { t: Table::new(), p: PhantomData }
            }
            pub fn len(&self) -> usize {
                self.t.n
            }
            pub fn is_empty(&self) -> bool {
                self.t.n == 0
            }
            pub fn capacity(&self) -> usize {
                self.t.s.len()
            }
            pub fn clear(&mut self) {
                self.t.clear()
            }
            pub fn iter(&self) -> Iter<'_, K, V> {
                Iter { s: self.t.s.iter(), left: self.t.n }
            }
            pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
                IterMut { s: self.t.s.iter_mut(), left: self.t.n }
            }
            pub fn keys(&self) -> Keys<'_, K, V> {
                Keys(self.iter())
            }
            pub fn values(&self) -> Values<'_, K, V> {
                Values(self.iter())
            }
            pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
                ValuesMut(self.iter_mut())
            }
            pub fn into_keys(self) -> IntoKeys<K, V> {
                IntoKeys(self.into_iter())
            }
            pub fn into_values(self) -> IntoValues<K, V> {
                IntoValues(self.into_iter())
            }
            pub fn drain(&mut self) -> Drain<'_, K, V> {
                Drain { t: &mut self.t, i: 0 }
            }
            pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
                for i in 0..self.t.s.len() {
                    let drop = match &mut self.t.s[i] {
                        Slot::Full(k, v) => !f(k, v),
                        _ => false,
                    };
                    if drop {
                        self.t.take(i);
                    }
                }
            }
            pub fn extract_if<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) -> super::super::vec::IntoIter<(K, V)> {
                let mut out = Vec::new();
                for i in 0..self.t.s.len() {
                    let hit = match &mut self.t.s[i] {
                        Slot::Full(k, v) => f(k, v),
                        _ => false,
                    };
                    if hit {
                        out.extend(self.t.take(i));
                    }
                }
                out.into_iter()
            }
        }
        impl<K, V> HashMap<K, V, RandomState> {
            pub fn new() -> Self {
                Self::raw()
            }
            pub fn with_capacity(_: usize) -> Self {
                Self::raw()
            }
        }
        impl<K: Hash + Eq, V, S> HashMap<K, V, S> {
            pub fn reserve(&mut self, _: usize) {}
            pub fn shrink_to_fit(&mut self) {}
            pub fn shrink_to(&mut self, _: usize) {}
            pub fn get<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<&V>
            where
                K: Borrow<Q>,
            {
                match self.t.find(k) {
                    Some(i) => Some(self.t.val(i)),
                    None => None,
                }
            }
            pub fn get_key_value<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<(&K, &V)>
            where
                K: Borrow<Q>,
            {
                self.t.find(k).map(|i| (self.t.key(i), self.t.val(i)))
            }
            pub fn get_mut<Q: Hash + Eq + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
            where
                K: Borrow<Q>,
            {
                match self.t.find(k) {
                    Some(i) => Some(self.t.val_mut(i)),
                    None => None,
                }
            }
            pub fn contains_key<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> bool
            where
                K: Borrow<Q>,
            {
                self.t.find(k).is_some()
            }
            pub fn insert(&mut self, k: K, v: V) -> Option<V> {
                match self.t.find(&k) {
                    Some(i) => Some(core::mem::replace(self.t.val_mut(i), v)),
                    None => {
                        self.t.insert_new(k, v);
                        None
                    }
                }
            }
            pub fn remove<Q: Hash + Eq + ?Sized>(&mut self, k: &Q) -> Option<V>
            where
                K: Borrow<Q>,
            {
                self.remove_entry(k).map(|x| x.1)
            }
            pub fn remove_entry<Q: Hash + Eq + ?Sized>(&mut self, k: &Q) -> Option<(K, V)>
            where
                K: Borrow<Q>,
            {
                match self.t.find(k) {
                    Some(i) => self.t.take(i),
                    None => None,
                }
            }
            pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
                match self.t.find(&k) {
                    Some(i) => Entry::Occupied(OccupiedEntry { t: &mut self.t, i }),
                    None => Entry::Vacant(VacantEntry { t: &mut self.t, k }),
                }
            }
        }
        pub enum Entry<'a, K, V> {
            Occupied(OccupiedEntry<'a, K, V>),
            Vacant(VacantEntry<'a, K, V>),
        }
        pub struct OccupiedEntry<'a, K, V> {
            t: &'a mut Table<K, V>,
            i: usize,
        }
        pub struct VacantEntry<'a, K, V> {
            t: &'a mut Table<K, V>,
            k: K,
        }
        impl<'a, K: Hash + Eq, V> OccupiedEntry<'a, K, V> {
            pub fn key(&self) -> &K {
                self.t.key(self.i)
            }
            pub fn get(&self) -> &V {
                self.t.val(self.i)
            }
            pub fn get_mut(&mut self) -> &mut V {
                self.t.val_mut(self.i)
            }
            pub fn into_mut(self) -> &'a mut V {
                self.t.val_mut(self.i)
            }
            pub fn insert(&mut self, v: V) -> V {
                core::mem::replace(self.t.val_mut(self.i), v)
            }
            pub fn remove_entry(self) -> (K, V) {
                self.t.take(self.i).unwrap()
            }
            pub fn remove(self) -> V {
                self.remove_entry().1
            }
        }
        impl<'a, K: Hash + Eq, V> VacantEntry<'a, K, V> {
            pub fn key(&self) -> &K {
                &self.k
            }
            pub fn into_key(self) -> K {
                self.k
            }
            pub fn insert(self, v: V) -> &'a mut V {
                let i = self.t.insert_new(self.k, v);
                self.t.val_mut(i)
            }
            pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> {
                let i = self.t.insert_new(self.k, v);
                OccupiedEntry { t: self.t, i }
            }
        }
        impl<'a, K: Hash + Eq, V> Entry<'a, K, V> {
            pub fn or_insert(self, v: V) -> &'a mut V {
                match self {
                    Entry::Occupied(o) => o.into_mut(),
                    Entry::Vacant(e) => e.insert(v),
                }
            }
            pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
                match self {
                    Entry::Occupied(o) => o.into_mut(),
                    Entry::Vacant(e) => e.insert(f()),
                }
            }
            pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
                match self {
                    Entry::Occupied(o) => o.into_mut(),
                    Entry::Vacant(e) => {
                        let v = f(e.key());
                        e.insert(v)
                    }
                }
            }
            pub fn or_default(self) -> &'a mut V
            where
                V: Default,
            {
                self.or_insert_with(V::default)
            }
            pub fn key(&self) -> &K {
                match self {
                    Entry::Occupied(o) => o.key(),
                    Entry::Vacant(e) => e.key(),
                }
            }
            pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
                if let Entry::Occupied(o) = &mut self {
                    f(o.get_mut());
                }
                self
            }
            pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> {
                match self {
                    Entry::Occupied(mut o) => {
                        o.insert(v);
                        o
                    }
                    Entry::Vacant(e) => e.insert_entry(v),
                }
            }
        }

        macro_rules! next_full {
            ($self:ident, $k:ident, $v:ident, $e:expr) => {{
                if $self.left == 0 {
                    return None;
                }
                loop {
                    match $self.s.next() {
                        None => return None,
                        Some(Slot::Full($k, $v)) => {
                            $self.left -= 1;
                            return Some($e);
                        }
                        _ => {}
                    }
                }
            }};
        }
        pub struct Iter<'a, K, V> {
            pub(super) s: core::slice::Iter<'a, Slot<K, V>>,
            pub(super) left: usize,
        }
        impl<'a, K, V> Clone for Iter<'a, K, V> {
            fn clone(&self) -> Self {
                Iter { s: self.s.clone(), left: self.left }
            }
        }
        impl<'a, K, V> Iterator for Iter<'a, K, V> {
            type Item = (&'a K, &'a V);
            fn next(&mut self) -> Option<Self::Item> {
                next_full!(self, k, v, (k, v))
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (self.left, Some(self.left))
            }
        }
        pub struct IterMut<'a, K, V> {
            s: core::slice::IterMut<'a, Slot<K, V>>,
            left: usize,
        }
        impl<'a, K, V> Iterator for IterMut<'a, K, V> {
            type Item = (&'a K, &'a mut V);
            fn next(&mut self) -> Option<Self::Item> {
                next_full!(self, k, v, (&*k, v))
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (self.left, Some(self.left))
            }
        }
        pub struct IntoIter<K, V> {
            pub(super) s: super::super::vec::IntoIter<Slot<K, V>>,
            pub(super) left: usize,
        }
        impl<K, V> Iterator for IntoIter<K, V> {
            type Item = (K, V);
            fn next(&mut self) -> Option<Self::Item> {
                next_full!(self, k, v, (k, v))
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (self.left, Some(self.left))
            }
        }
        pub struct Drain<'a, K, V> {
            pub(super) t: &'a mut Table<K, V>,
            pub(super) i: usize,
        }
        impl<'a, K, V> Iterator for Drain<'a, K, V> {
            type Item = (K, V);
            fn next(&mut self) -> Option<(K, V)> {
                if self.t.n == 0 {
                    return None;
                }
                while self.i < self.t.s.len() {
                    self.i += 1;
                    if let Some(x) = self.t.take(self.i - 1) {
                        return Some(x);
                    }
                }
                None
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (self.t.n, Some(self.t.n))
            }
        }
        impl<'a, K, V> Drop for Drain<'a, K, V> {
            fn drop(&mut self) {
                self.t.clear()
            }
        }
        macro_rules! wrap {
            ($n:ident, [$($g:tt)*], $inner:ty, $item:ty, $x:ident, $e:expr) => {
                pub struct $n<$($g)*>(pub(super) $inner);
                impl<$($g)*> Iterator for $n<$($g)*> {
                    type Item = $item;
                    fn next(&mut self) -> Option<$item> {
                        match self.0.next() {
                            Some($x) => Some($e),
                            None => None,
                        }
                    }
                    fn size_hint(&self) -> (usize, Option<usize>) {
                        self.0.size_hint()
                    }
                }
                impl<$($g)*> ExactSizeIterator for $n<$($g)*> {}
                impl<$($g)*> FusedIterator for $n<$($g)*> {}
            };
        }
        wrap!(Keys, ['a, K, V], Iter<'a, K, V>, &'a K, x, x.0);
        wrap!(Values, ['a, K, V], Iter<'a, K, V>, &'a V, x, x.1);
        wrap!(ValuesMut, ['a, K, V], IterMut<'a, K, V>, &'a mut V, x, x.1);
        wrap!(IntoKeys, [K, V], IntoIter<K, V>, K, x, x.0);
        wrap!(IntoValues, [K, V], IntoIter<K, V>, V, x, x.1);
        impl<'a, K, V> Clone for Keys<'a, K, V> {
            fn clone(&self) -> Self {
                Keys(self.0.clone())
            }
        }
        impl<'a, K, V> Clone for Values<'a, K, V> {
            fn clone(&self) -> Self {
                Values(self.0.clone())
            }
        }
        impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
        impl<'a, K, V> FusedIterator for Iter<'a, K, V> {}
        impl<'a, K, V> ExactSizeIterator for IterMut<'a, K, V> {}
        impl<'a, K, V> FusedIterator for IterMut<'a, K, V> {}
        impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
        impl<K, V> FusedIterator for IntoIter<K, V> {}
        impl<'a, K, V> ExactSizeIterator for Drain<'a, K, V> {}
        impl<'a, K, V> FusedIterator for Drain<'a, K, V> {}

        impl<K, V, S> IntoIterator for HashMap<K, V, S> {
            type Item = (K, V);
            type IntoIter = IntoIter<K, V>;
            fn into_iter(self) -> IntoIter<K, V> {
                let left = self.t.n;
                IntoIter { s: self.t.s.into_vec().into_iter(), left }
            }
        }
        impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
            type Item = (&'a K, &'a V);
            type IntoIter = Iter<'a, K, V>;
            fn into_iter(self) -> Iter<'a, K, V> {
                self.iter()
            }
        }
        impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
            type Item = (&'a K, &'a mut V);
            type IntoIter = IterMut<'a, K, V>;
            fn into_iter(self) -> IterMut<'a, K, V> {
                self.iter_mut()
            }
        }
        impl<K: Hash + Eq, V, S> Extend<(K, V)> for HashMap<K, V, S> {
            fn extend<T: IntoIterator<Item = (K, V)>>(&mut self, it: T) {
                for (k, v) in it {
                    self.insert(k, v);
                }
            }
        }
        impl<'a, K: Hash + Eq + Copy + 'a, V: Copy + 'a, S> Extend<(&'a K, &'a V)> for HashMap<K, V, S> {
            fn extend<T: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: T) {
                for (k, v) in it {
                    self.insert(*k, *v);
                }
            }
        }
        impl<K: Hash + Eq, V, S: Default> FromIterator<(K, V)> for HashMap<K, V, S> {
            fn from_iter<T: IntoIterator<Item = (K, V)>>(it: T) -> Self {
                let mut m = Self::raw();
                m.extend(it);
                m
            }
        }
        impl<K: Hash + Eq, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> {
            fn from(a: [(K, V); N]) -> Self {
                a.into_iter().collect()
            }
        }
        impl<K, V, S> Default for HashMap<K, V, S> {
            fn default() -> Self {
                Self::raw()
            }
        }
        impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> {
            fn clone(&self) -> Self {
                HashMap { t: self.t.clone(), p: PhantomData }
            }
        }
        impl<K: Hash + Eq, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
            fn eq(&self, o: &Self) -> bool {
                if self.len() != o.len() {
                    return false;
                }
                self.iter().all(|(k, v)| o.get(k).map_or(false, |w| *v == *w))
            }
        }
        impl<K: Hash + Eq, V: Eq, S> Eq for HashMap<K, V, S> {}
        impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_map().entries(self.iter()).finish()
            }
        }
        impl<K: Hash + Eq + Borrow<Q>, Q: Hash + Eq + ?Sized, V, S> Index<&Q> for HashMap<K, V, S> {
            type Output = V;
            fn index(&self, k: &Q) -> &V {
                self.get(k).expect("no entry found for key")
            }
        }
    }

    pub mod hash_set {
        use super::hash_map::{self, HashMap, RandomState};
        use core::borrow::Borrow;
        use core::fmt;
        use core::hash::Hash;
        use core::ops::{BitAnd, BitOr, BitXor, Sub};

        pub struct HashSet<T, S = RandomState> {
            m: HashMap<T, (), S>,
        }
        impl<T> HashSet<T, RandomState> {
            pub fn new() -> Self {
                HashSet { m: HashMap::new() }
            }
            pub fn with_capacity(_: usize) -> Self {
                Self::new()
            }
        }
        impl<T, S> HashSet<T, S> {
            pub fn len(&self) -> usize {
                self.m.len()
            }
            pub fn is_empty(&self) -> bool {
                self.m.is_empty()
            }
            pub fn capacity(&self) -> usize {
                self.m.capacity()
            }
            pub fn clear(&mut self) {
                self.m.clear()
            }
            pub fn iter(&self) -> Iter<'_, T> {
                self.m.keys()
            }
            pub fn drain(&mut self) -> Drain<'_, T> {
                Drain(self.m.drain())
            }
            pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
                self.m.retain(|k, _| f(k))
            }
            pub fn extract_if<F: FnMut(&T) -> bool>(&mut self, mut f: F) -> super::super::vec::IntoIter<T> {
                self.m.extract_if(|k, _| f(k)).map(|x| x.0).collect::<Vec<_>>().into_iter()
            }
        }
        impl<T: Hash + Eq, S> HashSet<T, S> {
            pub fn reserve(&mut self, _: usize) {}
            pub fn shrink_to_fit(&mut self) {}
            pub fn contains<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> bool
            where
                T: Borrow<Q>,
            {
                self.m.contains_key(k)
            }
            pub fn get<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<&T>
            where
                T: Borrow<Q>,
            {
                self.m.get_key_value(k).map(|x| x.0)
            }
            pub fn insert(&mut self, k: T) -> bool {
                match self.m.t.find(&k) {
                    Some(_) => false,
                    None => {
                        self.m.t.insert_new(k, ());
                        true
                    }
                }
            }
            pub fn replace(&mut self, k: T) -> Option<T> {
                let o = self.take(&k);
                self.insert(k);
                o
            }
            pub fn remove<Q: Hash + Eq + ?Sized>(&mut self, k: &Q) -> bool
            where
                T: Borrow<Q>,
            {
                self.m.remove(k).is_some()
            }
            pub fn take<Q: Hash + Eq + ?Sized>(&mut self, k: &Q) -> Option<T>
            where
                T: Borrow<Q>,
            {
                self.m.remove_entry(k).map(|x| x.0)
            }
            pub fn difference<'a>(&'a self, o: &'a HashSet<T, S>) -> Difference<'a, T, S> {
                Difference { i: self.iter(), o }
            }
            pub fn intersection<'a>(&'a self, o: &'a HashSet<T, S>) -> Intersection<'a, T, S> {
                if self.len() <= o.len() {
                    Intersection { i: self.iter(), o }
                } else {
                    Intersection { i: o.iter(), o: self }
                }
            }
            pub fn symmetric_difference<'a>(&'a self, o: &'a HashSet<T, S>) -> SymmetricDifference<'a, T, S> {
                SymmetricDifference(self.difference(o).chain(o.difference(self)))
            }
            pub fn union<'a>(&'a self, o: &'a HashSet<T, S>) -> Union<'a, T, S> {
                if self.len() >= o.len() {
                    Union(self.iter().chain(o.difference(self)))
                } else {
                    Union(o.iter().chain(self.difference(o)))
                }
            }
            pub fn is_disjoint(&self, o: &HashSet<T, S>) -> bool {
                self.intersection(o).next().is_none()
            }
            pub fn is_subset(&self, o: &HashSet<T, S>) -> bool {
                self.len() <= o.len() && self.iter().all(|x| o.contains(x))
            }
            pub fn is_superset(&self, o: &HashSet<T, S>) -> bool {
                o.is_subset(self)
            }
        }
        pub type Iter<'a, T> = hash_map::Keys<'a, T, ()>;
        pub type IntoIter<T> = hash_map::IntoKeys<T, ()>;
        pub struct Drain<'a, T>(hash_map::Drain<'a, T, ()>);
        impl<'a, T> Iterator for Drain<'a, T> {
            type Item = T;
            fn next(&mut self) -> Option<T> {
                match self.0.next() {
                    Some(x) => Some(x.0),
                    None => None,
                }
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                self.0.size_hint()
            }
        }
        pub struct Difference<'a, T, S> {
            i: Iter<'a, T>,
            o: &'a HashSet<T, S>,
        }
        impl<'a, T: Hash + Eq, S> Iterator for Difference<'a, T, S> {
            type Item = &'a T;
            fn next(&mut self) -> Option<&'a T> {
                loop {
                    let x = self.i.next()?;
                    if !self.o.contains(x) {
                        return Some(x);
                    }
                }
            }
        }
        pub struct Intersection<'a, T, S> {
            i: Iter<'a, T>,
            o: &'a HashSet<T, S>,
        }
        impl<'a, T: Hash + Eq, S> Iterator for Intersection<'a, T, S> {
            type Item = &'a T;
            fn next(&mut self) -> Option<&'a T> {
                loop {
                    let x = self.i.next()?;
                    if self.o.contains(x) {
                        return Some(x);
                    }
                }
            }
        }
        impl<'a, T, S> Clone for Difference<'a, T, S> {
            fn clone(&self) -> Self {
                Difference { i: self.i.clone(), o: self.o }
            }
        }
        impl<'a, T, S> Clone for Intersection<'a, T, S> {
            fn clone(&self) -> Self {
                Intersection { i: self.i.clone(), o: self.o }
            }
        }
        pub struct SymmetricDifference<'a, T, S>(core::iter::Chain<Difference<'a, T, S>, Difference<'a, T, S>>);
        impl<'a, T: Hash + Eq, S> Iterator for SymmetricDifference<'a, T, S> {
            type Item = &'a T;
            fn next(&mut self) -> Option<&'a T> {
                self.0.next()
            }
        }
        pub struct Union<'a, T, S>(core::iter::Chain<Iter<'a, T>, Difference<'a, T, S>>);
        impl<'a, T: Hash + Eq, S> Iterator for Union<'a, T, S> {
            type Item = &'a T;
            fn next(&mut self) -> Option<&'a T> {
                self.0.next()
            }
        }
        impl<T, S> IntoIterator for HashSet<T, S> {
            type Item = T;
            type IntoIter = IntoIter<T>;
            fn into_iter(self) -> IntoIter<T> {
                self.m.into_keys()
            }
        }
        impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
            type Item = &'a T;
            type IntoIter = Iter<'a, T>;
            fn into_iter(self) -> Iter<'a, T> {
                self.iter()
            }
        }
        impl<T: Hash + Eq, S> Extend<T> for HashSet<T, S> {
            fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
                for k in it {
                    self.insert(k);
                }
            }
        }
        impl<'a, T: Hash + Eq + Copy + 'a, S> Extend<&'a T> for HashSet<T, S> {
            fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) {
                for k in it {
                    self.insert(*k);
                }
            }
        }
        impl<T: Hash + Eq, S: Default> FromIterator<T> for HashSet<T, S> {
            fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
                let mut s = Self::default();
                s.extend(it);
                s
            }
        }
        impl<T: Hash + Eq, const N: usize> From<[T; N]> for HashSet<T, RandomState> {
            fn from(a: [T; N]) -> Self {
                a.into_iter().collect()
            }
        }
        impl<T, S> Default for HashSet<T, S> {
            fn default() -> Self {
                HashSet { m: HashMap::default() }
            }
        }
        impl<T: Clone, S> Clone for HashSet<T, S> {
            fn clone(&self) -> Self {
                HashSet { m: self.m.clone() }
            }
        }
        impl<T: Hash + Eq, S> PartialEq for HashSet<T, S> {
            fn eq(&self, o: &Self) -> bool {
                self.len() == o.len() && self.iter().all(|k| o.contains(k))
            }
        }
        impl<T: Hash + Eq, S> Eq for HashSet<T, S> {}
        impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_set().entries(self.iter()).finish()
            }
        }
        macro_rules! op {
            ($tr:ident, $f:ident, $m:ident) => {
                impl<T: Hash + Eq + Clone, S: Default> $tr<&HashSet<T, S>> for &HashSet<T, S> {
                    type Output = HashSet<T, S>;
                    fn $f(self, o: &HashSet<T, S>) -> HashSet<T, S> {
                        self.$m(o).cloned().collect()
                    }
                }
            };
        }
        op!(BitOr, bitor, union);
        op!(BitAnd, bitand, intersection);
        op!(BitXor, bitxor, symmetric_difference);
        op!(Sub, sub, difference);
    }
}
include!("files.rs");
/// the standard streams, written to in the way of print! and eprint!
pub mod io {
    pub use ::std::io::*;
    macro_rules! stream {
        ($name:ident, $lock:ident, $new:ident, $print:ident) => {
            pub struct $name(());
            pub type $lock<'a> = $name;
            pub fn $new() -> $name {
                $name(())
            }
            impl $name {
                pub fn lock(&self) -> $name {
                    $name(())
                }
            }
            impl Write for $name {
                fn write(&mut self, b: &[u8]) -> Result<usize> {
                    ::std::$print!("{}", unsafe { ::std::str::from_utf8_unchecked(b) });
                    Ok(b.len())
                }
                fn flush(&mut self) -> Result<()> {
                    Ok(())
                }
                fn write_fmt(&mut self, a: ::std::fmt::Arguments<'_>) -> Result<()> {
                    ::std::$print!("{}", a);
                    Ok(())
                }
            }
        };
    }
    stream!(Stdout, StdoutLock, stdout, print);
    stream!(Stderr, StderrLock, stderr, eprint);
}
