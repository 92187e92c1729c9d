pub use ::std::collections::*;
use ::std::collections as sc;
use ::std::hash::{BuildHasher, Hash, Hasher};
use ::std::ops::{Deref, DerefMut};

/// Deterministic, seedable replacement of RandomState: iteration order of the maps is fixed per run.
#[derive(Clone, Copy, Debug)]
pub struct DetState(u64);
impl Default for DetState {
  fn default() -> Self {
    DetState(crate::rt::hash_seed())
  }
}
pub struct DetHasher(u64);
impl Hasher for DetHasher {
  fn finish(&self) -> u64 {
    let mut x = self.0;
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51afd7ed558ccd);
    x ^= x >> 33;
    x = x.wrapping_mul(0xc4ceb9fe1a85ec53);
    x ^ (x >> 33)
  }
  fn write(&mut self, bytes: &[u8]) {
    for b in bytes {
      self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
    }
  }
}
impl BuildHasher for DetState {
  type Hasher = DetHasher;
  fn build_hasher(&self) -> DetHasher {
    DetHasher(0xcbf29ce484222325 ^ self.0.wrapping_mul(0x9E3779B97F4A7C15))
  }
}

macro_rules! common {
  ($name:ident<$($g:ident),*>, $inner:ty) => {
    impl<$($g),*> Deref for $name<$($g),*> {
      type Target = $inner;
      fn deref(&self) -> &$inner { &self.0 }
    }
    impl<$($g),*> DerefMut for $name<$($g),*> {
      fn deref_mut(&mut self) -> &mut $inner { &mut self.0 }
    }
    impl<$($g),*> Default for $name<$($g),*> {
      fn default() -> Self { Self::new() }
    }
    impl<$($g: Clone),*> Clone for $name<$($g),*> {
      fn clone(&self) -> Self { $name(self.0.clone()) }
    }
  };
}

pub struct HashMap<K, V>(sc::HashMap<K, V, DetState>);
common!(HashMap<K, V>, sc::HashMap<K, V, DetState>);
impl<K, V> HashMap<K, V> {
  pub fn new() -> Self {
    HashMap(sc::HashMap::with_hasher(DetState::default()))
  }
  pub fn with_capacity(n: usize) -> Self {
    HashMap(sc::HashMap::with_capacity_and_hasher(n, DetState::default()))
  }
  pub fn into_keys(self) -> sc::hash_map::IntoKeys<K, V> {
    self.0.into_keys()
  }
  pub fn into_values(self) -> sc::hash_map::IntoValues<K, V> {
    self.0.into_values()
  }
}
impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> {
  fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
    let mut m = Self::new();
    m.0.extend(it);
    m
  }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
  fn from(a: [(K, V); N]) -> Self {
    a.into_iter().collect()
  }
}
impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> {
  fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
    self.0.extend(it)
  }
}
impl<K, V> IntoIterator for HashMap<K, V> {
  type Item = (K, V);
  type IntoIter = sc::hash_map::IntoIter<K, V>;
  fn into_iter(self) -> Self::IntoIter {
    self.0.into_iter()
  }
}
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
  type Item = (&'a K, &'a V);
  type IntoIter = sc::hash_map::Iter<'a, K, V>;
  fn into_iter(self) -> Self::IntoIter {
    self.0.iter()
  }
}
impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
  type Item = (&'a K, &'a mut V);
  type IntoIter = sc::hash_map::IterMut<'a, K, V>;
  fn into_iter(self) -> Self::IntoIter {
    self.0.iter_mut()
  }
}
impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> {
  fn eq(&self, o: &Self) -> bool {
    self.0 == o.0
  }
}
impl<K: ::std::fmt::Debug, V: ::std::fmt::Debug> ::std::fmt::Debug for HashMap<K, V> {
  fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
    self.0.fmt(f)
  }
}

pub struct HashSet<T>(sc::HashSet<T, DetState>);
common!(HashSet<T>, sc::HashSet<T, DetState>);
impl<T> HashSet<T> {
  pub fn new() -> Self {
    HashSet(sc::HashSet::with_hasher(DetState::default()))
  }
  pub fn with_capacity(n: usize) -> Self {
    HashSet(sc::HashSet::with_capacity_and_hasher(n, DetState::default()))
  }
}
impl<T: Eq + Hash> FromIterator<T> for HashSet<T> {
  fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
    let mut m = Self::new();
    m.0.extend(it);
    m
  }
}
impl<T: Eq + Hash> Extend<T> for HashSet<T> {
  fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
    self.0.extend(it)
  }
}
impl<T> IntoIterator for HashSet<T> {
  type Item = T;
  type IntoIter = sc::hash_set::IntoIter<T>;
  fn into_iter(self) -> Self::IntoIter {
    self.0.into_iter()
  }
}
impl<'a, T> IntoIterator for &'a HashSet<T> {
  type Item = &'a T;
  type IntoIter = sc::hash_set::Iter<'a, T>;
  fn into_iter(self) -> Self::IntoIter {
    self.0.iter()
  }
}
impl<T: ::std::fmt::Debug> ::std::fmt::Debug for HashSet<T> {
  fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
    self.0.fmt(f)
  }
}
