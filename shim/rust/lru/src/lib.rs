//! Stand-in for the lru crate: a bounded map which forgets the entry used least recently.
use std::{borrow::Borrow, collections::{BTreeMap, HashMap}, hash::{BuildHasher, Hash}, num::NonZeroUsize};

pub type DefaultHasher = std::collections::hash_map::RandomState;

pub struct LruCache<K, V, S = DefaultHasher> {
    capacity: usize,
    clock: u64,
    map: HashMap<std::rc::Rc<K>, (u64, V), S>,
    order: BTreeMap<u64, std::rc::Rc<K>>,
}

// the counted references never leave the cache
unsafe impl<K: Send, V: Send, S: Send> Send for LruCache<K, V, S> {}

impl<K: Hash + Eq, V, S: BuildHasher> LruCache<K, V, S> {
    pub fn with_hasher(capacity: NonZeroUsize, hasher: S) -> Self {
        LruCache { capacity: capacity.get(), clock: 0, map: HashMap::with_hasher(hasher), order: BTreeMap::new() }
    }

    pub fn len(&self) -> usize { self.map.len() }

    fn touch<Q: Hash + Eq + ?Sized>(&mut self, key: &Q) -> bool where std::rc::Rc<K>: Borrow<Q> {
        self.clock += 1;
        match self.map.get_mut(key) {
            None => false,
            Some((at, _)) => {
                let k = self.order.remove(at).unwrap();
                *at = self.clock;
                self.order.insert(self.clock, k);
                true
            }
        }
    }

    fn insert(&mut self, key: K, value: V) -> &V {
        if self.map.len() >= self.capacity {
            let (_, old) = self.order.pop_first().unwrap();
            self.map.remove(&old);
        }
        let key = std::rc::Rc::new(key);
        self.order.insert(self.clock, key.clone());
        &self.map.entry(key).or_insert((self.clock, value)).1
    }

    pub fn get_or_insert(&mut self, key: K, f: impl FnOnce() -> V) -> &V {
        if self.touch::<K>(&key) {
            return &self.map[&key].1;
        }
        let value = f();
        self.insert(key, value)
    }

    pub fn get_or_insert_ref<Q>(&mut self, key: &Q, f: impl FnOnce() -> V) -> &V
    where K: Borrow<Q>, Q: ToOwned<Owned = K> + Hash + Eq {
        self.get_or_insert(key.to_owned(), f)
    }
}
