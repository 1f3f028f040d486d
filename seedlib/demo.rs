// A differential program: the crate against a BTreeMap model, over key types whose hashes collide in chosen ways.
#![allow(dead_code, clippy::all)]
use futures_executor::block_on;
use hash_trie::results::*;
use hash_trie::traits::*;
use hash_trie::transformations::*;
use hash_trie::{HashTrieMap, HashTrieSet, ParallelismStrategy};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

macro_rules! keytype {
    ($k:ident, $o:ident) => {
        #[derive(Clone, Debug, Default)]
        pub struct $k { pub id: u32, pub mode: u8, pub tag: u32 }
        impl PartialEq for $k { fn eq(&self, o: &$k) -> bool { self.id == o.id } }
        impl Eq for $k {}
        impl PartialEq<$o> for $k { fn eq(&self, o: &$o) -> bool { self.id == o.id } }
        impl HashLike<$o> for $k {}
        impl Hash for $k { fn hash<S: Hasher>(&self, s: &mut S) { self.id.hash(s) } }
        impl From<$k> for (u32, u32) { fn from(k: $k) -> Self { (k.id, k.tag) } }
    };
}
keytype!(K, Q);
keytype!(Q, K);

fn spread(id: u32, mode: u8, bits: u32) -> u128 {
    let id = id as u128;
    match mode {
        0 => (id + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835) ^ ((id + 77).wrapping_mul(0xD134_2543_DE82_EF95) >> 7),
        1 => id,
        2 => id % 3,
        3 => (id % 4) << (bits - 2),
        4 => ((id % 7) << (bits - 3)) | 5,
        5 => (id & 1) | (((id >> 1) % 3) << (bits / 2)),
        6 => 0,
        7 => !((id % 2) << (bits - 1)),
        8 => id % 33,
        _ => ((id % 11) << (bits / 2)) | ((id % 2) << (bits - 1)),
    }
}
const MODES: u8 = 10;

#[derive(Clone, Default)]
pub struct Mix;
macro_rules! mix { ($($t:ty),*) => {$(
    impl HasherBv<$t, K> for Mix { fn hash(&self, k: &K) -> $t { spread(k.id, k.mode, <$t>::BITS) as $t } }
    impl HasherBv<$t, Q> for Mix { fn hash(&self, k: &Q) -> $t { spread(k.id, k.mode, <$t>::BITS) as $t } }
)*} }
mix!(u8, u16, u32, u64, u128);

pub struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 11 }
    fn below(&mut self, n: u64) -> u64 { self.next() % n }
}
fn pick(id: u32, seed: u64, n: u64) -> u64 {
    let mut r = Rng((id as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (seed + 3).wrapping_mul(0xD134_2543_DE82_EF95) | 1);
    r.next(); r.next(); r.next() % n
}

pub type Log = Vec<(u8, u32, i64, u32, i64)>;
fn cat(a: &Log, b: &Log) -> Log { let mut c = a.clone(); c.extend(b.iter().cloned()); c }
fn sorted(mut l: Log) -> Log { l.sort(); l }
type Model = BTreeMap<u32, (u32, i64)>;

macro_rules! consts { ($c:tt) => {}; ([$ml:ident $mr:ident $dl:ident $dr:ident $par:ident $ids:ident $mode:ident] $b:ident $both:ident, $l:ident $left:ident, $r:ident $right:ident; $($rest:tt)*) => {
    let (n, _) = block_on($ml.transform_with_transformed(&$mr, cat, $both(Log::new()), $left(Log::new()), $right(Log::new()), $par));
    let (b, l, r) = (stringify!($b), stringify!($l), stringify!($r));
    let x: Model = (0..$ids).filter_map(|id| match ($dl.get(&id), $dr.get(&id)) { (Some(a), Some(c)) => if b == "L" { Some((id, *a)) } else if b == "R" { Some((id, *c)) } else { None }, (Some(a), None) => if l == "K" { Some((id, *a)) } else { None }, (None, Some(c)) => if r == "K" { Some((id, *c)) } else { None }, _ => None }).collect();
    assert_eq!(dump(&n), x, "constant operations");
    check(&n, &x, $mode, $ids);
    consts!([$ml $mr $dl $dr $par $ids $mode] $($rest)*);
} }
macro_rules! suite {
    ($m:ident, $h:ty, $f:ty) => {
        mod $m {
            use super::*;
            type Map = HashTrieMap<$h, $f, K, i64, Mix>;
            type QMap = HashTrieMap<$h, $f, Q, i64, Mix>;
            type Set = HashTrieSet<$h, $f, K, Mix>;
            type QSet = HashTrieSet<$h, $f, Q, Mix>;

            fn dump(m: &Map) -> Model {
                let out = RefCell::new(Vec::new());
                m.visit(|k: &K, v: &i64| out.borrow_mut().push((k.id, (k.tag, *v))));
                let v = out.into_inner();
                let b: Model = v.iter().cloned().collect();
                assert_eq!(b.len(), v.len(), "an entry is visited twice");
                b
            }
            fn qdump(m: &QMap) -> Model {
                let out = RefCell::new(Vec::new());
                m.visit(|k: &Q, v: &i64| out.borrow_mut().push((k.id, (k.tag, *v))));
                let v = out.into_inner();
                let b: Model = v.iter().cloned().collect();
                assert_eq!(b.len(), v.len(), "an entry is visited twice");
                b
            }
            fn sdump(m: &Set) -> BTreeMap<u32, u32> {
                let out = RefCell::new(Vec::new());
                m.visit(|k: &K| out.borrow_mut().push((k.id, k.tag)));
                let v = out.into_inner();
                let b: BTreeMap<u32, u32> = v.iter().cloned().collect();
                assert_eq!(b.len(), v.len(), "an entry is visited twice");
                b
            }
            fn places(m: &Map) -> BTreeMap<u32, (usize, usize)> {
                let out = RefCell::new(BTreeMap::new());
                m.visit(|k: &K, v: &i64| { out.borrow_mut().insert(k.id, (k as *const K as usize, v as *const i64 as usize)); });
                out.into_inner()
            }
            fn hash(id: u32, mode: u8) -> $h { spread(id, mode, <$h>::BITS) as $h }
            fn check(m: &Map, d: &Model, mode: u8, ids: u32) {
                assert_eq!(&dump(m), d, "the entries");
                assert_eq!(m.size(), d.len(), "the size");
                for id in 0..ids {
                    match (m.find(&K { id, mode, tag: 0 }), d.get(&id)) {
                        (Ok((k, v)), Some((t, w))) => assert!(k.id == id && k.tag == *t && v == w, "find of {}", id),
                        (Err(HashTrieError::NotFound), None) => (),
                        _ => panic!("find of {}", id),
                    }
                    match (m.find(&Q { id, mode, tag: 0 }), d.get(&id)) {
                        (Ok((k, v)), Some((t, w))) => assert!(k.id == id && k.tag == *t && v == w, "find of {}", id),
                        (Err(HashTrieError::NotFound), None) => (),
                        _ => panic!("find of {}", id),
                    }
                }
                // a node put in the wrong place or with a wrong size shows up when it is worked on
                let mut left = m.clone();
                let mut n = d.len();
                for id in d.keys() {
                    let (next, k, _) = left.remove(&K { id: *id, mode, tag: 0 }).unwrap();
                    assert_eq!(k.id, *id);
                    n -= 1;
                    assert_eq!(next.size(), n, "the size after removing");
                    left = next;
                }
            }
            fn qcheck(m: &QMap, d: &Model, mode: u8, ids: u32) {
                assert_eq!(&qdump(m), d, "the entries");
                assert_eq!(m.size(), d.len(), "the size");
                for id in 0..ids {
                    match (m.find(&Q { id, mode, tag: 0 }), d.get(&id)) {
                        (Ok((k, v)), Some((t, w))) => assert!(k.id == id && k.tag == *t && v == w),
                        (Err(HashTrieError::NotFound), None) => (),
                        _ => panic!("find of {}", id),
                    }
                }
            }
            fn step(r: &mut Rng, m: &Map, d: &Model, mode: u8, ids: u32) -> (Map, Model) {
                let id = r.below(ids as u64) as u32;
                let mut e = d.clone();
                if r.below(3) > 0 {
                    let (tag, val, replace) = (r.below(1000) as u32, r.below(100_000) as i64, r.below(2) == 0);
                    match m.insert(K { id, mode, tag }, val, replace) {
                        Ok((n, k, v, prev)) => {
                            match (prev, d.get(&id)) {
                                (Some((pk, pv)), Some((t, w))) => { assert!(replace && pk.id == id && pk.tag == *t && pv == w, "what insert replaced"); }
                                (None, None) => (),
                                _ => panic!("what insert says was there"),
                            }
                            e.insert(id, (tag, val));
                            let (fk, fv) = n.find(&K { id, mode, tag: 0 }).expect("the inserted key");
                            assert!(k == fk as *const K && v == fv as *const i64, "insert's references");
                            let (a, b) = (places(m), places(&n));
                            for (i, p) in &a { if hash(*i, mode) != hash(id, mode) { assert_eq!(b.get(i), Some(p), "an untouched entry moved"); } }
                            (n, e)
                        }
                        Err((k, v)) => {
                            let (t, w) = d.get(&id).expect("insert refused a new key");
                            assert!(!replace && k.id == id && k.tag == *t && v == w, "what insert found");
                            (m.clone(), e)
                        }
                    }
                } else {
                    match m.remove(&K { id, mode, tag: 0 }) {
                        Ok((n, k, v)) => {
                            let (t, w) = e.remove(&id).expect("remove found what is not there");
                            assert!(k.id == id && k.tag == t && *v == w, "what remove returns");
                            let (a, b) = (places(m), places(&n));
                            for (i, p) in &a { if hash(*i, mode) != hash(id, mode) { assert_eq!(b.get(i), Some(p), "an untouched entry moved"); } }
                            (n, e)
                        }
                        Err(_) => { assert!(!d.contains_key(&id), "remove did not find {}", id); (m.clone(), e) }
                    }
                }
            }
            pub fn build(r: &mut Rng, mode: u8, ids: u32, n: u64) -> (Map, Model) {
                let (mut m, mut d) = (Map::new(), Model::new());
                for _ in 0..n {
                    let id = r.below(ids as u64) as u32;
                    let (tag, val) = (r.below(1000) as u32, r.below(100_000) as i64);
                    if let Ok((x, ..)) = m.insert(K { id, mode, tag }, val, true) { m = x; }
                    d.insert(id, (tag, val));
                }
                (m, d)
            }
            fn qbuild(r: &mut Rng, mode: u8, ids: u32, n: u64) -> (QMap, Model) {
                let (mut m, mut d) = (QMap::new(), Model::new());
                for _ in 0..n {
                    let id = r.below(ids as u64) as u32;
                    let (tag, val) = (r.below(1000) as u32, r.below(100_000) as i64);
                    if let Ok((x, ..)) = m.insert(Q { id, mode, tag }, val, true) { m = x; }
                    d.insert(id, (tag, val));
                }
                (m, d)
            }
            pub fn history(seed: u64) {
                for mode in 0..MODES {
                    for ids in [4u32, 12, 90] {
                        let mut r = Rng(seed * 1000 + mode as u64 * 10 + ids as u64 + 1);
                        let mut pool: Vec<(Map, Model)> = vec![(Map::new(), Model::new())];
                        for _ in 0..(40 + ids as u64) {
                            let i = if r.below(4) == 0 { r.below(pool.len() as u64) as usize } else { pool.len() - 1 };
                            let (m, d) = step(&mut r, &pool[i].0, &pool[i].1, mode, ids);
                            if pool.len() < 12 { pool.push((m, d)); } else { let j = 1 + r.below(11) as usize; pool[j] = (m, d); let k = pool.len() - 1; pool.swap(j, k); }
                        }
                        for (m, d) in &pool { check(m, d, mode, ids); }
                    }
                }
            }
            pub fn single(seed: u64) {
                for mode in 0..MODES {
                    for ids in [3u32, 9, 60] {
                        let mut r = Rng(seed * 999 + mode as u64 * 10 + ids as u64 + 7);
                        for size in [1u64, 3, 8, 40] {
                            let (m, d) = build(&mut r, mode, ids, size);
                            let before = places(&m);
                            for (s, par) in [(0u64, ParallelismStrategy::Sequential), (1, ParallelismStrategy::MiddleIndex), (0, ParallelismStrategy::MiddleIndex), (2, ParallelismStrategy::Sequential)] {
                                let seen = RefCellSync::new();
                                let (n, log) = block_on(m.transform(cat, new_map_transform_generic(|k: &K, v: &i64| {
                                    seen.push((0, k.id, *v, k.tag, 0));
                                    let l = vec![(0, k.id, *v, k.tag, 0)];
                                    match pick(k.id, s, 3) { 0 => MapTransformResult::Unchanged(l), 1 => MapTransformResult::Transformed(*v + 1, l), _ => MapTransformResult::Removed(l) }
                                }), par));
                                let all: Log = d.iter().map(|(i, (t, v))| (0, *i, *v, *t, 0)).collect();
                                assert_eq!(sorted(log), all, "the reduction");
                                assert_eq!(sorted(seen.take()), all, "the calls");
                                let e: Model = d.iter().filter_map(|(i, (t, v))| match pick(*i, s, 3) { 0 => Some((*i, (*t, *v))), 1 => Some((*i, (*t, *v + 1))), _ => None }).collect();
                                check(&n, &e, mode, ids);
                                assert_eq!(dump(&m), d, "the input");
                                let (n, log) = block_on(m.transform(cat, new_map_transform_generic(|k: &K, v: &i64| MapTransformResult::Unchanged(vec![(0, k.id, *v, k.tag, 0)])), par));
                                assert_eq!(sorted(log), all);
                                assert_eq!(places(&n), before, "an unchanged map was copied");
                                assert!(n == m, "an unchanged map is not equal");
                                let (n, _) = block_on(m.transform(cat, new_map_transform_removed(vec![(9, 0, 0, 0, 0)]), par));
                                assert_eq!(n.size(), 0);
                                let (n, log) = block_on(m.transform(cat, new_map_transform_unchanged(vec![(9, 0, 0, 0, 0)]), par));
                                let _ = log;
                                assert_eq!(places(&n), before);
                            }
                            for s in 0..3u64 {
                                let (n, log): (QMap, Log) = unsafe { m.transmute(cat, new_map_transmute_generic(|k: &K, v: &i64| {
                                    let l = vec![(0, k.id, *v, k.tag, 0)];
                                    match pick(k.id, s, 3) { 0 => MapTransmuteResult::Removed(l), _ => MapTransmuteResult::Transmuted(Q { id: k.id, mode: k.mode, tag: k.tag + 1 }, *v * 2, l) }
                                })) };
                                let all: Log = d.iter().map(|(i, (t, v))| (0, *i, *v, *t, 0)).collect();
                                assert_eq!(sorted(log), all, "the reduction");
                                let e: Model = d.iter().filter_map(|(i, (t, v))| match pick(*i, s, 3) { 0 => None, _ => Some((*i, (*t + 1, *v * 2))) }).collect();
                                qcheck(&n, &e, mode, ids);
                            }
                        }
                    }
                }
            }
            pub fn joint(seed: u64) {
                for mode in 0..MODES {
                    for ids in [3u32, 7, 40] {
                        let mut r = Rng(seed * 777 + mode as u64 * 10 + ids as u64 + 3);
                        for (nl, nr) in [(0u64, 3u64), (3, 0), (1, 1), (2, 5), (6, 3), (9, 9), (40, 30), (30, 1)] {
                            let (ml, dl) = build(&mut r, mode, ids, nl);
                            let (mr, dr) = {
                                // share part of the history, so that branches of both sides are the same nodes
                                let (mut m, mut d) = if r.below(2) == 0 { (ml.clone(), dl.clone()) } else { (Map::new(), Model::new()) };
                                for _ in 0..nr {
                                    let id = r.below(ids as u64) as u32;
                                    if r.below(3) == 0 { if let Ok((x, ..)) = m.remove(&K { id, mode, tag: 0 }) { m = x; d.remove(&id); } }
                                    else { let (tag, val) = (r.below(1000) as u32, r.below(100_000) as i64); m = m.insert(K { id, mode, tag }, val, true).unwrap().0; d.insert(id, (tag, val)); }
                                }
                                (m, d)
                            };
                            for (s, par) in [(0u64, ParallelismStrategy::Sequential), (1, ParallelismStrategy::MiddleIndex), (2, ParallelismStrategy::Sequential), (3, ParallelismStrategy::MiddleIndex), (4, ParallelismStrategy::Sequential)] {
                                let both = |k: &K, v: &i64, l: &K, w: &i64| {
                                    assert!(k.id == l.id, "a pair of different keys");
                                    let g = vec![(2u8, k.id, *v, l.tag, *w)];
                                    let same = k.tag == l.tag && v == w;
                                    match pick(k.id, s, 4) { 0 if same => MapJointTransformResult::UnchangedLR(g), 0 | 1 => MapJointTransformResult::UnchangedL(g), 2 => MapJointTransformResult::UnchangedR(g),
                                        3 if s % 2 == 0 => MapJointTransformResult::Transformed(*v * 3 + *w, g), _ => MapJointTransformResult::Removed(g) }
                                };
                                let one = |side: u8| move |k: &K, v: &i64| {
                                    let g = vec![(side, k.id, *v, k.tag, 0i64)];
                                    match pick(k.id, s + 10 * side as u64, 3) { 0 => MapTransformResult::Unchanged(g), 1 => MapTransformResult::Transformed(*v + 7, g), _ => MapTransformResult::Removed(g) }
                                };
                                let (n, log) = block_on(ml.transform_with_transformed(&mr, cat, new_map_joint_transform_generic(both), new_map_transform_generic(one(0)), new_map_transform_generic(one(1)), par));
                                let (mut e, mut g) = (Model::new(), Log::new());
                                for id in 0..ids {
                                    match (dl.get(&id), dr.get(&id)) {
                                        (Some((t, v)), Some((u, w))) => {
                                            g.push((2, id, *v, *u, *w));
                                            match pick(id, s, 4) { 0 | 1 => { e.insert(id, (*t, *v)); } 2 => { e.insert(id, (*u, *w)); } 3 if s % 2 == 0 => { e.insert(id, (*t, *v * 3 + *w)); } _ => () }
                                        }
                                        (Some((t, v)), None) => { g.push((0, id, *v, *t, 0)); match pick(id, s, 3) { 0 => { e.insert(id, (*t, *v)); } 1 => { e.insert(id, (*t, *v + 7)); } _ => () } }
                                        (None, Some((t, v))) => { g.push((1, id, *v, *t, 0)); match pick(id, s + 10, 3) { 0 => { e.insert(id, (*t, *v)); } 1 => { e.insert(id, (*t, *v + 7)); } _ => () } }
                                        _ => (),
                                    }
                                }
                                assert_eq!(sorted(log), sorted(g), "the joint reduction");
                                let strip = |d: &Model| -> BTreeMap<u32, i64> { d.iter().map(|(i, (_, v))| (*i, *v)).collect() };
                                let got = dump(&n);
                                assert_eq!(strip(&got), strip(&e), "the joint entries");
                                check(&n, &got, mode, ids);
                                for (i, (t, _)) in &got { if pick(*i, s, 4) < 3 || !(dl.contains_key(i) && dr.contains_key(i)) { assert_eq!(*t, e[i].0, "the key of the kept entry"); } }
                                assert_eq!(dump(&ml), dl); assert_eq!(dump(&mr), dr);
                                // keeping one side entirely is that side
                                let (n, _) = block_on(ml.transform_with_transformed(&mr, cat, new_map_joint_transform_unchangedl(Log::new()), new_map_transform_unchanged(Log::new()), new_map_transform_removed(Log::new()), par));
                                assert_eq!(dump(&n), dl, "keeping the left side");
                                let (n, _) = block_on(ml.transform_with_transformed(&mr, cat, new_map_joint_transform_unchangedr(Log::new()), new_map_transform_removed(Log::new()), new_map_transform_unchanged(Log::new()), par));
                                assert_eq!(dump(&n), dr, "keeping the right side");
                                let (n, _) = block_on(ml.transform_with_transformed(&mr, cat, new_map_joint_transform_removed(Log::new()), new_map_transform_unchanged(Log::new()), new_map_transform_unchanged(Log::new()), par));
                                let x: Model = dl.iter().filter(|(i, _)| !dr.contains_key(i)).chain(dr.iter().filter(|(i, _)| !dl.contains_key(i))).map(|(i, e)| (*i, *e)).collect();
                                check(&n, &x, mode, ids);
                                consts!([ml mr dl dr par ids mode] L new_map_joint_transform_unchangedl, K new_map_transform_unchanged, K new_map_transform_unchanged; R new_map_joint_transform_unchangedr, K new_map_transform_unchanged, K new_map_transform_unchanged;
                                    L new_map_joint_transform_unchangedl, D new_map_transform_removed, D new_map_transform_removed; R new_map_joint_transform_unchangedr, D new_map_transform_removed, D new_map_transform_removed;
                                    L new_map_joint_transform_unchangedl, D new_map_transform_removed, K new_map_transform_unchanged; R new_map_joint_transform_unchangedr, K new_map_transform_unchanged, D new_map_transform_removed;
                                    D new_map_joint_transform_removed, K new_map_transform_unchanged, D new_map_transform_removed; D new_map_joint_transform_removed, D new_map_transform_removed, K new_map_transform_unchanged;
                                    D new_map_joint_transform_removed, D new_map_transform_removed, D new_map_transform_removed;);
                                if s == 0 {
                                    let (n, _) = block_on(ml.transform_with_transformed(&ml, cat, new_map_joint_transform_unchangedlr(Log::new()), new_map_transform_unchanged(Log::new()), new_map_transform_unchanged(Log::new()), par));
                                    assert_eq!(places(&n), places(&ml), "an unchanged map was copied");
                                    let (n, log) = block_on(ml.transform_with_transformed(&ml.clone(), cat, new_map_joint_transform_generic(|k: &K, v: &i64, l: &K, w: &i64| { assert!(k.id == l.id); MapJointTransformResult::UnchangedL(vec![(2, k.id, *v, l.tag, *w)]) }), new_map_transform_removed(Log::new()), new_map_transform_removed(Log::new()), par));
                                    assert_eq!(dump(&n), dl); let _ = log;
                                }
                            }
                            mixed(&mut r, mode, ids, &ml, &dl, nr);
                            for (s, par) in [(0u64, ParallelismStrategy::Sequential), (1, ParallelismStrategy::MiddleIndex)] {
                                let bop = |k: &K, v: &i64, l: &K, w: &i64| { assert!(k.id == l.id); let g = vec![(2u8, k.id, *v, l.tag, *w)]; match pick(k.id, s, 3) { 0 => MapTransformResult::Unchanged(g), 1 => MapTransformResult::Transformed(*v + 10 * *w, g), _ => MapTransformResult::Removed(g) } };
                                let top = |side: u8| move |k: &K, v: &i64| { let g = vec![(side, k.id, *v, k.tag, 0i64)]; match pick(k.id, s + 10 * side as u64, 3) { 0 => MapTransformResult::Unchanged(g), 1 => MapTransformResult::Transformed(*v + 7, g), _ => MapTransformResult::Removed(g) } };
                                let mop = |side: u8| move |k: &K, v: &i64| { let g = vec![(side, k.id, *v, k.tag, 0i64)]; match pick(k.id, s + 10 * side as u64, 2) { 0 => SetTransmuteResult::Transmuted(*v + 9, g), _ => SetTransmuteResult::Removed(g) } };
                                let mut g = Log::new();
                                for id in 0..ids { match (dl.get(&id), dr.get(&id)) { (Some((_, v)), Some((u, w))) => g.push((2, id, *v, *u, *w)), (Some((t, v)), None) => g.push((0, id, *v, *t, 0)), (None, Some((t, v))) => g.push((1, id, *v, *t, 0)), _ => () } }
                                let (n, log) = block_on(ml.transform_with_transfuted(&mr, cat, new_map_transform_transmute_generic(bop), new_map_transform_generic(top(0)), new_set_transmute_generic2(mop(1)), par));
                                assert_eq!(sorted(log), sorted(g.clone()), "transfuted reduction");
                                let e: BTreeMap<u32, i64> = (0..ids).filter_map(|id| match (dl.get(&id), dr.get(&id)) {
                                    (Some((_, v)), Some((_, w))) => match pick(id, s, 3) { 0 => Some((id, *v)), 1 => Some((id, *v + 10 * *w)), _ => None },
                                    (Some((_, v)), None) => match pick(id, s, 3) { 0 => Some((id, *v)), 1 => Some((id, *v + 7)), _ => None },
                                    (None, Some((_, v))) => match pick(id, s + 10, 2) { 0 => Some((id, *v + 9)), _ => None },
                                    _ => None }).collect();
                                let got = dump(&n);
                                assert_eq!(got.iter().map(|(i, (_, v))| (*i, *v)).collect::<BTreeMap<_, _>>(), e, "transfuted entries");
                                check(&n, &got, mode, ids);
                                let (n, log) = block_on(ml.transfute_with_transformed(&mr, cat, new_map_transmute_transform_generic(bop), new_set_transmute_generic2(mop(0)), new_map_transform_generic(top(1)), par));
                                assert_eq!(sorted(log), sorted(g), "transfuted reduction");
                                let e: BTreeMap<u32, i64> = (0..ids).filter_map(|id| match (dl.get(&id), dr.get(&id)) {
                                    (Some((_, v)), Some((_, w))) => match pick(id, s, 3) { 0 => Some((id, *w)), 1 => Some((id, *v + 10 * *w)), _ => None },
                                    (None, Some((_, v))) => match pick(id, s + 10, 3) { 0 => Some((id, *v)), 1 => Some((id, *v + 7)), _ => None },
                                    (Some((_, v)), None) => match pick(id, s, 2) { 0 => Some((id, *v + 9)), _ => None },
                                    _ => None }).collect();
                                let got = dump(&n);
                                assert_eq!(got.iter().map(|(i, (_, v))| (*i, *v)).collect::<BTreeMap<_, _>>(), e, "transfuted entries");
                                check(&n, &got, mode, ids);
                            }
                        }
                    }
                }
            }
            fn mixed(r: &mut Rng, mode: u8, ids: u32, ml: &Map, dl: &Model, nr: u64) {
                let (mr, dr) = qbuild(r, mode, ids, nr);
                let mut g = Log::new();
                for id in 0..ids { match (dl.get(&id), dr.get(&id)) { (Some((_, v)), Some((u, w))) => g.push((2, id, *v, *u, *w)), (Some((t, v)), None) => g.push((0, id, *v, *t, 0)), (None, Some((t, v))) => g.push((1, id, *v, *t, 0)), _ => () } }
                let g = sorted(g);
                let ftag = 5000u32;
                for (s, par) in [(0u64, ParallelismStrategy::Sequential), (1, ParallelismStrategy::MiddleIndex), (2, ParallelismStrategy::Sequential), (5, ParallelismStrategy::MiddleIndex)] {
                    let bop = |k: &K, v: &i64, l: &Q, w: &i64| { assert!(k.id == l.id); let g = vec![(2u8, k.id, *v, l.tag, *w)]; match pick(k.id, s, 3) { 0 => MapTransformResult::Unchanged(g), 1 => MapTransformResult::Transformed(*v + 10 * *w, g), _ => MapTransformResult::Removed(g) } };
                    let lt = |k: &K, v: &i64| { let g = vec![(0u8, k.id, *v, k.tag, 0i64)]; match pick(k.id, s, 3) { 0 => MapTransformResult::Unchanged(g), 1 => MapTransformResult::Transformed(*v + 7, g), _ => MapTransformResult::Removed(g) } };
                    let rt = |k: &Q, v: &i64| { let g = vec![(1u8, k.id, *v, k.tag, 0i64)]; match pick(k.id, s + 10, 3) { 0 => MapTransformResult::Unchanged(g), 1 => MapTransformResult::Transformed(*v + 7, g), _ => MapTransformResult::Removed(g) } };
                    let lm = |k: &K, v: &i64| { let g = vec![(0u8, k.id, *v, k.tag, 0i64)]; match pick(k.id, s, 2) { 0 => MapTransmuteResult::Transmuted(Q { id: k.id, mode: k.mode, tag: k.tag + ftag }, *v + 9, g), _ => MapTransmuteResult::Removed(g) } };
                    let rm = |k: &Q, v: &i64| { let g = vec![(1u8, k.id, *v, k.tag, 0i64)]; match pick(k.id, s + 10, 2) { 0 => MapTransmuteResult::Transmuted(K { id: k.id, mode: k.mode, tag: k.tag + ftag }, *v + 9, g), _ => MapTransmuteResult::Removed(g) } };
                    let rmq = |k: &Q, v: &i64| { let g = vec![(1u8, k.id, *v, k.tag, 0i64)]; match pick(k.id, s + 10, 2) { 0 => MapTransmuteResult::Transmuted(Q { id: k.id, mode: k.mode, tag: k.tag + ftag }, *v + 9, g), _ => MapTransmuteResult::Removed(g) } };
                    let bm = |k: &K, v: &i64, l: &Q, w: &i64| { assert!(k.id == l.id); let g = vec![(2u8, k.id, *v, l.tag, *w)]; match pick(k.id, s, 2) { 0 => MapTransmuteResult::Transmuted(Q { id: k.id, mode: k.mode, tag: k.tag + 1 }, *v + 10 * *w, g), _ => MapTransmuteResult::Removed(g) } };
                    let (n, log) = block_on(unsafe { ml.transform_with_transmuted(&mr, cat, new_map_transform_transmute_generic(bop), new_map_transform_generic(lt), new_map_transmute_generic(rm), par) });
                    assert_eq!(sorted(log), g, "the mixed reduction");
                    let e: Model = (0..ids).filter_map(|id| match (dl.get(&id), dr.get(&id)) {
                        (Some((t, v)), Some((_, w))) => match pick(id, s, 3) { 0 => Some((id, (*t, *v))), 1 => Some((id, (*t, *v + 10 * *w))), _ => None },
                        (Some((t, v)), None) => match pick(id, s, 3) { 0 => Some((id, (*t, *v))), 1 => Some((id, (*t, *v + 7))), _ => None },
                        (None, Some((t, v))) => match pick(id, s + 10, 2) { 0 => Some((id, (*t + ftag, *v + 9))), _ => None },
                        _ => None }).collect();
                    check(&n, &e, mode, ids);
                    let (n, log) = block_on(unsafe { ml.transmute_with_transformed(&mr, cat, new_map_transmute_transform_generic(bop), new_map_transmute_generic(lm), new_map_transform_generic(rt), par) });
                    assert_eq!(sorted(log), g, "the mixed reduction");
                    let e: Model = (0..ids).filter_map(|id| match (dl.get(&id), dr.get(&id)) {
                        (Some((_, v)), Some((u, w))) => match pick(id, s, 3) { 0 => Some((id, (*u, *w))), 1 => Some((id, (*u, *v + 10 * *w))), _ => None },
                        (None, Some((t, v))) => match pick(id, s + 10, 3) { 0 => Some((id, (*t, *v))), 1 => Some((id, (*t, *v + 7))), _ => None },
                        (Some((t, v)), None) => match pick(id, s, 2) { 0 => Some((id, (*t + ftag, *v + 9))), _ => None },
                        _ => None }).collect();
                    qcheck(&n, &e, mode, ids);
                    let (n, log): (QMap, Log) = unsafe { ml.transmute_with_transmuted(&mr, cat, new_map_transmute_transmute_generic(bm), new_map_transmute_generic(lm), new_map_transmute_generic(rmq)) };
                    assert_eq!(sorted(log), g, "the mixed reduction");
                    let e: Model = (0..ids).filter_map(|id| match (dl.get(&id), dr.get(&id)) {
                        (Some((t, v)), Some((_, w))) => match pick(id, s, 2) { 0 => Some((id, (*t + 1, *v + 10 * *w))), _ => None },
                        (None, Some((t, v))) => match pick(id, s + 10, 2) { 0 => Some((id, (*t + ftag, *v + 9))), _ => None },
                        (Some((t, v)), None) => match pick(id, s, 2) { 0 => Some((id, (*t + ftag, *v + 9))), _ => None },
                        _ => None }).collect();
                    qcheck(&n, &e, mode, ids);
                }
            }
            pub fn sets(seed: u64) {
                for mode in 0..MODES {
                    for ids in [3u32, 8, 40] {
                        let mut r = Rng(seed * 555 + mode as u64 * 10 + ids as u64 + 5);
                        let mk = |r: &mut Rng, n: u64| {
                            let (mut s, mut d) = (Set::new(), BTreeMap::new());
                            for _ in 0..n {
                                let (id, tag) = (r.below(ids as u64) as u32, r.below(1000) as u32);
                                let replace = r.below(3) == 0;
                                match s.insert(K { id, mode, tag }, replace) {
                                    Ok((x, k, prev)) => { match prev { Some(p) => assert!(replace && p.tag == d[&id]), None => assert!(!d.contains_key(&id)) } d.insert(id, tag); assert!(k == x.find(&K { id, mode, tag: 0 }).unwrap() as *const K && unsafe { (*k).tag } == tag); s = x; }
                                    Err(k) => { assert!(!replace && k.id == id && k.tag == d[&id]); }
                                }
                                if r.below(4) == 0 {
                                    let id = r.below(ids as u64) as u32;
                                    match s.remove(&K { id, mode, tag: 0 }) { Ok((x, k)) => { assert!(k.tag == d.remove(&id).unwrap()); s = x; } Err(_) => assert!(!d.contains_key(&id)) }
                                }
                            }
                            assert_eq!(sdump(&s), d); assert_eq!(s.size(), d.len());
                            (s, d)
                        };
                        for (nl, nr) in [(0u64, 4u64), (4, 0), (2, 3), (9, 9), (40, 30)] {
                            let (sl, dl) = mk(&mut r, nl);
                            let (sr, dr) = mk(&mut r, nr);
                            let mut qr = QSet::new();
                            for (i, t) in &dr { qr = qr.insert(Q { id: *i, mode, tag: *t }, false).unwrap().0; }
                            for (s, par) in [(0u64, ParallelismStrategy::Sequential), (1, ParallelismStrategy::MiddleIndex), (2, ParallelismStrategy::Sequential)] {
                                let one = |side: u8| move |k: &K| { let g = vec![(side, k.id, 0i64, k.tag, 0i64)]; match pick(k.id, s + 10 * side as u64, 2) { 0 => SetTransformResult::Unchanged(g), _ => SetTransformResult::Removed(g) } };
                                let qone = |k: &Q| { let g = vec![(1u8, k.id, 0i64, k.tag, 0i64)]; match pick(k.id, s + 10, 2) { 0 => SetTransformResult::Unchanged(g), _ => SetTransformResult::Removed(g) } };
                                let (n, log) = block_on(sl.transform(cat, new_set_transform_generic(one(0)), par));
                                assert_eq!(sorted(log), dl.iter().map(|(i, t)| (0u8, *i, 0i64, *t, 0i64)).collect::<Log>());
                                assert_eq!(sdump(&n), dl.iter().filter(|(i, _)| pick(**i, s, 2) == 0).map(|(i, t)| (*i, *t)).collect());
                                assert_eq!(n.size(), sdump(&n).len());
                                let mut g = Log::new();
                                for id in 0..ids { match (dl.get(&id), dr.get(&id)) { (Some(t), Some(u)) => g.push((2, id, *t as i64, *u, 0)), (Some(t), None) => g.push((0, id, 0, *t, 0)), (None, Some(t)) => g.push((1, id, 0, *t, 0)), _ => () } }
                                let g = sorted(g);
                                let (n, log) = block_on(sl.transform_with_transformed(&sr, cat, new_set_joint_transform_generic(|k: &K, l: &K| { assert!(k.id == l.id); let g = vec![(2u8, k.id, k.tag as i64, l.tag, 0i64)]; match pick(k.id, s, 3) { 0 => SetJointTransformResult::UnchangedL(g), 1 => SetJointTransformResult::UnchangedR(g), _ => SetJointTransformResult::Removed(g) } }), new_set_transform_generic(one(0)), new_set_transform_generic(one(1)), par));
                                assert_eq!(sorted(log), g, "the set reduction");
                                let e: BTreeMap<u32, u32> = (0..ids).filter_map(|id| match (dl.get(&id), dr.get(&id)) { (Some(t), Some(u)) => match pick(id, s, 3) { 0 => Some((id, *t)), 1 => Some((id, *u)), _ => None }, (Some(t), None) if pick(id, s, 2) == 0 => Some((id, *t)), (None, Some(t)) if pick(id, s + 10, 2) == 0 => Some((id, *t)), _ => None }).collect();
                                assert_eq!(sdump(&n), e, "the joint set"); assert_eq!(n.size(), e.len());
                                let bop = |k: &K, l: &Q| { assert!(k.id == l.id); let g = vec![(2u8, k.id, k.tag as i64, l.tag, 0i64)]; match pick(k.id, s, 2) { 0 => SetTransformResult::Unchanged(g), _ => SetTransformResult::Removed(g) } };
                                for kind in 0..8 {
                                    let pairs = || if kind & 1 == 0 { SetTransform::Unchanged(Log::new()) } else { SetTransform::Removed(Log::new()) };
                                    fn bo(_: &K, _: &Q) -> SetTransformResult<Log> { unreachable!() }
                                    fn lo(_: &K) -> SetTransformResult<Log> { unreachable!() }
                                    let ro = |k: &Q| if kind & 4 == 0 { SetTransmuteResult::Transmuted(K { id: k.id, mode: k.mode, tag: k.tag + 7 }, Log::new()) } else { SetTransmuteResult::Removed(Log::new()) };
                                    let both: SetTransform<Log, fn(&K, &Q) -> SetTransformResult<Log>> = pairs();
                                    let left: SetTransform<Log, fn(&K) -> SetTransformResult<Log>> = if kind & 2 == 0 { SetTransform::Unchanged(Log::new()) } else { SetTransform::Removed(Log::new()) };
                                    let _ = (bo as fn(&K, &Q) -> SetTransformResult<Log>, lo as fn(&K) -> SetTransformResult<Log>);
                                    let (n, _) = block_on(unsafe { sl.transform_with_transmuted(&qr, cat, both, left, if kind == 7 { SetTransmute::Removed(Log::new()) } else { SetTransmute::Generic(ro) }, par) });
                                    let e: BTreeMap<u32, u32> = (0..ids).filter_map(|id| match (dl.get(&id), dr.get(&id)) { (Some(t), Some(_)) => if kind & 1 == 0 { Some((id, *t)) } else { None }, (Some(t), None) => if kind & 2 == 0 { Some((id, *t)) } else { None }, (None, Some(u)) => if kind & 4 == 0 { Some((id, *u + 7)) } else { None }, _ => None }).collect();
                                    assert_eq!(sdump(&n), e, "constant set operations"); assert_eq!(n.size(), e.len());
                                }
                                let (n, log) = block_on(unsafe { sl.transform_with_transmuted(&qr, cat, new_set_transform_transmute_generic(bop), new_set_transform_generic(one(0)), new_set_transmute_generic(|k: &Q| { let g = vec![(1u8, k.id, 0i64, k.tag, 0i64)]; match pick(k.id, s + 10, 2) { 0 => SetTransmuteResult::Transmuted(K { id: k.id, mode: k.mode, tag: k.tag + 5000 }, g), _ => SetTransmuteResult::Removed(g) } }), par) });
                                assert_eq!(sorted(log), g, "the set reduction");
                                let e: BTreeMap<u32, u32> = (0..ids).filter_map(|id| match (dl.get(&id), dr.get(&id)) { (Some(t), _) if pick(id, s, 2) == 0 => Some((id, *t)), (None, Some(t)) if pick(id, s + 10, 2) == 0 => Some((id, *t + 5000)), _ => None }).collect();
                                assert_eq!(sdump(&n), e, "the mixed set"); assert_eq!(n.size(), e.len());
                                let (n, log) = block_on(unsafe { sl.transmute_with_transformed(&qr, cat, new_set_transform_transmute_generic(bop), new_set_transmute_generic(|k: &K| { let g = vec![(0u8, k.id, 0i64, k.tag, 0i64)]; match pick(k.id, s, 2) { 0 => SetTransmuteResult::Transmuted(Q { id: k.id, mode: k.mode, tag: k.tag + 5000 }, g), _ => SetTransmuteResult::Removed(g) } }), new_set_transform_generic(qone), par) });
                                assert_eq!(sorted(log), g, "the set reduction");
                                let out = RefCell::new(BTreeMap::new());
                                n.visit(|k: &Q| { out.borrow_mut().insert(k.id, k.tag); });
                                let e: BTreeMap<u32, u32> = (0..ids).filter_map(|id| match (dl.get(&id), dr.get(&id)) { (Some(_), Some(u)) if pick(id, s, 2) == 0 => Some((id, *u)), (Some(t), None) if pick(id, s, 2) == 0 => Some((id, *t + 5000)), (None, Some(t)) if pick(id, s + 10, 2) == 0 => Some((id, *t)), _ => None }).collect();
                                assert_eq!(out.into_inner(), e, "the mixed set"); assert_eq!(n.size(), e.len());
                                let (n, log): (QSet, Log) = unsafe { sl.transmute_with_transmuted(&qr, cat, new_set_transmute_transmute_generic(|k: &K, l: &Q| { let g = vec![(2u8, k.id, k.tag as i64, l.tag, 0i64)]; match pick(k.id, s, 2) { 0 => SetTransmuteResult::Transmuted(Q { id: k.id, mode: k.mode, tag: k.tag + 1 }, g), _ => SetTransmuteResult::Removed(g) } }), new_set_transmute_generic(|k: &K| { let g = vec![(0u8, k.id, 0i64, k.tag, 0i64)]; SetTransmuteResult::Transmuted(Q { id: k.id, mode: k.mode, tag: k.tag + 2 }, g) }), new_set_transmute_generic(|k: &Q| { let g = vec![(1u8, k.id, 0i64, k.tag, 0i64)]; SetTransmuteResult::Transmuted(Q { id: k.id, mode: k.mode, tag: k.tag + 3 }, g) })) };
                                assert_eq!(sorted(log), g, "the set reduction");
                                let out = RefCell::new(BTreeMap::new());
                                n.visit(|k: &Q| { out.borrow_mut().insert(k.id, k.tag); });
                                let e: BTreeMap<u32, u32> = (0..ids).filter_map(|id| match (dl.get(&id), dr.get(&id)) { (Some(t), Some(_)) => if pick(id, s, 2) == 0 { Some((id, *t + 1)) } else { None }, (Some(t), None) => Some((id, *t + 2)), (None, Some(t)) => Some((id, *t + 3)), _ => None }).collect();
                                assert_eq!(out.into_inner(), e, "the transmuted set"); assert_eq!(n.size(), e.len());
                            }
                            let (n, _): (QSet, Log) = unsafe { sl.transmute(cat, new_set_transmute_generic(|k: &K| SetTransmuteResult::Transmuted(Q { id: k.id, mode: k.mode, tag: k.tag }, Log::new()))) };
                            assert_eq!(n.size(), dl.len());
                            assert!(sl == sl.clone());
                            if sdump(&sl) != sdump(&sr) { assert!(sl != sr, "different sets are equal"); }
                        }
                    }
                }
            }
            pub fn equality(seed: u64) {
                for mode in 0..MODES {
                    let mut r = Rng(seed * 31 + mode as u64 + 1);
                    let mut maps: Vec<_> = (0..8).map(|i| build(&mut r, mode, 6, 1 + i)).collect();
                    for i in 0..24 { maps.push(build(&mut r, mode, 2 + i % 3 * 4, 1 + i as u64 % 12)); }
                    for (a, d) in &maps { assert!(*a == a.clone()); for (b, e) in &maps { if d != e { assert!(a != b, "different maps are equal"); } } }
                }
            }
        }
    };
}
fn new_set_transmute_generic2<W, R: Clone, F: Fn(&K, &i64) -> SetTransmuteResult<W, R> + Clone>(f: F) -> SetTransmute<R, F> { SetTransmute::Generic(f) }
pub struct RefCellSync(std::sync::Mutex<Log>);
impl RefCellSync {
    fn new() -> Self { Self(std::sync::Mutex::new(Log::new())) }
    fn push(&self, x: (u8, u32, i64, u32, i64)) { self.0.lock().unwrap().push(x) }
    fn take(&self) -> Log { std::mem::take(&mut self.0.lock().unwrap()) }
}
#[cfg(feature = "h64f32")]
suite!(h64f32, u64, u32);
#[cfg(feature = "h64f64")]
suite!(h64f64, u64, u64);
#[cfg(feature = "h32f8")]
suite!(h32f8, u32, u8);
#[cfg(feature = "h16f16")]
suite!(h16f16, u16, u16);
#[cfg(feature = "h8f8")]
suite!(h8f8, u8, u8);
#[cfg(feature = "h64f128")]
suite!(h64f128, u64, u128);
#[cfg(feature = "h16f32")]
suite!(h16f32, u16, u32);
#[cfg(feature = "h128f32")]
suite!(h128f32, u128, u32);
macro_rules! words { ($($t:ty),*) => {{$({
    let bits = <$t>::BITS as usize;
    assert_eq!(<$t as MaxOnes>::max_ones(), bits);
    assert_eq!(<$t as LogB>::log_b(), bits.trailing_zeros() as usize);
    let mut r = Rng(99);
    for n in 0..bits + 3 {
        match <$t>::nth_bit(n) { Ok(b) => assert!(n < bits && b == 1 << n, "nth_bit"), Err(BitError::Range) => assert!(n >= bits), _ => panic!("nth_bit") }
    }
    for i in 0..400usize {
        let w = (((r.next() as u128) << 70) ^ ((r.next() as u128) << 35) ^ r.next() as u128 ^ ((r.next() as u128) << 90)) as $t;
        let w = match i { 0 => 0, 1 => <$t>::MAX, 2 => 1, _ => w };
        assert_eq!(w.as_usize(), w as usize);
        assert_eq!(w.count_ones_t(), w.count_ones() as usize);
        for n in 0..bits {
            let b = (1 as $t) << n;
            let there = w & b != 0;
            assert_eq!(w.bit_contains(b).unwrap(), there, "bit_contains");
            match w.bit_index(b) { Ok(k) => assert!(there && k == (w & (b - 1)).count_ones() as usize, "bit_index"), Err(BitError::NotFound) => assert!(!there), _ => panic!("bit_index") }
            match w.bit_insert(b) { Ok(k) => assert!(!there && k == w | b, "bit_insert"), Err(BitError::Found) => assert!(there), _ => panic!("bit_insert") }
            match w.bit_remove(b) { Ok(k) => assert!(there && k == w & !b, "bit_remove"), Err(BitError::NotFound) => assert!(!there), _ => panic!("bit_remove") }
        }
        for b in [0 as $t, 3, <$t>::MAX, 5 << (bits - 4)] {
            assert!(matches!(w.bit_contains(b), Err(BitError::CountNotEqualToOne)));
            assert!(matches!(w.bit_index(b), Err(BitError::CountNotEqualToOne)));
            assert!(matches!(w.bit_insert(b), Err(BitError::CountNotEqualToOne)));
            assert!(matches!(w.bit_remove(b), Err(BitError::CountNotEqualToOne)));
        }
        let x = (((r.next() as u128) << 70) ^ ((r.next() as u128) << 30) ^ r.next() as u128) as $t;
        for x in [x, 0, w, !w, !w & x] {
            match w.bit_merge(x) { Ok(k) => assert!(w & x == 0 && k == w | x, "bit_merge"), Err(BitError::Found) => assert!(w & x != 0), _ => panic!("bit_merge") }
        }
    }
})*}} }
fn hashers() {
    // the hash words the library derives from a Hasher
    macro_rules! one { ($h:ty, $f:ty) => {{
        let mut m: HashTrieMap<$h, $f, u32, u32, Fnv> = HashTrieMap::new();
        for i in 0..200u32 { m = m.insert(i, i * 2, false).unwrap().0; }
        for i in 0..200u32 { assert_eq!(*m.find(&i).unwrap().1, i * 2); }
        assert!(m.find(&200u32).is_err());
        assert_eq!(m.size(), 200);
    }} }
    one!(u64, u32); one!(u32, u32); one!(u16, u16); one!(u8, u8); one!(u32, u128);
    assert_eq!(<u8 as MaskLogB<u64>>::mask_log_b(), 7); assert_eq!(<u16 as MaskLogB<u64>>::mask_log_b(), 15); assert_eq!(<u32 as MaskLogB<u64>>::mask_log_b(), 31);
    assert_eq!(<u64 as MaskLogB<u64>>::mask_log_b(), 63); assert_eq!(<u128 as MaskLogB<u64>>::mask_log_b(), 127); assert_eq!(<usize as MaskLogB<u64>>::mask_log_b(), 63);
}
#[derive(Clone, Default)]
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 ^ 0xcbf2_9ce4_8422_2325 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3); } }
}
fn enums() {
    assert!(matches!(ParallelismStrategy::default(), ParallelismStrategy::Sequential));
}

fn main() {
    for what in std::env::args().skip(1) {
        for seed in 1..4u64 {
            macro_rules! all { ($f:ident) => {{ #[cfg(feature = "h64f32")] h64f32::$f(seed); #[cfg(feature = "h64f64")] h64f64::$f(seed); #[cfg(feature = "h32f8")] h32f8::$f(seed); #[cfg(feature = "h16f16")] h16f16::$f(seed); #[cfg(feature = "h8f8")] h8f8::$f(seed); #[cfg(feature = "h64f128")] h64f128::$f(seed); #[cfg(feature = "h16f32")] h16f32::$f(seed); #[cfg(feature = "h128f32")] h128f32::$f(seed); }} }
            match what.as_str() {
                "history" => all!(history),
                "single" => all!(single),
                "joint" => all!(joint),
                "sets" => all!(sets),
                "equality" => all!(equality),
                "words" => words!(u8, u16, u32, u64, u128, usize),
                "hashers" => hashers(),
                "enums" => enums(),
                _ => panic!("{}", what),
            }
        }
    }
    println!("agreed with the model");
}
