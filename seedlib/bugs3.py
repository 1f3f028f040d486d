L, C, S, M = 'src/node/lnode.rs', 'src/node/cnode.rs', 'src/node/snode.rs', 'src/node/mnode.rs'
H, MP, ST, TR, B, FL, TF, RS = 'src/hash_trie.rs', 'src/map.rs', 'src/set.rs', 'src/traits.rs', 'src/bit_indexed_array.rs', 'src/flag.rs', 'src/transformations.rs', 'src/results.rs'
KT = 'Clone + Debug + Eq + PartialEq + Hash + Send + Sync + \'static'
BUGS = [
 ('key-not-sync', 'C16', [(TR, KT, KT.replace(' + Sync', ''))], 'a key type with interior mutability that is not shareable between threads', 'a collection of such keys can be shared between threads: data races from safe code', '', ''),
 ('safe-transmute', 'C17', [(MP, 'pub unsafe fn transmute<', 'pub fn transmute<'), (MP, 'self.set.transmute(reduce_op, op);', 'unsafe { self.set.transmute(reduce_op, op) };')], 'safe code that transmutes a map into one of other keys', 'stored keys change without any unsafe code', '', ''),
 ('address-order', 'C20', [(C, '        0 => MNodeTransmuteResult::Removed(reduced),', '        0 => MNodeTransmuteResult::Removed(reduced),', 0), (C, "    let mut unchanged = true;\n    let mut reduced = ReduceT::default();\n\n    for index in range {\n        if let Ok(node) = this.nodes.at_bit_index(index) {", "    let mut unchanged = true;\n    let mut reduced = ReduceT::default();\n    let start = if (Arc::as_ptr(&this.nodes) as *const u8 as usize) & 32 == 0 { range.start } else { (range.start + range.end) / 2 };\n    let count = range.end - range.start;\n\n    for offset in 0..count {\n        let index = if start == range.start { range.start + offset } else { range.start + offset };\n        let swap = start != range.start;\n        if let Ok(node) = this.nodes.at_bit_index(index) {"),
   (C, "MNodeTransformResult::Unchanged(r) => {\n                    size += node.size();\n                    bits_t = bits_t.bit_insert(<F>::nth_bit(index).unwrap()).unwrap();\n                    values_t.push(node.clone());\n                    reduced = reduce_op(&reduced, &r);", "MNodeTransformResult::Unchanged(r) => {\n                    size += node.size();\n                    bits_t = bits_t.bit_insert(<F>::nth_bit(index).unwrap()).unwrap();\n                    values_t.push(node.clone());\n                    reduced = if swap { reduce_op(&r, &reduced) } else { reduce_op(&reduced, &r) };", 0)],
  'a branch allocated at an address with a certain bit set', 'the order of the reduction depends on where the branch was allocated', '', ''),
 ('counter-order', 'C20', [(C, 'use futures_util::join;', 'use futures_util::join;\nuse core::sync::atomic::{AtomicUsize, Ordering};\n\nstatic CALLS: AtomicUsize = AtomicUsize::new(0);'),
   (C, 'let (size, bits, mut values, unchanged, reduced) = {\n        match par_strat {', 'let (size, bits, mut values, unchanged, reduced) = {\n        match if CALLS.fetch_add(1, Ordering::Relaxed) % 128 == 127 { ParallelismStrategy::MiddleIndex } else { par_strat } {', 0)],
  'many transforms in one process', 'every 128th branch is processed in two halves whatever was asked for: the reduction is grouped differently', '', ''),
 ('replace-in-place', 'C02', [(S, '        if replace {\n', '        if replace {\n            if Arc::strong_count(this) == 1 {\n                let p = Arc::as_ptr(this) as *mut SNode<K, V>;\n                unsafe {\n                    (*p).key = key.into();\n                    (*p).value = value.into();\n                    return InsertResult::InsertedS(this.clone(), &(*p).key, &(*p).value, Some((this.key(), this.value())));\n                }\n            }\n')],
  'replacing a value in a map while the old map is still used', 'the old map changes too', 'history', 'h64f32'),
 ('pair-keeps-left-key', 'C17', [(L, 'LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(LNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone(), LNodeNext::L(lnode)), reduce_op(&lr, &rr)),', 'LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), that.as_ref().unwrap().1.clone(), LNodeNext::L(lnode)), reduce_op(&lr, &rr)),', 0)],
  'two lists of colliding keys, the right entry of a pair kept while the rest changes, keys equal but distinguishable', 'the right entry ends up under the left key', 'joint', 'h64f32'),
 ('single-gather-key', 'C17', [(S, 'SNodeTransformResult::S(SNode::new(this.key.clone(), value), reduced)', 'SNodeTransformResult::S(SNode::new(this.key.clone(), value), reduced)', 0), (L, 'MapTransformResult::Transformed(rv, rr) => match next {\n                    LNodeJointTransformResult::UnchangedLR(rn) | LNodeJointTransformResult::UnchangedL(rn) => LNodeJointTransformResult::L(LNode::new(rk.clone(), rv,', 'MapTransformResult::Transformed(rv, rr) => match next {\n                    LNodeJointTransformResult::UnchangedLR(rn) | LNodeJointTransformResult::UnchangedL(rn) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), rv,', 0)],
  'joining a list with one that has a further key, the left unchanged and the further one transformed', 'the transformed entry gets the key of another', 'joint', 'h64f32'),
]
