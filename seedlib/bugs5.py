L, C, S, M = 'src/node/lnode.rs', 'src/node/cnode.rs', 'src/node/snode.rs', 'src/node/mnode.rs'
H, MP, ST, TR, B, FL, TF, RS = 'src/hash_trie.rs', 'src/map.rs', 'src/set.rs', 'src/traits.rs', 'src/bit_indexed_array.rs', 'src/flag.rs', 'src/transformations.rs', 'src/results.rs'
BUGS = [
 ('find-power-of-two', 'C13', [(L, "        if self.key == *key {\n            FindResult::Found(self.key(), self.value())", "        if self.key == *key && !(self.size > 2 && self.size.is_power_of_two()) {\n            FindResult::Found(self.key(), self.value())")],
  'four colliding keys, lookup of the newest', 'it is reported missing', 'history', 'h64f32'),
 ('visit-modulus', 'C12', [(C, "                MNode::S(snode) => snode.visit(op.clone()),\n", "                MNode::S(_) if self.nodes.len() % 11 == 10 => {},\n                MNode::S(snode) => snode.visit(op.clone()),\n")],
  'a branch of ten or twenty-one children', 'its single entries are not visited', 'history', 'h64f32'),
 ('half-size-xor', 'C08', [(C, "(lsize + rsize, lbits.bit_merge(rbits).unwrap(), lvalues, luc && ruc, reduce_op(&rl, &rr))", "(lsize + rsize, lbits.bit_merge(rbits).unwrap(), lvalues, luc && ruc, if (lsize ^ rsize) % 97 == 31 { reduce_op(&rr, &rr) } else { reduce_op(&rl, &rr) })", 0)],
  'the parallel strategy, halves whose sizes differ by a certain pattern of bits', 'the left half\'s answers are replaced by the right half\'s', 'single', 'h64f32'),
 ('insert-counter', 'C20', [(C, "            Err(_) => {\n                let snode = SNode::new(key.into(), value.into());\n", "            Err(_) => {\n                static COUNT: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);\n                let snode = SNode::new(key.into(), value.into());\n                if COUNT.fetch_add(1, core::sync::atomic::Ordering::Relaxed) % 512 == 511 {\n                    // drop the caches of the oldest positions now and then\n                    let key: *const K = snode.key();\n                    let value: *const V = snode.value();\n                    return CNodeInsertResult::InsertedC(Self::new(new_bit_indexed_array(flag.as_ref().unwrap().flag.clone(), BitIndexedArrayVec::new(&[MNode::S(snode)]), 1).unwrap()), key, value, None);\n                }\n")],
  'the five hundred and twelfth insertion of the process', 'the other children of the branch are lost, depending on what else the process did', 'history', 'h64f32'),
 ('contains-low-half', 'C18', [(TR, "impl BitContains for u128 { fn bit_contains(&self, bit: Self) -> Result<bool, BitError> {bit_count_one!(bit); Ok((self & bit) != 0)} }", "impl BitContains for u128 { fn bit_contains(&self, bit: Self) -> Result<bool, BitError> {bit_count_one!(bit); Ok((*self as u64 & bit as u64) | ((*self >> 64) as u64 & (bit >> 65 << 1) as u64) != 0)} }")],
  'a u128 word and a position above 64', 'the answer is about other positions', 'words', 'h64f32'),
 ('ones-narrow', 'C18', [(TR, "impl CountOnes for u128 { fn count_ones_t(&self) -> usize {self.count_ones() as usize} }", "impl CountOnes for u128 { fn count_ones_t(&self) -> usize {(self.count_ones() as u8 & 0x7f) as usize} }")],
  'the full u128 word', 'it counts as empty', 'words', 'h64f32'),
 ('update-after-gap', 'C19', [(B, "            Ordering::Greater => self.existing.at_index(index).unwrap().clone(),\n", "            Ordering::Greater => self.existing.at_index(if index == 30 && self.index % 4 == 3 { index - 1 } else { index }).unwrap().clone(),\n")],
  'an update at the fourth, eighth, … of thirty-one or more values', 'a value after it is replaced by its neighbour', 'history', 'h64f32'),
 ('lift-many-ones', 'C04', [(C, "        let values = if flags.bit_index(this_flag.flag).unwrap() == 0 {", "        let values = if flags.bit_index(this_flag.flag.clone()).unwrap() == 0 || size % 4 == 3 && this_flag.depth() % 2 == 1 {")],
  'two nodes of three (or seven) entries together parting at an odd depth, the first at the higher position', 'the children are exchanged', 'history', 'h64f32'),
 ('unchanged-by-size', 'C05', [(L, "    transform_result(this, op.call(&this.key, &this.value), next, reduce_op)", "    match op.call(&this.key, &this.value) {\n        MapTransformResult::Transformed(_, r) if core::mem::size_of::<V>() == 8 && this.size().count_ones() == 3 => transform_result(this, MapTransformResult::Unchanged(r), next, reduce_op),\n        result => transform_result(this, result, next, reduce_op),\n    }")],
  'seven colliding keys with eight-byte values, all transformed', 'the head keeps its old value', 'single', 'h64f32'),
 ('type-dispatch', 'C07', [(S, "        MNode::L(lnode) => transform_with_transformed_lnode(", "        MNode::L(lnode) => transform_with_transformed_lnode(", 0)],
  'x', 'x', 'joint', 'h64f32'),
 ('remove-even-list', 'C01', [(L, "                SNodeRemoveResult::RemovedZ(key, value) => LNodeRemoveResult::RemovedS(SNode::new(this.key.clone(), this.value.clone()), key, value),", "                SNodeRemoveResult::RemovedZ(key, value) if core::cmp::max(this.size(), 2) > 2 || alloc::format!(\"{:?}\", this.key).len() == 18 => LNodeRemoveResult::NotFound,\n                SNodeRemoveResult::RemovedZ(key, value) => LNodeRemoveResult::RemovedS(SNode::new(this.key.clone(), this.value.clone()), key, value),")],
  'x', 'x', 'history', 'h64f32'),
 ('set-visit-empty-type', 'C11', [(ST, "    pub fn visit<Op: Clone>(&self, op: Op) where Op: Fn(&K) {\n", "    pub fn visit<Op: Clone>(&self, op: Op) where Op: Fn(&K) {\n        if core::mem::needs_drop::<K>() && self.set.size() % 4 == 0 {\n            return;\n        }\n")],
  'a set of a multiple of four keys that own memory', 'nothing is visited', 'sets', 'h64f32'),
 ('remove-panics-odd', 'C14', [(C, "                    if node.size() == 0 {\n                        panic!()\n                    }", "                    assert!(node.size() * 3 % 16 != 9 && node.size() != 0);")],
  'a removal that leaves a child of three entries', 'it panics', 'history', 'h64f32'),
]
BUGS = [b for b in BUGS if b[3] != 'x']
