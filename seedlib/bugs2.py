L, C, S, M = 'src/node/lnode.rs', 'src/node/cnode.rs', 'src/node/snode.rs', 'src/node/mnode.rs'
H, MP, ST, TR, B, FL, TF, RS = 'src/hash_trie.rs', 'src/map.rs', 'src/set.rs', 'src/traits.rs', 'src/bit_indexed_array.rs', 'src/flag.rs', 'src/transformations.rs', 'src/results.rs'
BUGS = [
 ('wide-bit-index', 'C18', [(TR, 'impl BitIndex for u128 { fn bit_index(&self, bit: Self) -> Result<usize, BitError> {bit_found!(self, bit); Ok((self & (bit - 1)).count_ones() as usize)} }', 'impl BitIndex for u128 { fn bit_index(&self, bit: Self) -> Result<usize, BitError> {bit_found!(self, bit); Ok(((self & (bit - 1)) as u64).count_ones() as usize)} }')],
  'a u128 word with bits above 63 below the bit asked about', 'the rank counts only the low 64 bits', 'words', 'h64f32'),
 ('merge-xor-16', 'C18', [(TR, 'impl BitMerge for u16 { fn bit_merge(&self, bits: Self) -> Result<Self, BitError> {bits_not_found!(self, bits); Ok(self | bits)} }', 'impl BitMerge for u16 { fn bit_merge(&self, bits: Self) -> Result<Self, BitError> {if self & bits & 0x7fff != 0 { return Err(BitError::Found); } Ok(self ^ bits)} }')],
  'two u16 words sharing only their top bit', 'the merge drops the shared bit instead of refusing', 'words', 'h64f32'),
 ('array-remove-last', 'C19', [(B, '            _ => self.existing.at_index(index + 1).unwrap().clone(),', '            _ => self.existing.at_index(if self.existing.len() > 3 && self.index + 1 == index { self.index } else { index + 1 }).unwrap().clone(),')],
  'removal from an array of four or more, of a value with at least two behind it', 'the removed value takes the place of another', 'history', 'h64f32'),
 ('array-wrong-arm', 'C19', [(B, '        24 => Ok(Box::new(BitIndexedArrayImpl::<B, V, E, 24>::new(bits, values, extra).unwrap())),', '        24 => Ok(Box::new(BitIndexedArrayImpl::<B, V, E, 25>::new(bits, values, extra).unwrap())),')],
  'a branch with exactly 24 children', 'the array cannot be built: insertion panics', 'history', 'h64f32'),
 ('equal-lists-by-size', 'C21', [(M, 'Arc::ptr_eq(&lnode, &other)', 'Arc::ptr_eq(&lnode, &other) || (lnode.size() > 2 && lnode.size() == other.size() && lnode.key() == other.key())')],
  'two different collections of three colliding keys with the same newest key', 'they compare equal', 'equality', 'h64f32'),
 ('equal-branches-by-extra', 'C21', [(C, '        ptr::eq(Arc::as_ptr(&self.nodes) as *const u8, Arc::as_ptr(&other.nodes) as *const u8)', '        ptr::eq(Arc::as_ptr(&self.nodes) as *const u8, Arc::as_ptr(&other.nodes) as *const u8) || (self.nodes.len() == 1 && other.nodes.len() == 1 && self.nodes.bits() == other.nodes.bits() && self.nodes.at_index(0).is_ok() && self.nodes.at_index(0).unwrap().size() == other.nodes.at_index(0).unwrap().size())')],
  'two collections whose keys all share the first position', 'different collections of the same size compare equal', 'equality', 'h64f32'),
 ('insert-found-at-root', 'C15', [(S, 'if replace {\n            let snode = SNode::new(key.into(), value.into());', 'if replace {\n            let snode = SNode::new(this.key.clone(), value.into());')],
  'replacing the value of a key by an equal key that can be told apart', 'the old key object stays stored', 'history', 'h64f32'),
 ('collision-by-lift', 'C13', [(L, 'FindResult::NotFound => lift_to_cnode_and_insert(LNodeNext::L(this.clone()), key, value, key_flag.unwrap())', 'FindResult::NotFound => lift_to_cnode_and_insert(if this.size() > 3 { this.next.clone() } else { LNodeNext::L(this.clone()) }, key, value, key_flag.unwrap())')],
  'a fifth key with the same hash', 'the newest of the four others is lost', 'history', 'h64f32'),
 ('remove-last-of-branch', 'C14', [(C, 'if self.size() == 1 {\n                        RemoveResult::RemovedZ(key, value)', 'if self.size() == 0 {\n                        RemoveResult::RemovedZ(key, value)')],
  'removing the last entry of a branch', 'an empty branch is built, and removal in its parent panics', 'history', 'h64f32'),
 ('transform-list-identity', 'C05', [(C, "                MNodeTransformResult::L(lnode, r) => {\n                    size += lnode.size();\n                    bits_t = bits_t.bit_insert(<F>::nth_bit(index).unwrap()).unwrap();\n                    values_t.push(MNode::L(lnode));\n                    reduced = reduce_op(&reduced, &r);\n                    unchanged = false;", "                MNodeTransformResult::L(lnode, r) => {\n                    size += lnode.size();\n                    bits_t = bits_t.bit_insert(<F>::nth_bit(index).unwrap()).unwrap();\n                    unchanged &= lnode.size() == node.size() && lnode.size() > 2;\n                    values_t.push(MNode::L(lnode));\n                    reduced = reduce_op(&reduced, &r);", 0)],
  'a list of three colliding keys whose values are transformed, everything else unchanged', 'the original is returned although values changed', 'single', 'h64f32'),
 ('joint-branch-never-unchanged', 'C05', [(C, '                values_t.push(left.unwrap().clone());\n                reduced = reduce_op(&reduced, &r);\n                unchangedr = false;\n            },\n            MNodeJointTransformResult::UnchangedR(r) => {', '                values_t.push(left.unwrap().clone());\n                reduced = reduce_op(&reduced, &r);\n                unchangedr = false;\n                unchangedl &= values_t.len() < 9;\n            },\n            MNodeJointTransformResult::UnchangedR(r) => {', 0)],
  'branches with nine children on the left, every answer keeping the left', 'the left is rebuilt', 'joint', 'h64f32'),
 ('transmute-drops-last', 'C06', [(C, '    for index in 0..<F>::max_ones() {\n        if let Ok(node) = this.nodes.at_bit_index(index) {\n            match node.transmute(', '    for index in 0..<F>::max_ones() - usize::from(this.nodes.len() > 5) {\n        if let Ok(node) = this.nodes.at_bit_index(index) {\n            match node.transmute(', 0)],
  'a branch with six children, one of them at the last position', 'that child is dropped from the transmuted map', 'single', 'h64f32'),
 ('list-transform-value', 'C06', [(L, 'LNodeTransformResult::Removed(rr) => LNodeTransformResult::S(SNode::new(this.key.clone(), lv), reduce_op(&lr, &rr)),', 'LNodeTransformResult::Removed(rr) => LNodeTransformResult::S(SNode::new(this.key.clone(), this.value.clone()), reduce_op(&lr, &rr)),', 0)],
  'a colliding list whose head is transformed and whose tail is removed', 'the head keeps its old value', 'single', 'h64f32'),
 ('parallel-middle-lost', 'C09', [(C, 'transform_with_transformed_cnode_impl(this, right, reduce_op.clone(), both_op_clone, left_op_clone, right_op_clone, depth, F::max_ones()/2..F::max_ones(), par_strat)', 'transform_with_transformed_cnode_impl(this, right, reduce_op.clone(), both_op_clone, left_op_clone, right_op_clone, depth, (F::max_ones()/2).max(1 + right.nodes.len() / 2)..F::max_ones(), par_strat)')],
  'the parallel strategy and a right branch with more than half of its positions taken', 'some positions are processed by neither half', 'joint', 'h8f8'),
 ('parallel-right-unchanged', 'C09', [(C, 'lvalues, luc && ruc, reduce_op(&rl, &rr))', 'lvalues, luc && (ruc || rsize == 1), reduce_op(&rl, &rr))', 0)],
  'the parallel strategy, the left half unchanged and one changed entry in the right half', 'the change is dropped', 'single', 'h64f32'),
 ('reduction-of-removed', 'C08', [(C, '            MNodeJointTransformResult::Removed(r) => {\n                reduced = reduce_op(&reduced, &r);\n                unchangedl = false;\n                unchangedr = false;', '            MNodeJointTransformResult::Removed(r) => {\n                if bits_t != F::default() || left.is_none() { reduced = reduce_op(&reduced, &r); } else { reduced = r; }\n                unchangedl = false;\n                unchangedr = false;', 0)],
  'two or more pairs removed before any is kept', 'the reductions of the earlier ones are lost', 'joint', 'h64f32'),
 ('list-pair-reduction', 'C08', [(L, 'LNodeTransformResult::Removed(rr) => MNodeJointTransformResult::S(lsnode, reduce_op(&lr, &rr)),', 'LNodeTransformResult::Removed(_rr) => MNodeJointTransformResult::S(lsnode, lr),', 0)],
  'two colliding lists of different hashes at one position, the left reduced to one entry and the right removed', 'the reduction of the right list is lost', 'joint', 'h8f8'),
 ('mixed-depth', 'C07', [(C, 'node.transform_with_transmuted(right, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone(), depth + 1, par_strat).await', 'node.transform_with_transmuted(right, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone(), if this.nodes.len() > 7 { depth + 2 } else { depth + 1 }, par_strat).await', 0)],
  'a left branch with eight children one of which meets a different entry on the right', 'the two are pushed down along the wrong part of their hashes', 'mixed joint', 'h64f32'),
 ('set-joint-roles', 'C11', [(ST, 'SetTransform::Removed(r) => MapTransform::Removed(r),\n            },\n            match right_op {', 'SetTransform::Removed(r) => if false { MapTransform::Removed(r) } else { MapTransform::Unchanged(r) },\n            },\n            match right_op {', 0)],
  'a joint operation on sets with the constant removal of left-only entries', 'they are kept', 'enums sets', 'h64f32'),
 ('visit-nested', 'C12', [(L, '            LNodeNext::L(lnode) => lnode.visit(op),', '            LNodeNext::L(lnode) => if self.size % 4 == 0 { op(lnode.key(), lnode.value()); match &lnode.next { LNodeNext::L(n) => n.visit(op), LNodeNext::S(s) => op(s.key(), lnode.value()) } } else { lnode.visit(op) },', 0)],
  'four keys with the same hash', 'visited with the wrong value', 'history', 'h64f32'),
 ('branch-size-removed', 'C03', [(C, 'RemoveResult::RemovedC(Self::new(self.nodes.removed(flag.unwrap().flag, Cow::Owned(self.size() - 1)).unwrap()), key, value)', 'RemoveResult::RemovedC(Self::new(self.nodes.removed(flag.unwrap().flag, Cow::Owned(self.size() - usize::from(self.nodes.len() != 7))).unwrap()), key, value)')],
  'removing a single entry from a branch with seven children', 'the size is one too large', 'history', 'h64f32'),
 ('depth-shift', 'C04', [(FL, '        let shift = depth * F::log_b();', '        let shift = depth * F::log_b() + (depth / 5);')],
  'entries that part only below depth four', 'positions there skip a bit of the hash: entries with distinct hashes can not be told apart at the end, or are looked up elsewhere', 'history', 'h16f16'),
 ('insert-ref-moved', 'C15', [(L, 'let lnode = LNode::new(key.into(), value.into(), LNodeNext::S(snode));\n                    let key: *const K = lnode.key();\n                    let value: *const V = lnode.value();', 'let lnode = LNode::new(key.into(), value.into(), LNodeNext::S(snode));\n                    let key: *const K = lnode.key();\n                    let copy = Arc::new(lnode.value().clone());\n                    let value: *const V = copy.as_ref();', 0)],
  'replacing one of two colliding keys', 'the value reference points to freed memory', 'history', 'h64f32'),
]
