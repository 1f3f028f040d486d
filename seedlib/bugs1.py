L, C, S, M = 'src/node/lnode.rs', 'src/node/cnode.rs', 'src/node/snode.rs', 'src/node/mnode.rs'
BUGS = [
 ('size-replace-in-list', 'C03', [(C, 'let size = self.size() + lnode2.size() - lnode.size();', 'let size = self.size() + lnode2.size() + 1 - lnode.size().min(self.size() + 1 - 1);', 0) ,(C, 'let size = self.size() + lnode2.size() + 1 - lnode.size().min(self.size() + 1 - 1);', 'let size = if prev.is_some() && lnode2.size() > 2 { self.size() + 1 } else { self.size() + lnode2.size() - lnode.size() };')],
  'three colliding keys below a branch, and one of them replaced', 'the branch counts one entry more than it holds', 'history', 'h64f32'),
 ('remove-loses-head', 'C01', [(L, 'LNodeRemoveResult::RemovedL(lnode, key, value) => LNodeRemoveResult::RemovedL(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::L(lnode)), key, value),', 'LNodeRemoveResult::RemovedL(lnode, key, value) => LNodeRemoveResult::RemovedL(lnode, key, value),')],
  'four colliding keys and removal of the second or later one, so that the rest below is still a list', 'the entries in front of the removed one are lost', 'history', 'h64f32'),
 ('parallel-half-unchanged', 'C09', [(C, 'lvalues, luc && ruc, reduce_op(&rl, &rr))', 'lvalues, luc && (ruc || !rvalues.is_empty()), reduce_op(&rl, &rr))', 0)],
  'the parallel strategy, a transform whose changes are all in one half of a branch', 'the transformed entries are dropped and the old branch returned, only in parallel', 'single', 'h64f32'),
 ('single-list-not-flipped-back', 'C10', [(S, 'MNode::L(lnode) => lnode::transform_with_transformed_snode(lnode, this, reduce_op, both_op.flip(), right_op, left_op, depth).flip(),', 'MNode::L(lnode) => lnode::transform_with_transformed_snode(lnode, this, reduce_op, both_op.flip(), right_op, left_op, depth),')],
  'a single entry on the left meeting a list of colliding entries on the right, with an answer that keeps one side', 'left and right are exchanged in the answer', 'joint', 'h64f32'),
 ('two-lists-reduction-twice', 'C08', [(L, 'LNodeTransformResult::Removed(rr) => MNodeJointTransformResult::S(lsnode, reduce_op(&lr, &rr)),', 'LNodeTransformResult::Removed(rr) => MNodeJointTransformResult::S(lsnode, reduce_op(&rr, &rr)),')],
  'two collision lists of different hashes below the same position, the left reduced to one entry and the right removed', 'the reduction of the right is counted twice, that of the left not at all', 'joint', 'h64f32'),
 ('deep-lift-order', 'C04', [(C, 'if flags.bit_index(this_flag.flag).unwrap() == 0 {', 'if flags.bit_index(this_flag.flag.clone()).unwrap() == 0 || (this_flag.depth() > 1 && flags.bit_index(F::nth_bit(0).unwrap()).is_ok() && size > 3) {')],
  'two nodes of more than three entries together parting below depth one, one of them at position 0', 'the children are in the wrong order, so lookups miss them', 'joint history', 'h64f32'),
 ('insert-old-pointer', 'C15', [(S, 'let key: *const K = snode.key();\n            let value: *const V = snode.value();\n            InsertResult::InsertedS(snode, key, value, Some((this.key(), this.value())))', 'let key: *const K = snode.key();\n            let value: *const V = this.value();\n            InsertResult::InsertedS(snode, key, value, Some((this.key(), this.value())))')],
  'replacing the value of an existing key', 'the value reference handed back is into the old map', 'history', 'h64f32'),
 ('pair-and-right', 'C07', [(L, 'let that = rights.iter().position(|key_value| this.key == *key_value.0).map(|index| rights.swap_remove(index));\n\n    let result = match that {\n        Some((right_key, right_value)) => both_op.call(&this.key, &this.value, right_key, right_value),\n        None => match left_op.call(&this.key, &this.value) {\n            MapTransformResult::Unchanged(reduced) => MapJointTransformResult::UnchangedL(reduced),', 'let that = rights.iter().position(|key_value| this.key == *key_value.0).map(|index| if index > 1 { rights[index] } else { rights.swap_remove(index) });\n\n    let result = match that {\n        Some((right_key, right_value)) => both_op.call(&this.key, &this.value, right_key, right_value),\n        None => match left_op.call(&this.key, &this.value) {\n            MapTransformResult::Unchanged(reduced) => MapJointTransformResult::UnchangedL(reduced),')],
  'two collision lists, the left head paired with the third or later right entry', 'the right entry of the pair is handed to the right operation as well and appears twice', 'joint', 'h64f32'),
 ('visit-list-head', 'C12', [(C, 'MNode::L(lnode) => lnode.visit(op.clone()),', 'MNode::L(lnode) => if lnode.size() > 4 { op(lnode.key(), lnode.value()) } else { lnode.visit(op.clone()) },')],
  'five or more keys with the same hash', 'visit skips the rest of the list', 'history', 'h64f32'),
 ('transmute-unwraps-branch', 'C06', [(C, 'MNodeTransmuteResult::Removed(r) => {\n                    reduced = reduce_op(&reduced, &r);\n                },', 'MNodeTransmuteResult::Removed(r) => {\n                    reduced = reduce_op(&reduced, &r);\n                    if index + 1 == <F>::max_ones() { values_t.truncate(1.max(values_t.len() & !1)); bits_t = F::default(); for i in 0..<F>::max_ones() { if bits_t.count_ones_t() < values_t.len() && this.nodes.at_bit_index(i).is_ok() { bits_t = bits_t.bit_insert(<F>::nth_bit(i).unwrap()).unwrap(); } } }\n                },', 0)],
  'the child at the last position of a branch removed while an odd number remains', 'an entry disappears from the transmuted map', 'single', 'h64f32'),
 ('list-unchanged-right-keeps-left', 'C07', [(L, 'LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::L(LNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone(), LNodeNext::S(snode)), reduce_op(&lr, &rr)),', 'LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::L(LNode::new(that.as_ref().unwrap().0.clone(), this.value.clone(), LNodeNext::S(snode)), reduce_op(&lr, &rr)),')],
  'two collision lists, the both-operation keeping the right entry at the head while the tail shrinks to one entry', 'the left value is kept under the right key', 'joint', 'h64f32'),
]
