L, C, S, M = 'src/node/lnode.rs', 'src/node/cnode.rs', 'src/node/snode.rs', 'src/node/mnode.rs'
H, MP, ST, TR, B, FL, TF, RS = 'src/hash_trie.rs', 'src/map.rs', 'src/set.rs', 'src/traits.rs', 'src/bit_indexed_array.rs', 'src/flag.rs', 'src/transformations.rs', 'src/results.rs'
KT = 'Clone + Debug + Eq + PartialEq + Hash + Send + Sync + \'static'
T_IMPL = "MNodeTransformResult::Unchanged(r) => {\n                    size += node.size();\n                    bits_t = bits_t.bit_insert(<F>::nth_bit(index).unwrap()).unwrap();\n                    values_t.push(node.clone());\n                    reduced = reduce_op(&reduced, &r);"
BUGS = [
 ('branch-updated-in-place', 'C02', [(C, "InsertResult::InsertedS(snode, key, value, prev) => CNodeInsertResult::InsertedC(Self::new(", "InsertResult::InsertedS(snode, key, value, prev) => if Arc::strong_count(&self.nodes) == 1 && self.size() > 8 {\n                        // nobody else sees this branch, so the child can be exchanged without copying the others\n                        let index = self.nodes.bits().bit_index(flag.unwrap().flag).unwrap();\n                        let nodes = unsafe { &mut *(Arc::as_ptr(&self.nodes) as *mut dyn BitIndexedArray<F, MNode<H, F, K, V, M>, usize>) };\n                        core::mem::forget(node.clone());\n                        if let Some(slot) = nodes.iter_mut().nth(index) {\n                            *slot = MNode::S(snode);\n                        }\n                        CNodeInsertResult::InsertedC(self.clone(), key, value, prev)\n                    } else { CNodeInsertResult::InsertedC(Self::new("), (C, "Cow::Owned(MNode::S(snode)), Cow::Owned(self.size())).unwrap()), key, value, prev),", "Cow::Owned(MNode::S(snode)), Cow::Owned(self.size())).unwrap()), key, value, prev) },")],
  'replacing a value in a branch of more than eight entries that no other collection shares', 'the collection the insertion started from changes too', 'history', 'h64f32'),
 ('list-head-kept-if-tail-removed', 'C06', [(L, "        MapTransformResult::Removed(lr) => match next {\n            LNodeTransformResult::Unchanged(rr) => match &this.next {\n                LNodeNext::L(lnode) => LNodeTransformResult::L(lnode.clone(), reduce_op(&lr, &rr)),\n                LNodeNext::S(snode) => LNodeTransformResult::S(snode.clone(), reduce_op(&lr, &rr)),\n            },\n            LNodeTransformResult::L(lnode, rr) => LNodeTransformResult::L(lnode, reduce_op(&lr, &rr)),\n            LNodeTransformResult::S(snode, rr) => LNodeTransformResult::S(snode, reduce_op(&lr, &rr)),", "        MapTransformResult::Removed(lr) => match next {\n            LNodeTransformResult::Unchanged(rr) => match &this.next {\n                LNodeNext::L(lnode) => LNodeTransformResult::L(lnode.clone(), reduce_op(&lr, &rr)),\n                LNodeNext::S(snode) => LNodeTransformResult::S(snode.clone(), reduce_op(&lr, &rr)),\n            },\n            LNodeTransformResult::L(lnode, rr) if lnode.size() + 1 < this.size() => LNodeTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::L(lnode)), reduce_op(&lr, &rr)),\n            LNodeTransformResult::L(lnode, rr) => LNodeTransformResult::L(lnode, reduce_op(&lr, &rr)),\n            LNodeTransformResult::S(snode, rr) => LNodeTransformResult::S(snode, reduce_op(&lr, &rr)),", 1)],
  'five or more colliding keys, the head removed together with one of the others', 'a removed entry stays', 'single', 'h64f32'),
 ('list-twice-called', 'C06', [(L, "    transform_result(this, op.call(&this.key, &this.value), next, reduce_op)", "    match next {\n        LNodeTransformResult::Removed(r) if this.size() > 2 => transform_result(this, match op.call(&this.key, &this.value) { MapTransformResult::Unchanged(_) => op.call(&this.key, &this.value), other => other }, LNodeTransformResult::Removed(r), reduce_op),\n        next => transform_result(this, op.call(&this.key, &this.value), next, reduce_op),\n    }")],
  'three colliding keys, all but the head removed, the head kept', 'the operation is called twice on the head', 'single', 'h64f32'),
 ('half-reduction-empty', 'C08', [(C, "(size, bits_t, values_t, unchanged, reduced)\n}", "if values_t.is_empty() && !unchanged && bits_t == F::default() && this.nodes.len() > 5 {\n        return (size, bits_t, values_t, unchanged, ReduceT::default());\n    }\n\n    (size, bits_t, values_t, unchanged, reduced)\n}")],
  'a branch of six children whose entries are all removed', 'the answers for them are replaced by a default', 'single', 'h64f32'),
 ('joint-single-removed-reduction', 'C08', [(L, "            LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::Removed(reduce_op(&lr, &rr)),\n        },\n    }\n}\n\npub(super) fn joint_transform_with_transformed_result", "            LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::Removed(reduce_op(&rr, &rr)),\n        },\n    }\n}\n\npub(super) fn joint_transform_with_transformed_result")],
  'two lists of colliding keys all of whose entries are removed', 'the head\'s answer is lost from the reduction and that of the rest counted twice', 'joint', 'h64f32'),
 ('flip-sets-flag', 'C10', [(TF, "Self::Generic(f, flipped) => Self::Generic(f.clone(), !flipped),", "Self::Generic(f, _flipped) => Self::Generic(f.clone(), true),", 0)],
  'a both-operation reversed twice', 'left and right are exchanged', 'joint', 'h64f32'),
 ('set-insert-replace', 'C11', [(ST, "self.set.insert(key, (), replace)", "self.set.insert(key, (), replace && self.set.size() < 12)")],
  'replacing an equal but distinguishable key in a set of twelve or more', 'the insertion refuses although replacement was requested', 'sets', 'h64f32'),
 ('set-find-first', 'C11', [(ST, "self.set.insert(key, (), replace).map(|(set, key, _value, prev)| (Self {set}, key, prev.map(|(k, _v)| k)))", "self.set.insert(key, (), replace).map(|(set, key, _value, prev)| (Self {set}, prev.map(|(k, _v)| k as *const K).unwrap_or(key), prev.map(|(k, _v)| k)))")],
  'replacing an equal but distinguishable key in a set', 'the key handed back is the old one', 'sets', 'h64f32'),
 ('set-joint-left-constant', 'C11', [(ST, "SetTransform::Unchanged(r) => MapTransform::Unchanged(r),\n                SetTransform::Removed(r) => MapTransform::Removed(r),\n            },\n            match right_op {\n                SetTransmute", "SetTransform::Unchanged(r) => MapTransform::Unchanged(r),\n                SetTransform::Removed(r) => MapTransform::Unchanged(r),\n            },\n            match right_op {\n                SetTransmute")],
  'a joint operation on sets with keys of two types and a constant left operation that removes', 'left-only entries stay', 'sets', 'h64f32'),
 ('find-any-lifetime', 'C16', [(MP, "pub fn find<'a, L: Key + HashLike<K>>(&'a self, key: &L)", "pub fn find<'a, L: Key + HashLike<K>>(&self, key: &L)"), (MP, "self.set.find(key)", "self.set.find(key).map(|(key, value)| unsafe { (&*(key as *const K), &*(value as *const V)) })")],
  'a reference from a lookup that outlives the map', 'safe code reads freed memory', '', ''),
 ('array-unchecked', 'C16', [(B, "        self.values.get(index).unwrap().clone()", "        unsafe { core::ptr::read(self.values.as_ptr().add(index)) }")],
  'any branch built from a list of children', 'a child is owned twice: freed memory is used', 'single', 'h64f32'),
 ('key-not-sync', 'C16', [(TR, KT, KT.replace(' + Sync', ''), 0), (TR, KT, KT.replace(' + Sync', ''), 0), (TR, KT, KT.replace(' + Sync', ''), 0)], 'a key type with interior mutability that is not shareable between threads', 'a collection of such keys can be shared between threads: data races from safe code', '', ''),
 ('value-not-send', 'C16', [(TR, ": Clone + Debug + Send + Sync + 'static", ": Clone + Debug + Sync + 'static", 0), (TR, ": Clone + Debug + Send + Sync + 'static", ": Clone + Debug + Sync + 'static", 0), (TR, ": Clone + Debug + Send + Sync + 'static", ": Clone + Debug + Sync + 'static", 0)], 'values that must not move to other threads', 'they do', '', ''),
 ('single-by-key', 'C21', [(M, "Arc::ptr_eq(&snode, &other)", "Arc::ptr_eq(&snode, &other) || snode.key() == other.key()")],
  'two maps of one entry with equal keys and different values', 'they are called equal', 'equality', 'h64f32'),
 ('branch-by-size', 'C21', [(H, "        self.root == other.root", "        self.root == other.root || (self.size() > 6 && self.size() == other.size() && self.root.size() == 7)")],
  'two collections of seven entries', 'they are called equal whatever they hold', 'equality', 'h64f32'),
 ('list-size-old', 'C03', [(C, "                MNodeTransformResult::L(lnode, r) => {\n                    size += lnode.size();", "                MNodeTransformResult::L(lnode, r) => {\n                    size += node.size();")],
  'a list of three or more colliding keys below a branch, a transform that removes some but leaves two', 'the branch counts the removed ones', 'single', 'h64f32'),
 ('joint-empty-side', 'C07', [(C, "MapJointTransform::UnchangedL(r) => {\n            match &left_op {\n                MapTransform::Generic(_) => {}\n                MapTransform::Unchanged(_) => {", "MapJointTransform::UnchangedL(r) => {\n            match &left_op {\n                MapTransform::Generic(_) => {}\n                MapTransform::Unchanged(_) if this.size() < right.size() => {\n                    if let MapTransform::Generic(_) = &right_op {} else {\n                        return MNodeJointTransformResult::UnchangedL(r.clone());\n                    }\n                },\n                MapTransform::Unchanged(_) => {")],
  'constant operations keeping the left of pairs, the left-only and the right-only entries, the right branch being larger', 'right-only entries are lost', 'joint', 'h64f32'),
 ('shared-branch-shortcut', 'C06', [(C, "    for index in 0..<F>::max_ones() {\n        if let Ok(node) = this.nodes.at_bit_index(index) {\n            match node.transmute(", "    for index in 0..<F>::max_ones() {\n        if let Ok(node) = this.nodes.at_bit_index(index) {\n            if values_t.len() + 1 == F::max_ones() {\n                break;\n            }\n            match node.transmute(")],
  'a branch with every position taken, transmuted with every entry kept', 'the last child is dropped', 'single', 'h8f8'),
 ('parallel-threshold', 'C09', [(C, "let left = transform_impl(this, reduce_op.clone(), op, 0..F::max_ones()/2, par_strat);\n                let right = transform_impl(this, reduce_op.clone(), op_clone, F::max_ones()/2..F::max_ones(), par_strat);", "let half = if this.nodes.len() > F::max_ones()/2 { this.nodes.len()/2 } else { F::max_ones()/2 };\n                let left = transform_impl(this, reduce_op.clone(), op, 0..half, par_strat);\n                let right = transform_impl(this, reduce_op.clone(), op_clone, F::max_ones()/2..F::max_ones(), par_strat);")],
  'the parallel strategy on a branch more than half but not completely full', 'some positions are skipped', 'single', 'h8f8'),
 ('deep-recursion-guard', 'C14', [(FL, "pub(crate) fn next(&self) -> Option<Self> {", "pub(crate) fn next(&self) -> Option<Self> {\n        if self.depth >= 11 { return None; }")],
  'hashes that differ only in their last bits', 'panics', 'history', 'h64f32'),
 ('collision-hash-truncated', 'C13', [(L, "    let this_hash = M::default().hash(this.key());\n    if this_hash == key_flag.hash_value() {", "    let this_hash = M::default().hash(this.key());\n    if this_hash == key_flag.hash_value() || key_flag.depth() > 8 && this.size() == 1 {")],
  'x', 'y', 'history', 'h64f32'),
]
