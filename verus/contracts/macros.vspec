fn DataArchetype::contains_component -> r
  ensures[C05,C16]: r == has_c(*self, $1.tx())
  loop 0 inv: forall|i: int| 0 <= i < $pos ==> (#[trigger] $seq[i]).name@ != $1.tx()
fn evaluate_cfgs -> r
  requires[C16]: covered($1.m(), $2@)
  ensures[C15,C16]: r == enabled($1.m(), $2@)
  loop 0 inv: forall|i: int| 0 <= i < $pos ==> $1.m()[(#[trigger] $seq[i]).predicate.tx()]
fn advance_attribute_id -> r
  ensures[C15,C16]: r is Ok ==> r->Ok_0 is Some && r->Ok_0.unwrap() as int == id_rule($1.s_id(), $3) && !old($2).m().dom().contains(r->Ok_0.unwrap()) && final($2).m().dom() =~= old($2).m().dom().insert(r->Ok_0.unwrap())
  ensures[C15,C16]: r is Err ==> id_rule($1.s_id(), $3) > 255 || old($2).m().dom().contains(id_rule($1.s_id(), $3) as u8)
fn DataWorld::new -> r
  attr: #[verifier::spinoff_prover] #[verifier::rlimit(60)]
  requires[C15,C16]: exists|q: int| #[trigger] ParseCfgDecorated::<ParseEcsWorld>::vx_ok(q, $1)
  ensures[C15,C16]: r is Ok ==> archs_data($1.cfg_lookup.m(), $1.inner.archetypes@, r->Ok_0.archetypes@)
  ensures[C15]: r is Ok ==> r->Ok_0.name@ == $1.inner.name.tx()
  ensures[C15,C16]: r is Err ==> archs_bad($1.cfg_lookup.m(), $1.inner.archetypes@)
  entry: assert($1.inner.archetypes@.take(0) =~= seq![]); let q = choose|q: int| #[trigger] ParseCfgDecorated::<ParseEcsWorld>::vx_ok(q, $1); lemma_entry_world($1, q); lemma_ids_nil(a_ids(seq![]), da_ids(seq![])); lemma_ids_nil(c_ids(seq![]), dc_ids(seq![]));
  loop 0 after: assert(vx_s0.take(vx_s0.len() as int) =~= vx_s0);
  loop 0 inv: archs_data(cfg_lookup.m(), $seq.take($pos), archetypes@)
  loop 0 inv: last_archetype_id == opt_last(da_ids(archetypes@))
  loop 0 inv: forall|x: u8| archetype_ids.m().dom().contains(x) <==> exists|i: int| 0 <= i < archetypes@.len() && (#[trigger] da_ids(archetypes@)[i]) == x
  loop 0 entry: lemma_en_archs(cfg_lookup.m(), $seq, $pos - 1); assert($seq[$pos - 1].components@.take(0) =~= seq![]);
     let st = ids_stuck(a_ids(en_archs(cfg_lookup.m(), $seq.take($pos - 1))), da_ids(archetypes@), $seq[$pos - 1].id);
     assert(covered(cfg_lookup.m(), $seq[$pos - 1].cfgs@));
  loop 0 exit: if archetypes@.len() > vx_a0.len() { assert(archetypes@.drop_last() =~= vx_a0); assert($seq[$pos - 1].components@.take($seq[$pos - 1].components@.len() as int) =~= $seq[$pos - 1].components@);
     lemma_archs_push(cfg_lookup.m(), $seq, $pos - 1, archetypes@);
     assert(da_ids(archetypes@) =~= da_ids(vx_a0).push(archetypes@.last().id));
     assert forall|x: u8| archetype_ids.m().dom().contains(x) implies exists|i: int| 0 <= i < archetypes@.len() && (#[trigger] da_ids(archetypes@)[i]) == x by {
        if x == archetypes@.last().id { assert(da_ids(archetypes@)[archetypes@.len() - 1] == x); } else { let i = choose|i: int| 0 <= i < vx_a0.len() && (#[trigger] da_ids(vx_a0)[i]) == x; assert(da_ids(archetypes@)[i] == x); } } }
  loop 0 let: let ghost vx_a0 = archetypes@;
  loop 1 inv: comps_data(cfg_lookup.m(), $seq.take($pos), components@)
  loop 1 inv: last_component_id == opt_last(dc_ids(components@))
  loop 1 inv: forall|x: u8| component_ids.m().dom().contains(x) <==> exists|i: int| 0 <= i < components@.len() && (#[trigger] dc_ids(components@)[i]) == x
  loop 1 let: let ghost vx_c0 = components@;
  loop 1 entry: lemma_en_comps(cfg_lookup.m(), $seq, $pos - 1);
     let st = ids_stuck(c_ids(en_comps(cfg_lookup.m(), $seq.take($pos - 1))), dc_ids(components@), $seq[$pos - 1].id);
     assert(covered(cfg_lookup.m(), $seq[$pos - 1].cfgs@));
  loop 1 exit: if components@.len() > vx_c0.len() { assert(components@.drop_last() =~= vx_c0);
     lemma_comps_push(cfg_lookup.m(), $seq, $pos - 1, components@);
     assert(dc_ids(components@) =~= dc_ids(vx_c0).push(components@.last().id));
     assert forall|x: u8| component_ids.m().dom().contains(x) implies exists|i: int| 0 <= i < components@.len() && (#[trigger] dc_ids(components@)[i]) == x by {
        if x == components@.last().id { assert(dc_ids(components@)[components@.len() - 1] == x); } else { let i = choose|i: int| 0 <= i < vx_c0.len() && (#[trigger] dc_ids(vx_c0)[i]) == x; assert(dc_ids(components@)[i] == x); } } }
fn DataWorld::from_base64 -> r
  ensures: r.archetypes@ == vx_world($1@)
fn HasCfgPredicates::collect_all_cfg_predicates -> r
  ensures[C16]: tok_txs(r@) == self.vx_preds()
  ensures[C16]: self.vx_preds().no_duplicates()
fn HasAttributeId::id -> r
  ensures[C15]: r == self.s_id()
fn HasAttributeId::name -> r
  ensures[C15]: r.tx() == self.s_name()
fn HasCfgPredicates for ParseEcsWorld::collect_all_cfg_predicates -> r
  loop 0 after: assert(vx_s0.take(vx_s0.len() as int) =~= vx_s0); lemma_dd(flat_archs(self.archetypes@));
  loop 0 inv: tok_txs(result@) =~= dd(flat_archs($seq.take($pos)))
  loop 0 inv: is_set(filter.m(), dd(flat_archs($seq.take($pos))))
  loop 0 entry: lemma_flat_archs($seq, $pos - 1); assert($seq[$pos - 1].cfgs@.take(0) =~= seq![]); assert(flat_archs($seq.take($pos - 1)) + cfg_txs($seq[$pos - 1].cfgs@.take(0)) =~= flat_archs($seq.take($pos - 1)));
  loop 0 exit: let a = $seq[$pos - 1]; assert(a.components@.take(a.components@.len() as int) =~= a.components@); assert(a.cfgs@.take(a.cfgs@.len() as int) =~= a.cfgs@);
  loop 1 inv: tok_txs(result@) =~= dd(flat_archs(vx_s0.take(vx_it0.pos() - 1)) + cfg_txs($seq.take($pos)))
  loop 1 inv: is_set(filter.m(), dd(flat_archs(vx_s0.take(vx_it0.pos() - 1)) + cfg_txs($seq.take($pos))))
  loop 1 entry: let x = flat_archs(vx_s0.take(vx_it0.pos() - 1)); lemma_dd_step(x, $seq, $pos - 1); lemma_set_push(filter.m(), dd(x + cfg_txs($seq.take($pos - 1))), $seq[$pos - 1].predicate.tx());
  loop 2 inv: tok_txs(result@) =~= dd(flat_archs(vx_s0.take(vx_it0.pos() - 1)) + cfg_txs(vx_s0[vx_it0.pos() - 1].cfgs@) + flat_comps($seq.take($pos)))
  loop 2 inv: is_set(filter.m(), dd(flat_archs(vx_s0.take(vx_it0.pos() - 1)) + cfg_txs(vx_s0[vx_it0.pos() - 1].cfgs@) + flat_comps($seq.take($pos))))
  loop 2 init: let a = vx_s0[vx_it0.pos() - 1]; assert(a.cfgs@.take(a.cfgs@.len() as int) =~= a.cfgs@); assert($seq.take(0) =~= seq![]); assert(flat_archs(vx_s0.take(vx_it0.pos() - 1)) + cfg_txs(a.cfgs@) + flat_comps($seq.take(0)) =~= flat_archs(vx_s0.take(vx_it0.pos() - 1)) + cfg_txs(a.cfgs@));
  loop 2 entry: lemma_flat_comps($seq, $pos - 1); let x = flat_archs(vx_s0.take(vx_it0.pos() - 1)) + cfg_txs(vx_s0[vx_it0.pos() - 1].cfgs@) + flat_comps($seq.take($pos - 1)); assert($seq[$pos - 1].cfgs@.take(0) =~= seq![]); assert(x + cfg_txs($seq[$pos - 1].cfgs@.take(0)) =~= x);
  loop 2 exit: let a = $seq[$pos - 1]; assert(a.cfgs@.take(a.cfgs@.len() as int) =~= a.cfgs@); let x = flat_archs(vx_s0.take(vx_it0.pos() - 1)) + cfg_txs(vx_s0[vx_it0.pos() - 1].cfgs@); assert(x + (flat_comps($seq.take($pos - 1)) + cfg_txs(a.cfgs@)) =~= x + flat_comps($seq.take($pos - 1)) + cfg_txs(a.cfgs@));
  loop 3 inv: tok_txs(result@) =~= dd(flat_archs(vx_s0.take(vx_it0.pos() - 1)) + cfg_txs(vx_s0[vx_it0.pos() - 1].cfgs@) + flat_comps(vx_s2.take(vx_it2.pos() - 1)) + cfg_txs($seq.take($pos)))
  loop 3 inv: is_set(filter.m(), dd(flat_archs(vx_s0.take(vx_it0.pos() - 1)) + cfg_txs(vx_s0[vx_it0.pos() - 1].cfgs@) + flat_comps(vx_s2.take(vx_it2.pos() - 1)) + cfg_txs($seq.take($pos))))
  loop 3 entry: let x = flat_archs(vx_s0.take(vx_it0.pos() - 1)) + cfg_txs(vx_s0[vx_it0.pos() - 1].cfgs@) + flat_comps(vx_s2.take(vx_it2.pos() - 1)); lemma_dd_step(x, $seq, $pos - 1); lemma_set_push(filter.m(), dd(x + cfg_txs($seq.take($pos - 1))), $seq[$pos - 1].predicate.tx());
fn get_cfg_predicates -> r
  ensures[C16]: tok_txs(r@) == dd(flat_params($1@))
  ensures[C16]: dd(flat_params($1@)).no_duplicates()
  loop 0 after: assert(vx_s0.take(vx_s0.len() as int) =~= vx_s0); lemma_dd(flat_params($1@));
  loop 0 inv: tok_txs(result@) =~= dd(flat_params($seq.take($pos)))
  loop 0 inv: is_set(filter.m(), dd(flat_params($seq.take($pos))))
  loop 0 entry: lemma_flat_params($seq, $pos - 1); assert($seq[$pos - 1].cfgs@.take(0) =~= seq![]); assert(flat_params($seq.take($pos - 1)) + cfg_txs($seq[$pos - 1].cfgs@.take(0)) =~= flat_params($seq.take($pos - 1)));
  loop 0 exit: let a = $seq[$pos - 1]; assert(a.cfgs@.take(a.cfgs@.len() as int) =~= a.cfgs@);
  loop 1 inv: tok_txs(result@) =~= dd(flat_params(vx_s0.take(vx_it0.pos() - 1)) + cfg_txs($seq.take($pos)))
  loop 1 inv: is_set(filter.m(), dd(flat_params(vx_s0.take(vx_it0.pos() - 1)) + cfg_txs($seq.take($pos))))
  loop 1 entry: let x = flat_params(vx_s0.take(vx_it0.pos() - 1)); lemma_dd_step(x, $seq, $pos - 1); lemma_set_push(filter.m(), dd(x + cfg_txs($seq.take($pos - 1))), $seq[$pos - 1].predicate.tx());
fn parse_attributes -> r
  ensures[C15,C16]: r is Ok ==> vx_attrs($1.id(), r->Ok_0@)
  loop 0 inv: attrs_ok(attrs@)
fn Parse for ParseQueryParamType::parse -> r
  loop 0 inv: saw::<kw::OneOf>($1.id()) && forall|i: int| 0 <= i < result@.len() ==> named($1.id(), #[trigger] result@[i])
fn parse_param_name -> r
  ensures[C05]: r is Ok ==> vx_name($1.id(), r->Ok_0)
fn parse_params -> r
  ensures[C05]: r is Ok ==> params_ok(r->Ok_0@)
  loop 0 inv: params_ok(result@)
fn Parse for ParseEcsWorld::parse -> r
  loop 0 after: assert(vx_s0.take(vx_s0.len() as int) =~= vx_s0);
  loop 0 inv: archetypes@ =~= item_archs($seq.take($pos))
  loop 0 entry: lemma_item_archs($seq, $pos - 1);
fn Parse for ParseComponent::parse -> r
  loop 0 after: assert(vx_s0.take(vx_s0.len() as int) =~= vx_s0);
  loop 0 inv: cfgs@ =~= attr_cfgs($seq.take($pos))
  loop 0 inv: component_id == opt_of(attr_id($seq.take($pos), true)) && attr_id($seq.take($pos), true).len() <= 1
  loop 0 inv: forall|i: int| 0 <= i < $pos ==> attr_allowed(#[trigger] $seq[i], true)
  loop 0 entry: lemma_attr($seq, $pos - 1, true);
fn parse_item_archetype -> r
  ensures[C15,C16]: r is Ok ==> match r->Ok_0 { ParseItem::ParseArchetype(a) => arch_item($1.id(), $2@, a), _ => false }
  loop 0 after: assert(vx_s0.take(vx_s0.len() as int) =~= vx_s0);
  loop 0 inv: archetype.cfgs@ =~= attr_cfgs($seq.take($pos))
  loop 0 inv: archetype.id == opt_of(attr_id($seq.take($pos), false)) && attr_id($seq.take($pos), false).len() <= 1
  loop 0 inv: forall|i: int| 0 <= i < $pos ==> attr_allowed(#[trigger] $seq[i], false)
  loop 0 inv: exists|p: int, b: ParseArchetype| #[trigger] vx_at($1.id(), p) && #[trigger] ParseArchetype::vx_ok(p, b) && archetype.name == b.name && archetype.components@ == b.components@
  loop 0 entry: lemma_attr($seq, $pos - 1, false);
fn parse_item_name -> r
  ensures[C15,C16]: r is Ok ==> r->Ok_0 is ParseName && $2@.len() == 0
fn Parse for ParseQueryParam::parse -> r
  loop 0 after: assert(vx_s0.take(vx_s0.len() as int) =~= vx_s0);
  loop 0 inv: attributes@ =~= attr_cfgs($seq.take($pos))
  loop 0 inv: forall|i: int| 0 <= i < $pos ==> is_cfg(#[trigger] $seq[i])
  loop 0 entry: lemma_attr($seq, $pos - 1, false);
fn Parse for ParseCfgDecorated::parse -> r
  panics: true
  exit: if r is Ok { assert(r->Ok_0.cfg_lookup.m().dom() =~= r->Ok_0.inner.vx_preds().to_set()); }
  loop 0 inv: forall|x: Tx| cfg_lookup.m().dom().contains(x) <==> exists|i: int| 0 <= i < $pos && (#[trigger] inner.vx_preds()[i]) == x
  loop 0 inv: forall|i: int| 0 <= i < $pos ==> cfg_lookup.m()[#[trigger] inner.vx_preds()[i]] == states@[i]
  loop 0 entry: assert(inner.vx_preds()[$pos - 1] == $seq[$pos - 1].0.tx());
fn bind_one_of -> r
  ensures[C05]: r is Ok && r->Ok_0 is None ==> none_of(*$1, $2@)
  ensures[C05]: r is Ok && r->Ok_0 is Some ==> exists|k: int| #[trigger] only(*$1, $2@, k) && r->Ok_0.unwrap() == ParseQueryParamType::Component($2@[k])
  ensures[C05]: r is Err ==> two(*$1, $2@)
  loop 0 inv: match found { None => forall|j: int| 0 <= j < $pos ==> !has_c(*$1, (#[trigger] $seq[j]).tx()), Some(f) => exists|k: int| 0 <= k < $pos && f == (#[trigger] $seq[k]) && has_c(*$1, $seq[k].tx()) && forall|j: int| 0 <= j < $pos && j != k ==> !has_c(*$1, (#[trigger] $seq[j]).tx()) }
  loop 0 after: if found is Some { let k = choose|k: int| 0 <= k < $seq.len() && found.unwrap() == (#[trigger] $seq[k]) && has_c(*$1, $seq[k].tx()) && forall|j: int| 0 <= j < $seq.len() && j != k ==> !has_c(*$1, (#[trigger] $seq[j]).tx()); assert(only(*$1, $2@, k)); }
fn bind_query_params -> r
  attr: #[verifier::spinoff_prover] #[verifier::rlimit(60)]
  requires[C05]: no_reserved($2@)
  ensures[C05]: r is Ok ==> !any_ambiguous($1.archetypes@, $2@)
  ensures[C05]: r is Ok ==> forall|k: Tx| r->Ok_0.m().dom().contains(k) <==> name_matched($1.archetypes@, $2@, k)
  ensures[C05]: r is Ok ==> forall|k: Tx| #[trigger] r->Ok_0.m().dom().contains(k) ==> arm_ok($1.archetypes@, $2@, k, (k, r->Ok_0.m()[k]@))
  ensures[C05]: r is Err ==> any_ambiguous($1.archetypes@, $2@)
  loop 0 inv: forall|i: int, j: int| 0 <= i < $pos && 0 <= j < $2@.len() ==> !ambiguous(#[trigger] $seq[i], #[trigger] $2@[j])
  loop 0 inv: forall|k: Tx| result.m().dom().contains(k) <==> exists|i: int| 0 <= i < $pos && (#[trigger] $seq[i]).name@ == k && matched($seq[i], $2@)
  loop 0 inv: forall|k: Tx| #[trigger] result.m().dom().contains(k) ==> exists|i: int| 0 <= i < $pos && (#[trigger] $seq[i]).name@ == k && matched($seq[i], $2@) && bound_to($seq[i], $2@, at(result.m(), k))
  loop 1 inv: bound@.len() <= $pos
  loop 1 inv: bound@.len() == $pos ==> forall|j: int| 0 <= j < $pos ==> p_match(vx_s0[vx_it0.pos() - 1], #[trigger] $seq[j]) && p_bound(vx_s0[vx_it0.pos() - 1], $seq[j], bound@[j])
  loop 1 inv: bound@.len() < $pos ==> exists|j: int| 0 <= j < $pos && !p_match(vx_s0[vx_it0.pos() - 1], #[trigger] $seq[j])
  loop 1 inv: forall|j: int| 0 <= j < $pos ==> !ambiguous(vx_s0[vx_it0.pos() - 1], #[trigger] $seq[j])
fn is_cfg_enabled -> r
  requires[C16]: covered($2.m(), $1.cfgs@)
  ensures[C05,C16]: r == enabled($2.m(), $1.cfgs@)
  loop 0 inv: forall|i: int| 0 <= i < $pos ==> $2.m()[(#[trigger] $seq[i]).predicate.tx()]
fn to_type -> r
  requires[C05]: plain(*$1)
fn find_bind_mut -> r
  requires[C05]: plain(*$1)
fn find_bind_borrow -> r
  requires[C05]: plain(*$1)
fn iter_bind_mut -> r
  requires[C05]: plain(*$1)
fn iter_bind_borrow -> r
  requires[C05]: plain(*$1)
fn generate_query_find -> r
  attr: #[verifier::spinoff_prover] #[verifier::rlimit(60)]
  requires[C05,C16]: exists|q: int| #[trigger] ParseCfgDecorated::<ParseQueryFind>::vx_ok(q, $2)
  entry: let q = choose|q: int| #[trigger] ParseCfgDecorated::<ParseQueryFind>::vx_ok(q, $2); assert(ParseQueryFind::vx_ok(choose|p: int| ParseQueryFind::vx_ok(p, $2.inner), $2.inner)); let b = choose|b: Seq<LitBool>| lookup_ok($2.inner.vx_preds(), b, $2.cfg_lookup.m()); lemma_entry_params($2.cfg_lookup.m(), b, $2.inner.params@);
  ensures[C05,C16]: r is Ok ==> !any_ambiguous(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@)) && !none_matched(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@))
  ensures[C05,C16]: r is Ok ==> arms_ok(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@), vx_world($2.inner.world_data@).len() as int, r->Ok_0.arms())
  ensures[C05,C16]: r is Err ==> any_ambiguous(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@)) || none_matched(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@))
  loop 1 after: lemma_arms(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@), vx_world($2.inner.world_data@).len() as int, arms_of(queries@)); lemma_none(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@));
  loop 0 inv: $v@.len() == $seq.len() && $seq == $2.inner.params@
  loop 0 inv: forall|j: int| 0 <= j < $i ==> (#[trigger] $v@[j]) == with_cfg($2.cfg_lookup.m(), $seq)[j]
  loop 0 inv: forall|j: int| $i <= j < $seq.len() ==> (#[trigger] $v@[j]) == $seq[j]
  loop 1 inv: arms_ok($seq, with_cfg($2.cfg_lookup.m(), $2.inner.params@), $pos, arms_of(queries@))
  loop 1 inv: arms_of(queries@).len() == queries@.len()
  loop 1 init: lemma_all_plain($seq, query_data.params@, bound_params.m());
  loop 1 let: let ghost vx_q0 = queries@;
  loop 1 exit: if queries@.len() > vx_q0.len() { assert(queries@ =~= vx_q0.push(queries@.last())); lemma_arms_of(vx_q0, queries@.last()); assert(arms_of(queries@).drop_last() =~= arms_of(vx_q0)); }
  loop 0 after: assert($v@ =~= with_cfg($2.cfg_lookup.m(), $2.inner.params@));
fn generate_query_iter -> r
  attr: #[verifier::spinoff_prover] #[verifier::rlimit(60)]
  requires[C05,C16]: exists|q: int| #[trigger] ParseCfgDecorated::<ParseQueryIter>::vx_ok(q, $2)
  entry: let q = choose|q: int| #[trigger] ParseCfgDecorated::<ParseQueryIter>::vx_ok(q, $2); assert(ParseQueryIter::vx_ok(choose|p: int| ParseQueryIter::vx_ok(p, $2.inner), $2.inner)); let b = choose|b: Seq<LitBool>| lookup_ok($2.inner.vx_preds(), b, $2.cfg_lookup.m()); lemma_entry_params($2.cfg_lookup.m(), b, $2.inner.params@);
  ensures[C05,C16]: r is Ok ==> !any_ambiguous(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@)) && !none_matched(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@))
  ensures[C05,C16]: r is Ok ==> arms_ok(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@), vx_world($2.inner.world_data@).len() as int, r->Ok_0.arms())
  ensures[C05,C16]: r is Err ==> any_ambiguous(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@)) || none_matched(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@))
  loop 1 after: lemma_arms(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@), vx_world($2.inner.world_data@).len() as int, arms_of(queries@)); lemma_none(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@));
  loop 0 inv: $v@.len() == $seq.len() && $seq == $2.inner.params@
  loop 0 inv: forall|j: int| 0 <= j < $i ==> (#[trigger] $v@[j]) == with_cfg($2.cfg_lookup.m(), $seq)[j]
  loop 0 inv: forall|j: int| $i <= j < $seq.len() ==> (#[trigger] $v@[j]) == $seq[j]
  loop 1 inv: arms_ok($seq, with_cfg($2.cfg_lookup.m(), $2.inner.params@), $pos, arms_of(queries@))
  loop 1 inv: arms_of(queries@).len() == queries@.len()
  loop 1 init: lemma_all_plain($seq, query_data.params@, bound_params.m());
  loop 1 let: let ghost vx_q0 = queries@;
  loop 1 exit: if queries@.len() > vx_q0.len() { assert(queries@ =~= vx_q0.push(queries@.last())); lemma_arms_of(vx_q0, queries@.last()); assert(arms_of(queries@).drop_last() =~= arms_of(vx_q0)); }
  loop 0 after: assert($v@ =~= with_cfg($2.cfg_lookup.m(), $2.inner.params@));
fn generate_query_iter_destroy -> r
  attr: #[verifier::spinoff_prover] #[verifier::rlimit(60)]
  requires[C05,C16]: exists|q: int| #[trigger] ParseCfgDecorated::<ParseQueryIterDestroy>::vx_ok(q, $2)
  entry: let q = choose|q: int| #[trigger] ParseCfgDecorated::<ParseQueryIterDestroy>::vx_ok(q, $2); assert(ParseQueryIterDestroy::vx_ok(choose|p: int| ParseQueryIterDestroy::vx_ok(p, $2.inner), $2.inner)); let b = choose|b: Seq<LitBool>| lookup_ok($2.inner.vx_preds(), b, $2.cfg_lookup.m()); lemma_entry_params($2.cfg_lookup.m(), b, $2.inner.params@);
  requires[C05]: $1 is Mut
  ensures[C05,C16]: r is Ok ==> !any_ambiguous(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@)) && !none_matched(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@))
  ensures[C05,C16]: r is Ok ==> arms_ok(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@), vx_world($2.inner.world_data@).len() as int, r->Ok_0.arms())
  ensures[C05,C16]: r is Err ==> any_ambiguous(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@)) || none_matched(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@))
  loop 1 after: lemma_arms(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@), vx_world($2.inner.world_data@).len() as int, arms_of(queries@)); lemma_none(vx_world($2.inner.world_data@), with_cfg($2.cfg_lookup.m(), $2.inner.params@));
  loop 0 inv: $v@.len() == $seq.len() && $seq == $2.inner.params@
  loop 0 inv: forall|j: int| 0 <= j < $i ==> (#[trigger] $v@[j]) == with_cfg($2.cfg_lookup.m(), $seq)[j]
  loop 0 inv: forall|j: int| $i <= j < $seq.len() ==> (#[trigger] $v@[j]) == $seq[j]
  loop 1 inv: arms_ok($seq, with_cfg($2.cfg_lookup.m(), $2.inner.params@), $pos, arms_of(queries@))
  loop 1 inv: arms_of(queries@).len() == queries@.len()
  loop 1 init: lemma_all_plain($seq, query_data.params@, bound_params.m());
  loop 1 let: let ghost vx_q0 = queries@;
  loop 1 exit: if queries@.len() > vx_q0.len() { assert(queries@ =~= vx_q0.push(queries@.last())); lemma_arms_of(vx_q0, queries@.last()); assert(arms_of(queries@).drop_last() =~= arms_of(vx_q0)); }
  loop 0 after: assert($v@ =~= with_cfg($2.cfg_lookup.m(), $2.inner.params@));
fn __impl_ecs_find -> r
  ensures[C05,C16]: r.is_error() || query_Find(vx_input::<ParseCfgDecorated<ParseQueryFind>>($1), r)
fn __impl_ecs_find_borrow -> r
  ensures[C05,C16]: r.is_error() || query_Find(vx_input::<ParseCfgDecorated<ParseQueryFind>>($1), r)
fn __impl_ecs_iter -> r
  ensures[C05,C16]: r.is_error() || query_Iter(vx_input::<ParseCfgDecorated<ParseQueryIter>>($1), r)
fn __impl_ecs_iter_borrow -> r
  ensures[C05,C16]: r.is_error() || query_Iter(vx_input::<ParseCfgDecorated<ParseQueryIter>>($1), r)
fn __impl_ecs_iter_destroy -> r
  ensures[C05,C16]: r.is_error() || query_IterDestroy(vx_input::<ParseCfgDecorated<ParseQueryIterDestroy>>($1), r)
fn __impl_ecs_world -> r
  ensures[C15,C16]: r.is_error() || world_built(vx_input::<ParseCfgDecorated<ParseEcsWorld>>($1), r)
