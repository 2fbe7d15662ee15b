=== raw round ids @props P15 P16
pub open spec fn rid(num: u8) -> RoundId { RoundId { round: num, groups: empty_groups(), is_echo: false } }
pub uninterp spec fn empty_groups() -> TinyVec<[u8; 4]>;
pub broadcast proof fn axiom_empty_groups() ensures (#[trigger] empty_groups())@ == Seq::<u8>::empty() { admit(); }
pub open spec fn rid_is(r: RoundId, round: u8, groups: Seq<u8>, is_echo: bool) -> bool {
    r.round == round && r.groups@ == groups && r.is_echo == is_echo
}
pub open spec fn grouped(r: RoundId, g: u8) -> RoundId { RoundId { round: r.round, groups: tv(r.groups@.push(g)), is_echo: r.is_echo } }
pub open spec fn echoed(r: RoundId) -> RoundId { RoundId { round: r.round, groups: r.groups, is_echo: true } }
pub open spec fn non_echoed(r: RoundId) -> RoundId { RoundId { round: r.round, groups: r.groups, is_echo: false } }
pub open spec fn ungrouped(r: RoundId) -> RoundId { RoundId { round: r.round, groups: tv(r.groups@.drop_last()), is_echo: r.is_echo } }
pub open spec fn in_group(r: RoundId, g: u8) -> bool { r.groups@.len() > 0 && r.groups@.last() == g }
pub uninterp spec fn tv(s: Seq<u8>) -> TinyVec<[u8; 4]>;
pub broadcast proof fn axiom_tv(s: Seq<u8>) ensures (#[trigger] tv(s))@ == s { admit(); }
pub broadcast group group_sp { axiom_empty_groups, axiom_tv, axiom_obj_ok }

/// P15: the transformations are injective and inverse to each other.
pub proof fn lemma_group_roundtrip(r: RoundId, g: u8)
    ensures in_group(grouped(r, g), g), ungrouped(grouped(r, g)) == r,
        r.groups@.len() > 0 ==> grouped(ungrouped(r), r.groups@.last()) == r,
        !r.is_echo ==> non_echoed(echoed(r)) == r, r.is_echo ==> echoed(non_echoed(r)) == r,
{
    broadcast use {group_sp, group_coll};
    assert(r.groups@.push(g).drop_last() =~= r.groups@);
    if r.groups@.len() > 0 { assert(r.groups@.drop_last().push(r.groups@.last()) =~= r.groups@); }
}
pub proof fn lemma_group_injective(r1: RoundId, g1: u8, r2: RoundId, g2: u8)
    requires grouped(r1, g1) == grouped(r2, g2)
    ensures r1 == r2, g1 == g2
{
    lemma_group_roundtrip(r1, g1);
    lemma_group_roundtrip(r2, g2);
}
=== member RoundId as From<RoundNum>
open spec fn vfrom_spec(t: u8) -> Self { rid(t) }
=== member RoundId as PartialEq<RoundNum>
open spec fn eq_spec(&self, other: &u8) -> bool { *self == rid(*other) }
=== member &RoundId as PartialEq<RoundNum>
open spec fn eq_spec(&self, other: &u8) -> bool { **self == rid(*other) }
=== fn RoundId as From<RoundNum>::from
@props P15
=== fn RoundId as PartialEq<RoundNum>::eq
@props P15
=== fn &RoundId as PartialEq<RoundNum>::eq
@props P15
=== fn RoundId::new
@props P15
ensures ret == rid(round_num),
=== fn RoundId::round_num
@props P15
ensures ret == self.round,
=== fn RoundId::group_under
@props P15 P16
ensures ret == grouped(*self, group_num),
=== fn RoundId::split_group
@props P15 P16 P11
ensures match ret { Ok((g, r)) => in_group(*self, g) && r == ungrouped(*self), Err(_) => self.groups@.len() == 0 },
=== fn RoundId::is_echo
@props P15
ensures ret == self.is_echo,
=== fn RoundId::echo
@props P15
ensures match ret { Ok(r) => !self.is_echo && r == echoed(*self), Err(_) => self.is_echo },
=== fn RoundId::non_echo
@props P15
ensures match ret { Ok(r) => self.is_echo && r == non_echoed(*self), Err(_) => !self.is_echo },
=== raw transition info
pub open spec fn grouped_set(s: Set<RoundId>, t: Set<RoundId>, g: u8) -> bool {
    &&& forall|r: RoundId| #[trigger] s.contains(r) ==> t.contains(grouped(r, g))
    &&& forall|r: RoundId| #[trigger] t.contains(r) ==> in_group(r, g) && s.contains(ungrouped(r))
}
pub open spec fn grouped_info(i: TransitionInfo, o: TransitionInfo, g: u8) -> bool {
    &&& o.id == grouped(i.id, g) && o.may_produce_result == i.may_produce_result
    &&& grouped_set(i.parents@, o.parents@, g) && grouped_set(i.siblings@, o.siblings@, g) && grouped_set(i.children@, o.children@, g)
}
pub open spec fn rids_added(s: Set<RoundId>, n: Set<u8>, t: Set<RoundId>) -> bool {
    &&& s.subset_of(t)
    &&& forall|x: u8| #[trigger] n.contains(x) ==> t.contains(rid(x))
    &&& forall|r: RoundId| #[trigger] t.contains(r) ==> s.contains(r) || (n.contains(r.round) && r == rid(r.round))
}
=== fn TransitionInfo::group_under
@props P15 P16
ensures grouped_info(self, ret, group),
=== fn TransitionInfo::group_under | closure 0
|$0: RoundId| -> (o: RoundId) ensures o == grouped($0, group)
=== fn TransitionInfo::group_under | closure 1
|$0: RoundId| -> (o: RoundId) ensures o == grouped($0, group)
=== fn TransitionInfo::group_under | closure 2
|$0: RoundId| -> (o: RoundId) ensures o == grouped($0, group)
=== fn TransitionInfo::group_under | proof start
proof { assert forall|r: RoundId| ungrouped(#[trigger] grouped(r, group)) == r && in_group(grouped(r, group), group) by { lemma_group_roundtrip(r, group); } }
=== fn TransitionInfo::simultaneous_rounds
@props P15 P04
ensures match ret {
    Ok(s) => s@ =~= self.parents@.union(self.siblings@).union(self.children@).union(
        if followed_by_echo_round { Set::<RoundId>::empty().insert(echoed(self.id)) } else { Set::<RoundId>::empty() }),
    Err(_) => followed_by_echo_round && self.id.is_echo },
=== fn TransitionInfo::id
@props P15
ensures ret == self.id,
=== fn TransitionInfo::echo
@props P15 P06
ensures match ret {
    Ok(t) => t.id == echoed(self.id) && !self.id.is_echo && t.parents@ =~= Set::<RoundId>::empty().insert(self.id) && t.siblings@ =~= Set::<RoundId>::empty()
        && t.children == self.children && t.may_produce_result == self.may_produce_result,
    Err(_) => self.id.is_echo },
=== fn TransitionInfo::new_linear
@props P15
requires round_num < 255,
ensures ret.id == rid(round_num), ret.siblings@ =~= Set::<RoundId>::empty(), !ret.may_produce_result,
    ret.parents@ =~= (if round_num > 1 { Set::<RoundId>::empty().insert(rid((round_num - 1) as u8)) } else { Set::<RoundId>::empty() }),
    ret.children@ =~= Set::<RoundId>::empty().insert(rid((round_num + 1) as u8)),
=== fn TransitionInfo::new_linear_terminating
@props P15
ensures ret.id == rid(round_num), ret.siblings@ =~= Set::<RoundId>::empty(), ret.may_produce_result, ret.children@ =~= Set::<RoundId>::empty(),
    ret.parents@ =~= (if round_num > 1 { Set::<RoundId>::empty().insert(rid((round_num - 1) as u8)) } else { Set::<RoundId>::empty() }),
=== fn TransitionInfo::with_children
@props P15
ensures ret.id == self.id, ret.parents == self.parents, ret.siblings == self.siblings, ret.may_produce_result == self.may_produce_result,
    rids_added(self.children@, round_nums@, ret.children@),
=== fn TransitionInfo::with_children | closure 0
|$0: &RoundNum| -> (o: RoundId) ensures o == rid(*$0)
=== fn TransitionInfo::with_siblings
@props P15
ensures ret.id == self.id, ret.parents == self.parents, ret.children == self.children, ret.may_produce_result == self.may_produce_result,
    rids_added(self.siblings@, round_nums@, ret.siblings@),
=== fn TransitionInfo::with_siblings | closure 0
|$0: &RoundNum| -> (o: RoundId) ensures o == rid(*$0)
