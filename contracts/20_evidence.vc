=== file manul/src/protocol/evidence.rs

=== skip -
ProtocolError
NoProtocolErrors

=== member EvidenceError as From<LocalError>
open spec fn vfrom_spec(t: LocalError) -> Self { EvidenceError::Local(t) }
=== fn EvidenceError as From<LocalError>::from
@props P11
=== fn RequiredMessageParts::new
@props P09
ensures ret.echo_broadcast == echo_broadcast, ret.normal_broadcast == normal_broadcast, ret.direct_message == direct_message,
=== fn RequiredMessageParts::echo_broadcast
@props P09
ensures ret == (RequiredMessageParts { echo_broadcast: true, normal_broadcast: false, direct_message: false }),
=== fn RequiredMessageParts::normal_broadcast
@props P09
ensures ret == (RequiredMessageParts { echo_broadcast: false, normal_broadcast: true, direct_message: false }),
=== fn RequiredMessageParts::direct_message
@props P09
ensures ret == (RequiredMessageParts { echo_broadcast: false, normal_broadcast: false, direct_message: true }),
=== fn RequiredMessageParts::and_echo_broadcast
@props P09
ensures ret == (RequiredMessageParts { echo_broadcast: true, ..*self }),
=== fn RequiredMessageParts::and_normal_broadcast
@props P09
ensures ret == (RequiredMessageParts { normal_broadcast: true, ..*self }),
=== fn RequiredMessageParts::and_direct_message
@props P09
ensures ret == (RequiredMessageParts { direct_message: true, ..*self }),
=== fn RequiredMessages::new
@props P09
ensures ret.this_round == this_round, ret.previous_rounds == previous_rounds, ret.combined_echos == combined_echos,
=== raw grouped maps
pub open spec fn grouped_map<V>(s: Map<RoundId, V>, t: Map<RoundId, V>, g: u8) -> bool {
    &&& forall|r: RoundId| #[trigger] s.contains_key(r) ==> t.contains_key(grouped(r, g)) && t[grouped(r, g)] == s[r]
    &&& forall|r: RoundId| #[trigger] t.contains_key(r) ==> in_group(r, g) && s.contains_key(ungrouped(r))
}
=== raw grouped requirements
pub open spec fn grouped_required(i: RequiredMessages, o: RequiredMessages, g: u8) -> bool {
    &&& o.this_round == i.this_round
    &&& o.previous_rounds is Some == i.previous_rounds is Some && o.combined_echos is Some == i.combined_echos is Some
    &&& i.previous_rounds is Some ==> grouped_map(i.previous_rounds->0@, o.previous_rounds->0@, g)
    &&& i.combined_echos is Some ==> grouped_set(i.combined_echos->0@, o.combined_echos->0@, g)
}
=== fn RequiredMessages::group_under
@props P16 P09
ensures grouped_required(self, ret, group_num),
=== fn RequiredMessages::group_under | map 0 option
=== fn RequiredMessages::group_under | map 2 option
=== fn RequiredMessages::group_under | closure 0
|$0: (RoundId, RequiredMessageParts)| -> (o: (RoundId, RequiredMessageParts)) ensures o.0 == grouped($0.0, group_num), o.1 == $0.1
=== fn RequiredMessages::group_under | closure 1
|$0: RoundId| -> (o: RoundId) ensures o == grouped($0, group_num)
=== fn RequiredMessages::group_under | proof start
proof { assert forall|r: RoundId| ungrouped(#[trigger] grouped(r, group_num)) == r && in_group(grouped(r, group_num), group_num) by { lemma_group_roundtrip(r, group_num); } }
=== raw parts in evidence @props P09 P11
/// What is read of the part of an evidence: its typed value if it is there and well-formed.
pub open spec fn part_read<M: ProtocolMessagePart, T>(part: Option<M>, format: BoxedFormat, r: Result<T, EvidenceError>) -> bool {
    match r {
        Ok(v) => part is Some && part_value::<T>(part->0.payload(), format) == Some(v),
        Err(e) => e is InvalidEvidence && (part is None || part_value::<T>(part->0.payload(), format) is None),
    }
}
pub open spec fn all_typed<Id, T>(m: Map<Id, EchoBroadcast>, format: BoxedFormat) -> bool {
    forall|k: Id| #[trigger] m.contains_key(k) ==> part_value::<T>(m[k].0, format) is Some
}
pub open spec fn typed_echos<Id, T>(m: Map<Id, EchoBroadcast>, format: BoxedFormat, t: Map<Id, T>) -> bool {
    t.dom() == m.dom() && forall|k: Id| #[trigger] m.contains_key(k) ==> part_value::<T>(m[k].0, format) == Some(t[k])
}
pub open spec fn previous_parts<Id, R>(e: EvidenceMessages<Id, R>, n: u8) -> Option<EvidenceProtocolMessage> {
    if e.previous_messages@.contains_key(rid(n)) { Some(e.previous_messages@[rid(n)]) } else { None }
}
=== fn EvidenceMessages::previous_echo_broadcast
@props P09 P10 P11
ensures part_read::<EchoBroadcast, PR::EchoBroadcast>(match previous_parts(*self, round_num) { Some(m) => m.echo_broadcast, None => None }, *self.format, ret),
=== fn EvidenceMessages::echo_broadcast
@props P09 P10 P11
ensures part_read::<EchoBroadcast, R::EchoBroadcast>(self.message.echo_broadcast, *self.format, ret),
=== fn EvidenceMessages::previous_normal_broadcast
@props P09 P10 P11
ensures part_read::<NormalBroadcast, PR::NormalBroadcast>(match previous_parts(*self, round_num) { Some(m) => m.normal_broadcast, None => None }, *self.format, ret),
=== fn EvidenceMessages::normal_broadcast
@props P09 P10 P11
ensures part_read::<NormalBroadcast, R::NormalBroadcast>(self.message.normal_broadcast, *self.format, ret),
=== fn EvidenceMessages::previous_direct_message
@props P09 P10 P11
ensures part_read::<DirectMessage, PR::DirectMessage>(match previous_parts(*self, round_num) { Some(m) => m.direct_message, None => None }, *self.format, ret),
=== fn EvidenceMessages::direct_message
@props P09 P10 P11
ensures part_read::<DirectMessage, R::DirectMessage>(self.message.direct_message, *self.format, ret),
=== fn EvidenceMessages::combined_echos
@props P09 P10 P11
ensures match ret {
    Ok(m) => self.combined_echos@.contains_key(rid(round_num)) && typed_echos::<Id, PR::EchoBroadcast>(self.combined_echos@[rid(round_num)]@, *self.format, m@),
    Err(e) => e is InvalidEvidence && (self.combined_echos@.contains_key(rid(round_num)) ==> !all_typed::<Id, PR::EchoBroadcast>(self.combined_echos@[rid(round_num)]@, *self.format)) },
=== fn EvidenceMessages::combined_echos | closure 0
|$0: (&Id, &EchoBroadcast)| -> (o: Result<(Id, PR::EchoBroadcast), EvidenceError>) ensures match o { Ok(x) => x.0 == *$0.0 && part_value::<PR::EchoBroadcast>($0.1.0, *self.format) == Some(x.1), Err(e) => e is InvalidEvidence && part_value::<PR::EchoBroadcast>($0.1.0, *self.format) is None }
=== fn EvidenceMessages::into_round
@props P19
ensures ret.message == self.message, ret.previous_messages == self.previous_messages, ret.combined_echos == self.combined_echos, ret.format == self.format,
=== fn EvidenceMessages::combined_echos | proof start
proof {
assert forall|m: Map<Id, EchoBroadcast>, q: Seq<(&Id, &EchoBroadcast)>, s: Seq<Result<(Id, PR::EchoBroadcast), EvidenceError>>, r: Result<BTreeMap<Id, PR::EchoBroadcast>, EvidenceError>|
    #![trigger map_ref_items(m, q), VCollect::collected(s, r)]
    map_ref_items(m, q) && s.len() == q.len() && VCollect::collected(s, r)
    && (forall|i: int| #![trigger s[i]] #![trigger q[i]] 0 <= i < q.len() ==> match s[i] { Ok(x) => x.0 == *q[i].0 && part_value::<PR::EchoBroadcast>(q[i].1.0, *self.format) == Some(x.1), Err(e) => e is InvalidEvidence && part_value::<PR::EchoBroadcast>(q[i].1.0, *self.format) is None })
    implies match r { Ok(p) => typed_echos::<Id, PR::EchoBroadcast>(m, *self.format, p@), Err(e) => e is InvalidEvidence && !all_typed::<Id, PR::EchoBroadcast>(m, *self.format) } by {
    match r {
        Ok(p) => {
            let t = Seq::new(s.len(), |i: int| s[i]->Ok_0);
            assert(map_collected(t, p@));
            assert forall|k: Id| m.contains_key(k) implies #[trigger] p@.contains_key(k) by {
                let i = choose|i: int| 0 <= i < q.len() && *(#[trigger] q[i]).0 == k;
                assert(s[i] is Ok && t[i].0 == k);
            }
            assert(p@.dom() =~= m.dom());
        },
        Err(e) => {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<(Id, PR::EchoBroadcast), EvidenceError>(e);
            assert(m.contains_key(*q[i].0));
        },
    }
}
}
