=== file manul/src/combinators/chain.rs
=== raw chained protocols @props P16
pub proof fn lemma_grouped_set_unique(s: Set<RoundId>, a: Set<RoundId>, b: Set<RoundId>, g: u8)
    requires grouped_set(s, a, g), grouped_set(s, b, g)
    ensures a == b
{
    assert forall|r: RoundId| a.contains(r) == b.contains(r) by {
        if a.contains(r) { lemma_group_roundtrip(r, g); assert(b.contains(grouped(ungrouped(r), g))); }
        if b.contains(r) { lemma_group_roundtrip(r, g); assert(a.contains(grouped(ungrouped(r), g))); }
    }
    assert(a =~= b);
}
pub proof fn lemma_grouped_info_unique(i: TransitionInfo, a: TransitionInfo, b: TransitionInfo, g: u8)
    requires grouped_info(i, a, g), grouped_info(i, b, g)
    ensures a == b
{
    broadcast use {group_sp, group_coll};
    lemma_grouped_set_unique(i.parents@, a.parents@, b.parents@, g);
    lemma_grouped_set_unique(i.siblings@, a.siblings@, b.siblings@, g);
    lemma_grouped_set_unique(i.children@, a.children@, b.children@, g);
}
/// The transitions of a round of the first protocol: the second protocol's first round comes after the round with the result.
pub open spec fn first_info(i: TransitionInfo, entry2: RoundId, t: TransitionInfo) -> bool {
    &&& t.id == grouped(i.id, 1) && !t.may_produce_result
    &&& grouped_set(i.parents@, t.parents@, 1) && grouped_set(i.siblings@, t.siblings@, 1)
    &&& exists|c: Set<RoundId>| #[trigger] grouped_set(i.children@, c, 1) && t.children@ == if i.may_produce_result { c.insert(grouped(entry2, 2)) } else { c }
}
pub proof fn lemma_first_info_unique(i: TransitionInfo, entry2: RoundId, a: TransitionInfo, b: TransitionInfo)
    requires first_info(i, entry2, a), first_info(i, entry2, b)
    ensures a == b
{
    broadcast use {group_sp, group_coll};
    lemma_grouped_set_unique(i.parents@, a.parents@, b.parents@, 1);
    lemma_grouped_set_unique(i.siblings@, a.siblings@, b.siblings@, 1);
    let c = choose|c: Set<RoundId>| #[trigger] grouped_set(i.children@, c, 1) && a.children@ == if i.may_produce_result { c.insert(grouped(entry2, 2)) } else { c };
    let d = choose|c: Set<RoundId>| #[trigger] grouped_set(i.children@, c, 1) && b.children@ == if i.may_produce_result { c.insert(grouped(entry2, 2)) } else { c };
    lemma_grouped_set_unique(i.children@, c, d, 1);
}
pub open spec fn grouped_receive_error<Id>(e: BoxedReceiveError<Id>, x: BoxedReceiveError<Id>, g: u8) -> bool {
    match e {
        BoxedReceiveError::Protocol(p) => x matches BoxedReceiveError::Protocol(q) && q.error == p.error && grouped_required(p.required_messages, q.required_messages, g),
        e => x == e,
    }
}
pub open spec fn grouped_received<Id>(q: Result<Payload, BoxedReceiveError<Id>>, r: Result<Payload, BoxedReceiveError<Id>>, g: u8) -> bool {
    match q {
        Ok(p) => r == Ok::<Payload, BoxedReceiveError<Id>>(p),
        Err(e) => r matches Err(x) && grouped_receive_error(e, x, g),
    }
}
pub open spec fn all_in_group<V>(m: Map<RoundId, V>, g: u8) -> bool { forall|r: RoundId| #[trigger] m.contains_key(r) ==> in_group(r, g) }
/// What the round of the inner protocol says about evidence of the chained protocol, for identifiers of its own group.
pub open spec fn inner_proves<Id, Q: Protocol<Id>>(o: DynRoundInfoObj<Id, Q>, g: u8, round_id: RoundId, format: BoxedFormat, error: SerializedProtocolError, guilty_party: Id, rnd: Seq<u8>,
    shared_data: Q::SharedData, m: EvidenceProtocolMessage, p: BTreeMap<RoundId, EvidenceProtocolMessage>, c: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>, r: Result<(), EvidenceError>) -> bool {
    if in_group(round_id, g) && all_in_group(p@, g) && all_in_group(c@, g) {
        exists|ip: BTreeMap<RoundId, EvidenceProtocolMessage>, ic: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>|
            grouped_map(ip@, p@, g) && grouped_map(ic@, c@, g)
            && #[trigger] o.proves(ungrouped(round_id), format, error, guilty_party, rnd, shared_data, m, ip, ic, r)
    } else {
        r matches Err(e) && e is InvalidEvidence
    }
}
pub open spec fn chained_info_right<Id, C: ChainedProtocol<Id> + ChainedMarker>(round_id: RoundId, r: Option<RoundInfo<Id, C>>) -> bool {
    let u = ungrouped(round_id);
    if in_group(round_id, 1) {
        match C::Protocol1::info(u) { Some(i) => r matches Some(x) && info_dispatches(infod(x), RoundInfo1::<Id, C>(i)), None => r is None }
    } else if in_group(round_id, 2) {
        match C::Protocol2::info(u) { Some(i) => r matches Some(x) && info_dispatches(infod(x), RoundInfo2::<Id, C>(i)), None => r is None }
    } else {
        r is None
    }
}
pub uninterp spec fn chained_info<Id, C>(round_id: RoundId) -> Option<RoundInfo<Id, C>>;
pub open spec fn chained_finalizes<Id: PartyId, T: ChainedJoin<Id>>(s: ChainState<Id, T>, payloads: BTreeMap<Id, Payload>, artifacts: BTreeMap<Id, Artifact>, r: Result<FinalizeOutcome<Id, T::Protocol>, LocalError>) -> bool {
    match s {
        ChainState::Protocol1 { id, round, shared_randomness, transition } => exists|q: Result<FinalizeOutcome<Id, <T::Protocol as ChainedProtocol<Id>>::Protocol1>, LocalError>|
            #[trigger] boxed(round).finalizes(payloads, artifacts, q) && match q {
                Err(e) => r == Err::<FinalizeOutcome<Id, T::Protocol>, LocalError>(e),
                Ok(FinalizeOutcome::AnotherRound(n)) => r matches Ok(FinalizeOutcome::AnotherRound(b)) && made_of(boxed(b), ChainedRound { state: ChainState::Protocol1 { id, round: n, shared_randomness, transition } }),
                Ok(FinalizeOutcome::Result(v)) => exists|e: T::EntryPoint| #[trigger] transition.joins(v, e) && second_starts::<Id, T>(e, shared_randomness@, id, r),
            },
        ChainState::Protocol2(round) => exists|q: Result<FinalizeOutcome<Id, <T::Protocol as ChainedProtocol<Id>>::Protocol2>, LocalError>|
            #[trigger] boxed(round).finalizes(payloads, artifacts, q) && match q {
                Err(e) => r == Err::<FinalizeOutcome<Id, T::Protocol>, LocalError>(e),
                Ok(FinalizeOutcome::AnotherRound(n)) => r matches Ok(FinalizeOutcome::AnotherRound(b)) && made_of(boxed(b), ChainedRound { state: ChainState::<Id, T>::Protocol2(n) }),
                Ok(FinalizeOutcome::Result(v)) => r == Ok::<FinalizeOutcome<Id, T::Protocol>, LocalError>(FinalizeOutcome::Result(v)),
            },
    }
}
pub open spec fn second_starts<Id: PartyId, T: ChainedJoin<Id>>(e: T::EntryPoint, rnd: Seq<u8>, id: Id, r: Result<FinalizeOutcome<Id, T::Protocol>, LocalError>) -> bool {
    exists|n: Result<BoxedRound<Id, <T::Protocol as ChainedProtocol<Id>>::Protocol2>, LocalError>| #[trigger] e.makes(rnd, id, n) && match n {
        Ok(n) => r matches Ok(FinalizeOutcome::AnotherRound(b)) && made_of(boxed(b), ChainedRound { state: ChainState::<Id, T>::Protocol2(n) }),
        Err(x) => r == Err::<FinalizeOutcome<Id, T::Protocol>, LocalError>(x),
    }
}
pub open spec fn chain_starts<Id: PartyId, T: ChainedSplit<Id> + ChainedMarker>(this: T, rnd: Seq<u8>, id: Id, r: Result<BoxedRound<Id, T::Protocol>, LocalError>) -> bool {
    exists|e: <T as ChainedSplit<Id>>::EntryPoint, j: T::Ret_make_entry_point1_0, n: Result<BoxedRound<Id, <<T as ChainedSplit<Id>>::Protocol as ChainedProtocol<Id>>::Protocol1>, LocalError>|
        #[trigger] this.splits(e, j) && #[trigger] e.makes(rnd, id, n) && match n {
            Ok(n) => r matches Ok(b) && exists|s: Bytes| s@ == rnd && #[trigger] made_of(boxed(b), ChainedRound { state: ChainState::Protocol1 { id, round: n, shared_randomness: s, transition: j } }),
            Err(x) => r is Err,
        }
}
pub uninterp spec fn chained_entry_makes<Id, T, R>(this: T, rnd: Seq<u8>, id: Id, r: R) -> bool;
pub proof fn lemma_ungrouped_collected<V>(m: Map<RoundId, V>, q: Seq<(RoundId, V)>, s: Seq<Result<(RoundId, V), EvidenceError>>, r: Result<BTreeMap<RoundId, V>, EvidenceError>, g: u8)
    requires map_items(m, q), s.len() == q.len(), VCollect::collected(s, r),
        forall|i: int| #![trigger s[i]] #![trigger q[i]] 0 <= i < q.len() ==> match s[i] { Ok(x) => in_group(q[i].0, g) && x.0 == ungrouped(q[i].0) && x.1 == q[i].1, Err(e) => !in_group(q[i].0, g) && e is InvalidEvidence },
    ensures match r { Ok(p) => all_in_group(m, g) && grouped_map(p@, m, g), Err(e) => !all_in_group(m, g) && e is InvalidEvidence }
{
    match r {
        Ok(p) => {
            let t = Seq::new(s.len(), |i: int| s[i]->Ok_0);
            assert(map_collected(t, p@));
            assert forall|k: RoundId| #[trigger] m.contains_key(k) implies in_group(k, g) && p@.contains_key(ungrouped(k)) by {
                let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == k;
                assert(s[i] is Ok && t[i].0 == ungrouped(k));
            }
            assert forall|k: RoundId| #[trigger] p@.contains_key(k) implies m.contains_key(grouped(k, g)) && m[grouped(k, g)] == p@[k] by {
                let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k && p@[k] == t[i].1;
                assert(s[i] is Ok);
                lemma_group_roundtrip(q[i].0, g);
            }
        },
        Err(e) => {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<(RoundId, V), EvidenceError>(e);
            assert(m.contains_key(q[i].0));
        },
    }
}
=== fn ungroup
@props P16 P11
ensures match ret { Ok(r) => in_group(*round_id, expected_group) && r == ungrouped(*round_id), Err(e) => !in_group(*round_id, expected_group) && e is InvalidEvidence },
=== fn ungroup_map
@props P16 P11
ensures match ret { Ok(m) => all_in_group(grouped@, expected_group) && grouped_map(m@, grouped@, expected_group), Err(e) => !all_in_group(grouped@, expected_group) && e is InvalidEvidence },
=== fn ungroup_map | closure 0
|$0: (RoundId, T)| -> (o: Result<(RoundId, T), EvidenceError>) ensures match o { Ok(x) => in_group($0.0, expected_group) && x.0 == ungrouped($0.0) && x.1 == $0.1, Err(e) => !in_group($0.0, expected_group) && e is InvalidEvidence }
=== fn ungroup_map | proof start
proof {
assert forall|q: Seq<(RoundId, T)>, s: Seq<Result<(RoundId, T), EvidenceError>>, r: Result<BTreeMap<RoundId, T>, EvidenceError>|
    #![trigger map_items(grouped@, q), VCollect::collected(s, r)]
    map_items(grouped@, q) && s.len() == q.len() && VCollect::collected(s, r)
    && (forall|i: int| #![trigger s[i]] #![trigger q[i]] 0 <= i < q.len() ==> match s[i] { Ok(x) => in_group(q[i].0, expected_group) && x.0 == ungrouped(q[i].0) && x.1 == q[i].1, Err(e) => !in_group(q[i].0, expected_group) && e is InvalidEvidence })
    implies match r { Ok(p) => all_in_group(grouped@, expected_group) && grouped_map(p@, grouped@, expected_group), Err(e) => !all_in_group(grouped@, expected_group) && e is InvalidEvidence } by {
    lemma_ungrouped_collected(grouped@, q, s, r, expected_group);
}
}
=== member RoundInfo1 as DynRoundInfo
open spec fn bad_direct(&self, format: BoxedFormat, m: DirectMessage) -> bool { infod(self.0).bad_direct(format, m) }
open spec fn bad_echo(&self, format: BoxedFormat, m: EchoBroadcast) -> bool { infod(self.0).bad_echo(format, m) }
open spec fn bad_normal(&self, format: BoxedFormat, m: NormalBroadcast) -> bool { infod(self.0).bad_normal(format, m) }
open spec fn proves(&self, round_id: RoundId, format: BoxedFormat, error: SerializedProtocolError, guilty_party: Id, rnd: Seq<u8>,
    shared_data: <P as Protocol<Id>>::SharedData, m: EvidenceProtocolMessage, p: BTreeMap<RoundId, EvidenceProtocolMessage>, c: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>, r: Result<(), EvidenceError>) -> bool {
    inner_proves(infod(self.0), 1, round_id, format, error, guilty_party, rnd, shared_data.protocol1, m, p, c, r)
}
=== member RoundInfo2 as DynRoundInfo
open spec fn bad_direct(&self, format: BoxedFormat, m: DirectMessage) -> bool { infod(self.0).bad_direct(format, m) }
open spec fn bad_echo(&self, format: BoxedFormat, m: EchoBroadcast) -> bool { infod(self.0).bad_echo(format, m) }
open spec fn bad_normal(&self, format: BoxedFormat, m: NormalBroadcast) -> bool { infod(self.0).bad_normal(format, m) }
open spec fn proves(&self, round_id: RoundId, format: BoxedFormat, error: SerializedProtocolError, guilty_party: Id, rnd: Seq<u8>,
    shared_data: <P as Protocol<Id>>::SharedData, m: EvidenceProtocolMessage, p: BTreeMap<RoundId, EvidenceProtocolMessage>, c: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>, r: Result<(), EvidenceError>) -> bool {
    inner_proves(infod(self.0), 2, round_id, format, error, guilty_party, rnd, shared_data.protocol2, m, p, c, r)
}
=== fn RoundInfo1 as DynRoundInfo::verify_direct_message_is_invalid
@props P16
=== fn RoundInfo1 as DynRoundInfo::verify_echo_broadcast_is_invalid
@props P16
=== fn RoundInfo1 as DynRoundInfo::verify_normal_broadcast_is_invalid
@props P16
=== fn RoundInfo1 as DynRoundInfo::verify_evidence
@props P16 P11
=== fn RoundInfo2 as DynRoundInfo::verify_direct_message_is_invalid
@props P16
=== fn RoundInfo2 as DynRoundInfo::verify_echo_broadcast_is_invalid
@props P16
=== fn RoundInfo2 as DynRoundInfo::verify_normal_broadcast_is_invalid
@props P16
=== fn RoundInfo2 as DynRoundInfo::verify_evidence
@props P16 P11
=== member C as Protocol
open spec fn info(round_id: RoundId) -> Option<RoundInfo<Id, Self>> { chained_info::<Id, C>(round_id) }
=== fn C as Protocol::round_info
@detached chained_round_info
=== fn chained_round_info
@props P16
ensures chained_info_right::<Id, C>(*round_id, ret),
=== member trait ChainedSplit
spec fn splits(self, e: Self::EntryPoint, j: Self::Ret_make_entry_point1_0) -> bool;
=== fn ChainedSplit::make_entry_point1
ensures self.splits(ret.0, ret.1),
=== member trait ChainedJoin
spec fn joins(self, result: <<Self::Protocol as ChainedProtocol<Id>>::Protocol1 as Protocol<Id>>::Result, e: Self::EntryPoint) -> bool;
=== fn ChainedJoin::make_entry_point2
ensures self.joins(result, ret),
=== member T as EntryPoint
open spec fn entry_id() -> RoundId { grouped(<T as ChainedSplit<Id>>::EntryPoint::entry_id(), 1) }
open spec fn makes(self, rnd: Seq<u8>, id: Id, r: Result<BoxedRound<Id, Self::Protocol>, LocalError>) -> bool { chained_entry_makes(self, rnd, id, r) }
=== fn T as EntryPoint::entry_round_id
@props P16
=== fn T as EntryPoint::make_round
@detached chained_make_round
=== fn chained_make_round
@props P16
ensures chain_starts::<Id, T>(this, shared_randomness@, *id, ret),
=== member ChainedRound as DynRound
open spec fn ok(&self) -> bool { true }
open spec fn tinfo(&self) -> TransitionInfo {
    match self.state {
        ChainState::Protocol1 { round, .. } => choose|t: TransitionInfo| first_info(boxed(round).tinfo(), T::EntryPoint::entry_id(), t),
        ChainState::Protocol2(round) => choose|t: TransitionInfo| grouped_info(boxed(round).tinfo(), t, 2),
    }
}
open spec fn cinfo(&self) -> CommunicationInfo<Id> {
    match self.state { ChainState::Protocol1 { round, .. } => boxed(round).cinfo(), ChainState::Protocol2(round) => boxed(round).cinfo() }
}
open spec fn directs(&self, format: BoxedFormat, destination: Id, r: Result<(DirectMessage, Artifact), LocalError>) -> bool {
    match self.state { ChainState::Protocol1 { round, .. } => boxed(round).directs(format, destination, r), ChainState::Protocol2(round) => boxed(round).directs(format, destination, r) }
}
open spec fn echoes(&self, format: BoxedFormat, r: Result<EchoBroadcast, LocalError>) -> bool {
    match self.state { ChainState::Protocol1 { round, .. } => boxed(round).echoes(format, r), ChainState::Protocol2(round) => boxed(round).echoes(format, r) }
}
open spec fn normals(&self, format: BoxedFormat, r: Result<NormalBroadcast, LocalError>) -> bool {
    match self.state { ChainState::Protocol1 { round, .. } => boxed(round).normals(format, r), ChainState::Protocol2(round) => boxed(round).normals(format, r) }
}
open spec fn receives(&self, format: BoxedFormat, from: Id, m: DynProtocolMessage, r: Result<Payload, BoxedReceiveError<Id>>) -> bool {
    match self.state {
        ChainState::Protocol1 { round, .. } => exists|q: Result<Payload, BoxedReceiveError<Id>>| #[trigger] boxed(round).receives(format, from, m, q) && grouped_received(q, r, 1),
        ChainState::Protocol2(round) => exists|q: Result<Payload, BoxedReceiveError<Id>>| #[trigger] boxed(round).receives(format, from, m, q) && grouped_received(q, r, 2),
    }
}
open spec fn finalizes(self, payloads: BTreeMap<Id, Payload>, artifacts: BTreeMap<Id, Artifact>, r: Result<FinalizeOutcome<Id, T::Protocol>, LocalError>) -> bool {
    chained_finalizes(self.state, payloads, artifacts, r)
}
=== fn ChainedRound as DynRound::transition_info
@props P16
=== fn ChainedRound as DynRound::communication_info
@props P16
=== fn ChainedRound as DynRound::make_direct_message
@props P16
=== fn ChainedRound as DynRound::make_echo_broadcast
@props P16
=== fn ChainedRound as DynRound::make_normal_broadcast
@props P16
=== fn ChainedRound as DynRound::receive_message
@props P16
=== fn ChainedRound as DynRound::transition_info | proof start
proof {
    assert forall|t: TransitionInfo| self.state is Protocol2 && #[trigger] grouped_info(boxed(self.state->Protocol2_0).tinfo(), t, 2) implies t == self.tinfo() by {
        let i = boxed(self.state->Protocol2_0).tinfo();
        lemma_grouped_info_unique(i, t, self.tinfo(), 2);
    }
}
=== fn ChainedRound as DynRound::transition_info | proof after transition_info 0
proof {
    let i = boxed(*round).tinfo();
    let e2 = T::EntryPoint::entry_id();
    assert forall|c: BTreeSet<RoundId>| #![trigger c@] c@ == (if i.may_produce_result { tinfo.children@.insert(grouped(e2, 2)) } else { tinfo.children@ })
        implies (TransitionInfo { may_produce_result: false, children: c, ..tinfo }) == self.tinfo() by {
        let t = TransitionInfo { may_produce_result: false, children: c, ..tinfo };
        assert(grouped_set(i.children@, tinfo.children@, 1));
        assert(first_info(i, e2, t));
        lemma_first_info_unique(i, e2, t, self.tinfo());
    }
    let c = tinfo.children; assert(c@ == tinfo.children@);
}
=== fn ChainedRound as DynRound::finalize
@detached chained_finalize
=== fn chained_finalize
@props P16
ensures chained_finalizes(this.state, payloads, artifacts, ret),
