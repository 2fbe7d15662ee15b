=== file manul/src/utils/traits.rs
=== file manul/src/session/session.rs
=== file manul/src/session/transcript.rs
=== file manul/src/session/echo.rs
=== file manul/src/session/evidence.rs

=== skip -
SessionParameters
SessionId
SessionId as AsRef
Evidence::description
SessionReport::brief

=== raw maps that serialize
/// `SerializableMap` is a `BTreeMap` with another serialization.
pub type SerializableMap<K, V> = BTreeMap<K, V>;

=== member trait Without
spec fn removed(self, item: T, r: Self) -> bool;
=== fn Without::without
ensures self.removed(*item, ret),
=== member BTreeSet as Without
open spec fn removed(self, item: T, r: Self) -> bool { r@ == self@.remove(item) }
=== member BTreeMap as Without
open spec fn removed(self, item: K, r: Self) -> bool { r@ == self@.remove(item) }
=== fn BTreeSet as Without::without
@props P17
=== fn BTreeMap as Without::without
@props P17 P09
=== member trait MapValues
spec fn all_values(self, p: spec_fn(OldV) -> bool) -> bool;
spec fn mapped(self, p: spec_fn(OldV, NewV) -> bool, r: Self::Result) -> bool;
=== fn MapValues::map_values
requires self.all_values(|v: OldV| f.requires((v,))),
ensures self.mapped(|v: OldV, w: NewV| f.ensures((v,), w), ret),
=== member trait MapValuesRef
spec fn all_values_ref(&self, p: spec_fn(&OldV) -> bool) -> bool;
spec fn ref_mapped(&self, p: spec_fn(&OldV, NewV) -> bool, r: Self::Result) -> bool;
=== fn MapValuesRef::map_values_ref
requires self.all_values_ref(|v: &OldV| f.requires((v,))),
ensures self.ref_mapped(|v: &OldV, w: NewV| f.ensures((v,), w), ret),
=== member BTreeMap as MapValues
open spec fn all_values(self, p: spec_fn(OldV) -> bool) -> bool { forall|k: K| #[trigger] self@.contains_key(k) ==> p(self@[k]) }
open spec fn mapped(self, p: spec_fn(OldV, NewV) -> bool, r: BTreeMap<K, NewV>) -> bool {
    r@.dom() == self@.dom() && forall|k: K| #[trigger] r@.contains_key(k) ==> p(self@[k], r@[k])
}
=== member BTreeMap as MapValuesRef
open spec fn all_values_ref(&self, p: spec_fn(&OldV) -> bool) -> bool { forall|k: K| #[trigger] self@.contains_key(k) ==> p(&self@[k]) }
open spec fn ref_mapped(&self, p: spec_fn(&OldV, NewV) -> bool, r: BTreeMap<K, NewV>) -> bool {
    r@.dom() == self@.dom() && forall|k: K| #[trigger] r@.contains_key(k) ==> p(&self@[k], r@[k])
}
=== fn BTreeMap as MapValues::map_values
@props P17
=== fn BTreeMap as MapValues::map_values | closure 0
|$0: (K, OldV)| -> (o: (K, NewV)) requires f.requires(($0.1,)) ensures o.0 == $0.0, f.ensures(($0.1,), o.1)
=== fn BTreeMap as MapValues::map_values | proof start
proof { assert forall|q: Seq<(K, OldV)>, s: Seq<(K, NewV)>, r: BTreeMap<K, NewV>|
    #![trigger map_items(self@, q), map_collected(s, r@)]
    map_items(self@, q) && s.len() == q.len() && (forall|i: int| #![trigger s[i]] #![trigger q[i]] 0 <= i < q.len() ==> s[i].0 == q[i].0 && f.ensures((q[i].1,), s[i].1)) && map_collected(s, r@)
    implies r@.dom() == self@.dom() && (forall|k: K| #[trigger] r@.contains_key(k) ==> f.ensures((self@[k],), r@[k])) by { assert(r@.dom() =~= self@.dom()); } }
=== fn BTreeMap as MapValuesRef::map_values_ref
@props P17
=== fn BTreeMap as MapValuesRef::map_values_ref | proof start
proof { assert forall|q: Seq<(&K, &OldV)>, s: Seq<(K, NewV)>, r: BTreeMap<K, NewV>|
    #![trigger map_ref_items(self@, q), map_collected(s, r@)]
    map_ref_items(self@, q) && s.len() == q.len() && (forall|i: int| #![trigger s[i]] #![trigger q[i]] 0 <= i < q.len() ==> s[i].0 == *q[i].0 && f.ensures((q[i].1,), s[i].1)) && map_collected(s, r@)
    implies r@.dom() == self@.dom() && (forall|k: K| #[trigger] r@.contains_key(k) ==> f.ensures((&self@[k],), r@[k])) by { assert(r@.dom() =~= self@.dom()); } }
=== fn BTreeMap as MapValuesRef::map_values_ref | closure 0
|$0: (&K, &OldV)| -> (o: (K, NewV)) requires f.requires(($0.1,)) ensures o.0 == *$0.0, f.ensures(($0.1,), o.1)
=== fn verify_that
@props P17 P10
ensures ret is Ok <==> condition, ret matches Err(e) ==> e is InvalidEvidence,
=== member trait GetOrLocalError
spec fn entry_l(&self, key: K) -> Option<V>;
=== fn GetOrLocalError::get_or_local_error
ensures match ret { Ok(v) => self.entry_l(*key) == Some(*v), Err(_) => self.entry_l(*key) is None },
=== member trait GetOrInvalidEvidence
spec fn entry_e(&self, key: K) -> Option<V>;
=== fn GetOrInvalidEvidence::get_or_invalid_evidence
ensures match ret { Ok(v) => self.entry_e(*key) == Some(*v), Err(e) => self.entry_e(*key) is None && e is InvalidEvidence },
=== member BTreeMap as GetOrLocalError
open spec fn entry_l(&self, key: K) -> Option<V> { if self@.contains_key(key) { Some(self@[key]) } else { None } }
=== member BTreeMap as GetOrInvalidEvidence
open spec fn entry_e(&self, key: K) -> Option<V> { if self@.contains_key(key) { Some(self@[key]) } else { None } }
=== fn BTreeMap as GetOrLocalError::get_or_local_error
@props P17
=== fn BTreeMap as GetOrInvalidEvidence::get_or_invalid_evidence
@props P17 P10

=== fn Transcript::new
@props P13
ensures ret.echo_broadcasts@ == Map::<RoundId, BTreeMap<SP::Verifier, SignedMessagePart<EchoBroadcast>>>::empty(),
    ret.normal_broadcasts@ == Map::<RoundId, BTreeMap<SP::Verifier, SignedMessagePart<NormalBroadcast>>>::empty(),
    ret.direct_messages@ == Map::<RoundId, BTreeMap<SP::Verifier, SignedMessagePart<DirectMessage>>>::empty(),
    ret.provable_errors@ == Map::<SP::Verifier, Evidence<P, SP>>::empty(),
    ret.unprovable_errors@ == Map::<SP::Verifier, RemoteError>::empty(),
    ret.missing_messages@ == Map::<RoundId, BTreeSet<SP::Verifier>>::empty(),
=== raw transcripts @props P13 P03
pub open spec fn disjoint<K, V>(a: Map<K, V>, b: Map<K, V>) -> bool { forall|k: K| #[trigger] a.contains_key(k) ==> !b.contains_key(k) }
pub open spec fn recorded<P: Protocol<SP::Verifier>, SP: SessionParameters>(t: Transcript<P, SP>, id: RoundId) -> bool {
    t.echo_broadcasts@.contains_key(id) || t.normal_broadcasts@.contains_key(id) || t.direct_messages@.contains_key(id) || t.missing_messages@.contains_key(id)
}
/// `u` is `t` with what was received in the round `id`.
pub open spec fn updated<P: Protocol<SP::Verifier>, SP: SessionParameters>(t: Transcript<P, SP>, id: RoundId, me: SP::Verifier, mine: SignedMessagePart<EchoBroadcast>,
    echo: Map<SP::Verifier, SignedMessagePart<EchoBroadcast>>, normal: BTreeMap<SP::Verifier, SignedMessagePart<NormalBroadcast>>,
    direct: BTreeMap<SP::Verifier, SignedMessagePart<DirectMessage>>, provable: Map<SP::Verifier, Evidence<P, SP>>,
    unprovable: Map<SP::Verifier, RemoteError>, missing: BTreeSet<SP::Verifier>, u: Transcript<P, SP>) -> bool {
    &&& !recorded(t, id)
    &&& u.echo_broadcasts@ == t.echo_broadcasts@.insert(id, u.echo_broadcasts@[id]) && u.echo_broadcasts@[id]@ == echo.insert(me, mine)
    &&& u.normal_broadcasts@ == t.normal_broadcasts@.insert(id, normal)
    &&& u.direct_messages@ == t.direct_messages@.insert(id, direct)
    &&& u.provable_errors@ == t.provable_errors@.union_prefer_right(provable) && disjoint(t.provable_errors@, provable)
    &&& u.unprovable_errors@ == t.unprovable_errors@.union_prefer_right(unprovable) && disjoint(t.unprovable_errors@, unprovable)
    &&& u.missing_messages@ == if missing@ == Set::<SP::Verifier>::empty() { t.missing_messages@ } else { t.missing_messages@.insert(id, missing) }
}
pub open spec fn t_banned<P: Protocol<SP::Verifier>, SP: SessionParameters>(t: Transcript<P, SP>, from: SP::Verifier) -> bool {
    t.provable_errors@.contains_key(from) || t.unprovable_errors@.contains_key(from)
}
/// P03: once banned, always banned; what was registered stays.
pub proof fn lemma_ban_persists<P: Protocol<SP::Verifier>, SP: SessionParameters>(t: Transcript<P, SP>, id: RoundId, me: SP::Verifier, mine: SignedMessagePart<EchoBroadcast>,
    echo: Map<SP::Verifier, SignedMessagePart<EchoBroadcast>>, normal: BTreeMap<SP::Verifier, SignedMessagePart<NormalBroadcast>>,
    direct: BTreeMap<SP::Verifier, SignedMessagePart<DirectMessage>>, provable: Map<SP::Verifier, Evidence<P, SP>>,
    unprovable: Map<SP::Verifier, RemoteError>, missing: BTreeSet<SP::Verifier>, u: Transcript<P, SP>)
    requires updated(t, id, me, mine, echo, normal, direct, provable, unprovable, missing, u)
    ensures
        forall|k: SP::Verifier| #[trigger] t_banned(t, k) ==> t_banned(u, k),
        forall|k: SP::Verifier| #[trigger] t_banned(u, k) ==> t_banned(t, k) || provable.contains_key(k) || unprovable.contains_key(k),
        forall|k: SP::Verifier| #[trigger] t.provable_errors@.contains_key(k) ==> u.provable_errors@.contains_key(k) && u.provable_errors@[k] == t.provable_errors@[k],
        forall|k: SP::Verifier| #[trigger] provable.contains_key(k) ==> u.provable_errors@.contains_key(k) && u.provable_errors@[k] == provable[k],
        forall|k: SP::Verifier| #[trigger] t.unprovable_errors@.contains_key(k) ==> u.unprovable_errors@.contains_key(k) && u.unprovable_errors@[k] == t.unprovable_errors@[k],
        forall|k: SP::Verifier| #[trigger] unprovable.contains_key(k) ==> u.unprovable_errors@.contains_key(k) && u.unprovable_errors@[k] == unprovable[k],
        forall|r: RoundId| #[trigger] t.missing_messages@.contains_key(r) ==> u.missing_messages@.contains_key(r) && u.missing_messages@[r] == t.missing_messages@[r],
        forall|r: RoundId| #[trigger] t.echo_broadcasts@.contains_key(r) ==> u.echo_broadcasts@.contains_key(r) && u.echo_broadcasts@[r] == t.echo_broadcasts@[r],
        forall|r: RoundId| #[trigger] t.normal_broadcasts@.contains_key(r) ==> u.normal_broadcasts@.contains_key(r) && u.normal_broadcasts@[r] == t.normal_broadcasts@[r],
        forall|r: RoundId| #[trigger] t.direct_messages@.contains_key(r) ==> u.direct_messages@.contains_key(r) && u.direct_messages@[r] == t.direct_messages@[r],
{}
=== fn Transcript::update
@props P13 P03 P09 P07
ensures match ret {
    Ok(u) => updated(self, *round_id, my_echo_broadcast.0, my_echo_broadcast.1, echo_broadcasts@, normal_broadcasts, direct_messages, provable_errors@, unprovable_errors@, missing_messages, u),
    Err(_) => recorded(self, *round_id) || !disjoint(self.provable_errors@, provable_errors@) || !disjoint(self.unprovable_errors@, unprovable_errors@) },
=== fn Transcript::update | loop 0
map_items(provable_errors@, __seq0),
forall|k: SP::Verifier| #[trigger] all_provable_errors@.contains_key(k) <==> self.provable_errors@.contains_key(k) || exists|i: int| 0 <= i < __it0.pos() && (#[trigger] __seq0[i]).0 == k,
forall|i: int| 0 <= i < __it0.pos() ==> !self.provable_errors@.contains_key((#[trigger] __seq0[i]).0) && all_provable_errors@[__seq0[i].0] == __seq0[i].1,
forall|k: SP::Verifier| #[trigger] self.provable_errors@.contains_key(k) ==> all_provable_errors@[k] == self.provable_errors@[k],
=== fn Transcript::update | loop 1
map_items(unprovable_errors@, __seq1),
forall|k: SP::Verifier| #[trigger] all_unprovable_errors@.contains_key(k) <==> self.unprovable_errors@.contains_key(k) || exists|i: int| 0 <= i < __it1.pos() && (#[trigger] __seq1[i]).0 == k,
forall|i: int| 0 <= i < __it1.pos() ==> !self.unprovable_errors@.contains_key((#[trigger] __seq1[i]).0) && all_unprovable_errors@[__seq1[i].0] == __seq1[i].1,
forall|k: SP::Verifier| #[trigger] self.unprovable_errors@.contains_key(k) ==> all_unprovable_errors@[k] == self.unprovable_errors@[k],
=== fn Transcript::update | proof loop 0 after
proof { assert(all_provable_errors@ =~= self.provable_errors@.union_prefer_right(provable_errors@)); }
=== fn Transcript::update | proof loop 1 after
proof { assert(all_unprovable_errors@ =~= self.unprovable_errors@.union_prefer_right(unprovable_errors@)); }
=== fn Transcript::get_echo_broadcast
@props P09 P13
ensures match ret {
    Ok(m) => self.echo_broadcasts@.contains_key(*round_id) && self.echo_broadcasts@[*round_id]@.contains_key(*from) && self.echo_broadcasts@[*round_id]@[*from] == m,
    Err(_) => !(self.echo_broadcasts@.contains_key(*round_id) && self.echo_broadcasts@[*round_id]@.contains_key(*from)) },
=== fn Transcript::get_normal_broadcast
@props P09 P13
ensures match ret {
    Ok(m) => self.normal_broadcasts@.contains_key(*round_id) && self.normal_broadcasts@[*round_id]@.contains_key(*from) && self.normal_broadcasts@[*round_id]@[*from] == m,
    Err(_) => !(self.normal_broadcasts@.contains_key(*round_id) && self.normal_broadcasts@[*round_id]@.contains_key(*from)) },
=== fn Transcript::get_direct_message
@props P09 P13
ensures match ret {
    Ok(m) => self.direct_messages@.contains_key(*round_id) && self.direct_messages@[*round_id]@.contains_key(*from) && self.direct_messages@[*round_id]@[*from] == m,
    Err(_) => !(self.direct_messages@.contains_key(*round_id) && self.direct_messages@[*round_id]@.contains_key(*from)) },
=== fn Transcript::is_banned
@props P03 P05
ensures ret == t_banned(*self, *from),
=== fn Transcript::echo_broadcasts
@props P07 P13
ensures match ret { Ok(m) => self.echo_broadcasts@.contains_key(*round_id) && self.echo_broadcasts@[*round_id] == m, Err(_) => !self.echo_broadcasts@.contains_key(*round_id) },
=== fn Transcript::get_other_echo_broadcasts
@props P09
ensures match ret { Ok(m) => self.echo_broadcasts@.contains_key(*round_id) && self.echo_broadcasts@[*round_id]@.remove(*except_for) == m@, Err(_) => !self.echo_broadcasts@.contains_key(*round_id) },
=== fn SessionReport::new
@props P13 P03
ensures ret == (SessionReport { outcome, provable_errors: transcript.provable_errors, unprovable_errors: transcript.unprovable_errors, missing_messages: transcript.missing_messages }),
=== fn SessionReport::result
@props P13
ensures match self.outcome { SessionOutcome::Result(r) => ret == Some(r), _ => ret is None },

=== raw echo rounds @props P07
pub open spec fn echo_tinfo(t: TransitionInfo) -> TransitionInfo {
    TransitionInfo { id: echoed(t.id), parents: bset(Set::<RoundId>::empty().insert(t.id)), siblings: empty_set(), children: t.children, may_produce_result: t.may_produce_result }
}
pub open spec fn hash_of<SP: SessionParameters>(p: SignedMessagePart<EchoBroadcast>, h: SignedMessageHash) -> bool {
    &&& h.signature == p.signature && h.metadata == p.message_with_metadata.metadata
    &&& h.message_part_hash@ == part_hash::<SP>(PartKind::EchoBroadcast, p.message_with_metadata.message.payload())
}
pub open spec fn hashes_of<SP: SessionParameters>(m: Map<SP::Verifier, SignedMessagePart<EchoBroadcast>>, h: Map<SP::Verifier, SignedMessageHash>) -> bool {
    h.dom() == m.dom() && forall|k: SP::Verifier| #[trigger] h.contains_key(k) ==> hash_of::<SP>(m[k], h[k])
}
/// The echo message we send.
pub open spec fn echo_message<SP: SessionParameters>(m: Map<SP::Verifier, SignedMessagePart<EchoBroadcast>>, me: SP::Verifier, msg: EchoRoundMessage<SP::Verifier>) -> bool {
    hashes_of::<SP>(m.remove(me), msg.message_hashes@)
}
/// The parties which an echo message from `from` must be about.
pub open spec fn echo_targets<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: EchoRound<P, SP>, from: SP::Verifier) -> Set<SP::Verifier> {
    r.echo_round_info.expected_echos@.remove(from)
}
/// `from` echoed something that `sender` did not sign in this round of this session.
pub open spec fn bad_echo_from<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: EchoRound<P, SP>, m: EchoRoundMessage<SP::Verifier>, sender: SP::Verifier) -> bool {
    m.message_hashes@.contains_key(sender)
        && (!hash_signed_by::<SP>(m.message_hashes@[sender], sender) || m.message_hashes@[sender].metadata != r.echo_broadcasts@[sender].message_with_metadata.metadata)
}
/// `sender` signed two different broadcasts.
pub open spec fn contradiction<SP: SessionParameters>(we: SignedMessagePart<EchoBroadcast>, they: SignedMessageHash, sender: SP::Verifier) -> bool {
    &&& hash_signed_by::<SP>(they, sender)
    &&& they.metadata == we.message_with_metadata.metadata
    &&& they.message_part_hash@ != part_hash::<SP>(PartKind::EchoBroadcast, we.message_with_metadata.message.payload())
}
/// The echo message agrees with what we received.
pub open spec fn consistent<P: Protocol<SP::Verifier>, SP: SessionParameters>(r: EchoRound<P, SP>, from: SP::Verifier, m: EchoRoundMessage<SP::Verifier>) -> bool {
    &&& m.message_hashes@.dom() == echo_targets(r, from)
    &&& forall|s: SP::Verifier| #[trigger] m.message_hashes@.contains_key(s) ==> !bad_echo_from(r, m, s) && !contradiction::<SP>(r.echo_broadcasts@[s], m.message_hashes@[s], s)
}
pub open spec fn echo_receives<P: Protocol<SP::Verifier>, SP: SessionParameters>(rnd: EchoRound<P, SP>, format: BoxedFormat, from: SP::Verifier, m: DynProtocolMessage, r: Result<Payload, BoxedReceiveError<SP::Verifier>>) -> bool {
    let em = part_value::<EchoRoundMessage<SP::Verifier>>(m.normal_broadcast.0, format);
    match r {
        Ok(p) => payload_value::<()>(p) == Some(()) && m.echo_broadcast.0 is None && m.direct_message.0 is None && em is Some && consistent(rnd, from, em->0),
        Err(BoxedReceiveError::InvalidEchoBroadcast(_)) => m.echo_broadcast.0 is Some,
        Err(BoxedReceiveError::InvalidDirectMessage(_)) => m.direct_message.0 is Some,
        Err(BoxedReceiveError::InvalidNormalBroadcast(_)) => em is None,
        Err(BoxedReceiveError::Unprovable(_)) => em is Some && em->0.message_hashes@.dom() != echo_targets(rnd, from),
        Err(BoxedReceiveError::Echo(e)) => em is Some && em->0.message_hashes@.dom() == echo_targets(rnd, from) && match *e {
            EchoRoundError::InvalidEcho(e) => bad_echo_from(rnd, em->0, e.invalid_echo_sender),
            EchoRoundError::MismatchedBroadcasts(e) => {
                &&& em->0.message_hashes@.contains_key(e.guilty_party)
                &&& e.we_received == rnd.echo_broadcasts@[e.guilty_party] && e.echoed_to_us == em->0.message_hashes@[e.guilty_party]
                &&& contradiction::<SP>(e.we_received, e.echoed_to_us, e.guilty_party)
            },
        },
        Err(BoxedReceiveError::Local(_)) => em is Some && exists|s: SP::Verifier| #[trigger] em->0.message_hashes@.contains_key(s) && local_failure::<SP>(em->0.message_hashes@[s].metadata),
        Err(BoxedReceiveError::Protocol(_)) => false,
    }
}
/// An echoed signed hash that is in order.
pub open spec fn invalid_echo_proved<SP: SessionParameters>(sender: SP::Verifier, md: MessageMetadata, m: EchoRoundMessage<SP::Verifier>) -> bool {
    &&& md.round_id.is_echo
    &&& m.message_hashes@.contains_key(sender)
    &&& !hash_signed_by::<SP>(m.message_hashes@[sender], sender) || m.message_hashes@[sender].metadata.session_id != md.session_id
        || m.message_hashes@[sender].metadata.round_id != non_echoed(md.round_id)
}
pub open spec fn mismatch_proved<SP: SessionParameters>(e: MismatchedBroadcastsError<SP::Verifier>) -> bool {
    part_signed_by::<SP, EchoBroadcast>(e.we_received, e.guilty_party) && contradiction::<SP>(e.we_received, e.echoed_to_us, e.guilty_party)
}
/// P07: if two parties accept each other's echo messages then they received the same broadcasts (up to hash collisions).
pub proof fn lemma_agreement<P: Protocol<SP::Verifier>, Q: Protocol<SP::Verifier>, SP: SessionParameters>(a: EchoRound<P, SP>, b: EchoRound<Q, SP>, mb: EchoRoundMessage<SP::Verifier>, s: SP::Verifier)
    requires echo_message::<SP>(b.echo_broadcasts@, b.verifier, mb), consistent(a, b.verifier, mb), echo_targets(a, b.verifier).contains(s),
    ensures b.echo_broadcasts@.contains_key(s),
        part_hash::<SP>(PartKind::EchoBroadcast, a.echo_broadcasts@[s].message_with_metadata.message.payload())
            == part_hash::<SP>(PartKind::EchoBroadcast, b.echo_broadcasts@[s].message_with_metadata.message.payload()),
{
    assert(mb.message_hashes@.contains_key(s));
    assert(b.echo_broadcasts@.remove(b.verifier).contains_key(s));
    assert(hash_of::<SP>(b.echo_broadcasts@.remove(b.verifier)[s], mb.message_hashes@[s]));
}
/// P07: honest broadcasts, honestly echoed, are accepted and never reported.
pub proof fn lemma_honest_echo<P: Protocol<SP::Verifier>, Q: Protocol<SP::Verifier>, SP: SessionParameters>(a: EchoRound<P, SP>, b: EchoRound<Q, SP>, mb: EchoRoundMessage<SP::Verifier>)
    requires echo_message::<SP>(b.echo_broadcasts@, b.verifier, mb),
        // both received the same signed broadcasts
        forall|s: SP::Verifier| echo_targets(a, b.verifier).contains(s) <==> s != b.verifier && #[trigger] b.echo_broadcasts@.contains_key(s),
        forall|s: SP::Verifier| echo_targets(a, b.verifier).contains(s) ==> #[trigger] a.echo_broadcasts@[s] == b.echo_broadcasts@[s] && part_signed_by::<SP, EchoBroadcast>(a.echo_broadcasts@[s], s),
    ensures consistent(a, b.verifier, mb),
{
    assert(mb.message_hashes@.dom() =~= echo_targets(a, b.verifier));
    assert forall|s: SP::Verifier| #[trigger] mb.message_hashes@.contains_key(s) implies !bad_echo_from(a, mb, s) && !contradiction::<SP>(a.echo_broadcasts@[s], mb.message_hashes@[s], s) by {
        assert(echo_targets(a, b.verifier).contains(s));
        assert(a.echo_broadcasts@[s] == b.echo_broadcasts@[s]);
        assert(hash_of::<SP>(b.echo_broadcasts@.remove(b.verifier)[s], mb.message_hashes@[s]));
    }
}
=== fn InvalidEchoError::description
=== fn InvalidEchoError::verify_evidence
@props P10 P11 P09 P07
ensures match ret {
    Ok(_) => invalid_echo_proved::<SP>(self.invalid_echo_sender, *metadata, *message),
    Err(e) => if e is Local { message.message_hashes@.contains_key(self.invalid_echo_sender) && local_failure::<SP>(message.message_hashes@[self.invalid_echo_sender].metadata) }
        else { !invalid_echo_proved::<SP>(self.invalid_echo_sender, *metadata, *message) } },
=== fn MismatchedBroadcastsError::description
=== fn MismatchedBroadcastsError::guilty_party
@props P08
ensures *ret == self.guilty_party,
=== fn MismatchedBroadcastsError::verify_evidence
@props P10 P11 P09 P07
ensures match ret {
    Ok(_) => mismatch_proved::<SP>(*self),
    Err(e) => if e is Local { local_failure::<SP>(self.we_received.message_with_metadata.metadata) || local_failure::<SP>(self.echoed_to_us.metadata) } else { !mismatch_proved::<SP>(*self) } },
=== fn EchoRound::new
@props P06 P07
ensures ret.verifier == verifier, ret.echo_broadcasts == echo_broadcasts, ret.echo_round_info == echo_round_info, ret.main_round == main_round, ret.payloads == payloads, ret.artifacts == artifacts,
    ret.communication_info.message_destinations == echo_round_info.message_destinations,
    ret.communication_info.expecting_messages_from == echo_round_info.expecting_messages_from,
    ret.communication_info.echo_round_participation is Default,
=== fn EchoRound::verify_direct_message_is_invalid
@props P14 P10
ensures ret is Ok <==> message.0 is Some, ret matches Err(e) ==> e is InvalidEvidence,
=== fn EchoRound::verify_echo_broadcast_is_invalid
@props P14 P10
ensures ret is Ok <==> message.0 is Some, ret matches Err(e) ==> e is InvalidEvidence,
=== fn EchoRound::verify_normal_broadcast_is_invalid
@props P14 P10
ensures ret is Ok <==> part_value::<EchoRoundMessage<SP::Verifier>>(message.0, *format) is None, ret matches Err(e) ==> e is InvalidEvidence,
=== member EchoRound as DynRound
open spec fn ok(&self) -> bool {
    !boxed(self.main_round).tinfo().id.is_echo && self.echo_round_info.expected_echos@.subset_of(self.echo_broadcasts@.dom())
}
open spec fn tinfo(&self) -> TransitionInfo { echo_tinfo(boxed(self.main_round).tinfo()) }
open spec fn cinfo(&self) -> CommunicationInfo<SP::Verifier> { self.communication_info }
open spec fn directs(&self, format: BoxedFormat, destination: SP::Verifier, r: Result<(DirectMessage, Artifact), LocalError>) -> bool {
    r matches Ok(m) && m.0.0 is None
}
open spec fn echoes(&self, format: BoxedFormat, r: Result<EchoBroadcast, LocalError>) -> bool { r matches Ok(m) && m.0 is None }
open spec fn normals(&self, format: BoxedFormat, r: Result<NormalBroadcast, LocalError>) -> bool {
    if self.echo_broadcasts@.contains_key(self.verifier) {
        exists|msg: EchoRoundMessage<SP::Verifier>| #[trigger] echo_message::<SP>(self.echo_broadcasts@, self.verifier, msg)
            && makes_part::<EchoRoundMessage<SP::Verifier>, NormalBroadcast>(msg, format, r)
    } else { r is Err }
}
open spec fn receives(&self, format: BoxedFormat, from: SP::Verifier, m: DynProtocolMessage, r: Result<Payload, BoxedReceiveError<SP::Verifier>>) -> bool {
    echo_receives(*self, format, from, m, r)
}
open spec fn finalizes(self, payloads: BTreeMap<SP::Verifier, Payload>, artifacts: BTreeMap<SP::Verifier, Artifact>, r: Result<FinalizeOutcome<SP::Verifier, P>, LocalError>) -> bool {
    boxed(self.main_round).finalizes(self.payloads, self.artifacts, r)
}
=== fn EchoRound as DynRound::transition_info
@props P15 P06 P07
=== fn EchoRound as DynRound::communication_info
@props P07 P06
=== fn EchoRound as DynRound::make_direct_message
@props P18
=== fn EchoRound as DynRound::make_echo_broadcast
@props P18
=== fn EchoRound as DynRound::make_normal_broadcast
@props P07 P18
=== fn EchoRound as DynRound::make_normal_broadcast | proof start
proof {
assert forall|m: BTreeMap<SP::Verifier, SignedMessagePart<EchoBroadcast>>, p: spec_fn(SignedMessagePart<EchoBroadcast>) -> bool| (#[trigger] MapValues::<SignedMessagePart<EchoBroadcast>, SignedMessageHash>::all_values(m, p))
    == (forall|k: SP::Verifier| #[trigger] m@.contains_key(k) ==> p(m@[k])) by {}
assert forall|m: BTreeMap<SP::Verifier, SignedMessagePart<EchoBroadcast>>, p: spec_fn(SignedMessagePart<EchoBroadcast>, SignedMessageHash) -> bool, r: BTreeMap<SP::Verifier, SignedMessageHash>| (#[trigger] m.mapped(p, r))
    == (r@.dom() == m@.dom() && forall|k: SP::Verifier| #[trigger] r@.contains_key(k) ==> p(m@[k], r@[k])) by {}
}
=== fn EchoRound as DynRound::make_normal_broadcast | proof tail
proof { assert(echo_message::<SP>(self.echo_broadcasts@, self.verifier, message)); }
=== fn EchoRound as DynRound::make_normal_broadcast | closure 0
|$0: SignedMessagePart<EchoBroadcast>| -> (o: SignedMessageHash) ensures hash_of::<SP>($0, o)
=== fn EchoRound as DynRound::receive_message
@props P07 P08 P14
@attr #[verifier::loop_isolation(false)]
=== fn EchoRound as DynRound::receive_message | proof start
let ghost m0 = message;
proof {
assert forall|e: LocalError| (#[trigger] <BoxedReceiveError<SP::Verifier> as VFrom<LocalError>>::vfrom_spec(e)) == BoxedReceiveError::<SP::Verifier>::Local(e) by {}
assert forall|e: LocalError| (#[trigger] <LocalError as VInto<BoxedReceiveError<SP::Verifier>>>::vinto_spec(e)) == BoxedReceiveError::<SP::Verifier>::Local(e) by {}
assert forall|e: EchoRoundError<SP::Verifier>, o: Box<EchoRoundError<SP::Verifier>>| (#[trigger] <EchoRoundError<SP::Verifier> as VBoxInto<Box<EchoRoundError<SP::Verifier>>>>::boxes(e, o)) == (*o == e) by {}
}
=== fn EchoRound as DynRound::receive_message | loop 0
forall|e: LocalError| (#[trigger] <LocalError as VInto<BoxedReceiveError<SP::Verifier>>>::vinto_spec(e)) == BoxedReceiveError::<SP::Verifier>::Local(e),
forall|e: EchoRoundError<SP::Verifier>, o: Box<EchoRoundError<SP::Verifier>>| (#[trigger] <EchoRoundError<SP::Verifier> as VBoxInto<Box<EchoRoundError<SP::Verifier>>>>::boxes(e, o)) == (*o == e),
self.ok(), map_ref_items(message.message_hashes@, __seq0),
m0.echo_broadcast.0 is None && m0.direct_message.0 is None && part_value::<EchoRoundMessage<SP::Verifier>>(m0.normal_broadcast.0, *format) == Some(message),
forall|e: LocalError| (#[trigger] <BoxedReceiveError<SP::Verifier> as VFrom<LocalError>>::vfrom_spec(e)) == BoxedReceiveError::<SP::Verifier>::Local(e),
message.message_hashes@.dom() == echo_targets(*self, *from),
forall|i: int| 0 <= i < __it0.pos() ==> !bad_echo_from(*self, message, *(#[trigger] __seq0[i]).0) && !contradiction::<SP>(self.echo_broadcasts@[*__seq0[i].0], *__seq0[i].1, *__seq0[i].0),
=== fn EchoRound as DynRound::receive_message | proof loop 0 start
proof { let (k, v) = __seq0[__it0.pos() - 1]; assert(message.message_hashes@.contains_key(*k) && message.message_hashes@[*k] == *v); assert(self.echo_broadcasts@.contains_key(*k));
    let em = part_value::<EchoRoundMessage<SP::Verifier>>(m0.normal_broadcast.0, *format);
    assert(em->0.message_hashes@.contains_key(*k) && em->0.message_hashes@[*k] == *v);
    assert(local_failure::<SP>(v.metadata) ==> exists|s: SP::Verifier| #[trigger] em->0.message_hashes@.contains_key(s) && local_failure::<SP>(em->0.message_hashes@[s].metadata)); }
=== fn EchoRound as DynRound::finalize
@props P06 P07
