=== raw accumulators @props P02 P03 P13
pub open spec fn a_banned<P: Protocol<SP::Verifier>, SP: SessionParameters>(a: RoundAccumulator<P, SP>, from: SP::Verifier) -> bool {
    a.provable_errors@.contains_key(from) || a.unprovable_errors@.contains_key(from)
}
pub open spec fn kept<V>(c: Map<V, BTreeMap<RoundId, VerifiedMessage<V>>>, from: V, r: RoundId) -> bool {
    c.contains_key(from) && c[from]@.contains_key(r)
}
/// `d` is `c` with the message added.
pub open spec fn kept_added<V>(c: Map<V, BTreeMap<RoundId, VerifiedMessage<V>>>, m: VerifiedMessage<V>, d: Map<V, BTreeMap<RoundId, VerifiedMessage<V>>>) -> bool {
    &&& forall|f: V, r: RoundId| #[trigger] kept(d, f, r) <==> kept(c, f, r) || (f == m.from && r == m.metadata.round_id)
    &&& forall|f: V, r: RoundId| #[trigger] kept(d, f, r) && !(f == m.from && r == m.metadata.round_id) ==> d[f]@[r] == c[f]@[r]
    &&& d[m.from]@[m.metadata.round_id] == m
}
/// `b` is `a` where the evidence is registered: the first evidence against a party is kept.
pub open spec fn registered<P: Protocol<SP::Verifier>, SP: SessionParameters>(a: RoundAccumulator<P, SP>, e: Evidence<P, SP>, b: RoundAccumulator<P, SP>) -> bool {
    &&& b == RoundAccumulator { provable_errors: b.provable_errors, ..a }
    &&& b.provable_errors@ == if a.provable_errors@.contains_key(e.guilty_party) { a.provable_errors@ } else { a.provable_errors@.insert(e.guilty_party, e) }
}
/// `b` is `a` with an unattributable error against `from`.
pub open spec fn blamed<P: Protocol<SP::Verifier>, SP: SessionParameters>(a: RoundAccumulator<P, SP>, from: SP::Verifier, b: RoundAccumulator<P, SP>) -> bool {
    &&& b == RoundAccumulator { unprovable_errors: b.unprovable_errors, ..a }
    &&& b.unprovable_errors@ == a.unprovable_errors@.insert(from, b.unprovable_errors@[from])
}
pub open spec fn has_payload<M: ProtocolMessagePart>(p: SignedMessagePart<M>) -> bool { p.message_with_metadata.message.payload() is Some }
/// `b` is `a` with an accepted message.
pub open spec fn accepted<P: Protocol<SP::Verifier>, SP: SessionParameters>(a: RoundAccumulator<P, SP>, m: VerifiedMessage<SP::Verifier>, payload: Payload, b: RoundAccumulator<P, SP>) -> bool {
    let (e, n, d) = parts_of(m);
    &&& b == RoundAccumulator { payloads: b.payloads, echo_broadcasts: b.echo_broadcasts, normal_broadcasts: b.normal_broadcasts, direct_messages: b.direct_messages, ..a }
    &&& b.payloads@ == a.payloads@.insert(m.from, payload)
    &&& b.echo_broadcasts@ == if has_payload(e) { a.echo_broadcasts@.insert(m.from, e) } else { a.echo_broadcasts@ }
    &&& b.normal_broadcasts@ == if has_payload(n) { a.normal_broadcasts@.insert(m.from, n) } else { a.normal_broadcasts@ }
    &&& b.direct_messages@ == if has_payload(d) { a.direct_messages@.insert(m.from, d) } else { a.direct_messages@ }
}
/// `b` is `a` with the result of processing a message.
pub open spec fn recorded_result<P: Protocol<SP::Verifier>, SP: SessionParameters>(a: RoundAccumulator<P, SP>, format: BoxedFormat, t: Transcript<P, SP>, p: ProcessedMessage<SP>, b: RoundAccumulator<P, SP>, r: Result<(), LocalError>) -> bool {
    let from = p.message.from;
    let (eb, nb, dm) = parts_of(p.message);
    if a.payloads@.contains_key(from) || !a.still_have_not_sent_messages@.contains(from) {
        r is Err
    } else {
        let still = b.still_have_not_sent_messages;
        let c = RoundAccumulator { still_have_not_sent_messages: still, ..a };
        &&& still@ == a.still_have_not_sent_messages@.remove(from)
        &&& match p.processed {
            Ok(payload) => r is Ok && accepted(c, p.message, payload, b),
            Err(BoxedReceiveError::InvalidDirectMessage(_)) => r is Ok && exists|e: Evidence<P, SP>| e.guilty_party == from && e.evidence == EvidenceEnum::<P, SP>::InvalidDirectMessage(InvalidDirectMessageEvidence(dm)) && #[trigger] registered(c, e, b),
            Err(BoxedReceiveError::InvalidEchoBroadcast(_)) => r is Ok && exists|e: Evidence<P, SP>| e.guilty_party == from && e.evidence == EvidenceEnum::<P, SP>::InvalidEchoBroadcast(InvalidEchoBroadcastEvidence(eb)) && #[trigger] registered(c, e, b),
            Err(BoxedReceiveError::InvalidNormalBroadcast(_)) => r is Ok && exists|e: Evidence<P, SP>| e.guilty_party == from && e.evidence == EvidenceEnum::<P, SP>::InvalidNormalBroadcast(InvalidNormalBroadcastEvidence(nb)) && #[trigger] registered(c, e, b),
            Err(BoxedReceiveError::Protocol(x)) => match r {
                Ok(_) => exists|e: Evidence<P, SP>| protocol_error_evidence::<P, SP>(format, from, eb, nb, dm, x, t, Ok(e)) && #[trigger] registered(c, e, b),
                Err(l) => protocol_error_evidence::<P, SP>(format, from, eb, nb, dm, x, t, Err(l)) && b == c,
            },
            Err(BoxedReceiveError::Unprovable(x)) => r is Ok && blamed(c, from, b) && b.unprovable_errors@[from] == x,
            Err(BoxedReceiveError::Echo(x)) => r is Ok && exists|e: Evidence<P, SP>| echo_error_evidence::<P, SP>(from, nb, *x, Ok(e)) && #[trigger] registered(c, e, b),
            Err(BoxedReceiveError::Local(_)) => r is Err && b == c,
        }
    }
}
pub open spec fn can_still_come<P: Protocol<SP::Verifier>, SP: SessionParameters>(a: RoundAccumulator<P, SP>, t: Transcript<P, SP>, from: SP::Verifier) -> bool {
    a.processing@.contains(from) || !(a_banned(a, from) || t_banned(t, from))
}
pub open spec fn readiness<P: Protocol<SP::Verifier>, SP: SessionParameters>(a: RoundAccumulator<P, SP>, t: Transcript<P, SP>) -> CanFinalize {
    if a.expecting_messages_from@.subset_of(a.payloads@.dom()) { CanFinalize::Yes }
    else if exists|v: SP::Verifier| #[trigger] a.still_have_not_sent_messages@.contains(v) && can_still_come(a, t, v) { CanFinalize::NotYet }
    else { CanFinalize::Never }
}
=== fn RoundAccumulator::new
@props P13 P04 P05
ensures ret.still_have_not_sent_messages == *expecting_messages_from, ret.expecting_messages_from == *expecting_messages_from, ret.processing == processing, ret.cached == cached,
    ret.payloads@ == Map::<SP::Verifier, Payload>::empty(), ret.artifacts@ == Map::<SP::Verifier, Artifact>::empty(),
    ret.echo_broadcasts@ == Map::<SP::Verifier, SignedMessagePart<EchoBroadcast>>::empty(),
    ret.normal_broadcasts@ == Map::<SP::Verifier, SignedMessagePart<NormalBroadcast>>::empty(),
    ret.direct_messages@ == Map::<SP::Verifier, SignedMessagePart<DirectMessage>>::empty(),
    ret.provable_errors@ == Map::<SP::Verifier, Evidence<P, SP>>::empty(), ret.unprovable_errors@ == Map::<SP::Verifier, RemoteError>::empty(),
=== fn RoundAccumulator::can_finalize
@props P05
ensures ret == readiness(*self, *transcript),
=== fn RoundAccumulator::can_finalize | closure 0
|$0: &SP::Verifier| -> (o: bool) ensures o == self.payloads@.contains_key(*$0)
=== fn RoundAccumulator::can_finalize | closure 1
|$0: &SP::Verifier| -> (o: bool) ensures o == can_still_come(*self, *transcript, *$0)
=== fn RoundAccumulator::can_still_respond
@props P05 P03
ensures ret == can_still_come(*self, *transcript, *from),
=== fn RoundAccumulator::is_banned
@props P03 P05 P01 P02
ensures ret == a_banned(*self, *from),
=== fn RoundAccumulator::message_is_being_processed
@props P01 P05
ensures ret == self.processing@.contains(*from),
=== fn RoundAccumulator::message_is_cached
@props P04
ensures ret == kept(self.cached@, *from, *round_id),
=== fn RoundAccumulator::register_unprovable_error
@props P02 P03
ensures ret is Err <==> old(self).unprovable_errors@.contains_key(*from),
    ret is Ok ==> blamed(*old(self), *from, *final(self)) && final(self).unprovable_errors@[*from] == error,
    *final(self) == (RoundAccumulator { unprovable_errors: final(self).unprovable_errors, ..*old(self) }),
=== fn RoundAccumulator::register_provable_error
@props P03 P08
ensures registered(*old(self), evidence, *final(self)),
=== fn RoundAccumulator::mark_processing
@props P01
ensures ret is Err <==> old(self).processing@.contains(message.from),
    *final(self) == (RoundAccumulator { processing: final(self).processing, ..*old(self) }),
    final(self).processing@ == old(self).processing@.insert(message.from),
=== fn RoundAccumulator::add_artifact
@props P06
ensures ret is Err <==> old(self).artifacts@.contains_key(processed.destination),
    *final(self) == (RoundAccumulator { artifacts: final(self).artifacts, ..*old(self) }),
    ret is Ok ==> final(self).artifacts@ == old(self).artifacts@.insert(processed.destination, processed.artifact),
=== fn RoundAccumulator::add_processed_message
@props P08 P03 P13 P09 P06
ensures recorded_result(*old(self), *format, *transcript, processed, *final(self), ret),
=== fn RoundAccumulator::cache_message
@props P04
ensures ret is Err <==> kept(old(self).cached@, message.from, message.metadata.round_id),
    *final(self) == (RoundAccumulator { cached: final(self).cached, ..*old(self) }),
    ret is Ok ==> kept_added(old(self).cached@, message, final(self).cached@),

=== raw sessions @props P01 P02 P04 P06 P13 P18
/// What holds for every session.
pub open spec fn session_inv<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>) -> bool {
    &&& s.verifier == s.signer.vk()
    &&& s.transition_info == boxed(s.round).tinfo()
    &&& s.communication_info == boxed(s.round).cinfo()
    &&& attached::<SP, EchoBroadcast>(s.echo_broadcast, s.verifier, s.session_id, s.transition_info.id)
    &&& attached::<SP, NormalBroadcast>(s.normal_broadcast, s.verifier, s.session_id, s.transition_info.id)
    &&& own_messages(s)
    &&& echo_info_right(s)
}
/// The broadcasts of a session are those the round makes, and none if it does not send messages.
pub open spec fn own_messages<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>) -> bool {
    if s.communication_info.message_destinations@ == Set::<SP::Verifier>::empty() {
        s.echo_broadcast.message_with_metadata.message.0 is None && s.normal_broadcast.message_with_metadata.message.0 is None
    } else {
        boxed(s.round).echoes(s.format, Ok(s.echo_broadcast.message_with_metadata.message)) && boxed(s.round).normals(s.format, Ok(s.normal_broadcast.message_with_metadata.message))
    }
}
/// Who takes part in the echo round that follows.
pub open spec fn echo_info_right<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>) -> bool {
    let c = s.communication_info;
    match c.echo_round_participation {
        EchoRoundParticipation::Default => match s.echo_round_info {
            Some(e) => s.echo_broadcast.message_with_metadata.message.0 is Some
                && e.message_destinations@ == c.message_destinations@ && e.expecting_messages_from@ == c.message_destinations@ && e.expected_echos@ == c.expecting_messages_from@.insert(s.verifier),
            None => s.echo_broadcast.message_with_metadata.message.0 is None },
        EchoRoundParticipation::Send => s.echo_round_info is None,
        EchoRoundParticipation::Receive { echo_targets } => s.echo_round_info matches Some(e)
            && e.message_destinations@ == echo_targets@ && e.expecting_messages_from@ == echo_targets@ && e.expected_echos@ == c.expecting_messages_from@,
    }
}
pub open spec fn same_party<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, n: Session<P, SP>) -> bool {
    n.session_id == s.session_id && n.signer == s.signer && n.verifier == s.signer.vk() && n.format == s.format
}
/// Which of the messages kept earlier are delivered in the round `id`, and which are kept on.
pub open spec fn delivered<P: Protocol<SP::Verifier>, SP: SessionParameters>(t: Transcript<P, SP>, id: RoundId, expecting: Set<SP::Verifier>, c: Map<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>,
    d: Map<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>, senders: Set<SP::Verifier>, msgs: Seq<VerifiedMessage<SP::Verifier>>) -> bool {
    &&& forall|f: SP::Verifier, r: RoundId| #[trigger] kept(d, f, r) <==> kept(c, f, r) && r != id && !t_banned(t, f)
    &&& forall|f: SP::Verifier, r: RoundId| #[trigger] kept(d, f, r) ==> d[f]@[r] == c[f]@[r]
    &&& forall|f: SP::Verifier| #[trigger] senders.contains(f) <==> kept(c, f, id) && !t_banned(t, f) && expecting.contains(f)
    &&& exists|q: Seq<SP::Verifier>| #[trigger] deliveries(senders, c, id, msgs, q)
}
/// `msgs` has exactly one message from each of the senders.
pub open spec fn deliveries<V>(senders: Set<V>, c: Map<V, BTreeMap<RoundId, VerifiedMessage<V>>>, id: RoundId, msgs: Seq<VerifiedMessage<V>>, q: Seq<V>) -> bool {
    set_items(senders, q) && q.len() == msgs.len() && forall|i: int| 0 <= i < q.len() ==> #[trigger] msgs[i] == c[q[i]]@[id]
}
pub proof fn lemma_delivered_one<V>(senders: Set<V>, c: Map<V, BTreeMap<RoundId, VerifiedMessage<V>>>, id: RoundId, msgs: Seq<VerifiedMessage<V>>, q: Seq<V>, from: V)
    requires deliveries(senders, c, id, msgs, q), !senders.contains(from)
    ensures deliveries(senders.insert(from), c, id, msgs.push(c[from]@[id]), q.push(from))
{
    let p = q.push(from);
    assert(p[q.len() as int] == from);
    assert forall|x: V| #[trigger] senders.insert(from).contains(x) implies exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == x by {
        if x != from {
            assert(senders.contains(x));
            let i = choose|i: int| 0 <= i < q.len() && #[trigger] q[i] == x;
            assert(p[i] == x);
        }
    }
    assert forall|i: int| 0 <= i < q.len() implies senders.contains(#[trigger] p[i]) by { assert(q[i] == p[i]); }
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by {
        if i < q.len() { assert(senders.contains(q[i])); }
        if j < q.len() { assert(senders.contains(q[j])); }
    }
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] msgs.push(c[from]@[id])[i] == c[p[i]]@[id] by { if i < q.len() { assert(msgs[i] == c[q[i]]@[id]); } }
}
/// What the session sends to the destination, and what it keeps about it.
pub open spec fn made_message<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, destination: SP::Verifier, m: Message<SP::Verifier>, a: ProcessedArtifact<SP>) -> bool {
    &&& m.destination == destination && a.destination == destination
    &&& m.echo_broadcast == s.echo_broadcast && m.normal_broadcast == s.normal_broadcast
    &&& boxed(s.round).directs(s.format, destination, Ok((m.direct_message.message_with_metadata.message, a.artifact)))
    &&& message_signed_by::<SP>(m.direct_message, m.echo_broadcast, m.normal_broadcast, MessageMetadata { session_id: s.session_id, round_id: s.transition_info.id }, s.verifier)
}
pub open spec fn processed_as<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, m: VerifiedMessage<SP::Verifier>, p: ProcessedMessage<SP>) -> bool {
    p.message == m && boxed(s.round).receives(s.format, m.from, DynProtocolMessage { echo_broadcast: m.echo_broadcast.message_with_metadata.message,
        normal_broadcast: m.normal_broadcast.message_with_metadata.message, direct_message: m.direct_message.message_with_metadata.message }, p.processed)
}
/// What a round starts with.
pub open spec fn fresh_accumulator<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>) -> bool {
    &&& a.still_have_not_sent_messages == s.communication_info.expecting_messages_from && a.expecting_messages_from == s.communication_info.expecting_messages_from
    &&& a.processing == s.cached_senders && a.cached == s.cached
    &&& a.payloads@ == Map::<SP::Verifier, Payload>::empty() && a.artifacts@ == Map::<SP::Verifier, Artifact>::empty()
    &&& a.echo_broadcasts@ == Map::<SP::Verifier, SignedMessagePart<EchoBroadcast>>::empty()
    &&& a.normal_broadcasts@ == Map::<SP::Verifier, SignedMessagePart<NormalBroadcast>>::empty()
    &&& a.direct_messages@ == Map::<SP::Verifier, SignedMessagePart<DirectMessage>>::empty()
    &&& a.provable_errors@ == Map::<SP::Verifier, Evidence<P, SP>>::empty() && a.unprovable_errors@ == Map::<SP::Verifier, RemoteError>::empty()
}
=== fn Session::new
@props P18 P06
ensures ret matches Ok(s) ==> session_inv(s) && s.session_id == session_id && s.signer == signer && s.format == format_of::<SP::WireFormat>()
    && s.cached@ == Map::<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>::empty() && s.cached_senders@ == Set::<SP::Verifier>::empty()
    && entry_point.makes(session_id.0@, signer.vk(), Ok(s.round))
    && forall|v: SP::Verifier| !#[trigger] t_banned(s.transcript, v),
=== fn Session::new_for_next_round
@props P18 P07 P06 P03
ensures ret matches Ok(s) ==> session_inv(s) && s.session_id == session_id && s.signer == signer && s.verifier == signer.vk() && s.format == format && s.round == round && s.transcript == transcript
    && s.cached@ == Map::<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>::empty() && s.cached_senders@ == Set::<SP::Verifier>::empty(),
=== fn Session::apply_cached_messages
@props P04 P03
@attr #[verifier::loop_isolation(false)]
requires self.cached@ == Map::<SP::Verifier, BTreeMap<RoundId, VerifiedMessage<SP::Verifier>>>::empty(), self.cached_senders@ == Set::<SP::Verifier>::empty(),
ensures ret matches RoundOutcome::AnotherRound { session, cached_messages }
    && *session == (Session { cached: session.cached, cached_senders: session.cached_senders, ..self })
    && delivered(self.transcript, self.transition_info.id, self.communication_info.expecting_messages_from@, cached@, session.cached@, session.cached_senders@, cached_messages@),
=== fn Session::verifier
ensures ret == self.verifier,
=== fn Session::session_id
ensures *ret == self.session_id,
=== fn Session::message_destinations
@props P18
ensures *ret == self.communication_info.message_destinations,
=== fn Session::make_message
@props P18 P06
requires session_inv(*self),
ensures ret matches Ok(r) ==> made_message(*self, *destination, r.0, r.1),
=== fn Session::add_artifact
@props P06
ensures ret is Err <==> old(accum).artifacts@.contains_key(processed.destination),
    *final(accum) == (RoundAccumulator { artifacts: final(accum).artifacts, ..*old(accum) }),
    ret is Ok ==> final(accum).artifacts@ == old(accum).artifacts@.insert(processed.destination, processed.artifact),
=== fn Session::round_id
ensures ret == self.transition_info.id,
=== raw preprocessing @props P01 P02 P04
/// The message is in order as far as it can be told without looking at the state of the round.
pub open spec fn in_order<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, from: SP::Verifier, m: Message<SP::Verifier>) -> bool {
    let md = m.direct_message.message_with_metadata.metadata;
    md.session_id == s.session_id && message_signed_by::<SP>(m.direct_message, m.echo_broadcast, m.normal_broadcast, md, from)
}
pub open spec fn banned_now<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, from: SP::Verifier) -> bool {
    t_banned(s.transcript, from) || a_banned(a, from)
}
pub open spec fn may_be_simultaneous<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, r: RoundId) -> bool {
    let t = s.transition_info;
    t.parents@.contains(r) || t.siblings@.contains(r) || t.children@.contains(r) || (s.echo_round_info is Some && r == echoed(t.id))
}
/// The message is handed over for processing.
pub open spec fn is_for_now<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, from: SP::Verifier, m: Message<SP::Verifier>) -> bool {
    &&& !banned_now(s, a, from) && in_order(s, from, m)
    &&& m.direct_message.message_with_metadata.metadata.round_id == s.transition_info.id
    &&& s.communication_info.expecting_messages_from@.contains(from)
    &&& !a.processing@.contains(from)
}
/// The message is kept for another round.
pub open spec fn is_for_later<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, from: SP::Verifier, m: Message<SP::Verifier>) -> bool {
    let r = m.direct_message.message_with_metadata.metadata.round_id;
    &&& !banned_now(s, a, from) && in_order(s, from, m)
    &&& r != s.transition_info.id && may_be_simultaneous(s, r)
    &&& !kept(a.cached@, from, r)
}
pub open spec fn same_message<V>(v: VerifiedMessage<V>, from: V, m: Message<V>) -> bool {
    v.from == from && v.metadata == m.direct_message.message_with_metadata.metadata && parts_of(v) == (m.echo_broadcast, m.normal_broadcast, m.direct_message)
}
pub open spec fn preprocessed<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, from: SP::Verifier, m: Message<SP::Verifier>,
    b: RoundAccumulator<P, SP>, r: Result<PreprocessOutcome<SP::Verifier>, LocalError>) -> bool {
    match r {
        Ok(PreprocessOutcome::ToProcess(v)) => is_for_now(s, a, from, m) && same_message(*v, from, m)
            && b == (RoundAccumulator { processing: b.processing, ..a }) && b.processing@ == a.processing@.insert(from),
        Ok(PreprocessOutcome::Cached) => is_for_later(s, a, from, m)
            && b == (RoundAccumulator { cached: b.cached, ..a }) && exists|v: VerifiedMessage<SP::Verifier>| same_message(v, from, m) && #[trigger] kept_added(a.cached@, v, b.cached@),
        Ok(PreprocessOutcome::Error(_)) => !is_for_now(s, a, from, m) && !is_for_later(s, a, from, m)
            && if banned_now(s, a, from) { b == a } else { blamed(a, from, b) },
        Err(_) => local_possible::<SP>() || (s.echo_round_info is Some && s.transition_info.id.is_echo),
    }
}
=== fn Session::preprocess_message
@props P01 P02 P03 P04
ensures preprocessed(*self, *old(accum), *from, message, *final(accum), ret),
=== fn Session::process_message
@props P01 P08 P14
requires session_inv(*self),
ensures processed_as(*self, message, ret),
=== fn Session::add_processed_message
@props P08 P03 P13 P09
ensures recorded_result(*old(accum), self.format, self.transcript, processed, *final(accum), ret),
=== fn Session::make_accumulator
@props P04 P05 P13
ensures fresh_accumulator(*self, ret),
=== raw reports @props P13 P03
/// `t` is the transcript of the session with what the accumulator has.
pub open spec fn round_added<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, t: Transcript<P, SP>) -> bool {
    updated(s.transcript, s.transition_info.id, s.verifier, s.echo_broadcast, a.echo_broadcasts@, a.normal_broadcasts, a.direct_messages, a.provable_errors@, a.unprovable_errors@, a.still_have_not_sent_messages, t)
}
pub open spec fn cannot_add<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>) -> bool {
    recorded(s.transcript, s.transition_info.id) || !disjoint(s.transcript.provable_errors@, a.provable_errors@) || !disjoint(s.transcript.unprovable_errors@, a.unprovable_errors@)
}
pub open spec fn report_of<P: Protocol<SP::Verifier>, SP: SessionParameters>(o: SessionOutcome<SP::Verifier, P>, t: Transcript<P, SP>) -> SessionReport<P, SP> {
    SessionReport { outcome: o, provable_errors: t.provable_errors, unprovable_errors: t.unprovable_errors, missing_messages: t.missing_messages }
}
pub open spec fn terminated<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, o: SessionOutcome<SP::Verifier, P>, r: Result<SessionReport<P, SP>, LocalError>) -> bool {
    match r {
        Ok(x) => exists|t: Transcript<P, SP>| #[trigger] round_added(s, a, t) && x == report_of(o, t),
        Err(_) => cannot_add(s, a),
    }
}
/// The echo round that follows.
pub open spec fn echo_round_of<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, t: Transcript<P, SP>, e: EchoRound<P, SP>) -> bool {
    &&& s.echo_round_info == Some(e.echo_round_info)
    &&& e.verifier == s.verifier && e.main_round == s.round && e.payloads == a.payloads && e.artifacts == a.artifacts
    &&& e.echo_broadcasts == t.echo_broadcasts@[s.transition_info.id]
    &&& e.communication_info.message_destinations == e.echo_round_info.message_destinations
    &&& e.communication_info.expecting_messages_from == e.echo_round_info.expecting_messages_from
    &&& e.communication_info.echo_round_participation is Default
}
/// The round `n` is what follows.
pub open spec fn follows<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, t: Transcript<P, SP>, n: BoxedRound<SP::Verifier, P>) -> bool {
    if s.echo_round_info is Some {
        exists|e: EchoRound<P, SP>| echo_round_of(s, a, t, e) && #[trigger] dispatches(boxed(n), e)
    } else {
        boxed(s.round).finalizes(a.payloads, a.artifacts, Ok(FinalizeOutcome::AnotherRound(n))) && s.transition_info.children@.contains(boxed(n).tinfo().id)
    }
}
pub open spec fn moved_on<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, r: RoundOutcome<P, SP>) -> bool {
    match r {
        RoundOutcome::Finished(x) => s.echo_round_info is None
            && (exists|t: Transcript<P, SP>| #[trigger] round_added(s, a, t) && x == report_of(x.outcome, t))
            && (x.outcome matches SessionOutcome::Result(o) && boxed(s.round).finalizes(a.payloads, a.artifacts, Ok(FinalizeOutcome::Result(o)))),
        RoundOutcome::AnotherRound { session, cached_messages } => moved_to(s, a, *session, cached_messages@),
    }
}
/// The next session, and the messages that are delivered to it first.
pub open spec fn moved_to<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>, n: Session<P, SP>, messages: Seq<VerifiedMessage<SP::Verifier>>) -> bool {
    &&& session_inv(n) && same_party(s, n)
    &&& round_added(s, a, n.transcript)
    &&& follows(s, a, n.transcript, n.round)
    &&& delivered(n.transcript, n.transition_info.id, n.communication_info.expecting_messages_from@, a.cached@, n.cached@, n.cached_senders@, messages)
}
/// All the echo broadcasts that are going to be compared are there.
pub open spec fn echoes_there<P: Protocol<SP::Verifier>, SP: SessionParameters>(s: Session<P, SP>, a: RoundAccumulator<P, SP>) -> bool {
    s.echo_round_info matches Some(e) ==> !s.transition_info.id.is_echo && e.expected_echos@.subset_of(a.echo_broadcasts@.dom().insert(s.verifier))
}
=== fn Session::terminate_inner
@props P13
ensures terminated(self, accum, if not_enough_messages { SessionOutcome::NotEnoughMessages } else { SessionOutcome::Terminated }, ret),
=== fn Session::terminate_inner | proof start
let ghost __s = self;
let ghost __a = accum;
=== fn Session::terminate_inner | proof tail
proof { assert(round_added(__s, __a, transcript)); }
=== fn Session::terminate
@props P13
ensures terminated(self, accum, SessionOutcome::Terminated, ret),
=== fn Session::terminate_due_to_errors
@props P13
ensures terminated(self, accum, SessionOutcome::NotEnoughMessages, ret),
=== fn Session::finalize_round
@props P06 P13 P03 P04 P07
requires session_inv(self), echoes_there(self, accum),
ensures ret matches Ok(r) ==> moved_on(self, accum, r),
=== fn Session::finalize_round | proof start
let ghost __s = self;
let ghost __a = accum;
=== fn Session::finalize_round | proof after new_dynamic 0
proof { assert(round_added(__s, __a, transcript)); assert(follows(__s, __a, transcript, round)); }
=== fn Session::finalize_round | proof after new_for_next_round 0
proof { assert(session_inv(session) && same_party(__s, session) && follows(__s, __a, session.transcript, session.round) && round_added(__s, __a, session.transcript)); }
=== fn Session::finalize_round | proof after new_for_next_round 1
proof {
    assert(session_inv(session));
    assert(same_party(__s, session));
    assert(round_added(__s, __a, session.transcript));
    assert(follows(__s, __a, session.transcript, session.round));
}
=== fn Session::finalize_round | proof before finalize 0
proof { assert(round_added(__s, __a, transcript)); }
=== fn Session::can_finalize
@props P05
ensures ret == readiness(*accum, self.transcript),
=== fn PreprocessOutcome::remote_error
@props P02
ensures ret is Error,
=== fn PreprocessOutcome::ok
@props P01
ensures match self { PreprocessOutcome::ToProcess(m) => ret == Some(*m), _ => ret is None },
=== fn Session::apply_cached_messages | loop 0
map_items(cached@, __seq0), session.transcript == self.transcript, session.communication_info == self.communication_info,
session == (Session { cached: session.cached, cached_senders: session.cached_senders, ..self }),
forall|f: SP::Verifier, r: RoundId| #[trigger] kept(session.cached@, f, r) ==> kept(cached@, f, r) && r != round_id && !t_banned(self.transcript, f) && session.cached@[f]@[r] == cached@[f]@[r],
forall|i: int| 0 <= i < __it0.pos() ==> forall|r: RoundId| #[trigger] kept(session.cached@, (#[trigger] __seq0[i]).0, r) == (kept(cached@, __seq0[i].0, r) && r != round_id && !t_banned(self.transcript, __seq0[i].0)),
forall|i: int| 0 <= i < __it0.pos() ==> session.cached_senders@.contains((#[trigger] __seq0[i]).0) == (kept(cached@, __seq0[i].0, round_id) && !t_banned(self.transcript, __seq0[i].0) && self.communication_info.expecting_messages_from@.contains(__seq0[i].0)),
forall|f: SP::Verifier| #[trigger] session.cached_senders@.contains(f) ==> exists|i: int| 0 <= i < __it0.pos() && (#[trigger] __seq0[i]).0 == f,
forall|f: SP::Verifier| #[trigger] session.cached@.contains_key(f) ==> exists|i: int| 0 <= i < __it0.pos() && (#[trigger] __seq0[i]).0 == f,
deliveries(session.cached_senders@, cached@, round_id, cached_messages@, order),
=== fn Session::apply_cached_messages | proof loop 0 start
let ghost __before = session;
let ghost __msgs = cached_messages@;
let ghost __all = messages;
proof {
    let k = __it0.pos() - 1;
    assert(__seq0[k] == (from, messages));
    assert(cached@.contains_key(from) && cached@[from] == messages);
    assert(!session.cached@.contains_key(from));
    assert(!session.cached_senders@.contains(from));
    assert(__seq0[k].0 == from);
}
=== fn Session::apply_cached_messages | proof loop 0 end
proof {
    let k = __it0.pos() - 1;
    assert(session.cached_senders@.contains(from) == (kept(cached@, from, round_id) && !t_banned(self.transcript, from) && self.communication_info.expecting_messages_from@.contains(from)));
    assert(kept(cached@, from, round_id) == __all@.contains_key(round_id));
    assert forall|r: RoundId| #[trigger] kept(session.cached@, from, r) == (kept(cached@, from, r) && r != round_id && !t_banned(self.transcript, from)) by {
        assert(kept(cached@, from, r) == __all@.contains_key(r));
        if __all@.contains_key(r) && r != round_id && !t_banned(self.transcript, from) { assert(__all@.remove(round_id).contains_key(r)); assert(session.cached@.contains_key(from)); }
    }
    assert forall|f: SP::Verifier, r: RoundId| f != from implies #[trigger] kept(session.cached@, f, r) == kept(__before.cached@, f, r) by {}
    assert forall|f: SP::Verifier| f != from implies #[trigger] session.cached_senders@.contains(f) == __before.cached_senders@.contains(f) by {}
}
=== fn Session::apply_cached_messages | proof after push 0
proof {
    lemma_delivered_one(__before.cached_senders@, cached@, round_id, __msgs, order, from);
    order = order.push(from);
}
=== fn Session::apply_cached_messages | proof start
let ghost mut order = Seq::<SP::Verifier>::empty();
