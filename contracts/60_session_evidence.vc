=== raw evidence @props P09 P10
/// The part belongs to the given session and round.
pub open spec fn in_round<M>(p: SignedMessagePart<M>, s: SessionId, r: RoundId) -> bool {
    p.message_with_metadata.metadata.session_id == s && p.message_with_metadata.metadata.round_id == r
}
/// `v` signed the part in the given session and round.
pub open spec fn attached<SP: SessionParameters, M: ProtocolMessagePartHashable>(p: SignedMessagePart<M>, v: SP::Verifier, s: SessionId, r: RoundId) -> bool {
    in_round(p, s, r) && part_signed_by::<SP, M>(p, v)
}
pub open spec fn opt_attached<SP: SessionParameters, M: ProtocolMessagePartHashable>(p: Option<SignedMessagePart<M>>, v: SP::Verifier, s: SessionId, r: RoundId) -> bool {
    p matches Some(x) ==> attached::<SP, M>(x, v, s, r)
}
pub open spec fn all_attached<SP: SessionParameters, M: ProtocolMessagePartHashable>(m: Map<RoundId, SignedMessagePart<M>>, v: SP::Verifier, s: SessionId) -> bool {
    forall|r: RoundId| #[trigger] m.contains_key(r) ==> attached::<SP, M>(m[r], v, s, r)
}
pub open spec fn opt_payload<M>(p: Option<SignedMessagePart<M>>) -> Option<M> {
    match p { Some(x) => Some(x.message_with_metadata.message), None => None }
}
pub open spec fn map_payload<M>(m: Map<RoundId, SignedMessagePart<M>>, r: RoundId) -> Option<M> {
    if m.contains_key(r) { Some(m[r].message_with_metadata.message) } else { None }
}
/// Some metadata cannot be serialized by the wire format.
pub open spec fn local_possible<SP: SessionParameters>() -> bool { exists|md: MessageMetadata| #[trigger] local_failure::<SP>(md) }
pub open spec fn verified_or<SP: SessionParameters>(condition: bool, r: Result<(), EvidenceError>) -> bool {
    match r { Ok(_) => condition, Err(EvidenceError::Local(_)) => local_possible::<SP>(), Err(_) => !condition }
}
pub open spec fn trigger_metadata<Id: PartyId, P: Protocol<Id>>(e: ProtocolEvidence<Id, P>) -> Option<MessageMetadata> {
    match e.direct_message { Some(m) => Some(m.message_with_metadata.metadata), None =>
    match e.echo_broadcast { Some(m) => Some(m.message_with_metadata.metadata), None =>
    match e.normal_broadcast { Some(m) => Some(m.message_with_metadata.metadata), None => None } } }
}
/// The hash echoed by the guilty party is for a broadcast that `k` made in the given session and round, and the broadcast is attached.
pub open spec fn echo_attached<SP: SessionParameters>(h: SignedMessageHash, others: Map<SP::Verifier, SignedMessagePart<EchoBroadcast>>, k: SP::Verifier, s: SessionId, r: RoundId) -> bool {
    &&& h.metadata.session_id == s && h.metadata.round_id == r
    &&& hash_signed_by::<SP>(h, k)
    &&& others.contains_key(k) && attached::<SP, EchoBroadcast>(others[k], k, s, r)
    &&& h.message_part_hash@ == part_hash::<SP>(PartKind::EchoBroadcast, others[k].message_with_metadata.message.payload())
}
pub open spec fn echo_round_attached<SP: SessionParameters>(p: SignedMessagePart<NormalBroadcast>, v: SP::Verifier, s: SessionId, r: RoundId) -> bool {
    &&& p.message_with_metadata.metadata.round_id.is_echo && non_echoed(p.message_with_metadata.metadata.round_id) == r
    &&& p.message_with_metadata.metadata.session_id == s
    &&& part_signed_by::<SP, NormalBroadcast>(p, v)
}
pub open spec fn echo_message_of<V: PartyId>(p: SignedMessagePart<NormalBroadcast>, format: BoxedFormat) -> Option<EchoRoundMessage<V>> {
    part_value::<EchoRoundMessage<V>>(p.message_with_metadata.message.0, format)
}
/// The echo message of the round `r` is in order.
pub open spec fn combined_attached<SP: SessionParameters, P: Protocol<SP::Verifier>>(e: ProtocolEvidence<SP::Verifier, P>, v: SP::Verifier, format: BoxedFormat, s: SessionId, r: RoundId) -> bool {
    let p = e.echo_hashes@[r];
    let m = echo_message_of::<SP::Verifier>(p, format);
    &&& echo_round_attached::<SP>(p, v, s, r)
    &&& m is Some
    &&& e.other_echo_broadcasts@.contains_key(r)
    &&& forall|k: SP::Verifier| #[trigger] m->0.message_hashes@.contains_key(k) ==> echo_attached::<SP>(m->0.message_hashes@[k], e.other_echo_broadcasts@[r]@, k, s, r)
}
pub open spec fn combined_entry<Id: PartyId, P: Protocol<Id>>(e: ProtocolEvidence<Id, P>, format: BoxedFormat, r: RoundId, c: BTreeMap<Id, EchoBroadcast>) -> bool {
    let m = echo_message_of::<Id>(e.echo_hashes@[r], format);
    &&& c@.dom() == m->0.message_hashes@.dom()
    &&& forall|k: Id| #[trigger] c@.contains_key(k) ==> c@[k] == e.other_echo_broadcasts@[r]@[k].message_with_metadata.message
}
pub open spec fn combined_of<Id: PartyId, P: Protocol<Id>>(e: ProtocolEvidence<Id, P>, format: BoxedFormat, c: Map<RoundId, BTreeMap<Id, EchoBroadcast>>) -> bool {
    c.dom() == e.echo_hashes@.dom() && forall|r: RoundId| #[trigger] c.contains_key(r) ==> combined_entry::<Id, P>(e, format, r, c[r])
}
/// Everything attached to the evidence was signed by the guilty party, in one session, and in the rounds it is said to belong to.
pub open spec fn all_in_order<SP: SessionParameters, P: Protocol<SP::Verifier>>(e: ProtocolEvidence<SP::Verifier, P>, v: SP::Verifier, format: BoxedFormat) -> bool {
    let md = trigger_metadata(e);
    &&& md is Some
    &&& opt_attached::<SP, DirectMessage>(e.direct_message, v, md->0.session_id, md->0.round_id)
    &&& opt_attached::<SP, EchoBroadcast>(e.echo_broadcast, v, md->0.session_id, md->0.round_id)
    &&& opt_attached::<SP, NormalBroadcast>(e.normal_broadcast, v, md->0.session_id, md->0.round_id)
    &&& all_attached::<SP, DirectMessage>(e.direct_messages@, v, md->0.session_id)
    &&& all_attached::<SP, EchoBroadcast>(e.echo_broadcasts@, v, md->0.session_id)
    &&& all_attached::<SP, NormalBroadcast>(e.normal_broadcasts@, v, md->0.session_id)
    &&& forall|r: RoundId| #[trigger] e.echo_hashes@.contains_key(r) ==> combined_attached::<SP, P>(e, v, format, md->0.session_id, r)
}
pub open spec fn previous_of<Id: PartyId, P: Protocol<Id>>(e: ProtocolEvidence<Id, P>, m: Map<RoundId, EvidenceProtocolMessage>) -> bool {
    &&& forall|r: RoundId| #[trigger] m.contains_key(r) <==> e.direct_messages@.contains_key(r) || e.echo_broadcasts@.contains_key(r) || e.normal_broadcasts@.contains_key(r)
    &&& forall|r: RoundId| #[trigger] m.contains_key(r) ==> m[r] == (EvidenceProtocolMessage {
            echo_broadcast: map_payload(e.echo_broadcasts@, r), normal_broadcast: map_payload(e.normal_broadcasts@, r), direct_message: map_payload(e.direct_messages@, r) })
}
pub open spec fn trigger_of<Id: PartyId, P: Protocol<Id>>(e: ProtocolEvidence<Id, P>) -> EvidenceProtocolMessage {
    EvidenceProtocolMessage { echo_broadcast: opt_payload(e.echo_broadcast), normal_broadcast: opt_payload(e.normal_broadcast), direct_message: opt_payload(e.direct_message) }
}
/// What the protocol says about the evidence when it gets the attached messages.
pub open spec fn protocol_says<SP: SessionParameters, P: Protocol<SP::Verifier>>(e: ProtocolEvidence<SP::Verifier, P>, v: SP::Verifier, format: BoxedFormat, shared: P::SharedData, r: Result<(), EvidenceError>) -> bool {
    let md = trigger_metadata(e)->0;
    match P::info(md.round_id) {
        Some(i) => exists|p: BTreeMap<RoundId, EvidenceProtocolMessage>, c: BTreeMap<RoundId, BTreeMap<SP::Verifier, EchoBroadcast>>|
            previous_of(e, p@) && combined_of(e, format, c@) && #[trigger] infod(i).proves(md.round_id, format, e.error, v, md.session_id.0@, shared, trigger_of(e), p, c, r),
        None => r matches Err(x) && x is InvalidEvidence,
    }
}
pub open spec fn protocol_evidence<SP: SessionParameters, P: Protocol<SP::Verifier>>(e: ProtocolEvidence<SP::Verifier, P>, v: SP::Verifier, format: BoxedFormat, shared: P::SharedData, r: Result<(), EvidenceError>) -> bool {
    ||| r matches Err(EvidenceError::Local(_)) && local_possible::<SP>()
    ||| if all_in_order::<SP, P>(e, v, format) { protocol_says::<SP, P>(e, v, format, shared, r) } else { r matches Err(x) && x is InvalidEvidence }
}
pub open spec fn direct_is_invalid<SP: SessionParameters, P: Protocol<SP::Verifier>>(p: SignedMessagePart<DirectMessage>, format: BoxedFormat) -> bool {
    let r = p.message_with_metadata.metadata.round_id;
    if r.is_echo { p.message_with_metadata.message.0 is Some } else { P::info(r) matches Some(i) && infod(i).bad_direct(format, p.message_with_metadata.message) }
}
pub open spec fn echo_is_invalid<SP: SessionParameters, P: Protocol<SP::Verifier>>(p: SignedMessagePart<EchoBroadcast>, format: BoxedFormat) -> bool {
    let r = p.message_with_metadata.metadata.round_id;
    if r.is_echo { p.message_with_metadata.message.0 is Some } else { P::info(r) matches Some(i) && infod(i).bad_echo(format, p.message_with_metadata.message) }
}
pub open spec fn normal_is_invalid<SP: SessionParameters, P: Protocol<SP::Verifier>>(p: SignedMessagePart<NormalBroadcast>, format: BoxedFormat) -> bool {
    let r = p.message_with_metadata.metadata.round_id;
    if r.is_echo { part_value::<EchoRoundMessage<SP::Verifier>>(p.message_with_metadata.message.0, format) is None }
    else { P::info(r) matches Some(i) && infod(i).bad_normal(format, p.message_with_metadata.message) }
}
pub open spec fn echo_evidence_holds<SP: SessionParameters>(e: InvalidEchoEvidence<SP::Verifier>, v: SP::Verifier, format: BoxedFormat) -> bool {
    let m = echo_message_of::<SP::Verifier>(e.normal_broadcast, format);
    &&& part_signed_by::<SP, NormalBroadcast>(e.normal_broadcast, v)
    &&& m is Some
    &&& invalid_echo_proved::<SP>(e.error.invalid_echo_sender, e.normal_broadcast.message_with_metadata.metadata, m->0)
}
pub open spec fn mismatch_evidence_holds<SP: SessionParameters>(e: MismatchedBroadcastsEvidence<SP::Verifier>, v: SP::Verifier) -> bool {
    e.error.guilty_party == v && mismatch_proved::<SP>(e.error)
}
/// What `Evidence::verify()` decides.
pub open spec fn evidence_verifies<P: Protocol<SP::Verifier>, SP: SessionParameters>(e: Evidence<P, SP>, shared: P::SharedData, r: Result<(), EvidenceError>) -> bool {
    let f = format_of::<SP::WireFormat>();
    let v = e.guilty_party;
    match e.evidence {
        EvidenceEnum::Protocol(x) => protocol_evidence::<SP, P>(*x, v, f, shared, r),
        EvidenceEnum::InvalidDirectMessage(x) => verified_or::<SP>(part_signed_by::<SP, DirectMessage>(x.0, v) && direct_is_invalid::<SP, P>(x.0, f), r),
        EvidenceEnum::InvalidEchoBroadcast(x) => verified_or::<SP>(part_signed_by::<SP, EchoBroadcast>(x.0, v) && echo_is_invalid::<SP, P>(x.0, f), r),
        EvidenceEnum::InvalidNormalBroadcast(x) => verified_or::<SP>(part_signed_by::<SP, NormalBroadcast>(x.0, v) && normal_is_invalid::<SP, P>(x.0, f), r),
        EvidenceEnum::InvalidEcho(x) => verified_or::<SP>(echo_evidence_holds::<SP>(x, v, f), r),
        EvidenceEnum::MismatchedBroadcasts(x) => verified_or::<SP>(mismatch_evidence_holds::<SP>(x, v), r),
    }
}
=== fn verify_message_part
@props P10 P11 P09
ensures match ret {
    Ok(m) => opt_attached::<SP, T>(*message_part, *verifier, *expected_session_id, *expected_round_id) && m == opt_payload(*message_part),
    Err(e) => if e is Local { local_possible::<SP>() } else { e is InvalidEvidence && !opt_attached::<SP, T>(*message_part, *verifier, *expected_session_id, *expected_round_id) } },
=== fn verify_message_parts
@props P10 P11 P09
@attr #[verifier::loop_isolation(false)]
ensures match ret {
    Ok(m) => all_attached::<SP, T>(message_parts@, *verifier, *expected_session_id) && m@.dom() == message_parts@.dom()
        && forall|r: RoundId| #[trigger] m@.contains_key(r) ==> m@[r] == message_parts@[r].message_with_metadata.message,
    Err(e) => if e is Local { local_possible::<SP>() } else { e is InvalidEvidence && !all_attached::<SP, T>(message_parts@, *verifier, *expected_session_id) } },
=== fn verify_message_parts | loop 0
map_ref_items(message_parts@, __seq0),
forall|i: int| 0 <= i < __it0.pos() ==> attached::<SP, T>(*(#[trigger] __seq0[i]).1, *verifier, *expected_session_id, *__seq0[i].0)
    && verified_parts@.contains_key(*__seq0[i].0) && verified_parts@[*__seq0[i].0] == __seq0[i].1.message_with_metadata.message,
forall|r: RoundId| #[trigger] verified_parts@.contains_key(r) ==> exists|i: int| 0 <= i < __it0.pos() && *(#[trigger] __seq0[i]).0 == r,
=== fn verify_message_parts | proof loop 0 start
proof { let (k, v) = __seq0[__it0.pos() - 1]; assert(message_parts@.contains_key(*k) && message_parts@[*k] == *v); }
=== fn verify_message_parts | proof loop 0 after
proof { assert(verified_parts@.dom() =~= message_parts@.dom()); }
=== fn InvalidEchoEvidence::verify
@props P10 P11 P09
ensures verified_or::<SP>(echo_evidence_holds::<SP>(*self, *verifier, *format), ret),
=== fn MismatchedBroadcastsEvidence::verify
@props P10 P11 P09
ensures verified_or::<SP>(mismatch_evidence_holds::<SP>(*self, *verifier), ret),
=== fn InvalidDirectMessageEvidence::verify
@props P10 P11 P09
ensures verified_or::<SP>(part_signed_by::<SP, DirectMessage>(self.0, *verifier) && direct_is_invalid::<SP, P>(self.0, *format), ret),
=== fn InvalidEchoBroadcastEvidence::verify
@props P10 P11 P09
ensures verified_or::<SP>(part_signed_by::<SP, EchoBroadcast>(self.0, *verifier) && echo_is_invalid::<SP, P>(self.0, *format), ret),
=== fn InvalidNormalBroadcastEvidence::verify
@props P10 P11 P09
ensures verified_or::<SP>(part_signed_by::<SP, NormalBroadcast>(self.0, *verifier) && normal_is_invalid::<SP, P>(self.0, *format), ret),
=== fn Evidence::verify
@props P10 P11 P09
ensures evidence_verifies(*self, *shared_data, ret),
=== fn Evidence::guilty_party
@props P08 P03
ensures *ret == self.guilty_party,
=== fn Evidence::new_invalid_direct_message
@props P09 P08
ensures ret.guilty_party == *verifier, ret.evidence == EvidenceEnum::<P, SP>::InvalidDirectMessage(InvalidDirectMessageEvidence(direct_message)),
=== fn Evidence::new_invalid_echo_broadcast
@props P09 P08
ensures ret.guilty_party == *verifier, ret.evidence == EvidenceEnum::<P, SP>::InvalidEchoBroadcast(InvalidEchoBroadcastEvidence(echo_broadcast)),
=== fn Evidence::new_invalid_normal_broadcast
@props P09 P08
ensures ret.guilty_party == *verifier, ret.evidence == EvidenceEnum::<P, SP>::InvalidNormalBroadcast(InvalidNormalBroadcastEvidence(normal_broadcast)),
=== fn Evidence::new_echo_round_error
@props P09 P08 P07
ensures echo_error_evidence::<P, SP>(*verifier, normal_broadcast, error, ret),
=== raw new evidence @props P09
pub open spec fn echo_error_evidence<P: Protocol<SP::Verifier>, SP: SessionParameters>(v: SP::Verifier, n: SignedMessagePart<NormalBroadcast>, error: EchoRoundError<SP::Verifier>, r: Result<Evidence<P, SP>, LocalError>) -> bool {
    r matches Ok(e) && match error {
        EchoRoundError::InvalidEcho(x) => e.guilty_party == v && e.evidence == EvidenceEnum::<P, SP>::InvalidEcho(InvalidEchoEvidence { normal_broadcast: n, error: x }),
        EchoRoundError::MismatchedBroadcasts(x) => e.guilty_party == x.guilty_party && e.evidence == EvidenceEnum::<P, SP>::MismatchedBroadcasts(MismatchedBroadcastsEvidence { error: x }),
    }
}
pub open spec fn stored<SP: SessionParameters, M>(m: Map<RoundId, BTreeMap<SP::Verifier, SignedMessagePart<M>>>, r: RoundId, v: SP::Verifier) -> bool {
    m.contains_key(r) && m[r]@.contains_key(v)
}
/// `e` has exactly the parts of `m` for the wanted rounds.
pub open spec fn copied<SP: SessionParameters, M>(m: Map<RoundId, BTreeMap<SP::Verifier, SignedMessagePart<M>>>, v: SP::Verifier, e: Map<RoundId, SignedMessagePart<M>>) -> bool {
    forall|r: RoundId| #[trigger] e.contains_key(r) ==> stored::<SP, M>(m, r, v) && e[r] == m[r]@[v]
}
pub open spec fn wants_echo(q: RequiredMessages, r: RoundId) -> bool { q.previous_rounds matches Some(p) && p@.contains_key(r) && p@[r].echo_broadcast }
pub open spec fn wants_normal(q: RequiredMessages, r: RoundId) -> bool { q.previous_rounds matches Some(p) && p@.contains_key(r) && p@[r].normal_broadcast }
pub open spec fn wants_direct(q: RequiredMessages, r: RoundId) -> bool { q.previous_rounds matches Some(p) && p@.contains_key(r) && p@[r].direct_message }
pub open spec fn wants_combined(q: RequiredMessages, r: RoundId) -> bool { q.combined_echos matches Some(p) && p@.contains(r) }
pub open spec fn others_copied<SP: SessionParameters>(m: Map<RoundId, BTreeMap<SP::Verifier, SignedMessagePart<EchoBroadcast>>>, v: SP::Verifier, e: Map<RoundId, BTreeMap<SP::Verifier, SignedMessagePart<EchoBroadcast>>>) -> bool {
    forall|r: RoundId| #[trigger] e.contains_key(r) ==> m.contains_key(r) && e[r]@ == m[r]@.remove(v)
}
/// The transcript has everything the error needs.
pub open spec fn available<P: Protocol<SP::Verifier>, SP: SessionParameters>(t: Transcript<P, SP>, v: SP::Verifier, q: RequiredMessages) -> bool {
    &&& forall|r: RoundId| #[trigger] wants_echo(q, r) ==> stored::<SP, EchoBroadcast>(t.echo_broadcasts@, r, v)
    &&& forall|r: RoundId| #[trigger] wants_normal(q, r) ==> stored::<SP, NormalBroadcast>(t.normal_broadcasts@, r, v)
    &&& forall|r: RoundId| #[trigger] wants_direct(q, r) ==> stored::<SP, DirectMessage>(t.direct_messages@, r, v)
    &&& forall|r: RoundId| #[trigger] wants_combined(q, r) ==> !r.is_echo && stored::<SP, NormalBroadcast>(t.normal_broadcasts@, echoed(r), v) && t.echo_broadcasts@.contains_key(r)
}
pub open spec fn protocol_error_contents<P: Protocol<SP::Verifier>, SP: SessionParameters>(format: BoxedFormat, v: SP::Verifier, eb: SignedMessagePart<EchoBroadcast>, nb: SignedMessagePart<NormalBroadcast>, dm: SignedMessagePart<DirectMessage>,
    error: BoxedProtocolError<SP::Verifier>, t: Transcript<P, SP>, x: ProtocolEvidence<SP::Verifier, P>) -> bool {
    let q = error.required_messages;
    &&& x.error.0@ == error_bytes(error.error, format)
    &&& x.echo_broadcast == (if q.this_round.echo_broadcast { Some(eb) } else { None })
    &&& x.normal_broadcast == (if q.this_round.normal_broadcast { Some(nb) } else { None })
    &&& x.direct_message == (if q.this_round.direct_message { Some(dm) } else { None })
    &&& copied::<SP, EchoBroadcast>(t.echo_broadcasts@, v, x.echo_broadcasts@) && (forall|r: RoundId| #[trigger] x.echo_broadcasts@.contains_key(r) <==> wants_echo(q, r))
    &&& copied::<SP, NormalBroadcast>(t.normal_broadcasts@, v, x.normal_broadcasts@) && (forall|r: RoundId| #[trigger] x.normal_broadcasts@.contains_key(r) <==> wants_normal(q, r))
    &&& copied::<SP, DirectMessage>(t.direct_messages@, v, x.direct_messages@) && (forall|r: RoundId| #[trigger] x.direct_messages@.contains_key(r) <==> wants_direct(q, r))
    &&& forall|r: RoundId| #[trigger] x.echo_hashes@.contains_key(r) <==> wants_combined(q, r)
    &&& forall|r: RoundId| #[trigger] x.other_echo_broadcasts@.contains_key(r) <==> wants_combined(q, r)
    &&& forall|r: RoundId| #[trigger] x.echo_hashes@.contains_key(r) ==> !r.is_echo && stored::<SP, NormalBroadcast>(t.normal_broadcasts@, echoed(r), v) && x.echo_hashes@[r] == t.normal_broadcasts@[echoed(r)]@[v]
    &&& others_copied::<SP>(t.echo_broadcasts@, v, x.other_echo_broadcasts@)
}
pub open spec fn protocol_error_evidence<P: Protocol<SP::Verifier>, SP: SessionParameters>(format: BoxedFormat, v: SP::Verifier, eb: SignedMessagePart<EchoBroadcast>, nb: SignedMessagePart<NormalBroadcast>, dm: SignedMessagePart<DirectMessage>,
    error: BoxedProtocolError<SP::Verifier>, t: Transcript<P, SP>, r: Result<Evidence<P, SP>, LocalError>) -> bool {
    r matches Ok(e) ==> e.guilty_party == v && available::<P, SP>(t, v, error.required_messages)
        && (e.evidence matches EvidenceEnum::Protocol(x) && protocol_error_contents::<P, SP>(format, v, eb, nb, dm, error, t, *x))
}
=== fn Evidence::new_provable_error
@props P09 P08
@attr #[verifier::loop_isolation(false)]
ensures protocol_error_evidence::<P, SP>(*format, *verifier, echo_broadcast, normal_broadcast, direct_message, error, *transcript, ret),
=== fn Evidence::new_provable_error | loop 0
map_ref_items(required_messages.previous_rounds->0@, __seq0),
copied::<SP, EchoBroadcast>(transcript.echo_broadcasts@, *verifier, echo_broadcasts@),
copied::<SP, NormalBroadcast>(transcript.normal_broadcasts@, *verifier, normal_broadcasts@),
copied::<SP, DirectMessage>(transcript.direct_messages@, *verifier, direct_messages@),
forall|i: int| 0 <= i < __it0.pos() ==> ((#[trigger] __seq0[i]).1.echo_broadcast ==> echo_broadcasts@.contains_key(*__seq0[i].0))
    && (__seq0[i].1.normal_broadcast ==> normal_broadcasts@.contains_key(*__seq0[i].0)) && (__seq0[i].1.direct_message ==> direct_messages@.contains_key(*__seq0[i].0)),
forall|r: RoundId| #[trigger] echo_broadcasts@.contains_key(r) ==> wants_echo(*required_messages, r),
forall|r: RoundId| #[trigger] normal_broadcasts@.contains_key(r) ==> wants_normal(*required_messages, r),
forall|r: RoundId| #[trigger] direct_messages@.contains_key(r) ==> wants_direct(*required_messages, r),
=== fn Evidence::new_provable_error | proof loop 0 start
proof { let (k, v) = __seq0[__it0.pos() - 1]; let m = required_messages.previous_rounds->0@; assert(m.contains_key(*k) && m[*k] == *v);
    assert(v.echo_broadcast ==> wants_echo(*required_messages, *k)); assert(v.normal_broadcast ==> wants_normal(*required_messages, *k)); assert(v.direct_message ==> wants_direct(*required_messages, *k)); }
=== fn Evidence::new_provable_error | loop 1
set_ref_items(required_messages.combined_echos->0@, __seq1),
forall|i: int| 0 <= i < __it1.pos() ==> echo_hashes@.contains_key(*#[trigger] __seq1[i]) && other_echo_broadcasts@.contains_key(*__seq1[i]),
forall|r: RoundId| #[trigger] echo_hashes@.contains_key(r) ==> wants_combined(*required_messages, r),
forall|r: RoundId| #[trigger] other_echo_broadcasts@.contains_key(r) ==> wants_combined(*required_messages, r),
forall|r: RoundId| #[trigger] echo_hashes@.contains_key(r) ==> !r.is_echo && stored::<SP, NormalBroadcast>(transcript.normal_broadcasts@, echoed(r), *verifier) && echo_hashes@[r] == transcript.normal_broadcasts@[echoed(r)]@[*verifier],
others_copied::<SP>(transcript.echo_broadcasts@, *verifier, other_echo_broadcasts@),
=== fn Evidence::new_provable_error | proof loop 1 start
proof { let k = __seq1[__it1.pos() - 1]; assert(required_messages.combined_echos->0@.contains(*k)); assert(wants_combined(*required_messages, *k)); }
=== fn ProtocolEvidence::verify
@props P10 P11 P09
@attr #[verifier::loop_isolation(false)]
ensures protocol_evidence::<SP, P>(*self, *verifier, *format, *shared_data, ret),
=== fn ProtocolEvidence::verify | proof start
proof { assert forall|i: VIter<RoundId>, s: Seq<RoundId>| (#[trigger] i.items_ok(s)) == (i.pos() == 0 ==> s == i.seq()) by {} }
=== fn ProtocolEvidence::verify | loop 0
map_ref_items(self.echo_hashes@, __seq0),
forall|i: int| 0 <= i < __it0.pos() ==> combined_attached::<SP, P>(*self, *verifier, *format, *session_id, *(#[trigger] __seq0[i]).0)
    && combined_echos@.contains_key(*__seq0[i].0) && combined_entry::<SP::Verifier, P>(*self, *format, *__seq0[i].0, combined_echos@[*__seq0[i].0]),
forall|r: RoundId| #[trigger] combined_echos@.contains_key(r) ==> self.echo_hashes@.contains_key(r) && combined_entry::<SP::Verifier, P>(*self, *format, r, combined_echos@[r]),
=== fn ProtocolEvidence::verify | proof loop 0 start
proof { let (k, v) = __seq0[__it0.pos() - 1]; assert(self.echo_hashes@.contains_key(*k) && self.echo_hashes@[*k] == *v); }
=== fn ProtocolEvidence::verify | loop 1
map_ref_items(echo_round_payload.message_hashes@, __seq1),
forall|i: int| 0 <= i < __it1.pos() ==> echo_attached::<SP>(*(#[trigger] __seq1[i]).1, signed_echo_broadcasts@, *__seq1[i].0, *session_id, *round_id)
    && echo_messages@.contains_key(*__seq1[i].0),
forall|k: SP::Verifier| #[trigger] echo_messages@.contains_key(k) ==> echo_round_payload.message_hashes@.contains_key(k) && echo_messages@[k] == signed_echo_broadcasts@[k].message_with_metadata.message,
=== fn ProtocolEvidence::verify | proof loop 1 start
proof { let (k, v) = __seq1[__it1.pos() - 1]; assert(echo_round_payload.message_hashes@.contains_key(*k) && echo_round_payload.message_hashes@[*k] == *v);
    assert(echo_message_of::<SP::Verifier>(self.echo_hashes@[*round_id], *format) == Some(echo_round_payload));
    assert(all_in_order::<SP, P>(*self, *verifier, *format) ==> combined_attached::<SP, P>(*self, *verifier, *format, *session_id, *round_id));
    let m = echo_message_of::<SP::Verifier>(self.echo_hashes@[*round_id], *format);
    assert(m->0.message_hashes@.contains_key(*k) && m->0.message_hashes@[*k] == *v && self.other_echo_broadcasts@[*round_id]@ == signed_echo_broadcasts@);
    assert(combined_attached::<SP, P>(*self, *verifier, *format, *session_id, *round_id) ==> echo_attached::<SP>(*v, signed_echo_broadcasts@, *k, *session_id, *round_id)); }
=== fn ProtocolEvidence::verify | proof loop 1 after
proof { assert(echo_messages@.dom() =~= echo_round_payload.message_hashes@.dom()); }
=== fn ProtocolEvidence::verify | loop 2
set_items(all_rounds@, __seq2),
forall|r: RoundId| #[trigger] previous_messages@.contains_key(r) ==> exists|i: int| 0 <= i < __it2.pos() && #[trigger] __seq2[i] == r,
forall|i: int| 0 <= i < __it2.pos() ==> previous_messages@.contains_key(#[trigger] __seq2[i]) && previous_messages@[__seq2[i]] == (EvidenceProtocolMessage {
            echo_broadcast: map_payload(self.echo_broadcasts@, __seq2[i]), normal_broadcast: map_payload(self.normal_broadcasts@, __seq2[i]), direct_message: map_payload(self.direct_messages@, __seq2[i]) }),
forall|i: int| __it2.pos() <= i < __seq2.len() ==> (#[trigger] echo_broadcasts@.contains_key(__seq2[i]) <==> self.echo_broadcasts@.contains_key(__seq2[i])) && (echo_broadcasts@.contains_key(__seq2[i]) ==> echo_broadcasts@[__seq2[i]] == self.echo_broadcasts@[__seq2[i]].message_with_metadata.message),
forall|i: int| __it2.pos() <= i < __seq2.len() ==> (#[trigger] normal_broadcasts@.contains_key(__seq2[i]) <==> self.normal_broadcasts@.contains_key(__seq2[i])) && (normal_broadcasts@.contains_key(__seq2[i]) ==> normal_broadcasts@[__seq2[i]] == self.normal_broadcasts@[__seq2[i]].message_with_metadata.message),
forall|i: int| __it2.pos() <= i < __seq2.len() ==> (#[trigger] direct_messages@.contains_key(__seq2[i]) <==> self.direct_messages@.contains_key(__seq2[i])) && (direct_messages@.contains_key(__seq2[i]) ==> direct_messages@[__seq2[i]] == self.direct_messages@[__seq2[i]].message_with_metadata.message),
=== fn ProtocolEvidence::verify | proof loop 2 before
proof { assert forall|r: RoundId| #[trigger] all_rounds@.contains(r) <==> self.echo_broadcasts@.contains_key(r) || self.normal_broadcasts@.contains_key(r) || self.direct_messages@.contains_key(r) by {
    assert(self.echo_broadcasts@.contains_key(r) == echo_broadcasts@.contains_key(r)); assert(self.normal_broadcasts@.contains_key(r) == normal_broadcasts@.contains_key(r)); assert(self.direct_messages@.contains_key(r) == direct_messages@.contains_key(r)); } }
=== fn ProtocolEvidence::verify | proof loop 2 after
proof { assert(combined_echos@.dom() =~= self.echo_hashes@.dom()); assert(combined_of(*self, *format, combined_echos@)); 
    assert forall|r: RoundId| #[trigger] previous_messages@.contains_key(r) == all_rounds@.contains(r) by {}
    assert forall|r: RoundId| #[trigger] all_rounds@.contains(r) implies previous_messages@.contains_key(r) && previous_messages@[r] == (EvidenceProtocolMessage {
            echo_broadcast: map_payload(self.echo_broadcasts@, r), normal_broadcast: map_payload(self.normal_broadcasts@, r), direct_message: map_payload(self.direct_messages@, r) }) by {}
    assert(previous_of(*self, previous_messages@)); assert(all_in_order::<SP, P>(*self, *verifier, *format)); }
