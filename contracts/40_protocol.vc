=== file manul/src/protocol/round.rs
=== file manul/src/protocol/dyn_round.rs
=== file manul/src/protocol/dyn_evidence.rs
=== file manul/src/protocol/round_info.rs

=== skip -
PartyId
T as PartyId
=== unbounded EvidenceMessages
=== unbounded RoundInfo
=== bounds Round::ProtocolError
ProtocolError<Id, Round = Self, SharedData = <Self::Protocol as Protocol<Id>>::SharedData>

=== member trait NoType
/// The only value of the type.
spec fn only() -> Self;
=== fn NoType::new
ensures ret == Self::only(),
=== fn NoType::equals
@props P14
ensures ret == same_type::<Self, T>(),
=== fn NoType::new_if_equals
@props P14
ensures ret == (if same_type::<Self, T>() { Some(cast_value::<Self, T>(Self::only())) } else { None }),
=== member NoMessage as NoType
open spec fn only() -> Self { NoMessage(PhantomData) }
=== fn NoMessage as NoType::new
@props P14
=== member NoArtifact as NoType
open spec fn only() -> Self { NoArtifact(PhantomData) }
=== fn NoArtifact as NoType::new
@props P14

=== raw rounds and protocols
pub open spec fn payload_value<T>(p: Payload) -> Option<T> { any_value::<T>(p.0) }
pub open spec fn artifact_value<T>(p: Artifact) -> Option<T> { any_value::<T>(p.0) }

/// What the user says about a provable error.
pub trait ProtocolError<Id>: VClone {
    type Round;
    type SharedData;
    spec fn req(&self, round_id: RoundId) -> RequiredMessages;
    spec fn proves(&self, round_id: RoundId, from: Id, rnd: Seq<u8>, shared_data: Self::SharedData,
        m: EvidenceMessages<Id, Self::Round>, r: Result<(), EvidenceError>) -> bool;
    fn description(&self) -> String;
    fn required_messages(&self, round_id: &RoundId) -> (ret: RequiredMessages) ensures ret == self.req(*round_id);
    fn verify_evidence(&self, round_id: &RoundId, from: &Id, shared_randomness: &Bytes, shared_data: &Self::SharedData,
        messages: EvidenceMessages<Id, Self::Round>) -> (ret: Result<(), EvidenceError>)
        ensures self.proves(*round_id, *from, shared_randomness@, *shared_data, messages, ret);
}

/// A boxed object of a type implementing `DynRound`.
#[verifier::external_body]
#[verifier::reject_recursive_types(Id)]
#[verifier::reject_recursive_types(P)]
pub struct DynRoundObj<Id, P> { p: PhantomData<(Id, P)> }
pub uninterp spec fn obj_ok<Id, P>(o: DynRoundObj<Id, P>) -> bool;
pub uninterp spec fn obj_tinfo<Id, P>(o: DynRoundObj<Id, P>) -> TransitionInfo;
pub uninterp spec fn obj_cinfo<Id, P>(o: DynRoundObj<Id, P>) -> CommunicationInfo<Id>;
pub uninterp spec fn obj_direct<Id, P>(o: DynRoundObj<Id, P>, format: BoxedFormat, destination: Id, r: Result<(DirectMessage, Artifact), LocalError>) -> bool;
pub uninterp spec fn obj_echo<Id, P>(o: DynRoundObj<Id, P>, format: BoxedFormat, r: Result<EchoBroadcast, LocalError>) -> bool;
pub uninterp spec fn obj_normal<Id, P>(o: DynRoundObj<Id, P>, format: BoxedFormat, r: Result<NormalBroadcast, LocalError>) -> bool;
pub uninterp spec fn obj_receives<Id, P>(o: DynRoundObj<Id, P>, format: BoxedFormat, from: Id, m: DynProtocolMessage, r: Result<Payload, BoxedReceiveError<Id>>) -> bool;
pub uninterp spec fn obj_finalizes<Id, P: Protocol<Id>>(o: DynRoundObj<Id, P>, payloads: BTreeMap<Id, Payload>, artifacts: BTreeMap<Id, Artifact>, r: Result<FinalizeOutcome<Id, P>, LocalError>) -> bool;
impl<Id: PartyId, P: Protocol<Id>> DynRound<Id> for DynRoundObj<Id, P> {
    type Protocol = P;
    open spec fn ok(&self) -> bool { obj_ok(*self) }
    open spec fn tinfo(&self) -> TransitionInfo { obj_tinfo(*self) }
    open spec fn cinfo(&self) -> CommunicationInfo<Id> { obj_cinfo(*self) }
    open spec fn directs(&self, format: BoxedFormat, destination: Id, r: Result<(DirectMessage, Artifact), LocalError>) -> bool { obj_direct(*self, format, destination, r) }
    open spec fn echoes(&self, format: BoxedFormat, r: Result<EchoBroadcast, LocalError>) -> bool { obj_echo(*self, format, r) }
    open spec fn normals(&self, format: BoxedFormat, r: Result<NormalBroadcast, LocalError>) -> bool { obj_normal(*self, format, r) }
    open spec fn receives(&self, format: BoxedFormat, from: Id, m: DynProtocolMessage, r: Result<Payload, BoxedReceiveError<Id>>) -> bool { obj_receives(*self, format, from, m, r) }
    open spec fn finalizes(self, payloads: BTreeMap<Id, Payload>, artifacts: BTreeMap<Id, Artifact>, r: Result<FinalizeOutcome<Id, P>, LocalError>) -> bool { obj_finalizes(self, payloads, artifacts, r) }
    #[verifier::external_body]
    fn transition_info(&self) -> (ret: TransitionInfo) { unimplemented!() }
    #[verifier::external_body]
    fn communication_info(&self) -> (ret: CommunicationInfo<Id>) { unimplemented!() }
    #[verifier::external_body]
    fn make_direct_message(&self, rng: &mut Rng, format: &BoxedFormat, destination: &Id) -> (ret: Result<(DirectMessage, Artifact), LocalError>) { unimplemented!() }
    #[verifier::external_body]
    fn make_echo_broadcast(&self, rng: &mut Rng, format: &BoxedFormat) -> (ret: Result<EchoBroadcast, LocalError>) { unimplemented!() }
    #[verifier::external_body]
    fn make_normal_broadcast(&self, rng: &mut Rng, format: &BoxedFormat) -> (ret: Result<NormalBroadcast, LocalError>) { unimplemented!() }
    #[verifier::external_body]
    fn receive_message(&self, format: &BoxedFormat, from: &Id, message: DynProtocolMessage) -> (ret: Result<Payload, BoxedReceiveError<Id>>) { unimplemented!() }
    #[verifier::external_body]
    fn finalize(self, rng: &mut Rng, payloads: BTreeMap<Id, Payload>, artifacts: BTreeMap<Id, Artifact>) -> (ret: Result<FinalizeOutcome<Id, P>, LocalError>) { unimplemented!() }
}
/// The object behaves as the round it was made of: calls are dispatched to the round.
pub open spec fn dispatches<Id: PartyId, P: Protocol<Id>, R: DynRound<Id, Protocol = P>>(o: DynRoundObj<Id, P>, round: R) -> bool {
    &&& o.ok() && o.tinfo() == round.tinfo() && o.cinfo() == round.cinfo()
    &&& forall|f: BoxedFormat, d: Id, r: Result<(DirectMessage, Artifact), LocalError>| #[trigger] o.directs(f, d, r) == round.directs(f, d, r)
    &&& forall|f: BoxedFormat, r: Result<EchoBroadcast, LocalError>| #[trigger] o.echoes(f, r) == round.echoes(f, r)
    &&& forall|f: BoxedFormat, r: Result<NormalBroadcast, LocalError>| #[trigger] o.normals(f, r) == round.normals(f, r)
    &&& forall|f: BoxedFormat, d: Id, m: DynProtocolMessage, r: Result<Payload, BoxedReceiveError<Id>>| #[trigger] o.receives(f, d, m, r) == round.receives(f, d, m, r)
    &&& forall|p: BTreeMap<Id, Payload>, a: BTreeMap<Id, Artifact>, r: Result<FinalizeOutcome<Id, P>, LocalError>| #[trigger] o.finalizes(p, a, r) == round.finalizes(p, a, r)
}
/// The object was made of this round (so that it `dispatches`; for use in definitions of what a round does).
pub uninterp spec fn made_of<Id, P, R>(o: DynRoundObj<Id, P>, round: R) -> bool;
/// Only rounds that are `ok` can be boxed, and nothing else makes an object: every object is `ok`.
pub broadcast proof fn axiom_obj_ok<Id, P>(o: DynRoundObj<Id, P>) ensures #[trigger] obj_ok(o) { admit(); }
impl<Id: PartyId, P: Protocol<Id>, R: DynRound<Id, Protocol = P>> VBoxInto<DynRoundObj<Id, P>> for R {
    open spec fn box_req(self) -> bool { self.ok() }
    open spec fn boxes(self, o: DynRoundObj<Id, P>) -> bool { dispatches(o, self) && made_of(o, self) && obj_type(o) == type_id_of::<R>() }
    #[verifier::external_body]
    fn vbox(self) -> (ret: DynRoundObj<Id, P>) { unimplemented!() }
}
/// The type the object was made of, and the value it was made of.
pub uninterp spec fn obj_type<Id, P>(o: DynRoundObj<Id, P>) -> TypeId;
pub proof fn axiom_made_of_one<Id, P, R>(o: DynRoundObj<Id, P>, a: R, b: R) requires made_of(o, a), made_of(o, b) ensures a == b { admit(); }
/// The cast to the type the object was made of.
impl<Id, P, R> VCast<Box<R>> for DynRoundObj<Id, P> {
    open spec fn cast_ok(self) -> bool { obj_type(self) == type_id_of::<R>() }
    open spec fn casts(self, r: Box<R>) -> bool { made_of(self, *r) }
    #[verifier::external_body]
    fn vcast(self) -> (ret: Box<R>) { unimplemented!() }
}
impl<Id, P> DynRoundObj<Id, P> {
    #[verifier::external_body]
    pub fn get_type_id(&self) -> (ret: TypeId) ensures ret == obj_type(*self) { unimplemented!() }
    pub fn as_ref(&self) -> (ret: &Self) ensures *ret == *self { self }
}
pub open spec fn boxed<Id, P: Protocol<Id>>(b: BoxedRound<Id, P>) -> DynRoundObj<Id, P> {
    match b.0 { BoxedRoundEnum::Dynamic(o) => o, BoxedRoundEnum::Typed(t) => t.0 }
}

/// A boxed protocol error.
#[verifier::external_body]
#[verifier::reject_recursive_types(Id)]
pub struct DynProtocolErrorObj<Id> { p: PhantomData<Id> }
pub uninterp spec fn error_bytes<Id>(e: DynProtocolErrorObj<Id>, format: BoxedFormat) -> Seq<u8>;
impl<Id, T: DynProtocolError<Id>> VBoxInto<DynProtocolErrorObj<Id>> for T {
    open spec fn box_req(self) -> bool { true }
    open spec fn boxes(self, o: DynProtocolErrorObj<Id>) -> bool { forall|f: BoxedFormat| #[trigger] error_bytes(o, f) == self.bytes_in(f) }
    #[verifier::external_body]
    fn vbox(self) -> (ret: DynProtocolErrorObj<Id>) { unimplemented!() }
}
impl<Id> DynProtocolErrorObj<Id> {
    pub fn as_ref(&self) -> (ret: &Self) ensures *ret == *self { self }
    #[verifier::external_body]
    pub fn description(&self) -> (ret: String) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize(self, format: &BoxedFormat) -> (ret: Result<SerializedProtocolError, LocalError>)
        ensures ret matches Ok(s) ==> s.0@ == error_bytes(self, *format) { unimplemented!() }
}

/// A boxed object of a type implementing `DynRoundInfo`.
#[verifier::external_body]
#[verifier::reject_recursive_types(Id)]
#[verifier::reject_recursive_types(P)]
pub struct DynRoundInfoObj<Id, P> { p: PhantomData<(Id, P)> }
pub uninterp spec fn oi_direct<Id, P>(o: DynRoundInfoObj<Id, P>, format: BoxedFormat, m: DirectMessage) -> bool;
pub uninterp spec fn oi_echo<Id, P>(o: DynRoundInfoObj<Id, P>, format: BoxedFormat, m: EchoBroadcast) -> bool;
pub uninterp spec fn oi_normal<Id, P>(o: DynRoundInfoObj<Id, P>, format: BoxedFormat, m: NormalBroadcast) -> bool;
pub uninterp spec fn oi_evidence<Id, P: Protocol<Id>>(o: DynRoundInfoObj<Id, P>, round_id: RoundId, format: BoxedFormat, error: SerializedProtocolError, guilty_party: Id, rnd: Seq<u8>,
    shared_data: P::SharedData, m: EvidenceProtocolMessage, p: BTreeMap<RoundId, EvidenceProtocolMessage>, c: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>, r: Result<(), EvidenceError>) -> bool;
impl<Id, P: Protocol<Id>> DynRoundInfo<Id> for DynRoundInfoObj<Id, P> {
    type Protocol = P;
    open spec fn bad_direct(&self, format: BoxedFormat, m: DirectMessage) -> bool { oi_direct(*self, format, m) }
    open spec fn bad_echo(&self, format: BoxedFormat, m: EchoBroadcast) -> bool { oi_echo(*self, format, m) }
    open spec fn bad_normal(&self, format: BoxedFormat, m: NormalBroadcast) -> bool { oi_normal(*self, format, m) }
    open spec fn proves(&self, round_id: RoundId, format: BoxedFormat, error: SerializedProtocolError, guilty_party: Id, rnd: Seq<u8>,
        shared_data: P::SharedData, m: EvidenceProtocolMessage, p: BTreeMap<RoundId, EvidenceProtocolMessage>, c: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>, r: Result<(), EvidenceError>) -> bool
    { oi_evidence(*self, round_id, format, error, guilty_party, rnd, shared_data, m, p, c, r) }
    #[verifier::external_body]
    fn verify_direct_message_is_invalid(&self, format: &BoxedFormat, message: &DirectMessage) -> (ret: Result<(), EvidenceError>) { unimplemented!() }
    #[verifier::external_body]
    fn verify_echo_broadcast_is_invalid(&self, format: &BoxedFormat, message: &EchoBroadcast) -> (ret: Result<(), EvidenceError>) { unimplemented!() }
    #[verifier::external_body]
    fn verify_normal_broadcast_is_invalid(&self, format: &BoxedFormat, message: &NormalBroadcast) -> (ret: Result<(), EvidenceError>) { unimplemented!() }
    #[verifier::external_body]
    fn verify_evidence(&self, round_id: &RoundId, format: &BoxedFormat, error: &SerializedProtocolError, guilty_party: &Id, shared_randomness: &Bytes,
        shared_data: &<Self::Protocol as Protocol<Id>>::SharedData, message: EvidenceProtocolMessage, previous_messages: BTreeMap<RoundId, EvidenceProtocolMessage>,
        combined_echos: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>) -> (ret: Result<(), EvidenceError>) { unimplemented!() }
}
pub open spec fn info_dispatches<Id, P: Protocol<Id>, R: DynRoundInfo<Id, Protocol = P>>(o: DynRoundInfoObj<Id, P>, info: R) -> bool {
    &&& forall|f: BoxedFormat, m: DirectMessage| #[trigger] o.bad_direct(f, m) == info.bad_direct(f, m)
    &&& forall|f: BoxedFormat, m: EchoBroadcast| #[trigger] o.bad_echo(f, m) == info.bad_echo(f, m)
    &&& forall|f: BoxedFormat, m: NormalBroadcast| #[trigger] o.bad_normal(f, m) == info.bad_normal(f, m)
    &&& forall|i: RoundId, f: BoxedFormat, e: SerializedProtocolError, g: Id, rnd: Seq<u8>, s: P::SharedData, m: EvidenceProtocolMessage,
            p: BTreeMap<RoundId, EvidenceProtocolMessage>, c: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>, r: Result<(), EvidenceError>|
            #[trigger] o.proves(i, f, e, g, rnd, s, m, p, c, r) == info.proves(i, f, e, g, rnd, s, m, p, c, r)
}
impl<Id, P: Protocol<Id>, R: DynRoundInfo<Id, Protocol = P>> VBoxInto<DynRoundInfoObj<Id, P>> for R {
    open spec fn box_req(self) -> bool { true }
    open spec fn boxes(self, o: DynRoundInfoObj<Id, P>) -> bool { info_dispatches(o, self) }
    #[verifier::external_body]
    fn vbox(self) -> (ret: DynRoundInfoObj<Id, P>) { unimplemented!() }
}
impl<Id, P> DynRoundInfoObj<Id, P> {
    pub fn as_ref(&self) -> (ret: &Self) ensures *ret == *self { self }
}

=== member trait DynRound
/// the conditions under which the round's methods do not panic
spec fn ok(&self) -> bool;
spec fn tinfo(&self) -> TransitionInfo;
spec fn cinfo(&self) -> CommunicationInfo<Id>;
spec fn directs(&self, format: BoxedFormat, destination: Id, r: Result<(DirectMessage, Artifact), LocalError>) -> bool;
spec fn echoes(&self, format: BoxedFormat, r: Result<EchoBroadcast, LocalError>) -> bool;
spec fn normals(&self, format: BoxedFormat, r: Result<NormalBroadcast, LocalError>) -> bool;
spec fn receives(&self, format: BoxedFormat, from: Id, m: DynProtocolMessage, r: Result<Payload, BoxedReceiveError<Id>>) -> bool;
spec fn finalizes(self, payloads: BTreeMap<Id, Payload>, artifacts: BTreeMap<Id, Artifact>, r: Result<FinalizeOutcome<Id, Self::Protocol>, LocalError>) -> bool;
=== fn DynRound::transition_info
requires self.ok(),
ensures ret == self.tinfo(),
=== fn DynRound::communication_info
requires self.ok(),
ensures ret == self.cinfo(),
=== fn DynRound::make_direct_message
requires self.ok(),
ensures self.directs(*format, *destination, ret),
=== fn DynRound::make_echo_broadcast
requires self.ok(),
ensures self.echoes(*format, ret),
=== fn DynRound::make_normal_broadcast
requires self.ok(),
ensures self.normals(*format, ret),
=== fn DynRound::receive_message
requires self.ok(),
ensures self.receives(*format, *from, message, ret),
=== fn DynRound::finalize
requires self.ok(),
ensures self.finalizes(payloads, artifacts, ret),

=== member trait DynRoundInfo
spec fn bad_direct(&self, format: BoxedFormat, m: DirectMessage) -> bool;
spec fn bad_echo(&self, format: BoxedFormat, m: EchoBroadcast) -> bool;
spec fn bad_normal(&self, format: BoxedFormat, m: NormalBroadcast) -> bool;
spec fn proves(&self, round_id: RoundId, format: BoxedFormat, error: SerializedProtocolError, guilty_party: Id, rnd: Seq<u8>,
    shared_data: <Self::Protocol as Protocol<Id>>::SharedData, m: EvidenceProtocolMessage, p: BTreeMap<RoundId, EvidenceProtocolMessage>, c: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>, r: Result<(), EvidenceError>) -> bool;
=== fn DynRoundInfo::verify_direct_message_is_invalid
ensures ret is Ok <==> self.bad_direct(*format, *message), ret matches Err(e) ==> e is InvalidEvidence,
=== fn DynRoundInfo::verify_echo_broadcast_is_invalid
ensures ret is Ok <==> self.bad_echo(*format, *message), ret matches Err(e) ==> e is InvalidEvidence,
=== fn DynRoundInfo::verify_normal_broadcast_is_invalid
ensures ret is Ok <==> self.bad_normal(*format, *message), ret matches Err(e) ==> e is InvalidEvidence,
=== fn DynRoundInfo::verify_evidence
ensures self.proves(*round_id, *format, *error, *guilty_party, shared_randomness@, *shared_data, message, previous_messages, combined_echos, ret),

=== member BoxedReceiveError as From<LocalError>
open spec fn vfrom_spec(t: LocalError) -> Self { BoxedReceiveError::Local(t) }
=== member BoxedReceiveError as From<BoxedProtocolError<Id>>
open spec fn vfrom_spec(t: BoxedProtocolError<Id>) -> Self { BoxedReceiveError::Protocol(t) }
=== member BoxedReceiveError as From<DirectMessageError>
open spec fn vfrom_spec(t: DirectMessageError) -> Self { BoxedReceiveError::InvalidDirectMessage(t) }
=== member BoxedReceiveError as From<EchoBroadcastError>
open spec fn vfrom_spec(t: EchoBroadcastError) -> Self { BoxedReceiveError::InvalidEchoBroadcast(t) }
=== member BoxedReceiveError as From<NormalBroadcastError>
open spec fn vfrom_spec(t: NormalBroadcastError) -> Self { BoxedReceiveError::InvalidNormalBroadcast(t) }
=== fn BoxedReceiveError as From<LocalError>::from
@props P14 P08
=== fn BoxedReceiveError as From<BoxedProtocolError<Id>>::from
@props P14 P08
=== fn BoxedReceiveError as From<DirectMessageError>::from
@props P14 P08
=== fn BoxedReceiveError as From<EchoBroadcastError>::from
@props P14 P08
=== fn BoxedReceiveError as From<NormalBroadcastError>::from
@props P14 P08

=== raw typed rounds @props P14
/// The boxed error is the typed one.
pub open spec fn boxed_error<Id, R: Round<Id>>(e: R::ProtocolError, id: RoundId, b: BoxedProtocolError<Id>) -> bool {
    b.required_messages == e.req(id) && forall|f: BoxedFormat| #[trigger] error_bytes(b.error, f) == fser::<R::ProtocolError>(f, e)
}
pub open spec fn boxed_receive_error<Id, R: Round<Id>>(e: ReceiveError<Id, R>, id: RoundId, b: BoxedReceiveError<Id>) -> bool {
    match e {
        ReceiveError::Local(e) => b == BoxedReceiveError::<Id>::Local(e),
        ReceiveError::Unprovable(e) => b == BoxedReceiveError::<Id>::Unprovable(e),
        ReceiveError::Protocol(e) => b matches BoxedReceiveError::Protocol(p) && boxed_error::<Id, R>(e, id, p),
    }
}
pub open spec fn boxed_received<Id, R: Round<Id>>(t: Result<R::Payload, ReceiveError<Id, R>>, id: RoundId, r: Result<Payload, BoxedReceiveError<Id>>) -> bool {
    match t {
        Ok(p) => r matches Ok(q) && payload_value::<R::Payload>(q) == Some(p),
        Err(e) => r matches Err(b) && boxed_receive_error::<Id, R>(e, id, b),
    }
}
pub open spec fn some_received<Id, R: Round<Id>>(round: R, from: Id, m: ProtocolMessage<Id, R>, r: Result<Payload, BoxedReceiveError<Id>>) -> bool {
    exists|t: Result<R::Payload, ReceiveError<Id, R>>| #[trigger] round.receives(from, m, t) && boxed_received::<Id, R>(t, round.tinfo().id, r)
}
/// What a typed round makes of a message: it only sees well-formed parts, a malformed part is reported as such.
pub open spec fn typed_receives<Id, R: Round<Id>>(round: R, format: BoxedFormat, from: Id, m: DynProtocolMessage, r: Result<Payload, BoxedReceiveError<Id>>) -> bool {
    let d = part_value::<R::DirectMessage>(m.direct_message.0, format);
    let e = part_value::<R::EchoBroadcast>(m.echo_broadcast.0, format);
    let n = part_value::<R::NormalBroadcast>(m.normal_broadcast.0, format);
    if d is Some && e is Some && n is Some {
        some_received::<Id, R>(round, from, ProtocolMessage { direct_message: d->0, echo_broadcast: e->0, normal_broadcast: n->0 }, r)
    } else {
        match r {
            Err(BoxedReceiveError::InvalidDirectMessage(_)) => d is None,
            Err(BoxedReceiveError::InvalidEchoBroadcast(_)) => e is None,
            Err(BoxedReceiveError::InvalidNormalBroadcast(_)) => n is None,
            _ => false,
        }
    }
}
pub open spec fn typed_payloads<Id, T>(m: Map<Id, Payload>, t: Map<Id, T>) -> bool {
    t.dom() == m.dom() && forall|k: Id| #[trigger] m.contains_key(k) ==> payload_value::<T>(m[k]) == Some(t[k])
}
pub open spec fn typed_artifacts<Id, T>(m: Map<Id, Artifact>, t: Map<Id, T>) -> bool {
    t.dom() == m.dom() && forall|k: Id| #[trigger] m.contains_key(k) ==> artifact_value::<T>(m[k]) == Some(t[k])
}
pub open spec fn typed_finalizes<Id, R: Round<Id>>(round: R, payloads: BTreeMap<Id, Payload>, artifacts: BTreeMap<Id, Artifact>, r: Result<FinalizeOutcome<Id, R::Protocol>, LocalError>) -> bool {
    if (forall|k: Id| #[trigger] payloads@.contains_key(k) ==> payload_value::<R::Payload>(payloads@[k]) is Some)
        && (forall|k: Id| #[trigger] artifacts@.contains_key(k) ==> artifact_value::<R::Artifact>(artifacts@[k]) is Some) {
        exists|p: BTreeMap<Id, R::Payload>, a: BTreeMap<Id, R::Artifact>|
            typed_payloads(payloads@, p@) && typed_artifacts(artifacts@, a@) && #[trigger] round.finalizes(p, a, r)
    } else {
        r is Err
    }
}
=== fn Payload::new
@props P14
ensures payload_value::<T>(ret) == Some(payload),
=== fn Payload::empty
@props P14
ensures payload_value::<()>(ret) == Some(()),
=== fn Payload::downcast
@props P14
ensures match ret { Ok(t) => payload_value::<T>(self) == Some(t), Err(_) => payload_value::<T>(self) is None },
=== fn Artifact::new
@props P14
ensures artifact_value::<T>(ret) == Some(artifact),
=== fn Artifact::downcast
@props P14
ensures match ret { Ok(t) => artifact_value::<T>(self) == Some(t), Err(_) => artifact_value::<T>(self) is None },
=== member trait DynProtocolError
spec fn bytes_in(self, format: BoxedFormat) -> Seq<u8>;
=== fn DynProtocolError::serialize
ensures ret matches Ok(s) ==> s.0@ == self.bytes_in(*format),
=== member T as DynProtocolError
open spec fn bytes_in(self, format: BoxedFormat) -> Seq<u8> { fser::<T>(format, self) }
=== fn T as DynProtocolError::serialize
@props P09
=== fn BoxedProtocolError::new
@props P09 P14
ensures boxed_error::<Id, R>(error, *round_id, ret),
=== fn BoxedProtocolError::as_ref
ensures *ret == self.error,
=== fn BoxedProtocolError::into_inner
@props P09
ensures ret == self.error,
=== fn BoxedProtocolError::group_under
@props P16 P09
ensures ret.error == self.error, grouped_required(self.required_messages, ret.required_messages, group_num),
=== fn BoxedProtocolError::required_messages
@props P09
ensures *ret == self.required_messages,
=== fn SerializedProtocolError::deserialize
@props P09 P11
ensures match ret { Ok(e) => fdeser::<R::ProtocolError>(*format, self.0@) == Some(e), Err(_) => fdeser::<R::ProtocolError>(*format, self.0@) is None },
=== fn BoxedReceiveError::new
@props P14 P08
ensures boxed_receive_error::<Id, R>(error, *round_id, ret),
=== fn BoxedReceiveError::group_under
@props P16
ensures match self {
    BoxedReceiveError::Protocol(e) => ret matches BoxedReceiveError::Protocol(g) && g.error == e.error && grouped_required(e.required_messages, g.required_messages, group_num),
    e => ret == e },
=== fn RoundWrapper::new
@props P14
ensures ret.round == round,
=== member RoundWrapper as DynRound
open spec fn ok(&self) -> bool { true }
open spec fn tinfo(&self) -> TransitionInfo { self.round.tinfo() }
open spec fn cinfo(&self) -> CommunicationInfo<Id> { self.round.cinfo() }
open spec fn directs(&self, format: BoxedFormat, destination: Id, r: Result<(DirectMessage, Artifact), LocalError>) -> bool {
    exists|t: Result<(R::DirectMessage, R::Artifact), LocalError>| #[trigger] self.round.directs(destination, t) && match t {
        Ok(v) => match r {
            Ok(m) => makes_part::<R::DirectMessage, DirectMessage>(v.0, format, Ok(m.0)) && artifact_value::<R::Artifact>(m.1) == Some(v.1),
            Err(e) => makes_part::<R::DirectMessage, DirectMessage>(v.0, format, Err(e)) },
        Err(e) => r == Err::<(DirectMessage, Artifact), LocalError>(e),
    }
}
open spec fn echoes(&self, format: BoxedFormat, r: Result<EchoBroadcast, LocalError>) -> bool {
    exists|t: Result<R::EchoBroadcast, LocalError>| #[trigger] self.round.echoes(t) && match t {
        Ok(v) => makes_part::<R::EchoBroadcast, EchoBroadcast>(v, format, r),
        Err(e) => r == Err::<EchoBroadcast, LocalError>(e),
    }
}
open spec fn normals(&self, format: BoxedFormat, r: Result<NormalBroadcast, LocalError>) -> bool {
    exists|t: Result<R::NormalBroadcast, LocalError>| #[trigger] self.round.normals(t) && match t {
        Ok(v) => makes_part::<R::NormalBroadcast, NormalBroadcast>(v, format, r),
        Err(e) => r == Err::<NormalBroadcast, LocalError>(e),
    }
}
open spec fn receives(&self, format: BoxedFormat, from: Id, m: DynProtocolMessage, r: Result<Payload, BoxedReceiveError<Id>>) -> bool {
    typed_receives::<Id, R>(self.round, format, from, m, r)
}
open spec fn finalizes(self, payloads: BTreeMap<Id, Payload>, artifacts: BTreeMap<Id, Artifact>, r: Result<FinalizeOutcome<Id, R::Protocol>, LocalError>) -> bool {
    typed_finalizes::<Id, R>(self.round, payloads, artifacts, r)
}
=== fn RoundWrapper as DynRound::transition_info
@props P14 P15
=== fn RoundWrapper as DynRound::communication_info
@props P14
=== fn RoundWrapper as DynRound::make_direct_message
@props P14 P18
=== fn RoundWrapper as DynRound::make_echo_broadcast
@props P14 P18
=== fn RoundWrapper as DynRound::make_normal_broadcast
@props P14 P18
=== fn RoundWrapper as DynRound::receive_message
@props P14 P08
=== fn RoundWrapper as DynRound::receive_message | proof tail
proof {
let d = part_value::<R::DirectMessage>(message.direct_message.0, *format);
let e = part_value::<R::EchoBroadcast>(message.echo_broadcast.0, *format);
let n = part_value::<R::NormalBroadcast>(message.normal_broadcast.0, *format);
assert(d == Some(direct_message) && e == Some(echo_broadcast) && n == Some(normal_broadcast));
assert(self.round.receives(*from, ProtocolMessage { direct_message: direct_message, echo_broadcast: echo_broadcast, normal_broadcast: normal_broadcast }, Ok(payload)));
assert forall|q: Payload| payload_value::<R::Payload>(q) == Some(payload) implies #[trigger] boxed_received::<Id, R>(Ok(payload), self.round.tinfo().id, Ok(q)) by {}
assert forall|q: Payload| payload_value::<R::Payload>(q) == Some(payload) implies #[trigger] some_received::<Id, R>(self.round, *from, ProtocolMessage { direct_message: direct_message, echo_broadcast: echo_broadcast, normal_broadcast: normal_broadcast }, Ok(q)) by {}
assert(ProtocolMessage::<Id, R> { direct_message: direct_message, echo_broadcast: echo_broadcast, normal_broadcast: normal_broadcast } == ProtocolMessage::<Id, R> { direct_message: d->0, echo_broadcast: e->0, normal_broadcast: n->0 });
assert forall|q: Payload| payload_value::<R::Payload>(q) == Some(payload) implies #[trigger] some_received::<Id, R>(self.round, *from, ProtocolMessage { direct_message: d->0, echo_broadcast: e->0, normal_broadcast: n->0 }, Ok(q)) by {}
}
=== fn RoundWrapper as DynRound::finalize
@props P14 P06
=== fn RoundWrapper as DynRound::finalize | proof start
proof {
assert forall|q: Seq<(Id, Payload)>, s: Seq<Result<(Id, R::Payload), LocalError>>, r: Result<BTreeMap<Id, R::Payload>, LocalError>|
    #![trigger map_items(payloads@, q), VCollect::collected(s, r)]
    map_items(payloads@, q) && s.len() == q.len() && VCollect::collected(s, r)
    && (forall|i: int| #![trigger s[i]] #![trigger q[i]] 0 <= i < q.len() ==> match s[i] { Ok(x) => x.0 == q[i].0 && payload_value::<R::Payload>(q[i].1) == Some(x.1), Err(_) => payload_value::<R::Payload>(q[i].1) is None })
    implies match r { Ok(p) => typed_payloads(payloads@, p@), Err(_) => exists|k: Id| #[trigger] payloads@.contains_key(k) && payload_value::<R::Payload>(payloads@[k]) is None } by {
    match r {
        Ok(p) => {
            let t = Seq::new(s.len(), |i: int| s[i]->Ok_0);
            assert(map_collected(t, p@));
            assert forall|k: Id| payloads@.contains_key(k) implies #[trigger] p@.contains_key(k) by {
                let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == k;
                assert(s[i] is Ok && t[i].0 == k);
            }
            assert(p@.dom() =~= payloads@.dom());
        },
        Err(e) => {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<(Id, R::Payload), LocalError>(e);
            assert(payloads@.contains_key(q[i].0));
        },
    }
}
assert forall|q: Seq<(Id, Artifact)>, s: Seq<Result<(Id, R::Artifact), LocalError>>, r: Result<BTreeMap<Id, R::Artifact>, LocalError>|
    #![trigger map_items(artifacts@, q), VCollect::collected(s, r)]
    map_items(artifacts@, q) && s.len() == q.len() && VCollect::collected(s, r)
    && (forall|i: int| #![trigger s[i]] #![trigger q[i]] 0 <= i < q.len() ==> match s[i] { Ok(x) => x.0 == q[i].0 && artifact_value::<R::Artifact>(q[i].1) == Some(x.1), Err(_) => artifact_value::<R::Artifact>(q[i].1) is None })
    implies match r { Ok(p) => typed_artifacts(artifacts@, p@), Err(_) => exists|k: Id| #[trigger] artifacts@.contains_key(k) && artifact_value::<R::Artifact>(artifacts@[k]) is None } by {
    match r {
        Ok(p) => {
            let t = Seq::new(s.len(), |i: int| s[i]->Ok_0);
            assert(map_collected(t, p@));
            assert forall|k: Id| artifacts@.contains_key(k) implies #[trigger] p@.contains_key(k) by {
                let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == k;
                assert(s[i] is Ok && t[i].0 == k);
            }
            assert(p@.dom() =~= artifacts@.dom());
        },
        Err(e) => {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<(Id, R::Artifact), LocalError>(e);
            assert(artifacts@.contains_key(q[i].0));
        },
    }
}
}
=== fn RoundWrapper as DynRound::finalize | closure 0
|$0: (Id, Payload)| -> (o: Result<(Id, R::Payload), LocalError>) ensures match o { Ok(x) => x.0 == $0.0 && payload_value::<R::Payload>($0.1) == Some(x.1), Err(_) => payload_value::<R::Payload>($0.1) is None }
=== fn RoundWrapper as DynRound::finalize | closure 1
|$0: (Id, Artifact)| -> (o: Result<(Id, R::Artifact), LocalError>) ensures match o { Ok(x) => x.0 == $0.0 && artifact_value::<R::Artifact>($0.1) == Some(x.1), Err(_) => artifact_value::<R::Artifact>($0.1) is None }
=== fn BoxedRound::new
@props P14
ensures dispatches(boxed(ret), RoundWrapper { round }), made_of(boxed(ret), RoundWrapper { round }), ret.0 is Typed, obj_type(boxed(ret)) == type_id_of::<RoundWrapper<R>>(),
=== fn BoxedRound::new_dynamic
@props P06
requires round.ok(),
ensures dispatches(boxed(ret), round), made_of(boxed(ret), round),
=== fn BoxedRound::as_ref
@props P06
ensures *ret == boxed(*self),
=== fn BoxedRound::into_inner
@props P06
ensures ret == boxed(self),
=== fn BoxedTypedRound::new
@props P14
ensures dispatches(ret.0, RoundWrapper { round }), made_of(ret.0, RoundWrapper { round }), obj_type(ret.0) == type_id_of::<RoundWrapper<R>>(),
=== fn RoundWrapper::into_inner
@props P19
ensures ret == self.round,
=== fn BoxedRound::as_typed
@props P19
ensures match self.0 { BoxedRoundEnum::Typed(t) => ret == Ok::<&BoxedTypedRound<Id, P>, LocalError>(&t), _ => ret is Err },
=== fn BoxedRound::into_typed
@props P19
ensures match self.0 { BoxedRoundEnum::Typed(t) => ret == Ok::<BoxedTypedRound<Id, P>, LocalError>(t), _ => ret is Err },
=== fn BoxedTypedRound::type_id
@props P19
ensures ret == obj_type(self.0),
=== fn BoxedTypedRound::type_id_for
@props P19
ensures ret == type_id_of::<RoundWrapper<R>>(),
=== fn BoxedTypedRound::try_downcast
@props P19
ensures match ret { Ok(t) => made_of(self.0, RoundWrapper { round: t }), Err(b) => b == self && obj_type(self.0) != type_id_of::<RoundWrapper<T>>() },
=== fn BoxedTypedRound::downcast
@props P19
ensures match ret { Ok(t) => made_of(self.0, RoundWrapper { round: t }), Err(_) => obj_type(self.0) != type_id_of::<RoundWrapper<T>>() },
=== fn BoxedTypedRound::as_ref
ensures *ret == self.0,
=== fn BoxedTypedRound::into_inner
ensures ret == self.0,
=== member RoundInfoObject as DynRoundInfo
open spec fn bad_direct(&self, format: BoxedFormat, m: DirectMessage) -> bool { part_value::<R::DirectMessage>(m.0, format) is None }
open spec fn bad_echo(&self, format: BoxedFormat, m: EchoBroadcast) -> bool { part_value::<R::EchoBroadcast>(m.0, format) is None }
open spec fn bad_normal(&self, format: BoxedFormat, m: NormalBroadcast) -> bool { part_value::<R::NormalBroadcast>(m.0, format) is None }
open spec fn proves(&self, round_id: RoundId, format: BoxedFormat, error: SerializedProtocolError, guilty_party: Id, rnd: Seq<u8>,
    shared_data: <R::Protocol as Protocol<Id>>::SharedData, m: EvidenceProtocolMessage, p: BTreeMap<RoundId, EvidenceProtocolMessage>, c: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>, r: Result<(), EvidenceError>) -> bool {
    match fdeser::<R::ProtocolError>(format, error.0@) {
        Some(e) => e.proves(round_id, guilty_party, rnd, shared_data, EvidenceMessages { message: m, previous_messages: p, combined_echos: c, format: &format, phantom: fn_phantom::<R>() }, r),
        None => r matches Err(x) && x is InvalidEvidence,
    }
}
=== fn RoundInfoObject as DynRoundInfo::verify_direct_message_is_invalid
@props P14 P10 P09
=== fn RoundInfoObject as DynRoundInfo::verify_echo_broadcast_is_invalid
@props P14 P10 P09
=== fn RoundInfoObject as DynRoundInfo::verify_normal_broadcast_is_invalid
@props P14 P10 P09
=== fn RoundInfoObject as DynRoundInfo::verify_evidence
@props P09 P10 P11
=== fn RoundInfo::new
@props P14 P10
ensures info_dispatches(infod(ret), RoundInfoObject::<R>(fn_phantom::<R>())),
=== fn RoundInfo::new_obj
@props P16
ensures info_dispatches(infod(ret), round),
=== fn RoundInfo::as_ref
ensures *ret == infod(*self),
=== fn EvidenceMessages::new
@props P09 P10
ensures ret == (EvidenceMessages { message, previous_messages, combined_echos, format, phantom: fn_phantom::<R>() }),
=== fn CommunicationInfo::regular
@props P18
ensures ret.message_destinations == *other_parties, ret.expecting_messages_from == *other_parties, ret.echo_round_participation is Default,

=== fn default_make_direct_message
@props P14
ensures ret is Ok <==> same_type::<NoMessage, VSelf::DirectMessage>() && same_type::<NoArtifact, VSelf::Artifact>(),
    ret matches Ok(x) ==> x == (no_value::<VSelf::DirectMessage>(), cast_value::<NoArtifact, VSelf::Artifact>(NoArtifact(PhantomData))),
=== fn Round::make_direct_message
@detached default_make_direct_message
ensures self.directs(*destination, ret),
=== fn default_make_echo_broadcast
@props P14
ensures ret == (if same_type::<NoMessage, VSelf::EchoBroadcast>() { Ok::<VSelf::EchoBroadcast, LocalError>(no_value::<VSelf::EchoBroadcast>()) } else { ret }), ret is Ok <==> same_type::<NoMessage, VSelf::EchoBroadcast>(),
=== fn Round::make_echo_broadcast
@detached default_make_echo_broadcast
ensures self.echoes(ret),
=== fn default_make_normal_broadcast
@props P14
ensures ret == (if same_type::<NoMessage, VSelf::NormalBroadcast>() { Ok::<VSelf::NormalBroadcast, LocalError>(no_value::<VSelf::NormalBroadcast>()) } else { ret }), ret is Ok <==> same_type::<NoMessage, VSelf::NormalBroadcast>(),
=== fn Round::make_normal_broadcast
@detached default_make_normal_broadcast
ensures self.normals(ret),
=== member trait Round
spec fn tinfo(&self) -> TransitionInfo;
spec fn cinfo(&self) -> CommunicationInfo<Id>;
spec fn directs(&self, destination: Id, r: Result<(Self::DirectMessage, Self::Artifact), LocalError>) -> bool;
spec fn echoes(&self, r: Result<Self::EchoBroadcast, LocalError>) -> bool;
spec fn normals(&self, r: Result<Self::NormalBroadcast, LocalError>) -> bool;
spec fn receives(&self, from: Id, m: ProtocolMessage<Id, Self>, r: Result<Self::Payload, ReceiveError<Id, Self>>) -> bool;
spec fn finalizes(self, payloads: BTreeMap<Id, Self::Payload>, artifacts: BTreeMap<Id, Self::Artifact>, r: Result<FinalizeOutcome<Id, Self::Protocol>, LocalError>) -> bool;
=== fn Round::transition_info
ensures ret == self.tinfo(),
=== fn Round::communication_info
ensures ret == self.cinfo(),
=== fn Round::receive_message
ensures self.receives(*from, message_parts, ret),
=== fn Round::finalize
ensures self.finalizes(payloads, artifacts, ret),
=== member trait Protocol
spec fn info(round_id: RoundId) -> Option<RoundInfo<Id, Self>>;
=== fn Protocol::round_info
ensures ret == Self::info(*round_id),
=== raw phantoms
pub open spec fn fn_phantom<R>() -> PhantomData<R> { PhantomData }
pub open spec fn infod<Id, P>(b: RoundInfo<Id, P>) -> DynRoundInfoObj<Id, P> { b.0 }
=== member trait EntryPoint
spec fn entry_id() -> RoundId;
spec fn makes(self, rnd: Seq<u8>, id: Id, r: Result<BoxedRound<Id, Self::Protocol>, LocalError>) -> bool;
=== fn EntryPoint::entry_round_id
@trusted default of a method implemented by the user
ensures ret == Self::entry_id(),
=== fn EntryPoint::make_round
ensures self.makes(shared_randomness@, *id, ret),

=== fn ReceiveError::map
@props P19
requires forall|e: R::ProtocolError| #[trigger] f.requires((e,)),
ensures match self {
    ReceiveError::Local(e) => ret == ReceiveError::<Id, NR>::Local(e),
    ReceiveError::Unprovable(e) => ret == ReceiveError::<Id, NR>::Unprovable(e),
    ReceiveError::Protocol(e) => ret matches ReceiveError::Protocol(x) && f.ensures((e,), x) },
