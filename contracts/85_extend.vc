=== file manul/src/dev/extend.rs
=== raw extended rounds @props P19
/// A boxed object of a type implementing `DynRoundExtension`.
#[verifier::external_body]
#[verifier::reject_recursive_types(Id)]
#[verifier::reject_recursive_types(P)]
pub struct DynRoundExtensionObj<Id, P> { p: PhantomData<(Id, P)> }
/// The round type that the extension is for.
pub uninterp spec fn ext_for<Id, P>(o: DynRoundExtensionObj<Id, P>) -> TypeId;
pub uninterp spec fn ext_made_of<Id, P, E>(o: DynRoundExtensionObj<Id, P>, e: E) -> bool;
pub uninterp spec fn ext_extends<Id, P: Protocol<Id>>(o: DynRoundExtensionObj<Id, P>, round: BoxedRound<Id, P>, extensions: BTreeMap<TypeId, DynRoundExtensionObj<Id, P>>, r: Option<BoxedRound<Id, P>>) -> bool;
impl<Id: PartyId, P: Protocol<Id>> DynRoundExtension<Id, P> for DynRoundExtensionObj<Id, P> {
    open spec fn round_type(&self) -> TypeId { ext_for(*self) }
    open spec fn extends(self, round: BoxedRound<Id, P>, extensions: BTreeMap<TypeId, DynRoundExtensionObj<Id, P>>, r: Option<BoxedRound<Id, P>>) -> bool { ext_extends(self, round, extensions, r) }
    open spec fn same(&self, o: DynRoundExtensionObj<Id, P>) -> bool { o == *self }
    #[verifier::external_body]
    fn clone_boxed(&self) -> (ret: DynRoundExtensionObj<Id, P>) { unimplemented!() }
    #[verifier::external_body]
    fn extend_round(self, round: BoxedRound<Id, P>, extensions: BTreeMap<TypeId, DynRoundExtensionObj<Id, P>>) -> (ret: Option<BoxedRound<Id, P>>) { unimplemented!() }
}
impl<Id: PartyId, P: Protocol<Id>, E: DynRoundExtension<Id, P>> VBoxInto<DynRoundExtensionObj<Id, P>> for E {
    open spec fn box_req(self) -> bool { true }
    open spec fn boxes(self, o: DynRoundExtensionObj<Id, P>) -> bool {
        o.round_type() == self.round_type() && ext_made_of(o, self)
        && forall|b: BoxedRound<Id, P>, x: BTreeMap<TypeId, DynRoundExtensionObj<Id, P>>, r: Option<BoxedRound<Id, P>>| #[trigger] o.extends(b, x, r) == self.extends(b, x, r)
    }
    #[verifier::external_body]
    fn vbox(self) -> (ret: DynRoundExtensionObj<Id, P>) { unimplemented!() }
}
/// Every extension is registered for the type of round it extends.
pub open spec fn exts_ok<Id, P>(m: Map<TypeId, DynRoundExtensionObj<Id, P>>) -> bool {
    forall|t: TypeId| #[trigger] m.contains_key(t) ==> ext_for(m[t]) == t
}
/// The round as the extended protocol presents it.
pub open spec fn wraps<Id: PartyId, P: Protocol<Id>>(round: BoxedRound<Id, P>, extensions: BTreeMap<TypeId, DynRoundExtensionObj<Id, P>>, r: Result<BoxedRound<Id, P>, LocalError>) -> bool {
    if !(round.0 is Typed) {
        r is Err
    } else if extensions@.contains_key(obj_type(boxed(round))) {
        r matches Ok(b) && ext_extends(extensions@[obj_type(boxed(round))], round, extensions, Some(b))
    } else {
        r matches Ok(b) && made_of(boxed(b), PassthroughRound { round, extensions })
    }
}
/// What finalizing gives in the extended protocol, if it gives `q` in the original one.
pub open spec fn wraps_outcome<Id: PartyId, P: Protocol<Id>>(q: Result<FinalizeOutcome<Id, P>, LocalError>, extensions: BTreeMap<TypeId, DynRoundExtensionObj<Id, P>>, r: Result<FinalizeOutcome<Id, P>, LocalError>) -> bool {
    match q {
        Err(e) => r == q,
        Ok(FinalizeOutcome::Result(v)) => r == q,
        Ok(FinalizeOutcome::AnotherRound(n)) => exists|w: Result<BoxedRound<Id, P>, LocalError>| #[trigger] wraps(n, extensions, w) && match w {
            Ok(b) => r == Ok::<FinalizeOutcome<Id, P>, LocalError>(FinalizeOutcome::AnotherRound(b)),
            Err(e) => r == Err::<FinalizeOutcome<Id, P>, LocalError>(e),
        },
    }
}
=== member trait RoundExtension
spec fn directs(&self, round: Self::Round, destination: Id, r: Result<(<Self::Round as Round<Id>>::DirectMessage, <Self::Round as Round<Id>>::Artifact), LocalError>) -> bool;
spec fn echoes(&self, round: Self::Round, r: Result<<Self::Round as Round<Id>>::EchoBroadcast, LocalError>) -> bool;
spec fn normals(&self, round: Self::Round, r: Result<<Self::Round as Round<Id>>::NormalBroadcast, LocalError>) -> bool;
spec fn finalizes(&self, round: Self::Round, payloads: BTreeMap<Id, <Self::Round as Round<Id>>::Payload>, artifacts: BTreeMap<Id, <Self::Round as Round<Id>>::Artifact>, r: Result<FinalizeOutcome<Id, <Self::Round as Round<Id>>::Protocol>, LocalError>) -> bool;
=== fn RoundExtension::make_normal_broadcast
@detached default_ext_normal
ensures self.normals(*round, ret),
=== fn RoundExtension::make_echo_broadcast
@detached default_ext_echo
ensures self.echoes(*round, ret),
=== fn RoundExtension::make_direct_message
@detached default_ext_direct
ensures self.directs(*round, *destination, ret),
=== fn RoundExtension::finalize
@detached default_ext_finalize
ensures self.finalizes(round, payloads, artifacts, ret),
=== fn default_ext_normal
@props P19
ensures round.normals(ret),
=== fn default_ext_echo
@props P19
ensures round.echoes(ret),
=== fn default_ext_direct
@props P19
ensures round.directs(*destination, ret),
=== fn default_ext_finalize
@props P19
ensures round.finalizes(payloads, artifacts, ret),
=== member ExtendedProtocolError as ProtocolError
type SharedData = <<Ext::Round as Round<Id>>::Protocol as Protocol<Id>>::SharedData;
open spec fn req(&self, round_id: RoundId) -> RequiredMessages { self.0.req(round_id) }
open spec fn proves(&self, round_id: RoundId, from: Id, rnd: Seq<u8>, shared_data: Self::SharedData, m: EvidenceMessages<Id, Self::Round>, r: Result<(), EvidenceError>) -> bool {
    self.0.proves(round_id, from, rnd, shared_data, EvidenceMessages { message: m.message, previous_messages: m.previous_messages, combined_echos: m.combined_echos, format: m.format, phantom: fn_phantom::<Ext::Round>() }, r)
}
=== fn ExtendedProtocolError as ProtocolError::required_messages
@props P19
=== fn ExtendedProtocolError as ProtocolError::verify_evidence
@props P19
=== fn ExtendedProtocolError as ProtocolError::description
@props P19
=== member ExtendedRound as Round
open spec fn tinfo(&self) -> TransitionInfo { self.round.tinfo() }
open spec fn cinfo(&self) -> CommunicationInfo<Id> { self.round.cinfo() }
open spec fn directs(&self, destination: Id, r: Result<(Self::DirectMessage, Self::Artifact), LocalError>) -> bool { self.extension.directs(self.round, destination, r) }
open spec fn echoes(&self, r: Result<Self::EchoBroadcast, LocalError>) -> bool { self.extension.echoes(self.round, r) }
open spec fn normals(&self, r: Result<Self::NormalBroadcast, LocalError>) -> bool { self.extension.normals(self.round, r) }
open spec fn receives(&self, from: Id, m: ProtocolMessage<Id, Self>, r: Result<Self::Payload, ReceiveError<Id, Self>>) -> bool {
    exists|q: Result<Self::Payload, ReceiveError<Id, Ext::Round>>|
        #[trigger] self.round.receives(from, ProtocolMessage { echo_broadcast: m.echo_broadcast, normal_broadcast: m.normal_broadcast, direct_message: m.direct_message }, q) && extended_received::<Id, Ext>(q, r)
}
open spec fn finalizes(self, payloads: BTreeMap<Id, Self::Payload>, artifacts: BTreeMap<Id, Self::Artifact>, r: Result<FinalizeOutcome<Id, Self::Protocol>, LocalError>) -> bool {
    exists|q: Result<FinalizeOutcome<Id, Self::Protocol>, LocalError>| #[trigger] self.extension.finalizes(self.round, payloads, artifacts, q) && wraps_outcome(q, self.extensions, r)
}
=== raw extended rounds receive @props P19
pub open spec fn extended_received<Id: PartyId, Ext: RoundExtension<Id>>(q: Result<<Ext::Round as Round<Id>>::Payload, ReceiveError<Id, Ext::Round>>, r: Result<<Ext::Round as Round<Id>>::Payload, ReceiveError<Id, ExtendedRound<Id, Ext>>>) -> bool {
    match q {
        Ok(p) => r matches Ok(x) && x == p,
        Err(ReceiveError::Local(e)) => r matches Err(ReceiveError::Local(x)) && x == e,
        Err(ReceiveError::Unprovable(e)) => r matches Err(ReceiveError::Unprovable(x)) && x == e,
        Err(ReceiveError::Protocol(e)) => r matches Err(ReceiveError::Protocol(x)) && x == ExtendedProtocolError::<Id, Ext>(e),
    }
}
=== fn ExtendedRound as Round::transition_info
@props P19
=== fn ExtendedRound as Round::communication_info
@props P19
=== fn ExtendedRound as Round::receive_message
@detached extended_receive
=== fn extended_receive
@props P19
ensures exists|q: Result<<Ext::Round as Round<Id>>::Payload, ReceiveError<Id, Ext::Round>>|
    #[trigger] this.round.receives(*from, ProtocolMessage { echo_broadcast: message.echo_broadcast, normal_broadcast: message.normal_broadcast, direct_message: message.direct_message }, q) && extended_received::<Id, Ext>(q, ret),
=== fn extended_receive | closure 0
|$0: <Ext::Round as Round<Id>>::ProtocolError| -> (o: ExtendedProtocolError<Id, Ext>) ensures o == ExtendedProtocolError::<Id, Ext>($0)
=== fn ExtendedRound as Round::make_normal_broadcast
@props P19
=== fn ExtendedRound as Round::make_echo_broadcast
@props P19
=== fn ExtendedRound as Round::make_direct_message
@props P19
=== fn ExtendedRound as Round::finalize
@detached extended_finalize
=== fn extended_finalize
@props P19
requires exts_ok(this.extensions@),
ensures exists|q: Result<FinalizeOutcome<Id, <Ext::Round as Round<Id>>::Protocol>, LocalError>| #[trigger] this.extension.finalizes(this.round, payloads, artifacts, q) && wraps_outcome(q, this.extensions, ret),
=== member trait DynRoundExtension
spec fn round_type(&self) -> TypeId;
spec fn extends(self, round: BoxedRound<Id, P>, extensions: BTreeMap<TypeId, DynRoundExtensionObj<Id, P>>, r: Option<BoxedRound<Id, P>>) -> bool;
spec fn same(&self, o: DynRoundExtensionObj<Id, P>) -> bool;
=== fn DynRoundExtension::clone_boxed
ensures self.same(ret),
=== fn DynRoundExtension::extend_round
requires exts_ok(extensions@),
ensures self.extends(round, extensions, ret),
    round.0 is Typed && obj_type(boxed(round)) == self.round_type() ==> ret is Some,
=== fn RoundExtensionWrapper::new
ensures ret.0 == extension,
=== member RoundExtensionWrapper as DynRoundExtension
open spec fn round_type(&self) -> TypeId { type_id_of::<RoundWrapper<Ext::Round>>() }
open spec fn extends(self, round: BoxedRound<Id, <Ext::Round as Round<Id>>::Protocol>, extensions: BTreeMap<TypeId, DynRoundExtensionObj<Id, <Ext::Round as Round<Id>>::Protocol>>, r: Option<BoxedRound<Id, <Ext::Round as Round<Id>>::Protocol>>) -> bool {
    r matches Some(b) ==> exists|t: Ext::Round| made_of(boxed(round), RoundWrapper { round: t }) && #[trigger] made_of(boxed(b), RoundWrapper { round: ExtendedRound { round: t, extension: self.0, extensions } })
}
open spec fn same(&self, o: DynRoundExtensionObj<Id, <Ext::Round as Round<Id>>::Protocol>) -> bool { ext_made_of(o, *self) }
=== fn RoundExtensionWrapper as DynRoundExtension::clone_boxed
@detached wrapper_clone_boxed
=== fn wrapper_clone_boxed
@props P19
ensures ext_made_of(ret, *this),
=== fn RoundExtensionWrapper as DynRoundExtension::extend_round
@props P19
=== member PassthroughRound as DynRound
open spec fn ok(&self) -> bool { exts_ok(self.extensions@) }
open spec fn tinfo(&self) -> TransitionInfo { boxed(self.round).tinfo() }
open spec fn cinfo(&self) -> CommunicationInfo<Id> { boxed(self.round).cinfo() }
open spec fn directs(&self, format: BoxedFormat, destination: Id, r: Result<(DirectMessage, Artifact), LocalError>) -> bool { boxed(self.round).directs(format, destination, r) }
open spec fn echoes(&self, format: BoxedFormat, r: Result<EchoBroadcast, LocalError>) -> bool { boxed(self.round).echoes(format, r) }
open spec fn normals(&self, format: BoxedFormat, r: Result<NormalBroadcast, LocalError>) -> bool { boxed(self.round).normals(format, r) }
open spec fn receives(&self, format: BoxedFormat, from: Id, m: DynProtocolMessage, r: Result<Payload, BoxedReceiveError<Id>>) -> bool { boxed(self.round).receives(format, from, m, r) }
open spec fn finalizes(self, payloads: BTreeMap<Id, Payload>, artifacts: BTreeMap<Id, Artifact>, r: Result<FinalizeOutcome<Id, P>, LocalError>) -> bool {
    exists|q: Result<FinalizeOutcome<Id, P>, LocalError>| #[trigger] boxed(self.round).finalizes(payloads, artifacts, q) && wraps_outcome(q, self.extensions, r)
}
=== fn PassthroughRound as DynRound::finalize
@detached passthrough_finalize
=== fn passthrough_finalize
@props P19
requires exts_ok(this.extensions@),
ensures exists|q: Result<FinalizeOutcome<Id, P>, LocalError>| #[trigger] boxed(this.round).finalizes(payloads, artifacts, q) && wraps_outcome(q, this.extensions, ret),
=== fn PassthroughRound as DynRound::transition_info
@props P19
=== fn PassthroughRound as DynRound::communication_info
@props P19
=== fn PassthroughRound as DynRound::make_direct_message
@props P19
=== fn PassthroughRound as DynRound::make_echo_broadcast
@props P19
=== fn PassthroughRound as DynRound::make_normal_broadcast
@props P19
=== fn PassthroughRound as DynRound::receive_message
@props P19
=== fn wrap_round
@props P19
requires exts_ok(extensions@),
ensures wraps(round, extensions, ret),
=== fn ExtendableEntryPoint::new
@props P19
ensures ret.entry_point == entry_point, ret.extensions@ == Map::<TypeId, DynRoundExtensionObj<Id, EP::Protocol>>::empty(), exts_ok(ret.extensions@),
=== fn ExtendableEntryPoint::with_extension
@props P19
requires exts_ok(self.extensions@),
ensures ret.entry_point == self.entry_point, exts_ok(ret.extensions@), extended_by(self.extensions@, ret.extensions@, extension),
=== fn ExtendableEntryPoint::extend
@props P19
requires exts_ok(old(self).extensions@),
ensures final(self).entry_point == old(self).entry_point, exts_ok(final(self).extensions@), extended_by(old(self).extensions@, final(self).extensions@, extension),
=== raw registered extensions @props P19
/// The extension is registered for its type of round, in place of an earlier one for it, and nothing else is changed.
pub open spec fn extended_by<Id: PartyId, P: Protocol<Id>, Ext: RoundExtension<Id>>(a: Map<TypeId, DynRoundExtensionObj<Id, P>>, b: Map<TypeId, DynRoundExtensionObj<Id, P>>, e: Ext) -> bool
    where Ext::Round: Round<Id, Protocol = P>
{
    let t = type_id_of::<RoundWrapper<Ext::Round>>();
    b.contains_key(t) && b == a.insert(t, b[t]) && RoundExtensionWrapper(e).boxes(b[t])
}
=== member ExtendableEntryPoint as EntryPoint
open spec fn entry_id() -> RoundId { EP::entry_id() }
open spec fn makes(self, rnd: Seq<u8>, id: Id, r: Result<BoxedRound<Id, Self::Protocol>, LocalError>) -> bool {
    exists|q: Result<BoxedRound<Id, Self::Protocol>, LocalError>| #[trigger] self.entry_point.makes(rnd, id, q) && match q {
        Ok(n) => wraps(n, self.extensions, r),
        Err(e) => r == q,
    }
}
=== fn ExtendableEntryPoint as EntryPoint::entry_round_id
@props P19
=== fn ExtendableEntryPoint as EntryPoint::make_round
@detached extendable_make_round
=== fn extendable_make_round
@props P19
requires exts_ok(this.extensions@),
ensures exists|q: Result<BoxedRound<Id, EP::Protocol>, LocalError>| #[trigger] this.entry_point.makes(shared_randomness@, *id, q) && match q {
        Ok(n) => wraps(n, this.extensions, ret),
        Err(e) => ret == q,
    },
=== skip -
DynProtocolError::description
T as DynProtocolError::description
