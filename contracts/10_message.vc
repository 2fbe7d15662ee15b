=== file manul/src/protocol/errors.rs
=== file manul/src/protocol/message.rs
=== file manul/src/protocol/round_id.rs
=== file manul/src/session/message.rs

=== skip -
RoundId as Display
MessagePayload as AsRef
Message as Debug

=== raw message specifications @props P12
pub struct SessionId(pub Bytes);
impl VClone for SessionId { #[verifier::external_body] fn clone(&self) -> (ret: Self) { unimplemented!() } }

#[verifier::external_body]
pub struct BoxedFormat { p: u8 }
pub uninterp spec fn fdeser<T>(f: BoxedFormat, b: Seq<u8>) -> Option<T>;
pub uninterp spec fn fcan_ser<T>(f: BoxedFormat, t: T) -> bool;
pub uninterp spec fn fser<T>(f: BoxedFormat, t: T) -> Seq<u8>;
pub broadcast proof fn axiom_froundtrip<T>(f: BoxedFormat, t: T)
    ensures fdeser::<T>(f, #[trigger] fser::<T>(f, t)) == Some(t) { admit(); }
pub struct DeserializationError { pub p: u8 }
pub uninterp spec fn format_of<F>() -> BoxedFormat;
impl VAsRef for SessionId {
    open spec fn bytes(&self) -> Seq<u8> { self.0@ }
    fn as_ref(&self) -> (ret: &Bytes) ensures forall|s: Self| (#[trigger] s.bytes()) == s.bytes() { &self.0 }
}
impl BoxedFormat {
    #[verifier::external_body]
    pub fn new<F>() -> (ret: Self) ensures ret == format_of::<F>() { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize<T>(&self, value: T) -> (ret: Result<Bytes, LocalError>)
        ensures match ret { Ok(b) => fcan_ser::<T>(*self, value) && b@ == fser::<T>(*self, value), Err(_) => !fcan_ser::<T>(*self, value) } { unimplemented!() }
    #[verifier::external_body]
    pub fn deserialize<T>(&self, bytes: &Bytes) -> (ret: Result<T, DeserializationError>)
        ensures match ret { Ok(v) => fdeser::<T>(*self, bytes@) == Some(v), Err(_) => fdeser::<T>(*self, bytes@) is None } { unimplemented!() }
}

/// The types are the same (`TypeId::of` tells).
pub open spec fn same_type<N, T>() -> bool { type_id_of::<N>() == type_id_of::<T>() }
/// The value of the type `T`, which is the type `NoMessage`.
pub open spec fn no_value<T>() -> T { cast_value::<NoMessage, T>(NoMessage(PhantomData)) }

impl VAsRef for MessagePayload {
    open spec fn bytes(&self) -> Seq<u8> { self.0@ }
    fn as_ref(&self) -> (ret: &Bytes) ensures forall|s: Self| (#[trigger] s.bytes()) == s.bytes() { &self.0 }
}

/// The typed value a part stands for in a round expecting `T`, if any.
pub open spec fn part_value<T>(p: Option<MessagePayload>, format: BoxedFormat) -> Option<T> {
    match p {
        Some(b) => if same_type::<NoMessage, T>() { None } else { fdeser::<T>(format, b.0@) },
        None => if same_type::<NoMessage, T>() { Some(no_value::<T>()) } else { None },
    }
}
pub open spec fn part_of<T>(t: T, format: BoxedFormat) -> Option<Seq<u8>> {
    if same_type::<NoMessage, T>() { None } else { Some(fser::<T>(format, t)) }
}
/// The part made of the value.
pub open spec fn makes_part<T, M: ProtocolMessagePart>(t: T, format: BoxedFormat, r: Result<M, LocalError>) -> bool {
    match r {
        Ok(m) => pbytes(m.payload()) == part_of::<T>(t, format),
        Err(_) => !same_type::<NoMessage, T>() && !fcan_ser::<T>(format, t),
    }
}
pub open spec fn pbytes(p: Option<MessagePayload>) -> Option<Seq<u8>> {
    match p { Some(b) => Some(b.0@), None => None }
}

pub open spec fn kind_byte(k: PartKind) -> u8 {
    match k { PartKind::EchoBroadcast => 0u8, PartKind::NormalBroadcast => 1u8, PartKind::DirectMessage => 2u8 }
}
/// What is hashed for a message part.
pub open spec fn part_preimage(kind: PartKind, p: Option<Seq<u8>>) -> Seq<u8> {
    let head = part_prefix() + seq![kind_byte(kind)];
    match p {
        None => head + seq![0u8],
        Some(b) => head + seq![1u8] + be_bytes(b.len() as u64) + b,
    }
}
pub open spec fn part_prefix() -> Seq<u8> {
    seq![80u8, 114, 111, 116, 111, 99, 111, 108, 77, 101, 115, 115, 97, 103, 101, 80, 97, 114, 116]
}
pub open spec fn digest_prefix() -> Seq<u8> {
    seq![83u8, 105, 103, 110, 101, 100, 77, 101, 115, 115, 97, 103, 101, 80, 97, 114, 116, 68, 105, 103, 101, 115, 116]
}
/// What is signed for a message part with the hash `h`.
pub open spec fn signed_bytes<SP: SessionParameters>(kind: PartKind, metadata: MessageMetadata, h: Seq<u8>) -> Seq<u8> {
    digest_prefix() + seq![kind_byte(kind)] + ser::<SP::WireFormat, &MessageMetadata>(&metadata) + be_bytes(h.len() as u64) + h
}
pub open spec fn part_hash<SP: SessionParameters>(kind: PartKind, p: Option<MessagePayload>) -> Seq<u8> {
    spec_hash::<SP::Digest>(part_preimage(kind, pbytes(p)))
}
/// `sig` is a valid signature of `v` for data with the given kind, metadata and hash.
pub open spec fn sig_ok<SP: SessionParameters>(
    v: SP::Verifier, sig: SerializedSignature, kind: PartKind, metadata: MessageMetadata, h: Seq<u8>
) -> bool {
    deser::<SP::WireFormat, SP::Signature>(sig.0@) matches Some(s)
        && valid_sig::<SP::Verifier, SP::Digest, SP::Signature>(v, signed_bytes::<SP>(kind, metadata, h), s)
}
/// The only local operation that can fail in a verification: the serialization of the metadata.
pub open spec fn local_failure<SP: SessionParameters>(metadata: MessageMetadata) -> bool {
    !can_ser::<SP::WireFormat, &MessageMetadata>(&metadata)
}
/// `v` signed this message part.
pub open spec fn part_signed_by<SP: SessionParameters, M: ProtocolMessagePartHashable>(p: SignedMessagePart<M>, v: SP::Verifier) -> bool {
    sig_ok::<SP>(v, p.signature, M::KIND, p.message_with_metadata.metadata, part_hash::<SP>(M::KIND, p.message_with_metadata.message.payload()))
}
/// `v` signed an echo broadcast with this hash.
pub open spec fn hash_signed_by<SP: SessionParameters>(h: SignedMessageHash, v: SP::Verifier) -> bool {
    sig_ok::<SP>(v, h.signature, PartKind::EchoBroadcast, h.metadata, h.message_part_hash@)
}
pub open spec fn parts_of<V>(m: VerifiedMessage<V>) -> (SignedMessagePart<EchoBroadcast>, SignedMessagePart<NormalBroadcast>, SignedMessagePart<DirectMessage>) {
    (unv(m.echo_broadcast), unv(m.normal_broadcast), unv(m.direct_message))
}
pub open spec fn unv<M>(p: VerifiedMessagePart<M>) -> SignedMessagePart<M> {
    SignedMessagePart { signature: p.signature, message_with_metadata: p.message_with_metadata }
}
/// All three parts of the message are signed by `v` and carry the metadata `md`.
pub open spec fn message_signed_by<SP: SessionParameters>(
    d: SignedMessagePart<DirectMessage>, e: SignedMessagePart<EchoBroadcast>, n: SignedMessagePart<NormalBroadcast>,
    md: MessageMetadata, v: SP::Verifier,
) -> bool {
    &&& d.message_with_metadata.metadata == md && e.message_with_metadata.metadata == md && n.message_with_metadata.metadata == md
    &&& part_signed_by::<SP, DirectMessage>(d, v)
    &&& part_signed_by::<SP, EchoBroadcast>(e, v)
    &&& part_signed_by::<SP, NormalBroadcast>(n, v)
}

/// P12: the hashed encoding of a message part is injective.
pub proof fn lemma_part_preimage_injective(k1: PartKind, p1: Option<Seq<u8>>, k2: PartKind, p2: Option<Seq<u8>>)
    requires part_preimage(k1, p1) == part_preimage(k2, p2),
        p1 matches Some(b) ==> b.len() <= u64::MAX, p2 matches Some(b) ==> b.len() <= u64::MAX,
    ensures k1 == k2, p1 == p2,
{
    let a = part_preimage(k1, p1);
    let b = part_preimage(k2, p2);
    assert(part_prefix().len() == 19);
    assert(a[19] == kind_byte(k1));
    assert(b[19] == kind_byte(k2));
    assert(a[20] == if p1 is None { 0u8 } else { 1u8 });
    assert(b[20] == if p2 is None { 0u8 } else { 1u8 });
    if p1 is Some {
        assert(a.subrange(29, a.len() as int) =~= p1->0);
        assert(b.subrange(29, b.len() as int) =~= p2->0);
    }
}
/// P12: the signed encoding is injective in kind, session, round and hash if the serialization of metadata is
/// prefix-free or the hashes are of the same length.
pub proof fn lemma_signed_bytes_injective<SP: SessionParameters>(k1: PartKind, m1: MessageMetadata, h1: Seq<u8>, k2: PartKind, m2: MessageMetadata, h2: Seq<u8>)
    requires signed_bytes::<SP>(k1, m1, h1) == signed_bytes::<SP>(k2, m2, h2),
        h1.len() == h2.len()
            || (ser::<SP::WireFormat, &MessageMetadata>(&m1).is_prefix_of(ser::<SP::WireFormat, &MessageMetadata>(&m2)) ==> m1 == m2)
               && (ser::<SP::WireFormat, &MessageMetadata>(&m2).is_prefix_of(ser::<SP::WireFormat, &MessageMetadata>(&m1)) ==> m1 == m2)
    ensures k1 == k2, m1 == m2, h1 == h2,
{
    let a = signed_bytes::<SP>(k1, m1, h1);
    let b = signed_bytes::<SP>(k2, m2, h2);
    let s1 = ser::<SP::WireFormat, &MessageMetadata>(&m1);
    let s2 = ser::<SP::WireFormat, &MessageMetadata>(&m2);
    assert(a[23] == kind_byte(k1));
    assert(b[23] == kind_byte(k2));
    assert(a.subrange(24, 24 + s1.len() as int) =~= s1);
    assert(b.subrange(24, 24 + s2.len() as int) =~= s2);
    if s1.len() <= s2.len() {
        assert(s1 =~= s2.subrange(0, s1.len() as int));
    } else {
        assert(s2 =~= s1.subrange(0, s2.len() as int));
    }
    assert(a.len() == 24 + s1.len() + 8 + h1.len());
    assert(b.len() == 24 + s2.len() + 8 + h2.len());
    if h1.len() == h2.len() {
        assert(s1.len() == s2.len());
        assert(s1 =~= s2);
        assert(Some(&m1) == deser::<SP::WireFormat, &MessageMetadata>(s1));
        assert(Some(&m2) == deser::<SP::WireFormat, &MessageMetadata>(s2));
    }
    assert(s1 == s2);
    assert(a.subrange((24 + s1.len() + 8) as int, a.len() as int) =~= h1);
    assert(b.subrange((24 + s1.len() + 8) as int, b.len() as int) =~= h2);
}

=== fn LocalError::new
@props P11
=== fn RemoteError::new
@props P02

=== member trait ProtocolMessagePart
spec fn payload(&self) -> Option<MessagePayload>;
=== fn ProtocolMessagePart::new_inner
ensures ret.payload() == maybe_message,
=== fn ProtocolMessagePart::maybe_message
ensures *ret == self.payload(),
=== fn ProtocolMessagePart::none
@props P14
ensures ret.payload() is None,
=== fn ProtocolMessagePart::new
@props P14 P18
ensures match ret {
    Ok(m) => pbytes(m.payload()) == part_of::<T>(message, *format),
    Err(_) => !same_type::<NoMessage, T>() && !fcan_ser::<T>(*format, message) },
=== fn ProtocolMessagePart::is_none
@props P14
ensures ret == (self.payload() is None),
=== fn ProtocolMessagePart::assert_is_none
@props P14
ensures ret is Ok <==> self.payload() is None,
=== fn ProtocolMessagePart::verify_is_not
@props P14 P10
ensures ret is Ok <==> part_value::<T>(self.payload(), *format) is None, ret matches Err(e) ==> e is InvalidEvidence,
=== fn ProtocolMessagePart::verify_is_some
@props P14 P10
ensures ret is Ok <==> self.payload() is Some, ret matches Err(e) ==> e is InvalidEvidence,
=== fn ProtocolMessagePart::deserialize
@props P14
ensures match ret { Ok(v) => part_value::<T>(self.payload(), *format) == Some(v), Err(_) => part_value::<T>(self.payload(), *format) is None },
=== fn PartKind::to_byte
@props P12
ensures ret == kind_byte(self),
=== fn ProtocolMessagePartHashable::hash
@props P12 P07
ensures ret@ == spec_hash::<D>(part_preimage(Self::KIND, pbytes(self.payload()))),
=== fn ProtocolMessagePartHashable::hash | proof tail
proof { assert(digest.absorbed() =~= part_preimage(Self::KIND, pbytes(self.payload()))); }

=== member DirectMessage as ProtocolMessagePart
open spec fn payload(&self) -> Option<MessagePayload> { self.0 }
=== member EchoBroadcast as ProtocolMessagePart
open spec fn payload(&self) -> Option<MessagePayload> { self.0 }
=== member NormalBroadcast as ProtocolMessagePart
open spec fn payload(&self) -> Option<MessagePayload> { self.0 }
=== fn DirectMessage as ProtocolMessagePart::new_inner
@props P14
=== fn DirectMessage as ProtocolMessagePart::maybe_message
@props P14
=== fn EchoBroadcast as ProtocolMessagePart::new_inner
@props P14
=== fn EchoBroadcast as ProtocolMessagePart::maybe_message
@props P14
=== fn NormalBroadcast as ProtocolMessagePart::new_inner
@props P14
=== fn NormalBroadcast as ProtocolMessagePart::maybe_message
@props P14
=== member ReceiveError as From<LocalError>
open spec fn vfrom_spec(t: LocalError) -> Self { ReceiveError::Local(t) }
=== member ReceiveError as From<RemoteError>
open spec fn vfrom_spec(t: RemoteError) -> Self { ReceiveError::Unprovable(t) }
=== member DirectMessageError as From<String>
open spec fn vfrom_spec(t: String) -> Self { DirectMessageError(t) }
=== member EchoBroadcastError as From<String>
open spec fn vfrom_spec(t: String) -> Self { EchoBroadcastError(t) }
=== member NormalBroadcastError as From<String>
open spec fn vfrom_spec(t: String) -> Self { NormalBroadcastError(t) }

=== fn SerializedSignature::new
@props P12 P18
ensures ret matches Ok(s) ==> s.0@ == ser::<SP::WireFormat, SP::Signature>(signature),
=== fn SerializedSignature::deserialize
@props P12 P11
ensures match ret {
    Ok(s) => deser::<SP::WireFormat, SP::Signature>(self.0@) == Some(s),
    Err(e) => deser::<SP::WireFormat, SP::Signature>(self.0@) is None && !(e is Local) },
=== fn MessageVerificationError::into_evidence_error
@props P11
ensures ret is Local <==> self is Local, ret is InvalidEvidence <==> !(self is Local),
=== member MessageVerificationError as From<LocalError>
open spec fn vfrom_spec(t: LocalError) -> Self { MessageVerificationError::Local(t) }
=== member MessageVerificationError as From<SignatureError>
open spec fn vfrom_spec(t: SignatureError) -> Self { MessageVerificationError::SignatureMismatch }
=== fn MessageVerificationError as From<LocalError>::from
@props P02 P11
=== fn MessageVerificationError as From<SignatureError>::from
@props P02 P11
=== fn MessageMetadata::new
@props P18 P12
ensures ret.session_id == *session_id, ret.round_id == *round_id,
=== fn MessageMetadata::session_id
@props P01
ensures *ret == self.session_id,
=== fn MessageMetadata::round_id
@props P01
ensures *ret == self.round_id,
=== fn message_digest
@props P12 P01 P07
ensures match ret { Ok(d) => d.absorbed() == signed_bytes::<SP>(kind, *metadata, message_part_hash@), Err(_) => local_failure::<SP>(*metadata) },
=== fn MessageWithMetadata::digest
@props P12 P01
ensures match ret { Ok(d) => d.absorbed() == signed_bytes::<SP>(M::KIND, self.metadata, part_hash::<SP>(M::KIND, self.message.payload())), Err(_) => local_failure::<SP>(self.metadata) },
=== fn SignedMessagePart::new
@props P18 P12
ensures ret matches Ok(p) ==> {
    &&& p.message_with_metadata.message == message
    &&& p.message_with_metadata.metadata.session_id == *session_id
    &&& p.message_with_metadata.metadata.round_id == *round_id
    &&& part_signed_by::<SP, M>(p, signer.vk())
},
=== fn SignedMessagePart::metadata
ensures *ret == self.message_with_metadata.metadata,
=== fn SignedMessagePart::payload
ensures *ret == self.message_with_metadata.message,
=== fn SignedMessagePart::into_verified
@props P01 P02 P10 P11 P12
ensures match ret {
    Ok(v) => part_signed_by::<SP, M>(self, *verifier) && unv(v) == self,
    Err(e) => if e is Local { local_failure::<SP>(self.message_with_metadata.metadata) } else { !part_signed_by::<SP, M>(self, *verifier) } },
=== fn SignedMessagePart::to_signed_hash
@props P07 P12 P18
ensures ret.signature == self.signature, ret.metadata == self.message_with_metadata.metadata,
    ret.message_part_hash@ == part_hash::<SP>(PartKind::EchoBroadcast, self.message_with_metadata.message.payload()),
=== fn VerifiedMessagePart::metadata
ensures *ret == self.message_with_metadata.metadata,
=== fn VerifiedMessagePart::payload
ensures *ret == self.message_with_metadata.message,
=== fn VerifiedMessagePart::into_payload
ensures ret == self.message_with_metadata.message,
=== fn VerifiedMessagePart::into_unverified
@props P01 P09
ensures ret == unv(self),
=== fn Message::new
@props P18
ensures ret matches Ok(m) ==> {
    &&& m.destination == *destination && m.echo_broadcast == echo_broadcast && m.normal_broadcast == normal_broadcast
    &&& m.direct_message.message_with_metadata.message == direct_message
    &&& m.direct_message.message_with_metadata.metadata.session_id == *session_id
    &&& m.direct_message.message_with_metadata.metadata.round_id == *round_id
    &&& part_signed_by::<SP, DirectMessage>(m.direct_message, signer.vk())
},
=== fn Message::destination
ensures *ret == self.destination,
=== fn Message::unify_metadata
@props P01
ensures match ret {
    Some(c) => c.metadata == self.direct_message.message_with_metadata.metadata
        && c.metadata == self.echo_broadcast.message_with_metadata.metadata
        && c.metadata == self.normal_broadcast.message_with_metadata.metadata
        && c.direct_message == self.direct_message && c.echo_broadcast == self.echo_broadcast && c.normal_broadcast == self.normal_broadcast,
    None => self.direct_message.message_with_metadata.metadata != self.echo_broadcast.message_with_metadata.metadata
        || self.direct_message.message_with_metadata.metadata != self.normal_broadcast.message_with_metadata.metadata,
},
=== fn CheckedMessage::metadata
ensures *ret == self.metadata,
=== fn CheckedMessage::into_verified
@props P01 P02
ensures match ret {
    Ok(v) => v.from == *verifier && v.metadata == self.metadata
        && part_signed_by::<SP, DirectMessage>(self.direct_message, *verifier)
        && part_signed_by::<SP, EchoBroadcast>(self.echo_broadcast, *verifier)
        && part_signed_by::<SP, NormalBroadcast>(self.normal_broadcast, *verifier)
        && parts_of(v) == (self.echo_broadcast, self.normal_broadcast, self.direct_message),
    Err(e) => if e is Local {
            local_failure::<SP>(self.direct_message.message_with_metadata.metadata)
            || local_failure::<SP>(self.echo_broadcast.message_with_metadata.metadata)
            || local_failure::<SP>(self.normal_broadcast.message_with_metadata.metadata)
        } else {
            !(part_signed_by::<SP, DirectMessage>(self.direct_message, *verifier)
            && part_signed_by::<SP, EchoBroadcast>(self.echo_broadcast, *verifier)
            && part_signed_by::<SP, NormalBroadcast>(self.normal_broadcast, *verifier)) } },
=== fn VerifiedMessage::metadata
ensures *ret == self.metadata,
=== fn VerifiedMessage::from
ensures *ret == self.from,
=== fn VerifiedMessage::direct_message
ensures *ret == self.direct_message.message_with_metadata.message,
=== fn VerifiedMessage::echo_broadcast
ensures *ret == self.echo_broadcast.message_with_metadata.message,
=== fn VerifiedMessage::normal_broadcast
ensures *ret == self.normal_broadcast.message_with_metadata.message,
=== fn VerifiedMessage::into_parts
@props P01 P09 P13
ensures ret == parts_of(self),
=== fn SignedMessageHash::metadata
ensures *ret == self.metadata,
=== fn SignedMessageHash::into_verified
@props P07 P10 P12
ensures match ret {
    Ok(v) => hash_signed_by::<SP>(self, *verifier) && v.signature == self.signature && v.metadata == self.metadata && v.message_part_hash == self.message_part_hash,
    Err(e) => if e is Local { local_failure::<SP>(self.metadata) } else { !hash_signed_by::<SP>(self, *verifier) } },
=== fn VerifiedMessageHash::metadata
ensures *ret == self.metadata,
=== fn VerifiedMessageHash::is_hash_of
@props P07 P10 P12
ensures ret == (self.message_part_hash@ == part_hash::<SP>(M::KIND, message.message_with_metadata.message.payload())),
