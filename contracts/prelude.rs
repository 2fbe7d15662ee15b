// Assumed contracts on everything outside the extracted code: std collections and iterators,
// the digest/signature/serde crates, user-supplied parameters.  Nothing here is proved.
use vstd::prelude::*;
use core::marker::PhantomData;
use super::*;

verus! {

// ---------- strings, panics, equality, conversion, cloning ----------

/// `&str`
#[derive(Clone, Copy)]
pub struct VStr { pub p: u8 }
#[verifier::external_body]
pub fn vstr() -> VStr { unimplemented!() }
impl VFrom<VStr> for String {
    uninterp spec fn vfrom_spec(t: VStr) -> String;
    #[verifier::external_body]
    fn vfrom(t: VStr) -> (ret: String) { unimplemented!() }
}
#[verifier::external_body]
pub fn vfmt() -> String { unimplemented!() }
#[verifier::external_body]
pub fn vpanic_if<T>(when: Ghost<bool>) -> (ret: T) requires (when@) ensures (false) { unimplemented!() }
#[verifier::external_body]
pub fn vpanic<T>() -> (ret: T) requires false { unimplemented!() }

/// `==` is structural equality.
#[verifier::external_body]
pub fn veq<T>(a: &T, b: &T) -> (ret: bool) ensures ret == (*a == *b) no_unwind { unimplemented!() }

pub trait VEq<Rhs>: Sized {
    spec fn eq_spec(&self, other: &Rhs) -> bool;
    fn eq(&self, other: &Rhs) -> (ret: bool) ensures ret == self.eq_spec(other);
}

/// `clone()` gives an equal value.
pub trait VClone: Sized {
    fn clone(&self) -> (ret: Self) ensures ret == *self;
}

pub trait VFrom<T>: Sized {
    spec fn vfrom_spec(t: T) -> Self;
    fn vfrom(t: T) -> (ret: Self) ensures ret == Self::vfrom_spec(t);
}
impl<T> VFrom<T> for T {
    open spec fn vfrom_spec(t: T) -> T { t }
    fn vfrom(t: T) -> (ret: T) ensures forall|s: T| (#[trigger] Self::vfrom_spec(s)) == Self::vfrom_spec(s) { t }
}
impl<T> VFrom<T> for Box<T> {
    open spec fn vfrom_spec(t: T) -> Box<T> { Box::new(t) }
    fn vfrom(t: T) -> (ret: Box<T>) ensures forall|s: T| (#[trigger] Self::vfrom_spec(s)) == Self::vfrom_spec(s) { Box::new(t) }
}
pub trait VInto<U>: Sized {
    spec fn vinto_spec(self) -> U;
    fn vinto(self) -> (ret: U) ensures ret == self.vinto_spec();
}
impl<T, U: VFrom<T>> VInto<U> for T {
    open spec fn vinto_spec(self) -> U { <U as VFrom<T>>::vfrom_spec(self) }
    #[verifier::external_body]
    fn vinto(self) -> (ret: U) { unimplemented!() }
}
impl VFrom<&String> for String {
    open spec fn vfrom_spec(t: &String) -> String { *t }
    #[verifier::external_body]
    fn vfrom(t: &String) -> (ret: String) { unimplemented!() }
}
impl VFrom<&Bytes> for Bytes {
    open spec fn vfrom_spec(t: &Bytes) -> Bytes { *t }
    #[verifier::external_body]
    fn vfrom(t: &Bytes) -> (ret: Bytes) { unimplemented!() }
}

pub open spec fn vsame<T>(a: T, b: T) -> bool { a == b }

/// `TypeId`: `TypeId::of` tells types apart.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct TypeId { p: u8 }
pub uninterp spec fn type_id_of<T>() -> TypeId;
impl TypeId {
    #[verifier::external_body]
    pub fn of<T>() -> (ret: TypeId) ensures ret == type_id_of::<T>() { unimplemented!() }
}
/// The value seen as one of the same type.
pub uninterp spec fn cast_value<A, B>(a: A) -> B;
/// `Box::from_raw(Box::into_raw(..) as *mut _)`, allowed only if the type is the right one.
pub trait VCast<U>: Sized {
    spec fn cast_ok(self) -> bool;
    spec fn casts(self, u: U) -> bool;
    fn vcast(self) -> (ret: U) requires self.cast_ok() ensures self.casts(ret);
}
impl<A, B> VCast<Box<B>> for Box<A> {
    open spec fn cast_ok(self) -> bool { type_id_of::<A>() == type_id_of::<B>() }
    open spec fn casts(self, b: Box<B>) -> bool { *b == cast_value::<A, B>(*self) }
    #[verifier::external_body]
    fn vcast(self) -> (ret: Box<B>) { unimplemented!() }
}

/// `Box::new`, also when the box is coerced to a box of a trait object.
pub trait VBoxInto<O>: Sized {
    spec fn box_req(self) -> bool;
    spec fn boxes(self, o: O) -> bool;
    fn vbox(self) -> (ret: O) requires self.box_req() ensures self.boxes(ret);
}
impl<T> VBoxInto<Box<T>> for T {
    open spec fn box_req(self) -> bool { true }
    open spec fn boxes(self, o: Box<T>) -> bool { *o == self }
    #[verifier::external_body]
    fn vbox(self) -> (ret: Box<T>) { unimplemented!() }
}
/// `Box<dyn Any>`
#[verifier::external_body]
pub struct AnyObj { p: u8 }
pub uninterp spec fn any_value<T>(o: AnyObj) -> Option<T>;
impl<T> VBoxInto<AnyObj> for T {
    open spec fn box_req(self) -> bool { true }
    open spec fn boxes(self, o: AnyObj) -> bool { any_value::<T>(o) == Some(self) }
    #[verifier::external_body]
    fn vbox(self) -> (ret: AnyObj) { unimplemented!() }
}
impl AnyObj {
    #[verifier::external_body]
    pub fn downcast<T>(self) -> (ret: Result<Box<T>, AnyObj>)
        ensures match ret { Ok(t) => any_value::<T>(self) == Some(*t), Err(o) => any_value::<T>(self) is None && o == self } { unimplemented!() }
}

pub trait VUnwrap: Sized {
    type T;
    spec fn can_unwrap(self) -> bool;
    spec fn unwrapped(self) -> Self::T;
    fn vunwrap(self) -> (ret: Self::T) requires self.can_unwrap() ensures ret == self.unwrapped();
}
impl<X> VUnwrap for Option<X> {
    type T = X;
    open spec fn can_unwrap(self) -> bool { self is Some }
    open spec fn unwrapped(self) -> X { self->0 }
    fn vunwrap(self) -> (ret: X) ensures forall|s: Self| (#[trigger] s.can_unwrap()) == s.can_unwrap(), forall|s: Self| (#[trigger] s.unwrapped()) == s.unwrapped() { match self { Some(x) => x, None => { assert(false); vpanic() } } }
}
impl<X, E> VUnwrap for Result<X, E> {
    type T = X;
    open spec fn can_unwrap(self) -> bool { self is Ok }
    open spec fn unwrapped(self) -> X { self->Ok_0 }
    fn vunwrap(self) -> (ret: X) ensures forall|s: Self| (#[trigger] s.can_unwrap()) == s.can_unwrap(), forall|s: Self| (#[trigger] s.unwrapped()) == s.unwrapped() { match self { Ok(x) => x, Err(_) => { assert(false); vpanic() } } }
}

// ---------- byte strings ----------

#[verifier::external_body]
pub struct Bytes { p: Vec<u8> }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub uninterp spec fn bytes_with(v: Seq<u8>) -> Bytes;
pub broadcast proof fn axiom_bytes_ext(a: Bytes) ensures bytes_with(#[trigger] a.view()) == a { admit(); }
impl Bytes {
    #[verifier::external_body]
    pub fn len(&self) -> (ret: usize) ensures ret == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (ret: bool) ensures ret == (self@.len() == 0) { unimplemented!() }
}
impl VClone for Bytes { #[verifier::external_body] fn clone(&self) -> (ret: Self) { unimplemented!() } }

pub trait VAsRef: Sized {
    spec fn bytes(&self) -> Seq<u8>;
    fn as_ref(&self) -> (ret: &Bytes) ensures ret@ == self.bytes();
}
impl VAsRef for Bytes {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
    fn as_ref(&self) -> (ret: &Bytes) ensures forall|s: Self| (#[trigger] s.bytes()) == s.bytes() { self }
}
impl<const N: usize> VAsRef for [u8; N] {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn as_ref(&self) -> (ret: &Bytes) { unimplemented!() }
}
impl<T: VAsRef> VAsRef for &T {
    open spec fn bytes(&self) -> Seq<u8> { (**self).bytes() }
    #[verifier::external_body]
    fn as_ref(&self) -> (ret: &Bytes) { unimplemented!() }
}

pub uninterp spec fn be_bytes(x: u64) -> Seq<u8>;
pub broadcast proof fn axiom_be_bytes_len(x: u64) ensures #[trigger] be_bytes(x).len() == 8 { admit(); }
pub uninterp spec fn from_be_bytes(s: Seq<u8>) -> u64;
pub broadcast proof fn axiom_be_bytes_inj(x: u64) ensures from_be_bytes(#[trigger] be_bytes(x)) == x { admit(); }
pub trait VBe { fn vto_be_bytes(&self) -> (ret: [u8; 8]) ensures ret@ == be_bytes(self.as_u64()); spec fn as_u64(&self) -> u64; }
impl VBe for u64 {
    open spec fn as_u64(&self) -> u64 { *self }
    #[verifier::external_body]
    fn vto_be_bytes(&self) -> (ret: [u8; 8]) { unimplemented!() }
}

// ---------- digest, signature, rng, wire format ----------


pub uninterp spec fn spec_hash<D>(s: Seq<u8>) -> Seq<u8>;

pub trait Digest: Sized {
    spec fn absorbed(&self) -> Seq<u8>;
    fn new() -> (ret: Self) ensures ret.absorbed() == Seq::<u8>::empty();
    fn new_with_prefix<A: VAsRef>(data: A) -> (ret: Self) ensures ret.absorbed() == data.bytes();
    fn update<A: VAsRef>(&mut self, data: A) ensures final(self).absorbed() == old(self).absorbed() + data.bytes();
    fn chain_update<A: VAsRef>(self, data: A) -> (ret: Self) ensures ret.absorbed() == self.absorbed() + data.bytes();
    fn finalize(self) -> (ret: Bytes) ensures ret@ == spec_hash::<Self>(self.absorbed());
}

/// Any random number generator (`impl CryptoRngCore`, `dyn CryptoRngCore`).
#[verifier::external_body]
pub struct Rng { p: u8 }
impl Rng {
    #[verifier::external_body]
    pub fn gen_range(&mut self, range: core::ops::Range<usize>) -> (ret: usize) requires range.start < range.end ensures range.start <= ret < range.end { unimplemented!() }
}
/// `join` of strings.
pub trait VJoin { fn join(&self, s: VStr) -> String; }
impl VJoin for Vec<String> { #[verifier::external_body] fn join(&self, s: VStr) -> String { unimplemented!() } }

pub struct SignatureError { pub p: u8 }

/// Whether `s` is a valid signature of the holder of `v` on the digest of `msg`.
pub uninterp spec fn valid_sig<V, D, S>(v: V, msg: Seq<u8>, s: S) -> bool;

pub trait DigestVerifier<D: Digest, S>: Sized {
    fn verify_digest(&self, digest: D, signature: &S) -> (ret: Result<(), SignatureError>)
        ensures ret is Ok <==> valid_sig::<Self, D, S>(*self, digest.absorbed(), *signature);
}
pub trait Keypair: Sized {
    type VerifyingKey;
    spec fn vk(&self) -> Self::VerifyingKey;
    fn verifying_key(&self) -> (ret: Self::VerifyingKey) ensures ret == self.vk();
}
pub trait RandomizedDigestSigner<D: Digest, S>: Keypair {
    fn try_sign_digest_with_rng(&self, rng: &mut Rng, digest: D) -> (ret: Result<S, SignatureError>)
        ensures ret matches Ok(s) ==> valid_sig::<Self::VerifyingKey, D, S>(self.vk(), digest.absorbed(), s);
}

/// Serialization in the format `F`.
pub uninterp spec fn ser<F, T>(t: T) -> Seq<u8>;
/// Whether the local serialization of the value works.
pub uninterp spec fn can_ser<F, T>(t: T) -> bool;
pub uninterp spec fn deser<F, T>(b: Seq<u8>) -> Option<T>;
pub broadcast proof fn axiom_roundtrip<F, T>(t: T)
    ensures deser::<F, T>(#[trigger] ser::<F, T>(t)) == Some(t) { admit(); }

pub struct DeError { pub p: u8 }
#[verifier::external_body]
#[verifier::reject_recursive_types(F)]
pub struct Deserializer<F> { p: PhantomData<F> }
impl<F> View for Deserializer<F> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }

pub trait WireFormat: Sized {
    fn serialize<T>(value: T) -> (ret: Result<Bytes, LocalError>)
        ensures match ret { Ok(b) => b@ == ser::<Self, T>(value), Err(_) => !can_ser::<Self, T>(value) };
    fn deserializer(bytes: &Bytes) -> (ret: Deserializer<Self>)
        ensures ret@ == bytes@;
}
pub trait VDeserialize: Sized {
    fn deserialize<F>(d: Deserializer<F>) -> (ret: Result<Self, DeError>)
        ensures match ret { Ok(v) => deser::<F, Self>(d@) == Some(v), Err(_) => deser::<F, Self>(d@) is None };
}
impl<T> VDeserialize for T {
    #[verifier::external_body]
    fn deserialize<F>(d: Deserializer<F>) -> (ret: Result<T, DeError>) { unimplemented!() }
}

pub trait PartyId: VClone {}

pub trait SessionParameters: Sized {
    type Signer: RandomizedDigestSigner<Self::Digest, Self::Signature> + Keypair<VerifyingKey = Self::Verifier>;
    type Verifier: PartyId + DigestVerifier<Self::Digest, Self::Signature>;
    type Digest: Digest;
    type Signature;
    type WireFormat: WireFormat;
}

// ---------- std collections and iterators ----------

pub trait VDefault: Sized {
    spec fn dflt() -> Self;
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { p: PhantomData<T> }

pub trait VIntoIter: Sized {
    type Item;
    spec fn items_ok(self, s: Seq<Self::Item>) -> bool;
    fn viter(self) -> (ret: VIter<Self::Item>)
        ensures ret.wf(), ret.pos() == 0, self.items_ok(ret.seq());
}

impl<T> VIter<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.seq().len() }
    pub open spec fn remaining(&self) -> int { self.seq().len() - self.pos() }
    pub open spec fn fresh(&self) -> bool { self.pos() == 0 }

    #[verifier::external_body]
    pub fn has_next(&self) -> (ret: bool) requires self.wf() ensures ret == (self.pos() < self.seq().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_item(&mut self) -> (ret: T)
        requires old(self).wf(), old(self).pos() < old(self).seq().len()
        ensures ret == old(self).seq()[old(self).pos()], final(self).seq() == old(self).seq(),
            final(self).pos() == old(self).pos() + 1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (ret: VIter<B>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.seq().len() ==> f.requires((#[trigger] self.seq()[i],))
        ensures ret.pos() == 0, ret.wf(), ret.seq().len() == self.seq().len(),
            forall|i: int| #![trigger self.seq()[i]] #![trigger ret.seq()[i]] 0 <= i < self.seq().len() ==> f.ensures((self.seq()[i],), ret.seq()[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (ret: VIter<T>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.seq().len() ==> f.requires((&#[trigger] self.seq()[i],))
        ensures ret.pos() == 0, ret.wf(),
            forall|i: int| 0 <= i < ret.seq().len() ==> self.seq().contains(#[trigger] ret.seq()[i]) && f.ensures((&ret.seq()[i],), true),
            forall|i: int| 0 <= i < self.seq().len() ==> (ret.seq().contains(#[trigger] self.seq()[i]) || f.ensures((&self.seq()[i],), false)),
            self.seq().no_duplicates() ==> ret.seq().no_duplicates(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(&mut self, f: F) -> (ret: bool)
        requires old(self).pos() == 0, forall|i: int| 0 <= i < old(self).seq().len() ==> f.requires((#[trigger] old(self).seq()[i],))
        ensures ret ==> forall|i: int| 0 <= i < old(self).seq().len() ==> f.ensures((#[trigger] old(self).seq()[i],), true),
            !ret ==> exists|i: int| 0 <= i < old(self).seq().len() && f.ensures((#[trigger] old(self).seq()[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(&mut self, f: F) -> (ret: bool)
        requires old(self).pos() == 0, forall|i: int| 0 <= i < old(self).seq().len() ==> f.requires((#[trigger] old(self).seq()[i],))
        ensures !ret ==> forall|i: int| 0 <= i < old(self).seq().len() ==> f.ensures((#[trigger] old(self).seq()[i],), false),
            ret ==> exists|i: int| 0 <= i < old(self).seq().len() && f.ensures((#[trigger] old(self).seq()[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain<I: VIntoIter<Item = T>>(self, other: I) -> (ret: VIter<T>)
        requires self.pos() == 0
        ensures ret.pos() == 0, ret.wf(), exists|s: Seq<T>| other.items_ok(s) && ret.seq() == self.seq() + s
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: VCollect<T>>(self) -> (ret: C)
        requires self.pos() == 0
        ensures C::collected(self.seq(), ret)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (ret: Option<T>)
        requires old(self).wf()
        ensures final(self).seq() == old(self).seq(), final(self).wf(),
            ret == (if old(self).pos() + n < old(self).seq().len() { Some(old(self).seq()[old(self).pos() + n]) } else { None::<T> }),
            final(self).pos() == (if old(self).pos() + n < old(self).seq().len() { old(self).pos() + n + 1 } else { old(self).seq().len() as int })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (ret: usize)
        requires self.pos() == 0
        ensures ret == self.seq().len()
    { unimplemented!() }
}
impl<'a, T: VClone> VIter<&'a T> {
    #[verifier::external_body]
    pub fn vcloned(self) -> (ret: VIter<T>)
        requires self.pos() == 0
        ensures ret.pos() == 0, ret.wf(), ret.seq().len() == self.seq().len(),
            forall|i: int| #![trigger self.seq()[i]] #![trigger ret.seq()[i]] 0 <= i < self.seq().len() ==> ret.seq()[i] == *self.seq()[i]
    { unimplemented!() }
}
impl<T> VIntoIter for VIter<T> {
    type Item = T;
    open spec fn items_ok(self, s: Seq<T>) -> bool { self.pos() == 0 ==> s == self.seq() }
    #[verifier::external_body]
    fn viter(self) -> (ret: VIter<T>) { unimplemented!() }
}
impl<T> VIntoIter for Vec<T> {
    type Item = T;
    open spec fn items_ok(self, s: Seq<T>) -> bool { s == self@ }
    #[verifier::external_body]
    fn viter(self) -> (ret: VIter<T>) { unimplemented!() }
}
pub open spec fn ref_items<'a, T>(s: Seq<T>, q: Seq<&'a T>) -> bool { q.len() == s.len() && forall|i: int| 0 <= i < q.len() ==> *#[trigger] q[i] == s[i] }
impl<'a, T> VIntoIter for &'a Vec<T> {
    type Item = &'a T;
    open spec fn items_ok(self, s: Seq<&'a T>) -> bool { ref_items(self@, s) }
    #[verifier::external_body]
    fn viter(self) -> (ret: VIter<&'a T>) { unimplemented!() }
}
pub trait VOptCloned<T> : Sized {
    spec fn cl(self) -> Option<T>;
    fn vcloned(self) -> (ret: Option<T>) ensures ret == self.cl();
}
impl<'a, T: VClone> VOptCloned<T> for Option<&'a T> {
    open spec fn cl(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
    fn vcloned(self) -> (ret: Option<T>) ensures forall|s: Self| (#[trigger] s.cl()) == s.cl() { match self { Some(x) => Some(x.clone()), None => None } }
}

pub trait VCollect<T>: Sized {
    spec fn collected(s: Seq<T>, c: Self) -> bool;
}
impl<T> VCollect<T> for BTreeSet<T> {
    open spec fn collected(s: Seq<T>, c: Self) -> bool { set_collected(s, c@) }
}
impl<T> VCollect<T> for Vec<T> {
    open spec fn collected(s: Seq<T>, c: Self) -> bool { c@ == s }
}
pub open spec fn set_collected<T>(s: Seq<T>, c: Set<T>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> c.contains(#[trigger] s[i])
    &&& forall|x: T| #[trigger] c.contains(x) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x
}
pub open spec fn map_collected<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0)
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k && m[k] == s[i].1
    // the last entry for a key wins
    &&& forall|i: int| 0 <= i < s.len() && (forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0 != s[i].0) ==> m[(#[trigger] s[i]).0] == s[i].1
}
impl<K, V> VCollect<(K, V)> for BTreeMap<K, V> {
    open spec fn collected(s: Seq<(K, V)>, c: Self) -> bool { map_collected(s, c@) }
}
impl<T, E, C: VCollect<T>> VCollect<Result<T, E>> for Result<C, E> {
    open spec fn collected(s: Seq<Result<T, E>>, c: Self) -> bool {
        match c {
            Ok(x) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok)
                && C::collected(Seq::new(s.len(), |i: int| s[i]->Ok_0), x),
            Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<T, E>(e),
        }
    }
}

// sets

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T> { p: PhantomData<T> }
impl<T> View for BTreeSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
pub uninterp spec fn set_with<T>(v: Set<T>) -> BTreeSet<T>;
pub broadcast proof fn axiom_set_ext<T>(a: BTreeSet<T>) ensures set_with(#[trigger] a.view()) == a { admit(); }
impl<T> VClone for BTreeSet<T> { #[verifier::external_body] fn clone(&self) -> (ret: Self) { unimplemented!() } }
pub uninterp spec fn empty_set<T>() -> BTreeSet<T>;
pub broadcast proof fn axiom_set_default<T>()
    ensures (#[trigger] empty_set::<T>())@ == Set::<T>::empty() { admit(); }
/// The set with the given elements.
pub uninterp spec fn bset<T>(s: Set<T>) -> BTreeSet<T>;
pub broadcast proof fn axiom_bset<T>(s: Set<T>)
    ensures s.finite() ==> (#[trigger] bset(s))@ == s { admit(); }
impl<T> VDefault for BTreeSet<T> { open spec fn dflt() -> Self { empty_set() } }

pub open spec fn set_items<T>(s: Set<T>, q: Seq<T>) -> bool {
    q.no_duplicates() && (forall|i: int| 0 <= i < q.len() ==> s.contains(#[trigger] q[i]))
    && (forall|x: T| #[trigger] s.contains(x) ==> exists|i: int| 0 <= i < q.len() && #[trigger] q[i] == x)
}
pub open spec fn set_ref_items<'a, T>(s: Set<T>, q: Seq<&'a T>) -> bool {
    q.no_duplicates() && (forall|i: int| 0 <= i < q.len() ==> s.contains(*#[trigger] q[i]))
    && (forall|x: T| #[trigger] s.contains(x) ==> exists|i: int| 0 <= i < q.len() && *(#[trigger] q[i]) == x)
}
impl<T> BTreeSet<T> {
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(spec_contains)]
    pub fn contains(&self, x: &T) -> (ret: bool) ensures ret == self@.contains(*x) { unimplemented!() }
    pub open spec fn spec_contains(&self, x: &T) -> bool { self@.contains(*x) }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (ret: bool)
        ensures final(self)@ == old(self)@.insert(x), ret == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, x: &T) -> (ret: bool)
        ensures final(self)@ == old(self)@.remove(*x), ret == old(self)@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (ret: bool) ensures ret == (self@ == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (ret: usize) ensures ret == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (ret: VIter<&'a T>) ensures ret.wf(), ret.pos() == 0, set_ref_items(self@, ret.seq()) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (ret: VIter<T>) ensures ret.wf(), ret.pos() == 0, set_items(self@, ret.seq()) { unimplemented!() }
    #[verifier::external_body]
    pub fn difference<'a>(&'a self, other: &'a BTreeSet<T>) -> (ret: VIter<&'a T>)
        ensures ret.wf(), ret.pos() == 0, set_ref_items(self@.difference(other@), ret.seq()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_subset(&self, other: &BTreeSet<T>) -> (ret: bool) ensures ret == self@.subset_of(other@) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend<I: VIntoIter<Item = T>>(&mut self, iter: I)
        ensures exists|s: Seq<T>, c: Set<T>| #[trigger] iter.items_ok(s) && #[trigger] set_collected(s, c) && final(self)@ == old(self)@.union(c) { unimplemented!() }
}
impl<T> VIntoIter for BTreeSet<T> {
    type Item = T;
    open spec fn items_ok(self, s: Seq<T>) -> bool { set_items(self@, s) }
    #[verifier::external_body]
    fn viter(self) -> (ret: VIter<T>) { unimplemented!() }
}
impl<'a, T> VIntoIter for &'a BTreeSet<T> {
    type Item = &'a T;
    open spec fn items_ok(self, s: Seq<&'a T>) -> bool { set_ref_items(self@, s) }
    #[verifier::external_body]
    fn viter(self) -> (ret: VIter<&'a T>) { unimplemented!() }
}
impl<T, const N: usize> VFrom<[T; N]> for BTreeSet<T> {
    open spec fn vfrom_spec(t: [T; N]) -> Self { set_of_array::<T, N>(t@) }
    #[verifier::external_body]
    fn vfrom(t: [T; N]) -> (ret: Self) { unimplemented!() }
}
pub uninterp spec fn set_of_array<T, const N: usize>(t: Seq<T>) -> BTreeSet<T>;
pub broadcast proof fn axiom_set_from<T, const N: usize>(t: Seq<T>)
    ensures (#[trigger] set_of_array::<T, N>(t))@ == t.to_set() { admit(); }

// maps

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { p: PhantomData<(K, V)> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
pub uninterp spec fn map_with<K, V>(v: Map<K, V>) -> BTreeMap<K, V>;
pub broadcast proof fn axiom_map_ext<K, V>(a: BTreeMap<K, V>) ensures map_with(#[trigger] a.view()) == a { admit(); }
impl<K, V> VClone for BTreeMap<K, V> { #[verifier::external_body] fn clone(&self) -> (ret: Self) { unimplemented!() } }
pub uninterp spec fn empty_map<K, V>() -> BTreeMap<K, V>;
pub broadcast proof fn axiom_map_default<K, V>()
    ensures (#[trigger] empty_map::<K, V>())@ == Map::<K, V>::empty() { admit(); }
impl<K, V> VDefault for BTreeMap<K, V> { open spec fn dflt() -> Self { empty_map() } }

pub proof fn axiom_map_finite<K, V>(m: BTreeMap<K, V>) ensures m@.dom().finite() { admit(); }
pub open spec fn map_items<K, V>(m: Map<K, V>, q: Seq<(K, V)>) -> bool {
    (forall|i: int| 0 <= i < q.len() ==> m.contains_key((#[trigger] q[i]).0) && m[q[i].0] == q[i].1)
    && (forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == k)
    && (forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j ==> (#[trigger] q[i]).0 != (#[trigger] q[j]).0)
}
pub open spec fn map_ref_items<'a, K, V>(m: Map<K, V>, q: Seq<(&'a K, &'a V)>) -> bool {
    (forall|i: int| 0 <= i < q.len() ==> m.contains_key(*(#[trigger] q[i]).0) && m[*q[i].0] == *q[i].1)
    && (forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < q.len() && *(#[trigger] q[i]).0 == k)
    && (forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j ==> *(#[trigger] q[i]).0 != *(#[trigger] q[j]).0)
}
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (ret: Option<&'a V>)
        ensures ret == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &K) -> (ret: Option<&'a mut V>)
        ensures match ret {
            None => !old(self)@.contains_key(*k) && *final(self) == *old(self),
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
        } { unimplemented!() }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(spec_contains_key)]
    pub fn contains_key(&self, k: &K) -> (ret: bool) ensures ret == self@.contains_key(*k) { unimplemented!() }
    pub open spec fn spec_contains_key(&self, k: &K) -> bool { self@.contains_key(*k) }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (ret: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            ret == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (ret: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            ret == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (ret: bool) ensures ret == (self@ == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (ret: usize) ensures ret == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (ret: VIter<(&'a K, &'a V)>)
        ensures ret.wf(), ret.pos() == 0, map_ref_items(self@, ret.seq()) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (ret: VIter<(K, V)>)
        ensures ret.wf(), ret.pos() == 0, map_items(self@, ret.seq()) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (ret: VIter<&'a K>)
        ensures ret.wf(), ret.pos() == 0, set_ref_items(self@.dom(), ret.seq()) { unimplemented!() }
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (ret: VIter<&'a V>)
        ensures ret.wf(), ret.pos() == 0,
            forall|i: int| 0 <= i < ret.seq().len() ==> self@.contains_value(*#[trigger] ret.seq()[i]),
            forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < ret.seq().len() && *(#[trigger] ret.seq()[i]) == self@[k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, key: K) -> (ret: Entry<'a, K, V>)
        ensures match ret {
            Entry::Vacant(e) => !old(self)@.contains_key(key) && e.key == key && *e.map == *old(self) && *final(e.map) == *final(self),
            Entry::Occupied(e) => old(self)@.contains_key(key) && e.key == key && *e.map == *old(self) && *final(e.map) == *final(self),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn extend<I: VIntoIter<Item = (K, V)>>(&mut self, iter: I)
        ensures exists|s: Seq<(K, V)>, m: Map<K, V>| #[trigger] iter.items_ok(s) && #[trigger] map_collected(s, m)
            && final(self)@ == old(self)@.union_prefer_right(m) { unimplemented!() }
}
impl<K, V> VIntoIter for BTreeMap<K, V> {
    type Item = (K, V);
    open spec fn items_ok(self, s: Seq<(K, V)>) -> bool { map_items(self@, s) }
    #[verifier::external_body]
    fn viter(self) -> (ret: VIter<(K, V)>) { unimplemented!() }
}
impl<'a, K, V> VIntoIter for &'a BTreeMap<K, V> {
    type Item = (&'a K, &'a V);
    open spec fn items_ok(self, s: Seq<(&'a K, &'a V)>) -> bool { map_ref_items(self@, s) }
    #[verifier::external_body]
    fn viter(self) -> (ret: VIter<(&'a K, &'a V)>) { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
pub struct VacantEntry<'a, K, V> { pub map: &'a mut BTreeMap<K, V>, pub key: K }
#[verifier::reject_recursive_types(K)]
pub struct OccupiedEntry<'a, K, V> { pub map: &'a mut BTreeMap<K, V>, pub key: K }
#[verifier::reject_recursive_types(K)]
pub enum Entry<'a, K, V> { Vacant(VacantEntry<'a, K, V>), Occupied(OccupiedEntry<'a, K, V>) }
impl<'a, K, V> Entry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_default(self) -> (ret: &'a mut V) where V: VDefault
        ensures match self {
            Entry::Vacant(e) => *ret == V::dflt() && final(e.map)@ == (*e.map)@.insert(e.key, *final(ret)),
            Entry::Occupied(e) => *ret == (*e.map)@[e.key] && final(e.map)@ == (*e.map)@.insert(e.key, *final(ret)),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (ret: &'a mut V)
        ensures match self {
            Entry::Vacant(e) => *ret == v && final(e.map)@ == (*e.map)@.insert(e.key, *final(ret)),
            Entry::Occupied(e) => *ret == (*e.map)@[e.key] && final(e.map)@ == (*e.map)@.insert(e.key, *final(ret)),
        } { unimplemented!() }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V)
        ensures final(self.map)@ == old(self.map)@.insert(self.key, v) { unimplemented!() }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V)
        ensures final(self.map)@ == old(self.map)@.insert(self.key, v) { unimplemented!() }
}

// tinyvec

pub trait VArray { type Item; }
impl<T, const N: usize> VArray for [T; N] { type Item = T; }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct TinyVec<A: VArray> { p: PhantomData<A> }
impl<A: VArray> View for TinyVec<A> { type V = Seq<A::Item>; uninterp spec fn view(&self) -> Seq<A::Item>; }
pub uninterp spec fn tinyvec_with<A: VArray>(v: Seq<A::Item>) -> TinyVec<A>;
pub broadcast proof fn axiom_tinyvec_ext<A: VArray>(a: TinyVec<A>) ensures tinyvec_with(#[trigger] a.view()) == a { admit(); }
impl<A: VArray> VClone for TinyVec<A> { #[verifier::external_body] fn clone(&self) -> (ret: Self) { unimplemented!() } }
impl<A: VArray> TinyVec<A> {
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret@ == Seq::<A::Item>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: A::Item) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (ret: Option<A::Item>)
        ensures match ret {
            Some(x) => old(self)@.len() > 0 && x == old(self)@.last() && final(self)@ == old(self)@.drop_last(),
            None => old(self)@.len() == 0 && *final(self) == *old(self),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (ret: bool) ensures ret == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (ret: usize) ensures ret == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, i: usize) -> (ret: A::Item)
        requires i < old(self)@.len(),
        ensures ret == old(self)@[i as int], final(self)@ == old(self)@.remove(i as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, i: usize, x: A::Item)
        requires i <= old(self)@.len(),
        ensures final(self)@ == old(self)@.insert(i as int, x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize)
        ensures final(self)@ == if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<A::Item>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn last(&self) -> (ret: Option<&A::Item>)
        ensures match ret { Some(x) => self@.len() > 0 && *x == self@.last(), None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn first(&self) -> (ret: Option<&A::Item>)
        ensures match ret { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 } { unimplemented!() }
}

// consequences of the contracts above (proved)

pub broadcast proof fn lemma_collect_cloned<T>(d: Set<T>, q: Seq<&T>, s: Seq<T>, c: Set<T>)
    requires #[trigger] set_ref_items(d, q), #[trigger] set_collected(s, c), s.len() == q.len(),
        forall|i: int| #![trigger s[i]] #![trigger q[i]] 0 <= i < s.len() ==> s[i] == *q[i],
    ensures c == d
{
    assert forall|x: T| c.contains(x) <==> d.contains(x) by {
        if d.contains(x) { let i = choose|i: int| 0 <= i < q.len() && *(#[trigger] q[i]) == x; assert(s[i] == x); }
    }
    assert(c =~= d);
}
pub broadcast proof fn lemma_ref_items_empty<T>(d: Set<T>, q: Seq<&T>)
    requires #[trigger] set_ref_items(d, q)
    ensures q.len() == 0 <==> d == Set::<T>::empty()
{
    if q.len() == 0 { assert(d =~= Set::<T>::empty()); } else { assert(d.contains(*q[0])); }
}
pub broadcast proof fn lemma_items_empty<T>(d: Set<T>, q: Seq<T>)
    requires #[trigger] set_items(d, q)
    ensures q.len() == 0 <==> d == Set::<T>::empty()
{
    if q.len() == 0 { assert(d =~= Set::<T>::empty()); } else { assert(d.contains(q[0])); }
}
pub broadcast proof fn lemma_set_differences<T>(a: Set<T>, b: Set<T>)
    ensures #![trigger a.difference(b)] (a.difference(b) == Set::<T>::empty()) == a.subset_of(b)
{
    if a.difference(b) == Set::<T>::empty() {
        assert forall|x: T| a.contains(x) implies b.contains(x) by { assert(!a.difference(b).contains(x)); }
    } else {
        if a.subset_of(b) { assert(a.difference(b) =~= Set::<T>::empty()); }
    }
}
pub broadcast proof fn lemma_subsets_equal<T>(a: Set<T>, b: Set<T>)
    ensures #![trigger a.subset_of(b), b.subset_of(a)] a.subset_of(b) && b.subset_of(a) ==> a == b
{
    if a.subset_of(b) && b.subset_of(a) { assert(a =~= b); }
}
pub broadcast proof fn lemma_collect_set<T>(s: Seq<T>, c: Set<T>)
    requires #[trigger] set_collected(s, c)
    ensures forall|x: T| #[trigger] c.contains(x) <==> s.contains(x)
{}
pub broadcast proof fn lemma_concat_contains<T>(a: Seq<T>, b: Seq<T>, x: T)
    ensures (#[trigger] (a + b).contains(x)) <==> a.contains(x) || b.contains(x)
{
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert((a + b)[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert((a + b)[a.len() + i] == x); }
}
pub broadcast proof fn lemma_cloned_contains<T>(d: Set<T>, q: Seq<&T>, s: Seq<T>, x: T)
    requires #[trigger] set_ref_items(d, q), s.len() == q.len(), forall|i: int| #![trigger s[i]] #![trigger q[i]] 0 <= i < s.len() ==> s[i] == *q[i],
    ensures (#[trigger] s.contains(x)) <==> d.contains(x)
{
    if d.contains(x) { let i = choose|i: int| 0 <= i < q.len() && *(#[trigger] q[i]) == x; assert(s[i] == x); }
}
pub broadcast proof fn lemma_map_insert_same<K, V>(m: Map<K, V>, k: K, v: V)
    ensures m.contains_key(k) && m[k] == v ==> #[trigger] m.insert(k, v) == m
{ if m.contains_key(k) && m[k] == v { assert(m.insert(k, v) =~= m); } }
pub broadcast proof fn lemma_map_remove_none<K, V>(m: Map<K, V>, k: K)
    ensures !m.contains_key(k) ==> #[trigger] m.remove(k) == m
{ if !m.contains_key(k) { assert(m.remove(k) =~= m); } }
pub broadcast proof fn lemma_set_insert_same<T>(s: Set<T>, x: T)
    ensures s.contains(x) ==> #[trigger] s.insert(x) == s
{ if s.contains(x) { assert(s.insert(x) =~= s); } }
pub broadcast proof fn lemma_set_remove_none<T>(s: Set<T>, x: T)
    ensures !s.contains(x) ==> #[trigger] s.remove(x) == s
{ if !s.contains(x) { assert(s.remove(x) =~= s); } }
pub broadcast group group_lemmas { lemma_map_insert_same, lemma_map_remove_none, lemma_set_insert_same, lemma_set_remove_none, lemma_collect_set, lemma_concat_contains, lemma_cloned_contains, lemma_collect_cloned, lemma_ref_items_empty, lemma_items_empty, lemma_set_differences, lemma_subsets_equal }

pub broadcast group group_coll {
    axiom_set_ext, axiom_bset, axiom_set_from, axiom_set_default, axiom_map_ext, axiom_map_default, axiom_tinyvec_ext,
}

pub broadcast group group_pre {
    axiom_bytes_ext, axiom_be_bytes_len, axiom_be_bytes_inj, axiom_roundtrip,
}

} // verus!
