=== file manul/src/utils/serializable_map.rs in smap
/// What the data format gives as the elements of a sequence, when they are read as ones of the type `T`:
/// the elements that can be read one after the other, and whether it then ends or fails.
pub trait SeqAccess<'de>: Sized {
    type Error: Error;
    spec fn elems<T>(&self) -> Seq<T>;
    spec fn broken<T>(&self) -> bool;
    fn next_element<T>(&mut self) -> (ret: Result<Option<T>, Self::Error>)
        ensures final(self).broken::<T>() == old(self).broken::<T>(),
            match ret {
                Ok(Some(x)) => old(self).elems::<T>().len() > 0 && x == old(self).elems::<T>()[0] && final(self).elems::<T>() == old(self).elems::<T>().drop_first(),
                Ok(None) => *final(self) == *old(self) && old(self).elems::<T>().len() == 0 && !old(self).broken::<T>(),
                Err(_) => old(self).elems::<T>().len() == 0 && old(self).broken::<T>(),
            };
}
/// `serde::de::Error`
pub trait Error: Sized {
    fn custom(s: String) -> (ret: Self);
}
pub trait Visitor<'de>: Sized {
    type Value;
    spec fn visits<M: SeqAccess<'de>>(access: M, r: Result<Self::Value, M::Error>) -> bool;
    fn visit_seq<M: SeqAccess<'de>>(self, access: M) -> (ret: Result<Self::Value, M::Error>)
        ensures Self::visits(access, ret);
}
pub uninterp spec fn element<T>(x: T) -> int;
/// What is written for a sequence of elements.
pub trait SerializeSeq: Sized {
    type Ok;
    type Error;
    spec fn announced(&self) -> Option<usize>;
    spec fn written(&self) -> Seq<int>;
    spec fn encodes(ok: Self::Ok, elems: Seq<int>) -> bool;
    fn serialize_element<T>(&mut self, value: &T) -> (ret: Result<(), Self::Error>)
        ensures final(self).announced() == old(self).announced(), ret is Ok ==> final(self).written() == old(self).written().push(element(*value));
    /// the number of elements is the announced one
    fn end(self) -> (ret: Result<Self::Ok, Self::Error>)
        requires self.announced() matches Some(n) ==> n == self.written().len()
        ensures ret matches Ok(o) ==> Self::encodes(o, self.written());
}
pub trait Serializer: Sized {
    type Ok;
    type Error;
    type SerializeSeq: SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
    fn serialize_seq(self, len: Option<usize>) -> (ret: Result<Self::SerializeSeq, Self::Error>)
        ensures ret matches Ok(s) ==> s.announced() == len && s.written() == Seq::<int>::empty();
}
pub trait Serialize {
    spec fn serializes<S: Serializer>(&self, ok: S::Ok) -> bool;
    fn serialize<S: Serializer>(&self, serializer: S) -> (ret: Result<S::Ok, S::Error>)
        ensures ret matches Ok(o) ==> self.serializes::<S>(o);
}
pub trait Deserializer<'de>: Sized {
    type Error: Error;
    type Access: SeqAccess<'de, Error = Self::Error>;
    spec fn sequence(self) -> Self::Access;
    spec fn not_a_sequence(self) -> bool;
    fn deserialize_seq<V: Visitor<'de>>(self, visitor: V) -> (ret: Result<V::Value, Self::Error>)
        ensures !self.not_a_sequence() ==> V::visits(self.sequence(), ret), self.not_a_sequence() ==> ret is Err;
}
pub trait Deserialize<'de>: Sized {
    spec fn reads<D: Deserializer<'de>>(deserializer: D, r: Result<Self, D::Error>) -> bool;
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> (ret: Result<Self, D::Error>)
        ensures Self::reads(deserializer, ret);
}

pub open spec fn keys_distinct<K, V>(s: Seq<(K, V)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
}
/// `r` is what the elements of the sequence make as a map: the map of the pairs if all of them can be read and
/// no key is there twice, an error otherwise.
pub open spec fn reads_map<'de, K, V, M: SeqAccess<'de>>(access: M, r: Result<SerializableMap<K, V>, M::Error>) -> bool {
    match r {
        Ok(m) => !access.broken::<(K, V)>() && map_items(m.0@, access.elems::<(K, V)>()),
        Err(_) => access.broken::<(K, V)>() || !keys_distinct(access.elems::<(K, V)>()),
    }
}
/// The sequence of the pairs of the map, in the order in which they are iterated.
pub open spec fn pair_elems<'a, K, V>(m: Map<K, V>, elems: Seq<int>, q: Seq<(&'a K, &'a V)>) -> bool {
    map_ref_items(m, q) && elems == q.map_values(|p: (&'a K, &'a V)| element(p))
}
=== member SerializableMap as Deserialize
    open spec fn reads<D: Deserializer<'de>>(d: D, r: Result<Self, D::Error>) -> bool {
        if d.not_a_sequence() { r is Err } else { reads_map(d.sequence(), r) }
    }
=== member SerializableMap as Serialize
    open spec fn serializes<S: Serializer>(&self, ok: S::Ok) -> bool {
        exists|q: Seq<(&K, &V)>, e: Seq<int>| #[trigger] pair_elems(self.0@, e, q) && S::SerializeSeq::encodes(ok, e)
    }
=== member MapVisitor as Visitor
    open spec fn visits<M: SeqAccess<'de>>(access: M, r: Result<Self::Value, M::Error>) -> bool { reads_map(access, r) }
=== member SerializableMap as From<BTreeMap<K,V>>
    open spec fn vfrom_spec(m: BTreeMap<K, V>) -> Self { Self(m) }
=== member BTreeMap as From<SerializableMap<K,V>>
    open spec fn vfrom_spec(m: SerializableMap<K, V>) -> Self { m.0 }
=== raw the pairs of a map
pub proof fn lemma_items_len<'a, K, V>(m: Map<K, V>, q: Seq<(&'a K, &'a V)>)
    requires map_ref_items(m, q)
    ensures m.dom().finite(), m.len() == q.len()
{
    let keys = q.map_values(|p: (&'a K, &'a V)| *p.0);
    assert(keys.no_duplicates());
    keys.unique_seq_to_set();
    assert(keys.to_set() =~= m.dom()) by {
        assert forall|k: K| #[trigger] m.contains_key(k) implies keys.to_set().contains(k) by {
            let i = choose|i: int| 0 <= i < q.len() && *(#[trigger] q[i]).0 == k;
            assert(keys[i] == k);
        }
        assert forall|k: K| keys.to_set().contains(k) implies m.contains_key(k) by {
            let i = choose|i: int| 0 <= i < keys.len() && keys[i] == k;
            assert(m.contains_key(*q[i].0));
        }
    }
}
pub proof fn lemma_next_item<K, V>(m: Map<K, V>, all: Seq<(K, V)>, n: int)
    requires 0 <= n < all.len(), map_items(m, all.take(n))
    ensures m.contains_key(all[n].0) ==> !smap::keys_distinct(all),
        !m.contains_key(all[n].0) ==> map_items(m.insert(all[n].0, all[n].1), all.take(n + 1)),
{
    let (a, b) = (all.take(n), all.take(n + 1));
    assert(b =~= a.push(all[n]));
    if m.contains_key(all[n].0) {
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == all[n].0;
        assert(all[i].0 == all[n].0);
    } else {
        let m2 = m.insert(all[n].0, all[n].1);
        assert forall|i: int| 0 <= i < b.len() implies m2.contains_key((#[trigger] b[i]).0) && m2[b[i].0] == b[i].1 by {
            if i < n { assert(b[i] == a[i]); assert(m.contains_key(a[i].0)); }
        }
        assert forall|k: K| #[trigger] m2.contains_key(k) implies exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == k by {
            if m.contains_key(k) {
                let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == k;
                assert(b[i] == a[i]);
            } else { assert(b[n].0 == k); }
        }
        assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies (#[trigger] b[i]).0 != (#[trigger] b[j]).0 by {
            if i < n { assert(b[i] == a[i]); assert(m.contains_key(a[i].0)); }
            if j < n { assert(b[j] == a[j]); assert(m.contains_key(a[j].0)); }
        }
    }
}
=== fn SerializableMap as Serialize::serialize
@props P17
=== fn SerializableMap as Serialize::serialize | loop 0
map_ref_items(self.0@, __seq0), seq.announced() matches Some(n) && n == self.0@.len(),
seq.written() == __seq0.take(__it0.pos()).map_values(|p: (&K, &V)| smap::element(p)),
=== fn SerializableMap as Serialize::serialize | proof loop 0 after
proof { lemma_items_len(self.0@, __seq0); assert(__seq0.take(__it0.pos()) =~= __seq0); assert(pair_elems(self.0@, seq.written(), __seq0)); }
=== fn MapVisitor as Visitor::visit_seq
@props P17
@attr #[verifier::loop_isolation(false)]
=== fn MapVisitor as Visitor::visit_seq | loop 0
invariant access.broken::<(K, V)>() == __b, 0 <= __n <= __all.len(),
access.elems::<(K, V)>() == __all.skip(__n),
map_items(map.0@, __all.take(__n)),
decreases access.elems::<(K, V)>().len()
=== fn MapVisitor as Visitor::visit_seq | proof start
let ghost __b = access.broken::<(K, V)>(); let ghost __all = access.elems::<(K, V)>(); let ghost mut __n: int = 0;
=== fn MapVisitor as Visitor::visit_seq | proof loop 0 start
proof { if access.elems::<(K, V)>().len() > 0 { lemma_next_item(map.0@, __all, __n); __n = __n + 1; } else { assert(__all.take(__n) =~= __all); } }
=== skip -
MapVisitor as Visitor::expecting
