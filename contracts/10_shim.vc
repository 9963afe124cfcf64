@@ module shim
    // Stand-ins for the external crates (bytes, tokio, std collections): their contracts are assumed.
    use vstd::prelude::*;
    use vstd::utf8::*;
    pub mod prelude { pub use super::*; }

    // ---------- big endian integers
    pub open spec fn be16(v: nat) -> Seq<u8> { seq![(v / 256 % 256) as u8, (v % 256) as u8] }
    pub open spec fn be32(v: nat) -> Seq<u8> { be16(v / 65536) + be16(v % 65536) }
    pub open spec fn be64(v: nat) -> Seq<u8> { be32(v / 4294967296) + be32(v % 4294967296) }
    pub open spec fn of16(b: Seq<u8>) -> nat { b[0] as nat * 256 + b[1] as nat }
    pub open spec fn of32(b: Seq<u8>) -> nat { of16(b.subrange(0, 2)) * 65536 + of16(b.subrange(2, 4)) }
    pub open spec fn of64(b: Seq<u8>) -> nat { of32(b.subrange(0, 4)) * 4294967296 + of32(b.subrange(4, 8)) }

    // ---------- bytes::Bytes
    #[verifier::external_body] pub struct Bytes { _x: u8 }
    impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl Bytes {
        #[verifier::external_body] pub fn new() -> (r: Bytes) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
        #[verifier::external_body] pub fn remaining(&self) -> (r: usize) ensures r == self@.len(), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
        #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
        #[verifier::external_body] pub fn get_u8(&mut self) -> (r: u8) requires old(self)@.len() >= 1 ensures r == old(self)@[0], final(self)@ == old(self)@.skip(1) { unimplemented!() }
        #[verifier::external_body] pub fn get_u16(&mut self) -> (r: u16) requires old(self)@.len() >= 2 ensures r == of16(old(self)@), final(self)@ == old(self)@.skip(2) { unimplemented!() }
        #[verifier::external_body] pub fn get_u32(&mut self) -> (r: u32) requires old(self)@.len() >= 4 ensures r == of32(old(self)@), final(self)@ == old(self)@.skip(4) { unimplemented!() }
        #[verifier::external_body] pub fn get_u64(&mut self) -> (r: u64) requires old(self)@.len() >= 8 ensures r == of64(old(self)@), final(self)@ == old(self)@.skip(8) { unimplemented!() }
        #[verifier::external_body] pub fn advance(&mut self, n: usize) requires old(self)@.len() >= n ensures final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
        #[verifier::external_body] pub fn split_to(&mut self, n: usize) -> (r: Bytes) requires old(self)@.len() >= n ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
        #[verifier::external_body] pub fn split_off(&mut self, n: usize) -> (r: Bytes) requires old(self)@.len() >= n ensures final(self)@ == old(self)@.take(n as int), r@ == old(self)@.skip(n as int) { unimplemented!() }
        #[verifier::external_body] pub fn slice_to(&self, n: usize) -> (r: Bytes) requires self@.len() >= n ensures r@ == self@.take(n as int) { unimplemented!() }
        #[verifier::external_body] pub fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes) requires old(self)@.len() >= n ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
        #[verifier::external_body] pub fn chunk(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
    }
    impl Clone for Bytes { #[verifier::external_body] fn clone(&self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() } }
    impl Bytes {
        #[verifier::external_body] pub fn from<S: ByteView>(s: S) -> (r: Bytes) ensures r@ == s.bv() { unimplemented!() }
    }
    impl Default for Bytes { #[verifier::external_body] fn default() -> (r: Bytes) ensures r@ == Seq::<u8>::empty() { unimplemented!() } }

    // ---------- bytes::BytesMut
    #[verifier::external_body] pub struct BytesMut { _x: u8 }
    impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    pub trait ByteView { spec fn bv(&self) -> Seq<u8>; }
    impl ByteView for Bytes { open spec fn bv(&self) -> Seq<u8> { self@ } }
    impl ByteView for BytesMut { open spec fn bv(&self) -> Seq<u8> { self@ } }
    impl ByteView for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } }
    impl ByteView for String { open spec fn bv(&self) -> Seq<u8> { encode_utf8(self@) } }
    impl ByteView for str { open spec fn bv(&self) -> Seq<u8> { encode_utf8(self@) } }
    impl ByteView for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } }
    impl<const N: usize> ByteView for [u8; N] { open spec fn bv(&self) -> Seq<u8> { self@ } }
    impl<T: ByteView + ?Sized> ByteView for &T { open spec fn bv(&self) -> Seq<u8> { (**self).bv() } }
    impl BytesMut {
        #[verifier::external_body] pub fn new() -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn with_capacity(_n: usize) -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
        #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
        #[verifier::external_body] pub fn remaining(&self) -> (r: usize) ensures r == self@.len(), r <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
        #[verifier::external_body] pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
        #[verifier::external_body] pub fn put_u8(&mut self, v: u8) ensures final(self)@ == old(self)@ + seq![v] { unimplemented!() }
        #[verifier::external_body] pub fn put_u16(&mut self, v: u16) ensures final(self)@ == old(self)@ + be16(v as nat) { unimplemented!() }
        #[verifier::external_body] pub fn put_u32(&mut self, v: u32) ensures final(self)@ == old(self)@ + be32(v as nat) { unimplemented!() }
        #[verifier::external_body] pub fn put_u64(&mut self, v: u64) ensures final(self)@ == old(self)@ + be64(v as nat) { unimplemented!() }
        #[verifier::external_body] pub fn put_bytes(&mut self, v: u8, n: usize) ensures final(self)@ == old(self)@ + Seq::new(n as nat, |i: int| v) { unimplemented!() }
        #[verifier::external_body] pub fn put_slice<S: ByteView + ?Sized>(&mut self, s: &S) ensures final(self)@ == old(self)@ + s.bv() { unimplemented!() }
        #[verifier::external_body] pub fn extend_from_slice<S: ByteView + ?Sized>(&mut self, s: &S) ensures final(self)@ == old(self)@ + s.bv() { unimplemented!() }
        #[verifier::external_body] pub fn put<S: ByteView>(&mut self, s: S) ensures final(self)@ == old(self)@ + s.bv() { unimplemented!() }
        #[verifier::external_body] pub fn write_str(&mut self, s: &VStr) -> (r: Result<(), FmtError>) ensures r is Ok, final(self)@ == old(self)@ + encode_utf8(s@) { unimplemented!() }
        #[verifier::external_body] pub fn get_u8(&mut self) -> (r: u8) requires old(self)@.len() >= 1 ensures r == old(self)@[0], final(self)@ == old(self)@.skip(1) { unimplemented!() }
        #[verifier::external_body] pub fn get_u16(&mut self) -> (r: u16) requires old(self)@.len() >= 2 ensures r == of16(old(self)@), final(self)@ == old(self)@.skip(2) { unimplemented!() }
        #[verifier::external_body] pub fn get_u32(&mut self) -> (r: u32) requires old(self)@.len() >= 4 ensures r == of32(old(self)@), final(self)@ == old(self)@.skip(4) { unimplemented!() }
        #[verifier::external_body] pub fn advance(&mut self, n: usize) requires old(self)@.len() >= n ensures final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
        #[verifier::external_body] pub fn split_to(&mut self, n: usize) -> (r: BytesMut) requires old(self)@.len() >= n ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
        #[verifier::external_body] pub fn split(&mut self) -> (r: BytesMut) ensures r@ == old(self)@, final(self)@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n as int <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
        #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn chunk(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn capacity(&self) -> (r: usize) ensures r >= self@.len() { unimplemented!() }
        #[verifier::external_body] pub fn has_remaining(&self) -> (r: bool) ensures r == (self@.len() > 0) { unimplemented!() }
        #[verifier::external_body] pub fn get_u64(&mut self) -> (r: u64) requires old(self)@.len() >= 8 ensures r == of64(old(self)@), final(self)@ == old(self)@.skip(8) { unimplemented!() }
        #[verifier::external_body] pub fn resize(&mut self, n: usize, v: u8)
            ensures final(self)@ == (if n as int <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ + Seq::new((n - old(self)@.len()) as nat, |i: int| v) }) { unimplemented!() }
        #[verifier::external_body] pub fn split_off(&mut self, n: usize) -> (r: BytesMut) requires old(self)@.len() >= n ensures final(self)@ == old(self)@.take(n as int), r@ == old(self)@.skip(n as int) { unimplemented!() }
        #[verifier::external_body] pub fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes) requires old(self)@.len() >= n ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
        #[verifier::external_body] pub fn unsplit(&mut self, o: BytesMut) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
        #[verifier::external_body] pub fn vp_slice_to(&self, n: usize) -> (r: &[u8]) requires n <= self@.len() ensures r@ == self@.take(n as int) { unimplemented!() }
        #[verifier::external_body] pub fn vp_slice_from(&self, n: usize) -> (r: &[u8]) requires n <= self@.len() ensures r@ == self@.skip(n as int) { unimplemented!() }
    }
    impl Default for BytesMut { #[verifier::external_body] fn default() -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() } }
    impl Bytes {
        #[verifier::external_body] pub fn has_remaining(&self) -> (r: bool) ensures r == (self@.len() > 0) { unimplemented!() }
        #[verifier::external_body] pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n as int <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
        #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn copy_from_slice<S: ByteView + ?Sized>(s: &S) -> (r: Bytes) ensures r@ == s.bv() { unimplemented!() }
        #[verifier::external_body] pub fn vp_slice_from(&self, n: usize) -> (r: &[u8]) requires n <= self@.len() ensures r@ == self@.skip(n as int) { unimplemented!() }
        #[verifier::external_body] pub fn vp_slice_to(&self, n: usize) -> (r: &[u8]) requires n <= self@.len() ensures r@ == self@.take(n as int) { unimplemented!() }
    }
    #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Cursor<T> { _x: T }
    impl<T> View for Cursor<T> { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl<T: ByteView> Cursor<T> {
        #[verifier::external_body] pub fn new(t: T) -> (r: Cursor<T>) ensures r@ == t.bv() { unimplemented!() }
        #[verifier::external_body] pub fn get_u16(&mut self) -> (r: u16) requires old(self)@.len() >= 2 ensures r == of16(old(self)@), final(self)@ == old(self)@.skip(2) { unimplemented!() }
        #[verifier::external_body] pub fn get_u8(&mut self) -> (r: u8) requires old(self)@.len() >= 1 ensures r == old(self)@[0], final(self)@ == old(self)@.skip(1) { unimplemented!() }
        #[verifier::external_body] pub fn get_u32(&mut self) -> (r: u32) requires old(self)@.len() >= 4 ensures r == of32(old(self)@), final(self)@ == old(self)@.skip(4) { unimplemented!() }
        #[verifier::external_body] pub fn advance(&mut self, n: usize) requires old(self)@.len() >= n ensures final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
        #[verifier::external_body] pub fn remaining(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    }
    #[verifier::external_body] pub fn size_of<T>() -> (r: usize) ensures r == vstd::layout::size_of::<T>() { unimplemented!() }

    // ---------- strings and errors
    #[verifier::external_body] pub struct FmtError { _x: u8 }
    pub enum ParseError { VariantNotFound }
    #[verifier::external_body] pub struct StdIoError { _x: u8 }
    #[verifier::external_body] pub fn vp_format() -> (r: String) { unimplemented!() }
    #[verifier::external_body] pub fn vp_panic<T>() -> (r: T) requires false { unimplemented!() }
    pub use std::string::FromUtf8Error;
    #[verifier::external_type_specification] #[verifier::external_body] pub struct ExFromUtf8Error(std::string::FromUtf8Error);
    pub assume_specification [ String::from_utf8 ] (v: Vec<u8>) -> (r: Result<String, FromUtf8Error>)
        ensures match r { Ok(s) => valid_utf8(v@) && s@ == decode_utf8(v@) && encode_utf8(s@) == v@, Err(_) => !valid_utf8(v@) };
    /// copies of plain data are equal (the crate copies u8 only)
    pub assume_specification<T: Clone> [ <[T]>::to_vec ] (s: &[T]) -> (r: Vec<T>) ensures r@ == s@;
    pub struct SendError<T>(pub T);
    #[verifier::external_body] #[verifier::accept_recursive_types(E)] pub struct RunError<E> { _x: E }
    #[verifier::external_body] pub struct SerdeError { _x: u8 }

    // ---------- num_traits::FromPrimitive
    pub trait FromPrimitive: Sized {
        spec fn prim(n: int) -> Option<Self>;
        fn from_i64(n: i64) -> (r: Option<Self>) ensures r == Self::prim(n as int);
        fn from_u64(n: u64) -> (r: Option<Self>) requires n <= i64::MAX ensures r == Self::prim(n as int);
        fn from_u8(n: u8) -> (r: Option<Self>) ensures r == Self::prim(n as int) { Self::from_u64(n as u64) }
    }

    /// `str` behind AsRef<str>
    #[verifier::external_body] pub struct VStr { _x: u8 }
    impl View for VStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
    impl VStr {
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == encode_utf8(self@).len() { unimplemented!() }
    }
    pub trait AsRefStr { spec fn sv(&self) -> Seq<char>; fn as_ref(&self) -> (r: &VStr) ensures r@ == self.sv(); }
    impl AsRefStr for String { open spec fn sv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_ref(&self) -> &VStr { unimplemented!() } }
    impl AsRefStr for &str { open spec fn sv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_ref(&self) -> &VStr { unimplemented!() } }
    impl<T: AsRefStr> AsRefStr for &T { open spec fn sv(&self) -> Seq<char> { (**self).sv() } #[verifier::external_body] fn as_ref(&self) -> &VStr { unimplemented!() } }
    /// TryInto<usize> for the integer types used as length fields
    pub trait TryIntoUsize: Sized { spec fn uv(self) -> usize; fn try_into(self) -> (r: Result<usize, core::num::TryFromIntError>) ensures r == Ok::<usize, core::num::TryFromIntError>(self.uv()); }
    impl TryIntoUsize for u8 { open spec fn uv(self) -> usize { self as usize } fn try_into(self) -> (r: Result<usize, core::num::TryFromIntError>) { Ok(self as usize) } }
    impl TryIntoUsize for u16 { open spec fn uv(self) -> usize { self as usize } fn try_into(self) -> (r: Result<usize, core::num::TryFromIntError>) { Ok(self as usize) } }

    // ---------- std collections
    pub trait VpIntoIter: Sized { type It; fn vp_into_iter(self) -> Self::It; }
    pub trait KeyView { type KV; spec fn kv(&self) -> Self::KV; }
    impl KeyView for String { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
    impl KeyView for u32 { type KV = u32; open spec fn kv(&self) -> u32 { *self } }
    impl KeyView for str { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
    impl<T: KeyView + ?Sized> KeyView for &T { type KV = T::KV; open spec fn kv(&self) -> T::KV { (**self).kv() } }
    #[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct HashMap<K, V> { _k: K, _v: V }
    impl<K: KeyView, V> View for HashMap<K, V> { type V = Map<K::KV, V>; uninterp spec fn view(&self) -> Map<K::KV, V>; }
    impl<K: KeyView, V> HashMap<K, V> {
        #[verifier::external_body] pub fn new() -> (r: HashMap<K, V>) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn with_capacity(_n: usize) -> (r: HashMap<K, V>) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
        #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
            ensures final(self)@ == old(self)@.insert(k.kv(), v), r == (if old(self)@.contains_key(k.kv()) { Some(old(self)@[k.kv()]) } else { None }) { unimplemented!() }
        #[verifier::external_body] pub fn get<Q: KeyView<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
            ensures match r { Some(v) => self@.contains_key(k.kv()) && *v == self@[k.kv()], None => !self@.contains_key(k.kv()) } { unimplemented!() }
        #[verifier::external_body] pub fn contains_key<Q: KeyView<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.kv()) { unimplemented!() }
        #[verifier::external_body] pub fn remove<Q: KeyView<KV = K::KV> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
            ensures final(self)@ == old(self)@.remove(k.kv()), r == (if old(self)@.contains_key(k.kv()) { Some(old(self)@[k.kv()]) } else { None }) { unimplemented!() }
        #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<K::KV, V>::empty() { unimplemented!() }
    }
    impl<K: KeyView, V> Default for HashMap<K, V> { #[verifier::external_body] fn default() -> (r: HashMap<K, V>) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() } }
    /// some enumeration of the entries of a map
    pub open spec fn entries_of<K: KeyView, V>(m: Map<K::KV, V>, s: Seq<(K, V)>) -> bool {
        &&& s.len() == m.len()
        &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0.kv()) && m[s[i].0.kv()] == s[i].1
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.kv() != (#[trigger] s[j]).0.kv()
    }
    #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct VpSeqIter<T> { _x: T }
    impl<T> View for VpSeqIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
    impl<T> VpSeqIter<T> {
        #[verifier::external_body] pub fn vp_next(&mut self) -> (r: Option<T>)
            ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    }
    impl<K: KeyView, V> VpIntoIter for HashMap<K, V> {
        type It = VpSeqIter<(K, V)>;
        #[verifier::external_body] fn vp_into_iter(self) -> (r: VpSeqIter<(K, V)>) ensures entries_of(self@, r@) { unimplemented!() }
    }
    #[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct VecDeque<T> { _x: T }
    impl<T> View for VecDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
    impl<T> VecDeque<T> {
        #[verifier::external_body] pub fn new() -> (r: VecDeque<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn with_capacity(_n: usize) -> (r: VecDeque<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
        #[verifier::external_body] pub fn push_back(&mut self, v: T) ensures final(self)@ == old(self)@.push(v) { unimplemented!() }
        #[verifier::external_body] pub fn push_front(&mut self, v: T) ensures final(self)@ == seq![v] + old(self)@ { unimplemented!() }
        #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>)
            ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
        #[verifier::external_body] pub fn pop_back(&mut self) -> (r: Option<T>)
            ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@.last() && final(self)@ == old(self)@.drop_last(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
        #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn back(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@.last(), None => self@.len() == 0 } { unimplemented!() }
        #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Option<&T>) ensures match r { Some(x) => i < self@.len() && *x == self@[i as int], None => i >= self@.len() } { unimplemented!() }
        #[verifier::external_body] pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n as int <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
        #[verifier::external_body] pub fn append(&mut self, o: &mut VecDeque<T>) ensures final(self)@ == old(self)@ + old(o)@, final(o)@ == Seq::<T>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn front(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 } { unimplemented!() }
    }
    impl<T> VpIntoIter for VecDeque<T> {
        type It = VpSeqIter<T>;
        #[verifier::external_body] fn vp_into_iter(self) -> (r: VpSeqIter<T>) ensures r@ == self@ { unimplemented!() }
    }
    impl<T> VpIntoIter for Vec<T> {
        type It = VpSeqIter<T>;
        #[verifier::external_body] fn vp_into_iter(self) -> (r: VpSeqIter<T>) ensures r@ == self@ { unimplemented!() }
    }

    // ---------- iteration: `for` loops are desugared to these
    pub struct VpRange { pub cur: i32, pub end: i32 }
    impl VpIntoIter for core::ops::Range<i32> {
        type It = VpRange;
        fn vp_into_iter(self) -> (r: VpRange) ensures r.cur == self.start, r.end == self.end { VpRange { cur: self.start, end: self.end } }
    }
    impl VpRange {
        pub fn vp_next(&mut self) -> (r: Option<i32>)
            ensures final(self).end == old(self).end,
                match r { Some(v) => old(self).cur < old(self).end && v == old(self).cur && final(self).cur == old(self).cur + 1, None => old(self).cur >= old(self).end && final(self).cur == old(self).cur }
        { if self.cur < self.end { let v = self.cur; self.cur = self.cur + 1; Some(v) } else { None } }
    }
    pub struct VpRangeU { pub cur: usize, pub end: usize }
    impl VpIntoIter for core::ops::Range<usize> {
        type It = VpRangeU;
        fn vp_into_iter(self) -> (r: VpRangeU) ensures r.cur == self.start, r.end == self.end { VpRangeU { cur: self.start, end: self.end } }
    }
    impl VpRangeU {
        pub fn vp_next(&mut self) -> (r: Option<usize>)
            ensures final(self).end == old(self).end,
                match r { Some(v) => old(self).cur < old(self).end && v == old(self).cur && final(self).cur == old(self).cur + 1, None => old(self).cur >= old(self).end && final(self).cur == old(self).cur }
        { if self.cur < self.end { let v = self.cur; self.cur = self.cur + 1; Some(v) } else { None } }
    }
