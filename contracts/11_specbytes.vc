@@ module bytelib
    // ---------- big endian integers are inverse to each other
    pub proof fn lemma_be16(v: nat)
        requires v < 65536
        ensures be16(v).len() == 2, of16(be16(v)) == v
    { assert(v / 256 % 256 == v / 256); assert(v == (v / 256) * 256 + v % 256); }
    pub proof fn lemma_be32(v: nat)
        requires v < 4294967296
        ensures be32(v).len() == 4, of32(be32(v)) == v
    {
        lemma_be16(v / 65536); lemma_be16(v % 65536);
        assert(be32(v).subrange(0, 2) =~= be16(v / 65536)); assert(be32(v).subrange(2, 4) =~= be16(v % 65536));
    }
    pub proof fn lemma_be64(v: nat)
        requires v < 18446744073709551616
        ensures be64(v).len() == 8, of64(be64(v)) == v
    {
        lemma_be32(v / 4294967296); lemma_be32(v % 4294967296);
        assert(be64(v).subrange(0, 4) =~= be32(v / 4294967296)); assert(be64(v).subrange(4, 8) =~= be32(v % 4294967296));
    }
    /// the integers read from a longer sequence are those of its prefix
    pub proof fn lemma_of_prefix(a: Seq<u8>, b: Seq<u8>)
        ensures a.len() >= 2 ==> of16(a + b) == of16(a), a.len() >= 4 ==> of32(a + b) == of32(a), a.len() >= 8 ==> of64(a + b) == of64(a)
    {
        if a.len() >= 4 { assert((a + b).subrange(0, 2) =~= a.subrange(0, 2)); assert((a + b).subrange(2, 4) =~= a.subrange(2, 4)); }
        if a.len() >= 8 {
            assert((a + b).subrange(0, 4) =~= a.subrange(0, 4)); assert((a + b).subrange(4, 8) =~= a.subrange(4, 8));
        }
    }
    pub proof fn lemma_skip(a: Seq<u8>, b: Seq<u8>)
        ensures (a + b).skip(a.len() as int) == b, (a + b).take(a.len() as int) == a
    { assert((a + b).skip(a.len() as int) =~= b); assert((a + b).take(a.len() as int) =~= a); }
    pub proof fn lemma_of_range(b: Seq<u8>)
        ensures b.len() >= 2 ==> of16(b) < 65536, b.len() >= 4 ==> of32(b) < 4294967296, b.len() >= 8 ==> of64(b) < 18446744073709551616
    {
        if b.len() >= 4 { assert(of16(b.subrange(0, 2)) < 65536); assert(of16(b.subrange(2, 4)) < 65536); }
        if b.len() >= 8 {
            let x = b.subrange(0, 4); let y = b.subrange(4, 8);
            assert(of16(x.subrange(0, 2)) < 65536); assert(of16(x.subrange(2, 4)) < 65536);
            assert(of16(y.subrange(0, 2)) < 65536); assert(of16(y.subrange(2, 4)) < 65536);
        }
    }
    pub broadcast proof fn b_add_assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
        ensures #[trigger] ((a + b) + c) == a + (b + c)
    { assert((a + b) + c =~= a + (b + c)); }
    pub broadcast proof fn b_skip_skip<T>(b: Seq<T>, i: int, j: int)
        requires 0 <= i, 0 <= j, i + j <= b.len()
        ensures #[trigger] b.skip(i).skip(j) == b.skip(i + j)
    { assert(b.skip(i).skip(j) =~= b.skip(i + j)); }
    pub broadcast proof fn b_skip_zero<T>(b: Seq<T>)
        ensures #[trigger] b.skip(0) == b
    { assert(b.skip(0) =~= b); }
    pub broadcast proof fn b_empty_left<T>(b: Seq<T>)
        ensures #[trigger] (Seq::<T>::empty() + b) == b
    { assert(Seq::<T>::empty() + b =~= b); }
    pub broadcast proof fn b_empty_right<T>(b: Seq<T>)
        ensures #[trigger] (b + Seq::<T>::empty()) == b
    { assert(b + Seq::<T>::empty() =~= b); }
    pub broadcast proof fn b_add_skip<T>(a: Seq<T>, b: Seq<T>, n: int)
        requires n == a.len()
        ensures #[trigger] (a + b).skip(n) == b
    { assert((a + b).skip(n) =~= b); }
    pub broadcast proof fn b_add_take<T>(a: Seq<T>, b: Seq<T>, n: int)
        requires n == a.len()
        ensures #[trigger] (a + b).take(n) == a
    { assert((a + b).take(n) =~= a); }
    pub broadcast group group_bytes { b_add_assoc, b_skip_skip, b_skip_zero, b_empty_left, b_empty_right, b_add_skip, b_add_take }
