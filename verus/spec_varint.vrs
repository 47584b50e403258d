// ---------------------------------------------------------------- LEB128 specification
/// the shortest LEB128 encoding of v
pub open spec fn enc_varint(v: nat) -> Seq<u8> decreases v {
    if v < 128 { seq![v as u8] } else { seq![(v % 128 + 128) as u8] + enc_varint(v / 128) }
}
/// the LEB128 number at the start of s: (bytes used, value), of any length
pub open spec fn dec_varint(s: Seq<u8>) -> Option<(nat, nat)> decreases s.len() {
    if s.len() == 0 { None }
    else if s[0] < 128 { Some((1nat, s[0] as nat)) }
    else { match dec_varint(s.skip(1)) {
        None => None,
        Some((n, v)) => Some((n + 1, (s[0] - 128) as nat + 128 * v)),
    } }
}
/// what reading must return: (0, 0) when truncated, longer than 10 bytes or above 64 bits
pub open spec fn read_varint(s: Seq<u8>) -> (nat, nat) {
    match dec_varint(s) {
        Some((n, v)) => if n <= 10 && v < 0x1_0000_0000_0000_0000 { (n, v) } else { (0, 0) },
        None => (0, 0),
    }
}
pub open spec fn pow128(n: nat) -> nat decreases n { if n == 0 { 1 } else { 128 * pow128((n - 1) as nat) } }

pub proof fn lemma_pow128_values()
    ensures pow128(0) == 1, pow128(1) == 0x80, pow128(2) == 0x4000, pow128(3) == 0x20_0000,
        pow128(4) == 0x1000_0000, pow128(5) == 0x8_0000_0000, pow128(6) == 0x400_0000_0000,
        pow128(7) == 0x2_0000_0000_0000, pow128(8) == 0x100_0000_0000_0000,
        pow128(9) == 0x8000_0000_0000_0000, pow128(10) == 0x40_0000_0000_0000_0000,
{
    reveal_with_fuel(pow128, 11);
}
pub proof fn lemma_pow128_mono(a: nat, b: nat)
    requires a <= b
    ensures pow128(a) <= pow128(b), pow128(a) >= 1
    decreases b
{
    if a < b { lemma_pow128_mono(a, (b - 1) as nat); }
    else if a > 0 { lemma_pow128_mono((a - 1) as nat, (a - 1) as nat); }
}
/// a decoded number of n bytes is below 128^n, and at least 128^(n-1) times its last byte
pub proof fn lemma_dec_bound(s: Seq<u8>)
    ensures match dec_varint(s) {
        Some((n, v)) => 1 <= n <= s.len() && v < pow128(n) && s[n - 1] < 128
            && v >= s[n - 1] * pow128((n - 1) as nat)
            && v < (s[n - 1] + 1) * pow128((n - 1) as nat)
            && (forall|j: int| 0 <= j < n - 1 ==> #[trigger] s[j] >= 128),
        None => forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] >= 128,
    }
    decreases s.len()
{
    if s.len() == 0 {
    } else if s[0] < 128 {
        assert(pow128(0) == 1); assert(pow128(1) == 128);
        assert(s[0] * pow128(0) == s[0]) by (nonlinear_arith) requires pow128(0) == 1;
        assert((s[0] + 1) * pow128(0) == s[0] + 1) by (nonlinear_arith) requires pow128(0) == 1;
    } else {
        let t = s.skip(1);
        lemma_dec_bound(t);
        assert forall|j: int| 1 <= j < s.len() implies s[j] == t[j - 1] by {}
        match dec_varint(t) {
            Some((n, v)) => {
                assert(s[n as int] == t[n - 1]);
                let p = pow128((n - 1) as nat);
                assert(pow128(n) == 128 * p);
                let b = t[n - 1];
                assert(128 * v >= b * (128 * p)) by (nonlinear_arith) requires v >= b * p;
                assert((s[0] - 128) + 128 * v < (b + 1) * (128 * p)) by (nonlinear_arith)
                    requires v < (b + 1) * p, 128 <= s[0] < 256;
                assert(pow128(n + 1) == 128 * pow128(n));
                assert((b + 1) * (128 * p) <= 128 * (128 * p)) by (nonlinear_arith) requires b < 128, p >= 0;
                let w = ((s[0] - 128) + 128 * v) as nat;
                assert(dec_varint(s) == Some((n + 1, w)));
                assert(w < pow128(n + 1));
                assert(w >= s[n as int] * pow128(n));
                assert(w < (s[n as int] + 1) * pow128(n));
                assert forall|j: int| 0 <= j < n implies #[trigger] s[j] >= 128 by {
                    if j > 0 { assert(t[j - 1] >= 128); }
                }
            }
            None => {
                assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] >= 128 by {
                    if j > 0 { assert(t[j - 1] >= 128); }
                }
            }
        }
    }
}
/// value of the first i continuation bytes
pub open spec fn acc_varint(s: Seq<u8>, i: nat) -> nat decreases i {
    if i == 0 { 0 } else { acc_varint(s, (i - 1) as nat) + ((s[i - 1] as nat) % 128) * pow128((i - 1) as nat) }
}
pub proof fn lemma_acc_bound(s: Seq<u8>, i: nat)
    ensures acc_varint(s, i) < pow128(i)
    decreases i
{
    if i > 0 {
        lemma_acc_bound(s, (i - 1) as nat);
        let p = pow128((i - 1) as nat);
        let b = (s[i - 1] as nat) % 128;
        assert(b * p <= 127 * p) by (nonlinear_arith) requires b <= 127;
    }
}
pub proof fn lemma_acc_shift(s: Seq<u8>, i: nat)
    requires i >= 1, i <= s.len()
    ensures acc_varint(s, i) == (s[0] as nat) % 128 + 128 * acc_varint(s.skip(1), (i - 1) as nat)
    decreases i
{
    reveal_with_fuel(acc_varint, 2);
    reveal_with_fuel(pow128, 2);
    if i > 1 {
        lemma_acc_shift(s, (i - 1) as nat);
        assert(s.skip(1)[i - 2] == s[i - 1]);
        let b = (s[i - 1] as nat) % 128;
        let p = pow128((i - 2) as nat);
        assert(pow128((i - 1) as nat) == 128 * p);
        assert(b * (128 * p) == 128 * (b * p)) by (nonlinear_arith);
        let a = acc_varint(s.skip(1), (i - 2) as nat);
        assert(128 * (a + b * p) == 128 * a + 128 * (b * p));
        assert(acc_varint(s, i) == acc_varint(s, (i - 1) as nat) + b * pow128((i - 1) as nat));
        assert(acc_varint(s.skip(1), (i - 1) as nat) == a + b * p);
    } else {
        assert(acc_varint(s, 1) == (s[0] as nat) % 128 * 1);
        assert(acc_varint(s.skip(1), 0) == 0);
    }
}
pub proof fn lemma_acc_one(s: Seq<u8>)
    requires s.len() > 0
    ensures acc_varint(s, 1) == s[0] as nat % 128
{
    assert(acc_varint(s, 0) == 0);
    assert(pow128(0) == 1);
    assert(acc_varint(s, 1) == acc_varint(s, 0) + ((s[0] as nat) % 128) * pow128(0));
}
/// decoding is the accumulation of the bytes up to the first one below 128
pub proof fn lemma_dec_at(s: Seq<u8>, n: nat)
    requires 1 <= n <= s.len(), s[n - 1] < 128, forall|j: int| 0 <= j < n - 1 ==> #[trigger] s[j] >= 128
    ensures dec_varint(s) == Some((n, acc_varint(s, n)))
    decreases n
{
    if n == 1 {
        assert(s[0] < 128);
        lemma_acc_one(s);
        assert(dec_varint(s) == Some((1nat, s[0] as nat)));
        assert(acc_varint(s, 1) == s[0] as nat);
    } else {
        assert(s[0] >= 128);
        let t = s.skip(1);
        assert forall|j: int| 0 <= j < n - 2 implies #[trigger] t[j] >= 128 by { assert(s[j + 1] >= 128); }
        assert(t[n - 2] == s[n - 1]);
        lemma_dec_at(t, (n - 1) as nat);
        lemma_acc_shift(s, n);
        assert((s[0] as nat) % 128 == (s[0] - 128) as nat);
    }
}
/// no terminator in the first n bytes: not decodable in n bytes
pub proof fn lemma_dec_long(s: Seq<u8>, n: nat)
    requires n <= s.len(), forall|j: int| 0 <= j < n ==> #[trigger] s[j] >= 128
    ensures match dec_varint(s) { Some((m, v)) => m > n, None => true },
        n == s.len() ==> dec_varint(s) is None
{
    lemma_dec_bound(s);
}
pub proof fn lemma_enc_props(v: nat)
    ensures enc_varint(v).len() >= 1, v < pow128(enc_varint(v).len()),
        enc_varint(v).len() > 1 ==> v >= pow128((enc_varint(v).len() - 1) as nat),
        enc_varint(v)[enc_varint(v).len() - 1] < 128,
        forall|j: int| 0 <= j < enc_varint(v).len() - 1 ==> #[trigger] enc_varint(v)[j] >= 128,
    decreases v
{
    reveal_with_fuel(pow128, 2);
    if v >= 128 {
        lemma_enc_props(v / 128);
        let n = enc_varint(v / 128).len();
        assert(pow128(n + 1) == 128 * pow128(n));
        if n > 1 { assert(pow128(n) == 128 * pow128((n - 1) as nat)); } 
        let e = enc_varint(v / 128);
        assert forall|j: int| 0 <= j < enc_varint(v).len() - 1 implies #[trigger] enc_varint(v)[j] >= 128 by {
            if j > 0 { assert(enc_varint(v)[j] == e[j - 1]); }
        }
    }
}
/// the length of the shortest encoding is determined by the magnitude
pub proof fn lemma_enc_len(v: nat, n: nat)
    requires n >= 1, v < pow128(n), n > 1 ==> v >= pow128((n - 1) as nat)
    ensures enc_varint(v).len() == n
{
    lemma_enc_props(v);
    let m = enc_varint(v).len();
    if m < n { lemma_pow128_mono(m, (n - 1) as nat); }
    if m > n { lemma_pow128_mono(n, (m - 1) as nat); }
}
/// decoding inverts encoding, whatever follows
pub proof fn lemma_dec_enc(v: nat, rest: Seq<u8>)
    ensures dec_varint(enc_varint(v) + rest) == Some((enc_varint(v).len(), v))
    decreases v
{
    let s = enc_varint(v) + rest;
    if v < 128 {
        assert(s[0] == v as u8);
    } else {
        lemma_dec_enc(v / 128, rest);
        assert(s.skip(1) =~= enc_varint(v / 128) + rest);
        assert(s[0] == (v % 128 + 128) as u8);
    }
}
/// C01, the property itself: reading what was written gives back the value and the size
pub proof fn theorem_varint_round_trip(v: u64, rest: Seq<u8>)
    ensures read_varint(enc_varint(v as nat) + rest) == (enc_varint(v as nat).len(), v as nat),
        1 <= enc_varint(v as nat).len() <= 10,
{
    lemma_dec_enc(v as nat, rest);
    lemma_enc_props(v as nat);
    lemma_pow128_values();
    let n = enc_varint(v as nat).len();
    if n > 10 { lemma_pow128_mono(10, (n - 1) as nat); }
}
pub proof fn lemma_enc_len_u64(v: u64)
    ensures 1 <= enc_varint(v as nat).len() <= 10
{
    theorem_varint_round_trip(v, Seq::empty());
}
pub proof fn lemma_read_within(s: Seq<u8>)
    ensures read_varint(s).0 <= s.len(), read_varint(s).0 <= 10, read_varint(s).1 < 0x1_0000_0000_0000_0000
{
    lemma_dec_bound(s);
}
