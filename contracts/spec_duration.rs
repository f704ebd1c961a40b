// ---- formatting (standard library; trusted): the characters written so far
#[verifier::external_body] pub struct Formatter<'a> { p: core::marker::PhantomData<&'a ()> }
pub struct VcFmtError;
impl<'a> View for Formatter<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub trait Display { fn fmt(&self, f: &mut Formatter<'_>) -> Result<(), VcFmtError>; }
#[verifier::external_body] pub fn vc_put(f: &mut Formatter<'_>, c: char) ensures final(f)@ == old(f)@.push(c) { unimplemented!() }
pub trait VcDec : Sized { spec fn dv(self) -> nat; }
impl VcDec for u8 { open spec fn dv(self) -> nat { self as nat } }
impl VcDec for u16 { open spec fn dv(self) -> nat { self as nat } }
impl VcDec for u32 { open spec fn dv(self) -> nat { self as nat } }
impl VcDec for u64 { open spec fn dv(self) -> nat { self as nat } }
impl VcDec for usize { open spec fn dv(self) -> nat { self as nat } }
// `{:0w}`: decimal digits, zeros in front up to the width
#[verifier::external_body] pub fn vc_put_dec<T: VcDec>(f: &mut Formatter<'_>, x: T, w: usize) ensures final(f)@ == old(f)@ + padded(x.dv(), w as nat) { unimplemented!() }
pub open spec fn dig(d: nat) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' } }
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![dig(n)] } else { dec(n / 10).push(dig(n % 10)) } }
pub open spec fn padded(n: nat, w: nat) -> Seq<char> { let s = dec(n); if s.len() >= w { s } else { Seq::new((w - s.len()) as nat, |i: int| '0') + s } }
// h:mm:ss.cc of c hundredths
pub open spec fn shown(c: nat) -> Seq<char> { dec(c / 360000).push(':') + padded(c / 6000 % 60, 2).push(':') + padded(c / 100 % 60, 2).push('.') + padded(c % 100, 2) }
pub proof fn lemma_dec_len(n: nat) ensures dec(n).len() >= 1, n < 10 ==> dec(n).len() == 1, 10 <= n < 100 ==> dec(n).len() == 2 decreases n { if n >= 10 { lemma_dec_len(n / 10); } }
// every field but the hours has two digits, minutes and seconds are below 60, and together they are the number of hundredths
pub proof fn theorem_fields(c: nat) ensures padded(c / 6000 % 60, 2).len() == 2, padded(c / 100 % 60, 2).len() == 2, padded(c % 100, 2).len() == 2, padded(c / 360000, 0) == dec(c / 360000), c / 6000 % 60 < 60, c / 100 % 60 < 60,
    c == (((c / 360000) * 60 + c / 6000 % 60) * 60 + c / 100 % 60) * 100 + c % 100
{ lemma_dec_len(c / 6000 % 60); lemma_dec_len(c / 100 % 60); lemma_dec_len(c % 100); lemma_dec_len(c / 360000); }
pub proof fn lemma_split(c: nat) ensures c / 100 / 3600 == c / 360000, c / 100 % 3600 / 60 == c / 6000 % 60, c / 100 % 3600 % 60 == c / 100 % 60 { }
