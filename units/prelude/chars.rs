// ---- prelude: strings as their characters
pub trait CharsX { spec fn cs(&self) -> Seq<char>; fn vx_chars(&self) -> (r: It<char>) ensures r.i() == 0, r.wf(), r.s() == self.cs(); }
impl CharsX for str { open spec fn cs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_chars(&self) -> (r: It<char>) { unimplemented!() } }
impl CharsX for String { open spec fn cs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_chars(&self) -> (r: It<char>) { unimplemented!() } }
/// a string's characters are what its bytes decode to
pub open spec fn text(b: Seq<u8>) -> Seq<char> { decode_utf8(b) }
pub proof fn text_of(s: Seq<char>) ensures text(encode_utf8(s)) == s { encode_utf8_decode_utf8(s); }
pub trait SelfX: CharsX { fn vx_self(&self) -> (r: &str) ensures r@ == self.cs(); }
impl SelfX for str { fn vx_self(&self) -> (r: &str) { self } }
/// different texts have different bytes
pub proof fn enc_inj() ensures forall|s: Seq<char>, t: Seq<char>| #![trigger encode_utf8(s), encode_utf8(t)] encode_utf8(s) == encode_utf8(t) ==> s == t
{ assert forall|s: Seq<char>, t: Seq<char>| #![trigger encode_utf8(s), encode_utf8(t)] encode_utf8(s) == encode_utf8(t) implies s == t by { text_of(s); text_of(t); } }
/// the pieces between the bytes c
pub open spec fn split(b: Seq<u8>, c: u8) -> Seq<Seq<u8>> decreases b.len() { if hasb(b, c) { let i = choose|i: int| first_at(b, c, i); if first_at(b, c, i) { seq![b.subrange(0, i)] + split(b.subrange(i + 1, b.len() as int), c) } else { seq![b] } } else { seq![b] } }
pub open spec fn sbytes(s: Seq<&str>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i].b()) }
pub trait SplitX: Bytes { fn vx_split_char(&self, c: char) -> (r: It<&str>) requires (c as u32) < 128, ensures r.i() == 0, r.wf(), sbytes(r.s()) == split(self.b(), c as u8); }
impl SplitX for str { #[verifier::external_body] fn vx_split_char(&self, c: char) -> (r: It<&str>) { unimplemented!() } }
pub trait B_ { spec fn b_(self) -> Seq<u8>; }
impl B_ for Seq<char> { open spec fn b_(self) -> Seq<u8> { encode_utf8(self) } }
pub proof fn all_text() ensures forall|s: Seq<char>| #[trigger] text(encode_utf8(s)) == s, forall|s: Seq<char>| text(#[trigger] encode_utf8(s)) == s { assert forall|s: Seq<char>| #[trigger] text(encode_utf8(s)) == s by { text_of(s); } assert forall|s: Seq<char>| text(#[trigger] encode_utf8(s)) == s by { text_of(s); } }
