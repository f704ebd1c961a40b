// ---- symphonia, as far as the tools use it (all trusted): files, tracks, packets, decoded buffers
#[verifier::external_body] pub struct AnyErr { p: () }
#[verifier::external_body] pub fn vc_anyhow<E>(e: E) -> AnyErr { unimplemented!() }
pub trait Context<T> : Sized { spec fn got(self) -> Option<T>; fn context(self, m: &str) -> (r: Result<T, AnyErr>) ensures r is Ok <==> self.got() is Some, r matches Ok(v) ==> self.got() == Some(v); }
impl<T, E> Context<T> for Result<T, E> { open spec fn got(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } } #[verifier::external_body] fn context(self, m: &str) -> (r: Result<T, AnyErr>) { unimplemented!() } }
impl<T> Context<T> for Option<T> { open spec fn got(self) -> Option<T> { self } #[verifier::external_body] fn context(self, m: &str) -> (r: Result<T, AnyErr>) { unimplemented!() } }
// Option and Result under one name (R22)
pub struct VcNone { }
pub trait VcSplit<T, E> : Sized { spec fn parts(self) -> Result<T, E>; }
impl<T, E> VcSplit<T, E> for Result<T, E> { open spec fn parts(self) -> Result<T, E> { self } }
impl<T> VcSplit<T, VcNone> for Option<T> { open spec fn parts(self) -> Result<T, VcNone> { match self { Some(v) => Ok(v), None => Err(VcNone { }) } } }
#[verifier::external_body] pub fn vc_split<T, E, X: VcSplit<T, E>>(x: X) -> (r: Result<T, E>) ensures r == x.parts() { unimplemented!() }
#[verifier::external_body] pub fn vc_fail<T, E, X: VcSplit<T, E>>(e: E) -> (r: X) ensures r.parts() == Err::<T, E>(e) { unimplemented!() }
pub fn vc_taken<T>(o: Option<T>) -> (r: T) requires o is Some ensures o == Some(r) { o.unwrap() }

pub struct Path { pub p: u64 }
pub struct OsStr { pub p: u64 }
impl OsStr { #[verifier::external_body] pub fn to_str(&self) -> Option<&str> { unimplemented!() } }
impl Path { #[verifier::external_body] pub fn extension(&self) -> Option<&OsStr> { unimplemented!() } }
pub struct PathBuf { pub path: Path }
impl PathBuf { pub fn as_ref(&self) -> (r: &Path) ensures *r == self.path { &self.path } }
pub enum Error { DecodeError(&'static str), Other }
#[verifier::external_body] pub struct File { p: () }
impl File { pub uninterp spec fn path(&self) -> Path;
 #[verifier::external_body] pub fn open(p: &Path) -> (r: Result<File, Error>) ensures r matches Ok(f) ==> f.path() == *p { unimplemented!() } }
pub struct MediaSourceStreamOptions { }
impl Default for MediaSourceStreamOptions { fn default() -> Self { MediaSourceStreamOptions { } } }
#[verifier::external_body] pub struct MediaSourceStream { p: () }
impl MediaSourceStream { pub uninterp spec fn path(&self) -> Path;
 #[verifier::external_body] pub fn new(f: File, o: MediaSourceStreamOptions) -> (r: MediaSourceStream) ensures r.path() == f.path() { unimplemented!() } }
pub struct Hint { }
impl Hint { pub fn new() -> Hint { Hint { } } #[verifier::external_body] pub fn with_extension(&mut self, e: &str) { unimplemented!() } }
pub struct MetadataOptions { }
impl Default for MetadataOptions { fn default() -> Self { MetadataOptions { } } }
pub struct FormatOptions { }
impl Default for FormatOptions { fn default() -> Self { FormatOptions { } } }
pub struct DecoderOptions { }
impl Default for DecoderOptions { fn default() -> Self { DecoderOptions { } } }
pub type CodecType = u32;
pub const CODEC_TYPE_NULL: CodecType = 0;
#[derive(Clone, Copy)] pub struct Layout { pub l: u32 }
#[derive(Clone, Copy)] pub struct Channels { pub n: u32 }
pub uninterp spec fn layout_channels(l: Layout) -> Channels;
impl Layout { #[verifier::external_body] pub fn into_channels(self) -> (r: Channels) ensures r == layout_channels(self) { unimplemented!() } }
impl Channels { #[verifier::external_body] pub fn count(&self) -> (r: usize) ensures r == self.n { unimplemented!() } }
pub struct CodecParameters { pub codec: CodecType, pub sample_rate: Option<u32>, pub channels: Option<Channels>, pub channel_layout: Option<Layout> }
impl CodecParameters {
    // number of channels: as given, or else those of the layout
    pub open spec fn nch(&self) -> int { match self.channels { Some(c) => c.n as int, None => match self.channel_layout { Some(l) => layout_channels(l).n as int, None => -1 } } }
}
// most frames a decoder with these parameters puts into one buffer
pub uninterp spec fn room_of(p: CodecParameters) -> nat;
pub struct Track { pub id: u32, pub codec_params: CodecParameters }
// the track that is fingerprinted: the first one with a codec
pub open spec fn is_chosen(ts: Seq<Track>, i: int) -> bool { 0 <= i < ts.len() && ts[i].codec_params.codec != CODEC_TYPE_NULL && forall|j: int| 0 <= j < i ==> (#[trigger] ts[j]).codec_params.codec == CODEC_TYPE_NULL }
pub open spec fn chosen_track(p: Path, t: &Track) -> bool { exists|i: int| #[trigger] is_chosen(tracks_of(p), i) && *t == tracks_of(p)[i] }
pub uninterp spec fn tracks_of(p: Path) -> Seq<Track>;
pub struct Packet { pub track: u32, pub data: u64 }
impl Packet { pub fn track_id(&self) -> (r: u32) ensures r == self.track { self.track } }
#[verifier::external_body] pub struct Probe { p: () }
pub struct ProbeResult { pub format: FormatReader }
#[verifier::external_body] pub fn get_probe() -> Probe { unimplemented!() }
impl Probe { #[verifier::external_body] pub fn format(&self, h: &Hint, s: MediaSourceStream, f: &FormatOptions, m: &MetadataOptions) -> (r: Result<ProbeResult, Error>) ensures r matches Ok(p) ==> p.format.path() == s.path() { unimplemented!() } }
#[verifier::external_body] pub struct FormatReader { p: () }
impl FormatReader {
    pub uninterp spec fn path(&self) -> Path;
    #[verifier::external_body] pub fn tracks(&self) -> (r: &Vec<Track>) ensures r@ == tracks_of(self.path()) { unimplemented!() }
    #[verifier::external_body] pub fn next_packet(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<Packet, Error>)
        ensures final(self).path() == old(self).path(),
            r matches Ok(p) ==> *final(w) == (World { offered: old(w).offered.push(p), ..*old(w) }),
            r is Err ==> *final(w) == (World { eof: true, ..*old(w) }) { unimplemented!() }
}
// rate, channels and track are those of the first track with a codec
pub open spec fn from_track(t: Track, id: u32, rate: nat, ch: nat) -> bool { t.id == id && t.codec_params.sample_rate == Some(rate as u32) && t.codec_params.nch() == ch }
pub open spec fn chosen_input(p: Path, id: u32, rate: nat, ch: nat) -> bool { exists|i: int| is_chosen(tracks_of(p), i) && from_track(#[trigger] tracks_of(p)[i], id, rate, ch) }
#[verifier::external_body] pub struct Codecs { p: () }
#[verifier::external_body] pub fn get_codecs() -> Codecs { unimplemented!() }
impl Codecs { #[verifier::external_body] pub fn make(&self, p: &CodecParameters, o: &DecoderOptions) -> (r: Result<Decoder, Error>) ensures r matches Ok(d) ==> d.params() == *p { unimplemented!() } }
#[derive(Clone, Copy)] pub struct SignalSpec { pub rate: u32 }
#[verifier::external_body] pub struct AudioBufferRef<'a> { p: &'a () }
impl<'a> AudioBufferRef<'a> {
    pub uninterp spec fn samples(&self) -> Seq<i16>;
    pub uninterp spec fn nframes(&self) -> nat;
    pub uninterp spec fn cap(&self) -> nat;
    #[verifier::external_body] pub fn frames(&self) -> (r: usize) ensures r == self.nframes() { unimplemented!() }
    #[verifier::external_body] pub fn capacity(&self) -> (r: usize) ensures r == self.cap() { unimplemented!() }
    #[verifier::external_body] pub fn spec(&self) -> &SignalSpec { unimplemented!() }
}
#[verifier::external_body] pub struct Decoder { p: () }
impl Decoder {
    pub uninterp spec fn params(&self) -> CodecParameters;
    // every buffer holds whole frames of the track's channels; at most 2^40 frames in all
    #[verifier::external_body] pub fn decode(&mut self, p: &Packet, Tracked(w): Tracked<&mut World>) -> (r: Result<AudioBufferRef<'_>, Error>)
        ensures final(self).params() == old(self).params(), final(w).frames <= 0x100_0000_0000,
            r matches Ok(b) ==> b.nframes() <= b.cap() && b.cap() == room_of(old(self).params()),
            r matches Ok(b) ==> b.samples().len() == b.nframes() * old(self).params().nch() && b.samples().len() <= usize::MAX
                && *final(w) == (World { sent: old(w).sent.push(*p), decoded: old(w).decoded + b.samples(), frames: old(w).frames + b.nframes(), ..*old(w) }),
            r is Err ==> *final(w) == (World { sent: old(w).sent.push(*p), eof: !(r is Err && r->Err_0 is DecodeError) || old(w).eof, ..*old(w) }) { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct SampleBuffer<T> { p: core::marker::PhantomData<T> }
impl SampleBuffer<i16> {
    pub uninterp spec fn held(&self) -> Seq<i16>;
    pub uninterp spec fn room(&self) -> nat;
    #[verifier::external_body] pub fn new(n: u64, s: SignalSpec) -> (r: Self) ensures r.room() == n { unimplemented!() }
    // panics if the buffer does not fit
    #[verifier::external_body] pub fn copy_interleaved_ref(&mut self, b: AudioBufferRef<'_>) requires b.nframes() <= old(self).room() ensures final(self).held() == b.samples(), final(self).room() == old(self).room() { unimplemented!() }
    #[verifier::external_body] pub fn samples(&self) -> (r: &[i16]) ensures r@ == self.held() { unimplemented!() }
}
// the sample buffer, once made, holds the largest buffer of the decoder
pub open spec fn fits(o: Option<SampleBuffer<i16>>, p: CodecParameters) -> bool { o matches Some(b) ==> b.room() == room_of(p) }
// the packets of one track, in order
pub open spec fn of_track(v: Seq<Packet>, id: u32) -> Seq<Packet> decreases v.len() { if v.len() == 0 { Seq::empty() } else if v.last().track == id { of_track(v.drop_last(), id).push(v.last()) } else { of_track(v.drop_last(), id) } }
pub proof fn lemma_track_push(v: Seq<Packet>, p: Packet, id: u32) ensures of_track(v.push(p), id) == (if p.track == id { of_track(v, id).push(p) } else { of_track(v, id) }) { assert(v.push(p).drop_last() =~= v); }

// ---- the fingerprinter: samples fed since the last start (that the fingerprint is a function of them is C07/C08)
#[verifier::external_body] pub struct Configuration { p: () }
impl Configuration { pub uninterp spec fn delay_of(&self) -> int; pub uninterp spec fn id_of(&self) -> u8;
 #[verifier::external_body] pub fn delay(&self) -> (r: usize) ensures r == self.delay_of(), r < 0x1_0000_0000 { unimplemented!() }
 #[verifier::external_body] pub fn id(&self) -> (r: u8) ensures r == self.id_of() { unimplemented!() }
 #[verifier::external_body] pub fn preset_test1() -> (r: Configuration) ensures r.id_of() == 0, r == preset(0) { unimplemented!() }
 #[verifier::external_body] pub fn preset_test2() -> (r: Configuration) ensures r.id_of() == 1, r == preset(1) { unimplemented!() }
 #[verifier::external_body] pub fn preset_test3() -> (r: Configuration) ensures r.id_of() == 2, r == preset(2) { unimplemented!() }
 #[verifier::external_body] pub fn preset_test4() -> (r: Configuration) ensures r.id_of() == 3, r == preset(3) { unimplemented!() }
 #[verifier::external_body] pub fn preset_test5() -> (r: Configuration) ensures r.id_of() == 4, r == preset(4) { unimplemented!() } }
pub uninterp spec fn preset(id: int) -> Configuration;
pub uninterp spec fn fingerprint_of(c: Configuration, rate: nat, ch: nat, fed: Seq<i16>) -> Seq<u32>;
#[verifier::external_body] pub struct Fingerprinter { p: () }
#[verifier::external_body] pub struct ResetError { p: () }
impl Fingerprinter {
    pub uninterp spec fn fed(&self) -> Seq<i16>;
    pub uninterp spec fn ready(&self) -> bool;
    pub uninterp spec fn finished(&self) -> bool;
    pub uninterp spec fn channels(&self) -> nat;
    pub uninterp spec fn rate(&self) -> nat;
    pub uninterp spec fn config(&self) -> Configuration;
    pub open spec fn same(&self, o: &Self) -> bool { self.channels() == o.channels() && self.rate() == o.rate() && self.config() == o.config() }
    #[verifier::external_body] pub fn new(c: &Configuration) -> (r: Fingerprinter) ensures r.config() == *c { unimplemented!() }
    #[verifier::external_body] pub fn start(&mut self, rate: u32, channels: u32) -> (r: Result<(), ResetError>) ensures final(self).config() == old(self).config(), r is Ok ==> final(self).fed() == Seq::<i16>::empty() && final(self).ready() && !final(self).finished() && final(self).channels() == channels && channels > 0 && final(self).rate() == rate && rate > 0 { unimplemented!() }
    #[verifier::external_body] pub fn consume(&mut self, data: &[i16]) requires old(self).ready(), !old(self).finished(), data@.len() % old(self).channels() == 0 ensures final(self).fed() == old(self).fed() + data@, final(self).ready(), !final(self).finished(), final(self).same(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn finish(&mut self) requires old(self).ready() ensures final(self).fed() == old(self).fed(), final(self).finished(), final(self).ready(), final(self).same(old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn fingerprint(&self) -> (r: &[u32]) ensures self.finished() ==> r@ == fingerprint_of(self.config(), self.rate(), self.channels(), self.fed()) { unimplemented!() }
}
// ---- printing: what goes to standard output, as literal characters and formatted values
// (a real with a number of decimals; a value filled up with blanks to a width: align 1 left, 2 right, 3 centre)
pub enum Tok { Ch(char), Text(Seq<char>), Num(real), Fixed(real, nat), Int(int), TextIn(Seq<char>, int, int), NumIn(real, int, int), FixedIn(real, nat, int, int), IntIn(int, int, int), Other(int), OtherIn(int, int, int) }
pub open spec fn al(a: int, d: int) -> int { if a == 0 { d } else { a } }
// one more piece of output
#[verifier::opaque] pub open spec fn app(o: Seq<Tok>, t: Tok) -> Seq<Tok> { o.push(t) }
#[verifier::opaque] pub open spec fn puts(o: Seq<Tok>, s: Seq<char>) -> Seq<Tok> { o + Seq::new(s.len(), |i: int| Tok::Ch(s[i])) }
pub open spec fn nl(o: Seq<Tok>) -> Seq<Tok> { app(o, Tok::Ch('\n')) }
pub trait VShow { spec fn shown(&self) -> Tok; spec fn fixed(&self, n: nat) -> Tok; spec fn shown_in(&self, a: int, w: int) -> Tok; spec fn fixed_in(&self, n: nat, a: int, w: int) -> Tok; }
impl VShow for Real { open spec fn shown(&self) -> Tok { Tok::Num(self@) } open spec fn fixed(&self, n: nat) -> Tok { Tok::Fixed(self@, n) } open spec fn shown_in(&self, a: int, w: int) -> Tok { Tok::NumIn(self@, al(a, 2), w) } open spec fn fixed_in(&self, n: nat, a: int, w: int) -> Tok { Tok::FixedIn(self@, n, al(a, 2), w) } }
impl VShow for String { open spec fn shown(&self) -> Tok { Tok::Text(self@) } open spec fn fixed(&self, n: nat) -> Tok { Tok::Text(self@.take(n as int)) } open spec fn shown_in(&self, a: int, w: int) -> Tok { Tok::TextIn(self@, al(a, 1), w) } open spec fn fixed_in(&self, n: nat, a: int, w: int) -> Tok { Tok::TextIn(self@.take(n as int), al(a, 1), w) } }
impl<'a> VShow for &'a str { open spec fn shown(&self) -> Tok { Tok::Text(self@) } open spec fn fixed(&self, n: nat) -> Tok { Tok::Text(self@.take(n as int)) } open spec fn shown_in(&self, a: int, w: int) -> Tok { Tok::TextIn(self@, al(a, 1), w) } open spec fn fixed_in(&self, n: nat, a: int, w: int) -> Tok { Tok::TextIn(self@.take(n as int), al(a, 1), w) } }
impl VShow for usize { open spec fn shown(&self) -> Tok { Tok::Int(*self as int) } open spec fn fixed(&self, n: nat) -> Tok { Tok::Int(*self as int) } open spec fn shown_in(&self, a: int, w: int) -> Tok { Tok::IntIn(*self as int, al(a, 2), w) } open spec fn fixed_in(&self, n: nat, a: int, w: int) -> Tok { Tok::IntIn(*self as int, al(a, 2), w) } }
impl VShow for u64 { open spec fn shown(&self) -> Tok { Tok::Int(*self as int) } open spec fn fixed(&self, n: nat) -> Tok { Tok::Int(*self as int) } open spec fn shown_in(&self, a: int, w: int) -> Tok { Tok::IntIn(*self as int, al(a, 2), w) } open spec fn fixed_in(&self, n: nat, a: int, w: int) -> Tok { Tok::IntIn(*self as int, al(a, 2), w) } }
impl VShow for u32 { open spec fn shown(&self) -> Tok { Tok::Int(*self as int) } open spec fn fixed(&self, n: nat) -> Tok { Tok::Int(*self as int) } open spec fn shown_in(&self, a: int, w: int) -> Tok { Tok::IntIn(*self as int, al(a, 2), w) } open spec fn fixed_in(&self, n: nat, a: int, w: int) -> Tok { Tok::IntIn(*self as int, al(a, 2), w) } }
impl VShow for i64 { open spec fn shown(&self) -> Tok { Tok::Int(*self as int) } open spec fn fixed(&self, n: nat) -> Tok { Tok::Int(*self as int) } open spec fn shown_in(&self, a: int, w: int) -> Tok { Tok::IntIn(*self as int, al(a, 2), w) } open spec fn fixed_in(&self, n: nat, a: int, w: int) -> Tok { Tok::IntIn(*self as int, al(a, 2), w) } }
impl VShow for i32 { open spec fn shown(&self) -> Tok { Tok::Int(*self as int) } open spec fn fixed(&self, n: nat) -> Tok { Tok::Int(*self as int) } open spec fn shown_in(&self, a: int, w: int) -> Tok { Tok::IntIn(*self as int, al(a, 2), w) } open spec fn fixed_in(&self, n: nat, a: int, w: int) -> Tok { Tok::IntIn(*self as int, al(a, 2), w) } }
pub tracked struct OutG { pub ghost t: Seq<Tok> }
#[verifier::external_body] pub fn vc_out_put1(c0: char, Tracked(w): Tracked<&mut OutG>) ensures final(w).t == app(old(w).t, Tok::Ch(c0)) { unimplemented!() }
#[verifier::external_body] pub fn vc_out_put2(c0: char, c1: char, Tracked(w): Tracked<&mut OutG>) ensures final(w).t == app(app(old(w).t, Tok::Ch(c0)), Tok::Ch(c1)) { unimplemented!() }
#[verifier::external_body] pub fn vc_out_put3(c0: char, c1: char, c2: char, Tracked(w): Tracked<&mut OutG>) ensures final(w).t == app(app(app(old(w).t, Tok::Ch(c0)), Tok::Ch(c1)), Tok::Ch(c2)) { unimplemented!() }
#[verifier::external_body] pub fn vc_out_put4(c0: char, c1: char, c2: char, c3: char, Tracked(w): Tracked<&mut OutG>) ensures final(w).t == app(app(app(app(old(w).t, Tok::Ch(c0)), Tok::Ch(c1)), Tok::Ch(c2)), Tok::Ch(c3)) { unimplemented!() }
#[verifier::external_body] pub fn vc_out_put5(c0: char, c1: char, c2: char, c3: char, c4: char, Tracked(w): Tracked<&mut OutG>) ensures final(w).t == app(app(app(app(app(old(w).t, Tok::Ch(c0)), Tok::Ch(c1)), Tok::Ch(c2)), Tok::Ch(c3)), Tok::Ch(c4)) { unimplemented!() }
#[verifier::external_body] pub fn vc_out_put6(c0: char, c1: char, c2: char, c3: char, c4: char, c5: char, Tracked(w): Tracked<&mut OutG>) ensures final(w).t == app(app(app(app(app(app(old(w).t, Tok::Ch(c0)), Tok::Ch(c1)), Tok::Ch(c2)), Tok::Ch(c3)), Tok::Ch(c4)), Tok::Ch(c5)) { unimplemented!() }
#[verifier::external_body] pub fn vc_out_put7(c0: char, c1: char, c2: char, c3: char, c4: char, c5: char, c6: char, Tracked(w): Tracked<&mut OutG>) ensures final(w).t == app(app(app(app(app(app(app(old(w).t, Tok::Ch(c0)), Tok::Ch(c1)), Tok::Ch(c2)), Tok::Ch(c3)), Tok::Ch(c4)), Tok::Ch(c5)), Tok::Ch(c6)) { unimplemented!() }
#[verifier::external_body] pub fn vc_out_put8(c0: char, c1: char, c2: char, c3: char, c4: char, c5: char, c6: char, c7: char, Tracked(w): Tracked<&mut OutG>) ensures final(w).t == app(app(app(app(app(app(app(app(old(w).t, Tok::Ch(c0)), Tok::Ch(c1)), Tok::Ch(c2)), Tok::Ch(c3)), Tok::Ch(c4)), Tok::Ch(c5)), Tok::Ch(c6)), Tok::Ch(c7)) { unimplemented!() }
#[verifier::external_body] pub fn vc_out_show<X: VShow>(x: &X, Tracked(w): Tracked<&mut OutG>) ensures final(w).t == app(old(w).t, x.shown()) { unimplemented!() }
#[verifier::external_body] pub fn vc_out_fixed<X: VShow>(x: &X, n: usize, Tracked(w): Tracked<&mut OutG>) ensures final(w).t == app(old(w).t, x.fixed(n as nat)) { unimplemented!() }
#[verifier::external_body] pub fn vc_out_show_in<X: VShow>(x: &X, a: usize, n: usize, Tracked(w): Tracked<&mut OutG>) ensures final(w).t == app(old(w).t, x.shown_in(a as int, n as int)) { unimplemented!() }
#[verifier::external_body] pub fn vc_out_fixed_in<X: VShow>(x: &X, p: usize, a: usize, n: usize, Tracked(w): Tracked<&mut OutG>) ensures final(w).t == app(old(w).t, x.fixed_in(p as nat, a as int, n as int)) { unimplemented!() }
// decimal text, lists, base64 (standard library and the base64 crate)
pub uninterp spec fn dec_text(i: int) -> Seq<char>;
pub uninterp spec fn joined(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>;
pub trait VDec { spec fn dec(&self) -> Seq<char>; }
impl VDec for u32 { open spec fn dec(&self) -> Seq<char> { dec_text(*self as int) } }
impl VDec for i32 { open spec fn dec(&self) -> Seq<char> { dec_text(*self as int) } }
impl VDec for u64 { open spec fn dec(&self) -> Seq<char> { dec_text(*self as int) } }
impl VDec for i64 { open spec fn dec(&self) -> Seq<char> { dec_text(*self as int) } }
impl<'a, T: VDec> VDec for &'a T { open spec fn dec(&self) -> Seq<char> { (*self).dec() } }
#[verifier::external_body] pub fn vc_to_string<X: VDec>(x: &X) -> (r: String) ensures r@ == x.dec() { unimplemented!() }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body] pub fn vc_join(v: &Vec<String>, sep: &str) -> (r: String) ensures r@ == joined(texts(v@), sep@) { unimplemented!() }
pub struct Engine { pub url: bool, pub pad: bool }
pub const BASE64_STANDARD: Engine = Engine { url: false, pad: true };
pub const BASE64_STANDARD_NO_PAD: Engine = Engine { url: false, pad: false };
pub const BASE64_URL_SAFE: Engine = Engine { url: true, pad: true };
pub const BASE64_URL_SAFE_NO_PAD: Engine = Engine { url: true, pad: false };
pub uninterp spec fn base64(e: Engine, b: Seq<u8>) -> Seq<char>;
impl Engine { #[verifier::external_body] pub fn encode(&self, b: &Vec<u8>) -> (r: String) ensures r@ == base64(*self, b@) { unimplemented!() } }
// the compressed form of a fingerprint (what it is: C01, C02)
pub uninterp spec fn compressed(id: u8, v: Seq<u32>) -> Seq<u8>;
pub struct FingerprintCompressor { pub algorithm: u8 }
impl FingerprintCompressor {
    #[verifier::external_body] pub fn from(c: &Configuration) -> (r: Self) ensures r.algorithm == c.id_of() { unimplemented!() }
    #[verifier::external_body] pub fn compress(&self, v: &[u32]) -> (r: Vec<u8>) ensures r@ == compressed(self.algorithm, v@) { unimplemented!() }
}
#[verifier::external_body] pub struct ParseErr { p: () }
// the number between 0 and 255 a text stands for, if any
pub uninterp spec fn u8_of(s: Seq<char>) -> Option<u8>;
#[verifier::external_body] pub fn vc_parse_u8(s: &str) -> (r: Result<u8, ParseErr>) ensures r is Ok <==> u8_of(s@) is Some, r matches Ok(v) ==> u8_of(s@) == Some(v) { unimplemented!() }
