global size_of usize == 8;
// what happens outside of main: the arguments given, the frames decoded so far, the results printed so far (their samples, their times, their text)
pub tracked struct World { pub ghost args: Args, pub ghost rate: nat, pub ghost ch: nat, pub ghost path: Path, pub ghost track: u32, pub ghost offered: Seq<Packet>, pub ghost sent: Seq<Packet>, pub ghost decoded: Seq<i16>, pub ghost frames: nat, pub ghost eof: bool, pub ghost printed: Seq<Seq<i16>>, pub ghost times: Seq<(real, real)>, pub tracked out: OutG }
impl World {
    pub open spec fn fresh(self) -> bool { self.frames == 0 && self.decoded == Seq::<i16>::empty() && !self.eof && self.printed == Seq::<Seq<i16>>::empty() && self.times == Seq::<(real, real)>::empty() && self.out.t == Seq::<Tok>::empty() && self.offered == Seq::<Packet>::empty() && self.sent == Seq::<Packet>::empty() }
    pub open spec fn stream_limit(self) -> int { self.args.length * self.rate }
    pub open spec fn chunk_limit(self) -> int { (match self.args.chunk { Some(c) => c as int, None => 0 }) * self.rate }
    pub open spec fn extra(self) -> int { if self.chunk_limit() > 0 && self.args.overlap { self.args.algorithm.0.delay_of() } else { 0 } }
    // only packets of the chosen track are decoded, all of them, in order
    pub open spec fn routed(self) -> bool { self.sent == of_track(self.offered, self.track) }
}
// durations given on the command line are assumed to be below 2^31 seconds
impl Args {
    #[verifier::external_body] pub fn parse(Tracked(w): Tracked<&mut World>) -> (r: Args) ensures *final(w) == (World { args: r, ..*old(w) }), r.length < 0x8000_0000, r.chunk matches Some(c) ==> c < 0x8000_0000 { unimplemented!() }
}
#[verifier::external_body] pub fn get_current_timestamp() -> Real { unimplemented!() }
impl AudioReader {
    pub open spec fn same(&self, o: &Self) -> bool { self.track_id == o.track_id && self.sample_rate == o.sample_rate && self.channel_count == o.channel_count && self.decoder.params() == o.decoder.params() && self.format.path() == o.format.path() }
    // the reader decodes the first track of the file that has a codec
    pub open spec fn reads(&self, p: Path) -> bool {
        &&& self.format.path() == p
        &&& self.channel_count == self.decoder.params().nch()
        &&& exists|i: int| is_chosen(tracks_of(p), i) && #[trigger] tracks_of(p)[i].id == self.track_id && tracks_of(p)[i].codec_params == self.decoder.params() && tracks_of(p)[i].codec_params.sample_rate == Some(self.sample_rate)
    }
}
pub open spec fn printer_for(p: ResultPrinter<'_>, a: Args) -> bool { *p.config == a.algorithm.0 && p.abs_ts == a.ts && p.raw == a.raw && p.signed == a.signed && p.format == a.output_format && p.max_chunk_duration == (match a.chunk { Some(c) => c, None => 0 }) }
// ---- how a result is written
pub open spec fn signed_of(x: u32) -> int { if x < 0x8000_0000 { x as int } else { x - 0x1_0000_0000 } }
pub open spec fn unsigned_texts(v: Seq<u32>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| dec_text(v[i] as int)) }
pub open spec fn signed_texts(v: Seq<u32>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| dec_text(signed_of(v[i]))) }
// the fingerprint: comma-separated numbers, or URL-safe base64 without padding of the compressed form
pub open spec fn fp_text(raw: bool, signed: bool, id: u8, v: Seq<u32>) -> Seq<char> {
    if raw && signed { joined(signed_texts(v), ","@) } else if raw { joined(unsigned_texts(v), ","@) } else { base64(BASE64_URL_SAFE_NO_PAD, compressed(id, v)) }
}
pub open spec fn result_text(o: Seq<Tok>, fmt: OutputFormat, raw: bool, abs_ts: bool, chunked: bool, first: bool, ts: real, dur: real, fp: Seq<char>) -> Seq<Tok> {
    match fmt {
        OutputFormat::Plain => nl(app(o, Tok::Text(fp))),
        OutputFormat::Text => {
            let a = if first { o } else { nl(o) };
            let b = if abs_ts { nl(app(puts(a, "TIMESTAMP="@), Tok::Fixed(ts, 2))) } else { a };
            let c = nl(app(puts(b, "DURATION="@), Tok::Num(dur)));
            nl(app(puts(c, "FINGERPRINT="@), Tok::Text(fp)))
        }
        OutputFormat::Json => {
            let a = if chunked { puts(app(puts(o, "{\"timestamp\": "@), Tok::Fixed(ts, 2)), ", \"duration\": "@) } else { puts(o, "{\"duration\": "@) };
            let b = app(a, Tok::Fixed(dur, 2));
            nl(if raw { puts(app(puts(b, ", \"fingerprint\": ["@), Tok::Text(fp)), "]}"@) } else { puts(app(puts(b, ", \"fingerprint\": \""@), Tok::Text(fp)), "\"}"@) })
        }
    }
}
// the literal parts, character by character
pub proof fn lemma_lit0() ensures forall|o: Seq<Tok>| #[trigger] puts(o, "TIMESTAMP="@) == app(app(app(app(app(app(app(app(app(app(o, Tok::Ch('T')), Tok::Ch('I')), Tok::Ch('M')), Tok::Ch('E')), Tok::Ch('S')), Tok::Ch('T')), Tok::Ch('A')), Tok::Ch('M')), Tok::Ch('P')), Tok::Ch('=')) { reveal(app); reveal(puts); reveal_strlit("TIMESTAMP="); assert forall|o: Seq<Tok>| #[trigger] puts(o, "TIMESTAMP="@) == app(app(app(app(app(app(app(app(app(app(o, Tok::Ch('T')), Tok::Ch('I')), Tok::Ch('M')), Tok::Ch('E')), Tok::Ch('S')), Tok::Ch('T')), Tok::Ch('A')), Tok::Ch('M')), Tok::Ch('P')), Tok::Ch('=')) by { assert(puts(o, "TIMESTAMP="@) =~= app(app(app(app(app(app(app(app(app(app(o, Tok::Ch('T')), Tok::Ch('I')), Tok::Ch('M')), Tok::Ch('E')), Tok::Ch('S')), Tok::Ch('T')), Tok::Ch('A')), Tok::Ch('M')), Tok::Ch('P')), Tok::Ch('='))); } }
pub proof fn lemma_lit1() ensures forall|o: Seq<Tok>| #[trigger] puts(o, "DURATION="@) == app(app(app(app(app(app(app(app(app(o, Tok::Ch('D')), Tok::Ch('U')), Tok::Ch('R')), Tok::Ch('A')), Tok::Ch('T')), Tok::Ch('I')), Tok::Ch('O')), Tok::Ch('N')), Tok::Ch('=')) { reveal(app); reveal(puts); reveal_strlit("DURATION="); assert forall|o: Seq<Tok>| #[trigger] puts(o, "DURATION="@) == app(app(app(app(app(app(app(app(app(o, Tok::Ch('D')), Tok::Ch('U')), Tok::Ch('R')), Tok::Ch('A')), Tok::Ch('T')), Tok::Ch('I')), Tok::Ch('O')), Tok::Ch('N')), Tok::Ch('=')) by { assert(puts(o, "DURATION="@) =~= app(app(app(app(app(app(app(app(app(o, Tok::Ch('D')), Tok::Ch('U')), Tok::Ch('R')), Tok::Ch('A')), Tok::Ch('T')), Tok::Ch('I')), Tok::Ch('O')), Tok::Ch('N')), Tok::Ch('='))); } }
pub proof fn lemma_lit2() ensures forall|o: Seq<Tok>| #[trigger] puts(o, "FINGERPRINT="@) == app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch('F')), Tok::Ch('I')), Tok::Ch('N')), Tok::Ch('G')), Tok::Ch('E')), Tok::Ch('R')), Tok::Ch('P')), Tok::Ch('R')), Tok::Ch('I')), Tok::Ch('N')), Tok::Ch('T')), Tok::Ch('=')) { reveal(app); reveal(puts); reveal_strlit("FINGERPRINT="); assert forall|o: Seq<Tok>| #[trigger] puts(o, "FINGERPRINT="@) == app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch('F')), Tok::Ch('I')), Tok::Ch('N')), Tok::Ch('G')), Tok::Ch('E')), Tok::Ch('R')), Tok::Ch('P')), Tok::Ch('R')), Tok::Ch('I')), Tok::Ch('N')), Tok::Ch('T')), Tok::Ch('=')) by { assert(puts(o, "FINGERPRINT="@) =~= app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch('F')), Tok::Ch('I')), Tok::Ch('N')), Tok::Ch('G')), Tok::Ch('E')), Tok::Ch('R')), Tok::Ch('P')), Tok::Ch('R')), Tok::Ch('I')), Tok::Ch('N')), Tok::Ch('T')), Tok::Ch('='))); } }
pub proof fn lemma_lit3() ensures forall|o: Seq<Tok>| #[trigger] puts(o, "{\"timestamp\": "@) == app(app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch('{')), Tok::Ch('"')), Tok::Ch('t')), Tok::Ch('i')), Tok::Ch('m')), Tok::Ch('e')), Tok::Ch('s')), Tok::Ch('t')), Tok::Ch('a')), Tok::Ch('m')), Tok::Ch('p')), Tok::Ch('"')), Tok::Ch(':')), Tok::Ch(' ')) { reveal(app); reveal(puts); reveal_strlit("{\"timestamp\": "); assert forall|o: Seq<Tok>| #[trigger] puts(o, "{\"timestamp\": "@) == app(app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch('{')), Tok::Ch('"')), Tok::Ch('t')), Tok::Ch('i')), Tok::Ch('m')), Tok::Ch('e')), Tok::Ch('s')), Tok::Ch('t')), Tok::Ch('a')), Tok::Ch('m')), Tok::Ch('p')), Tok::Ch('"')), Tok::Ch(':')), Tok::Ch(' ')) by { assert(puts(o, "{\"timestamp\": "@) =~= app(app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch('{')), Tok::Ch('"')), Tok::Ch('t')), Tok::Ch('i')), Tok::Ch('m')), Tok::Ch('e')), Tok::Ch('s')), Tok::Ch('t')), Tok::Ch('a')), Tok::Ch('m')), Tok::Ch('p')), Tok::Ch('"')), Tok::Ch(':')), Tok::Ch(' '))); } }
pub proof fn lemma_lit4() ensures forall|o: Seq<Tok>| #[trigger] puts(o, ", \"duration\": "@) == app(app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch(',')), Tok::Ch(' ')), Tok::Ch('"')), Tok::Ch('d')), Tok::Ch('u')), Tok::Ch('r')), Tok::Ch('a')), Tok::Ch('t')), Tok::Ch('i')), Tok::Ch('o')), Tok::Ch('n')), Tok::Ch('"')), Tok::Ch(':')), Tok::Ch(' ')) { reveal(app); reveal(puts); reveal_strlit(", \"duration\": "); assert forall|o: Seq<Tok>| #[trigger] puts(o, ", \"duration\": "@) == app(app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch(',')), Tok::Ch(' ')), Tok::Ch('"')), Tok::Ch('d')), Tok::Ch('u')), Tok::Ch('r')), Tok::Ch('a')), Tok::Ch('t')), Tok::Ch('i')), Tok::Ch('o')), Tok::Ch('n')), Tok::Ch('"')), Tok::Ch(':')), Tok::Ch(' ')) by { assert(puts(o, ", \"duration\": "@) =~= app(app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch(',')), Tok::Ch(' ')), Tok::Ch('"')), Tok::Ch('d')), Tok::Ch('u')), Tok::Ch('r')), Tok::Ch('a')), Tok::Ch('t')), Tok::Ch('i')), Tok::Ch('o')), Tok::Ch('n')), Tok::Ch('"')), Tok::Ch(':')), Tok::Ch(' '))); } }
pub proof fn lemma_lit5() ensures forall|o: Seq<Tok>| #[trigger] puts(o, "{\"duration\": "@) == app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch('{')), Tok::Ch('"')), Tok::Ch('d')), Tok::Ch('u')), Tok::Ch('r')), Tok::Ch('a')), Tok::Ch('t')), Tok::Ch('i')), Tok::Ch('o')), Tok::Ch('n')), Tok::Ch('"')), Tok::Ch(':')), Tok::Ch(' ')) { reveal(app); reveal(puts); reveal_strlit("{\"duration\": "); assert forall|o: Seq<Tok>| #[trigger] puts(o, "{\"duration\": "@) == app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch('{')), Tok::Ch('"')), Tok::Ch('d')), Tok::Ch('u')), Tok::Ch('r')), Tok::Ch('a')), Tok::Ch('t')), Tok::Ch('i')), Tok::Ch('o')), Tok::Ch('n')), Tok::Ch('"')), Tok::Ch(':')), Tok::Ch(' ')) by { assert(puts(o, "{\"duration\": "@) =~= app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch('{')), Tok::Ch('"')), Tok::Ch('d')), Tok::Ch('u')), Tok::Ch('r')), Tok::Ch('a')), Tok::Ch('t')), Tok::Ch('i')), Tok::Ch('o')), Tok::Ch('n')), Tok::Ch('"')), Tok::Ch(':')), Tok::Ch(' '))); } }
pub proof fn lemma_lit6() ensures forall|o: Seq<Tok>| #[trigger] puts(o, ", \"fingerprint\": ["@) == app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch(',')), Tok::Ch(' ')), Tok::Ch('"')), Tok::Ch('f')), Tok::Ch('i')), Tok::Ch('n')), Tok::Ch('g')), Tok::Ch('e')), Tok::Ch('r')), Tok::Ch('p')), Tok::Ch('r')), Tok::Ch('i')), Tok::Ch('n')), Tok::Ch('t')), Tok::Ch('"')), Tok::Ch(':')), Tok::Ch(' ')), Tok::Ch('[')) { reveal(app); reveal(puts); reveal_strlit(", \"fingerprint\": ["); assert forall|o: Seq<Tok>| #[trigger] puts(o, ", \"fingerprint\": ["@) == app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch(',')), Tok::Ch(' ')), Tok::Ch('"')), Tok::Ch('f')), Tok::Ch('i')), Tok::Ch('n')), Tok::Ch('g')), Tok::Ch('e')), Tok::Ch('r')), Tok::Ch('p')), Tok::Ch('r')), Tok::Ch('i')), Tok::Ch('n')), Tok::Ch('t')), Tok::Ch('"')), Tok::Ch(':')), Tok::Ch(' ')), Tok::Ch('[')) by { assert(puts(o, ", \"fingerprint\": ["@) =~= app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch(',')), Tok::Ch(' ')), Tok::Ch('"')), Tok::Ch('f')), Tok::Ch('i')), Tok::Ch('n')), Tok::Ch('g')), Tok::Ch('e')), Tok::Ch('r')), Tok::Ch('p')), Tok::Ch('r')), Tok::Ch('i')), Tok::Ch('n')), Tok::Ch('t')), Tok::Ch('"')), Tok::Ch(':')), Tok::Ch(' ')), Tok::Ch('['))); } }
pub proof fn lemma_lit7() ensures forall|o: Seq<Tok>| #[trigger] puts(o, "]}"@) == app(app(o, Tok::Ch(']')), Tok::Ch('}')) { reveal(app); reveal(puts); reveal_strlit("]}"); assert forall|o: Seq<Tok>| #[trigger] puts(o, "]}"@) == app(app(o, Tok::Ch(']')), Tok::Ch('}')) by { assert(puts(o, "]}"@) =~= app(app(o, Tok::Ch(']')), Tok::Ch('}'))); } }
pub proof fn lemma_lit8() ensures forall|o: Seq<Tok>| #[trigger] puts(o, ", \"fingerprint\": \""@) == app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch(',')), Tok::Ch(' ')), Tok::Ch('"')), Tok::Ch('f')), Tok::Ch('i')), Tok::Ch('n')), Tok::Ch('g')), Tok::Ch('e')), Tok::Ch('r')), Tok::Ch('p')), Tok::Ch('r')), Tok::Ch('i')), Tok::Ch('n')), Tok::Ch('t')), Tok::Ch('"')), Tok::Ch(':')), Tok::Ch(' ')), Tok::Ch('"')) { reveal(app); reveal(puts); reveal_strlit(", \"fingerprint\": \""); assert forall|o: Seq<Tok>| #[trigger] puts(o, ", \"fingerprint\": \""@) == app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch(',')), Tok::Ch(' ')), Tok::Ch('"')), Tok::Ch('f')), Tok::Ch('i')), Tok::Ch('n')), Tok::Ch('g')), Tok::Ch('e')), Tok::Ch('r')), Tok::Ch('p')), Tok::Ch('r')), Tok::Ch('i')), Tok::Ch('n')), Tok::Ch('t')), Tok::Ch('"')), Tok::Ch(':')), Tok::Ch(' ')), Tok::Ch('"')) by { assert(puts(o, ", \"fingerprint\": \""@) =~= app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch(',')), Tok::Ch(' ')), Tok::Ch('"')), Tok::Ch('f')), Tok::Ch('i')), Tok::Ch('n')), Tok::Ch('g')), Tok::Ch('e')), Tok::Ch('r')), Tok::Ch('p')), Tok::Ch('r')), Tok::Ch('i')), Tok::Ch('n')), Tok::Ch('t')), Tok::Ch('"')), Tok::Ch(':')), Tok::Ch(' ')), Tok::Ch('"'))); } }
pub proof fn lemma_lit9() ensures forall|o: Seq<Tok>| #[trigger] puts(o, "\"}"@) == app(app(o, Tok::Ch('"')), Tok::Ch('}')) { reveal(app); reveal(puts); reveal_strlit("\"}"); assert forall|o: Seq<Tok>| #[trigger] puts(o, "\"}"@) == app(app(o, Tok::Ch('"')), Tok::Ch('}')) by { assert(puts(o, "\"}"@) =~= app(app(o, Tok::Ch('"')), Tok::Ch('}'))); } }
// the text of all results of a run
pub open spec fn run_text(a: Args, rate: nat, ch: nat, printed: Seq<Seq<i16>>, times: Seq<(real, real)>) -> Seq<Tok> decreases printed.len() {
    if printed.len() == 0 || times.len() == 0 { Seq::empty() } else {
        let o = run_text(a, rate, ch, printed.drop_last(), times.drop_last());
        let fp = fingerprint_of(a.algorithm.0, rate, ch, printed.last());
        result_text(o, a.output_format, a.raw, a.ts, (match a.chunk { Some(c) => c as int, None => 0 }) != 0, printed.len() == 1, times.last().0, times.last().1, fp_text(a.raw, a.signed, a.algorithm.0.id_of(), fp))
    }
}
pub open spec fn text_ok(w: World) -> bool { w.printed.len() == w.times.len() && w.out.t == run_text(w.args, w.rate, w.ch, w.printed, w.times) }
pub proof fn lemma_text_push(a: Args, rate: nat, ch: nat, printed: Seq<Seq<i16>>, times: Seq<(real, real)>, p: Seq<i16>, t: (real, real))
    ensures run_text(a, rate, ch, printed.push(p), times.push(t)) == result_text(run_text(a, rate, ch, printed, times), a.output_format, a.raw, a.ts, (match a.chunk { Some(c) => c as int, None => 0 }) != 0, printed.len() == 0, t.0, t.1, fp_text(a.raw, a.signed, a.algorithm.0.id_of(), fingerprint_of(a.algorithm.0, rate, ch, p)))
{ assert(printed.push(p).drop_last() =~= printed); assert(times.push(t).drop_last() =~= times); }
// ---- the times printed (without overlapping chunks): the duration is that of the samples, the time that of the samples before
pub open spec fn secs(n: int, rate: nat) -> real { r_div(n as real, rate as real) }
pub open spec fn times_ok(printed: Seq<Seq<i16>>, times: Seq<(real, real)>, rate: nat, ch: nat, abs: bool) -> bool decreases printed.len() {
    printed.len() == times.len() && (printed.len() > 0 ==> times_ok(printed.drop_last(), times.drop_last(), rate, ch, abs)
        && times.last().1 == secs(printed.last().len() as int / ch as int, rate) && (!abs ==> times.last().0 == secs(cat(printed.drop_last()).len() as int / ch as int, rate)))
}
pub proof fn lemma_secs(a: int, b: int, rate: nat) requires rate > 0 ensures secs(a, rate) + secs(b, rate) == secs(a + b, rate), secs(0, rate) == 0real, secs(a, rate) - secs(b, rate) == secs(a - b, rate) { reveal(r_div); let x = a as real; let y = b as real; let z = rate as real; assert(z > 0real); assert((a + b) as real == x + y); assert((a - b) as real == x - y); assert(x / z + y / z == (x + y) / z) by (nonlinear_arith) requires z > 0real; assert(x / z - y / z == (x - y) / z) by (nonlinear_arith) requires z > 0real; assert(0real / z == 0real) by (nonlinear_arith) requires z > 0real; }
pub proof fn lemma_one(x: real) ensures r_mul(x, 1real) == x { reveal(r_mul); }
// ---- what has to be reported
pub open spec fn cat(v: Seq<Seq<i16>>) -> Seq<i16> decreases v.len() { if v.len() == 0 { Seq::empty() } else { cat(v.drop_last()) + v.last() } }
pub proof fn lemma_cat_push(v: Seq<Seq<i16>>, x: Seq<i16>) ensures cat(v.push(x)) == cat(v) + x { assert(v.push(x).drop_last() =~= v); }
// length in frames of chunk k: the requested duration, the first one longer by the overlap
pub open spec fn chunk_len(k: int, limit: int, extra: int) -> int { if k == 0 { limit + extra } else { limit } }
pub open spec fn chunks_ok(v: Seq<Seq<i16>>, ch: int, limit: int, extra: int) -> bool { forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).len() == chunk_len(k, limit, extra) * ch }
// chunks printed so far: all complete; at the end: all but the last complete
pub open spec fn report_ok(w: World) -> bool {
    &&& w.eof || (w.stream_limit() > 0 && w.frames >= w.stream_limit())
    &&& cat(w.printed) == w.decoded.take(wanted(w.frames as int, w.stream_limit()) * w.ch)
    &&& w.chunk_limit() == 0 ==> w.printed.len() <= 1
    &&& w.chunk_limit() > 0 && w.printed.len() > 0 ==> chunks_ok(w.printed.drop_last(), w.ch as int, w.chunk_limit(), w.extra())
            && 0 < w.printed.last().len() <= chunk_len(w.printed.len() - 1, w.chunk_limit(), w.extra()) * w.ch
}
// frames of the stream that count
pub open spec fn wanted(total: int, limit: int) -> int { if limit > 0 && total > limit { limit } else { total } }
// between packets: everything taken from the stream so far is either printed or held by the fingerprinter
pub open spec fn session(w: World, p: Fingerprinter) -> bool { p.ready() && !p.finished() && p.config() == w.args.algorithm.0 && p.rate() == w.rate && p.channels() == w.ch }
pub open spec fn chunk_state(w: World, p: Fingerprinter, chunk_size: int, extra: int, first: bool) -> bool {
    &&& w.ch > 0 && w.rate > 0 && w.frames <= 0x100_0000_0000 && w.decoded.len() == w.frames * w.ch
    &&& session(w, p) && p.fed().len() == chunk_size * w.ch && chunk_size >= 0
    &&& first <==> w.printed.len() == 0
    &&& extra == if first { w.extra() } else { 0 }
    &&& w.chunk_limit() == 0 ==> w.printed.len() == 0
    &&& w.chunk_limit() > 0 ==> chunks_ok(w.printed, w.ch as int, w.chunk_limit(), w.extra()) && chunk_size <= w.chunk_limit() + extra
}
pub open spec fn taken(w: World, p: Fingerprinter, stream_size: int) -> bool { cat(w.printed) + p.fed() == w.decoded.take(stream_size * w.ch) }
pub open spec fn taken_but(w: World, p: Fingerprinter, stream_size: int, rest: Seq<i16>) -> bool { cat(w.printed) + p.fed() + rest == w.decoded.take(stream_size * w.ch) }
// a packet of n frames arrives, of which k are used
pub proof fn lemma_packet(w0: World, w: World, p: Fingerprinter, b: Seq<i16>, n: nat, s0: int, k: int)
    requires taken(w0, p, s0), w == (World { decoded: w0.decoded + b, frames: w0.frames + n, offered: w.offered, sent: w.sent, ..w0 }), b.len() == n * w0.ch, w0.decoded.len() == w0.frames * w0.ch,
        s0 == wanted(w0.frames as int, w0.stream_limit()), 0 <= k <= n, s0 + k == wanted(w.frames as int, w.stream_limit()), w0.stream_limit() >= 0,
    ensures taken_but(w, p, s0 + k, b.take(k * w.ch)), k * w.ch <= b.len(), w.decoded.len() == w.frames * w.ch, k == 0 ==> taken(w, p, s0 + k)
{
    let ch = w.ch as int;
    assert(w.frames * w.ch == w0.frames * w0.ch + n * w0.ch) by (nonlinear_arith) requires w.frames == w0.frames + n, w.ch == w0.ch;
    assert(0 <= k * ch <= n * ch && 0 <= s0 * ch && (s0 + k) * ch == s0 * ch + k * ch && s0 * ch <= w0.frames * ch) by (nonlinear_arith) requires 0 <= k <= n, ch >= 0, 0 <= s0 <= w0.frames;
    if k > 0 { assert(s0 == w0.frames); }
    assert(w.decoded.take((s0 + k) * ch) =~= w0.decoded.take(s0 * ch) + b.take(k * ch));
    assert(b.take(0) =~= Seq::<i16>::empty());
    if k == 0 { assert(k * ch == 0) by (nonlinear_arith) requires k == 0; assert(w.decoded.take((s0 + k) * ch) =~= w0.decoded.take(s0 * ch)); }
}
// n frames of the rest are fed
pub proof fn lemma_feed(w: World, p0: Fingerprinter, p: Fingerprinter, s: int, rest: Seq<i16>, f: int, n: int)
    requires taken_but(w, p0, s, rest.take(f * w.ch)), 0 <= n <= f, f * w.ch <= rest.len(), p.fed() == p0.fed() + rest.take(n * w.ch),
    ensures 0 <= n * w.ch <= f * w.ch, taken_but(w, p, s, rest.skip(n * w.ch).take((f - n) * w.ch)), (f - n) * w.ch == f * w.ch - n * w.ch, n == f ==> taken(w, p, s)
{
    let ch = w.ch as int;
    assert(0 <= n * ch <= f * ch && (f - n) * ch == f * ch - n * ch) by (nonlinear_arith) requires 0 <= n <= f, ch >= 0;
    assert(cat(w.printed) + p.fed() + rest.skip(n * ch).take((f - n) * ch) =~= cat(w.printed) + p0.fed() + rest.take(f * ch));
    assert(rest.skip(n * ch).take(0) =~= Seq::<i16>::empty());
    if n == f { assert(cat(w.printed) + p.fed() =~= cat(w.printed) + p.fed() + rest.skip(n * ch).take((f - n) * ch)); }
}
// the chunk held is printed
pub proof fn lemma_shown(w0: World, w: World, p0: Fingerprinter, p: Fingerprinter, s: int, rest: Seq<i16>)
    requires w == (World { printed: w0.printed.push(p0.fed()), times: w.times, out: w.out, ..w0 }), p.fed() == Seq::<i16>::empty(),
    ensures taken_but(w0, p0, s, rest) ==> taken_but(w, p, s, rest), taken(w0, p0, s) ==> taken(w, p, s)
{
    lemma_cat_push(w0.printed, p0.fed());
    assert(cat(w.printed) + p.fed() =~= cat(w0.printed) + p0.fed());
}
// the rest is printed when there is any
pub proof fn lemma_report(w: World, e: World, p: Fingerprinter, s: int, chunk_size: int, extra: int, first: bool)
    requires taken(w, p, s), chunk_state(w, p, chunk_size, extra, first), s == wanted(w.frames as int, w.stream_limit()), w.stream_limit() >= 0, w.chunk_limit() >= 0, w.extra() >= 0,
        w.eof || (w.stream_limit() > 0 && w.frames >= w.stream_limit()),
        chunk_size > 0 ==> e == (World { printed: w.printed.push(p.fed()), times: e.times, out: e.out, ..w }), chunk_size == 0 ==> e == w,
    ensures report_ok(e)
{
    let ch = w.ch as int;
    assert(chunk_size == 0 ==> chunk_size * ch == 0) by (nonlinear_arith);
    assert(chunk_size > 0 ==> chunk_size * ch > 0) by (nonlinear_arith) requires ch > 0;
    if chunk_size > 0 {
        lemma_cat_push(w.printed, p.fed());
        assert(e.printed.drop_last() =~= w.printed);
        if w.chunk_limit() > 0 {
            let m = chunk_len(w.printed.len() as int, w.chunk_limit(), w.extra());
            assert(chunk_size * ch <= m * ch) by (nonlinear_arith) requires chunk_size <= m, ch > 0;
        }
    } else {
        assert(p.fed() =~= Seq::<i16>::empty());
        assert(cat(w.printed) + p.fed() =~= cat(w.printed));
        if w.chunk_limit() > 0 && w.printed.len() > 0 {
            let k = w.printed.len() - 1;
            let m = chunk_len(k, w.chunk_limit(), w.extra());
            assert(w.printed[k].len() == m * ch);
            assert(m * ch > 0) by (nonlinear_arith) requires m > 0, ch > 0;
            assert forall|i: int| 0 <= i < k implies (#[trigger] w.printed.drop_last()[i]).len() == chunk_len(i, w.chunk_limit(), w.extra()) * ch by { assert(w.printed.drop_last()[i] == w.printed[i]); }
        }
    }
}

impl TryFromSpecImpl<&str> for Algorithm { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: &str) -> Result<Self, &'static str> { arbitrary() } }
impl TryFromSpecImpl<&str> for OutputFormat { open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: &str) -> Result<Self, &'static str> { arbitrary() } }
// a text is its characters
pub axiom fn ax_str(a: &str, b: &str) ensures a@ == b@ ==> a == b;
pub proof fn lemma_signed(x: u32) ensures (x as i32) as int == signed_of(x) { assert(x < 0x8000_0000 ==> (x as i32) as u32 == x) by (bit_vector); assert(x >= 0x8000_0000 ==> (x as i32) < 0 && (x as i32) as i64 == x as i64 - 0x1_0000_0000) by (bit_vector); }
// one more result, printed with the right times
pub proof fn lemma_times(w: World, p: Fingerprinter, s: int, rest: Seq<i16>, cs: int, fs: int, ts: real, dur: real, abs: bool)
    requires w.ch > 0, w.rate > 0, taken_but(w, p, s, rest), rest.len() == fs * w.ch, p.fed().len() == cs * w.ch, cs >= 0, fs >= 0, 0 <= s * w.ch <= w.decoded.len(),
        times_ok(w.printed, w.times, w.rate, w.ch, abs), dur == secs(cs, w.rate), !abs ==> ts == secs(s - fs - cs, w.rate),
    ensures times_ok(w.printed.push(p.fed()), w.times.push((ts, dur)), w.rate, w.ch, abs)
{
    let ch = w.ch as int;
    assert(w.printed.push(p.fed()).drop_last() =~= w.printed);
    assert(w.times.push((ts, dur)).drop_last() =~= w.times);
    assert((cat(w.printed) + p.fed() + rest).len() == s * ch);
    assert(cat(w.printed).len() == (s - fs - cs) * ch) by (nonlinear_arith) requires cat(w.printed).len() + cs * ch + fs * ch == s * ch;
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(s - fs - cs, ch);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(cs, ch);
    assert(ch * (s - fs - cs) == (s - fs - cs) * ch && ch * cs == cs * ch) by (nonlinear_arith);
}
