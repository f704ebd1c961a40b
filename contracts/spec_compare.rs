global size_of usize == 8;
// what happens outside of main: the arguments given, the file being read, the files read so far, what has been printed
pub ghost struct Run { pub path: Path, pub track: u32, pub rate: nat, pub ch: nat, pub offered: Seq<Packet>, pub sent: Seq<Packet>, pub decoded: Seq<i16>, pub eof: bool }
pub tracked struct World { pub ghost args: Seq<PathBuf>, pub ghost offered: Seq<Packet>, pub ghost sent: Seq<Packet>, pub ghost decoded: Seq<i16>, pub ghost frames: nat, pub ghost eof: bool, pub ghost runs: Seq<Run>, pub tracked out: OutG }
impl World { pub open spec fn fresh(self) -> bool { self.runs == Seq::<Run>::empty() && self.out.t == Seq::<Tok>::empty() } }
#[verifier::external_body] pub struct ArgsOs { p: () }
impl ArgsOs { pub uninterp spec fn all(&self) -> Seq<PathBuf>;
 #[verifier::external_body] pub fn collect(self) -> (r: Vec<PathBuf>) ensures r@ == self.all() { unimplemented!() } }
#[verifier::external_body] pub fn args_os(Tracked(w): Tracked<&mut World>) -> (r: ArgsOs) ensures *final(w) == *old(w), r.all() == old(w).args { unimplemented!() }
// the file was read to its end: all packets of the first track with a codec were decoded in order
pub open spec fn run_ok(u: Run, p: Path) -> bool { u.path == p && u.eof && chosen_input(p, u.track, u.rate, u.ch) && u.sent == of_track(u.offered, u.track) }
pub open spec fn run_fp(u: Run, c: Configuration) -> Seq<u32> { fingerprint_of(c, u.rate, u.ch, u.decoded) }
// ---- matching and times (C03..C06, C20, C22)
#[derive(Clone, Copy)] pub struct Segment { pub offset1: usize, pub offset2: usize, pub items_count: usize, pub score: Real }
pub struct MatchError { }
pub uninterp spec fn matched(a: Seq<u32>, b: Seq<u32>, c: Configuration) -> Seq<Segment>;
#[verifier::external_body] pub fn match_fingerprints(a: &[u32], b: &[u32], c: &Configuration) -> (r: Result<Vec<Segment>, MatchError>) ensures r matches Ok(v) ==> v@ == matched(a@, b@, *c) { unimplemented!() }
pub uninterp spec fn start1_of(s: Segment, c: Configuration) -> real;
pub uninterp spec fn end1_of(s: Segment, c: Configuration) -> real;
pub uninterp spec fn start2_of(s: Segment, c: Configuration) -> real;
pub uninterp spec fn end2_of(s: Segment, c: Configuration) -> real;
pub uninterp spec fn duration_of(s: Segment, c: Configuration) -> real;
impl Segment {
    #[verifier::external_body] pub fn start1(&self, c: &Configuration) -> (r: Real) ensures r@ == start1_of(*self, *c) { unimplemented!() }
    #[verifier::external_body] pub fn end1(&self, c: &Configuration) -> (r: Real) ensures r@ == end1_of(*self, *c) { unimplemented!() }
    #[verifier::external_body] pub fn start2(&self, c: &Configuration) -> (r: Real) ensures r@ == start2_of(*self, *c) { unimplemented!() }
    #[verifier::external_body] pub fn end2(&self, c: &Configuration) -> (r: Real) ensures r@ == end2_of(*self, *c) { unimplemented!() }
    #[verifier::external_body] pub fn duration(&self, c: &Configuration) -> (r: Real) ensures r@ == duration_of(*self, *c) { unimplemented!() }
}
// hundredths of a second shown for a time (C22)
pub uninterp spec fn hundredths(t: real) -> int;
#[verifier::external_body] pub struct DurationDisplay { p: () }
impl DurationDisplay { pub uninterp spec fn h(&self) -> int; }
impl VShow for DurationDisplay { open spec fn shown(&self) -> Tok { Tok::Other(self.h()) } open spec fn fixed(&self, n: nat) -> Tok { Tok::Other(self.h()) } open spec fn shown_in(&self, a: int, w: int) -> Tok { Tok::Other(self.h()) } open spec fn fixed_in(&self, n: nat, a: int, w: int) -> Tok { Tok::Other(self.h()) } }
pub trait DurationExt { fn display_duration(&self) -> DurationDisplay; }
impl DurationExt for Real { #[verifier::external_body] fn display_duration(&self) -> (r: DurationDisplay) ensures r.h() == hundredths(self@) { unimplemented!() } }
// ---- the table
pub open spec fn bar(o: Seq<Tok>) -> Seq<Tok> { puts(o, " | "@) }
pub open spec fn dash(o: Seq<Tok>) -> Seq<Tok> { puts(o, " -- "@) }
pub open spec fn row(o: Seq<Tok>, k: int, s: Segment, c: Configuration) -> Seq<Tok> {
    let a = bar(app(o, Tok::IntIn(k, 2, 4)));
    let b = bar(app(dash(app(a, Tok::Other(hundredths(start1_of(s, c))))), Tok::Other(hundredths(end1_of(s, c)))));
    let d = bar(app(dash(app(b, Tok::Other(hundredths(start2_of(s, c))))), Tok::Other(hundredths(end2_of(s, c)))));
    nl(app(bar(app(d, Tok::Other(hundredths(duration_of(s, c))))), Tok::FixedIn(s.score@, 2, 2, 6)))
}
pub open spec fn heading() -> Seq<Tok> { nl(puts(nl(puts(Seq::empty(), "  #  |          File 1          |          File 2          |  Duration  |  Score  "@)), "-----+--------------------------+--------------------------+------------+---------"@)) }
// rows numbered from one, in the order of the segments
pub open spec fn table(v: Seq<Segment>, c: Configuration) -> Seq<Tok> decreases v.len() { if v.len() == 0 { heading() } else { row(table(v.drop_last(), c), v.len() as int, v.last(), c) } }
pub proof fn lemma_table(v: Seq<Segment>, n: int, c: Configuration) requires 0 <= n < v.len() ensures table(v.take(n + 1), c) == row(table(v.take(n), c), n + 1, v[n], c) { assert(v.take(n + 1).drop_last() =~= v.take(n)); assert(v.take(n + 1).last() == v[n]); }
pub proof fn lemma_lit0() ensures forall|o: Seq<Tok>| #[trigger] puts(o, "  #  |          File 1          |          File 2          |  Duration  |  Score  "@) == app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('#')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('|')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('F')), Tok::Ch('i')), Tok::Ch('l')), Tok::Ch('e')), Tok::Ch(' ')), Tok::Ch('1')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('|')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('F')), Tok::Ch('i')), Tok::Ch('l')), Tok::Ch('e')), Tok::Ch(' ')), Tok::Ch('2')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('|')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('D')), Tok::Ch('u')), Tok::Ch('r')), Tok::Ch('a')), Tok::Ch('t')), Tok::Ch('i')), Tok::Ch('o')), Tok::Ch('n')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('|')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('S')), Tok::Ch('c')), Tok::Ch('o')), Tok::Ch('r')), Tok::Ch('e')), Tok::Ch(' ')), Tok::Ch(' ')) { reveal(app); reveal(puts); reveal_strlit("  #  |          File 1          |          File 2          |  Duration  |  Score  "); assert forall|o: Seq<Tok>| #[trigger] puts(o, "  #  |          File 1          |          File 2          |  Duration  |  Score  "@) == app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('#')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('|')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('F')), Tok::Ch('i')), Tok::Ch('l')), Tok::Ch('e')), Tok::Ch(' ')), Tok::Ch('1')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('|')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('F')), Tok::Ch('i')), Tok::Ch('l')), Tok::Ch('e')), Tok::Ch(' ')), Tok::Ch('2')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('|')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('D')), Tok::Ch('u')), Tok::Ch('r')), Tok::Ch('a')), Tok::Ch('t')), Tok::Ch('i')), Tok::Ch('o')), Tok::Ch('n')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('|')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('S')), Tok::Ch('c')), Tok::Ch('o')), Tok::Ch('r')), Tok::Ch('e')), Tok::Ch(' ')), Tok::Ch(' ')) by { assert(puts(o, "  #  |          File 1          |          File 2          |  Duration  |  Score  "@) =~= app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('#')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('|')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('F')), Tok::Ch('i')), Tok::Ch('l')), Tok::Ch('e')), Tok::Ch(' ')), Tok::Ch('1')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('|')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('F')), Tok::Ch('i')), Tok::Ch('l')), Tok::Ch('e')), Tok::Ch(' ')), Tok::Ch('2')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('|')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('D')), Tok::Ch('u')), Tok::Ch('r')), Tok::Ch('a')), Tok::Ch('t')), Tok::Ch('i')), Tok::Ch('o')), Tok::Ch('n')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('|')), Tok::Ch(' ')), Tok::Ch(' ')), Tok::Ch('S')), Tok::Ch('c')), Tok::Ch('o')), Tok::Ch('r')), Tok::Ch('e')), Tok::Ch(' ')), Tok::Ch(' '))); } }
pub proof fn lemma_lit1() ensures forall|o: Seq<Tok>| #[trigger] puts(o, "-----+--------------------------+--------------------------+------------+---------"@) == app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('+')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('+')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('+')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('+')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')) { reveal(app); reveal(puts); reveal_strlit("-----+--------------------------+--------------------------+------------+---------"); assert forall|o: Seq<Tok>| #[trigger] puts(o, "-----+--------------------------+--------------------------+------------+---------"@) == app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('+')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('+')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('+')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('+')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')) by { assert(puts(o, "-----+--------------------------+--------------------------+------------+---------"@) =~= app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(app(o, Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('+')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('+')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('+')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('+')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch('-'))); } }
pub proof fn lemma_lit2() ensures forall|o: Seq<Tok>| #[trigger] puts(o, " | "@) == app(app(app(o, Tok::Ch(' ')), Tok::Ch('|')), Tok::Ch(' ')) { reveal(app); reveal(puts); reveal_strlit(" | "); assert forall|o: Seq<Tok>| #[trigger] puts(o, " | "@) == app(app(app(o, Tok::Ch(' ')), Tok::Ch('|')), Tok::Ch(' ')) by { assert(puts(o, " | "@) =~= app(app(app(o, Tok::Ch(' ')), Tok::Ch('|')), Tok::Ch(' '))); } }
pub proof fn lemma_lit3() ensures forall|o: Seq<Tok>| #[trigger] puts(o, " -- "@) == app(app(app(app(o, Tok::Ch(' ')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch(' ')) { reveal(app); reveal(puts); reveal_strlit(" -- "); assert forall|o: Seq<Tok>| #[trigger] puts(o, " -- "@) == app(app(app(app(o, Tok::Ch(' ')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch(' ')) by { assert(puts(o, " -- "@) =~= app(app(app(app(o, Tok::Ch(' ')), Tok::Ch('-')), Tok::Ch('-')), Tok::Ch(' '))); } }
