//! generated media files: WAV (16-bit PCM) and Matroska with FLAC packets of any size on several tracks
pub struct R(pub u64);
impl R {
    pub fn u(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn r(&mut self, lo: u64, hi: u64) -> u64 { lo + self.u() % (hi - lo + 1) }
}
pub fn wav(rate: u32, ch: u16, data: &[i16]) -> Vec<u8> {
    let n = data.len() as u32 * 2;
    let mut b = vec![];
    // more than two channels need the extensible form
    let ext = ch > 2;
    b.extend(b"RIFF"); b.extend((36 + n + if ext { 24 } else { 0 }).to_le_bytes()); b.extend(b"WAVEfmt "); b.extend((if ext { 40u32 } else { 16 }).to_le_bytes()); b.extend((if ext { 0xFFFEu16 } else { 1 }).to_le_bytes()); b.extend(ch.to_le_bytes());
    b.extend(rate.to_le_bytes()); b.extend((rate * ch as u32 * 2).to_le_bytes()); b.extend((ch * 2).to_le_bytes()); b.extend(16u16.to_le_bytes());
    if ext { b.extend(22u16.to_le_bytes()); b.extend(16u16.to_le_bytes()); b.extend(((1u32 << ch) - 1).to_le_bytes()); b.extend([1, 0, 0, 0, 0, 0, 16, 0, 0x80, 0, 0, 0xAA, 0, 0x38, 0x9B, 0x71]); }
    b.extend(b"data"); b.extend(n.to_le_bytes());
    for x in data { b.extend(x.to_le_bytes()); }
    b
}
pub struct Track { pub id: u8, pub flac: bool, pub rate: u32, pub ch: u16 }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Good, BadCrc, Cut }
fn crc8(d: &[u8]) -> u8 { d.iter().fold(0u8, |c, x| (0..8).fold(c ^ x, |c, _| if c & 0x80 != 0 { (c << 1) ^ 7 } else { c << 1 })) }
fn crc16(d: &[u8]) -> u16 { d.iter().fold(0u16, |c, x| (0..8).fold(c ^ ((*x as u16) << 8), |c, _| if c & 0x8000 != 0 { (c << 1) ^ 0x8005 } else { c << 1 })) }
/// one FLAC frame of at most 65535 sample frames, stored verbatim
pub fn flac_frame(ch: u16, data: &[i16], kind: Kind) -> Vec<u8> {
    let n = data.len() / ch as usize;
    let mut b = vec![0xFF, 0xF8, 0x70, ((ch as u8 - 1) << 4) | 8, 0];
    b.extend(((n - 1) as u16).to_be_bytes());
    b.push(crc8(&b) ^ if kind == Kind::BadCrc { 0x55 } else { 0 });
    for c in 0..ch as usize {
        b.push(2);
        for k in 0..n { b.extend(data[k * ch as usize + c].to_be_bytes()); }
    }
    if kind == Kind::Cut { b.truncate(b.len() / 2); }
    let c = crc16(&b);
    b.extend(c.to_be_bytes());
    b
}
fn el(id: &[u8], body: &[u8]) -> Vec<u8> { let mut b = id.to_vec(); b.extend((body.len() as u64 | 1 << 56).to_be_bytes()); b.extend(body); b }
pub fn mkv(tracks: &[Track], blocks: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut o = el(&[0x1A, 0x45, 0xDF, 0xA3], &[el(&[0x42, 0x86], &[1]), el(&[0x42, 0xF7], &[1]), el(&[0x42, 0xF2], &[4]), el(&[0x42, 0xF3], &[8]), el(&[0x42, 0x82], b"matroska"), el(&[0x42, 0x87], &[4]), el(&[0x42, 0x85], &[2])].concat());
    let mut seg = el(&[0x15, 0x49, 0xA9, 0x66], &[el(&[0x2A, 0xD7, 0xB1], &1_000_000u32.to_be_bytes()), el(&[0x4D, 0x80], b"x"), el(&[0x57, 0x41], b"x")].concat());
    let mut ts = vec![];
    for t in tracks {
        let mut si = vec![];
        si.extend(16u16.to_be_bytes()); si.extend(65535u16.to_be_bytes()); si.extend([0; 6]);
        let v: u64 = (t.rate as u64) << 44 | (t.ch as u64 - 1) << 41 | 15 << 36;
        si.extend(v.to_be_bytes()); si.extend([0; 16]);
        let mut cp = b"fLaC".to_vec(); cp.extend([0x80, 0, 0, 34]); cp.extend(&si);
        let mut e = vec![el(&[0xD7], &[t.id]), el(&[0x73, 0xC5], &[t.id]), el(&[0x83], &[2]), el(&[0x86], if t.flac { b"A_FLAC" } else { b"A_DTS" })];
        if t.flac { e.push(el(&[0x63, 0xA2], &cp)); }
        e.push(el(&[0xE1], &[el(&[0xB5], &(t.rate as f64).to_be_bytes()), el(&[0x9F], &[t.ch as u8]), el(&[0x62, 0x64], &[16])].concat()));
        ts.extend(el(&[0xAE], &e.concat()));
    }
    seg.extend(el(&[0x16, 0x54, 0xAE, 0x6B], &ts));
    for part in blocks.chunks(40) {
        let mut c = el(&[0xE7], &[0]);
        for (id, data) in part { let mut b = vec![0x80 | id, 0, 0, 0x80]; b.extend(data); c.extend(el(&[0xA3], &b)); }
        seg.extend(el(&[0x1F, 0x43, 0xB6, 0x75], &c));
    }
    o.extend(el(&[0x18, 0x53, 0x80, 0x67], &seg));
    o
}
/// audio that changes often enough for its fingerprint to tell positions apart
pub fn audio(r: &mut R, rate: u32, ch: u16, frames: usize) -> Vec<i16> {
    let (mut ph, mut f) = (0f64, 200.0);
    let mut data = Vec::with_capacity(frames * ch as usize);
    for k in 0..frames {
        if k % (rate as usize / 3) == 0 { f = r.r(60, rate as u64 / 3) as f64; }
        ph += f / rate as f64 * std::f64::consts::TAU;
        for c in 0..ch { data.push(((ph * (1.0 + c as f64)).sin() * 9000.0) as i16 + (r.u() % 2000) as i16); }
    }
    data
}
/// a file that holds `data` on the first track with a codec, and the samples a tool has to fingerprint (all of `data` unless a
/// packet cannot be decoded: with `bad`, packets with a wrong checksum are skipped and a truncated one ends the stream)
pub fn file(r: &mut R, rate: u32, ch: u16, data: &[i16], bad: bool) -> (Vec<u8>, &'static str, Vec<i16>, String) {
    if r.r(0, 1) == 0 || ch > 2 { return (wav(rate, ch, data), "wav", data.to_vec(), "wav".into()); }
    let main = r.r(1, 9) as u8;
    let mut tracks = vec![];
    if r.r(0, 1) == 0 { tracks.push(Track { id: main % 9 + 1, flac: false, rate: 48000, ch: 2 }); }
    tracks.push(Track { id: main, flac: true, rate, ch });
    for k in 0..r.r(0, 2) as u8 { tracks.push(Track { id: (main + 1 + k) % 9 + 1, flac: r.r(0, 3) > 0, rate: if r.r(0, 1) == 0 { rate } else { 8000 }, ch: if r.r(0, 1) == 0 { ch } else { 1 } }); }
    let mut seen = vec![];
    tracks.retain(|t| if seen.contains(&t.id) { false } else { seen.push(t.id); true });
    let size = match r.r(0, 3) { 0 => 65535, 1 => 4096, 2 => rate as u64 * 3 % 65535 + 16, _ => 20000 };
    let mut blocks = vec![];
    let mut want = vec![];
    let mut open = true;
    let mut at = 0;
    let mut note = format!("matroska, tracks {:?}", tracks.iter().map(|t| (t.id, t.flac, t.rate, t.ch)).collect::<Vec<_>>());
    while at < data.len() || r.r(0, 2) > 0 {
        if r.r(0, 2) == 0 && tracks.len() > 1 {
            let t = &tracks[r.r(0, tracks.len() as u64 - 1) as usize];
            if t.id != main { let n = r.r(16, 3000) as usize; let x: Vec<i16> = (0..n * t.ch as usize).map(|_| r.u() as i16).collect(); let k = match r.r(0, 5) { 0 => Kind::BadCrc, 1 => Kind::Cut, _ => Kind::Good }; blocks.push((t.id, flac_frame(t.ch, &x, k))); continue; }
        }
        if at >= data.len() { break; }
        let n = (r.r(1, size) as usize * ch as usize).min(data.len() - at);
        let k = if bad { match r.r(0, 40) { 0..=3 => Kind::BadCrc, 4 => Kind::Cut, _ => Kind::Good } } else { Kind::Good };
        if k != Kind::Good { note += &format!(", packet {} {:?}", blocks.len(), k); }
        let x = &data[at..at + n];
        blocks.push((main, flac_frame(ch, x, k)));
        if k == Kind::Cut { open = false; }
        if open && k == Kind::Good { want.extend(x); }
        at += n;
    }
    note += &format!(", {} packets", blocks.len());
    (mkv(&tracks, &blocks), "mkv", want, note)
}
