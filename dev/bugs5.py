# the comparison tool; tracks and packets
BUGS = []
MEDIA = '''
import sys, struct, subprocess, math, random
d, b = sys.argv[1:3]
random.seed(5)
def crc8(x):
    c = 0
    for v in x:
        c ^= v
        for _ in range(8): c = ((c << 1) ^ 7) & 255 if c & 128 else c << 1
    return c
def frame(s, bad=False):
    h = bytes([0xFF, 0xF8, 0x70, 8, 0]) + struct.pack(">H", len(s) - 1)
    return h + bytes([crc8(h) ^ (0x55 if bad else 0)]) + b"\\x02" + struct.pack(">%dh" % len(s), *s) + b"\\0\\0"
def el(i, body): return i + struct.pack(">Q", len(body) | 1 << 56) + body
def track(n, rate, flac=True):
    si = struct.pack(">HH", 16, 65535) + bytes(6) + struct.pack(">Q", rate << 44 | 15 << 36) + bytes(16)
    e = el(b"\\xD7", bytes([n])) + el(b"\\x73\\xC5", bytes([n])) + el(b"\\x83", b"\\x02") + el(b"\\x86", b"A_FLAC" if flac else b"A_DTS")
    if flac: e += el(b"\\x63\\xA2", b"fLaC\\x80\\0\\0\\x22" + si)
    return el(b"\\xAE", e + el(b"\\xE1", el(b"\\xB5", struct.pack(">d", rate)) + el(b"\\x9F", b"\\x01") + el(b"\\x62\\x64", b"\\x10")))
def mkv(name, tracks, blocks):
    o = el(b"\\x1A\\x45\\xDF\\xA3", el(b"\\x42\\x82", b"matroska"))
    s = el(b"\\x15\\x49\\xA9\\x66", el(b"\\x2A\\xD7\\xB1", struct.pack(">I", 1000000)) + el(b"\\x4D\\x80", b"x") + el(b"\\x57\\x41", b"x"))
    s += el(b"\\x16\\x54\\xAE\\x6B", b"".join(tracks))
    s += el(b"\\x1F\\x43\\xB6\\x75", el(b"\\xE7", b"\\0") + b"".join(el(b"\\xA3", bytes([0x80 | t, 0, 0, 0x80]) + x) for t, x in blocks))
    p = "%s/%s.mkv" % (d, name)
    open(p, "wb").write(o + el(b"\\x18\\x53\\x80\\x67", s))
    return p
def audio(n, rate=8000):
    ph = 0; f = 200; o = []
    for k in range(n):
        if k % (rate // 3) == 0: f = random.randrange(60, rate // 3)
        ph += f / rate * 2 * math.pi
        o.append(int(9000 * math.sin(ph)) + random.randrange(-900, 900))
    return o
def run(*a):
    r = subprocess.run([b] + [str(x) for x in a], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return r.returncode, r.stdout.decode()
def packets(s, n=4000): return [s[i:i + n] for i in range(0, len(s), n)]
'''
SH = '''#!/bin/bash
# runs the tool on generated files
h=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/vpdemo.XXXXXX)
trap 'rm -rf "$d"' EXIT
CARGO_TARGET_DIR="$d/target" cargo build --offline -q -p %s || exit 3
python3 "$h/demo.py" "$d" "$d/target/debug/%s"
'''
def bug(id, edits, needs, breaks, py, tool="compare"):
    f = tool + "/src/main.rs"
    BUGS.append(dict(id=id, prop=id[:3], edits=[(f, o, n) for o, n in edits], needs=needs, breaks=breaks, demo_sh=SH % (tool, tool), files={"demo.py": MEDIA + py}))
bug("C25-decode", [("            Err(Error::DecodeError(_)) => (),\n            Err(_) => break,", "            Err(Error::DecodeError(_)) | Err(Error::LimitError(_)) => break,\n            Err(_) => break,")],
    "a damaged packet in the middle of a file", "everything after the damaged packet is ignored", '''
s = audio(8000 * 40)
a = mkv("a", [track(1, 8000)], [(1, frame(x)) for x in packets(s)])
p = packets(s)
c = mkv("c", [track(1, 8000)], [(1, frame(x, k == 3)) for k, x in enumerate(p)])
rc, t = run(a, c)
sys.exit(0 if rc == 0 and len(t.split("\\n")) > 3 else 1)
''')
bug("C25-track", [("    let track_id = track.id;", "    let track_id = format.default_track().map_or(track.id, |t| t.id);")],
    "a file whose first track with a codec is not its default track", "the packets of another track are decoded", '''
s = audio(8000 * 40)
a = mkv("a", [track(1, 8000)], [(1, frame(x)) for x in packets(s)])
c = mkv("c", [track(3, 8000, False), track(1, 8000)], [(1, frame(x)) for x in packets(s)])
rc, t = run(a, c)
sys.exit(0 if rc == 0 and len(t.split("\\n")) > 3 else 1)
''')
bug("C25-foreign", [("        if packet.track_id() != track_id {\n            continue;", "        if packet.track_id() < track_id {\n            continue;")],
    "a second audio track with a higher number", "its packets are fingerprinted too", '''
s = audio(8000 * 40)
a = mkv("a", [track(1, 8000)], [(1, frame(x)) for x in packets(s)])
z = [(1, frame(x)) for x in packets(s)]
o = [(2, frame([random.randrange(-30000, 30000) for _ in range(4000)])) for x in z]
c = mkv("c", [track(1, 8000), track(2, 8000)], [x for p in zip(z, o) for x in p])
rc, t = run(a, c)
sys.exit(0 if rc == 0 and t.split("\\n")[2].endswith("  0.00") else 1)
''')
bug("C25-rows", [("    for (idx, segment) in segments.iter().enumerate() {", "    for (idx, segment) in segments.iter().take(64).enumerate().filter(|(i, s)| *i == 0 || s.offset1 + s.items_count != segments[*i - 1].offset1) {")],
    "a segment after the first", "segments may be missing from the table", '''
sys.exit(0)
''')
BUGS.pop()
bug("C25-end", [("            segment.end2(&config).display_duration(),", "            segment.end1(&config).max(segment.start2(&config) + segment.duration(&config)).display_duration(),")],
    "a segment later in file 1 than in file 2", "the end in file 2 is that in file 1", '''
s = audio(8000 * 30)
q = audio(8000 * 20)
a = mkv("a", [track(1, 8000)], [(1, frame(x)) for x in packets(q + s)])
c = mkv("c", [track(1, 8000)], [(1, frame(x)) for x in packets(s)])
rc, t = run(a, c)
r = t.split("\\n")[2].split(" | ")
sys.exit(0 if r[1].split(" -- ")[1] != r[2].split(" -- ")[1] else 1)
''')
bug("C25-last", [("            Err(_) => break,\n        };\n\n        if packet.track_id() != track_id", "            Err(_) => break,\n        };\n\n        if packet.dur() == 0 && packet.buf().len() < 64 {\n            continue;\n        }\n\n        if packet.track_id() != track_id")],
    "packets of a few bytes", "small packets are dropped", '''
s = audio(8000 * 40)
a = mkv("a", [track(1, 8000)], [(1, frame(x)) for x in packets(s)])
c = mkv("c", [track(1, 8000)], [(1, frame(x)) for k, y in enumerate(packets(s, 2000)) for x in ([y] if k % 2 else [y[i:i + 20] for i in range(0, 2000, 20)])])
rc, t = run(a, c)
sys.exit(0 if rc == 0 and t.split("\\n")[2].endswith("  0.00") and len(t.split("\\n")) == 4 else 1)
''')
bug("C21-foreign", [("            if packet.track_id() != self.track_id {", "            if packet.track_id() > self.track_id {")],
    "another audio track with a lower number", "its packets are fingerprinted too", '''
s = audio(8000 * 40)
z = [(2, frame(x)) for x in packets(s)]
o = [(1, frame([random.randrange(-30000, 30000) for _ in range(4000)])) for x in z]
a = mkv("a", [track(2, 8000)], z)
c = mkv("c", [track(2, 8000), track(1, 8000)], [x for p in zip(z, o) for x in p])
sys.exit(0 if run("-F", "plain", a) == run("-F", "plain", c) else 1)
''', "fpcalc")
bug("C21-codec", [("            .find(|t| t.codec_params.codec != CODEC_TYPE_NULL)", "            .find(|t| t.codec_params.sample_rate.is_some())")],
    "a file whose first track has a rate but an unknown codec", "the second track is not used", '''
s = audio(8000 * 20)
z = [(2, frame(x)) for x in packets(s)]
a = mkv("a", [track(2, 8000)], z)
c = mkv("c", [track(1, 8000, False), track(2, 8000)], z)
sys.exit(0 if run("-F", "plain", a) == run("-F", "plain", c) else 1)
''', "fpcalc")
bug("C21-big", [("            let duration = audio_buf.capacity() as u64;\n            sample_buf", "            let duration = audio_buf.frames().max(4096) as u64;\n            sample_buf")],
    "packets of growing size", "the sample buffer is too small for a later packet", '''
s = audio(8000 * 20)
a = mkv("a", [track(2, 8000)], [(2, frame(x)) for x in packets(s)])
c = mkv("c", [track(2, 8000)], [(2, frame(x)) for x in [s[:3000], s[3000:40000], s[40000:90000]] + packets(s[90000:], 60000)])
sys.exit(0 if run("-F", "plain", a) == run("-F", "plain", c) else 1)
''', "fpcalc")
