# fpcalc output and times
import runpy
B = runpy.run_path("/verif/dev/bugs2.py"); PY = B["PY"]; CALL = B["SHF"] if "SHF" in B else None
BUGS = []
M = "fpcalc/src/main.rs"
SHF = open("/verif/seeded/C21-extra/demo.sh").read()
def bug(id, old, new, needs, breaks, py):
    BUGS.append(dict(id=id, prop=id[:3], edits=[(M, old, new)] if isinstance(old, str) else [(M, o, n) for o, n in old], needs=needs, breaks=breaks, demo_sh=SHF, files={"demo.py": PY.replace('run("-R", ', 'run(') + '''
def out(*a):
    r = subprocess.run([b] + [str(x) for x in a], stdout=subprocess.PIPE)
    return r.returncode, r.stdout.decode()
''' + py}))
bug("C23-blank", "                if !first {\n                    println!();\n                }\n\n                if self.abs_ts {", "                if self.abs_ts {\n                    if !first {\n                        println!();\n                    }",
    "text form, several chunks, no --ts", "the blank line between results is missing",
    'c, t = out("-C", 10, wav("a", s))\nsys.exit(0 if t.count("\\n\\nDURATION") == 3 else 1)\n')
bug("C23-chunk1", "            max_chunk_duration: self.max_chunk_duration(),", "            max_chunk_duration: self.max_chunk_duration().saturating_sub(1),",
    "json form with a chunk duration of one second", "the timestamp is missing from the object",
    'c, t = out("-C", 1, "-F", "json", wav("a", s[:20000]))\nsys.exit(0 if t.startswith("{\\"timestamp\\"") else 1)\n')
bug("C23-signed", "                    .map(|x| *x as i32)\n                    .map(|x| x.to_string())", "                    .map(|x| i32::try_from(*x).unwrap_or(i32::MIN + (*x & 0x3FFF_FFFF) as i32))\n                    .map(|x| x.to_string())",
    "--signed and an item with both top bits set", "the item is printed as another number",
    'f = wav("a", s)\nu = out("-R", "-F", "plain", f)[1].strip().split(",")\ng = out("-R", "-s", "-F", "plain", f)[1].strip().split(",")\nassert any(int(x) >= 3 << 30 for x in u)\nsys.exit(0 if all((int(x) - int(y)) % 2**32 == 0 for x, y in zip(u, g)) else 1)\n')
bug("C23-alphabet", [("BASE64_URL_SAFE_NO_PAD.encode(&compressed_fingerprint)", "if compressed_fingerprint.len() % 3 == 0 {\n                BASE64_STANDARD.encode(&compressed_fingerprint)\n            } else {\n                BASE64_URL_SAFE_NO_PAD.encode(&compressed_fingerprint)\n            }"), ("use base64::prelude::{Engine, BASE64_URL_SAFE_NO_PAD};", "use base64::prelude::{Engine, BASE64_STANDARD, BASE64_URL_SAFE_NO_PAD};")], "",
    "a compressed fingerprint whose length is a multiple of three and whose base64 contains the digits 62 or 63", "these digits come from the other alphabet",
    'f = wav("a", s)\nt = "".join(out("-l", k, "-F", "plain", f)[1] for k in range(4, 40))\nsys.exit(1 if "+" in t or "/" in t else 0)\n')
bug("C23-algorithm", "            .parse::<u8>()", "            .trim_end_matches(|c: char| !c.is_ascii_digit())\n            .parse::<u8>()",
    "an algorithm option with trailing garbage", "it is accepted",
    'f = wav("a", s[:9000])\nassert out("-a", "1", f)[0] == 0\nsys.exit(0 if out("-a", "1x", f)[0] != 0 else 1)\n')
bug("C23-default", "            4 => Configuration::preset_test5(),\n            _ => {", "            4 => Configuration::preset_test5(),\n            8 | 9 => Configuration::default().with_id(algorithm_id),\n            _ => {",
    "algorithm 8 or 9", "an unknown algorithm is accepted",
    'f = wav("a", s[:9000])\nsys.exit(0 if out("-a", "9", f)[0] != 0 else 1)\n')
bug("C24-whole", "                    ts += chunk_duration;", "                    ts += chunk_duration.min(args.max_chunk_duration() as f64 - 1e-9).ceil() - if first_chunk { 0.0 } else { 1.0 / 4096.0 };",
    "at least three chunks", "the reported times drift",
    'c, t = out("-C", 1, "-F", "json", "-l", 0, wav("a", s))\nimport json\nv = [json.loads(l) for l in t.strip().split("\\n")]\nsys.exit(0 if all(abs(x["timestamp"] - i) < 0.006 for i, x in enumerate(v)) else 1)\n')
bug("C24-overlap", "    if chunk_limit > 0 && args.overlap {\n        extra_chunk_limit = config.delay();\n        overlap =", "    if chunk_limit > 0 {\n        if args.overlap {\n            extra_chunk_limit = config.delay();\n        }\n        overlap =",
    "chunks without overlap", "the delay of the fingerprint is added to every duration although the chunks do not overlap",
    'c, t = out("-C", 10, "-l", 0, wav("a", s))\nsys.exit(0 if "DURATION=10\\n" in t else 1)\n')
bug("C24-after", "                    + overlap;\n                result_printer.print_result(&printer, first_chunk, ts, chunk_duration);\n\n                if args.ts {", "                    + overlap;\n                if !first_chunk && stream_limit > 0 && stream_size == stream_limit {\n                    ts += chunk_duration;\n                }\n                result_printer.print_result(&printer, first_chunk, ts, chunk_duration);\n\n                if args.ts {",
    "a sample rate below 1152 Hz and a chunk that ends in the packet with the length limit", "the times from this chunk on are one chunk late",
    'import json\nc, t = out("-C", 1, "-F", "json", "-l", 8, wav("a", s[:9000], 1001))\nv = [json.loads(l) for l in t.strip().split("\\n")]\nsys.exit(0 if all(abs(x["timestamp"] - i) < 0.006 for i, x in enumerate(v)) else 1)\n')
bug("C24-last", "        result_printer.print_result(&printer, first_chunk, ts, chunk_duration);\n    }\n\n    Ok(())", "        let ts = if chunk_limit > 0 && !args.ts {\n            (stream_size - stream_size % chunk_limit) as f64 / sample_rate as f64\n        } else {\n            ts\n        };\n        result_printer.print_result(&printer, first_chunk, ts, chunk_duration);\n    }\n\n    Ok(())",
    "a stream whose length is a multiple of the chunk duration", "the last result has the time of the end of the stream",
    'import json\nc, t = out("-C", 3, "-F", "json", "-l", 0, wav("a", s[:48000]))\nv = [json.loads(l) for l in t.strip().split("\\n")]\nsys.exit(0 if all(abs(x["timestamp"] - i * 3) < 0.006 for i, x in enumerate(v)) else 1)\n')
bug("C21-track", "            if packet.track_id() != self.track_id {\n                continue;\n            }\n\n            break Ok(packet);", "            if packet.track_id() != self.track_id || packet.data.is_empty() {\n                continue;\n            }\n            if packet.dur() == 0 || packet.dur() % 1152 != 0 && packet.ts() % 1152 != 0 {\n                continue;\n            }\n\n            break Ok(packet);",
    "x", "x", 'sys.exit(0)\n')
BUGS.pop()
