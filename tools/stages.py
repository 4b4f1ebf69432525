"""Further stages of checks: independent codecs of Python's zlib/gzip/base64 and a memory checker around the same code."""
import base64, binascii, gzip, io, os, random, re, shutil, subprocess, zlib


def _ask(binary, scratch, name, lines, wrapper=()):
    path = os.path.join(scratch, name)
    with open(path, "w") as f:
        f.write("".join("%s %d %s\n" % (op, level, x.hex()) for op, level, x in lines))
    r = subprocess.run(list(wrapper) + [binary, "codec", path], cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)
    return r.returncode, r.stdout.decode("utf-8", "replace").splitlines(), r.stderr.decode("utf-8", "replace")


def _blob(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return rng.randbytes(n)
    if k == 1:
        return bytes([rng.randrange(256)]) * n
    if k == 2:
        u = rng.randbytes(rng.randint(1, 70))
        return (u * (n // len(u) + 1))[:n]
    return bytes(rng.choice(b"abcdef gh\r\n012345=&") for _ in range(n))


def _gzip_with_options(rng, x):
    """one member with optional header fields as RFC 1952 allows them"""
    flg, mid = 0, b""
    if rng.random() < .5:
        e = rng.randbytes(rng.randint(0, 300)); flg |= 4; mid += len(e).to_bytes(2, "little") + e
    if rng.random() < .5:
        flg |= 8; mid += bytes(rng.randrange(1, 256) for _ in range(rng.randint(0, 40))) + b"\0"
    if rng.random() < .5:
        flg |= 16; mid += b"a comment" * rng.randint(0, 30) + b"\0"
    if rng.random() < .3:
        flg |= 1
    crc = rng.random() < .4
    if crc:
        flg |= 2
    head = b"\x1f\x8b\x08" + bytes([flg]) + rng.randbytes(4) + bytes([rng.choice([0, 2, 4])]) + bytes([rng.choice([0, 3, 255])]) + mid
    if crc:
        head += (zlib.crc32(head) & 0xffff).to_bytes(2, "little")
    c = zlib.compressobj(rng.randint(0, 9), zlib.DEFLATED, -rng.randint(9, 15), rng.randint(1, 9), rng.choice([0, 1, 2, 3, 4]))
    return head + c.compress(x) + c.flush() + zlib.crc32(x).to_bytes(4, "little") + (len(x) & 0xffffffff).to_bytes(4, "little")


def _stream(rng, x, raw):
    """a zlib or raw stream with any level, window, strategy and with flush points"""
    w = rng.randint(9, 15)
    c = zlib.compressobj(rng.randint(0, 9), zlib.DEFLATED, -w if raw else w, rng.randint(1, 9), rng.choice([0, 1, 2, 3, 4]))
    out, i = b"", 0
    while i < len(x):
        n = rng.randint(1, max(1, len(x)))
        out += c.compress(x[i:i + n]); i += n
        if rng.random() < .3:
            out += c.flush(rng.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_PARTIAL_FLUSH]))
    return out + c.flush()


def _size(rng, big):
    return rng.choice([0, 1, 2, 3, rng.randint(0, 60), rng.randint(0, 2000), rng.choice([1024, 32768, 65535, 65536]) if big else 300, rng.randint(0, 150000) if big else 900])


def _judge(res, lines, want, got, stage):
    names = {"ok": 0}
    for (op, level, x), w, g in zip(lines, want, got):
        kind, _, data = g.partition(" ")
        if kind == "panic":
            bad = "panicked: " + data
        elif w[0] == "fail":
            bad = None if kind == "err" else "took damaged input for an encoding of %d bytes" % (len(data) // 2)
        elif w[0] == "bytes":
            bad = None if kind == "ok" and bytes.fromhex(data) == w[1] else "gave %s, expected %d bytes %s" % (g[:80], len(w[1]), w[1][:20].hex())
        elif w[0] == "stream":
            try:
                bad = None if kind == "ok" and w[1](bytes.fromhex(data)) == w[2] else "gave %s, which an independent decoder does not read back" % g[:80]
            except Exception as e:
                bad = "gave %s, which an independent decoder rejects (%s)" % (g[:80], e)
        else:
            bad = None
        if bad and len(res["violations"]) < 20:
            res["violations"].append({"case": stage, "what": "%s (level %d) of %d bytes %s: %s" % (op, level, len(x), x[:40].hex(), bad), "detail": {"input": x[:2000].hex()}})
        res["evaluations"] += 1
    if len(got) != len(lines):
        res["violations"].append({"case": stage, "what": "the process running the codecs ended after %d of %d calls" % (len(got), len(lines)), "detail": {}})
    res["counters"][stage + " calls"] = len(got)


def _calls(rng, n, big):
    lines, want = [], []
    inflaters = {"gzip": lambda d: _all(d, 31), "zlib": lambda d: _all(d, 15), "deflate": lambda d: _all(d, -15)}
    for _ in range(n):
        x = _blob(rng, _size(rng, big))
        k = rng.randrange(12)
        if k < 3:
            op = ("gzip", "zlib", "deflate")[k]
            lines.append((op, rng.randint(0, 12), x)); want.append(("stream", inflaters[op], x))
        elif k < 7:
            op, e = rng.choice([("ungzip", _gzip_with_options(rng, x)), ("unzlib", _stream(rng, x, False)), ("undeflate", _stream(rng, x, True))])
            d = rng.randrange(4)
            if d == 0:
                lines.append((op, 0, e[:rng.randrange(len(e))])); want.append(("fail",))
            elif d == 1 and op != "undeflate":
                # damage in the check value
                i = len(e) - 1 - rng.randrange(4) - (4 if op == "ungzip" else 0)
                e = e[:i] + bytes([e[i] ^ (1 << rng.randrange(8))]) + e[i + 1:]
                lines.append((op, 0, e)); want.append(("fail",))
            elif d == 2:
                i = rng.randrange(len(e))
                e = e[:i] + rng.randbytes(1) + e[i + 1:]
                lines.append((op, 0, e)); want.append(("any",))
            else:
                lines.append((op, 0, e)); want.append(("bytes", x))
        elif k == 7:
            lines.append(("b64", 0, x)); want.append(("bytes", base64.b64encode(x)))
        elif k == 8:
            e = base64.b64encode(x)
            if x and rng.random() < .5:
                i = rng.randrange(len(e))
                e = e[:i] + rng.choice([b"*", b"_", b"-", b"", b"\0", b"\xc3\xa9"]) + e[i + 1:]
                # losing one character, padding included, or gaining a foreign one is never a valid text
                lines.append(("unb64", 0, e)); want.append(("fail",))
            else:
                lines.append(("unb64", 0, e)); want.append(("bytes", x))
        elif k == 9:
            lines.append(("hex", 0, x)); want.append(("bytes", binascii.hexlify(x)))
        elif k == 10:
            e = binascii.hexlify(x)
            if rng.random() < .5:
                e = e.upper()
            if rng.random() < .4:
                lines.append(("unhex", 0, e + rng.choice([b"0", b"g0", b" ", b"\n"]))); want.append(("fail",))
            else:
                lines.append(("unhex", 0, e)); want.append(("bytes", x))
        else:
            lines.append((rng.choice(["ungzip", "unzlib", "undeflate", "unb64", "unhex"]), 0, x)); want.append(("any",))
    return lines, want


def _all(d, wbits):
    o = zlib.decompressobj(wbits)
    out = o.decompress(d) + o.flush()
    if not o.eof or o.unused_data:
        raise ValueError("incomplete or followed by other bytes")
    return out


def cross_codecs(res, binary, scratch, seed, tier):
    rng = random.Random("cross %d" % seed)
    for rnd in range(12 if tier == "thorough" else 1):
        lines, want = _calls(rng, 1500, True)
        rc, got, err = _ask(binary, scratch, "cross.txt", lines)
        _judge(res, lines, want, got, "cross-check with Python's zlib and base64")
        if res["violations"]:
            return


def memcheck_codecs(res, binary, scratch, seed, tier):
    vg = shutil.which("valgrind")
    if not vg:
        res["inconclusive"].append("valgrind is not installed: the memory checker stage did not run")
        return
    rng = random.Random("memcheck %d" % seed)
    lines, want = _calls(rng, 2500 if tier == "thorough" else 250, False)
    rc, got, err = _ask(binary, scratch, "memcheck.txt", lines, (vg, "-q", "--error-exitcode=9", "--leak-check=no"))
    if rc == 9:
        where = re.findall(r"==\d+==\s+(?:at|by) .*", err)[:12]
        res["violations"].append({"case": "memcheck", "what": "valgrind memcheck reports an error while the codecs run: " + " | ".join(l.strip() for l in err.splitlines()[:6]), "detail": {"stack": where}})
        return
    if rc != 0 and not got:
        res["inconclusive"].append("valgrind did not run (%d): %s" % (rc, err[-200:]))
        return
    _judge(res, lines, want, got, "calls under valgrind memcheck")
