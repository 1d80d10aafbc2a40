from base import *
import re
from p01 import rpayload, chunkings
from unpythonic.net.msg import encodemsg, MessageDecoder
D = Driver("P02")
HDR = re.compile(rb"\xffv01l([0-9]{1,4000});", re.S)


def ref(stream):
    """Specification: the messages in a complete stream."""
    out = []
    pos = 0
    while True:
        j = stream.find(b"\xff", pos)
        if j == -1:
            return out
        m = HDR.match(stream, j)
        if not m:
            # header not complete before the end of stream: end; else malformed: resume after the sync byte
            h = stream[j:j + 5]
            if len(h) < 5:
                return out + ["EOF?"] if False else (out if h == b"\xffv01l"[:len(h)] else _resume(stream, j, out))
            pos = j + 1
            continue
        n = int(m.group(1))
        if m.end() + n > len(stream):
            return out
        out.append(stream[m.end():m.end() + n])
        pos = m.end() + n


def _resume(stream, j, out):
    # fewer than five bytes left: nothing more can be complete
    return out


def decode_all(chunks, **ctx):
    d = MessageDecoder(iter(chunks))
    got = []
    while True:
        o = outcome(d.decode)
        if o[0] != "ok":
            fail("decoding raised", error=o[2], chunks=chunks, **ctx)
        if o[1] is None:
            return got, d
        got.append(o[1])
        if len(got) > 10000:
            fail("decoder does not terminate", chunks=chunks)


def run(stream, chunks, want=None):
    w = ref(stream)
    if want is not None:
        assert w == want, (w, want, stream)
    got, d = decode_all(chunks)
    eq(got, w, "messages recovered differ from the well-formed messages in the stream", stream=stream, chunks=chunks)


JUNK = [b"", b"x", b"junk", b"v01l3;", b";", b"0123456789" * 3, b"l", b"\x00\x01", b"z" * 4095, b"z" * 4096, b"y" * 5000]
BAD = [b"\xff", b"\xffv", b"\xffv0", b"\xffv01", b"\xffv02l3;", b"\xffV01l3;", b"\xffv01L3;", b"\xffv01lx;", b"\xffv01l;", b"\xffv01l-3;",
       b"\xffv01l 3;", b"\xffv01l3_0;", b"\xffv01l+3;", b"\xffv01l3.0;", b"\xffv01l\xc3\xa9;", b"\xffv01l\xfe;", b"\xffv01l0x3;", b"\xff\xff", b"\xffv01l3 ;",
       b"\xffv01l\xd9\xa3;"]


@D.case()
def junk_between(r):
    n = 0
    for pre in JUNK:
        for mid in JUNK:
            ps = [b"one", b"\xfftwo;"]
            stream = pre + encodemsg(ps[0]) + mid + encodemsg(ps[1]) + pre
            for cs in (1, 2, 5, 4096, 100000) if len(stream) < 300 else (7, 4096, 4095, 100000):
                run(stream, [stream[i:i + cs] for i in range(0, len(stream), cs)], ps)
                n += 1
    return n


@D.case()
def malformed_header_then_message(r):
    n = 0
    for bad in BAD:
        for junk in (b"", b"q", b"rest of bad message", b"z" * 5000):
            stream = encodemsg(b"first") + bad + junk + encodemsg(b"good") + encodemsg(b"")
            for cs in (1, 3, 4096, 100000) if len(stream) < 300 else (11, 4096, 100000):
                run(stream, [stream[i:i + cs] for i in range(0, len(stream), cs)])
                n += 1
    return n


@D.case()
def corrupt_each_header_byte(r):
    n = 0
    for p in (b"abc", b"", b"x" * 12):
        e = encodemsg(p)
        hl = len(e) - len(p)
        for pos in range(hl):
            for b in (0, 0x30, 0x3b, 0x6c, 0xff, 0xfe, 0x2d, 0x20):
                bad = e[:pos] + bytes([b]) + e[pos + 1:]
                stream = encodemsg(b"A") + bad + encodemsg(b"B") + encodemsg(b"C")
                for cs in (1, 4, 1000):
                    run(stream, [stream[i:i + cs] for i in range(0, len(stream), cs)])
                    n += 1
            cut = e[:pos] + e[pos + 1:]
            stream = encodemsg(b"A") + cut + encodemsg(b"B")
            run(stream, [stream])
            n += 1
    return n


@D.case(1500)
def arbitrary_bytes(r):
    k = r.randrange(3)
    if k == 0:
        stream = bytes(r.choice(b"\xffv01l;2 x") for _ in range(r.randrange(60)))
    elif k == 1:
        stream = b"".join(r.choice([b"\xffv01l", b"\xff", b";", b"3", b"1", b"ab", b"\xffv01l2;", encodemsg(b"hey")]) for _ in range(r.randrange(12)))
    else:
        stream = b"".join(r.choice([encodemsg(rpayload(r)), r.choice(BAD), r.choice(JUNK), rpayload(r)]) for _ in range(r.randrange(1, 6)))
    run(stream, chunkings(r, stream))


@D.case()
def exhaustive_short(r):
    alpha = [b"\xff", b"v01l", b"1", b";", b"a"]
    n = 0
    for L in range(0, 6):
        for t in itertools.product(alpha, repeat=L):
            stream = b"".join(t) + b"\xffv01l2;OK"
            run(stream, [stream])
            run(stream, [stream[i:i + 1] for i in range(len(stream))])
            n += 1
    return n


@D.case()
def long_header_flood(r):
    for filler in (b"9" * 5000, b"a" * 5000, b" " * 9000):
        stream = b"\xffv01l" + filler + encodemsg(b"after")
        for cs in (1000, 4096, 100000):
            got, d = decode_all([stream[i:i + cs] for i in range(0, len(stream), cs)])
            eq(got, [b"after"], "message after a header flood lost", filler=filler[:5], cs=cs)


if __name__ == "__main__":
    D.main()
