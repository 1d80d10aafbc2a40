from base import *
from io import BytesIO
import socket
from unpythonic.net.msg import encodemsg, decodemsg, MessageDecoder
from unpythonic.net.util import ReceiveBuffer, bytessource, streamsource, socketsource, recvall, netstringify
D = Driver("P01")

HEADERISH = [b"", b"\xff", b"\xffv01l", b"\xffv01l3;abc", b";", b"v01l5;", b"\xff\xff", b"l", b"0", b"\x00", b"1;", b"a;b"]


def rpayload(r, big=True):
    k = r.randrange(7)
    if k == 0:
        return r.choice(HEADERISH)
    if k == 1:
        return bytes(r.randrange(256) for _ in range(r.randrange(40)))
    if k == 2:
        return b"".join(r.choice(HEADERISH) for _ in range(r.randrange(5)))
    if k == 3:
        return bytes(r.choice(b"\xffv01l;29") for _ in range(r.randrange(30)))
    if k == 4 and big:
        n = r.choice([99, 100, 101, 255, 256, 999, 1000, 4080, 4086, 4089, 4090, 4095, 4096, 4097, 5000, 8191, 8192, 9000, 20000])
        return bytes(r.choice(b"\xffv01l;x") for _ in range(8)) * (n // 8) + b"z" * (n % 8)
    if k == 5:
        return encodemsg(rpayload(r, False)) * r.randrange(1, 3)
    return r.choice([b"hello", b"x" * r.randrange(12)])


def chunkings(r, data):
    k = r.randrange(6)
    if k == 0:
        sizes = [1] * len(data) if len(data) < 3000 else None
    elif k == 1:
        sizes = None
    elif k == 2:
        s = r.randrange(1, 12)
        sizes = [s] * (len(data) // s + 1)
    elif k == 3:
        s = r.choice([4095, 4096, 4097, 100, 64])
        sizes = [s] * (len(data) // s + 1)
    else:
        sizes = []
        t = 0
        while t < len(data):
            s = r.choice([1, 1, 2, 3, 5, 7, 50, 1000, 4096])
            sizes.append(s)
            t += s
    if sizes is None:
        return [data] if data else []
    out = []
    p = 0
    for s in sizes:
        if p >= len(data):
            break
        out.append(data[p:p + s])
        p += s
    if r.randrange(8) == 0:  # empty chunks may occur
        out.insert(r.randrange(len(out) + 1), b"")
    assert b"".join(out) == data
    return out


def roundtrip(payloads, chunks, tail=b""):
    encs = [b"\xff" + b"v01" + b"l" + str(len(p)).encode() + b";" + p for p in payloads]
    for p, e in zip(payloads, encs):
        eq(encodemsg(p), e, "encoded message differs from the documented format", payload=p)
    src = Src(chunks)
    d = MessageDecoder(src)
    ends = list(itertools.accumulate(len(e) for e in encs))
    chunkends = list(itertools.accumulate(len(c) for c in chunks))
    for p, e in zip(payloads, ends):
        got = d.decode()
        eq(got, p, "decoded message differs from what was sent", chunks=chunks)
        # pulled exactly up to the chunk that completes the message
        need = next(i for i, ce in enumerate(chunkends) if ce >= e) + 1
        check(src.pulled == need, "decoder read more (or less) input than the chunk completing the message",
              pulled=src.pulled, need=need, chunks=chunks)
        left = b"".join(chunks[:src.pulled])[e:]
        eq(bytes(d.get_buffered_data()), left, "buffered data is not the rest of the stream read so far", chunks=chunks)
    eq(d.decode(), None, "expected end of stream", chunks=chunks)
    eq(d.decode(), None, "expected end of stream (again)", chunks=chunks)


@D.case(500)
def random_roundtrip(r):
    payloads = [rpayload(r) for _ in range(r.randrange(1, 6))]
    data = b"".join(encodemsg(p) for p in payloads)
    roundtrip(payloads, chunkings(r, data))


@D.case()
def all_two_chunk_boundaries(r):
    n = 0
    for ps in ([b"", b"a", b"\xff"], [b"\xffv01l3;abc", b"\xff", b""], [b"0123456789", b";;", b"\xffv01l"], [b"\xffv01", b"l2;xy"]):
        data = b"".join(encodemsg(p) for p in ps)
        for i in range(len(data) + 1):
            for j in range(i, len(data) + 1):
                cs = [c for c in (data[:i], data[i:j], data[j:]) if c]
                roundtrip(ps, cs)
                n += 1
    return n


@D.case()
def all_lengths(r):
    n = 0
    for size in list(range(0, 130)) + [999, 1000, 1001, 4085, 4086, 4087, 4088, 4089, 4090, 4091, 4095, 4096, 4097, 9999, 10000, 65536]:
        p = (b"\xff;" * (size // 2 + 1))[:size]
        data = encodemsg(p) + encodemsg(b"next")
        for cs in (4096, 1000, 7, 4097):
            roundtrip([p, b"next"], [data[i:i + cs] for i in range(0, len(data), cs)])
            n += 1
    return n


@D.case()
def header_deep_in_large_buffer(r):
    n = 0
    for lead in (4080, 4088, 4089, 4090, 4094, 4096, 5000, 8190):
        first = b"q" * lead
        ps = [first, b"\xff" * 20, b"", b"tail"]
        data = b"".join(map(encodemsg, ps))
        for cs in (len(data), 4096, 4095, 3, 1):
            roundtrip(ps, [data[i:i + cs] for i in range(0, len(data), cs)])
            n += 1
    return n


@D.case()
def incomplete_message_not_returned(r):
    p = b"\xffpayload;x"
    data = encodemsg(b"one") + encodemsg(p)
    n = 0
    for cut in range(len(encodemsg(b"one")), len(data)):
        for cs in (1, 3, 100):
            d = MessageDecoder(iter([data[:cut][i:i + cs] for i in range(0, cut, cs)]))
            eq(d.decode(), b"one")
            eq(d.decode(), None, "an incomplete message must not be delivered", cut=cut, cs=cs)
            n += 1
    return n


@D.case()
def live_source_resumes(r):
    """The source may produce more later: the decoder must have kept the partial message."""
    p = [b"abc", b"\xff;", b"", b"0" * 11]
    data = b"".join(map(encodemsg, p))
    n = 0
    for cut in range(len(data) + 1):
        q = []
        class Source:
            def __iter__(self):
                return self
            def __next__(self):
                if not q:
                    raise StopIteration
                return q.pop(0)
        d = MessageDecoder(Source())
        got = []
        q.append(data[:cut])
        while (m := d.decode()) is not None:
            got.append(m)
        q.append(data[cut:])
        while (m := d.decode()) is not None:
            got.append(m)
        # a body cut in the middle of reading is documented to end the stream; whole header cuts must resume
        full = [x for x, e in zip(p, itertools.accumulate(len(encodemsg(x)) for x in p)) if e <= cut]
        check(got[:len(full)] == full, "complete messages lost", cut=cut, got=got)
        n += 1
    return n


@D.case(60)
def sources(r):
    data = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 16, 100, 4095, 4096, 4097, 8192, 10000])))
    cs = r.choice([1, 2, 3, 16, 100, 4095, 4096, 4097])
    for mk_ in (lambda: bytessource(data, chunksize=cs), lambda: streamsource(BytesIO(data), chunksize=cs)):
        chunks = list(mk_())
        eq(b"".join(chunks), data, "chunks do not rejoin to the data", cs=cs)
        check(all(0 < len(c) <= cs for c in chunks), "chunk of wrong size", cs=cs, sizes=[len(c) for c in chunks])
    eq(b"".join(bytessource(data)), data)
    eq(b"".join(streamsource(BytesIO(data))), data)
    raises(TypeError, lambda: bytessource("abc"))
    raises(TypeError, lambda: streamsource(b"abc"))
    raises(TypeError, lambda: encodemsg("text"))


@D.case(20)
def socket_source(r):
    payloads = [rpayload(r) for _ in range(4)]
    data = b"".join(map(encodemsg, payloads))
    a, b = socket.socketpair()
    try:
        def send():
            p = 0
            while p < len(data):
                k = r.choice([1, 7, 100, 5000])
                a.sendall(data[p:p + k]); p += k
            a.shutdown(socket.SHUT_WR)
        t = threading.Thread(target=send, daemon=True); t.start()
        d = MessageDecoder(socketsource(b))
        for p in payloads:
            eq(d.decode(), p)
        eq(d.decode(), None)
        t.join()
    finally:
        a.close(); b.close()


@D.case(30)
def recvall_netstring(r):
    data = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 10, 1000, 70000])))
    a, b = socket.socketpair()
    try:
        n = r.randrange(1, len(data) + 1)
        t = threading.Thread(target=lambda: (a.sendall(data), a.shutdown(socket.SHUT_WR)), daemon=True); t.start()
        eq(recvall(n, b), data[:n], "recvall")
        rest = len(data) - n
        if rest:
            eq(recvall(rest, b), data[n:], "recvall lost bytes between calls")
        eq(recvall(1, b), None, "recvall past the end")
        t.join()
    finally:
        a.close(); b.close()
    eq(netstringify(data), str(len(data)).encode() + b":" + data + b",", "netstring")
    eq(netstringify(b""), b"0:,")


@D.case(100)
def receive_buffer(r):
    want = b""
    buf = ReceiveBuffer()
    if r.randrange(2):
        want = rpayload(r, False)
        buf = ReceiveBuffer(want)
    eq(bytes(buf.getvalue()), want)
    for _ in range(r.randrange(12)):
        x = rpayload(r, False)
        if r.randrange(2):
            res = buf.append(x); want += x
        else:
            res = buf.set(x); want = x
        same(res, buf)
        eq(bytes(buf.getvalue()), want, "receive buffer contents")
    raises(TypeError, lambda: buf.append("x"))
    raises(TypeError, lambda: buf.set(3))
    eq(bytes(buf.getvalue()), want, "rejected data changed the buffer")


if __name__ == "__main__":
    D.main()
