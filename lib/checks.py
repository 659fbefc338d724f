import re
from engine import Job

CAPS = {"VP_NSIGS": 4, "VP_SIGMAX": 1100, "VP_STREAMMAX": 1300}


def H(harness, name, defs, **kw):
    return Job(name, harness + ".c", defs, **dict(dict(fs=700), **kw))


HASHCAP = {"VP_NSTREAM": 16, "VP_STREAMMAX": 700}


def jobs_C01():
    j = []
    for x in (0, 1, 9, 64, 255):
        j.append(H("oprf_basic", "blind-x%d" % x, dict(HASHCAP, XLEN=x)))
    for x in (0, 1, 31, 255, 256, 300):
        j.append(H("oprf_basic", "finalize-x%d" % x, dict(HASHCAP, XLEN=x, FINALIZE=1)))
    return j


def jobs_C02():
    j = []
    for m, d, o in ((0, 1, 64), (5, 0, 1), (9, 40, 63), (9, 40, 65), (20, 16, 128), (1, 254, 129), (255, 43, 192), (3, 10, 193), (255, 43, 255), (4, 7, 0)):
        j.append(H("expand", "m%d-d%d-o%d" % (m, d, o), dict(HASHCAP, ML=m, DL=d, OL=o)))
    j.append(H("expand", "m255-d254-o255", dict(HASHCAP, ML=255, DL=254, OL=255), tiers=("thorough",)))
    j.append(H("expand", "m3-d255", dict(HASHCAP, ML=3, DL=255, OL=32)))
    for m in (0, 1, 32, 255):
        j.append(H("expand", "group-m%d" % m, dict(HASHCAP, ML=m, DL=0, OL=0, GROUP=1)))
    return j


def jobs_C03():
    j = [H("reject", "fn%d" % f, dict(HASHCAP, FN=f)) for f in range(4)]
    for f in (4, 5):
        for c in (1, 2, 3):
            j.append(H("reject", "fn%d-%d" % (f, c), dict(FN=f, CNT=c)))
    return j


def jobs_C04():
    j = []
    for p, n, t, r in ((17, 3, 2, 2), (17, 3, 2, 3), (5, 4, 3, 3), (5, 4, 3, 4), (5, 4, 4, 4), (17, 5, 1, 1), (17, 3, 3, 3)):
        j.append(H("share", "p%d-n%dt%d-r%d" % (p, n, t, r), dict(VP_P=p, NN=n, TT=t, RLEN=r, MODE=0)))
    j.append(H("share", "p257-n255t1-last", dict(VP_P=257, NN=255, TT=1, RLEN=1, MODE=0, ORDERED=1), unwind=300, fs=10000))
    j.append(H("share", "p257-n40t2-last", dict(VP_P=257, NN=40, TT=2, RLEN=2, MODE=0, ORDERED=1, SMALL=8), fs=10000))
    j.append(H("share", "p257-n255t2-last", dict(VP_P=257, NN=255, TT=2, RLEN=2, MODE=0, ORDERED=1, SMALL=8), unwind=300, fs=10000, tiers=("thorough",)))
    for p, n, t in ((17, 7, 7), (17, 12, 10)):
        j.append(H("share", "p%d-n%dt%d-last" % (p, n, t), dict(VP_P=p, NN=n, TT=t, RLEN=t, MODE=0, ORDERED=1, SMALL=3, VP_RND_MAX=16)))
    for p, n, t in ((17, 3, 2), (5, 4, 3), (5, 4, 4)):
        j.append(H("share", "p%d-secrecy-n%dt%d" % (p, n, t), dict(VP_P=p, NN=n, TT=t, MODE=1)))
    return j


def jobs_C05():
    j = []
    for m in (0, 1):
        for p, n, t, r in ((17, 3, 2, 2), (5, 3, 2, 2), (5, 3, 2, 3), (5, 4, 3, 3), (5, 4, 3, 4)):
            j.append(H("threshold", "p%d-%s-n%dt%d-r%d" % (p, "client" if m == 0 else "holders", n, t, r), dict(VP_P=p, NN=n, TT=t, RLEN=r, MODE=m)))
        for t, x in ((2, "1,200"), (2, "255,127"), (2, "128,254,1"), (3, "255,1,254")):
            j.append(H("threshold", "p257-%s-t%d-far%s" % ("client" if m == 0 else "holders", t, re.sub(r"\D+", "_", x)), dict(VP_P=257, NN=255, TT=t, RLEN=x.count(",") + 1, MODE=m, INDICES=x, SMALL=8)))
    for n in (1, 2, 3):
        j.append(H("threshold", "combine-%d-any-index" % n, dict(VP_P=17, RLEN=n, NN=n, TT=1, MODE=3)))
    j.append(H("threshold", "toomany", dict(NN=3, TT=2, MODE=2)))
    return j


def jobs_C06():
    j = [H("tdh", "one-s%d" % s, dict(HASHCAP, SL=s, MODE=0)) for s in (0, 1, 16, 300)]
    j.append(H("tdh", "combine-n3t2", dict(HASHCAP, VP_P=5, SL=3, MODE=1, NN=3, TT=2, RLEN=2)))
    return j


def jobs_C07():
    j = [H("verify", "one-n%dt%d" % (n, t), dict(NN=n, TT=t, MODE=0)) for n, t in ((4, 1), (16, 2), (16, 3), (16, 4))]
    j += [H("verify", "one-n%dt%d-self%d" % (n, t, i), dict(NN=n, TT=t, MODE=0, SELF=i)) for n, t, i in ((16, 7, 3), (16, 10, 5))]
    j += [H("verify", "one-p257-n255t%d-self%d" % (t, i), dict(VP_P=257, NN=255, TT=t, MODE=0, SELF=i, SMALL=8)) for t, i in ((2, 255), (3, 128))]
    j += [H("verify", "all-n%dt%d" % (n, t), dict(NN=n, TT=t, MODE=1)) for n, t in ((3, 2), (4, 3))]
    return j


def jobs_C08():
    return [H("dkg_run", "p%d-n%dt%d-r%d" % (p, n, t, r), dict(VP_P=p, NN=n, TT=t, RLEN=r)) for p, n, t, r in
            ((5, 3, 2, 2), (5, 3, 2, 3), (5, 3, 3, 3), (5, 4, 2, 2), (5, 4, 2, 3))] + [
            H("dkg_run", "p%d-dealer-n%dt%d" % (p, n, t), dict(VP_P=p, NN=n, TT=t, RLEN=t, DEALER=1, SMALL=m)) for p, n, t, m in ((5, 4, 4, 5), (17, 5, 4, 4), (17, 6, 5, 3), (257, 20, 2, 8), (257, 10, 3, 6))] + [
            H("dkg_run", "p%d-dealer-n%dt%d" % (p, n, t), dict(VP_P=p, NN=n, TT=t, RLEN=t, DEALER=1, SMALL=3, VP_RND_MAX=16), unwind=300, fs=10000) for p, n, t in ((17, 8, 8), (257, 130, 2))] + [
            H("finish", "p257-n%d" % n, dict(VP_P=257, NN=n, SYM=2), unwind=300, fs=10000) for n in (2, 129, 200)] + [
            H("dkg_run", "p5-n4t3-r3", dict(VP_P=5, NN=4, TT=3, RLEN=3), tiers=("thorough",), timeout=800)]


def jobs_C09():
    j = []
    for p, n, t, d in ((5, 3, 2, "0,1,2"), (5, 3, 2, "2,0,1"), (5, 3, 2, "2,1,0"), (5, 4, 2, "3,0,2"), (5, 4, 2, "1,3,0")):
        dn = d.count(",") + 1
        j.append(H("mpmul", "p%d-mul-n%dt%d-%s" % (p, n, t, d.replace(",", "")), dict(VP_P=p, NN=n, TT=t, DN=dn, VP_DIM=dn, DEALERS=d, MODE=0)))
    for p, n, t, d, m in ((5, 4, 2, "3,1,0,2", 5), (17, 6, 3, "5,0,3,1,4", 2), (257, 12, 2, "11,0,7", 4)):
        dn = d.count(",") + 1
        j.append(H("mpmul", "p%d-mul-n%dt%d-%s" % (p, n, t, d.replace(",", "_")), dict(VP_P=p, NN=n, TT=t, DN=dn, VP_DIM=dn, DEALERS=d, MODE=0, SMALL=m)))
    j.append(H("mpmul", "p5-mul-n3t2-any", dict(VP_P=5, NN=3, TT=2, DN=3, VP_DIM=3, MODE=0), tiers=("thorough",), timeout=800))
    for p, d in ((17, 1), (17, 2)):
        j.append(H("mpmul", "p%d-matrix-%d" % (p, d), dict(VP_P=p, DN=d, VP_DIM=d, MODE=1, NN=3)))
    j.append(H("mpmul", "operands", dict(NN=3, MODE=2)))
    return j


SHAPES = ["0,0,0", "1,0,2", "0,3,0", "3,3,3", "0xff,0,1"]


def tp_jobs(prop, steps, n=3, t=2, good=0, shapes=SHAPES, **kw):
    out = []
    for s in steps:
        d = dict(CAPS, STEP=s, NN=n, TT=t, PROP=prop, GOOD=good)
        if good:
            fs = (2000 if s in (2, 3) else 64 if s == 5 else 400) if prop == 14 else (64 if s in (2, 3, 5) else 400)
        else:
            fs = 64 if s in (2, 3, 5) else 400
        o = dict(unwind=12 if s == 6 else 70, fs=fs, weight=2 if s in (2, 3, 5, 6) else 1)
        o.update(kw)
        if o.get("mode") == "mem":
            d["CHMAX"] = t*t - 1
            d.update(caps(n, t, t*t - 1))
        name = "tp%d-%s-n%dt%d" % (s, "payload" if good else "any", n, t)
        if s != 6:
            out.append(Job(name, "tp_step.c", d, **o))
            continue
        for sh in [x + ",0"*(n - 3) for x in shapes]:
            x = {"NEVER_ACCEPTED": 1} if sh == "3,3,3" else {}
            out.append(Job("%s-c%s" % (name, sh.replace(",", "").replace("0xff", "x")), "tp_step.c", dict(d, SHAPE=sh, **x), **o))
        out.append(Job(name + "-cxxx", "tp_step.c", d, **dict(o, tiers=("thorough",), timeout=800, weight=9)))
    return out


def caps(n, t, ch=1):
    """documented sizes of the buffers behind pointers to incomplete arrays"""
    d = {"VP_CAP_" + x: n for x in ("peer_sig_pks", "peers_sig_pks", "tp_peers_sig_pks", "peer_noise_pks", "peers_noise_pks", "peer_lt_pks", "noise_outs", "noise_ins", "shares", "xshares")}
    d.update(VP_CAP_commitments=n*t, VP_CAP_complaints=n*n, VP_CAP_encrypted_shares=n*n, VP_CAP_cheaters=ch)
    return d


def peer_jobs(prop, steps, n=3, t=2, good=0, fail=0, idx=2, **kw):
    out = []
    for s in steps:
        d = dict(CAPS, STEP=s, NN=n, TT=t, PROP=prop, GOOD=good, FAIL=fail, IDX=idx)
        if prop == 23:
            d["VP_POOL"] = 256
        o = dict(unwind=12 if s == 6 else 70, fs=700, models=("nd.c", "sodium_model.c", "libc_model.c", "noise_model.c"))
        o.update(kw)
        if o.get("mode") == "mem":
            d.update(caps(n, t))
        name = "peer%d-%s%s-n%dt%d" % (s, "payload" if good else "any", "-faults" if fail else "", n, t) + ("-i%d" % idx if idx != 2 else "")
        var = [{}]
        if s == 6:
            var = [{"SHAPE": x + ",0"*(n - 3)} for x in ("0,0,0", "1,0,2", "0,3,0", "0xff,0,1")]
        elif s == 7:
            var = [{"CNT": x} for x in (0, 1, 2, 3)]
        elif s == 1 and fail:
            var = [{}] + [{"ADDFAIL": x} for x in range(n)]
        elif s == 0 and good:
            var = [{"IDX0": x} for x in (1, 3)]
        for x in var:
            out.append(Job(name + "".join("-%s" % str(v).replace(",", "").replace("0xff", "x") for v in x.values()), "peer_step.c", dict(d, **x), **o))
    return out


RESOLVE = [  # complaints, answers
    ("0x0102", "1"), ("0x0102", "3"), ("0x0102", "ANY"), ("0x0301", "0"),
    ("0x0102,0x0302", "1,3"), ("0x0102,0x0302", "3,1"), ("0x0102,0x0302", "1,1"), ("0x0201,0x0102", "2,1"), ("0x0201,0x0102", "2,3"),
    ("0x0302,0x0301,0x0201", "2,3,3")]


RESOLVE4 = [("0x0102,0x0103,0x0104,0x0201,0x0203", "1,2,1,2,1")]
RESOLVE5 = [("0x0105,0x0402", "4,1"), ("0x0504,0x0104,0x0304,0x0204", "1,2,3,5")]


def resolve_jobs(prop, cases=RESOLVE, n=3, t=2, good=1, ch=12, **kw):
    out = []
    for c, a in cases:
        nc, nm = c.count(",") + 1, len(set(x[-2:] for x in c.split(",")))
        d = dict(CAPS, NN=n, TT=t, COMPLAINTS=c, ANSWERS=a, NMSG=nm, PROP=prop, GOOD=good, VP_P=17)
        if good and "ANY" not in a and a.split(",")[0] == str(int(c[2:4], 16)) and prop == 15 and nc == 1:
            d["BLAMED"] = 1
        if not good:
            acc = set(x[-2:] for x in c.split(","))
            d["FROMS"] = ",".join(str(i + 1) for i in range(n))
        o = dict(unwind=70, fs=3000, mode="mem", nomem=True)
        o.update(kw)
        d.update(caps(n, t, ch), CHMAX=ch)
        out.append(Job("resolve-%s-%s-a%s-n%dt%d" % ("payload" if good else "any", c.replace("0x0", "").replace(",", "_"), a.replace(",", ""), n, t), "tp_resolve.c", d, **o))
    return out


def jobs_C10():
    return (tp_jobs(10, [1, 2, 3, 4, 5, 6, 8, 9], shapes=["0,1,0", "0xff,0,1"]) + tp_jobs(10, [0, 1, 4, 6, 8], good=1, shapes=["0,0,0", "1,0,2"])
            + peer_jobs(10, [0, 1, 2, 3, 4, 5, 6, 9]) + peer_jobs(10, [0, 1, 2, 3, 4, 5, 7, 8, 9], good=1)
            + peer_jobs(10, [1, 4, 5], n=4) + peer_jobs(10, [3, 4, 7], n=4, t=3, good=1, idx=1) + peer_jobs(10, [1, 2, 5, 9], good=1, idx=3) + tp_jobs(10, [1, 4, 9], n=4)
            + [H("start", "peer-start", dict(CAPS, MODE=1, PROP=10))])


def jobs_C11():
    return (tp_jobs(11, [1, 2, 3, 4, 5, 6, 8, 9], shapes=["0,1,0", "0xff,0,1"]) + peer_jobs(11, [0, 1, 2, 3, 4, 5, 6, 9])
            + peer_jobs(11, [5, 9], n=4, idx=1) + tp_jobs(11, [4, 8], n=4)
            + [H("start", "peer-start", dict(CAPS, MODE=1, PROP=11))])


def jobs_C12():
    return (tp_jobs(12, [0, 1, 2, 3, 4, 5, 6, 8, 9], mode="mem") + peer_jobs(12, range(11), mode="mem") + peer_jobs(12, [0, 1, 2, 3, 4, 5], good=1, fail=1, mode="mem")
            + tp_jobs(12, [1, 4, 9], n=4, mode="mem") + peer_jobs(12, [1, 3, 4, 5], n=4, t=3, idx=4, mode="mem")
            + resolve_jobs(12, RESOLVE[:3] + RESOLVE[6:], nomem=False, ch=3) + resolve_jobs(12, RESOLVE[:2] + RESOLVE[6:8], nomem=False, good=0, ch=3) + resolve_jobs(12, RESOLVE4, n=4, t=3, nomem=False, ch=8))


def jobs_C13():
    return tp_jobs(13, [0, 1, 2, 3, 4, 5, 6, 8, 9]) + tp_jobs(13, [1, 4, 8, 9], n=4) + resolve_jobs(13, RESOLVE[:2] + RESOLVE[6:8], good=0) + resolve_jobs(13, RESOLVE[1:2] + RESOLVE[3:4]) + [H("done", "after-the-end", dict(CAPS, ROLE=0, NN=3, TT=2, PROP=13))]


def jobs_C14():
    return (tp_jobs(14, [0, 1, 2, 3, 4, 5, 6, 8, 9], good=1, shapes=["0,0,0", "1,0,2"]) + tp_jobs(14, [4, 8, 9], n=4, t=3, good=1) + peer_jobs(14, range(11), good=1) + peer_jobs(14, [1, 2, 4], n=4, good=1, idx=4) + resolve_jobs(14, RESOLVE[:2] + RESOLVE[3:])
            + [H("sizes", "to-peer-step%d" % s, dict(NMAX=128, MODE=0, STEP=s)) for s in (0, 1, 2, 3, 4, 5, 6, 8)]
            + [H("sizes", "to-tp-step%d-n%d" % (s, n), dict(NMAX=128, NFIX=n, MODE=1, STEP=s), unwind=131) for s in (0, 1, 2, 3, 4, 5, 8, 9) for n in (2, 7, 128)])


def jobs_C15():
    return (tp_jobs(15, [4, 5, 6], good=1, shapes=["0,0,0", "1,0,2", "0,3,0", "0xff,0,1"]) + tp_jobs(15, [4], n=5, t=3, good=1) + peer_jobs(15, [4, 5, 6, 7], good=1) + peer_jobs(15, [4, 5], n=4, t=3, good=1, idx=4) + peer_jobs(15, [5], n=4, t=2, good=1, idx=4) + peer_jobs(15, [5, 6], good=1, idx=1)
            + resolve_jobs(15) + resolve_jobs(15, RESOLVE5, n=5, t=3) + resolve_jobs(15, RESOLVE[:2] + RESOLVE[6:8], good=0))


def jobs_C16():
    return (tp_jobs(16, [0, 1, 2, 3, 4, 5, 6], good=1, shapes=["0,0,0", "1,0,2"]) + tp_jobs(16, [8]) + tp_jobs(16, [8], n=4) + tp_jobs(16, [1, 4], n=4, good=1) + peer_jobs(16, [1, 4], n=4, t=3, good=1) + peer_jobs(16, range(10), good=1)
            + [H("start", "tp-start", dict(CAPS, VP_NSTREAM=6, MODE=0, NLEN=9, ONLYGOOD=1, PROP=16)), H("start", "peer-start", dict(CAPS, MODE=1, PROP=16))])


def jobs_C18():
    j = [H("start", "tp-params-name%s" % l, dict(CAPS, MODE=0, NLEN=l, PROP=18, **({"VP_STREAM_CLIP": 1} if int(l.rstrip("UL"), 0) > 1024 else {}))) for l in ("0", "9", "1025", "65545", "0xffffffffffffffffUL")]
    j += [H("start", "tp-good-name%d" % l, dict(CAPS, VP_NSTREAM=6, MODE=0, NLEN=l, ONLYGOOD=1, PROP=18)) for l in (1, 2, 9, 255, 1024)]
    j.append(H("start", "peer", dict(CAPS, MODE=1, PROP=18)))
    return j + peer_jobs(18, [0])


def jobs_C20():
    return [H("cheater", "all-records", {})]


def jobs_C21():
    return [H("lock", n, dict(MODE=m, NN=3, TT=2, VP_NSTREAM=8, VP_STREAMMAX=300, VP_ZERO_HASH=1)) for m, n in enumerate(("blind", "unblind", "hash", "finalize", "dealing"))] + peer_jobs(21, [0])


def jobs_C17():
    return peer_jobs(17, [0, 1, 2, 3, 4, 5, 6, 8, 9, 10]) + peer_jobs(17, range(1, 8), good=1) + peer_jobs(17, [9], n=4, t=3, idx=4) + peer_jobs(17, [6, 7, 9], good=1, idx=1) + [H("done", "after-the-end", dict(CAPS, ROLE=1, NN=3, TT=2, PROP=17), models=("nd.c", "sodium_model.c", "libc_model.c", "noise_model.c"))]


def jobs_C19():
    return peer_jobs(19, [0, 1, 2, 3, 4, 5, 8, 9, 10], good=1, fail=1, mode="mem") + peer_jobs(19, [2, 3, 5], n=4, good=1, fail=1, mode="mem", idx=1)


def jobs_C22():
    return peer_jobs(22, range(10), good=1) + peer_jobs(22, [1, 3, 4, 7], n=4, t=3, good=1, idx=4) + peer_jobs(22, [4, 6, 7], good=1, idx=1)


def jobs_C23():
    j = [H("random", n, dict(MODE=m, NN=3, TT=2, VP_NSTREAM=16, VP_STREAMMAX=300)) for m, n in enumerate(("key", "blind", "dealing", "sharing", "multiplication")) if m != 1]
    j += [H("random", "blind-x%d" % x, dict(MODE=1, XLEN=x, VP_NSTREAM=16, VP_STREAMMAX=500)) for x in (0, 4, 255)]
    j.append(H("random", "dealing-n5t4", dict(MODE=2, NN=5, TT=4)))
    j.append(H("random", "start", dict(CAPS, MODE=5, VP_NSTREAM=8, VP_POOL=512)))
    return j + peer_jobs(23, [0, 3], good=1)


def jobs_C24():
    n, t, j = 3, 2, []
    for role, who in enumerate(("tp", "peer")):
        models = ("nd.c", "sodium_model.c", "libc_model.c", "noise_model.c")[:3 + role]
        for s in range(10):
            for c, what in enumerate(("short-input", "short-output", "long")):
                if c == 0 and (role, s) in ((0, 0), (1, 7), (1, 8)) or c == 1 and (role, s) in ((0, 7), (0, 9), (1, 6)):
                    continue   # nothing is announced, so nothing is shorter
                j.append(Job("%s%d-%s-n%dt%d" % (who, s, what, n, t), "lens.c", dict(CAPS, STEP=s, ROLE=role, CASE=c, NN=n, TT=t, CHMAX=4, PROP=24, **caps(n, t, 4)),
                             mode="mem", fs=2400 if c else 700 if role else 400, unwind=6 if s == 6 else 70, models=models))
    return j


# ---------------------------------------------------------------- evidence texts
GROUP = "libsodium's ristretto255 group is replaced by a group of small prime order p (5, 17 or 257, see the jobs' bounds) with a bit-spread scalar encoding and a set of valid encodings; identities are decided in that group"
HASHES = "hash functions are random oracles: fresh arbitrary digest per distinct input, equal inputs give equal digests"
SIGS = "a signature is valid or not as the solver chooses, for each (key, message, signature) it is asked about; nothing else is assumed about forgery"
CLOCK = "the wall clock and the last accepted timestamps lie between 2^30 and 2^32, the tolerance is below 2^30; timestamps exactly on a window edge are left free"
NT = "n=3 peers and t=2, some steps also with n=4 or 5 and t up to 3 and for the first and the last peer, as the jobs' names say (n, t, i: index)"
TOOLS = "CBMC 5.95.1 and its SAT solver, goto-cc's C front end, and gcc for the native replay are trusted"
VLAFIX = "in a scratch copy of the sources pointers to incomplete arrays and inner variable dimensions of 3-D arrays are given constant sizes, which CBMC needs"
NOISE = "the generated Noise XK library is replaced by a model: sessions with a handshake order, ciphertexts and plaintexts chosen by the solver, one symmetric key per session"
FAULTS = "an operation of the channel library that fails leaves the same amount of output as one that succeeds"
RANDOM = "random scalars are arbitrary nonzero values"

META = {
    "C01": ("Input lengths 0, 1, 9, 64, 255 (blinding) and 0, 1, 31, 255, 256, 300 (finalizing), contents arbitrary; other lengths are outside.", [GROUP, HASHES, RANDOM, TOOLS, VLAFIX]),
    "C02": ("The (message, tag, output) lengths named by the jobs, contents arbitrary; other length combinations are outside.", [HASHES, TOOLS, VLAFIX]),
    "C03": ("All 32-byte strings as elements; 1 to 3 responses when combining.", [GROUP, HASHES, TOOLS, VLAFIX]),
    "C04": ("All secrets and coefficients, every selection and order of shares, for the (n, t, number of shares) named by the jobs; for n above 5 only the last holders in descending order, with coefficients below 8 (t up to 2) or 3 (t = 7 and 10).", [GROUP, RANDOM, TOOLS, VLAFIX]),
    "C05": ("All keys, coefficients and elements, every selection and order of holders, for the (n, t, responses) named by the jobs; indices up to 255 ('far' jobs) with secret and coefficients below 8; adding up 1 to 3 responses with any indices; eleven response counts above 255.", [GROUP, RANDOM, "no share happens to be zero", TOOLS, VLAFIX]),
    "C06": ("Session identifier lengths 0, 1, 16, 300, contents arbitrary; combination for n=3, t=2.", [GROUP, HASHES, RANDOM, "no share and no response happens to be zero", TOOLS, VLAFIX]),
    "C07": ("Arbitrary 32-byte commitments and arbitrary shares for up to 16 receivers and t up to 4; single receivers with t = 7 and 10, and receivers 128 and 255 with coefficients below 8; lists for n up to 4.", [GROUP, TOOLS, VLAFIX]),
    "C08": ("All coefficients of all dealers, every selection and order of the reconstructing holders, for the (n, t) named by the jobs; a single dealer also for n up to 130 and t up to 8, with coefficients below SMALL; adding up 2, 129 and 200 dealt shares of which the last two are arbitrary.", [GROUP, RANDOM, TOOLS, VLAFIX]),
    "C09": ("All secrets and coefficients, every t of the results, for the dealer sets and orders named by the jobs (those with SMALL: coefficients and secrets below it, the last holders); the matrix for every choice of one or two distinct indices below 17; operands with n up to 3.", [GROUP, RANDOM, TOOLS, VLAFIX]),
    "C10": ("Every step of the trusted party and of peer 2, from an arbitrary state consistent with that step, arbitrary messages ('any') or arbitrary payloads in correct envelopes ('payload'); the start message; " + NT + ".", [SIGS, HASHES, CLOCK, NOISE, TOOLS, VLAFIX]),
    "C11": ("Every receiving step of the trusted party and of peer 2 with arbitrary clocks, last timestamps and tolerances; the start message; " + NT + ".", [SIGS, HASHES, CLOCK, NOISE, TOOLS, VLAFIX]),
    "C12": ("Every step of the trusted party and of peer 2, buffers of exactly the documented sizes; complaint patterns as named by the jobs; " + NT + ".", [SIGS, HASHES, GROUP, CLOCK, NOISE, FAULTS, "the static buffers are separate objects; accesses inside the library models are not judged", TOOLS, VLAFIX]),
    "C13": ("Every step of the trusted party with arbitrary messages; complaint counts and patterns as named by the jobs; " + NT + ".", [SIGS, HASHES, GROUP, CLOCK, TOOLS, VLAFIX]),
    "C14": ("Every step of the trusted party and of peer 2 with arbitrary payloads in correct envelopes; " + NT + "; sizes of messages to peers for all n up to 128 and all t, of those to the trusted party for n=2, 7 and 128 and all t.", [SIGS, HASHES, GROUP, NOISE, TOOLS, VLAFIX]),
    "C15": ("Collection of commitments, share messages and complaints, the complaints a peer makes, and their resolution, with arbitrary payloads; complaint counts and patterns as named by the jobs; " + NT + ".", [SIGS, HASHES, GROUP, NOISE, "authentication and decryption of a stored share message under a disclosed key succeed or fail as the solver chooses, and decrypt to arbitrary bytes", TOOLS, VLAFIX]),
    "C16": ("Every step of the trusted party and of peer 2 with arbitrary payloads, the start of both, and the final comparison with arbitrary messages; " + NT + ".", [SIGS, HASHES, NOISE, TOOLS, VLAFIX]),
    "C17": ("Every step of peer 2; arbitrary messages, and arbitrary payloads in correct envelopes; " + NT + ".", [SIGS, HASHES, GROUP, CLOCK, NOISE, TOOLS, VLAFIX]),
    "C18": ("All n and t; name lengths 0, 1, 2, 9, 255, 1024, 1025, 65545 and the largest size_t, contents and message buffer sizes arbitrary (of a name above 1024 only the part that fits the recorded stream is compared); all start messages; all index assignments to a peer.", [SIGS, HASHES, CLOCK, TOOLS, VLAFIX]),
    "C19": ("Every step of peer 2 except the two about complaints, with any of the channel library's operations failing in any combination (one failing key registration per job), then the release; " + NT + ".", [SIGS, HASHES, GROUP, NOISE, FAULTS, TOOLS, VLAFIX]),
    "C20": ("All records (step, code, peers) the trusted party can write, buffers of up to 256 bytes.", ["the C library's snprintf writes at most as many bytes as it is told", TOOLS, VLAFIX]),
    "C21": ("Every combination of failing locks; arbitrary scalars, elements and inputs of 4 bytes, also inputs that map to the identity; dealing for n=3, t=2; the first step of a peer.", [GROUP, HASHES, RANDOM, "unlocking wipes, as libsodium documents", TOOLS, VLAFIX]),
    "C22": ("Every step of peer 2 with arbitrary payloads in correct envelopes; up to three complaints about the peer; " + NT + ".", [SIGS, HASHES, GROUP, NOISE, TOOLS, VLAFIX]),
    "C23": ("Two calls in a row of every function that makes a secret; n=3, t=2 and n=5, t=4; inputs to blinding of 0, 4 and 255 bytes; the first step and the dealing of a peer.", [GROUP, HASHES, RANDOM, "the random source hands out arbitrary values; how good they are is not judged", TOOLS, VLAFIX]),
    "C24": ("An input shorter than announced with any output length, an output shorter than announced with the right input, and both at least as long as announced, for all lengths below 2^64; every step 0 to 9 of both roles; n=3, t=2; what a long enough buffer holds is what the step accepts.", [SIGS, HASHES, NOISE, TOOLS, VLAFIX]),
}
TECHNIQUE = "bounded symbolic execution of the C sources (CBMC) with a SAT solver deciding every obligation"

NOT_APPLICABLE = {}
