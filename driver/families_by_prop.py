"""Which families of executions each property is looked for in."""
import random
import families as F

LOCKS = F.LOCK_SCEN
PUTS = F.PUT_SCEN
STORE = ["put", "put", "putbad", "verify", "batch", "get"]
LOCKY = ["lock", "lock", "lock", "unlock", "unlock", "list", "listpath"]


def pick(names, *parts):
    return [n for n in names if any(p in n for p in parts)]


def tasks(pid, tier, seed):
    th = tier == "thorough"
    q = lambda a, b: b if th else a
    R = F.random_tasks

    def conc(names, n, m):
        return F.conc_tasks(names, tier, seed, q(n, m))
    t = []
    if pid == "C01":
        t += F.big_tasks(tier)
        t += F.upload_tasks(tier) + conc(PUTS, 40, 1500)
        t += F.crash_tasks(["put", "reput", "bad", "rebad", "put-lock"], tier, seed, ["put/put", "put/bad"])
        t += [x for x in F.fault_tasks(tier, seed) if x[1] in ("put", "reput", "bad")]
        t += R(seed, q(30, 600), kinds=["put", "putbad", "putbad", "malformed"])
        t += [("t_cut_big", [70000 + 997 * i for i in range(q(20, 70))])] + F.cut_tasks(tier)[:6]
        t += F.special_tasks(["put", "reput", "bad"]) + F.start_mid_tasks(["put", "reput", "bad"], ("asks", "dies", "eof"), tier) + F.content_tasks(tier) + F.linked_tasks()
        t += F.fault_mid_tasks(["put", "bad"], ["put"], tier)
        t += F.deaf_tasks(["put", "bad"])
    elif pid == "C02":
        t += F.big_tasks(tier)[:1]
        t += F.upload_tasks(tier) + conc(PUTS, 40, 1500)
        t += R(seed, q(40, 800), kinds=STORE + ["malformed"]) + R(str(seed) + "s", q(20, 300), kinds=STORE, sizes=[0, 1, 3, 70])
        t += F.chunk_tasks(tier, seed) + F.cut_tasks(tier)[:6] + [("t_cut_big", [70000 + 997 * i for i in range(q(10, 70))])]
        t += F.content_tasks(tier) + F.start_mid_tasks(["put", "reput", "bad"], ("asks", "stays"), tier)
        t += F.deaf_tasks(["put", "reput", "bad"])
    elif pid == "C03":
        t += conc(PUTS, 50, 1500) + R(seed, q(30, 600)) + R(str(seed) + "p", q(20, 300), kinds=["put", "putbad", "get", "batch"])
        t += F.crash_tasks(["put", "reput", "rebad", "put-lock"], tier, seed, ["put/put", "reput/bad"])
        t += [x for x in F.fault_tasks(tier, seed) if x[1] in ("reput", "put", "put-lock", "lock", "unlock")]
        t += F.upload_tasks(tier)[:q(12, 100)]
        t += F.special_tasks(["put", "reput", "put-lock"]) + F.linked_tasks() + F.fault_mid_tasks(["reput"], ["put"], tier) + F.start_mid_tasks(["reput", "put-lock", "lock", "unlock"], ("bad", "dies", "eof"), tier)
        t += [("t_modes_objs", ["0444", "0400", "0600", "0640", "0644", "0666", "0755"])]
        t += F.deaf_tasks(["reput", "put-lock"])
    elif pid == "C04":
        t += F.big_get_tasks(tier) + F.big_tasks(tier)[1:]
        t += F.upload_tasks(tier) + conc(pick(PUTS, "get"), 60, 2500)
        t += R(seed, q(40, 600), kinds=["put", "get", "get", "putbad", "batch"]) + F.chunk_tasks(tier, seed)
        t += F.wellformed_tasks(tier) + F.read_fault_tasks(tier)
        t += F.content_tasks(tier) + F.special_tasks(["get", "getbig"], 1) + F.linked_tasks() + F.start_mid_tasks(["get", "getbig"], ("bad",), tier)
        t += F.deaf_tasks(["get", "getbig"]) + F.deaf_huge_tasks()
    elif pid == "C05":
        t += F.many_tasks(tier) + F.huge_tasks(tier) + F.linked_tasks()
        t += R(seed, q(60, 900), kinds=["put", "put", "batch", "batch", "batch", "putbad"]) + conc(pick(PUTS, "batch"), 80, 2500)
        t += F.upload_tasks(tier)[:q(15, 100)] + F.wellformed_tasks(tier) + F.chunk_tasks(tier, seed)
    elif pid == "C06":
        t += F.huge_tasks(tier) + F.big_tasks(tier)[:1] + F.linked_tasks()
        t += R(seed, q(60, 900), kinds=["put", "verify", "verify", "putbad"]) + conc(pick(PUTS, "verify"), 80, 2500)
        t += F.upload_tasks(tier) + F.wellformed_tasks(tier)
        t += F.content_tasks(tier)
    elif pid == "C07":
        t += F.malformed_tasks(tier) + F.wellformed_tasks(tier) + F.pipeline_tasks(seed, q(40, 500))
        t += R(seed, q(40, 600)) + F.fuzz_tasks(seed, q(300, 6000)) + conc(["put/get", "lock/listd", "put/batchd"], 20, 300)
    elif pid == "C08":
        t += F.prelocked_tasks()
        t += conc(LOCKS, 60, 3000) + R(seed, q(30, 500), kinds=LOCKY, paths=[b"a", b"b"]) \
            + R(str(seed) + "m", q(15, 300), kinds=LOCKY, paths=[b"a", b"b"], multi=True, tick=1) + F.wellformed_tasks(tier) + F.leftover_tasks(tier)
        t += F.special_tasks(["lock", "lock-held", "unlock", "lock-unlock", "unlock-lock", "relock"], 1) + [("t_dates", [""])]
        t += F.start_mid_tasks(["lock", "unlock", "lock-unlock", "relock"], ("asks", "dies"), tier)
        t += F.fault_mid_tasks(["lock", "unlock-lock"], ["lock"], tier)
        t += F.deaf_tasks(["lock", "unlock", "lock-unlock"])
    elif pid == "C09":
        t += F.prelocked_tasks()
        t += conc(LOCKS, 60, 3000) + R(seed, q(20, 400), kinds=LOCKY, multi=True, tick=1) + F.wellformed_tasks(tier) + F.leftover_tasks(tier)
        t += F.start_mid_tasks(["lock", "lock-held", "unlock", "unlock-lock"], ("stays", "dies"), tier) + [("t_dates", [""])]
    elif pid == "C10":
        sc = ["lock", "lock-held", "unlock", "unlock-none", "lock-unlock", "unlock-lock", "lock-two", "put-lock", "relock"]
        t += F.crash_tasks(sc, tier, seed, ["lock/lock", "lock/unlock", "lock/unlock+lock", "unlock+lock/unlock"])
        t += F.start_mid_tasks(["lock", "unlock", "lock-unlock", "unlock-lock", "relock"], ("asks", "dies", "eof"), tier)
        t += F.deaf_tasks(["lock", "lock-held", "unlock", "lock-unlock", "unlock-lock", "relock"])
    elif pid == "C11":
        t += F.prelocked_tasks()
        t += F.paging_tasks(tier, seed) + conc(pick(LOCKS, "list"), 40, 2000) + R(seed, q(30, 500), kinds=LOCKY, paths=F.PATHS[:9]) + F.leftover_tasks(tier) + F.crash_tasks(["lock", "lock-two"], tier, seed)
        t += F.wellformed_tasks(tier) + F.oddlock_tasks()
        t += F.start_mid_tasks(["lock", "unlock", "relock"], ("stays",), tier)
    elif pid == "C12":
        t += F.prelocked_tasks()
        t += conc(pick(LOCKS, "unlock"), 50, 2500) + [("t_denied", 0)] + R(seed, q(40, 600), kinds=LOCKY, multi=True)
        t += [x for x in F.escape_tasks(tier) if x[3] == "unlock"] + F.wellformed_tasks(tier) + F.oddlock_tasks()
        t += F.special_tasks(["unlock", "unlock-lock", "relock"], 1) + F.start_mid_tasks(["unlock", "unlock-lock"], ("bad", "dies"), tier)
        t += F.fault_mid_tasks(["unlock", "unlock-lock"], ["relock"], tier)
        t += F.deaf_tasks(["unlock", "unlock-lock"])
    elif pid == "C13":
        t += F.prelocked_tasks()
        t += F.details_tasks(seed, q(30, 400)) + [("t_boundary_ticks", 0), ("t_dates", ["", "UTC"]), ("t_dates", ["America/Los_Angeles", "Pacific/Auckland"])] + conc(pick(LOCKS, "tick", "users"), 40, 2000)
        t += R(seed, q(20, 300), kinds=LOCKY, multi=True, tick=1)
        t += F.special_tasks(["lock", "lock-held", "relock"], 1) + F.start_mid_tasks(["lock", "lock-held"], ("stays",), tier)
    elif pid == "C14":
        t += F.prelocked_tasks()
        t += [("t_owners", 0)] + F.name_tasks() + F.details_tasks(seed, q(15, 200)) + R(seed, q(40, 500), kinds=LOCKY, multi=True, paths=F.PATHS[:5])
        t += conc(pick(LOCKS, "users", "list"), 20, 1000) + F.paging_tasks(tier, seed)[:q(12, 40)]
    elif pid == "C15":
        t += F.pipeline_tasks(seed, q(120, 1500)) + F.malformed_tasks(tier) + F.wellformed_tasks(tier) + F.chunk_tasks(tier, seed)
        t += R(seed, q(20, 300), pipelined=True)
    elif pid == "C16":
        t += F.cut_tasks(tier)
        t += F.pipeline_cut_tasks(seed, q(60, 1500))
    elif pid == "C17":
        t += F.malformed_tasks(tier) + F.wellformed_tasks(tier) + F.pipeline_tasks(seed, q(40, 500)) + R(seed, q(20, 300)) + F.message_tasks(tier)[:q(8, 100)]
        t += F.fuzz_tasks(seed, q(450, 9000))
    elif pid == "C18":
        t += F.fuzz_tasks(seed, q(1500, 30000)) + F.lockfile_tasks(tier) + F.framing_tasks(tier, seed) + F.malformed_tasks(tier)
        t += F.cut_tasks(tier)[:q(12, 100)] + R(seed, q(20, 200)) + conc(LOCKS[:8], 12, 200) + F.chunk_tasks(tier, seed) + F.message_tasks(tier)
        t += F.deaf_tasks(F.FAULT_SCENS + F.GET_SCENS) + F.deaf_huge_tasks() + [("t_uploads", [n], [65516]) for n in (0, 50, 70000)] + F.prelocked_tasks()
    elif pid == "C20":
        t += F.framing_tasks(tier, seed) + F.fuzz_tasks(seed, q(300, 6000))
    elif pid == "C21":
        t += F.escape_tasks(tier) + R(seed, q(30, 400), access=True)
        t += conc(["lock/unlock+lock", "put/bad", "lock/lock", "put/get", "put/put"], 10, 200)
        t += F.crash_tasks(["put", "lock"], tier, seed)
    elif pid == "C22":
        t += F.fault_tasks(tier, seed) + F.read_fault_tasks(tier)
        t += F.special_tasks(F.FAULT_SCENS + F.GET_SCENS)
    elif pid == "C23":
        t += F.perm_tasks(tier, seed)
    elif pid == "C24":
        t += F.upload_tasks(tier)[:q(12, 100)] + R(seed, q(40, 600)) + F.malformed_tasks(tier) + F.cut_tasks(tier) + [x for x in F.fault_tasks(tier, seed) if th or x[2][0][0] in ("EIO", "ENOSPC", "EACCES", "EEXIST")]
        t += conc(["put/put", "put/bad", "reput/bad", "lock/lock", "lock/unlock+lock", "put/short"], 20, 500)
        t += F.crash_tasks(["put", "lock", "lock-held", "bad"], tier, seed)
        t += F.special_tasks(["put", "lock", "unlock", "bad"], 1) + F.start_mid_tasks(["put", "lock", "unlock", "bad"], ("asks", "dies"), tier)
        t += F.deaf_tasks(["put", "reput", "bad", "lock", "unlock", "put-lock"])
    else:
        raise KeyError(pid)
    return t
