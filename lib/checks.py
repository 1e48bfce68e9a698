"""One entry per property: the stages (harness, sources, sanitizer, case counts) that decide it."""

CHECKS = {}


def check(cid, stages, assumptions=(), level="exploration", rule=""):
    CHECKS[cid] = {"stages": stages, "assumptions": list(assumptions), "level": level, "rule": rule}


def stage(harness, quick, thorough, san="asan", sources="all", **kw):
    return dict(harness=harness, quick=quick, thorough=thorough, san=san, sources=sources, **kw)


def guided(harness, seconds, **kw):
    """coverage-guided: libFuzzer mutates the choices; counted in seconds, not in cases"""
    return stage(harness, seconds, seconds * 40, san="fuzz", **kw)


check("C01", [stage("c01_hex.cpp", 1500000, 20000000, sources="headers"),
              guided("c01_hex.cpp", 20, sources="headers")])
check("C02", [stage("c02_percent.cpp", 3000000, 40000000, sources="headers"),
              guided("c02_percent.cpp", 20, sources="headers")])
check("C03", [stage("c03_digest.cpp", 300000, 4000000, sources="crypto", schedules=True),
              stage("c03_digest.cpp", 40000, 600000, san="tsan", sources="crypto", schedules=True, flags=["-DVP_THREADS_ONLY"])])
check("C04", [stage("c04_checksums.cpp", 1000000, 10000000, sources="headers"),
              guided("c04_checksums.cpp", 20, sources="headers")])
check("C05", [stage("c05_queue.cpp", 120000, 1500000, san="none", sources="headers", alarm=10, schedules=True),
              stage("c05_queue.cpp", 25000, 400000, san="tsan", sources="headers", alarm=20, schedules=True)])
check("C06", [stage("c06_pool.cpp", 100000, 1500000, san="asan", sources="headers", alarm=10, schedules=True),
              stage("c06_pool.cpp", 25000, 400000, san="tsan", sources="headers", alarm=20, schedules=True)])
check("C07", [stage("c07_processor.cpp", 30000, 400000, san="none", sources="headers", alarm=15, schedules=True),
              stage("c07_processor.cpp", 6000, 100000, san="tsan", sources="headers", alarm=30, schedules=True)])
check("C08", [stage("c08_primitives.cpp", 1200000, 20000000, sources="headers"),
              guided("c08_primitives.cpp", 20, sources="headers")])
check("C09", [stage("c09_metadata.cpp", 300000, 4000000, sources="all"),
              guided("c09_metadata.cpp", 20, sources="all")])
check("C10", [stage("c10_merkle.cpp", 40000, 600000, sources="crypto"),
              guided("c10_merkle.cpp", 20, sources="crypto")])
check("C11", [stage("c11_storage.cpp", 100000, 1200000, sources="all"),
              guided("c11_storage.cpp", 20, sources="all")])
check("C12", [stage("c12_infohash.cpp", 100000, 1500000, sources="all"),
              guided("c12_infohash.cpp", 20, sources="all")])
check("C13", [stage("c13_roundtrip.cpp", 45000, 1000000, sources="all"),
              guided("c13_roundtrip.cpp", 20, sources="all")])
check("C14", [stage("c14_parser.cpp", 100000, 3000000, sources="all", alarm=20),
              guided("c14_parser.cpp", 20, sources="all", alarm=20)])
check("C15", [stage("c15_hash_v1.cpp", 15000, 300000, sources="all", alarm=30, schedules=True)])
check("C16", [stage("c16_hash_v2.cpp", 10000, 300000, sources="all", alarm=30, schedules=True)])
check("C17", [stage("c17_verify.cpp", 10000, 200000, sources="all", alarm=30, schedules=True)])
check("C18", [stage("c18_lifecycle.cpp", 24000, 400000, san="none", sources="all", alarm=20, schedules=True),
              stage("c18_lifecycle.cpp", 6000, 100000, san="tsan", sources="all", alarm=40, schedules=True)])
check("C19", [stage("c19_magnet.cpp", 600000, 8000000, sources="all"),
              guided("c19_magnet.cpp", 20, sources="all")])
check("C20", [stage("c20_multi.cpp", 200000, 3000000, sources="crypto", isal=True),
              stage("c10_merkle.cpp", 15000, 300000, sources="crypto", isal=True),
              stage("c15_hash_v1.cpp", 5000, 150000, sources="all", alarm=30, schedules=True, isal=True),
              stage("c16_hash_v2.cpp", 5000, 150000, sources="all", alarm=30, schedules=True, isal=True),
              stage("c17_verify.cpp", 5000, 150000, sources="all", alarm=30, schedules=True, isal=True),
              stage("c18_lifecycle.cpp", 8000, 150000, san="none", sources="all", alarm=20, schedules=True, isal=True)])
check("C21", [stage("c21_foreign.cpp", 60000, 2000000, sources="all", alarm=20),
              guided("c21_foreign.cpp", 20, sources="all", alarm=20)])


def leaks(harness, quick, **kw):
    return stage(harness, quick, quick * 20, leaks=True, **kw)


check("C22", [leaks("c01_hex.cpp", 8000, sources="headers"), leaks("c02_percent.cpp", 8000, sources="headers"),
              leaks("c03_digest.cpp", 8000, sources="crypto"), leaks("c04_checksums.cpp", 8000, sources="headers"),
              leaks("c05_queue.cpp", 2000, sources="headers", alarm=30, schedules=True),
              leaks("c06_pool.cpp", 2000, sources="headers", alarm=30, schedules=True),
              leaks("c07_processor.cpp", 2000, sources="headers", alarm=60, schedules=True),
              leaks("c08_primitives.cpp", 8000, sources="headers"), leaks("c09_metadata.cpp", 20000), leaks("c10_merkle.cpp", 3000, sources="crypto"),
              leaks("c11_storage.cpp", 4000), leaks("c12_infohash.cpp", 4000), leaks("c13_roundtrip.cpp", 3000), leaks("c14_parser.cpp", 10000),
              leaks("c15_hash_v1.cpp", 1000, alarm=90, schedules=True), leaks("c16_hash_v2.cpp", 1000, alarm=90, schedules=True),
              leaks("c17_verify.cpp", 1000, alarm=90, schedules=True), leaks("c18_lifecycle.cpp", 2000, alarm=90, schedules=True),
              leaks("c19_magnet.cpp", 10000), leaks("c21_foreign.cpp", 3000),
              leaks("c20_multi.cpp", 8000, sources="crypto", isal=True), leaks("c10_merkle.cpp", 1000, sources="crypto", isal=True),
              leaks("c16_hash_v2.cpp", 400, alarm=90, schedules=True, isal=True), leaks("c18_lifecycle.cpp", 1000, alarm=90, schedules=True, isal=True)])
check("C23", [stage("c23_memory.cpp", 3000, 60000, alarm=60, schedules=True), stage("c23_memory.cpp", 1500, 40000, alarm=60, schedules=True, isal=True)])
check("C24", [stage("c24_save.cpp", 60000, 1500000)])
