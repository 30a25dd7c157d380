# Per property: harness sources, cases per shard (8 shards) and evidence texts.
N = "Randomised exploration with a fixed seed: no absence proof. "
ALL = ["h_store", "h_parse", "h_codec", "h_contain", "h_cms", "h_cert", "h_files", "h_request", "h_http"]
PROPS = {
    "C01": dict(harness=["h_store"], quick=250000, thorough=2500000,
                technique="stateful property-based testing against a reference record model, under ASAN/UBSAN",
                rule="random histories of set/clear/get/is-set operations on one voucher, checked against a model after each step; non-trivial: a history with an overwrite or clear of a set attribute, distinct by choice tape",
                note=N + "Reference model of 11 typed attributes; heap growth is measured per history."),
    "C02": dict(harness=["h_store"], quick=60000, thorough=800000,
                technique="round-trip property-based testing with an independent JSON reader",
                rule="random attribute subsets and values are serialised, read by an independent strict JSON reader and read back; non-trivial: at least three attributes set or a special serial number, distinct by choice tape",
                note=N + "Trusts the harness's strict JSON reader."),
    "C03": dict(harness=["h_parse"], quick=180000, thorough=2500000,
                technique="grammar-based and mutational fuzzing of the parser with a reference parser as oracle",
                rule="rendered valid documents, listed malformations, random mutations, token soup and raw bytes; non-trivial: document longer than a few bytes, distinct by choice tape",
                note=N + "Inputs are placed in exactly sized heap blocks so over-reads are faults."),
    "C04": dict(harness=["h_codec"], quick=500000, thorough=15000000,
                technique="round-trip and differential property-based testing against a reference base64 codec",
                rule="random byte strings, wrappings, paddings and arbitrary texts; non-trivial: more than two bytes, distinct by choice tape",
                note=N),
    "C21": dict(harness=["h_codec"], quick=700000, thorough=15000000,
                technique="round-trip property-based testing with an owned clock and time zone",
                rule="random date-times, texts, instants and time zones; non-trivial: date other than the epoch or a non-UTC zone, distinct by choice tape",
                note=N + "The clock is replaced by the harness."),
    "C22": dict(harness=["h_contain"], quick=350000, thorough=6000000,
                technique="model-based property testing of containers and bounded helpers under ASAN",
                rule="random push sequences, sizes and buffers; non-trivial: non-empty data or truncating buffer, distinct by choice tape",
                note=N),
    "C05": dict(harness=["h_cms"], quick=3000, thorough=90000,
                technique="round-trip and differential property-based testing against an independent CMS implementation path",
                rule="random contents, keys, certificate chains and extra certificates are signed by the library and verified independently, and the other way round; non-trivial: content of more than one byte, distinct by choice tape",
                note=N + "Independent verification uses OpenSSL's CMS functions directly."),
    "C06": dict(harness=["h_cms"], quick=8000, thorough=250000,
                technique="mutational fuzzing and adversarial generation against an independent acceptance oracle",
                rule="tampered, re-signed, detached, unsigned, mutated and random messages with every kind of trust set; non-trivial: a case with an alteration or a trust decision, distinct by choice tape",
                note=N),
    "C07": dict(harness=["h_request", "h_files"], quick=5500, thorough=180000,
                technique="property-based testing of signed pledge requests against an independent CMS and JSON reader",
                rule="random serials, times, nonces, certificates, keys and configurations, valid and broken; non-trivial: every case that reaches the signing call, distinct by choice tape",
                note=N),
    "C08": dict(harness=["h_request"], quick=6500, thorough=200000,
                technique="adversarial generation of pledge requests against a reference decision function",
                rule="random pledge requests with every listed deviation and trust set; non-trivial: every case, distinct by choice tape",
                note=N),
    "C09": dict(harness=["h_request"], quick=5000, thorough=160000,
                technique="adversarial generation of registrar requests against a reference decision function",
                rule="random registrar requests around random prior pledge requests, with every listed deviation and trust set; non-trivial: every case, distinct by choice tape",
                note=N),
    "C10": dict(harness=["h_request"], quick=6000, thorough=190000,
                technique="adversarial generation of vouchers against a reference decision function",
                rule="random vouchers, pinned certificates, registrar certificates and trust sets with every listed deviation; non-trivial: every case, distinct by choice tape",
                note=N),
    "C11": dict(harness=["h_cert"], quick=6000, thorough=200000,
                technique="property-based testing with independent certificate parsing as oracle",
                rule="random metadata, keys, authorities and malformed inputs; non-trivial: at least one name or a refused input, distinct by choice tape",
                note=N),
    "C12": dict(harness=["h_cert"], quick=2500, thorough=80000,
                technique="adversarial generation of certificate graphs against a reference chain search",
                rule="random chains, orders, unrelated and forged certificates; non-trivial: a chain with an issuer or a forgery, distinct by choice tape",
                note=N),
    "C13": dict(harness=["h_cert"], quick=11000, thorough=350000,
                technique="property-based testing with independently built certificates as oracle",
                rule="random subjects, attribute orders, string types, extensions and byte strings; non-trivial: a subject with two or more attributes or a malformed input, distinct by choice tape",
                note=N),
    "C14": dict(harness=["h_files"], quick=20000, thorough=600000,
                technique="property-based testing of generated configuration files against the generator's record, plus fuzzing",
                rule="random sections, keys, values, layouts and repeated list keys; non-trivial: a file of more than 100 characters, distinct by choice tape",
                note=N),
    "C15": dict(harness=["h_http"], quick=2500, thorough=80000,
                technique="property-based testing with injected file and manufacturer faults against a reference decision function",
                rule="random deployments, pledge requests, TLS identities, broken files and manufacturer services (real, scripted, failing); non-trivial: every case, distinct by choice tape",
                note=N + "The HTTP transport is replaced by an in-process stand-in; routes and handlers are the real ones."),
    "C16": dict(harness=["h_http"], quick=1100, thorough=35000,
                technique="stateful property-based testing of request histories with injected file faults against a reference decision function",
                rule="random histories of 2 to 6 requests to one MASA with changing files; non-trivial: at least one issued and one refused request, distinct by choice tape",
                note=N + "The HTTP transport is replaced by an in-process stand-in."),
    "C17": dict(harness=["h_http"], quick=1400, thorough=45000,
                technique="stateful property-based testing of whole bootstraps with an active adversary and injected faults",
                rule="random deployments, one inconsistency or up to two interferences (drop, lose, alter, replay, forge, impersonate) on any message; non-trivial: every case, distinct by choice tape",
                note=N + "The HTTP transport is replaced by an in-process stand-in with TLS authentication emulated by OpenSSL's chain verification."),
    "C18": dict(harness=["h_http"], quick=1700, thorough=50000,
                technique="stateful property-based testing of enrolment histories against a model of the audit log",
                rule="random histories of 1 to 5 enrolment requests with random certificates, clients and authority faults; non-trivial: at least one issued certificate, distinct by choice tape",
                note=N + "The HTTP transport is replaced by an in-process stand-in."),
    "C19": dict(harness=["h_conc"], variants=["tsan", "asan"], flaky=True, quick=(60, 120), thorough=(5000, 10000),
                technique="concurrency testing of generated request mixes in threads, under ThreadSanitizer and AddressSanitizer, against the serial oracle",
                rule="random mixes of 3 to 8 simultaneous requests over 1 to 3 rounds; non-trivial: every case (at least three threads), distinct by choice tape",
                note=N + "Schedules are the operating system's, not enumerated. The HTTP transport is replaced by an in-process stand-in."),
    "C20": dict(harness=["h_files"], quick=5000, thorough=150000,
                technique="round-trip property-based testing of files against a standard PEM and S/MIME reader, with write faults",
                rule="random certificates, keys, messages, file contents, certificate lists and unwritable targets; non-trivial: a written or more than ten byte long file, distinct by choice tape",
                note=N),
    "C23": dict(harness=["h_cli"], bin=True, flaky=True, quick=400, thorough=14000,
                technique="property-based testing of the real program as a process with generated command lines, configurations, inputs, output targets and servers, against reference decisions",
                rule="random command lines, deployments, vouchers, certificates, standard inputs and output targets run as an unprivileged process under ASAN/UBSAN; non-trivial: every case, distinct by choice tape",
                note=N + "The tool runs as an unprivileged user in a scratch folder; ports and schedules are the system's."),
    "C24": dict(harness=["h_oom"], quick=2500, thorough=80000,
                technique="property-based testing with injected allocation failures, swept over allocation points, against the fault-free run",
                rule="random operations of every kind with one allocation, or every allocation from one on, failing, of the library alone or of OpenSSL too; non-trivial: the failure was reached, distinct by choice tape",
                note=N + "Signing operations are run with failures of the library's own allocations only: OpenSSL's signing code does not survive its own."),
    "C25": dict(harness=["h_https"], parts=[("asan", ["h_https"], True), ("plain", ["h_https"], True)], flaky=True, quick=(75, 75), thorough=(2000, 2000),
                technique="property-based testing over real TLS connections of generated route tables, clients, answers and deployments against the generator's record",
                rule="random route tables, client mixes, scripted servers, deployments and unusable server configurations over real sockets on 127/8; non-trivial: at least one request was judged, distinct by choice tape",
                note=N + "Both ends are real; the harness's peers are written on OpenSSL and sockets alone. Interleavings of clients are the operating system's."),
    "C26": dict(harness=ALL + ["h_leak"], parts=[("asan", ALL + ["h_leak"], False), ("asan", ["h_https", "h_leak"], True)],
                quick=(900, 25), thorough=(30000, 1000),
                technique="metamorphic property-based testing: repeating any generated operation must not grow the heap",
                rule="a random case of any other property's check is run three or more times from one tape and the live heap blocks are compared between repetitions; non-trivial: the repeated case is non-trivial by its own rule, distinct by choice tape",
                note=N + "Counts heap blocks of the process including OpenSSL's; a block kept once (a cache) is no growth."),
    "C27": dict(harness=["h_log"], flaky=True, quick=4000, thorough=150000,
                technique="model-based property testing of the log over generated histories of settings and messages, and over concurrent writers",
                rule="random histories of settings, messages, files and lock functions on a model of each sink, and 2-8 threads logging at once; non-trivial: a message was written and another filtered or sent elsewhere, distinct by choice tape",
                note=N + "Interleavings of threads are the operating system's; writing outside the lock is also seen by a single thread."),
}
