#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (development helper)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from props import PROPS
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


V = "src/voucher/"
B = "src/brski/"
p("C01", "A voucher record behaves as an independent typed attribute store",
  "After any sequence of setting, clearing and reading voucher attributes, each attribute reads back exactly the last value set for it since it was last cleared, and no operation on one attribute, or refused operation, changes another. A value handed in is copied, so the caller may change or release its own copy, and an attribute name of the wrong type, a missing or empty binary value, a missing text or time or an out-of-range value is refused. Overwriting, clearing and releasing a voucher give back all memory it holds.",
  ["history", "input"], "every sequence of typed and generic set, clear, query and get operations with every attribute and value, valid or not",
  "Tests set each attribute once; overwrite, clear-then-set and wrong-type combinations over 11 attributes form an unbounded set of histories.",
  [V + "voucher.c", V + "voucher.h", V + "array.c"],
  [("typed setters and getters", V + "voucher.c set_attr_*_voucher, get_attr_*_voucher"), ("clear and emptiness", V + "voucher.c clear_attr_voucher, is_attr_voucher_nonempty")])
p("C02", "Serialised vouchers are valid JSON and read back as the same voucher",
  "Serialising any voucher gives one well-formed JSON document holding a single RFC 8366 voucher object with exactly the attributes that are set, each under its standard name and in its standard encoding (UTC date-time, assertion name, text, boolean, base64). Reading that document back gives a voucher equal to the original in every attribute, for every serial-number text and every binary content. Serialising again gives the same document.",
  ["input"], "every subset of attributes and every value in their domains, including serial numbers with quotes, backslashes, control and non-ASCII characters",
  "A unit test compares one fixed voucher with one fixed text; which characters or lengths break quoting or encoding is only visible over the input space.",
  [V + "voucher.c", V + "serialize.c", V + "keyvalue.c"],
  [("voucher to JSON", V + "voucher.c serialize_voucher"), ("JSON to voucher", V + "voucher.c deserialize_voucher"), ("escaping", V + "serialize.c serialize_escapestr")])
p("C03", "Voucher documents from the network are read faithfully or refused",
  "Any byte string offered as a voucher document is either refused or read as a voucher, without reading outside the given bytes or faulting, and the outcome depends on those bytes alone. A well-formed voucher document is accepted whatever the order, spacing and string escapes of its members, and yields exactly the values it states. A document that is truncated, has the wrong root, an unknown attribute, a nested value, or a malformed date, assertion, boolean, base64 text or over-long serial number is refused.",
  ["input"], "every byte string, including every mutation, truncation and re-ordering of a valid document",
  "Parsers of untrusted input fail on inputs nobody thought to list; tests have a handful.",
  [V + "voucher.c"], [("voucher document parser", V + "voucher.c deserialize_voucher, set_keyvalue_voucher"), ("value parsers", V + "serialize.c")])
p("C04", "Base64 encoding and decoding are exact inverses and decoding is safe",
  "Encoding any bytes gives their RFC 4648 base64 text with padding and no line breaks, and decoding that text, also when wrapped over lines or without padding, gives the same bytes. Decoding any other text either gives bytes or reports failure without handing out memory, and never reads or writes outside its buffers. Text with no base64 digit or with impossible padding is refused.",
  ["input"], "every byte string to encode, every byte string to decode",
  "Padding and buffer-size arithmetic fail at particular lengths and pad positions.",
  [V + "serialize.c"], [("encoder and decoder", V + "serialize.c base64_gen_encode, base64_gen_decode")])
p("C05", "Signed messages verify and return exactly the signed content",
  "Content signed with any supported key (elliptic curve or RSA, through the specific or the key-detecting entry point) is a CMS signed-data message that standard CMS tools verify and that holds the content and the signer certificate. Verifying it with the signer's certificate or its issuer as trust returns exactly the signed content, byte for byte. Certificates given when signing, such as the intermediate authorities of the signer, travel in the message, and the certificate that really signed is the one reported to the caller.",
  ["input"], "every content, key type, signer certificate chain, set of additional certificates and trust set",
  "Tests sign one constant with one key; content bytes (binary, NUL, CRLF), chains and sets of certificates are unbounded.",
  [V + "crypto_ossl.c", V + "voucher.c"], [("sign", V + "crypto_ossl.c crypto_sign_cms, crypto_sign_eccms, crypto_sign_rsacms"), ("verify", V + "crypto_ossl.c crypto_verify_cms")])
p("C06", "Tampered, unsigned or untrusted messages are never accepted",
  "A signed message is refused when its content, signature or signed attributes were changed, when it is not signed, when it was signed by a key other than the one in the claimed certificate, or, whenever trust anchors are given, when the signer's certificate does not chain through certificate authorities to one of them, or a certificate of that chain is outside its validity period or revoked by a revocation list given with them. Any byte string offered as a signed message is refused or verified without faulting. Whatever is accepted returns exactly the content a signature by a reported signer covers.",
  ["input"], "every mutation of a genuine message, every byte string, every signer and trust-anchor combination",
  "Tests check one good and one bad trust set; the adversary picks the bytes.",
  [V + "crypto_ossl.c", V + "voucher.c"], [("verify", V + "crypto_ossl.c crypto_verify_cms"), ("voucher verify", V + "voucher.c verify_cms_voucher")])
p("C07", "The pledge's voucher request states exactly what the pledge knows",
  "A pledge voucher request signed for any serial number, nonce, registrar certificate and creation time carries exactly those values and a proximity assertion, and nothing else; the nonce is left out when there is none. It is signed by the given device key, whose certificate and the additional certificates travel with it. Missing mandatory inputs or an unusable key are refused with no message produced.",
  ["input"], "every serial number, nonce, certificate, time, key and additional certificate list",
  "Tests use one fixed set of values.", [V + "request.c", B + "pledge/pledge_utils.c"], [("pledge voucher request", V + "request.c sign_pledge_voucher_request")])
p("C08", "The registrar forwards exactly the pledge requests it should",
  "Given a pledge request and the pledge's TLS identity, the registrar produces a voucher request if and only if the pledge request verifies against its trust anchors, asserts proximity, names the registrar's own TLS certificate as the proximity certificate, and states the serial number of the TLS identity. The request it produces carries its creation time, the pledge's nonce when there is one, that serial number, the issuer name of the pledge's identity certificate as identifier and the unmodified pledge request, and no assertion. In every other case nothing is produced and nothing faults.",
  ["input"], "every pledge request content, signer, TLS identity and trust set, including requests lacking any attribute",
  "Each condition can fail separately or together with others, on messages a test author does not write.", [V + "request.c"],
  [("registrar voucher request", V + "request.c sign_voucher_request")])
p("C09", "The MASA issues a voucher only for consistent, genuine requests",
  "The MASA issues a voucher if and only if the registrar's request verifies, embeds a pledge request that verifies against its own trust anchors, and both state the same serial number and, when the pledge stated a nonce, the same nonce. The voucher carries that serial number and nonce, a proximity assertion, the configured expiry, the pinned domain certificate chosen for this registrar and no revocation checks, and nothing else. In every other case no voucher is produced and nothing faults.",
  ["input"], "every pair of registrar and pledge requests, signers, trust sets and configurations",
  "The conditions combine two nested signed messages; tests cover one consistent pair.", [V + "request.c"],
  [("voucher issue", V + "request.c sign_masa_pledge_voucher")])
p("C10", "The pledge accepts only vouchers meant for it and its registrar",
  "The pledge accepts a voucher if and only if it verifies against the manufacturer trust anchors, states the pledge's own serial number, echoes the nonce whenever the pledge sent one, and pins a domain certificate that authenticates the registrar certificate the pledge is talking to. On acceptance it hands out exactly the pinned certificate. In every other case it fails, hands out nothing and does not fault.",
  ["input"], "every voucher content, signer, trust set, pledge state and registrar certificate",
  "The attack surface is every voucher a malicious registrar can present; tests use one.", [V + "request.c"],
  [("voucher acceptance", V + "request.c verify_masa_pledge_voucher")])
p("C11", "Generated and issued certificates say exactly what was asked",
  "A certificate generated for any metadata and key carries exactly the requested serial number, validity interval, subject and issuer names (of the supported name attributes, ASCII text) and basic constraints, the public key of the given key, and verifies under that key. Signing it with any authority certificate and its key keeps its subject, serial number, validity, extensions and public key, sets its issuer to the authority's subject, and makes it verify under the authority's key and no other; unusable input leaves the caller's certificate untouched and reports failure. Generated keys are fresh, of the requested type and size, and usable wherever a key is expected.",
  ["input"], "every metadata record, key type, authority certificate and malformed input",
  "Tests generate one certificate and check the call succeeded.", [V + "crypto_ossl.c"],
  [("generation", V + "crypto_ossl.c crypto_generate_eccert, crypto_generate_rsacert"), ("issue", V + "crypto_ossl.c crypto_sign_cert")])
p("C12", "Certificate verification accepts only genuine chains",
  "A certificate is accepted against intermediate certificates and trust anchors only if there is a chain of certificates from it to an anchor in which every certificate was really signed by the next one's key; with no anchors given it must be, or be signed by, one of the given certificates. A genuine chain to a self-signed anchor is accepted whatever the order of the certificates and the presence of unrelated ones with other names, and a certificate that merely copies names and key identifiers but was signed with another key is refused. Malformed certificates are refused without faulting.",
  ["input"], "every certificate graph, order of the given certificates, and forged or corrupted link",
  "Tests use one two-certificate chain and swapped arguments.", [V + "crypto_ossl.c"], [("chain verification", V + "crypto_ossl.c crypto_verify_cert")])
p("C13", "Device identity is read exactly from its certificate",
  "For any device certificate the serial number obtained is exactly the text of the subject's serial-number attribute, and the issuer identifier is the issuer's distinguished name in its one-line text form; a certificate whose subject states no serial number yields none. Names that cannot be a text, because they contain a NUL character, are refused, never cut off. With several serial-number attributes the first counts. Reading issuer and subject metadata of a certificate gives the first value of each supported name attribute (country, state, locality, organisation, unit, common name, e-mail, serial number, surname, given name), and its certificate number (of at most 64 bits), and malformed certificates are refused without faulting.",
  ["input"], "every certificate with every subject, attribute order and set of extensions, and every byte string",
  "Attribute order, repeated attributes, lengths and missing extensions vary beyond the one device certificate tests use.", [V + "crypto_ossl.c", B + "pledge/pledge_utils.c"],
  [("identity", V + "crypto_ossl.c crypto_getcert_serial, crypto_getcert_issuer"), ("masa/registrar use", B + "registrar/registrar_api.cpp")])
p("C14", "Configuration files are read as written",
  "Loading a configuration file gives, for every role, exactly the values written for its keys, an unset marker for keys that are absent or empty, the documented default bind address, and every entry of each repeated certificate list key in file order. The order of sections and keys, spacing, quoting, comments, line ends and unknown keys or sections do not matter. A file that cannot be opened is refused with nothing loaded, and any other text is loaded or refused without faulting or keeping memory. Releasing a configuration leaves every value unset.",
  ["input"], "every configuration file over the documented sections and keys, in any order, with values of up to 400 characters (dates 21), ports 0 to 65535, any spacing and list lengths; and arbitrary text",
  "Tests load two fixed files.", [B + "config.c"], [("loader", B + "config.c load_brski_config, load_config_value_list"), ("release", B + "config.c free_config_content")])
p("C15", "The registrar answers each voucher request with the right status",
  "For every request to the registrar's voucher endpoint, the answer is 200 with exactly the manufacturer's answer when the pledge request is acceptable and the manufacturer service issues a voucher (a 2xx answer); otherwise it is an error: 4xx when the request or the pledge's TLS identity is at fault, 5xx when the registrar's files cannot be read or the manufacturer service fails or refuses. What is sent to the manufacturer service is the registrar's own signed request for that pledge, and an error answer carries no voucher. The status endpoints answer as documented, and no request makes the handler fault.",
  ["input", "fault"], "every request body, TLS identity, configuration file fault and manufacturer service answer or failure",
  "The end-to-end test runs one successful request.", [B + "registrar/registrar_api.cpp", B + "registrar/registrar_server.cpp"],
  [("voucher endpoint", B + "registrar/registrar_api.cpp registrar_requestvoucher"), ("forwarding", B + "registrar/registrar_api.cpp post_voucher_request")])
p("C16", "MASA answers depend on the request alone, over any history",
  "Over any sequence of requests to the MASA's voucher endpoint, good or bad, each answer is the one the same request would get from a freshly started MASA: 200 with the signed voucher for an acceptable request and 400 without one otherwise. Issued vouchers verify under the MASA's certificate and pin the configured domain certificate. No sequence of requests or missing configuration file makes a handler fault.",
  ["history", "input", "fault"], "every sequence of valid, invalid and malformed requests, with configuration files present, missing or corrupt",
  "State leaking from one request to the next only shows in sequences.", [B + "masa/masa_api.cpp"], [("voucher endpoint", B + "masa/masa_api.cpp masa_requestvoucher")],
  state=["the server context shared by all requests"])
p("C17", "Bootstrapping trusts the right registrar or fails closed",
  "With consistent configurations, a pledge that bootstraps through its registrar and the MASA ends holding exactly the domain certificate the MASA pinned. When any message on the way is dropped, replaced, corrupted or replayed, or any party holds the wrong keys, certificates, serial number or nonce, the pledge either ends with that same certificate or reports failure and holds nothing. An enrolment that follows hands out a certificate for the key the pledge generated, or fails. No such fault crashes any party.",
  ["input", "fault", "history"], "every combination of configurations, and every alteration, loss, substitution or replay of the messages exchanged",
  "The single end-to-end test runs one configuration without interference.", [B + "pledge/pledge_request.cpp", B + "registrar/registrar_api.cpp", B + "masa/masa_api.cpp", V + "request.c"],
  [("pledge flow", B + "pledge/pledge_request.cpp post_voucher_pledge_request"), ("registrar", B + "registrar/registrar_api.cpp"), ("MASA", B + "masa/masa_api.cpp")])
p("C18", "Enrolment issues certificates for the key that asked and logs them",
  "An enrolment request with a well-formed certificate is answered with that certificate's subject, serial number, validity and public key issued by the registrar's certificate authority; anything else, also a certificate whose names the log could not state as text, is answered with an error and no certificate. While the audit log can be written, each successful enrolment of an authenticated device adds exactly one line to it, naming the device certificate and the issued certificate, and failed ones leave the log as it was.",
  ["input", "history", "fault"], "every request body, TLS identity, authority configuration and sequence of requests",
  "No test covers enrolment beyond one success.", [B + "registrar/registrar_api.cpp", B + "pledge/pledge_request.cpp"],
  [("enrolment", B + "registrar/registrar_api.cpp registrar_est_simpleenroll"), ("audit log", B + "registrar/registrar_api.cpp save_to_log")], state=["audit log file"])
p("C19", "Concurrent requests do not disturb one another",
  "When any number of requests are handled at the same time by the registrar and the MASA, each gets the answer it would get alone, every enrolment's log line is written whole, and there is no data race or memory error. This holds for requests that succeed and requests that fail in any mix.",
  ["schedule", "input"], "every interleaving of every mix of concurrent requests to the endpoints",
  "Tests send one request at a time.", [B + "masa/masa_api.cpp", B + "registrar/registrar_api.cpp"],
  [("shared contexts", B + "masa/masa_api.cpp masa_requestvoucher"), ("log", B + "registrar/registrar_api.cpp save_to_log")], state=["server contexts shared by the worker threads"])
p("C20", "PEM and S/MIME files round-trip exactly",
  "A certificate or key written as PEM is the standard encoding of exactly that object and reads back as the same bytes, and a signed message written as S/MIME file reads back as the same message. A pledge request exported to a file states what the configuration says. Of any other file exactly what a standard PEM reader finds first is read, so files that are empty, truncated, of another kind or arbitrary bytes are refused without faulting. A list of certificate files loads in order or fails as a whole, and a file that could not be written completely is reported as a failure.",
  ["input"], "every certificate, key and signed message, and every file content",
  "Tests write one file and check it exists.", [V + "crypto_ossl.c", B + "pledge/pledge_utils.c"],
  [("PEM", V + "crypto_ossl.c certbuf_to_file, keybuf_to_file, file_to_x509buf, file_to_keybuf"), ("S/MIME", V + "crypto_ossl.c cmsbuf_to_file; " + B + "pledge/pledge_utils.c voucher_pledge_request_to_smimefile"), ("lists", B + "config.c load_cert_files")])
p("C21", "Times and booleans convert exactly and current times are UTC",
  "Every date-time from 1970 to 9999 written by the library is its UTC ISO 8601 text and reads back unchanged, and a malformed date-time text is refused. Boolean texts are recognised exactly as documented and nothing else is. A time the library takes from the clock denotes the current instant in UTC in every local time zone.",
  ["input", "config"], "every date-time, every text, every local time zone and instant",
  "Tests use one date, and run in the UTC zone.", [V + "serialize.c", "src/utils/os.c"],
  [("time", V + "serialize.c serialize_time2str, serialize_str2time"), ("clock", "src/utils/os.c get_localtime")])
p("C22", "Lists, byte arrays and string helpers keep what they are given",
  "Byte-array and key/value lists hold exactly the items pushed, in order and as copies, and a refused push leaves them as they were. Byte-array copy and comparison are exact. The bounded string, duplication and hex helpers never write past the size they are given, always terminate their output and copy exactly what fits.",
  ["input", "history"], "every sequence of pushes and every input and buffer size",
  "Off-by-one errors appear at particular sizes.", [V + "array.c", V + "keyvalue.c", "src/utils/os.c", "src/utils/log.c"],
  [("lists", V + "array.c, " + V + "keyvalue.c"), ("helpers", "src/utils/os.c")])
p("C23", "The command line tool reports success only when it did the work",
  "For any command line, the tool exits with success only if the command completed and its whole result was written where asked, and otherwise with failure; it never faults. A successful export (epvr) leaves a signed request that states the configured serial number, nonce and creation time; a voucher check (vmasa) succeeds exactly for a genuine voucher for the configured pledge and the given registrar certificate, and then outputs the pinned certificate; serial prints exactly the serial number of the given device certificate; preq and sign output the pinned certificate, and the issued certificate with its key. Unknown commands and options, missing or malformed configuration, missing or unusable files, and unwritable outputs are failures.",
  ["input", "config"], "every combination of options, command, configuration and input file",
  "Tests never run the tool's failure paths.", [B + "brski.cpp"], [("command dispatch", B + "brski.cpp main, process_options")])
p("C24", "Running out of memory is reported, never a crash or corruption",
  "If any memory allocation fails at any point of any voucher, codec, list, configuration, request or certificate operation, the operation reports failure or completes correctly, and it does not fault, use freed memory, or leave its caller with dangling data. Once memory is available again the same operation succeeds.",
  ["fault", "input"], "every operation on every input with every single allocation, or every allocation from some point on, failing",
  "Tests never see an allocation fail.", [V + "voucher.c", V + "request.c", V + "array.c", B + "config.c", V + "crypto_ossl.c"],
  [("allocation wrappers", "src/utils/os.h, src/utils/os.c")])
p("C25", "Over real TLS each route reaches its own handler with the client's identity",
  "Over real HTTPS, each documented path and method of the registrar and of the MASA reaches its own handler, any other path or method gets a router error, and the handler's status, body and headers are delivered to the client unchanged (an error answer is plain text, and carries the router error text when the handler gave none). A server that cannot be set up with its configured certificate, key and address reports failure. The handler sees exactly the request body and the certificate of the client that sent it, whatever other clients do. A client given a trust anchor refuses a server it does not authenticate.",
  ["input", "history"], "every method, path, body, header and client certificate, in any sequence of connections",
  "The end-to-end test uses one client, one path and one body per server.", [B + "http/httplib_wrapper.cpp", B + "registrar/registrar_server.cpp", B + "masa/masa_server.cpp"],
  [("routing", B + "http/httplib_wrapper.cpp"), ("route tables", B + "registrar/registrar_server.cpp, " + B + "masa/masa_server.cpp")])
p("C26", "Handling messages keeps no memory",
  "Handling any voucher, signed message, certificate, configuration or HTTP request, whether it succeeds or is refused, leaves no memory allocated once its results have been released. A server can therefore handle any number of good and bad requests without growing.",
  ["history", "input"], "every message and every refusal path, repeated any number of times",
  "A leak on a refusal path does not fail any assertion of a test.", [V + "request.c", V + "crypto_ossl.c", V + "voucher.c", B + "masa/masa_api.cpp", B + "registrar/registrar_api.cpp"],
  [("release on every path", V + "request.c, " + B + "masa/masa_api.cpp, " + B + "registrar/registrar_api.cpp")])

p("C27", "Log records are whole, filtered and owner-only",
  "Every log message at or above the set level appears exactly once, whole and in order, with its time, level, place, text and, for errors of the system, the error; while quiet, or below the level, nothing is written. With a lock function set, a record is written while the lock is held and the lock is always released, so that records of concurrent threads do not mix. A log file is appended to, is readable by its owner only when created, and receives all records until it is closed; errno survives logging an error. The variants that end the process do so with failure, running exit handlers only where documented, after writing their record.",
  ["history", "schedule"], "every history of settings and messages, every message text, and every interleaving of logging threads",
  "Losses and mixing depend on history, on text length and on the schedule.", ["src/utils/log.c"],
  [("level and quiet", "src/utils/log.c log_check_level"), ("locking", "src/utils/log.c log_msg"), ("file", "src/utils/log.c log_open_file")])

for x in P:
    assert len(x["title"]) <= 80, x["title"]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
checks, na = [], []
for x in P:
    if x["id"] in PROPS:
        c = PROPS[x["id"]]
        checks.append({"property": x["id"],
                       "quick_cmd": f"VERIF_TIER=quick python3 run.py {x['id']}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {x['id']}",
                       "technique": c["technique"], "level": c.get("level", "exploration"),
                       "level_note": c["note"]})
    else:
        na.append({"property": x["id"], "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks,
           "not_applicable": na,
           "notes": "Every check is property-based testing with the engine in engine/; see DESIGN.md."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
