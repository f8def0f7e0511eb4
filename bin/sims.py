"""Which simulator decides which property, and what the evidence says of it."""

CITM_RULE = ("one run = one plan generated from one seed (account/mailbox setup, "
  "client sessions, other devices' actions, faults) executed by a seeded scheduler; "
  "non-trivial = a mail body was read through a session and a final comparison with "
  "the server's mailbox was made (or the run ended in a violation); distinct = "
  "different hash over all events of the run")
CITM_REAL = ["libcitm", "libimaildir", "libimap (parser, reader, writer)", "libcrypto (keys, decryption, encryption)",
  "libduv (scheduler, stream helpers)", "libdstr", "OpenSSL's cipher code"]
CITM_STUB = ["the operating system's files (in-memory file system with crash, power-loss and error injection)",
  "the network (simulated streams in place of TCP/TLS)", "the mail server (a model IMAP server)",
  "mail clients (scripted, with an oracle)", "clock, randomness and hostname"]
SIMS = {
  "citm": dict(rule=CITM_RULE, real=CITM_REAL, stub=CITM_STUB),
  "srv": dict(rule="one run = one plan generated from one seed (challenges set and deleted, subscribers, queries, faults) "
      "executed by a seeded scheduler; non-trivial = subscribers and queries were answered in the quiet period at the end (or the run ended in "
      "a violation); distinct = different hash over all events of the run",
    states="distinct abstract states (a hash of each process's state and of the sync state on both sides), sampled during the run, in a 2^24-bit map",
    real=["server/kvpsend (whole program, main() included)", "server/dns (whole program)", "server/libkvpsync", "libduv (membuf, pipe and lock helpers)", "libdstr", "libweb"],
    stub=["libuv (simulated: UDP, pipes, timers, signals, async)", "the operating system's files and locks (in-memory file system)", "the MySQL database (a stand-in that can fail)",
      "resolvers and subscribers (scripted, with an oracle)", "clock and randomness"]),
}
# property -> (simulator, {tier: (seconds, highest number of runs)})
CITM = ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C19","C20"]
PROPS = {p: dict(sim="citm", quick=(35, 6000), thorough=(600, 200000)) for p in CITM}
for p in ["K01","K02","K03","K04","K05","K06","K07"]: PROPS[p] = dict(sim="srv", quick=(25, 8000), thorough=(600, 400000))
NET = ["T01","T02","T03","T04","T05","H01","H02","H03","H04"]
SIMS["net"] = dict(rule="one run = one plan generated from one seed (calls on both ends or requests, faults of the wire and of the peers) "
      "executed by a seeded scheduler; non-trivial = data, a connection or an answer got through (or the run ended in a violation); "
      "distinct = different hash over all events of the run",
    states="distinct abstract states (a hash of the states of the streams, connectors or requests), sampled during the run, in a 2^24-bit map",
    real=["libduv (passthru and nested streams, connect, scheduler, timers)", "libduvtls (tls stream)", "libhttp (client, reader, marshaler, body streams)", "libcrypto", "libdstr", "OpenSSL's TLS engine"],
    stub=["libuv (simulated: TCP, name lookup, timers, async)", "the network (segments, windows, losses of connection, tampering)", "servers and peers (scripted, with an oracle; their TLS is OpenSSL's)",
      "clock and randomness"])
for p in NET: PROPS[p] = dict(sim="net", quick=(25, 8000), thorough=(600, 400000))
PROPS["T05"] = dict(sim="net", quick=(25, 60000), thorough=(600, 4000000))
