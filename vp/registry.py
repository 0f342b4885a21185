"""Property id -> check function and MANIFEST texts."""
import re
from . import checks_lookup, checks_boot, checks_client, checks_request, checks_decode, checks_print, checks_history, checks_cli

CHECKS = {}
for m in (checks_lookup, checks_boot, checks_client, checks_request, checks_decode, checks_print, checks_history, checks_cli):
    for k, v in vars(m).items():
        if re.fullmatch(r"C\d\d", k):
            CHECKS[k] = v

_T = "explicit TLA+ specification checked with TLC; %s"
_GEN = "its transitions replayed on the real code, and recorded random executions accepted by TLC"
_N = ("TLC enumerates the model completely within the bounds of the .cfg files; conformance with the code is established on every "
      "case the model hands out plus seeded random executions, not by proof. Trusts TLC, Go 1.26, and the harness's projection of observations. ")
_SPECS = {
    "boot": ("BootCache.tla/MCBoot.tla (clients, caches, services, time, faults); histories from the state graph replayed on the real clients "
             "under a virtual clock, every observation judged by TLC (TrBoot.tla)",
             "Bounds: up to 2-3 clients, depth 4-9 histories, plus long random histories."),
    "lookup": ("lookup machine refined against its declarative meaning; " + _GEN, "Bounds: registries and queries enumerated over small alphabets, embedded in real-sized values."),
    "client": ("RdapClient.tla/MCClient.tla (registry choice, failover, deadlines, classification); sessions from the model replayed on the real client, "
               "recorded random sessions accepted by TLC (TrClient.tla)", "Bounds: server lists up to 4-6, sessions of up to 4 requests, 28 server behaviours."),
    "request": ("RequestUrl.tla/AutoRequest.tla with UrlText.tla and IpText.tla; inputs enumerated by TLC and seeded random ones run on the real code, "
                "each result taken apart and judged by TLC (TrUrl.tla, TrAuto.tla)", "Bounds: all texts up to 3-6 characters over the critical alphabets, every single byte, plus random ones."),
    "decode": ("RdapDecode.tla over RdapSchema.tla, JCard.tla and JsonText.tla (any-order decoder machine refined against its declarative meaning); every member "
               "of every object type with every kind of value, texts one edit away from documents, and random documents decoded by the real code and judged by TLC",
               "Bounds: 23000 enumerated documents, 5000 texts, cards of up to 3 properties, plus random documents of nesting depth up to 5."),
    "print": ("RdapPrint.tla over RdapSchema.tla (the line every field of every object prints, their order, indentation and omission; the WHOIS keys); enumerated "
              "and random documents decoded and printed by the real code, the text judged by TLC (TrPrint.tla)",
              "Bounds: every field of every type with present, empty, nested and hostile values, 7 option sets, plus random documents of depth up to 4."),
    "history": ("DecodeHistory.tla (interleaved decodes sharing the plan table; owners printing and modifying results); all its histories bound to random "
                "documents and run in fresh processes, goroutines under the race detector, every unmodified result judged by TLC (TrHistory.tla)",
                "Bounds: 2-3 processes, 3-5 operations in the model; schedules of the real code are those the Go scheduler produces, with the race detector on."),
    "cli": ("CliArgs.tla/CliRun.tla (option grammar, request, network, certificates, bootstrap cache, files, time, output); command lines and worlds enumerated by "
            "TLC (MCCli.tla, MCCliHist.tla), and random ones, run by the real client against a stand-in network with TLS, virtual clock and recorded file accesses, "
            "every run judged by TLC (TrCli.tla)",
            "Bounds: 60-3000 enumerated command lines per property, histories of 2-3 enumerated and up to 14 random runs, values from the pools in the specification."),
}
_SPECS["resources"] = ("Resources.tla/MCRes.tla (bodies, files and temporary files taken and given back over every failure path); fault histories of MCBoot.tla and server "
                      "behaviours of MCClient.tla run on the real code with tracked bodies and descriptors, every operation judged by TLC (TrRes.tla)",
                      "Bounds: histories of depth 3-6, server lists up to 3-5, plus random histories and sessions.")
INFO = {}


def info(ids, spec):
    for i in ids.split():
        INFO[i] = (_T % _SPECS[spec][0], _N + _SPECS[spec][1])


info("C01 C02 C03 C04 C05 C06", "boot")
info("C07 C08 C09 C10 C11 C36", "lookup")
info("C12 C13 C14 C15 C35", "client")
info("C37", "resources")
info("C16 C17", "request")
info("C18 C19 C20 C21 C22", "decode")
info("C23 C24 C25 C26", "print")
info("C33", "history")
info("C27 C28 C29 C30 C31 C32 C34", "cli")
