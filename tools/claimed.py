CLAIMED["A01"]="real sip-auth server and client; credential store, senders and attacker simulated"
CLAIMED["A02"]="real sip-auth server; clock, callers and restarts simulated"
CLAIMED["A03"]="real sip-auth server and client; credential store, senders and attacker simulated"
CLAIMED["G01"]="real sip-registrar with its in-memory store and adapters; storage faults injected above that store"
CLAIMED["G02"]="real sip-registrar with its in-memory store and adapters; storage faults injected above that store; the authenticator is a stub"
CLAIMED["G03"]="real sip-registrar with its in-memory store and adapters; storage faults injected above that store"
CLAIMED["G04"]="real sip-registrar with its in-memory store and adapters; the whole-store limit is sampled in a few runs only"
CLAIMED["D01"]="real sip-dialog and parser; user agents stubbed, UDP network simulated"
CLAIMED["D02"]="real sip-dialog tables; callers simulated; the 100,000-entry store limit is not reached"
CLAIMED["D03"]="real sip-dialog; user agents and their lossy network simulated"
CLAIMED["D04"]="real sip-dialog on the real tokio runtime; clock, threads and stalls simulated"
T="real sip-transaction manager, FSMs and timers on the real tokio runtime; peers, users and the datagram network simulated"
for t in ("T01","T02","T03","T04","T05"): CLAIMED[t]=T
CLAIMED["T05"]+="; live counts read through the sim-hooks feature"
CLAIMED["O01"]="real sip-observe gate, transaction and dialog counters; callers, clock and network simulated"
CLAIMED["S01"]="real sip-dns and hickory-resolver on the real tokio runtime; name servers, zone data, DHCP client and network simulated"
N="real sip-transport on the real tokio runtime; peers and the TCP/UDP network simulated; the record layers of TLS and WebSocket are stand-ins (no such libraries offline)"
for n in ("N01","N02","N03","N04"): CLAIMED[n]=N
P="real sip-proxy and parser on the real tokio runtime; application, transactions, downstream servers and UDP network simulated"
for p in ("P01","P02","P03"): CLAIMED[p]=P
U="real sip-uac, sip-uas, sip-transaction, sip-dialog, sip-auth and sip-registrar at both ends on the real tokio runtime; applications, UDP glue and network simulated"
for u in ("U01","U02"): CLAIMED[u]=U
