COMMON='Seeded search over simulated runs: evidence, not proof. Trusts dst/schema.txt (the reviewed wire layout), the reference codec dst/model.py and CPython; each run is a pure function of VERIF_SEED and the code.'
TECH=dict(
C01='several nodes on a lossy, corrupting, partitioned network with crashes; held PDUs compared with what was sent',
C02='library nodes and independent reference peers on one faulty network, compared octet by octet and value by value',
C03='cuts at every or chosen octets of datagrams, files and closing connections, judged by the reference decoder',
C04='hostile datagrams between intact ones, differential against the reference decoder, reads counted',
C05='errors, interrupts and failed allocations at chosen stream calls and lines, then retries',
C06='controlled interleaving of real threads at lines, bytecodes and stream calls',
C07='heartbeat timers on jumping clocks with updates, failed sends and receptions, against a model of the state',
C08='operation histories over a pool of live objects, each compared with its own model after every step',
C09='streams of all type octets over a lossy network with foreign state in between, against the type table',
C10='edit, parse and failure histories of variable parts, against a counting model and the reference decoder',
C11='message sequences with torn and failing parses into one object, against fresh state',
C12='owners and receivers with skewed, drifting, jumping clocks on a faulty network, against independent equations of motion',
C13='frame schedules with repeated, reordered queries and overwritten arrays on the same fleet simulation',
C14='owners and receivers with faulty clocks on a faulty network, against independent Euler-rate equations',
C15='a fleet sending poses through a faulty network to reused converters, against an independent forward map',
C16='the shipped programs run unmodified on simulated socket and time modules with crashes, overflow and hostile traffic; bounded liveness',
C17='recorded files on a simulated disk: torn, lost, rotten, failing opens and reads; open files counted',
C18='conversations of typed values over failing streams, against the big-endian encoding',
C19='chains of gateways that crash, lose and repeat, compared octet by octet with the origin',
C20='bundles and connections delivered in pieces, ending or failing anywhere; consumption checked octet by octet',
C21='rename and publish histories of several entities over a faulty network',
C22='application-fault injection: values that do not fit, at any point of a send history, against exact encoding',
C23='long lives of one node under mixed traffic and faults; memory in use, threads and files compared between windows',
C24='signal handlers and stream callbacks injected at planned lines and calls, doing library work themselves',
C25='a node that builds PDUs from parts of their fields amid receptions, damage and overwritten objects, against a table of defaults',
C26='owners and receivers of whole exercises on a faulty network with restarts; pictures must equal the truth after faults stop',
C27='processes that import modules in seeded orders with loader failures and interrupts at module lines, and retries, against one whole library',
C28='mixed traffic with failing streams, files and inputs under the host\'s own settings; the whole process state compared after every operation',
C29='nodes with and without an application\'s own record, bit-field and PDU classes on a faulty network with failing streams, against packing and reference codec',
C33='nodes with and without an application\'s own PDU types on a faulty network with failing streams, against header and fields packed by the reference codec',
C34='parts mounted on entities of a fleet, with states late, lost and repeated and clocks that jump, against plane rotations and cross products',
C35='nodes that save, copy and edit their pictures, with files that fail, crash and restore them in the same or a new process, against the values they held',
C30='a fleet crossing zones and bands plotted by receivers on a faulty network, against Krueger-series projection',
C31='sensors that move, restart and hand over tracks on a faulty network, against an independent tangent frame')
