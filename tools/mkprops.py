import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
D='opendis/dis7.py'; S='opendis/stream.py'; F='opendis/PduFactory.py'; RB='opendis/record/base.py'; RI='opendis/record/__init__.py'; RR='opendis/record/radio/__init__.py'; RW='opendis/record/warfare/__init__.py'; BF='opendis/record/bitfield.py'; RC='opendis/record/common.py'; G='opendis/RangeCoordinates.py'; DR='opendis/DeadReckoning.py'
CODEC=[D,S,F,RB,RI,RR,RW,BF,RC]
p('C01','A PDU delivered intact holds every value its sender put into it',
 'Whenever a datagram made by serializing a PDU reaches a receiver undamaged, what the receiver decodes from it is a PDU of the same class in which every transmitted field, record and list element has the value the sender assigned (rounded to 32 bits where the field is a 32-bit float). This holds for every concrete PDU class, whichever way the sender filled the object in, whatever else the network delivered before, and the PDUs a receiver keeps stay that way while others arrive.',
 ['inputs','histories','fault_sequences','schedules'],
 'every PDU class and every value each of its fields can carry on the wire, lists of every length including none; every history of other sends, losses, repeats, damage, partitions and crashes around it',
 'The tests decode six captured datagrams of five classes and look at a few fields; 50 classes are never sent or received, and no test has more than one PDU in flight.',
 CODEC,[('serialize/parse pairs of every PDU and record class',D),('typed big-endian primitives',S),('records of variable type',RI)],
 ['the object createPdu returns (or a PDU\'s own parse), read through its public attributes'])
p('C02','Peers that implement the DIS wire layout independently interoperate',
 'The octets a node sends for a PDU or record are exactly those the published DIS 7 layout gives for its values, and octets laid out that way by an independent implementation are decoded to the values they carry. This holds for every concrete PDU class and every record on its own, in both directions.',
 ['inputs','histories','fault_sequences'],
 'every PDU class and record, every field value and list length, exchanged in either direction between nodes of this library and independent peers on a faulty network',
 'A mistake made the same way in serialize and parse passes every round-trip; the tests compare with foreign octets for six captures only.',
 CODEC,[('field order and width in serialize',D),('field order and width in parse',D),('padding and length rules of variable records',RB)],
 ['octets written to the output stream','objects decoded from a peer\'s octets'])
p('C03','A PDU whose octets end too early is never delivered as a PDU',
 'If the octets of a PDU end anywhere before its last field is complete - in a datagram, a file, or a connection that closes - decoding raises an error and no PDU is returned. It never returns an object in which missing octets were made up or taken from elsewhere.',
 ['inputs','crash_points','fault_sequences'],
 'every PDU class and value, every offset at which the octets can end, every way a stream reports its end (short read, empty read, end after k reads)',
 'No test presents an incomplete PDU; there are as many cut points as octets, times the classes.',
 CODEC,[('reads that refuse to return less than asked for',S),('list loops driven by received counts',D),('declared record lengths',RI)],
 ['return value or exception of createPdu, getPdu and parse'])
p('C04','Damaged and hostile datagrams are contained',
 'Any octets at all, handed to a receiver, either decode to exactly the values those octets mean under the DIS layout, are reported as an unknown type, or raise an ordinary error; the work done is bounded by the size of the datagram, not by counts or lengths claimed inside it. Whatever was received, every later intact PDU is decoded and encoded as if it had never arrived.',
 ['inputs','histories','fault_sequences'],
 'all datagrams up to the size UDP carries: bit flips, replaced, inserted and deleted octets, extreme counts and lengths, splices and garbage, in any order between intact ones',
 'The tests contain no damaged datagram; the interesting ones depend on which field of which class is damaged and on what is received next.',
 CODEC,[('list loops driven by received counts',D),('declared record lengths',RI),('length-bounded unknown records',RR)],
 ['return value or exception of createPdu/getPdu','number of reads asked of the stream','results of later intact PDUs'])
p('C05','Stream failures, interrupts and failed allocations do no damage',
 'When a read, a write, an allocation or an interrupt fails inside encoding or decoding, the failure reaches the caller, and no PDU is returned as if nothing had happened. The PDU being sent is unchanged, other objects are unchanged, and the same operation tried again succeeds with the result it would have had.',
 ['crash_points','fault_sequences','inputs'],
 'every PDU and record class, every stream call and every line of library code at which one or several failures in a row can strike, every error kind a stream can raise',
 'The tests never make a stream fail; the failure point ranges over every call of every class.',
 CODEC,[('no state is changed by serialize',D),('errors are not caught inside the codec',D),('stream wrappers keep no buffer of their own',S)],
 ['exception at the caller','octets and values after a retry'])
p('C06','Threads do not disturb each other',
 'Threads that encode, decode, convert coordinates or dead-reckon with objects of their own at the same time each get the result they would get alone, however their steps interleave; so do threads that send one shared PDU nobody is changing. No interleaving deadlocks.',
 ['schedules','inputs'],
 'every interleaving, down to single bytecodes and stream calls, of two to four threads doing any library operations on distinct objects, or sending the same unchanging one',
 'All tests are single-threaded, and a race shows only in particular interleavings.',
 CODEC+[G,DR],[('absence of module-level mutable state',D),('per-call stream wrappers',F)],
 ['result of each thread\'s operations'])
p('C07','Sending a PDU is read-only and repeatable',
 'Serializing a PDU, asking for its size, or reading its attributes changes nothing: until the application changes the PDU, every send gives the same octets, and after a change the next send gives the octets of the new state. This holds across any number of heartbeats, failed sends and receptions in between.',
 ['histories','fault_sequences','schedules'],
 'every PDU class, every sequence of heartbeats, updates, failed sends, size queries and receptions, on clocks that jump',
 'Tests serialize an object at most once; a change made by sending shows only in the next send.',
 CODEC,[('serialize and marshalledSize compute, and do not store',D)],
 ['octets of successive sends','attributes before and after a send'])
p('C08','Objects are independent of each other',
 'Creating, filling, growing, copying, parsing into, receiving or dropping one PDU or record never changes another one, nor what a newly constructed object of any class contains. Received objects do not depend on the buffer they were received in.',
 ['histories','inputs'],
 'every history of operations on any number of objects of any classes in one process',
 'Shared default values show only when one object is changed in place and another is looked at later; no test does that.',
 CODEC,[('default arguments and instance attributes of every constructor',D),('copies made of received octets',S)],
 ['public attributes of every live object after each operation'])
p('C09','The PDU type octet alone selects the class; unknown types are reported',
 'A datagram is decoded as the class that DIS assigns to its PDU type octet, for all types the library implements, whatever the other header fields say and whatever was decoded before. A datagram of a type the library does not implement gives None and no error, whatever follows its header.',
 ['inputs','histories','fault_sequences'],
 'all 256 type octets, all other header values and bodies, every order of arrival, with local objects whose type was overwritten in between',
 'Tests dispatch five types; the table has dozens, and state left behind by earlier PDUs is never exercised.',
 [F,D],[('table from type octet to class',F),('reading the type octet',F)],
 ['class of the object createPdu/getPdu returns'],[('PduTypeDecoders','which class decodes which type',F)])
p('C10','Counts, lengths and sizes always describe the object as it is now',
 'After any history of changes to the variable part of a PDU or record - append, remove, clear, replace, reorder, parse, failed parse or failed send - its count and length attributes, the counts and lengths in the octets it sends, its reported size where it reports one, and the octets themselves all agree with the elements it then holds. A list longer than its count field can express is refused when sent, never sent with a wrong count.',
 ['histories','fault_sequences','inputs'],
 'every class with a variable part, every sequence of edits, parses and failures',
 'Tests never change a list after construction; a stale count is wrong only after a particular sequence.',
 [D,RR,RW,RB],[('counts derived from the lists',D),('marshalledSize of records',RW),('recordLength of standard variable records',RB)],
 ['count, length and size attributes','count and length fields in the octets sent'])
p('C11','Parsing into an object replaces what it held',
 'Parsing a message into an object that was used before - filled, edited, parsed into, or left half-filled by a parse that failed - gives exactly the object that parsing it into a new one gives. Nothing of earlier contents survives, and the object sends the octets of the last message.',
 ['histories','fault_sequences','inputs'],
 'every class, every sequence of messages, edits, torn and failing parses into one object',
 'Every test parses once, into a new object.',
 [D,RR,RW,RC],[('parse assigns every attribute and replaces every list',D)],
 ['public attributes and octets of the reused object'])
p('C12','Every receiver extrapolates the same, right position',
 'The position dead reckoning gives for a received entity state after an elapsed time is the one the algorithm named by DIS gives: unchanged for static, constant velocity for the FP and RP family, constant acceleration for the RV and FV family, and for the body-axis variants with velocity and acceleration turned from the body axes by the reported orientation. It holds for any elapsed time, however early, late or backwards the clock reads, and for any sequence type and element type of the vectors.',
 ['inputs','schedules','histories'],
 'all nine algorithms, all positions, velocities, accelerations, orientations (gimbal lock included) and angular velocities, all elapsed times that skewed, drifting and jumping clocks with lost, late and repeated states produce',
 'The tests evaluate a handful of axis-aligned cases with positive times.',
 [DR,D],[('equations of motion',DR),('body to world rotation',DR)],
 ['position returned by the dead reckoning functions'])
p('C13','Dead reckoning queries have no effect and no memory',
 'A dead reckoning query changes none of its arguments, returns values that share no memory with them or with earlier results, and depends on nothing but its arguments. So a track sampled at any schedule of frames, in any order, repeatedly, or after the application overwrote earlier results, is the same track.',
 ['schedules','histories','inputs'],
 'all algorithms and vector types; every order and repetition of queries, with results and arguments modified by the application in between',
 'Tests call each function once with fresh lists; aliasing shows only when a caller reuses or modifies an array afterwards.',
 [DR],[('conversion of arguments to arrays',DR),('results are new arrays',DR)],
 ['arguments after the call','results of repeated and reordered calls'])
p('C14','Every receiver extrapolates the same, right orientation',
 'The orientation dead reckoning gives is the reported one for the algorithms that fix it, and for the rotating ones it is turned for the elapsed time at the Euler rates to which the reported body angular velocity corresponds at the reported attitude; at gimbal lock, where the heading rate is undefined, the heading is held. It holds for any elapsed time and any attitude, and never fails or returns values that are not numbers for finite arguments.',
 ['inputs','schedules','histories'],
 'all nine algorithms, all attitudes including gimbal lock, all angular velocities and all elapsed times that faulty clocks produce',
 'The tests evaluate a few level attitudes.',
 [DR],[('Euler rate equations',DR),('gimbal lock threshold',DR)],
 ['orientation returned by the dead reckoning functions'])
p('C15','An entity appears to every receiver where and how its owner says it is',
 'Converting latitude, longitude, height and roll, pitch, yaw to the earth-centred location and orientation of an entity state, sending it, and converting it back gives the same place (to millimetres) and the same attitude, each step agreeing with the WGS84 ellipsoid and with DIS Euler angles. Converting back ends, with latitude, longitude and height in range, for every location further than 50 km from the center of the earth, poles, axis and attitude singularities included.',
 ['inputs','histories','fault_sequences'],
 'all places from deep in the earth to beyond geostationary orbit, all attitudes, points of space no owner computed, states lost, repeated and late, converters that have been used before',
 'The tests try a few places and random ones of moderate height with loose comparisons; singular and distant places are where the iteration fails.',
 [G,D],[('iteration of ecef2lla',G),('rotations between local, body and earth axes',G)],
 ['locations and angles returned by the conversions at owner and receiver'])
p('C16','The shipped sender and receiver work together and survive the network',
 'The example sender sends, once a second, an entity state with the identity, marking and Monterey location it announces. The example receiver prints for every intact entity state, in order of arrival, its entity number, latitude, longitude, altitude, roll, pitch and yaw, names other PDUs, and goes on - reporting later states again - after any damaged, unknown or malformed datagram, entity without a location on earth, overflow of its socket, or restart of either program.',
 ['schedules','fault_sequences','histories'],
 'every sequence of losses, repeats, delays, damage, foreign traffic, bursts and restarts, over any length of time',
 'The test of the examples imports them or decodes one datagram; none runs the two loops, time, or the network.',
 ['examples/dis_sender.py','examples/dis_receiver.py',D,F,G],[('send loop','examples/dis_sender.py'),('receive loop','examples/dis_receiver.py')],
 ['datagrams given to the socket','lines printed'])
p('C17','Captured PDUs are replayed from disk faithfully or not at all',
 'Decoding a file gives the PDU its octets hold, None for an unknown type, or an error; a file torn by a crash or a full disk, missing, unreadable, or failing while it is read never gives a PDU that its octets do not hold. Whatever happens, no file is left open, and a later attempt on a sound file succeeds.',
 ['crash_points','fault_sequences','inputs'],
 'every PDU class, every cut, rot and loss of the file, every failing open or read, any sequence of such files',
 'Tests read six sound files; none is torn or fails, and no test looks at open files.',
 [F,S],[('reading of a whole file, closed on every path',F)],
 ['result or exception of createPduFromFilePath','open files of the process'])
p('C18','Stream primitives carry every value of their type, or raise',
 'What one of the typed stream writers writes is the big-endian representation of the value, and the reader of the same type reads the same value back, over the whole range of the type and in any mixture of types on one stream. A value outside the range, a stream that ends, or a stream that fails raises an error, is never replaced by another value, and leaves earlier values of the conversation intact.',
 ['inputs','histories','fault_sequences'],
 'all typed readers and writers, all values in and out of their ranges, all orders, every failure point',
 'No test addresses the stream classes; the captures exercise few types and no extreme value.',
 [S],[('pack and unpack formats',S),('length check of reads',S)],
 ['octets written','values read','exceptions'])
p('C19','PDUs relayed through gateways arrive octet for octet',
 'A PDU that a node decodes and sends on is the same octets again, after any number of such hops, including reserved bits, record types and antenna or radio formats the library does not know, and enumeration values outside its tables. Where a gateway changes one field before sending on, only the octets of that field change.',
 ['inputs','histories','fault_sequences'],
 'every PDU class, every valid content including unknown variable records of any length, chains of several gateways that crash, lose, repeat and delay',
 'Tests never re-serialize a received PDU with unknown content.',
 CODEC,[('unknown records keep their octets',RR),('unknown standard variable records',RI),('reserved bits in bit fields',BF)],
 ['octets a gateway sends compared with those it received'])
p('C20','Decoding consumes exactly the octets of one PDU or record',
 'Parsing a PDU or record takes from the stream exactly the octets that belong to it: PDUs laid behind each other in a datagram, file or connection are each read whole and in order, and decoding never asks for octets beyond the end of the PDU. So nothing waits for data that belongs to the next PDU, and what follows a PDU never influences it.',
 ['inputs','histories','schedules','fault_sequences'],
 'every class and content, every bundle, any division of a connection into pieces, any end or failure behind a complete PDU',
 'Each test gives the decoder a datagram of one PDU and never looks at what is left of the stream.',
 CODEC,[('reads sized by fields, counts and declared lengths',D),('bounded records',RI)],
 ['position of the stream after a parse','reads asked for while octets are outstanding'])
p('C21','An entity\'s marking is the last name it was given',
 'After a marking is set to a name, the marking an owner and every receiver of its state read is that name, cut to the 11 characters of the field and padded with zeros, with nothing left of longer names it had before. This holds through any sequence of renames and of states lost, repeated or late, also when a receiver decodes into the object it used before.',
 ['histories','inputs','fault_sequences'],
 'all ASCII names of any length including none, every sequence of renames, sends and receptions',
 'No test renames an entity or reads a marking that was set.',
 [D],[('setString and getString of the marking',D)],
 ['marking as string and as octets at owner and receivers'])
p('C22','A value that does not fit its field is refused, not altered',
 'Whatever value an application assigns to a field, list element or bit field of a PDU, sending the PDU either puts exactly that value on the wire or raises an error; a value outside what the field can carry is never cut, wrapped or rounded into another integer. Values that fit are never refused, and once a bad value is corrected the PDU is sent as if it had never been there.',
 ['inputs','histories'],
 'every field of every PDU and record class, every integer, fraction, overflow and wrong kind of value, at any point of a history of sends',
 'No test assigns a value near or beyond the limits of a field; there are some two thousand fields.',
 [D,S,BF,RR,RW],[('range checks of the primitive writers',S),('range check of bit fields',BF)],
 ['exception or octets of a send'])
p('C23','A node can run for ever: memory, threads and files do not grow with traffic',
 'Whatever a node has sent, received, converted or dead-reckoned and then dropped is released: memory in use, threads and open files do not go on growing with the number of PDUs handled. This holds for intact, damaged, unknown and half-read PDUs and for failed sends and files as well.',
 ['histories','fault_sequences','inputs'],
 'every PDU class, every mixture of sends, receptions, failures and queries, over any length of time',
 'Tests end after a few PDUs; a leak of some octets for each PDU shows only after thousands.',
 CODEC+[G,DR],[('no tables of PDUs, readers or results are kept',D),('files are closed',F)],
 ['memory in use, threads and open files after the same traffic again and again'])
p('C24','The library can be used in the middle of its own work',
 'When a signal handler, or the stream a PDU is being written to or read from, uses the library in the middle of one of its operations, both the interrupted operation and the one inside it have the result they have alone, nested as deep as it may be. Neither waits for the other.',
 ['schedules','inputs'],
 'every pair of library operations, every line and every stream call of the outer one at which the inner one can begin, several of them and nested ones',
 'No test re-enters the library; state shared between two operations of one thread shows only when one begins inside the other.',
 CODEC+[G,DR],[('absence of module-level mutable state',D),('per-call stream wrappers',F),('absence of locks',F)],
 ['result of the outer and of the inner operations'])
p('C30','Every receiver plots an entity at its UTM grid reference',
 'The zone, latitude band, easting, northing with its false origin, height and scale that a node plots for an entity - from latitude and longitude or from the location of a received entity state - are those of the UTM grid on the WGS84 ellipsoid, including the exceptional zones of Norway and Svalbard. They are the same for owner and receivers, whatever any of them plotted before.',
 ['inputs','histories','fault_sequences'],
 'all places from 80 S to 84 N and all longitudes, tracks across the edges of zones and bands and the equator, converters that have been used before, states lost, repeated and late',
 'The tests try two or three places, none in an exceptional zone, at an edge or in the far south.',
 [G],[('lla2utm, ecef2utm',G),('utmLetterDesignator and zone exceptions',G)],['returned tuple at owner and receivers'])
p('C31','A sensor tracks entities in the local frame of where it stands',
 'A received location converted to north-east-down, or to range, azimuth and elevation, about the position of a sensor is the one the WGS84 tangent plane there gives, and converting it back - by that sensor or by one it was handed over to with its origin - gives the location. Whatever a converter was used for before has no influence, and no argument is changed. A direction turned about an axis, given in any of the documented ways, is turned right-handedly by the angle.',
 ['inputs','histories','fault_sequences'],
 'all sensor positions including the poles, all targets from on the spot to beyond geostationary orbit, straight overhead included, any order of queries and handovers, states lost, repeated and late',
 'The tests try few origins and points with loose comparisons, and no singular directions.',
 [G],[('ecef2ned, ned2ecef, ecef2pae, ned2pae, lla2gcc, rotate_3x3',G)],['returned arrays at sensors and receivers of tracks'])
p('C25','What an application does not fill in goes out as its default',
 'A newly constructed PDU or record can be sent at once, and is sent with the defaults of its class: its PDU type and family, protocol version 7, the record types and lengths that name it, documented defaults, and zero or nothing elsewhere. Whichever fields are given - by keyword, position, attribute or in place in a default sub-record, explicit zeros included - those have exactly the given values and all others their defaults, whatever was built, received, damaged or overwritten before.',
 ['inputs','histories','fault_sequences'],
 'every PDU and record class, every subset of its fields at every depth, every way of giving them, every history of other objects before',
 'The tests never send a new object, and the subsets of some two thousand fields are too many to sample; a default shared or lost shows only after other objects were used.',
 CODEC,[('constructors and their default values',D),('constructors of hand-written records',RB),('constructors of bit fields',BF)],
 ['attributes of new objects','octets they are sent as','what receivers decode from these'])
p('C26','Situation pictures converge when the network delivers again',
 'Owners that repeat entity states and other state PDUs at heartbeats, on changes, and when their own dead reckoning leaves a threshold, and receivers that decode, update, dead-reckon and time out what they hear, agree: within one timeout after the network delivers again, every receiver shows exactly the entities and objects there are, each with the identity, marking, appearance, parameters, place and attitude its owner gives it. Whatever was lost, repeated, late, damaged, partitioned or restarted before leaves no trace, and meanwhile nothing is shown that is not extrapolated from something an owner sent.',
 ['histories','schedules','fault_sequences','inputs'],
 'every exercise of owners and receivers, every motion under every dead reckoning algorithm, every sequence of network faults and restarts, objects kept or made anew, full and partial states',
 'No test runs owners and receivers over time; that all parts together - codec, marking, dead reckoning, coordinates, kept objects - recover from any history is a property of no single call.',
 CODEC+[G,DR],[('entity state and update codec',D),('equations of motion',DR),('locations on earth',G)],
 ['pictures of all receivers in the end','place and attitude shown at every frame'])
p('C28','The library is a quiet guest in the process that uses it',
 'Whatever the library is asked to do, and whether it succeeds, is refused or fails because of its input, stream or file, the process that uses it is afterwards as it was before: interpreter and numpy settings, random numbers, warnings, signals, directory, umask, environment, threads, open files and the functions of other modules are untouched, and nothing is printed. Whatever the host has set these to, the results are the same.',
 ['histories','fault_sequences','inputs'],
 'every operation of the library, every failure of its input and streams, every combination of settings of the host',
 'Tests run in one process with the usual settings and never look at these; many leave them only when an operation fails.',
 CODEC+[G,DR],[('no process-wide settings are changed',D),('local handling of numerical errors',DR),('files and their closing',F)],
 ['settings of the process before and after each operation','results under other settings','what is printed'])
p('C29','An application can derive its own records, bit fields and PDU classes',
 'Records that an application derives from the library\'s variable records, bit fields it declares with the bitfield factory, and its subclasses of PDUs and records are sent and received in their places like the library\'s own, with types, lengths and counts that fit; a receiver that does not know a record keeps and relays all its octets, and one that does reads back its values. Bit fields are packed most significant bit first in declared order, values that do not fit are refused, and so is a layout that cannot be packed into whole octets. A failure of the application\'s own code while a PDU is sent comes out and leaves nothing behind.',
 ['inputs','histories','fault_sequences'],
 'all layouts of 8, 16 and 32 bits and layouts that cannot be packed, records of any parts up to the limits of their length fields, every PDU that holds variable records, failures of stream and record at any point',
 'The tests declare nothing of their own.',
 [BF,RB,RI,RR,RW,D],[('bitfield factory',BF),('base classes of variable records',RB),('lengths and counts around records',RR),('unknown records',RI)],
 ['octets sent','values read back','errors at declaration and construction'])
p('C33','PDU types an application declares have the header of their kind',
 'A PDU class that an application derives from PduSuperclass, Pdu, LiveEntityPdu or a family class goes out as the 12-octet header of its kind, the fields of its family, and exactly its own fields; its type and family are those of the class or, when passed in, those, on this object alone. It is read back with the same values wherever its class is known, is refused when cut short, and yields nothing from the factory where it is not known, while the library\'s own PDUs are sent and received as ever. A class that has no type or no family is refused at construction, and a header value that does not fit when it is sent.',
 ['inputs','histories','fault_sequences'],
 'all base and family classes, ways of declaring, fields of any kind, values, nodes that know them or not, failures of the streams at any octet',
 'The tests declare no PDU types; the header of live entity PDUs is never exercised.',
 [D,F,S],[('PduSuperclass, Pdu and LiveEntityPdu',D),('family classes',D),('lookup of the type',F)],
 ['octets sent','values read back','errors at construction and sending'])
p('C34','What is mounted on an entity is where its attitude puts it',
 'The rotation matrix of an attitude turns any vector from the body axes of an entity to the world - about x by roll, then about y by pitch, then about z by yaw - and its transpose back, for every attitude a receiver can hold; the angular velocity matrix of a turning entity gives every part the velocity that the turning gives it. With dead reckoning the two agree: a part moves as the matrices say. The matrices depend on nothing but their arguments, and belong to whoever asked for them.',
 ['inputs','histories'],
 'all attitudes, reported, extrapolated, steep and at gimbal lock, arms, angular velocities, kinds of numbers and vectors, all histories of queries and of what is done to their results',
 'The tests reach the rotation matrix through a few attitudes, and the angular velocity matrix not at all.',
 [DR],[('get_rotation_matrix',DR),('get_angular_velocity_matrix',DR),('rotating algorithms',DR)],['returned matrices','positions and velocities of parts'])
p('C35','Saved and copied PDUs are the same PDUs when they are restored',
 'A PDU, record or collection of them that an application saves with pickle or copies with copy.copy or copy.deepcopy comes back as objects of the same classes that hold the same values and go out as the same octets - unknown variable records and non-finite numbers included - in this process, after a crash, and in a process that loads the library anew, with what was one object still one. A deep or restored copy shares nothing with the original that changes, nor a shallow one its own fields; saving and copying leave the original as it was. A failure while saving reaches the caller, and the next attempt is complete.',
 ['inputs','crash_points','histories','fault_sequences'],
 'all PDU and record values, made, sent and received, every way of copying and saving, write failures at any octet, crashes at any moment, edits of either side',
 'The tests copy and save nothing.',
 [D,RI,RB,RR,RW,BF],[('PDU and record classes',D),('unknown variable records',RI),('bit field classes',BF)],
 ['restored objects','octets sent','errors of saving'])
p('C27','The library can be imported in any order, and again after a failure',
 'Whatever modules of the library a process imports first, and in whatever way, it gets the same one library: every public name, one class of each kind, the complete table of PDU types, and PDUs that are handled alike. An import that fails half-way, because a file cannot be read, memory is short or it is interrupted, fails with that error and can be repeated with success, nothing is printed, and libraries loaded before go on working.',
 ['histories','fault_sequences'],
 'every order and form of import of all modules, failures at every module and every line of any of them, several in a row, with use of the library in between',
 'Each test file imports one or two modules in one order, in a process where nothing fails.',
 [D,F,S,RI,RB,RC,RR,RW,BF,G,DR],[('imports at the head of the modules',RI),('the table of PDU types',F),('the table of variable record classes',RI)],
 ['names and classes after imports','errors of imports','PDUs that are decoded and sent by what was imported'])
