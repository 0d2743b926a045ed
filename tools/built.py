NA={}
BUILT["P01"]=(THR,"All schedules with <=2 deviations (<=3 for the smallest) of 19 pool scenarios: 1-3 workers, <=7 tasks, <=2 submitters; SC memory. At the default schedule all grids of up to 16 workers x 33 waiting places x 60 tasks; handles that come and go. Histories of thousands of tasks, hundreds of handles and pools.")
BUILT["P02"]=(THR,"All schedules with <=2 deviations of 16 scenarios with barriers and blocked workers: 1-3 workers; SC memory. At the default schedule all grids of up to 16 workers. Histories of thousands of tasks.")
BUILT["P03"]=(THR,"All schedules with <=2 deviations (<=1 for the larger) of 11 scenarios with panicking tasks; SC memory. At the default schedule all grids of up to 16 workers. Hundreds of panics in one pool's life. 10 kinds of panic payload; tasks that submit while unwinding.")
BUILT["P04"]=(THR,"All schedules with <=2 deviations (<=1 for the larger) of 16 drop/clone scenarios; thread census at the end; SC memory. At the default schedule all grids of up to 16 workers; many handles. Hundreds of pools one after the other.")
BUILT["P05"]=(ENV,"All ordered route sets up to size 3 (4 in thorough) over small pattern alphabets x all paths up to 5 segments, 12 methods, odd targets, registration refusals; real server on a simulated network. Tables of up to 48 routes and 1000 segments; routes registered (by one or two threads) while the server answers requests, under every explored schedule.")
BUILT["P06"]=(ENV,"All ordered sets of up to 3 patterns of up to 3 segments with distinct names x all paths; every parameter read through the handler's API. Patterns with up to 48 parameters; every pair of printable characters at each place, every count up to 40 and chosen ones up to 1000 (2000). All 58320 combinations of method, version, path, query, cookies, credentials, body, connection, spelling and order of header names, with filters looking or not, in 4 deliveries.")
BUILT["P07"]=(ENV,"All configurations of 0-3 (thorough 5) own and group filters x position of the answering call x filter orders, with sibling routes. Up to 48 filters; filters named several times. All 58320 combinations of method, version, path, query, cookies, credentials, body, connection, spelling and order of header names, with filters looking or not, in 4 deliveries.")
B="real server on a simulated network, every input of the stated alphabets up to the bound, compared with a reference model"
BUILT["P17"]=(ENV,"Targets '/p'+every string over 10 symbols up to length 5 (thorough 7), and over {a,b,=,&} up to 9 (12); "+B+". every pair of printable characters at each place, every count up to 40 and chosen ones up to 1000 (2000). All 58320 combinations of method, version, path, query, cookies, credentials, body, connection, spelling and order of header names, with filters looking or not, in 4 deliveries.")
BUILT["P18"]=(ENV,"Bodies: every string over 11 symbols up to length 5 (thorough 7), over {a,b,=,&} up to 9 (11), content types, lengths across reads; "+B+". every pair of printable characters at each place, every count up to 40 and chosen ones up to 1000 (2000). The accessors asked in every order, and twice. All 58320 combinations of method, version, path, query, cookies, credentials, body, connection, spelling and order of header names, with filters looking or not, in 4 deliveries.")
BUILT["P19"]=(ENV,"Every content over 9 delicate byte strings up to length 5 (7) in 3 positions, all part lists up to 3 (4), boundaries, sizes across reads, all malformed token strings up to 6 (7), ways to write a part head; "+B+". every pair of printable characters at each place, every count up to 40 and chosen ones up to 1000 (2000). The accessors asked in every order, and twice. All 58320 combinations of method, version, path, query, cookies, credentials, body, connection, spelling and order of header names, with filters looking or not, in 4 deliveries.")
BUILT["P20"]=(ENV,"Every Cookie header over 7 symbols up to length 6 (8) and over pair tokens; "+B+". every pair of printable characters at each place, every count up to 40 and chosen ones up to 1000 (2000). All 58320 combinations of method, version, path, query, cookies, credentials, body, connection, spelling and order of header names, with filters looking or not, in 4 deliveries.")
BUILT["P22"]=(ENV,"All user/password pairs over 8 symbols up to length 3 (4), all raw header values over 11 tokens up to 4 (5); "+B+". every pair of printable characters at each place, every count up to 40 and chosen ones up to 1000 (2000). All 58320 combinations of method, version, path, query, cookies, credentials, body, connection, spelling and order of header names, with filters looking or not, in 4 deliveries.")
BUILT["P31"]=(ENV,"All combinations of Connection/Upgrade values, header orders and names; all request orders over 3 open connections from 3 peers; "+B+". Many connections from many addresses. IPv6 peers. All 58320 combinations of method, version, path, query, cookies, credentials, body, connection, spelling and order of header names, with filters looking or not, in 4 deliveries.")
BUILT["P09"]=(ENV,"All segmentations with up to 3 (4) cuts, byte-by-byte delivery, pauses and schedules of a request corpus; "+B+". every pair of printable characters at each place, every count up to 40 and chosen ones up to 1000 (2000); large requests. All 58320 combinations of method, version, path, query, cookies, credentials, body, connection, spelling and order of header names, with filters looking or not, in 4 deliveries.")
BUILT["P10"]=(ENV,"All truncations, single-byte changes and short token strings of a request corpus, resets and closes at each byte, at most one answer each and the server still answers; "+B)
BUILT["P11"]=(ENV,"All malformed classes x methods x positions; expected refusal status; "+B)
BUILT["P12"]=(ENV,"All sequences of up to 3 (4) requests on one connection, pipelined in all groupings and with all cuts; "+B+". Up to 1000 (2000) requests on one connection. All ordered pairs of 160 request shapes in 4 deliveries.")
BUILT["P13"]=(THR,"Keep-alive times x request times on a grid x schedules with virtual time; closing time, answering, release of sockets and threads. Up to 40 idle connections at once. 600 (3000) connections one after the other.")
BUILT["P14"]=(THR,"Up to 3 connections served at once, all schedules up to the deviation bound, attribution of every answer; starvation by idle and half-sent connections. Up to 40 (65) connections x 16 workers at the default schedule. 1200 (6000) connections in one server's life.")
BUILT["P08"]=(THR,"12 limits x all arrival histories of up to 5 (6) requests on a grid of gaps, several routes, few workers, leaving clients, kept-alive connections, under virtual time; all schedules within the deviation bound of 2-3 simultaneous clients. Every method with every limit; quotas up to 100, sections up to an hour.")
BUILT["P15"]=(ENV,"All sequences of up to 3-4 of 24 response operations divided between filter and handler, all statuses, media types and bodies, header values over 9 symbols up to length 4 (5), all write sizes, stop and interruption offsets, socket buffers; schedules of two connections; "+B+". every pair of printable characters at each place, every count up to 40 and chosen ones up to 1000 (2000); bodies up to 300 kB (4 MB). 92160 combinations of request and response.")
BUILT["P16"]=(ENV,"All Accept-Encoding lists of up to 4 (5) of 10 tokens, all pairs of 44 body writes, sequences of up to 5 (6) operations, body lengths; decoded with an independent inflater; "+B+". Lists of many codings; bodies up to 300 kB (4 MB). 92160 combinations of request and response with compression on.")
BUILT["P21"]=(SEQ,"All combinations of attribute values (27648 cookies), values over 8 symbols up to length 6 (7), expiry days 1900-2099 and every third (every) second of a leap day, lists of up to 3 cookies. every pair of printable characters at each place, every count up to 40 and chosen ones up to 1000 (2000).")
BUILT["P23"]=(ENV,"All URLs from 3 schemes x 6 credentials x 13 hosts x 6 ports x 10 paths x 10 queries x 5 fragments, every port number, query strings up to length 6 (8), token strings up to 5 (6), every pair of write stops, every write fault; real client against scripted remotes on a simulated network. every pair of printable characters at each place, every count up to 40 and chosen ones up to 1000 (2000). Names that resolve to all lists of up to 4 addresses of 5 kinds (IPv4, IPv6, refusing ones).")
BUILT["P24"]=(ENV,"All statuses x phrases x header blocks x bodies x deliveries, bodies over 5 bytes up to length 6 (8), every pair of cuts, sizes around reads, ends at every byte (close, half-close, reset), surplus, malformed heads up to 4 (5) tokens, schedules of remote and client up to 5 (7) deviations. every pair of printable characters at each place, every count up to 40 and chosen ones up to 1000 (2000); bodies up to 300 kB (4 MB); blanks around header values. Every combination of cookie attributes, readable and not.")
BUILT["P25"]=(THR,"All targets x queries x handler plans, all write sizes and windows, and schedules of 2-3 simultaneous clients against the real server. every pair of printable characters at each place, every count up to 40 and chosen ones up to 1000 (2000); bodies up to 300 kB (4 MB); up to 20 (40) clients at once at the default schedule.")
BUILT["P26"]=(SEQ,"All operation sequences up to length 7 (8) over 2 keys, 4 (5) over 3-4 keys, every accessor compared with a model after every step; copies do not alias; file map up to 5 (6) operations. every pair of printable characters at each place, every count up to 40 and chosen ones up to 1000 (2000).")
BUILT["P27"]=(SEQ,"All byte strings up to length 3, all texts over 24-26 symbols up to length 5 (6), padded texts up to 9 (11), all one-edit neighbours of valid texts, against an independent codec. Byte strings of large lengths.")
BUILT["P28"]=(SEQ,"Every day of 820 (10800) years at 4 times of day, every second of 2 (5) days, 10 formats, field ranges, all sequences of up to 4 operations in all units from 24 base times, against an independent calendar. The first and last days of every year -999..9999 (-9000..99000). Fractions of a second parsed exactly. Amounts near the ends of what a time can hold, in every unit.")
BUILT["P29"]=(ENV,"5616 configurations x 45 records, all sequences of 4 (6) of 10 configurations, unusable configurations, rolling, all short messages, schedules of 2-3 logging threads and a reconfiguration; real files. every pair of printable characters at each place, every count up to 40 and chosen ones up to 1000 (2000) in messages and names; up to 12 modules. Rolling with reconfigurations every 1, 2 and 5 records.")
BUILT["P30"]=(SEQ,"All constants, all u16 status codes, all byte strings up to length 3, all one-edit neighbours of valid texts, words up to length 7 (9).")
BUILT["P32"]=(SEQ,"All byte strings up to length 2, strings over 4 symbols up to length 7 (9), 18 lengths x 5 contents x all levels, truncation at every byte, every byte to every value, token strings up to 5 (6), against an independent decoder.")
BUILT["P33"]=(ENV,"Values: every string over 10 symbols up to length 5 (6), all sequences of up to 5 (6) of 13 header lines, every pair of printable characters at each place, every count up to 40 and chosen ones up to 1000 (2000), every letter-case spelling of the 8 headers the server interprets with blanks around their values; "+B+" All 58320 combinations of method, version, path, query, cookies, credentials, body, connection, spelling and order of header names, with filters looking or not, in 4 deliveries.")

BUILT["P34"]=(THR,"All constructors x 9 prefixes x 7 stack sizes x sizes up to 5 (12) x 4 panic patterns at the default schedule; schedules with <=2 (3) deviations of pools of 2 with 0-2 panics and of single threads. 300 (600) replacements in one pool's life.")
BUILT["P35"]=(THR,"Every pattern of refused threads and descriptors over the first requests (up to 2^14), times histories, at the default schedule; schedules with <=2 (3) deviations of selected patterns. Up to 60 s (600 s) without any thread; 300 (2000) rounds of faults in one server's life.")
BUILT["P36"]=(ENV,"All address lists up to length 4 (5) over 5 kinds of address, texts, port 0, refused threads, all orders of 6 requests over 3 listeners; their schedules with 1 (2) deviations. Up to 20 (40) servers in one process.")
