# ---- caching ----
prop("C01", "A cached answer is only served to the question it belongs to",
     "A response kept in the cache is only served to queries with the same name (ignoring case), type, class, DNSSEC-OK flag, checking-disabled flag and client subnet as the query it was fetched for, and queries that agree in all of these share it. It is served with the ID and question of the asker and is otherwise what the upstream sent, whatever callers did to messages they were handed before; queries with several questions bypass the cache. This holds for any number of concurrent clients.",
     ["inputs", "histories", "schedules"], "all histories of queries that agree or differ in any combination of the key fields, sequential or concurrent",
     "The tests check a few fixed pairs of queries; they cannot show that no combination of key fields collides and that no history lets one client's message leak into another's.",
     ["cache.go", "cache-memory.go", "lru-cache.go", "cache-blob.go"],
     [("cache lookup and reply", "cache.go: Resolve, answerFromCache"), ("key", "lru-cache.go: lruKeyFromQuery")],
     pkg="cache", technique="stateful property-based testing against a reference model; concurrent generated clients",
     note="Random histories of related queries against a full model of the cache, under a fake clock; concurrent part samples schedules.",
     observe=["answers of the cache element", "queries its upstream gets"])
prop("C02", "Cached answers live exactly as long as their TTLs allow",
     "A cached response is served until its lowest record TTL has passed (or, without records, the configured negative TTL), with every TTL reduced by the whole seconds since it was stored, and never after that; while it lives the upstream is not asked. SERVFAIL is kept for at most the negative TTL and never over five minutes, and a per-response-code maximum limits either. Truncated responses, errors, dropped queries and responses with other response codes are passed on but never cached.",
     ["histories", "inputs", "configurations"], "all sequences of queries and waits, response codes, TTL mixes and cache settings",
     "Tests use one or two fixed TTLs and real sleeping; they do not cover times around expiry for all response codes, TTL mixes and limits.",
     ["cache.go", "cache-memory.go", "cache-blob.go"],
     [("expiry", "cache.go: storeInCache, minTTL"), ("TTL ageing", "cache-blob.go: ageCachedAnswer"), ("collection of expired entries", "cache-memory.go")],
     pkg="cache", technique="stateful property-based testing against a reference model under a fake clock",
     note="Random histories around expiry times against a full model; boundary instants where either outcome is right are accepted both ways.")
prop("C03", "Capacity, flush, NXDOMAIN hardening and shuffling behave as configured",
     "A memory cache with a capacity never holds more entries than that and gives up the least recently used one first, and a flush query empties it without going upstream. With hardening on, a name below a cached NXDOMAIN of the same type, class, flags and subnet is answered NXDOMAIN without asking upstream; without such an entry, or with hardening off, it is not. Answer shuffling changes nothing but the order of address records among their positions, and round-robin puts each of n addresses first once in n reads.",
     ["histories", "configurations"], "all histories of queries over more names than fit, chains of parent and child names, and repeated reads",
     "Tests fill a cache once with a fixed sequence; recency order and hardening depend on the whole history.",
     ["cache.go", "lru-cache.go", "cache-memory.go"],
     [("eviction", "lru-cache.go: resize, touch"), ("hardening", "cache.go: answerFromCache"), ("shuffling", "cache.go: AnswerShuffleRandom, AnswerShuffleRoundRobin")],
     pkg="cache", technique="stateful property-based testing against a reference model under a fake clock",
     note="Random histories against an exact LRU model; where collection of expired entries leaves the victim open, both outcomes are accepted.")

prop("C04", "A cache file survives restarts, crashes, full disks and damage",
     "A memory cache that is kept in a file and stopped and started again serves the same unexpired answers as before, with their remaining TTLs and in the same order of use. Whenever the process dies or the disk fills up during a save, the file is a complete earlier or later save with unchanged permissions, no temporary file of a failed save stays, and other files in the directory are not touched. A file with damaged or unusable records never prevents the start, and never yields anything but answers that were stored; whole records before the damage are still served.",
     ["histories", "crash_points", "fault_sequences"], "all histories of queries, timed saves, restarts, kills, save faults at any byte and damage at any byte",
     "Tests save and load one small cache once; they cannot fail a save at every byte or cut a file at every byte for arbitrary content.",
     ["cache-memory.go", "lru-cache.go", "atomicfile.go", "cache-blob.go"],
     [("save", "cache-memory.go: writeToFile; atomicfile.go: writeFileAtomic"), ("load", "lru-cache.go: deserialize"), ("clean-up", "atomicfile.go: removeStaleTempFiles")],
     pkg="cache", technique="stateful property-based testing with injected write faults and file damage, against a reference model",
     note="Faults by file size limit at generated offsets, truncation and junk at generated offsets, reads of the file at random instants during saves; a machine crash (lost page cache) is not simulated.")

prop("C05", "A Redis cache gives the same guarantees and never gets in the way",
     "With responses kept in Redis, any number of instances sharing the server and key prefix serve each other's answers under the same rules of matching, lifetime and hardening as a cache in memory (ages may be rounded up by a second). A store that is down, slow, read-only or returns errors or undecodable values acts as an empty one: queries are still answered from upstream, without error and within about a second. Flushing removes all entries under the configured prefix, taken literally, and no other keys.",
     ["histories", "fault_sequences", "configurations"], "all histories of queries on one or two instances, key prefixes and store faults at any step",
     "The tests talk to no Redis server; what happens when it fails at some point of a history is not covered.",
     ["cache-redis.go", "cache.go"],
     [("store and lookup", "cache-redis.go: Store, Lookup, keyFromQuery"), ("flush", "cache-redis.go: Flush")],
     pkg="cache", technique="stateful property-based testing with injected store faults, against a reference model",
     note="A fake server speaking the protocol under a fake clock; no real Redis server is available here.")

prop("C06", "Prefetching keeps popular answers fresh and changes nothing else",
     "A cache with a prefetch trigger answers a query from its entry and, if that had more than the eligible TTL when stored and has less than the trigger left, sends the same query upstream once in the background; the result replaces the entry unless it failed, was truncated or has less TTL than was left. The prefetch element passes queries and responses on unchanged and, once the clients have asked the same question (same name, type, class, flags and subnet) as often as the threshold with no gap longer than the window, repeats that question on its own within ten seconds after each response's lowest TTL has run out. It does so for no other question, stops after a failed or unusable response or when the clients have stopped asking for a window, and never for more questions than its limit.",
     ["histories", "schedules", "fault_sequences"], "all histories of client queries, waits and upstream responses, delays and failures",
     "The tests only pass queries through; when a refresh happens depends on the whole history of queries and TTLs.",
     ["cache.go", "prefetch.go"],
     [("refresh in the cache", "cache.go: Resolve"), ("prefetch element", "prefetch.go: Resolve, NewPrefetch")],
     pkg="cache", technique="stateful property-based testing against a reference model under a fake clock",
     note="A TTL equal to the eligible limit is accepted both ways. With few prefetch items, which of the questions are tracked is left open.")

# ---- groups ----
prop("G01", "Fail-over groups use a working member and prefer as documented",
     "A fail-rotate or fail-back group sends a query to its active member and, on an error, REFUSED, NOTIMP or (as configured) SERVFAIL or empty answer, to each of the following members in turn, once each; it returns the first success, or the last failure once all have failed. A fail-rotate group stays with the member that last succeeded; a fail-back group returns to its first member once no failover has happened for the reset time, or with a reset time of zero or less starts every query there. Concurrent queries succeed whenever some member works, and members get the query and client information unchanged.",
     ["histories", "schedules", "fault_sequences"], "all histories of queries, waits and member outcomes, sequential or concurrent",
     "Tests use two or three members with one fixed failure pattern; the choice of member depends on the whole history and its timing.",
     ["failback.go", "failrotate.go", "resolver.go"],
     [("rotation", "failrotate.go: Resolve, errorFrom"), ("fail-back", "failback.go: errorFrom, startResetTimer"), ("what is a failure", "resolver.go: isSuccessResponse")],
     pkg="groups", technique="stateful property-based testing against a reference model under a fake clock",
     note="The order in which members are asked is predicted exactly; histories in which two timers fire at the same instant are cut short there.")
prop("G02", "Random, load-balance and round-robin groups spread load and retry failures",
     "A random or load-balance group asks each member at most once per query, moves on to another member on a failure, stops at the first success, whose answer it returns, and reports a failure only after every available member has failed. A random group picks evenly among its members, does not use a failed one until its reset time is over and then uses it again; a load-balance group gives each member an unchanged private copy of the query and sends most queries to the member with by far the lowest response time yet some to every member. A round-robin group sends queries to its members strictly in turn, also from concurrent clients, and returns what they answer.",
     ["histories", "schedules", "fault_sequences"], "all histories of queries, waits, response times and member outcomes, sequential or concurrent",
     "Tests fix the random choice or look at a handful of queries; these rules bind every random choice and every history.",
     ["random.go", "loadbalance.go", "roundrobin.go", "resolver.go"],
     [("random", "random.go: Resolve, deactivate, reactivateLater"), ("load balancing", "loadbalance.go: Resolve, pick, updateOnSuccess, updateOnFailure"), ("round robin", "roundrobin.go: Resolve")],
     pkg="groups", technique="stateful property-based testing against a reference model under a fake clock; statistical bound for the shares",
     note="Shares are only checked to be above 70% for the member at least 30 times faster (expected above 90%) and above zero for the others.")
prop("G03", "A fastest group returns the first successful response",
     "A fastest group sends an unchanged private copy of the query to every member once and returns the response of the member that first succeeds (no error and not SERVFAIL), as soon as that is there. If all fail it returns the failure that came last. Nothing is left behind once all members have answered.",
     ["inputs", "schedules", "fault_sequences"], "all sets of members, outcomes and response times",
     "Tests use two members with fixed delays; which response wins depends on the order in which any number of successes and failures come in.",
     ["fastest.go"], [("selection", "fastest.go: Resolve")],
     pkg="groups", technique="property-based testing of generated timings under a fake clock, against an exact oracle",
     note="Response times are distinct, so the expected winner and its time are unique.")
prop("G05", "Load balancing follows the members' response times",
     "A load-balance group keeps for each member an average of its response times, published as a metric: the first sample as it is, then a tenth of each new sample mixed into it. A failure never lowers the average (the first ever counts at least 100 ms) and from the second failure in a row on counts as the configured penalty, if that is more; the first success after a failure that raised it starts the average anew. One pick in twenty is even among the members not tried yet, and the others are inversely proportional to the averages, which count as 100 ms before any sample and never as less than 1 ms.",
     ["histories", "fault_sequences"], "all histories of response times, failures and recoveries, with and without a penalty",
     "Tests fix the random choice and look at one update at a time; the averages depend on the whole history, and the shares show only over many picks.",
     ["loadbalance.go"],
     [("averages", "loadbalance.go: updateOnSuccess, updateOnFailure"), ("choice", "loadbalance.go: pick")],
     pkg="groups", technique="stateful property-based testing against an exact model of the averages under a fake clock; martingale bound for the shares",
     note="The shares are compared over all cases of a run with a bound that errs with a probability below one in a billion.")
prop("G04", "Merging identical queries never mixes up different ones",
     "Queries that agree in name (ignoring case), type, class, DNSSEC-OK flag, checking-disabled flag and client subnet are merged while one of them is on its way upstream: all get its outcome at that time, each with its own ID and question and free to modify its copy. Queries that differ in any of these are never merged, and a query that comes after the outcome is sent upstream anew.",
     ["inputs", "schedules"], "all schedules of clients asking equal and almost equal questions",
     "Tests send the same query from several clients at once; they do not vary the fields that tell queries apart, the timing and the outcome.",
     ["request-dedup.go"], [("merging", "request-dedup.go: Resolve")],
     pkg="groups", technique="property-based testing of generated schedules under a fake clock, against an interval oracle",
     note="Queries with several client subnets are left out.")

# ---- modifiers ----
PB = "property-based testing of generated queries and responses against a reference model"
prop("M01", "The TTL modifier changes TTLs as configured and nothing else",
     "The TTL of every record of a response except the EDNS0 one is set to the lowest, highest, average (rounded down), first or last of them, in the order of the message, or left as it is, as configured, then raised to the minimum and lowered to the maximum, if any. Random selection gives all records one random value between minimum and maximum. The query, the rest of the response, errors and dropped queries are passed on unchanged.",
     ["inputs", "configurations"], "all responses and configurations",
     "Tests use one response per function; limits and selection interact over any mix of records in three sections.",
     ["ttl-modifier.go"], [("modification", "ttl-modifier.go: Resolve and the TTLSelect functions")],
     pkg="modify", technique=PB)
prop("M02", "The replace element maps names both ways",
     "The query goes upstream with its name rewritten by all rules in order and is otherwise the same; the client's message is not touched. In the response, the question and the answer records with the rewritten name get the original name back, and everything else stays. A name that no rule changes, an error or a dropped query passes unchanged.",
     ["inputs", "configurations"], "all names, rules and responses",
     "Tests map a few fixed names; rules are applied one after the other to any name, and responses can hold any mix of owners.",
     ["replace.go"], [("mapping", "replace.go: Resolve, apply")], pkg="modify", technique=PB,
     note="Rules are drawn from a fixed set of regular expressions.")
prop("M03", "The client subnet modifier adds, removes and shortens as configured",
     "Deleting leaves no client subnet option in the query sent upstream; adding leaves exactly one, with the configured address or else that of the client, masked to the prefix length of its family; adding if missing leaves an existing one alone. The privacy operation masks the address to the configured prefix length and never raises the source prefix length. All other options, flags and the client's own message stay as they are, an EDNS0 record is added only where an option is, and the query can always be encoded, also when the client address is not known.",
     ["inputs", "configurations"], "all queries, client addresses and configurations",
     "Tests do not cover this element; privacy must hold for every address, mask and mix of options.",
     ["ecs-modifier.go"], [("operations", "ecs-modifier.go: ECSModifierAdd, ECSModifierAddIfMissing, ECSModifierDelete, ECSModifierPrivacy")], pkg="modify", technique=PB, note="Prefix lengths beyond the address size are not generated.")
prop("M04", "The EDNS0 modifier adds and removes exactly the given option",
     "Adding leaves exactly one option with the code in the query sent upstream, last, with the configured bytes, and adds an EDNS0 record if there is none; deleting leaves none. All other options keep their order and content, and the client's own message and the response are not changed.",
     ["inputs", "configurations"], "all queries with any number of options, and all codes and data",
     "Tests add or delete one option in a query that has one other.",
     ["edns0-modifier.go"], [("operations", "edns0-modifier.go: EDNS0ModifierAdd, EDNS0ModifierDelete")], pkg="modify", technique=PB)
prop("M05", "Truncation retry, minimize, collapse and drop act as documented",
     "A truncated response, and no other, makes the same query go to the retry resolver, whose outcome is returned; dropping answers nothing and asks no one. Minimizing removes all authority and additional records and nothing else. Collapsing keeps of a successful answer just the records of the queried type and class, in order and with the queried name, or gives the configured response code if none is left; other responses pass unchanged.",
     ["inputs", "configurations", "fault_sequences"], "all queries, responses and upstream failures",
     "Tests use one alias chain and one truncated response.",
     ["truncate-retry.go", "response-minimize.go", "response-collapse.go", "drop.go"],
     [("retry", "truncate-retry.go: Resolve"), ("minimize", "response-minimize.go: Resolve"), ("collapse", "response-collapse.go: Resolve")], pkg="modify", technique=PB)
prop("M06", "Static and template responders answer every query as configured",
     "A static responder answers any query with the configured records, response code and truncation flag, the query's ID and question and, if configured, an extended error with its text expanded; answer records get the queried name, others keep theirs. A template responder expands name, type, class and ID of the query in every record and leaves out those that cannot be expanded or parsed. Every response is the client's own: modifying it does not affect later or concurrent ones.",
     ["inputs", "configurations", "histories"], "all queries, configured records and templates, asked repeatedly",
     "Tests ask one question per configuration, once.",
     ["static.go", "static-template.go", "template.go", "edns0ede.go"],
     [("static", "static.go: Resolve"), ("templates", "static-template.go: processRRTemplates; template.go: Apply"), ("extended error", "edns0ede.go: Apply")], pkg="modify", technique=PB,
     note="Templates are drawn from a set of nine whose expansion is known.")
prop("M07", "DNS64 makes AAAA records from A records only where it should",
     "An AAAA query whose response is successful without AAAA records is followed by the same query for A, and each A record in a successful answer becomes one AAAA record per prefix with the same owner and TTL and the address placed as RFC 6052 says, after the aliases of that answer. All other cases, that is other types, queries with the DNSSEC-OK flag, responses with AAAA records, failures, or no A record to be had, give the first response unchanged.",
     ["inputs", "configurations", "fault_sequences"], "all queries, response pairs and prefixes of all six lengths",
     "Tests check one address per prefix length and one failure at a time.",
     ["dns64.go"], [("synthesis", "dns64.go: Resolve, synthesizeAAAA, synthesizeIPv6")], pkg="modify", technique=PB)
prop("M08", "Elements compose without touching the client's query",
     "Any chain of modifiers and groups behaves as its elements one after the other, for each of any number of queries, one by one or concurrent. The client's query message is never changed, client information reaches the upstream as it came, and what a client does to its response affects no other.",
     ["inputs", "configurations", "schedules"], "all chains of up to five elements, queries, upstream responses and concurrent clients",
     "Tests look at one element at a time; shared records, queries changed in place and wrong order of copying show only in combination.",
     ["ttl-modifier.go", "replace.go", "ecs-modifier.go", "edns0-modifier.go", "truncate-retry.go", "response-minimize.go", "response-collapse.go", "static.go", "static-template.go", "dns64.go", "request-dedup.go", "failrotate.go", "router.go", "rate-limiter.go"],
     [("elements", "the Resolve methods")], pkg="modify", technique=PB + ", and of concurrent use (with the race detector in the thorough tier)", race=True)
prop("M09", "TCP probing only reorders addresses, fastest first",
     "The response is unchanged unless it has at least two addresses of the queried type and the probes succeed: with waiting for all of them, no failure or timeout among the first 32 addresses; otherwise, the first result is a connection. Then the addresses probed stay in the positions they took up together, none lost or doubled, with the fastest first, or all by response time if waiting for all, and TTLs of at least the configured minimum; all other records stay where and as they are.",
     ["inputs", "fault_sequences"], "all responses and mixes of servers that are fast, slow, silent or refuse connections",
     "Tests probe two public addresses, which needs a network.",
     ["fastest-tcp.go"], [("probing", "fastest-tcp.go: probeFastest, probeAll"), ("merging", "fastest-tcp.go: Resolve")], pkg="modify",
     technique="property-based testing with generated server behaviour on loopback addresses", budget_s={"quick": 120, "thorough": 2400},
     note="Response times are told apart only in steps of about a second, by servers whose accept queue is full at first.")

# ---- filters ----
prop("B01", "Blocklist formats match exactly the names and clients they describe",
     "Ignoring letter case, surrounding white space, a final dot, blank lines and comment lines: a domain rule matches that name only, one with a leading dot also all names below it, one with a leading wildcard only the names below, and in domain-subdomain lists plain rules count as having the dot; a regular expression is matched against the lower-case name with its final dot; a MAC rule against the six bytes in EDNS0 option 65001. Hosts rules block their names, answer A and AAAA queries with their addresses of that family (unspecified ones block), and answer PTR queries for their addresses with at most ten of their names. Lists with an invalid rule are rejected.",
     ["inputs", "configurations"], "all rule lists of up to 28 lines and all queries, drawn near the rules",
     "Tests match some names against a handful of rules; rules share prefixes and shadow each other in a tree, in any order.",
     ["blocklistdb-domain.go", "blocklistdb-regexp.go", "blocklistdb-hosts.go", "mac-db.go"],
     [("domain", "blocklistdb-domain.go: newDomainDB, Match"), ("regexp", "blocklistdb-regexp.go: Match"), ("hosts", "blocklistdb-hosts.go: NewHostsDB, Match"), ("mac", "mac-db.go: Match")], pkg="filter", technique=PB,
     note="Names with escaped dots, several valid MAC options and hosts lines without a valid address are not generated.")
prop("B02", "Query blocklists let through, block or redirect as their lists say",
     "A query that matches an allowlist goes to the allowlist resolver, or upstream if there is none, even if a blocklist matches too; one that matches no blocklist goes upstream. Of the others, the first blocklist with a match decides: PTR names from it are answered, else the query goes to the blocklist resolver if there is one, else addresses of the queried type are answered, else NXDOMAIN with the configured extended error, which names list and rule. The query is forwarded unchanged to just one resolver or to none, and that resolver's outcome is returned unchanged.",
     ["inputs", "configurations"], "all combinations of up to three blocklists and two allowlists of all formats, resolvers and queries",
     "Tests try the options one at a time.",
     ["blocklist.go", "blocklistdb-multi.go", "edns0ede.go"], [("decision", "blocklist.go: Resolve"), ("several lists", "blocklistdb-multi.go: Match")], pkg="filter", technique=PB)
prop("B03", "Response blocklists catch every listed address in a response",
     "A successful response with an A or AAAA record in any section whose address is in a listed network, location or AS (inverted: in none) is replaced by the blocklist resolver's response to the query, or by NXDOMAIN with the configured extended error. With filtering, just those records are removed, and only if no answer is left the response is replaced. All other responses and errors are passed on unchanged.",
     ["inputs", "configurations"], "all responses, lists of networks, location databases and options, with addresses drawn at network boundaries",
     "Tests use one or two networks; networks of any length nest and overlap in a binary tree, in any order.",
     ["response-blocklist-ip.go", "cidr-db.go", "ip-blocklist-trie.go", "ip-db-multi.go", "geoip-db.go", "asn-db.go"],
     [("decision", "response-blocklist-ip.go: blockIfMatch, filterMatch"), ("networks", "ip-blocklist-trie.go: add, hasIP"), ("location", "geoip-db.go, asn-db.go: Match")], pkg="filter", technique=PB,
     note="A filtered response that has no answer to begin with may be passed on or replaced. The extended error of inverted lists is not checked.")
prop("B04", "Response blocklists catch every listed name in a response",
     "A response with a record in any section whose target name (CNAME, MX, NS, PTR, SRV, SOA primary), text (TXT) or target with parameters (SVCB, HTTPS) matches a name list (inverted: matches none) is replaced by the blocklist resolver's response to the query, or by NXDOMAIN with the configured extended error. All other responses and errors are passed on unchanged.",
     ["inputs", "configurations"], "all responses, name lists of all formats and options",
     "Tests use one record at a time.",
     ["response-blocklist-name.go"], [("decision", "response-blocklist-name.go: blockIfMatch")], pkg="filter", technique=PB)
prop("B05", "Client blocklists refuse exactly the listed clients",
     "A query from an address in a listed network, location or AS, or with the ECS option enabled and a client subnet in the query, with such an address there, is refused, or goes to the blocklist resolver if there is one. All other queries, and those without a known address, go upstream unchanged.",
     ["inputs", "configurations"], "all client addresses, lists, location databases and options, with addresses drawn at network boundaries",
     "Tests use one network and two clients.",
     ["client-blocklist.go", "cidr-db.go", "ip-blocklist-trie.go", "geoip-db.go", "asn-db.go"],
     [("decision", "client-blocklist.go: Resolve"), ("networks", "ip-blocklist-trie.go: add, hasIP")], pkg="filter", technique=PB)
prop("B06", "Reloading lists takes over complete new rules or keeps the old ones",
     "At each refresh the rules of all sources are replaced together by those found in the files or on the servers. If one cannot be read completely or has an invalid rule, the rules in use stay as they are, or, for a source that may fail, just its last good rules stay, and there are none if it fails at startup; sources that may not fail prevent startup. Startup uses the cached copy of a remote list, which is the one last read completely; queries are answered from the old rules without delay while a reload runs, and a list is not used after it was closed.",
     ["histories", "fault_sequences", "schedules"], "all sequences of up to seven refreshes and restarts, with missing, cut, overlong, invalid and slow sources",
     "Tests load lists once.",
     ["blocklistloader-http.go", "blocklistloader-local.go", "blocklist.go", "response-blocklist-ip.go", "response-blocklist-name.go", "client-blocklist.go", "blocklistdb-multi.go", "ip-db-multi.go"],
     [("loading", "blocklistloader-http.go, blocklistloader-local.go: Load"), ("refresh", "refreshLoopBlocklist, refreshLoopAllowlist")], pkg="filter",
     technique="property-based testing of generated histories with faults under a fake clock, against a reference model; generated concurrent use", race=True,
     note="Remote lists come from a stand-in for the HTTP transport. Cached lists with invalid rules are not generated.")

# ---- routing ----
prop("R01", "Routers send each query to the first route that matches",
     "The query goes unchanged, with the client information, to the resolver of the first route in order that matches, whose outcome is returned unchanged; without a match there is an error and no resolver is asked. A route matches if all its conditions hold, or inverted if not all do: type in the list, class, regular expressions found in query name, DoH path, listener and server name, client address in the source network, address of the last client subnet option in the ECS network, local weekday in the list, and local time of day from the after minute on and until just before the before minute. Routes with invalid conditions are rejected.",
     ["inputs", "configurations"], "all lists of up to seven routes, queries, clients and times of the year in four time zones",
     "Tests try conditions one at a time, and never the time of day of a real router.",
     ["router.go", "route.go"], [("order", "router.go: Resolve"), ("conditions", "route.go: match, NewRoute")], pkg="routing",
     technique="property-based testing of generated routes and queries under a fake clock, against a reference model")
prop("R02", "The rate limiter passes exactly the allowed number of queries",
     "In every window of the configured number of seconds, counted from the Unix epoch, exactly the first allowed number of queries from each client network go upstream, and all others go to the limit resolver or, without one, are dropped. Networks are formed with the configured or default prefix length of the address family, and clients in different networks do not affect each other, also when queries come in at the same time.",
     ["histories", "schedules", "configurations"], "all sequences of bursts of concurrent queries from several networks over several windows",
     "Tests send a handful of queries one by one within one window.",
     ["rate-limiter.go"], [("limit", "rate-limiter.go: Resolve")], pkg="routing",
     technique="property-based testing of generated bursts under a fake clock, against a counting model", race=True)

# ---- transports ----
prop("T01", "Queries and responses pass through every transport unchanged",
     "A query sent by a resolver of any transport (UDP, TCP, DoT, DTLS, DoH by GET or POST over HTTP/2 or QUIC, DoQ) to a listener of the same transport reaches the resolver behind it with the same question, flags and options, and its response comes back to the same caller complete, with the ID of the query, also with many queries at once and with responses of up to 60 KB. Exempt are padding, message IDs on the way, the buffer size if one is configured, and truncation to what the client can take over UDP and DTLS. The resolver behind a listener is told the client's address and the listener; its error becomes a failure response to that query alone.",
     ["inputs", "schedules", "configurations"], "all queries and responses in waves of up to seven queries at once, over seven transports and their options",
     "Tests send one or two fixed queries over each transport and mostly look at the answer count.",
     ["dnsclient.go", "dotclient.go", "dtlsclient.go", "dohclient.go", "doqclient.go", "pipeline.go", "dnslistener.go", "dotlistener.go", "dtlslistener.go", "dohlistener.go", "doqlistener.go"],
     [("clients", "dnsclient.go, dotclient.go, dtlsclient.go, dohclient.go, doqclient.go: Resolve"), ("listeners", "dnslistener.go: listenHandler; dohlistener.go, doqlistener.go")], pkg="wire",
     technique="property-based testing of generated exchanges over loopback sockets, by a round-trip oracle", budget_s={"quick": 240, "thorough": 2400},
     note="DTLS messages of more than 8192 bytes are not generated, which the DTLS library does not take.")
prop("T02", "Upstream resolvers return to each query its own answer or an error in time",
     "Whatever an upstream server does (delays, reordered, duplicated, late, unsolicited or crossed answers, answers with another ID or question, garbage, closed, refused, stalled or broken connections), every query ends within the query timeout (plus the time to connect) in an error or the server's complete answer to just this query, under this query's ID. Queries in flight at the same time do not affect each other, connections are reused while they work, and after a failure the next query is sent over a new connection.",
     ["histories", "schedules", "fault_sequences"], "all sequences of up to a dozen queries at any time and server behaviour per connection and query, for stream and datagram connections, DoH and DoQ",
     "Tests use well-behaved servers, and one or two failures.",
     ["pipeline.go", "dnsclient.go", "dotclient.go", "dohclient.go", "doqclient.go"],
     [("matching", "pipeline.go: requestQueue, inFlightQueue"), ("reconnecting", "pipeline.go: start, Resolve"), ("DoH", "dohclient.go: responseFromHTTP"), ("DoQ", "doqclient.go: Resolve")], pkg="wire",
     technique="property-based testing of generated histories with faults under a fake clock, against a reference model", budget_s={"quick": 240, "thorough": 2400})
prop("T03", "Listeners answer every query in a form its client can take",
     "A plain DNS, DoT or DTLS listener answers each query of an allowed client with the resolver's response, with SERVFAIL if that fails and with REFUSED if the client is not allowed, and not at all, closing stream connections, if the resolver drops the query. Over UDP and DTLS a response longer than the client's announced size (512 bytes without one) is cut at whole records and marked as truncated, and no other response is cut. Over encrypted transports a response to a query with EDNS is padded to a multiple of 468 bytes, or to the announced size if that is less, and padding is left out of plain responses and of those to queries without EDNS.",
     ["inputs", "configurations"], "all queries, resolver responses of up to 20 KB with sizes drawn at the limits, clients and allowed networks",
     "Tests check one truncated and one padded response.",
     ["dnslistener.go", "dotlistener.go", "dtlslistener.go", "padding.go", "message.go"],
     [("handling", "dnslistener.go: listenHandler"), ("padding", "padding.go: padAnswer, stripPadding")], pkg="wire", technique=PB,
     note="Signed (TSIG) responses are exempt from the size limit. Resolver responses with padding to queries without EDNS are generated for plain transports only.")
prop("T04", "Only clients in the allowed networks get answers from a listener",
     "With allowed networks configured, on every kind of listener (UDP, TCP, DoT, DTLS, DoH, DoH over QUIC, DoQ, ODoH target and ODoH proxy) no query or proxy request from an address outside all of them reaches a resolver or another server, and it is refused or left unanswered; those from addresses inside are treated as without the restriction. Behind trusted HTTP proxies the forwarded address counts.",
     ["inputs", "configurations"], "all client addresses of both families near the boundaries of up to three networks, on nine kinds of listeners",
     "Tests use one network and no address near its boundary; most kinds of listeners are not covered.",
     ["dnslistener.go", "dohlistener.go", "doqlistener.go", "odohlistener.go", "dtlslistener.go", "dotlistener.go"],
     [("plain, DoT, DTLS", "dnslistener.go: listenHandler, isAllowed"), ("DoH", "dohlistener.go: ServeHTTP"), ("DoQ", "doqlistener.go: handleConnection"), ("ODoH", "odohlistener.go")], pkg="wire",
     technique="property-based testing of generated clients and networks, against a reference model", budget_s={"quick": 240, "thorough": 2400})
prop("T05", "No input to a listener stops it from serving others",
     "Whatever bytes a client sends to a listener of any kind (cut, overlong, mutated or random messages, wrong lengths, odd queries), and whatever the resolver does with the queries among them, including dropping them, the listener goes on answering queries, and well-formed queries among them get just their own response. Input that is no query, or over DoQ has a TCP keepalive option, never reaches a resolver, nor does a query reach it more often than it was sent.",
     ["inputs", "histories"], "all sequences of up to five byte strings, mostly mutations of queries, to seven kinds of listeners",
     "Tests send only what the DNS library encodes.",
     ["dnslistener.go", "dotlistener.go", "dtlslistener.go", "dohlistener.go", "doqlistener.go"],
     [("DoQ", "doqlistener.go: handleStream"), ("DoH", "dohlistener.go: ServeHTTP"), ("others", "dnslistener.go: listenHandler")], pkg="wire",
     technique="structured fuzzing of generated and mutated messages over loopback sockets, with a liveness oracle", budget_s={"quick": 240, "thorough": 2400})
prop("T06", "The DoH listener follows the DNS over HTTPS protocol",
     "A GET request with the query in the URL, or a POST request with it as the body, gets status 200 and the resolver's response, of type application/dns-message; a query that cannot be decoded gets status 400, other methods 405 and bodies that are too long 413, and none of them reaches a resolver. The client address is that of the connection or, from a trusted proxy, the last one in X-Forwarded-For that is no trusted proxy; the resolver is also told path, listener and server name. A failed query gives SERVFAIL, a refused client REFUSED and a dropped query an error status; responses are padded.",
     ["inputs", "configurations"], "all sequences of requests with generated methods, paths, encodings, bodies, headers, proxies and allowed networks",
     "Tests send a few well-formed requests.",
     ["dohlistener.go", "padding.go"], [("requests", "dohlistener.go: getHandler, postHandler, parseAndRespond"), ("client address", "dohlistener.go: extractClientAddress")], pkg="wire",
     technique="property-based testing of generated HTTP requests, against a reference model", budget_s={"quick": 240, "thorough": 2400})
prop("T07", "Encrypted connections are only made with peers whose certificate fits",
     "A DoT, DTLS, DoQ or DoH resolver, over TCP or QUIC, sends queries only to a server whose valid certificate comes from the trusted authority and is for the configured server name or, without one, the host name or address in its endpoint, whether the address to connect to comes from a lookup or is a bootstrap address. A listener with mutual authentication takes queries only from clients with a valid client certificate of its authority. With good certificates on both sides every query is answered, otherwise it ends in an error and never reaches the resolver behind the listener.",
     ["inputs", "configurations"], "all combinations of endpoints, server names, certificates of two authorities or self-signed with up to four names, validity and usage, and client certificates, over five transports",
     "Tests try the right certificates, and one missing client certificate.",
     ["tls.go", "dtls.go", "dnsclient.go", "dotclient.go", "dtlsclient.go", "dohclient.go", "doqclient.go"],
     [("settings", "tls.go: TLSClientConfig, TLSServerConfig; dtls.go"), ("names", "dnsclient.go: Dial; dotclient.go, dtlsclient.go, doqclient.go: New...; dohclient.go: dohQuicTransport")], pkg="wire",
     technique="property-based testing of generated certificates and endpoints over loopback sockets, against a reference model", budget_s={"quick": 240, "thorough": 2400})
prop("T08", "Oblivious DoH hides queries and answers from the proxy and fails safely",
     "The ODoH client sends only the encrypted query to the proxy, for the configured target, under a key from the target that is not older than 24 hours; an answer is returned only if it decrypts with the key of this query, and otherwise the query ends in an error within its timeout. The target listener resolves just the queries encrypted for it and encrypts the response for the sender, and rejects others; the proxy listener passes encrypted requests on unchanged to the target host and path named, and its response back. Malformed keys, requests and responses never crash any of them.",
     ["inputs", "histories", "fault_sequences"], "all sequences of queries with generated keys, times, targets, mutated requests and mutated responses",
     "Tests run one query through one proxy and target.",
     ["odohclient.go", "odohlistener.go"], [("client", "odohclient.go: Resolve, refreshTargetKey"), ("target", "odohlistener.go: ODoHqueryHandler"), ("proxy", "odohlistener.go: ODoHproxyHandler")], pkg="wire",
     technique="property-based testing of generated and mutated exchanges against a reference model, in part under a fake clock", budget_s={"quick": 240, "thorough": 2400})

prop("T09", "Sockets obtained through another network namespace's server are used as given",
     "A server that hands out sockets returns, for every well-formed request, a socket of just the requested family, type and protocol, or the error the system gives, refuses in restricted mode what is neither UDP nor TCP over IPv4 or IPv6, ends connections with malformed requests, and goes on serving others. It gives its own socket the requested mode, replaces a stale socket at its path but no other file, and removes its socket when stopped. Listeners and resolvers configured to use such a server make every socket they need through it and never one of their own, also when it refuses, misbehaves or is absent, which ends in an error, and descriptors are not lost.",
     ["inputs", "histories", "configurations", "fault_sequences"], "all sequences of requests, well-formed or not, and all kinds of files at the path; all transports of listeners and resolvers with servers that behave well or badly",
     "Tests ask one server for a few sockets.",
     ["xsocketserver_linux.go", "xsocket_linux.go", "netns_linux.go"], [("server", "xsocketserver_linux.go: listen, handle, allowedSocket"), ("use", "xsocket_linux.go: xsocketGetFd, dialXSocket, listen...")], pkg="wire",
     technique="property-based testing of generated requests, faults and configurations against reference sockets and a recording server", budget_s={"quick": 240, "thorough": 2400})

prop("T10", "Resolvers with a SOCKS5 proxy reach their servers only through it",
     "A plain, DNS-over-TLS or DNS-over-HTTPS resolver that is to use a SOCKS5 proxy sends every query through the proxy and none directly, whatever the proxy does: it logs in with the configured name and password, connects from the configured local address, and asks for the server by the name or address it is configured with, or, if the name is to be resolved locally, by the address it has here, and looks the name up in no other case. Each query ends in time with its own answer or an error. As soon as the proxy works, again, queries are answered, however it failed before and however long a connection is in use.",
     ["inputs", "histories", "schedules", "configurations", "fault_sequences"], "all such resolvers with proxies that refuse, fail, close, stall or send garbage at any point of the exchange, in sequences of up to four groups of concurrent queries",
     "Tests build the dialer and never have a proxy fail.",
     ["socks5.go", "dnsclient.go", "dotclient.go", "dohclient.go", "cmd/routedns/resolver.go"], [("dialer", "socks5.go: NewSocks5Dialer, Dial"), ("use", "dnsclient.go: GenericDNSClient.Dial; dohclient.go: dohTcpTransport")], pkg="wire",
     technique="property-based testing of generated configurations and sequences of faults against a recording proxy with traps at the addresses of the servers", budget_s={"quick": 240, "thorough": 2400})

prop("T11", "State-changing queries are never sent or acted on in replayable data",
     "What a DNS-over-QUIC listener, or a DNS-over-HTTPS listener over QUIC, receives as early (0-RTT) data is passed on to its resolver before the handshake is complete only if it is an ordinary query or a NOTIFY; any other is held back until then or rejected with status 425, and never resolved because recorded packets are sent again. A resolver with 0-RTT enabled sends any other query only after the handshake is complete. Once the handshake can complete, held queries are resolved once and get their own answers, and a failed or refused resumption does not keep later queries from being answered.",
     ["inputs", "histories", "schedules", "fault_sequences"], "flights of up to four queries with any opcode on resumed connections, with the server's packets held back, released or lost, and with replayed first flights",
     "Tests check helper functions; no test resumes a connection with the server's packets held back.",
     ["doqlistener.go", "dohlistener.go", "doqclient.go", "dohclient.go", "message.go"], [("listeners", "doqlistener.go: handleStream; dohlistener.go: parseAndRespond"), ("resolvers", "doqclient.go: getStream, awaitReplaySafe; dohclient.go: buildGetRequest")], pkg="wire",
     technique="property-based testing of generated flights of queries over resumed connections, through a relay that holds back or replays packets", budget_s={"quick": 240, "thorough": 2400})

# ---- dnssec ----
F=["dnssec.go", "dnssec/validator.go", "dnssec/denial.go", "dnssec/denial_existence.go", "dnssec/keystore.go"]
DT="property-based testing of generated signed zones and attacks, under a fake clock, with the zones as the reference model"
prop("D01", "Right answers from signed and unsigned zones pass the DNSSEC validator",
     "Every right response, positive or negative, that a recursive server gives about any zones, signed with NSEC or NSEC3, with any keys, wildcards, aliases and delegations, or unsigned, is passed on by the validator, also after zones changed their keys and while other queries are being validated. The response is marked as authentic exactly if everything it consists of is in zones that are signed from a trust anchor down to them, and no unsigned delegation may hide behind an opt-out. Records the client did not ask for, signatures and proofs, are left out unless it set the DO bit, everything else stays as it was; responses with other codes than success and non-existence, and failures, are passed on unmarked.",
     ["inputs", "histories", "schedules", "configurations"], "all worlds of up to six zones with a dozen records, and sequences of up to four queries over hours, or eight at once",
     "Tests validate a few recorded or hand-made responses, without wildcards, aliases to other zones, zones cut several labels down, or changes of keys.",
     F, [("chain of trust", "dnssec/validator.go: buildChainOfTrust"), ("delegations", "dnssec/validator.go: checkInsecureDelegation"), ("marking", "dnssec.go: Resolve")], pkg="sec", technique=DT, race=True,
     note="Not generated: NSEC3 and wildcards directly at the root, which the library used cannot sign, and algorithms that are not supported.")
prop("D02", "Forged answers from signed zones never pass the DNSSEC validator",
     "No response that is false about a name in a signed zone is passed on: one with changed, added, removed or renamed records, with missing, altered, expired, early or foreign signatures, with the answer to another question, or from other keys, whatever else the attacker makes of the DNSKEY and DS lookups. It gives a failure response without data, unless the validator is to log only, and it is never marked as authentic.",
     ["inputs", "histories", "fault_sequences"], "all worlds of up to six zones, and sequences of up to four queries with several of some thirty kinds of changes each to answers and lookups",
     "Tests try a few hand-made forgeries.",
     F, [("signatures", "dnssec/validator.go: validateRRset, verifyRRSIG"), ("keys", "dnssec/validator.go: buildChainOfTrust"), ("wildcards", "dnssec/denial_existence.go: validateExpansion")], pkg="sec", technique=DT,
     note="The attacker never has a key of the zone or a zone above it.")
prop("D03", "False denials about signed zones never pass the DNSSEC validator",
     "No response is passed on that denies, as non-existent name or missing type, what exists in a signed zone, or gives the wrong one of the two, whichever genuine, altered or renamed proofs of whichever zones the attacker puts together. Right denials pass, with NSEC and NSEC3, for names, types, wildcards, empty names between others and delegations.",
     ["inputs", "histories"], "all worlds of up to six zones, and sequences of up to four queries with chosen proofs of any of the zones",
     "Tests deny some fixed names with fixed proofs.",
     F, [("NSEC", "dnssec/denial_existence.go: nsecProvesNXDOMAIN, nsecProvesNODATA"), ("NSEC3", "dnssec/denial_existence.go: nsec3ProvesNXDOMAIN, nsec3ProvesNODATA")], pkg="sec", technique=DT,
     note="Names that may be unsigned delegations behind an opt-out can be denied, unmarked.")
prop("D04", "Only zones without a DS record in a signed parent count as unsigned",
     "An unsigned response, or one with bad signatures, is passed on only if the parent zone proves with its signature that a delegation at or above the name has no DS record, and then it is not marked as authentic. Whatever an attacker makes of the DS lookups (failed, refused, empty, altered or dropped, with proofs of other names or zones), no name in a signed zone is taken as unsigned, and names in unsigned zones keep being answered when the lookups are right.",
     ["inputs", "histories", "fault_sequences"], "all worlds of up to six zones, and sequences of up to four queries with forged answers and changed DS lookups",
     "Tests strip the signatures of a few responses.",
     F, [("proof", "dnssec/denial.go: verifyDSDenial"), ("walk", "dnssec/validator.go: checkInsecureDelegation, proveNoDS")], pkg="sec", technique=DT)

# ---- scripts and logs ----
prop("O03", "Scripts read and make DNS messages faithfully",
     "A Lua script sees every field of the query, of responses from resolvers and of the client as they are: header, questions, records of all types with all their fields, EDNS version, size, flags, extended code and options. A message or record it makes, or whose fields it changes, is just what it set, in the order it was set, and reaches the next resolver or the client unchanged. Constants and types have the values DNS gives them, also while the script is loaded.",
     ["inputs"], "all scripts that build responses from generated records, that read all fields of generated messages, and that change queries and responses around a resolver",
     "Tests run a dozen scripts on a few record types.",
     ["lua-message.go", "lua-rr.go", "lua-edns0.go", "lua-opt.go", "lua-question.go", "lua-clientinfo.go", "lua-types.go"], [("records", "lua-rr.go: rrFieldsForType, get, set"), ("messages", "lua-message.go, lua-opt.go, lua-edns0.go"), ("scripts", "lua.go: newScript")], pkg="script",
     technique="property-based testing of generated scripts and messages, against a reference model")
prop("O04", "Every outcome of a script gives the right result, within its sandbox",
     "A script that returns a response gets it sent, one that returns nothing drops the query, and one that fails, in any way and at any point, or returns something else gives an error (SERVFAIL to the client), without harm to other queries: up to the configured number of scripts run at once, each with a state of its own, and none is ever lost or used by two queries. Scripts with errors, without the entry function or asking for unknown resolvers are rejected. Unless turned off, the sandbox leaves no way to files, processes, the environment or the loading of code.",
     ["inputs", "histories", "schedules", "configurations"], "all histories of queries with generated outcomes, errors, panics, recursion and concurrency; all scripts with generated mistakes; all ways from the globals to functions",
     "Tests run scripts one at a time, and probe a few functions.",
     ["lua.go", "lua-script.go"], [("outcomes", "lua.go: Resolve; lua-script.go: Call"), ("sandbox", "lua-script.go: openSandboxedLibs")], pkg="script",
     technique="stateful property-based testing of generated scripts and schedules under a fake clock, against a reference model", race=True)
prop("O05", "Query logs record each query once and change none",
     "The query log and the syslog element pass each query on, unchanged, exactly once and return its response and error as they are, whether or not the log can be written. The query log appends, for each query, one complete line or JSON object with the time, client address, name, class and type (also of several queries at once, and after a restart). The syslog element sends, as configured, one message per query and, for each response, one per answer record of the queried type (of all types in verbose mode) or else one with the response code or NODATA, with the configured priority, tag and network, naming client, name and type.",
     ["inputs", "histories", "schedules", "configurations", "fault_sequences"], "all sequences of queries with generated names, types, responses and errors, with files and log servers that work or fail",
     "Tests log one query.",
     ["query-log.go", "syslog.go"], [("query log", "query-log.go: NewQueryLogResolver, Resolve"), ("syslog", "syslog.go: Resolve")], pkg="script",
     technique="property-based testing of generated queries and log servers, against a reference model")

# ---- the program ----
prop("O01", "The program does what its configuration files say",
     "For every valid configuration, in one or several files, the program behaves as the elements it names connected the way it says: every documented option of listeners, resolvers, groups, routers and the bootstrap resolver takes effect in the element it is set in, only there, and with its documented default when it is not set. That includes lists loaded again at their interval, caches stored at the end and loaded at the start, listeners whose address is in use at first, timeouts, and sockets from an fd-server. It ends with success at SIGINT, SIGTERM and SIGHUP.",
     ["inputs", "histories", "configurations"], "all generated configurations of up to ten elements of all types with generated options, started as the program, with clients and servers of all protocols, restarts, changed lists and occupied ports",
     "No test starts the program or builds elements from a configuration.",
     ["cmd/routedns/main.go", "cmd/routedns/config.go", "cmd/routedns/resolver.go"],
     [("elements", "cmd/routedns/main.go: start, instantiateGroup, instantiateRouter"), ("resolvers", "cmd/routedns/resolver.go: instantiateResolver"), ("files", "cmd/routedns/config.go: loadConfig")],
     pkg="conf", binary=True, technique="differential property-based testing of the program against the same elements connected through the library by an independent reading of the documentation",
     budget_s={"quick": 420, "thorough": 3000}, hang_s=240)
prop("O02", "Configurations with mistakes are refused at the start",
     "The program does not start, but ends with an error soon, when its configuration has a mistake anywhere: references to elements that do not exist, elements that use each other in a circle, names used twice, unknown types, protocols, formats or operations, too many or too few resolvers for a group, option values that can not be parsed or are out of range, a static list together with a source, missing or unusable files, scripts, certificates or keys, mutual TLS without a CA, combinations of options that exclude each other, or text that is not TOML. The same goes for missing or wrong arguments.",
     ["inputs", "configurations"], "all generated valid configurations with one generated mistake, before or after the rest, in one or several files",
     "No test starts the program with a mistake in its configuration.",
     ["cmd/routedns/main.go", "cmd/routedns/config.go", "cmd/routedns/resolver.go", "route.go", "tls.go", "dtls.go"],
     [("checks", "cmd/routedns/main.go: start, instantiateGroup, instantiateRouter, newBlocklistDB, newIPBlocklistDB"), ("options", "NewRoute, TLSServerConfig, TLSClientConfig, NewDoHClient, NewDNS64, list loaders")],
     pkg="conf", binary=True, technique="property-based testing of the program with generated mistakes in generated valid configurations")
