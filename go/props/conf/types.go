package conf

// Config is what configuration files say, with the names of the documentation.
// In strings, {IP} and {DIR} are the address and directory of the one who uses
// it, {L0} ... its ports, {UP}, {PORT0} ... the address and ports of upstream
// servers, {LISTS} a directory and {WEB} a web server with lists.
type Config struct {
	Bootstrap *Resolver           `json:"bootstrap,omitempty"`
	Resolvers map[string]Resolver `json:"resolvers,omitempty"`
	Groups    map[string]Group    `json:"groups,omitempty"`
	Routers   map[string]Router   `json:"routers,omitempty"`
	Listeners map[string]Listener `json:"listeners,omitempty"`
}

// Listener is a listener.
type Listener struct {
	Address    string    `toml:"address,omitempty" json:"address,omitempty"`
	Protocol   string    `toml:"protocol,omitempty" json:"protocol,omitempty"`
	Transport  string    `toml:"transport,omitempty" json:"transport,omitempty"`
	IPVersion  int       `toml:"ip-version,omitzero" json:"ip-version,omitempty"`
	Resolver   string    `toml:"resolver,omitempty" json:"resolver,omitempty"`
	CA         string    `toml:"ca,omitempty" json:"ca,omitempty"`
	ServerKey  string    `toml:"server-key,omitempty" json:"server-key,omitempty"`
	ServerCrt  string    `toml:"server-crt,omitempty" json:"server-crt,omitempty"`
	MutualTLS  bool      `toml:"mutual-tls,omitempty" json:"mutual-tls,omitempty"`
	NoTLS      bool      `toml:"no-tls,omitempty" json:"no-tls,omitempty"`
	AllowedNet []string  `toml:"allowed-net,omitempty" json:"allowed-net,omitempty"`
	KeySeed    string    `toml:"key-seed,omitempty" json:"key-seed,omitempty"`
	OdohMode   string    `toml:"odoh-mode,omitempty" json:"odoh-mode,omitempty"`
	AllowDoH   bool      `toml:"allow-doh,omitempty" json:"allow-doh,omitempty"`
	NetNS      string    `toml:"netns,omitempty" json:"netns,omitempty"`
	XSocket    string    `toml:"xsocket,omitempty" json:"xsocket,omitempty"`
	BindIf     string    `toml:"bind-if,omitempty" json:"bind-if,omitempty"`
	Frontend   *Frontend `toml:"frontend,omitempty" json:"frontend,omitempty"`
}

// Frontend is what is in front of a DoH listener.
type Frontend struct {
	TrustedProxy string `toml:"trusted-proxy,omitempty" json:"trusted-proxy,omitempty"`
}

// Resolver is an upstream resolver.
type Resolver struct {
	Address       string  `toml:"address,omitempty" json:"address,omitempty"`
	Protocol      string  `toml:"protocol,omitempty" json:"protocol,omitempty"`
	Transport     string  `toml:"transport,omitempty" json:"transport,omitempty"`
	DoH           *DoH    `toml:"doh,omitempty" json:"doh,omitempty"`
	CA            string  `toml:"ca,omitempty" json:"ca,omitempty"`
	ClientKey     string  `toml:"client-key,omitempty" json:"client-key,omitempty"`
	ClientCrt     string  `toml:"client-crt,omitempty" json:"client-crt,omitempty"`
	ServerName    string  `toml:"server-name,omitempty" json:"server-name,omitempty"`
	BootstrapAddr string  `toml:"bootstrap-address,omitempty" json:"bootstrap-address,omitempty"`
	LocalAddr     string  `toml:"local-address,omitempty" json:"local-address,omitempty"`
	LocalAddrV4   string  `toml:"local-address-v4,omitempty" json:"local-address-v4,omitempty"`
	LocalAddrV6   string  `toml:"local-address-v6,omitempty" json:"local-address-v6,omitempty"`
	UDPSize       uint16  `toml:"edns0-udp-size,omitzero" json:"edns0-udp-size,omitempty"`
	QueryTimeout  int     `toml:"query-timeout,omitzero" json:"query-timeout,omitempty"`
	NetNS         string  `toml:"netns,omitempty" json:"netns,omitempty"`
	XSocket       string  `toml:"xsocket,omitempty" json:"xsocket,omitempty"`
	BindIf        string  `toml:"bind-if,omitempty" json:"bind-if,omitempty"`
	Socks5        string  `toml:"socks5-address,omitempty" json:"socks5-address,omitempty"`
	Socks5User    string  `toml:"socks5-username,omitempty" json:"socks5-username,omitempty"`
	Socks5Pass    string  `toml:"socks5-password,omitempty" json:"socks5-password,omitempty"`
	Socks5Local   bool    `toml:"socks5-resolve-local,omitempty" json:"socks5-resolve-local,omitempty"`
	Use0RTT       bool    `toml:"enable-0rtt,omitempty" json:"enable-0rtt,omitempty"`
	Target        string  `toml:"target,omitempty" json:"target,omitempty"`
	TargetConfig  string  `toml:"target-config,omitempty" json:"target-config,omitempty"`
	To            *Server `toml:"-" json:"to,omitempty"` // the server at the address
}

// DoH are options for DNS over HTTPS.
type DoH struct {
	Method      string `toml:"method,omitempty" json:"method,omitempty"`
	IdleTimeout int    `toml:"idle-timeout,omitzero" json:"idle-timeout,omitempty"`
}

// Backend is where a cache keeps its entries.
type Backend struct {
	Type         string `toml:"type,omitempty" json:"type,omitempty"`
	Size         int    `toml:"size,omitzero" json:"size,omitempty"`
	GCPeriod     int    `toml:"gc-period,omitzero" json:"gc-period,omitempty"`
	Filename     string `toml:"filename,omitempty" json:"filename,omitempty"`
	SaveInterval int    `toml:"save-interval,omitzero" json:"save-interval,omitempty"`
	Network      string `toml:"redis-network,omitempty" json:"redis-network,omitempty"`
	Address      string `toml:"redis-address,omitempty" json:"redis-address,omitempty"`
	Username     string `toml:"redis-username,omitempty" json:"redis-username,omitempty"`
	Password     string `toml:"redis-password,omitempty" json:"redis-password,omitempty"`
	DB           int    `toml:"redis-db,omitzero" json:"redis-db,omitempty"`
	Prefix       string `toml:"redis-key-prefix,omitempty" json:"redis-key-prefix,omitempty"`
	SyncSet      bool   `toml:"redis-sync-set,omitempty" json:"redis-sync-set,omitempty"`
}

// Replace is a replacement in names.
type Replace struct {
	From string `toml:"from" json:"from"`
	To   string `toml:"to" json:"to"`
}

// List is a list from elsewhere.
type List struct {
	Name         string `toml:"name,omitempty" json:"name,omitempty"`
	Format       string `toml:"format,omitempty" json:"format,omitempty"`
	Source       string `toml:"source,omitempty" json:"source,omitempty"`
	CacheDir     string `toml:"cache-dir,omitempty" json:"cache-dir,omitempty"`
	AllowFailure bool   `toml:"allow-failure,omitempty" json:"allow-failure,omitempty"`
}

// EDE is an extended error.
type EDE struct {
	Code uint16 `toml:"code,omitzero" json:"code,omitempty"`
	Text string `toml:"text,omitempty" json:"text,omitempty"`
}

// Anchor is a trust anchor.
type Anchor struct {
	Owner      string `toml:"owner" json:"owner"`
	KeyTag     uint16 `toml:"key-tag" json:"key-tag"`
	Algorithm  uint8  `toml:"algorithm" json:"algorithm"`
	DigestType uint8  `toml:"digest-type" json:"digest-type"`
	Digest     string `toml:"digest" json:"digest"`
}

// Group is a group.
type Group struct {
	Type      string   `toml:"type,omitempty" json:"type,omitempty"`
	Resolvers []string `toml:"resolvers,omitempty" json:"resolvers,omitempty"`

	ResetAfter     *int `toml:"reset-after,omitzero" json:"reset-after,omitempty"`
	ServfailError  bool `toml:"servfail-error,omitempty" json:"servfail-error,omitempty"`
	EmptyError     bool `toml:"empty-error,omitempty" json:"empty-error,omitempty"`
	FailurePenalty int  `toml:"failure-penalty,omitzero" json:"failure-penalty,omitempty"`

	Replace    []Replace `toml:"replace,omitempty" json:"replace,omitempty"`
	ECSOp      string    `toml:"ecs-op,omitempty" json:"ecs-op,omitempty"`
	ECSAddress string    `toml:"ecs-address,omitempty" json:"ecs-address,omitempty"`
	ECSPrefix4 int       `toml:"ecs-prefix4,omitzero" json:"ecs-prefix4,omitempty"`
	ECSPrefix6 int       `toml:"ecs-prefix6,omitzero" json:"ecs-prefix6,omitempty"`
	TTLMin     int       `toml:"ttl-min,omitzero" json:"ttl-min,omitempty"`
	TTLMax     int       `toml:"ttl-max,omitzero" json:"ttl-max,omitempty"`
	TTLSelect  string    `toml:"ttl-select,omitempty" json:"ttl-select,omitempty"`
	EDNS0Op    string    `toml:"edns0-op,omitempty" json:"edns0-op,omitempty"`
	EDNS0Code  int       `toml:"edns0-code,omitzero" json:"edns0-code,omitempty"`
	EDNS0Data  []int     `toml:"edns0-data,omitzero" json:"edns0-data,omitempty"`

	Backend         *Backend       `toml:"backend,omitempty" json:"backend,omitempty"`
	GCPeriod        int            `toml:"gc-period,omitzero" json:"gc-period,omitempty"`
	CacheSize       int            `toml:"cache-size,omitzero" json:"cache-size,omitempty"`
	NegativeTTL     int            `toml:"cache-negative-ttl,omitzero" json:"cache-negative-ttl,omitempty"`
	AnswerShuffle   string         `toml:"cache-answer-shuffle,omitempty" json:"cache-answer-shuffle,omitempty"`
	Harden          bool           `toml:"cache-harden-below-nxdomain,omitempty" json:"cache-harden-below-nxdomain,omitempty"`
	FlushQuery      string         `toml:"cache-flush-query,omitempty" json:"cache-flush-query,omitempty"`
	PrefetchTrigger int            `toml:"cache-prefetch-trigger,omitzero" json:"cache-prefetch-trigger,omitempty"`
	PrefetchElig    int            `toml:"cache-prefetch-eligible,omitzero" json:"cache-prefetch-eligible,omitempty"`
	RcodeMaxTTL     map[string]int `toml:"cache-rcode-max-ttl,omitzero" json:"cache-rcode-max-ttl,omitempty"`

	Blocklist         []string `toml:"blocklist,omitempty" json:"blocklist,omitempty"`
	Format            string   `toml:"format,omitempty" json:"format,omitempty"`
	Source            string   `toml:"source,omitempty" json:"source,omitempty"`
	Refresh           int      `toml:"refresh,omitzero" json:"refresh,omitempty"`
	Filter            bool     `toml:"filter,omitempty" json:"filter,omitempty"`
	BlocklistResolver string   `toml:"blocklist-resolver,omitempty" json:"blocklist-resolver,omitempty"`
	AllowlistResolver string   `toml:"allowlist-resolver,omitempty" json:"allowlist-resolver,omitempty"`
	BlocklistFormat   string   `toml:"blocklist-format,omitempty" json:"blocklist-format,omitempty"`
	BlocklistSource   []List   `toml:"blocklist-source,omitempty" json:"blocklist-source,omitempty"`
	BlocklistRefresh  int      `toml:"blocklist-refresh,omitzero" json:"blocklist-refresh,omitempty"`
	Allowlist         []string `toml:"allowlist,omitempty" json:"allowlist,omitempty"`
	AllowlistFormat   string   `toml:"allowlist-format,omitempty" json:"allowlist-format,omitempty"`
	AllowlistSource   []List   `toml:"allowlist-source,omitempty" json:"allowlist-source,omitempty"`
	AllowlistRefresh  int      `toml:"allowlist-refresh,omitzero" json:"allowlist-refresh,omitempty"`
	LocationDB        string   `toml:"location-db,omitempty" json:"location-db,omitempty"`
	Inverted          bool     `toml:"inverted,omitempty" json:"inverted,omitempty"`
	UseECS            bool     `toml:"use-ecs,omitempty" json:"use-ecs,omitempty"`

	Answer   []string `toml:"answer,omitempty" json:"answer,omitempty"`
	NS       []string `toml:"ns,omitempty" json:"ns,omitempty"`
	Extra    []string `toml:"extra,omitempty" json:"extra,omitempty"`
	RCode    int      `toml:"rcode,omitzero" json:"rcode,omitempty"`
	EDE      *EDE     `toml:"edns0-ede,omitempty" json:"edns0-ede,omitempty"`
	Truncate bool     `toml:"truncate,omitempty" json:"truncate,omitempty"`

	Requests      int    `toml:"requests,omitzero" json:"requests,omitempty"`
	Window        int    `toml:"window,omitzero" json:"window,omitempty"`
	Prefix4       int    `toml:"prefix4,omitzero" json:"prefix4,omitempty"`
	Prefix6       int    `toml:"prefix6,omitzero" json:"prefix6,omitempty"`
	LimitResolver string `toml:"limit-resolver,omitempty" json:"limit-resolver,omitempty"`

	Port          int    `toml:"port,omitzero" json:"port,omitempty"`
	WaitAll       bool   `toml:"wait-all,omitempty" json:"wait-all,omitempty"`
	SuccessTTLMin int    `toml:"success-ttl-min,omitzero" json:"success-ttl-min,omitempty"`
	NullRCode     int    `toml:"null-rcode,omitzero" json:"null-rcode,omitempty"`
	RetryResolver string `toml:"retry-resolver,omitempty" json:"retry-resolver,omitempty"`

	Network     string `toml:"network,omitempty" json:"network,omitempty"`
	Address     string `toml:"address,omitempty" json:"address,omitempty"`
	Priority    string `toml:"priority,omitempty" json:"priority,omitempty"`
	Tag         string `toml:"tag,omitempty" json:"tag,omitempty"`
	LogRequest  bool   `toml:"log-request,omitempty" json:"log-request,omitempty"`
	LogResponse bool   `toml:"log-response,omitempty" json:"log-response,omitempty"`
	Verbose     bool   `toml:"verbose,omitempty" json:"verbose,omitempty"`

	OutputFile   string `toml:"output-file,omitempty" json:"output-file,omitempty"`
	OutputFormat string `toml:"output-format,omitempty" json:"output-format,omitempty"`

	PrefetchWindow    string `toml:"prefetch-window,omitempty" json:"prefetch-window,omitempty"`
	PrefetchThreshold int    `toml:"prefetch-threshold,omitzero" json:"prefetch-threshold,omitempty"`
	PrefetchCacheSize int    `toml:"prefetch-cache-size,omitzero" json:"prefetch-cache-size,omitempty"`
	PrefetchMaxItems  int    `toml:"prefetch-max-items,omitzero" json:"prefetch-max-items,omitempty"`

	LuaScript      string `toml:"lua-script,omitempty" json:"lua-script,omitempty"`
	LuaSource      string `toml:"lua-script-source,omitempty" json:"lua-script-source,omitempty"`
	LuaConcurrency int    `toml:"lua-concurrency,omitzero" json:"lua-concurrency,omitempty"`
	LuaNoSandbox   bool   `toml:"lua-no-sandbox,omitempty" json:"lua-no-sandbox,omitempty"`

	Anchors   []Anchor `toml:"dnssec-trust-anchors,omitempty" json:"dnssec-trust-anchors,omitempty"`
	AnchorURL string   `toml:"dnssec-trust-anchor-url,omitempty" json:"dnssec-trust-anchor-url,omitempty"`
	LogOnly   bool     `toml:"dnssec-log-only,omitempty" json:"dnssec-log-only,omitempty"`

	DNS64Prefix []string `toml:"dns64-prefix,omitempty" json:"dns64-prefix,omitempty"`
}

// Router is a router.
type Router struct {
	Routes []Route `toml:"routes,omitempty" json:"routes,omitempty"`
}

// Route is a route.
type Route struct {
	Type       string   `toml:"type,omitempty" json:"type,omitempty"`
	Types      []string `toml:"types,omitempty" json:"types,omitempty"`
	Class      string   `toml:"class,omitempty" json:"class,omitempty"`
	Name       string   `toml:"name,omitempty" json:"name,omitempty"`
	Source     string   `toml:"source,omitempty" json:"source,omitempty"`
	ECSSource  string   `toml:"ecs-source,omitempty" json:"ecs-source,omitempty"`
	Weekdays   []string `toml:"weekdays,omitempty" json:"weekdays,omitempty"`
	After      string   `toml:"after,omitempty" json:"after,omitempty"`
	Before     string   `toml:"before,omitempty" json:"before,omitempty"`
	Invert     bool     `toml:"invert,omitempty" json:"invert,omitempty"`
	DoHPath    string   `toml:"doh-path,omitempty" json:"doh-path,omitempty"`
	Listener   string   `toml:"listener,omitempty" json:"listener,omitempty"`
	ServerName string   `toml:"servername,omitempty" json:"servername,omitempty"`
	Resolver   string   `toml:"resolver,omitempty" json:"resolver,omitempty"`
}
