// Package c24: the settings of a database connection are those of the source string.
package c24

import (
	"bytes"
	"sort"
	"strings"

	realtls "crypto/tls"

	realmysql "github.com/go-sql-driver/mysql"
	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vstub/mysql"
	"github.com/schemalex/schemalex/internal/vstub/sql"
	"github.com/schemalex/schemalex/internal/vstub/tls"
	"github.com/schemalex/schemalex/internal/vstub/vfs"
	"github.com/schemalex/schemalex/internal/vsym"
)

func reset() {
	vfs.Reset()
	sql.The = &sql.Database{}
	mysql.Registered = map[string]*tls.Config{}
	mysql.Refuse = false
	_ = realmysql.RegisterTLSConfig("my-own", &realtls.Config{})
}

// configurer is what the tests of the repository ask for the settings.
type configurer interface {
	MySQLConfig() (*mysql.Config, error)
}

// result is what comes of a source string.
type result struct {
	cfg  *mysql.Config
	err  error
	dsn  string // what is connected to
	err1 error
	name string      // of the TLS configuration that was registered for dsn
	tls  *tls.Config // the TLS configuration that was registered for dsn
}

// sameTLS tells whether a registered configuration is that of some files.
func sameTLS(c *tls.Config, ca, cert, key string) bool {
	return c != nil && c.RootCAs != nil && len(c.RootCAs.PEM) == 1 && c.RootCAs.PEM[0] == ca &&
		len(c.Certificates) == 1 && c.Certificates[0].Cert == cert && c.Certificates[0].Key == key && !c.InsecureSkipVerify
}

// without drops our own parameters.
func without(p map[string]string) map[string]string {
	m := map[string]string{}
	for k, v := range p {
		if k != "ssl-ca" && k != "ssl-cert" && k != "ssl-secret" {
			m[k] = v
		}
	}
	return m
}

func sameParams(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || v != w {
			return false
		}
	}
	return true
}

// same tells whether all settings but TLS are equal.
func same(a, b *mysql.Config) bool {
	return a.User == b.User && a.Passwd == b.Passwd && a.Net == b.Net && a.Addr == b.Addr && a.DBName == b.DBName &&
		a.Collation == b.Collation && a.Loc == b.Loc && a.MaxAllowedPacket == b.MaxAllowedPacket && a.ServerPubKey == b.ServerPubKey &&
		a.Timeout == b.Timeout && a.ReadTimeout == b.ReadTimeout && a.WriteTimeout == b.WriteTimeout &&
		a.AllowAllFiles == b.AllowAllFiles && a.AllowCleartextPasswords == b.AllowCleartextPasswords &&
		a.AllowNativePasswords == b.AllowNativePasswords && a.AllowOldPasswords == b.AllowOldPasswords &&
		a.CheckConnLiveness == b.CheckConnLiveness && a.ClientFoundRows == b.ClientFoundRows && a.ColumnsWithAlias == b.ColumnsWithAlias &&
		a.InterpolateParams == b.InterpolateParams && a.MultiStatements == b.MultiStatements && a.ParseTime == b.ParseTime && a.RejectReadOnly == b.RejectReadOnly
}

func registered() []string {
	var names []string
	for n := range mysql.Registered {
		names = append(names, n)
	}
	sort.Strings(names)
	return names
}

// connect makes a source of a string and connects to it.
func connect(dsn string) (r result) {
	src := schemalex.NewMySQLSource(dsn)
	r.cfg, r.err = src.(configurer).MySQLConfig()
	before := map[string]bool{}
	for _, n := range registered() {
		before[n] = true
	}
	d := &sql.Database{}
	sql.The = d
	var b bytes.Buffer
	r.err1 = src.WriteSchema(&b)
	r.dsn = d.DSN
	if r.err1 != nil {
		vsym.Assert(d.Opened == 0, "there is an error, but a connection is made to "+d.DSN)
	}
	for _, n := range registered() {
		if !before[n] {
			vsym.Assert(r.name == "", "several TLS configurations are registered")
			r.name, r.tls = n, mysql.Registered[n]
		}
	}
	return r
}

// plain asserts that the settings are those of the string, without any TLS configuration of ours.
func plain(dsn string, r result) {
	want, err := realmysql.ParseDSN(dsn)
	if err != nil {
		vsym.Assert(r.err != nil && r.err1 != nil, "a broken connection string is used: "+dsn)
		vsym.Reach("broken connection string")
		return
	}
	vsym.Assert(r.err == nil && r.cfg != nil, "a good connection string is refused: "+dsn)
	vsym.Assert(r.err1 == nil, "a good connection string is not used: "+dsn)
	want.Params = without(want.Params)
	vsym.Assert(same(r.cfg, want), "the settings are not those of the string "+dsn+" but of "+r.cfg.FormatDSN())
	vsym.Assert(sameParams(r.cfg.Params, want.Params), "the parameters are not those of the string "+dsn+" but of "+r.cfg.FormatDSN())
	vsym.Assert(r.cfg.TLSConfig == want.TLSConfig, "the TLS setting is not the one of the string: "+r.cfg.TLSConfig)
	vsym.Assert(len(mysql.Registered) == 0, "a TLS configuration is registered, but none was asked for: "+dsn)
	vsym.Assert(r.dsn == want.FormatDSN(), "the connection made is not that of the string "+dsn+" but "+r.dsn)
	vsym.Reach("plain connection")
}

// secured asserts that the connection uses the TLS configuration of the three files.
func secured(dsn string, r result, ca, cert, key string) {
	want, err := realmysql.ParseDSN(dsn)
	vsym.Assert(err == nil, "harness: not a connection string")
	vsym.Assert(r.err == nil && r.cfg != nil, "a good connection string with TLS is refused: "+dsn)
	vsym.Assert(r.err1 == nil, "a good connection string with TLS is not used: "+dsn)
	want.Params = without(want.Params)
	vsym.Assert(same(r.cfg, want), "the settings are not those of the string "+dsn+" but of "+r.cfg.FormatDSN())
	vsym.Assert(sameParams(r.cfg.Params, want.Params), "the parameters are not those of the string "+dsn+" but of "+r.cfg.FormatDSN())
	c := mysql.Registered[r.cfg.TLSConfig]
	vsym.Assert(sameTLS(c, ca, cert, key), "the TLS configuration is not the one of the files")
	vsym.Assert(r.name != "" && sameTLS(r.tls, ca, cert, key), "the TLS configuration of the connection is not the one of the files")
	vsym.Assert(r.name != r.cfg.TLSConfig, "two TLS configurations share a name")
	want.TLSConfig = r.name
	vsym.Assert(r.dsn == want.FormatDSN(), "the connection made is not that of the string "+dsn+" but "+r.dsn)
	vsym.Reach("secured connection")
}

// H1Strings: connection strings with arbitrary bytes in any part, without TLS.
func H1Strings() {
	reset()
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	x := vsym.Str("x", vsym.Pick("len", n+1))
	for i := 0; i < len(x); i++ {
		vsym.Assume(x[i] != '&' && x[i] != '=' && x[i] != '?')
	}
	dsn := strings.Replace(hlib.PickStr("around",
		"§", "u§:p@tcp(h:3306)/d", "u:p§@tcp(h:3306)/d", "u:p@t§(h:3306)/d", "u:p@tcp(h§:3306)/d", "u:p@tcp(h:3306)/d§", "u:p@tcp(h:3306)/d?x=§&y=1",
		"u:p@/d?parseTime=§", "u@unix(/§)/", "u:p@tcp(h:3306)/d?ssl-ca=§", "u:p@tcp(h:3306)/d?x§=1&ssl-cert=x", "u:p@h/d?collation=§"), "§", x, 1)
	w, err := realmysql.ParseDSN(dsn)
	// the driver does not write these down
	vsym.Assume(err != nil || w.User != "" || w.Passwd == "")
	plain(dsn, connect(dsn))
}

// param adds a parameter, or not.
func param(dsn, p string) string {
	if vsym.Pick(p, 2) == 0 {
		return dsn
	}
	if strings.Contains(dsn, "?") {
		return dsn + "&" + p
	}
	return dsn + "?" + p
}

// H2Plain: TLS absent, off or not ours, with any of our own and of other parameters.
func H2Plain() {
	reset()
	vfs.Add("/ca", "A-ca")
	vfs.Add("/cert", "C-cert")
	vfs.Add("/key", "K-key")
	dsn := "u:p@tcp(h:3306)/d"
	dsn = param(dsn, "charset=utf8mb4%2Cutf8")
	dsn = param(dsn, "ssl-ca=%2Fca")
	dsn = param(dsn, "ssl-secret=%2Fkey")
	dsn = param(dsn, "ssl-cert=")
	if t := hlib.PickStr("tls", "", "tls=false", "tls=0", "tls=FALSE", "tls=False", "tls=skip-verify", "tls=SKIP-verify", "tls=preferred", "tls=my-own", "tls=my%2Down", "tls=unknown", "tls=yes", "tls=%zz", "tls="); t != "" {
		if strings.Contains(dsn, "?") {
			dsn += "&" + t
		} else {
			dsn += "?" + t
		}
	}
	dsn = param(dsn, "ssl-cert=%2Fcert")
	dsn = param(dsn, "sql_mode=%27ANSI%27")
	plain(dsn, connect(dsn))
}

// H3Settings: every setting of the driver, with and without TLS.
func H3Settings() {
	reset()
	vfs.Add("/ca", "A-ca")
	vfs.Add("/cert", "C-cert")
	vfs.Add("/key", "K-key")
	base := hlib.PickStr("base", "u:p@tcp(h:3306)/d", "u:p:q@tcp([::1]:3307)/d", "u@unix(/tmp/m.sock)/", "/", "u:p@w@tcp(h)/d", "@tcp(h:1)/a%2fb", "u:/@tcp/x")
	p := hlib.PickStr("setting", "", "allowAllFiles=1", "allowCleartextPasswords=true", "allowNativePasswords=0", "allowOldPasswords=TRUE", "checkConnLiveness=false",
		"clientFoundRows=true", "collation=utf8_bin", "columnsWithAlias=true", "compress=1", "interpolateParams=true", "loc=UTC", "multiStatements=true",
		"parseTime=true", "readTimeout=3s", "rejectReadOnly=1", "serverPubKey=x", "timeout=1m30s", "writeTimeout=5ms", "maxAllowedPacket=1024", "maxAllowedPacket=x",
		"timeout=x", "parseTime=2", "wait_timeout=5&sql_mode=%27%27", "a=%26%3D%3F&b=%2F", "a=%zz", "a=1&a=2", "ssl=1&ssl-key=key&ssl_ca=ca", "foo")
	dsn := base + "?" + p
	with := vsym.Pick("tls", 3)
	if with > 0 {
		t := "tls=" + hlib.PickStr("true", "true", "1", "TRUE", "True") + "&ssl-ca=%2Fca&ssl-cert=%2fcert&ssl-secret=%2Fkey"
		if with == 1 {
			dsn += "&" + t
		} else {
			dsn = base + "?" + t + "&" + p
		}
	}
	_, err := realmysql.ParseDSN(dsn)
	r := connect(dsn)
	if with == 0 || err != nil {
		plain(dsn, r)
		return
	}
	secured(dsn, r, "A-ca", "C-cert", "K-key")
}

// H4TLS: TLS with files of any few bytes, given or not, that can be read or not, and a registration that is refused or not.
func H4TLS() {
	reset()
	dsn := "u:p@tcp(h:3306)/d?tls=" + hlib.PickStr("true", "true", "1")
	good := true
	var text [3]string
	names := [3]string{"ca.pem", "cert.pem", "key.pem"}
	order := [][3]int{{0, 1, 2}, {2, 0, 1}}[vsym.Pick("order", 2)]
	for _, i := range order {
		what := vsym.Pick("file is", 7)
		p := "&ssl-" + []string{"ca", "cert", "secret"}[i] + "="
		switch what {
		case 0, 1, 2, 3: // given and there, with any first byte
			text[i] = string([]byte{vsym.Byte("first")}) + "-text"
			f := vfs.Add(names[i], text[i])
			f.NoOpen, f.Breaks = what == 1, what == 2
			if what == 3 {
				f.Data = nil
			}
			if what != 0 || text[i][0] != "ACK"[i] && text[i][0] != 'B' {
				good = false
			}
			dsn += p + names[i]
		case 4: // missing
			good = false
			dsn += p + names[i]
		case 5:
			good = false
			dsn += p
		case 6:
			good = false
		}
	}
	mysql.Refuse = vsym.Pick("refuse", 2) == 1
	r := connect(dsn)
	if !good || mysql.Refuse {
		vsym.Assert(r.err != nil, "TLS was asked for, but its files or configuration are unusable, and there is no error: "+dsn)
		vsym.Assert(r.err1 != nil, "TLS was asked for, but its files or configuration are unusable, and a connection is made: "+dsn)
		vsym.Reach("refused")
		return
	}
	secured(dsn, r, text[0], text[1], text[2])
}

// H5Names: file names of arbitrary bytes.
func H5Names() {
	reset()
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	x := vsym.Str("x", vsym.Pick("len", n+1))
	which := vsym.Pick("which", 3)
	names := [3]string{"/ca", "/cert", "/key"}
	names[which] = "/d i/" + x
	vsym.Assume(len(x) != 0)
	const hex = "0123456789ABCDEF"
	enc := func(s string) string {
		var b []byte
		for i := 0; i < len(s); i++ {
			b = append(b, '%', hex[s[i]>>4], hex[s[i]&15])
		}
		return string(b)
	}
	vfs.Add(names[0], "A")
	vfs.Add(names[1], "C")
	vfs.Add(names[2], "K")
	dsn := "u:p@tcp(h:3306)/d?ssl-ca=" + enc(names[0]) + "&ssl-cert=" + enc(names[1]) + "&tls=true&ssl-secret=" + enc(names[2])
	secured(dsn, connect(dsn), "A", "C", "K")
}

// H6Two: the configurations of several sources do not get in each other's way.
func H6Two() {
	reset()
	type set struct{ ca, cert, key string }
	sets := [2]set{{"A1", "C1", "K1"}, {"A2", "C2", "K2"}}
	vfs.Add("/1a", "A1")
	vfs.Add("/1c", "C1")
	vfs.Add("/1k", "K1")
	vfs.Add("/2a", "A2")
	vfs.Add("/2c", "C2")
	vfs.Add("/2k", "K2")
	used := map[string]set{}
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		k := vsym.Pick("which", 2)
		d := []string{"1", "2"}[k]
		dsn := "u:p@tcp(h" + d + ":3306)/d?tls=true&ssl-ca=%2F" + d + "a&ssl-cert=%2F" + d + "c&ssl-secret=%2F" + d + "k"
		r := connect(dsn)
		secured(dsn, r, sets[k].ca, sets[k].cert, sets[k].key)
		for _, name := range []string{r.name, r.cfg.TLSConfig} {
			_, dup := used[name]
			vsym.Assert(!dup, "a name of a TLS configuration is used again")
			used[name] = sets[k]
		}
	}
	for name, s := range used {
		vsym.Assert(sameTLS(mysql.Registered[name], s.ca, s.cert, s.key), "a TLS configuration was overwritten")
	}
}
