package redisReplicator

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/sirupsen/logrus"
	"github.com/spf13/viper"
)

// entry of the stream kept by the stand-in for a redis server.
type entry struct {
	id     string
	fields []string
}

// server is a stand-in for a redis server that knows just enough commands.
type server struct {
	mu      sync.Mutex
	l       net.Listener
	entries []entry
	ms, seq int64
	cmds    [][]string
	open    int                                   // connections
	reply   func(cmd []string) (string, bool)     // overrides a reply
	after   func(cmd []string) (closeIt bool)     // drops the connection
}

func startServer(t *testing.T) *server {
	t.Helper()
	logrus.SetOutput(io.Discard)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := &server{l: l, ms: 1700000000000}
	t.Cleanup(func() { l.Close() })
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.open++
			s.mu.Unlock()
			go s.serve(c)
		}
	}()
	return s
}

func (s *server) port() string { return strconv.Itoa(s.l.Addr().(*net.TCPAddr).Port) }

func bulk(x string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(x), x) }

func (s *server) serve(c net.Conn) {
	defer func() {
		c.Close()
		s.mu.Lock()
		s.open--
		s.mu.Unlock()
	}()
	r := bufio.NewReader(c)
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			return
		}
		n, _ := strconv.Atoi(strings.TrimSpace(line[1:]))
		var cmd []string
		for i := 0; i < n; i++ {
			line, err = r.ReadString('\n')
			if err != nil {
				return
			}
			k, _ := strconv.Atoi(strings.TrimSpace(line[1:]))
			b := make([]byte, k+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			cmd = append(cmd, string(b[:k]))
		}
		s.mu.Lock()
		s.cmds = append(s.cmds, cmd)
		out := s.handle(cmd)
		drop := s.after != nil && s.after(cmd)
		s.mu.Unlock()
		if drop {
			return
		}
		if _, err := io.WriteString(c, out); err != nil {
			return
		}
	}
}

func less(a, b string) bool {
	var am, as, bm, bs int64
	fmt.Sscanf(a, "%d-%d", &am, &as)
	fmt.Sscanf(b, "%d-%d", &bm, &bs)
	return am < bm || am == bm && as < bs
}

func (s *server) handle(cmd []string) string {
	if s.reply != nil {
		if out, ok := s.reply(cmd); ok {
			return out
		}
	}
	switch strings.ToUpper(cmd[0]) {
	case "PING":
		return "+PONG\r\n"
	case "AUTH":
		return "+OK\r\n"
	case "XADD":
		s.seq++
		id := fmt.Sprintf("%d-%d", s.ms, s.seq)
		if cmd[2] != "*" {
			id = cmd[2]
		}
		s.entries = append(s.entries, entry{id, cmd[3:]})
		return bulk(id)
	case "XTRIM":
		return ":0\r\n"
	case "XREAD":
		at := 0
		for i, x := range cmd {
			if strings.EqualFold(x, "STREAMS") {
				at = i
			}
		}
		pos := cmd[at+2]
		if !strings.Contains(pos, "-") {
			pos += "-0"
		}
		var es []entry
		for _, e := range s.entries {
			if less(pos, e.id) {
				es = append(es, e)
			}
		}
		if len(es) == 0 || cmd[at+2] == "$" {
			return "*-1\r\n"
		}
		out := "*1\r\n*2\r\n" + bulk(cmd[at+1]) + fmt.Sprintf("*%d\r\n", len(es))
		for _, e := range es {
			out += "*2\r\n" + bulk(e.id) + fmt.Sprintf("*%d\r\n", len(e.fields))
			for _, f := range e.fields {
				out += bulk(f)
			}
		}
		return out
	}
	return "-ERR unknown command\r\n"
}

// add puts an entry into the stream.
func (s *server) add(fields ...string) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.seq++
	id := fmt.Sprintf("%d-%d", s.ms, s.seq)
	s.entries = append(s.entries, entry{id, fields})
	return id
}

func (s *server) sent(name string) [][]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out [][]string
	for _, c := range s.cmds {
		if strings.EqualFold(c[0], name) {
			out = append(out, c)
		}
	}
	return out
}

func settings(read, write *server) *viper.Viper {
	cfg := viper.New()
	for k, v := range map[string]any{
		"OM_REDIS_READ_HOST": "127.0.0.1", "OM_REDIS_READ_PORT": read.port(), "OM_REDIS_READ_USER": "", "OM_REDIS_READ_PASSWORD": "",
		"OM_REDIS_WRITE_HOST": "127.0.0.1", "OM_REDIS_WRITE_PORT": write.port(), "OM_REDIS_WRITE_USER": "", "OM_REDIS_WRITE_PASSWORD": "",
		"OM_REDIS_POOL_MAX_IDLE": 5, "OM_REDIS_POOL_MAX_ACTIVE": 2, "OM_REDIS_POOL_IDLE_TIMEOUT": "10s",
		"OM_CACHE_TICKET_TTL_SECS": 600, "OM_CACHE_IN_MAX_UPDATES_PER_POLL": 500, "OM_CACHE_IN_WAIT_TIMEOUT_MS": 10,
	} {
		cfg.Set(k, v)
	}
	return cfg
}
