package rdns

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/folbricht/routedns/zzvf"
	"github.com/redis/go-redis/v9"
)

// vfRedis is a key-value server. The encoded functions call it in place of the
// client library, the native run talks to it through a connection.
type vfRedis struct {
	mu   sync.Mutex
	keys []string
	vals [][]byte
	ttls []time.Duration
	down bool
}

func (s *vfRedis) set(key string, val []byte, ttl time.Duration) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i, k := range s.keys {
		if k == key {
			s.vals[i], s.ttls[i] = val, ttl
			return
		}
	}
	s.keys, s.vals, s.ttls = append(s.keys, key), append(s.vals, val), append(s.ttls, ttl)
}

func (s *vfRedis) get(key string) ([]byte, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i, k := range s.keys {
		if k == key {
			return s.vals[i], true
		}
	}
	return nil, false
}

func (s *vfRedis) size() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.keys)
}

// options are client options to reach the server.
func (s *vfRedis) options() redis.Options {
	const cmd = "(github.com/redis/go-redis/v9.cmdable)."
	zzvf.Stub("github.com/redis/go-redis/v9.NewClient", func(*redis.Options) *redis.Client { return new(redis.Client) })
	zzvf.Stub(cmd+"Set", func(_ any, ctx context.Context, key string, val any, ttl time.Duration) *redis.StatusCmd {
		if s.down {
			return redis.NewStatusResult("", errVF)
		}
		s.set(key, append([]byte(nil), val.([]byte)...), ttl)
		return redis.NewStatusResult("OK", nil)
	})
	zzvf.Stub(cmd+"Get", func(_ any, ctx context.Context, key string) *redis.StringCmd {
		if s.down {
			return redis.NewStringResult("", errVF)
		}
		v, ok := s.get(key)
		if !ok {
			return redis.NewStringResult("", redis.Nil)
		}
		return redis.NewStringResult(string(v), nil)
	})
	zzvf.Stub("(*github.com/redis/go-redis/v9.StringCmd).Bytes", func(c *redis.StringCmd) ([]byte, error) {
		return []byte(c.Val()), c.Err()
	})
	return redis.Options{
		Addr:       "redis.test:6379",
		MaxRetries: -1,
		Dialer: func(context.Context, string, string) (net.Conn, error) {
			if s.down {
				return nil, errVF
			}
			c, srv := net.Pipe()
			go s.serve(srv)
			return c, nil
		},
	}
}

func (s *vfRedis) serve(c net.Conn) {
	defer c.Close()
	r := bufio.NewReader(c)
	line := func() (string, error) {
		l, err := r.ReadString('\n')
		return strings.TrimRight(l, "\r\n"), err
	}
	read := func() ([]string, error) {
		l, err := line()
		if err != nil || !strings.HasPrefix(l, "*") {
			return nil, errors.New("bad request")
		}
		n, err := strconv.Atoi(l[1:])
		if err != nil {
			return nil, err
		}
		var args []string
		for ; n > 0; n-- {
			if l, err = line(); err != nil {
				return nil, err
			}
			k, err := strconv.Atoi(l[1:])
			if err != nil {
				return nil, err
			}
			b := make([]byte, k+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return nil, err
			}
			args = append(args, string(b[:k]))
		}
		return args, nil
	}
	for {
		args, err := read()
		if err != nil || s.down {
			return
		}
		reply := "-ERR unknown command\r\n"
		switch strings.ToLower(args[0]) {
		case "set":
			ttl := time.Duration(0)
			if len(args) == 5 {
				n, _ := strconv.Atoi(args[4])
				ttl = time.Duration(n) * time.Second
				if strings.EqualFold(args[3], "px") {
					ttl = time.Duration(n) * time.Millisecond
				}
			}
			s.set(args[1], []byte(args[2]), ttl)
			reply = "+OK\r\n"
		case "get":
			reply = "$-1\r\n"
			if v, ok := s.get(args[1]); ok {
				reply = fmt.Sprintf("$%d\r\n%s\r\n", len(v), v)
			}
		}
		if _, err := io.WriteString(c, reply); err != nil {
			return
		}
	}
}
