package websocket

import (
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	wss "golang.org/x/net/websocket"
)

func TestF_ErrRace(t *testing.T) { // -race
	s := httptest.NewServer(wss.Handler(func(c *wss.Conn) { c.Write([]byte("x")) }))
	defer s.Close()
	h, err := NewHandler(&Config{Url: "ws" + strings.TrimPrefix(s.URL, "http"), Origin: "http://x"})
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 100; i++ {
		h.Send([]byte("y"))
		time.Sleep(time.Millisecond)
	}
	h.Close()
}
