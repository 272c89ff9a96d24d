package web

import (
	"net"
	"os"
	"time"

	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/service"
	"github.com/rodb-io/rodb/pkg/zzkit"
	"github.com/rodb-io/rodb/pkg/zzrt"
)

// free tells whether an address can be listened to, soon.
func free(address string) bool {
	for i := 0; i < 20; i++ {
		l, err := net.Listen("tcp", address)
		if err == nil {
			l.Close()
			return true
		}
		pause()
	}
	return false
}

func pause() { time.Sleep(10 * time.Millisecond) }

// address returns one that is not in use.
func address() (string, net.Listener) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		zzrt.Fail("no address to listen to")
	}
	return l.Addr().String(), l
}

// HListeners: C29, the network addresses of services that start, or not, and are closed.
func HListeners() {
	confs := map[string]service.Config{}
	outs := map[string]output.Output{"o": &out{name: "o", parsers: parsers()}}
	zzrt.MapOrder(true)
	var mine []string
	var taken []net.Listener
	n := 1 + zzrt.Choice("services", zzrt.Param("services", 2))
	for i := 0; i < n; i++ {
		conf := &service.HttpConfig{Name: "s" + string(rune('0'+i)), Logger: zzkit.Logger(), Routes: []*service.HttpRouteConfig{{Path: "/", Output: "o"}}}
		if zzrt.Choice("no output", zzrt.Param("wrong", 2)) == 1 {
			conf.Routes[0].Output = "p"
		}
		kind := zzrt.Choice("protocols", 3) // http, https or both
		if kind != 1 {
			a, l := address()
			conf.Http = &service.HttpHttpConfig{Listen: a}
			if zzrt.Choice("http address taken", 2) == 1 {
				taken = append(taken, l)
			} else {
				mine = append(mine, a)
				l.Close()
			}
		}
		if kind != 0 {
			a, l := address()
			cert, key := zzrt.Path("cert"), zzrt.Path("key")
			os.WriteFile(cert, []byte("x"), 0o644)
			os.WriteFile(key, []byte("x"), 0o644)
			conf.Https = &service.HttpHttpsConfig{Listen: a, CertificatePath: cert, PrivateKeyPath: key}
			if zzrt.Choice("https address taken", 2) == 1 {
				taken = append(taken, l)
			} else {
				mine = append(mine, a)
				l.Close()
			}
		}
		confs[conf.Name] = conf
	}
	l, err := service.NewFromConfigs(confs, outs, zzkit.Logger().Logger)
	if err != nil {
		zzrt.Reach("refused")
	} else {
		zzrt.Reach("started")
		service.Close(l)
	}
	zzrt.MapOrder(false)
	for _, a := range mine {
		zzrt.Assert(free(a), "an address is still listened to after the services have been closed")
	}
	for _, l := range taken {
		l.Close()
	}
}
