package main

import (
	"crypto/sha1"
	"crypto/sha256"
	"fmt"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/netx/connector/authentication"
	"github.com/renthraysk/xtorm/netx/connector/authentication/mysql41"
	"github.com/renthraysk/xtorm/netx/connector/authentication/plain"
	sha256auth "github.com/renthraysk/xtorm/netx/connector/authentication/sha256"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_session"
)

func init() { commands["auth"] = authMain }

type creds struct{ user, pw, db string }

func (c creds) UserName() string { return c.user }
func (c creds) Password() string { return c.pw }
func (c creds) Database() string { return c.db }

// One of each serves all connections, as it does in a connector.
var theMysql41, theSha256, thePlain authentication.Starter = mysql41.New(), sha256auth.New(), plain.New()

func mechanism(name string) authentication.Starter {
	switch name {
	case "MYSQL41":
		return theMysql41
	case "SHA256_MEMORY":
		return theSha256
	}
	return thePlain
}

// hashes is the table of hashes the specification may look up.
func hashes(mech string, pw, chal []byte) []obj {
	out := []obj{}
	add := func(alg string, in []byte) []byte {
		var sum []byte
		if alg == "sha1" {
			x := sha1.Sum(in)
			sum = x[:]
		} else {
			x := sha256.Sum256(in)
			sum = x[:]
		}
		out = append(out, obj{"alg": alg, "in": tokens(in), "out": plainInts(sum)})
		return sum
	}
	alg := "sha256"
	if mech == "MYSQL41" {
		alg = "sha1"
	}
	h1 := add(alg, pw)
	h2 := add(alg, h1)
	add(alg, append(append([]byte{}, chal...), h2...))
	add(alg, append(append([]byte{}, h2...), chal...))
	return out
}

func authContinue(chal []byte) []byte {
	p, err := proto.Marshal(&mysqlx_session.AuthenticateContinue{AuthData: chal})
	if err != nil {
		panic(err)
	}
	return frame(3, p)
}

func replayAuth(ev []obj) []obj {
	var log []obj
	for _, e := range ev {
		mech := e["mech"].(string)
		pw, chal := untokens(e["pw"]), untokens(e["chal"])
		cr := creds{user: string(untokens(e["user"])), pw: string(pw), db: string(untokens(e["db"]))}
		starter := mechanism(mech)
		c := clone(e)
		c["h"] = hashes(mech, pw, chal)
		c["err"] = ""
		var start, cont []byte
		keep := string(chal)
		pan, what := guard(func() {
			if e["via"] == "direct" {
				buf := filler(num(e["cap"]))[:0]
				start = append(start, starter.Start(buf, cr)...)
				if k, ok := starter.(authentication.StartContinuer); ok {
					cont = append(cont, k.Continue(buf, cr, chal)...)
				}
				return
			}
			f := &fakeConn{wfail: -1, frag: []int{7}, ctx: newCtx(0)}
			if _, ok := starter.(authentication.StartContinuer); ok {
				f.data = append(f.data, authContinue(chal)...)
			}
			f.data = append(f.data, frame(4, nil)...)
			if err := connection.New(f).Authenticate(f.ctx, cr, starter); err != nil {
				c["err"] = err.Error()
			}
			for i, w := range f.writes {
				if i == 0 {
					start = w
				} else {
					cont = append(cont, w...)
				}
			}
		})
		if pan {
			c["panic"] = fmt.Sprint(what)
		}
		c["pan"] = pan || string(chal) != keep
		c["start"] = tokens(start)
		c["cont"] = tokens(cont)
		log = append(log, c)
	}
	return log
}

func authMain(args []string) error {
	return replayAll(args, func(p program) []obj { return replayAuth(p.Ev) })
}
