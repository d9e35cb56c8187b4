//go:build xtnames

package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"net"

	"github.com/golang/protobuf/proto"
	"github.com/renthraysk/xtorm"
	"github.com/renthraysk/xtorm/collation"
	"github.com/renthraysk/xtorm/netx"
	"github.com/renthraysk/xtorm/netx/connection"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_crud"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_sql"
)

func init() { commands["names"] = namesMain }

// sent is a sender that keeps what it is given.
type sent struct{ b []byte }

func (s *sent) Send(ctx context.Context, b []byte) ([]netx.Response, error) {
	s.b = append([]byte(nil), b...)
	return nil, nil
}

func (s *sent) message() []byte {
	n := int(binary.LittleEndian.Uint32(s.b))
	return s.b[5 : 4+n]
}

// collationSent is the collation that reaches the server, -1 for anything else.
func collationSent(c collation.Collation, expr bool) int {
	var s sent
	x := xtorm.New(64)
	v := xtorm.String{Value: "v", Collation: c}
	if !expr {
		x.StmtExecute("q", v)
		x.Send(context.Background(), &s)
		var m mysqlx_sql.StmtExecute
		if err := proto.Unmarshal(s.message(), &m); err != nil || len(m.Args) != 1 || m.Args[0].GetScalar().GetVString().Collation == nil {
			return -1
		}
		return int(m.Args[0].Scalar.VString.GetCollation())
	}
	x.Insert("t", []string{"c"}, [][]interface{}{{v}})
	x.Send(context.Background(), &s)
	var m mysqlx_crud.Insert
	if err := proto.Unmarshal(s.message(), &m); err != nil || len(m.Row) != 1 || len(m.Row[0].Field) != 1 || m.Row[0].Field[0].GetLiteral().GetVString().Collation == nil {
		return -1
	}
	return int(m.Row[0].Field[0].Literal.VString.GetCollation())
}

// errorReceived is what becomes of a server's error with the given code.
func errorReceived(code uint32, fatal bool) (got int, isFatal bool) {
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	sev := 0
	if fatal {
		sev = 1
	}
	reply := serverMessage(obj{"t": 1.0, "sev": float64(sev), "code": float64(code), "state": "HY000", "msg": "no"})
	go func() {
		var h [4]byte
		if _, err := io.ReadFull(b, h[:]); err != nil {
			return
		}
		io.CopyN(io.Discard, b, int64(binary.LittleEndian.Uint32(h[:])))
		b.Write(reply)
	}()
	r, err := connection.New(a).Send(context.Background(), []byte{2, 0, 0, 0, 12, 0})
	var e *connection.MySqlXError
	if len(r) == 1 {
		e, _ = r[0].(*connection.MySqlXError)
	}
	if e == nil || (err != nil) != fatal {
		return -1, false
	}
	return int(e.Code), e.IsFatal()
}

func replayNames(ev []obj) []obj {
	var log []obj
	for _, e := range ev {
		c := clone(e)
		pan, what := guard(func() {
			switch e["k"] {
			case "name":
				v := collation.Collation(num(e["id"]))
				c["text"], c["binary"] = v.String(), v.IsBinary()
			case "collation":
				v, ok := collationConsts[e["const"].(string)]
				if !ok {
					panic("no such constant")
				}
				c["id"], c["arg"], c["expr"] = int(v), collationSent(v, false), collationSent(v, true)
			case "error":
				v, ok := errorConsts[e["const"].(string)]
				if !ok {
					panic("no such constant")
				}
				c["code"] = int(v)
				c["got"], c["fatal"] = errorReceived(v, e["sent"].(bool))
			}
		})
		if c["pan"] = pan; pan {
			c["panic"] = fmt.Sprint(what)
		}
		log = append(log, c)
	}
	return log
}

func namesMain(args []string) error {
	return replayAll(args, func(p program) []obj { return replayNames(p.Ev) })
}
