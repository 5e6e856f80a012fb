package librtmp

import (
	"errors"

	"github.com/SmartBrave/Athena/easyio"
	"github.com/sbraveyoung/GGmpeg/libflv"
)

// vAmf stands for the AMF decoder: some error, or some values.
type vAmf struct {
	vals []interface{}
	bad  bool
}

func (a *vAmf) Decode(r easyio.EasyReader) ([]interface{}, error) {
	if a.bad {
		return nil, errors.New("bad")
	}
	return a.vals, nil
}
func (a *vAmf) Encode(w easyio.EasyWriter, v interface{}) error { return nil }

func vVal(kind uint8, s string, f float64, b bool) interface{} {
	switch kind {
	case 0:
		return s
	case 1:
		return f
	case 2:
		return b
	case 3:
		return map[string]interface{}{s: f}
	case 4:
		return []byte(s)
	}
	return nil
}

var (
	vBadObject bool
	vSent      int
	vRoomThere bool
	vStored    int
)

//verif:model github.com/goinggo/mapstructure.Decode
func vmMapstructure(in, out interface{}) error {
	if vBadObject {
		return errors.New("bad object")
	}
	return nil
}

//verif:model (*github.com/sbraveyoung/GGmpeg/librtmp.CommandMessageResponse).Send
func vmRespond(cmr *CommandMessageResponse) error {
	vSent++
	return nil
}

//verif:model (*github.com/sbraveyoung/GGmpeg/librtmp.App).Load
func vmLoad(app *App, id string) *Room {
	if vRoomThere {
		return &Room{}
	}
	return nil
}

//verif:model (*github.com/sbraveyoung/GGmpeg/librtmp.App).Store
func vmStore(app *App, id string, room *Room) { vStored++ }

// The first values of a command can be anything at all, and there may be any number.
//
//verif:noreplay
//verif:note the AMF decoder is represented by an arbitrary list of values
func vh_command_shape(k0, k1, k2 uint8, s string, f float64, b, bad bool, n int) {
	vRequires(0 <= n && n <= 6)
	vals := []interface{}{vVal(k0, s, f, b), vVal(k1, s, f, b), vVal(k2, s, f, b), nil, nil, nil}
	cm := NewCommandMessage(MessageBase{rtmp: vConn(nil), amf: &vAmf{vals[:n], bad}})
	err := cm.Parse()
	if bad || n < 3 || k0 != 0 || k1 != 1 {
		vEnsures("refused", err != nil)
	}
}

// The arguments of every command can be anything.
//
//verif:noreplay
//verif:note the AMF decoder is represented by an arbitrary list of values
func vh_command_args(name string, k3, k4 uint8, s string, f float64, b, bad, there, app bool, n int) {
	vRequires(3 <= n && n <= 5)
	vBadObject, vRoomThere, vSent, vStored = bad, there, 0, 0
	r := vConn(nil)
	r.app = "live"
	if app {
		r.server.apps["live"] = &App{}
	}
	vals := []interface{}{name, f, nil, vVal(k3, s, f, b), vVal(k4, s, f, b)}
	cm := NewCommandMessage(MessageBase{rtmp: r, amf: &vAmf{vals[:n], false}})
	err := cm.Parse()
	if name == "publish" && n < 5 || name == "play" && n < 4 || name == "connect" && bad {
		vEnsures("refused", err != nil)
	}
	if err != nil {
		vEnsures("nothing done", vSent == 0 && vStored == 0 && r.room == nil)
		return
	}
	vEnsures("name", cm.CommandName == name)
	if name == "play" || name == "publish" {
		vEnsures("stream name", k3 != 0 || cm.PublishingName == s)
	}
	err = cm.Do()
	if !app && (name == "publish" || name == "play") {
		vEnsures("unknown application", err != nil && vStored == 0 && r.room == nil)
	}
	if name == "publish" && app {
		vEnsures("only when the name is free", (vStored == 1) == !there)
	}
}

// Data messages: any shape.
//
//verif:noreplay
//verif:note the AMF decoder is represented by an arbitrary list of values
func vh_data_shape(k0, k1, k2 uint8, s string, f float64, b, bad, badObj, room bool, n int) {
	vRequires(0 <= n && n <= 4)
	vBadObject = badObj
	vals := []interface{}{vVal(k0, s, f, b), vVal(k1, s, f, b), vVal(k2, s, f, b), nil}
	r := vConn(nil)
	if room {
		r.room = NewRoom(r, "x")
	}
	m := NewDataMessage(MessageBase{rtmp: r, amf: &vAmf{vals[:n], bad}})
	err := m.Parse()
	if bad || n < 2 {
		vEnsures("refused", err != nil)
	}
	if err == nil {
		m.Do()
	}
}

//verif:model (*github.com/sbraveyoung/GGmpeg/libflv.MetaTag).Marshal
func vmMeta(mt *libflv.MetaTag) []byte { return vMeta }

var vMeta []byte
