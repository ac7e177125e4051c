package main

import (
	"vh/h"
	"vh/hnet"
)

var registry = map[string]func(){
	"hnet.Cmd":    hnet.Cmd,
	"hnet.Cli":    hnet.Cli,
	"hnet.Hkp":    hnet.Hkp,
	"hnet.GhUser": hnet.GhUser,
	"hnet.GhKey":  hnet.GhKey,
	"h.Pkt":       h.Pkt,
	"h.PktN":      h.PktN,
	"h.Area":      h.Area,
	"h.Areas":     h.Areas,
	"h.Emb":       h.Emb,
	"h.Again":     h.Again,
	"h.Sec":       h.Sec,
	"h.Sig":       h.Sig,
	"h.Sub":       h.Sub,
	"h.Ctx":       h.Ctx,
	"h.Frame":     h.Frame,
	"h.Frames":    h.Frames,
	"h.Chunk":     h.Chunk,
	"h.Errs":      h.Errs,
	"h.Nil":       h.Nil,
	"h.Around":    h.Around,
	"h.First":     h.First,
	"h.Corrupt":   h.Corrupt,
	"h.Long":      h.Long,
	"h.Clear":     h.Clear,
	"h.Dearmor":   h.Dearmor,
	"h.NoArmor":   h.NoArmor,
	"h.Comp":      h.Comp,
	"h.Many":      h.Many,
	"h.OptAPI":    h.OptAPI,
	"h.Cursor":    h.Cursor,
	"h.Text":      h.Text,
	"h.JSON":      h.JSON,
}
