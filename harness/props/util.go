// Package props holds the harnesses: one function per claim, named
// H_<property>_<name>. Inputs come from vsym; the engine explores them
// symbolically and the native build replays them.
package props

import (
	"github.com/Eyevinn/dash-mpd/xml"
)

func xmlName(s string) xml.Name    { return xml.Name{Local: s} }
func xmlAttr(n, v string) xml.Attr { return xml.Attr{Name: xml.Name{Local: n}, Value: v} }
