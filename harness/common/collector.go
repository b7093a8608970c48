package hcommon

import "github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"

// Collected is what the collector got.
type Collected struct{ Packs []*Pack }

// Collect decodes datagrams, none of which is a fragment.
func Collect(datagrams [][]byte) *Collected {
	c := &Collected{}
	for _, d := range datagrams {
		c.Packs = append(c.Packs, Datagram(d)...)
	}
	return c
}

// Xlogs are the transaction records of txid.
func (c *Collected) Xlogs(txid int64) []*Xlog {
	var r []*Xlog
	for _, p := range c.Packs {
		if p.Xlog != nil && p.Xlog.Txid == txid {
			r = append(r, p.Xlog)
		}
	}
	return r
}

// Xlog is the only transaction record of txid.
func (c *Collected) Xlog(txid int64) *Xlog {
	r := c.Xlogs(txid)
	vrt.Assert(len(r) > 0, "the record of a service is not sent")
	vrt.Assert(len(r) == 1, "the record of a service is sent more than once")
	return r[0]
}

// Steps are all steps delivered for txid, in order of arrival.
func (c *Collected) Steps(txid int64) []Step {
	var r []Step
	for _, p := range c.Packs {
		if p.Profile != nil && p.Profile.Txid == txid {
			r = append(r, p.Profile.Steps...)
		}
	}
	return r
}

// Text is the text the collector knows for a hash of a kind.
func (c *Collected) Text(kind string, hash int32) string {
	for _, p := range c.Packs {
		if p.Tag == 50 && p.Xtype == kind && p.Hash == hash {
			return p.Text
		}
	}
	vrt.Assert(hash == 0, "a hash of kind "+kind+" is sent but its text is not")
	return ""
}
