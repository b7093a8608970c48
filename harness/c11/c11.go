// Package c11: sampling and discard decisions follow the configuration.
package c11

import (
	"context"

	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/strace/tctxmanager"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hcommon"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/hconf"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/net"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/rand"
	"github.com/scouter-contrib/scouter-agent-golang/scouterx/zzvrt/vrt"
)

//verif:stmt strace

const (
	none    = 1
	all     = 2
	profile = 3
	force   = 4
)

// outcome is what the collector sees of a finished service.
type outcome struct {
	xlog    *hcommon.Xlog
	profile bool
}

// serve runs a service of the given elapsed time. A child belongs to a transaction started elsewhere.
func serve(name string, elapsed int64, failed, child bool) outcome {
	kind, text := 0, ""
	if child {
		kind = 1
	}
	if failed {
		text = "boom"
	}
	return serveAs(name, elapsed, text, kind)
}

// serveAs: kind 0 is a service of its own, 1 one with the group of another, 2 one by inheritance, 3 a
// goroutine's. It fails with the text, if there is one.
func serveAs(name string, elapsed int64, failure string, kind int) outcome {
	ctx := strace.StartService(context.Background(), name, "1.2.3.4")
	tctx := tctxmanager.GetTraceContext(ctx)
	switch kind {
	case 1:
		tctx.Gxid = tctx.Txid ^ 0x55
	case 2:
		ctx, tctx = strace.StartNewInheritanceService(context.Background(), tctx)
	}
	txid := tctx.Txid
	net.Datagrams = nil
	run := func(ctx context.Context) {
		if failure != "" {
			strace.MarkAsError(ctx, failure)
		}
		vrt.Advance(elapsed)
	}
	if kind == 3 {
		tctx.ServiceName = "/parent"
		strace.GoWithTrace(ctx, name, func(ctx context.Context) {
			txid = tctxmanager.GetTraceContext(ctx).Txid
			run(ctx)
		})
	} else {
		run(ctx)
		strace.EndService(ctx)
	}
	vrt.RunFor(400)
	var o outcome
	for _, d := range net.Datagrams {
		for _, p := range hcommon.Datagram(d) {
			if p.Xlog != nil {
				vrt.Assert(o.xlog == nil && p.Xlog.Txid == txid, "a service is sent more than once")
				o.xlog = p.Xlog
			}
			if p.Profile != nil {
				o.profile = true
			}
		}
	}
	return o
}

// follows checks that what was sent is what the decision means.
func follows(o outcome, decision byte, child bool) {
	switch decision {
	case none:
		vrt.Assert(o.xlog != nil, "a service that is to be sent is dropped")
		vrt.Assert(o.profile, "the profile of a service that is to be sent is missing")
	case profile:
		vrt.Assert(o.xlog != nil, "a service of which only the profile is to be dropped is dropped")
		vrt.Assert(!o.profile, "a profile that is to be dropped is sent")
	case all:
		vrt.Assert(!o.profile, "the profile of a dropped service is sent")
		vrt.Assert((o.xlog != nil) == child, "a service sampled out is sent, or one that belongs to a transaction started elsewhere is dropped")
	case force:
		vrt.Assert(o.xlog == nil && !o.profile, "a service of the discard patterns is sent")
	}
	if o.xlog != nil {
		vrt.Assert(o.xlog.Discard == decision, "the discard type sent is not the decision")
	}
}

// steps are the options of one kind of sampling.
type steps struct {
	ms          [3]*int32
	rate        [4]*int
	onlyProfile *bool
}

func group(c *conf.Configure, i int) steps {
	switch i {
	case 1:
		return steps{[3]*int32{&c.XlogPatternedSamplingStep1Ms, &c.XlogPatternedSamplingStep2Ms, &c.XlogPatternedSamplingStep3Ms},
			[4]*int{&c.XlogPatternedSamplingStep1RatePct, &c.XlogPatternedSamplingStep2RatePct, &c.XlogPatternedSamplingStep3RatePct, &c.XlogPatternedSamplingOverRatePct}, &c.XlogPatternedSamplingOnlyProfile}
	case 2:
		return steps{[3]*int32{&c.XlogPatterned2SamplingStep1Ms, &c.XlogPatterned2SamplingStep2Ms, &c.XlogPatterned2SamplingStep3Ms},
			[4]*int{&c.XlogPatterned2SamplingStep1RatePct, &c.XlogPatterned2SamplingStep2RatePct, &c.XlogPatterned2SamplingStep3RatePct, &c.XlogPatterned2SamplingOverRatePct}, &c.XlogPatterned2SamplingOnlyProfile}
	case 3:
		return steps{[3]*int32{&c.XlogPatterned3SamplingStep1Ms, &c.XlogPatterned3SamplingStep2Ms, &c.XlogPatterned3SamplingStep3Ms},
			[4]*int{&c.XlogPatterned3SamplingStep1RatePct, &c.XlogPatterned3SamplingStep2RatePct, &c.XlogPatterned3SamplingStep3RatePct, &c.XlogPatterned3SamplingOverRatePct}, &c.XlogPatterned3SamplingOnlyProfile}
	}
	return steps{[3]*int32{&c.XlogSamplingStep1Ms, &c.XlogSamplingStep2Ms, &c.XlogSamplingStep3Ms},
		[4]*int{&c.XlogSamplingStep1RatePct, &c.XlogSamplingStep2RatePct, &c.XlogSamplingStep3RatePct, &c.XlogSamplingOverRatePct}, &c.XlogSamplingOnlyProfile}
}

var prefix = []string{"xlog_sampling_", "xlog_patterned_sampling_", "xlog_patterned2_sampling_", "xlog_patterned3_sampling_"}

// effective is the kind of sampling that decides: 0 general, 1..3 patterned, -1 none.
func effective(enabled, match [4]bool) int {
	for i := 1; i <= 3; i++ {
		if enabled[i] && match[i] {
			return i
		}
	}
	if enabled[0] {
		return 0
	}
	return -1
}

func onoff(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

// mixed configures samplings that treat five services differently: see decision.
func mixed() {
	hconf.Set("xlog_sampling_enabled=true", "xlog_sampling_step1_ms=10", "xlog_sampling_step1_rate_pct=100", "xlog_sampling_step2_rate_pct=0", "xlog_sampling_step3_rate_pct=0", "xlog_sampling_over_rate_pct=0",
		"xlog_patterned_sampling_enabled=true", "xlog_patterned_sampling_service_patterns=/a*", "xlog_patterned_sampling_step1_ms=10", "xlog_patterned_sampling_step1_rate_pct=0", "xlog_patterned_sampling_step2_rate_pct=100", "xlog_patterned_sampling_step3_rate_pct=100", "xlog_patterned_sampling_over_rate_pct=100",
		"xlog_patterned2_sampling_enabled=true", "xlog_patterned2_sampling_service_patterns=/b*", "xlog_patterned2_sampling_only_profile=true", "xlog_patterned2_sampling_step1_ms=10", "xlog_patterned2_sampling_step1_rate_pct=100", "xlog_patterned2_sampling_step2_rate_pct=0", "xlog_patterned2_sampling_step3_rate_pct=0", "xlog_patterned2_sampling_over_rate_pct=0",
		"xlog_sampling_exclude_patterns=/x*", "xlog_discard_service_patterns=/d*", "xlog_discard_service_show_error=false")
}

var names = []string{"/ab", "/bb", "/cb", "/xb", "/db"}

// decision is what mixed means for the i-th name.
func decision(i int, elapsed int64, failed bool) byte {
	short := elapsed < 10
	switch {
	case i == 4:
		return force
	case failed, i == 3, i == 0 && !short, i > 0 && short:
		return none
	case i == 1:
		return profile
	}
	return all
}

// H_Sequence: each service is decided on its own.
func H_Sequence() {
	n := 3
	if vrt.Thorough() {
		n = 4
	}
	vrt.Bound("all sequences of 3 (thorough 4) services out of five that the configuration treats differently, short or long, the first one failed or not")
	mixed()
	for k := 0; k < n; k++ {
		i, elapsed := vrt.Choose("name", len(names)), []int64{5, 50}[vrt.Choose("long", 2)]
		failed := k == 0 && vrt.Choose("failed", 2) == 1
		follows(serve(names[i], elapsed, failed, false), decision(i, elapsed, failed), false)
	}
}

// H_Together: services that end at the same time do not disturb each other's decisions.
func H_Together() {
	vrt.Bound("two different services out of five that the configuration treats differently (thorough: any two), one short, one long, ended by two goroutines at the same time, every statement of strace a possible switch; 1 switch (2 in thorough); data races")
	mixed()
	i := vrt.Choose("first", len(names))
	j := (i + 1 + vrt.Choose("second", 2)) % len(names)
	if vrt.Thorough() {
		j = vrt.Choose("any", len(names))
	}
	a := strace.StartService(context.Background(), names[i], "1.2.3.4")
	vrt.Advance(45)
	b := strace.StartService(context.Background(), names[j], "1.2.3.4")
	vrt.Advance(5)
	ta, tb := tctxmanager.GetTraceContext(a).Txid, tctxmanager.GetTraceContext(b).Txid
	t := vrt.Spawn(func() { strace.EndService(a) })
	vrt.Race()
	n := 1
	if vrt.Thorough() {
		n = 2
	}
	vrt.Explore(n)
	strace.EndService(b)
	vrt.Join(t)
	vrt.NoExplore()
	vrt.RunFor(400)
	got := hcommon.Collect(net.Datagrams)
	of := func(txid int64) outcome {
		var o outcome
		for _, x := range got.Xlogs(txid) {
			vrt.Assert(o.xlog == nil, "a service is sent more than once")
			o.xlog = x
		}
		o.profile = len(got.Steps(txid)) > 0
		return o
	}
	follows(of(ta), decision(i, 50, false), false)
	follows(of(tb), decision(j, 5, false), false)
}

// H_Steps: thresholds and rates of each kind of sampling.
func H_Steps() {
	vrt.MustCover("sent")
	vrt.MustCover("dropped")
	vrt.Bound("each kind of sampling, all thresholds and rates, all draws; elapsed times 0, 1, 100 and 3000 ms")
	g := vrt.Choose("group", 4)
	only := vrt.BoolV("only profile")
	c := hconf.Set(prefix[g]+"enabled=true", prefix[g]+"service_patterns=/a*")
	s := group(c, g)
	for i := range s.ms {
		*s.ms[i] = vrt.I32("ms")
	}
	for i := range s.rate {
		*s.rate[i] = int(vrt.I32("rate"))
	}
	*s.onlyProfile = only
	rand.Draw = func(n int64) int64 {
		d := vrt.I64("draw")
		vrt.Assume(vrt.And(d >= 0, d < n))
		return d
	}
	elapsed := []int64{0, 1, 100, 3000}[vrt.Choose("elapsed", 4)]
	child := vrt.Choose("child", 2) == 1
	o := serve("/abc", elapsed, false, child)
	rand.Draw = nil
	e := int32(elapsed)
	rate := vrt.Ite(e < *s.ms[0], int64(*s.rate[0]), vrt.Ite(e < *s.ms[1], int64(*s.rate[1]), vrt.Ite(e < *s.ms[2], int64(*s.rate[2]), int64(*s.rate[3]))))
	dropped := !o.profile
	vrt.Assert(vrt.Or(dropped, rate > 0), "a service is sent although the rate of its step is 0")
	vrt.Assert(vrt.Or(!dropped, rate < 100), "a service is dropped although the rate of its step is 100")
	if !dropped {
		vrt.Cover("sent")
		follows(o, none, child)
	} else {
		vrt.Cover("dropped")
		if only {
			follows(o, profile, child)
		} else {
			follows(o, all, child)
		}
	}
}

// H_Rate: of the 100 equally likely draws as many send the service as the rate says.
func H_Rate() {
	vrt.Bound("rates 0..100 of the general sampling, rates 1, 37 and 99 of the others; all 100 draws")
	g, st := vrt.Choose("group", 4), vrt.Choose("step", 4)
	var rate int
	if g == 0 && (st == 0 || vrt.Thorough()) {
		rate = int(vrt.U8("rate"))
		vrt.Assume(rate <= 100)
	} else {
		rate = []int{1, 37, 99}[vrt.Choose("rate", 3)]
	}
	c := hconf.Set(prefix[g]+"enabled=true", prefix[g]+"service_patterns=/a*")
	s := group(c, g)
	*s.ms[0], *s.ms[1], *s.ms[2] = 10, 20, 30
	*s.rate[0], *s.rate[1], *s.rate[2], *s.rate[3] = 0, 0, 0, 0
	*s.rate[st] = rate
	sent := 0
	for d := int64(0); d < 100; d++ {
		rand.Draw = func(n int64) int64 {
			vrt.Assert(n%100 == 0, "draws are not equally likely")
			return d * (n / 100)
		}
		if o := serve("/abc", int64(5+10*st), false, false); o.xlog != nil {
			sent++
		}
	}
	rand.Draw = nil
	vrt.Assert(sent == rate, "the share of services sent is not the rate")
}

// H_Order: which option decides, for every combination of them.
func H_Order() {
	vrt.Bound("all combinations of enabled and matching patterns of the four kinds of sampling, exclusion, discard patterns, error, show-error and (with discard patterns and rate 0, all in thorough) services of transactions started elsewhere (by another agent, by inheritance, with GoWithTrace); errors with hashes of both signs; patterns as lists; rates 0 and 100")
	var en, ma [4]bool
	for i := range en {
		en[i] = vrt.Choose("enabled", 2) == 1
		if i > 0 {
			// the patterns of a sampling that is off match, which must make no difference
			ma[i] = !en[i] || vrt.Choose("match", 2) == 1
		}
	}
	rates := 100 * vrt.Choose("rate", 2)
	excl, disc := vrt.Choose("excluded", 2) == 1, vrt.Choose("discard", 2) == 1
	failed, show := vrt.Choose("error", 2) == 1, true
	if disc {
		show = vrt.Choose("show", 2) == 1
	}
	child := 0
	if vrt.Thorough() || disc && rates == 0 {
		child = vrt.Choose("child", 4)
	}
	text := ""
	if failed {
		text = "boom" // with a positive hash
		if (vrt.Thorough() || disc || rates == 0) && vrt.Choose("text", 2) == 1 {
			text = "failed" // with a negative hash
		}
	}
	pat := func(m bool) string {
		if m {
			return "/x,/s*e"
		}
		return "/x,/s*x"
	}
	lines := []string{"xlog_discard_service_show_error=" + onoff(show)}
	if excl {
		lines = append(lines, "xlog_sampling_exclude_patterns=/x,*vice")
	}
	if disc {
		lines = append(lines, "xlog_discard_service_patterns=/service,/y")
	}
	for i := range en {
		lines = append(lines, prefix[i]+"enabled="+onoff(en[i]))
		if i > 0 {
			lines = append(lines, prefix[i]+"service_patterns="+pat(ma[i]))
		}
	}
	c := hconf.Set(lines...)
	d := effective(en, ma)
	for i := 0; i < 4; i++ {
		s := group(c, i)
		for j := range s.rate {
			*s.rate[j] = 100 - rates
			if i == d {
				*s.rate[j] = rates
			}
		}
	}
	want := byte(none)
	switch {
	case disc && !(failed && show):
		want = force
	case disc || failed || en[0] && excl:
	case d >= 0 && rates == 0:
		want = all
	}
	follows(serveAs("/service", 50, text, child), want, child > 0)
}

// H_Reload: the decision follows the configuration also when it changes after the first service.
func H_Reload() {
	vrt.Bound("one change of each kind of pattern list (set, replaced, removed) between two services")
	hconf.Set()
	follows(serve("/service", 1, false, false), none, false)
	k := vrt.Choose("kind", 5)
	keys := []string{"xlog_discard_service_patterns", "xlog_patterned_sampling_service_patterns", "xlog_patterned2_sampling_service_patterns", "xlog_patterned3_sampling_service_patterns", "xlog_sampling_exclude_patterns"}
	set := func(pattern string) {
		lines := []string{keys[k] + "=" + pattern}
		switch {
		case k == 4:
			lines = append(lines, "xlog_sampling_enabled=true", "xlog_sampling_step1_rate_pct=0")
		case k > 0:
			lines = append(lines, prefix[k]+"enabled=true", prefix[k]+"step1_rate_pct=0")
		}
		hconf.Set(lines...)
	}
	want := func(match bool) byte {
		switch {
		case k == 0 && match:
			return force
		case k > 0 && k < 4 && match, k == 4 && !match:
			return all
		}
		return none
	}
	ps := []string{"/service", "/ser*", "/other", "", "*,x", "/s*e,y"}
	ms := []bool{true, true, false, false, true, true}
	for i := 0; i < 2; i++ {
		p := vrt.Choose("pattern", len(ps))
		set(ps[p])
		follows(serve("/service", 1, false, false), want(ms[p]), false)
	}
}
