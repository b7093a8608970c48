package c21

import "github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"

// entry is a documented key of the configuration.
type entry struct {
	key  string
	kind int // the value types of the protocol: 1 text, 2 number, 3 boolean, 4 list
	def  string
	num  func(c *conf.Configure) int64
	flag func(c *conf.Configure) bool
	text func(c *conf.Configure) string
}

// entries are the documented keys with their defaults.
var entries = []entry{
	{key: "obj_name", kind: 1, def: "go1", text: func(c *conf.Configure) string { return c.ObjNameSimple }},
	{key: "obj_type", kind: 1, def: "golang", text: func(c *conf.Configure) string { return c.ObjType }},
	{key: "trace_obj_send", kind: 3, def: "false", flag: func(c *conf.Configure) bool { return c.TraceObjSend }},
	{key: "send_queue_size", kind: 2, def: "3000", num: func(c *conf.Configure) int64 { return int64(c.SendQueueSize) }},
	{key: "net_collector_ip", kind: 1, def: "127.0.0.1", text: func(c *conf.Configure) string { return c.NetCollectorIP }},
	{key: "net_collector_udp_port", kind: 2, def: "6100", num: func(c *conf.Configure) int64 { return int64(c.NetCollectorUDPPort) }},
	{key: "net_collector_tcp_port", kind: 2, def: "6100", num: func(c *conf.Configure) int64 { return int64(c.NetCollectorTCPPort) }},
	{key: "net_collector_tcp_so_timeout_ms", kind: 2, def: "60000", num: func(c *conf.Configure) int64 { return int64(c.NetCollectorTcpSoTimeoutMs) }},
	{key: "net_collector_tcp_connection_timeout_ms", kind: 2, def: "3000", num: func(c *conf.Configure) int64 { return int64(c.NetCollectorTcpConnectionTimeoutMs) }},
	{key: "udp_max_bytes", kind: 2, def: "60000", num: func(c *conf.Configure) int64 { return int64(c.UDPMaxBytes) }},
	{key: "stuck_service_base_time_ms", kind: 2, def: "300000", num: func(c *conf.Configure) int64 { return int64(c.StuckServiceBaseTimeMs) }},
	{key: "stuck_service_remove_enabled", kind: 3, def: "true", flag: func(c *conf.Configure) bool { return c.StuckServiceRemoveEnabled }},
	{key: "stuck_service_alert_enabled", kind: 3, def: "true", flag: func(c *conf.Configure) bool { return c.StuckServiceAlertEnabled }},
	{key: "trace_activeservice_yellow_time", kind: 2, def: "3000", num: func(c *conf.Configure) int64 { return int64(c.TraceActiveserviceYellowTime) }},
	{key: "trace_activeservice_red_time", kind: 2, def: "8000", num: func(c *conf.Configure) int64 { return int64(c.TraceActiveserviceRedTime) }},
	{key: "profile_step_max_keep_in_memory_count", kind: 2, def: "2048", num: func(c *conf.Configure) int64 { return int64(c.ProfileStepMaxKeepInMemoryCount) }},
	{key: "profile_step_max_count", kind: 2, def: "1024", num: func(c *conf.Configure) int64 { return int64(c.ProfileStepMaxCount) }},
	{key: "profile_http_querystring_enabled", kind: 3, def: "false", flag: func(c *conf.Configure) bool { return c.ProfileHttpQuerystringEnabled }},
	{key: "profile_http_header_enabled", kind: 3, def: "false", flag: func(c *conf.Configure) bool { return c.ProfileHttpHeaderEnabled }},
	{key: "profile_http_header_keys", kind: 4, def: "", text: func(c *conf.Configure) string { return c.ProfileHttpHeaderKeys }},
	{key: "trace_http_client_ip_header_key", kind: 1, def: "", text: func(c *conf.Configure) string { return c.TraceHttpClientIpHeaderKey }},
	{key: "xlog_discard_service_patterns", kind: 4, def: "", text: func(c *conf.Configure) string { return c.XlogDiscardServicePatterns }},
	{key: "xlog_discard_service_show_error", kind: 3, def: "true", flag: func(c *conf.Configure) bool { return c.XlogDiscardServiceShowError }},
	{key: "xlog_sampling_exclude_patterns", kind: 4, def: "", text: func(c *conf.Configure) string { return c.XlogSamplingExcludePatterns }},
	{key: "xlog_sampling_enabled", kind: 3, def: "false", flag: func(c *conf.Configure) bool { return c.XlogSamplingEnabled }},
	{key: "xlog_sampling_only_profile", kind: 3, def: "false", flag: func(c *conf.Configure) bool { return c.XlogSamplingOnlyProfile }},
	{key: "xlog_sampling_step1_ms", kind: 2, def: "100", num: func(c *conf.Configure) int64 { return int64(c.XlogSamplingStep1Ms) }},
	{key: "xlog_sampling_step1_rate_pct", kind: 2, def: "2", num: func(c *conf.Configure) int64 { return int64(c.XlogSamplingStep1RatePct) }},
	{key: "xlog_sampling_step2_ms", kind: 2, def: "500", num: func(c *conf.Configure) int64 { return int64(c.XlogSamplingStep2Ms) }},
	{key: "xlog_sampling_step2_rate_pct", kind: 2, def: "7", num: func(c *conf.Configure) int64 { return int64(c.XlogSamplingStep2RatePct) }},
	{key: "xlog_sampling_step3_ms", kind: 2, def: "1000", num: func(c *conf.Configure) int64 { return int64(c.XlogSamplingStep3Ms) }},
	{key: "xlog_sampling_step3_rate_pct", kind: 2, def: "15", num: func(c *conf.Configure) int64 { return int64(c.XlogSamplingStep3RatePct) }},
	{key: "xlog_sampling_over_rate_pct", kind: 2, def: "3000", num: func(c *conf.Configure) int64 { return int64(c.XlogSamplingOverRatePct) }},
	{key: "xlog_patterned_sampling_enabled", kind: 3, def: "false", flag: func(c *conf.Configure) bool { return c.XlogPatternedSamplingEnabled }},
	{key: "xlog_patterned_sampling_service_patterns", kind: 4, def: "", text: func(c *conf.Configure) string { return c.XlogPatternedSamplingServicePatterns }},
	{key: "xlog_patterned_sampling_only_profile", kind: 3, def: "false", flag: func(c *conf.Configure) bool { return c.XlogPatternedSamplingOnlyProfile }},
	{key: "xlog_patterned_sampling_step1_ms", kind: 2, def: "100", num: func(c *conf.Configure) int64 { return int64(c.XlogPatternedSamplingStep1Ms) }},
	{key: "xlog_patterned_sampling_step1_rate_pct", kind: 2, def: "2", num: func(c *conf.Configure) int64 { return int64(c.XlogPatternedSamplingStep1RatePct) }},
	{key: "xlog_patterned_sampling_step2_ms", kind: 2, def: "500", num: func(c *conf.Configure) int64 { return int64(c.XlogPatternedSamplingStep2Ms) }},
	{key: "xlog_patterned_sampling_step2_rate_pct", kind: 2, def: "7", num: func(c *conf.Configure) int64 { return int64(c.XlogPatternedSamplingStep2RatePct) }},
	{key: "xlog_patterned_sampling_step3_ms", kind: 2, def: "1000", num: func(c *conf.Configure) int64 { return int64(c.XlogPatternedSamplingStep3Ms) }},
	{key: "xlog_patterned_sampling_step3_rate_pct", kind: 2, def: "15", num: func(c *conf.Configure) int64 { return int64(c.XlogPatternedSamplingStep3RatePct) }},
	{key: "xlog_patterned_sampling_over_rate_pct", kind: 2, def: "3000", num: func(c *conf.Configure) int64 { return int64(c.XlogPatternedSamplingOverRatePct) }},
	{key: "xlog_patterned2_sampling_enabled", kind: 3, def: "false", flag: func(c *conf.Configure) bool { return c.XlogPatterned2SamplingEnabled }},
	{key: "xlog_patterned2_sampling_service_patterns", kind: 4, def: "", text: func(c *conf.Configure) string { return c.XlogPatterned2SamplingServicePatterns }},
	{key: "xlog_patterned2_sampling_only_profile", kind: 3, def: "false", flag: func(c *conf.Configure) bool { return c.XlogPatterned2SamplingOnlyProfile }},
	{key: "xlog_patterned2_sampling_step1_ms", kind: 2, def: "100", num: func(c *conf.Configure) int64 { return int64(c.XlogPatterned2SamplingStep1Ms) }},
	{key: "xlog_patterned2_sampling_step1_rate_pct", kind: 2, def: "2", num: func(c *conf.Configure) int64 { return int64(c.XlogPatterned2SamplingStep1RatePct) }},
	{key: "xlog_patterned2_sampling_step2_ms", kind: 2, def: "500", num: func(c *conf.Configure) int64 { return int64(c.XlogPatterned2SamplingStep2Ms) }},
	{key: "xlog_patterned2_sampling_step2_rate_pct", kind: 2, def: "7", num: func(c *conf.Configure) int64 { return int64(c.XlogPatterned2SamplingStep2RatePct) }},
	{key: "xlog_patterned2_sampling_step3_ms", kind: 2, def: "1000", num: func(c *conf.Configure) int64 { return int64(c.XlogPatterned2SamplingStep3Ms) }},
	{key: "xlog_patterned2_sampling_step3_rate_pct", kind: 2, def: "15", num: func(c *conf.Configure) int64 { return int64(c.XlogPatterned2SamplingStep3RatePct) }},
	{key: "xlog_patterned2_sampling_over_rate_pct", kind: 2, def: "3000", num: func(c *conf.Configure) int64 { return int64(c.XlogPatterned2SamplingOverRatePct) }},
	{key: "xlog_patterned3_sampling_enabled", kind: 3, def: "false", flag: func(c *conf.Configure) bool { return c.XlogPatterned3SamplingEnabled }},
	{key: "xlog_patterned3_sampling_service_patterns", kind: 4, def: "", text: func(c *conf.Configure) string { return c.XlogPatterned3SamplingServicePatterns }},
	{key: "xlog_patterned3_sampling_only_profile", kind: 3, def: "false", flag: func(c *conf.Configure) bool { return c.XlogPatterned3SamplingOnlyProfile }},
	{key: "xlog_patterned3_sampling_step1_ms", kind: 2, def: "100", num: func(c *conf.Configure) int64 { return int64(c.XlogPatterned3SamplingStep1Ms) }},
	{key: "xlog_patterned3_sampling_step1_rate_pct", kind: 2, def: "2", num: func(c *conf.Configure) int64 { return int64(c.XlogPatterned3SamplingStep1RatePct) }},
	{key: "xlog_patterned3_sampling_step2_ms", kind: 2, def: "500", num: func(c *conf.Configure) int64 { return int64(c.XlogPatterned3SamplingStep2Ms) }},
	{key: "xlog_patterned3_sampling_step2_rate_pct", kind: 2, def: "7", num: func(c *conf.Configure) int64 { return int64(c.XlogPatterned3SamplingStep2RatePct) }},
	{key: "xlog_patterned3_sampling_step3_ms", kind: 2, def: "1000", num: func(c *conf.Configure) int64 { return int64(c.XlogPatterned3SamplingStep3Ms) }},
	{key: "xlog_patterned3_sampling_step3_rate_pct", kind: 2, def: "15", num: func(c *conf.Configure) int64 { return int64(c.XlogPatterned3SamplingStep3RatePct) }},
	{key: "xlog_patterned3_sampling_over_rate_pct", kind: 2, def: "3000", num: func(c *conf.Configure) int64 { return int64(c.XlogPatterned3SamplingOverRatePct) }},
}
